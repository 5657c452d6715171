package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"thrift"
)

// C29: what the generator makes of a definition has the names, ids, types and values the definition gives. (That the
// generator runs cleanly and its output compiles is for tools/gencheck.py to see.)

func init() { props["C29"] = genFaithful }

func (s *gSet) goType(t *gT) reflect.Type {
	t = t.real()
	switch t.K {
	case "enum":
		return reflect.TypeOf(s.Enums[t.Prog+"."+t.Name].Of(0))
	case "struct", "exception":
		return reflect.TypeOf(s.New[t.Prog+"."+t.Name]())
	case "list":
		return reflect.TypeOf((*thrift.TList)(nil)).Elem()
	case "set":
		return reflect.TypeOf((*thrift.TSet)(nil)).Elem()
	case "map":
		return reflect.TypeOf((*thrift.TMap)(nil)).Elem()
	}
	return reflect.TypeOf(native(&V{T: t.wire()}))
}

type gObj interface {
	thrift.TStruct
	Read(thrift.TProtocol) thrift.TProtocolException
	Write(thrift.TProtocol) thrift.TProtocolException
}

func genFaithful(r *Run) {
	n := 0
	for _, s := range gSets {
		s := s
		for _, st := range s.all {
			st := st
			r.Case("struct", n, func(t *T) { genStructCase(t, s, st) })
			n++
		}
	}
	n = 0
	for _, s := range gSets {
		s := s
		for _, p := range s.progs {
			for _, e := range p.Enums {
				p, e := p, e
				r.Case("enum", n, func(t *T) { genEnumCase(t, s, p, e) })
				n++
			}
		}
	}
	n = 0
	for _, s := range gSets {
		s := s
		for _, p := range s.progs {
			for _, c := range p.Consts {
				p, c := p, c
				r.Case("constant", n, func(t *T) {
					t.Desc(func() string { return fmt.Sprintf("constant %s.%s of type %s", p.Name, c.Name, c.Type) })
					want := s.canon(s.lit(c.Value, c.Type), c.Type)
					x := s.Consts[p.Name+"."+c.Name]()
					got := s.see(x, c.Type)
					if want != got {
						t.Fail("constant %s of type %s: the definition gives %s, the generated package has %s", c.Name, c.Type, want, got)
					}
					t.Count("constants_compared", 1)
					t.Seen(hashStr(1, want))
				})
				n++
			}
		}
	}
	n = 0
	for _, s := range gSets {
		s := s
		for _, sv := range s.allSvcs {
			sv := sv
			r.Case("service", n, func(t *T) { genServiceCase(t, s, sv) })
			n++
		}
	}
}

func genStructCase(t *T, s *gSet, st *gStruct) {
	t.Desc(func() string { return "definition set " + s.Name + ", " + st.key })
	x := s.New[st.key]()
	rt := reflect.TypeOf(x)
	if rt.Kind() != reflect.Ptr || rt.Elem().Kind() != reflect.Struct {
		t.Fail("the constructor of %s gives a %T", st.Name, x)
		return
	}
	if st.Go != "" && rt.Elem().Name() != st.Go {
		t.Fail("the constructor of %s gives a %T", st.Name, x)
	}
	o, ok := x.(gObj)
	if !ok {
		t.Fail("%T is not a struct that can be read and written", x)
		return
	}
	shape := st.Name
	want := map[string]*gField{}
	for _, f := range st.Fields {
		want[f.Go] = f
		shape += "," + f.Req + f.Type.String()
		sf, ok := rt.Elem().FieldByName(f.Go)
		if !ok {
			t.Fail("%T has no field %s for %s", x, f.Go, f.Name)
			return
		}
		if gt := s.goType(f.Type); sf.Type != gt {
			t.Fail("field %s of %T is a %s; its type %s asks for %s", f.Go, x, sf.Type, f.Type, gt)
		}
		if string(sf.Tag) != f.Name {
			t.Fail("field %s of %T is tagged %q, its name is %q", f.Go, x, sf.Tag, f.Name)
		}
		t.Count("fields_compared", 1)
		_, isset := rt.MethodByName("IsSet" + f.Go)
		if (f.Req == "optional" || f.Type.real().K == "enum") != isset && !(isset && st.args) {
			t.Fail("field %s of %T (%s, %s): whether there is an IsSet method: %v", f.Go, x, f.Req, f.Type, isset)
		}
	}
	for i := 0; i < rt.Elem().NumField(); i++ {
		sf := rt.Elem().Field(i)
		if !sf.Anonymous && sf.PkgPath == "" && want[sf.Name] == nil {
			t.Fail("%T has a field %s that the definition does not give", x, sf.Name)
		}
	}
	// the fresh struct
	fresh := s.canonS(&V{T: thrift.STRUCT}, st)
	if got := s.seeS(x, st); got != fresh {
		t.Fail("a fresh %T should hold %s and holds %s", x, fresh, got)
	}
	t.Count("fresh_structs_compared", 1)
	// it does not share its defaults with others
	e := reflect.ValueOf(x).Elem()
	for _, f := range st.Fields {
		fv := e.FieldByName(f.Go)
		switch f.Type.real().K {
		case "list", "set", "map", "struct", "exception":
			if !fv.IsNil() {
				v := s.value(t.R, f.Type, 2)
				switch c := fv.Interface().(type) {
				case thrift.TList:
					for _, e := range v.L {
						c.Push(s.build(e, f.Type.real().Val))
					}
				case thrift.TSet:
					for _, e := range v.L {
						c.Add(s.build(e, f.Type.real().Val))
					}
				case thrift.TMap:
					for i := 0; i+1 < len(v.L); i += 2 {
						c.Set(s.build(v.L[i], f.Type.real().Key), s.build(v.L[i+1], f.Type.real().Val))
					}
				default:
					s.fill(fv.Interface(), v, s.of(f.Type))
				}
			}
		case "binary":
			if b := fv.Bytes(); len(b) > 0 {
				b[0] ^= 0x55
			}
		}
	}
	if got := s.seeS(s.New[st.key](), st); got != fresh {
		t.Fail("after the defaults of one %T were changed a fresh one should hold %s and holds %s", x, fresh, got)
	}
	// metadata
	if st.Name != "" {
		if g := o.ThriftName(); g != st.Name {
			t.Fail("%T gives its name as %q, it is %q", x, g, st.Name)
		}
		if g := o.TStructName(); g != st.Name && g != rt.Elem().Name() {
			t.Fail("%T gives its struct name as %q, it is %q", x, g, st.Name)
		}
	}
	fc := o.TStructFields()
	if fc.Len() != len(st.Fields) {
		t.Fail("%T tells of %d fields, the definition gives %d", x, fc.Len(), len(st.Fields))
	}
	y := s.New[st.key]()
	v := s.strct(t.R, st, 3)
	s.fill(y, v, st)
	at := y.(interface{ AttributeByFieldId(int) interface{} })
	for _, f := range st.Fields {
		m := fc.FieldFromFieldId(f.ID)
		if m == nil {
			t.Fail("%T does not tell of field %d", x, f.ID)
			continue
		}
		if m.Name() != f.Name || m.Id() != f.ID {
			t.Fail("%T tells of field %d %q, the definition has %d %q", x, m.Id(), m.Name(), f.ID, f.Name)
		}
		w := f.Type.wire()
		if g := m.TypeId(); wireT(g) != wireT(w) && !(f.Type.real().K == "enum" && g == thrift.ENUM) {
			t.Fail("%T tells that field %s is a %s, it is a %s", x, f.Name, tname(g), f.Type)
		}
		if f2 := fc.FieldFromFieldName(f.Name); f2 == nil || f2.Id() != f.ID {
			t.Fail("%T does not find field %s by its name", x, f.Name)
		}
		if g := fc.FieldNameFromFieldId(f.ID); g != f.Name {
			t.Fail("%T gives the name of field %d as %q, it is %q", x, f.ID, g, f.Name)
		}
		if g := fc.FieldIdFromFieldName(f.Name); g != f.ID {
			t.Fail("%T gives the id of field %q as %d, it is %d", x, f.Name, g, f.ID)
		}
		wantv := s.unset(f)
		if fv := v.fld(f.ID); fv != nil {
			wantv = s.canon(fv, f.Type)
		}
		if got := s.see(at.AttributeByFieldId(f.ID), f.Type); got != wantv {
			t.Fail("AttributeByFieldId(%d) of %T gives %s instead of %s", f.ID, x, got, wantv)
		}
	}
	for _, id := range []int{-1000, 31999} {
		if g := at.AttributeByFieldId(id); g != nil {
			t.Fail("AttributeByFieldId(%d) of %T, which has no such field, gives %v", id, x, g)
		}
	}
	t.Count("structs_checked", 1)
	t.Seen(hashStr(2, shape))
	t.Sample("struct: %s %s", st.key, shape)
}

func genEnumCase(t *T, s *gSet, p *gProg, e *gEnum) {
	t.Desc(func() string { return "enum " + p.Name + "." + e.Name })
	c := s.Enums[p.Name+"."+e.Name]
	used := map[string]bool{}
	for _, v := range e.Values {
		name, n := v[0].(string), int64(v[1].(float64))
		if c.Vals[name] != n {
			t.Fail("%s_%s is %d, the definition gives %d", e.Go, name, c.Vals[name], n)
		}
		x := c.Of(n)
		ev, ok := x.(interface {
			String() string
			Value() int
			IsEnum() bool
		})
		if !ok {
			t.Fail("%T has not the methods of an enum", x)
			return
		}
		if ev.Value() != int(n) || !ev.IsEnum() {
			t.Fail("%s_%s has value %d, IsEnum %v", e.Go, name, ev.Value(), ev.IsEnum())
		}
		if g, w := ev.String(), e.Go+"_"+name; g != w {
			t.Fail("%s_%s as text: %q", e.Go, name, g)
		}
		text := e.Go + "_" + name
		if g := reflect.ValueOf(c.From(text)).Int(); g != n {
			t.Fail("From%sString(%q) gives %d, it is %d", e.Go, text, g, n)
		}
		used[text], used[name] = true, true
		t.Count("enum_values_compared", 1)
		t.Seen(hashStr(3, fmt.Sprint(name, n)))
	}
	for _, text := range []string{"", "no such name", e.Go, e.Go + "_", "_"} {
		if used[text] {
			continue
		}
		g := reflect.ValueOf(c.From(text)).Int()
		for _, v := range e.Values {
			if int64(v[1].(float64)) == g {
				t.Fail("From%sString(%q), which names no value, gives %s", e.Go, text, v[0])
			}
		}
	}
	t.Sample("enum: %s %v", e.Name, e.Values)
}

func genServiceCase(t *T, s *gSet, sv *gSvc) {
	t.Desc(func() string { return "service " + sv.prog.Name + "." + sv.Name })
	h := &gHandler{}
	p := sv.code.Processor(h)
	var want []string
	for _, f := range sv.all {
		want = append(want, f.Name)
	}
	sort.Strings(want)
	m, ok := p.(interface {
		ProcessorMap() map[string]thrift.TProcessorFunction
		GetProcessorFunction(string) (thrift.TProcessorFunction, bool)
	})
	if !ok {
		t.Fail("%T does not tell its functions", p)
		return
	}
	var got []string
	for k := range m.ProcessorMap() {
		got = append(got, k)
	}
	sort.Strings(got)
	if strings.Join(got, ",") != strings.Join(want, ",") {
		t.Fail("the processor of %s has the functions %v, the definition gives %v", sv.Name, got, want)
	}
	c := sv.code.Client(NewXT(nil), thrift.NewTBinaryProtocolFactoryDefault())
	for _, f := range sv.all {
		if _, ok := m.GetProcessorFunction(f.Name); !ok {
			t.Fail("the processor of %s has no function %s", sv.Name, f.Name)
		}
		mt := reflect.ValueOf(c).MethodByName(f.Go)
		if !mt.IsValid() {
			t.Fail("the client of %s has no method %s", sv.Name, f.Go)
			continue
		}
		var in, out []reflect.Type
		for _, a := range f.Args.Fields {
			in = append(in, s.goType(a.Type))
		}
		if f.Returns.K != "void" {
			out = append(out, s.goType(f.Returns))
		}
		for _, x := range f.Throws.Fields {
			out = append(out, s.goType(x.Type))
		}
		out = append(out, reflect.TypeOf((*error)(nil)).Elem())
		w := reflect.FuncOf(in, out, false)
		if mt.Type() != w {
			t.Fail("method %s of the client of %s is a %s, the definition asks for %s", f.Go, sv.Name, mt.Type(), w)
		}
		t.Count("functions_compared", 1)
		t.Seen(hashStr(4, w.String()))
	}
	if _, ok := m.GetProcessorFunction("no such function"); ok {
		t.Fail("the processor of %s knows functions that the definition does not give", sv.Name)
	}
	t.Count("services_compared", 1)
	t.Sample("service: %s %v", sv.Name, want)
}
