package main

import (
	"encoding/base64"
	"fmt"
	"reflect"
	"strings"
	"thrift"
)

// C20: structs of generated code read what was written, whatever else is in the message.

func init() { props["C20"] = genStructs }

var genProtos = []*Proto{pBinary, pCompact, pJSON, pBinaryLax}

// utf8V replaces bytes that no text can hold, in strings (not in binaries).
func utf8V(v *V) *V {
	if v == nil {
		return nil
	}
	if v.T == thrift.STRING {
		v.S = strings.ToValidUTF8(v.S, "ÿ")
	}
	for _, e := range v.L {
		utf8V(e)
	}
	for _, f := range v.F {
		utf8V(f.V)
	}
	return v
}

func genStructs(r *Run) {
	n := 0
	for _, s := range gSets {
		s := s
		for _, st := range s.all {
			st := st
			for k := 0; k < r.N(6, 30); k++ {
				k := k
				r.Case("write-read", n, func(t *T) { gWriteRead(t, s, st, genProtos[k%len(genProtos)]) })
				if k%4 == 0 {
					r.Case("faults", n, func(t *T) { gStructFaults(t, s, st) })
				}
				if k%2 == 0 {
					r.Case("by-name", n, func(t *T) { gByName(t, s, st) })
				}
				if k%3 == 0 {
					r.Case("by-field", n, func(t *T) { gByField(t, s, st) })
				}
				r.Case("foreign", n, func(t *T) { gForeign(t, s, st, genProtos[(k+1)%len(genProtos)]) })
				n++
			}
		}
	}
	for _, s := range gSets {
		s := s
		var at []*gStruct
		var fs []*gField
		for _, st := range s.all {
			for _, f := range st.Fields {
				if k := f.Type.real().K; k == "list" || k == "set" || k == "map" {
					at, fs = append(at, st), append(fs, f)
				}
			}
		}
		for k := 0; k < r.N(2, 10) && len(at) > 0; k++ {
			k := k
			r.Case("large", int(hashStr(uint64(k), s.Name)%100000), func(t *T) {
				i := t.R.Intn(len(at))
				for j := 0; j < 20 && fs[i].Type.real().K != []string{"list", "set", "map"}[k%3]; j++ {
					i = t.R.Intn(len(at))
				}
				if k%2 == 0 {
					for j := 0; j < 20 && fs[i].Type.real().K != "list"; j++ {
						i = t.R.Intn(len(at))
					}
				}
				gLarge(t, s, at[i], fs[i], genProtos[t.R.Intn(len(genProtos))])
			})
		}
		r.Case("sequence", int(hashStr(7, s.Name)%100000), func(t *T) { gSequence(t, s) })
	}
}

var sentinel = &V{T: thrift.STRUCT, F: []Fld{{ID: 1, V: &V{T: thrift.STRING, S: "after"}}, {ID: 2, V: &V{T: thrift.I64, I: 0x1122334455667788}}}}

// isSetMethod calls IsSet<field>, if there is one.
func isSetMethod(x interface{}, f *gField) (set, has bool) {
	m := reflect.ValueOf(x).MethodByName("IsSet" + f.Go)
	if !m.IsValid() {
		return false, false
	}
	return m.Call(nil)[0].Bool(), true
}

// absentOK says whether a field that holds this text need not be written: it is what a reader will find anyway.
func (s *gSet) absentOK(f *gField, text string) bool {
	if text == s.unset(f) {
		return true
	}
	return false
}

// gByName writes and reads a struct through the protocol that names fields and does not number them.
func gByName(t *T, s *gSet, st *gStruct) {
	p := pSimple
	v := utf8V(s.strct(t.R, st, 3))
	t.Desc(func() string { return fmt.Sprintf("definition set %s, %s over %s, set: %s", s.Name, st.key, p.Name, v) })
	x := s.buildS(v, st).(gObj)
	want := s.canonS(v, st)
	xt := NewXT(nil)
	pr := p.New(xt)
	for i := 0; i < 2; i++ {
		if e := nilErr(x.Write(pr)); e != nil {
			t.Fail("writing failed: %v", e)
			return
		}
	}
	nilErr(pr.Flush())
	if t.R.P(30) {
		xt.Src.frag = fragRandom(t.R)
	}
	text := string(xt.Sink.buf)
	rp := p.New(NewXT(xt.Sink.buf))
	for i := 0; i < 2; i++ {
		y := s.New[st.key]().(gObj)
		if e := nilErr(y.Read(rp)); e != nil {
			t.Fail("reading back struct %d failed: %v (%.300s)", i, e, text)
			return
		}
		if got := s.seeS(y, st); got != want {
			t.Fail("wrote %s and read %s (%.300s)", want, got, text)
			return
		}
	}
	t.Count("structs_by_name", 2)
}

// gByField writes and reads the fields of a struct one at a time, through the methods generated for each: by number
// (reached through Write and Read everywhere else) and by name.
func gByField(t *T, s *gSet, st *gStruct) {
	r := t.R
	var p *Proto
	var v *V
	t.Desc(func() string {
		return fmt.Sprintf("definition set %s, %s over %s, field alone: %s", s.Name, st.key, p.Name, v)
	})
	for _, f := range st.Fields {
		p = genProtos[r.Intn(len(genProtos))]
		v = utf8V(&V{T: thrift.STRUCT, F: []Fld{{Name: f.Name, ID: int16(f.ID), V: s.value(r, f.Type, 2)}}})
		x := s.buildS(v, st).(gObj)
		write := reflect.ValueOf(x).MethodByName("WriteField" + f.Go)
		xt := NewXT(nil)
		pr := p.New(xt)
		if !write.IsValid() || write.Type().NumIn() != 1 || write.Type().NumOut() != 1 {
			continue
		}
		errs := []thrift.TProtocolException{pr.WriteStructBegin(st.Name)}
		if out := write.Call([]reflect.Value{reflect.ValueOf(pr)})[0]; !out.IsNil() {
			t.Fail("writing field %s alone failed: %v", f.Name, out.Interface())
			return
		}
		errs = append(errs, pr.WriteFieldStop(), pr.WriteStructEnd(), pr.Flush())
		for _, e := range errs {
			if nilErr(e) != nil {
				t.Fail("writing around field %s failed: %v", f.Name, e)
				return
			}
		}
		b := append([]byte(nil), xt.buf...)
		w, err := readV(p.New(NewXT(b)), thrift.STRUCT, nil, &readCtl{})
		if err != nil {
			t.Fail("field %s, written alone, cannot be read: %v", f.Name, err)
			return
		}
		for _, g := range w.F {
			if int(g.ID) != f.ID || len(w.F) > 1 {
				t.Fail("the writer of field %s (%d) wrote %v", f.Name, f.ID, w)
				return
			}
			if got, want := s.canon(retype(g.V, f.Type, s, p), f.Type), s.canon(v.F[0].V, f.Type); got != want {
				t.Fail("field %s holds %s and %s was written", f.Name, want, got)
				return
			}
		}
		if len(w.F) == 0 {
			continue
		}
		rp := p.New(NewXT(b))
		y := s.New[st.key]().(gObj)
		read := reflect.ValueOf(y).MethodByName("ReadField" + f.Go)
		if !read.IsValid() || read.Type().NumIn() != 1 || read.Type().NumOut() != 1 {
			continue
		}
		_, e := rp.ReadStructBegin()
		_, _, _, e2 := rp.ReadFieldBegin()
		if nilErr(e) != nil || nilErr(e2) != nil {
			t.Fail("reading before field %s failed: %v, %v", f.Name, e, e2)
			return
		}
		if out := read.Call([]reflect.Value{reflect.ValueOf(rp)})[0]; !out.IsNil() {
			t.Fail("reading field %s alone failed: %v", f.Name, out.Interface())
			return
		}
		e = rp.ReadFieldEnd()
		_, ft, _, e2 := rp.ReadFieldBegin()
		if nilErr(e) != nil || nilErr(e2) != nil || ft != thrift.STOP {
			t.Fail("after field %s, read alone, comes %v, %v, %v and not the end of the struct", f.Name, e, ft, e2)
			return
		}
		if got, want := s.seeS(y, st), s.canonS(v, st); got != want {
			t.Fail("field %s written alone: %s, read back: %s", f.Name, want, got)
			return
		}
		t.Count("fields_alone", 1)
	}
	t.Seen(hashStr(9, st.key))
}

func gWriteRead(t *T, s *gSet, st *gStruct, p *Proto) {
	v := s.strct(t.R, st, 3)
	if p.UTF8 {
		utf8V(v)
	}
	t.Desc(func() string { return fmt.Sprintf("definition set %s, %s over %s, set: %s", s.Name, st.key, p.Name, v) })
	gWriteReadV(t, s, st, p, v)
}

// gLarge: containers of many elements, in the fields of a generated struct.
func gLarge(t *T, s *gSet, st *gStruct, f *gField, p *Proto) {
	r := t.R
	ty := f.Type.real()
	// sets and maps look at every element they hold when they are given another
	n := []int{255, 256, 257, 500, 1000, 1025}[r.Intn(6)]
	if ty.K == "list" {
		n = []int{1000, 1025, 4097, 5000, 32768, 65536, 65537, 70000}[r.Intn(8)]
		if !isScalar(ty.Val.wire()) && n > 5000 {
			n = 5000
		}
	}
	if len(st.Fields) == 0 {
		return
	}
	v := &V{T: thrift.STRUCT}
	for _, g := range st.Fields {
		if g.ID != f.ID {
			if !st.result && (g.Req == "required" || r.P(30)) {
				v.F = append(v.F, Fld{Name: g.Name, ID: int16(g.ID), V: s.value(r, g.Type, 1)})
			}
			continue
		}
		v.F = append(v.F, Fld{Name: g.Name, ID: int16(g.ID), V: s.many(r, ty, n)})
	}
	utf8V(v)
	held := len(v.fld(f.ID).L)
	if ty.K == "map" {
		held /= 2
	}
	t.Desc(func() string {
		return fmt.Sprintf("definition set %s, %s over %s, %d elements in field %s of type %s", s.Name, st.key, p.Name, held, f.Name, f.Type)
	})
	gWriteReadV(t, s, st, p, v)
	t.Count("large_containers", 1)
	if held > 65535 {
		t.Count("containers_beyond_65535", 1)
	}
}

// many makes a container of a number of elements.
func (s *gSet) many(r *Rng, t *gT, n int) *V {
	v := &V{T: t.wire(), VT: t.Val.wire()}
	elem := func(ty *gT, i int) *V {
		ty = ty.real()
		x := s.value(r, ty, 0)
		switch ty.K {
		case "i16", "i32", "i64":
			x.I = int64(i & 0x7fff)
		case "string", "binary":
			x.S = fmt.Sprint(i)
		}
		return x
	}
	for i := 0; i < n; i++ {
		if t.K == "map" {
			v.KT = t.Key.wire()
			v.L = append(v.L, elem(t.Key, i))
		}
		v.L = append(v.L, elem(t.Val, i))
	}
	switch t.K {
	case "set":
		v.L = s.dedup(t.Val, v.L, 1)
	case "map":
		v.L = s.dedup(t.Key, v.L, 2)
	}
	return v
}

func gWriteReadV(t *T, s *gSet, st *gStruct, p *Proto, v *V) {
	r := t.R
	x := s.buildS(v, st).(gObj)
	want := s.canonS(v, st)
	if got := s.seeS(x, st); got != want {
		t.Fail("set to %s, the struct holds %s", want, got)
		return
	}
	for _, f := range st.Fields {
		set, has := isSetMethod(x, f)
		if !has {
			continue
		}
		fv := v.fld(f.ID)
		if fv == nil && set && f.Default == nil {
			t.Fail("field %s (%s %s) was not set and is reported as set", f.Name, f.Req, f.Type)
		}
		if fv != nil && !set && s.canon(fv, f.Type) != s.unset(f) && !(f.Req == "optional" && s.zeroLike(fv, f)) {
			t.Fail("field %s (%s %s) was set to %s and is reported as not set", f.Name, f.Req, f.Type, fv)
		}
	}
	xt := NewXT(nil)
	if r.P(30) {
		xt.Src.frag = fragRandom(r)
	}
	pr := p.New(xt)
	if e := nilErr(x.Write(pr)); e != nil {
		t.Fail("writing failed: %v", e)
		return
	}
	if e := writeV(pr, sentinel); e != nil {
		t.Fail("writing after the struct failed: %v", e)
		return
	}
	nilErr(pr.Flush())
	if got := s.seeS(x, st); got != want {
		t.Fail("writing changed the struct from %s to %s", want, got)
	}
	bytes := append([]byte(nil), xt.buf...)
	// what is on the wire, read by our own reader of the protocol's values
	src := NewXT(bytes)
	rp := p.New(src)
	w, err := readV(rp, thrift.STRUCT, nil, &readCtl{})
	if err != nil {
		t.Fail("what was written cannot be read: %v", err)
		return
	}
	seen := map[int]bool{}
	for _, f := range w.F {
		d := st.field(int(f.ID))
		if d == nil {
			t.Fail("field %d was written, which %s has not", f.ID, st.Name)
			continue
		}
		if seen[d.ID] {
			t.Fail("field %d was written twice", f.ID)
		}
		seen[d.ID] = true
		if wireT(f.V.T) != wireT(d.Type.wire()) {
			t.Fail("field %s of type %s was written as a %s", d.Name, d.Type, tname(f.V.T))
			continue
		}
		if msg := s.wireTypes(f.V, d.Type, p); msg != "" {
			t.Fail("field %s of type %s was written with the wrong types: %s", d.Name, d.Type, msg)
			continue
		}
		wantf := s.unset(d)
		if fv := v.fld(d.ID); fv != nil {
			wantf = s.canon(fv, d.Type)
		}
		if got := s.canon(retype(f.V, d.Type, s, p), d.Type); got != wantf {
			t.Fail("field %s holds %s and %s was written", d.Name, wantf, got)
		}
		t.Count("fields_written", 1)
	}
	for _, f := range st.Fields {
		if fv := v.fld(f.ID); fv != nil && !seen[f.ID] && s.canon(fv, f.Type) != s.unset(f) && !s.emptyText(s.canon(fv, f.Type), f) {
			t.Fail("field %s was set to %s and not written", f.Name, fv)
		}
		if f.Req == "required" && !seen[f.ID] && v.fld(f.ID) != nil {
			t.Fail("required field %s was not written", f.Name)
		}
	}
	// and by the generated reader
	src = NewXT(bytes)
	if r.P(40) {
		src.Src.frag = fragRandom(r)
	}
	rp = p.New(src)
	y := s.New[st.key]().(gObj)
	if e := nilErr(y.Read(rp)); e != nil {
		t.Fail("reading what was written failed: %v", e)
		return
	}
	if !gAfter(t, rp) {
		return
	}
	got := s.seeS(y, st)
	if got != want {
		t.Fail("written: %s, read back: %s", want, got)
	}
	for _, f := range st.Fields {
		a, has := isSetMethod(x, f)
		b, _ := isSetMethod(y, f)
		if has && a != b {
			t.Fail("field %s was reported as set (%v) when written and (%v) when read back", f.Name, a, b)
		}
	}
	// what was read, written and read once more, compares equal (the first may hold empty containers where the second
	// holds none)
	xt = NewXT(nil)
	pr = p.New(xt)
	if e := nilErr(y.Write(pr)); e != nil {
		t.Fail("writing what was read failed: %v", e)
		return
	}
	pr.Flush()
	z := s.New[st.key]().(gObj)
	if e := nilErr(z.Read(p.New(NewXT(xt.buf)))); e != nil {
		t.Fail("reading what was read and written again failed: %v", e)
		return
	}
	if got2 := s.seeS(z, st); got2 != got {
		t.Fail("written again: %s, read back: %s", got, got2)
	} else if c, ok := y.CompareTo(z); c != 0 || !ok {
		t.Fail("a struct written and read back does not compare equal: %d, %v", c, ok)
	}
	t.Count("structs_written_and_read", 1)
	t.Seen(shapeHash(v) ^ hashStr(1, st.key+p.Name))
	t.Sample("write-read: %s over %s: %s", st.key, p.Name, v)
}

// zeroLike: an optional field without a default that was given the zero value or an empty container counts as not set,
// which a reader cannot tell apart.
func (s *gSet) zeroLike(v *V, f *gField) bool {
	switch f.Type.real().K {
	case "list", "set", "map", "binary":
		return len(v.L) == 0 && v.S == ""
	}
	return s.canon(v, f.Type) == s.unset(f)
}

// emptyText says whether a text is that of an empty container, which an optional field with a default container cannot
// tell from not being set.
func (s *gSet) emptyText(text string, f *gField) bool {
	switch f.Type.real().K {
	case "list", "set", "map", "binary":
		return f.Req == "optional" && (text == "[]" || text == "{}" || text == "<>" || text == `x""`)
	}
	return false
}

// wireTypes compares the element types on the wire with the definition.
func (s *gSet) wireTypes(v *V, t *gT, p *Proto) string {
	t = t.real()
	same := func(a thrift.TType, b *gT) bool { return wireT(a) == wireT(b.wire()) }
	switch t.K {
	case "list", "set":
		if !same(v.VT, t.Val) {
			return fmt.Sprintf("elements of type %s instead of %s", tname(v.VT), t.Val)
		}
		for _, e := range v.L {
			if m := s.wireTypes(e, t.Val, p); m != "" {
				return m
			}
		}
	case "map":
		if len(v.L) == 0 && p.Eq.EmptyMapAny {
			return ""
		}
		if !same(v.KT, t.Key) || !same(v.VT, t.Val) {
			return fmt.Sprintf("map<%s,%s> instead of map<%s,%s>", tname(v.KT), tname(v.VT), t.Key, t.Val)
		}
		for i := 0; i+1 < len(v.L); i += 2 {
			if m := s.wireTypes(v.L[i], t.Key, p); m != "" {
				return m
			}
			if m := s.wireTypes(v.L[i+1], t.Val, p); m != "" {
				return m
			}
		}
	case "struct", "exception":
		st := s.of(t)
		for _, f := range v.F {
			d := st.field(int(f.ID))
			if d == nil {
				return fmt.Sprintf("field %d, which %s has not", f.ID, st.Name)
			}
			if !same(f.V.T, d.Type) {
				return fmt.Sprintf("field %s as a %s", d.Name, tname(f.V.T))
			}
			if m := s.wireTypes(f.V, d.Type, p); m != "" {
				return m
			}
		}
	}
	return ""
}

// retype marks what was read as a string and is a binary by the definition. The wire types have been checked before.
func retype(v *V, t *gT, s *gSet, p *Proto) *V {
	t = t.real()
	w := *v
	w.L, w.F = nil, nil
	switch t.K {
	case "list", "set":
		for _, e := range v.L {
			w.L = append(w.L, retype(e, t.Val, s, p))
		}
	case "map":
		for i := 0; i+1 < len(v.L); i += 2 {
			w.L = append(w.L, retype(v.L[i], t.Key, s, p), retype(v.L[i+1], t.Val, s, p))
		}
	case "struct", "exception":
		st := s.of(t)
		for _, f := range v.F {
			if d := st.field(int(f.ID)); d != nil {
				w.F = append(w.F, Fld{Name: f.Name, ID: f.ID, V: retype(f.V, d.Type, s, p)})
			}
		}
	default:
		w.T = t.wire()
		if w.T == thrift.BINARY && p.JSON {
			b, err := base64.StdEncoding.DecodeString(v.S)
			if err != nil {
				return &V{T: thrift.BINARY, S: "not base64: " + v.S}
			}
			w.S = string(b)
		}
	}
	return &w
}

// gAfter reads what follows the struct.
func gAfter(t *T, rp thrift.TProtocol) bool {
	a, err := readV(rp, thrift.STRUCT, sentinel, &readCtl{})
	if err != nil {
		t.Fail("what follows the struct cannot be read any more: %v", err)
		return false
	}
	if d := diff(sentinel, a, EqOpt{}); d != "" {
		t.Fail("what follows the struct is disturbed: %s", d)
		return false
	}
	return true
}

// gForeign reads a struct as another version of the definition would have written it.
func gForeign(t *T, s *gSet, st *gStruct, p *Proto) {
	r := t.R
	v := s.strct(r, st, 3)
	if p.UTF8 {
		utf8V(v)
	}
	want := s.canonS(v, st)
	type extra struct {
		at int
		f  Fld
	}
	w := &V{T: thrift.STRUCT, F: append([]Fld(nil), s.garnish(r, v, st, 2).F...)}
	t.Desc(func() string {
		return fmt.Sprintf("definition set %s, %s over %s, set: %s, on the wire: %s", s.Name, st.key, p.Name, v, w)
	})
	for i := range w.F {
		if w.F[i].Name == "" {
			w.F[i].Name = "other"
		}
	}
	var bytes []byte
	var err error
	if !p.JSON && r.Bool() {
		bytes = refEncode(p, w, sentinel, r)
	} else {
		xt := NewXT(nil)
		pr := p.New(xt)
		if err = writeV(pr, w); err == nil {
			err = writeV(pr, sentinel)
		}
		pr.Flush()
		bytes = xt.buf
	}
	if err != nil {
		t.Fail("the message for the test cannot be written: %v", err)
		return
	}
	src := NewXT(bytes)
	if r.P(40) {
		src.Src.frag = fragRandom(r)
	}
	rp := p.New(src)
	y := s.New[st.key]().(gObj)
	if e := nilErr(y.Read(rp)); e != nil {
		t.Fail("reading failed: %v", e)
		return
	}
	if !gAfter(t, rp) {
		return
	}
	if got := s.seeS(y, st); got != want {
		t.Fail("expected %s, read %s", want, got)
	}
	for _, f := range st.Fields {
		set, has := isSetMethod(y, f)
		if has && set && v.fld(f.ID) == nil && f.Default == nil {
			t.Fail("field %s was not in the message and is reported as set", f.Name)
		}
	}
	t.Count("foreign_structs_read", 1)
	t.Count("unknown_fields", len(w.F)-len(v.F))
	t.Seen(shapeHash(w) ^ hashStr(2, st.key+p.Name))
	t.Sample("foreign: %s over %s: %s", st.key, p.Name, w)
}

// garnish adds fields that the definition does not have and fields of other types than it has, and changes the order, in
// v and the structs within.
func (s *gSet) garnish(r *Rng, v *V, st *gStruct, extra int) *V {
	w := &V{T: thrift.STRUCT}
	for _, f := range v.F {
		d := st.field(int(f.ID))
		w.F = append(w.F, Fld{Name: f.Name, ID: f.ID, V: s.garnishV(r, f.V, d.Type, extra)})
	}
	g := newGen(r, GenOpt{UTF8: true, NoNaN: true, Depth: 3, Budget: 20, NoEmptyFieldNames: true})
	used := map[int]bool{}
	for _, f := range st.Fields {
		used[f.ID] = true
	}
	n := r.Intn(extra + 2)
	for ; n > 0; n-- {
		id := 0
		switch r.Intn(4) {
		case 0:
			id = 1 + r.Intn(60)
		case 1:
			id = r.Intn(65536) - 32768
		case 2:
			id = -1 - r.Intn(30)
		case 3:
			if len(st.Fields) > 0 {
				id = st.Fields[r.Intn(len(st.Fields))].ID + r.Intn(3) - 1
			}
		}
		if id < -32768 || id > 32767 || used[id] {
			continue
		}
		used[id] = true
		w.F = append(w.F, Fld{Name: "unknown", ID: int16(id), V: g.any()})
	}
	// a field that is known, with another type
	for _, f := range st.Fields {
		if v.fld(f.ID) == nil && r.P(30) {
			w.F = append(w.F, Fld{Name: f.Name, ID: int16(f.ID), V: otherType(g, wireT(f.Type.wire()))})
		}
	}
	if r.P(70) {
		o := r.Perm(len(w.F))
		fs := make([]Fld, len(w.F))
		for i, k := range o {
			fs[i] = w.F[k]
		}
		w.F = fs
	}
	return w
}

func (s *gSet) garnishV(r *Rng, v *V, t *gT, extra int) *V {
	t = t.real()
	w := *v
	switch t.K {
	case "list", "set":
		w.L = nil
		for _, e := range v.L {
			w.L = append(w.L, s.garnishV(r, e, t.Val, extra-1))
		}
	case "map":
		w.L = nil
		for i := 0; i+1 < len(v.L); i += 2 {
			w.L = append(w.L, s.garnishV(r, v.L[i], t.Key, extra-1), s.garnishV(r, v.L[i+1], t.Val, extra-1))
		}
	case "struct", "exception":
		if extra < 0 {
			return v
		}
		return s.garnish(r, v, s.of(t), extra-1)
	}
	return &w
}

// gSequence: many structs one after the other on one stream, read by instances that are used again or fresh.
func gSequence(t *T, s *gSet) {
	r := t.R
	if len(s.all) == 0 {
		return
	}
	for k := 0; k < t.run.N(8, 40); k++ {
		p := genProtos[r.Intn(len(genProtos))]
		n := 2 + r.Intn(8)
		xt := NewXT(nil)
		pr := p.New(xt)
		var sts []*gStruct
		var wants []string
		for i := 0; i < n; i++ {
			st := s.all[r.Intn(len(s.all))]
			v := utf8V(s.strct(r, st, 2))
			if e := nilErr(s.buildS(v, st).(gObj).Write(pr)); e != nil {
				t.Fail("writing %s over %s failed: %v", st.key, p.Name, e)
				return
			}
			sts, wants = append(sts, st), append(wants, s.canonS(v, st))
		}
		pr.Flush()
		xt.Src.data = append([]byte(nil), xt.buf...)
		rp := p.New(xt)
		for i, st := range sts {
			y := s.New[st.key]().(gObj)
			if e := nilErr(y.Read(rp)); e != nil {
				t.Fail("struct %d of %d, %s over %s, cannot be read: %v", i, n, st.key, p.Name, e)
				return
			}
			if got := s.seeS(y, st); got != wants[i] {
				t.Fail("struct %d of %d, %s over %s: written %s, read %s", i, n, st.key, p.Name, wants[i], got)
				return
			}
		}
		t.Count("structs_in_sequence", n)
		t.Seen(r.U64())
	}
}

// refEncode gives the bytes of the values by our own encoders.
func refEncode(p *Proto, vs ...interface{}) []byte {
	var b []byte
	r := vs[len(vs)-1].(*Rng)
	for _, x := range vs[:len(vs)-1] {
		v := x.(*V)
		if strings.HasPrefix(p.Name, "compact") {
			e := &compEnc{r: r}
			e.val(v)
			b = append(b, e.b...)
		} else {
			e := &binEnc{}
			e.val(v)
			b = append(b, e.b...)
		}
	}
	return b
}
