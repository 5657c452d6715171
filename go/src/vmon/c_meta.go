package main

import (
	"container/list"
	"fmt"
	"math"
	"strings"
	"thrift"
)

// C30: what metadata says about fields, structs, messages and types is what they were made of.

func init() { props["C30"] = metaChecks }

type fieldSpec struct {
	name string
	typ  thrift.TType
	id   int
}

var metaTypes = []thrift.TType{thrift.BOOL, thrift.BYTE, thrift.DOUBLE, thrift.I16, thrift.I32, thrift.I64, thrift.STRING, thrift.STRUCT, thrift.MAP, thrift.SET, thrift.LIST, thrift.ENUM, thrift.BINARY}

func metaFields(r *Rng) []fieldSpec {
	n := r.Intn(12)
	if r.P(5) {
		n = 40 + r.Intn(200)
	}
	ids := map[int]bool{}
	names := map[string]bool{}
	var fs []fieldSpec
	for len(fs) < n {
		id := 0
		switch r.Intn(6) {
		case 0:
			id = r.Intn(65536) - 32768
		case 1:
			id = []int{0, -1, 1, 32767, -32768, 127, 128, 255, 256, 15, 16}[r.Intn(11)]
		case 2:
			id = -r.Intn(n + 1)
		default:
			id = r.Intn(2*n + 1)
		}
		name := ""
		switch r.Intn(6) {
		case 0:
			name = fmt.Sprint("f", id)
		case 1:
			name = fmt.Sprint(len(fs)) // a name that looks like an id
		case 2:
			name = strings.Repeat("a", 1+r.Intn(5))
		case 3:
			name = []string{"a b", "\xff", "été", "\x00", "A", "id", "-1", " "}[r.Intn(8)]
		default:
			name = string([]byte{'a' + byte(r.Intn(26)), 'a' + byte(r.Intn(26)), 'A' + byte(r.Intn(26))})
		}
		if ids[id] || names[name] {
			continue
		}
		ids[id], names[name] = true, true
		fs = append(fs, fieldSpec{name, metaTypes[r.Intn(len(metaTypes))], id})
	}
	return fs
}

func makeFields(fs []fieldSpec) []thrift.TField {
	out := make([]thrift.TField, len(fs), len(fs)+3)
	for i, f := range fs {
		out[i] = thrift.NewTField(f.name, f.typ, f.id)
	}
	return out
}

func isField(g thrift.TField, f fieldSpec) bool {
	return g != nil && g.Name() == f.name && g.TypeId() == f.typ && g.Id() == f.id
}

func checkFields(t *T, what string, c thrift.TFieldContainer, fs []fieldSpec) {
	if c.Len() != len(fs) {
		t.Fail("%s: Len is %d", what, c.Len())
		return
	}
	for _, f := range fs {
		t.Count("lookups", 7)
		if g := c.FieldFromFieldId(f.id); !isField(g, f) {
			t.Fail("%s: the field with id %d is %v, not %v", what, f.id, g, f)
		}
		if g := c.FieldFromFieldName(f.name); !isField(g, f) {
			t.Fail("%s: the field named %q is %v, not %v", what, f.name, g, f)
		}
		if g := c.FieldNameFromFieldId(f.id); g != f.name {
			t.Fail("%s: the name of field %d is %q, not %q", what, f.id, g, f.name)
		}
		if g := c.FieldIdFromFieldName(f.name); g != f.id {
			t.Fail("%s: the id of field %q is %d, not %d", what, f.name, g, f.id)
		}
		if f.id >= -32768 && f.id <= 32767 && !c.Contains(int16(f.id)) {
			t.Fail("%s: does not contain id %d as an int16", what, f.id)
		}
		if !c.Contains(f.id) || !c.Contains(f.name) || !c.Contains(thrift.NewTField(f.name, f.typ, f.id)) {
			t.Fail("%s: does not contain field %v: %v %v %v", what, f, c.Contains(f.id), c.Contains(f.name), c.Contains(thrift.NewTField(f.name, f.typ, f.id)))
		}
	}
	// in order of ids, each once
	seen := map[int]fieldSpec{}
	for _, f := range fs {
		seen[f.id] = f
	}
	last, n := math.MinInt32, 0
	for g := range c.Iter() {
		f, ok := seen[g.Id()]
		if !ok || !isField(g, f) {
			t.Fail("%s: iteration gives %v", what, g)
			return
		}
		if g.Id() <= last {
			t.Fail("%s: iteration gives field %d after field %d", what, g.Id(), last)
			return
		}
		last = g.Id()
		n++
	}
	t.Count("fields_iterated", n)
	if n != len(fs) {
		t.Fail("%s: iteration gives %d fields of %d", what, n, len(fs))
	}
	// what is not there
	ids, names := map[int]bool{}, map[string]bool{}
	for _, f := range fs {
		ids[f.id], names[f.name] = true, true
	}
	for i := 0; i < 12; i++ {
		id := t.R.Intn(3*len(fs)+8) - len(fs) - 4
		if i > 8 {
			id = t.R.Intn(1<<18) - 1<<17
		}
		if i == 8 && len(fs) > 0 {
			id = fs[t.R.Intn(len(fs))].id + 65536*(1-2*t.R.Intn(2))
		}
		if ids[id] {
			continue
		}
		t.Count("absent_lookups", 3)
		if g := c.FieldNameFromFieldId(id); g != "" {
			t.Fail("%s: there is no field %d, but its name is %q", what, id, g)
		}
		if g := c.FieldFromFieldId(id); g == nil || g.Name() != "" {
			t.Fail("%s: there is no field %d, but it is %v", what, id, g)
		}
		if id >= -32768 && id <= 32767 && c.Contains(int16(id)) {
			t.Fail("%s: contains field id %d as an int16", what, id)
		}
		if c.Contains(id) {
			t.Fail("%s: contains field id %d", what, id)
		}
	}
	for _, name := range []string{"", "nosuchfield", "F1", "a", "aa", "aaaaaa", "1", "-1", "0"} {
		if names[name] {
			continue
		}
		t.Count("absent_lookups", 3)
		if g := c.FieldIdFromFieldName(name); g != -1 && !(g == 0 && name == "") {
			t.Fail("%s: there is no field %q, but its id is %d", what, name, g)
		}
		if g := c.FieldFromFieldName(name); g == nil || g.Name() != "" {
			t.Fail("%s: there is no field %q, but it is %v", what, name, g)
		}
		if name != "" && c.Contains(name) {
			t.Fail("%s: contains a field named %q", what, name)
		}
	}
	for _, f := range fs {
		o := metaTypes[t.R.Intn(len(metaTypes))]
		if o != f.typ && c.Contains(thrift.NewTField(f.name, o, f.id)) {
			t.Fail("%s: contains field %v as one of type %v", what, f, o)
		}
	}
}

func metaContainers(t *T) {
	fs := metaFields(t.R)
	t.Desc(func() string { return fmt.Sprint(fs) })
	h := uint64(len(fs))
	for _, f := range fs {
		h = hashStr(h, fmt.Sprint(f))
	}
	t.Seen(h)
	in := makeFields(fs)
	c := thrift.NewTFieldContainer(in)
	st := thrift.NewTStruct("S", in)
	// what becomes of the slice is nobody's business
	for i := range in {
		if t.R.Bool() {
			in[i] = thrift.NewTField("other", thrift.I64, 99)
		}
	}
	in = append(in, thrift.NewTField("more", thrift.I32, 77))
	checkFields(t, "field container", c, fs)
	checkFields(t, "struct", st, fs)
	checkFields(t, "fields of a struct", st.TStructFields(), fs)
	// a second look finds the same
	checkFields(t, "field container again", c, fs)
	// any order makes the same
	p := t.R.Perm(len(fs))
	gs := make([]fieldSpec, len(fs))
	for i, j := range p {
		gs[i] = fs[j]
	}
	d := thrift.NewTFieldContainer(makeFields(gs))
	if !c.Equals(d) || !d.Equals(c) {
		t.Fail("the same fields in another order are not equal")
	}
	if len(fs) > 0 {
		k := t.R.Intn(len(gs))
		alt := append([]fieldSpec(nil), gs...)
		switch t.R.Intn(3) {
		case 0:
			alt = append(alt[:k], alt[k+1:]...)
		case 1:
			alt[k].id = 100000 + k
		default:
			if alt[k].typ == thrift.I64 {
				alt[k].typ = thrift.MAP
			} else {
				alt[k].typ = thrift.I64
			}
		}
		e := thrift.NewTFieldContainer(makeFields(alt))
		if c.Equals(e) || e.Equals(c) {
			t.Fail("equal to other fields %v", alt)
		}
	}
	t.Count("containers", 1)
}

// metaOrder checks that fields and field containers are ordered, and that nothing else is equal to one.
func metaOrder(t *T) {
	type cmp interface {
		CompareTo(other interface{}) (int, bool)
		Equals(other interface{}) bool
	}
	r := t.R
	var xs []cmp
	var same func(i, j int) bool
	what := "field"
	var foreign []interface{}
	if r.Bool() {
		var fs []fieldSpec
		for i := 0; i < 4; i++ {
			f := fieldSpec{fmt.Sprint("n", r.Intn(3)), metaTypes[r.Intn(3)], r.Intn(3) - 1}
			if r.P(30) {
				f.id, f.typ = r.Intn(65536)-32768, metaTypes[r.Intn(len(metaTypes))]
			} else if r.P(40) { // any type code, the id and name of another
				if i > 0 {
					f = fs[r.Intn(i)]
				}
				if f.typ = thrift.TType(r.Intn(128)); r.Bool() && i > 0 {
					f.typ = fs[r.Intn(i)].typ ^ 1<<uint(r.Intn(7))
				}
				t.Count("type_codes", 1)
			}
			fs = append(fs, f)
			xs = append(xs, thrift.NewTField(f.name, f.typ, f.id))
		}
		t.Desc(func() string { return fmt.Sprint(fs) })
		same = func(i, j int) bool { return fs[i].id == fs[j].id && fs[i].typ == fs[j].typ }
		foreign = []interface{}{nil, "n1", 1, int16(1), fs[0], thrift.NewTStructEmpty("n1"), thrift.NewTFieldContainer([]thrift.TField{xs[0].(thrift.TField)})}
		h := uint64(1)
		for _, f := range fs {
			h = hashStr(h, fmt.Sprint(f))
		}
		t.Seen(h)
	} else {
		what = "field container"
		var cs [][]fieldSpec
		for i := 0; i < 4; i++ {
			var fs []fieldSpec
			for _, id := range r.Perm(4)[:r.Intn(4)] {
				fs = append(fs, fieldSpec{fmt.Sprint("n", id), metaTypes[r.Intn(2)], id})
			}
			cs = append(cs, fs)
			xs = append(xs, thrift.NewTFieldContainer(makeFields(fs)))
		}
		t.Desc(func() string { return fmt.Sprint(cs) })
		same = func(i, j int) bool {
			if len(cs[i]) != len(cs[j]) {
				return false
			}
			m := map[int]thrift.TType{}
			for _, f := range cs[i] {
				m[f.id] = f.typ
			}
			for _, f := range cs[j] {
				if ty, ok := m[f.id]; !ok || ty != f.typ {
					return false
				}
			}
			return true
		}
		foreign = []interface{}{nil, "n1", 1, thrift.NewTField("n1", thrift.BOOL, 1), cs[0]}
		h := uint64(2)
		for _, c := range cs {
			h = hashStr(h, fmt.Sprint(c))
		}
		t.Seen(h)
	}
	c := func(i, j int) int {
		t.Count("orders_compared", 1)
		v, ok := xs[i].CompareTo(xs[j])
		if !ok {
			t.Fail("%s %d does not compare to %d", what, i, j)
		}
		return v
	}
	for i := range xs {
		for j := range xs {
			v := c(i, j)
			if e := xs[i].Equals(xs[j]); e != same(i, j) || (v == 0) != e {
				t.Fail("%s %d and %d: Equals says %v, CompareTo %d, and they are equal: %v", what, i, j, e, v, same(i, j))
			}
			if sgn(v) != -sgn(c(j, i)) {
				t.Fail("%s %d and %d compare %d one way and %d the other", what, i, j, v, c(j, i))
			}
			for k := range xs {
				if v <= 0 && c(j, k) <= 0 && c(i, k) > 0 {
					t.Fail("%s %d is not after %d, that not after %d, but the first is after the last", what, i, j, k)
				}
			}
		}
	}
	for _, f := range foreign {
		t.Count("orders_compared", 1)
		if xs[0].Equals(f) {
			t.Fail("a %s is equal to %T %v", what, f, f)
		}
		v, ok := xs[0].CompareTo(f)
		if f == nil && (v <= 0 || !ok) {
			t.Fail("a %s compares %d %v to nothing", what, v, ok)
		}
		if f != nil && ok && v == 0 {
			t.Fail("a %s compares as equal to %T %v", what, f, f)
		}
	}
}

func metaStructs(t *T) {
	name := []string{"", "S", "a.b", "été", "Struct1"}[t.R.Intn(5)]
	s := thrift.NewTStructEmpty(name)
	fs := metaFields(t.R)
	u := thrift.NewTStruct(name, makeFields(fs))
	for _, x := range []thrift.TStruct{s, u} {
		if x.TStructName() != name || x.ThriftName() != name {
			t.Fail("the struct named %q says %q, %q", name, x.TStructName(), x.ThriftName())
		}
		if !strings.Contains(x.String(), name) {
			t.Fail("the text of struct %q is %q", name, x.String())
		}
	}
	if s.Len() != 0 || s.TStructFields().Len() != 0 {
		t.Fail("an empty struct has %d fields", s.Len())
	}
	checkFields(t, "empty struct", s, nil)
	checkFields(t, "struct", u, fs)
	for _, f := range fs {
		g := thrift.NewTField(f.name, f.typ, f.id)
		if !isField(g, f) {
			t.Fail("a field made of %v is %v", f, g)
		}
		if x := g.String(); !strings.Contains(x, f.name) || !strings.Contains(x, fmt.Sprint(f.id)) {
			t.Fail("the text of field %v is %q", f, x)
		}
		if !g.Equals(thrift.NewTField(f.name, f.typ, f.id)) {
			t.Fail("field %v is not equal to one made the same", f)
		}
		t.Count("fields_made", 1)
	}
	d := thrift.NewTFieldDefault()
	if d == nil || d.Name() != "" {
		t.Fail("the anonymous field is %v", d)
	}
	t.Seen(hashStr(uint64(len(fs)), name))
}

func metaMessages(t *T) {
	type m struct {
		name string
		kind thrift.TMessageType
		seq  int
	}
	mk := func() m {
		return m{[]string{"", "a", "b", "ping", "Ping", "été"}[t.R.Intn(6)], thrift.TMessageType(t.R.Intn(6)), []int{0, 1, -1, 2, math.MaxInt32, math.MinInt32, 65536}[t.R.Intn(7)]}
	}
	var ms []m
	for i := 0; i < 6; i++ {
		a := mk()
		if i > 0 && t.R.Bool() {
			a = ms[t.R.Intn(len(ms))]
			switch t.R.Intn(4) {
			case 0:
				a.name += "x"
			case 1:
				a.kind++
			case 2:
				a.seq++
			}
		}
		ms = append(ms, a)
	}
	for _, a := range ms {
		x := thrift.NewTMessage(a.name, a.kind, a.seq)
		if x.Name() != a.name || x.TypeId() != a.kind || x.SeqId() != a.seq {
			t.Fail("message %v says %q %v %d", a, x.Name(), x.TypeId(), x.SeqId())
		}
		if s, ok := x.(fmt.Stringer); ok && (!strings.Contains(s.String(), a.name) || !strings.Contains(s.String(), fmt.Sprint(a.seq))) {
			t.Fail("the text of message %v is %q", a, s.String())
		}
		for _, b := range ms {
			y := thrift.NewTMessage(b.name, b.kind, b.seq)
			t.Count("messages_compared", 1)
			if x.Equals(y) != (a == b) {
				t.Fail("messages %v and %v: equal is %v", a, b, x.Equals(y))
			}
		}
		t.Seen(hashStr(uint64(a.kind), fmt.Sprint(a.name, a.seq)))
	}
	if e := thrift.NewTMessageDefault(); e.Name() != "" || e.SeqId() != 0 || e.TypeId() != thrift.INVALID_TMESSAGE_TYPE {
		t.Fail("the empty message is %q %v %d", e.Name(), e.TypeId(), e.SeqId())
	}
}

type typeFacts struct {
	name                                                                  string
	base, empty, enum, numeric, str, container, strct, mp, lst, set, intg bool
}

var typeTable = map[int]typeFacts{
	thrift.STOP:    {name: "STOP", empty: true},
	thrift.VOID:    {name: "VOID", empty: true},
	thrift.BOOL:    {name: "BOOL", base: true, numeric: true},
	thrift.BYTE:    {name: "BYTE", base: true, numeric: true, intg: true},
	thrift.DOUBLE:  {name: "DOUBLE", base: true, numeric: true},
	thrift.I16:     {name: "I16", base: true, numeric: true, intg: true},
	thrift.I32:     {name: "I32", base: true, numeric: true, intg: true},
	thrift.I64:     {name: "I64", base: true, numeric: true, intg: true},
	thrift.STRING:  {name: "STRING", base: true, str: true},
	thrift.STRUCT:  {name: "STRUCT", strct: true},
	thrift.MAP:     {name: "MAP", container: true, mp: true},
	thrift.SET:     {name: "SET", container: true, set: true},
	thrift.LIST:    {name: "LIST", container: true, lst: true},
	thrift.ENUM:    {name: "ENUM", base: true, numeric: true, enum: true, str: true}, // has the number of UTF8
	thrift.UTF16:   {name: "UTF16", base: true, str: true},
	thrift.BINARY:  {name: "BINARY", base: true, str: true},
	thrift.GENERIC: {name: "GENERIC"},
}

func metaTypesCase(t *T) {
	code := t.Idx
	p := thrift.TType(code)
	f, known := typeTable[code]
	t.Desc(func() string { return fmt.Sprintf("type %d (%s)", code, f.name) })
	is := func(what string, got, want bool) {
		t.Count("type_facts", 1)
		if got != want {
			t.Fail("type %d (%s): %s is %v", code, f.name, what, got)
		}
	}
	is("IsBaseType", p.IsBaseType(), f.base)
	is("IsEmptyType", p.IsEmptyType(), f.empty)
	is("IsEnum", p.IsEnum(), f.enum)
	if code != thrift.BOOL {
		is("IsNumericType", p.IsNumericType(), f.numeric)
	}
	if code != thrift.ENUM {
		is("IsStringType", p.IsStringType(), f.str)
	}
	is("IsContainer", p.IsContainer(), f.container)
	is("IsStruct", p.IsStruct(), f.strct)
	is("IsMap", p.IsMap(), f.mp)
	is("IsList", p.IsList(), f.lst)
	is("IsSet", p.IsSet(), f.set)
	is("IsInt", p.IsInt(), f.intg)
	name := p.String()
	if known && name != f.name {
		t.Fail("type %d is called %q, not %q", code, name, f.name)
	}
	if !known {
		for c, g := range typeTable {
			if g.name == name {
				t.Fail("type %d is called %q like type %d", code, name, c)
			}
		}
	}
	wire := byte(code)
	if code == thrift.BINARY {
		wire = thrift.STRING
	}
	if w := p.ThriftTypeId(); w != wire {
		t.Fail("type %d is %d on the wire, not %d", code, w, wire)
	}
	for o := 0; o < 256; o++ {
		q := thrift.TType(o)
		for _, v := range []interface{}{q, byte(o), int(o), int32(o), int64(o), uint(o), uint32(o), uint64(o)} {
			t.Count("type_comparisons", 1)
			if c := p.Coerce(v); c != q {
				t.Fail("%T %v as a type is %d", v, v, c)
			}
			if p.LessType(v) != (code < o) {
				t.Fail("type %d less than %T %v: %v", code, v, v, p.LessType(v))
			}
		}
	}
	t.Seen(uint64(code))
}

func metaInferred(t *T) {
	r := t.R
	c := []struct {
		v interface{}
		t thrift.TType
	}{
		{nil, thrift.VOID}, {r.Bool(), thrift.BOOL}, {byte(r.U64()), thrift.BYTE}, {int8(r.U64()), thrift.BYTE}, {int16(r.U64()), thrift.I16},
		{int32(r.U64()), thrift.I32}, {int(int32(r.U64())), thrift.I32}, {int64(r.U64()), thrift.I64}, {math.Float64frombits(r.U64()), thrift.DOUBLE}, {float32(r.Intn(1000)), thrift.DOUBLE},
		{string(r.Bytes(r.Intn(5))), thrift.STRING}, {r.Bytes(r.Intn(5)), thrift.BINARY}, {thrift.NewTStructEmpty("x"), thrift.STRUCT},
		{thrift.NewTList(thrift.I32, 0), thrift.LIST}, {thrift.NewTSet(thrift.I32, 0), thrift.SET}, {thrift.NewTMap(thrift.I32, thrift.I64, 0), thrift.MAP},
		{thrift.NewTListDefault(), thrift.LIST}, {thrift.NewTMapDefault(), thrift.MAP}, {thrift.NewTSetDefault(), thrift.SET},
		{[]interface{}{1}, thrift.LIST}, {list.New(), thrift.LIST}, {struct{}{}, thrift.STOP}, {make(chan int), thrift.STOP}, {3i, thrift.STOP},
	}
	for _, x := range c {
		t.Count("inferred", 1)
		if g := thrift.TypeFromValue(x.v); g != x.t {
			t.Fail("the type of %T %v is %v, not %v", x.v, x.v, g, x.t)
		}
	}
	// containers tell the types they were made with
	a, b := metaTypes[r.Intn(len(metaTypes))], metaTypes[r.Intn(len(metaTypes))]
	n := r.Intn(20)
	if l := thrift.NewTList(a, n); l.ElemType() != a || l.Len() != 0 {
		t.Fail("a list made for %v is of %v and has %d elements", a, l.ElemType(), l.Len())
	}
	if l := thrift.NewTSet(a, n); l.ElemType() != a || l.Len() != 0 {
		t.Fail("a set made for %v is of %v and has %d elements", a, l.ElemType(), l.Len())
	}
	if l := thrift.NewTMap(a, b, n); l.KeyType() != a || l.ValueType() != b || l.Len() != 0 {
		t.Fail("a map made for %v to %v is of %v to %v and has %d elements", a, b, l.KeyType(), l.ValueType(), l.Len())
	}
	e := thrift.NewTMapElem(n, "v")
	if e.Key() != n || e.Value() != "v" {
		t.Fail("a map element made of %d and v has %v and %v", n, e.Key(), e.Value())
	}
	t.Seen(uint64(a)<<16 | uint64(b)<<8 | uint64(n))
}

func metaChecks(r *Run) {
	r.Cases("field containers", r.N(6000, 120000), metaContainers)
	r.Cases("structs", r.N(2000, 40000), metaStructs)
	r.Cases("orders", r.N(1000, 20000), metaOrder)
	r.Cases("messages", r.N(1000, 20000), metaMessages)
	r.Cases("types", 256, metaTypesCase)
	r.Cases("types of values", r.N(500, 10000), metaInferred)
}
