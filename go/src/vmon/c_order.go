package main

import (
	"bytes"
	"fmt"
	"math"
	"simple"
	"strings"
	"thrift"
)

func init() { props["C24"] = orderChecks }

func sgn(i int) int {
	if i < 0 {
		return -1
	}
	if i > 0 {
		return 1
	}
	return 0
}

// natural is the order of scalars everybody expects; ok is false where there is none.
func natural(a, b *V) (int, bool) {
	switch a.T {
	case thrift.BOOL, thrift.BYTE, thrift.I16, thrift.I32, thrift.I64:
		if a.I < b.I {
			return -1, true
		}
		if a.I > b.I {
			return 1, true
		}
		return 0, true
	case thrift.DOUBLE:
		x, y := math.Float64frombits(a.D), math.Float64frombits(b.D)
		if x < y {
			return -1, true
		}
		if x > y {
			return 1, true
		}
		return 0, x == y
	case thrift.STRING:
		return strings.Compare(a.S, b.S), true
	case thrift.BINARY:
		return bytes.Compare([]byte(a.S), []byte(b.S)), true
	}
	return 0, false
}

// vary gives a value that differs from v a little, so that the difference is deep inside.
func vary(v *V, s *sch, r *Rng) *V {
	w := *v
	w.L = append([]*V{}, v.L...)
	w.F = append([]Fld{}, v.F...)
	switch s.t {
	case thrift.LIST, thrift.SET:
		if len(w.L) > 0 && r.P(80) {
			i := r.Intn(len(w.L))
			w.L[i] = vary(w.L[i], s.e, r)
		} else {
			w.L = append(w.L, s.e.val(r))
		}
		if s.t == thrift.SET {
			w.L = dedup(w.L, 1)
		}
	case thrift.MAP:
		if len(w.L) > 0 {
			i := r.Intn(len(w.L))
			if i%2 == 0 {
				w.L[i] = vary(w.L[i], s.k, r)
			} else {
				w.L[i] = vary(w.L[i], s.e, r)
			}
			w.L = dedup(w.L, 2)
		} else {
			w.L = append(w.L, s.k.val(r), s.e.val(r))
		}
	case thrift.STRUCT:
		if len(w.F) > 0 {
			i := r.Intn(len(w.F))
			w.F[i].V = vary(w.F[i].V, s.f[i].s, r)
		}
	case thrift.STRING, thrift.BINARY:
		w.S = []string{v.S + "\x00", v.S + "a", "a" + v.S, strings.ToUpper(v.S), strings.TrimSuffix(v.S, "a")}[r.Intn(5)]
	case thrift.BYTE:
		w.I = (v.I ^ 1<<uint(r.Intn(8))) & 255
	case thrift.I16:
		w.I = int64(int16(v.I ^ 1<<uint(r.Intn(16))))
	case thrift.I32:
		w.I = int64(int32(v.I ^ 1<<uint(r.Intn(32))))
	case thrift.I64:
		w.I = v.I ^ 1<<uint(r.Intn(64))
	case thrift.DOUBLE:
		w.D = v.D ^ 1<<uint(r.Intn(64))
	default:
		return s.val(r)
	}
	return &w
}

// nth is the i-th of very many different scalars.
func nth(ty thrift.TType, i int) *V {
	v := &V{T: ty}
	switch ty {
	case thrift.STRING, thrift.BINARY:
		v.S = fmt.Sprintf("%c%d", 'a'+i%7, i)
	case thrift.DOUBLE:
		v.D = math.Float64bits(float64(i)*0.75 - 100)
	case thrift.I16:
		v.I = int64(int16(i * 7))
	default:
		v.I = int64(int32(i*1000003 - 5000))
	}
	return v
}

// largeOrder compares long texts and large containers that differ at one place.
func largeOrder(t *T, laws func(*T, *sch, []*V)) {
	r := t.R
	ety := []thrift.TType{thrift.I32, thrift.I64, thrift.STRING, thrift.BINARY, thrift.DOUBLE, thrift.I16}[r.Intn(6)]
	n := 30 + r.Intn(400)
	var s *sch
	base := &V{}
	switch t.Idx % 5 {
	case 0, 1:
		base.T = []thrift.TType{thrift.STRING, thrift.BINARY}[t.Idx%5]
		s = &sch{t: base.T}
		b := make([]byte, n*(1+r.Intn(20)))
		for i := range b {
			b[i] = 'a' + byte(r.Intn(3))
		}
		base.S = string(b)
	case 2:
		base.T, base.VT = thrift.LIST, ety
		s = &sch{t: base.T, e: &sch{t: ety}}
		for i := 0; i < n*3; i++ {
			base.L = append(base.L, nth(ety, r.Intn(1000)))
		}
	case 3:
		base.T, base.VT = thrift.SET, ety
		s = &sch{t: base.T, e: &sch{t: ety}}
		for i := 0; i < n; i++ {
			base.L = append(base.L, nth(ety, i))
		}
	case 4:
		base.T, base.KT, base.VT = thrift.MAP, ety, thrift.I32
		if r.Bool() {
			base.VT = thrift.STRING
		}
		s = &sch{t: base.T, k: &sch{t: ety}, e: &sch{t: base.VT}}
		for i := 0; i < n; i++ {
			base.L = append(base.L, nth(ety, i), nth(base.VT, r.Intn(1000)))
		}
	}
	vs := []*V{base}
	for i := 0; i < 3; i++ {
		w := *vs[r.Intn(len(vs))]
		w.L = append([]*V{}, w.L...)
		if isScalar(w.T) {
			b := []byte(w.S)
			k := r.Intn(len(b))
			switch r.Intn(4) {
			case 0:
				b = b[:k]
			case 1:
				k = len(b) - 1
				fallthrough
			default:
				b[k] = b[k]%26 + 'b'
			}
			w.S = string(b)
			vs = append(vs, &w)
			continue
		}
		k := r.Intn(len(w.L))
		switch {
		case r.P(20):
			if w.T == thrift.MAP {
				k &^= 1
				w.L = append(w.L[:k], w.L[k+2:]...)
			} else {
				w.L = append(w.L[:k], w.L[k+1:]...)
			}
		case w.T == thrift.MAP && k%2 == 1:
			w.L[k] = nth(w.VT, 2000+i)
		case w.T == thrift.MAP:
			w.L[k] = nth(w.KT, 2000+i)
		default:
			w.L[k] = nth(w.VT, 2000+i)
		}
		vs = append(vs, &w)
	}
	laws(t, s, vs)
	t.Count("large_values", len(vs))
}

type pair interface {
	CompareTo(other interface{}) (int, bool)
	Equals(other interface{}) bool
}

func orderChecks(r *Run) {
	if len(gSets) > 0 {
		genOrder(r)
		return
	}
	scalars := func(t *T, s *sch, n int, deep bool) {
		var vs []*V
		for i := 0; i < n; i++ {
			switch {
			case i > 0 && t.R.P(40):
				vs = append(vs, vary(vs[t.R.Intn(i)], s, t.R))
			default:
				vs = append(vs, s.val(t.R))
			}
		}
		lawsOf(t, s, vs)
	}
	for _, ty := range scalarTypes {
		s := &sch{t: ty}
		r.Cases("base types: "+tname(ty), r.N(60, 600), func(t *T) { scalars(t, s, 14, false) })
	}
	r.Cases("all types", r.N(4000, 40000), func(t *T) {
		s := schOf(t.R, allTypes[t.R.Intn(len(allTypes))], 3)
		scalars(t, s, 7, true)
	})
	for _, ty := range []thrift.TType{thrift.MAP, thrift.SET, thrift.LIST, thrift.STRUCT} {
		ty := ty
		r.Cases("containers of base types: "+tname(ty), r.N(600, 6000), func(t *T) { scalars(t, schOf(t.R, ty, 1), 9, true) })
	}
	r.Cases("large", r.N(60, 800), func(t *T) { largeOrder(t, lawsOf) })
	// containers of different element types: no order is prescribed, only that there is one
	r.Cases("different schemas", r.N(800, 8000), func(t *T) {
		ty := allTypes[8+t.R.Intn(4)]
		var vs []interface{}
		for i := 0; i < 6; i++ {
			s := schOf(t.R, ty, 2)
			vs = append(vs, mk(s.val(t.R), t.R, 1))
		}
		t.Desc(func() string { return fmt.Sprintf("%s", tname(ty)) })
		n := len(vs)
		c := make([][]int, n)
		okm := make([][]bool, n)
		for i := range vs {
			c[i], okm[i] = make([]int, n), make([]bool, n)
			for j := range vs {
				x, ok := ty.Compare(vs[i], vs[j])
				c[i][j], okm[i][j] = sgn(x), ok
			}
		}
		for i := range vs {
			if !okm[i][i] || c[i][i] != 0 {
				t.Fail("%s compared with itself: %d %v", show(vs[i]), c[i][i], okm[i][i])
			}
			for j := range vs {
				if okm[i][j] != okm[j][i] || c[i][j] != -c[j][i] {
					t.Fail("compare(a,b) = %d %v, compare(b,a) = %d %v", c[i][j], okm[i][j], c[j][i], okm[j][i])
				}
				t.Count("comparisons", 1)
			}
		}
		t.Seen(uint64(t.Idx))
	})
	r.Cases("nil", 1, func(t *T) {
		for _, ty := range allTypes {
			s := schOf(t.R, ty, 1)
			for i := 0; i < 20; i++ {
				x := mk(s.val(t.R), t.R, 0)
				a, ok1 := ty.Compare(nil, x)
				b, ok2 := ty.Compare(x, nil)
				if ok1 != ok2 || sgn(a) != -sgn(b) {
					t.Fail("%s: compare(nil, %s) = %d %v, compare(%s, nil) = %d %v", tname(ty), show(x), a, ok1, show(x), b, ok2)
				}
			}
			if c, ok := ty.Compare(nil, nil); ok && c != 0 {
				t.Fail("%s: compare(nil, nil) = %d", tname(ty), c)
			}
		}
	})
	r.Cases("helpers", r.N(3000, 30000), helpers)
	r.Cases("fields", r.N(1500, 15000), fieldOrder)
	r.Cases("generated structs", r.N(1500, 15000), generatedOrder)
	r.Case("generated equals", 0, func(t *T) {
		t.Pin("generated-struct-equals")
		a, b := simple.NewContainerOfEnums(), simple.NewContainerOfEnums()
		a.First, b.First = simple.UndefinedValues_One, simple.UndefinedValues_Two
		if a.Equals(b) {
			t.Fail("generated structs with different values are Equals to each other: the method they inherit knows the fields only (CompareTo gives the right answer)")
		}
	})
}

func show(x interface{}) string {
	if s, ok := x.(*tstr); ok {
		return fmt.Sprintf("%s%v", s.ThriftName(), s.attrs)
	}
	return fmt.Sprintf("%T %v", x, x)
}

// lawsOf compares all pairs of values, each built twice in different ways, and checks the laws.
func lawsOf(t *T, s *sch, vs []*V) {
	n := len(vs)
	t.Desc(func() string { return fmt.Sprintf("%s: %v", s, vs) })
	a, b := make([]interface{}, n), make([]interface{}, n)
	cs := make([]string, n)
	for i, v := range vs {
		a[i], b[i] = mk(v, t.R, 0), mk(v, t.R, 1)
		if isScalar(v.T) {
			if x := loose(v, t.R); x != nil {
				if _, ok := v.T.CoerceData(x); ok {
					b[i] = x
				}
			}
		}
		cs[i] = canon(v, false)
	}
	sg := make([][]int, n)
	for i := range vs {
		sg[i] = make([]int, n)
		for j := range vs {
			c, ok := s.t.Compare(a[i], b[j])
			if !ok {
				t.Fail("compare(%v, %v) is not possible", vs[i], vs[j])
				return
			}
			sg[i][j] = sgn(c)
			c2, ok2 := s.t.Compare(b[i], a[j])
			if !ok2 || sgn(c2) != sg[i][j] {
				t.Fail("compare(%v, %v) = %d, and with the same values built otherwise %d %v", vs[i], vs[j], c, c2, ok2)
				return
			}
			if (c == 0) != (cs[i] == cs[j]) {
				t.Fail("compare(%v, %v) = %d", vs[i], vs[j], c)
				return
			}
			if w, ok := natural(vs[i], vs[j]); ok && sgn(w) != sg[i][j] {
				t.Fail("compare(%v, %v) = %d, the natural order is %d", vs[i], vs[j], c, w)
				return
			}
			if got := s.t.Less(a[i], b[j]); got != (c < 0) {
				t.Fail("less(%v, %v) = %v, compare gives %d", vs[i], vs[j], got, c)
				return
			}
			if !isScalar(s.t) {
				x, ok := a[i].(pair)
				if !ok {
					t.Fail("%T has no CompareTo", a[i])
					return
				}
				d, ok := x.CompareTo(b[j])
				if !ok || sgn(d) != sg[i][j] {
					t.Fail("%v.CompareTo(%v) = %d %v, compare gives %d", vs[i], vs[j], d, ok, c)
					return
				}
				if s.t != thrift.STRUCT {
					if got := x.Equals(b[j]); got != (c == 0) {
						t.Fail("%v.Equals(%v) = %v, compare gives %d", vs[i], vs[j], got, c)
						return
					}
				}
				var less, has bool
				switch y := a[i].(type) {
				case thrift.TSet:
					less, has = y.Less(b[j]), true
				case thrift.TMap:
					less, has = y.Less(b[j]), true
				}
				if has && less != (c < 0) {
					t.Fail("%v.Less(%v) = %v, compare gives %d", vs[i], vs[j], less, c)
					return
				}
			}
			t.Count("comparisons", 2)
		}
	}
	for i := range vs {
		for j := range vs {
			if sg[i][j] != -sg[j][i] {
				t.Fail("compare(%v, %v) and the other way round: %d, %d", vs[i], vs[j], sg[i][j], sg[j][i])
				return
			}
			for k := range vs {
				if sg[i][j] <= 0 && sg[j][k] <= 0 && sg[i][k] != min(sg[i][j], sg[j][k]) {
					t.Fail("not transitive: (a,b) %d, (b,c) %d, (a,c) %d for a=%v b=%v c=%v", sg[i][j], sg[j][k], sg[i][k], vs[i], vs[j], vs[k])
					return
				}
				t.Count("triples", 1)
			}
		}
	}
	// a list of the values orders its elements in the same way
	if s.t != thrift.STRUCT || len(vs) > 0 {
		l := thrift.NewTList(s.t, 0)
		for i := range vs {
			l.Push(a[i])
		}
		if l.Len() == n {
			for i := range vs {
				for j := range vs {
					if l.Less(i, j) != (sg[i][j] < 0) {
						t.Fail("a list says less(%v, %v) = %v, compare gives %d", vs[i], vs[j], l.Less(i, j), sg[i][j])
						return
					}
				}
			}
		}
	}
	i := t.R.Intn(n)
	j := t.R.Intn(n)
	if c, ok := s.t.CompareValueArrays([]interface{}{a[i], a[j]}, []interface{}{b[i], b[j]}); !ok || c != 0 {
		t.Fail("arrays of equal values compare as %d %v", c, ok)
	}
	if c, ok := s.t.CompareValueArrays([]interface{}{a[i], a[i]}, []interface{}{b[i], b[j]}); !ok || sgn(c) != sg[i][j] {
		t.Fail("arrays that differ in the second value compare as %d %v, the values as %d", c, ok, sg[i][j])
	}
	t.Seen(hashStr(11, s.String()+strings.Join(cs, "|")))
	t.Sample("%s: %d values, all pairs and triples: %v", s, n, vs)
}

func helpers(t *T) {
	r := t.R
	g := newGen(r, GenOpt{})
	chk := func(name string, c, d int, lt, eq bool) {
		want := 1
		if eq {
			want = 0
		} else if lt {
			want = -1
		}
		if sgn(c) != want || sgn(d) != -want {
			t.Fail("%s: %d and %d the other way round, want %d", name, c, d, want)
		}
		t.Count("comparisons", 2)
	}
	i, j := g.i64(), g.i64()
	if r.P(30) {
		j = i ^ 1<<uint(r.Intn(64))
	}
	t.Desc(func() string { return fmt.Sprint(i, j) })
	chk("CompareInt", thrift.CompareInt(int(i), int(j)), thrift.CompareInt(int(j), int(i)), i < j, i == j)
	chk("CompareInt16", thrift.CompareInt16(int16(i), int16(j)), thrift.CompareInt16(int16(j), int16(i)), int16(i) < int16(j), int16(i) == int16(j))
	chk("CompareInt32", thrift.CompareInt32(int32(i), int32(j)), thrift.CompareInt32(int32(j), int32(i)), int32(i) < int32(j), int32(i) == int32(j))
	chk("CompareInt64", compareInt64(i, j), compareInt64(j, i), i < j, i == j)
	chk("CompareByte", thrift.CompareByte(byte(i), byte(j)), thrift.CompareByte(byte(j), byte(i)), byte(i) < byte(j), byte(i) == byte(j))
	chk("CompareBool", thrift.CompareBool(i&1 == 1, j&1 == 1), thrift.CompareBool(j&1 == 1, i&1 == 1), i&1 < j&1, i&1 == j&1)
	x, y := math.Float64frombits(g.f64bits()), math.Float64frombits(g.f64bits())
	if x == x && y == y {
		chk("CompareDouble", thrift.CompareDouble(x, y), thrift.CompareDouble(y, x), x < y, x == y)
		u, v := float32(x), float32(y)
		chk("CompareFloat", thrift.CompareFloat(u, v), thrift.CompareFloat(v, u), u < v, u == v)
	}
	a, b := poolS[r.Intn(len(poolS))], poolS[r.Intn(len(poolS))]
	chk("CompareString", thrift.CompareString(a, b), thrift.CompareString(b, a), a < b, a == b)
	var sa, sb []string
	for k := r.Intn(4); k > 0; k-- {
		sa = append(sa, poolS[r.Intn(len(poolS))])
	}
	sb = append(sb, sa...)
	if len(sb) > 0 && r.P(60) {
		sb[r.Intn(len(sb))] = poolS[r.Intn(len(poolS))]
	}
	if r.P(30) {
		sb = append(sb, "a")
	}
	c, d := thrift.CompareStringArray(sa, sb), thrift.CompareStringArray(sb, sa)
	if sgn(c) != -sgn(d) || (c == 0) != (fmt.Sprintf("%q", sa) == fmt.Sprintf("%q", sb)) {
		t.Fail("CompareStringArray(%q, %q) = %d, the other way round %d", sa, sb, c, d)
	}
	m1 := thrift.NewTMessage(a, thrift.TMessageType(1+r.Intn(4)), r.Intn(3))
	m2 := thrift.NewTMessage(b, thrift.TMessageType(1+r.Intn(4)), r.Intn(3))
	want := m1.Name() == m2.Name() && m1.TypeId() == m2.TypeId() && m1.SeqId() == m2.SeqId()
	if m1.Equals(m2) != want || m2.Equals(m1) != want || !m1.Equals(m1) {
		t.Fail("messages %v and %v: equals = %v", m1, m2, m1.Equals(m2))
	}
	t.Seen(uint64(t.Idx))
}

func fieldOrder(t *T) {
	r := t.R
	mkf := func() thrift.TField {
		return thrift.NewTField(poolS[r.Intn(4)], allTypes[r.Intn(4)], r.Intn(4)-1)
	}
	f, g, h := mkf(), mkf(), mkf()
	t.Desc(func() string { return fmt.Sprint(f, g, h) })
	cmp := func(a, b thrift.TField) int {
		c, ok := a.CompareTo(b)
		if !ok {
			t.Fail("field %v cannot be compared with %v", a, b)
		}
		if eq := a.Id() == b.Id() && a.TypeId() == b.TypeId(); (c == 0) != eq || a.Equals(b) != eq {
			t.Fail("%v and %v: compare %d, equals %v", a, b, c, a.Equals(b))
		}
		return sgn(c)
	}
	if cmp(f, g) != -cmp(g, f) {
		t.Fail("%v and %v: %d and %d", f, g, cmp(f, g), cmp(g, f))
	}
	if cmp(f, g) <= 0 && cmp(g, h) <= 0 && cmp(f, h) > 0 {
		t.Fail("not transitive: %v %v %v", f, g, h)
	}
	// containers of the same fields given in other orders
	var fs []thrift.TField
	for _, i := range r.Perm(6)[:r.Intn(6)] {
		fs = append(fs, thrift.NewTField(fmt.Sprint("f", i), allTypes[r.Intn(4)], i))
	}
	var gs []thrift.TField
	for _, i := range r.Perm(len(fs)) {
		gs = append(gs, fs[i])
	}
	a, b := thrift.NewTFieldContainer(fs), thrift.NewTFieldContainer(gs)
	c, ok := a.CompareTo(b)
	if !ok || c != 0 || !a.Equals(b) || !b.Equals(a) {
		t.Fail("field containers of the same fields: %d %v", c, ok)
	}
	if len(gs) > 0 {
		i := r.Intn(len(gs))
		gs[i] = thrift.NewTField(gs[i].Name(), gs[i].TypeId()+1, gs[i].Id())
		b = thrift.NewTFieldContainer(gs)
		c, ok := a.CompareTo(b)
		d, ok2 := b.CompareTo(a)
		if !ok || !ok2 || c == 0 || sgn(c) != -sgn(d) || a.Equals(b) || b.Equals(a) {
			t.Fail("field containers that differ in a type: %d %v, %d %v, equals %v", c, ok, d, ok2, a.Equals(b))
		}
	}
	t.Count("comparisons", 8)
	t.Seen(hashStr(1, fmt.Sprint(f, g, h, fs)))
}

// generated structs of the golden code: by their CompareTo and within containers
func generatedOrder(t *T) {
	r := t.R
	mkc := func() *simple.ContainerOfEnums {
		c := simple.NewContainerOfEnums()
		set := func(p *simple.UndefinedValues) {
			if r.Bool() {
				*p = simple.UndefinedValues(r.Intn(2))
			}
		}
		set(&c.First)
		if r.P(30) {
			set(&c.OptionalFourth)
		}
		c.Second = simple.DefinedValues(1 + r.Intn(2))
		return c
	}
	key := func(c *simple.ContainerOfEnums) string {
		s := ""
		for id := 1; id <= 9; id++ {
			s += fmt.Sprint(int64Of(c.AttributeByFieldId(id)), ",")
		}
		return s
	}
	vs := []*simple.ContainerOfEnums{mkc(), mkc(), mkc(), mkc()}
	t.Desc(func() string { return fmt.Sprint(vs) })
	for _, a := range vs {
		for _, b := range vs {
			c, ok := a.CompareTo(b)
			d, ok2 := b.CompareTo(a)
			if !ok || !ok2 || sgn(c) != -sgn(d) || (c == 0) != (key(a) == key(b)) {
				t.Fail("%v and %v (values %s and %s): %d %v and %d %v", a, b, key(a), key(b), c, ok, d, ok2)
				return
			}
			e, ok3 := thrift.TType(thrift.STRUCT).Compare(a, b)
			if !ok3 || sgn(e) != sgn(c) {
				t.Fail("STRUCT.Compare gives %d %v, CompareTo %d", e, ok3, c)
			}
			for _, x := range vs {
				f, _ := b.CompareTo(x)
				g, _ := a.CompareTo(x)
				if c <= 0 && f <= 0 && g > 0 {
					t.Fail("not transitive: %v %v %v", a, b, x)
				}
			}
			l, m := thrift.NewTList(thrift.STRUCT, 1), thrift.NewTList(thrift.STRUCT, 1)
			l.Push(a)
			m.Push(b)
			if l.Equals(m) != (c == 0) || l.Contains(b) != (c == 0) {
				t.Fail("lists of %v and %v: equals %v contains %v, compare gives %d", a, b, l.Equals(m), l.Contains(b), c)
			}
			t.Count("comparisons", 5)
		}
	}
	t.Seen(hashStr(2, fmt.Sprint(key(vs[0]), key(vs[1]), key(vs[2]))))
}

func int64Of(x interface{}) int64 {
	if e, ok := x.(interface{ Value() int }); ok {
		return int64(e.Value())
	}
	return -999
}
