package main

import (
	"fmt"
	"strings"
	"thrift"
)

// C24 over generated structs: the order their CompareTo gives, in the build that has generated packages.

func genOrder(r *Run) {
	n := 0
	for _, s := range gSets {
		s := s
		for _, st := range s.all {
			st := st
			for i := 0; i < r.N(4, 20); i++ {
				r.Case("order of generated structs", n, func(t *T) { gOrderLaws(t, s, st) })
				n++
			}
		}
	}
}

// plainDoubles has one NaN and one zero only.
func plainDoubles(v *V) *V {
	w := *v
	if v.T == thrift.DOUBLE {
		if v.D<<1 > 0x7ff<<53 {
			w.D = 0x7ff8000000000001
		}
		if v.D<<1 == 0 {
			w.D = 0
		}
	}
	w.L, w.F = nil, nil
	for _, x := range v.L {
		w.L = append(w.L, plainDoubles(x))
	}
	for _, f := range v.F {
		f.V = plainDoubles(f.V)
		w.F = append(w.F, f)
	}
	return &w
}

// settled is v with sets and maps whose members are still distinct.
func (s *gSet) settled(v *V, st *gStruct) *V {
	w := plainDoubles(v)
	var walk func(v *V, t *gT) *V
	walkS := func(v *V, st *gStruct) {
		for i, f := range v.F {
			if d := st.field(int(f.ID)); d != nil {
				v.F[i].V = walk(f.V, d.Type)
			}
		}
	}
	walk = func(v *V, t *gT) *V {
		t = t.real()
		switch t.K {
		case "list", "set":
			for i := range v.L {
				v.L[i] = walk(v.L[i], t.Val)
			}
			if t.K == "set" {
				v.L = s.dedup(t.Val, v.L, 1)
			}
		case "map":
			for i := range v.L {
				if i%2 == 0 {
					v.L[i] = walk(v.L[i], t.Key)
				} else {
					v.L[i] = walk(v.L[i], t.Val)
				}
			}
			v.L = s.dedup(t.Key, v.L, 2)
		case "struct", "exception":
			walkS(v, s.of(t))
		}
		return v
	}
	walkS(w, st)
	return w
}

func gOrderLaws(t *T, s *gSet, st *gStruct) {
	r := t.R
	const n = 6
	var vs []*V
	one := map[[2]int]int{} // pairs that differ in one field only: its id
	for i := 0; i < n; i++ {
		if i > 0 && r.P(60) && len(st.Fields) > 0 {
			j := r.Intn(i)
			v := *vs[j]
			f := st.Fields[r.Intn(len(st.Fields))]
			v.F = nil
			had := false
			for _, x := range vs[j].F {
				if int(x.ID) != f.ID {
					v.F = append(v.F, x)
					continue
				}
				had = true
			}
			if !had || r.P(80) {
				v.F = append(v.F, Fld{Name: f.Name, ID: int16(f.ID), V: s.value(r, f.Type, 2)})
			}
			w := s.settled(&v, st)
			if had && w.fld(f.ID) != nil {
				one[[2]int{i, j}] = f.ID
			}
			vs = append(vs, w)
			continue
		}
		vs = append(vs, s.settled(s.strct(r, st, 2), st))
	}
	t.Desc(func() string {
		return fmt.Sprintf("definition set %s, struct %s: %v", s.Name, st.Name, vs)
	})
	var a, b []thrift.TStruct
	var text, set []string
	for _, v := range vs {
		x, y := s.buildS(v, st).(thrift.TStruct), s.buildS(v, st).(thrift.TStruct)
		a, b = append(a, x), append(b, y)
		text = append(text, strings.ReplaceAll(s.seeS(x, st), "d8000000000000000", "d0"))
		set = append(set, setText(v))
	}
	var c [n][n]int
	for i := range vs {
		for j := range vs {
			d, ok := a[i].(pair).CompareTo(b[j])
			if !ok {
				t.Fail("%v and %v cannot be compared", vs[i], vs[j])
				return
			}
			c[i][j] = sgn(d)
			if e, ok := thrift.TType(thrift.STRUCT).Compare(a[i], b[j]); !ok || sgn(e) != c[i][j] {
				t.Fail("%v: CompareTo %v gives %d, Compare %d %v", vs[i], vs[j], d, e, ok)
				return
			}
			if text[i] != text[j] && d == 0 {
				t.Fail("%s and %s compare as equal", text[i], text[j])
				return
			}
			if set[i] == set[j] && d != 0 {
				t.Fail("%v compared with an equal struct gives %d", vs[i], d)
				return
			}
			t.Count("generated_comparisons", 1)
		}
		if d, ok := a[i].(pair).CompareTo(nil); !ok || d <= 0 {
			t.Fail("compared with nothing, %v gives %d %v", vs[i], d, ok)
		}
	}
	for i := range vs {
		for j := range vs {
			if c[i][j] != -c[j][i] {
				t.Fail("compare(a, b) = %d, compare(b, a) = %d for %v and %v", c[i][j], c[j][i], vs[i], vs[j])
				return
			}
			for k := range vs {
				if c[i][j] <= 0 && c[j][k] <= 0 && c[i][k] > 0 || c[i][j] == 0 && c[i][k] != c[j][k] {
					t.Fail("the order is not transitive: %v, %v, %v: %d %d %d", vs[i], vs[j], vs[k], c[i][j], c[j][k], c[i][k])
					return
				}
			}
			if id, ok := one[[2]int{i, j}]; ok {
				if w, ok := natural(vs[i].fld(id), vs[j].fld(id)); ok && sgn(w) != c[i][j] {
					t.Fail("%v and %v differ in field %d only; its order is %d, theirs %d", vs[i], vs[j], id, w, c[i][j])
					return
				}
				t.Count("one_field_apart", 1)
			}
		}
		t.Seen(shapeHash(vs[i]) ^ hashStr(7, st.Name))
	}
	t.Sample("order: %s: %v", st.Name, vs[0])
}

// setText tells structs apart by the fields that are set, whatever the order they were set in.
func setText(v *V) string {
	return canon(v, false)
}
