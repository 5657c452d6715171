package main

import (
	"fmt"
	"sort"
	"strings"
	"thrift"
)

func init() {
	props["C21"] = listChecks
	props["C22"] = setChecks
	props["C23"] = mapChecks
}

// elemSch picks an element type; scalars most of the time.
func elemSch(r *Rng) *sch {
	if r.P(65) {
		return schOf(r, scalarTypes[r.Intn(len(scalarTypes))], 0)
	}
	return genSch(r, 2)
}

// feed picks something to give to a container of type et: its Go value, the canonical text of what that denotes as a
// value of the type (as the library's conversion has it, which has a check of its own), and whether it fits.
// An element of the type itself and an integer in range have to fit.
func feed(t *T, s *sch, odd bool) (x interface{}, c string, ok bool) {
	r := t.R
	if odd && r.P(60) {
		if x := beyond(s, r); x != nil {
			t.Count("beyond", 1)
			return x, "", false
		}
	}
	if odd {
		x = misfit(r)
		y, ok := s.t.CoerceData(x)
		if !ok || y == nil {
			return x, "", false
		}
		if c, e := canonGo(y, s.t, true); e == nil {
			if !isScalar(s.t) {
				return nil, "", false // a container of another element type: leave it
			}
			return x, c, true
		}
		return nil, "", false
	}
	v := s.val(r)
	c = canon(v, true)
	if !isScalar(s.t) {
		return mk(v, r, r.Intn(2)), c, true
	}
	switch r.Intn(3) {
	case 0:
		return native(v), c, true
	case 1:
		if s.t == thrift.BYTE || s.t == thrift.I16 || s.t == thrift.I32 || s.t == thrift.I64 {
			return kin(v, r), c, true
		}
	}
	x = loose(v, r)
	if _, ok := s.t.CoerceData(x); !ok {
		return native(v), c, true
	}
	return x, c, true
}

// beyond is a number that is none of the integer type, but of which the lower
// bits, or the integer part, are a value of it.
func beyond(s *sch, r *Rng) interface{} {
	w := map[thrift.TType]uint{thrift.BYTE: 8, thrift.I16: 16, thrift.I32: 32}[s.t]
	if w == 0 {
		return nil
	}
	v := s.val(r).I
	if r.P(20) {
		return float64(v) + []float64{0.5, -0.5, 0.25}[r.Intn(3)]
	}
	k := int64(2 + r.Intn(30))
	if r.P(30) {
		k = 1 << uint(1+r.Intn(int(62-w)))
	}
	if r.P(40) {
		k = -k
	}
	x := v + k<<w
	switch r.Intn(6) {
	case 0:
		return int64(x)
	case 1:
		if x >= 0 {
			return uint64(x)
		}
	case 2:
		if f := float64(x); int64(f) == x {
			return f
		}
	case 3:
		return fmt.Sprint(x)
	case 4:
		if w < 32 && x == int64(int32(x)) {
			return int32(x)
		}
	}
	return int(x)
}

// feedFor is feed for a container that may not have an element type yet: then only values whose type is plain.
func feedFor(t *T, s *sch, typed bool) (interface{}, string, bool) {
	if typed {
		return feed(t, s, t.R.P(8))
	}
	v := s.val(t.R)
	return mk(v, t.R, 0), canon(v, true), true
}

func listChecks(r *Run) {
	r.Cases("sequences", r.N(6000, 60000), func(t *T) { listCase(t, 40, elemSch(t.R)) })
	r.Cases("long sequences", r.N(150, 1500), func(t *T) { listCase(t, 600, schOf(t.R, scalarTypes[t.R.Intn(len(scalarTypes))], 0)) })
	r.Cases("together", r.N(800, 8000), func(t *T) {
		// operations on one do not show in another, of the same or another type
		var fs []func()
		a := elemSch(t.R)
		for i := 2 + t.R.Intn(3); i > 0; i-- {
			if t.R.P(30) {
				a = elemSch(t.R)
			}
			s := a
			fs = append(fs, func() { listCase(t, 4+t.R.Intn(20), s) })
		}
		t.Together(fs...)
		t.Count("together", len(fs))
	})
	r.Cases("iterators", r.N(600, 6000), func(t *T) {
		s := elemSch(t.R)
		l := thrift.NewTList(s.t, 0)
		var m []string
		for i := t.R.Intn(12); i > 0; i-- {
			v := s.val(t.R)
			l.Push(mk(v, t.R, 1))
			m = append(m, canon(v, true))
		}
		// two iterations at once, one of them given up, do not disturb each other
		a, b := l.Iter(), l.Iter()
		<-l.Iter()
		for i := 0; ; i++ {
			x, ok := <-a
			y, ok2 := <-b
			if !ok || !ok2 {
				if ok != ok2 || i != len(m) {
					t.Fail("iterators of a list of %d elements end after %d", len(m), i)
				}
				break
			}
			cx, _ := canonGo(x, s.t, true)
			cy, _ := canonGo(y, s.t, true)
			if i >= len(m) || cx != m[i] || cy != m[i] {
				t.Fail("element %d of two iterations: %s and %s, want %v", i, cx, cy, m)
				break
			}
			t.Count("elements_compared", 2)
		}
	})
}

func listCase(t *T, nops int, s *sch) {
	r := t.R
	var log []string
	t.Desc(func() string { return "list<" + s.String() + ">: " + strings.Join(tail(log, 60), "; ") })
	typed := r.P(80)
	var l thrift.TList
	if typed {
		l = thrift.NewTList(s.t, r.Intn(20))
	} else if r.Bool() {
		l = thrift.NewTListDefault()
	} else {
		l = thrift.NewTList([]thrift.TType{thrift.STOP, thrift.VOID}[r.Intn(2)], 3)
	}
	log = append(log, fmt.Sprintf("typed=%v", typed))
	var m []string
	var probes []string // canonical texts of values tried in searches
	_ = probes
	h := uint64(17)
	for i := 0; i < nops && !t.Failed(); i++ {
		t.Turn()
		op := r.Intn(12)
		h = h*1099511628211 ^ uint64(op)
		panicked := false
		mayPanic := false
		before := len(m)
		switch op {
		case 0, 1, 2:
			x, c, ok := feedFor(t, s, typed)
			if !typed {
				typed = true
			}
			log = append(log, fmt.Sprintf("push(%T %.40v)", x, x))
			if x == nil {
				continue
			}
			panicked = try(func() { l.Push(x) })
			if ok {
				m = append(m, c)
			}
		case 3:
			log = append(log, "pop")
			var got interface{}
			panicked = try(func() { got = l.Pop() })
			mayPanic = len(m) == 0
			if len(m) > 0 {
				c, e := canonGo(got, s.t, true)
				if !panicked && (e != nil || c != m[len(m)-1]) {
					t.Fail("pop gives %s (%v), want %s", c, e, m[len(m)-1])
				}
				m = m[:len(m)-1]
			}
		case 4, 5:
			x, c, ok := feedFor(t, s, typed)
			k := idx(r, len(m))
			if x == nil || (!typed && (k < 0 || k > len(m))) {
				continue
			}
			typed = true
			log = append(log, fmt.Sprintf("insert(%d, %T %.40v)", k, x, x))
			panicked = try(func() { l.Insert(k, x) })
			if k >= 0 && k <= len(m) {
				if ok {
					m = append(m, "")
					copy(m[k+1:], m[k:])
					m[k] = c
				}
			} else {
				mayPanic = true
			}
		case 6:
			k := idx(r, len(m))
			log = append(log, fmt.Sprintf("delete(%d)", k))
			panicked = try(func() { l.Delete(k) })
			if k >= 0 && k < len(m) {
				m = append(m[:k:k], m[k+1:]...)
			} else {
				mayPanic = true
			}
		case 7, 8:
			x, c, ok := feedFor(t, s, typed)
			k := idx(r, len(m))
			if x == nil || (!typed && k != len(m)) {
				continue
			}
			if k > len(m) {
				k = len(m)
			}
			typed = true
			log = append(log, fmt.Sprintf("set(%d, %T %.40v)", k, x, x))
			panicked = try(func() { l.Set(k, x) })
			switch {
			case k < 0:
				mayPanic = true
			case ok && k < len(m):
				m[k] = c
			case ok:
				m = append(m, c)
			}
		case 9:
			j, k := idx(r, len(m)), idx(r, len(m))
			log = append(log, fmt.Sprintf("swap(%d,%d)", j, k))
			panicked = try(func() { l.Swap(j, k) })
			if j >= 0 && k >= 0 && j < len(m) && k < len(m) {
				m[j], m[k] = m[k], m[j]
			} else {
				mayPanic = true
			}
		case 10:
			k := idx(r, len(m))
			log = append(log, fmt.Sprintf("at(%d)", k))
			var got interface{}
			panicked = try(func() { got = l.At(k) })
			if k >= 0 && k < len(m) {
				if c, e := canonGo(got, s.t, true); e != nil || c != m[k] {
					t.Fail("element %d is %s (%v), want %s", k, c, e, m[k])
				}
			} else {
				mayPanic = true
			}
		case 11:
			x, c, ok := feedFor(t, s, true)
			if x == nil {
				continue
			}
			log = append(log, fmt.Sprintf("contains(%T %.40v)", x, x))
			var got bool
			panicked = try(func() { got = l.Contains(x) })
			want := false
			if ok && (typed || len(m) > 0) {
				cc := inexact(c)
				for _, e := range m {
					if inexact(e) == cc {
						want = true
					}
				}
			}
			if got != want {
				t.Fail("contains(%T %v) = %v, want %v in %v", x, x, got, want, m)
			}
		}
		if panicked && !mayPanic {
			t.Fail("%s panics on a list of %d", log[len(log)-1], before)
		}
		if nops > 100 && i%17 != 0 && i != nops-1 {
			if l.Len() != len(m) {
				t.Fail("after %s the length is %d, want %d", log[len(log)-1], l.Len(), len(m))
			}
			continue
		}
		listState(t, l, s, m, log[len(log)-1])
	}
	for i := 0; t.turn != nil && i < 20 && !t.Failed(); i++ {
		t.Turn()
		listState(t, l, s, m, "operations on another list")
	}
	t.Seen(h)
	t.Count("operations", nops)
	if len(m) > 0 && l.ElemType() != s.t {
		t.Fail("element type %s, want %s", l.ElemType(), s.t)
	}
	t.Sample("%s of %s, %d operations, ends with %d elements", "list", s, nops, len(m))
}

// inexact turns an exact canonical text into one in which the two zeros, and all NaN, are the same.
func inexact(c string) string {
	if !strings.Contains(c, "d") {
		return c
	}
	c = strings.ReplaceAll(c, "d8000000000000000", "d0")
	for _, n := range nanTexts {
		c = strings.ReplaceAll(c, n, "dNaN")
	}
	if strings.ContainsAny(c, "{<") {
		return resort(c)
	}
	return c
}

var nanTexts = func() []string {
	var o []string
	for _, b := range poolF {
		if canonD(b, false) == "dNaN" {
			o = append(o, canonD(b, true))
		}
	}
	return o
}()

// resort puts the parts of sets and maps in order again.
func resort(c string) string {
	s, _ := resortAt(c, 0, 0)
	return s
}

func resortAt(c string, i int, end byte) (string, int) {
	var parts []string
	var cur strings.Builder
	for i < len(c) {
		switch ch := c[i]; ch {
		case '"':
			j := i + 1
			for c[j] != '"' {
				if c[j] == '\\' {
					j++
				}
				j++
			}
			cur.WriteString(c[i : j+1])
			i = j + 1
		case '[', '{', '<', '(':
			s, j := resortAt(c, i+1, map[byte]byte{'[': ']', '{': '}', '<': '>', '(': ')'}[ch])
			cur.WriteByte(ch)
			cur.WriteString(s)
			i = j
		case ',':
			parts = append(parts, cur.String())
			cur.Reset()
			i++
		default:
			if ch == end {
				parts = append(parts, cur.String())
				if end == '}' || end == '>' {
					sort.Strings(parts)
				}
				return strings.Join(parts, ",") + string(ch), i + 1
			}
			cur.WriteByte(ch)
			i++
		}
	}
	parts = append(parts, cur.String())
	return strings.Join(parts, ","), i
}

func tail(l []string, n int) []string {
	if len(l) > n {
		return append([]string{"..."}, l[len(l)-n:]...)
	}
	return l
}

// idx picks an index: mostly within, sometimes at or beyond an end.
func idx(r *Rng, n int) int {
	switch r.Intn(12) {
	case 0:
		return -1
	case 1:
		return n
	case 2:
		return n + 1
	case 3:
		return 0
	}
	if n == 0 {
		return 0
	}
	return r.Intn(n)
}

func listState(t *T, l thrift.TList, s *sch, m []string, op string) {
	if l.Len() != len(m) {
		t.Fail("after %s the length is %d, want %d", op, l.Len(), len(m))
		return
	}
	i := 0
	for x := range l.Iter() {
		c, e := canonGo(x, s.t, true)
		if e != nil || i >= len(m) || c != m[i] {
			t.Fail("after %s iteration gives %s (%v) as element %d, want %v", op, c, e, i, m)
			return
		}
		i++
	}
	if i != len(m) {
		t.Fail("after %s iteration gives %d elements, want %d", op, i, len(m))
		return
	}
	for i := range m {
		c, e := canonGo(l.At(i), s.t, true)
		if e != nil || c != m[i] {
			t.Fail("after %s element %d is %s (%v), want %s", op, i, c, e, m[i])
			return
		}
	}
	t.Count("elements_compared", 2*len(m))
}

// ---- sets

func setChecks(r *Run) {
	r.Cases("together", r.N(800, 8000), func(t *T) {
		// operations on one do not show in another, of the same or another type
		var fs []func()
		a := elemSch(t.R)
		for i := 2 + t.R.Intn(3); i > 0; i-- {
			if t.R.P(30) {
				a = elemSch(t.R)
			}
			s := a
			fs = append(fs, func() { setCase(t, 4+t.R.Intn(20), s) })
		}
		t.Together(fs...)
		t.Count("together", len(fs))
	})
	r.Cases("sequences", r.N(6000, 60000), func(t *T) { setCase(t, 40, elemSch(t.R)) })
	r.Cases("orders", r.N(1500, 15000), func(t *T) {
		// the same elements in every order (of up to four) or several (of more) make equal sets
		s := elemSch(t.R)
		n := 1 + t.R.Intn(9)
		var vs []*V
		for i := 0; i < n; i++ {
			vs = append(vs, s.val(t.R))
		}
		t.Desc(func() string { return fmt.Sprintf("%s: %v", s, vs) })
		want := map[string]bool{}
		for _, v := range vs {
			want[canon(v, false)] = true
		}
		var orders [][]int
		if n <= 4 {
			orders = perms(n)
		} else {
			for i := 0; i < 8; i++ {
				orders = append(orders, t.R.Perm(n))
			}
		}
		first := thrift.TSet(nil)
		for _, o := range orders {
			set := thrift.NewTSet(s.t, t.R.Intn(20))
			for _, k := range o {
				set.Add(mk(vs[k], t.R, 1))
			}
			if e := setIs(set, s, want); e != "" {
				t.Fail("inserted in order %v: %s", o, e)
				return
			}
			if first == nil {
				first = set
			} else if !set.Equals(first) || !first.Equals(set) || set.Less(first) || first.Less(set) {
				t.Fail("inserted in order %v it differs from the set inserted in order %v", o, orders[0])
				return
			}
			t.Count("insertion_orders", 1)
		}
		t.Seen(hashStr(7, fmt.Sprint(vs)))
	})
	r.Cases("large", r.N(20, 200), func(t *T) {
		n := 300 + t.R.Intn(500)
		ty := []thrift.TType{thrift.I32, thrift.STRING, thrift.BINARY, thrift.DOUBLE, thrift.I64}[t.R.Intn(5)]
		set := thrift.NewTSet(ty, t.R.Intn(2)*n)
		m := map[int]bool{}
		t.Desc(func() string { return fmt.Sprintf("%d operations on a set of %s", n, tname(ty)) })
		pool := n/2 + t.R.Intn(n)
		for i := 0; i < n; i++ {
			x := t.R.Intn(pool)
			if t.R.P(80) {
				set.Add(native(nth(ty, x)))
				m[x] = true
			} else {
				set.Remove(native(nth(ty, x)))
				delete(m, x)
			}
		}
		if set.Len() != len(m) || len(set.Values()) != len(m) {
			t.Fail("length %d, want %d", set.Len(), len(m))
		}
		seen := 0
		for e := set.Front(); e != nil; e = e.Next() {
			seen++
		}
		if seen != len(m) {
			t.Fail("iteration gives %d elements of %d", seen, len(m))
		}
		for i := 0; i < pool; i++ {
			if set.Contains(native(nth(ty, i))) != m[i] {
				t.Fail("contains(%v) = %v", nth(ty, i), !m[i])
				return
			}
		}
		t.Count("elements_compared", pool)
		t.Seen(uint64(t.Idx))
	})
}

func perms(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var o [][]int
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			o = append(o, q)
		}
	}
	return o
}

func setIs(set thrift.TSet, s *sch, m map[string]bool) string {
	if set.Len() != len(m) {
		return fmt.Sprintf("length %d, want %d", set.Len(), len(m))
	}
	vals := set.Values()
	if len(vals) != len(m) {
		return fmt.Sprintf("%d values, want %d", len(vals), len(m))
	}
	seen := map[string]bool{}
	for _, x := range vals {
		c, e := canonGo(x, s.t, false)
		if e != nil || !m[c] || seen[c] {
			return fmt.Sprintf("holds %s (%v; seen before: %v), want %v", c, e, seen[c], keys(m))
		}
		seen[c] = true
	}
	i := 0
	for e := set.Front(); e != nil; e = e.Next() {
		c, err := canonGo(e.Value, s.t, false)
		if err != nil || !m[c] {
			return fmt.Sprintf("element list holds %s (%v)", c, err)
		}
		i++
	}
	if i != len(m) || (set.Back() == nil) != (len(m) == 0) {
		return fmt.Sprintf("element list of %d, want %d", i, len(m))
	}
	return ""
}

func keys(m map[string]bool) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func setCase(t *T, nops int, s *sch) {
	r := t.R
	var log []string
	t.Desc(func() string { return "set<" + s.String() + ">: " + strings.Join(log, "; ") })
	set := thrift.NewTSet(s.t, r.Intn(3)*7)
	m := map[string]bool{}
	reps := map[string]interface{}{}
	for i := 0; i < nops && !t.Failed(); i++ {
		t.Turn()
		x, c, ok := feed(t, s, r.P(6))
		if x == nil {
			continue
		}
		c = inexact(c)
		op := r.Intn(8)
		panicked := false
		switch {
		case op < 4:
			log = append(log, fmt.Sprintf("add(%T %.60v)", x, x))
			panicked = try(func() { set.Add(x) })
			if ok {
				m[c] = true
				reps[c] = x
			}
		case op < 6:
			if r.Bool() && len(m) > 0 {
				k := keys(m)[r.Intn(len(m))]
				x, c, ok = reps[k], k, true
			}
			log = append(log, fmt.Sprintf("remove(%T %.60v)", x, x))
			panicked = try(func() { set.Remove(x) })
			if ok {
				delete(m, c)
			}
		default:
			log = append(log, fmt.Sprintf("contains(%T %.60v)", x, x))
			var got bool
			panicked = try(func() { got = set.Contains(x) })
			if want := ok && m[c]; !panicked && got != want {
				t.Fail("contains(%T %v) = %v, want %v in %v", x, x, got, want, keys(m))
			}
		}
		if panicked {
			t.Fail("%s panics", log[len(log)-1])
		}
		if e := setIs(set, s, m); e != "" {
			t.Fail("after %s: %s", log[len(log)-1], e)
		}
		t.Count("elements_compared", 2*len(m))
	}
	for i := 0; t.turn != nil && i < 20 && !t.Failed(); i++ {
		t.Turn()
		if e := setIs(set, s, m); e != "" {
			t.Fail("after operations on another set: %s", e)
		}
	}
	if t.Failed() {
		return
	}
	// equality with another set that has the same or nearly the same elements
	other := thrift.NewTSet(s.t, 0)
	ks := keys(m)
	for _, i := range r.Perm(len(ks)) {
		other.Add(reps[ks[i]])
	}
	if !set.Equals(other) || !other.Equals(set) {
		t.Fail("not equal to the set of the same elements: %v", ks)
	}
	if len(ks) > 0 {
		other.Remove(reps[ks[r.Intn(len(ks))]])
		if set.Equals(other) || other.Equals(set) {
			t.Fail("equal to a set with one element less: %v", ks)
		}
		x, c, ok := feed(t, s, false)
		if ok && !m[inexact(c)] {
			other.Add(x)
			if set.Equals(other) || other.Equals(set) {
				t.Fail("equal to a set with another element: %v", ks)
			}
		}
	}
	t.Count("operations", nops)
	t.Seen(hashStr(3, strings.Join(log, ";")))
	t.Sample("set of %s: %d operations, ends with %d elements", s, nops, len(m))
}

// ---- maps

func mapChecks(r *Run) {
	r.Cases("together", r.N(800, 8000), func(t *T) {
		// operations on one do not show in another, of the same or another type
		var fs []func()
		a, b := elemSch(t.R), elemSch(t.R)
		for i := 2 + t.R.Intn(3); i > 0; i-- {
			if t.R.P(30) {
				a, b = elemSch(t.R), elemSch(t.R)
			}
			k, e := a, b
			fs = append(fs, func() { mapCase(t, 4+t.R.Intn(15), k, e) })
		}
		t.Together(fs...)
		t.Count("together", len(fs))
	})
	r.Cases("sequences", r.N(6000, 60000), func(t *T) { mapCase(t, 30, elemSch(t.R), elemSch(t.R)) })
	r.Cases("key types", r.N(60, 600)*len(allTypes), func(t *T) {
		mapCase(t, 30, schOf(t.R, allTypes[t.Idx%len(allTypes)], 2), elemSch(t.R))
	})
	r.Cases("orders", r.N(1000, 10000), func(t *T) {
		k, e := elemSch(t.R), elemSch(t.R)
		var ks, vs []*V
		for i := 1 + t.R.Intn(6); i > 0; i-- {
			ks = append(ks, k.val(t.R), nil)
		}
		ks = dedupKeys(ks)
		for range ks {
			vs = append(vs, e.val(t.R))
		}
		var first thrift.TMap
		for n := 0; n < 6; n++ {
			m := thrift.NewTMap(k.t, e.t, t.R.Intn(9))
			for _, i := range t.R.Perm(len(ks)) {
				m.Set(mk(ks[i], t.R, 1), mk(vs[i], t.R, 1))
			}
			if first == nil {
				first = m
			} else if !m.Equals(first) || !first.Equals(m) || m.Less(first) || first.Less(m) {
				t.Fail("maps %s -> %s of the same pairs, set in other orders, differ: %v %v", k, e, ks, vs)
				return
			}
			t.Count("insertion_orders", 1)
		}
		// one value replaced by another makes a difference
		i := t.R.Intn(len(ks))
		w := e.val(t.R)
		if canon(w, false) != canon(vs[i], false) {
			m := thrift.NewTMap(k.t, e.t, 0)
			for j := range ks {
				m.Set(mk(ks[j], t.R, 1), mk(vs[j], t.R, 1))
			}
			m.Set(mk(ks[i], t.R, 0), mk(w, t.R, 0))
			if m.Equals(first) || first.Equals(m) {
				t.Fail("maps %s -> %s that differ at key %v (%v, %v) are equal", k, e, ks[i], w, vs[i])
			}
		}
		t.Seen(hashStr(5, fmt.Sprint(ks, vs)))
	})
	r.Cases("large", r.N(16, 160), func(t *T) {
		n := 200 + t.R.Intn(500)
		kt := []thrift.TType{thrift.BINARY, thrift.I64, thrift.I32, thrift.I16, thrift.DOUBLE, thrift.STRING}[t.R.Intn(6)]
		vt := []thrift.TType{thrift.I32, thrift.STRING, thrift.BINARY}[t.R.Intn(3)]
		t.Desc(func() string { return fmt.Sprintf("%d operations on a map of %s to %s", n, tname(kt), tname(vt)) })
		m := thrift.NewTMap(kt, vt, t.R.Intn(2)*n)
		ref := map[int]int{}
		key := func(i int) interface{} { return native(nth(kt, i)) }
		is := func(x interface{}, i int) bool {
			g, e := canonGo(x, vt, true)
			return e == nil && g == canon(nth(vt, i), true)
		}
		for i := 0; i < n; i++ {
			x := t.R.Intn(n)
			m.Set(key(x), native(nth(vt, i)))
			ref[x] = i
		}
		if m.Len() != len(ref) || len(m.Keys()) != len(ref) || len(m.Values()) != len(ref) {
			t.Fail("length %d, want %d", m.Len(), len(ref))
		}
		for i := 0; i < n; i++ {
			got, ok := m.Get(key(i))
			w, ok2 := ref[i]
			if ok != ok2 || (ok && !is(got, w)) || m.Contains(key(i)) != ok2 {
				t.Fail("get(%v) = %v %v, want %v %v", nth(kt, i), got, ok, w, ok2)
				return
			}
		}
		c := map[string]int{}
		for e := range m.Iter() {
			k, _ := canonGo(e.Key(), kt, true)
			c[k]++
		}
		if len(c) != len(ref) {
			t.Fail("iteration gives %d different keys of %d", len(c), len(ref))
		}
		t.Count("elements_compared", n)
		t.Seen(uint64(t.Idx))
	})
}

func dedupKeys(l []*V) []*V {
	var o []*V
	for i, v := range dedup(l, 2) {
		if i%2 == 0 {
			o = append(o, v)
		}
	}
	return o
}

func mapCase(t *T, nops int, ks, es *sch) {
	r := t.R
	var log []string
	t.Desc(func() string { return "map<" + ks.String() + "," + es.String() + ">: " + strings.Join(log, "; ") })
	typed := r.P(80)
	ktyped, vtyped := typed, typed
	var m thrift.TMap
	if typed {
		m = thrift.NewTMap(ks.t, es.t, r.Intn(3)*5)
	} else if r.P(40) {
		m = thrift.NewTMapDefault()
	} else { // one type is known, the other comes with the first pair
		none := []thrift.TType{thrift.STOP, thrift.VOID}[r.Intn(2)]
		if ktyped = r.Bool(); ktyped {
			m = thrift.NewTMap(ks.t, none, 0)
		} else {
			vtyped = true
			m = thrift.NewTMap(none, es.t, 0)
		}
		t.Count("half_typed", 1)
		// pairs of which the typed part does not fit are not stored, and give no type
		for i := r.Intn(4); i > 0; i-- {
			other := schOf(r, allTypes[r.Intn(len(allTypes))], 1)
			var k, e interface{}
			var ok bool
			if ktyped {
				k, _, ok = feed(t, ks, true)
				e = mk(other.val(r), r, 0)
			} else {
				k = mk(other.val(r), r, 0)
				e, _, ok = feed(t, es, true)
			}
			if ok || k == nil || e == nil {
				continue
			}
			log = append(log, fmt.Sprintf("set(%T %.40v, %T %.40v) which does not fit", k, k, e, e))
			if try(func() { m.Set(k, e) }) {
				t.Fail("%s panics", log[len(log)-1])
				return
			}
			if m.Len() != 0 || m.KeyType().IsEmptyType() == ktyped || m.ValueType().IsEmptyType() == vtyped {
				t.Fail("after %s: length %d, types %s and %s", log[len(log)-1], m.Len(), m.KeyType(), m.ValueType())
				return
			}
			t.Count("misfits", 1)
		}
	}
	ref := map[string]string{}
	h := uint64(99)
	for i := 0; i < nops && !t.Failed(); i++ {
		t.Turn()
		k, kc, kok := feed(t, ks, typed && r.P(8))
		if !ktyped {
			v := ks.val(r)
			k, kc, kok = mk(v, r, 0), canon(v, true), true
		}
		if k == nil {
			continue
		}
		kc = inexact(kc)
		op := r.Intn(8)
		h = h*1099511628211 ^ uint64(op) ^ hashStr(1, kc)
		panicked := false
		switch {
		case op < 4 || !typed:
			e, ec, eok := feed(t, es, typed && r.P(8))
			if !vtyped {
				v := es.val(r)
				e, ec, eok = mk(v, r, 0), canon(v, true), true
			}
			if e == nil {
				continue
			}
			log = append(log, fmt.Sprintf("set(%T %.40v, %T %.40v)", k, k, e, e))
			if kok && eok {
				typed, ktyped, vtyped = true, true, true
			}
			panicked = try(func() { m.Set(k, e) })
			if kok && eok {
				ref[kc] = ec
			}
		case op < 6:
			log = append(log, fmt.Sprintf("get(%T %.40v)", k, k))
			var got interface{}
			var ok bool
			panicked = try(func() { got, ok = m.Get(k) })
			w, want := ref[kc]
			want = want && kok
			if !panicked {
				if ok != want {
					t.Fail("get(%T %v): found = %v, want %v in %v", k, k, ok, want, ref)
				} else if ok {
					if c, err := canonGo(got, es.t, true); err != nil || c != w {
						t.Fail("get(%T %v) = %s (%v), want %s", k, k, c, err, w)
					}
				}
			}
			t.Count("lookups", 1)
		default:
			log = append(log, fmt.Sprintf("contains(%T %.40v)", k, k))
			var got bool
			panicked = try(func() { got = m.Contains(k) })
			_, want := ref[kc]
			if want = want && kok; !panicked && got != want {
				t.Fail("contains(%T %v) = %v, want %v in %v", k, k, got, want, ref)
			}
			t.Count("lookups", 1)
		}
		if panicked {
			t.Fail("%s panics", log[len(log)-1])
			return
		}
		if e := mapIs(m, ks, es, ref); e != "" {
			t.Fail("after %s: %s", log[len(log)-1], e)
		}
		t.Count("elements_compared", len(ref))
	}
	for i := 0; t.turn != nil && i < 20 && !t.Failed(); i++ {
		t.Turn()
		if e := mapIs(m, ks, es, ref); e != "" {
			t.Fail("after operations on another map: %s", e)
		}
	}
	if len(ref) > 0 && (m.KeyType() != ks.t || m.ValueType() != es.t) {
		t.Fail("types %s and %s", m.KeyType(), m.ValueType())
	}
	t.Count("operations", nops)
	t.Seen(h)
	t.Sample("map of %s to %s: %d operations, ends with %d pairs", ks, es, nops, len(ref))
}

func mapIs(m thrift.TMap, ks, es *sch, ref map[string]string) string {
	if m.Len() != len(ref) {
		return fmt.Sprintf("length %d, want %d", m.Len(), len(ref))
	}
	seen := map[string]bool{}
	for e := range m.Iter() {
		k, err := canonGo(e.Key(), ks.t, false)
		if err != nil {
			return "key " + err.Error()
		}
		v, err := canonGo(e.Value(), es.t, true)
		if err != nil {
			return "value " + err.Error()
		}
		if w, ok := ref[k]; !ok || w != v || seen[k] {
			return fmt.Sprintf("iteration gives %s:%s (seen before: %v), want %v", k, v, seen[k], ref)
		}
		seen[k] = true
	}
	if len(seen) != len(ref) {
		return fmt.Sprintf("iteration gives %d pairs, want %d", len(seen), len(ref))
	}
	var kl, vl, wk, wv, ki, vi []string
	for _, k := range m.Keys() {
		c, _ := canonGo(k, ks.t, false)
		kl = append(kl, c)
	}
	for _, v := range m.Values() {
		c, _ := canonGo(v, es.t, true)
		vl = append(vl, c)
	}
	for k := range m.KeyIter() {
		c, _ := canonGo(k, ks.t, false)
		ki = append(ki, c)
	}
	for v := range m.ValueIter() {
		c, _ := canonGo(v, es.t, true)
		vi = append(vi, c)
	}
	for k, v := range ref {
		wk = append(wk, k)
		wv = append(wv, v)
	}
	for _, l := range [][]string{kl, vl, wk, wv, ki, vi} {
		sort.Strings(l)
	}
	if fmt.Sprint(kl) != fmt.Sprint(wk) || fmt.Sprint(ki) != fmt.Sprint(wk) {
		return fmt.Sprintf("keys %v and %v, want %v", kl, ki, wk)
	}
	if fmt.Sprint(vl) != fmt.Sprint(wv) || fmt.Sprint(vi) != fmt.Sprint(wv) {
		return fmt.Sprintf("values %v and %v, want %v", vl, vi, wv)
	}
	return ""
}
