package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"thrift"
)

// Values of a fixed schema from small pools, so that equal ones come up often, in the library's own containers.

type sch struct {
	t thrift.TType
	k *sch
	e *sch
	f []sfield
	n string
}

type sfield struct {
	id   int
	name string
	s    *sch
}

func (s *sch) String() string {
	switch s.t {
	case thrift.MAP:
		return "map<" + s.k.String() + "," + s.e.String() + ">"
	case thrift.LIST, thrift.SET:
		return tname(s.t) + "<" + s.e.String() + ">"
	case thrift.STRUCT:
		var b strings.Builder
		b.WriteString("struct " + s.n + "{")
		for _, f := range s.f {
			fmt.Fprintf(&b, "%d:%s ", f.id, f.s)
		}
		return b.String() + "}"
	}
	return tname(s.t)
}

func genSch(r *Rng, depth int) *sch {
	for {
		t := allTypes[r.Intn(len(allTypes))]
		if depth <= 0 && !isScalar(t) {
			continue
		}
		return schOf(r, t, depth)
	}
}

func schOf(r *Rng, t thrift.TType, depth int) *sch {
	s := &sch{t: t}
	switch t {
	case thrift.MAP:
		s.k, s.e = genSch(r, depth-1), genSch(r, depth-1)
	case thrift.LIST, thrift.SET:
		s.e = genSch(r, depth-1)
	case thrift.STRUCT:
		s.n = "S" + strconv.Itoa(r.Intn(3))
		n := r.Intn(4)
		id := r.Intn(3)
		for i := 0; i < n; i++ {
			s.f = append(s.f, sfield{id: id, name: "f" + strconv.Itoa(id), s: genSch(r, depth-1)})
			id += 1 + r.Intn(3)
		}
	}
	return s
}

var nan2 = math.Float64bits(math.NaN()) ^ 5

var poolF = []uint64{0, 1 << 63, math.Float64bits(1), math.Float64bits(-1), math.Float64bits(0.1), math.Float64bits(math.NaN()), nan2, nan2 | 1<<63,
	math.Float64bits(math.Inf(1)), math.Float64bits(math.Inf(-1)), math.Float64bits(math.MaxFloat64), 1, 1<<63 | 1, math.Float64bits(2), math.Float64bits(1 << 53), math.Float64bits(0.5)}

var poolS = []string{"", "a", "b", "ab", "A", "\x00", "a\x00", "\xff", "é", "0", "1", "-1", "false", "true", "zz", "1.5", "10", "9"}

func poolInt(r *Rng, lo, hi int64) int64 {
	switch r.Intn(6) {
	case 0:
		return lo
	case 1:
		return hi
	case 2:
		return []int64{lo + 1, hi - 1, lo/2 + 1, hi/2 + 1}[r.Intn(4)]
	}
	return int64(r.Intn(8)) - 3
}

// small makes a value of the schema.
func (s *sch) val(r *Rng) *V {
	v := &V{T: s.t}
	switch s.t {
	case thrift.BOOL:
		v.I = int64(r.Intn(2))
	case thrift.BYTE:
		v.I = poolInt(r, 0, 255) & 255
	case thrift.I16:
		v.I = poolInt(r, math.MinInt16, math.MaxInt16)
	case thrift.I32:
		v.I = poolInt(r, math.MinInt32, math.MaxInt32)
	case thrift.I64:
		v.I = poolInt(r, math.MinInt64, math.MaxInt64)
	case thrift.DOUBLE:
		v.D = poolF[r.Intn(len(poolF))]
	case thrift.STRING, thrift.BINARY:
		v.S = poolS[r.Intn(len(poolS))]
	case thrift.LIST, thrift.SET:
		v.VT = s.e.t
		for n := r.Intn(4); n > 0; n-- {
			v.L = append(v.L, s.e.val(r))
		}
		if s.t == thrift.SET {
			v.L = dedup(v.L, 1)
		}
	case thrift.MAP:
		v.KT, v.VT = s.k.t, s.e.t
		for n := r.Intn(4); n > 0; n-- {
			v.L = append(v.L, s.k.val(r), s.e.val(r))
		}
		v.L = dedup(v.L, 2)
	case thrift.STRUCT:
		v.S = s.n
		for _, f := range s.f {
			v.F = append(v.F, Fld{Name: f.name, ID: int16(f.id), V: f.s.val(r)})
		}
	}
	return v
}

// dedup drops elements (step 1) or pairs (step 2) whose first part came before.
func dedup(l []*V, step int) []*V {
	seen := map[string]bool{}
	var out []*V
	for i := 0; i < len(l); i += step {
		c := canon(l[i], false)
		if seen[c] {
			continue
		}
		seen[c] = true
		out = append(out, l[i:i+step]...)
	}
	return out
}

// canon gives the same text for equal values and different texts for different ones. If exact, the two zeros and the
// different NaN differ.
func canon(v *V, exact bool) string {
	switch v.T {
	case thrift.DOUBLE:
		return canonD(v.D, exact)
	case thrift.STRING:
		return "s" + strconv.Quote(v.S)
	case thrift.BINARY:
		return "x" + strconv.Quote(v.S)
	case thrift.LIST:
		var p []string
		for _, e := range v.L {
			p = append(p, canon(e, exact))
		}
		return "[" + strings.Join(p, ",") + "]"
	case thrift.SET:
		var p []string
		for _, e := range v.L {
			p = append(p, canon(e, exact))
		}
		sort.Strings(p)
		return "{" + strings.Join(p, ",") + "}"
	case thrift.MAP:
		var p []string
		for i := 0; i+1 < len(v.L); i += 2 {
			p = append(p, canon(v.L[i], exact)+":"+canon(v.L[i+1], exact))
		}
		sort.Strings(p)
		return "<" + strings.Join(p, ",") + ">"
	case thrift.STRUCT:
		var p []string
		for _, f := range v.F {
			p = append(p, fmt.Sprintf("%d:%s", f.ID, canon(f.V, exact)))
		}
		sort.Strings(p)
		return "struct " + v.S + "(" + strings.Join(p, ",") + ")"
	}
	return tname(v.T) + strconv.FormatInt(v.I, 10)
}

func canonD(b uint64, exact bool) string {
	d := math.Float64frombits(b)
	if !exact {
		if d != d {
			return "dNaN"
		}
		if d == 0 {
			return "d0"
		}
	}
	return "d" + strconv.FormatUint(b, 16)
}

// tstr is a struct as generated code makes them: it embeds the metadata and tells its values by AttributeByFieldId.
type tstr struct {
	thrift.TStruct
	attrs map[int]interface{}
}

func (p *tstr) AttributeByFieldId(id int) interface{} { return p.attrs[id] }
func (p *tstr) TStructFields() thrift.TFieldContainer { return p.TStruct.TStructFields() }
func (p *tstr) CompareTo(other interface{}) (int, bool) {
	if other == nil {
		return 1, true
	}
	data, ok := other.(*tstr)
	if !ok {
		return 0, false
	}
	return thrift.TType(thrift.STRUCT).Compare(p, data)
}

// native gives a scalar in the Go type that stands for its Thrift type.
func native(v *V) interface{} {
	switch v.T {
	case thrift.BOOL:
		return v.I != 0
	case thrift.BYTE:
		return byte(v.I)
	case thrift.I16:
		return int16(v.I)
	case thrift.I32:
		return int32(v.I)
	case thrift.I64:
		return v.I
	case thrift.DOUBLE:
		return math.Float64frombits(v.D)
	case thrift.STRING:
		return v.S
	case thrift.BINARY:
		return []byte(v.S)
	}
	return nil
}

type enumv int64

func (e enumv) String() string { return "enumv" }
func (e enumv) Value() int     { return int(e) }
func (e enumv) IsEnum() bool   { return true }

// kin gives an integer as a value of another integer type of Go; every such value in range has to be accepted.
func kin(v *V, r *Rng) interface{} {
	i := v.I
	for try := 0; try < 8; try++ {
		switch r.Intn(11) {
		case 0:
			return int(i)
		case 1:
			if int64(int8(i)) == i {
				return int8(i)
			}
		case 2:
			if int64(int16(i)) == i {
				return int16(i)
			}
		case 3:
			if int64(int32(i)) == i {
				return int32(i)
			}
		case 4:
			return i
		case 5:
			if i >= 0 {
				return uint(i)
			}
		case 6:
			if i >= 0 && i < 256 {
				return uint8(i)
			}
		case 7:
			if i >= 0 && i < 65536 {
				return uint16(i)
			}
		case 8:
			if i >= 0 && i < 1<<32 {
				return uint32(i)
			}
		case 9:
			if i >= 0 {
				return uint64(i)
			}
		case 10:
			return enumv(i)
		}
	}
	return i
}

// loose gives a Go value that denotes v, often of another type.
func loose(v *V, r *Rng) interface{} {
	if r.P(40) {
		return native(v)
	}
	switch v.T {
	case thrift.BYTE, thrift.I16, thrift.I32, thrift.I64:
		switch r.Intn(5) {
		case 0:
			return strconv.FormatInt(v.I, 10)
		case 1:
			return thrift.NewNumericFromI64(v.I)
		case 2:
			if v.I > -(1<<53) && v.I < 1<<53 {
				return float64(v.I)
			}
		}
		return kin(v, r)
	case thrift.DOUBLE:
		d := math.Float64frombits(v.D)
		if d == math.Trunc(d) && math.Abs(d) < 1<<53 && v.D != 1<<63 && r.Bool() {
			return kin(&V{T: thrift.I64, I: int64(d)}, r)
		}
		if float64(float32(d)) == d {
			return float32(d)
		}
		if d == d {
			return strconv.FormatFloat(d, 'g', -1, 64)
		}
	case thrift.BOOL:
		switch r.Intn(3) {
		case 0:
			return int(v.I)
		case 1:
			return strconv.FormatBool(v.I != 0)
		}
	case thrift.STRING:
		return []byte(v.S)
	case thrift.BINARY:
		return v.S
	}
	return native(v)
}

// mk builds v with the library's containers: elements in any order, through detours, in other Go types.
func mk(v *V, r *Rng, how int) interface{} {
	el := func(e *V) interface{} {
		if isScalar(e.T) && how > 0 {
			return loose(e, r)
		}
		return mk(e, r, how)
	}
	switch v.T {
	case thrift.LIST:
		l := thrift.NewTList(v.VT, r.Intn(3)*len(v.L))
		for _, e := range v.L {
			l.Push(el(e))
		}
		if how > 0 && len(v.L) > 0 && r.P(30) {
			k := r.Intn(len(v.L))
			l.Delete(k)
			l.Insert(k, mk(v.L[k], r, 0))
		}
		return l
	case thrift.SET:
		s := thrift.NewTSet(v.VT, r.Intn(3)*len(v.L))
		o := make([]int, len(v.L))
		for i := range o {
			o[i] = i
		}
		if how > 0 {
			o = r.Perm(len(o))
		}
		for _, i := range o {
			s.Add(el(v.L[i]))
			if how > 0 && r.P(20) {
				s.Add(el(v.L[i]))
			}
		}
		if how > 0 && len(v.L) > 0 && r.P(30) {
			k := r.Intn(len(v.L))
			s.Remove(mk(v.L[k], r, 0))
			s.Add(mk(v.L[k], r, 0))
		}
		return s
	case thrift.MAP:
		m := thrift.NewTMap(v.KT, v.VT, r.Intn(3)*len(v.L))
		o := make([]int, len(v.L)/2)
		for i := range o {
			o[i] = i
		}
		if how > 0 {
			o = r.Perm(len(o))
			if len(o) > 0 && r.P(30) {
				// a first value that is replaced
				m.Set(mk(v.L[2*o[0]], r, 0), mk(v.L[2*o[len(o)-1]+1], r, 0))
			}
		}
		for _, i := range o {
			m.Set(el(v.L[2*i]), el(v.L[2*i+1]))
		}
		return m
	case thrift.STRUCT:
		var fs []thrift.TField
		s := &tstr{attrs: map[int]interface{}{}}
		for _, f := range v.F {
			fs = append(fs, thrift.NewTField(f.Name, f.V.T, int(f.ID)))
			s.attrs[int(f.ID)] = mk(f.V, r, how)
		}
		s.TStruct = thrift.NewTStruct(v.S, fs)
		return s
	}
	if how > 0 && r.P(20) && v.T != thrift.BINARY {
		return native(v)
	}
	return native(v)
}

// canonGo gives the canonical text of what a library container holds, which must be of the Go type that stands for t.
func canonGo(x interface{}, t thrift.TType, exact bool) (string, error) {
	bad := func() (string, error) { return "", fmt.Errorf("holds a %T where a %s belongs", x, tname(t)) }
	switch t {
	case thrift.BOOL:
		b, ok := x.(bool)
		if !ok {
			return bad()
		}
		if b {
			return "bool1", nil
		}
		return "bool0", nil
	case thrift.BYTE:
		b, ok := x.(byte)
		if !ok {
			return bad()
		}
		return "byte" + strconv.Itoa(int(b)), nil
	case thrift.I16:
		b, ok := x.(int16)
		if !ok {
			return bad()
		}
		return "i16" + strconv.Itoa(int(b)), nil
	case thrift.I32:
		b, ok := x.(int32)
		if !ok {
			return bad()
		}
		return "i32" + strconv.Itoa(int(b)), nil
	case thrift.I64:
		b, ok := x.(int64)
		if !ok {
			return bad()
		}
		return "i64" + strconv.FormatInt(b, 10), nil
	case thrift.DOUBLE:
		b, ok := x.(float64)
		if !ok {
			return bad()
		}
		return canonD(math.Float64bits(b), exact), nil
	case thrift.STRING:
		b, ok := x.(string)
		if !ok {
			return bad()
		}
		return "s" + strconv.Quote(b), nil
	case thrift.BINARY:
		if x == nil {
			return "nil", nil
		}
		b, ok := x.([]byte)
		if !ok {
			return bad()
		}
		return "x" + strconv.Quote(string(b)), nil
	case thrift.LIST:
		l, ok := x.(thrift.TList)
		if !ok {
			return bad()
		}
		var p []string
		for i := 0; i < l.Len(); i++ {
			c, e := canonGo(l.At(i), l.ElemType(), exact)
			if e != nil {
				return "", e
			}
			p = append(p, c)
		}
		return "[" + strings.Join(p, ",") + "]", nil
	case thrift.SET:
		l, ok := x.(thrift.TSet)
		if !ok {
			return bad()
		}
		var p []string
		for _, e := range l.Values() {
			c, e := canonGo(e, l.ElemType(), exact)
			if e != nil {
				return "", e
			}
			p = append(p, c)
		}
		sort.Strings(p)
		return "{" + strings.Join(p, ",") + "}", nil
	case thrift.MAP:
		m, ok := x.(thrift.TMap)
		if !ok {
			return bad()
		}
		var p []string
		for e := range m.Iter() {
			k, err := canonGo(e.Key(), m.KeyType(), exact)
			if err != nil {
				return "", err
			}
			w, err := canonGo(e.Value(), m.ValueType(), exact)
			if err != nil {
				return "", err
			}
			p = append(p, k+":"+w)
		}
		sort.Strings(p)
		return "<" + strings.Join(p, ",") + ">", nil
	case thrift.STRUCT:
		s, ok := x.(*tstr)
		if !ok {
			if x, ok := x.(thrift.TStruct); ok {
				return "struct " + x.ThriftName() + "()", nil
			}
			return bad()
		}
		var p []string
		for f := range s.TStructFields().Iter() {
			c, e := canonGo(s.attrs[f.Id()], f.TypeId(), exact)
			if e != nil {
				return "", e
			}
			p = append(p, fmt.Sprintf("%d:%s", f.Id(), c))
		}
		sort.Strings(p)
		return "struct " + s.ThriftName() + "(" + strings.Join(p, ",") + ")", nil
	}
	return "", fmt.Errorf("unknown type %d", int(t))
}

// misfits are Go values of which none denotes a value of most Thrift types.
func misfit(r *Rng) interface{} {
	switch r.Intn(12) {
	case 0:
		return "abc"
	case 1:
		return int64(1) << 40
	case 2:
		return uint64(math.MaxUint64)
	case 3:
		return 1e300
	case 4:
		return 0.5
	case 5:
		return make(chan int)
	case 6:
		return struct{ a int }{1}
	case 7:
		return []byte("xyz")
	case 8:
		return thrift.NewTList(thrift.I32, 0)
	case 9:
		return thrift.NewTMap(thrift.I32, thrift.I32, 0)
	case 10:
		return thrift.NewTStructEmpty("misfit")
	}
	return -129
}

func try(f func()) (panicked bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(stepLimit); ok {
				panic(e)
			}
			panicked = true
		}
	}()
	f()
	return false
}
