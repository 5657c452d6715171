package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"thrift"
)

// What the generator made of a set of interface definitions, registered by files that tools/gencheck.py writes: the
// definition as the front end read it, and the constructors, constants and services of the packages.

type gT struct {
	K    string `json:"k"`
	Name string `json:"name"`
	Prog string `json:"prog"`
	Of   *gT    `json:"of"`
	Key  *gT    `json:"key"`
	Val  *gT    `json:"val"`
}

type gV struct {
	Int    *int64   `json:"int"`
	Double *string  `json:"double"`
	Str    *string  `json:"str"`
	List   []*gV    `json:"list"`
	Map    [][2]*gV `json:"map"`
}

type gField struct {
	Name    string `json:"name"`
	Go      string `json:"go"`
	ID      int    `json:"id"`
	Req     string `json:"req"`
	Type    *gT    `json:"type"`
	Default *gV    `json:"default"`
}

type gStruct struct {
	Name      string    `json:"name"`
	Go        string    `json:"go"`
	Exception bool      `json:"exception"`
	Fields    []*gField `json:"fields"`
	prog      *gProg
	key       string
	result    bool
	args      bool // of a function: not in the definition by itself
}

type gEnum struct {
	Name   string           `json:"name"`
	Go     string           `json:"go"`
	Values [][2]interface{} `json:"values"`
}

type gConst struct {
	Name  string `json:"name"`
	Go    string `json:"go"`
	Type  *gT    `json:"type"`
	Value *gV    `json:"value"`
}

type gFunc struct {
	Name    string   `json:"name"`
	Go      string   `json:"go"`
	Oneway  bool     `json:"oneway"`
	Returns *gT      `json:"returns"`
	Args    *gStruct `json:"args"`
	Throws  *gStruct `json:"throws"`
	result  *gStruct
	svc     *gSvc
}

type gSvc struct {
	Name    string   `json:"name"`
	Go      string   `json:"go"`
	Extends []string `json:"extends"`
	Funcs   []*gFunc `json:"functions"`
	prog    *gProg
	all     []*gFunc // with those of the parents
	code    *gSvcCode
}

type gProg struct {
	Name     string     `json:"name"`
	Pkg      string     `json:"pkg"`
	Enums    []*gEnum   `json:"enums"`
	Typedefs []*gT      `json:"typedefs"`
	Structs  []*gStruct `json:"structs"`
	Consts   []*gConst  `json:"consts"`
	Services []*gSvc    `json:"services"`
	set      *gSet
}

type gSvcCode struct {
	Processor func(h *gHandler) thrift.TProcessor
	Client    func(t thrift.TTransport, f thrift.TProtocolFactory) interface{}
	ClientP   func(t thrift.TTransport, i, o thrift.TProtocol) interface{}
}

type gEnumCode struct {
	From func(string) interface{}
	Of   func(int64) interface{}
	Vals map[string]int64
}

// gSet is one main definition file with everything it includes.
type gSet struct {
	Name    string
	Desc    string
	New     map[string]func() interface{}
	Enums   map[string]*gEnumCode
	Consts  map[string]func() interface{}
	Svcs    map[string]*gSvcCode
	progs   []*gProg
	structs map[string]*gStruct
	enums   map[string]*gEnum
	svcs    map[string]*gSvc
	all     []*gStruct
	allSvcs []*gSvc
}

var gSets []*gSet

func gRegister(s *gSet) {
	if err := json.Unmarshal([]byte(s.Desc), &s.progs); err != nil {
		panic("bad description of " + s.Name + ": " + err.Error())
	}
	s.structs, s.enums, s.svcs = map[string]*gStruct{}, map[string]*gEnum{}, map[string]*gSvc{}
	add := func(p *gProg, st *gStruct, key string, args bool) {
		st.prog, st.key, st.args = p, key, args
		s.structs[key] = st
		s.all = append(s.all, st)
	}
	for _, p := range s.progs {
		p.set = s
		for _, st := range p.Structs {
			add(p, st, p.Name+"."+st.Name, false)
		}
		for _, e := range p.Enums {
			s.enums[p.Name+"."+e.Name] = e
		}
		for _, sv := range p.Services {
			sv.prog, sv.code = p, s.Svcs[p.Name+"."+sv.Name]
			s.svcs[p.Name+"."+sv.Name] = sv
			s.allSvcs = append(s.allSvcs, sv)
			for _, f := range sv.Funcs {
				f.svc = sv
				add(p, f.Args, p.Name+"."+sv.Name+"."+f.Name+".args", true)
				f.result = &gStruct{Name: f.Name + "_result", result: true}
				if f.Returns.K != "void" {
					f.result.Fields = append(f.result.Fields, &gField{Name: "success", Go: "Success", ID: 0, Req: "default", Type: f.Returns})
				}
				f.result.Fields = append(f.result.Fields, f.Throws.Fields...)
				if !f.Oneway {
					add(p, f.result, p.Name+"."+sv.Name+"."+f.Name+".result", true)
				}
			}
			if len(sv.Extends) > 0 {
				sv.all = append(sv.all, s.svcs[sv.Extends[0]+"."+sv.Extends[1]].all...)
			}
			sv.all = append(sv.all, sv.Funcs...)
		}
	}
	gSets = append(gSets, s)
}

// ---------------------------------------------------------------- types

func (t *gT) real() *gT {
	for t.K == "typedef" {
		t = t.Of
	}
	return t
}

func (t *gT) isStruct() bool { k := t.real().K; return k == "struct" || k == "exception" }

// wire is the type of the values on the wire; BINARY stands for itself.
func (t *gT) wire() thrift.TType {
	switch t.real().K {
	case "bool":
		return thrift.BOOL
	case "byte":
		return thrift.BYTE
	case "i16":
		return thrift.I16
	case "i32", "enum":
		return thrift.I32
	case "i64":
		return thrift.I64
	case "double":
		return thrift.DOUBLE
	case "string":
		return thrift.STRING
	case "binary":
		return thrift.BINARY
	case "struct", "exception":
		return thrift.STRUCT
	case "list":
		return thrift.LIST
	case "set":
		return thrift.SET
	case "map":
		return thrift.MAP
	case "void":
		return thrift.VOID
	}
	panic("type " + t.K)
}

func (s *gSet) of(t *gT) *gStruct { t = t.real(); return s.structs[t.Prog+"."+t.Name] }

func (t *gT) String() string {
	switch t.K {
	case "typedef":
		return t.Name + "=" + t.Of.String()
	case "list", "set":
		return t.K + "<" + t.Val.String() + ">"
	case "map":
		return "map<" + t.Key.String() + "," + t.Val.String() + ">"
	case "enum", "struct", "exception":
		return t.K + " " + t.Name
	}
	return t.K
}

const enumUnset = int64(math.MinInt32) - 1

// ---------------------------------------------------------------- values: a V holds the fields that were set

// value makes a random value of a type.
func (s *gSet) value(r *Rng, t *gT, depth int) *V {
	t = t.real()
	v := &V{T: t.wire()}
	switch t.K {
	case "bool":
		v.I = int64(r.Intn(2))
	case "byte":
		v.I = poolInt(r, 0, 255) & 255
	case "i16":
		v.I = poolInt(r, math.MinInt16, math.MaxInt16)
	case "i32":
		v.I = poolInt(r, math.MinInt32, math.MaxInt32)
	case "i64":
		v.I = poolInt(r, math.MinInt64, math.MaxInt64)
	case "enum":
		e := s.enums[t.Prog+"."+t.Name]
		if len(e.Values) > 0 && r.P(85) {
			v.I = int64(e.Values[r.Intn(len(e.Values))][1].(float64))
		} else {
			v.I = poolInt(r, 0, math.MaxInt32)
		}
	case "double":
		for {
			v.D = poolF[r.Intn(len(poolF))]
			f := math.Float64frombits(v.D)
			if f == f && !(f == 0 && math.Signbit(f)) {
				break
			}
		}
	case "string", "binary":
		v.S = poolS[r.Intn(len(poolS))]
		if r.P(10) {
			v.S = strings.Repeat(v.S+"é", r.Intn(60))
		}
		if t.K == "binary" && r.P(30) {
			v.S = string(r.Bytes(r.Intn(20)))
		}
	case "list", "set":
		v.VT = t.Val.wire()
		n := r.Intn(4)
		if depth <= 0 {
			n = r.Intn(2)
		}
		if r.P(4) && isScalar(v.VT) {
			n = 14 + r.Intn(5)
		}
		for ; n > 0; n-- {
			v.L = append(v.L, s.value(r, t.Val, depth-1))
		}
		if t.K == "set" {
			v.L = s.dedup(t.Val, v.L, 1)
		}
	case "map":
		v.KT, v.VT = t.Key.wire(), t.Val.wire()
		n := r.Intn(4)
		if depth <= 0 {
			n = r.Intn(2)
		}
		for ; n > 0; n-- {
			v.L = append(v.L, s.value(r, t.Key, depth-1), s.value(r, t.Val, depth-1))
		}
		v.L = s.dedup(t.Key, v.L, 2)
	case "struct", "exception":
		return s.strct(r, s.of(t), depth-1)
	}
	return v
}

// strct makes a struct with some of its fields set.
func (s *gSet) strct(r *Rng, st *gStruct, depth int) *V {
	v := &V{T: thrift.STRUCT}
	pct := []int{0, 100, 50, 80}[r.Intn(4)]
	if st.result {
		// a result or one of the exceptions
		if n := r.Intn(len(st.Fields) + 1); n < len(st.Fields) {
			f := st.Fields[n]
			v.F = append(v.F, Fld{Name: f.Name, ID: int16(f.ID), V: s.value(r, f.Type, depth)})
		}
		return v
	}
	for _, f := range st.Fields {
		if depth < -1 && !isScalar(wireT(f.Type.wire())) {
			continue
		}
		if r.P(pct) {
			v.F = append(v.F, Fld{Name: f.Name, ID: int16(f.ID), V: s.value(r, f.Type, depth)})
		}
	}
	return v
}

// dedup drops elements or pairs that are equal to earlier ones once the fields that are not set have their defaults.
func (s *gSet) dedup(t *gT, l []*V, step int) []*V {
	seen := map[string]bool{}
	var out []*V
	for i := 0; i < len(l); i += step {
		c := s.canon(l[i], t)
		if seen[c] {
			continue
		}
		seen[c] = true
		out = append(out, l[i:i+step]...)
	}
	return out
}

func (st *gStruct) field(id int) *gField {
	for _, f := range st.Fields {
		if f.ID == id {
			return f
		}
	}
	return nil
}

func (v *V) fld(id int) *V {
	for _, f := range v.F {
		if int(f.ID) == id {
			return f.V
		}
	}
	return nil
}

// lit is the value a literal of the definition stands for.
func (s *gSet) lit(c *gV, t *gT) *V {
	t = t.real()
	v := &V{T: t.wire()}
	switch t.K {
	case "bool":
		if c.Int != nil && *c.Int != 0 {
			v.I = 1
		}
	case "byte":
		v.I = *c.Int & 255
	case "i16", "i32", "i64", "enum":
		v.I = *c.Int
	case "double":
		if c.Double != nil {
			f, _ := strconv.ParseFloat(*c.Double, 64)
			v.D = math.Float64bits(f)
		} else {
			v.D = math.Float64bits(float64(*c.Int))
		}
	case "string", "binary":
		v.S = *c.Str
	case "list", "set":
		v.VT = t.Val.wire()
		for _, e := range c.List {
			v.L = append(v.L, s.lit(e, t.Val))
		}
	case "map":
		v.KT, v.VT = t.Key.wire(), t.Val.wire()
		for _, e := range c.Map {
			v.L = append(v.L, s.lit(e[0], t.Key), s.lit(e[1], t.Val))
		}
	default:
		st := s.of(t)
		for _, e := range c.Map {
			for _, f := range st.Fields {
				if f.Name == *e[0].Str {
					v.F = append(v.F, Fld{Name: f.Name, ID: int16(f.ID), V: s.lit(e[1], f.Type)})
				}
			}
		}
	}
	return v
}

// unset is the text for a field that was not set.
func (s *gSet) unset(f *gField) string {
	if f.Default != nil {
		return s.canon(s.lit(f.Default, f.Type), f.Type)
	}
	t := f.Type.real()
	switch t.K {
	case "struct", "exception":
		return "none"
	case "enum":
		return "i32" + strconv.FormatInt(enumUnset, 10)
	}
	return s.canon(&V{T: t.wire()}, t)
}

// canon is the text for a value of a type; fields that are not set have their default.
func (s *gSet) canon(v *V, t *gT) string {
	t = t.real()
	switch t.K {
	case "list", "set":
		var p []string
		for _, e := range v.L {
			p = append(p, s.canon(e, t.Val))
		}
		if t.K == "set" {
			sort.Strings(p)
			return "{" + strings.Join(p, ",") + "}"
		}
		return "[" + strings.Join(p, ",") + "]"
	case "map":
		var p []string
		for i := 0; i+1 < len(v.L); i += 2 {
			p = append(p, s.canon(v.L[i], t.Key)+":"+s.canon(v.L[i+1], t.Val))
		}
		sort.Strings(p)
		return "<" + strings.Join(p, ",") + ">"
	case "struct", "exception":
		return s.canonS(v, s.of(t))
	}
	return canon(v, true)
}

func (s *gSet) canonS(v *V, st *gStruct) string {
	var p []string
	for _, f := range st.Fields {
		c := ""
		if x := v.fld(f.ID); x != nil {
			c = s.canon(x, f.Type)
		} else {
			c = s.unset(f)
		}
		p = append(p, fmt.Sprintf("%d:%s", f.ID, c))
	}
	return st.Name + "(" + strings.Join(p, ",") + ")"
}

// ---------------------------------------------------------------- Go values

// build makes the Go value of a generated package for v.
func (s *gSet) build(v *V, t *gT) interface{} {
	t = t.real()
	switch t.K {
	case "enum":
		return s.Enums[t.Prog+"."+t.Name].Of(v.I)
	case "list":
		l := thrift.NewTList(t.Val.wire(), len(v.L))
		for _, e := range v.L {
			l.Push(s.build(e, t.Val))
		}
		return l
	case "set":
		l := thrift.NewTSet(t.Val.wire(), len(v.L))
		for _, e := range v.L {
			l.Add(s.build(e, t.Val))
		}
		return l
	case "map":
		m := thrift.NewTMap(t.Key.wire(), t.Val.wire(), len(v.L)/2)
		for i := 0; i+1 < len(v.L); i += 2 {
			m.Set(s.build(v.L[i], t.Key), s.build(v.L[i+1], t.Val))
		}
		return m
	case "struct", "exception":
		return s.buildS(v, s.of(t))
	}
	return native(v)
}

func (s *gSet) buildS(v *V, st *gStruct) interface{} {
	x := s.New[st.key]()
	s.fill(x, v, st)
	return x
}

func (s *gSet) fill(x interface{}, v *V, st *gStruct) {
	e := reflect.ValueOf(x).Elem()
	for _, f := range v.F {
		d := st.field(int(f.ID))
		fv := e.FieldByName(d.Go)
		if !fv.IsValid() {
			panic(fmt.Sprintf("%s has no field %s", st.Name, d.Go))
		}
		fv.Set(reflect.ValueOf(s.build(f.V, d.Type)).Convert(fv.Type()))
	}
}

// see is the text for a Go value of a type, to be compared with canon.
func (s *gSet) see(x interface{}, t *gT) string {
	t = t.real()
	bad := func() string { return fmt.Sprintf("(a %T where a %s belongs)", x, t) }
	rv := reflect.ValueOf(x)
	isNil := x == nil || (rv.Kind() == reflect.Ptr || rv.Kind() == reflect.Interface || rv.Kind() == reflect.Slice) && rv.IsNil()
	switch t.K {
	case "enum":
		if x == nil || rv.Kind() < reflect.Int || rv.Kind() > reflect.Int64 {
			return bad()
		}
		return "i32" + strconv.FormatInt(rv.Int(), 10)
	case "binary":
		if isNil {
			return `x""`
		}
		b, ok := x.([]byte)
		if !ok {
			return bad()
		}
		return "x" + strconv.Quote(string(b))
	case "list":
		if isNil {
			return "[]"
		}
		l, ok := x.(thrift.TList)
		if !ok {
			return bad()
		}
		var p []string
		for i := 0; i < l.Len(); i++ {
			p = append(p, s.see(l.At(i), t.Val))
		}
		return "[" + strings.Join(p, ",") + "]"
	case "set":
		if isNil {
			return "{}"
		}
		l, ok := x.(thrift.TSet)
		if !ok {
			return bad()
		}
		var p []string
		for _, e := range l.Values() {
			p = append(p, s.see(e, t.Val))
		}
		sort.Strings(p)
		return "{" + strings.Join(p, ",") + "}"
	case "map":
		if isNil {
			return "<>"
		}
		m, ok := x.(thrift.TMap)
		if !ok {
			return bad()
		}
		var p []string
		for e := range m.Iter() {
			p = append(p, s.see(e.Key(), t.Key)+":"+s.see(e.Value(), t.Val))
		}
		if len(p) != m.Len() {
			return fmt.Sprintf("(map with %d entries and length %d)", len(p), m.Len())
		}
		sort.Strings(p)
		return "<" + strings.Join(p, ",") + ">"
	case "struct", "exception":
		if isNil {
			return "none"
		}
		return s.seeS(x, s.of(t))
	}
	c, err := canonGo(x, t.wire(), true)
	if err != nil {
		return "(" + err.Error() + ")"
	}
	return c
}

func (s *gSet) seeS(x interface{}, st *gStruct) string {
	want := reflect.TypeOf(s.New[st.key]())
	if reflect.TypeOf(x) != want {
		return fmt.Sprintf("(a %T where a %s belongs)", x, want)
	}
	e := reflect.ValueOf(x).Elem()
	var p []string
	for _, f := range st.Fields {
		fv := e.FieldByName(f.Go)
		if !fv.IsValid() {
			return "(no field " + f.Go + " in " + st.Name + ")"
		}
		p = append(p, fmt.Sprintf("%d:%s", f.ID, s.see(fv.Interface(), f.Type)))
	}
	return st.Name + "(" + strings.Join(p, ",") + ")"
}

// ---------------------------------------------------------------- handlers

type gAnswer struct {
	ret interface{}
	exc map[int]interface{} // by position in the throws list
	err error
}

type gCalled struct {
	fn   string
	args []interface{}
}

// gHandler stands behind the handlers of all services: it records the calls and gives the answers it was told.
type gHandler struct {
	calls  []gCalled
	answer func(fn string) *gAnswer
}

func (h *gHandler) call(fn string, args ...interface{}) *gAnswer {
	h.calls = append(h.calls, gCalled{fn, args})
	if h.answer != nil {
		if a := h.answer(fn); a != nil {
			return a
		}
	}
	return &gAnswer{}
}
