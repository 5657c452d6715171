package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"thrift"
)

// V is one Thrift value, independent of the library's own containers.
type V struct {
	T      thrift.TType // BOOL BYTE I16 I32 I64 DOUBLE STRING BINARY STRUCT MAP SET LIST
	I      int64        // BOOL (0/1), BYTE (0..255), integers
	D      uint64       // DOUBLE, as bits
	S      string       // STRING and BINARY
	KT, VT thrift.TType // MAP key and value type; element type of SET and LIST in VT
	L      []*V         // SET and LIST elements; MAP: k0 v0 k1 v1 ...
	F      []Fld        // STRUCT
}

type Fld struct {
	Name string
	ID   int16
	V    *V
}

// Msg is one message: a header and a struct.
type Msg struct {
	Name string
	Kind thrift.TMessageType
	Seq  int32
	Body *V
}

// wireT is the type a reader is told on the wire: binary and string share one.
func wireT(t thrift.TType) thrift.TType {
	if t == thrift.BINARY {
		return thrift.STRING
	}
	return t
}

func isScalar(t thrift.TType) bool {
	switch t {
	case thrift.STRUCT, thrift.MAP, thrift.SET, thrift.LIST:
		return false
	}
	return true
}

func tname(t thrift.TType) string {
	switch t {
	case thrift.STOP:
		return "stop"
	case thrift.BOOL:
		return "bool"
	case thrift.BYTE:
		return "byte"
	case thrift.I16:
		return "i16"
	case thrift.I32:
		return "i32"
	case thrift.I64:
		return "i64"
	case thrift.DOUBLE:
		return "double"
	case thrift.STRING:
		return "string"
	case thrift.BINARY:
		return "binary"
	case thrift.STRUCT:
		return "struct"
	case thrift.MAP:
		return "map"
	case thrift.SET:
		return "set"
	case thrift.LIST:
		return "list"
	}
	return fmt.Sprintf("type(%d)", int(t))
}

func (v *V) String() string {
	var b strings.Builder
	v.str(&b)
	s := b.String()
	if len(s) > 1500 {
		s = s[:1500] + fmt.Sprintf("...(%d chars)", len(s))
	}
	return s
}

func (v *V) str(b *strings.Builder) {
	if v == nil {
		b.WriteString("<nil>")
		return
	}
	switch v.T {
	case thrift.BOOL:
		fmt.Fprintf(b, "%v", v.I != 0)
	case thrift.BYTE, thrift.I16, thrift.I32, thrift.I64:
		fmt.Fprintf(b, "%s:%d", tname(v.T), v.I)
	case thrift.DOUBLE:
		f := math.Float64frombits(v.D)
		fmt.Fprintf(b, "double:%v(%#x)", f, v.D)
	case thrift.STRING:
		if len(v.S) > 80 {
			fmt.Fprintf(b, "string[%d]:%q...", len(v.S), v.S[:60])
		} else {
			fmt.Fprintf(b, "%q", v.S)
		}
	case thrift.BINARY:
		if len(v.S) > 40 {
			fmt.Fprintf(b, "binary[%d]:%x...", len(v.S), v.S[:30])
		} else {
			fmt.Fprintf(b, "binary:%x", v.S)
		}
	case thrift.STRUCT:
		b.WriteString("{")
		for i, f := range v.F {
			if i > 0 {
				b.WriteString(", ")
			}
			fmt.Fprintf(b, "%d:", f.ID)
			if f.Name != "" {
				fmt.Fprintf(b, "%s=", f.Name)
			}
			f.V.str(b)
		}
		b.WriteString("}")
	case thrift.MAP:
		fmt.Fprintf(b, "map<%s,%s>(", tname(v.KT), tname(v.VT))
		for i := 0; i+1 < len(v.L); i += 2 {
			if i > 0 {
				b.WriteString(", ")
			}
			v.L[i].str(b)
			b.WriteString("=>")
			v.L[i+1].str(b)
		}
		b.WriteString(")")
	case thrift.SET, thrift.LIST:
		fmt.Fprintf(b, "%s<%s>[", tname(v.T), tname(v.VT))
		for i, e := range v.L {
			if i > 0 {
				b.WriteString(", ")
			}
			e.str(b)
		}
		b.WriteString("]")
	default:
		fmt.Fprintf(b, "?%s", tname(v.T))
	}
}

func (m *Msg) String() string {
	return fmt.Sprintf("msg(%q kind=%d seq=%d %s)", m.Name, int(m.Kind), m.Seq, m.Body)
}

// shape is a short signature used to count distinct structures.
func (v *V) shape(b *strings.Builder) {
	b.WriteString(tname(v.T)[:2])
	switch v.T {
	case thrift.STRUCT:
		b.WriteByte('{')
		last := int16(0)
		for _, f := range v.F {
			fmt.Fprintf(b, "%d", f.ID-last)
			last = f.ID
			f.V.shape(b)
		}
		b.WriteByte('}')
	case thrift.MAP:
		fmt.Fprintf(b, "%d", len(v.L)/2)
		for i := range v.L {
			v.L[i].shape(b)
		}
	case thrift.SET, thrift.LIST:
		fmt.Fprintf(b, "%d", len(v.L))
		for i := range v.L {
			v.L[i].shape(b)
		}
	case thrift.STRING, thrift.BINARY:
		fmt.Fprintf(b, "%d", len(v.S))
	}
}

func shapeHash(v *V) uint64 {
	var b strings.Builder
	v.shape(&b)
	return hashStr(1469598103934665603, b.String())
}

func (v *V) count() int {
	n := 1
	for _, e := range v.L {
		n += e.count()
	}
	for _, f := range v.F {
		n += f.V.count()
	}
	return n
}

func (v *V) depth() int {
	d := 0
	for _, e := range v.L {
		if x := e.depth(); x > d {
			d = x
		}
	}
	for _, f := range v.F {
		if x := f.V.depth(); x > d {
			d = x
		}
	}
	return d + 1
}

// EqOpt says which parts of a value a protocol does not carry.
type EqOpt struct {
	AnyNaN      bool // NaN payloads are not preserved
	EmptyMapAny bool // an empty map does not carry its types (compact)
	Names       bool // compare field names instead of ids (simple JSON)
}

// diff returns "" when got equals want up to opt, and otherwise where they differ.
func diff(want, got *V, o EqOpt) string { return diffAt("", want, got, o) }

func diffAt(path string, w, g *V, o EqOpt) string {
	if w == nil || g == nil {
		if w == g {
			return ""
		}
		return fmt.Sprintf("%s: want %v, got %v", path, w, g)
	}
	if wireT(w.T) != wireT(g.T) {
		return fmt.Sprintf("%s: want type %s, got type %s", path, tname(w.T), tname(g.T))
	}
	switch w.T {
	case thrift.BOOL, thrift.BYTE, thrift.I16, thrift.I32, thrift.I64:
		if w.I != g.I {
			return fmt.Sprintf("%s: want %v, got %v", path, w, g)
		}
	case thrift.DOUBLE:
		if w.D != g.D {
			if o.AnyNaN && math.IsNaN(math.Float64frombits(w.D)) && math.IsNaN(math.Float64frombits(g.D)) {
				return ""
			}
			return fmt.Sprintf("%s: want %v, got %v", path, w, g)
		}
	case thrift.STRING, thrift.BINARY:
		if w.S != g.S {
			return fmt.Sprintf("%s: want %v, got %v (first difference at byte %d)", path, w, g, firstDiff(w.S, g.S))
		}
	case thrift.STRUCT:
		if len(w.F) != len(g.F) {
			return fmt.Sprintf("%s: want %d fields, got %d (%v vs %v)", path, len(w.F), len(g.F), w, g)
		}
		for i := range w.F {
			if o.Names {
				if w.F[i].Name != g.F[i].Name {
					return fmt.Sprintf("%s: field %d: want name %q, got %q", path, i, w.F[i].Name, g.F[i].Name)
				}
			} else if w.F[i].ID != g.F[i].ID {
				return fmt.Sprintf("%s: field %d: want id %d, got %d", path, i, w.F[i].ID, g.F[i].ID)
			}
			if d := diffAt(fmt.Sprintf("%s.%d", path, w.F[i].ID), w.F[i].V, g.F[i].V, o); d != "" {
				return d
			}
		}
	case thrift.MAP, thrift.SET, thrift.LIST:
		if len(w.L) != len(g.L) {
			return fmt.Sprintf("%s: want %s of size %d, got %d", path, tname(w.T), len(w.L), len(g.L))
		}
		if !(o.EmptyMapAny && w.T == thrift.MAP && len(w.L) == 0) {
			if w.T == thrift.MAP && wireT(w.KT) != wireT(g.KT) {
				return fmt.Sprintf("%s: want key type %s, got %s", path, tname(w.KT), tname(g.KT))
			}
			if wireT(w.VT) != wireT(g.VT) {
				return fmt.Sprintf("%s: want element/value type %s, got %s", path, tname(w.VT), tname(g.VT))
			}
		}
		for i := range w.L {
			if d := diffAt(fmt.Sprintf("%s[%d]", path, i), w.L[i], g.L[i], o); d != "" {
				return d
			}
		}
	}
	return ""
}

func firstDiff(a, b string) int {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return i
		}
	}
	return n
}

func diffMsg(w, g *Msg, o EqOpt) string {
	if w.Name != g.Name {
		return fmt.Sprintf("message name: want %q, got %q", w.Name, g.Name)
	}
	if w.Kind != g.Kind {
		return fmt.Sprintf("message kind: want %d, got %d", int(w.Kind), int(g.Kind))
	}
	if w.Seq != g.Seq {
		return fmt.Sprintf("sequence id: want %d, got %d", w.Seq, g.Seq)
	}
	return diff(w.Body, g.Body, o)
}

// ---------------------------------------------------------------- generation

type GenOpt struct {
	UTF8              bool // strings are valid UTF-8
	NoNaN             bool
	NoEmptyFieldNames bool
	MaxStr            int
	Depth             int
	Budget            int // how many nodes at most, roughly
	ASCII             bool
	Binary            bool           // allow BINARY typed values
	Keys              []thrift.TType // allowed types for map keys and set elements; nil means all
}

var scalarTypes = []thrift.TType{thrift.BOOL, thrift.BYTE, thrift.I16, thrift.I32, thrift.I64, thrift.DOUBLE, thrift.STRING, thrift.BINARY}
var allTypes = []thrift.TType{thrift.BOOL, thrift.BYTE, thrift.I16, thrift.I32, thrift.I64, thrift.DOUBLE, thrift.STRING, thrift.BINARY, thrift.STRUCT, thrift.MAP, thrift.SET, thrift.LIST}

type gen struct {
	r      *Rng
	o      GenOpt
	budget int
}

func newGen(r *Rng, o GenOpt) *gen {
	if o.Budget == 0 {
		o.Budget = 60
	}
	if o.Depth == 0 {
		o.Depth = 4
	}
	if o.MaxStr == 0 {
		o.MaxStr = 40
	}
	return &gen{r: r, o: o, budget: o.Budget}
}

func (g *gen) typ(depth int) thrift.TType {
	for {
		var t thrift.TType
		if depth <= 0 || g.budget <= 0 {
			t = scalarTypes[g.r.Intn(len(scalarTypes))]
		} else {
			t = allTypes[g.r.Intn(len(allTypes))]
		}
		if t == thrift.BINARY && !g.o.Binary {
			continue
		}
		return t
	}
}

var i64s = []int64{0, 1, -1, 2, 63, 64, -64, -65, 127, 128, -128, -129, 255, 256, 8191, 8192, -8192, -8193, 16383, 16384, 32767, 32768, -32768, -32769, 65535, 1 << 20, 1<<21 - 1, 1 << 27, 1<<31 - 1, 1 << 31, -1 << 31, -1<<31 - 1, 1 << 32, 1<<35 - 1, 1 << 42, 1 << 49, 1<<53 - 1, 1 << 53, 1<<53 + 1, -(1<<53 + 1), 1 << 56, 1<<62 + 1, math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1, 1000000000000000000, 999999999999999999, 123456789012345678}
var f64s = []float64{0, math.Copysign(0, -1), 1, -1, 0.1, -0.1, 1.5, 1e21, 1e20, 1e-7, 1e-6, 123456789.125, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, 2.2250738585072014e-308, 1e300, 1e-300, math.Pi, 1 << 53, 1<<53 + 2, 3.0000000000000004, 1e100, -1e100, 5e-324, math.Inf(1), math.Inf(-1)}

func (g *gen) i64() int64 {
	switch g.r.Intn(4) {
	case 0:
		return i64s[g.r.Intn(len(i64s))]
	case 1:
		v := int64(g.r.U64() >> uint(g.r.Intn(64)))
		if g.r.Bool() {
			v = -v
		}
		return v
	case 2:
		return int64(g.r.U64())
	}
	return int64(g.r.Intn(300)) - 150
}

func (g *gen) f64bits() uint64 {
	for {
		var f float64
		switch g.r.Intn(4) {
		case 0:
			f = f64s[g.r.Intn(len(f64s))]
		case 1:
			f = math.Float64frombits(g.r.U64())
		case 2:
			f = float64(g.i64())
		case 3:
			if g.r.P(30) {
				f = math.NaN()
			} else {
				f = float64(g.i64()) / 1000
			}
		}
		if math.IsNaN(f) && g.o.NoNaN {
			continue
		}
		return math.Float64bits(f)
	}
}

var nastyRunes = []rune{'"', '\\', '/', '\b', '\f', '\n', '\r', '\t', 0, 1, 0x1f, 0x20, 0x7f, '<', '>', '&', '\'', '{', '}', '[', ']', ',', ':', 0x80, 0xff, 0x100, 0x7ff, 0x800, 0x2028, 0x2029, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x10ffff, 'e', 'E', '0', '9', '-', '+', '.', 'n', 't', 'f', 'u', ' '}
var nastyStrs = []string{"", "null", "true", "false", "NaN", "Infinity", "-Infinity", "\"", "\\", "\\\\", "\\\"", "\\\\\"", "a\\", "a\\\\", "\\u0041", "\"\\\"\"", "}", "]", "{}", "[]", ",", ":", " ", "\n", "i32", "str", "0", "-1", "1e9", "\x00", "a\x00b", "é", "日本語", "😀", "\u2028"}

func (g *gen) str(utf8 bool) string {
	n := 0
	switch g.r.Intn(10) {
	case 0:
		n = 0
	case 1:
		return nastyStrs[g.r.Intn(len(nastyStrs))]
	case 2:
		n = g.r.Intn(g.o.MaxStr + 1)
	default:
		n = g.r.Intn(9)
	}
	if !utf8 {
		return string(g.r.Bytes(n))
	}
	var b strings.Builder
	mode := g.r.Intn(3)
	for i := 0; i < n; i++ {
		if g.o.ASCII || mode == 0 {
			b.WriteByte(byte('a' + g.r.Intn(26)))
			continue
		}
		if mode == 1 || g.r.P(50) {
			b.WriteRune(nastyRunes[g.r.Intn(len(nastyRunes))])
			continue
		}
		c := rune(g.r.Intn(0x110000))
		if c >= 0xd800 && c < 0xe000 {
			c = 0xfffd
		}
		b.WriteRune(c)
	}
	return b.String()
}

func (g *gen) ident() string {
	n := 1 + g.r.Intn(8)
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyzABCXYZ_"[g.r.Intn(33)]
	}
	return string(b)
}

func (g *gen) scalar(t thrift.TType) *V {
	g.budget--
	v := &V{T: t}
	switch t {
	case thrift.BOOL:
		v.I = int64(g.r.Intn(2))
	case thrift.BYTE:
		v.I = int64(byte(g.i64()))
	case thrift.I16:
		v.I = int64(int16(g.i64()))
	case thrift.I32:
		v.I = int64(int32(g.i64()))
	case thrift.I64:
		v.I = g.i64()
	case thrift.DOUBLE:
		v.D = g.f64bits()
	case thrift.STRING:
		v.S = g.str(g.o.UTF8)
	case thrift.BINARY:
		v.S = g.str(false)
	}
	return v
}

// zero generates a value of type t; all elements of a container share declared types, as Thrift requires.
func (g *gen) value(t thrift.TType, depth int) *V {
	if isScalar(t) {
		return g.scalar(t)
	}
	g.budget--
	v := &V{T: t}
	switch t {
	case thrift.STRUCT:
		n := g.r.Intn(6)
		if depth <= 0 || g.budget <= 0 {
			n = g.r.Intn(2)
		}
		v.F = g.fields(n, depth)
	case thrift.MAP:
		v.KT, v.VT = g.typ(depth-1), g.typ(depth-1)
		n := g.size(depth)
		for i := 0; i < n; i++ {
			v.L = append(v.L, g.value(v.KT, depth-1), g.value(v.VT, depth-1))
		}
	case thrift.SET, thrift.LIST:
		v.VT = g.typ(depth - 1)
		n := g.size(depth)
		for i := 0; i < n; i++ {
			v.L = append(v.L, g.value(v.VT, depth-1))
		}
	}
	return v
}

func (g *gen) size(depth int) int {
	if g.budget <= 0 {
		return g.r.Intn(2)
	}
	switch g.r.Intn(10) {
	case 0:
		return 0
	case 1:
		return 13 + g.r.Intn(5) // around the short form limit of the compact protocol
	case 2:
		if g.r.P(15) {
			return 120 + g.r.Intn(20)
		}
		return 1
	}
	return 1 + g.r.Intn(4)
}

func (g *gen) fields(n, depth int) []Fld {
	var fs []Fld
	used := map[int16]bool{}
	names := map[string]bool{}
	id := int16(0)
	mode := g.r.Intn(4)
	for i := 0; i < n; i++ {
		switch mode {
		case 0:
			id++
		case 1:
			id += int16(1 + g.r.Intn(20))
		case 2:
			id = int16(g.r.Intn(200)) - 100
		case 3:
			id = int16(g.i64())
		}
		if used[id] {
			continue
		}
		used[id] = true
		nm := g.ident()
		if names[nm] {
			nm = fmt.Sprintf("%s_%d", nm, i)
		}
		names[nm] = true
		t := g.typ(depth - 1)
		fs = append(fs, Fld{Name: nm, ID: id, V: g.value(t, depth-1)})
	}
	if mode >= 2 && g.r.Bool() {
		sort.Slice(fs, func(i, j int) bool { return fs[i].ID < fs[j].ID })
	}
	return fs
}

func (g *gen) strct(depth int) *V {
	v := &V{T: thrift.STRUCT}
	v.F = g.fields(1+g.r.Intn(8), depth)
	return v
}

func (g *gen) any() *V { return g.value(g.typ(g.o.Depth), g.o.Depth) }

func (g *gen) msg() *Msg {
	kinds := []thrift.TMessageType{thrift.CALL, thrift.REPLY, thrift.EXCEPTION, thrift.ONEWAY}
	name := g.ident()
	if g.r.P(20) {
		name = g.str(true)
	}
	return &Msg{Name: name, Kind: kinds[g.r.Intn(4)], Seq: int32(g.i64()), Body: g.strct(g.o.Depth)}
}
