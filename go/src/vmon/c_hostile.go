package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"runtime"
	"simple"
	"strconv"
	"strings"
	"thrift"
)

func init() {
	props["C09"] = hostile
	props["C10"] = truncation
	props["C11"] = arrival
	props["C12"] = noWait
}

var hostileCtl = readCtl{maxNodes: 100000, maxDepth: 1500}

func gaveUp(e error) bool { return e == errTooBig || e == errTooDeep }

// judgeMsg reads b as a message and compares with what the bytes encode according to the reference.
func judgeMsg(t *T, p *Proto, b []byte, x *XT, w *Msg) {
	c := hostileCtl
	pr := p.New(x)
	g, e := p.readMsg(pr, w, &c)
	t.Count("hostile_reads", 1)
	if gaveUp(e) {
		t.Count("gave_up", 1)
		return
	}
	if e != nil {
		t.Count("rejected", 1)
	} else {
		t.Count("accepted", 1)
	}
	var m *Msg
	var err error
	var amb bool
	used := -1
	if p.JSON {
		doc, jp, e2 := parseJSON(b)
		if err = e2; err == nil {
			m, err = jp.interpMsg(doc, w, p.Schema)
			amb = jp.amb
		}
		amb = amb || err != nil && lenientJSON(b)
	} else {
		m, used, amb, err = refMsg(p, b)
	}
	if amb || e != nil {
		return
	}
	if err != nil {
		t.Fail("%s: bytes that are no message were read as %v", p.Name, g)
		return
	}
	if d := diffMsg(m, g, p.Eq); d != "" {
		t.Fail("%s: the value read is not the one the bytes encode: %s", p.Name, d)
		return
	}
	if used >= 0 && x.pos != used {
		t.Fail("%s: the message takes %d bytes, %d were consumed", p.Name, used, x.pos)
	}
}

func judgeVal(t *T, p *Proto, ty thrift.TType, w *V, b []byte, x *XT) {
	c := hostileCtl
	pr := p.New(x)
	var g *V
	var e error
	if p.Schema {
		g, e = readSchema(pr, w, &c)
	} else {
		g, e = readV(pr, ty, w, &c)
	}
	t.Count("hostile_reads", 1)
	if gaveUp(e) {
		t.Count("gave_up", 1)
		return
	}
	if e != nil {
		t.Count("rejected", 1)
		return
	}
	t.Count("accepted", 1)
	if p.JSON {
		if doc, jp, e2 := parseJSON(b); e2 == nil {
			v, err := jp.interp(doc, ty, w, p.Schema)
			if jp.amb {
				return
			}
			if err != nil {
				t.Fail("%s: %q is no %s but was read as %v", p.Name, b, tname(ty), g)
			} else if d := diff(v, g, p.Eq); d != "" {
				t.Fail("%s: %q is read as another value: %s", p.Name, b, d)
			}
		} else if !lenientJSON(b) {
			t.Fail("%s: %q is not JSON but was read as %v", p.Name, b, g)
		}
		return
	}
	v, used, amb, err := refVal(p, ty, b)
	if amb {
		return
	}
	if err != nil {
		t.Fail("%s: %x is no %s but was read as %v", p.Name, b, tname(ty), g)
		return
	}
	if d := diff(v, g, p.Eq); d != "" {
		t.Fail("%s: %x is read as another %s: %s", p.Name, b, tname(ty), d)
		return
	}
	if x.pos != used {
		t.Fail("%s: the value takes %d bytes of %x, %d were consumed", p.Name, used, b, x.pos)
	}
}

// lenientJSON says whether a text that is not JSON is so only in ways a lenient reader may overlook: numbers written as
// 05, +5, .5, 5. or without quotes where a key is wanted or with quotes around them, bare NaN and Infinity, a comma
// before the closing bracket, a NUL. What such a text means is left open. (A lenient reader sees only the leading part.)
func lenientJSON(b []byte) bool {
	p := &lenient{b: b}
	return p.value(0) && p.odd
}

type lenient struct {
	b   []byte
	pos int
	odd bool
}

func (p *lenient) ws() byte {
	for p.pos < len(p.b) {
		switch p.b[p.pos] {
		case ' ', '\t', '\n', '\r':
			p.pos++
		case 0:
			p.odd = true
			p.pos++
		default:
			return p.b[p.pos]
		}
	}
	return 0
}

func (p *lenient) number() bool {
	st := p.pos
	q := false
	if p.pos >= len(p.b) {
		return false
	}
	if p.b[p.pos] == '"' {
		q = true
		p.pos++
	}
	n := p.pos
	for _, s := range []string{"NaN", "Infinity", "+Infinity", "-Infinity"} {
		if bytes.HasPrefix(p.b[p.pos:], []byte(s)) {
			p.pos += len(s)
			p.odd = true
			if q {
				if p.pos >= len(p.b) || p.b[p.pos] != '"' {
					p.pos = st
					return false
				}
				p.pos++
			}
			return true
		}
	}
	for p.pos < len(p.b) && strings.IndexByte("+-.eE0123456789", p.b[p.pos]) >= 0 {
		p.pos++
	}
	if p.pos == n {
		p.pos = st
		return false
	}
	s := string(p.b[n:p.pos])
	if _, e := strconv.ParseFloat(s, 64); e != nil && !errors.Is(e, strconv.ErrRange) {
		p.pos = st
		return false
	}
	if q {
		if p.pos >= len(p.b) || p.b[p.pos] != '"' {
			p.pos = st
			return false
		}
		p.pos++
	}
	j := &jparse{b: []byte(s)}
	if _, e := j.value(); e != nil || j.pos != len(s) || q {
		p.odd = true
	}
	return true
}

func (p *lenient) value(d int) bool {
	if d > 3000 {
		return false
	}
	c := p.ws()
	switch c {
	case '[', '{':
		end := byte(']')
		if c == '{' {
			end = '}'
		}
		p.pos++
		for first := true; ; first = false {
			if p.ws() == end {
				if !first {
					p.odd = true
				}
				p.pos++
				return true
			}
			if c == '{' {
				if p.ws() != '"' {
					p.odd = true
				}
				if bytes.HasPrefix(p.b[p.pos:], []byte("null")) {
					p.pos += 4
				} else if !p.number() && !p.str() {
					return false
				}
				if p.ws() != ':' {
					return false
				}
				p.pos++
			}
			if !p.value(d + 1) {
				return false
			}
			k := p.ws()
			p.pos++
			if k == end {
				return true
			}
			if k != ',' {
				return false
			}
		}
	case '"':
		return p.str()
	}
	if p.pos >= len(p.b) {
		return false
	}
	for _, s := range []string{"true", "false", "null"} {
		if bytes.HasPrefix(p.b[p.pos:], []byte(s)) {
			p.pos += len(s)
			return true
		}
	}
	return p.number()
}

func (p *lenient) str() bool {
	if p.pos >= len(p.b) || p.b[p.pos] != '"' {
		return false
	}
	j := &jparse{b: p.b, pos: p.pos}
	_, e := j.str()
	p.pos = j.pos
	return e == nil
}

var poison = []byte{0, 1, 2, 3, 0x0b, 0x0c, 0x0f, 0x10, 0x7f, 0x80, 0x81, 0x82, 0xf0, 0xff, 0xfe, '"', '\\', '{', '}', '[', ']', ',', ':', '-', '9', '.', 'e', 'n', 't'}

// mutate damages an encoded message.
func mutate(r *Rng, b []byte, other []byte) []byte {
	b = append([]byte(nil), b...)
	for k := 1 + r.Intn(3); k > 0; k-- {
		if len(b) == 0 {
			return r.Bytes(1 + r.Intn(8))
		}
		i := r.Intn(len(b))
		switch r.Intn(10) {
		case 0:
			b[i] ^= 1 << uint(r.Intn(8))
		case 1:
			b[i] = byte(r.U64())
		case 2, 3:
			b[i] = poison[r.Intn(len(poison))]
		case 4:
			b = append(b[:i:i], append([]byte{poison[r.Intn(len(poison))]}, b[i:]...)...)
		case 5:
			j := i + 1 + r.Intn(4)
			if j > len(b) {
				j = len(b)
			}
			b = append(b[:i:i], b[j:]...)
		case 6: // repeat a piece
			j := i + 1 + r.Intn(len(b)-i)
			b = append(b[:j:j], append(append([]byte(nil), b[i:j]...), b[j:]...)...)
		case 7: // a large number where some size may be
			big := [][]byte{{0x7f, 0xff, 0xff, 0xff}, {0x80, 0, 0, 0}, {0xff, 0xff, 0xff, 0xff}, {0, 0x10, 0, 0}, {0xff, 0xff, 0xff, 0xff, 0x0f}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01}, {0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x01}, {0xff, 0xff, 0xff, 0xff, 0x7f}}
			s := big[r.Intn(len(big))]
			if r.Bool() {
				b = append(b[:i:i], append(append([]byte(nil), s...), b[i:]...)...)
			} else {
				copy(b[i:], s)
			}
		case 8: // cut
			b = b[:i]
		case 9: // splice
			if len(other) > 0 {
				b = append(b[:i:i], other[r.Intn(len(other)):]...)
			}
		}
	}
	return b
}

var badTokens = []string{"", "-", "+", "01", "1.", ".5", "1e", "1e+", "1ee5", "1.2.3", "--1", "1-2", "0x10", "1e400", "-1e400", "99999999999999999999", "9223372036854775808", "-9223372036854775809", "2147483648", "-2147483649",
	"32768", "-32769", "256", "-129", "1.5", "-1", "-2147483648", "2147483647", "nul", "nulll", "tru", "True", "falsy", "NaN", "Infinity", "-Infinity", "Inf", "\"", "\"abc", "\"\\x\"", "\"\\u12\"", "\"\\u12G4\"", "\"\\ud800\"", "\"a\nb\"", "\"\x01\"",
	"\"\\\"", "'a'", "[", "]", "{", "}", "{}", "[]", "[1", "{\"1\"", "{\"1\":", "{1:2}", "{\"a\":1,}", "[1,]", "[,1]", ",", ":", "\"1.5\"", "\"12x\"", "\"=\"", "\"A===\"", "\"AAA\"", "\"!!!!\"", "\"QQ==QQ==\"", "\"QR==\"", "\"Q\\u0051==\"", "\"zzz\"", "\"i32\"", "\"rec\"", "0", "12", "200", "null", "\"NaN\"", "\"nan\"", "\"Infinityx\"", "/**/1", "1 2", "\"stp\"", "\"\""}

// tokens gives the extents of the scalar tokens of a JSON text.
func tokens(b []byte) [][2]int {
	var out [][2]int
	for i := 0; i < len(b); {
		switch c := b[i]; {
		case c == '"':
			j := i + 1
			for j < len(b) && b[j] != '"' {
				if b[j] == '\\' {
					j++
				}
				j++
			}
			out = append(out, [2]int{i, j + 1})
			i = j + 1
		case strings.IndexByte("[]{},: \n\t\r", c) >= 0:
			i++
		default:
			j := i
			for j < len(b) && strings.IndexByte("[]{},: \n\t\r\"", b[j]) < 0 {
				j++
			}
			out = append(out, [2]int{i, j})
			i = j
		}
	}
	return out
}

func hostileSrc(r *Rng, b []byte) *XT {
	x := NewXT(b)
	if r.P(40) {
		x.frag = fragRandom(NewRng(r.U64()))
	}
	x.eofWith = r.P(30)
	return x
}

func allocated(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

type deafHandler struct{ calls int }

func (h *deafHandler) Echo(m *simple.ContainerOfEnums) (*simple.ContainerOfEnums, error) {
	h.calls++
	return m, nil
}

func hostile(r *Run) {
	bin := []*Proto{pBinary, pBinaryLax, pCompact}
	types := []thrift.TType{thrift.BOOL, thrift.BYTE, thrift.I16, thrift.I32, thrift.I64, thrift.DOUBLE, thrift.STRING, thrift.STRUCT, thrift.MAP, thrift.SET, thrift.LIST}
	// every input of up to two bytes, and of three with an interesting second and third byte
	r.Cases("short", 256, func(t *T) {
		var b []byte
		t.Desc(func() string { return fmt.Sprintf("%x", b) })
		one := func() {
			for _, p := range bin {
				if t.Failed() {
					return
				}
				if len(b) > 0 && p != pBinaryLax {
					for _, ty := range types {
						judgeVal(t, p, ty, nil, b, NewXT(b))
					}
				}
				judgeMsg(t, p, b, NewXT(b), nil)
			}
		}
		if t.Idx == 0 {
			b = []byte{}
			one()
		}
		b = []byte{byte(t.Idx)}
		one()
		for j := 0; j < 256; j++ {
			b = []byte{byte(t.Idx), byte(j)}
			one()
		}
		for _, j := range poison {
			for _, k := range poison {
				b = []byte{byte(t.Idx), j, k}
				one()
			}
		}
		t.Seen(uint64(t.Idx))
	})
	alpha := []string{"[", "]", "{", "}", ",", ":", "\"", "\\", "0", "1", "9", "-", "+", ".", "e", "null", "true", "false", "N", "NaN", "Infinity", " ", "\n", "\x00", "a", "\"1\"", "\"i32\"", "u", "\xff", "=", "8"}
	r.Cases("short-text", len(alpha)*len(alpha), func(t *T) {
		var b []byte
		t.Desc(func() string { return fmt.Sprintf("%q", b) })
		pre := alpha[t.Idx/len(alpha)] + alpha[t.Idx%len(alpha)]
		for k := -1; k < len(alpha); k++ {
			b = []byte(pre)
			if k >= 0 {
				b = append(b, alpha[k]...)
			}
			for _, ty := range append(types, thrift.BINARY) {
				if t.Failed() {
					return
				}
				w := &V{T: ty}
				judgeVal(t, pJSON, ty, w, b, NewXT(b))
				judgeVal(t, pSimple, ty, w, b, NewXT(b))
			}
			t.Seen(hashBytes(b))
		}
	})
	// damaged messages
	protos := []*Proto{pBinary, pBinaryLax, pCompact, pJSON, pSimple}
	r.Cases("mutate", r.N(6000, 150000), func(t *T) {
		p := protos[t.R.Intn(len(protos))]
		g := newGen(t.R, p.genOpt())
		g.budget = 5 + t.R.Intn(40)
		m := g.msg()
		g.budget = 20
		m2 := g.msg()
		enc, _ := p.encode(m)
		enc2, _ := p.encode(m2)
		if !p.JSON && t.R.Bool() {
			enc = refAlt(p, t.R, m)
		}
		var b []byte
		t.Desc(func() string { return fmt.Sprintf("%s: %x (%q)", p.Name, b, b) })
		for k := 0; k < 25 && !t.Failed(); k++ {
			b = mutate(t.R, enc, enc2)
			judgeMsg(t, p, b, hostileSrc(t.R, b), m)
			if k%4 == 0 && !p.Schema { // skipping them must end, too
				x := hostileSrc(t.R, b)
				e := p.New(x).Skip(types[t.R.Intn(len(types))])
				_ = e
				t.Count("hostile_skips", 1)
			}
			t.Seen(hashBytes(b) ^ hashStr(1, p.Name))
		}
		t.Sample("%s %.200q", p.Name, b)
	})
	// JSON documents with one token replaced
	r.Cases("tokens", r.N(2500, 60000), func(t *T) {
		p := []*Proto{pJSON, pSimple}[t.R.Intn(2)]
		g := newGen(t.R, p.genOpt())
		g.budget = 4 + t.R.Intn(16)
		m := g.msg()
		enc, _ := p.encode(m)
		tk := tokens(enc)
		var b []byte
		t.Desc(func() string { return fmt.Sprintf("%s: %q from %q", p.Name, b, enc) })
		for k := 0; k < 30 && !t.Failed(); k++ {
			at := tk[t.R.Intn(len(tk))]
			b = append(append(append([]byte(nil), enc[:at[0]]...), badTokens[t.R.Intn(len(badTokens))]...), enc[at[1]:]...)
			judgeMsg(t, p, b, hostileSrc(t.R, b), m)
			t.Seen(hashBytes(b) ^ hashStr(1, p.Name))
		}
	})
	// names of types that do not exist, wherever the JSON protocol names a type
	names := []string{"zzz", "", "i3", "I32", "str ", "strr", "list", "bool", "string", "i128", "tf2", "\u0000", "8", "null"}
	r.Cases("type names", len(names), func(t *T) {
		n := fmt.Sprintf("%q", names[t.Idx])
		t.Desc(func() string { return n })
		for _, c := range []struct {
			ty thrift.TType
			s  string
		}{{thrift.MAP, "[N,\"i32\",0]"}, {thrift.MAP, "[\"i32\",N,0]"}, {thrift.MAP, "[N,N,0]"}, {thrift.MAP, "[\"i32\",N,1,5,6]"}, {thrift.MAP, "[N,\"i32\",1,5,6]"},
			{thrift.STRUCT, "{\"1\":{N:5}}"}, {thrift.STRUCT, "{\"1\":{\"i32\":5},\"2\":{N:\"a\"}}"}, {thrift.STRUCT, "{\"7\":{\"map\":[\"str\",N,0]}}"},
			{thrift.LIST, "[13,1,[\"str\",N,0]]"}} {
			b := []byte(strings.ReplaceAll(c.s, "N", n))
			judgeVal(t, pJSON, c.ty, nil, b, hostileSrc(t.R, b))
			t.Count("type_names", 1)
			t.Seen(hashBytes(b))
		}
	})
	// one bad scalar where each type is expected
	r.Cases("scalars", len(badTokens), func(t *T) {
		s := badTokens[t.Idx]
		t.Desc(func() string { return fmt.Sprintf("%q", s) })
		for _, p := range []*Proto{pJSON, pSimple} {
			for _, ty := range append(types, thrift.BINARY) {
				for _, form := range []string{"%s", " %s ", "[4,2,%s,1]", "[%s,1,1]", "[4,%s,1]"} {
					if t.Failed() {
						return
					}
					b := []byte(fmt.Sprintf(form, s))
					w := &V{T: ty}
					rt := ty
					if form[0] == '[' {
						one := &V{T: thrift.BYTE}
						w = &V{T: thrift.LIST, VT: ty, L: []*V{{T: ty}, {T: ty}, one, one}}
						rt = thrift.LIST
						if form == "[4,2,%s,1]" && !p.Schema {
							b = []byte(fmt.Sprintf("[%d,1,%s]", byte(wireT(ty)), s))
							w.L = w.L[:1]
						}
					}
					if p.Schema && len(w.L) > 2 {
						w.L = w.L[:2]
					}
					judgeVal(t, p, rt, w, b, NewXT(b))
				}
			}
		}
		t.Seen(uint64(t.Idx))
	})
	// sizes the input cannot hold: an error without allocating for them
	szs := []uint32{1 << 16, 1 << 20, 1 << 24, 1 << 28, 1 << 30, 1<<31 - 1, 1 << 31, 1<<32 - 1}
	type sized struct {
		name string
		p    *Proto
		mk   func(n uint32) []byte
		rd   func(pr thrift.TProtocol) error
	}
	be := func(n uint32) []byte { return binary.BigEndian.AppendUint32(nil, n) }
	uv := func(n uint32) []byte { return binary.AppendUvarint(nil, uint64(n)) }
	cat := func(bs ...[]byte) []byte { return bytes.Join(bs, nil) }
	rd := func(ty thrift.TType) func(pr thrift.TProtocol) error {
		return func(pr thrift.TProtocol) error { c := hostileCtl; _, e := readV(pr, ty, nil, &c); return e }
	}
	rdBin := func(pr thrift.TProtocol) error { _, e := pr.ReadBinary(); return nilErr(e) }
	rdMsg := func(pr thrift.TProtocol) error { _, _, _, e := pr.ReadMessageBegin(); return nilErr(e) }
	skp := func(ty thrift.TType) func(pr thrift.TProtocol) error {
		return func(pr thrift.TProtocol) error { return nilErr(pr.Skip(ty)) }
	}
	var sd []sized
	for _, f := range []struct {
		n  string
		rd func(pr thrift.TProtocol) error
	}{{"string", rd(thrift.STRING)}, {"binary", rdBin}, {"skip", skp(thrift.STRING)}} {
		sd = append(sd, sized{"binary " + f.n, pBinary, func(n uint32) []byte { return cat(be(n), []byte("abc")) }, f.rd},
			sized{"compact " + f.n, pCompact, func(n uint32) []byte { return cat(uv(n), []byte("abc")) }, f.rd})
	}
	for _, k := range []thrift.TType{thrift.LIST, thrift.SET} {
		sd = append(sd, sized{"binary " + tname(k), pBinary, func(n uint32) []byte { return cat([]byte{8}, be(n), []byte("abcdefgh")) }, rd(k)},
			sized{"binary skip " + tname(k), pBinary, func(n uint32) []byte { return cat([]byte{8}, be(n), []byte("abcdefgh")) }, skp(k)},
			sized{"compact " + tname(k), pCompact, func(n uint32) []byte { return cat([]byte{0xf5}, uv(n), []byte("abcdefgh")) }, rd(k)},
			sized{"compact skip " + tname(k), pCompact, func(n uint32) []byte { return cat([]byte{0xf5}, uv(n), []byte("abcdefgh")) }, skp(k)},
			sized{"json " + tname(k), pJSON, func(n uint32) []byte { return []byte(fmt.Sprintf("[8,%d,1,2]", n)) }, rd(k)},
			sized{"json skip " + tname(k), pJSON, func(n uint32) []byte { return []byte(fmt.Sprintf("[8,%d,1,2]", int32(n))) }, skp(k)})
	}
	sd = append(sd, sized{"binary map", pBinary, func(n uint32) []byte { return cat([]byte{8, 8}, be(n), []byte("abcdefgh")) }, rd(thrift.MAP)},
		sized{"binary skip map", pBinary, func(n uint32) []byte { return cat([]byte{8, 8}, be(n), []byte("abcdefgh")) }, skp(thrift.MAP)},
		sized{"compact map", pCompact, func(n uint32) []byte { return cat(uv(n), []byte{0x55}, []byte("abcdefgh")) }, rd(thrift.MAP)},
		sized{"compact skip map", pCompact, func(n uint32) []byte { return cat(uv(n), []byte{0x55}, []byte("abcdefgh")) }, skp(thrift.MAP)},
		sized{"json map", pJSON, func(n uint32) []byte { return []byte(fmt.Sprintf(`["i32","i32",%d,1,2]`, int32(n))) }, rd(thrift.MAP)},
		sized{"binary message name", pBinary, func(n uint32) []byte { return cat([]byte{0x80, 1, 0, 1}, be(n), []byte("abc")) }, rdMsg},
		sized{"old binary message name", pBinaryLax, func(n uint32) []byte { return cat(be(n), []byte("abc")) }, rdMsg},
		sized{"compact message name", pCompact, func(n uint32) []byte { return cat([]byte{0x82, 0x21, 0x05}, uv(n), []byte("abc")) }, rdMsg})
	r.Cases("sizes", len(sd)*len(szs), func(t *T) {
		s, n := sd[t.Idx/len(szs)], szs[t.Idx%len(szs)]
		b := s.mk(n)
		t.Desc(func() string { return fmt.Sprintf("%s of size %d (%d): %x", s.name, n, int32(n), b) })
		var e error
		used := allocated(func() { e = s.rd(s.p.New(NewXT(b))) })
		if e == nil {
			t.Fail("%s: a size of %d (%d as signed) in %d bytes of input is not reported", s.name, n, int32(n), len(b))
		}
		if used > 64<<20 {
			t.Fail("%s: a size of %d in %d bytes of input made the reader allocate %d MB", s.name, n, len(b), used>>20)
		}
		for _, fr := range []bool{false, true} { // the same inside a frame
			y := NewXT(b)
			if fr {
				y = NewXT(append(be(uint32(len(b))), b...))
			}
			if e := s.rd(s.p.New(thrift.NewTFramedTransport(y))); e == nil {
				t.Fail("%s: accepted through a framed transport (framed=%v)", s.name, fr)
			}
		}
		t.Count("impossible_sizes", 1)
		t.Seen(uint64(t.Idx))
	})
	// a negative size: the header itself is at fault
	type header struct {
		name string
		p    *Proto
		b    func(n uint32) []byte
		rd   func(pr thrift.TProtocol) (int, error)
	}
	hList := func(pr thrift.TProtocol) (int, error) { _, n, e := pr.ReadListBegin(); return n, nilErr(e) }
	hSet := func(pr thrift.TProtocol) (int, error) { _, n, e := pr.ReadSetBegin(); return n, nilErr(e) }
	hMap := func(pr thrift.TProtocol) (int, error) { _, _, n, e := pr.ReadMapBegin(); return n, nilErr(e) }
	hStr := func(pr thrift.TProtocol) (int, error) { v, e := pr.ReadString(); return len(v), nilErr(e) }
	hBin := func(pr thrift.TProtocol) (int, error) { v, e := pr.ReadBinary(); return len(v), nilErr(e) }
	tail := bytes.Repeat([]byte{0}, 64)
	var hs []header
	for _, k := range []struct {
		n  string
		rd func(pr thrift.TProtocol) (int, error)
	}{{"list", hList}, {"set", hSet}} {
		hs = append(hs, header{"binary " + k.n, pBinary, func(n uint32) []byte { return cat([]byte{8}, be(n), tail) }, k.rd},
			header{"compact " + k.n, pCompact, func(n uint32) []byte { return cat([]byte{0xf5}, uv(n), tail) }, k.rd},
			header{"json " + k.n, pJSON, func(n uint32) []byte { return []byte(fmt.Sprintf(`["i32",%d,1]`, int32(n))) }, k.rd},
			header{"json number " + k.n, pJSON, func(n uint32) []byte { return []byte(fmt.Sprintf(`[8,%d,1]`, int32(n))) }, k.rd},
			header{"simple json " + k.n, pSimple, func(n uint32) []byte { return []byte(fmt.Sprintf(`[8,%d,1]`, int32(n))) }, k.rd})
	}
	hs = append(hs, header{"binary map", pBinary, func(n uint32) []byte { return cat([]byte{8, 8}, be(n), tail) }, hMap},
		header{"compact map", pCompact, func(n uint32) []byte { return cat(uv(n), []byte{0x55}, tail) }, hMap},
		header{"json map", pJSON, func(n uint32) []byte { return []byte(fmt.Sprintf(`["i32","i32",%d,1]`, int32(n))) }, hMap},
		header{"simple json map", pSimple, func(n uint32) []byte { return []byte(fmt.Sprintf(`[8,8,%d,1]`, int32(n))) }, hMap},
		header{"binary string", pBinary, func(n uint32) []byte { return cat(be(n), tail) }, hStr},
		header{"compact string", pCompact, func(n uint32) []byte { return cat(uv(n), tail) }, hStr},
		header{"binary bytes", pBinary, func(n uint32) []byte { return cat(be(n), tail) }, hBin},
		header{"compact bytes", pCompact, func(n uint32) []byte { return cat(uv(n), tail) }, hBin})
	r.Cases("negative sizes", len(hs), func(t *T) {
		h := hs[t.Idx]
		for _, n := range []uint32{1<<32 - 1, 1<<32 - 2, 1 << 31, 1<<31 + 1, 1<<32 - 128, 1<<32 - 256, 1<<32 - 1<<16, 1<<32 - 5000} {
			b := h.b(n)
			t.Desc(func() string { return fmt.Sprintf("%s of size %d: %x", h.name, int32(n), b) })
			if k, e := h.rd(h.p.New(NewXT(b))); e == nil {
				t.Fail("%s: the header with the size %d was read as one with the size %d", h.name, int32(n), k)
			}
			t.Count("negative_sizes", 1)
			t.Seen(uint64(t.Idx)<<32 | uint64(n))
		}
	})
	// frame headers
	r.Cases("frames", r.N(600, 8000), func(t *T) {
		var b []byte
		for k := 1 + t.R.Intn(4); k > 0; k-- {
			body := t.R.Bytes(t.R.Intn(20))
			n := uint32(len(body))
			switch t.R.Intn(6) {
			case 0:
				n += uint32(t.R.Intn(5))
			case 1:
				n = szs[t.R.Intn(len(szs))]
			case 2:
				n = uint32(t.R.U64())
			}
			b = append(append(b, be(n)...), body...)
		}
		b = b[:len(b)-t.R.Intn(4)]
		t.Desc(func() string { return fmt.Sprintf("%x", b) })
		used := allocated(func() {
			f := thrift.NewTFramedTransport(hostileSrc(t.R, b))
			var got []byte
			for i := 0; ; i++ {
				buf := make([]byte, t.R.Intn(9))
				n, e := f.Read(buf)
				if n < 0 || n > len(buf) {
					t.Fail("Read of %d bytes returned %d", len(buf), n)
					return
				}
				got = append(got, buf[:n]...)
				if e != nil {
					break
				}
				if i > 5000 {
					t.Fail("reading never ends")
					return
				}
			}
			// what was delivered must be frame contents
			var want []byte
			for q := b; len(q) >= 4; {
				n := int32(binary.BigEndian.Uint32(q))
				q = q[4:]
				if n < 0 {
					break
				}
				if int(n) > len(q) {
					want = append(want, q...)
					break
				}
				want = append(want, q[:n]...)
				q = q[n:]
			}
			if !bytes.HasPrefix(want, got) {
				t.Fail("delivered %x, which is not the content %x of the frames", got, want)
			}
		})
		if used > 64<<20 {
			t.Fail("%d bytes of frames made the transport allocate %d MB", len(b), used>>20)
		}
		t.Count("hostile_frames", 1)
		t.Seen(hashBytes(b))
	})
	// generated readers, the exception reader and the generated processor
	r.Cases("generated", r.N(2500, 50000), func(t *T) {
		p := mainProtos[t.R.Intn(len(mainProtos))]
		x := NewXT(nil)
		wp := p.New(x)
		var other []byte
		{
			g := newGen(t.R, p.genOpt())
			g.budget = 15
			other, _ = p.encode(g.msg())
		}
		wp.WriteMessageBegin("echo", thrift.CALL, int32(t.R.Intn(100)))
		a := simple.NewEchoArgs()
		a.Message = simple.NewContainerOfEnums()
		a.Message.First = simple.UndefinedValues(t.R.Intn(3))
		a.Write(wp)
		wp.WriteMessageEnd()
		wp.Flush()
		call := x.Sink.buf
		y := NewXT(nil)
		ap := p.New(y)
		ex := thrift.NewTApplicationException(int32(t.R.Intn(8)), "an error")
		ex.Write(ap)
		ap.Flush()
		var b []byte
		t.Desc(func() string { return fmt.Sprintf("%s: %x (%q)", p.Name, b, b) })
		for k := 0; k < 20 && !t.Failed(); k++ {
			b = mutate(t.R, call, other)
			in := hostileSrc(t.R, b)
			h := &deafHandler{}
			pr := p.New(in)
			out := p.New(NewXT(nil))
			for n := 0; n < 4; n++ {
				if ok, e := simple.NewContainerOfEnumsTestServiceProcessor(h).Process(pr, out); e != nil || !ok {
					break
				}
			}
			c := simple.NewContainerOfEnums()
			c.Read(p.New(hostileSrc(t.R, b)))
			b = mutate(t.R, y.Sink.buf, other)
			if e, err := thrift.NewTApplicationExceptionDefault().Read(p.New(hostileSrc(t.R, b))); err == nil && e == nil {
				t.Fail("%s: reading an application exception gives neither an exception nor an error", p.Name)
			}
			t.Count("hostile_generated_reads", 3)
			t.Seen(hashBytes(b))
		}
	})
}

// ---------------------------------------------------------------- truncation

var endings = []struct {
	name string
	err  error
}{{"EOF", nil}, {"unexpected EOF", io.ErrUnexpectedEOF}, {"error", errors.New("connection reset")}, {"transport EOF", thrift.NewTTransportException(thrift.END_OF_FILE, "eof")}}

func hasPrefix(full, part []string) int {
	for i, s := range part {
		if i >= len(full) || full[i] != s {
			return i
		}
	}
	return -1
}

func cutTransports(r *Rng, b []byte, k int, end error, framed bool) (thrift.TTransport, string) {
	x := NewXT(b[:k])
	x.endErr = end
	if r.P(40) {
		x.frag = fragRandom(NewRng(r.U64()))
	}
	x.eofWith = r.Bool()
	if framed {
		return thrift.NewTFramedTransport(x), "framed"
	}
	switch r.Intn(4) {
	case 0:
		if end == nil {
			m := thrift.NewTMemoryBuffer()
			m.Write(b[:k])
			return m, "memory"
		}
	case 1:
		return thrift.NewTIOStreamTransportR(x), "iostream"
	case 2:
		return thrift.NewTIOStreamTransportFactory(x, nil, true).GetTransport(nil), "iostream-buffered"
	}
	return x, "direct"
}

func truncation(r *Run) {
	protos := []*Proto{pBinary, pBinaryLax, pCompact, pJSON, pSimple}
	r.Cases("messages", r.N(1500, 30000), func(t *T) {
		p := protos[t.Idx%len(protos)]
		g := newGen(t.R, p.genOpt())
		g.budget = 3 + t.R.Intn(30)
		if t.R.P(3) {
			g.o.MaxStr = 6000
		}
		m := g.msg()
		enc, e := p.encode(m)
		if e != nil {
			t.Fail("writing failed: %v", e)
			return
		}
		if !p.JSON && t.R.P(40) { // as another implementation may write it
			if f := refAlt(p, t.R, m); !bytes.Equal(f, enc) {
				enc = f
				t.Count("foreign_forms", 1)
			}
		}
		full := &readCtl{trace: true}
		if _, e := p.readMsg(p.New(NewXT(enc)), m, full); e != nil {
			t.Fail("the whole message is not read: %v", e)
			return
		}
		framed := t.R.P(25)
		wire := enc
		if framed {
			wire = append(binary.BigEndian.AppendUint32(nil, uint32(len(enc))), enc...)
			if t.R.Bool() && len(enc) > 1 { // two frames
				i := 1 + t.R.Intn(len(enc)-1)
				wire = append(binary.BigEndian.AppendUint32(nil, uint32(i)), enc[:i]...)
				wire = append(binary.BigEndian.AppendUint32(wire, uint32(len(enc)-i)), enc[i:]...)
			}
		}
		k := 0
		how := ""
		t.Desc(func() string {
			return fmt.Sprintf("%s over %s: first %d of %d bytes of %v (%.300q)", p.Name, how, k, len(wire), m, wire)
		})
		step := 1 + len(wire)/400
		for k = 0; k < len(wire); k += 1 + t.R.Intn(step) {
			end := endings[t.R.Intn(len(endings))]
			tr, h := cutTransports(t.R, wire, k, end.err, framed)
			how = h + " ended by " + end.name
			c := &readCtl{trace: true}
			got, e := p.readMsg(p.New(tr), m, c)
			if e == nil {
				t.Fail("%s: a truncated message was read as complete: %v", p.Name, got)
				return
			}
			if i := hasPrefix(full.ev, c.ev); i >= 0 {
				want := "(end)"
				if i < len(full.ev) {
					want = full.ev[i]
				}
				t.Fail("%s: reading the truncated message delivered %s where %s was sent (%d deliveries before)", p.Name, c.ev[i], want, i)
				return
			}
			t.Count("truncations", 1)
			t.Count("deliveries_checked", len(c.ev))
			t.Seen(hashBytes(wire[:k]) ^ hashStr(5, p.Name+how))
		}
		t.Sample("%s: all prefixes of %.200q", p.Name, wire)
	})
	// single values
	sw := sweepScalars(false)
	r.Cases("values", len(sw), func(t *T) {
		v := sw[t.Idx]
		for _, p := range []*Proto{pBinary, pCompact, pJSON, pSimple} {
			for i, w := range wraps(v) {
				if p.JSON && isScalar(w.T) && w.T != thrift.STRING && w.T != thrift.BINARY && w.T != thrift.BOOL {
					continue // a number that stands alone does not say where it ends
				}
				enc, e := p.encodeV(w)
				if e != nil {
					t.Fail("writing failed: %v", e)
					return
				}
				step := 1 + len(enc)/40
				for k := 0; k < len(enc); k += 1 + t.R.Intn(step) {
					c := &readCtl{}
					if got, e := p.readV(p.New(hostileSrc(t.R, enc[:k])), w, c); e == nil {
						t.Desc(func() string { return fmt.Sprintf("%s: %v, first %d of %d bytes %q", p.Name, w, k, len(enc), enc) })
						t.Fail("%s: a truncated value was read as complete: %v", p.Name, got)
						return
					}
					if !p.Schema {
						if e := p.New(hostileSrc(t.R, enc[:k])).Skip(wireT(w.T)); e == nil {
							t.Desc(func() string { return fmt.Sprintf("%s: %v, first %d of %d bytes %q", p.Name, w, k, len(enc), enc) })
							t.Fail("%s: a truncated value was skipped without an error", p.Name)
							return
						}
					}
					t.Count("truncations", 1)
				}
				t.Seen(uint64(i) ^ hashStr(7, w.String()+p.Name))
			}
		}
	})
	// generated structs
	r.Cases("generated", r.N(200, 2000), func(t *T) {
		p := mainProtos[t.Idx%4]
		c := randEnums(t.R)
		x := NewXT(nil)
		wp := p.New(x)
		if e := c.Write(wp); e != nil {
			t.Fail("write: %v", e)
			return
		}
		wp.Flush()
		for k := 0; k < len(x.Sink.buf); k++ {
			if e := simple.NewContainerOfEnums().Read(p.New(hostileSrc(t.R, x.Sink.buf[:k]))); e == nil {
				t.Fail("%s: generated struct read from the first %d of %d bytes without an error: %q", p.Name, k, len(x.Sink.buf), x.Sink.buf)
				return
			}
			t.Count("truncations", 1)
		}
		t.Seen(hashBytes(x.Sink.buf) ^ hashStr(2, p.Name))
	})
}

func randEnums(r *Rng) *simple.ContainerOfEnums {
	c := simple.NewContainerOfEnums()
	c.First = simple.UndefinedValues(r.Intn(3))
	c.Second = simple.DefinedValues(1 + r.Intn(3))
	c.Third = simple.HeterogeneousValues(r.Intn(5))
	if r.Bool() {
		c.OptionalFourth = simple.UndefinedValues(r.Intn(3))
	}
	if r.Bool() {
		c.OptionalFifth = simple.DefinedValues(1 + r.Intn(3))
	}
	if r.Bool() {
		c.OptionalSixth = simple.HeterogeneousValues(r.Intn(5))
	}
	if r.Bool() {
		c.DefaultSeventh = simple.UndefinedValues(r.Intn(3))
	}
	if r.Bool() {
		c.DefaultEighth = simple.DefinedValues(1 + r.Intn(3))
	}
	if r.Bool() {
		c.DefaultNineth = simple.HeterogeneousValues(r.Intn(5))
	}
	return c
}

// ---------------------------------------------------------------- arrival

type outcome struct {
	ev  []string
	err string
	typ string
	pos int
}

func errType(e error) string {
	switch x := e.(type) {
	case nil:
		return "none"
	case *modelErr:
		return "model"
	case thrift.TProtocolException:
		return fmt.Sprintf("protocol/%d", x.TypeId())
	case thrift.TTransportException:
		return fmt.Sprintf("transport/%d", x.TypeId())
	}
	return fmt.Sprintf("%T", e)
}

// readSeq reads up to n messages.
func readSeq(p *Proto, tr thrift.TTransport, ms []*Msg, n int) outcome {
	c := &readCtl{trace: true, maxNodes: 20000, maxDepth: 1000}
	pr := p.New(tr)
	var o outcome
	for i := 0; i < n; i++ {
		_, e := p.readMsg(pr, ms[i%len(ms)], c)
		if e != nil {
			o.err, o.typ = e.Error(), errType(e)
			break
		}
		c.ev = append(c.ev, "end of message")
	}
	o.ev = c.ev
	return o
}

func (a outcome) differs(b outcome, same, pos bool) string {
	n := len(a.ev)
	if len(b.ev) < n {
		n = len(b.ev)
	}
	for i := 0; i < n; i++ {
		if a.ev[i] != b.ev[i] {
			return fmt.Sprintf("delivery %d is %s instead of %s", i, b.ev[i], a.ev[i])
		}
	}
	if len(a.ev) != len(b.ev) {
		return fmt.Sprintf("%d deliveries instead of %d, then %s (%s) instead of %s (%s)", len(b.ev), len(a.ev), b.typ, b.err, a.typ, a.err)
	}
	if (a.typ == "none") != (b.typ == "none") || same && a.typ != b.typ {
		return fmt.Sprintf("error %s (%s) instead of %s (%s)", b.typ, b.err, a.typ, a.err)
	}
	if same && pos && a.pos != b.pos {
		return fmt.Sprintf("%d bytes consumed instead of %d", b.pos, a.pos)
	}
	return ""
}

func arrival(r *Run) {
	protos := []*Proto{pBinary, pBinaryLax, pCompact, pJSON, pSimple}
	r.Cases("streams", r.N(2000, 40000), func(t *T) {
		p := protos[t.Idx%len(protos)]
		g := newGen(t.R, p.genOpt())
		if t.R.P(8) {
			g.o.MaxStr = 9000
		}
		var ms []*Msg
		n := 1 + t.R.Intn(3)
		for i := 0; i < n; i++ {
			g.budget = 3 + t.R.Intn(25)
			ms = append(ms, g.msg())
		}
		b, e := p.encode(ms...)
		if e != nil {
			t.Fail("writing failed: %v", e)
			return
		}
		if p.JSON && t.R.P(50) {
			var v []byte
			for _, m := range ms {
				one, _ := p.encode(m)
				if doc, jp, e := parseJSON(one); e == nil {
					jp.interpMsg(doc, m, p.Schema)
					v = append(v, variant(t, p, doc, t.R.Intn(4))...)
				}
			}
			b = v
		}
		kind := "intact"
		switch t.R.Intn(4) {
		case 0:
			b = b[:t.R.Intn(len(b)+1)]
			kind = "truncated"
		case 1:
			b = mutate(t.R, b, nil)
			kind = "damaged"
		}
		x0 := NewXT(b)
		base := readSeq(p, x0, ms, n+1)
		base.pos = x0.pos
		how := ""
		t.Desc(func() string { return fmt.Sprintf("%s %s %s: %q", p.Name, kind, how, b) })
		cmp := func(tr thrift.TTransport, x *XT, name string, same bool) bool {
			how = name
			o := readSeq(p, tr, ms, n+1)
			if x != nil {
				o.pos = x.pos
			}
			if d := base.differs(o, same, !p.JSON); d != "" {
				t.Fail("%s: reading the same bytes (%s) delivered %s: %s", p.Name, kind, name, d)
				return false
			}
			t.Count("deliveries_compared", len(o.ev))
			t.Count("fragmentations", 1)
			t.Seen(hashBytes(b) ^ hashStr(3, name+p.Name))
			return true
		}
		mk := func(f Frag, with bool) *XT {
			x := NewXT(b)
			if f != nil {
				x.frag = f
			}
			x.eofWith = with
			return x
		}
		for _, with := range []bool{false, true} {
			x := mk(nil, with)
			if !cmp(x, x, fmt.Sprintf("at once, end of file with the last bytes: %v", with), true) {
				return
			}
			x = mk(fragOne, with)
			if !cmp(x, x, fmt.Sprintf("byte by byte, end of file with the last byte: %v", with), true) {
				return
			}
			x = mk(fragRandom(NewRng(t.R.U64())), with)
			if !cmp(x, x, "in random pieces", true) {
				return
			}
		}
		// single splits
		step := 1 + len(b)/60
		for k := 1; k < len(b); k += 1 + t.R.Intn(step) {
			x := mk(nil, t.R.Bool())
			x.frag = fragAt(x.Src, []int{k})
			if !cmp(x, x, fmt.Sprintf("split at %d", k), true) {
				return
			}
		}
		// reads that give nothing are not the end
		for lane := 0; lane < 3; lane++ {
			x := mk(fragRandom(NewRng(t.R.U64())), t.R.Bool())
			x.idle = NewRng(t.R.U64())
			var tr thrift.TTransport = x
			switch lane {
			case 1:
				tr = thrift.NewTIOStreamTransportR(x)
			case 2:
				tr = thrift.NewTIOStreamTransportFactory(x, nil, true).GetTransport(nil)
			}
			var y *XT
			if lane == 0 {
				y = x
			}
			if !cmp(tr, y, fmt.Sprintf("in random pieces, with reads that give nothing (lane %d)", lane), lane == 0) {
				return
			}
			t.Count("empty_reads", x.nothing)
		}
		// other transports
		m := thrift.NewTMemoryBuffer()
		m.Write(b)
		if !cmp(m, nil, "through a memory buffer", false) {
			return
		}
		x := mk(fragRandom(NewRng(t.R.U64())), t.R.Bool())
		if !cmp(thrift.NewTIOStreamTransportR(x), x, "through a stream transport", false) {
			return
		}
		x = mk(fragRandom(NewRng(t.R.U64())), t.R.Bool())
		if !cmp(thrift.NewTIOStreamTransportFactory(x, nil, true).GetTransport(nil), nil, "through a buffered stream transport", false) {
			return
		}
		// cut into frames anywhere
		var fr []byte
		for q := b; len(q) > 0; {
			k := 1 + t.R.Intn(len(q))
			if t.R.P(30) {
				k = 1
			}
			fr = append(binary.BigEndian.AppendUint32(fr, uint32(k)), q[:k]...)
			q = q[k:]
			if t.R.P(10) {
				fr = append(fr, 0, 0, 0, 0)
			}
		}
		x = NewXT(fr)
		x.frag = fragRandom(NewRng(t.R.U64()))
		x.eofWith = t.R.Bool()
		if !cmp(thrift.NewTFramedTransport(x), nil, "in frames cut anywhere", false) {
			return
		}
		if t.Idx%7 == 0 { // a socket
			a, c := net.Pipe()
			go func() {
				for q := b; len(q) > 0; {
					k := 1 + t.Idx%5
					if k > len(q) {
						k = len(q)
					}
					if _, e := c.Write(q[:k]); e != nil {
						break
					}
					q = q[k:]
				}
				c.Close()
			}()
			s, e := thrift.NewTSocketConn(a)
			if e != nil {
				t.Fail("NewTSocketConn: %v", e)
				return
			}
			cmp(s, nil, "through a socket", false)
			s.Close()
			a.Close()
		}
	})
	// a stream that gives nothing for ever is not waited for without end
	r.Cases("idle", r.N(300, 4000), func(t *T) {
		p := protos[t.Idx%len(protos)]
		g := newGen(t.R, p.genOpt())
		g.budget = 3 + t.R.Intn(25)
		m := g.msg()
		b, e := p.encode(m)
		if e != nil {
			t.Fail("writing failed: %v", e)
			return
		}
		b = b[:t.R.Intn(len(b))]
		framed := t.R.P(30)
		t.Desc(func() string { return fmt.Sprintf("%s (framed: %v) %q", p.Name, framed, b) })
		x := NewXT(b)
		x.frag = fragRandom(NewRng(t.R.U64()))
		x.idle = NewRng(t.R.U64())
		x.idleEnd = true
		var tr thrift.TTransport = x
		if framed {
			x.data = append(binary.BigEndian.AppendUint32(nil, uint32(len(b)+1)), b...)
			tr = thrift.NewTFramedTransport(x)
		}
		o := readSeq(p, tr, []*Msg{m}, 1)
		if o.err == "" {
			t.Fail("%s: a message of which the rest never comes is read without an error", p.Name)
		}
		t.Count("empty_reads", x.nothing)
		t.Count("idle_streams", 1)
		t.Seen(hashBytes(b) ^ hashStr(4, p.Name))
	})
	// generated readers
	r.Cases("generated", r.N(300, 4000), func(t *T) {
		p := mainProtos[t.Idx%4]
		c := randEnums(t.R)
		x := NewXT(nil)
		wp := p.New(x)
		c.Write(wp)
		wp.Flush()
		b := x.Sink.buf
		if t.R.P(40) {
			b = mutate(t.R, b, nil)
		}
		read := func(f Frag, with bool) string {
			y := NewXT(b)
			y.frag = f
			y.eofWith = with
			d := simple.NewContainerOfEnums()
			e := d.Read(p.New(y))
			return fmt.Sprintf("%v %v %+v", errType(nilErr(e)), e == nil, *d)
		}
		want := read(fragAll, false)
		for i := 0; i < 6; i++ {
			f := fragRandom(NewRng(t.R.U64()))
			if i == 0 {
				f = fragOne
			}
			if got := read(f, i%2 == 0); got != want {
				t.Desc(func() string { return fmt.Sprintf("%s %q", p.Name, b) })
				t.Fail("%s: a generated struct read in pieces differs: %s, at once %s", p.Name, got, want)
				return
			}
			t.Count("fragmentations", 1)
		}
		t.Seen(hashBytes(b) ^ hashStr(2, p.Name))
	})
}

// ---------------------------------------------------------------- waiting

func noWait(r *Run) {
	protos := []*Proto{pBinary, pBinaryLax, pCompact, pCompactFac, pJSON, pJSONFac, pSimple, pSimpleFac}
	r.Cases("messages", r.N(4000, 80000), func(t *T) {
		p := protos[t.Idx%len(protos)]
		g := newGen(t.R, p.genOpt())
		if t.R.P(8) {
			g.o.MaxStr = 9000
		}
		x := NewXT(nil)
		x.block = true
		x.maxOver = 100
		if t.R.Bool() {
			x.frag = fragRandom(NewRng(t.R.U64()))
		}
		var tr thrift.TTransport = x
		how := "direct"
		framed := false
		switch t.R.Intn(5) {
		case 0:
			tr, how, framed = thrift.NewTFramedTransport(x), "framed", true
		case 1:
			tr, how = thrift.NewTIOStreamTransportR(x), "stream"
		case 2:
			tr, how = thrift.NewTIOStreamTransportFactory(x, nil, true).GetTransport(nil), "buffered stream"
		case 3:
			tr, how, framed = thrift.NewTFramedTransport(thrift.NewTIOStreamTransportFactory(x, nil, true).GetTransport(nil)), "framed over buffered stream", true
		}
		pr := p.New(tr)
		var ms []*Msg
		t.Desc(func() string { return fmt.Sprintf("%s over %s: %s", p.Name, how, msgsString(ms)) })
		skip := !p.Schema && t.R.P(25)
		for i := 0; i < 1+t.R.Intn(4); i++ {
			g.budget = 2 + t.R.Intn(25)
			m := g.msg()
			ms = append(ms, m)
			enc, e := p.encode(m)
			if e != nil {
				t.Fail("writing failed: %v", e)
				return
			}
			if p.JSON && t.R.Bool() {
				if doc, jp, e := parseJSON(enc); e == nil {
					jp.interpMsg(doc, m, p.Schema)
					enc = bytes.TrimRight(variant(t, p, doc, t.R.Intn(4)), " \t\r\n")
				}
			}
			if framed {
				if t.R.P(30) && len(enc) > 1 {
					k := 1 + t.R.Intn(len(enc)-1)
					x.data = append(binary.BigEndian.AppendUint32(x.data, uint32(k)), enc[:k]...)
					enc = enc[k:]
				}
				x.data = binary.BigEndian.AppendUint32(x.data, uint32(len(enc)))
			}
			x.data = append(x.data, enc...)
			if skip {
				if _, _, _, e := pr.ReadMessageBegin(); e != nil {
					t.Fail("%s over %s: message %d: %v (asked for more: %v)", p.Name, how, i, e, x.waitSeen)
					return
				}
				if e := pr.Skip(thrift.STRUCT); e != nil {
					t.Fail("%s over %s: skipping message %d: %v (asked for more: %v)", p.Name, how, i, e, x.waitSeen)
					return
				}
				if e := pr.ReadMessageEnd(); e != nil {
					t.Fail("%s over %s: end of message %d: %v (asked for more: %v)", p.Name, how, i, e, x.waitSeen)
					return
				}
			} else {
				got, e := p.readMsg(pr, m, &readCtl{})
				if e != nil {
					t.Fail("%s over %s: message %d: %v (asked for more: %v)", p.Name, how, i, e, x.waitSeen)
					return
				}
				if d := diffMsg(m, got, p.Eq); d != "" {
					t.Fail("%s over %s: message %d: %s", p.Name, how, i, d)
					return
				}
			}
			if x.waitSeen {
				t.Fail("%s over %s: reading message %d asked the stream for bytes beyond it", p.Name, how, i)
				return
			}
			t.Count("complete_messages", 1)
			t.Count("reads_watched", x.reads)
			t.Seen(shapeHash(m.Body) ^ hashStr(1, p.Name+how))
		}
		t.Sample("%s over %s: %s", p.Name, how, msgsString(ms))
	})
	// a call to the generated processor and a reply to the generated client are complete exchanges
	r.Cases("exchange", r.N(400, 4000), func(t *T) {
		p := protos[t.Idx%len(protos)]
		framed := t.R.Bool()
		tr := func(x *XT) thrift.TTransport {
			if framed {
				return thrift.NewTFramedTransport(x)
			}
			return x
		}
		cx, sx := NewXT(nil), NewXT(nil)
		cx.block, sx.block = true, true
		ct, st := tr(cx), tr(sx)
		cl := simple.NewContainerOfEnumsTestServiceClientFactory(ct, protoFac{p})
		sp := p.New(st)
		h := &deafHandler{}
		proc := simple.NewContainerOfEnumsTestServiceProcessor(h)
		t.Desc(func() string { return fmt.Sprintf("%s framed=%v", p.Name, framed) })
		for i := 0; i < 3; i++ {
			c := randEnums(t.R)
			if e := cl.SendEcho(c); e != nil {
				t.Fail("send: %v", e)
				return
			}
			sx.data = cx.Sink.buf
			if ok, e := proc.Process(sp, sp); !ok || e != nil {
				t.Fail("processing call %d: %v, %v (asked for more: %v)", i, ok, e, sx.waitSeen)
				return
			}
			cx.data = sx.Sink.buf
			if _, e := cl.RecvEcho(); e != nil {
				t.Fail("reply %d: %v (asked for more: %v)", i, e, cx.waitSeen)
				return
			}
			if sx.waitSeen || cx.waitSeen {
				t.Fail("exchange %d asked for bytes beyond the message (server %v, client %v)", i, sx.waitSeen, cx.waitSeen)
				return
			}
			t.Count("complete_messages", 2)
		}
		t.Seen(uint64(t.Idx))
	})
}

type protoFac struct{ p *Proto }

func (f protoFac) GetProtocol(t thrift.TTransport) thrift.TProtocol { return f.p.New(t) }
