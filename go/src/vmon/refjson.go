package main

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"math"
	"strconv"
	"strings"
	"thrift"
	"unicode/utf8"
)

// A strict JSON parser of our own (RFC 8259), keeping number texts, key order and duplicate keys, and the interpretation
// of such a document as the JSON protocols define it.

type jv struct {
	k   byte   // 'n' null, 't', 'f', '#' number, 's' string, '[', '{'
	s   string // number text or decoded string
	key []string
	a   []*jv
	z   bool // a scalar value that is zero
}

type jparse struct {
	b   []byte
	pos int
	amb bool // text whose meaning JSON leaves open (invalid UTF-8, lone surrogates)
	d   int
}

func (p *jparse) ws() {
	for p.pos < len(p.b) {
		switch p.b[p.pos] {
		case ' ', '\t', '\n', '\r':
			p.pos++
		default:
			return
		}
	}
}

func (p *jparse) lit(s string) error {
	if !bytes.HasPrefix(p.b[p.pos:], []byte(s)) {
		return errRef
	}
	p.pos += len(s)
	return nil
}

func (p *jparse) value() (*jv, error) {
	p.d++
	defer func() { p.d-- }()
	p.ws()
	if p.pos >= len(p.b) || p.d > 3000 {
		return nil, errRef
	}
	switch c := p.b[p.pos]; {
	case c == 'n':
		return &jv{k: 'n'}, p.lit("null")
	case c == 't':
		return &jv{k: 't'}, p.lit("true")
	case c == 'f':
		return &jv{k: 'f'}, p.lit("false")
	case c == '"':
		s, e := p.str()
		return &jv{k: 's', s: s}, e
	case c == '-' || c >= '0' && c <= '9':
		s, e := p.num()
		return &jv{k: '#', s: s}, e
	case c == '[':
		v := &jv{k: '['}
		p.pos++
		p.ws()
		if p.pos < len(p.b) && p.b[p.pos] == ']' {
			p.pos++
			return v, nil
		}
		for {
			x, e := p.value()
			if e != nil {
				return nil, e
			}
			v.a = append(v.a, x)
			p.ws()
			if p.pos >= len(p.b) {
				return nil, errRef
			}
			c := p.b[p.pos]
			p.pos++
			if c == ']' {
				return v, nil
			}
			if c != ',' {
				return nil, errRef
			}
		}
	case c == '{':
		v := &jv{k: '{'}
		p.pos++
		p.ws()
		if p.pos < len(p.b) && p.b[p.pos] == '}' {
			p.pos++
			return v, nil
		}
		for {
			p.ws()
			if p.pos >= len(p.b) || p.b[p.pos] != '"' {
				return nil, errRef
			}
			k, e := p.str()
			if e != nil {
				return nil, e
			}
			p.ws()
			if e := p.lit(":"); e != nil {
				return nil, e
			}
			x, e := p.value()
			if e != nil {
				return nil, e
			}
			v.key = append(v.key, k)
			v.a = append(v.a, x)
			p.ws()
			if p.pos >= len(p.b) {
				return nil, errRef
			}
			c := p.b[p.pos]
			p.pos++
			if c == '}' {
				return v, nil
			}
			if c != ',' {
				return nil, errRef
			}
		}
	}
	return nil, errRef
}

func (p *jparse) digits() int {
	n := 0
	for p.pos < len(p.b) && p.b[p.pos] >= '0' && p.b[p.pos] <= '9' {
		p.pos++
		n++
	}
	return n
}

func (p *jparse) num() (string, error) {
	st := p.pos
	if p.b[p.pos] == '-' {
		p.pos++
	}
	z := p.pos
	n := p.digits()
	if n == 0 || n > 1 && p.b[z] == '0' {
		return "", errRef
	}
	if p.pos < len(p.b) && p.b[p.pos] == '.' {
		p.pos++
		if p.digits() == 0 {
			return "", errRef
		}
	}
	if p.pos < len(p.b) && (p.b[p.pos] == 'e' || p.b[p.pos] == 'E') {
		p.pos++
		if p.pos < len(p.b) && (p.b[p.pos] == '+' || p.b[p.pos] == '-') {
			p.pos++
		}
		if p.digits() == 0 {
			return "", errRef
		}
	}
	return string(p.b[st:p.pos]), nil
}

func (p *jparse) hex4() (rune, error) {
	if p.pos+4 > len(p.b) {
		return 0, errRef
	}
	n := rune(0)
	for i := 0; i < 4; i++ {
		c := p.b[p.pos]
		p.pos++
		switch {
		case c >= '0' && c <= '9':
			n = n<<4 | rune(c-'0')
		case c >= 'a' && c <= 'f':
			n = n<<4 | rune(c-'a'+10)
		case c >= 'A' && c <= 'F':
			n = n<<4 | rune(c-'A'+10)
		default:
			return 0, errRef
		}
	}
	return n, nil
}

func (p *jparse) str() (string, error) {
	p.pos++
	var o []byte
	for p.pos < len(p.b) {
		c := p.b[p.pos]
		p.pos++
		switch {
		case c == '"':
			if !utf8.Valid(o) {
				p.amb = true
			}
			return string(o), nil
		case c < 0x20:
			return "", errRef
		case c != '\\':
			o = append(o, c)
		default:
			if p.pos >= len(p.b) {
				return "", errRef
			}
			c = p.b[p.pos]
			p.pos++
			switch c {
			case '"', '\\', '/':
				o = append(o, c)
			case 'b':
				o = append(o, '\b')
			case 'f':
				o = append(o, '\f')
			case 'n':
				o = append(o, '\n')
			case 'r':
				o = append(o, '\r')
			case 't':
				o = append(o, '\t')
			case 'u':
				r, e := p.hex4()
				if e != nil {
					return "", e
				}
				if r >= 0xd800 && r < 0xe000 {
					if r < 0xdc00 && p.pos+1 < len(p.b) && p.b[p.pos] == '\\' && p.b[p.pos+1] == 'u' {
						sv := p.pos
						p.pos += 2
						r2, e := p.hex4()
						if e != nil {
							return "", e
						}
						if r2 >= 0xdc00 && r2 < 0xe000 {
							o = utf8.AppendRune(o, (r-0xd800)<<10|(r2-0xdc00)+0x10000)
							continue
						}
						p.pos = sv
					}
					p.amb = true
					r = 0xfffd
				}
				o = utf8.AppendRune(o, r)
			default:
				return "", errRef
			}
		}
	}
	return "", errRef
}

// parseJSON parses exactly one text.
func parseJSON(b []byte) (*jv, *jparse, error) {
	p := &jparse{b: b}
	v, e := p.value()
	if e != nil {
		return nil, p, e
	}
	p.ws()
	return v, p, nil
}

// emit writes the document again with other whitespace and other escapes.
type jemit struct {
	r       *Rng
	b       []byte
	numKeys bool // object keys that are numbers are not text
	wsPct   int
	escPct  int
	nullPct int // how many of the zeros become null
	nulls   int
}

func (e *jemit) ws() {
	if e.r.P(e.wsPct) {
		for i := 1 + e.r.Intn(3); i > 0; i-- {
			e.b = append(e.b, " \t\n\r"[e.r.Intn(4)])
		}
		if e.r.P(1) {
			e.b = append(e.b, strings.Repeat(" ", e.r.Intn(5000))...)
		}
	}
}

func isNumText(s string) bool {
	if s == "" {
		return false
	}
	_, err := strconv.ParseFloat(s, 64)
	return err == nil
}

func (e *jemit) str(s string, key bool) {
	e.b = append(e.b, '"')
	plain := s == "NaN" || s == "Infinity" || s == "-Infinity" || key && e.numKeys && isNumText(s)
	for _, c := range s {
		switch {
		case plain:
			e.b = utf8.AppendRune(e.b, c)
		case c < 0x20 || c == '"' || c == '\\' || e.r.P(e.escPct):
			short := map[rune]byte{'"': '"', '\\': '\\', '/': '/', '\b': 'b', '\f': 'f', '\n': 'n', '\r': 'r', '\t': 't'}
			if k, ok := short[c]; ok && e.r.Bool() {
				e.b = append(e.b, '\\', k)
				continue
			}
			f := "\\u%04x"
			if e.r.Bool() {
				f = "\\u%04X"
			}
			if c >= 0x10000 {
				e.b = append(e.b, fmt.Sprintf(f+f, 0xd800+(c-0x10000)>>10, 0xdc00+(c-0x10000)&0x3ff)...)
			} else {
				e.b = append(e.b, fmt.Sprintf(f, c)...)
			}
		default:
			e.b = utf8.AppendRune(e.b, c)
		}
	}
	e.b = append(e.b, '"')
}

func (e *jemit) val(v *jv) {
	e.ws()
	if v.z && e.r.P(e.nullPct) {
		e.b = append(e.b, "null"...)
		e.nulls++
		return
	}
	switch v.k {
	case 'n':
		e.b = append(e.b, "null"...)
	case 't':
		e.b = append(e.b, "true"...)
	case 'f':
		e.b = append(e.b, "false"...)
	case '#':
		e.b = append(e.b, v.s...)
	case 's':
		e.str(v.s, false)
	case '[':
		e.b = append(e.b, '[')
		for i, x := range v.a {
			if i > 0 {
				e.b = append(e.b, ',')
			}
			e.val(x)
			e.ws()
		}
		if len(v.a) == 0 {
			e.ws()
		}
		e.b = append(e.b, ']')
	case '{':
		e.b = append(e.b, '{')
		for i, x := range v.a {
			if i > 0 {
				e.b = append(e.b, ',')
			}
			e.ws()
			e.str(v.key[i], true)
			e.ws()
			e.b = append(e.b, ':')
			e.val(x)
			e.ws()
		}
		if len(v.a) == 0 {
			e.ws()
		}
		e.b = append(e.b, '}')
	}
}

// jint interprets a JSON value as an integer of the given range.
func (p *jparse) jint(v *jv, lo, hi int64) (int64, error) {
	switch v.k {
	case 'n':
		p.amb = true
		return 0, nil
	case 's':
		p.amb = true // a quoted number: the library is lenient
		return 0, nil
	case '#':
		n, err := strconv.ParseInt(v.s, 10, 64)
		if err != nil {
			if f, e := strconv.ParseFloat(v.s, 64); e == nil && f == math.Trunc(f) && math.Abs(f) < 1<<53 {
				p.amb = true // an integer in another notation
				return int64(f), nil
			}
			return 0, errRef
		}
		if n < lo || n > hi {
			return 0, errRef
		}
		return n, nil
	}
	return 0, errRef
}

var jnames = map[string]thrift.TType{"tf": thrift.BOOL, "i8": thrift.BYTE, "i16": thrift.I16, "i32": thrift.I32, "i64": thrift.I64, "dbl": thrift.DOUBLE,
	"str": thrift.STRING, "rec": thrift.STRUCT, "map": thrift.MAP, "set": thrift.SET, "lst": thrift.LIST}

func (p *jparse) jtype(v *jv) (thrift.TType, error) {
	if v.k == 'n' {
		p.amb = true
		return 0, errRef
	}
	if v.k != 's' {
		return 0, errRef
	}
	switch v.s {
	case "v", "enm", "u16", "gen", "stp": // names the library knows but never writes
		p.amb = true
	}
	t, ok := jnames[v.s]
	if !ok {
		return 0, errRef
	}
	return t, nil
}

// interp interprets a document as a value of type t. w, when not nil, is the value that was written: it tells where a
// text is base64, and for the simple protocol the types.
func (p *jparse) interp(v *jv, t thrift.TType, w *V, simple bool) (*V, error) {
	o, e := p.interp1(v, t, w, simple)
	if e == nil && o != nil {
		switch t {
		case thrift.BOOL, thrift.BYTE, thrift.I16, thrift.I32, thrift.I64, thrift.DOUBLE, thrift.STRING, thrift.BINARY:
			v.z = o.I == 0 && o.D == 0 && o.S == ""
		}
	}
	return o, e
}

func (p *jparse) interp1(v *jv, t thrift.TType, w *V, simple bool) (*V, error) {
	o := &V{T: t}
	if v.k == 'n' {
		p.amb = true
		return o, nil
	}
	switch t {
	case thrift.BOOL:
		switch v.k {
		case 't':
			o.I = 1
		case 'f':
		default:
			return nil, errRef
		}
	case thrift.BYTE:
		n, e := p.jint(v, -128, 255)
		if e != nil {
			return nil, e
		}
		o.I = int64(byte(n))
	case thrift.I16, thrift.I32, thrift.I64:
		bits := map[thrift.TType]uint{thrift.I16: 16, thrift.I32: 32, thrift.I64: 64}[t]
		n, e := p.jint(v, -1<<(bits-1), 1<<(bits-1)-1)
		if e != nil {
			return nil, e
		}
		o.I = n
	case thrift.DOUBLE:
		var f float64
		switch {
		case v.k == 's' && v.s == "NaN":
			f = math.NaN()
		case v.k == 's' && v.s == "Infinity":
			f = math.Inf(1)
		case v.k == 's' && v.s == "-Infinity":
			f = math.Inf(-1)
		case v.k == 's':
			p.amb = true
		case v.k == '#':
			var e error
			if f, e = strconv.ParseFloat(v.s, 64); e != nil {
				return nil, errRef
			}
		default:
			return nil, errRef
		}
		o.D = math.Float64bits(f)
	case thrift.STRING, thrift.BINARY:
		if v.k != 's' {
			return nil, errRef
		}
		o.S = v.s
		if w != nil && w.T == thrift.BINARY {
			o.T = thrift.BINARY
			b, e := base64.StdEncoding.DecodeString(v.s)
			if e != nil {
				return nil, errRef
			}
			if base64.StdEncoding.EncodeToString(b) != v.s {
				p.amb = true // line breaks and spare bits, which decoders may ignore
			}
			o.S = string(b)
		}
	case thrift.STRUCT:
		if v.k != '{' {
			return nil, errRef
		}
		for i, k := range v.key {
			if simple {
				var h *V
				if w != nil {
					for _, f := range w.F {
						if f.Name == k {
							h = f.V
						}
					}
				}
				if h == nil {
					p.amb = true
					return nil, errRef
				}
				x, e := p.interp(v.a[i], h.T, h, true)
				if e != nil {
					return nil, e
				}
				o.F = append(o.F, Fld{Name: k, V: x})
				continue
			}
			id, err := strconv.ParseInt(k, 10, 16)
			if err != nil {
				if _, err := strconv.ParseFloat(k, 64); err == nil {
					p.amb = true
				}
				return nil, errRef
			}
			if k != strconv.FormatInt(id, 10) {
				p.amb = true
			}
			in := v.a[i]
			if in.k == 'n' {
				p.amb = true
			}
			if in.k != '{' || len(in.a) != 1 {
				return nil, errRef
			}
			ft, e := p.jtype(&jv{k: 's', s: in.key[0]})
			if e != nil {
				return nil, e
			}
			var h *V
			if w != nil && w.T == thrift.STRUCT && len(o.F) < len(w.F) {
				h = w.F[len(o.F)].V
			}
			x, e := p.interp(in.a[0], ft, h, false)
			if e != nil {
				return nil, e
			}
			o.F = append(o.F, Fld{ID: int16(id), V: x})
		}
	case thrift.MAP:
		if v.k != '[' || len(v.a) < 3 {
			return nil, errRef
		}
		var e error
		if simple {
			if o.KT, e = p.jcode(v.a[0]); e == nil {
				o.VT, e = p.jcode(v.a[1])
			}
		} else {
			if o.KT, e = p.jtype(v.a[0]); e == nil {
				o.VT, e = p.jtype(v.a[1])
			}
		}
		if e != nil {
			return nil, e
		}
		n, e := p.jint(v.a[2], 0, math.MaxInt32)
		if e != nil {
			return nil, e
		}
		if int64(len(v.a)-3) != 2*n {
			return nil, errRef
		}
		for i := 0; i < 2*int(n); i++ {
			t := o.KT
			if i%2 == 1 {
				t = o.VT
			}
			x, e := p.elem(v.a[3+i], t, w, i, simple)
			if e != nil {
				return nil, e
			}
			o.L = append(o.L, x)
		}
	case thrift.SET, thrift.LIST:
		if v.k != '[' || len(v.a) < 2 {
			return nil, errRef
		}
		var e error
		if o.VT, e = p.jcode(v.a[0]); e != nil {
			return nil, e
		}
		n, e := p.jint(v.a[1], 0, math.MaxInt32)
		if e != nil {
			return nil, e
		}
		if int64(len(v.a)-2) != n {
			return nil, errRef
		}
		for i := 0; i < int(n); i++ {
			x, e := p.elem(v.a[2+i], o.VT, w, i, simple)
			if e != nil {
				return nil, e
			}
			o.L = append(o.L, x)
		}
	default:
		return nil, errRef
	}
	return o, nil
}

func (p *jparse) elem(v *jv, t thrift.TType, w *V, i int, simple bool) (*V, error) {
	var h *V
	if w != nil && i < len(w.L) {
		h = w.L[i]
	}
	if simple {
		if h == nil {
			return nil, errRef
		}
		t = h.T
	}
	return p.interp(v, t, h, simple)
}

func (p *jparse) jcode(v *jv) (thrift.TType, error) {
	n, e := p.jint(v, -128, 255)
	if e != nil {
		return 0, e
	}
	switch t := thrift.TType(byte(n)); t {
	case thrift.BOOL, thrift.BYTE, thrift.I16, thrift.I32, thrift.I64, thrift.DOUBLE, thrift.STRING, thrift.STRUCT, thrift.MAP, thrift.SET, thrift.LIST:
		return t, nil
	}
	p.amb = true // whether an empty container of a strange type is an error is left open
	return 0, errRef
}

func (p *jparse) interpMsg(v *jv, w *Msg, simple bool) (*Msg, error) {
	a := v.a
	if v.k == 'n' {
		p.amb = true
	}
	if v.k != '[' {
		return nil, errRef
	}
	if !simple {
		if len(a) < 1 {
			return nil, errRef
		}
		n, e := p.jint(a[0], math.MinInt32, math.MaxInt32)
		if e != nil || n != 1 {
			return nil, errRef
		}
		a = a[1:]
	}
	if len(a) != 4 {
		return nil, errRef
	}
	if a[0].k == 'n' {
		p.amb = true
	} else if a[0].k != 's' {
		return nil, errRef
	}
	m := &Msg{Name: a[0].s}
	k, e := p.jint(a[1], -128, 255)
	if e != nil {
		return nil, e
	}
	if k < 1 || k > 4 {
		p.amb = true
	}
	m.Kind = thrift.TMessageType(byte(k))
	q, e := p.jint(a[2], math.MinInt32, math.MaxInt32)
	if e != nil {
		return nil, e
	}
	m.Seq = int32(q)
	var h *V
	if w != nil {
		h = w.Body
	}
	m.Body, e = p.interp(a[3], thrift.STRUCT, h, simple)
	return m, e
}
