package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"strings"
	"thrift"
)

func init() {
	props["C05"] = wireFormat
	props["C07"] = headerChecks
	props["C08"] = skipChecks
}

// refForms gives the byte strings the specification allows a canonical writer to produce for a message.
func refForms(p *Proto, m *Msg) [][]byte {
	switch p {
	case pCompact, pCompactFac:
		var out [][]byte
		for _, be := range []byte{1, 2} {
			for _, fe := range []byte{2, 0} {
				e := &compEnc{boolElem: be, falseElem: fe}
				e.msg(m)
				out = append(out, e.b)
			}
		}
		return out
	}
	e := &binEnc{strict: p != pBinaryLax}
	e.msg(m)
	return [][]byte{e.b}
}

func hasForm(forms [][]byte, b []byte) bool {
	for _, f := range forms {
		if bytes.Equal(f, b) {
			return true
		}
	}
	return false
}

func refAlt(p *Proto, r *Rng, m *Msg) []byte {
	switch p {
	case pCompact, pCompactFac:
		e := &compEnc{r: r}
		e.msg(m)
		return e.b
	case pBinary:
		e := &binEnc{strict: true}
		e.msg(m)
		return e.b
	}
	e := &binEnc{strict: r.Bool()}
	e.msg(m)
	return e.b
}

// writtenForm checks what one protocol writes and reads for one message.
func wireCase(t *T, p *Proto, m *Msg) {
	got, e := p.encode(m)
	if e != nil {
		t.Fail("%s: writing failed: %v", p.Name, e)
		return
	}
	forms := refForms(p, m)
	if !hasForm(forms, got) {
		n := firstDiff(string(forms[0]), string(got))
		t.Fail("%s: the bytes written differ from the specification at byte %d of %d/%d: wrote %x, specified %x", p.Name, n, len(got), len(forms[0]), clip(got, n), clip(forms[0], n))
		return
	}
	alt := refAlt(p, t.R, m)
	x := NewXT(alt)
	if t.R.Bool() {
		x.frag = fragRandom(NewRng(t.R.U64()))
	}
	back, e := p.readMsg(p.New(x), m, &readCtl{})
	if e != nil {
		t.Fail("%s: an encoding the specification allows is not accepted: %v; bytes %x", p.Name, e, clip(alt, x.pos))
		return
	}
	if d := diffMsg(m, back, p.Eq); d != "" {
		t.Fail("%s: an encoding the specification allows is read differently: %s; bytes %x", p.Name, d, clip(alt, 0))
		return
	}
	if x.pos != len(alt) {
		t.Fail("%s: %d of %d bytes consumed", p.Name, x.pos, len(alt))
	}
	t.Count("encodings_compared", 1)
	t.Count("alternative_encodings_read", 1)
	t.Seen(hashBytes(alt) ^ hashStr(9, p.Name))
}

func clip(b []byte, at int) []byte {
	if at > 40 {
		at -= 40
	} else {
		at = 0
	}
	b = b[at:]
	if len(b) > 120 {
		b = b[:120]
	}
	return b
}

var wireProtos = []*Proto{pBinary, pBinaryLax, pBinaryDef, pBinaryFac, pCompact, pCompactFac}

func wireFormat(r *Run) {
	sw := sweepScalars(r.thorough())
	r.Cases("sweep", len(sw), func(t *T) {
		v := sw[t.Idx]
		t.Desc(func() string { return v.String() })
		for i, w := range wraps(v) {
			m := &Msg{Name: "m", Kind: thrift.CALL, Seq: int32(t.Idx), Body: &V{T: thrift.STRUCT, F: []Fld{{"v", int16(1 + i), w}}}}
			for _, p := range []*Proto{pBinary, pCompact} {
				if !t.Failed() {
					wireCase(t, p, m)
				}
			}
		}
	})
	// every field id step, from every kind of predecessor
	ids := []int16{-32768, -32767, -1000, -16, -15, -1, 0, 1, 2, 14, 15, 16, 17, 31, 63, 64, 127, 128, 1000, 8191, 8192, 32751, 32752, 32753, 32766, 32767}
	r.Cases("field-ids", len(ids)*len(ids), func(t *T) {
		a, b := ids[t.Idx/len(ids)], ids[t.Idx%len(ids)]
		if a == b {
			return
		}
		t.Desc(func() string { return fmt.Sprintf("field %d then field %d", a, b) })
		for k := 0; k < 4; k++ {
			mk := func(k int) *V {
				if k == 0 {
					return &V{T: thrift.I32, I: int64(a)}
				}
				if k == 1 {
					return &V{T: thrift.BOOL, I: int64(b & 1)}
				}
				return &V{T: thrift.STRUCT, F: []Fld{{"q", 7, &V{T: thrift.BOOL}}, {"r", b, &V{T: thrift.BYTE, I: 3}}}}
			}
			body := &V{T: thrift.STRUCT, F: []Fld{{"a", a, mk(k)}, {"b", b, mk(k / 2)}, {"c", 5000, mk(1)}}}
			for _, p := range wireProtos {
				if !t.Failed() {
					wireCase(t, p, &Msg{Name: "ids", Kind: thrift.REPLY, Seq: 3, Body: body})
				}
			}
		}
	})
	sizes := []int{0, 1, 13, 14, 15, 16, 127, 128, 129, 300, 16383, 16384}
	r.Cases("sizes", len(sizes)*len(allTypes), func(t *T) {
		n, et := sizes[t.Idx/len(allTypes)], allTypes[t.Idx%len(allTypes)]
		if n > 300 && !isScalar(et) {
			return
		}
		g := newGen(t.R, GenOpt{Binary: true, MaxStr: 5, Depth: 2})
		t.Desc(func() string { return fmt.Sprintf("%d elements of %s", n, tname(et)) })
		l, s, mp := &V{T: thrift.LIST, VT: et}, &V{T: thrift.SET, VT: et}, &V{T: thrift.MAP, KT: et, VT: et}
		for i := 0; i < n; i++ {
			g.budget = 5
			x := g.value(et, 1)
			l.L, s.L, mp.L = append(l.L, x), append(s.L, x), append(mp.L, x, x)
		}
		for _, v := range []*V{l, s, mp} {
			for _, p := range []*Proto{pBinary, pBinaryLax, pCompact} {
				if !t.Failed() {
					wireCase(t, p, &Msg{Name: "sz", Kind: thrift.CALL, Seq: 1, Body: &V{T: thrift.STRUCT, F: []Fld{{"v", 1, v}, {"w", 2, &V{T: thrift.BOOL, I: 1}}}}})
				}
			}
		}
	})
	// long strings, and counts beyond 16 bits
	ls := append(longStrings()[:20:20], 131072, 1<<20-1, 1<<20, 1<<21, 2<<20+5)
	r.Cases("long", len(ls)*2, func(t *T) {
		n := ls[t.Idx/2]
		v := &V{T: thrift.STRING, S: strings.Repeat("s", n)}
		if t.Idx%2 == 1 {
			v = &V{T: thrift.BINARY, S: string(t.R.Bytes(n))}
		}
		t.Desc(func() string { return fmt.Sprintf("%s of %d bytes", tname(v.T), n) })
		for _, p := range []*Proto{pBinary, pBinaryLax, pCompact} {
			if !t.Failed() {
				wireCase(t, p, &Msg{Name: "ln", Kind: thrift.CALL, Seq: 1, Body: &V{T: thrift.STRUCT, F: []Fld{{"v", 1, v}, {"w", 2, &V{T: thrift.BOOL, I: 1}}}}})
			}
		}
	})
	ms := []int{32767, 32768, 65535, 65536, 140000}
	mt := []thrift.TType{thrift.BOOL, thrift.BYTE, thrift.I32, thrift.STRING}
	r.Cases("many", len(ms)*len(mt), func(t *T) {
		n, et := ms[t.Idx%len(ms)], mt[t.Idx/len(ms)]
		v := &V{T: []thrift.TType{thrift.LIST, thrift.SET, thrift.MAP}[t.R.Intn(3)], KT: et, VT: et}
		if v.T != thrift.MAP {
			v.KT = 0
		}
		for i := 0; i < n; i++ {
			x := &V{T: et, I: int64(i & 1), S: "t"}
			if et != thrift.STRING {
				x.S = ""
			} else {
				x.I = 0
			}
			v.L = append(v.L, x)
			if v.T == thrift.MAP {
				v.L = append(v.L, x)
			}
		}
		t.Desc(func() string { return fmt.Sprintf("%s of %d %s", tname(v.T), n, tname(et)) })
		for _, p := range []*Proto{pBinary, pCompact} {
			if !t.Failed() {
				wireCase(t, p, &Msg{Name: "mn", Kind: thrift.CALL, Seq: 1, Body: &V{T: thrift.STRUCT, F: []Fld{{"v", 1, v}, {"w", 2, &V{T: thrift.BOOL, I: 1}}}}})
			}
		}
	})
	r.Case("message kinds", 0, func(t *T) {
		for i, k := range []thrift.TMessageType{thrift.CALL, thrift.REPLY, thrift.EXCEPTION, thrift.ONEWAY} {
			n := byte(i + 1)
			for _, c := range []struct {
				p    *Proto
				want []byte
			}{
				{pBinary, []byte{0x80, 1, 0, n, 0, 0, 0, 1, 'm', 0, 0, 0, 9, 0}},
				{pCompact, []byte{0x82, n<<5 | 1, 9, 1, 'm', 0}},
			} {
				b, err := c.p.encode(&Msg{Name: "m", Kind: k, Seq: 9, Body: &V{T: thrift.STRUCT}})
				if err != nil || !bytes.Equal(b, c.want) {
					t.Fail("%s: a message of kind number %d (%v) is written %x (%v), not %x", c.p.Name, n, k, b, err, c.want)
				}
				_, g, _, e := c.p.New(NewXT(c.want)).ReadMessageBegin()
				if e != nil || g != k {
					t.Fail("%s: %x is read as a message of kind %v, not %v (%v)", c.p.Name, c.want, g, k, e)
				}
				t.Count("encodings_compared", 1)
			}
		}
	})
	r.Cases("headers", 400, func(t *T) {
		kinds := []thrift.TMessageType{thrift.CALL, thrift.REPLY, thrift.EXCEPTION, thrift.ONEWAY}
		g := newGen(t.R, GenOpt{})
		m := &Msg{Name: g.str(false), Kind: kinds[t.Idx%4], Seq: int32(g.i64()), Body: &V{T: thrift.STRUCT}}
		if t.R.P(20) {
			m.Name = strings.Repeat("n", []int{126, 127, 128, 255, 256, 16383, 16384}[t.R.Intn(7)])
		}
		t.Desc(func() string { return m.String() })
		for _, p := range wireProtos {
			if !t.Failed() {
				wireCase(t, p, m)
			}
		}
	})
	r.Cases("messages", r.N(6000, 200000), func(t *T) {
		g := newGen(t.R, GenOpt{Binary: true})
		m := g.msg()
		t.Desc(func() string { return m.String() })
		t.Sample("%v", m)
		p := wireProtos[t.R.Intn(len(wireProtos))]
		wireCase(t, p, m)
	})
}

// ---------------------------------------------------------------- C07

func randName(r *Rng) string {
	if r.P(10) {
		return ""
	}
	b := r.Bytes(1 + r.Intn(100))
	for i := range b {
		b[i] = 'a' + b[i]%26
	}
	return string(b)
}

func headerChecks(r *Run) {
	tail := func(b []byte) []byte { return append(b, 0) } // an empty struct
	// compact: every protocol id with every version and type byte
	r.Cases("compact-bytes", 256, func(t *T) {
		t.Desc(func() string { return fmt.Sprintf("first byte %#x", t.Idx) })
		for b2 := 0; b2 < 256; b2++ {
			in := tail([]byte{byte(t.Idx), byte(b2), 5, 1, 'a'})
			for _, p := range []*Proto{pCompact, pCompactFac} {
				name, kind, seq, e := p.New(NewXT(in)).ReadMessageBegin()
				ok := t.Idx == 0x82 && b2&0x1f == 1
				t.Count("headers", 1)
				if ok != (e == nil) {
					k := b2 >> 5
					if ok && (k == 0 || k > 4) {
						continue // whether a kind that does not exist is accepted is not specified
					}
					t.Fail("%s: header %x: accepted=%v, should be %v (error %v)", p.Name, in, e == nil, ok, e)
					return
				}
				if e == nil && (name != "a" || int(kind) != b2>>5 || seq != 5) {
					t.Fail("%s: header %x read as %q kind %d seq %d", p.Name, in, name, kind, seq)
					return
				}
				t.Seen(uint64(t.Idx)<<8 | uint64(b2))
			}
		}
	})
	// binary: every version word
	type bp struct {
		p      *Proto
		strict bool
	}
	bps := []bp{{pBinary, true}, {pBinaryLax, false}, {pBinaryDef, false}, {pBinaryFac, false}}
	for i := 0; i < 4; i++ {
		sr, sw := i&1 != 0, i&2 != 0
		bps = append(bps, bp{&Proto{Name: fmt.Sprintf("binary-factory(%v,%v)", sr, sw), New: func(t thrift.TTransport) thrift.TProtocol {
			return thrift.NewTBinaryProtocolFactory(sr, sw).GetProtocol(t)
		}}, sr})
	}
	r.Cases("binary-words", 1024, func(t *T) {
		t.Desc(func() string { return fmt.Sprintf("version words %#x00..", t.Idx) })
		for lo := 0; lo < 64; lo++ {
			hi := t.Idx<<6 | lo
			for _, b := range bps {
				if hi < 0x8000 && lo%16 != 0 {
					continue
				}
				in := []byte{byte(hi >> 8), byte(hi), 0, 2}
				in = append(in, 0, 0, 0, 1, 'a', 0, 0, 0, 9, 0)
				name, kind, seq, e := b.p.New(NewXT(in)).ReadMessageBegin()
				t.Count("headers", 1)
				if hi >= 0x8000 {
					ok := hi == 0x8001
					if ok != (e == nil) {
						t.Fail("%s: header %x: accepted=%v, should be %v (error %v)", b.p.Name, in, e == nil, ok, e)
						return
					}
					if ok && (name != "a" || kind != 2 || seq != 9) {
						t.Fail("%s: header %x read as %q kind %d seq %d", b.p.Name, in, name, kind, seq)
						return
					}
				} else if b.strict && e == nil {
					t.Fail("%s: unversioned header %x accepted by a strict reader", b.p.Name, in)
					return
				}
				t.Seen(uint64(hi)<<3 | 1)
			}
		}
	})
	// kinds: every one, in either header, by readers that accept both
	r.Cases("kinds", 256, func(t *T) {
		t.Desc(func() string { return fmt.Sprintf("kind %d", t.Idx) })
		for i := 0; i < 8; i++ {
			name, seq := randName(t.R), int32(t.R.U64()>>uint(t.R.Intn(60)))
			old := i%2 == 0
			var in []byte
			if old {
				in = append(binary.BigEndian.AppendUint32(nil, uint32(len(name))), name...)
				in = append(in, byte(t.Idx))
			} else {
				in = append([]byte{0x80, 1, 0, byte(t.Idx)}, 0, 0, 0, byte(len(name)))
				in = append(in, name...)
			}
			in = append(binary.BigEndian.AppendUint32(in, uint32(seq)), 0)
			for _, b := range bps {
				if old && b.strict {
					continue
				}
				x := NewXT(in)
				n, k, q, e := b.p.New(x).ReadMessageBegin()
				t.Count("kinds", 1)
				if e != nil && t.Idx >= 1 && t.Idx <= 4 {
					t.Fail("%s: header %x is not accepted: %v", b.p.Name, in, e)
					return
				}
				if e == nil && (n != name || int(k) != t.Idx || q != seq) {
					t.Fail("%s: header %x read as %q kind %d seq %d", b.p.Name, in, n, k, q)
					return
				}
			}
			t.Seen(hashBytes(in))
		}
	})
	// strict options: what is written, and what is read, by every way to make a binary protocol
	r.Cases("strict", 400, func(t *T) {
		g := newGen(t.R, GenOpt{Binary: true, Budget: 20})
		m := g.msg()
		sr, sw := t.Idx&1 != 0, t.Idx&2 != 0
		var mk func(tr thrift.TTransport) thrift.TProtocol
		how := ""
		switch t.Idx / 4 % 4 {
		case 0:
			how = "NewTBinaryProtocol"
			mk = func(tr thrift.TTransport) thrift.TProtocol { return thrift.NewTBinaryProtocol(tr, sr, sw) }
		case 1:
			how = "NewTBinaryProtocolFactory"
			f := thrift.NewTBinaryProtocolFactory(sr, sw)
			mk = func(tr thrift.TTransport) thrift.TProtocol { return f.GetProtocol(tr) }
		case 2:
			how = "NewTBinaryProtocolTransport"
			sr, sw = false, true
			mk = func(tr thrift.TTransport) thrift.TProtocol { return thrift.NewTBinaryProtocolTransport(tr) }
		case 3:
			how = "NewTBinaryProtocolFactoryDefault"
			sr, sw = false, true
			f := thrift.NewTBinaryProtocolFactoryDefault()
			mk = func(tr thrift.TTransport) thrift.TProtocol { return f.GetProtocol(tr) }
		}
		t.Desc(func() string { return fmt.Sprintf("%s strictRead=%v strictWrite=%v %v", how, sr, sw, m) })
		p := &Proto{Name: how, New: mk}
		x := NewXT(nil)
		if e := writeMsg(mk(x), m); e != nil {
			t.Fail("write: %v", e)
			return
		}
		e := &binEnc{strict: sw}
		e.msg(m)
		if !bytes.Equal(e.b, x.Sink.buf) {
			t.Fail("strictWrite=%v: wrote %x, specified %x", sw, clip(x.Sink.buf, 0), clip(e.b, 0))
			return
		}
		for _, strict := range []bool{true, false} {
			e := &binEnc{strict: strict}
			e.msg(m)
			got, err := p.readMsg(mk(NewXT(e.b)), m, &readCtl{})
			t.Count("headers", 1)
			if want := strict || !sr; want != (err == nil) {
				t.Fail("strictRead=%v: versioned=%v header accepted=%v: %v", sr, strict, err == nil, err)
				return
			}
			if err == nil {
				if d := diffMsg(m, got, p.Eq); d != "" {
					t.Fail("%s", d)
					return
				}
			}
		}
		t.Seen(uint64(t.Idx))
	})
	// JSON version numbers and forms of header
	vers := []string{"1", "0", "2", "-1", "3", "10", "11", "257", "65537", "4294967297", "1.5", "\"a\"", "true", "[]", "{}", "", "1e1", "18446744073709551617", "-4294967295"}
	r.Cases("json-versions", len(vers), func(t *T) {
		in := "[" + vers[t.Idx] + ",\"a\",1,7,{}]"
		t.Desc(func() string { return in })
		for _, p := range []*Proto{pJSON, pJSONFac} {
			m, e := p.readMsg(p.New(NewXT([]byte(in))), nil, &readCtl{})
			t.Count("headers", 1)
			if (vers[t.Idx] == "1") != (e == nil) {
				t.Fail("%s: %s: accepted=%v (error %v)", p.Name, in, e == nil, e)
				return
			}
			if e == nil && (m.Name != "a" || m.Kind != 1 || m.Seq != 7) {
				t.Fail("%s: %s read as %v", p.Name, in, m)
				return
			}
		}
		t.Seen(uint64(t.Idx))
	})
	r.Cases("json-ints", 3000, func(t *T) {
		v := t.Idx - 1500
		in := fmt.Sprintf("[%d,\"a\",1,7,{}]", v)
		t.Desc(func() string { return in })
		_, e := pJSON.readMsg(pJSON.New(NewXT([]byte(in))), nil, &readCtl{})
		t.Count("headers", 1)
		if (v == 1) != (e == nil) {
			t.Fail("%s: accepted=%v (error %v)", in, e == nil, e)
		}
		t.Seen(uint64(t.Idx))
	})
	// a message of one protocol is refused by the others
	r.Cases("foreign", r.N(500, 20000), func(t *T) {
		ps := []*Proto{pBinary, pCompact, pJSON}
		a := ps[t.Idx%3]
		b := ps[(t.Idx/3%2+1+t.Idx)%3]
		g := newGen(t.R, GenOpt{UTF8: true, Budget: 20})
		m := g.msg()
		t.Desc(func() string { return fmt.Sprintf("%s message read as %s: %v", a.Name, b.Name, m) })
		enc, e := a.encode(m)
		if e != nil {
			t.Fail("encode: %v", e)
			return
		}
		_, _, _, err := b.New(NewXT(enc)).ReadMessageBegin()
		t.Count("headers", 1)
		if a != b && err == nil {
			t.Fail("the %s reader accepted the header of a %s message", b.Name, a.Name)
		}
		t.Seen(uint64(t.Idx % 6))
	})
}

// ---------------------------------------------------------------- C08

// skipRead reads like readV but skips some of the values; what it skips is nil in the result.
func skipRead(p thrift.TProtocol, t thrift.TType, hint *V, r *Rng, pct int, n *int) (*V, error) {
	if r.P(pct) {
		*n++
		if e := p.Skip(t); e != nil {
			return nil, fmt.Errorf("skip of %s: %v", tname(t), e)
		}
		return nil, nil
	}
	if isScalar(t) {
		return readV(p, t, hint, &readCtl{})
	}
	v := &V{T: t}
	switch t {
	case thrift.STRUCT:
		if _, e := p.ReadStructBegin(); e != nil {
			return nil, e
		}
		for i := 0; ; i++ {
			_, ft, id, e := p.ReadFieldBegin()
			if e != nil {
				return nil, e
			}
			if ft == thrift.STOP {
				break
			}
			var h *V
			if hint != nil && i < len(hint.F) {
				h = hint.F[i].V
			}
			x, err := skipRead(p, ft, h, r, pct, n)
			if err != nil {
				return nil, err
			}
			v.F = append(v.F, Fld{ID: id, V: x})
			if e := p.ReadFieldEnd(); e != nil {
				return nil, e
			}
		}
		return v, nilErr(p.ReadStructEnd())
	case thrift.MAP:
		kt, vt, sz, e := p.ReadMapBegin()
		if e != nil {
			return nil, e
		}
		v.KT, v.VT = kt, vt
		for i := 0; i < 2*sz; i++ {
			et := kt
			if i&1 == 1 {
				et = vt
			}
			var h *V
			if hint != nil && i < len(hint.L) {
				h = hint.L[i]
			}
			x, err := skipRead(p, et, h, r, pct, n)
			if err != nil {
				return nil, err
			}
			v.L = append(v.L, x)
		}
		return v, nilErr(p.ReadMapEnd())
	}
	var et thrift.TType
	var sz int
	var e thrift.TProtocolException
	if t == thrift.SET {
		et, sz, e = p.ReadSetBegin()
	} else {
		et, sz, e = p.ReadListBegin()
	}
	if e != nil {
		return nil, e
	}
	v.VT = et
	for i := 0; i < sz; i++ {
		var h *V
		if hint != nil && i < len(hint.L) {
			h = hint.L[i]
		}
		x, err := skipRead(p, et, h, r, pct, n)
		if err != nil {
			return nil, err
		}
		v.L = append(v.L, x)
	}
	if t == thrift.SET {
		e = p.ReadSetEnd()
	} else {
		e = p.ReadListEnd()
	}
	return v, nilErr(e)
}

// diffSkip compares what was not skipped.
func diffSkip(path string, w, g *V, o EqOpt) string {
	if g == nil {
		return ""
	}
	if isScalar(w.T) {
		return diffAt(path, w, g, o)
	}
	if wireT(w.T) != wireT(g.T) || len(w.F) != len(g.F) || len(w.L) != len(g.L) {
		return fmt.Sprintf("%s: want %v, got %v", path, w, g)
	}
	for i := range w.F {
		if w.F[i].ID != g.F[i].ID {
			return fmt.Sprintf("%s: field %d: want id %d, got %d", path, i, w.F[i].ID, g.F[i].ID)
		}
		if d := diffSkip(fmt.Sprintf("%s.%d", path, w.F[i].ID), w.F[i].V, g.F[i].V, o); d != "" {
			return d
		}
	}
	for i := range w.L {
		if d := diffSkip(fmt.Sprintf("%s[%d]", path, i), w.L[i], g.L[i], o); d != "" {
			return d
		}
	}
	return ""
}

func nest(kind int, d int, leaf *V) *V {
	v := leaf
	for i := 0; i < d; i++ {
		k := kind
		if kind == 4 {
			k = i % 4
		}
		switch k {
		case 0:
			v = &V{T: thrift.STRUCT, F: []Fld{{"a", 1, v}}}
		case 1:
			v = &V{T: thrift.LIST, VT: v.T, L: []*V{v}}
		case 2:
			v = &V{T: thrift.SET, VT: v.T, L: []*V{v}}
		case 3:
			v = &V{T: thrift.MAP, KT: thrift.BYTE, VT: v.T, L: []*V{{T: thrift.BYTE, I: 1}, v}}
		case 5:
			v = &V{T: thrift.MAP, KT: v.T, VT: thrift.BYTE, L: []*V{v, {T: thrift.BYTE, I: 1}}}
		}
	}
	return v
}

func skipChecks(r *Run) {
	after := &Msg{Name: "after", Kind: thrift.CALL, Seq: 99, Body: &V{T: thrift.STRUCT, F: []Fld{{"b", 1, &V{T: thrift.BOOL, I: 1}}, {"s", 2, &V{T: thrift.STRING, S: "tail"}}, {"c", 20, &V{T: thrift.BOOL}}}}}
	// one value skipped at the top level, then a message
	sw := sweepScalars(false)
	r.Cases("sweep", len(sw), func(t *T) {
		t.Desc(func() string { return sw[t.Idx].String() })
		for i, v := range wraps(sw[t.Idx]) {
			for _, p := range append(selfProtos, pSimple) {
				if p.JSON && isScalar(v.T) && v.T != thrift.STRING && v.T != thrift.BINARY {
					continue // a bare number does not end without a delimiter
				}
				if p.Schema && v.T == thrift.STRUCT || p.Schema && len(v.L) > 0 && !isScalar(v.VT) {
					continue
				}
				x := NewXT(nil)
				w := p.New(x)
				if e := writeV(w, v); e != nil {
					t.Fail("write: %v", e)
					return
				}
				end := len(x.Sink.buf)
				if e := writeMsg(w, after); e != nil {
					t.Fail("write: %v", e)
					return
				}
				y := NewXT(x.Sink.buf)
				rd := p.New(y)
				if e := rd.Skip(wireT(v.T)); e != nil {
					t.Fail("%s: skip of %v: %v", p.Name, v, e)
					return
				}
				if !p.JSON && y.pos != end {
					t.Fail("%s: skip of %v consumed %d of %d bytes", p.Name, v, y.pos, end)
					return
				}
				got, e := p.readMsg(rd, after, &readCtl{})
				if e != nil {
					t.Fail("%s: after skipping %v: %v", p.Name, v, e)
					return
				}
				if d := diffMsg(after, got, p.Eq); d != "" {
					t.Fail("%s: after skipping %v: %s", p.Name, v, d)
					return
				}
				t.Count("skips", 1)
				t.Seen(uint64(t.Idx*10 + i))
			}
		}
	})
	// random values skipped anywhere inside random messages
	r.Cases("random", r.N(8000, 200000), func(t *T) {
		p := selfProtos[t.Idx%3]
		g := newGen(t.R, p.genOpt())
		var ms []*Msg
		for i := 0; i < 3; i++ {
			g.budget = 40
			ms = append(ms, g.msg())
		}
		t.Desc(func() string { return p.Name + ": " + msgsString(ms) })
		t.Sample("%s, skipping at random: %s", p.Name, msgsString(ms))
		b, e := p.encode(ms...)
		if e != nil {
			t.Fail("encode: %v", e)
			return
		}
		x := NewXT(b)
		x.frag = fragRandom(NewRng(t.R.U64()))
		x.block = true
		rd := p.New(x)
		pct := []int{5, 20, 50, 100}[t.R.Intn(4)]
		n := 0
		for i, m := range ms {
			name, kind, seq, e := rd.ReadMessageBegin()
			if e != nil || name != m.Name || kind != m.Kind || seq != m.Seq {
				t.Fail("%s: header of message %d: %q %d %d %v", p.Name, i, name, kind, seq, e)
				return
			}
			got, err := skipRead(rd, thrift.STRUCT, m.Body, t.R, pct, &n)
			if err != nil {
				t.Fail("%s: message %d: %v", p.Name, i, err)
				return
			}
			if d := diffSkip("", m.Body, got, p.Eq); d != "" {
				t.Fail("%s: message %d: %s", p.Name, i, d)
				return
			}
			if e := rd.ReadMessageEnd(); e != nil {
				t.Fail("%s: end of message %d: %v", p.Name, i, e)
				return
			}
		}
		t.Count("skips", n)
		t.Seen(shapeHash(ms[0].Body) ^ uint64(n))
	})
	// every truncation of a value is an error to skip
	r.Cases("truncated", r.N(400, 8000), func(t *T) {
		p := selfProtos[t.Idx%3]
		g := newGen(t.R, GenOpt{UTF8: p.UTF8, Binary: true, Budget: 12, MaxStr: 12})
		v := g.strct(3)
		if t.R.Bool() {
			v = g.value([]thrift.TType{thrift.MAP, thrift.SET, thrift.LIST, thrift.STRING}[t.R.Intn(4)], 3)
		}
		t.Desc(func() string { return p.Name + ": " + v.String() })
		b, e := p.encodeV(v)
		if e != nil {
			t.Fail("encode: %v", e)
			return
		}
		for n := 0; n < len(b); n++ {
			x := NewXT(b[:n])
			x.eofWith = n&1 == 1
			if e := p.New(x).Skip(v.T); e == nil {
				t.Fail("%s: skipping a %s of which only %d of %d bytes arrived succeeds: %x", p.Name, tname(v.T), n, len(b), clip(b[:n], 0))
				return
			}
			t.Count("truncated_skips", 1)
		}
		t.Seen(hashBytes(b))
	})
	// damaged values
	r.Cases("damaged", r.N(2500, 50000), func(t *T) {
		p := []*Proto{pBinary, pCompact, pJSON}[t.Idx%3]
		g := newGen(t.R, p.genOpt())
		g.budget = 3 + t.R.Intn(30)
		v := g.strct(3)
		enc, _ := p.encodeV(v)
		var b []byte
		t.Desc(func() string { return fmt.Sprintf("%s: %x (%q)", p.Name, b, b) })
		for k := 0; k < 12 && !t.Failed(); k++ {
			b = mutate(t.R, enc, nil)
			x := NewXT(b)
			e := p.New(x).Skip(thrift.STRUCT)
			t.Count("damaged_skips", 1)
			if e != nil {
				continue
			}
			if p.JSON {
				doc, jp, err := parseJSON(b)
				if err == nil {
					_, err = jp.interp(doc, thrift.STRUCT, nil, false)
				}
				if err != nil && !jp.amb && !lenientJSON(b) {
					t.Fail("%s: skipping a malformed struct succeeds", p.Name)
				}
			} else if _, used, amb, err := refVal(p, thrift.STRUCT, b); !amb {
				if err != nil {
					t.Fail("%s: skipping a malformed struct succeeds", p.Name)
				} else if used != x.pos {
					t.Fail("%s: the struct takes %d bytes, skipping it consumed %d", p.Name, used, x.pos)
				}
			}
			t.Seen(hashBytes(b))
		}
	})
	// unknown types, at every position
	known := map[thrift.TType]bool{}
	for _, k := range allTypes {
		known[k] = true
	}
	r.Cases("unknown", 256, func(t *T) {
		k := thrift.TType(t.Idx)
		t.Desc(func() string { return fmt.Sprintf("type %d", t.Idx) })
		if known[k] || k == thrift.STOP || k == thrift.VOID || k == thrift.UTF8 || k == thrift.UTF16 || k == thrift.GENERIC {
			return
		}
		zeros := make([]byte, 40)
		if e := pBinary.New(NewXT(zeros)).Skip(k); e == nil {
			t.Fail("binary: skipping a value of type %d succeeds", t.Idx)
			return
		}
		for i, in := range [][]byte{
			append([]byte{byte(k), 0, 1}, zeros...),                 // field
			append([]byte{12, 0, 1, byte(k), 0, 1}, zeros...),       // field of a field
			append([]byte{15, 0, 1, byte(k), 0, 0, 0, 1}, zeros...), // list element
			append([]byte{14, 0, 1, byte(k), 0, 0, 0, 2}, zeros...), // set element
			append([]byte{13, 0, 1, byte(k), 3, 0, 0, 0, 1}, zeros...),
			append([]byte{13, 0, 1, 3, byte(k), 0, 0, 0, 1}, zeros...),
		} {
			if e := pBinary.New(NewXT(in)).Skip(thrift.STRUCT); e == nil {
				t.Fail("binary: skipping a struct with a value of type %d (form %d) succeeds", t.Idx, i)
				return
			}
			t.Count("unknown_type_skips", 1)
		}
		t.Seen(uint64(t.Idx))
	})
	r.Cases("unknown-compact", 3*4, func(t *T) {
		c := byte(13 + t.Idx%3)
		t.Desc(func() string { return fmt.Sprintf("compact type %d", c) })
		zeros := make([]byte, 40)
		in := [][]byte{append([]byte{0x10 | c}, zeros...), append([]byte{0x19, 0x10 | c}, zeros...), append([]byte{0x1b, 1, c<<4 | 3}, zeros...), append([]byte{0x1b, 1, 0x30 | c}, zeros...)}[t.Idx/3]
		if e := pCompact.New(NewXT(in)).Skip(thrift.STRUCT); e == nil {
			t.Fail("compact: skipping %x succeeds", in[:6])
		}
		t.Seen(uint64(t.Idx))
	})
	// depth: exactly the depth given is allowed
	leafs := []*V{{T: thrift.I32, I: 5}, {T: thrift.STRUCT}, {T: thrift.LIST, VT: thrift.I32}, {T: thrift.STRING, S: "x"}, {T: thrift.MAP, KT: thrift.I32, VT: thrift.I32}}
	r.Cases("depth", 6*len(leafs)*12, func(t *T) {
		kind := t.Idx % 6
		leaf := leafs[t.Idx/6%len(leafs)]
		d := t.Idx / 6 / len(leafs)
		if d == 0 && isScalar(leaf.T) {
			d = 1
		}
		v := nest(kind, d, leaf)
		t.Desc(func() string { return v.String() })
		for _, p := range selfProtos {
			b, e := p.encodeV(&V{T: thrift.LIST, VT: v.T, L: []*V{v}})
			if e != nil {
				t.Fail("encode: %v", e)
				return
			}
			need := v.depth() + 1
			for lim := need - 2; lim <= need+2; lim++ {
				x := NewXT(b)
				e := thrift.Skip(p.New(x), thrift.LIST, lim)
				if lim >= need && e != nil {
					t.Fail("%s: a value of depth %d is not skipped with depth limit %d: %v", p.Name, need, lim, e)
					return
				}
				if lim < need && e == nil {
					t.Fail("%s: a value of depth %d is skipped with depth limit %d", p.Name, need, lim)
					return
				}
				t.Count("depth_checks", 1)
			}
		}
		t.Seen(uint64(t.Idx))
	})
	r.Cases("set-max-depth", 30, func(t *T) {
		old := thrift.MaxSkipDepth
		defer thrift.SetMaxSkipDepth(old)
		lim := 1 + t.Idx
		thrift.SetMaxSkipDepth(lim)
		t.Desc(func() string { return fmt.Sprintf("SetMaxSkipDepth(%d)", lim) })
		for kind := 0; kind < 6; kind++ {
			for d := 0; d < lim+4; d++ {
				v := nest(kind, d, &V{T: thrift.LIST, VT: thrift.I32})
				for _, p := range selfProtos {
					b, _ := p.encodeV(v)
					e := p.New(NewXT(b)).Skip(v.T)
					if (e == nil) != (d+1 <= lim) {
						t.Fail("%s: nesting %d with maximum depth %d: error %v", p.Name, d+1, lim, e)
						return
					}
					t.Count("depth_checks", 1)
				}
			}
		}
		t.Seen(uint64(t.Idx))
	})
	// input nested so deep that recursing into it would exhaust the stack
	r.Cases("bottomless", 8, func(t *T) {
		unit := [][]byte{{12, 0, 1}, {15, 0, 0, 0, 1}, {14, 0, 0, 0, 1}, {13, 3, 0, 0, 0, 1, 1}, {0x1c}, {0x19}, {0x1a}, {1, 0x3b, 7}}[t.Idx]
		typ := []thrift.TType{thrift.STRUCT, thrift.LIST, thrift.SET, thrift.MAP, thrift.STRUCT, thrift.LIST, thrift.SET, thrift.MAP}[t.Idx]
		p := pBinary
		if t.Idx >= 4 {
			p = pCompact
		}
		if t.Idx == 3 {
			unit = []byte{3, 13, 0, 0, 0, 1, 1} // map<byte,map>
		}
		in := bytes.Repeat(unit, 6<<20)
		if p == pBinary && typ != thrift.MAP && typ != thrift.STRUCT {
			in = in[1:]
			in = append([]byte{unit[0]}, in...)
		}
		t.Desc(func() string { return fmt.Sprintf("%s: %x repeated", p.Name, unit) })
		if e := p.New(NewXT(in)).Skip(typ); e == nil {
			t.Fail("%s: skipping endless nesting succeeds", p.Name)
		}
		t.Count("bottomless", 1)
		t.Seen(uint64(t.Idx))
	})
	r.Cases("bottomless-json", 3, func(t *T) {
		unit := []string{`{"1":{"rec":`, `[15,1,`, `["i8","map",1,1,`}[t.Idx]
		in := strings.Repeat(unit, 1<<20)
		t.Desc(func() string { return unit + " repeated" })
		if e := pJSON.New(NewXT([]byte(in))).Skip([]thrift.TType{thrift.STRUCT, thrift.LIST, thrift.MAP}[t.Idx]); e == nil {
			t.Fail("json: skipping endless nesting succeeds")
		}
		t.Count("bottomless", 1)
		t.Seen(uint64(t.Idx))
	})
	_ = math.MaxInt32
}
