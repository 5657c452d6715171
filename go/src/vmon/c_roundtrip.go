package main

import (
	"bytes"
	"fmt"
	"math"
	"strings"
	"thrift"
)

func init() {
	props["C01"] = func(r *Run) { roundTrip(r, []*Proto{pBinary, pBinaryLax, pBinaryDef, pBinaryFac}) }
	props["C02"] = func(r *Run) { roundTrip(r, []*Proto{pCompact, pCompactFac}) }
	props["C03"] = func(r *Run) { roundTrip(r, []*Proto{pJSON, pJSONFac}) }
	props["C04"] = func(r *Run) { roundTrip(r, []*Proto{pSimple, pSimpleFac}) }
}

// lane is a way of getting bytes from writer to reader. It returns the transport to write to and a function that,
// after writing, gives the transport to read from.
type lane struct {
	name string
	open func(r *Rng) (thrift.TTransport, *XT, func() thrift.TTransport)
}

var lanes = []lane{
	{"direct", func(r *Rng) (thrift.TTransport, *XT, func() thrift.TTransport) {
		x := NewXT(nil)
		return x, x, func() thrift.TTransport { x.Src.data = x.Sink.buf; return x }
	}},
	{"fragmented", func(r *Rng) (thrift.TTransport, *XT, func() thrift.TTransport) {
		x := NewXT(nil)
		x.frag = fragRandom(NewRng(r.U64()))
		x.eofWith = r.Bool()
		return x, x, func() thrift.TTransport { x.Src.data = x.Sink.buf; return x }
	}},
	{"framed", func(r *Rng) (thrift.TTransport, *XT, func() thrift.TTransport) {
		x := NewXT(nil)
		if r.Bool() {
			x.frag = fragRandom(NewRng(r.U64()))
		}
		w := thrift.NewTFramedTransport(x)
		return w, x, func() thrift.TTransport { x.Src.data = x.Sink.buf; return thrift.NewTFramedTransport(x) }
	}},
	{"memory", func(r *Rng) (thrift.TTransport, *XT, func() thrift.TTransport) {
		m := thrift.NewTMemoryBuffer()
		return m, nil, func() thrift.TTransport { return m }
	}},
	{"iostream", func(r *Rng) (thrift.TTransport, *XT, func() thrift.TTransport) {
		b := new(bytes.Buffer)
		w := thrift.NewTIOStreamTransportW(b)
		return w, nil, func() thrift.TTransport { return thrift.NewTIOStreamTransportR(b) }
	}},
	{"iostream-buffered", func(r *Rng) (thrift.TTransport, *XT, func() thrift.TTransport) {
		b := new(bytes.Buffer)
		tf := thrift.NewTIOStreamTransportFactory(b, b, true)
		w := tf.GetTransport(nil)
		return w, nil, func() thrift.TTransport { return w }
	}},
}

func msgsString(ms []*Msg) string {
	var s []string
	for _, m := range ms {
		s = append(s, m.String())
	}
	return strings.Join(s, " ; ")
}

// exchange writes the messages through one protocol instance and reads them back through another (or the same).
func exchange(t *T, p *Proto, ms []*Msg, ln lane, same bool) {
	wt, x, rd := ln.open(t.R)
	wp := p.New(wt)
	var ends []int
	for i, m := range ms {
		if e := writeMsg(wp, m); e != nil {
			t.Fail("%s/%s: writing message %d failed: %v", p.Name, ln.name, i, e)
			return
		}
		if x != nil {
			ends = append(ends, len(x.Sink.buf))
		}
	}
	rt := rd()
	rp := wp
	if !same || rt != wt {
		rp = p.New(rt)
	}
	c := &readCtl{hold: true}
	for i, m := range ms {
		got, e := p.readMsg(rp, m, c)
		if e != nil {
			t.Fail("%s/%s: reading message %d of %d failed: %v", p.Name, ln.name, i, len(ms), e)
			return
		}
		if d := diffMsg(m, got, p.Eq); d != "" {
			t.Fail("%s/%s: message %d of %d differs: %s", p.Name, ln.name, i, len(ms), d)
			return
		}
		if x != nil && !p.JSON && x.Src.pos != ends[i] {
			t.Fail("%s/%s: message %d ends at byte %d, the reader stopped at byte %d", p.Name, ln.name, i, ends[i], x.Src.pos)
			return
		}
		t.Count("messages", 1)
		t.Count("values_compared", m.Body.count())
		t.Seen(shapeHash(m.Body) ^ hashStr(3, p.Name))
	}
	if d := c.changed(); d != "" {
		t.Fail("%s/%s: %s", p.Name, ln.name, d)
		return
	}
	t.Count("binaries_kept", len(c.kept))
	if _, _, _, e := rp.ReadMessageBegin(); e == nil {
		t.Fail("%s/%s: a further message was read after the last one", p.Name, ln.name)
	}
}

func roundTripValue(t *T, p *Proto, v *V) {
	x := NewXT(nil)
	wp := p.New(x)
	if e := writeV(wp, v); e != nil {
		t.Fail("%s: writing %v failed: %v", p.Name, v, e)
		return
	}
	if e := wp.Flush(); e != nil {
		t.Fail("%s: flush failed: %v", p.Name, e)
		return
	}
	y := NewXT(x.Sink.buf)
	rp := p.New(y)
	c := &readCtl{hold: true}
	got, e := p.readV(rp, v, c)
	if e != nil {
		t.Fail("%s: reading back %v failed: %v (bytes %.200q)", p.Name, v, e, x.Sink.buf)
		return
	}
	if d := diff(v, got, p.Eq); d != "" {
		t.Fail("%s: value differs: %s (bytes %.200q)", p.Name, d, x.Sink.buf)
		return
	}
	if d := c.changed(); d != "" {
		t.Fail("%s: %v: %s", p.Name, v, d)
		return
	}
	if !p.JSON && y.Src.pos != len(y.Src.data) {
		t.Fail("%s: %v takes %d bytes, the reader consumed %d", p.Name, v, len(y.Src.data), y.Src.pos)
	}
	t.Count("values_compared", v.count())
}

// wrap puts a value where its encoding may differ: alone, in a field, in a list, as map key and value, before a sibling.
func wraps(v *V) []*V {
	i32 := &V{T: thrift.I32, I: 77}
	s := &V{T: thrift.STRING, S: "after"}
	return []*V{
		v,
		{T: thrift.STRUCT, F: []Fld{{"a", 1, v}}},
		{T: thrift.STRUCT, F: []Fld{{"a", 1, v}, {"b", 2, i32}, {"c", 30, s}}},
		{T: thrift.STRUCT, F: []Fld{{"z", -3, i32}, {"a", 1000, v}, {"b", 5, s}}},
		{T: thrift.LIST, VT: v.T, L: []*V{v, v, v}},
		{T: thrift.SET, VT: v.T, L: []*V{v}},
		{T: thrift.MAP, KT: v.T, VT: v.T, L: []*V{v, v}},
		{T: thrift.MAP, KT: thrift.I32, VT: v.T, L: []*V{i32, v, i32, v}},
		{T: thrift.STRUCT, F: []Fld{{"l", 1, &V{T: thrift.LIST, VT: v.T, L: []*V{v, v}}}, {"s", 2, &V{T: thrift.STRUCT, F: []Fld{{"x", 9, v}}}}, {"y", 3, v}}},
	}
}

func sweepScalars(full bool) []*V {
	var out []*V
	out = append(out, &V{T: thrift.BOOL, I: 0}, &V{T: thrift.BOOL, I: 1})
	for i := 0; i < 256; i++ {
		out = append(out, &V{T: thrift.BYTE, I: int64(i)})
	}
	seen := map[int64]bool{}
	add := func(x int64) {
		if seen[x] {
			return
		}
		seen[x] = true
		if x == int64(int16(x)) {
			out = append(out, &V{T: thrift.I16, I: x})
		}
		if x == int64(int32(x)) {
			out = append(out, &V{T: thrift.I32, I: x})
		}
		out = append(out, &V{T: thrift.I64, I: x})
	}
	for k := uint(0); k < 64; k++ {
		for d := int64(-2); d <= 2; d++ {
			add(int64(1)<<k + d)
			add(-(int64(1) << k) + d)
		}
	}
	p := int64(1)
	for k := 0; k < 18; k++ {
		p *= 10
		for d := int64(-1); d <= 1; d++ {
			add(p + d)
			add(-p + d)
		}
	}
	step := int64(251)
	if full {
		step = 1
	}
	for x := int64(-32768); x <= 32767; x += step {
		out = append(out, &V{T: thrift.I16, I: x})
	}
	for _, f := range f64s {
		out = append(out, &V{T: thrift.DOUBLE, D: math.Float64bits(f)})
	}
	for e := -1074; e <= 1023; e++ {
		if !full && e%7 != 0 && e > -1070 && e < 1020 {
			continue
		}
		f := math.Ldexp(1, e)
		out = append(out, &V{T: thrift.DOUBLE, D: math.Float64bits(f)}, &V{T: thrift.DOUBLE, D: math.Float64bits(-f) + 1})
	}
	for i := 0; i < 17; i++ {
		out = append(out, &V{T: thrift.DOUBLE, D: math.Float64bits(math.Pow(10, float64(i*2-16)) * 1.2345678901234567)})
	}
	out = append(out, &V{T: thrift.DOUBLE, D: math.Float64bits(math.NaN())}, &V{T: thrift.DOUBLE, D: 0xfff8000000000000}, &V{T: thrift.DOUBLE, D: 0x7ff8000000000123})
	for _, s := range nastyStrs {
		out = append(out, &V{T: thrift.STRING, S: s}, &V{T: thrift.BINARY, S: s})
	}
	for c := rune(0); c < 0x300; c++ {
		out = append(out, &V{T: thrift.STRING, S: "x" + string(c) + "y"})
	}
	for _, c := range nastyRunes {
		out = append(out, &V{T: thrift.STRING, S: string(c)}, &V{T: thrift.STRING, S: "\\" + string(c) + "\""})
	}
	for n := 0; n < 70; n++ {
		out = append(out, &V{T: thrift.STRING, S: strings.Repeat("s", n)}, &V{T: thrift.BINARY, S: strings.Repeat("\xfe\x00", n/2) + strings.Repeat("b", n%2)})
	}
	return out
}

func longStrings() []int {
	ns := []int{126, 127, 128, 129, 255, 256, 1000, 2047, 2048, 16383, 16384, 16385, 65535, 65536, 70000, 100003}
	for n := 4070; n <= 4110; n++ {
		ns = append(ns, n)
	}
	for n := 8175; n <= 8200; n += 3 {
		ns = append(ns, n)
	}
	return ns
}

func roundTrip(r *Run, ps []*Proto) {
	// every scalar of interest in every position
	sw := sweepScalars(r.thorough())
	r.Cases("sweep", len(sw), func(t *T) {
		v := sw[t.Idx]
		t.Desc(func() string { return v.String() })
		for _, p := range ps[:1] {
			for i, w := range wraps(v) {
				if t.Failed() {
					return
				}
				roundTripValue(t, p, w)
				t.Seen(hashStr(uint64(i), w.String()))
			}
		}
	})
	// long strings and binaries: every internal buffer boundary
	ls := longStrings()
	r.Cases("long", len(ls)*4, func(t *T) {
		n := ls[t.Idx/4]
		var v *V
		switch t.Idx % 4 {
		case 0:
			v = &V{T: thrift.STRING, S: strings.Repeat("a", n)}
		case 1:
			v = &V{T: thrift.BINARY, S: string(t.R.Bytes(n))}
		case 2:
			b := make([]byte, n)
			for i := range b {
				b[i] = "\"\\\n\tab"[t.R.Intn(6)]
			}
			v = &V{T: thrift.STRING, S: string(b)}
		case 3:
			v = &V{T: thrift.STRING, S: strings.Repeat("\\", n)}
		}
		t.Desc(func() string { return fmt.Sprintf("kind %d length %d", t.Idx%4, n) })
		for i, w := range wraps(v) {
			if t.Failed() {
				return
			}
			roundTripValue(t, ps[0], w)
			t.Seen(uint64(t.Idx*16 + i))
		}
	})
	// container sizes around every header form
	sizes := []int{0, 1, 2, 13, 14, 15, 16, 17, 126, 127, 128, 129, 255, 256, 1023, 1024, 2047, 2048, 16383, 16384, 20000}
	r.Cases("sizes", len(sizes)*12, func(t *T) {
		n := sizes[t.Idx/12]
		et := allTypes[t.Idx%12]
		if n > 300 && !isScalar(et) {
			n = n % 300
		}
		g := newGen(t.R, func() GenOpt { o := ps[0].genOpt(); o.MaxStr = 6; o.Depth = 2; return o }())
		t.Desc(func() string { return fmt.Sprintf("%d elements of %s", n, tname(et)) })
		l := &V{T: thrift.LIST, VT: et}
		s := &V{T: thrift.SET, VT: et}
		m := &V{T: thrift.MAP, KT: et, VT: et}
		for i := 0; i < n; i++ {
			g.budget = 8
			e := g.value(et, 1)
			l.L = append(l.L, e)
			s.L = append(s.L, e)
			m.L = append(m.L, e, e)
		}
		for _, v := range []*V{l, s, m, {T: thrift.STRUCT, F: []Fld{{"a", 1, l}, {"b", 2, m}, {"c", 3, s}, {"d", 4, &V{T: thrift.I32, I: 5}}}}} {
			if t.Failed() {
				return
			}
			roundTripValue(t, ps[0], v)
		}
		t.Seen(uint64(t.Idx))
	})
	// far beyond every buffer and every 16 bit count
	hs := []int{131071, 131072, 131073, 196607, 196608, 196609, 262144, 458752, 458753, 1 << 20, 1<<20 + 1, 3 << 20}
	r.Cases("huge", len(hs)*2, func(t *T) {
		n := hs[t.Idx/2]
		b := make([]byte, n)
		q := t.R.U64()
		for i := range b {
			q = q*6364136223846793005 + 1442695040888963407
			b[i] = byte(q >> 56)
			if t.Idx%2 == 0 {
				b[i] = b[i]&0x3f + ' '
			}
		}
		v := &V{T: thrift.STRING, S: string(b)}
		if t.Idx%2 == 1 {
			v.T = thrift.BINARY
		}
		ln := lanes[t.R.Intn(len(lanes))]
		t.Desc(func() string { return fmt.Sprintf("%s of %d bytes, %s", tname(v.T), n, ln.name) })
		exchange(t, ps[t.R.Intn(len(ps))], []*Msg{
			{Name: "huge", Kind: thrift.CALL, Seq: 1, Body: &V{T: thrift.STRUCT, F: []Fld{{"v", 1, v}, {"w", 2, &V{T: thrift.I32, I: 5}}}}},
			{Name: "next", Kind: thrift.CALL, Seq: 2, Body: &V{T: thrift.STRUCT, F: []Fld{{"l", 1, &V{T: thrift.LIST, VT: v.T, L: []*V{v, {T: v.T, S: "x"}}}}}}},
		}, ln, t.R.Bool())
	})
	ms := []int{32767, 32768, 65535, 65536, 65537, 140000}
	ht := []thrift.TType{thrift.BOOL, thrift.BYTE, thrift.I16, thrift.I32, thrift.I64, thrift.DOUBLE, thrift.STRING, thrift.STRUCT}
	r.Cases("many", len(ms)*len(ht), func(t *T) {
		n, et := ms[t.Idx%len(ms)], ht[t.Idx/len(ms)]
		el := func(i int) *V {
			switch et {
			case thrift.STRING:
				return &V{T: et, S: fmt.Sprint(i)}
			case thrift.DOUBLE:
				return &V{T: et, D: math.Float64bits(float64(i) + 0.5)}
			case thrift.BOOL:
				return &V{T: et, I: int64(i & 1)}
			case thrift.BYTE:
				return &V{T: et, I: int64(i & 127)}
			case thrift.I16:
				return &V{T: et, I: int64(int16(i))}
			case thrift.STRUCT:
				return &V{T: et, F: []Fld{{"i", 1, &V{T: thrift.I32, I: int64(i)}}}}
			}
			return &V{T: et, I: int64(i)}
		}
		v := &V{T: []thrift.TType{thrift.LIST, thrift.SET, thrift.MAP}[t.R.Intn(3)], VT: et}
		if v.T == thrift.MAP {
			v.KT = thrift.I32
		}
		for i := 0; i < n; i++ {
			if v.T == thrift.MAP {
				v.L = append(v.L, &V{T: thrift.I32, I: int64(i)})
			}
			v.L = append(v.L, el(i))
		}
		t.Desc(func() string { return fmt.Sprintf("%s of %d %s", tname(v.T), n, tname(et)) })
		t.Seen(uint64(t.Idx)<<8 | uint64(v.T))
		roundTripValue(t, ps[t.R.Intn(len(ps))], &V{T: thrift.STRUCT, F: []Fld{{"v", 1, v}, {"w", 2, &V{T: thrift.I32, I: 5}}}})
	})
	// sizes of containers alone, however large
	r.Cases("announced", len(ps)*3*40, func(t *T) {
		p := ps[t.Idx%len(ps)]
		kind := t.Idx / len(ps) % 3
		n := 1<<uint(t.R.Intn(31)) + t.R.Intn(5) - 2
		switch t.Idx / len(ps) / 3 {
		case 0:
			n = math.MaxInt32
		case 1:
			n = t.R.Intn(math.MaxInt32)
		}
		if n < 0 {
			n = 0
		}
		kt, vt := allTypes[t.R.Intn(len(allTypes))], allTypes[t.R.Intn(len(allTypes))]
		t.Desc(func() string { return fmt.Sprintf("%s kind %d, %d of %s, %s", p.Name, kind, n, tname(kt), tname(vt)) })
		x := NewXT(nil)
		w := p.New(x)
		var gk, gv thrift.TType
		var g int
		var e error
		rd := func() thrift.TProtocol { w.Flush(); return p.New(NewXT(append(x.Sink.buf, 0))) }
		switch kind {
		case 0:
			w.WriteListBegin(kt, n)
			var pe thrift.TProtocolException
			gk, g, pe = rd().ReadListBegin()
			gv, e = vt, asErr(pe)
		case 1:
			w.WriteSetBegin(kt, n)
			var pe thrift.TProtocolException
			gk, g, pe = rd().ReadSetBegin()
			gv, e = vt, asErr(pe)
		case 2:
			w.WriteMapBegin(kt, vt, n)
			var pe thrift.TProtocolException
			gk, gv, g, pe = rd().ReadMapBegin()
			e = asErr(pe)
		}
		if e != nil || g != n || n > 0 && (gk.ThriftTypeId() != kt.ThriftTypeId() || gv.ThriftTypeId() != vt.ThriftTypeId()) {
			t.Fail("%s: the header of %d of %s, %s is read as %d of %s, %s (%v)", p.Name, n, tname(kt), tname(vt), g, tname(gk), tname(gv), e)
		}
		t.Count("headers", 1)
		t.Seen(uint64(t.Idx)<<32 | uint64(n))
	})
	// one pair of protocols for very many messages
	r.Cases("marathon", 3, func(t *T) {
		p := ps[t.Idx%len(ps)]
		x := NewXT(nil)
		var tr thrift.TTransport = x
		if t.Idx == 1 {
			tr = thrift.NewTFramedTransport(x)
		}
		pr := p.New(tr)
		q := p.New(tr)
		g := newGen(t.R, p.genOpt())
		var ms []*Msg
		for i := 0; i < 16; i++ {
			g.budget = 4
			m := g.msg()
			if len(m.Body.String()) < 4000 {
				ms = append(ms, m)
			}
		}
		if len(ms) == 0 {
			return
		}
		n := 70000
		if r.thorough() {
			n = 400000
		}
		t.Desc(func() string { return fmt.Sprintf("%s %d of %s", p.Name, n, msgsString(ms)) })
		for i := 0; i < n; i++ {
			m := *ms[i%len(ms)]
			m.Seq = int32(i)
			if e := writeMsg(pr, &m); e != nil {
				t.Fail("%s: writing message %d with the same protocol: %v", p.Name, i, e)
				return
			}
			x.Src.data, x.Src.pos = append([]byte(nil), x.Sink.buf...), 0
			x.Sink.buf, x.Sink.flushPos = x.Sink.buf[:0], x.Sink.flushPos[:0]
			got, e := p.readMsg(q, &m, &readCtl{})
			if e != nil {
				t.Fail("%s: reading message %d with the same protocol: %v", p.Name, i, e)
				return
			}
			if i < 300 || i%7 == 0 {
				if d := diffMsg(&m, got, p.Eq); d != "" {
					t.Fail("%s: message %d with the same protocol: %s", p.Name, i, d)
					return
				}
			} else if got.Seq != m.Seq || got.Name != m.Name {
				t.Fail("%s: message %d with the same protocol is %q %d", p.Name, i, got.Name, got.Seq)
				return
			}
			t.Count("messages", 1)
		}
		t.Seen(uint64(t.Idx))
	})
	// deep nesting
	r.Cases("deep", 40, func(t *T) {
		d := 1 + t.Idx*t.Idx/4
		v := &V{T: thrift.I32, I: int64(d)}
		for i := 0; i < d; i++ {
			switch t.R.Intn(4) {
			case 0:
				v = &V{T: thrift.STRUCT, F: []Fld{{"a", int16(1 + t.R.Intn(30)), v}, {"b", int16(40 + t.R.Intn(30)), &V{T: thrift.BOOL, I: int64(i & 1)}}}}
			case 1:
				v = &V{T: thrift.LIST, VT: v.T, L: []*V{v}}
			case 2:
				v = &V{T: thrift.SET, VT: v.T, L: []*V{v}}
			case 3:
				v = &V{T: thrift.MAP, KT: thrift.BYTE, VT: v.T, L: []*V{{T: thrift.BYTE, I: 1}, v}}
			}
		}
		t.Desc(func() string { return fmt.Sprintf("depth %d: %v", d, v) })
		m := &Msg{Name: "deep", Kind: thrift.CALL, Seq: int32(d), Body: &V{T: thrift.STRUCT, F: []Fld{{"v", 1, v}, {"w", 2, &V{T: thrift.STRING, S: "end"}}}}}
		exchange(t, ps[0], []*Msg{m, m}, lanes[t.Idx%len(lanes)], false)
	})
	// headers
	kinds := []thrift.TMessageType{thrift.CALL, thrift.REPLY, thrift.EXCEPTION, thrift.ONEWAY}
	seqs := []int32{0, 1, -1, 63, 64, 127, 128, 16383, 16384, 1<<31 - 1, -1 << 31, 12345678, -12345678, 1 << 30}
	r.Cases("headers", len(kinds)*len(seqs)*len(ps), func(t *T) {
		p := ps[t.Idx%len(ps)]
		k := kinds[t.Idx/len(ps)%len(kinds)]
		q := seqs[t.Idx/len(ps)/len(kinds)]
		names := []string{"", "a", "ping", "some_longer_method_name", strings.Repeat("n", 127), strings.Repeat("n", 128), strings.Repeat("m", 300), "naïve", "quo\"te\\"}
		var ms []*Msg
		for i := 0; i < 3; i++ {
			ms = append(ms, &Msg{Name: names[t.R.Intn(len(names))], Kind: k, Seq: q, Body: &V{T: thrift.STRUCT}})
		}
		t.Desc(func() string { return msgsString(ms) })
		exchange(t, p, ms, lanes[t.R.Intn(len(lanes))], t.R.Bool())
		t.Seen(uint64(t.Idx))
	})
	// random message sequences
	r.Cases("messages", r.N(6000, 120000), func(t *T) {
		p := ps[t.R.Intn(len(ps))]
		n := 1 + t.R.Intn(4)
		var ms []*Msg
		o := p.genOpt()
		if t.R.P(10) {
			o.Budget = 400
			o.MaxStr = 3000
		}
		g := newGen(t.R, o)
		for i := 0; i < n; i++ {
			g.budget = g.o.Budget
			ms = append(ms, g.msg())
		}
		ln := lanes[t.R.Intn(len(lanes))]
		same := t.R.P(30)
		t.Desc(func() string { return fmt.Sprintf("%s over %s same=%v: %s", p.Name, ln.name, same, msgsString(ms)) })
		t.Sample("%s over %s: %s", p.Name, ln.name, msgsString(ms))
		exchange(t, p, ms, ln, same)
	})
	// request/response alternation on one pair of protocol instances sharing one stream
	r.Cases("alternate", r.N(800, 20000), func(t *T) {
		p := ps[t.R.Intn(len(ps))]
		g := newGen(t.R, p.genOpt())
		x := NewXT(nil)
		x.block = true
		var tr thrift.TTransport = x
		if t.R.Bool() {
			tr = thrift.NewTFramedTransport(x)
		}
		pr := p.New(tr)
		n := 2 + t.R.Intn(5)
		c := &readCtl{hold: true}
		var log []*Msg
		t.Desc(func() string { return p.Name + ": " + msgsString(log) })
		for i := 0; i < n; i++ {
			g.budget = 25
			m := g.msg()
			log = append(log, m)
			if e := writeMsg(pr, m); e != nil {
				t.Fail("write %d: %v", i, e)
				return
			}
			x.Src.data = append([]byte(nil), x.Sink.buf...)
			got, e := p.readMsg(pr, m, c)
			if e != nil {
				t.Fail("%s: reading message %d back on the same instance failed: %v", p.Name, i, e)
				return
			}
			if d := diffMsg(m, got, p.Eq); d != "" {
				t.Fail("%s: message %d differs on the same instance: %s", p.Name, i, d)
				return
			}
			if d := c.changed(); d != "" {
				t.Fail("%s: after message %d on the same instance: %s", p.Name, i, d)
				return
			}
			t.Seen(shapeHash(m.Body))
			t.Count("messages", 1)
		}
	})
	// conversations that know nothing of each other, a value at a time
	r.Cases("together", r.N(150, 2500), func(t *T) {
		var fs []func()
		for i := 2 + t.R.Intn(3); i > 0; i-- {
			p := ps[t.R.Intn(len(ps))]
			ln := lanes[t.R.Intn(len(lanes))]
			o := p.genOpt()
			o.Depth = 2
			g := newGen(t.R, o)
			fs = append(fs, func() {
				var ms []*Msg
				for j := 1 + t.R.Intn(3); j > 0; j-- {
					g.budget = 12
					ms = append(ms, g.msg())
				}
				t.Desc(func() string { return p.Name + "/" + ln.name + ": " + msgsString(ms) })
				exchange(t, p, ms, ln, t.R.Bool())
			})
		}
		between = t.Turn
		defer func() { between = nil }()
		t.Together(fs...)
		t.Count("together", len(fs))
	})
}

func asErr(e thrift.TProtocolException) error {
	if e == nil {
		return nil
	}
	return e
}
