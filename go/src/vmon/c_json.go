package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strings"
	"thrift"
)

func init() { props["C06"] = jsonText }

// checkDoc judges one document the library wrote for v (or m).
func checkDoc(t *T, p *Proto, b []byte, v *V, m *Msg) *jv {
	if !json.Valid(b) {
		t.Fail("%s: the output is not valid JSON: %.400q", p.Name, b)
		return nil
	}
	doc, jp, e := parseJSON(b)
	if e != nil || jp.pos != len(b) {
		t.Fail("%s: the output is not exactly one JSON text: %.400q", p.Name, b)
		return nil
	}
	if m != nil {
		g, e := jp.interpMsg(doc, m, p.Schema)
		if e != nil || jp.amb {
			t.Fail("%s: the output does not carry the message as the protocol defines: %.400q", p.Name, b)
			return nil
		}
		if d := diffMsg(m, g, p.Eq); d != "" {
			t.Fail("%s: the content of the output differs: %s in %.400q", p.Name, d, b)
			return nil
		}
	} else {
		g, e := jp.interp(doc, v.T, v, p.Schema)
		if e != nil || jp.amb {
			t.Fail("%s: the output does not carry the value as the protocol defines: %.400q", p.Name, b)
			return nil
		}
		if d := diff(v, g, p.Eq); d != "" {
			t.Fail("%s: the content of the output differs: %s in %.400q", p.Name, d, b)
			return nil
		}
	}
	t.Count("documents", 1)
	return doc
}

func variant(t *T, p *Proto, doc *jv, k int) []byte {
	r := t.R
	em := &jemit{r: r, numKeys: !p.Schema}
	switch k % 4 {
	case 0:
		em.wsPct, em.escPct = 60, 0
	case 1:
		em.wsPct, em.escPct = 0, 50
	case 2:
		em.wsPct, em.escPct = 40, 40
	case 3:
		em.wsPct, em.escPct = 100, 100
	}
	em.nullPct = []int{0, 40, 100}[r.Intn(3)]
	em.val(doc)
	em.ws()
	t.Count("nulls", em.nulls)
	return em.b
}

func readBack(t *T, p *Proto, b []byte, v *V, m *Msg, how string) {
	x := NewXT(b)
	x.frag = [](func(int, int) int){fragAll, fragOne}[t.R.Intn(2)]
	pr := p.New(x)
	if m != nil {
		g, e := p.readMsg(pr, m, &readCtl{})
		if e != nil {
			t.Fail("%s: %s of the text is not read: %v: %.600q", p.Name, how, e, b)
			return
		}
		if d := diffMsg(m, g, p.Eq); d != "" {
			t.Fail("%s: %s of the text reads differently: %s: %.600q", p.Name, how, d, b)
		}
	} else {
		g, e := p.readV(pr, v, &readCtl{})
		if e != nil {
			t.Fail("%s: %s of the text is not read: %v: %.600q", p.Name, how, e, b)
			return
		}
		if d := diff(v, g, p.Eq); d != "" {
			t.Fail("%s: %s of the text reads differently: %s: %.600q", p.Name, how, d, b)
		}
	}
	t.Count("variants_read", 1)
	t.Seen(hashBytes(b))
}

func jsonText(r *Run) {
	ps := []*Proto{pJSON, pSimple}
	sw := sweepScalars(r.thorough())
	r.Cases("scalars", len(sw)*2, func(t *T) {
		p, v := ps[t.Idx%2], sw[t.Idx/2]
		t.Desc(func() string { return p.Name + " " + v.String() })
		for i, w := range wraps(v) {
			if t.Failed() {
				return
			}
			b, e := p.encodeV(w)
			if e != nil {
				t.Fail("writing failed: %v", e)
				return
			}
			if doc := checkDoc(t, p, b, w, nil); doc != nil {
				readBack(t, p, variant(t, p, doc, i+t.Idx), w, nil, "a variant")
			}
		}
	})
	r.Cases("messages", r.N(5000, 100000), func(t *T) {
		p := ps[t.R.Intn(2)]
		o := p.genOpt()
		if t.R.P(5) {
			o.Budget, o.MaxStr = 300, 6000
		}
		m := newGen(t.R, o).msg()
		t.Desc(func() string { return p.Name + " " + m.String() })
		b, e := p.encode(m)
		if e != nil {
			t.Fail("writing failed: %v", e)
			return
		}
		doc := checkDoc(t, p, b, nil, m)
		if doc == nil {
			return
		}
		t.Sample("%.300q", b)
		for i := 0; i < 4 && !t.Failed(); i++ {
			readBack(t, p, variant(t, p, doc, i), nil, m, "a variant")
		}
	})
	// several values one after the other through one instance: each is a text of its own
	r.Cases("sequence", r.N(300, 5000), func(t *T) {
		p := ps[t.R.Intn(2)]
		x := NewXT(nil)
		wp := p.New(x)
		var ms []*Msg
		t.Desc(func() string { return p.Name + " " + msgsString(ms) })
		g := newGen(t.R, p.genOpt())
		var all []byte
		for i := 0; i < 4; i++ {
			g.budget = 20
			m := g.msg()
			ms = append(ms, m)
			at := len(x.Sink.buf)
			if e := writeMsg(wp, m); e != nil {
				t.Fail("writing failed: %v", e)
				return
			}
			doc := checkDoc(t, p, x.Sink.buf[at:], nil, m)
			if doc == nil {
				return
			}
			all = append(all, variant(t, p, doc, t.R.Intn(4))...)
		}
		rp := p.New(NewXT(all))
		for i, m := range ms {
			got, e := p.readMsg(rp, m, &readCtl{})
			if e != nil {
				t.Fail("%s: message %d of the varied texts is not read: %v", p.Name, i, e)
				return
			}
			if d := diffMsg(m, got, p.Eq); d != "" {
				t.Fail("%s: message %d of the varied texts reads differently: %s", p.Name, i, d)
				return
			}
		}
		t.Count("variants_read", 4)
	})
	// number notations a peer may use for doubles
	nums := []string{"0", "-0", "1", "10", "100", "0.5", "-0.5", "1.25", "1e3", "1E3", "1e+3", "1e-3", "1.5E-10", "123456789012345678", "0.000001", "1e308", "5e-324",
		"2.2250738585072014e-308", "9007199254740993", "1.7976931348623157e308", "0.1", "3.141592653589793238462643383279", "100000000000000000000", "1e21", "12345678901234567890.123456789e-10"}
	for _, n := range []int{30, 39, 40, 41, 60, 300} {
		nums = append(nums, "1"+strings.Repeat("0", n), "0."+strings.Repeat("0", n-1)+"7", "-7"+strings.Repeat("1", n)+"e-"+fmt.Sprint(n/2), "3."+strings.Repeat("3", n), "2."+strings.Repeat("0", n)+"5E+2")
	}
	r.Cases("numbers", len(nums)*2, func(t *T) {
		p, s := ps[t.Idx%2], nums[t.Idx/2]
		t.Desc(func() string { return s })
		var f float64
		if e := json.Unmarshal([]byte(s), &f); e != nil {
			panic(e)
		}
		for _, tail := range []string{"", " ", "\n"} {
			pr := p.New(NewXT([]byte(s + tail)))
			g, e := pr.ReadDouble()
			if e != nil || math.Float64bits(g) != math.Float64bits(f) {
				t.Fail("%s: ReadDouble of %q gives %v, %v; want %v", p.Name, s+tail, g, e, f)
			}
			txt := fmt.Sprintf("[4,3,%s%s,7.5, %s]", s, tail, s)
			v := &V{T: thrift.LIST, VT: thrift.DOUBLE, L: []*V{{T: thrift.DOUBLE, D: math.Float64bits(f)}, {T: thrift.DOUBLE, D: math.Float64bits(7.5)}, {T: thrift.DOUBLE, D: math.Float64bits(f)}}}
			readBack(t, p, []byte(txt), v, nil, "a number notation")
		}
	})
}
