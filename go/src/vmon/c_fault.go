package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"simple"
	"strings"
	"sync"
	"sync/atomic"
	"testing/iotest"
	"thrift"
	"time"
)

func init() { props["C16"] = faultChecks }

// faultConn is a network connection over an instrumented source and sink.
type faultConn struct{ x *XT }

type loAddr struct{}

func (loAddr) Network() string                        { return "tcp" }
func (loAddr) String() string                         { return "127.0.0.1:1" }
func (c faultConn) Read(b []byte) (int, error)        { return c.x.Src.Read(b) }
func (c faultConn) Write(b []byte) (int, error)       { return c.x.Sink.Write(b) }
func (c faultConn) Close() error                      { c.x.closed++; return nil }
func (c faultConn) LocalAddr() net.Addr               { return loAddr{} }
func (c faultConn) RemoteAddr() net.Addr              { return loAddr{} }
func (c faultConn) SetDeadline(t time.Time) error     { return nil }
func (c faultConn) SetReadDeadline(t time.Time) error { return nil }
func (c faultConn) SetWriteDeadline(time.Time) error  { return nil }

type faultLane struct {
	name   string
	wrap   func(x *XT) thrift.TTransport
	framed bool
}

var faultLanes = []faultLane{
	{"direct", func(x *XT) thrift.TTransport { return x }, false},
	{"framed", func(x *XT) thrift.TTransport { return thrift.NewTFramedTransport(x) }, true},
	{"iostream-buffered", func(x *XT) thrift.TTransport { return thrift.NewTIOStreamTransportRAndW(x.Src, x.Sink) }, false},
	{"iostream-rw", func(x *XT) thrift.TTransport { return thrift.NewTIOStreamTransportRW(rw{x.Src, x.Sink}) }, false},
	{"socket", func(x *XT) thrift.TTransport { s, _ := thrift.NewTSocketConn(faultConn{x}); return s }, false},
	{"nonblocking", func(x *XT) thrift.TTransport {
		s, _ := thrift.NewTNonblockingSocketConn(faultConn{x})
		return s
	}, false},
	{"framed-socket", func(x *XT) thrift.TTransport {
		s, _ := thrift.NewTSocketConn(faultConn{x})
		return thrift.NewTFramedTransport(s)
	}, true},
	{"framed-iostream", func(x *XT) thrift.TTransport {
		return thrift.NewTFramedTransport(thrift.NewTIOStreamTransportRAndW(x.Src, x.Sink))
	}, true},
}

// faultPoints picks which of n calls fail: all if there are few, else the first, the last and a sample.
func faultPoints(r *Rng, n, max int) []int {
	var ks []int
	if n <= max {
		for k := 1; k <= n; k++ {
			ks = append(ks, k)
		}
		return ks
	}
	for k := 1; k <= max/4; k++ {
		ks = append(ks, k, n+1-k)
	}
	for len(ks) < max {
		ks = append(ks, 1+r.Intn(n))
	}
	return ks
}

func faultChecks(r *Run) {
	thrift.LOGGER.SetOutput(io.Discard)
	protos := []*Proto{pBinary, pBinaryLax, pCompact, pJSON, pSimple}
	boom := errors.New("fault 4711 of the wire")
	points := r.N(60, 400)
	r.Cases("write", r.N(1200, 12000), func(t *T) {
		p := protos[t.Idx%len(protos)]
		ln := faultLanes[t.Idx/len(protos)%len(faultLanes)]
		g := newGen(t.R, p.genOpt())
		if t.R.P(10) {
			g.o.MaxStr = 9000
		}
		g.budget = 3 + t.R.Intn(25)
		m := g.msg()
		t.Desc(func() string { return p.Name + "/" + ln.name + " " + m.String() })
		probe := NewXT(nil)
		if e := writeMsg(p.New(ln.wrap(probe)), m); e != nil {
			t.Fail("writing failed without a fault: %v", e)
			return
		}
		full := probe.Sink.buf
		for _, k := range faultPoints(t.R, probe.calls, points) {
			x := NewXT(nil)
			x.Sink.failAt, x.Sink.failErr = k, boom
			x.sticky = t.R.Bool()
			if t.R.P(40) {
				x.short = t.R.Intn(6)
			}
			e := writeMsg(p.New(ln.wrap(x)), m)
			if !x.failed {
				continue // the fault was not reached this time (the two runs need not make the same calls)
			}
			if e == nil {
				t.Fail("call %d of %d on the wire failed (sticky=%v) and the message was reported as sent; %d of %d bytes went out", k, probe.calls, x.sticky, len(x.Sink.buf), len(full))
				return
			}
			if !strings.Contains(e.Error(), boom.Error()) {
				t.Fail("call %d of %d on the wire failed with %q and is reported as %q", k, probe.calls, boom, e)
				return
			}
			t.Count("write_faults", 1)
			t.Seen(shapeHash(m.Body) + uint64(k)*31 + uint64(t.Idx%40))
		}
	})
	r.Cases("read", r.N(1200, 12000), func(t *T) {
		p := protos[t.Idx%len(protos)]
		ln := faultLanes[t.Idx/len(protos)%len(faultLanes)]
		g := newGen(t.R, p.genOpt())
		if t.R.P(10) {
			g.o.MaxStr = 9000
		}
		var ms []*Msg
		n := 1 + t.R.Intn(2)
		for i := 0; i < n; i++ {
			g.budget = 3 + t.R.Intn(15)
			ms = append(ms, g.msg())
		}
		t.Desc(func() string { return p.Name + "/" + ln.name + " " + msgsString(ms) })
		w := NewXT(nil)
		wp := p.New(ln.wrap(w))
		for _, m := range ms {
			if e := writeMsg(wp, m); e != nil {
				t.Fail("writing failed: %v", e)
				return
			}
		}
		in := w.Sink.buf
		seed := t.R.U64()
		frags := t.R.Intn(3)
		src := func() *XT {
			x := NewXT(in)
			x.block = true
			switch frags {
			case 0:
				x.frag = fragRandom(NewRng(seed))
			case 1:
				if len(in) < 400 {
					x.frag = fragOne
				}
			}
			return x
		}
		probe := src()
		full := readSeq(p, ln.wrap(probe), ms, n)
		if full.typ != "" {
			t.Fail("reading failed without a fault: %s", full.err)
			return
		}
		for _, k := range faultPoints(t.R, probe.reads, points) {
			x := src()
			x.Src.failAt, x.Src.failErr = k, boom
			o := readSeq(p, ln.wrap(x), ms, n)
			if x.reads < k {
				continue
			}
			if o.typ == "" {
				t.Fail("read %d of %d failed and all messages were reported as read", k, probe.reads)
				return
			}
			for i := range o.ev {
				if i >= len(full.ev) || o.ev[i] != full.ev[i] {
					t.Fail("when read %d of %d failed the reader delivered %s", k, probe.reads, o.ev[i])
					return
				}
			}
			if !strings.Contains(o.err, boom.Error()) {
				t.Fail("read %d of %d failed with %q and is reported as %q (%s)", k, probe.reads, boom, o.err, o.typ)
				return
			}
			t.Count("read_faults", 1)
			t.Seen(shapeHash(ms[0].Body) + uint64(k)*37 + uint64(t.Idx%40))
		}
	})
	r.Cases("application-exceptions", r.N(100, 1500), func(t *T) { appExcFaults(t, mainProtos[t.Idx%len(mainProtos)]) })
	r.Cases("skipped", r.N(200, 2000), func(t *T) { skipFaults(t, selfProtos[t.Idx%len(selfProtos)]) })
	// generated code passes the errors of its protocol on
	r.Cases("generated", r.N(200, 3000), func(t *T) {
		p := []*Proto{pBinary, pCompact, pJSON}[t.Idx%3]
		ln := faultLanes[t.Idx/3%len(faultLanes)]
		c := randEnums(t.R)
		write := func(x *XT) error {
			pr := p.New(ln.wrap(x))
			a := simple.NewEchoArgs()
			a.Message = c
			if e := a.Write(pr); e != nil {
				return e
			}
			return nilErr(pr.Flush())
		}
		probe := NewXT(nil)
		if e := write(probe); e != nil {
			t.Fail("%s/%s: writing failed without a fault: %v", p.Name, ln.name, e)
			return
		}
		for k := 1; k <= probe.calls; k++ {
			x := NewXT(nil)
			x.Sink.failAt, x.Sink.failErr, x.sticky = k, boom, t.R.Bool()
			e := write(x)
			if e == nil || !strings.Contains(e.Error(), boom.Error()) {
				t.Fail("%s/%s: call %d of %d on the wire failed and a generated struct reports %v", p.Name, ln.name, k, probe.calls, e)
				return
			}
			t.Count("generated_faults", 1)
		}
		in := probe.Sink.buf
		read := func(k int) (*XT, error) {
			x := NewXT(in)
			x.block = true
			x.Src.failAt, x.Src.failErr = k, boom
			pr := p.New(ln.wrap(x))
			a := simple.NewEchoArgs()
			return x, a.Read(pr)
		}
		x, e := read(0)
		if e != nil {
			t.Fail("%s/%s: reading failed without a fault: %v", p.Name, ln.name, e)
			return
		}
		for k := 1; k <= x.reads; k++ {
			y, e := read(k)
			if y.reads < k {
				continue
			}
			if e == nil || !strings.Contains(e.Error(), boom.Error()) {
				t.Fail("%s/%s: read %d of %d failed and a generated struct reports %v", p.Name, ln.name, k, x.reads, e)
				return
			}
			t.Count("generated_faults", 1)
		}
		t.Seen(t.R.U64())
	})
	// raw transport operations: one failing call is reported by that operation or by the flush
	// the source of a binary value ends early, fails, or gives more than is asked for
	r.Cases("sources", r.N(400, 4000), func(t *T) {
		body := t.R.Bytes(t.R.chunk(40000))
		n := len(body)
		var rd io.Reader = iotest.DataErrReader(bytes.NewReader(body))
		switch t.R.Intn(4) {
		case 0:
			rd = bytes.NewReader(body)
		case 1:
			rd = iotest.HalfReader(bytes.NewReader(body))
		case 2:
			rd = iotest.OneByteReader(bytes.NewReader(body))
		}
		what := "gives all"
		switch t.R.Intn(4) {
		case 0:
			n += 1 + t.R.chunk(3000)
			what = "ends early"
		case 1:
			if n > 0 {
				n -= t.R.Intn(n + 1)
			}
			what = "gives more"
		case 2:
			n += t.R.Intn(3000)
			rd = io.MultiReader(rd, iotest.ErrReader(boom))
			if what = "fails"; n == len(body) {
				what = "fails afterwards"
			}
		}
		t.Desc(func() string { return fmt.Sprintf("%d bytes of a source of %d, which %s", n, len(body), what) })
		ln := faultLanes[t.Idx%len(faultLanes)]
		x := NewXT(nil)
		p, ok := pBinary.New(ln.wrap(x)).(*thrift.TBinaryProtocol)
		if !ok {
			return
		}
		e := p.WriteBinaryFromReader(rd, n)
		if e == nil {
			e = p.Flush()
		}
		t.Count("sources", 1)
		t.Seen(uint64(n)<<32 | uint64(len(body))<<2 | uint64(t.Idx%len(faultLanes)))
		if (e == nil) != (n <= len(body)) {
			t.Fail("%s: writing from it gives the error %v", ln.name, e)
		} else if e != nil && what == "fails" && !strings.Contains(e.Error(), boom.Error()) {
			t.Fail("%s: the source failed with %q and that is reported as %q", ln.name, boom, e)
		} else if e == nil && !bytes.HasSuffix(x.Sink.buf, append(binary.BigEndian.AppendUint32(nil, uint32(n)), body[:n]...)) {
			t.Fail("%s: wrote %x", ln.name, clip(x.Sink.buf, 0))
		}
	})
	r.Cases("raw", r.N(600, 8000), func(t *T) {
		ln := faultLanes[t.Idx%len(faultLanes)]
		var parts [][]byte
		for i, n := 0, 1+t.R.Intn(6); i < n; i++ {
			parts = append(parts, t.R.Bytes(1+t.R.chunk(6000)))
		}
		run := func(x *XT) error {
			tr := ln.wrap(x)
			for _, b := range parts {
				n, e := tr.Write(b)
				if e != nil {
					return e
				}
				if n != len(b) {
					return fmt.Errorf("short write without an error: %d of %d", n, len(b))
				}
			}
			return tr.Flush()
		}
		probe := NewXT(nil)
		if e := run(probe); e != nil {
			t.Fail("%s: failed without a fault: %v", ln.name, e)
			return
		}
		for k := 1; k <= probe.calls; k++ {
			x := NewXT(nil)
			x.Sink.failAt, x.Sink.failErr = k, boom
			if t.R.Bool() {
				x.short = t.R.Intn(6)
			}
			e := run(x)
			if e == nil || !strings.Contains(e.Error(), boom.Error()) {
				t.Fail("%s: call %d of %d on the wire failed and is reported as %v", ln.name, k, probe.calls, e)
				return
			}
			if _, ok := e.(thrift.TTransportException); !ok && ln.name != "direct" {
				t.Fail("%s: a failed call on the wire is reported as %T, not as a transport exception", ln.name, e)
				return
			}
			t.Count("raw_faults", 1)
			t.Seen(uint64(k)*131 + uint64(len(parts))*7 + uint64(t.Idx%len(faultLanes)))
		}
	})
	// an HTTP peer that fails in its own ways
	r.Cases("http", r.N(120, 1500), func(t *T) {
		p := protos[t.R.Intn(len(protos))]
		g := newGen(t.R, p.genOpt())
		g.budget = 20
		m := g.msg()
		out, e := p.encode(m)
		if e != nil {
			t.Fail("%v", e)
			return
		}
		mode := t.Idx % 6
		code := []int{500, 404, 503, 302, 400, 201, 204, 502}[t.R.Intn(8)]
		cut := t.R.Intn(len(out))
		var fine atomic.Bool
		var mu sync.Mutex
		var last []byte
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			b, _ := io.ReadAll(q.Body)
			mu.Lock()
			last = b
			mu.Unlock()
			if fine.Load() {
				w.Write(out)
				return
			}
			switch mode {
			case 0: // an error page, or the right bytes under the wrong status
				w.WriteHeader(code)
				if code != 204 {
					w.Write(out)
				}
			case 1: // the connection breaks inside the body
				w.Header().Set("Content-Length", fmt.Sprint(len(out)))
				w.Write(out[:cut])
				w.(http.Flusher).Flush()
				panic(http.ErrAbortHandler)
			case 2: // the same in a chunked body
				w.Write(out[:cut])
				w.(http.Flusher).Flush()
				panic(http.ErrAbortHandler)
			case 3: // no response at all
				panic(http.ErrAbortHandler)
			case 4: // all is well but the body is short
				w.Write(out[:cut])
			default:
				w.Write(out)
			}
		}))
		srv.Config.ErrorLog = nullLog
		url := srv.URL
		if mode == 5 && t.R.Bool() {
			srv.Close() // nobody there
			mode = 6
		} else {
			defer srv.Close()
		}
		defer http.DefaultTransport.(*http.Transport).CloseIdleConnections()
		t.Desc(func() string {
			return fmt.Sprintf("%s mode %d status %d cut %d of %d", p.Name, mode, code, cut, len(out))
		})
		tr, e := thrift.NewTHttpPostClient(url)
		if e != nil {
			t.Fail("%v", e)
			return
		}
		defer tr.Close()
		if mode != 6 && t.R.Bool() { // an exchange before, its response read in part or not at all
			fine.Store(true)
			tr.Write([]byte("before"))
			if e := tr.Flush(); e != nil {
				t.Fail("an intact request failed: %v", e)
				return
			}
			tr.Read(make([]byte, t.R.Intn(len(out))))
			fine.Store(false)
		}
		if t.Idx%3 == 0 {
			c, e := thrift.NewTHttpClient(url)
			if (mode == 0 || mode == 3 || mode == 6) && (e == nil || c != nil) {
				t.Fail("a failed request for a response gave %v, %v", c, e)
			}
			if c != nil {
				if b, e := io.ReadAll(c); (mode == 1 || mode == 2) && e == nil {
					t.Fail("a response cut after %d of %d bytes is read as %d bytes and its end", cut, len(out), len(b))
				}
				c.Close()
			}
		}
		e = writeMsg(p.New(tr), m)
		if mode == 0 || mode == 3 || mode == 6 {
			if e == nil {
				t.Fail("the request failed and was reported as sent")
				return
			}
			if mode == 0 && !strings.Contains(e.Error(), fmt.Sprint(code)) && code/100 != 3 {
				t.Fail("status %d is reported as %q", code, e)
				return
			}
			if n, e := tr.Read(make([]byte, 8)); e == nil {
				t.Fail("after a failed request %d bytes were read", n)
				return
			}
			if mode != 6 { // the next request is one of its own
				fine.Store(true)
				if e := writeMsg(p.New(tr), m); e != nil {
					t.Fail("the request after a failed one failed: %v", e)
					return
				}
				mu.Lock()
				same := bytes.Equal(last, out)
				mu.Unlock()
				if !same {
					t.Fail("the request after a failed one was not what was written for it")
					return
				}
				if got, e := p.readMsg(p.New(tr), m, &readCtl{}); e != nil || diffMsg(m, got, p.Eq) != "" {
					t.Fail("the response after a failed request was not read: %v", e)
					return
				}
				t.Count("http_recoveries", 1)
			}
		} else if e == nil {
			got, e2 := p.readMsg(p.New(tr), m, &readCtl{})
			if mode == 5 {
				if e2 != nil || diffMsg(m, got, p.Eq) != "" {
					t.Fail("an intact response was not read: %v", e2)
				}
			} else if e2 == nil {
				t.Fail("a response cut after %d of %d bytes was read as complete", cut, len(out))
				return
			}
		} else if mode == 5 {
			t.Fail("the request failed: %v", e)
			return
		}
		t.Count("http_faults", 1)
		t.Seen(uint64(mode)*1009 + uint64(code) + uint64(cut))
	})
}
