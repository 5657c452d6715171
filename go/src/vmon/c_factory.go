package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"sync"
	"thrift"
	"time"
)

// C31: factories, constructors and setters make what they are configured for.

func init() { props["C31"] = factoryChecks }

// endpoint accepts connections, greets each with its own name and remembers what it receives.
type endpoint struct {
	name byte
	l    net.Listener
	mu   sync.Mutex
	n    int
	mute bool
	cs   []net.Conn
	got  chan []byte
}

func newEndpoint(r *Rng, name byte) (*endpoint, error) {
	l, e := loListen(r)
	if e != nil {
		return nil, e
	}
	p := &endpoint{name: name, l: l, got: make(chan []byte, 100)}
	go func() {
		for {
			c, e := l.Accept()
			if e != nil {
				return
			}
			p.mu.Lock()
			p.n++
			p.cs = append(p.cs, c)
			mute := p.mute
			p.mu.Unlock()
			if !mute {
				c.Write([]byte{p.name})
			}
		}
	}()
	return p, nil
}

func (p *endpoint) close() {
	p.l.Close()
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, c := range p.cs {
		c.Close()
	}
}

// reaches opens tr and says which endpoint answers.
func reaches(tr thrift.TTransport) (byte, error) {
	if !tr.IsOpen() {
		if e := tr.Open(); e != nil {
			return 0, e
		}
	}
	b := make([]byte, 1)
	type res struct {
		n int
		e error
	}
	c := make(chan res, 1)
	go func() {
		n, e := tr.Read(b)
		c <- res{n, e}
	}()
	select {
	case r := <-c:
		if r.n != 1 {
			return 0, fmt.Errorf("read %d bytes, %v", r.n, r.e)
		}
		return b[0], nil
	case <-time.After(20 * time.Second):
		return 0, errors.New("no greeting within 20 s")
	}
}

// timesOut says how long a read without data takes, and whether it ends in a timeout.
func timesOut(tr thrift.TTransport, wait time.Duration) (time.Duration, error) {
	c := make(chan error, 1)
	start := time.Now()
	go func() {
		_, e := tr.Read(make([]byte, 1))
		c <- e
	}()
	select {
	case e := <-c:
		return time.Since(start), e
	case <-time.After(wait):
		return time.Since(start), nil
	}
}

// fills writes and flushes to a peer that does not read, until that fails, and says how long the last attempt took.
func fills(tr thrift.TTransport, wait time.Duration) (time.Duration, error) {
	type res struct {
		d time.Duration
		e error
	}
	c := make(chan res, 1)
	go func() {
		b := make([]byte, 1<<20)
		for i := 0; i < 256; i++ {
			start := time.Now()
			_, e := tr.Write(b)
			if e == nil {
				e = tr.Flush()
			}
			if e != nil {
				c <- res{time.Since(start), e}
				return
			}
		}
		c <- res{0, errors.New("a peer that does not read took 256 MB")}
	}()
	select {
	case r := <-c:
		return r.d, r.e
	case <-time.After(wait):
		return wait, nil
	}
}

// carries writes and flushes so much that it has to wait for a peer that begins to read later.
func carries(tr thrift.TTransport, peer func() net.Conn, after time.Duration) error {
	const size = 24 << 20
	c := make(chan error, 1)
	go func() {
		b := make([]byte, 1<<20)
		for i := 0; i < size>>20; i++ {
			if _, e := tr.Write(b); e != nil {
				c <- e
				return
			}
			if e := tr.Flush(); e != nil {
				c <- e
				return
			}
		}
		c <- nil
	}()
	time.Sleep(after)
	p := peer()
	if p == nil {
		return errors.New("there is no peer")
	}
	p.SetReadDeadline(time.Now().Add(20 * time.Second))
	io.CopyN(io.Discard, p, size)
	select {
	case e := <-c:
		return e
	case <-time.After(20 * time.Second):
		return errors.New("still waiting after the peer read everything")
	}
}

func isTimeout(e error) bool {
	x, ok := e.(thrift.TTransportException)
	return ok && x.TypeId() == thrift.TIMED_OUT
}

func protocolFactories(t *T) {
	type fac struct {
		name string
		f    thrift.TProtocolFactory
		p    *Proto
	}
	all := []fac{{"binary default", thrift.NewTBinaryProtocolFactoryDefault(), pBinaryDef},
		{"binary strict", thrift.NewTBinaryProtocolFactory(true, true), pBinary}, {"binary lax", thrift.NewTBinaryProtocolFactory(false, false), pBinaryLax},
		{"compact", thrift.NewTCompactProtocolFactory(), pCompact}, {"json", thrift.NewTJSONProtocolFactory(), pJSON}, {"simple json", thrift.NewTSimpleJSONProtocolFactory(), pSimple}}
	f := all[t.Idx%len(all)]
	t.Desc(func() string { return f.name })
	n := 2 + t.R.Intn(4)
	// many protocols of one factory, each on a transport of its own, used in turns
	var xs []*XT
	var ps []thrift.TProtocol
	for i := 0; i < n; i++ {
		x := NewXT(nil)
		p := f.f.GetProtocol(x)
		if p == nil || p.Transport() != thrift.TTransport(x) {
			t.Fail("the protocol is not on the transport it was made for")
			return
		}
		xs, ps = append(xs, x), append(ps, p)
	}
	want := make([][]byte, n)
	alone := make([]*XT, n)
	one := make([]thrift.TProtocol, n)
	for i := range alone {
		alone[i] = NewXT(nil)
		one[i] = f.p.New(alone[i])
	}
	for k := 0; k < 3*n; k++ {
		i := t.R.Intn(n)
		m := newGen(t.R, f.p.genOpt()).msg()
		if e := writeMsg(ps[i], m); e != nil {
			t.Fail("writing: %v", e)
			return
		}
		if e := writeMsg(one[i], m); e != nil {
			t.Fail("writing: %v", e)
			return
		}
		want[i] = alone[i].buf
		for j := range xs {
			if !bytes.Equal(xs[j].buf, want[j]) {
				t.Fail("after a message on protocol %d, protocol %d of the factory has written %q instead of %q", i, j, clip(xs[j].buf, 40), clip(want[j], 200))
				return
			}
		}
		t.Count("protocols_compared", n)
	}
	t.Seen(t.R.U64())
}

func plainFactories(t *T) {
	f := thrift.NewTTransportFactory()
	x, y := NewXT(nil), NewXT(nil)
	if f.GetTransport(x) != thrift.TTransport(x) || f.GetTransport(y) != thrift.TTransport(y) || f.GetTransport(nil) != nil {
		t.Fail("the default transport factory does not give the transport it was given")
	}
	// framed
	ff := thrift.NewTFramedTransportFactory(f)
	a, b, a2 := ff.GetTransport(x), ff.GetTransport(y), ff.GetTransport(x)
	w := t.R.Bytes(1 + t.R.Intn(3000))
	v := t.R.Bytes(1 + t.R.Intn(3000))
	a.Write(w)
	b.Write(v)
	a2.Write(v)
	fr := func(z []byte) []byte {
		h := make([]byte, 4)
		binary.BigEndian.PutUint32(h, uint32(len(z)))
		return append(h, z...)
	}
	if len(x.buf)+len(y.buf) != 0 {
		t.Fail("framed transports wrote before they were flushed")
	}
	a.Flush()
	if !bytes.Equal(x.buf, fr(w)) || len(y.buf) != 0 {
		t.Fail("the first of two framed transports put %d and %d bytes for a frame of %d", len(x.buf), len(y.buf), len(w))
		return
	}
	b.Flush()
	a2.Flush()
	if !bytes.Equal(y.buf, fr(v)) || !bytes.Equal(x.buf, append(fr(w), fr(v)...)) {
		t.Fail("framed transports of one factory are not separate")
	}
	// a framed factory over a framed factory, and over another factory
	z := NewXT(nil)
	d := thrift.NewTFramedTransportFactory(ff).GetTransport(z)
	d.Write(w)
	d.Flush()
	if !bytes.Equal(z.buf, fr(fr(w))) {
		t.Fail("frames in frames are not")
	}
	// memory
	size := t.R.Intn(3000)
	mf := thrift.NewTMemoryBufferTransportFactory(size)
	old := thrift.NewTMemoryBufferLen(t.R.Intn(100))
	old.Write(w)
	for _, base := range []thrift.TTransport{nil, x, old, mf.GetTransport(nil)} {
		m, n := mf.GetTransport(base), mf.GetTransport(base)
		if m == nil || m == n || m == base {
			t.Fail("a memory factory does not make new buffers")
			return
		}
		k, _ := m.Read(make([]byte, 10))
		if k != 0 {
			t.Fail("a new memory buffer has %d bytes", k)
		}
		m.Write(w)
		n.Write(v)
		g := make([]byte, len(w))
		if k, e := m.ReadAll(g); e != nil || k != len(w) || !bytes.Equal(g, w) {
			t.Fail("a new memory buffer gives %d bytes, %v, of %d written", k, e, len(w))
		}
		t.Count("transports_made", 2)
	}
	g := make([]byte, len(w))
	if k, e := old.ReadAll(g); e != nil || k != len(w) || !bytes.Equal(g, w) {
		t.Fail("making a memory buffer disturbed the one it was made from")
	}
	// processors
	pr := &nullProcessor{}
	pf := thrift.NewTProcessorFactory(pr)
	if pf.GetProcessor(x) != thrift.TProcessor(pr) || pf.GetProcessor(nil) != thrift.TProcessor(pr) {
		t.Fail("a processor factory does not give its processor")
	}
	fn := &nullFunction{}
	nf := thrift.NewTProcessorFunctionFactory(fn)
	if nf.GetProcessorFunction(x) != thrift.TProcessorFunction(fn) || nf.GetProcessorFunction(nil) != thrift.TProcessorFunction(fn) {
		t.Fail("a processor function factory does not give its function")
	}
	t.Count("transports_made", 8)
	t.Seen(hashBytes(w) ^ uint64(size))
}

type nullProcessor struct{ mark int }

func (p *nullProcessor) Process(in, out thrift.TProtocol) (bool, thrift.TException) {
	return false, nil
}

type nullFunction struct{ mark int }

func (p *nullFunction) Process(seq int32, in, out thrift.TProtocol) (bool, thrift.TException) {
	return false, nil
}

type halfR struct{ io.Reader }
type halfW struct{ io.Writer }

func streamFactories(t *T) {
	mk := func(kind int, r io.Reader, w io.Writer, both io.ReadWriter) (*thrift.TIOStreamTransportFactory, thrift.TTransport) {
		switch kind {
		case 0:
			return thrift.NewTIOStreamTransportFactory(both, both, true), thrift.NewTIOStreamTransportRW(both)
		case 1:
			return thrift.NewTIOStreamTransportFactory(r, w, false), thrift.NewTIOStreamTransportRAndW(r, w)
		case 2:
			return thrift.NewTIOStreamTransportFactory(r, nil, false), thrift.NewTIOStreamTransportR(r)
		case 3:
			return thrift.NewTIOStreamTransportFactory(nil, w, false), thrift.NewTIOStreamTransportW(w)
		}
		return thrift.NewTIOStreamTransportFactory(nil, nil, false), thrift.NewTIOStreamTransportDefault()
	}
	type ends struct {
		in   []byte
		r    *bytes.Reader
		w    *bytes.Buffer
		both *bytes.Buffer
	}
	mkEnds := func() *ends {
		b := t.R.Bytes(20 + t.R.Intn(100))
		return &ends{b, bytes.NewReader(b), &bytes.Buffer{}, bytes.NewBuffer(append([]byte(nil), b...))}
	}
	fe, te := mkEnds(), mkEnds()
	fk, tk := t.R.Intn(5), t.R.Intn(5)
	f, _ := mk(fk, halfR{fe.r}, halfW{fe.w}, fe.both)
	_, tr := mk(tk, halfR{te.r}, halfW{te.w}, te.both)
	given := t.R.Intn(3)
	t.Desc(func() string { return fmt.Sprintf("factory kind %d, transport kind %d, given %d", fk, tk, given) })
	var base thrift.TTransport
	kind, e := fk, fe
	switch given {
	case 0:
		base, kind, e = tr, tk, te
	case 1:
		base = NewXT(nil)
	}
	n := f.GetTransport(base)
	if n == nil || n == base {
		t.Fail("the factory does not make a new transport")
		return
	}
	t.Count("transports_made", 1)
	t.Seen(uint64(fk)<<8 | uint64(tk)<<4 | uint64(given))
	if n.IsOpen() != (kind != 4) {
		t.Fail("the new transport says that open is %v", n.IsOpen())
		return
	}
	got := make([]byte, len(e.in))
	k, er := n.ReadAll(got)
	if reads := kind <= 2; reads && (er != nil || k != len(got) || !bytes.Equal(got, e.in)) || !reads && (er == nil || k != 0) {
		t.Fail("reading from the new transport gives %d bytes of %d, %v", k, len(got), er)
		return
	}
	out := t.R.Bytes(1 + t.R.Intn(6000))
	e.both.Reset()
	k, er = n.Write(out)
	if er == nil {
		er = n.Flush()
	}
	sink := e.w
	if kind == 0 {
		sink = e.both
	}
	if writes := kind == 0 || kind == 1 || kind == 3; writes && (er != nil || k != len(out) || !bytes.Equal(sink.Bytes(), out)) || !writes && er == nil {
		t.Fail("writing to the new transport: %d of %d, %v, and %d bytes arrived", k, len(out), er, sink.Len())
	}
}

func socketFactories(t *T) {
	a, e := newEndpoint(t.R, 'A')
	if e != nil {
		return
	}
	defer a.close()
	b, e := newEndpoint(t.R, 'B')
	if e != nil {
		return
	}
	defer b.close()
	check := func(what string, tr thrift.TTransport, want byte) {
		if tr == nil {
			t.Fail("%s: no transport", what)
			return
		}
		defer tr.Close()
		g, e := reaches(tr)
		t.Count("connections", 1)
		if e != nil || g != want {
			t.Fail("%s: connected to %q, not %q (%v)", what, g, want, e)
		}
	}
	addrA, addrB := a.l.Addr(), b.l.Addr()
	f := thrift.NewTNonblockingSocketTransportFactory(addrA)
	check("from nothing", f.GetTransport(nil), 'A')
	check("from another kind", f.GetTransport(NewXT(nil)), 'A')
	check("from a TSocket", f.GetTransport(thrift.NewTSocketAddr(addrB)), 'A')
	sb, _ := thrift.NewTNonblockingSocketAddr(addrB)
	n := f.GetTransport(sb)
	if n == thrift.TTransport(sb) {
		t.Fail("the factory does not make a new transport")
	}
	check("from one to another address", n, 'B')
	if sb.IsOpen() {
		t.Fail("making a transport opened the one it was made from")
	}
	check("the one it was made from", sb, 'B')
	check("TSocket", thrift.NewTSocketAddr(addrB), 'B')
	check("TSocket with timeout", thrift.NewTSocket(addrA, int64(20*time.Second)), 'A')
	s1, _ := thrift.NewTNonblockingSocketAddrTimeout(addrA, int64(20*time.Second))
	if s1.Addr().String() != addrA.String() {
		t.Fail("the address of a socket to %v is %v", addrA, s1.Addr())
	}
	check("nonblocking with timeout", s1, 'A')
	// over connections that exist
	dial := func(p *endpoint) net.Conn {
		c, e := dialAddr(p.l.Addr(), 5*time.Second)
		if e != nil {
			return nil
		}
		return c
	}
	if c := dial(a); c != nil {
		s, _ := thrift.NewTSocketConn(c)
		if s.Conn() != c || !s.IsOpen() {
			t.Fail("a socket over a connection is not over it: open %v", s.IsOpen())
		}
		check("TSocket over a connection", s, 'A')
	}
	if c := dial(b); c != nil {
		s, _ := thrift.NewTNonblockingSocketConn(c)
		if !s.IsOpen() || s.Addr().String() != addrB.String() {
			t.Fail("a socket over a connection to %v: open %v, address %v", addrB, s.IsOpen(), s.Addr())
		}
		// closed and opened again, or given to a factory, it goes to the same place
		m := f.GetTransport(s)
		check("from one over a connection", m, 'B')
		check("nonblocking over a connection", s, 'B')
		check("nonblocking over a connection, opened again", s, 'B')
	}
	if c := dial(b); c != nil {
		s, _ := thrift.NewTSocketConnTimeout(c, int64(20*time.Second))
		check("TSocket over a connection with timeout", s, 'B')
		check("TSocket over a connection, opened again", s, 'B')
	}
	t.Seen(t.R.U64())
}

func socketTimeouts(t *T) {
	a, e := newEndpoint(t.R, 'A')
	if e != nil {
		return
	}
	defer a.close()
	a.mute = true
	d := time.Duration(15+t.R.Intn(40)) * time.Millisecond
	ns := int64(d)
	long := int64(20 * time.Second)
	addr := a.l.Addr()
	type sock interface {
		thrift.TTransport
		SetTimeout(int64) error
	}
	kind := t.Idx % 8
	var s sock
	mk := func(c thrift.TTransport) sock { x, _ := c.(sock); return x }
	dial := func() net.Conn { c, _ := dialAddr(addr, 5*time.Second); return c }
	what := ""
	switch kind {
	case 0:
		what, s = "TSocket made with a timeout", thrift.NewTSocket(addr, ns)
	case 1:
		what, s = "TSocket whose timeout was set", thrift.NewTSocket(addr, long)
		s.SetTimeout(ns)
	case 2:
		x, _ := thrift.NewTNonblockingSocketAddrTimeout(addr, ns)
		what, s = "nonblocking socket made with a timeout", x
	case 3:
		x, _ := thrift.NewTNonblockingSocketAddr(addr)
		what, s = "nonblocking socket whose timeout was set", x
		s.SetTimeout(ns)
	case 4:
		x, _ := thrift.NewTNonblockingSocketAddrTimeout(addr, ns)
		what, s = "nonblocking socket made by a factory from one with a timeout", mk(thrift.NewTNonblockingSocketTransportFactory(fixedAddr("127.0.0.1:1")).GetTransport(x))
	case 5:
		c := dial()
		if c == nil {
			return
		}
		x, _ := thrift.NewTSocketConnTimeout(c, ns)
		what, s = "TSocket over a connection with a timeout", x
	case 6:
		c := dial()
		if c == nil {
			return
		}
		x, _ := thrift.NewTNonblockingSocketConn(c)
		what, s = "nonblocking socket over a connection whose timeout was set", x
		s.SetTimeout(ns)
	case 7:
		what, s = "TSocket whose timeout was set while open", thrift.NewTSocketAddr(addr)
		if e := s.Open(); e != nil {
			return
		}
		s.SetTimeout(ns)
	}
	t.Desc(func() string { return fmt.Sprintf("%s, %v", what, d) })
	t.Seen(uint64(kind)<<32 | uint64(d))
	if s == nil {
		t.Fail("no socket")
		return
	}
	if !s.IsOpen() {
		if e := s.Open(); e != nil {
			t.Fail("%s: open: %v", what, e)
			return
		}
	}
	defer s.Close()
	took, e := timesOut(s, 15*time.Second)
	t.Count("timeouts", 1)
	if !isTimeout(e) || took < d*8/10 {
		t.Fail("%s of %v: a read without data ended after %v with %v", what, d, took, e)
		return
	}
	// the time is for an operation, and not for all of them, nor for what happens between them
	s.Write([]byte("late"))
	time.Sleep(d + 10*time.Millisecond)
	t.Count("late_flushes", 1)
	if e := s.Flush(); e != nil {
		t.Fail("%s of %v: a flush some time after the write failed: %v", what, d, e)
		return
	}
	if t.R.P(40) {
		took, e := fills(s, 15*time.Second)
		t.Count("write_timeouts", 1)
		if !isTimeout(e) || took < d*8/10 {
			t.Fail("%s of %v: writing to a peer that does not read ended after %v with %v", what, d, took, e)
		}
		return
	}
	// without a timeout a read waits for its data
	s.SetTimeout(0)
	go func() {
		time.Sleep(d + 25*time.Millisecond)
		a.mu.Lock()
		defer a.mu.Unlock()
		for _, c := range a.cs {
			c.Write([]byte{'A'})
		}
	}()
	g, e := reaches(s)
	t.Count("waits", 1)
	if e != nil || g != 'A' {
		t.Fail("%s: without a timeout, a read of data that comes %v later gave %v", what, d, e)
		return
	}
	if t.R.P(40) {
		t.Count("waits", 1)
		e := carries(s, func() net.Conn {
			a.mu.Lock()
			defer a.mu.Unlock()
			if len(a.cs) == 0 {
				return nil
			}
			return a.cs[0]
		}, d+25*time.Millisecond)
		if e != nil {
			t.Fail("%s: without a timeout, writing to a peer that reads %v later gave %v", what, d, e)
		}
	}
}

func serverFactories(t *T) {
	addr := fixedAddr(loIP() + ":0")
	other := fixedAddr("127.0.0.1:1")
	d := time.Duration(15+t.R.Intn(40)) * time.Millisecond
	ns := int64(d)
	type srv interface {
		thrift.TServerTransport
		Addr() net.Addr
	}
	var s srv
	var what string
	timeout := true
	mk := func(c interface{}) srv { x, _ := c.(srv); return x }
	asT := func(c interface{}) thrift.TTransport { x, _ := c.(thrift.TTransport); return x }
	kind := t.Idx % 12
	switch kind {
	case 0:
		x, _ := thrift.NewTServerSocketAddrTimeout(addr, ns)
		what, s = "server socket made with a timeout", x
	case 1:
		what, s = "server socket made by a factory", mk(thrift.NewTServerSocketTransportFactory(addr, ns).GetTransport(nil))
	case 2:
		x, _ := thrift.NewTServerSocketAddrTimeout(addr, ns)
		what, s = "server socket made by a factory from another", mk(thrift.NewTServerSocketTransportFactory(other, 0).GetTransport(asT(x)))
	case 3:
		x, _ := thrift.NewTServerSocketAddr(addr)
		what, s, timeout = "server socket", x, false
	case 4:
		x, _ := thrift.NewTNonblockingServerSocketAddrTimeout(addr, ns)
		what, s = "nonblocking server socket made with a timeout", x
	case 5:
		x, _ := thrift.NewTNonblockingServerSocketAddr(addr)
		x.SetTimeout(ns)
		what, s = "nonblocking server socket whose timeout was set", x
	case 6:
		what, s, timeout = "nonblocking server socket made by a factory", mk(thrift.NewTNonblockingServerSocketTransportFactory(addr).GetTransport(nil)), false
	case 7:
		x, _ := thrift.NewTNonblockingServerSocketAddrTimeout(addr, ns)
		what, s = "nonblocking server socket made by a factory from another", mk(thrift.NewTNonblockingServerSocketTransportFactory(other).GetTransport(asT(x)))
	case 8:
		x, _ := thrift.NewTNonblockingServerSocketAddr(addr)
		what, s, timeout = "nonblocking server socket", x, false
	case 9:
		what, s = "server socket made by a factory from a socket", mk(thrift.NewTServerSocketTransportFactory(addr, ns).GetTransport(thrift.NewTSocketAddr(other)))
	case 10:
		l, e := net.Listen("tcp", addr.String())
		if e != nil {
			return
		}
		defer l.Close()
		x, _ := thrift.NewTNonblockingServerSocketListener(l)
		x.SetTimeout(ns)
		what, s = "nonblocking server socket over a listener", x
	case 11:
		x, _ := thrift.NewTNonblockingServerSocketAddr(other)
		what, s, timeout = "nonblocking server socket made by a factory from a server socket of another kind", mk(thrift.NewTNonblockingServerSocketTransportFactory(addr).GetTransport(asT(mustServer(other)))), false
		_ = x
	}
	t.Desc(func() string { return fmt.Sprintf("%s, %v", what, d) })
	t.Seen(uint64(kind)<<32 | uint64(d))
	if s == nil {
		t.Fail("%s: none was made", what)
		return
	}
	if a := s.Addr(); a == nil || kind != 10 && a.String() != addr.String() {
		t.Fail("%s: the address is %v, not %v", what, a, addr)
		return
	}
	if kind == 10 {
		t.Count("servers_made", 1)
	} else {
		// which port it got cannot be asked for: listen on one that is known to be free
		fa, e := freeAddr(t.R)
		if e != nil {
			return
		}
		switch kind {
		case 0:
			x, _ := thrift.NewTServerSocketAddrTimeout(fa, ns)
			s = x
		case 1:
			s = mk(thrift.NewTServerSocketTransportFactory(fa, ns).GetTransport(nil))
		case 2:
			x, _ := thrift.NewTServerSocketAddrTimeout(fa, ns)
			s = mk(thrift.NewTServerSocketTransportFactory(other, 0).GetTransport(asT(x)))
		case 3:
			x, _ := thrift.NewTServerSocketAddr(fa)
			s = x
		case 4:
			x, _ := thrift.NewTNonblockingServerSocketAddrTimeout(fa, ns)
			s = x
		case 5:
			x, _ := thrift.NewTNonblockingServerSocketAddr(fa)
			x.SetTimeout(ns)
			s = x
		case 6:
			s = mk(thrift.NewTNonblockingServerSocketTransportFactory(fa).GetTransport(nil))
		case 7:
			x, _ := thrift.NewTNonblockingServerSocketAddrTimeout(fa, ns)
			s = mk(thrift.NewTNonblockingServerSocketTransportFactory(other).GetTransport(asT(x)))
		case 8:
			x, _ := thrift.NewTNonblockingServerSocketAddr(fa)
			s = x
		case 9:
			s = mk(thrift.NewTServerSocketTransportFactory(fa, ns).GetTransport(thrift.NewTSocketAddr(other)))
		case 11:
			s = mk(thrift.NewTNonblockingServerSocketTransportFactory(fa).GetTransport(asT(mustServer(other))))
		}
		t.Count("servers_made", 1)
	}
	if s == nil {
		t.Fail("%s: none was made", what)
		return
	}
	if e := s.Listen(); e != nil {
		if s.Addr().Network() == "unix" {
			t.Fail("%s: listen: %v", what, e)
		}
		return // the port was taken meanwhile
	}
	defer s.Close()
	c, e := dialAddr(s.Addr(), 5*time.Second)
	if e != nil {
		t.Fail("%s: cannot be reached at %v: %v", what, s.Addr(), e)
		return
	}
	defer c.Close()
	x, e := acceptTimed(t, s)
	if e != nil || x == nil {
		t.Fail("%s: accept: %v", what, e)
		return
	}
	defer x.Close()
	if timeout {
		took, e := timesOut(x, 15*time.Second)
		t.Count("timeouts", 1)
		if !isTimeout(e) || took < d*8/10 {
			t.Fail("%s of %v: a read without data from an accepted connection ended after %v with %v", what, d, took, e)
			return
		}
		if t.R.P(30) {
			took, e := fills(x, 15*time.Second)
			t.Count("write_timeouts", 1)
			if !isTimeout(e) || took < d*8/10 {
				t.Fail("%s of %v: writing to an accepted connection whose peer does not read ended after %v with %v", what, d, took, e)
			}
			return
		}
	}
	go func() {
		if !timeout {
			time.Sleep(d + 20*time.Millisecond)
		}
		c.Write([]byte{'C'})
	}()
	for i := 0; ; i++ {
		g, e := reaches(x)
		if e == nil && g == 'C' {
			break
		}
		if !timeout || i > 400 || e == nil {
			t.Fail("%s: reading from an accepted connection: %v", what, e)
			return
		}
	}
	t.Count("connections", 1)
}

func mustServer(a net.Addr) *thrift.TServerSocket {
	s, _ := thrift.NewTServerSocketAddr(a)
	return s
}

func httpFactories(t *T) {
	type hit struct {
		method, path, query string
		body                string
	}
	var mu sync.Mutex
	var hits []hit
	mk := func(name string) *httptest.Server {
		return httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			b, _ := io.ReadAll(r.Body)
			mu.Lock()
			hits = append(hits, hit{r.Method, name + r.URL.Path, r.URL.RawQuery, string(b)})
			mu.Unlock()
			fmt.Fprint(w, name+" answer")
		}))
	}
	a, b := mk("A"), mk("B")
	defer a.Close()
	defer b.Close()
	defer http.DefaultTransport.(*http.Transport).CloseIdleConnections()
	q := fmt.Sprintf("q=%d", t.R.Intn(1000))
	post := t.R.Bool()
	basePost := t.R.Bool()
	given := t.R.Intn(4)
	t.Desc(func() string { return fmt.Sprintf("factory post=%v, given %d (post=%v)", post, given, basePost) })
	t.Seen(uint64(given) | uint64(len(q))<<8 | b2u(post)<<4 | b2u(basePost)<<5)
	urlA := a.URL + "/fac?" + q
	f := thrift.NewTHttpClientTransportFactory(urlA)
	if post {
		f = thrift.NewTHttpPostClientTransportFactory(urlA)
	}
	var base thrift.TTransport
	wantPost, where := post, "A/fac"
	switch given {
	case 1:
		base = NewXT(nil)
	case 2, 3:
		var e error
		u := b.URL + "/trans?" + q
		if basePost {
			base, e = thrift.NewTHttpPostClient(u)
		} else {
			base, e = thrift.NewTHttpClient(u)
		}
		if e != nil {
			t.Fail("client: %v", e)
			return
		}
		defer base.Close()
		wantPost, where = basePost, "B/trans"
		if given == 3 && basePost {
			base.Write([]byte("left over"))
		}
	}
	mu.Lock()
	hits = nil
	mu.Unlock()
	n := f.GetTransport(base)
	if n == nil || n == base {
		t.Fail("the factory makes no new transport")
		return
	}
	defer n.Close()
	body := ""
	if wantPost {
		if len(hits) != 0 {
			t.Fail("making a posting client sent %v", hits)
			return
		}
		body = string(t.R.Bytes(t.R.Intn(50)))
		n.Write([]byte(body))
		if e := n.Flush(); e != nil {
			t.Fail("flush: %v", e)
			return
		}
	}
	got := make([]byte, 8)
	k, e := n.ReadAll(got)
	mu.Lock()
	hs := append([]hit(nil), hits...)
	mu.Unlock()
	method := "GET"
	if wantPost {
		method = "POST"
	}
	t.Count("http_requests", len(hs))
	t.Count("transports_made", 1)
	if len(hs) != 1 || hs[0] != (hit{method, where, q, body}) {
		t.Fail("requests %q, expected one %s to %s?%s with %q", hs, method, where, q, body)
		return
	}
	if e != nil || string(got[:k]) != where[:1]+" answer" {
		t.Fail("the answer is %q, %v", got[:k], e)
	}
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// onceServer gives out one connection and then waits to be closed.
type onceServer struct {
	c    chan thrift.TTransport
	done chan struct{}
	once sync.Once
}

func (s *onceServer) Listen() error { return nil }
func (s *onceServer) Accept() (thrift.TTransport, error) {
	select {
	case x := <-s.c:
		return x, nil
	case <-s.done:
		return nil, thrift.NewTTransportException(thrift.NOT_OPEN, "closed")
	}
}
func (s *onceServer) IsOpen() bool { return true }
func (s *onceServer) Close() error { s.once.Do(func() { close(s.done) }); return nil }
func (s *onceServer) Interrupt() error {
	return s.Close()
}

// markFactory marks what it makes.
type markTransFactory struct{ framed bool }

func (f *markTransFactory) GetTransport(x thrift.TTransport) thrift.TTransport {
	if f.framed {
		return thrift.NewTFramedTransport(x)
	}
	return x
}

type echoProcessor struct{ calls int }

func (p *echoProcessor) Process(in, out thrift.TProtocol) (bool, thrift.TException) {
	name, _, seq, e := in.ReadMessageBegin()
	if e != nil {
		return false, e
	}
	v, e := in.ReadI32()
	if e != nil {
		return false, e
	}
	in.ReadMessageEnd()
	p.calls++
	out.WriteMessageBegin(name, thrift.REPLY, seq)
	out.WriteI32(v + 1)
	out.WriteMessageEnd()
	out.Transport().Flush()
	return true, nil
}

func serverConstructors(t *T) {
	protos := []*Proto{pBinary, pCompact, pJSON}
	facs := []thrift.TProtocolFactory{thrift.NewTBinaryProtocolFactoryDefault(), thrift.NewTCompactProtocolFactory(), thrift.NewTJSONProtocolFactory()}
	ip, op := t.R.Intn(3), t.R.Intn(3)
	itf, otf := &markTransFactory{t.R.Bool()}, &markTransFactory{t.R.Bool()}
	st := &onceServer{c: make(chan thrift.TTransport, 1), done: make(chan struct{})}
	pr := &echoProcessor{}
	pf := thrift.NewTProcessorFactory(pr)
	kind := t.Idx % 12
	var s thrift.TServer
	byFac := true
	switch kind {
	case 0, 1, 6, 7:
		ip, op, itf, otf = 0, 0, &markTransFactory{}, &markTransFactory{}
	case 2, 3, 8, 9:
		op, otf = ip, itf
	}
	switch kind {
	case 0:
		s, byFac = thrift.NewTSimpleServer2(pr, st), false
	case 1:
		s = thrift.NewTSimpleServerFactory2(pf, st)
	case 2:
		s, byFac = thrift.NewTSimpleServer4(pr, st, itf, facs[ip]), false
	case 3:
		s = thrift.NewTSimpleServerFactory4(pf, st, itf, facs[ip])
	case 4:
		s, byFac = thrift.NewTSimpleServer6(pr, st, itf, otf, facs[ip], facs[op]), false
	case 5:
		s = thrift.NewTSimpleServerFactory6(pf, st, itf, otf, facs[ip], facs[op])
	case 6:
		s, byFac = thrift.NewTNonblockingServer2(pr, st), false
	case 7:
		s = thrift.NewTNonblockingServerFactory2(pf, st)
	case 8:
		s, byFac = thrift.NewTNonblockingServer4(pr, st, itf, facs[ip]), false
	case 9:
		s = thrift.NewTNonblockingServerFactory4(pf, st, itf, facs[ip])
	case 10:
		s, byFac = thrift.NewTNonblockingServer6(pr, st, itf, otf, facs[ip], facs[op]), false
	case 11:
		s = thrift.NewTNonblockingServerFactory6(pf, st, itf, otf, facs[ip], facs[op])
	}
	t.Desc(func() string {
		return fmt.Sprintf("constructor %d, in %s framed %v, out %s framed %v", kind, protos[ip].Name, itf.framed, protos[op].Name, otf.framed)
	})
	t.Seen(uint64(kind)<<16 | uint64(ip)<<8 | uint64(op)<<4 | b2u(itf.framed)<<1 | b2u(otf.framed))
	if s.ServerTransport() != thrift.TServerTransport(st) {
		t.Fail("the server transport is not the one given")
	}
	if byFac && s.ProcessorFactory() != pf || !byFac && s.ProcessorFactory().GetProcessor(nil) != thrift.TProcessor(pr) {
		t.Fail("the processor is not the one given")
	}
	switch kind {
	case 0, 1, 6, 7:
	default:
		if s.InputTransportFactory() != thrift.TTransportFactory(itf) || s.OutputTransportFactory() != thrift.TTransportFactory(otf) {
			t.Fail("the transport factories are not those given")
		}
		if s.InputProtocolFactory() != facs[ip] || s.OutputProtocolFactory() != facs[op] {
			t.Fail("the protocol factories are not those given")
		}
	}
	if s.InputTransportFactory() == nil || s.OutputTransportFactory() == nil || s.InputProtocolFactory() == nil || s.OutputProtocolFactory() == nil {
		t.Fail("a factory is missing")
		return
	}
	// one call through it
	here, there := net.Pipe()
	c, _ := thrift.NewTSocketConn(there)
	st.c <- c
	done := make(chan error, 1)
	go func() { done <- s.Serve() }()
	defer func() {
		here.Close()
		s.Stop()
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			t.Fail("the server does not stop")
		}
	}()
	v := int32(t.R.U64())
	x := NewXT(nil)
	q := protos[ip].New(x)
	q.WriteMessageBegin("add", thrift.CALL, 7)
	q.WriteI32(v)
	q.WriteMessageEnd()
	q.Flush()
	req := x.buf
	if itf.framed {
		h := make([]byte, 4)
		binary.BigEndian.PutUint32(h, uint32(len(req)))
		req = append(h, req...)
	}
	y := NewXT(nil)
	q = protos[op].New(y)
	q.WriteMessageBegin("add", thrift.REPLY, 7)
	q.WriteI32(v + 1)
	q.WriteMessageEnd()
	q.Flush()
	want := y.buf
	if otf.framed {
		h := make([]byte, 4)
		binary.BigEndian.PutUint32(h, uint32(len(want)))
		want = append(h, want...)
	}
	here.SetDeadline(time.Now().Add(20 * time.Second))
	go here.Write(req)
	got := make([]byte, len(want))
	n, e := io.ReadFull(here, got)
	t.Count("calls_through_servers", 1)
	if e != nil || !bytes.Equal(got, want) {
		t.Fail("the reply is %q, %v, not %q", clip(got[:n], 40), e, clip(want, 200))
	}
}

func factoryChecks(r *Run) {
	r.Cases("protocol factories", r.N(300, 6000), protocolFactories)
	r.Cases("transport and processor factories", r.N(400, 8000), plainFactories)
	r.Cases("stream factories", r.N(1000, 20000), streamFactories)
	r.Cases("socket factories", r.N(60, 600), socketFactories)
	r.Cases("socket timeouts", r.N(96, 800), socketTimeouts)
	r.Cases("server socket factories", r.N(96, 960), serverFactories)
	r.Cases("http factories", r.N(200, 2000), httpFactories)
	r.Cases("server constructors", r.N(480, 6000), serverConstructors)
}
