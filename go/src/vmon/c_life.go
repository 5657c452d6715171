package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"thrift"
	"time"
)

func init() { props["C15"] = lifeChecks }

// recorder is a TCP peer that greets every connection with bytes of its own and records what it receives.
type recorder struct {
	l     net.Listener
	greet int
	frame bool
	seed  uint64
	mu    sync.Mutex
	conns []*recConn
	wg    sync.WaitGroup
}

type recConn struct {
	c    net.Conn
	got  []byte
	done chan struct{}
}

func newRecorder(seed uint64, greet int, framed bool) (*recorder, error) {
	l, e := loListen(NewRng(seed))
	if e != nil {
		return nil, e
	}
	s := &recorder{l: l, greet: greet, frame: framed, seed: seed}
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		for {
			c, e := l.Accept()
			if e != nil {
				return
			}
			rc := &recConn{c: c, done: make(chan struct{})}
			s.mu.Lock()
			i := len(s.conns)
			s.conns = append(s.conns, rc)
			s.mu.Unlock()
			c.Write(s.wire(i))
			s.wg.Add(1)
			go func() {
				defer s.wg.Done()
				defer close(rc.done)
				buf := make([]byte, 65536)
				for {
					n, e := c.Read(buf)
					s.mu.Lock()
					rc.got = append(rc.got, buf[:n]...)
					s.mu.Unlock()
					if e != nil {
						c.Close()
						return
					}
				}
			}()
		}
	}()
	return s, nil
}

// content is what connection i sends, wire how it is sent.
func (s *recorder) content(i int) []byte {
	return NewRng(s.seed + uint64(i)*77777).Bytes(s.greet)
}

func (s *recorder) wire(i int) []byte {
	b := s.content(i)
	if !s.frame {
		return b
	}
	var w []byte
	for len(b) > 0 {
		n := 1 + len(b)/2
		w = append(w, frame(b[:n])...)
		b = b[n:]
	}
	return w
}

func (s *recorder) close() {
	s.l.Close()
	s.mu.Lock()
	for _, c := range s.conns {
		c.c.Close()
	}
	s.mu.Unlock()
	s.wg.Wait()
}

// wait returns what connection i received once the client closed it.
func (s *recorder) wait(i int) ([]byte, bool) {
	var rc *recConn
	for k := 0; k < 4000; k++ {
		s.mu.Lock()
		if i < len(s.conns) {
			rc = s.conns[i]
		}
		s.mu.Unlock()
		if rc != nil {
			break
		}
		time.Sleep(time.Millisecond)
	}
	if rc == nil {
		return nil, false
	}
	select {
	case <-rc.done:
	case <-time.After(20 * time.Second):
		return nil, false
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	return rc.got, true
}

func unframe(b []byte) []byte {
	var out []byte
	for len(b) >= 4 {
		n := int(binary.BigEndian.Uint32(b))
		b = b[4:]
		if n > len(b) {
			n = len(b)
		}
		out = append(out, b[:n]...)
		b = b[n:]
	}
	return out
}

// dialled drives a socket-like transport through random operations, against a peer that records every connection.
func dialled(t *T, kind string) {
	framed := strings.HasPrefix(kind, "framed")
	rec, e := newRecorder(t.R.U64(), 200+t.R.Intn(3000), framed)
	if e != nil {
		t.Count("no_loopback", 1)
		return
	}
	defer rec.close()
	addr := rec.l.Addr()
	var tr, base thrift.TTransport
	buffering := true
	open := false
	conn := -1 // index of the current connection
	switch strings.TrimPrefix(kind, "framed-") {
	case "socket":
		tr = thrift.NewTSocketAddr(addr)
	case "socket-timeout":
		tr = thrift.NewTSocket(addr, int64(time.Minute))
	case "socket-conn":
		c, e := dialAddr(addr, 5*time.Second)
		if e != nil {
			return
		}
		tr, _ = thrift.NewTSocketConn(c)
		open, conn = true, 0
	case "nonblocking":
		tr, _ = thrift.NewTNonblockingSocketAddr(addr)
		buffering = false
	case "nonblocking-timeout":
		tr, _ = thrift.NewTNonblockingSocketAddrTimeout(addr, int64(time.Minute))
		buffering = false
	case "nonblocking-factory":
		tr = thrift.NewTNonblockingSocketTransportFactory(addr).GetTransport(nil)
		buffering = false
	case "nonblocking-conn":
		c, e := dialAddr(addr, 5*time.Second)
		if e != nil {
			return
		}
		tr, _ = thrift.NewTNonblockingSocketConn(c)
		open, conn = true, 0
		buffering = false
	}
	base = tr
	if framed {
		tr = thrift.NewTFramedTransport(tr)
		buffering = true
	}
	defer tr.Close()
	var ops []string
	t.Desc(func() string { return kind + ": " + strings.Join(ops, " ") })
	nconn := conn + 1
	var flushed, written []byte // on the current connection
	rd := 0                     // greeting bytes read on it
	stale := false              // written to a buffering transport while it was closed
	dead := false               // the peer's end is gone
	h := hashStr(3, kind)
	drained := func() bool { return rd == rec.greet }
	checkConn := func() bool { // the connection has just been closed by us
		got, ok := rec.wait(conn)
		if !ok {
			t.Fail("connection %d was not closed", conn)
			return false
		}
		if framed {
			got = unframe(got)
		}
		if commonLen(written, got) != len(got) {
			t.Fail("connection %d received other bytes than were written while it was open (%d bytes, differing at %d)", conn, len(got), commonLen(written, got))
			return false
		}
		if drained() && len(got) < len(flushed) {
			t.Fail("connection %d received %d of the %d bytes flushed while it was open", conn, len(got), len(flushed))
			return false
		}
		t.Count("connections_checked", 1)
		return true
	}
	check := func(after string) bool {
		if got := tr.IsOpen(); got != open {
			t.Fail("after %s the transport says open=%v", after, got)
			return false
		}
		if got := tr.Peek(); got && !open {
			t.Fail("after %s peek says there may be more to read although the transport is closed", after)
			return false
		}
		if base.IsOpen() != open {
			t.Fail("after %s the underlying transport says open=%v", after, !open)
			return false
		}
		return true
	}
	if !check("creation") {
		return
	}
	steps := 8 + t.R.Intn(30)
	for i := 0; i < steps; i++ {
		op := []string{"open", "close", "read", "readall", "write", "flush", "state", "interrupt", "write"}[t.R.Intn(9)]
		h = hashStr(h, op)
		ops = append(ops, op)
		t.Count("operations", 1)
		switch op {
		case "open":
			if stale {
				tr.Close()
				stale = false
			}
			e := tr.Open()
			if open {
				if e == nil {
					t.Fail("opening an open transport reports no error")
					return
				}
				t.Count("open_twice", 1)
				break
			}
			if e != nil {
				t.Fail("open failed: %v", e)
				return
			}
			open, dead = true, false
			conn = nconn
			nconn++
			flushed, written, rd = nil, nil, 0
			t.Count("reopened", 1)
		case "close":
			// reading everything first makes the close orderly
			if open && t.R.P(70) && !drained() && !dead {
				if !readGreeting(t, tr, rec.content(conn), &rd, rec.greet-rd) {
					return
				}
			}
			if e := tr.Close(); e != nil {
				t.Fail("close failed: %v", e)
				return
			}
			was := open
			open, stale = false, false
			if was && !checkConn() {
				return
			}
		case "interrupt":
			in, ok := base.(interface{ Interrupt() error })
			if !ok || !t.R.P(30) {
				break
			}
			if open && !drained() && !readGreeting(t, tr, rec.content(conn), &rd, rec.greet-rd) {
				return
			}
			if e := in.Interrupt(); e != nil {
				t.Fail("interrupt failed: %v", e)
				return
			}
			t.Count("interrupted", 1)
			if !open {
				break
			}
			// nothing passes any more, and closing works
			if n, e := tr.Read(make([]byte, 4)); e == nil {
				t.Fail("a read after an interrupt returned %d bytes", n)
				return
			}
			if e := tr.Close(); e != nil {
				t.Fail("close after an interrupt failed: %v", e)
				return
			}
			open = false
			if !checkConn() {
				return
			}
		case "read", "readall":
			n := 1 + t.R.Intn(300)
			if open {
				if left := rec.greet - rd; n > left {
					n = left
				}
				if n == 0 {
					break
				}
				if !readGreeting(t, tr, rec.content(conn), &rd, n) {
					return
				}
				break
			}
			var k int
			var e error
			if op == "read" {
				k, e = tr.Read(make([]byte, n))
			} else {
				k, e = tr.ReadAll(make([]byte, n))
			}
			if e == nil || k != 0 {
				t.Fail("%s on a closed transport returned %d, %v", op, k, e)
				return
			}
			if !isNotOpen(e) {
				t.Fail("%s on a closed transport is reported as %v (%s)", op, e, errType(e))
				return
			}
			t.Count("closed_operations_refused", 1)
		case "write":
			b := t.R.Bytes(t.R.chunk(3000))
			k, e := writeScribbled(tr, b)
			if open {
				if e != nil || k != len(b) {
					t.Fail("write of %d bytes returned %d, %v", len(b), k, e)
					return
				}
				written = append(written, b...)
				if !buffering {
					flushed = append(flushed, b...)
				}
				break
			}
			if e == nil && !framed {
				t.Fail("a write to a closed transport returned %d without an error", k)
				return
			}
			if e == nil {
				stale = true
			} else {
				t.Count("closed_operations_refused", 1)
			}
		case "flush":
			e := tr.Flush()
			if open {
				if e != nil {
					t.Fail("flush failed: %v", e)
					return
				}
				flushed = append([]byte(nil), written...)
				break
			}
			if e == nil {
				t.Fail("a flush of a closed transport returned no error")
				return
			}
			if !isNotOpen(e) {
				t.Fail("a flush of a closed transport is reported as %v (%s)", e, errType(e))
				return
			}
			t.Count("closed_operations_refused", 1)
		}
		if !check(op) {
			return
		}
	}
	if open {
		if !drained() && !readGreeting(t, tr, rec.content(conn), &rd, rec.greet-rd) {
			return
		}
		if e := tr.Close(); e != nil {
			t.Fail("the last close failed: %v", e)
			return
		}
		open = false
		if !checkConn() || !check("close") {
			return
		}
	}
	if e := tr.Close(); e != nil {
		t.Fail("closing again failed: %v", e)
	}
	rec.mu.Lock()
	if len(rec.conns) != nconn {
		t.Fail("%d connections were made instead of %d", len(rec.conns), nconn)
	}
	rec.mu.Unlock()
	t.Seen(h)
}

func isNotOpen(e error) bool {
	te, ok := e.(thrift.TTransportException)
	return ok && te.TypeId() == thrift.NOT_OPEN
}

func readGreeting(t *T, tr thrift.TTransport, want []byte, rd *int, n int) bool {
	for n > 0 {
		m := n
		if t.R.Bool() {
			m = 1 + t.R.Intn(n)
		}
		buf := make([]byte, m)
		var k int
		var e error
		if t.R.Bool() {
			k, e = tr.Read(buf)
		} else {
			k, e = tr.ReadAll(buf)
		}
		if e != nil || k == 0 || k > m {
			t.Fail("reading %d bytes at %d of %d returned %d, %v", m, *rd, len(want), k, e)
			return false
		}
		if !bytes.Equal(buf[:k], want[*rd:*rd+k]) {
			t.Fail("the bytes read at %d are not those of this connection", *rd)
			return false
		}
		*rd += k
		n -= k
	}
	return true
}

// stream-like transports: closing is final for the streams behind them.
type trackStream struct {
	bytes.Buffer
	closed  int
	closeOK error
}

func (s *trackStream) Close() error { s.closed++; return s.closeOK }

func streamLife(t *T) {
	in, out := &trackStream{}, &trackStream{}
	in.Write(bytes.Repeat([]byte("0123456789"), 50))
	if t.R.P(20) {
		in.closeOK = io.ErrClosedPipe
	}
	var tr thrift.TTransport
	canRead, canWrite := true, true
	kind := t.Idx % 10
	same := false
	switch kind % 5 {
	case 0:
		tr = thrift.NewTIOStreamTransportR(in)
		canWrite = false
	case 1:
		tr = thrift.NewTIOStreamTransportW(out)
		canRead = false
	case 2:
		tr = thrift.NewTIOStreamTransportRAndW(in, out)
	case 3:
		tr = thrift.NewTIOStreamTransportRW(in)
		same = true
	case 4:
		tr = thrift.NewTIOStreamTransportDefault()
		canRead, canWrite = false, false
	}
	framed := kind >= 5
	if framed {
		tr = thrift.NewTFramedTransport(tr)
	}
	open := canRead || canWrite
	var ops []string
	t.Desc(func() string {
		return fmt.Sprintf("stream constructor %d framed=%v: %s", kind%5, framed, strings.Join(ops, " "))
	})
	h := uint64(kind + 1)
	for i, n := 0, 4+t.R.Intn(20); i < n; i++ {
		op := []string{"open", "close", "read", "readall", "write", "flush", "state", "write", "read"}[t.R.Intn(9)]
		if op == "close" && open && i < 3 && t.R.P(60) {
			op = "flush"
		}
		ops = append(ops, op)
		h = hashStr(h, op)
		t.Count("operations", 1)
		switch op {
		case "open":
			tr.Open()
		case "close":
			if e := tr.Close(); e != nil && in.closeOK == nil {
				t.Fail("close failed: %v", e)
				return
			}
			open, canRead, canWrite = false, false, false
		case "read", "readall":
			b := make([]byte, 3)
			var k int
			var e error
			if op == "read" {
				k, e = tr.Read(b)
			} else {
				k, e = tr.ReadAll(b)
			}
			if !canRead {
				if e == nil || k != 0 || !isNotOpen(e) {
					t.Fail("%s without an input stream returned %d, %v (%s)", op, k, e, errType(e))
					return
				}
				t.Count("closed_operations_refused", 1)
			}
		case "write":
			k, e := tr.Write([]byte("abc"))
			if canWrite && (e != nil || k != 3) {
				t.Fail("write returned %d, %v", k, e)
				return
			}
			if !canWrite && !framed && (e == nil || k != 0 || !isNotOpen(e)) {
				t.Fail("a write without an output stream returned %d, %v (%s)", k, e, errType(e))
				return
			}
		case "flush":
			e := tr.Flush()
			if canWrite && e != nil || !canWrite && (e == nil || !isNotOpen(e)) {
				t.Fail("flush with output=%v returned %v", canWrite, e)
				return
			}
		}
		if tr.IsOpen() != open || tr.Peek() && !open {
			t.Fail("after %s the transport says open=%v, peek=%v", op, tr.IsOpen(), tr.Peek())
			return
		}
	}
	tr.Close()
	wantIn, wantOut := kind%5 != 1 && kind%5 != 4, kind%5 == 1 || kind%5 == 2
	if wantIn != (in.closed > 0) || wantOut != (out.closed > 0) {
		t.Fail("after closing, input closed %d times, output %d times", in.closed, out.closed)
		return
	}
	if in.closed > 1 || out.closed > 1 {
		t.Fail("streams were closed %d and %d times (shared: %v)", in.closed, out.closed, same)
		return
	}
	t.Seen(h)
}

func memoryLife(t *T) {
	m := thrift.NewTMemoryBuffer()
	var tr thrift.TTransport = m
	var ops []string
	t.Desc(func() string { return strings.Join(ops, " ") })
	n := 0
	h := uint64(1)
	for i := 0; i < 30; i++ {
		op := []string{"open", "close", "read", "readall", "write", "flush", "state"}[t.R.Intn(7)]
		ops = append(ops, op)
		h = hashStr(h, op)
		t.Count("operations", 1)
		switch op {
		case "open":
			tr.Open()
		case "close":
			if e := tr.Close(); e != nil {
				t.Fail("close: %v", e)
				return
			}
			n = 0
		case "read":
			k, e := tr.Read(make([]byte, 2))
			if n == 0 && (e == nil || k != 0) || n > 0 && (e != nil || k == 0 || k > n) {
				t.Fail("read with %d bytes returned %d, %v", n, k, e)
				return
			}
			n -= k
		case "readall":
			k, e := tr.ReadAll(make([]byte, 2))
			if (e == nil) != (n >= 2) || k > n {
				t.Fail("readall(2) with %d bytes returned %d, %v", n, k, e)
				return
			}
			n -= k
		case "write":
			if k, e := tr.Write([]byte("xyz")); k != 3 || e != nil {
				t.Fail("write: %d, %v", k, e)
				return
			}
			n += 3
		case "flush":
			if e := tr.Flush(); e != nil {
				t.Fail("flush: %v", e)
				return
			}
		}
		if !tr.IsOpen() {
			t.Fail("a memory buffer says it is not open")
			return
		}
		if !tr.Peek() && n > 0 {
			t.Fail("a memory buffer with %d bytes says there is nothing to read", n)
			return
		}
	}
	t.Seen(h)
}

func httpLife(t *T) {
	var mu sync.Mutex
	var reqs [][]byte
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		b, _ := io.ReadAll(q.Body)
		mu.Lock()
		reqs = append(reqs, b)
		i := len(reqs)
		mu.Unlock()
		fmt.Fprintf(w, "response %06d|", i)
	}))
	defer srv.Close()
	defer http.DefaultTransport.(*http.Transport).CloseIdleConnections()
	post := t.Idx%4 != 3
	framed := t.Idx%4 == 2
	var tr thrift.TTransport
	var e error
	if post {
		tr, e = thrift.NewTHttpPostClient(srv.URL)
	} else {
		tr, e = thrift.NewTHttpClient(srv.URL)
	}
	if e != nil {
		t.Fail("no transport: %v", e)
		return
	}
	if framed {
		tr = thrift.NewTFramedTransport(tr)
	}
	open := true
	var ops []string
	t.Desc(func() string { return fmt.Sprintf("post=%v framed=%v: %s", post, framed, strings.Join(ops, " ")) })
	var pend []byte
	nreq := 0
	rest := 0 // unread bytes of the current response, 0 if there is none
	if !post {
		nreq, rest = 1, 16
	}
	h := uint64(t.Idx%4 + 1)
	for i, n := 0, 6+t.R.Intn(20); i < n; i++ {
		op := []string{"open", "close", "read", "write", "flush", "state", "write", "read"}[t.R.Intn(8)]
		ops = append(ops, op)
		h = hashStr(h, op)
		t.Count("operations", 1)
		switch op {
		case "open":
			e := tr.Open()
			if e == nil {
				if !tr.IsOpen() {
					t.Fail("open succeeded but the transport is not open")
					return
				}
				if !open {
					t.Count("reopened", 1)
					if framed {
						// what was written to the framed transport while it was closed was dropped by the close below
						tr.Close()
						tr.Open()
					}
				}
				open = true
			} else if open {
				break
			}
		case "close":
			if e := tr.Close(); e != nil {
				t.Fail("close: %v", e)
				return
			}
			open, pend, rest = false, nil, 0
		case "read":
			if framed {
				break
			}
			k := 1 + t.R.Intn(10)
			b := make([]byte, k)
			got, e := tr.Read(b)
			if rest == 0 {
				if e == nil || got != 0 {
					t.Fail("a read without a response returned %d, %v", got, e)
					return
				}
				t.Count("closed_operations_refused", 1)
				break
			}
			want := fmt.Sprintf("response %06d|", nreq)
			pos := len(want) - rest
			if got > rest || string(b[:got]) != want[pos:pos+got] || got == 0 {
				t.Fail("read %q, %v instead of the next bytes of %q", b[:got], e, want)
				return
			}
			rest -= got
		case "write":
			b := t.R.Bytes(t.R.chunk(2000))
			k, e := writeScribbled(tr, b)
			if !open || !post {
				if e == nil && !framed {
					t.Fail("a write to a transport that cannot take it returned %d without an error", k)
					return
				}
				t.Count("closed_operations_refused", 1)
				break
			}
			if e != nil || k != len(b) {
				t.Fail("write: %d, %v", k, e)
				return
			}
			pend = append(pend, b...)
		case "flush":
			e := tr.Flush()
			if !open || !post {
				if e == nil {
					t.Fail("a flush of a transport that cannot send returned no error")
					return
				}
				t.Count("closed_operations_refused", 1)
				break
			}
			if e != nil {
				t.Fail("flush: %v", e)
				return
			}
			nreq++
			rest = 16
			mu.Lock()
			want := pend
			if framed {
				want = frame(pend)
			}
			ok := len(reqs) == nreq && bytes.Equal(reqs[nreq-1], want)
			mu.Unlock()
			if !ok {
				t.Fail("request %d is not what was written since the last flush or opening", nreq)
				return
			}
			pend = nil
			t.Count("connections_checked", 1)
		}
		if tr.IsOpen() != open || tr.Peek() && !open {
			t.Fail("after %s the transport says open=%v, peek=%v", op, tr.IsOpen(), tr.Peek())
			return
		}
	}
	if e := tr.Close(); e != nil {
		t.Fail("close: %v", e)
	}
	if e := tr.Close(); e != nil {
		t.Fail("second close: %v", e)
	}
	t.Seen(h)
}

type serverTrans interface {
	thrift.TServerTransport
	thrift.TTransport
}

// serverLife drives server sockets.
func serverLife(t *T) {
	a, e := freeAddr(t.R)
	if e != nil {
		return
	}
	var s interface {
		thrift.TServerTransport
		Open() error
		IsOpen() bool
		Peek() bool
		Read([]byte) (int, error)
		ReadAll([]byte) (int, error)
		Write([]byte) (int, error)
		Flush() error
	}
	lazy := true
	open := false
	kind := t.Idx % 5
	switch kind {
	case 0:
		s, _ = thrift.NewTServerSocketAddr(a)
	case 1:
		s = thrift.NewTServerSocketTransportFactory(a, 0).GetTransport(nil).(*thrift.TServerSocket)
	case 2:
		s, _ = thrift.NewTNonblockingServerSocketAddr(a)
		lazy = false
	case 3:
		s = thrift.NewTNonblockingServerSocketTransportFactory(a).GetTransport(nil).(*thrift.TNonblockingServerSocket)
		lazy = false
	case 4:
		l, e := net.Listen(a.Network(), a.String())
		if e != nil {
			return
		}
		s, _ = thrift.NewTNonblockingServerSocketListener(l)
		lazy = false
		open = true
	}
	defer s.Close()
	var ops []string
	t.Desc(func() string { return fmt.Sprintf("server socket kind %d: %s", kind, strings.Join(ops, " ")) })
	h := uint64(kind + 1)
	used := false
	inUse := func(e error) bool { return e != nil && strings.Contains(e.Error(), "in use") }
	for i, n := 0, 6+t.R.Intn(16); i < n; i++ {
		op := []string{"open", "listen", "close", "interrupt", "accept", "io", "accept-wait", "accept"}[t.R.Intn(8)]
		if op == "accept" && !open && lazy && !used {
			op = "listen"
		}
		ops = append(ops, op)
		h = hashStr(h, op)
		t.Count("operations", 1)
		switch op {
		case "open":
			e := s.Open()
			if open {
				if e == nil {
					t.Fail("opening an open server socket reports no error")
					return
				}
				t.Count("open_twice", 1)
				break
			}
			if inUse(e) {
				t.Count("port_taken", 1)
				return
			}
			if e != nil {
				t.Fail("open: %v", e)
				return
			}
			open, used = true, true
		case "listen":
			e := s.Listen()
			if !open && inUse(e) {
				t.Count("port_taken", 1)
				return
			}
			if e != nil {
				t.Fail("listen: %v", e)
				return
			}
			open, used = true, true
		case "close", "interrupt":
			var e error
			if op == "close" {
				e = s.Close()
			} else {
				e = s.Interrupt()
			}
			if e != nil {
				t.Fail("%s: %v", op, e)
				return
			}
			if open || used {
				used = true
			}
			open = false
			if kind < 2 {
				used = true
			}
		case "accept":
			if !open {
				c, e := acceptTimed(t, s)
				if t.Failed() {
					return
				}
				if e == nil {
					t.Fail("accepting on a closed server socket returned %v", c)
					return
				}
				t.Count("closed_operations_refused", 1)
				break
			}
			cl, e := dialAddr(a, 5*time.Second)
			if e != nil {
				t.Fail("an open server socket cannot be reached: %v", e)
				return
			}
			tag := t.R.Bytes(8)
			cl.Write(tag)
			c, e := acceptTimed(t, s)
			if e != nil {
				cl.Close()
				t.Fail("accept: %v", e)
				return
			}
			got := make([]byte, 8)
			if _, e := c.ReadAll(got); e != nil || !bytes.Equal(got, tag) {
				t.Fail("the accepted transport reads %x, %v instead of %x", got, e, tag)
			}
			if !c.IsOpen() {
				t.Fail("the accepted transport is not open")
			}
			c.Close()
			cl.Close()
			t.Count("connections_checked", 1)
		case "accept-wait":
			// an accept that is waiting returns when the socket is closed or interrupted
			if !open {
				break
			}
			type res struct {
				c thrift.TTransport
				e error
			}
			ch := make(chan res, 1)
			go func() { c, e := s.Accept(); ch <- res{c, e} }()
			time.Sleep(time.Duration(t.R.Intn(1500)) * time.Microsecond)
			var e error
			if t.R.Bool() {
				e = s.Interrupt()
			} else {
				e = s.Close()
			}
			if e != nil {
				t.Fail("ending a waiting accept: %v", e)
				return
			}
			select {
			case v := <-ch:
				if v.e == nil {
					t.Fail("an interrupted accept returned %v", v.c)
					return
				}
			case <-time.After(20 * time.Second):
				t.Fail("an accept still waits 20 s after the server socket was closed")
				return
			}
			open, used = false, true
			t.Count("accepts_interrupted", 1)
		case "io":
			b := make([]byte, 3)
			if _, e := s.Read(b); e == nil {
				t.Fail("a server socket can be read from")
			}
			if _, e := s.ReadAll(b); e == nil {
				t.Fail("a server socket can be read from")
			}
			if _, e := s.Write(b); e == nil {
				t.Fail("a server socket can be written to")
			}
			if e := s.Flush(); e == nil {
				t.Fail("a server socket can be flushed")
			}
		}
		if t.Failed() {
			return
		}
		if s.IsOpen() != open || s.Peek() && !open {
			t.Fail("after %s the server socket says open=%v", op, s.IsOpen())
			return
		}
		// what it says is what a client sees
		if t.R.P(20) {
			c, e := dialAddr(a, 5*time.Second)
			if e == nil {
				self := c.LocalAddr().String() == c.RemoteAddr().String() // a TCP socket can connect to itself
				c.Close()
				if open {
					if x, e := acceptTimed(t, s); e == nil {
						x.Close()
					}
				} else if !self && !strings.HasPrefix(a.String(), "127.0.0.1:") {
					t.Fail("after %s a closed server socket still takes connections", op)
					return
				}
			} else if open {
				t.Fail("after %s an open server socket cannot be reached: %v", op, e)
				return
			}
		}
	}
	if e := s.Close(); e != nil {
		t.Fail("close: %v", e)
	}
	if e := s.Close(); e != nil {
		t.Fail("second close: %v", e)
	}
	t.Seen(h)
}

func acceptTimed(t *T, s thrift.TServerTransport) (thrift.TTransport, error) {
	type res struct {
		c thrift.TTransport
		e error
	}
	ch := make(chan res, 1)
	go func() { c, e := s.Accept(); ch <- res{c, e} }()
	select {
	case v := <-ch:
		return v.c, v.e
	case <-time.After(20 * time.Second):
		t.Fail("accept does not return")
		return nil, io.ErrNoProgress
	}
}

// httpBad: clients that cannot be made are not made.
func httpBad(t *T) {
	for _, u := range []string{"http://[::1", "http://a b/", "%zz", "http://127.0.0.1:1/x", "nosuchscheme://x", "http://127.0.0.1:port/"} {
		t.Count("failed_opens", 1)
		c, e := thrift.NewTHttpClient(u)
		if e == nil || c != nil {
			t.Fail("a client for %q was made: %v, %v", u, c, e)
		}
		p, e := thrift.NewTHttpPostClient(u)
		if e != nil {
			if p != nil {
				t.Fail("making a posting client for %q failed with %v, but gave one", u, e)
			}
			continue
		}
		p.Write([]byte("x"))
		if e := p.Flush(); e == nil {
			t.Fail("a request to %q is reported as sent", u)
		}
		p.Close()
	}
}

func lifeChecks(r *Run) {
	r.Cases("http clients that cannot be", 3, httpBad)
	thrift.LOGGER.SetOutput(io.Discard)
	for _, k := range []string{"socket", "socket-timeout", "socket-conn", "nonblocking", "nonblocking-timeout", "nonblocking-factory", "nonblocking-conn",
		"framed-socket", "framed-socket-conn", "framed-nonblocking"} {
		k := k
		r.Cases("dial-"+k, r.N(80, 2000), func(t *T) { dialled(t, k) })
	}
	r.Cases("stream", r.N(600, 10000), streamLife)
	r.Cases("memory", r.N(200, 2000), memoryLife)
	r.Cases("http", r.N(160, 2500), httpLife)
	r.Cases("server-socket", r.N(300, 5000), serverLife)
	// addresses that cannot be opened
	r.Cases("unreachable", r.N(40, 200), func(t *T) {
		a, e := freeAddr(t.R)
		if e != nil {
			return
		}
		var tr thrift.TTransport
		switch t.Idx % 5 {
		case 0:
			tr = thrift.NewTSocketAddr(a)
		case 1:
			tr = thrift.NewTSocket(a, int64(10*time.Second))
		case 2:
			tr, _ = thrift.NewTNonblockingSocketAddr(a)
		case 3:
			tr = thrift.NewTSocketAddr(nil)
		case 4:
			tr, _ = thrift.NewTNonblockingSocketAddr(nil)
		}
		if t.R.Bool() {
			tr = thrift.NewTFramedTransport(tr)
		}
		for i := 0; i < 3; i++ {
			e := tr.Open()
			if e == nil {
				// a TCP socket dialling a free local port can connect to itself
				t.Count("self_connected", 1)
				tr.Close()
				continue
			}
			if tr.IsOpen() {
				t.Fail("open failed (%v) and the transport says it is open", e)
				return
			}
			if n, e := tr.Read(make([]byte, 1)); e == nil {
				t.Fail("a read after a failed open returned %d", n)
				return
			}
			if e := tr.Close(); e != nil {
				t.Fail("close after a failed open: %v", e)
				return
			}
		}
		t.Count("failed_opens", 1)
		t.Seen(uint64(t.Idx%5) + 1)
	})
	// the peer goes away in several ways: every operation stays safe, and the transport can be closed and opened again
	r.Cases("peer-gone", r.N(120, 2000), func(t *T) {
		l, e := net.Listen("tcp", "127.0.0.1:0")
		if e != nil {
			return
		}
		defer l.Close()
		var tr thrift.TTransport
		if t.Idx%2 == 0 {
			tr = thrift.NewTSocketAddr(l.Addr())
		} else {
			tr, _ = thrift.NewTNonblockingSocketAddr(l.Addr())
		}
		if t.Idx%3 == 0 {
			tr = thrift.NewTFramedTransport(tr)
		}
		var ops []string
		t.Desc(func() string { return strings.Join(ops, " ") })
		h := uint64(t.Idx % 6)
		for round := 0; round < 3; round++ {
			if e := tr.Open(); e != nil {
				t.Fail("open: %v", e)
				return
			}
			c, e := l.Accept()
			if e != nil {
				return
			}
			if t.R.Bool() {
				c.(*net.TCPConn).SetLinger(0)
			}
			c.Close()
			dead := false
			for i, n := 0, t.R.Intn(8); i < n; i++ {
				op := []string{"read", "write", "flush", "readall", "peek"}[t.R.Intn(5)]
				ops = append(ops, op)
				h = hashStr(h, op)
				switch op {
				case "read", "readall":
					var k int
					var e error
					if op == "read" {
						k, e = tr.Read(make([]byte, 2))
					} else {
						k, e = tr.ReadAll(make([]byte, 2))
					}
					if e == nil || k != 0 {
						t.Fail("reading from a peer that is gone returned %d, %v", k, e)
						return
					}
					dead = true
				case "write":
					tr.Write([]byte("abcdef"))
				case "flush":
					tr.Flush()
				case "peek":
					tr.Peek()
				}
			}
			_ = dead
			ops = append(ops, "close")
			if e := tr.Close(); e != nil {
				t.Fail("close with the peer gone: %v", e)
				return
			}
			if tr.IsOpen() {
				t.Fail("closed but still open")
				return
			}
			t.Count("peers_gone", 1)
		}
		// the connection made afterwards starts clean
		if e := tr.Open(); e != nil {
			t.Fail("open: %v", e)
			return
		}
		c, e := l.Accept()
		if e != nil {
			return
		}
		tr.Write([]byte("fresh"))
		if e := tr.Flush(); e != nil {
			t.Fail("flush on a fresh connection: %v", e)
		}
		tr.Close()
		got, _ := io.ReadAll(c)
		c.Close()
		if t.Idx%3 == 0 {
			got = unframe(got)
		}
		if string(got) != "fresh" {
			t.Fail("the fresh connection received %q", got)
		}
		t.Seen(h)
	})
}
