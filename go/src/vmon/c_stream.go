package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"thrift"
	"time"
)

func init() { props["C14"] = streamChecks }

// pipe is a way for bytes to travel from one transport to another.
type pipe struct {
	w, r  thrift.TTransport
	endW  func()     // no more bytes will come: the reader shall see the end
	clean func()     // release everything
	live  bool       // reads block when no bytes are there
	eager func() int // bytes the reading side can have seen already, if that is known
	note  string
}

type pipeKind struct {
	name string
	open func(r *Rng) (*pipe, error)
}

func tcpPair() (net.Conn, net.Conn, error) {
	l, e := net.Listen("tcp", "127.0.0.1:0")
	if e != nil {
		return nil, nil, e
	}
	defer l.Close()
	c, e := net.Dial("tcp", l.Addr().String())
	if e != nil {
		return nil, nil, e
	}
	s, e := l.Accept()
	if e != nil {
		c.Close()
		return nil, nil, e
	}
	return c, s, nil
}

func closers(ts ...io.Closer) func() {
	return func() {
		for _, t := range ts {
			t.Close()
		}
	}
}

var pipeKinds = []pipeKind{
	{"memory", func(r *Rng) (*pipe, error) {
		var m *thrift.TMemoryBuffer
		switch r.Intn(4) {
		case 0:
			m = thrift.NewTMemoryBuffer()
		case 1:
			m = thrift.NewTMemoryBufferLen(r.Intn(3000))
		case 2:
			m = thrift.NewTMemoryBufferTransportFactory(r.Intn(100)).GetTransport(nil).(*thrift.TMemoryBuffer)
		case 3:
			m = thrift.NewTMemoryBufferTransportFactory(r.Intn(100)).GetTransport(thrift.NewTMemoryBufferLen(r.Intn(50))).(*thrift.TMemoryBuffer)
		}
		return &pipe{w: m, r: m, endW: func() {}, clean: func() {}}, nil
	}},
	{"iostream-buffers", func(r *Rng) (*pipe, error) {
		b := new(bytes.Buffer)
		return &pipe{w: thrift.NewTIOStreamTransportW(b), r: thrift.NewTIOStreamTransportR(b), endW: func() {}, clean: func() {}}, nil
	}},
	{"iostream-rw", func(r *Rng) (*pipe, error) {
		b := new(bytes.Buffer)
		s := thrift.NewTIOStreamTransportRW(b)
		return &pipe{w: s, r: s, endW: func() {}, clean: func() {}}, nil
	}},
	{"iostream-rw-buffered", func(r *Rng) (*pipe, error) {
		b := new(bytes.Buffer)
		n := []int{16, 100, 4096}[r.Intn(3)]
		s := thrift.NewTIOStreamTransportRW(bufio.NewReadWriter(bufio.NewReaderSize(b, n), bufio.NewWriterSize(b, n)))
		return &pipe{w: s, r: s, endW: func() {}, clean: func() {}}, nil
	}},
	{"iostream-over-transport", func(r *Rng) (*pipe, error) {
		m := thrift.NewTMemoryBuffer()
		f := thrift.NewTFramedTransport(m)
		switch r.Intn(3) {
		case 0:
			return &pipe{w: thrift.NewTIOStreamTransportW(f), r: thrift.NewTIOStreamTransportR(f), endW: func() {}, clean: func() {}}, nil
		case 1:
			s := thrift.NewTIOStreamTransportRW(f)
			return &pipe{w: s, r: s, endW: func() {}, clean: func() {}}, nil
		}
		g := thrift.NewTFramedTransport(thrift.NewTIOStreamTransportRW(m))
		return &pipe{w: g, r: g, endW: func() {}, clean: func() {}}, nil
	}},
	{"iostream-randw", func(r *Rng) (*pipe, error) {
		b := new(bytes.Buffer)
		s := thrift.NewTIOStreamTransportRAndW(b, b)
		return &pipe{w: s, r: s, endW: func() {}, clean: func() {}}, nil
	}},
	{"iostream-factory", func(r *Rng) (*pipe, error) {
		b := new(bytes.Buffer)
		src, dst := io.Reader(b), io.Writer(b)
		var w, rd thrift.TTransport
		if r.Bool() {
			w = thrift.NewTIOStreamTransportFactory(nil, dst, false).GetTransport(nil)
			rd = thrift.NewTIOStreamTransportFactory(src, nil, false).GetTransport(nil)
		} else {
			f := thrift.NewTIOStreamTransportFactory(src, dst, false)
			w = f.GetTransport(nil)
			rd = w
		}
		return &pipe{w: w, r: rd, endW: func() {}, clean: func() {}}, nil
	}},
	{"iostream-fragments", func(r *Rng) (*pipe, error) {
		b := new(bytes.Buffer)
		f := &fragReader{r: b, rng: NewRng(r.U64())}
		return &pipe{w: thrift.NewTIOStreamTransportW(b), r: thrift.NewTIOStreamTransportR(f), endW: func() {}, clean: func() {}}, nil
	}},
	{"iostream-pipe", func(r *Rng) (*pipe, error) {
		rd, wr, e := os.Pipe()
		if e != nil {
			return nil, e
		}
		return &pipe{w: thrift.NewTIOStreamTransportW(wr), r: thrift.NewTIOStreamTransportR(rd), live: true,
			endW: func() { wr.Close() }, clean: closers(wr, rd)}, nil
	}},
	{"socket", func(r *Rng) (*pipe, error) {
		c, s, e := tcpPair()
		if e != nil {
			return nil, e
		}
		w, _ := thrift.NewTSocketConn(c)
		rd, _ := thrift.NewTSocketConnTimeout(s, int64(time.Minute))
		return &pipe{w: w, r: rd, live: true, endW: func() { w.Close() }, clean: closers(w, rd)}, nil
	}},
	{"socket-framed", func(r *Rng) (*pipe, error) {
		c, s, e := tcpPair()
		if e != nil {
			return nil, e
		}
		a, _ := thrift.NewTSocketConnTimeout(c, int64(time.Minute))
		b, _ := thrift.NewTSocketConn(s)
		w, rd := thrift.NewTFramedTransport(a), thrift.NewTFramedTransport(b)
		return &pipe{w: w, r: rd, live: true, endW: func() { w.Close() }, clean: closers(w, rd)}, nil
	}},
	{"nonblocking", func(r *Rng) (*pipe, error) {
		c, s, e := tcpPair()
		if e != nil {
			return nil, e
		}
		w, _ := thrift.NewTNonblockingSocketConn(c)
		rd, _ := thrift.NewTNonblockingSocketConn(s)
		if r.Bool() {
			w.SetTimeout(int64(time.Minute))
			rd.SetTimeout(int64(time.Minute))
		}
		return &pipe{w: w, r: rd, live: true, endW: func() { w.Close() }, clean: closers(w, rd)}, nil
	}},
	{"server-socket", func(r *Rng) (*pipe, error) { return acceptPair(r, false) }},
	{"nonblocking-server-socket", func(r *Rng) (*pipe, error) { return acceptPair(r, true) }},
}

// fragReader hands out the bytes in random pieces.
type fragReader struct {
	r   io.Reader
	rng *Rng
}

func (f *fragReader) Read(p []byte) (int, error) {
	if len(p) > 1 {
		p = p[:1+f.rng.Intn(len(p))]
	}
	return f.r.Read(p)
}

type fixedAddr string

func (a fixedAddr) Network() string {
	if strings.HasPrefix(string(a), "@") {
		return "unix"
	}
	return "tcp"
}
func (a fixedAddr) String() string { return string(a) }

// loIP is a loopback address that no other process running these checks uses.
func loIP() string {
	p := os.Getpid()
	ip := fmt.Sprintf("127.%d.%d.%d", 1+p/62500%250, 1+p/250%250, 1+p%250)
	if l, e := net.Listen("tcp", ip+":0"); e == nil {
		l.Close()
		return ip
	}
	return "127.0.0.1"
}

var have6 = sync.OnceValue(func() bool {
	l, e := net.Listen("tcp", "[::1]:0")
	if e == nil {
		l.Close()
	}
	return e == nil
})

var unixNames atomic.Int64

// loListen listens on a loopback address of either version of IP, or on a Unix socket without a file.
func loListen(r *Rng) (net.Listener, error) {
	switch k := r.Intn(5); {
	case k == 0:
		return net.Listen("unix", fmt.Sprintf("@vmon-%d-%d", os.Getpid(), unixNames.Add(1)))
	case k == 1 && have6():
		return net.Listen("tcp", "[::1]:0")
	}
	return net.Listen("tcp", loIP()+":0")
}

// freeAddr is an address of one of those kinds to listen on.
func freeAddr(r *Rng) (net.Addr, error) {
	l, e := loListen(r)
	if e != nil {
		return nil, e
	}
	a := l.Addr().String()
	l.Close()
	return fixedAddr(a), nil
}

func dialAddr(a net.Addr, d time.Duration) (net.Conn, error) {
	return net.DialTimeout(a.Network(), a.String(), d)
}

// acceptPair connects a client transport of this library to the transport its server socket accepts.
func acceptPair(r *Rng, nonblocking bool) (*pipe, error) {
	var last error
	for try := 0; try < 20; try++ {
		a, e := freeAddr(r)
		if e != nil {
			return nil, e
		}
		var st thrift.TServerTransport
		if nonblocking {
			st, _ = thrift.NewTNonblockingServerSocketAddrTimeout(a, int64(time.Minute))
		} else {
			st, _ = thrift.NewTServerSocketAddrTimeout(a, int64(time.Minute))
		}
		if last = nilE(st.Listen()); last != nil {
			continue
		}
		var c thrift.TTransport
		if r.Bool() {
			c = thrift.NewTSocket(a, int64(time.Minute)*int64(r.Intn(2)))
		} else {
			c, _ = thrift.NewTNonblockingSocketAddr(a)
		}
		if last = c.Open(); last != nil {
			st.Close()
			continue
		}
		s, e := st.Accept()
		if e != nil {
			c.Close()
			st.Close()
			return nil, e
		}
		st.Close()
		if r.Bool() {
			return &pipe{w: c, r: s, live: true, endW: func() { c.Close() }, clean: closers(c, s)}, nil
		}
		return &pipe{w: s, r: c, live: true, endW: func() { s.Close() }, clean: closers(c, s)}, nil
	}
	return nil, last
}

// nilE turns a nil thrift exception in an error interface into a plain nil.
func nilE(e error) error { return e }

func streamChecks(r *Run) {
	thrift.LOGGER.SetOutput(io.Discard)
	for _, k := range pipeKinds {
		k := k
		n := r.N(120, 2500)
		if strings.HasPrefix(k.name, "memory") || strings.HasPrefix(k.name, "iostream-") {
			n = r.N(400, 8000)
		}
		r.Cases("fifo-"+k.name, n, func(t *T) { fifo(t, k) })
	}
	// streams that know nothing of each other, an operation at a time
	var still []pipeKind
	for _, k := range pipeKinds {
		if k.name == "memory" || strings.HasPrefix(k.name, "iostream-") {
			still = append(still, k)
		}
	}
	r.Cases("together", r.N(400, 6000), func(t *T) {
		var fs []func()
		a := still[t.R.Intn(len(still))]
		for i := 2 + t.R.Intn(3); i > 0; i-- {
			if t.R.P(30) {
				a = still[t.R.Intn(len(still))]
			}
			k := a
			fs = append(fs, func() { fifo(t, k) })
		}
		t.Together(fs...)
		t.Count("together", len(fs))
	})
	// large transfers in both directions at once
	r.Cases("duplex", r.N(24, 300), func(t *T) {
		c, s, e := tcpPair()
		if e != nil {
			t.Count("no_loopback", 1)
			return
		}
		var a, b thrift.TTransport
		switch t.Idx % 4 {
		case 0:
			a, _ = thrift.NewTSocketConn(c)
			b, _ = thrift.NewTSocketConn(s)
		case 1:
			a, _ = thrift.NewTNonblockingSocketConn(c)
			b, _ = thrift.NewTSocketConnTimeout(s, int64(time.Minute))
		case 2:
			x, _ := thrift.NewTSocketConn(c)
			y, _ := thrift.NewTSocketConn(s)
			a, b = thrift.NewTFramedTransport(x), thrift.NewTFramedTransport(y)
		case 3:
			a, b = thrift.NewTIOStreamTransportRAndW(c, c), thrift.NewTIOStreamTransportRW(s)
		}
		defer func() { a.Close(); b.Close(); c.Close(); s.Close() }()
		max := 400000
		if t.R.P(20) {
			max = 3000000
		}
		var wg sync.WaitGroup
		var errs [4]string
		for d, pr := range [][2]thrift.TTransport{{a, b}, {b, a}} {
			seed := t.R.U64()
			total := 1 + t.R.Intn(max)
			d, w, rd := d, pr[0], pr[1]
			wg.Add(2)
			go func() {
				defer wg.Done()
				g, ctl := NewRng(seed), NewRng(seed+1)
				for left := total; left > 0; {
					n := 1 + ctl.chunk(100000)
					if n > left {
						n = left
					}
					k, e := writeScribbled(w, g.Bytes(n))
					if e != nil || k != n {
						errs[d*2] = fmt.Sprintf("writing %d bytes returned %d, %v", n, k, e)
						break
					}
					left -= n
					if ctl.P(40) || left == 0 {
						if e := w.Flush(); e != nil {
							errs[d*2] = fmt.Sprintf("flush: %v", e)
							break
						}
					}
				}
			}()
			go func() {
				defer wg.Done()
				g, ctl := NewRng(seed), NewRng(seed+2)
				for left := total; left > 0; {
					n := 1 + ctl.chunk(100000)
					if n > left {
						n = left
					}
					buf := make([]byte, n)
					var k int
					var e error
					if ctl.P(40) {
						k, e = rd.ReadAll(buf)
						if e == nil && k != n {
							errs[d*2+1] = fmt.Sprintf("readall(%d) returned %d without an error", n, k)
							return
						}
					} else {
						k, e = rd.Read(buf)
					}
					if !bytes.Equal(g.Bytes(k), buf[:k]) {
						errs[d*2+1] = fmt.Sprintf("the content differs near byte %d of %d", total-left, total)
						return
					}
					left -= k
					if e != nil {
						errs[d*2+1] = fmt.Sprintf("reading failed with %d bytes left: %v", left, e)
						return
					}
				}
			}()
		}
		wg.Wait()
		for _, e := range errs {
			if e != "" {
				t.Fail("direction: %s", e)
				return
			}
		}
		t.Count("duplex_transfers", 1)
		t.Seen(t.R.U64())
	})
	r.Cases("http-post", r.N(150, 3000), httpPost)
	r.Cases("http-get", r.N(60, 800), httpGet)
	r.Cases("memory-extra", r.N(300, 5000), memoryExtra)
	r.Cases("slow-flush", r.N(1, 2), func(t *T) {
		c, s, e := tcpPair()
		if e != nil {
			return
		}
		defer c.Close()
		defer s.Close()
		a, _ := thrift.NewTSocketConnTimeout(c, int64(1500*time.Millisecond))
		if _, e := a.Write([]byte("hello")); e != nil {
			t.Fail("write: %v", e)
			return
		}
		time.Sleep(1700 * time.Millisecond)
		if e := a.Flush(); e != nil {
			t.Fail("a flush more than the timeout after the write failed although the peer is reading: %v", e)
			return
		}
		buf := make([]byte, 5)
		if _, e := io.ReadFull(s, buf); e != nil || string(buf) != "hello" {
			t.Fail("received %q, %v", buf, e)
		}
	})
	http.DefaultTransport.(*http.Transport).CloseIdleConnections()
}

// fifo drives one pipe with random writes, flushes and reads and compares it with a plain queue.
func fifo(t *T, k pipeKind) {
	p, e := k.open(t.R)
	if e != nil {
		t.Count("not_opened", 1)
		return
	}
	defer p.clean()
	var ops []string
	t.Desc(func() string { return k.name + ": " + strings.Join(ops, " ") })
	if !p.w.IsOpen() || !p.r.IsOpen() {
		t.Fail("an open transport says it is not")
		return
	}
	var sent, pend []byte // flushed, written only
	got := 0
	h := uint64(5)
	max := 20000
	if t.R.P(5) {
		max = 200000
		if t.R.P(20) {
			max = 3 << 20
		}
	}
	inflight := func() int { return len(sent) - got }
	read := func(end bool) bool {
		left := inflight()
		n := t.R.chunk(max)
		all := t.R.P(45)
		if p.live && !end {
			// a live stream blocks when nothing is left
			if left == 0 {
				return true
			}
			if all && n > left {
				n = 1 + t.R.Intn(left)
			}
			if n == 0 && !all {
				n = 1
			}
		}
		if !p.live && len(pend) > 0 && k.name != "memory" {
			// unflushed bytes may or may not be visible yet
			if n > left {
				n = left
			}
		}
		buf := make([]byte, n+2)
		for i := range buf {
			buf[i] = 0xA5
		}
		var c int
		var e error
		if all {
			c, e = p.r.ReadAll(buf[:n])
		} else {
			c, e = p.r.Read(buf[:n])
		}
		if len(ops) < 300 {
			ops = append(ops, fmt.Sprintf("%s(%d)=%d", map[bool]string{true: "readall", false: "read"}[all], n, c))
		}
		h = h*31 + uint64(n)*3 + uint64(c)
		if c < 0 || c > n {
			t.Fail("a read of %d bytes reports %d", n, c)
			return false
		}
		for i := c; i < len(buf); i++ {
			if buf[i] != 0xA5 {
				t.Fail("a read of %d bytes that reports %d changed byte %d of the buffer", n, c, i)
				return false
			}
		}
		vis := append(append([]byte(nil), sent[got:]...), pend...)
		if c > len(vis) || !bytes.Equal(buf[:c], vis[:c]) {
			t.Fail("the bytes read differ from those written at position %d (%d bytes read, %d outstanding)", got+commonLen(vis, buf[:c]), c, len(vis))
			return false
		}
		if c > left { // unflushed bytes that were visible already
			sent = append(sent, pend[:c-left]...)
			pend = pend[c-left:]
		}
		got += c
		t.Count("reads_checked", 1)
		switch {
		case all && n <= left && (e != nil || c != n):
			t.Fail("readall(%d) with %d bytes outstanding returned %d, %v", n, left, c, e)
			return false
		case all && e == nil && c != n:
			t.Fail("readall(%d) returned %d without an error", n, c)
			return false
		case all && end && n > left && (e == nil || c != left):
			t.Fail("readall(%d) with %d bytes before the end returned %d, %v", n, left, c, e)
			return false
		case !all && n > 0 && left > 0 && (c == 0 || e != nil && e != io.EOF && c < left):
			t.Fail("read(%d) with %d bytes outstanding returned %d, %v", n, left, c, e)
			return false
		case !all && n > 0 && left == 0 && end && (c != 0 || e == nil):
			t.Fail("read(%d) at the end returned %d, %v", n, c, e)
			return false
		}
		return true
	}
	outMax := 60000 // what a pipe or socket surely buffers
	for i, n := 0, 5+t.R.Intn(30); i < n; i++ {
		t.Turn()
		switch t.R.Intn(5) {
		case 0, 1:
			b := t.R.Bytes(t.R.chunk(max))
			if p.live && inflight()+len(pend)+len(b) > outMax {
				b = b[:0]
			}
			ops = append(ops, fmt.Sprintf("write(%d)", len(b)))
			c, e := writeScribbled(p.w, b)
			if e != nil || c != len(b) {
				t.Fail("write of %d bytes returned %d, %v", len(b), c, e)
				return
			}
			pend = append(pend, b...)
			h = h*31 + uint64(len(b))
		case 2:
			ops = append(ops, "flush")
			if e := p.w.Flush(); e != nil {
				t.Fail("flush: %v", e)
				return
			}
			sent = append(sent, pend...)
			pend = nil
			h = h*31 + 1
		default:
			if !read(false) {
				return
			}
		}
	}
	if e := p.w.Flush(); e != nil {
		t.Fail("flush: %v", e)
		return
	}
	sent = append(sent, pend...)
	pend = nil
	p.endW()
	ops = append(ops, "end")
	for i := 0; i < 4 || inflight() > 0 && i < 5000; i++ {
		t.Turn()
		if !read(true) {
			return
		}
	}
	if inflight() > 0 {
		buf := make([]byte, inflight())
		if c, e := p.r.ReadAll(buf); e != nil || !bytes.Equal(buf[:c], sent[got:]) {
			t.Fail("the last %d bytes: %d read, %v", len(buf), c, e)
			return
		}
	}
	t.Count("bytes_delivered", len(sent))
	t.Seen(h)
}

type exchanged struct {
	req []byte
	typ string
}

// httpPost sends several requests through one HTTP transport and reads all, part or none of each response.
func httpPost(t *T) {
	var mu sync.Mutex
	var seen []exchanged
	var resp []byte
	chunked, early := false, false
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		mu.Lock()
		out, ch := resp, chunked
		mu.Unlock()
		b, e := io.ReadAll(q.Body)
		mu.Lock()
		if e == nil {
			seen = append(seen, exchanged{b, q.Method + " " + q.Header.Get("Content-Type")})
		}
		mu.Unlock()
		if ch {
			fl := w.(http.Flusher)
			for len(out) > 0 {
				n := 1 + len(out)/3
				w.Write(out[:n])
				fl.Flush()
				out = out[n:]
			}
			return
		}
		w.Write(out)
	}))
	_ = early
	defer srv.Close()
	defer http.DefaultTransport.(*http.Transport).CloseIdleConnections()
	var c thrift.TTransport
	var e error
	switch t.R.Intn(3) {
	case 0:
		c, e = thrift.NewTHttpPostClient(srv.URL)
	case 1:
		c = thrift.NewTHttpPostClientTransportFactory(srv.URL).GetTransport(nil)
	case 2:
		first, _ := thrift.NewTHttpPostClient(srv.URL)
		c = thrift.NewTHttpPostClientTransportFactory("http://127.0.0.1:1/").GetTransport(first)
	}
	if e != nil || c == nil {
		t.Fail("no transport: %v", e)
		return
	}
	defer c.Close()
	var ops []string
	t.Desc(func() string { return strings.Join(ops, " ") })
	var want [][]byte
	h := uint64(9)
	for i, n := 0, 1+t.R.Intn(4); i < n; i++ {
		var req []byte
		for j, m := 0, t.R.Intn(5); j < m; j++ {
			b := t.R.Bytes(t.R.chunk(70000))
			k, e := writeScribbled(c, b)
			if e != nil || k != len(b) {
				t.Fail("request %d: write of %d bytes returned %d, %v", i, len(b), k, e)
				return
			}
			req = append(req, b...)
		}
		out := t.R.Bytes(t.R.chunk(70000))
		mu.Lock()
		resp, chunked = out, t.R.Bool()
		mu.Unlock()
		if e := c.Flush(); e != nil {
			t.Fail("request %d: flush: %v", i, e)
			return
		}
		want = append(want, req)
		mu.Lock()
		got := len(seen)
		same := got == len(want) && bytes.Equal(seen[got-1].req, req) && seen[got-1].typ == "POST application/x-thrift"
		mu.Unlock()
		if !same {
			mu.Lock()
			t.Fail("request %d of %d bytes: the server has seen %d requests, the last of %d bytes (%s)", i, len(req), got, len(seen[got-1].req), seen[got-1].typ)
			mu.Unlock()
			return
		}
		ops = append(ops, fmt.Sprintf("request(%d) response(%d)", len(req), len(out)))
		h = h*31 + uint64(len(req))*7 + uint64(len(out))
		upto := len(out)
		if t.R.P(30) {
			upto = t.R.Intn(len(out) + 1)
		}
		if !readExactly(t, c, out, upto, i) {
			return
		}
		if upto == len(out) {
			if k, e := c.Read(make([]byte, 3)); k != 0 || e == nil {
				t.Fail("request %d: a read after the end of the response returned %d, %v", i, k, e)
				return
			}
			if k, e := c.ReadAll(make([]byte, 3)); k != 0 || e == nil {
				t.Fail("request %d: readall after the end of the response returned %d, %v", i, k, e)
				return
			}
		}
		t.Count("http_exchanges", 1)
	}
	t.Seen(h)
}

// readExactly reads the first upto bytes of out in random pieces.
func readExactly(t *T, c thrift.TTransport, out []byte, upto, i int) bool {
	for pos := 0; pos < upto; {
		n := 1 + t.R.chunk(70000)
		if n > upto-pos {
			n = upto - pos
		}
		buf := make([]byte, n)
		var k int
		var e error
		all := t.R.Bool()
		if all {
			k, e = c.ReadAll(buf)
		} else {
			k, e = c.Read(buf)
		}
		if k > n || !bytes.Equal(buf[:k], out[pos:pos+k]) {
			t.Fail("response %d differs after byte %d", i, pos)
			return false
		}
		if all && (e != nil || k != n) {
			t.Fail("response %d: readall(%d) with %d bytes left returned %d, %v", i, n, len(out)-pos, k, e)
			return false
		}
		pos += k
		if e != nil && pos < len(out) {
			t.Fail("response %d: reading failed with %d bytes left: %v", i, len(out)-pos, e)
			return false
		}
		if k == 0 && e != nil {
			break
		}
		t.Count("reads_checked", 1)
	}
	return true
}

func httpGet(t *T) {
	out := t.R.Bytes(t.R.chunk(100000))
	bad := 0
	if t.R.P(25) {
		bad = []int{404, 500, 503, 204, 301}[t.R.Intn(5)]
	}
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		if q.Method != "GET" {
			w.WriteHeader(400)
			return
		}
		if bad != 0 {
			w.WriteHeader(bad)
			if bad != 204 {
				w.Write([]byte("<html>this is not a thrift message</html>"))
			}
			return
		}
		w.Write(out)
	}))
	defer srv.Close()
	defer http.DefaultTransport.(*http.Transport).CloseIdleConnections()
	t.Desc(func() string { return fmt.Sprintf("status %d, %d bytes", bad, len(out)) })
	var c thrift.TTransport
	var e error
	if t.R.Bool() {
		c, e = thrift.NewTHttpClient(srv.URL)
	} else {
		c = thrift.NewTHttpClientTransportFactory(srv.URL).GetTransport(nil)
		if c == nil {
			e = errors.New("no transport")
		} else if h, ok := c.(*thrift.THttpClient); ok && h == nil {
			e = errors.New("nil transport")
			c = nil
		}
	}
	if bad != 0 {
		if e == nil {
			buf := make([]byte, 5)
			if k, e := c.Read(buf); e == nil {
				t.Fail("a response with status %d is delivered as data: %q", bad, buf[:k])
			}
			c.Close()
		}
		t.Count("http_refused", 1)
		t.Seen(uint64(bad))
		return
	}
	if e != nil {
		t.Fail("opening failed: %v", e)
		return
	}
	defer c.Close()
	if !readExactly(t, c, out, len(out), 0) {
		return
	}
	if k, e := c.Read(make([]byte, 3)); k != 0 || e == nil {
		t.Fail("a read after the end returned %d, %v", k, e)
	}
	t.Count("http_exchanges", 1)
	t.Seen(uint64(len(out)))
}

// memoryExtra drives the further methods of the memory buffer.
func memoryExtra(t *T) {
	m := thrift.NewTMemoryBufferLen(t.R.Intn(64))
	var q []byte
	var ops []string
	t.Desc(func() string { return strings.Join(ops, " ") })
	h := uint64(1)
	for i, n := 0, 5+t.R.Intn(40); i < n; i++ {
		op := t.R.Intn(9)
		h = h*31 + uint64(op)
		ops = append(ops, []string{"write", "writestring", "readbyte", "readfrom", "writeto", "read", "readall", "reset", "close"}[op])
		b := t.R.Bytes(t.R.chunk(600))
		switch op {
		case 0:
			if k, e := writeScribbled(m, b); k != len(b) || e != nil {
				t.Fail("write: %d, %v", k, e)
			}
			q = append(q, b...)
		case 1:
			if k, e := m.WriteString(string(b)); k != len(b) || e != nil {
				t.Fail("writestring: %d, %v", k, e)
			}
			q = append(q, b...)
		case 2:
			c, e := m.ReadByte()
			if len(q) == 0 && e == nil || len(q) > 0 && (e != nil || c != q[0]) {
				t.Fail("readbyte: %d, %v with %d bytes", c, e, len(q))
			}
			if len(q) > 0 {
				q = q[1:]
			}
		case 3:
			k, e := m.ReadFrom(&fragReader{bytes.NewReader(b), t.R})
			if k != int64(len(b)) || e != nil {
				t.Fail("readfrom: %d of %d, %v", k, len(b), e)
			}
			q = append(q, b...)
		case 4:
			if !t.R.P(20) {
				continue
			}
			var out bytes.Buffer
			k, e := m.WriteTo(&out)
			if k != int64(len(q)) || e != nil || !bytes.Equal(out.Bytes(), q) {
				t.Fail("writeto: %d of %d, %v", k, len(q), e)
			}
			q = nil
		case 5, 6:
			n := t.R.chunk(700)
			buf := make([]byte, n)
			var k int
			var e error
			if op == 5 {
				k, e = m.Read(buf)
			} else {
				k, e = m.ReadAll(buf)
			}
			w := n
			if w > len(q) {
				w = len(q)
			}
			if k != w || !bytes.Equal(buf[:k], q[:w]) || op == 6 && (e == nil) != (n <= len(q)) || op == 5 && n > 0 && (e == nil) != (w > 0) {
				t.Fail("read(%d) with %d bytes: %d, %v", n, len(q), k, e)
				return
			}
			q = q[k:]
		case 7, 8:
			if !t.R.P(15) {
				continue
			}
			if op == 7 {
				m.Reset()
			} else if e := m.Close(); e != nil {
				t.Fail("close: %v", e)
			}
			q = nil
		}
		if t.Failed() {
			return
		}
		if m.Len() != len(q) || !bytes.Equal(m.Bytes(), q) || m.String() != string(q) {
			t.Fail("the buffer holds %d bytes instead of %d after %s", m.Len(), len(q), ops[len(ops)-1])
			return
		}
		t.Count("memory_ops", 1)
	}
	t.Seen(h)
}
