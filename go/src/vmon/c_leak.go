package main

import (
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"thrift"
	"time"
)

func init() { props["C27"] = leakChecks }

func openFDs() int {
	d, e := os.Open("/proc/self/fd")
	if e != nil {
		return -1
	}
	defer d.Close()
	n, _ := d.Readdirnames(-1)
	return len(n)
}

type census struct{ gor, fds int }

// count takes the smallest of several readings, as other parts of this program open files for a moment.
func count() census {
	c := census{runtime.NumGoroutine(), openFDs()}
	for i := 0; i < 2; i++ {
		runtime.Gosched()
		if n := runtime.NumGoroutine(); n < c.gor {
			c.gor = n
		}
		if n := openFDs(); n < c.fds {
			c.fds = n
		}
	}
	return c
}

// settled waits for goroutines and descriptors to return to what they were.
func settled(t *T, before census) bool {
	for i := 0; ; i++ {
		c := count()
		if c.gor <= before.gor && c.fds <= before.fds {
			t.Count("accounts_settled", 1)
			return true
		}
		if i > 4000 {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			t.Fail("%d goroutines and %d descriptors are left, there were %d and %d; %s", c.gor, c.fds, before.gor, before.fds, hangStacks(string(buf)))
			return false
		}
		if i < 100 {
			time.Sleep(100 * time.Microsecond)
		} else {
			time.Sleep(5 * time.Millisecond)
		}
	}
}

// leakContainers uses containers in every way, also by halves.
func leakContainers(t *T) {
	r := t.R
	s := schOf(r, []thrift.TType{thrift.LIST, thrift.SET, thrift.MAP, thrift.STRUCT}[t.Idx%4], 2)
	var vs []*V
	for i := 0; i < 3; i++ {
		vs = append(vs, s.val(r))
	}
	t.Desc(func() string { return fmt.Sprintf("%s %v", s, vs) })
	before := count()
	var log []string
	use := func(name string, f func()) {
		log = append(log, name)
		try(f)
		t.Count("operations", 1)
	}
	take := func(n int, more func() bool) {
		for i := 0; i < n && more(); i++ {
		}
	}
	var xs []interface{}
	for _, v := range vs {
		xs = append(xs, mk(v, r, r.Intn(3)), mk(v, r, r.Intn(3)))
	}
	if r.P(10) { // many fields
		var fs []thrift.TField
		for i, n := 0, 30+r.Intn(2000); i < n; i++ {
			fs = append(fs, thrift.NewTField(fmt.Sprint("f", i), thrift.I32, i))
		}
		c := thrift.NewTFieldContainer(fs)
		use("manyfields", func() { i := c.Iter(); take(r.Intn(len(fs)), func() bool { _, ok := <-i; return ok }) })
		use("manyfields", func() { c.Equals(c); c.CompareTo(thrift.NewTFieldContainer(fs)); c.Contains(fs[0]) })
		t.Count("many_fields", 1)
	}
	for i := 0; i < 6; i++ {
		a, b := xs[r.Intn(len(xs))], xs[r.Intn(len(xs))]
		n := r.Intn(4)
		use("compare", func() { thrift.TType(s.t).Compare(a, b) })
		use("coerce", func() { thrift.TType(s.t).CoerceData(a); thrift.TypeFromValue(a) })
		use("lessthan", func() { thrift.TType(s.t).Less(a, b) })
		switch x := a.(type) {
		case thrift.TList:
			use("iter", func() { c := x.Iter(); take(n, func() bool { _, ok := <-c; return ok }) })
			use("contains", func() { x.Contains(b) })
			use("containerequals", func() { x.Equals(b); x.CompareTo(b) })
		case thrift.TSet:
			use("values", func() { x.Values() })
			use("walk", func() {
				e := x.Front()
				take(n, func() bool {
					if e != nil {
						e = e.Next()
					}
					return e != nil
				})
			})
			use("containerequals", func() { x.Equals(b); x.CompareTo(b); x.Contains(b) })
		case thrift.TMap:
			use("iter", func() { c := x.Iter(); take(n, func() bool { _, ok := <-c; return ok }) })
			use("keyiter", func() { c := x.KeyIter(); take(n, func() bool { _, ok := <-c; return ok }) })
			use("valueiter", func() { c := x.ValueIter(); take(n, func() bool { _, ok := <-c; return ok }) })
			use("lookups", func() { x.Get(b); x.Contains(b); x.Keys(); x.Values() })
			use("containerequals", func() { x.Equals(b); x.CompareTo(b) })
		case thrift.TStruct:
			use("fields", func() { c := x.TStructFields().Iter(); take(n, func() bool { _, ok := <-c; return ok }) })
			use("structequals", func() { x.Equals(b); x.CompareTo(b) })
			use("fieldcontainer", func() {
				if y, ok := b.(thrift.TStruct); ok {
					x.TStructFields().Equals(y.TStructFields())
					x.TStructFields().CompareTo(y.TStructFields())
				}
			})
		}
	}
	t.Seen(hashStr(uint64(len(log)), fmt.Sprint(log, vs)))
	settled(t, before)
}

// leakSockets opens and closes client and server sockets in all kinds of order.
func leakSockets(t *T) {
	r := t.R
	l, e := net.Listen("tcp", "127.0.0.1:0")
	if e != nil {
		t.Count("no_loopback", 1)
		return
	}
	var mu sync.Mutex
	var accepted []net.Conn
	hangup := false // close connections as they come
	ended := make(chan bool)
	go func() {
		defer close(ended)
		for {
			c, e := l.Accept()
			if e != nil {
				return
			}
			mu.Lock()
			if hangup {
				c.Close()
			} else {
				accepted = append(accepted, c)
			}
			mu.Unlock()
		}
	}()
	dead, e := freeAddr(t.R)
	if e != nil {
		l.Close()
		<-ended
		return
	}
	var ops []string
	t.Desc(func() string { return strings.Join(ops, " ") })
	before := count()
	peers := func() {
		mu.Lock()
		for _, c := range accepted {
			c.Close()
		}
		accepted = nil
		mu.Unlock()
	}
	for i := 0; i < 4 && !t.Failed(); i++ {
		op := r.Intn(8)
		addr := l.Addr()
		if r.P(20) {
			addr = dead
		}
		var c thrift.TTransport
		switch r.Intn(3) {
		case 0:
			c = thrift.NewTSocket(addr, int64(time.Minute)*int64(r.Intn(2)))
		case 1:
			c, _ = thrift.NewTNonblockingSocketAddr(addr)
		default:
			c, _ = thrift.NewTNonblockingSocketAddrTimeout(addr, int64(time.Minute))
		}
		inner := c
		switch r.Intn(3) {
		case 0:
			c = thrift.NewTFramedTransport(c)
		}
		ops = append(ops, fmt.Sprintf("%T/%T-%v-%d", c, inner, addr == dead, op))
		c.Open()
		switch op {
		case 0:
		case 1:
			c.Open()
			c.Open()
		case 2:
			c.Write([]byte("hello"))
			c.Flush()
			c.Close()
			c.Open()
		case 3:
			mu.Lock()
			hangup = true
			mu.Unlock()
			peers()
			c.Read(make([]byte, 4))
			mu.Lock()
			hangup = false
			mu.Unlock()
		case 4:
			if k, ok := inner.(interface{ Interrupt() error }); ok {
				k.Interrupt()
			}
		case 5:
			c.Close()
			c.Close()
		case 6, 7:
			// server sockets
			a, e := freeAddr(t.R)
			if e != nil {
				break
			}
			var s, s2 serverTrans
			if op == 6 {
				s, _ = thrift.NewTServerSocketAddr(a)
				s2, _ = thrift.NewTServerSocketAddr(a)
			} else {
				s, _ = thrift.NewTNonblockingServerSocketAddr(a)
				s2, _ = thrift.NewTNonblockingServerSocketAddr(a)
			}
			s.Listen()
			if r.Bool() {
				s.Listen()
			}
			if e := s2.Listen(); e == nil {
				// the address is in use unless the first did not get it
				s2.Close()
			}
			for k := r.Intn(3); k > 0; k-- {
				x := thrift.NewTSocket(a, int64(time.Minute))
				if x.Open() == nil {
					if y, e := s.Accept(); e == nil {
						y.Write([]byte("x"))
						y.Flush()
						if r.Bool() {
							x.Close()
							y.Read(make([]byte, 3))
						}
						y.Close()
					}
				}
				x.Close()
			}
			if r.Bool() {
				s.Interrupt()
			} else {
				s.Close()
			}
			if r.Bool() {
				s.Close()
			}
			s2.Close()
		}
		c.Close()
		t.Count("operations", 1)
		t.Count("connections", 1)
		if r.Bool() {
			peers()
		}
	}
	// also connections still on their way to the listener
	mu.Lock()
	hangup = true
	mu.Unlock()
	peers()
	t.Seen(hashStr(uint64(len(ops)), strings.Join(ops, " ")))
	settled(t, before)
	l.Close()
	<-ended
	peers()
}

// spyTransport counts the response bodies given out and closed.
type spyTransport struct {
	rt            http.RoundTripper
	given, closed int64
}

type spyBody struct {
	io.ReadCloser
	once sync.Once
	s    *spyTransport
}

func (b *spyBody) Close() error {
	b.once.Do(func() { atomic.AddInt64(&b.s.closed, 1) })
	return b.ReadCloser.Close()
}

func (s *spyTransport) RoundTrip(q *http.Request) (*http.Response, error) {
	p, e := s.rt.RoundTrip(q)
	if p != nil && p.Body != nil {
		atomic.AddInt64(&s.given, 1)
		p.Body = &spyBody{ReadCloser: p.Body, s: s}
	}
	return p, e
}

func (s *spyTransport) open() int64 { return atomic.LoadInt64(&s.given) - atomic.LoadInt64(&s.closed) }

func leakHTTP(t *T) {
	r := t.R
	before := count()
	status, size := 200, 0
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		io.ReadAll(q.Body)
		n := len(q.URL.Path)
		_ = n
		if q.Header.Get("x") == "" && status != 200 {
			w.WriteHeader(status)
		}
		w.Write(make([]byte, size))
	}))
	own := &http.Transport{}
	spy := &spyTransport{rt: own}
	old := http.DefaultTransport
	http.DefaultTransport = spy
	var ops []string
	t.Desc(func() string { return strings.Join(ops, " ") })
	for i := 0; i < 3 && !t.Failed(); i++ {
		size = []int{0, 1, 10, 5000, 300000}[r.Intn(5)]
		status = []int{200, 200, 200, 500, 404, 302, 204}[r.Intn(7)]
		if status == 204 || status == 302 {
			size = 0
		}
		var c thrift.TTransport
		var e error
		kind := "post"
		url := srv.URL
		if r.P(10) {
			url = "http://127.0.0.1:1/"
		}
		switch r.Intn(5) {
		case 0:
			kind = "get"
			c, e = thrift.NewTHttpClient(url)
		case 1:
			kind = "factory-get"
			if status == 200 && url == srv.URL {
				c = thrift.NewTHttpClientTransportFactory(url).GetTransport(nil)
			}
		case 2:
			kind = "factory-post"
			c = thrift.NewTHttpPostClientTransportFactory(url).GetTransport(nil)
		default:
			c, e = thrift.NewTHttpPostClient(url)
		}
		ops = append(ops, fmt.Sprintf("%s-%d-%d-%v", kind, status, size, url == srv.URL))
		if e != nil || c == nil {
			if n := spy.open(); n != 0 {
				t.Fail("a failed %s leaves %d response bodies open", kind, n)
			}
			t.Count("operations", 1)
			continue
		}
		framed := r.P(20)
		if framed {
			c = thrift.NewTFramedTransport(c)
			ops = append(ops, "framed")
		}
		for k := r.Intn(5); k > 0 && !t.Failed(); k-- {
			if r.P(30) {
				status = []int{200, 500}[r.Intn(2)]
			}
			switch r.Intn(4) {
			case 0, 1:
				c.Write(r.Bytes(r.Intn(100)))
				e := c.Flush()
				ops = append(ops, fmt.Sprintf("flush-%d-%v", status, e != nil))
				n := spy.open()
				max := int64(1)
				if e != nil {
					max = 0
				}
				if kind == "get" || kind == "factory-get" {
					max = 1
				}
				if n > max {
					t.Fail("%d response bodies are open after a flush that returned %v", n, e)
				}
				t.Count("responses", 1)
			case 2:
				c.Read(make([]byte, 1+r.Intn(20)))
				ops = append(ops, "read")
			case 3:
				if r.P(30) {
					c.Close()
					ops = append(ops, "close")
					if n := spy.open(); n != 0 {
						t.Fail("%d response bodies are open after Close", n)
					}
					if kind == "post" || kind == "factory-post" {
						c.Open()
					}
				}
			}
			t.Count("operations", 1)
		}
		c.Close()
		ops = append(ops, "close")
		if n := spy.open(); n != 0 {
			t.Fail("%d response bodies are open after Close", n)
		}
		t.Count("bodies_closed", int(spy.closed))
	}
	http.DefaultTransport = old
	own.CloseIdleConnections()
	srv.Close()
	t.Seen(hashStr(uint64(len(ops)), strings.Join(ops, " ")))
	settled(t, before)
}

// leakServer lets clients of every kind come and go.
func leakServer(t *T, mem bool) {
	before := count()
	g, e := newRig(t.R, mem)
	if e != nil {
		t.Count("no_loopback", 1)
		return
	}
	t.Desc(func() string { return g.name })
	g.log.delay = false
	g.track.on = t.R.P(60)
	g.start()
	if !g.up() {
		t.Fail("the server does not listen")
		return
	}
	during := count()
	_ = during
	var kinds []string
	for wave := 0; wave < 2 && !t.Failed(); wave++ {
		var wg sync.WaitGroup
		n := 1 + t.R.Intn(6)
		if g.blocking && n > 3 {
			n = 3
		}
		notes := make([]string, n)
		for i := 0; i < n; i++ {
			i := i
			c := &client{g: g, id: wave*100 + i, r: NewRng(t.R.U64())}
			for k := 0; k < 1+i%3; k++ {
				x, e := g.mkCall(c.r, int64(c.id)<<12|int64(k))
				if e != nil {
					t.Fail("encoding: %v", e)
					return
				}
				c.calls = append(c.calls, x)
			}
			bm := c.r.Intn(9)
			wg.Add(1)
			go func() {
				defer wg.Done()
				if bm < 6 {
					notes[i] = c.bad(bm)
				} else {
					notes[i] = "good"
					c.good(bm % 2)
				}
			}()
		}
		wg.Wait()
		kinds = append(kinds, notes...)
		t.Count("connections", n)
		// all clients are gone: so are their goroutines and connections, while the server goes on
		base := before
		base.gor++ // the server
		if !mem {
			base.fds++ // its listener
		}
		if !settled(t, base) {
			return
		}
		// the transports made for their connections are closed
		for k := 0; ; k++ {
			c := g.track.open()
			if c == nil {
				break
			}
			if k > 20000 {
				t.Fail("a transport made for a connection (%s) was never closed", c.ev)
				return
			}
			time.Sleep(time.Millisecond)
		}
		g.track.mu.Lock()
		t.Count("transports_closed", len(g.track.made))
		g.track.made = nil
		g.track.mu.Unlock()
		if mem {
			for i, k := 0, 0; ; k++ {
				g.mem.mu.Lock()
				for i < len(g.mem.given) && atomic.LoadInt32(&g.mem.given[i].closes) > 0 {
					i++
				}
				rest := len(g.mem.given) - i
				g.mem.mu.Unlock()
				if rest == 0 {
					break
				}
				if k > 20000 {
					t.Fail("connection %d was not closed by the server", i)
					break
				}
				time.Sleep(time.Millisecond)
			}
		}
	}
	g.srv.Stop()
	select {
	case <-g.served:
	case <-time.After(clientPatience):
		t.Fail("the server still runs")
		return
	}
	t.Count("servers", 1)
	t.Seen(hashStr(uint64(len(kinds)), g.name+strings.Join(kinds, " ")))
	t.Sample("%s: %v", g.name, kinds)
	settled(t, before)
}

// leakStream: closing a stream transport closes what it was made of, a failing server connection is closed.
func leakProtocols(t *T) {
	r := t.R
	p := []*Proto{pBinary, pCompact, pJSON, pSimple}[t.Idx%4]
	before := count()
	g := newGen(r, p.genOpt())
	v := g.value(thrift.STRUCT, 2)
	t.Desc(func() string { return p.Name + " " + v.String() })
	b, e := p.encodeV(v)
	if e != nil {
		return
	}
	if r.P(60) && len(b) > 0 {
		b = b[:r.Intn(len(b))]
	}
	ctl := readCtl{maxNodes: 10000, maxDepth: 100}
	p.readV(p.New(NewXT(b)), v, &ctl)
	if !p.Schema {
		p.New(NewXT(b)).Skip(thrift.STRUCT)
	}
	pr, pw := io.Pipe()
	tr := thrift.NewTIOStreamTransportRAndW(pr, pw)
	go func() {
		pw.Write(b)
		pw.Close()
	}()
	ctl = readCtl{maxNodes: 10000, maxDepth: 100}
	p.readV(p.New(tr), v, &ctl)
	tr.Close()
	pr.Close()
	t.Count("operations", 1)
	t.Seen(shapeHash(v))
	settled(t, before)
}

func leakChecks(r *Run) {
	thrift.LOGGER.SetOutput(io.Discard)
	// a collection would close forgotten connections
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(2 << 30)
	// things the runtime makes once
	if l, e := net.Listen("tcp", "127.0.0.1:0"); e == nil {
		if c, e := net.Dial("tcp", l.Addr().String()); e == nil {
			c.Close()
		}
		l.Close()
	}
	w := httptest.NewServer(http.NotFoundHandler())
	if q, e := http.Get(w.URL); e == nil {
		q.Body.Close()
	}
	http.DefaultTransport.(*http.Transport).CloseIdleConnections()
	w.Close()
	time.Sleep(20 * time.Millisecond)
	r.Cases("containers", r.N(3000, 40000), leakContainers)
	r.Cases("protocols", r.N(1500, 20000), leakProtocols)
	r.Cases("sockets", r.N(400, 5000), leakSockets)
	r.Cases("http", r.N(300, 4000), leakHTTP)
	r.Cases("server-memory", r.N(200, 3000), func(t *T) { leakServer(t, true) })
	r.Cases("server-tcp", r.N(120, 2000), func(t *T) { leakServer(t, false) })
}
