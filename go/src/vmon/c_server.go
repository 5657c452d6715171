package main

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"simple"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"thrift"
	"time"
)

func init() {
	props["C17"] = serverCalls
	props["C18"] = serverStop
}

type framedFac struct{}

func (framedFac) GetTransport(t thrift.TTransport) thrift.TTransport {
	return thrift.NewTFramedTransport(t)
}

// ---------------------------------------------------------------- an in-memory server transport

// memServer hands out connections made in memory. It keeps the contract of TServerTransport and records its use.
type memServer struct {
	mu        sync.Mutex
	cond      *sync.Cond
	queue     []net.Conn
	open      bool
	everOpen  bool
	accepts   int
	listens   int
	closed    int
	interrupt int
	given     []*countConn
	hook      func(ev string)
	wrap      func(c net.Conn) thrift.TTransport

	listenErr  error // Listen fails with it
	acceptErr  error // Accept fails with it, after acceptOK of them
	acceptOK   int
	nilAccepts int // so many times Accept gives nothing at all
}

// countConn counts how often a connection is closed.
type countConn struct {
	net.Conn
	closes int32
}

func (c *countConn) Close() error {
	atomic.AddInt32(&c.closes, 1)
	return c.Conn.Close()
}

func newMemServer() *memServer {
	m := &memServer{}
	m.cond = sync.NewCond(&m.mu)
	return m
}

func (m *memServer) ev(s string) {
	if m.hook != nil {
		m.hook(s)
	}
}

func (m *memServer) Listen() error {
	m.ev("listen-enter")
	m.mu.Lock()
	m.listens++
	if m.listenErr != nil {
		m.mu.Unlock()
		return m.listenErr
	}
	m.open, m.everOpen = true, true
	m.mu.Unlock()
	m.ev("listen-return")
	return nil
}

func (m *memServer) Accept() (thrift.TTransport, error) {
	m.ev("accept-enter")
	m.mu.Lock()
	m.accepts++
	if m.acceptErr != nil && m.accepts > m.acceptOK {
		m.mu.Unlock()
		return nil, m.acceptErr
	}
	if m.nilAccepts > 0 {
		m.nilAccepts--
		m.mu.Unlock()
		return nil, nil
	}
	for m.open && len(m.queue) == 0 {
		m.cond.Wait()
	}
	if !m.open {
		m.mu.Unlock()
		return nil, thrift.NewTTransportException(thrift.NOT_OPEN, "the server transport is closed")
	}
	c := &countConn{Conn: m.queue[0]}
	m.queue = m.queue[1:]
	m.given = append(m.given, c)
	m.mu.Unlock()
	m.ev("accept-return")
	if m.wrap != nil {
		return m.wrap(c), nil
	}
	return thrift.NewTSocketConn(c)
}

func (m *memServer) shut() {
	m.mu.Lock()
	m.open = false
	q := m.queue
	m.queue = nil
	m.cond.Broadcast()
	m.mu.Unlock()
	for _, c := range q {
		c.Close()
	}
}

func (m *memServer) Close() error {
	m.mu.Lock()
	m.closed++
	m.mu.Unlock()
	m.shut()
	return nil
}

func (m *memServer) Interrupt() error {
	m.mu.Lock()
	m.interrupt++
	m.mu.Unlock()
	m.shut()
	return nil
}

func (m *memServer) dial() (net.Conn, error) {
	for i := 0; ; i++ {
		m.mu.Lock()
		if m.open {
			a, b := net.Pipe()
			m.queue = append(m.queue, b)
			m.cond.Broadcast()
			m.mu.Unlock()
			return a, nil
		}
		was := m.everOpen
		m.mu.Unlock()
		if was || i > 20000 {
			return nil, errors.New("not listening")
		}
		time.Sleep(200 * time.Microsecond)
	}
}

// hookedServer is a real server socket whose steps can be watched.
type hookedServer struct {
	thrift.TServerTransport
	hook func(ev string)
}

func (h *hookedServer) Listen() error {
	h.hook("listen-enter")
	e := h.TServerTransport.Listen()
	h.hook("listen-return")
	return e
}

func (h *hookedServer) Accept() (thrift.TTransport, error) {
	h.hook("accept-enter")
	t, e := h.TServerTransport.Accept()
	if e == nil {
		h.hook("accept-return")
	}
	return t, e
}

// ---------------------------------------------------------------- what runs on the server

type callLog struct {
	mu      sync.Mutex
	n       map[int64]int
	order   []int64
	active  int
	maxAct  int
	hook    func(ev string)
	delay   bool
	trouble map[int64]bool // calls the handler answers with an error
}

func (l *callLog) enter(uid int64) {
	l.mu.Lock()
	l.n[uid]++
	l.order = append(l.order, uid)
	l.active++
	if l.active > l.maxAct {
		l.maxAct = l.active
	}
	l.mu.Unlock()
	if l.hook != nil {
		l.hook("handler")
	}
	if l.delay {
		switch hashStr(uint64(uid), "d") % 7 {
		case 0:
			time.Sleep(time.Duration(hashStr(uint64(uid), "e")%300) * time.Microsecond)
		case 1, 2:
			runtime.Gosched()
		}
	}
}

func (l *callLog) leave() {
	l.mu.Lock()
	l.active--
	l.mu.Unlock()
}

func (l *callLog) count(uid int64) int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.n[uid]
}

func uidCheck(uid int64) int64 { return int64(hashStr(uint64(uid), "check") & 0x3fffffff) }

func uidAnswer(uid int64) int64 { return int64(hashStr(uint64(uid), "answer") & 0x3fffffff) }

// logHandler implements the golden service.
type logHandler struct{ *callLog }

func (h logHandler) Echo(m *simple.ContainerOfEnums) (*simple.ContainerOfEnums, error) {
	if m == nil || int64(m.Second) != uidCheck(int64(m.First)) {
		return simple.NewContainerOfEnums(), nil
	}
	uid := int64(m.First)
	h.enter(uid)
	defer h.leave()
	if h.trouble[uid] {
		return nil, errors.New("no luck")
	}
	return goldenAnswer(uid), nil
}

func goldenCall(uid int64) *simple.ContainerOfEnums {
	c := simple.NewContainerOfEnums()
	c.First, c.Second = simple.UndefinedValues(uid), simple.DefinedValues(uidCheck(uid))
	return c
}

func goldenAnswer(uid int64) *simple.ContainerOfEnums {
	c := simple.NewContainerOfEnums()
	c.First, c.Second, c.Third = simple.UndefinedValues(uid), simple.DefinedValues(uidAnswer(uid)), simple.HeterogeneousValues(uid%5)
	return c
}

func sameEnums(a, b *simple.ContainerOfEnums) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.First == b.First && a.Second == b.Second && a.Third == b.Third && a.OptionalFourth == b.OptionalFourth &&
		a.OptionalFifth == b.OptionalFifth && a.OptionalSixth == b.OptionalSixth && a.DefaultSeventh == b.DefaultSeventh &&
		a.DefaultEighth == b.DefaultEighth && a.DefaultNineth == b.DefaultNineth
}

// valueProcessor reads any message and answers with its body wrapped in a field.
type valueProcessor struct {
	*callLog
	fixMaps bool // what is read does not tell the types of empty maps
}

func typeEmptyMaps(v *V) {
	if v.T == thrift.MAP && len(v.L) == 0 {
		v.KT, v.VT = thrift.I32, thrift.I32
	}
	for _, x := range v.L {
		typeEmptyMaps(x)
	}
	for _, f := range v.F {
		typeEmptyMaps(f.V)
	}
}

func (v *valueProcessor) Process(in, out thrift.TProtocol) (bool, thrift.TException) {
	c := readCtl{maxNodes: 200000, maxDepth: 200}
	m, e := readMsg(in, nil, &c)
	if e != nil {
		return false, thrift.NewTException(e.Error())
	}
	uid := int64(-1)
	if len(m.Body.F) >= 2 && m.Body.F[0].V.T == thrift.I64 && m.Body.F[1].V.T == thrift.I64 && m.Body.F[1].V.I == uidCheck(m.Body.F[0].V.I) {
		uid = m.Body.F[0].V.I
	}
	if uid >= 0 {
		v.enter(uid)
		defer v.leave()
	}
	if v.fixMaps {
		typeEmptyMaps(m.Body)
	}
	if e := writeMsg(out, &Msg{Name: m.Name, Kind: thrift.REPLY, Seq: m.Seq, Body: &V{T: thrift.STRUCT, F: []Fld{{"success", 0, m.Body}}}}); e != nil {
		return false, thrift.NewTException(e.Error())
	}
	return true, nil
}

// hookProcFac notes for which transports a processor is asked.
type hookProcFac struct {
	p    thrift.TProcessor
	mu   sync.Mutex
	got  []thrift.TTransport
	hook func(ev string)
}

func (f *hookProcFac) GetProcessor(t thrift.TTransport) thrift.TProcessor {
	f.mu.Lock()
	f.got = append(f.got, t)
	f.mu.Unlock()
	if f.hook != nil {
		f.hook("get-processor")
	}
	return f.p
}

type hookTransFac struct {
	f    thrift.TTransportFactory
	hook func(ev string)
	ev   string

	track *tracker
}

func (h hookTransFac) GetTransport(t thrift.TTransport) thrift.TTransport {
	h.hook(h.ev)
	x := h.f.GetTransport(t)
	if h.track != nil && h.track.on {
		h.track.mu.Lock()
		defer h.track.mu.Unlock()
		k := &closeCounter{TTransport: x, ev: h.ev}
		h.track.made = append(h.track.made, k)
		return k
	}
	return x
}

// tracker remembers the transports a server had made, and closeCounter whether they were closed.
type tracker struct {
	on   bool
	mu   sync.Mutex
	made []*closeCounter
}

type closeCounter struct {
	thrift.TTransport
	ev     string
	closes int32
}

func (c *closeCounter) Close() error {
	atomic.AddInt32(&c.closes, 1)
	return c.TTransport.Close()
}

// open gives one that is not closed.
func (t *tracker) open() *closeCounter {
	t.mu.Lock()
	defer t.mu.Unlock()
	for _, c := range t.made {
		if atomic.LoadInt32(&c.closes) == 0 {
			return c
		}
	}
	return nil
}

// ---------------------------------------------------------------- a server of some kind

type rig struct {
	name             string
	srv              thrift.TServer
	log              *callLog
	mem              *memServer
	addr             net.Addr
	st               thrift.TServerTransport
	inFr, outFr      bool
	track            tracker
	in, out          *Proto
	golden, blocking bool // blocking: one connection at a time
	served           chan error
	fac              *hookProcFac
	hook             atomic.Value // func(string)
	stopping         int32
}

func (g *rig) onEvent(ev string) {
	if f, ok := g.hook.Load().(func(string)); ok {
		f(ev)
	}
}

func pickFac(fr bool) thrift.TTransportFactory {
	if fr {
		return framedFac{}
	}
	return thrift.NewTTransportFactory()
}

func newRig(r *Rng, mem bool) (*rig, error) {
	g := &rig{log: &callLog{n: map[int64]int{}, trouble: map[int64]bool{}, delay: r.Bool()}, served: make(chan error, 1)}
	g.log.hook = g.onEvent
	g.golden = r.Bool()
	g.blocking = r.P(30)
	protos := []*Proto{pBinary, pCompact, pJSON, pBinaryDef}
	if g.golden {
		protos = append(protos, pSimple)
	}
	if mem {
		g.mem = newMemServer()
		g.mem.hook = g.onEvent
		g.st = g.mem
		if r.Bool() {
			g.mem.wrap = func(c net.Conn) thrift.TTransport { return thrift.NewTIOStreamTransportRW(c) }
		}
	} else {
		var e error
		if g.addr, e = freeAddr(r); e != nil {
			return nil, e
		}
		var s thrift.TServerTransport
		if r.Bool() {
			s, _ = thrift.NewTServerSocketAddrTimeout(g.addr, int64(time.Minute)*int64(r.Intn(2)))
		} else {
			s, _ = thrift.NewTNonblockingServerSocketAddrTimeout(g.addr, int64(time.Minute)*int64(r.Intn(2)))
		}
		g.st = &hookedServer{s, g.onEvent}
	}
	vp := &valueProcessor{callLog: g.log}
	var proc thrift.TProcessor = vp
	if g.golden {
		proc = simple.NewContainerOfEnumsTestServiceProcessor(logHandler{g.log})
	}
	g.fac = &hookProcFac{p: proc, hook: g.onEvent}
	g.in = protos[r.Intn(len(protos))]
	g.out = g.in
	g.inFr = r.Bool()
	g.outFr = g.inFr
	how := r.Intn(6)
	switch how {
	case 0, 1:
		g.in, g.out, g.inFr, g.outFr = pBinaryFac, pBinaryFac, false, false
	case 4, 5:
		g.out, g.outFr = protos[r.Intn(len(protos))], r.Bool()
		if r.Bool() {
			g.outFr = g.inFr
		}
	}
	vp.fixMaps = g.in == pCompact
	tf := func(fr bool, ev string) thrift.TTransportFactory {
		return hookTransFac{pickFac(fr), g.onEvent, ev, &g.track}
	}
	shared := tf(g.inFr, "get-transport")
	if g.blocking {
		switch how {
		case 0:
			g.srv = thrift.NewTSimpleServer2(proc, g.st)
		case 1:
			g.srv = thrift.NewTSimpleServerFactory2(g.fac, g.st)
		case 2:
			g.srv = thrift.NewTSimpleServer4(proc, g.st, shared, protoFac{g.in})
		case 3:
			g.srv = thrift.NewTSimpleServerFactory4(g.fac, g.st, shared, protoFac{g.in})
		case 4:
			g.srv = thrift.NewTSimpleServer6(proc, g.st, tf(g.inFr, "get-in"), tf(g.outFr, "get-out"), protoFac{g.in}, protoFac{g.out})
		default:
			g.srv = thrift.NewTSimpleServerFactory6(g.fac, g.st, tf(g.inFr, "get-in"), tf(g.outFr, "get-out"), protoFac{g.in}, protoFac{g.out})
		}
	} else {
		switch how {
		case 0:
			g.srv = thrift.NewTNonblockingServer2(proc, g.st)
		case 1:
			g.srv = thrift.NewTNonblockingServerFactory2(g.fac, g.st)
		case 2:
			g.srv = thrift.NewTNonblockingServer4(proc, g.st, shared, protoFac{g.in})
		case 3:
			g.srv = thrift.NewTNonblockingServerFactory4(g.fac, g.st, shared, protoFac{g.in})
		case 4:
			g.srv = thrift.NewTNonblockingServer6(proc, g.st, tf(g.inFr, "get-in"), tf(g.outFr, "get-out"), protoFac{g.in}, protoFac{g.out})
		default:
			g.srv = thrift.NewTNonblockingServerFactory6(g.fac, g.st, tf(g.inFr, "get-in"), tf(g.outFr, "get-out"), protoFac{g.in}, protoFac{g.out})
		}
	}
	if how%2 == 0 {
		g.fac = nil
	}
	g.name = fmt.Sprintf("server %T ctor %d mem=%v golden=%v in=%s framed=%v out=%s framed=%v transport=%T", g.srv, how, mem, g.golden, g.in.Name, g.inFr, g.out.Name, g.outFr, g.st)
	return g, nil
}

func (g *rig) start() {
	go func() { g.served <- g.srv.Serve() }()
}

func (g *rig) dial() (net.Conn, error) {
	if g.mem != nil {
		return g.mem.dial()
	}
	for i := 0; ; i++ {
		c, e := dialAddr(g.addr, 10*time.Second)
		if e == nil {
			return c, nil
		}
		if i > 2000 || !strings.Contains(e.Error(), "refused") || atomic.LoadInt32(&g.stopping) != 0 {
			return nil, e
		}
		time.Sleep(time.Millisecond)
	}
}

// up waits until the server listens.
func (g *rig) up() bool {
	for i := 0; i < 50000 && atomic.LoadInt32(&g.stopping) == 0; i++ {
		if g.open() {
			return true
		}
		time.Sleep(100 * time.Microsecond)
	}
	return false
}

func (g *rig) open() bool {
	if g.mem != nil {
		g.mem.mu.Lock()
		defer g.mem.mu.Unlock()
		return g.mem.everOpen
	}
	s, ok := g.st.(*hookedServer).TServerTransport.(interface{ IsOpen() bool })
	return ok && s.IsOpen()
}

// ---------------------------------------------------------------- clients

type call struct {
	uid  int64
	msg  *Msg
	wire []byte
	want *Msg // what the reply has to be; nil: an application exception with this sequence id
	kind int32
}

// mkCall makes a call that carries an identity, ready to be sent.
func (g *rig) mkCall(r *Rng, uid int64) (*call, error) {
	c := &call{uid: uid}
	seqs := []int32{0, 1, -1, 2147483647, -2147483648, int32(uid), int32(r.U64())}
	seq := seqs[r.Intn(len(seqs))]
	if g.golden {
		c.msg = &Msg{Name: "echo", Kind: thrift.CALL, Seq: seq, Body: &V{T: thrift.STRUCT, F: []Fld{{"message", 1, enumsV(goldenCall(uid))}}}}
		c.want = &Msg{Name: "echo", Kind: thrift.REPLY, Seq: seq, Body: &V{T: thrift.STRUCT, F: []Fld{{"success", 0, enumsV(goldenAnswer(uid))}}}}
	} else {
		o := GenOpt{UTF8: true, NoNaN: true, Budget: 1 + r.Intn(40), Depth: 1 + r.Intn(3), Keys: []thrift.TType{thrift.I32, thrift.STRING, thrift.I64}}
		if g.in.JSON || g.out.JSON {
			o.ASCII = true
		}
		v := newGen(r, o).strct(2)
		f := []Fld{{"uid", 1, &V{T: thrift.I64, I: uid}}, {"check", 2, &V{T: thrift.I64, I: uidCheck(uid)}}, {"v", 3, v}}
		if r.P(10) {
			f = append(f, Fld{"big", 4, &V{T: thrift.STRING, S: strings.Repeat("0123456789abcdef", 1+r.Intn(3000))}})
		}
		names := []string{"echo", "", "a", "do_it", "get.x", strings.Repeat("n", 300)}
		c.msg = &Msg{Name: names[r.Intn(len(names))], Kind: thrift.CALL, Seq: seq, Body: &V{T: thrift.STRUCT, F: f}}
		c.want = &Msg{Name: c.msg.Name, Kind: thrift.REPLY, Seq: seq, Body: &V{T: thrift.STRUCT, F: []Fld{{"success", 0, c.msg.Body}}}}
	}
	return c, g.seal(c)
}

func (g *rig) seal(c *call) error {
	b, e := g.in.encode(c.msg)
	if e != nil {
		return e
	}
	if g.inFr {
		b = frame(b)
	}
	c.wire = b
	return nil
}

// enumsV is the value a ContainerOfEnums has on the wire.
func enumsV(c *simple.ContainerOfEnums) *V {
	v := &V{T: thrift.STRUCT}
	add := func(n string, id int16, x int64) {
		if x != -2147483649 {
			v.F = append(v.F, Fld{n, id, &V{T: thrift.I32, I: x}})
		}
	}
	add("first", 1, int64(c.First))
	add("second", 2, int64(c.Second))
	add("third", 3, int64(c.Third))
	add("optional_fourth", 4, int64(c.OptionalFourth))
	add("optional_fifth", 5, int64(c.OptionalFifth))
	add("optional_sixth", 6, int64(c.OptionalSixth))
	add("default_seventh", 7, int64(c.DefaultSeventh))
	add("default_eighth", 8, int64(c.DefaultEighth))
	add("default_nineth", 9, int64(c.DefaultNineth))
	return v
}

const clientPatience = 60 * time.Second

type client struct {
	g     *rig
	id    int
	r     *Rng
	conn  net.Conn
	rd    thrift.TProtocol
	calls []*call
	err   string
	got   int
	quiet bool
}

func (c *client) fail(f string, a ...interface{}) {
	if c.err == "" {
		c.err = fmt.Sprintf("client %d: ", c.id) + fmt.Sprintf(f, a...)
	}
}

func (c *client) connect() bool {
	conn, e := c.g.dial()
	if e != nil {
		c.fail("connecting: %v", e)
		return false
	}
	c.conn = conn
	conn.SetDeadline(time.Now().Add(clientPatience))
	var tr thrift.TTransport = thrift.NewTIOStreamTransportR(conn)
	if c.g.outFr {
		tr = thrift.NewTFramedTransport(tr)
	}
	c.rd = c.g.out.New(tr)
	return true
}

// send writes the bytes in pieces.
func (c *client) send(b []byte) error {
	for len(b) > 0 {
		n := len(b)
		if c.r.P(30) {
			n = 1 + c.r.Intn(n)
			if c.r.P(30) {
				runtime.Gosched()
			}
		}
		k, e := c.conn.Write(b[:n])
		if e != nil {
			return e
		}
		b = b[k:]
	}
	return nil
}

// reply reads one reply and compares it with the call it has to answer.
func (c *client) reply(k *call) bool {
	if k.want == nil {
		name, kind, seq, e := c.rd.ReadMessageBegin()
		if e != nil {
			c.fail("reading the reply to call %d (%s): %v", c.got, k.msg.Name, e)
			return false
		}
		if name != k.msg.Name || kind != thrift.EXCEPTION || seq != k.msg.Seq {
			c.fail("call %q with sequence id %d was answered by message %q kind %d id %d", k.msg.Name, k.msg.Seq, name, kind, seq)
			return false
		}
		x, e2 := thrift.NewTApplicationExceptionDefault().Read(c.rd)
		if e2 != nil {
			c.fail("reading the exception: %v", e2)
			return false
		}
		if x.TypeId() != k.kind {
			c.fail("call %q was answered with an application exception of kind %d, want %d (%s)", k.msg.Name, x.TypeId(), k.kind, x.Error())
			return false
		}
		if e := c.rd.ReadMessageEnd(); e != nil {
			c.fail("reading the end of the exception: %v", e)
			return false
		}
		c.got++
		return true
	}
	ctl := readCtl{maxNodes: 1000000, maxDepth: 1000}
	m, e := c.g.out.readMsg(c.rd, k.want, &ctl)
	if e != nil {
		c.fail("reading the reply to call %d of %d (id %d): %v", c.got, len(c.calls), k.msg.Seq, e)
		return false
	}
	eq := c.g.out.Eq
	eq.EmptyMapAny = eq.EmptyMapAny || c.g.in.Eq.EmptyMapAny
	if d := diffMsg(k.want, m, eq); d != "" {
		c.fail("reply to call %d (id %d): %s", c.got, k.msg.Seq, d)
		return false
	}
	c.got++
	return true
}

// end requires that nothing follows the replies; the client has to have ended its side.
func (c *client) end() {
	var one [1]byte
	n, e := c.conn.Read(one[:])
	if n > 0 {
		c.fail("a byte %#x follows the last reply", one[0])
	} else if e == nil {
		c.fail("read returned nothing")
	} else if te, ok := e.(net.Error); ok && te.Timeout() {
		c.fail("the server did not end the connection the client has ended")
	}
}

// good clients send well-formed calls and want all the answers.
func (c *client) good(mode int) {
	if !c.connect() {
		return
	}
	defer c.conn.Close()
	switch mode {
	case 0: // one after the other
		for _, k := range c.calls {
			if e := c.send(k.wire); e != nil {
				c.fail("sending call %d: %v", c.got, e)
				return
			}
			if !c.reply(k) {
				return
			}
		}
	case 1: // all calls on their way at once
		done := make(chan error, 1)
		go func() {
			var all []byte
			for _, k := range c.calls {
				all = append(all, k.wire...)
			}
			done <- c.send(all)
		}()
		for _, k := range c.calls {
			if !c.reply(k) {
				c.conn.Close()
				break
			}
		}
		if e := <-done; e != nil && c.err == "" {
			c.fail("sending: %v", e)
		}
	}
	if c.err != "" {
		return
	}
	if h, ok := c.conn.(interface{ CloseWrite() error }); ok {
		h.CloseWrite()
		c.end()
	} else if k := c.calls[len(c.calls)-1]; k.want == nil {
		c.end()
	}
}

// generated uses the generated client.
func (c *client) generated() {
	conn, e := c.g.dial()
	if e != nil {
		c.fail("connecting: %v", e)
		return
	}
	conn.SetDeadline(time.Now().Add(clientPatience))
	defer conn.Close()
	s, _ := thrift.NewTSocketConn(conn)
	var tr thrift.TTransport = s
	if c.g.inFr {
		tr = thrift.NewTFramedTransport(tr)
	}
	cl := simple.NewContainerOfEnumsTestServiceClientFactory(tr, protoFac{c.g.in})
	for _, k := range c.calls {
		x, e := cl.Echo(goldenCall(k.uid))
		if e != nil {
			c.fail("generated client, call %d of %d: %v", c.got, len(c.calls), e)
			return
		}
		if !sameEnums(x, goldenAnswer(k.uid)) {
			c.fail("generated client, call %d returned %v", c.got, x)
			return
		}
		c.got++
	}
}

// bad clients send something and go away.
func (c *client) bad(mode int) string {
	c.quiet = true
	if !c.connect() {
		return "no connection"
	}
	defer c.conn.Close()
	c.conn.SetDeadline(time.Now().Add(300 * time.Millisecond))
	go io.Copy(io.Discard, c.conn)
	k := c.calls[0]
	switch mode {
	case 0: // says nothing
		return "silent"
	case 1: // stops in the middle of a call
		n := len(k.wire) - 2
		if n > 0 {
			c.send(k.wire[:c.r.Intn(n)])
		}
		return "cut"
	case 2: // stalls in the middle of a call
		n := len(k.wire) - 2
		if n > 0 {
			c.send(k.wire[:c.r.Intn(n)])
		}
		time.Sleep(time.Duration(c.r.Intn(8000)) * time.Microsecond)
		return "stall"
	case 3: // noise
		b := c.r.Bytes(1 + c.r.Intn(60))
		if c.r.Bool() {
			b = append([]byte{0x80, 1, 0, 1}, b...)
		}
		if c.r.Bool() {
			b = frame(b)
		}
		c.send(b)
		return "noise"
	case 4: // a damaged call
		b := append([]byte(nil), k.wire...)
		for i := 1 + c.r.Intn(3); i > 0; i-- {
			b[c.r.Intn(len(b))] ^= byte(1 + c.r.Intn(255))
		}
		c.send(b)
		time.Sleep(time.Duration(c.r.Intn(2000)) * time.Microsecond)
		return "damaged"
	case 5: // whole calls, without waiting for the replies
		for _, k := range c.calls {
			c.send(k.wire)
		}
		return "gone"
	}
	return ""
}

// ---------------------------------------------------------------- C17

func serverCase(t *T, mem bool) {
	g, e := newRig(t.R, mem)
	if e != nil {
		t.Count("no_loopback", 1)
		return
	}
	var note string
	t.Desc(func() string { return g.name + note })
	nGood := 1 + t.R.Intn(8)
	nBad := t.R.Intn(5)
	if g.blocking {
		nGood = 1 + t.R.Intn(4)
		nBad = t.R.Intn(3)
	}
	if t.R.P(5) {
		nGood += 20
	}
	var cs []*client
	var gen bool
	for i := 0; i < nGood+nBad; i++ {
		c := &client{g: g, id: i, r: NewRng(t.R.U64())}
		n := 1 + t.R.Intn(8)
		if t.R.P(10) {
			n = 30 + t.R.Intn(40)
		}
		for k := 0; k < n; k++ {
			x, e := g.mkCall(c.r, int64(i)<<12|int64(k))
			if e != nil {
				t.Fail("encoding a call: %v", e)
				return
			}
			c.calls = append(c.calls, x)
		}
		// the last call may be one that is answered with an exception
		if g.golden && i < nGood && c.r.P(30) {
			x := c.calls[n-1]
			x.want = nil
			switch c.r.Intn(2) {
			case 0:
				x.msg.Name = "no_such_method"
				x.kind = thrift.UNKNOWN_METHOD
			default:
				x.kind = thrift.INTERNAL_ERROR
				g.log.trouble[x.uid] = true
			}
			if g.in == pSimple && x.kind == thrift.UNKNOWN_METHOD {
				x.msg.Name, x.kind = "echo", thrift.INTERNAL_ERROR // unknown values cannot be skipped in this format
				g.log.trouble[x.uid] = true
			}
			if e := g.seal(x); e != nil {
				t.Fail("encoding a call: %v", e)
				return
			}
		}
		cs = append(cs, c)
	}
	g.start()
	if !g.up() {
		t.Fail("the server does not listen")
		return
	}
	var wg sync.WaitGroup
	modes := make([]string, len(cs))
	order := t.R.Perm(len(cs))
	for _, i := range order {
		c := cs[i]
		mode := c.r.Intn(2)
		bm := c.r.Intn(6)
		gen = g.golden && c.r.P(35) && g.in == g.out && g.inFr == g.outFr
		if gen {
			for _, k := range c.calls {
				if k.want == nil {
					gen = false
				}
			}
		}
		gen := gen
		wg.Add(1)
		go func() {
			defer wg.Done()
			if c.id >= nGood {
				modes[c.id] = c.bad(bm)
			} else if gen {
				modes[c.id] = "generated"
				c.generated()
			} else {
				modes[c.id] = fmt.Sprint("mode", mode)
				c.good(mode)
			}
		}()
		if t.R.P(20) {
			time.Sleep(time.Duration(t.R.Intn(500)) * time.Microsecond)
		}
	}
	wg.Wait()
	note = fmt.Sprintf(" clients %v", modes)
	g.srv.Stop()
	var serveErr error
	select {
	case serveErr = <-g.served:
	case <-time.After(clientPatience):
		t.Fail("the server still runs %v after it was stopped and all clients went away", clientPatience)
		return
	}
	_ = serveErr
	total := 0
	for _, c := range cs {
		if c.err != "" && !c.quiet {
			t.Fail("%s", c.err)
			return
		}
		for i, k := range c.calls {
			n := g.log.count(k.uid)
			want := 1
			if k.want == nil && k.kind == thrift.UNKNOWN_METHOD {
				want = 0
			}
			if !c.quiet && n != want {
				t.Fail("client %d: call %d (%q, id %d) was processed %d times, want %d", c.id, i, k.msg.Name, k.msg.Seq, n, want)
				return
			}
			if c.quiet {
				switch modes[c.id] {
				case "gone":
					if n > 1 {
						t.Fail("client %d: call %d of a client that went away was processed %d times", c.id, i, n)
						return
					}
				case "damaged":
				default:
					if n > 0 {
						t.Fail("client %d (%s): a call that was never sent in full was processed", c.id, modes[c.id])
						return
					}
				}
			} else {
				total++
			}
		}
	}
	// calls of one connection are processed in their order
	g.log.mu.Lock()
	last := map[int64]int64{}
	h := hashStr(7, g.name)
	for _, u := range g.log.order {
		if u>>12 < int64(nGood) {
			if p, ok := last[u>>12]; ok && p >= u {
				g.log.mu.Unlock()
				t.Fail("client %d: call %d was processed after call %d", u>>12, u&4095, p&4095)
				return
			}
			last[u>>12] = u
		}
		h = h*0x9E3779B97F4A7C15 + uint64(u>>12)
	}
	maxAct := g.log.maxAct
	g.log.mu.Unlock()
	if g.blocking && maxAct > 1 {
		t.Fail("the single-threaded server ran %d calls at once", maxAct)
	}
	t.Count("calls_answered", total)
	t.Count("connections", len(cs))
	t.Count("hostile_clients", nBad)
	if maxAct > 1 {
		t.Count("runs_with_calls_at_once", 1)
	}
	if g.fac != nil {
		g.fac.mu.Lock()
		got := map[thrift.TTransport]bool{}
		for _, x := range g.fac.got {
			if got[x] {
				t.Fail("the processor factory was asked twice for one connection")
			}
			got[x] = true
		}
		n := len(got)
		g.fac.mu.Unlock()
		if n > len(cs) {
			t.Fail("%d connections, %d processors", len(cs), n)
		}
		t.Count("processors_requested", n)
	}
	t.Seen(h)
	t.Sample("%s%s", g.name, note)
}

// held calls: one client's call is being processed, or its connection is stalled, while others must be answered.
func heldCase(t *T) {
	var g *rig
	for {
		var e error
		if g, e = newRig(t.R, t.R.Bool()); e != nil {
			t.Count("no_loopback", 1)
			return
		}
		if !g.blocking {
			break
		}
		if g.st != nil {
			g.st.Close()
		}
	}
	t.Desc(func() string { return g.name })
	release := make(chan bool)
	var holding int32
	g.hook.Store(func(ev string) {
		if ev == "handler" && atomic.AddInt32(&holding, 1) <= 2 {
			<-release
		}
	})
	g.start()
	if !g.up() {
		t.Fail("the server does not listen")
		return
	}
	mk := func(id, n int) *client {
		c := &client{g: g, id: id, r: NewRng(t.R.U64())}
		for k := 0; k < n; k++ {
			x, e := g.mkCall(c.r, int64(id)<<12|int64(k))
			if e != nil {
				t.Fail("encoding: %v", e)
			}
			c.calls = append(c.calls, x)
		}
		return c
	}
	// two clients whose first calls are held in the handler
	var wg sync.WaitGroup
	held := []*client{mk(0, 3), mk(1, 1)}
	for _, c := range held {
		c := c
		wg.Add(1)
		go func() { defer wg.Done(); c.good(1) }()
	}
	for i := 0; atomic.LoadInt32(&holding) < 2; i++ {
		if i > 300000 {
			t.Fail("two calls on two connections do not run at the same time")
			close(release)
			return
		}
		time.Sleep(100 * time.Microsecond)
	}
	// and several that stall in other ways
	var stalled []net.Conn
	for i := 0; i < 1+t.R.Intn(3); i++ {
		c := mk(100+i, 1)
		if c.connect() {
			if n := len(c.calls[0].wire) - 2; n > 0 && t.R.P(70) {
				c.conn.Write(c.calls[0].wire[:t.R.Intn(n)])
			}
			stalled = append(stalled, c.conn)
		}
	}
	// others are served all the same
	free := []*client{mk(10, 1+t.R.Intn(5)), mk(11, 1+t.R.Intn(5)), mk(12, 1)}
	var wf sync.WaitGroup
	for i, c := range free {
		c, i := c, i
		wf.Add(1)
		go func() { defer wf.Done(); c.good(i % 2) }()
	}
	wf.Wait()
	for _, c := range free {
		if c.err != "" {
			t.Fail("while other connections are stalled: %s", c.err)
		}
	}
	for _, c := range held {
		if c.got != 0 {
			t.Fail("client %d has a reply to a call that is still being processed", c.id)
		}
	}
	close(release)
	wg.Wait()
	for _, c := range stalled {
		c.Close()
	}
	for _, c := range append(held, free...) {
		if c.err != "" {
			t.Fail("%s", c.err)
		}
		for i, k := range c.calls {
			if n := g.log.count(k.uid); n != 1 {
				t.Fail("client %d: call %d was processed %d times", c.id, i, n)
			}
			t.Count("calls_answered", 1)
		}
	}
	t.Count("held_calls", len(held))
	g.srv.Stop()
	select {
	case <-g.served:
	case <-time.After(clientPatience):
		t.Fail("the server still runs after it was stopped")
	}
	t.Seen(hashStr(uint64(t.Idx), g.name))
}

func serverCalls(r *Run) {
	thrift.LOGGER.SetOutput(io.Discard)
	r.Cases("memory", r.N(500, 12000), func(t *T) { serverCase(t, true) })
	r.Cases("tcp", r.N(150, 3000), func(t *T) { serverCase(t, false) })
	r.Cases("held", r.N(60, 1500), heldCase)
	r.Cases("ended", r.N(96, 960), endedCase)
	r.Cases("accessors", 12, func(t *T) {
		// the constructors keep what they are given apart
		g, e := newRig(t.R, true)
		if e != nil {
			return
		}
		a, b, c, d := hookTransFac{ev: "a"}, hookTransFac{ev: "b"}, protoFac{pJSON}, protoFac{pCompact}
		pf := &hookProcFac{}
		var s thrift.TServer = thrift.NewTSimpleServerFactory6(pf, g.st, &a, &b, c, d)
		if t.Idx%2 == 0 {
			s = thrift.NewTNonblockingServerFactory6(pf, g.st, &a, &b, c, d)
		}
		if s.ProcessorFactory() != thrift.TProcessorFactory(pf) || s.ServerTransport() != g.st || s.InputTransportFactory() != thrift.TTransportFactory(&a) ||
			s.OutputTransportFactory() != thrift.TTransportFactory(&b) || s.InputProtocolFactory() != thrift.TProtocolFactory(c) || s.OutputProtocolFactory() != thrift.TProtocolFactory(d) {
			t.Fail("a server reports other factories than it was given")
		}
	})
}

// ---------------------------------------------------------------- C18

// stopCase stops a server at one of the events of its life.
func stopCase(t *T, mem bool) {
	g, e := newRig(t.R, mem)
	if e != nil {
		t.Count("no_loopback", 1)
		return
	}
	evs := []string{"listen-enter", "listen-return", "accept-enter", "accept-return", "get-processor", "get-transport", "get-in", "get-out", "handler", "timer", "before-call", "after-reply"}
	at := evs[t.R.Intn(len(evs))]
	nth := 1 + t.R.Intn(3)
	if strings.HasPrefix(at, "listen") {
		nth = 1
	}
	same := t.R.P(40) && at != "listen-enter" // in the very goroutine that reports the event
	stoppers := 1 + t.R.Intn(3)
	t.Desc(func() string {
		return fmt.Sprintf("%s; stop at %s %d, in that goroutine: %v, by %d goroutines", g.name, at, nth, same, stoppers)
	})
	var seen int32
	stopped := &g.stopping
	var wg sync.WaitGroup
	wg.Add(stoppers)
	stop := func() bool {
		if !atomic.CompareAndSwapInt32(stopped, 0, 1) {
			return false
		}
		n := stoppers
		if same {
			g.srv.Stop()
			wg.Done()
			n--
		}
		for ; n > 0; n-- {
			go func() { defer wg.Done(); g.srv.Stop() }()
		}
		return true
	}
	g.hook.Store(func(ev string) {
		if ev == at && atomic.AddInt32(&seen, 1) == int32(nth) {
			stop()
		}
	})
	quit := make(chan bool)
	var served int32
	var bg sync.WaitGroup
	clients := t.R.Intn(5)
	if g.blocking && clients > 2 {
		clients = 2
	}
	if at == "listen-enter" {
		// the event is before the server listens: stop once it does
		at = "listen-return"
	}
	g.start()
	var conns struct {
		sync.Mutex
		l []net.Conn
	}
	lastUID := int64(0)
	for i := 0; i < clients; i++ {
		c := &client{g: g, id: i, r: NewRng(t.R.U64())}
		stall := t.R.P(20)
		bg.Add(1)
		go func() {
			defer bg.Done()
			if !c.connect() {
				return
			}
			conns.Lock()
			conns.l = append(conns.l, c.conn)
			conns.Unlock()
			defer c.conn.Close()
			if stall {
				<-quit
				return
			}
			for k := 0; k < 1+int(c.r.U64()%6); k++ {
				select {
				case <-quit:
					return
				default:
				}
				x, e := g.mkCall(c.r, atomic.AddInt64(&lastUID, 1))
				if e != nil {
					return
				}
				if at == "before-call" && atomic.AddInt32(&seen, 1) == int32(nth) {
					stop()
				}
				if c.send(x.wire) != nil || !c.reply(x) {
					return
				}
				atomic.AddInt32(&served, 1)
				if at == "after-reply" && atomic.AddInt32(&seen, 1) == int32(nth) {
					stop()
				}
			}
		}()
	}
	if !g.up() && atomic.LoadInt32(stopped) == 0 {
		t.Fail("the server does not listen")
	}
	if at == "timer" {
		time.Sleep(time.Duration(t.R.Intn(3000)) * time.Microsecond)
		stop()
	} else {
		time.Sleep(time.Duration(t.R.Intn(3000)) * time.Microsecond)
		for i := 0; i < 20 && atomic.LoadInt32(stopped) == 0; i++ {
			time.Sleep(200 * time.Microsecond)
		}
		if stop() {
			t.Count("event_never_came", 1)
		}
	}
	if g.blocking {
		// it may be serving a connection: that ends
		time.Sleep(time.Duration(t.R.Intn(1000)) * time.Microsecond)
		close(quit)
		conns.Lock()
		for _, c := range conns.l {
			c.Close()
		}
		conns.Unlock()
	}
	select {
	case <-g.served:
	case <-time.After(clientPatience):
		t.Fail("Serve did not return within %v of Stop", clientPatience)
		return
	}
	wg.Wait()
	if s, ok := g.srv.(*thrift.TNonblockingServer); ok && !s.IsStopped() {
		t.Fail("the stopped server says it is not")
	}
	// no new connections
	if mem {
		g.mem.mu.Lock()
		open, acc, given := g.mem.open, g.mem.accepts, len(g.mem.given)
		g.mem.mu.Unlock()
		if open {
			t.Fail("the server transport still listens after Serve has returned")
		}
		time.Sleep(100 * time.Microsecond)
		g.mem.mu.Lock()
		if g.mem.accepts != acc || len(g.mem.given) != given {
			t.Fail("the server accepts after Serve has returned")
		}
		g.mem.mu.Unlock()
	} else {
		if s := g.st.(*hookedServer).TServerTransport.(interface{ IsOpen() bool }); s.IsOpen() {
			t.Fail("the server transport is open after Serve has returned")
		}
		if c, e := dialAddr(g.addr, 5*time.Second); e == nil {
			x, _ := g.mkCall(t.R, 1<<40>>12)
			c.SetDeadline(time.Now().Add(5 * time.Second))
			if !g.golden {
				c.Write(x.wire)
				var b [1]byte
				if n, _ := c.Read(b[:]); n > 0 {
					t.Fail("a connection made after Serve has returned is served")
				}
			}
			t.Fail("a connection can be made after Serve has returned")
			c.Close()
		}
	}
	if !g.blocking {
		close(quit)
		conns.Lock()
		for _, c := range conns.l {
			c.Close()
		}
		conns.Unlock()
	}
	bg.Wait()
	g.srv.Stop() // once more does no harm
	t.Count("stops", 1)
	t.Count("stopped_at_"+at, 1)
	t.Count("calls_before_stop", int(atomic.LoadInt32(&served)))
	t.Seen(hashStr(uint64(nth)<<8|uint64(stoppers)<<4, g.name+at+fmt.Sprint(same, clients)))
	t.Sample("%s; stop at %s %d in that goroutine: %v", g.name, at, nth, same)
}

// interruptCase closes server transports others wait on.
func interruptCase(t *T) {
	a, e := freeAddr(t.R)
	if e != nil {
		t.Count("no_loopback", 1)
		return
	}
	var st interface {
		thrift.TServerTransport
		IsOpen() bool
	}
	if t.R.Bool() {
		st, _ = thrift.NewTServerSocketAddr(a)
	} else {
		st, _ = thrift.NewTNonblockingServerSocketAddr(a)
	}
	acceptors, enders := 1+t.R.Intn(3), 1+t.R.Intn(3)
	useClose := t.R.Bool()
	late := t.R.Intn(400)
	t.Desc(func() string {
		return fmt.Sprintf("%T acceptors=%d enders=%d close=%v", st, acceptors, enders, useClose)
	})
	for round := 0; round < 2; round++ {
		if e := st.Listen(); e != nil {
			t.Fail("round %d: listen: %v", round, e)
			return
		}
		res := make(chan error, acceptors)
		for i := 0; i < acceptors; i++ {
			go func() {
				for {
					c, e := st.Accept()
					if e != nil {
						res <- e
						return
					}
					c.Close()
				}
			}()
		}
		nd := t.R.Intn(3)
		for i := 0; i < nd; i++ {
			if c, e := dialAddr(a, 5*time.Second); e == nil {
				c.Close()
			}
		}
		time.Sleep(time.Duration(late) * time.Microsecond)
		var wg sync.WaitGroup
		for i := 0; i < enders; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if useClose {
					st.Close()
				} else {
					st.Interrupt()
				}
			}()
		}
		wg.Wait()
		for i := 0; i < acceptors; i++ {
			select {
			case <-res:
				t.Count("accepts_interrupted", 1)
			case <-time.After(clientPatience):
				t.Fail("round %d: Accept did not return after the server transport was closed", round)
				return
			}
		}
		if st.IsOpen() {
			t.Fail("round %d: the server transport is open after it was closed", round)
			return
		}
		if _, e := st.Accept(); e == nil {
			t.Fail("round %d: Accept works on a closed server transport", round)
			return
		}
		if c, e := dialAddr(a, 5*time.Second); e == nil {
			c.Close()
			t.Fail("round %d: connections can be made to the closed server transport", round)
			return
		}
	}
	t.Seen(hashStr(uint64(t.Idx), ""))
}

// someError is an error as server transports give them.
func someError(r *Rng, msg string) error {
	switch r.Intn(6) {
	case 0, 1:
		return thrift.NewTTransportException([]int{thrift.UNKNOWN_TRANSPORT_EXCEPTION, thrift.NOT_OPEN, thrift.TIMED_OUT, thrift.END_OF_FILE}[r.Intn(4)], msg)
	case 2:
		return &net.OpError{Op: "accept", Net: "tcp", Addr: loAddr{}, Err: []error{syscall.EMFILE, syscall.ECONNABORTED, syscall.EINTR, syscall.EAGAIN, syscall.EINVAL, os.ErrDeadlineExceeded, net.ErrClosed}[r.Intn(7)]}
	case 3:
		return []error{io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, net.ErrClosed, os.ErrDeadlineExceeded, syscall.EMFILE}[r.Intn(6)]
	}
	return errors.New(msg)
}

// brokenCase serves through a server transport that cannot listen, or cannot accept.
func brokenCase(t *T) {
	kind := t.Idx % 4
	g, e := newRig(t.R, kind != 1)
	if e != nil {
		t.Count("no_loopback", 1)
		return
	}
	g.log.delay = false
	t.Desc(func() string { return fmt.Sprintf("%s kind %d", g.name, kind) })
	t.Seen(hashStr(uint64(kind), g.name))
	returns := func(what string, want error) bool {
		select {
		case e := <-g.served:
			t.Count("serve_errors", 1)
			if e == nil {
				t.Fail("%s: Serve returns without an error", what)
				return false
			}
			if want != nil && !strings.Contains(e.Error(), want.Error()) {
				t.Fail("%s: Serve returns %v", what, e)
				return false
			}
			return true
		case <-time.After(clientPatience):
			t.Fail("%s: Serve does not return", what)
			return false
		}
	}
	uid := int64(6)
	works := func() bool {
		c := &client{g: g, id: 1, r: NewRng(t.R.U64())}
		uid++
		k, e := g.mkCall(c.r, uid)
		if e != nil {
			t.Fail("encoding: %v", e)
			return false
		}
		c.calls = append(c.calls, k)
		c.good(0)
		t.Count("calls", 1)
		if c.err != "" {
			t.Fail("a server that serves after that: %s", c.err)
		}
		return !t.Failed()
	}
	switch kind {
	case 0: // cannot listen, and later can
		want := someError(t.R, "no listening today")
		g.mem.listenErr = want
		g.start()
		if !returns("a server transport that cannot listen", want) {
			return
		}
		if g.mem.accepts != 0 {
			t.Fail("Accept is called on a server transport that is not listening")
			return
		}
		g.mem.listenErr = nil
		g.start()
	case 1: // the address is taken
		l, e := net.Listen(g.addr.Network(), g.addr.String())
		if e != nil {
			t.Count("no_loopback", 1)
			return
		}
		g.start()
		ok := returns("an address that is taken", nil)
		l.Close()
		if !ok {
			return
		}
		g.start()
	case 2: // accepting fails
		g.mem.acceptErr = someError(t.R, "no more of them")
		t.Count("accept_errors", 1)
		g.mem.acceptOK = t.R.Intn(3)
		for i := 0; i < g.mem.acceptOK; i++ {
			g.mem.nilAccepts++
		}
		g.start()
		returns("a server transport that cannot accept", g.mem.acceptErr)
		g.srv.Stop()
		return
	case 3: // accepting gives nothing now and then
		g.mem.nilAccepts = 1 + t.R.Intn(5)
		g.start()
	}
	if !g.up() {
		t.Fail("the server does not listen")
		return
	}
	if !works() {
		g.srv.Stop()
		return
	}
	for again := t.R.Intn(3); ; again-- {
		g.srv.Stop()
		select {
		case <-g.served:
			t.Count("stops", 1)
		case <-time.After(clientPatience):
			t.Fail("Serve does not return after Stop")
			return
		}
		if again == 0 {
			return
		}
		// a stopped server can serve again
		if g.mem != nil {
			g.mem.mu.Lock()
			g.mem.everOpen = false
			g.mem.mu.Unlock()
		}
		g.start()
		for i := 0; i < 300 && !g.open(); i++ {
			select {
			case e := <-g.served:
				if e != nil && strings.Contains(e.Error(), "in use") {
					return // somebody else has taken the address
				}
				t.Fail("a stopped server that is to serve again returns %v", e)
				return
			case <-time.After(time.Duration(i) * time.Millisecond):
			}
		}
		if !works() {
			g.srv.Stop()
			return
		}
		t.Count("served_again", 1)
	}
}

func serverStop(r *Run) {
	thrift.LOGGER.SetOutput(io.Discard)
	r.Cases("stop-memory", r.N(500, 12000), func(t *T) { stopCase(t, true) })
	r.Cases("stop-tcp", r.N(200, 5000), func(t *T) { stopCase(t, false) })
	r.Cases("interrupt", r.N(200, 4000), interruptCase)
	r.Cases("broken", r.N(400, 4000), brokenCase)
}

// endingProcessor answers so many calls and then says that it is done, with or without an error.
type endingProcessor struct {
	left, mode int
	calls      int32
}

func (p *endingProcessor) Process(in, out thrift.TProtocol) (bool, thrift.TException) {
	name, _, id, e := in.ReadMessageBegin()
	if e != nil {
		return false, e
	}
	if e := in.Skip(thrift.STRUCT); e != nil {
		return false, e
	}
	if e := in.ReadMessageEnd(); e != nil {
		return false, e
	}
	n := atomic.AddInt32(&p.calls, 1)
	out.WriteMessageBegin(name, thrift.REPLY, id)
	out.WriteStructBegin("r")
	out.WriteFieldStop()
	out.WriteStructEnd()
	out.WriteMessageEnd()
	if e := out.Transport().Flush(); e != nil {
		return false, thrift.NewTTransportExceptionFromOsError(e)
	}
	if int(n) < p.left {
		return true, nil
	}
	if p.mode == 0 {
		return false, nil
	}
	return p.mode == 1, thrift.NewTApplicationException(thrift.INTERNAL_ERROR, "done")
}

// endedCase has a processor end the connection.
func endedCase(t *T) {
	m := newMemServer()
	p := &endingProcessor{left: 1 + t.R.Intn(4), mode: t.R.Intn(3)}
	var srv thrift.TServer
	if t.Idx%2 == 0 {
		srv = thrift.NewTSimpleServer2(p, m)
	} else {
		srv = thrift.NewTNonblockingServer2(p, m)
	}
	extra := t.R.Intn(4)
	t.Desc(func() string {
		return fmt.Sprintf("%T: done after %d calls, mode %d, %d more", srv, p.left, p.mode, extra)
	})
	t.Seen(uint64(t.Idx%2)<<8 | uint64(p.left)<<4 | uint64(p.mode)<<2 | uint64(extra)<<16)
	served := make(chan error, 1)
	go func() { served <- srv.Serve() }()
	c, e := m.dial()
	if e != nil {
		t.Fail("%v", e)
		return
	}
	c.SetDeadline(time.Now().Add(clientPatience))
	go func() {
		for i := 0; i < p.left+extra; i++ {
			msg := &Msg{Name: "f", Kind: thrift.CALL, Seq: int32(i), Body: &V{T: thrift.STRUCT}}
			b, _ := pBinary.encode(msg)
			if _, e := c.Write(b); e != nil {
				return
			}
		}
	}()
	rt := thrift.NewTIOStreamTransportR(c)
	rp := pBinary.New(rt)
	n := 0
	for ; ; n++ {
		_, ty, id, e := rp.ReadMessageBegin()
		if e != nil {
			if te, ok := e.(thrift.TTransportException); ok && te.TypeId() == thrift.TIMED_OUT {
				t.Fail("the connection is not closed once its processor is done")
			}
			break
		}
		if ty != thrift.REPLY || int(id) != n {
			t.Fail("reply %d is of type %d to call %d", n, ty, id)
		}
		rp.Skip(thrift.STRUCT)
		rp.ReadMessageEnd()
	}
	c.Close()
	srv.Stop()
	select {
	case <-served:
	case <-time.After(clientPatience):
		t.Fail("Serve does not return after Stop")
	}
	if n != p.left || int(atomic.LoadInt32(&p.calls)) != p.left {
		t.Fail("%d replies to %d calls by a processor that is done after %d", n, p.calls, p.left)
	}
	t.Count("connections_ended", 1)
}
