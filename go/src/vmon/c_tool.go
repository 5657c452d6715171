package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"thrift"
	"time"
)

// C32: the command line clients of generated services.

func init() { props["C32"] = genTools }

func genTools(r *Run) {
	dir := os.Getenv("VMON_TOOLS")
	n := 0
	for _, s := range gSets {
		s := s
		for _, sv := range s.allSvcs {
			sv := sv
			prog := filepath.Join(dir, s.Name+"."+sv.prog.Name+"."+sv.Name)
			_, err := os.Stat(prog)
			have := dir != "" && err == nil
			for _, f := range sv.Funcs {
				f := f
				for k := 0; k < r.N(12, 60); k++ {
					if have {
						r.Case("call", n, func(t *T) { toolCall(t, s, sv, f, prog) })
					}
					n++
				}
				for k := 0; k < r.N(4, 20); k++ {
					if have {
						r.Case("misuse", n, func(t *T) { toolMisuse(t, s, sv, f, prog) })
					}
					n++
				}
			}
			if have {
				r.Case("help", n, func(t *T) { toolHelp(t, sv, prog) })
			}
			n++
		}
	}
}

var toolProtos = []*Proto{pBinary, pCompact, pJSON, pSimple}

// toolRun is one run of a tool.
type toolRun struct {
	stdout, stderr string
	ended          bool
	err            error
}

func runTool(prog string, args []string) *toolRun {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, prog, args...)
	c.Env = []string{"PATH=/usr/bin:/bin", "GOMAXPROCS=2", "HOME=" + os.TempDir()}
	c.Dir = os.TempDir()
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	err := c.Run()
	x := &toolRun{stdout: o.String(), stderr: e.String(), ended: ctx.Err() == nil, err: err}
	if _, ok := err.(*exec.ExitError); err != nil && !ok {
		x.err = err
	} else {
		x.err = nil
	}
	return x
}

// spelled is a decimal number as people write it: with zeros in front (which
// change nothing in decimal) or with a plus sign.
func spelled(r *Rng, x string) string {
	sign := ""
	if strings.HasPrefix(x, "-") {
		sign, x = "-", x[1:]
	}
	if x == "" || x[0] < '0' || x[0] > '9' {
		return sign + x
	}
	switch r.Intn(6) {
	case 0, 1:
		x = strings.Repeat("0", 1+r.Intn(3)) + x
	case 2:
		if sign == "" {
			sign = "+"
		}
	}
	return sign + x
}

// toolArg is the text by which an argument is given.
func (s *gSet) toolArg(r *Rng, v *V, t *gT) (string, error) {
	k := t.real().K
	switch k {
	case "bool":
		return strconv.FormatBool(v.I != 0), nil
	case "byte", "i16", "i32", "i64", "enum":
		return spelled(r, strconv.FormatInt(v.I, 10)), nil
	case "double":
		return spelled(r, strconv.FormatFloat(math.Float64frombits(v.D), "gef"[r.Intn(3)], -1, 64)), nil
	case "string", "binary":
		return v.S, nil
	}
	b, err := pSimple.encodeV(v)
	return string(b), err
}

// noNUL: no argument of a program can hold a NUL.
func (s *gSet) noNUL(v *V, t *gT) *V {
	k := t.real().K
	if k == "string" || k == "binary" {
		v.S = strings.ReplaceAll(v.S, "\x00", "z")
	}
	return v
}

// toolServer receives what a tool sends and answers it.
type toolServer struct {
	mu       sync.Mutex
	framed   bool
	http     bool
	complete func(b []byte) bool
	reply    func(b []byte) []byte // nil: hang up
	got      []byte                // the message
	rest     []byte                // what followed it, or what is not a message
	conns    int
	posts    []string
	l        net.Listener
	done     chan bool
	last     string // the address of the connection that ends it
}

func (ts *toolServer) start() error {
	l, err := net.Listen("tcp", loIP()+":0")
	if err != nil {
		return err
	}
	ts.l, ts.done = l, make(chan bool)
	if ts.http {
		go func() {
			defer close(ts.done)
			srv := &http.Server{Handler: http.HandlerFunc(ts.serveHTTP), ErrorLog: nullLog, ReadTimeout: 20 * time.Second}
			srv.Serve(l)
		}()
		return nil
	}
	go func() {
		defer close(ts.done)
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			ts.mu.Lock()
			last := ts.last != "" && c.RemoteAddr().String() == ts.last
			if !last {
				ts.conns++
			}
			ts.mu.Unlock()
			if last {
				c.Close()
				return
			}
			ts.serve(c)
		}
	}()
	return nil
}

func (ts *toolServer) serveHTTP(w http.ResponseWriter, q *http.Request) {
	b, _ := io.ReadAll(q.Body)
	ts.mu.Lock()
	ts.conns++
	ts.posts = append(ts.posts, q.Method+" "+q.RequestURI)
	first := ts.got == nil
	if first {
		ts.got = b
	} else {
		ts.rest = append(ts.rest, b...)
	}
	ts.mu.Unlock()
	if rep := ts.reply(b); rep != nil {
		w.Header().Set("Content-Type", "application/x-thrift")
		w.Write(rep)
		return
	}
	w.WriteHeader(500)
}

func (ts *toolServer) serve(c net.Conn) {
	defer c.Close()
	c.SetDeadline(time.Now().Add(20 * time.Second))
	var b []byte
	p := make([]byte, 65536)
	answered := false
	for {
		n, err := c.Read(p)
		b = append(b, p[:n]...)
		if !answered {
			m, rest, ok := ts.message(b)
			if ok {
				answered = true
				ts.mu.Lock()
				ts.got = m
				ts.mu.Unlock()
				b = append([]byte(nil), rest...)
				rep := ts.reply(m)
				if rep == nil {
					return
				}
				if ts.framed {
					rep = append(binary.BigEndian.AppendUint32(nil, uint32(len(rep))), rep...)
				}
				if len(rep) > 0 && !(ts.framed && len(rep) == 4) {
					c.Write(rep)
				}
			}
		}
		if err != nil {
			break
		}
	}
	ts.mu.Lock()
	ts.rest = append(ts.rest, b...)
	ts.mu.Unlock()
}

func (ts *toolServer) message(b []byte) (m, rest []byte, ok bool) {
	if ts.framed {
		if len(b) < 4 {
			return nil, nil, false
		}
		n := int(int32(binary.BigEndian.Uint32(b)))
		if n <= 0 || len(b)-4 < n {
			return nil, nil, false
		}
		return append([]byte(nil), b[4:4+n]...), b[4+n:], true
	}
	if ts.complete(b) {
		return append([]byte(nil), b...), nil, true
	}
	return nil, nil, false
}

// stop ends the server when it has served all connections there are: one of our own comes after them.
func (ts *toolServer) stop() {
	if ts.http {
		ts.l.Close()
	} else {
		defer ts.l.Close()
		ts.mu.Lock()
		c, err := net.DialTimeout("tcp", ts.l.Addr().String(), 5*time.Second)
		if err == nil {
			ts.last = c.LocalAddr().String()
			defer c.Close()
		}
		ts.mu.Unlock()
		if err != nil {
			ts.l.Close()
		}
	}
	select {
	case <-ts.done:
	case <-time.After(25 * time.Second):
	}
}

// where gives the arguments that lead to the server, and the request line to expect.
func (ts *toolServer) where(r *Rng) (args []string, line string) {
	a := ts.l.Addr().(*net.TCPAddr)
	h, p := a.IP.String(), strconv.Itoa(a.Port)
	if !ts.http {
		args = [][]string{{"-h", h, "-p", p}, {"-h=" + h, "-p=" + p}, {"-p", p, "-h", h}}[r.Intn(3)]
		if ts.framed {
			args = append(args, []string{"-framed", "-framed=true"}[r.Intn(2)])
		}
		return args, ""
	}
	if r.Bool() {
		return []string{"-http", "-h", h, "-p", p}, "POST /"
	}
	path := []string{"/", "/thrift", "/a/b/c?x=1&y=%20z", "/a%2Fb"}[r.Intn(4)]
	return []string{"-u", "http://" + h + ":" + p + path}, "POST " + path
}

func newToolServer(r *Rng, p *Proto) *toolServer {
	ts := &toolServer{}
	switch r.Intn(3) {
	case 0:
		ts.framed = true
	case 1:
		ts.http = true
	}
	ts.complete = func(b []byte) bool {
		if p.Schema {
			return json.Valid(b)
		}
		_, err := oneMsg(p, b)
		return err == nil
	}
	return ts
}

func (ts *toolServer) kind() string {
	return map[bool]string{true: "http", false: map[bool]string{true: "framed", false: "plain"}[ts.framed]}[ts.http]
}

func protoArgs(r *Rng, p *Proto) []string {
	if p == pBinary && r.Bool() {
		return nil
	}
	if r.Bool() {
		return []string{"-P=" + p.Name}
	}
	return []string{"-P", p.Name}
}

func shorten(args []string) string {
	var o []string
	for _, a := range args {
		if len(a) > 300 {
			a = a[:300] + "…"
		}
		o = append(o, strconv.Quote(a))
	}
	return strings.Join(o, " ")
}

// toolArgs are the values and texts for a call.
func (s *gSet) toolArgs(r *Rng, f *gFunc) (*V, []string, bool) {
	v := utf8V(s.full(r, f.Args, 2))
	var args []string
	for i, a := range f.Args.Fields {
		text, err := s.toolArg(r, s.noNUL(v.F[i].V, a.Type), a.Type)
		if err != nil || len(text) > 100000 || strings.Contains(text, "\x00") {
			return nil, nil, false
		}
		args = append(args, text)
	}
	return v, args, true
}

func toolCall(t *T, s *gSet, sv *gSvc, f *gFunc, prog string) {
	r := t.R
	p := toolProtos[r.Intn(len(toolProtos))]
	v, fargs, ok := s.toolArgs(r, f)
	if !ok {
		t.Count("not_given", 1)
		return
	}
	ts := newToolServer(r, p)
	o := s.outcome(r, f, p)
	if o.kind == "both" {
		o.kind, o.v, o.ans.ret = "exception", nil, nil
	}
	hangUp := !f.Oneway && r.P(10)
	h := &gHandler{answer: func(string) *gAnswer { return o.ans }}
	bad := ""
	ts.reply = func(b []byte) []byte {
		var seq int32
		if p.Schema || r.P(30) {
			// the processor of the service takes it
			in, out := NewXT(append([]byte(nil), b...)), NewXT(nil)
			sv.code.Processor(h).Process(p.New(in), p.New(out))
			if len(h.calls) != 1 || h.calls[0].fn != f.Name {
				bad = fmt.Sprintf("the request does not make the processor call %s: %d calls, %d bytes: %.300q", f.Name, len(h.calls), len(b), b)
				return nil
			}
			if d := s.checkArgs(f, h.calls[0].args, v); d != "" {
				bad = "what the service gets: " + d
				return nil
			}
			if hangUp {
				return nil
			}
			return append([]byte{}, out.Sink.buf...)
		}
		m, d := s.checkRequest(f, v, b, p)
		if d != "" {
			bad = d
			return nil
		}
		seq = m.Seq
		if hangUp {
			return nil
		}
		if f.Oneway {
			return []byte{}
		}
		rep := &Msg{Name: f.Name, Kind: thrift.REPLY, Seq: seq, Body: &V{T: thrift.STRUCT}}
		switch o.kind {
		case "value":
			if f.Returns.K != "void" {
				rep.Body.F = append(rep.Body.F, Fld{Name: "success", ID: 0, V: o.v})
			}
		case "exception":
			e := f.Throws.Fields[o.exc]
			rep.Body.F = append(rep.Body.F, Fld{Name: e.Name, ID: int16(e.ID), V: o.ev})
		case "error":
			rep.Kind = thrift.EXCEPTION
			rep.Body.F = []Fld{{Name: "message", ID: 1, V: &V{T: thrift.STRING, S: o.err.Error()}}, {Name: "type", ID: 2, V: &V{T: thrift.I32, I: 6}}}
		}
		rb, err := callBytes(r, p, rep)
		if err != nil {
			bad = "the reply for the test cannot be written: " + err.Error()
			return nil
		}
		return rb
	}
	if err := ts.start(); err != nil {
		t.Fail("no listener: %v", err)
		return
	}
	where, line := ts.where(r)
	args := append(append(append(append([]string{}, where...), protoArgs(r, p)...), f.Name), fargs...)
	t.Desc(func() string {
		return fmt.Sprintf("definition set %s, tool of %s: %s (outcome %v, hang up %v)", s.Name, sv.Name, shorten(args), o, hangUp)
	})
	x := runTool(prog, args)
	ts.stop()
	ts.mu.Lock()
	defer ts.mu.Unlock()
	if x.err != nil {
		t.Count("not_run", 1)
		return
	}
	said := fmt.Sprintf("; it printed %.300q and %.300q", x.stdout, x.stderr)
	if bad != "" {
		t.Fail("%s%s", bad, said)
		return
	}
	if ts.got == nil {
		t.Fail("the call was not sent: %d connections or requests, %d bytes%s", ts.conns, len(ts.rest), said)
		return
	}
	if !x.ended {
		t.Fail("the tool did not end within 20 s of being started%s", said)
		return
	}
	if len(strings.TrimSpace(string(ts.rest))) > 0 || ts.conns != 1 {
		t.Fail("the tool sent more than one call: %d connections or requests, %d further bytes%s", ts.conns, len(ts.rest), said)
		return
	}
	if ts.http && (len(ts.posts) != 1 || ts.posts[0] != line) {
		t.Fail("the requests were %q, expected was %q", ts.posts, line)
		return
	}
	t.Count("calls_"+ts.kind(), 1)
	t.Count("calls_"+p.Name, 1)
	t.Count("calls_checked", 1)
	if hangUp {
		if strings.HasSuffix(x.stdout, "<nil>\n") || x.stdout+x.stderr == "" {
			t.Fail("there was no reply and the tool does not say so%s", said)
		}
		t.Count("hang_ups", 1)
		return
	}
	if f.Oneway {
		t.Count("oneway_calls", 1)
	} else {
		switch o.kind {
		case "value":
			switch f.Returns.real().K {
			case "bool", "byte", "i16", "i32", "i64", "double", "string", "binary", "enum":
				if f.Returns.real().K == "binary" && o.v.S == "" {
					break // may be left out of the reply
				}
				if want := fmt.Sprint(o.ans.ret); !strings.HasPrefix(x.stdout, want) {
					t.Fail("the result was %.300q, the tool does not print it%s", want, said)
					return
				}
				t.Count("results_printed", 1)
			}
			if x.stdout == "" {
				t.Fail("the call went well and the tool prints nothing%s", said)
			}
		case "error":
			if !strings.Contains(x.stdout+x.stderr, o.err.Error()) {
				t.Fail("the service had the error %q, the tool does not say so%s", o.err.Error(), said)
				return
			}
			t.Count("errors_printed", 1)
		}
	}
	t.Seen(shapeHash(v) ^ hashStr(3, s.Name+sv.Name+f.Name+o.kind+p.Name+ts.kind()))
	t.Sample("tool: %s", shorten(args))
}

// toolMisuse: what must not be sent.
func toolMisuse(t *T, s *gSet, sv *gSvc, f *gFunc, prog string) {
	r := t.R
	p := toolProtos[r.Intn(len(toolProtos))]
	ts := newToolServer(r, p)
	ts.reply = func(b []byte) []byte { return nil }
	_, fargs, ok := s.toolArgs(r, f)
	if !ok {
		return
	}
	proto, name := protoArgs(r, p), f.Name
	var judged []int
	for i, a := range f.Args.Fields {
		switch a.Type.real().K {
		case "bool", "string", "binary":
		default:
			judged = append(judged, i)
		}
	}
	kinds := []string{"count", "function", "protocol"}
	if len(judged) > 0 {
		kinds = append(kinds, "bad-argument", "bad-argument", "bad-argument", "bad-argument", "bad-argument")
	}
	kind := kinds[r.Intn(len(kinds))]
	switch kind {
	case "count":
		if len(fargs) > 0 && r.Bool() {
			fargs = fargs[:r.Intn(len(fargs))]
		} else {
			fargs = append(fargs, []string{"1", "", "x", "-h"}[r.Intn(4)])
			for r.P(40) {
				fargs = append(fargs, "true")
			}
		}
	case "function":
		name = []string{f.Name + "x", "nosuchfunction", "", f.Name + " "}[r.Intn(4)]
		for _, g := range sv.all {
			if g.Name == name {
				return
			}
		}
	case "protocol":
		proto = []string{"-P", []string{"Binary", "thrift", "jso", "bin", "xml", "compact "}[r.Intn(6)]}
	case "bad-argument":
		i := judged[r.Intn(len(judged))]
		ty := f.Args.Fields[i].Type.real()
		var bad []string
		common := []string{"", "x", "12a", "--", "1 2", "\t"}
		edge := func(lo, hi float64) []string {
			big := []string{"99999999999999999999999", "-99999999999999999999999", "9223372036854775808", "-9223372036854775809"}
			for _, x := range []int64{32768, 65535, 65536, 65537, -32769, -65536, 2147483648, -2147483649, 4294967295, 4294967296, 4294967297, 256, 257, 512, -129, -256, 1 << 40, -(1 << 40), 1 << 62} {
				if float64(x) > hi || float64(x) < lo {
					big = append(big, strconv.FormatInt(x, 10))
				}
			}
			return append(big, "1.5")
		}
		switch ty.K {
		case "byte":
			bad = edge(-128, 255)
		case "i16":
			bad = edge(math.MinInt16, math.MaxInt16)
		case "i32", "enum":
			bad = edge(math.MinInt32, math.MaxInt32)
		case "i64":
			bad = edge(math.MinInt64, math.MaxInt64)
		case "double":
			bad = []string{"1.2.3", "1e999", "-1e999", "1e", "0.1.", "one"}
		default:
			common = []string{"", "x", " "}
			if b := fargs[i]; len(b) > 1 {
				bad = []string{b[:1], b[:len(b)-1], b[:r.Intn(len(b))], b[:r.Intn(len(b))], b[:r.Intn(len(b))]}
			}
		}
		if r.P(20) || len(bad) == 0 {
			bad = common
		}
		fargs[i] = bad[r.Intn(len(bad))]
		kind += " " + ty.K
	}
	if err := ts.start(); err != nil {
		t.Fail("no listener: %v", err)
		return
	}
	where, _ := ts.where(r)
	args := append(append(append(append([]string{}, where...), proto...), name), fargs...)
	t.Desc(func() string {
		return fmt.Sprintf("definition set %s, tool of %s, misuse (%s): %s", s.Name, sv.Name, kind, shorten(args))
	})
	x := runTool(prog, args)
	ts.stop()
	ts.mu.Lock()
	defer ts.mu.Unlock()
	if x.err != nil {
		t.Count("not_run", 1)
		return
	}
	said := fmt.Sprintf("; it printed %.300q and %.300q", x.stdout, x.stderr)
	if !x.ended {
		t.Fail("the tool did not end within 20 s of being started%s", said)
		return
	}
	if len(ts.got)+len(ts.rest) > 0 || len(ts.posts) > 0 {
		t.Fail("the tool sent %d bytes, %d requests: %.300q%s", len(ts.got)+len(ts.rest), len(ts.posts), append(ts.got, ts.rest...), said)
		return
	}
	if x.stderr == "" {
		t.Fail("nothing on the standard error says what is wrong%s", said)
		return
	}
	t.Count("misuses_refused", 1)
	t.Count("misuses_"+strings.ReplaceAll(kind, " ", "_"), 1)
	t.Seen(hashStr(4, s.Name+sv.Name+f.Name+kind+strings.Join(fargs, " ")))
}

// toolHelp: what the tool says about itself, and what it says when nobody is there.
func toolHelp(t *T, sv *gSvc, prog string) {
	r := t.R
	for _, args := range [][]string{{"-help"}, {}, {"-http", "-help", "x"}} {
		args := args
		t.Desc(func() string { return fmt.Sprintf("tool of %s: %v", sv.Name, args) })
		x := runTool(prog, args)
		if x.err != nil {
			t.Count("not_run", 1)
			return
		}
		if !x.ended {
			t.Fail("the tool did not end within 20 s of being started")
			return
		}
		for _, f := range sv.Funcs {
			if !strings.Contains(x.stderr, " "+f.Name+"(") {
				t.Fail("the usage does not list %s: %.500q", f.Name, x.stderr)
				return
			}
			for _, a := range f.Args.Fields {
				_ = a
			}
		}
		t.Count("usages", 1)
	}
	// nobody there
	l, err := net.Listen("tcp", loIP()+":0")
	if err != nil || len(sv.Funcs) == 0 {
		return
	}
	a := l.Addr().(*net.TCPAddr)
	l.Close()
	f := sv.Funcs[r.Intn(len(sv.Funcs))]
	_, fargs, ok := sv.prog.set.toolArgs(r, f)
	if !ok {
		return
	}
	for _, more := range [][]string{{}, {"-framed"}, {"-http"}} {
		args := append(append(append([]string{"-h", a.IP.String(), "-p", strconv.Itoa(a.Port)}, more...), f.Name), fargs...)
		t.Desc(func() string { return fmt.Sprintf("tool of %s, nobody listens: %s", sv.Name, shorten(args)) })
		x := runTool(prog, args)
		if x.err != nil {
			return
		}
		if !x.ended {
			t.Fail("the tool did not end within 20 s of being started")
			return
		}
		if x.stdout+x.stderr == "" || strings.HasSuffix(x.stdout, "<nil>\n") {
			t.Fail("nobody listens, and the tool does not say so: %.300q and %.300q", x.stdout, x.stderr)
			return
		}
		t.Count("nobody_there", 1)
	}
}
