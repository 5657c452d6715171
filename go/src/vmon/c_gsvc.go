package main

import (
	"errors"
	"fmt"
	"reflect"
	"strings"
	"thrift"
)

// C19: generated processors and clients.

func init() { props["C19"] = genServices }

func genServices(r *Run) {
	n := 0
	for _, s := range gSets {
		s := s
		for _, sv := range s.allSvcs {
			sv := sv
			for k := 0; k < r.N(10, 60); k++ {
				p := genProtos[k%len(genProtos)]
				r.Case("processor", n, func(t *T) { gProcessor(t, s, sv, p) })
				r.Case("client", n, func(t *T) { gClient(t, s, sv, p) })
				r.Case("together", n, func(t *T) { gTogether(t, s, sv, p) })
				if k%3 == 0 {
					r.Case("functions", n, func(t *T) { gFunctions(t, s, sv, p) })
				}
				if k%2 == 0 {
					r.Case("by-name", n, func(t *T) { gTogether(t, s, sv, pSimple) })
				}
				n++
			}
			for _, f := range sv.all {
				f := f
				r.Case("faults", n, func(t *T) { gClientFaults(t, s, sv, f) })
				r.Case("protocol-faults", n, func(t *T) { gProtocolFaults(t, s, sv, f) })
				n++
			}
		}
	}
}

// spy is a function a program gives to a processor: it notes that it was called and passes the call on, or answers it.
type spy struct {
	next thrift.TProcessorFunction
	name string
	seqs []int32
}

func (f *spy) Process(seq int32, in, out thrift.TProtocol) (bool, thrift.TException) {
	f.seqs = append(f.seqs, seq)
	if f.next != nil {
		return f.next.Process(seq, in, out)
	}
	in.Skip(thrift.STRUCT)
	in.ReadMessageEnd()
	out.WriteMessageBegin(f.name, thrift.REPLY, seq)
	writeV(out, sentinel)
	out.WriteMessageEnd()
	out.Transport().Flush()
	return true, nil
}

// gFunctions: functions added to one of two processors of a service, in place of its own and under new names.
func gFunctions(t *T, s *gSet, sv *gSvc, p *Proto) {
	r := t.R
	var log []string
	t.Desc(func() string {
		return fmt.Sprintf("definition set %s, two processors of %s over %s, functions added to the first: %s", s.Name, sv.Name, p.Name, strings.Join(log, "; "))
	})
	type processor interface {
		thrift.TProcessor
		AddToProcessorMap(string, thrift.TProcessorFunction)
		GetProcessorFunction(string) (thrift.TProcessorFunction, bool)
		ProcessorMap() map[string]thrift.TProcessorFunction
	}
	h := &gHandler{}
	first, ok := sv.code.Processor(h).(processor)
	second, ok2 := sv.code.Processor(h).(processor)
	if !ok || !ok2 {
		return
	}
	spies := map[string]*spy{}
	own := map[string]bool{}
	names := []string{"added_by_the_program", "addedToo"}
	for _, f := range sv.all {
		own[f.Name] = true
		if r.Bool() {
			names = append(names, f.Name)
		}
	}
	for _, n := range names {
		x := &spy{name: n}
		if own[n] {
			x.next, _ = first.GetProcessorFunction(n)
		} else if r.P(30) {
			continue
		}
		spies[n] = x
		first.AddToProcessorMap(n, x)
	}
	for _, f := range sv.all {
		if spies[f.Name] == nil {
			names = append(names, f.Name)
		}
	}
	for i := 0; i < 6; i++ {
		name := names[r.Intn(len(names))]
		pr, which := first, "first"
		if r.P(40) {
			pr, which = second, "second"
		}
		log = append(log, which+" gets a call of "+name)
		x := spies[name]
		if got, has := pr.GetProcessorFunction(name); which == "first" && x != nil && (!has || got != thrift.TProcessorFunction(x)) ||
			has != (own[name] || which == "first" && x != nil) {
			t.Fail("the %s processor says %v, %v about the function %s", which, got, has, name)
			return
		}
		if _, has := pr.ProcessorMap()[name]; has != (own[name] || which == "first" && x != nil) {
			t.Fail("the list of functions of the %s processor has %s: %v", which, name, has)
			return
		}
		m := &Msg{Name: name, Kind: thrift.CALL, Seq: int32(r.U64()), Body: &V{T: thrift.STRUCT}}
		oneway := false
		for _, f := range sv.all {
			if f.Name == name {
				m.Body = utf8V(s.full(r, f.Args, 1))
				o := s.outcome(r, f, p)
				h.answer = func(string) *gAnswer { return o.ans }
				oneway = f.Oneway
			}
		}
		b, err := callBytes(r, p, m)
		if err != nil {
			t.Fail("the call for the test cannot be written: %v", err)
			return
		}
		before := 0
		if x != nil {
			before = len(x.seqs)
		}
		h.calls = nil
		xt := NewXT(b)
		in := p.New(xt)
		pr.Process(in, in)
		reached := x != nil && len(x.seqs) > before
		if want := which == "first" && x != nil; want != reached {
			t.Fail("a call of %s by the %s processor reached the function added to the first: %v", name, which, reached)
			return
		}
		if reached && (len(x.seqs) != before+1 || x.seqs[before] != m.Seq) {
			t.Fail("the function added as %s was called with the sequence ids %v for %d", name, x.seqs[before:], m.Seq)
			return
		}
		if handled := len(h.calls) == 1 && h.calls[0].fn == name; handled != own[name] || len(h.calls) > 1 {
			t.Fail("a call of %s reached the handler as %v", name, h.calls)
			return
		}
		if !oneway {
			rm, err := oneMsg(p, xt.Sink.buf)
			if err != nil {
				t.Fail("the reply to %s cannot be read: %v", name, err)
				return
			}
			if rm.Name != name || rm.Seq != m.Seq || (rm.Kind == thrift.EXCEPTION) == (reached && !own[name]) && !own[name] {
				t.Fail("the reply of the %s processor to %s (%d) is %s (%d) of kind %d", which, name, m.Seq, rm.Name, rm.Seq, rm.Kind)
				return
			}
		}
		t.Count("added_functions", 1)
		t.Seen(hashStr(11, sv.Name+name+which+p.Name))
	}
}

// callBytes encodes a message, by our own encoders where we have them.
func callBytes(r *Rng, p *Proto, m *Msg) ([]byte, error) {
	if !p.JSON && r.Bool() {
		if strings.HasPrefix(p.Name, "compact") {
			e := &compEnc{r: r}
			e.msg(m)
			return e.b, nil
		}
		e := &binEnc{strict: p == pBinary || r.Bool()}
		e.msg(m)
		return e.b, nil
	}
	return p.encode(m)
}

// oneMsg decodes bytes that have to be exactly one message.
func oneMsg(p *Proto, b []byte) (*Msg, error) {
	x := NewXT(b)
	m, err := readMsg(p.New(x), nil, &readCtl{})
	if err != nil {
		return nil, err
	}
	if !p.JSON && x.pos != len(b) {
		return nil, fmt.Errorf("%d bytes follow the message", len(b)-x.pos)
	}
	if p.JSON {
		rest := strings.TrimSpace(string(b[x.pos:]))
		if rest != "" {
			return nil, fmt.Errorf("%q follows the message", rest)
		}
	}
	return m, nil
}

// appExc takes an application exception apart.
func appExc(v *V) (typ int64, msg string, ok bool) {
	t, m := v.fld(2), v.fld(1)
	if t == nil || t.T != thrift.I32 {
		return 0, "", false
	}
	if m != nil {
		msg = m.S
	}
	return t.I, msg, true
}

// gOutcome is what a handler is told to do.
type gOutcome struct {
	kind string // value, nothing, exception, both, error
	v    *V     // the value
	exc  int    // which exception
	ev   *V
	err  error
	ans  *gAnswer
}

func (s *gSet) outcome(r *Rng, f *gFunc, p *Proto) *gOutcome {
	o := &gOutcome{kind: "value", ans: &gAnswer{}}
	k := r.Intn(100)
	if len(f.Throws.Fields) > 0 && k < 30 {
		o.kind = "exception"
		if f.Returns.K != "void" && r.P(20) {
			o.kind = "both"
		}
	} else if k >= 85 {
		o.kind = "error"
	}
	if (o.kind == "value" || o.kind == "both") && f.Returns.K != "void" {
		if f.Returns.isStruct() && o.kind == "value" && r.P(10) {
			o.kind = "nothing"
		} else {
			o.v = utf8V(s.value(r, f.Returns, 2))
			o.ans.ret = s.build(o.v, f.Returns)
		}
	}
	if o.kind == "exception" || o.kind == "both" {
		o.exc = r.Intn(len(f.Throws.Fields))
		o.ev = utf8V(s.value(r, f.Throws.Fields[o.exc].Type, 2))
		o.ans.exc = map[int]interface{}{o.exc: s.build(o.ev, f.Throws.Fields[o.exc].Type)}
	}
	if o.kind == "error" {
		o.err = errors.New([]string{"it went wrong", "", "100% %s \"quoted\" é", strings.Repeat("long ", 300)}[r.Intn(4)])
		if r.P(30) {
			o.v = nil
		} else if f.Returns.K != "void" {
			o.ans.ret = s.build(utf8V(s.value(r, f.Returns, 1)), f.Returns)
		}
		o.ans.err = o.err
	}
	return o
}

func (o *gOutcome) String() string {
	switch o.kind {
	case "value":
		return fmt.Sprintf("value %v", o.v)
	case "exception", "both":
		return fmt.Sprintf("%s %d %v", o.kind, o.exc, o.ev)
	case "error":
		return fmt.Sprintf("error %q", o.err.Error())
	}
	return o.kind
}

// checkReply compares a reply with the outcome the handler had.
func (s *gSet) checkReply(f *gFunc, o *gOutcome, name string, seq int32, m *Msg, p *Proto) string {
	if m.Name != name || m.Seq != seq {
		return fmt.Sprintf("the reply is for %q with sequence id %d, the call was %q with %d", m.Name, m.Seq, name, seq)
	}
	if o.kind == "error" {
		if m.Kind != thrift.EXCEPTION {
			return fmt.Sprintf("the handler had an error and the reply is of kind %d", m.Kind)
		}
		typ, msg, ok := appExc(m.Body)
		if !ok || typ != thrift.INTERNAL_ERROR {
			return fmt.Sprintf("the handler had an error and the reply is %v, not an internal error", m.Body)
		}
		if !strings.Contains(msg, o.err.Error()) {
			return fmt.Sprintf("the handler had the error %q, the reply says %q", o.err.Error(), msg)
		}
		return ""
	}
	if m.Kind != thrift.REPLY {
		return fmt.Sprintf("the reply to a call that went well is of kind %d: %v", m.Kind, m.Body)
	}
	want := -1
	var wv *V
	var wt *gT
	switch o.kind {
	case "value":
		if f.Returns.K != "void" {
			want, wv, wt = 0, o.v, f.Returns
		}
	case "exception", "both":
		x := f.Throws.Fields[o.exc]
		want, wv, wt = x.ID, o.ev, x.Type
	}
	for _, fl := range m.Body.F {
		if int(fl.ID) != want {
			return fmt.Sprintf("the handler's outcome was %v; the reply carries field %d (%v)", o, fl.ID, fl.V)
		}
		if wireT(fl.V.T) != wireT(wt.wire()) {
			return fmt.Sprintf("field %d of the reply is a %s instead of a %s", fl.ID, tname(fl.V.T), wt)
		}
		if d := s.wireTypes(fl.V, wt, p); d != "" {
			return fmt.Sprintf("field %d of the reply has the wrong types: %s", fl.ID, d)
		}
		if a, b := s.canon(wv, wt), s.canon(retype(fl.V, wt, s, p), wt); a != b {
			return fmt.Sprintf("the handler's outcome was %s; the reply carries %s", a, b)
		}
	}
	if want >= 0 && len(m.Body.F) != 1 {
		// an empty container may be left out: its absence reads as empty
		k := wt.real().K
		if !(len(m.Body.F) == 0 && (k == "list" || k == "set" || k == "map" || k == "binary") && len(wv.L) == 0 && wv.S == "") {
			return fmt.Sprintf("the handler's outcome was %v; the reply carries %d fields: %v", o, len(m.Body.F), m.Body)
		}
	}
	return ""
}

// checkArgs compares what the handler was given with the arguments that were sent.
func (s *gSet) checkArgs(f *gFunc, got []interface{}, v *V) string {
	if len(got) != len(f.Args.Fields) {
		return fmt.Sprintf("%d arguments", len(got))
	}
	for i, a := range f.Args.Fields {
		want := s.unset(a)
		if x := v.fld(a.ID); x != nil {
			want = s.canon(x, a.Type)
		}
		if g := s.see(got[i], a.Type); g != want {
			return fmt.Sprintf("argument %s is %s, sent was %s", a.Name, g, want)
		}
	}
	return ""
}

// gProcessor: a stream of calls, good and bad, through one processor.
func gProcessor(t *T, s *gSet, sv *gSvc, p *Proto) {
	r := t.R
	var log []string
	t.Desc(func() string {
		return fmt.Sprintf("definition set %s, service %s over %s: %s", s.Name, sv.Name, p.Name, strings.Join(log, "; "))
	})
	h := &gHandler{}
	proc := sv.code.Processor(h)
	n := 1 + r.Intn(5)
	x := NewXT(nil)
	if r.P(40) {
		x.Src.frag = fragRandom(r)
	}
	in, out := p.New(x), p.New(x)
	switch r.Intn(3) {
	case 0:
		out = in
	case 1:
		in, out = p.New(&half{TTransport: x, read: true}), p.New(&half{TTransport: x})
	}
	for i := 0; i < n; i++ {
		h.calls = nil
		x.Sink.buf, x.Sink.flushPos = nil, nil
		seq := int32(newGen(r, GenOpt{}).i64())
		kind := "call"
		if len(sv.all) == 0 || r.P(15) {
			kind = "unknown"
		} else if i == n-1 && r.P(40) {
			kind = "undecodable"
		}
		m := &Msg{Kind: thrift.CALL, Seq: seq, Body: &V{T: thrift.STRUCT}}
		var f *gFunc
		var o *gOutcome
		var v *V
		if kind == "unknown" {
			m.Name = []string{"no_such_function", "", "Ünknown", "process"}[r.Intn(4)]
			if len(sv.all) > 0 && r.P(50) {
				m.Name = sv.all[r.Intn(len(sv.all))].Name + "X"
			}
			known := false
			for _, f := range sv.all {
				known = known || f.Name == m.Name
			}
			if known {
				continue
			}
			m.Body = newGen(r, GenOpt{UTF8: true, NoNaN: true, Depth: 3, Budget: 30, NoEmptyFieldNames: true}).strct(3)
		} else {
			f = sv.all[r.Intn(len(sv.all))]
			if f.Oneway {
				m.Kind = thrift.ONEWAY
				if r.P(30) {
					m.Kind = thrift.CALL
				}
			}
			m.Name = f.Name
			v = utf8V(s.strct(r, f.Args, 2))
			if r.P(50) {
				v = utf8V(s.full(r, f.Args, 2))
			}
			m.Body = s.garnish(r, v, f.Args, 1)
			if r.P(50) {
				m.Body = v
			}
			o = s.outcome(r, f, p)
		}
		h.answer = func(string) *gAnswer {
			if o == nil {
				return nil
			}
			return o.ans
		}
		b, err := callBytes(r, p, m)
		if kind == "undecodable" {
			b, err = p.encode(m)
		}
		if err != nil {
			t.Fail("the call for the test cannot be written: %v", err)
			return
		}
		if kind == "undecodable" {
			head, err := p.encode(&Msg{Name: m.Name, Kind: m.Kind, Seq: m.Seq, Body: &V{T: thrift.STRUCT}})
			if err != nil || len(head)-3 >= len(b)-2 || len(m.Body.F) == 0 {
				kind = "call"
			} else {
				if p.JSON && r.P(30) {
					b = b[:len(b)-1] // only the end of the message is missing
				} else {
					b = b[:len(head)-1+r.Intn(len(b)-2-len(head)+1)]
				}
			}
		}
		log = append(log, fmt.Sprintf("%s %s seq %d args %v outcome %v", kind, m.Name, seq, m.Body, o))
		x.Src.data = append(x.Src.data[:x.Src.pos:x.Src.pos], b...)
		ok, perr := proc.Process(in, out)
		reply := append([]byte(nil), x.Sink.buf...)
		if len(reply) > 0 && (len(x.Sink.flushPos) == 0 || x.Sink.flushPos[len(x.Sink.flushPos)-1] != len(reply)) {
			t.Fail("the reply was not flushed: %d bytes, flushed at %v", len(reply), x.Sink.flushPos)
		}
		switch kind {
		case "unknown":
			if len(h.calls) != 0 {
				t.Fail("a call of %q, which the service has not, reached the handler as %s", m.Name, h.calls[0].fn)
				return
			}
			rm, err := oneMsg(p, reply)
			if err != nil {
				t.Fail("the reply to an unknown call cannot be read: %v (%d bytes)", err, len(reply))
				return
			}
			typ, _, aok := appExc(rm.Body)
			if rm.Kind != thrift.EXCEPTION || rm.Name != m.Name || rm.Seq != seq || !aok || typ != thrift.UNKNOWN_METHOD {
				t.Fail("the reply to an unknown call %q (%d) is %q (%d) of kind %d: %v", m.Name, seq, rm.Name, rm.Seq, rm.Kind, rm.Body)
				return
			}
			t.Count("unknown_calls", 1)
		case "undecodable":
			if len(h.calls) != 0 {
				t.Fail("a call whose arguments are cut off reached the handler")
				return
			}
			if ok {
				t.Fail("Process reports success for a call whose arguments are cut off")
			}
			if isNilErr(perr) || nilish(perr) {
				t.Fail("Process reports no error for a call whose arguments are cut off")
			}
			t.Count("undecodable_calls", 1)
			if f.Oneway {
				if len(reply) != 0 {
					t.Fail("the oneway call of %s was answered with %d bytes", f.Name, len(reply))
				}
				return
			}
			rm, err := oneMsg(p, reply)
			if err != nil {
				t.Fail("the reply to a call whose arguments are cut off cannot be read: %v (%d bytes)", err, len(reply))
				return
			}
			typ, _, aok := appExc(rm.Body)
			if rm.Kind != thrift.EXCEPTION || rm.Name != m.Name || rm.Seq != seq || !aok || typ != thrift.PROTOCOL_ERROR {
				t.Fail("the reply to a call of %q (%d) whose arguments are cut off is %q (%d) of kind %d: %v", m.Name, seq, rm.Name, rm.Seq, rm.Kind, rm.Body)
			}
			return
		default:
			if len(h.calls) != 1 || h.calls[0].fn != f.Name {
				t.Fail("a call of %s reached the handler as %v", f.Name, h.calls)
				return
			}
			if d := s.checkArgs(f, h.calls[0].args, v); d != "" {
				t.Fail("call of %s: %s", f.Name, d)
				return
			}
			t.Count("calls_handled", 1)
			if f.Oneway {
				if len(reply) != 0 {
					t.Fail("the oneway call of %s was answered with %d bytes", f.Name, len(reply))
					return
				}
				t.Count("oneway_calls", 1)
				break
			}
			rm, err := oneMsg(p, reply)
			if err != nil {
				t.Fail("the reply to %s cannot be read: %v (%d bytes)", f.Name, err, len(reply))
				return
			}
			if d := s.checkReply(f, o, m.Name, seq, rm, p); d != "" {
				t.Fail("call of %s: %s", f.Name, d)
				return
			}
			if o.kind != "error" && (!ok || !nilish(perr)) {
				t.Fail("Process gives %v, %v for a call that went well", ok, perr)
			}
			t.Count("replies_checked", 1)
			t.Count("outcome_"+o.kind, 1)
		}
		// the position in the stream: nothing left over but what may be white space
		if rest := x.Src.data[x.Src.pos:]; len(rest) > 0 && !p.JSON {
			t.Fail("%d bytes of the call were not consumed", len(rest))
			return
		}
		t.Seen(shapeHash(m.Body) ^ hashStr(1, sv.Name+m.Name+kind+p.Name))
	}
	t.Sample("processor: %s", strings.Join(log, "; "))
}

func nilish(e interface{}) bool {
	if e == nil {
		return true
	}
	v := reflect.ValueOf(e)
	return (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) && v.IsNil()
}

// full sets every field.
func (s *gSet) full(r *Rng, st *gStruct, depth int) *V {
	v := &V{T: thrift.STRUCT}
	for _, f := range st.Fields {
		v.F = append(v.F, Fld{Name: f.Name, ID: int16(f.ID), V: s.value(r, f.Type, depth)})
	}
	return v
}

// lazyT asks for more input when there is none left.
type lazyT struct {
	*XT
	more func()
}

func (l *lazyT) Read(p []byte) (int, error) {
	if l.Src.pos == len(l.Src.data) && l.more != nil {
		l.more()
	}
	return l.XT.Read(p)
}
func (l *lazyT) ReadAll(p []byte) (int, error) { return thrift.ReadAllTransport(l, p) }

// newClient makes a client in one of the ways there are.
func newClient(r *Rng, sv *gSvc, p *Proto, tr thrift.TTransport) interface{} {
	switch r.Intn(4) {
	case 0:
		return sv.code.ClientP(tr, p.New(tr), p.New(tr))
	case 1:
		pr := p.New(tr)
		return sv.code.ClientP(tr, pr, pr)
	case 2:
		// what it reads from is not what it writes to
		in, out := &half{TTransport: tr, read: true}, &half{TTransport: tr}
		main := []thrift.TTransport{nil, in, out}[r.Intn(3)]
		return sv.code.ClientP(main, p.New(in), p.New(out))
	}
	return sv.code.Client(tr, protoFac{p})
}

// half is one direction of a transport.
type half struct {
	thrift.TTransport
	read bool
}

var errHalf = errors.New("this side of the transport goes the other way")

func (h *half) Read(p []byte) (int, error) {
	if !h.read {
		return 0, errHalf
	}
	return h.TTransport.Read(p)
}

func (h *half) ReadAll(p []byte) (int, error) {
	if !h.read {
		return 0, errHalf
	}
	return h.TTransport.ReadAll(p)
}

func (h *half) Write(p []byte) (int, error) {
	if h.read {
		return 0, errHalf
	}
	return h.TTransport.Write(p)
}

func (h *half) Flush() error {
	if h.read {
		return errHalf
	}
	return h.TTransport.Flush()
}

// callClient calls a method of a client.
func (s *gSet) callClient(c interface{}, f *gFunc, v *V) (ret []interface{}, err error) {
	m := reflect.ValueOf(c).MethodByName(f.Go)
	var in []reflect.Value
	for i, a := range f.Args.Fields {
		x := v.fld(a.ID)
		ty := m.Type().In(i)
		if x == nil {
			in = append(in, reflect.Zero(ty))
			continue
		}
		in = append(in, reflect.ValueOf(s.build(x, a.Type)).Convert(ty))
	}
	outs := m.Call(in)
	for _, o := range outs[:len(outs)-1] {
		ret = append(ret, o.Interface())
	}
	if e := outs[len(outs)-1].Interface(); e != nil && !nilish(e) {
		err = e.(error)
	}
	return ret, err
}

// checkReturn compares what a client returned with the outcome.
func (s *gSet) checkReturn(f *gFunc, o *gOutcome, ret []interface{}, err error) string {
	if o.kind == "error" {
		if err == nil {
			return fmt.Sprintf("the reply was an application exception and the client returned %v and no error", ret)
		}
		a, ok := err.(thrift.TApplicationException)
		if !ok {
			return fmt.Sprintf("the reply was an application exception and the client returned a %T: %v", err, err)
		}
		if !strings.Contains(a.Error(), o.err.Error()) {
			return fmt.Sprintf("the application exception said %q, the client's error says %q", o.err.Error(), a.Error())
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("the client returned the error %v (%T) for the outcome %v", err, err, o)
	}
	i := 0
	if f.Returns.K != "void" {
		want := ""
		switch {
		case o.v != nil && o.kind == "value":
			want = s.canon(o.v, f.Returns)
		case f.Returns.isStruct():
			want = "none"
		}
		if want != "" {
			if g := s.see(ret[0], f.Returns); g != want {
				return fmt.Sprintf("the reply carried %s, the client returned %s", want, g)
			}
		}
		i = 1
	}
	for k, x := range f.Throws.Fields {
		want := "none"
		if (o.kind == "exception" || o.kind == "both") && o.exc == k {
			want = s.canon(o.ev, x.Type)
		}
		if g := s.see(ret[i+k], x.Type); g != want {
			return fmt.Sprintf("exception %s should be %s, the client returned %s", x.Name, want, g)
		}
	}
	return ""
}

// callerArgs are arguments as a program gives them: all of them, but structs may be missing.
func (s *gSet) callerArgs(r *Rng, f *gFunc) *V {
	v := utf8V(s.full(r, f.Args, 2))
	var w []Fld
	for _, x := range v.F {
		d := f.Args.field(int(x.ID))
		if d.Type.isStruct() && r.P(8) && d.Default == nil {
			continue
		}
		w = append(w, x)
	}
	v.F = w
	return v
}

// checkRequest compares a request with the call that was made.
func (s *gSet) checkRequest(f *gFunc, v *V, b []byte, p *Proto) (*Msg, string) {
	m, err := oneMsg(p, b)
	if err != nil {
		return nil, fmt.Sprintf("the request cannot be read: %v (%d bytes)", err, len(b))
	}
	if m.Name != f.Name || !(m.Kind == thrift.CALL || f.Oneway && m.Kind == thrift.ONEWAY) {
		return nil, fmt.Sprintf("the request is %q of kind %d", m.Name, m.Kind)
	}
	for _, fl := range m.Body.F {
		a := f.Args.field(int(fl.ID))
		if a == nil {
			return nil, fmt.Sprintf("the request carries field %d, which is no argument", fl.ID)
		}
		if wireT(fl.V.T) != wireT(a.Type.wire()) {
			return nil, fmt.Sprintf("argument %s goes out as a %s", a.Name, tname(fl.V.T))
		}
		if d := s.wireTypes(fl.V, a.Type, p); d != "" {
			return nil, fmt.Sprintf("argument %s goes out with the wrong types: %s", a.Name, d)
		}
	}
	for _, a := range f.Args.Fields {
		x, w := v.fld(a.ID), m.Body.fld(a.ID)
		want := s.unset(a)
		if x != nil {
			want = s.canon(x, a.Type)
		}
		got := s.unset(a)
		if w != nil {
			got = s.canon(retype(w, a.Type, s, p), a.Type)
		}
		if want != got && !(x == nil && w != nil) {
			return nil, fmt.Sprintf("argument %s is %s and the request carries %s", a.Name, want, got)
		}
	}
	return m, ""
}

// gClient: calls of one client, answered by a script.
func gClient(t *T, s *gSet, sv *gSvc, p *Proto) {
	if len(sv.all) == 0 {
		return
	}
	r := t.R
	var log []string
	t.Desc(func() string {
		return fmt.Sprintf("definition set %s, client of %s over %s: %s", s.Name, sv.Name, p.Name, strings.Join(log, "; "))
	})
	x := &lazyT{XT: NewXT(nil)}
	if r.P(40) {
		x.Src.frag = fragRandom(r)
	}
	c := newClient(r, sv, p, x)
	n := 1 + r.Intn(5)
	for i := 0; i < n; i++ {
		f := sv.all[r.Intn(len(sv.all))]
		v := s.callerArgs(r, f)
		o := s.outcome(r, f, p)
		if o.kind == "both" {
			o.kind, o.v = "exception", nil
		}
		how := "right"
		if i == n-1 && !f.Oneway {
			how = []string{"right", "other-seq", "cut", "nothing"}[r.Intn(4)]
		}
		log = append(log, fmt.Sprintf("%s(%v) outcome %v reply %s", f.Name, v, o, how))
		x.Sink.buf, x.Sink.flushPos = nil, nil
		asked, request := 0, ""
		var excType int64
		x.more = func() {
			asked++
			if asked > 1 {
				return
			}
			b := x.Sink.buf
			if len(x.Sink.flushPos) == 0 || x.Sink.flushPos[len(x.Sink.flushPos)-1] != len(b) {
				request = "the request was not flushed when the client began to wait for the reply"
				return
			}
			m, d := s.checkRequest(f, v, b, p)
			if d != "" {
				request = d
				return
			}
			rep := &Msg{Name: f.Name, Kind: thrift.REPLY, Seq: m.Seq, Body: &V{T: thrift.STRUCT}}
			switch o.kind {
			case "value":
				if f.Returns.K != "void" {
					rep.Body.F = append(rep.Body.F, Fld{Name: "success", ID: 0, V: o.v})
				}
			case "exception":
				e := f.Throws.Fields[o.exc]
				rep.Body.F = append(rep.Body.F, Fld{Name: e.Name, ID: int16(e.ID), V: o.ev})
			case "error":
				rep.Kind = thrift.EXCEPTION
				excType = []int64{0, 1, 2, 3, 4, 5, 6, 7, 99}[r.Intn(9)]
				rep.Body.F = []Fld{{Name: "message", ID: 1, V: &V{T: thrift.STRING, S: o.err.Error()}}, {Name: "type", ID: 2, V: &V{T: thrift.I32, I: excType}}}
			}
			if rep.Kind == thrift.REPLY && r.P(40) {
				g := s.garnish(r, rep.Body, f.result, 1)
				// only what the definition has not: other types for its fields would leave them out anyway
				rep.Body = g
			}
			if how == "other-seq" {
				for rep.Seq == m.Seq {
					rep.Seq = []int32{m.Seq + 1, m.Seq - 1, 0, -m.Seq, int32(r.U64())}[r.Intn(5)]
				}
			}
			rb, err := callBytes(r, p, rep)
			if err != nil {
				request = "the reply for the test cannot be written: " + err.Error()
				return
			}
			switch how {
			case "cut":
				k := r.Intn(len(rb))
				if p.JSON {
					k = r.Intn(len(rb) - 1)
				}
				rb = rb[:k]
			case "nothing":
				rb = nil
			}
			x.Src.data = append(x.Src.data[:x.Src.pos:x.Src.pos], rb...)
		}
		ret, err := s.callClient(c, f, v)
		if f.Oneway {
			if asked > 0 {
				t.Fail("the client waits for a reply to the oneway function %s", f.Name)
				return
			}
			if err != nil {
				t.Fail("the oneway call of %s failed: %v", f.Name, err)
				return
			}
			if len(x.Sink.flushPos) == 0 || x.Sink.flushPos[len(x.Sink.flushPos)-1] != len(x.Sink.buf) {
				t.Fail("the oneway call of %s was not flushed", f.Name)
			}
			if _, d := s.checkRequest(f, v, x.Sink.buf, p); d != "" {
				t.Fail("oneway call of %s: %s", f.Name, d)
				return
			}
			t.Count("oneway_requests", 1)
			continue
		}
		if request != "" {
			t.Fail("call of %s: %s", f.Name, request)
			return
		}
		if asked == 0 {
			t.Fail("the client returned %v, %v from %s without having read a reply", ret, err, f.Name)
			return
		}
		t.Count("requests_checked", 1)
		switch how {
		case "right":
			if d := s.checkReturn(f, o, ret, err); d != "" {
				t.Fail("call of %s: %s", f.Name, d)
				return
			}
			if a, ok := err.(thrift.TApplicationException); ok && o.kind == "error" && int64(a.TypeId()) != excType {
				t.Fail("the application exception was of type %d, the client's error is of type %d", excType, a.TypeId())
			}
			t.Count("returns_checked", 1)
		case "other-seq":
			if err == nil {
				t.Fail("a reply to another call was returned as the result of %s: %v", f.Name, ret)
				return
			}
			if a, ok := err.(thrift.TApplicationException); o.kind != "error" && (!ok || a.TypeId() != thrift.BAD_SEQUENCE_ID) {
				t.Fail("a reply with another sequence id gives %v (%T)", err, err)
			}
			t.Count("other_replies_refused", 1)
			return
		default:
			if err == nil {
				t.Fail("the reply to %s was cut off and the client returned %v", f.Name, ret)
			}
			t.Count("cut_replies_refused", 1)
			return
		}
		if rest := x.Src.data[x.Src.pos:]; len(rest) > 0 && !p.JSON {
			t.Fail("%d bytes of the reply were not consumed", len(rest))
			return
		}
		t.Seen(shapeHash(v) ^ hashStr(2, sv.Name+f.Name+o.kind+how+p.Name))
	}
	t.Sample("client: %s", strings.Join(log, "; "))
}

// gTogether: clients and processors of generated code, with everything in between.
func gTogether(t *T, s *gSet, sv *gSvc, p *Proto) {
	if len(sv.all) == 0 {
		return
	}
	r := t.R
	var log []string
	framed := r.Bool()
	t.Desc(func() string {
		return fmt.Sprintf("definition set %s, %s over %s framed %v: %s", s.Name, sv.Name, p.Name, framed, strings.Join(log, "; "))
	})
	h := &gHandler{}
	proc := sv.code.Processor(h)
	cl, srv := &lazyT{XT: NewXT(nil)}, NewXT(nil)
	var ct, st thrift.TTransport = cl, srv
	if framed {
		ct, st = thrift.NewTFramedTransport(cl), thrift.NewTFramedTransport(srv)
	}
	c := newClient(r, sv, p, ct)
	in, out := p.New(st), p.New(st)
	if r.Bool() {
		in, out = p.New(&half{TTransport: st, read: true}), p.New(&half{TTransport: st})
	}
	var perr error
	serve := func() {
		if len(cl.Sink.buf) == 0 {
			return
		}
		srv.Src.data = append(srv.Src.data[:srv.Src.pos:srv.Src.pos], cl.Sink.buf...)
		cl.Sink.buf = nil
		if _, e := proc.Process(in, out); e != nil && !nilish(e) {
			perr = e
		}
		cl.Src.data = append(cl.Src.data[:cl.Src.pos:cl.Src.pos], srv.Sink.buf...)
		srv.Sink.buf = nil
	}
	cl.more = serve
	n := 1 + r.Intn(8)
	for i := 0; i < n; i++ {
		f := sv.all[r.Intn(len(sv.all))]
		v := s.callerArgs(r, f)
		o := s.outcome(r, f, p)
		log = append(log, fmt.Sprintf("%s(%v) outcome %v", f.Name, v, o))
		h.calls, perr = nil, nil
		h.answer = func(string) *gAnswer { return o.ans }
		ret, err := s.callClient(c, f, v)
		if f.Oneway {
			serve()
			if len(cl.Src.data) != cl.Src.pos {
				t.Fail("the oneway call of %s was answered", f.Name)
				return
			}
		}
		if len(h.calls) != 1 || h.calls[0].fn != f.Name {
			t.Fail("a call of %s reached the handler as %v (client: %v)", f.Name, h.calls, err)
			return
		}
		// a struct that was not given arrives as one without values or not at all
		for k, a := range f.Args.Fields {
			want := s.unset(a)
			if y := v.fld(a.ID); y != nil {
				want = s.canon(y, a.Type)
			} else if a.Type.isStruct() {
				if g := s.see(h.calls[0].args[k], a.Type); g == "none" || g == s.canonS(&V{T: thrift.STRUCT}, s.of(a.Type)) {
					continue
				}
			}
			if g := s.see(h.calls[0].args[k], a.Type); g != want {
				t.Fail("call of %s: argument %s was %s, the handler got %s", f.Name, a.Name, want, g)
				return
			}
		}
		if f.Oneway {
			if err != nil {
				t.Fail("the oneway call of %s failed: %v", f.Name, err)
				return
			}
			t.Count("calls_together", 1)
			continue
		}
		if o.kind == "both" {
			o.kind, o.v = "exception", nil
		}
		if d := s.checkReturn(f, o, ret, err); d != "" {
			t.Fail("call of %s: %s", f.Name, d)
			return
		}
		if o.kind != "error" && perr != nil {
			t.Fail("Process reports %v for a call that went well", perr)
		}
		t.Count("calls_together", 1)
		t.Seen(shapeHash(v) ^ hashStr(3, sv.Name+f.Name+o.kind+p.Name))
	}
	t.Sample("together: %s", strings.Join(log, "; "))
}

// gClientFaults: a call that could not be sent, or whose reply could not be read, is not reported as done.
func gClientFaults(t *T, s *gSet, sv *gSvc, f *gFunc) {
	r := t.R
	p := genProtos[r.Intn(len(genProtos))]
	v := s.callerArgs(r, f)
	at, short := 0, 0
	t.Desc(func() string {
		return fmt.Sprintf("definition set %s, %s.%s(%v) over %s, write or flush %d fails after %d bytes", s.Name, sv.Name, f.Name, v, p.Name, at, short)
	})
	reply := func(x *lazyT) {
		asked := false
		x.more = func() {
			if asked {
				return
			}
			asked = true
			m, err := oneMsg(p, x.Sink.buf)
			if err != nil {
				m = &Msg{Seq: 1}
			}
			rb, _ := p.encode(&Msg{Name: f.Name, Kind: thrift.REPLY, Seq: m.Seq, Body: &V{T: thrift.STRUCT}})
			x.Src.data = append(x.Src.data, rb...)
		}
	}
	x := &lazyT{XT: NewXT(nil)}
	reply(x)
	if _, err := s.callClient(newClient(r, sv, p, x), f, v); err != nil {
		t.Fail("call of %s: %v", f.Name, err)
		return
	}
	calls := x.Sink.calls
	for k := 1; k <= calls; k++ {
		if calls > 40 && k > 20 && k < calls-10 && r.P(80) {
			continue
		}
		at, short = k, r.Intn(4)
		x := &lazyT{XT: NewXT(nil)}
		reply(x)
		x.Sink.failAt, x.Sink.short, x.Sink.failErr, x.Sink.sticky = k, short, errors.New("the wire is cut"), r.Bool()
		ret, err := s.callClient(newClient(r, sv, p, x), f, v)
		if x.Sink.failed && err == nil {
			t.Fail("sending the call of %s failed and the client returned %v and no error", f.Name, ret)
			return
		}
		t.Count("send_faults", 1)
	}
	// the other way: a reply that could not be sent
	if !f.Oneway {
		o := s.outcome(r, f, p)
		b, err := callBytes(r, p, &Msg{Name: f.Name, Kind: thrift.CALL, Seq: 7, Body: v})
		if err != nil {
			t.Fail("the call for the test cannot be written: %v", err)
			return
		}
		run := func(k, short int) (*XT, *gHandler, bool, error) {
			h := &gHandler{answer: func(string) *gAnswer { return o.ans }}
			x := NewXT(b)
			if k > 0 {
				x.Sink.failAt, x.Sink.short, x.Sink.failErr, x.Sink.sticky = k, short, errors.New("the wire is cut"), r.Bool()
			}
			pr := p.New(x)
			ok, perr := sv.code.Processor(h).Process(pr, pr)
			if perr != nil && !nilish(perr) {
				return x, h, ok, perr
			}
			return x, h, ok, nil
		}
		x, _, _, _ := run(0, 0)
		for k := 1; k <= x.Sink.calls; k++ {
			if x.Sink.calls > 40 && k > 20 && k < x.Sink.calls-10 && r.P(80) {
				continue
			}
			at, short = -k, r.Intn(4)
			y, h, ok, err := run(k, short)
			if len(h.calls) != 1 {
				t.Fail("the reply of %s could not be sent and the handler was called %d times", f.Name, len(h.calls))
				return
			}
			if y.Sink.failed && err == nil {
				t.Fail("the reply of %s could not be sent (outcome %v) and Process gives %v and no error", f.Name, o, ok)
				return
			}
			t.Count("reply_faults", 1)
		}
	}
	t.Seen(hashStr(5, sv.Name+f.Name+p.Name))
}
