package main

import (
	"errors"
	"fmt"
	"strings"
	"thrift"
)

// pfault is a protocol of which one call, the at-th, fails without having done anything.
type pfault struct {
	p     thrift.TProtocol
	n, at int
	hit   string
	log   []string
}

var errProtocolCall = errors.New("fault 815 of the protocol")

func (f *pfault) fails(name string) bool {
	f.n++
	if f.at == 0 {
		f.log = append(f.log, name)
	}
	if f.n == f.at {
		f.hit = name
		return true
	}
	return false
}

func (f *pfault) err() thrift.TProtocolException {
	return thrift.NewTProtocolExceptionFromOsError(errProtocolCall)
}

func (f *pfault) Transport() thrift.TTransport { return f.p.Transport() }

func (f *pfault) WriteMessageBegin(name string, typeId thrift.TMessageType, seqid int32) thrift.TProtocolException {
	if f.fails("WriteMessageBegin") {
		return f.err()
	}
	return f.p.WriteMessageBegin(name, typeId, seqid)
}

func (f *pfault) WriteMessageEnd() thrift.TProtocolException {
	if f.fails("WriteMessageEnd") {
		return f.err()
	}
	return f.p.WriteMessageEnd()
}

func (f *pfault) WriteStructBegin(name string) thrift.TProtocolException {
	if f.fails("WriteStructBegin") {
		return f.err()
	}
	return f.p.WriteStructBegin(name)
}

func (f *pfault) WriteStructEnd() thrift.TProtocolException {
	if f.fails("WriteStructEnd") {
		return f.err()
	}
	return f.p.WriteStructEnd()
}

func (f *pfault) WriteFieldBegin(name string, typeId thrift.TType, id int16) thrift.TProtocolException {
	if f.fails("WriteFieldBegin") {
		return f.err()
	}
	return f.p.WriteFieldBegin(name, typeId, id)
}

func (f *pfault) WriteFieldEnd() thrift.TProtocolException {
	if f.fails("WriteFieldEnd") {
		return f.err()
	}
	return f.p.WriteFieldEnd()
}

func (f *pfault) WriteFieldStop() thrift.TProtocolException {
	if f.fails("WriteFieldStop") {
		return f.err()
	}
	return f.p.WriteFieldStop()
}

func (f *pfault) WriteMapBegin(keyType thrift.TType, valueType thrift.TType, size int) thrift.TProtocolException {
	if f.fails("WriteMapBegin") {
		return f.err()
	}
	return f.p.WriteMapBegin(keyType, valueType, size)
}

func (f *pfault) WriteMapEnd() thrift.TProtocolException {
	if f.fails("WriteMapEnd") {
		return f.err()
	}
	return f.p.WriteMapEnd()
}

func (f *pfault) WriteListBegin(elemType thrift.TType, size int) thrift.TProtocolException {
	if f.fails("WriteListBegin") {
		return f.err()
	}
	return f.p.WriteListBegin(elemType, size)
}

func (f *pfault) WriteListEnd() thrift.TProtocolException {
	if f.fails("WriteListEnd") {
		return f.err()
	}
	return f.p.WriteListEnd()
}

func (f *pfault) WriteSetBegin(elemType thrift.TType, size int) thrift.TProtocolException {
	if f.fails("WriteSetBegin") {
		return f.err()
	}
	return f.p.WriteSetBegin(elemType, size)
}

func (f *pfault) WriteSetEnd() thrift.TProtocolException {
	if f.fails("WriteSetEnd") {
		return f.err()
	}
	return f.p.WriteSetEnd()
}

func (f *pfault) WriteBool(value bool) thrift.TProtocolException {
	if f.fails("WriteBool") {
		return f.err()
	}
	return f.p.WriteBool(value)
}

func (f *pfault) WriteByte(value byte) thrift.TProtocolException {
	if f.fails("WriteByte") {
		return f.err()
	}
	return f.p.WriteByte(value)
}

func (f *pfault) WriteI16(value int16) thrift.TProtocolException {
	if f.fails("WriteI16") {
		return f.err()
	}
	return f.p.WriteI16(value)
}

func (f *pfault) WriteI32(value int32) thrift.TProtocolException {
	if f.fails("WriteI32") {
		return f.err()
	}
	return f.p.WriteI32(value)
}

func (f *pfault) WriteI64(value int64) thrift.TProtocolException {
	if f.fails("WriteI64") {
		return f.err()
	}
	return f.p.WriteI64(value)
}

func (f *pfault) WriteDouble(value float64) thrift.TProtocolException {
	if f.fails("WriteDouble") {
		return f.err()
	}
	return f.p.WriteDouble(value)
}

func (f *pfault) WriteString(value string) thrift.TProtocolException {
	if f.fails("WriteString") {
		return f.err()
	}
	return f.p.WriteString(value)
}

func (f *pfault) WriteBinary(value []byte) thrift.TProtocolException {
	if f.fails("WriteBinary") {
		return f.err()
	}
	return f.p.WriteBinary(value)
}

func (f *pfault) ReadMessageBegin() (string, thrift.TMessageType, int32, thrift.TProtocolException) {
	if f.fails("ReadMessageBegin") {
		return "", 0, 0, f.err()
	}
	return f.p.ReadMessageBegin()
}

func (f *pfault) ReadMessageEnd() thrift.TProtocolException {
	if f.fails("ReadMessageEnd") {
		return f.err()
	}
	return f.p.ReadMessageEnd()
}

func (f *pfault) ReadStructBegin() (string, thrift.TProtocolException) {
	if f.fails("ReadStructBegin") {
		return "", f.err()
	}
	return f.p.ReadStructBegin()
}

func (f *pfault) ReadStructEnd() thrift.TProtocolException {
	if f.fails("ReadStructEnd") {
		return f.err()
	}
	return f.p.ReadStructEnd()
}

func (f *pfault) ReadFieldBegin() (string, thrift.TType, int16, thrift.TProtocolException) {
	if f.fails("ReadFieldBegin") {
		return "", thrift.STOP, 0, f.err()
	}
	return f.p.ReadFieldBegin()
}

func (f *pfault) ReadFieldEnd() thrift.TProtocolException {
	if f.fails("ReadFieldEnd") {
		return f.err()
	}
	return f.p.ReadFieldEnd()
}

func (f *pfault) ReadMapBegin() (thrift.TType, thrift.TType, int, thrift.TProtocolException) {
	if f.fails("ReadMapBegin") {
		return thrift.STOP, thrift.STOP, 0, f.err()
	}
	return f.p.ReadMapBegin()
}

func (f *pfault) ReadMapEnd() thrift.TProtocolException {
	if f.fails("ReadMapEnd") {
		return f.err()
	}
	return f.p.ReadMapEnd()
}

func (f *pfault) ReadListBegin() (thrift.TType, int, thrift.TProtocolException) {
	if f.fails("ReadListBegin") {
		return thrift.STOP, 0, f.err()
	}
	return f.p.ReadListBegin()
}

func (f *pfault) ReadListEnd() thrift.TProtocolException {
	if f.fails("ReadListEnd") {
		return f.err()
	}
	return f.p.ReadListEnd()
}

func (f *pfault) ReadSetBegin() (thrift.TType, int, thrift.TProtocolException) {
	if f.fails("ReadSetBegin") {
		return thrift.STOP, 0, f.err()
	}
	return f.p.ReadSetBegin()
}

func (f *pfault) ReadSetEnd() thrift.TProtocolException {
	if f.fails("ReadSetEnd") {
		return f.err()
	}
	return f.p.ReadSetEnd()
}

func (f *pfault) ReadBool() (bool, thrift.TProtocolException) {
	if f.fails("ReadBool") {
		return false, f.err()
	}
	return f.p.ReadBool()
}

func (f *pfault) ReadByte() (byte, thrift.TProtocolException) {
	if f.fails("ReadByte") {
		return 0, f.err()
	}
	return f.p.ReadByte()
}

func (f *pfault) ReadI16() (int16, thrift.TProtocolException) {
	if f.fails("ReadI16") {
		return 0, f.err()
	}
	return f.p.ReadI16()
}

func (f *pfault) ReadI32() (int32, thrift.TProtocolException) {
	if f.fails("ReadI32") {
		return 0, f.err()
	}
	return f.p.ReadI32()
}

func (f *pfault) ReadI64() (int64, thrift.TProtocolException) {
	if f.fails("ReadI64") {
		return 0, f.err()
	}
	return f.p.ReadI64()
}

func (f *pfault) ReadDouble() (float64, thrift.TProtocolException) {
	if f.fails("ReadDouble") {
		return 0, f.err()
	}
	return f.p.ReadDouble()
}

func (f *pfault) ReadString() (string, thrift.TProtocolException) {
	if f.fails("ReadString") {
		return "", f.err()
	}
	return f.p.ReadString()
}

func (f *pfault) ReadBinary() ([]byte, thrift.TProtocolException) {
	if f.fails("ReadBinary") {
		return nil, f.err()
	}
	return f.p.ReadBinary()
}

func (f *pfault) Skip(fieldType thrift.TType) thrift.TProtocolException {
	if f.fails("Skip") {
		return f.err()
	}
	return f.p.Skip(fieldType)
}

func (f *pfault) Flush() thrift.TProtocolException {
	if f.fails("Flush") {
		return f.err()
	}
	return f.p.Flush()
}

// everyCall runs something on a protocol, then again and again with each of its calls failing.
// The error has to be reported, saying what it was.
func everyCall(t *T, what string, counter string, mk func() thrift.TProtocol, run func(p thrift.TProtocol) error, max int) bool {
	probe := &pfault{p: mk()}
	if err := run(probe); err != nil {
		t.Fail("%s failed without a fault: %v", what, err)
		return false
	}
	for _, k := range faultPoints(t.R, probe.n, max) {
		f := &pfault{p: mk(), at: k}
		err := run(f)
		if f.hit == "" {
			continue
		}
		if err == nil {
			t.Fail("%s: call %d of %d of the protocol (%s) failed and no error is reported", what, k, probe.n, f.hit)
			return false
		}
		if !strings.Contains(err.Error(), errProtocolCall.Error()) {
			t.Fail("%s: call %d of %d of the protocol (%s) failed with %q and is reported as %q", what, k, probe.n, f.hit, errProtocolCall, err)
			return false
		}
		t.Count(counter, 1)
	}
	return true
}

// appExcFaults: application exceptions written and read while the protocol fails.
func appExcFaults(t *T, p *Proto) {
	r := t.R
	msg, ty := excTexts[r.Intn(len(excTexts))], int32(r.Intn(8))
	x := thrift.NewTApplicationException(ty, msg)
	t.Desc(func() string { return fmt.Sprintf("application exception %d %q over %s", ty, msg, p.Name) })
	if !everyCall(t, "writing an application exception", "protocol_faults", func() thrift.TProtocol { return p.New(NewXT(nil)) }, func(pr thrift.TProtocol) error { return plainErr(x.Write(pr)) }, 80) {
		return
	}
	g := newGen(r, p.genOpt())
	g.budget = 10
	v := &V{T: thrift.STRUCT, F: []Fld{{Name: "message", ID: 1, V: &V{T: thrift.STRING, S: "m"}}, {Name: "type", ID: 2, V: &V{T: thrift.I32, I: int64(ty)}}}}
	if !p.Schema {
		switch r.Intn(4) {
		case 0:
			v.F = append(v.F, Fld{Name: "more", ID: 3, V: g.strct(2)})
		case 1:
			v.F = append([]Fld{{Name: "before", ID: -7, V: &V{T: thrift.LIST, VT: thrift.I32, L: []*V{{T: thrift.I32, I: 5}}}}}, v.F...)
		case 2:
			v.F[0].V = &V{T: thrift.I64, I: 5}
		case 3:
			v.F[1].V = &V{T: thrift.STRING, S: "x"}
		}
	}
	b, err := p.encodeV(v)
	if err != nil {
		return
	}
	everyCall(t, "reading an application exception", "protocol_faults", func() thrift.TProtocol { return p.New(NewXT(b)) }, func(pr thrift.TProtocol) error {
		_, e := thrift.NewTApplicationExceptionDefault().Read(pr)
		return plainErr(e)
	}, 80)
	t.Seen(shapeHash(v) ^ hashStr(9, p.Name))
}

// skipFaults: values skipped while the protocol fails.
func skipFaults(t *T, p *Proto) {
	g := newGen(t.R, p.genOpt())
	g.budget = 15
	v := g.strct(3)
	t.Desc(func() string { return fmt.Sprintf("skipping %v over %s", v, p.Name) })
	b, err := p.encodeV(v)
	if err != nil {
		return
	}
	everyCall(t, "skipping", "protocol_faults", func() thrift.TProtocol { return p.New(NewXT(b)) }, func(pr thrift.TProtocol) error {
		return plainErr(thrift.SkipDefaultDepth(pr, thrift.STRUCT))
	}, 60)
	t.Seen(shapeHash(v) ^ hashStr(10, p.Name))
}

// gStructFaults: generated structs written and read while the protocol fails.
func gStructFaults(t *T, s *gSet, st *gStruct) {
	r := t.R
	p := genProtos[r.Intn(len(genProtos))]
	v := utf8V(s.strct(r, st, 2))
	t.Desc(func() string { return fmt.Sprintf("definition set %s, %s over %s, set: %s", s.Name, st.key, p.Name, v) })
	x := s.buildS(v, st).(gObj)
	if !everyCall(t, "writing", "protocol_faults", func() thrift.TProtocol { return p.New(NewXT(nil)) }, func(pr thrift.TProtocol) error { return plainErr(x.Write(pr)) }, 60) {
		return
	}
	b, err := p.encodeV(s.garnish(r, v, st, 1))
	if err != nil {
		return
	}
	everyCall(t, "reading", "protocol_faults", func() thrift.TProtocol { return p.New(NewXT(b)) }, func(pr thrift.TProtocol) error {
		return plainErr(s.New[st.key]().(gObj).Read(pr))
	}, 60)
}

// gProtocolFaults: generated clients and processors while their protocols fail.
func gProtocolFaults(t *T, s *gSet, sv *gSvc, f *gFunc) {
	r := t.R
	p := genProtos[r.Intn(len(genProtos))]
	v := s.callerArgs(r, f)
	o := s.outcome(r, f, p)
	for o.kind == "error" {
		o = s.outcome(r, f, p)
	}
	t.Desc(func() string {
		return fmt.Sprintf("definition set %s, %s.%s(%v), outcome %v, over %s", s.Name, sv.Name, f.Name, v, o, p.Name)
	})
	// the client: its request is written, then the reply is read
	client := func(at int) (*pfault, error) {
		x := &lazyT{XT: NewXT(nil)}
		asked := false
		x.more = func() {
			if asked {
				return
			}
			asked = true
			m, err := oneMsg(p, x.Sink.buf)
			if err != nil {
				m = &Msg{Seq: 1}
			}
			rb, _ := p.encode(&Msg{Name: f.Name, Kind: thrift.REPLY, Seq: m.Seq, Body: &V{T: thrift.STRUCT}})
			x.Src.data = append(x.Src.data, rb...)
		}
		pf := &pfault{p: p.New(x), at: at}
		_, err := s.callClient(sv.code.ClientP(x, pf, pf), f, v)
		return pf, err
	}
	pf, err := client(0)
	if err != nil {
		t.Fail("call of %s: %v", f.Name, err)
		return
	}
	for _, k := range faultPoints(r, pf.n, 60) {
		y, err := client(k)
		if y.hit != "" && err == nil {
			t.Fail("call %d of %d of the client's protocol (%s) failed in a call of %s and no error is returned", k, pf.n, y.hit, f.Name)
			return
		}
		t.Count("protocol_faults", 1)
	}
	// the processor: what it does not get whole it does not hand on, and what it cannot send it reports
	kind := thrift.TMessageType(thrift.CALL)
	if f.Oneway {
		kind = thrift.ONEWAY
	}
	b, err := p.encode(&Msg{Name: f.Name, Kind: kind, Seq: 7, Body: v})
	if err != nil {
		return
	}
	processor := func(at int, in bool) (*pfault, *gHandler, *XT, error) {
		h := &gHandler{answer: func(string) *gAnswer { return o.ans }}
		x := NewXT(b)
		pf := &pfault{p: p.New(x), at: at}
		var err error
		if in {
			_, e := sv.code.Processor(h).Process(pf, p.New(x))
			err = plainErr(e)
		} else {
			_, e := sv.code.Processor(h).Process(p.New(x), pf)
			err = plainErr(e)
		}
		return pf, h, x, err
	}
	for _, in := range []bool{true, false} {
		pf, h, _, err := processor(0, in)
		if err != nil || len(h.calls) != 1 {
			t.Fail("a good call of %s: %d calls of the handler, error %v", f.Name, len(h.calls), err)
			return
		}
		for _, k := range faultPoints(r, pf.n, 60) {
			y, h, x, err := processor(k, in)
			if y.hit == "" {
				continue
			}
			if in {
				if len(h.calls) != 0 {
					t.Fail("call %d of %d of the input protocol (%s) failed and the call of %s reached the handler", k, pf.n, y.hit, f.Name)
					return
				}
				if m, e := oneMsg(p, x.Sink.buf); err == nil && (e != nil || m.Kind != thrift.EXCEPTION) {
					t.Fail("call %d of %d of the input protocol (%s) failed and the processor neither reports it nor answers the call of %s with an exception (%d bytes written)", k, pf.n, y.hit, f.Name, len(x.Sink.buf))
					return
				}
			} else {
				if len(h.calls) != 1 {
					t.Fail("call %d of %d of the output protocol (%s) failed and the call of %s was handled %d times", k, pf.n, y.hit, f.Name, len(h.calls))
					return
				}
				if err == nil {
					t.Fail("call %d of %d of the output protocol (%s) failed and the processor reports no error for %s", k, pf.n, y.hit, f.Name)
					return
				}
			}
			t.Count("protocol_faults", 1)
		}
	}
	t.Seen(hashStr(6, sv.Name+f.Name+p.Name+o.kind))
}

// plainErr makes a nil of whatever stands for no error.
func plainErr(e interface{}) error {
	if e == nil || nilish(e) {
		return nil
	}
	return e.(error)
}
