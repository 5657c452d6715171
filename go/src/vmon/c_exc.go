package main

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"reflect"
	"strings"
	"syscall"
	"thrift"
)

func init() { props["C26"] = exceptionChecks }

type timeoutErr struct {
	m string
	t bool
}

func (e timeoutErr) Error() string   { return e.m }
func (e timeoutErr) Timeout() bool   { return e.t }
func (e timeoutErr) Temporary() bool { return true }

func isNilErr(e interface{}) bool { return e == nil }

// anyError picks an error and says of what kind it is.
func anyError(r *Rng, msg string) (e error, kind string, typ int) {
	switch r.Intn(14) {
	case 0:
		return io.EOF, "eof", 0
	case 1:
		return timeoutErr{msg, true}, "timeout", 0
	case 2:
		return timeoutErr{msg, false}, "plain", 0
	case 3:
		return &net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded}, "timeout", 0
	case 4:
		return &net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}, "plain", 0
	case 5:
		return base64.CorruptInputError(r.Intn(50)), "base64", 0
	case 6, 7:
		ty := r.Intn(7) - 1
		return thrift.NewTProtocolException(ty, msg), "protocol", ty
	case 8, 9:
		ty := r.Intn(7) - 1
		return thrift.NewTTransportException(ty, msg), "transport", ty
	case 10:
		return thrift.NewTApplicationException(int32(r.Intn(8)), msg), "application", 0
	case 11:
		return thrift.NewTException(msg), "thrift", 0
	case 12:
		return io.ErrUnexpectedEOF, "plain", 0
	}
	return errors.New(msg), "plain", 0
}

var excTexts = []string{"", "x", "EOF", "timeout", "it said \"no\"\n", "日本語 \u0000 x", "%s %d", strings.Repeat("long ", 3000), "\\u0041", "a\tb"}

func exceptionChecks(r *Run) {
	r.Cases("wrapping", r.N(20000, 200000), func(t *T) {
		msg := excTexts[t.R.Intn(len(excTexts))]
		if t.R.P(40) {
			msg = newGen(t.R, GenOpt{UTF8: true}).str(true)
		}
		e, kind, ty := anyError(t.R, msg)
		t.Desc(func() string { return fmt.Sprintf("%s %T %q", kind, e, e.Error()) })
		// as a protocol exception
		p := thrift.NewTProtocolExceptionFromOsError(e)
		switch {
		case p == nil:
			t.Fail("NewTProtocolExceptionFromOsError gives nil")
			return
		case p.Error() != e.Error():
			t.Fail("as a protocol exception it says %q", p.Error())
		case (kind == "protocol" || kind == "transport") && p.TypeId() != ty:
			t.Fail("as a protocol exception it is of kind %d, was %d", p.TypeId(), ty)
		case kind == "protocol" && !sameErr(p, e):
			t.Fail("a protocol exception becomes another one")
		case kind == "base64" && p.TypeId() != thrift.INVALID_DATA:
			t.Fail("corrupt base64 is of kind %d", p.TypeId())
		}
		// as a transport exception
		x := thrift.NewTTransportExceptionFromOsError(e)
		switch {
		case x == nil:
			t.Fail("NewTTransportExceptionFromOsError gives nil")
			return
		case x.Error() != e.Error():
			t.Fail("as a transport exception it says %q", x.Error())
		case kind == "transport" && !sameErr(x, e):
			t.Fail("a transport exception becomes another one")
		case kind == "eof" && x.TypeId() != thrift.END_OF_FILE:
			t.Fail("end of file is of kind %d", x.TypeId())
		case kind == "timeout" && x.TypeId() != thrift.TIMED_OUT:
			t.Fail("a timeout is of kind %d", x.TypeId())
		case kind == "plain" && x.TypeId() != thrift.UNKNOWN_TRANSPORT_EXCEPTION:
			t.Fail("another error is of kind %d", x.TypeId())
		}
		// and from there a protocol exception
		px := thrift.NewTProtocolExceptionFromTransportException(x)
		if px == nil || px.Error() != e.Error() {
			t.Fail("the transport exception as a protocol exception: %v", px)
		} else if px.TypeId() != x.TypeId() {
			t.Fail("the transport exception of kind %d is a protocol exception of kind %d", x.TypeId(), px.TypeId())
		}
		// as an exception
		g := thrift.NewTExceptionFromOsError(e)
		if g == nil || g.Error() != e.Error() {
			t.Fail("as an exception: %v", g)
		} else if _, is := e.(thrift.TException); is && !sameErr(g, e) {
			t.Fail("an exception becomes another one")
		}
		t.Count("errors_wrapped", 4)
		t.Seen(hashStr(1, fmt.Sprintf("%s %d %s", kind, ty, msg)))
	})
	r.Case("numbers", 0, func(t *T) {
		// what peers written in other languages call them
		for i, k := range []int32{thrift.UNKNOWN_APPLICATION_EXCEPTION, thrift.UNKNOWN_METHOD, thrift.INVALID_MESSAGE_TYPE_EXCEPTION, thrift.WRONG_METHOD_NAME,
			thrift.BAD_SEQUENCE_ID, thrift.MISSING_RESULT, thrift.INTERNAL_ERROR, thrift.PROTOCOL_ERROR} {
			if int(k) != i {
				t.Fail("application exception kind %d has number %d", i, k)
			}
			x := NewXT(nil)
			p := pBinary.New(x)
			if err := firstErr(func() error { return thrift.NewTApplicationException(k, "m").Write(p) }); err != nil {
				t.Fail("cannot be written: %v", err)
				continue
			}
			if want := []byte{11, 0, 1, 0, 0, 0, 1, 'm', 8, 0, 2, 0, 0, 0, byte(i), 0}; !bytes.Equal(x.Sink.buf, want) {
				t.Fail("application exception kind %d is written %x, not %x", i, x.Sink.buf, want)
			}
			t.Count("kind_numbers", 1)
		}
		// two kinds are two numbers
		for _, ks := range [][]int{
			{thrift.UNKNOWN_PROTOCOL_EXCEPTION, thrift.INVALID_DATA, thrift.NEGATIVE_SIZE, thrift.SIZE_LIMIT, thrift.BAD_VERSION, thrift.NOT_IMPLEMENTED},
			{thrift.UNKNOWN_TRANSPORT_EXCEPTION, thrift.NOT_OPEN, thrift.ALREADY_OPEN, thrift.TIMED_OUT, thrift.END_OF_FILE},
		} {
			seen := map[int]int{}
			for i, k := range ks {
				if j, dup := seen[k]; dup {
					t.Fail("kinds %d and %d are both number %d", j, i, k)
				}
				seen[k] = i
				t.Count("kind_numbers", 1)
			}
		}
	})
	r.Case("nil", 0, func(t *T) {
		if e := thrift.NewTProtocolExceptionFromOsError(nil); !isNilErr(e) {
			t.Fail("protocol exception from nil: %v", e)
		}
		if e := thrift.NewTTransportExceptionFromOsError(nil); !isNilErr(e) {
			t.Fail("transport exception from nil: %v", e)
		}
		if e := thrift.NewTProtocolExceptionFromTransportException(nil); !isNilErr(e) {
			t.Fail("protocol exception from a nil transport exception: %v", e)
		}
		if e := thrift.NewTExceptionFromOsError(nil); !isNilErr(e) {
			t.Fail("exception from nil: %v", e)
		}
	})
	r.Cases("constructors", r.N(5000, 50000), func(t *T) {
		msg := newGen(t.R, GenOpt{}).str(false)
		ty := int(newGen(t.R, GenOpt{}).i64())
		t.Desc(func() string { return fmt.Sprintf("%d %q", ty, msg) })
		chk := func(name string, e interface{ Error() string }, got, want int, m string) {
			if e.Error() != m || got != want {
				t.Fail("%s: kind %d, message %q", name, got, e.Error())
			}
		}
		p := thrift.NewTProtocolException(ty, msg)
		chk("NewTProtocolException", p, p.TypeId(), ty, msg)
		p = thrift.NewTProtocolExceptionDefaultString(msg)
		chk("NewTProtocolExceptionDefaultString", p, p.TypeId(), thrift.UNKNOWN_PROTOCOL_EXCEPTION, msg)
		p = thrift.NewTProtocolExceptionDefaultType(ty)
		chk("NewTProtocolExceptionDefaultType", p, p.TypeId(), ty, p.Error())
		x := thrift.NewTTransportException(ty, msg)
		chk("NewTTransportException", x, x.TypeId(), ty, msg)
		x = thrift.NewTTransportExceptionDefaultString(msg)
		chk("NewTTransportExceptionDefaultString", x, x.TypeId(), thrift.UNKNOWN_TRANSPORT_EXCEPTION, msg)
		x = thrift.NewTTransportExceptionDefaultType(ty)
		chk("NewTTransportExceptionDefaultType", x, x.TypeId(), ty, x.Error())
		a := thrift.NewTApplicationException(int32(ty), msg)
		chk("NewTApplicationException", a, int(a.TypeId()), int(int32(ty)), msg)
		a = thrift.NewTApplicationExceptionMessage(msg)
		chk("NewTApplicationExceptionMessage", a, int(a.TypeId()), thrift.UNKNOWN_APPLICATION_EXCEPTION, msg)
		a = thrift.NewTApplicationExceptionType(int32(ty))
		chk("NewTApplicationExceptionType", a, int(a.TypeId()), int(int32(ty)), a.Error())
		chk("NewTException", thrift.NewTException(msg), 0, 0, msg)
		t.Count("exceptions_made", 10)
		t.Seen(hashStr(uint64(ty), msg))
	})
	r.Cases("context", r.N(5000, 50000), func(t *T) {
		g := newGen(t.R, GenOpt{})
		msg, field, st := g.str(false), g.ident(), g.ident()
		id := int(int16(g.i64()))
		ty := t.R.Intn(7)
		if t.R.P(20) {
			ty = t.R.Intn(300) - 100
		}
		cause := thrift.NewTProtocolException(ty, msg)
		t.Desc(func() string { return fmt.Sprintf("field %d %q of %q, cause %d %q", id, field, st, ty, msg) })
		want := ty
		if want == thrift.UNKNOWN_PROTOCOL_EXCEPTION {
			want = thrift.INVALID_DATA
		}
		for k, e := range []thrift.TProtocolException{thrift.NewTProtocolExceptionReadField(id, field, st, cause), thrift.NewTProtocolExceptionWriteField(id, field, st, cause),
			thrift.NewTProtocolExceptionReadStruct(st, cause), thrift.NewTProtocolExceptionWriteStruct(st, cause)} {
			if e.TypeId() != want {
				t.Fail("wrapper %d: kind %d, want %d", k, e.TypeId(), want)
			}
			if !strings.Contains(e.Error(), msg) || !strings.Contains(e.Error(), st) {
				t.Fail("wrapper %d does not name cause and struct: %q", k, e.Error())
			}
			if k < 2 && (!strings.Contains(e.Error(), fmt.Sprint(id)) || !strings.Contains(e.Error(), field)) {
				t.Fail("wrapper %d does not name the field: %q", k, e.Error())
			}
			t.Count("errors_wrapped", 1)
		}
		t.Seen(hashStr(uint64(id), msg+field+st))
	})
	protos := []*Proto{pBinary, pBinaryLax, pBinaryDef, pCompact, pCompactFac, pJSON, pJSONFac}
	wire := append([]*Proto{pSimple, pSimpleFac}, protos...)
	r.Cases("across the wire", r.N(8000, 80000), func(t *T) {
		p := wire[t.Idx%len(wire)]
		g := newGen(t.R, p.genOpt())
		msg := excTexts[t.R.Intn(len(excTexts))]
		if t.R.P(60) {
			msg = g.str(p.UTF8)
		}
		ty := int32(t.R.Intn(9))
		if t.R.P(30) {
			ty = int32(g.i64())
		}
		name, seq := g.ident(), int32(g.i64())
		t.Desc(func() string { return fmt.Sprintf("%s: exception %d %q in %s/%d", p.Name, ty, msg, name, seq) })
		x := NewXT(nil)
		w := p.New(x)
		if e := firstErr(
			func() error { return nilErr(w.WriteMessageBegin(name, thrift.EXCEPTION, seq)) },
			func() error { return thrift.NewTApplicationException(ty, msg).Write(w) },
			func() error { return nilErr(w.WriteMessageEnd()) },
			func() error { return nilErr(w.WriteMessageBegin("next", thrift.CALL, 7)) },
			func() error { return nilErr(w.WriteMessageEnd()) },
			func() error { return nilErr(w.Flush()) }); e != nil {
			t.Fail("cannot be written: %v", e)
			return
		}
		readExc(t, p, x.buf, name, seq, ty, msg)
		t.Seen(hashStr(uint64(ty), p.Name+msg))
	})
	// the same exception as another implementation may write it: other field order, fields unknown here or of other types
	r.Cases("foreign forms", r.N(8000, 80000), func(t *T) {
		p := protos[t.Idx%len(protos)]
		g := newGen(t.R, p.genOpt())
		g.budget = 20
		msg, ty := g.str(p.UTF8), int32(g.i64())
		var fs []Fld
		if t.R.P(85) {
			fs = append(fs, Fld{"message", 1, &V{T: thrift.STRING, S: msg}})
		} else {
			msg = ""
			if t.R.Bool() {
				fs = append(fs, Fld{"message", 1, otherType(g, thrift.STRING)})
			}
		}
		if t.R.P(85) {
			fs = append(fs, Fld{"type", 2, &V{T: thrift.I32, I: int64(ty)}})
		} else {
			ty = thrift.UNKNOWN_APPLICATION_EXCEPTION
			if t.R.Bool() {
				fs = append(fs, Fld{"type", 2, otherType(g, thrift.I32)})
			}
		}
		for i := t.R.Intn(4); i > 0; i-- {
			fs = append(fs, Fld{g.ident(), int16(3 + i + t.R.Intn(2)*1000), g.value(g.typ(2), 2)})
		}
		body := &V{T: thrift.STRUCT}
		for _, i := range t.R.Perm(len(fs)) {
			body.F = append(body.F, fs[i])
		}
		m := &Msg{Name: g.ident(), Kind: thrift.EXCEPTION, Seq: int32(g.i64()), Body: body}
		t.Desc(func() string { return p.Name + " " + m.String() })
		b, e := p.encode(m, &Msg{Name: "next", Kind: thrift.CALL, Seq: 7, Body: &V{T: thrift.STRUCT}})
		if e != nil {
			t.Fail("cannot be written: %v", e)
			return
		}
		readExc(t, p, b, m.Name, m.Seq, ty, msg)
		t.Seen(hashStr(2, m.String()))
	})
	// an error of the transport keeps its kind and message up through the protocol
	kinds := []struct {
		e  error
		ty int
	}{{nil, thrift.END_OF_FILE}, {io.EOF, thrift.END_OF_FILE}, {timeoutErr{"late 77", true}, thrift.TIMED_OUT}, {thrift.NewTTransportException(thrift.TIMED_OUT, "late 78"), thrift.TIMED_OUT},
		{thrift.NewTTransportException(thrift.NOT_OPEN, "shut 79"), thrift.NOT_OPEN}, {thrift.NewTTransportException(thrift.END_OF_FILE, "end 80"), thrift.END_OF_FILE}, {errors.New("cable 81"), -1}}
	ps := []*Proto{pBinary, pBinaryLax, pCompact, pJSON, pSimple}
	r.Cases("through the layers", len(kinds)*len(ps)*4, func(t *T) {
		k := kinds[t.Idx%len(kinds)]
		p := ps[t.Idx/len(kinds)%len(ps)]
		lane := t.Idx / len(kinds) / len(ps)
		src := NewXT(nil)
		src.Src.endErr = k.e
		var tr thrift.TTransport = src
		switch lane {
		case 1:
			tr = thrift.NewTFramedTransport(src)
		case 2:
			tr = thrift.NewTIOStreamTransportR(src.Src)
		case 3:
			s, err := thrift.NewTSocketConn(faultConn{src})
			if err != nil {
				t.Fail("socket: %v", err)
				return
			}
			tr = s
		}
		t.Desc(func() string { return fmt.Sprintf("%s over lane %d, failing with %v", p.Name, lane, k.e) })
		_, _, _, e := p.New(tr).ReadMessageBegin()
		if e == nil {
			t.Fail("reading a message succeeds")
			return
		}
		if _, own := k.e.(thrift.TTransportException); lane == 0 && p.JSON && !own {
			return // the error of a transport that is not of the library, and no exception: only its message is kept
		}
		if k.ty >= 0 && e.TypeId() != k.ty {
			t.Fail("reported as kind %d, want %d: %v", e.TypeId(), k.ty, e)
		}
		if k.e != nil && k.e != io.EOF && !strings.Contains(e.Error(), k.e.Error()) {
			t.Fail("reported as %q", e.Error())
		}
		t.Count("layers", 1)
		t.Seen(uint64(t.Idx))
	})
}

func firstErr(fs ...func() error) error {
	for _, f := range fs {
		if e := f(); e != nil && !reflect.ValueOf(e).IsZero() {
			return e
		}
	}
	return nil
}

func otherType(g *gen, t thrift.TType) *V {
	for {
		ty := allTypes[g.r.Intn(len(allTypes))]
		if wireT(ty) != t {
			return g.value(ty, 2)
		}
	}
}

func readExc(t *T, p *Proto, b []byte, name string, seq, ty int32, msg string) {
	rd := p.New(NewXT(b))
	n, k, s, e := rd.ReadMessageBegin()
	if e != nil || n != name || k != thrift.EXCEPTION || s != seq {
		t.Fail("message begins with %q %d %d (%v)", n, k, s, e)
		return
	}
	got, err := thrift.NewTApplicationExceptionDefault().Read(rd)
	if err != nil || got == nil {
		t.Fail("cannot be read: %v", err)
		return
	}
	if got.TypeId() != ty || got.Error() != msg {
		t.Fail("read back as %d %q, want %d %q", got.TypeId(), got.Error(), ty, msg)
		return
	}
	if e := rd.ReadMessageEnd(); e != nil {
		t.Fail("message end: %v", e)
		return
	}
	if n, k, s, e = rd.ReadMessageBegin(); e != nil || n != "next" || k != thrift.CALL || s != 7 {
		t.Fail("the next message begins with %q %d %d (%v)", n, k, s, e)
	}
	t.Count("exceptions_read", 1)
}

// sameErr tells whether two errors are the same object.
func sameErr(a, b interface{}) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.Kind() == reflect.Ptr && vb.Kind() == reflect.Ptr {
		return va.Pointer() == vb.Pointer()
	}
	return reflect.DeepEqual(a, b)
}
