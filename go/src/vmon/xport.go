package main

import (
	"errors"
	"fmt"
	"io"
	"log"
	"thrift"
)

// stepLimit is what an instrumented transport panics with when the code under test keeps asking at end of input.
type stepLimit string

var errWouldBlock = errors.New("would block: the stream has no more bytes now")

// Frag decides how many of the want bytes a read may return (at least 1).
type Frag func(want, avail int) int

func fragAll(want, avail int) int { return want }
func fragOne(want, avail int) int { return 1 }

func fragRandom(r *Rng) Frag {
	return func(want, avail int) int {
		switch r.Intn(4) {
		case 0:
			return 1
		case 1:
			return want
		}
		return 1 + r.Intn(want)
	}
}

// fragAt splits the stream at the given absolute offsets.
func fragAt(src *Src, cuts []int) Frag {
	return func(want, avail int) int {
		for _, c := range cuts {
			if c > src.pos {
				if d := c - src.pos; d < want {
					return d
				}
				return want
			}
		}
		return want
	}
}

// Src is an instrumented byte source.
type Src struct {
	data     []byte
	pos      int
	frag     Frag
	eofWith  bool  // return io.EOF together with the last bytes
	block    bool  // at the end of data the stream stays open: a read there would block
	endErr   error // error at the end of the data; io.EOF when nil
	reads    int   // calls
	over     int   // calls when no data was left
	failAt   int   // 1-based read call that fails with failErr (0: none)
	failErr  error
	maxOver  int
	waitSeen bool
	idle     *Rng // now and then a read gives nothing, without an error
	idleEnd  bool // at the end of the data reads give nothing, without an error, for ever
	nothing  int  // reads that gave nothing so
	inRow    int
}

func NewSrc(b []byte) *Src { return &Src{data: b, frag: fragAll, maxOver: 20000} }

func (s *Src) Read(p []byte) (int, error) {
	s.reads++
	if s.failAt > 0 && s.reads == s.failAt {
		return 0, s.failErr
	}
	if len(p) == 0 {
		return 0, nil
	}
	if s.pos >= len(s.data) {
		s.over++
		if s.over > s.maxOver {
			panic(stepLimit(fmt.Sprintf("%d reads after the end of the input", s.over)))
		}
		if s.idleEnd {
			s.nothing++
			return 0, nil
		}
		if s.block {
			s.waitSeen = true
			return 0, errWouldBlock
		}
		if s.endErr != nil {
			return 0, s.endErr
		}
		return 0, io.EOF
	}
	if s.idle != nil && s.inRow < 3 && s.idle.P(30) {
		s.inRow++
		s.nothing++
		return 0, nil
	}
	s.inRow = 0
	avail := len(s.data) - s.pos
	n := len(p)
	if n > avail {
		n = avail
	}
	k := s.frag(n, avail)
	if k < 1 {
		k = 1
	}
	if k > n {
		k = n
	}
	copy(p, s.data[s.pos:s.pos+k])
	s.pos += k
	if s.eofWith && s.pos == len(s.data) && !s.block {
		if s.endErr != nil {
			return k, s.endErr
		}
		return k, io.EOF
	}
	return k, nil
}

// Sink is an instrumented byte sink.
type Sink struct {
	buf      []byte
	calls    int // writes and flushes
	writes   int
	flushes  int
	failAt   int // 1-based call (write or flush) that fails
	failErr  error
	short    int  // how many bytes a failing write accepts
	sticky   bool // every later call fails too
	failed   bool
	flushPos []int // len(buf) at each flush
}

func (s *Sink) fail() bool {
	s.calls++
	if s.failAt > 0 && (s.calls == s.failAt || (s.sticky && s.calls > s.failAt)) {
		s.failed = true
		return true
	}
	return false
}

func (s *Sink) Write(p []byte) (int, error) {
	s.writes++
	if s.fail() {
		n := s.short
		if n >= len(p) { // a write that fails leaves something out
			n = len(p) - 1
		}
		if n < 0 {
			n = 0
		}
		s.buf = append(s.buf, p[:n]...)
		return n, s.failErr
	}
	s.buf = append(s.buf, p...)
	return len(p), nil
}

func (s *Sink) Flush() error {
	s.flushes++
	if s.fail() {
		return s.failErr
	}
	s.flushPos = append(s.flushPos, len(s.buf))
	return nil
}

// XT is a TTransport over an instrumented source and sink.
type XT struct {
	*Src
	*Sink
	closed int
	opened int
}

func NewXT(in []byte) *XT { return &XT{Src: NewSrc(in), Sink: &Sink{}} }

func (x *XT) IsOpen() bool                  { return true }
func (x *XT) Open() error                   { x.opened++; return nil }
func (x *XT) Close() error                  { x.closed++; return nil }
func (x *XT) Read(p []byte) (int, error)    { return x.Src.Read(p) }
func (x *XT) ReadAll(p []byte) (int, error) { return thrift.ReadAllTransport(x, p) }
func (x *XT) Write(p []byte) (int, error)   { return x.Sink.Write(p) }
func (x *XT) Flush() error                  { return x.Sink.Flush() }
func (x *XT) Peek() bool                    { return true }

type rw struct {
	io.Reader
	io.Writer
}

// Proto is one protocol configuration.
type Proto struct {
	Name   string
	New    func(t thrift.TTransport) thrift.TProtocol
	Eq     EqOpt
	UTF8   bool
	Schema bool // does not describe itself
	JSON   bool
}

var pBinary = &Proto{Name: "binary", New: func(t thrift.TTransport) thrift.TProtocol { return thrift.NewTBinaryProtocol(t, true, true) }}
var pBinaryLax = &Proto{Name: "binary-nonstrict", New: func(t thrift.TTransport) thrift.TProtocol { return thrift.NewTBinaryProtocol(t, false, false) }}
var pBinaryDef = &Proto{Name: "binary-default", New: func(t thrift.TTransport) thrift.TProtocol { return thrift.NewTBinaryProtocolTransport(t) }}
var pBinaryFac = &Proto{Name: "binary-factory", New: func(t thrift.TTransport) thrift.TProtocol {
	return thrift.NewTBinaryProtocolFactoryDefault().GetProtocol(t)
}}
var pCompact = &Proto{Name: "compact", New: func(t thrift.TTransport) thrift.TProtocol { return thrift.NewTCompactProtocol(t) }, Eq: EqOpt{EmptyMapAny: true}}
var pCompactFac = &Proto{Name: "compact-factory", New: func(t thrift.TTransport) thrift.TProtocol { return thrift.NewTCompactProtocolFactory().GetProtocol(t) }, Eq: EqOpt{EmptyMapAny: true}}
var pJSON = &Proto{Name: "json", New: func(t thrift.TTransport) thrift.TProtocol { return thrift.NewTJSONProtocol(t) }, Eq: EqOpt{AnyNaN: true}, UTF8: true, JSON: true}
var pJSONFac = &Proto{Name: "json-factory", New: func(t thrift.TTransport) thrift.TProtocol { return thrift.NewTJSONProtocolFactory().GetProtocol(t) }, Eq: EqOpt{AnyNaN: true}, UTF8: true, JSON: true}
var pSimple = &Proto{Name: "simplejson", New: func(t thrift.TTransport) thrift.TProtocol { return thrift.NewTSimpleJSONProtocol(t) }, Eq: EqOpt{AnyNaN: true, Names: true}, UTF8: true, Schema: true, JSON: true}
var pSimpleFac = &Proto{Name: "simplejson-factory", New: func(t thrift.TTransport) thrift.TProtocol {
	return thrift.NewTSimpleJSONProtocolFactory().GetProtocol(t)
}, Eq: EqOpt{AnyNaN: true, Names: true}, UTF8: true, Schema: true, JSON: true}

// the protocols that describe themselves, one of each
var selfProtos = []*Proto{pBinary, pCompact, pJSON}
var mainProtos = []*Proto{pBinary, pCompact, pJSON, pSimple}

func (p *Proto) readMsg(pr thrift.TProtocol, want *Msg, c *readCtl) (*Msg, error) {
	if p.Schema {
		return readMsgSchema(pr, want, c)
	}
	return readMsg(pr, want, c)
}

func (p *Proto) readV(pr thrift.TProtocol, want *V, c *readCtl) (*V, error) {
	if p.Schema {
		return readSchema(pr, want, c)
	}
	return readV(pr, wireT(want.T), want, c)
}

func (p *Proto) genOpt() GenOpt {
	return GenOpt{UTF8: p.UTF8, Binary: true}
}

// encode writes messages through a fresh protocol over a plain sink and returns the bytes.
func (p *Proto) encode(ms ...*Msg) ([]byte, error) {
	x := NewXT(nil)
	pr := p.New(x)
	for _, m := range ms {
		if e := writeMsg(pr, m); e != nil {
			return x.buf, e
		}
	}
	return x.buf, nil
}

func (p *Proto) encodeV(v *V) ([]byte, error) {
	x := NewXT(nil)
	pr := p.New(x)
	if e := writeV(pr, v); e != nil {
		return x.buf, e
	}
	return x.buf, nilErr(pr.Flush())
}

var nullLog = log.New(io.Discard, "", 0)
