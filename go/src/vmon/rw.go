package main

import (
	"errors"
	"fmt"
	"math"
	"thrift"
)

var errModel = errors.New("model")

func nilErr(e thrift.TProtocolException) error {
	if e == nil {
		return nil
	}
	return e
}

// writeV writes v through any protocol the way generated code does.
// between, if set, runs before each value is written or read: other parts of the case take their turn.
var between func()

func writeV(p thrift.TProtocol, v *V) error {
	if between != nil {
		between()
	}
	switch v.T {
	case thrift.BOOL:
		return nilErr(p.WriteBool(v.I != 0))
	case thrift.BYTE:
		return nilErr(p.WriteByte(byte(v.I)))
	case thrift.I16:
		return nilErr(p.WriteI16(int16(v.I)))
	case thrift.I32:
		return nilErr(p.WriteI32(int32(v.I)))
	case thrift.I64:
		return nilErr(p.WriteI64(v.I))
	case thrift.DOUBLE:
		return nilErr(p.WriteDouble(math.Float64frombits(v.D)))
	case thrift.STRING:
		return nilErr(p.WriteString(v.S))
	case thrift.BINARY:
		b := []byte(v.S)
		e := p.WriteBinary(b)
		for i := range b { // what was written may be reused by the caller
			b[i] = ^b[i]
		}
		return nilErr(e)
	case thrift.STRUCT:
		if e := p.WriteStructBegin("S"); e != nil {
			return e
		}
		for _, f := range v.F {
			if e := p.WriteFieldBegin(f.Name, f.V.T, f.ID); e != nil {
				return e
			}
			if e := writeV(p, f.V); e != nil {
				return e
			}
			if e := p.WriteFieldEnd(); e != nil {
				return e
			}
		}
		if e := p.WriteFieldStop(); e != nil {
			return e
		}
		return nilErr(p.WriteStructEnd())
	case thrift.MAP:
		if e := p.WriteMapBegin(v.KT, v.VT, len(v.L)/2); e != nil {
			return e
		}
		for _, x := range v.L {
			if e := writeV(p, x); e != nil {
				return e
			}
		}
		return nilErr(p.WriteMapEnd())
	case thrift.SET:
		if e := p.WriteSetBegin(v.VT, len(v.L)); e != nil {
			return e
		}
		for _, x := range v.L {
			if e := writeV(p, x); e != nil {
				return e
			}
		}
		return nilErr(p.WriteSetEnd())
	case thrift.LIST:
		if e := p.WriteListBegin(v.VT, len(v.L)); e != nil {
			return e
		}
		for _, x := range v.L {
			if e := writeV(p, x); e != nil {
				return e
			}
		}
		return nilErr(p.WriteListEnd())
	}
	panic("writeV: " + tname(v.T))
}

func writeMsg(p thrift.TProtocol, m *Msg) error {
	if e := p.WriteMessageBegin(m.Name, m.Kind, m.Seq); e != nil {
		return e
	}
	if e := writeV(p, m.Body); e != nil {
		return e
	}
	if e := p.WriteMessageEnd(); e != nil {
		return e
	}
	return nilErr(p.Flush())
}

// readCtl bounds a generic read of untrusted input: a real reader would build the value, we only need to see it end.
type readCtl struct {
	nodes    int // nodes read so far
	maxNodes int
	depth    int
	maxDepth int
	trace    bool
	ev       []string // with trace: everything the protocol delivered, in order
	hold     bool     // keep the binary values, changed, to see that nothing changes them again
	kept     [][]byte
	sums     []string
}

// keep makes a binary value that was delivered ours: it is overwritten, and must stay so.
func (c *readCtl) keep(b []byte) {
	if !c.hold || len(b) == 0 || len(b) > 5000 || len(c.kept) >= 300 {
		return
	}
	b = b[:len(b):len(b)]
	for i := range b {
		b[i] = ^b[i]
	}
	c.kept = append(c.kept, b)
	c.sums = append(c.sums, string(b))
}

// changed says whether a value that was kept has been changed since.
func (c *readCtl) changed() string {
	for i, b := range c.kept {
		if string(b) != c.sums[i] {
			return fmt.Sprintf("binary value %d of %d bytes changed after it was delivered, at byte %d", i, len(b), commonLen(b, []byte(c.sums[i])))
		}
	}
	return ""
}

func (c *readCtl) got(f string, a ...interface{}) {
	if c.trace {
		c.ev = append(c.ev, fmt.Sprintf(f, a...))
	}
}

var errTooBig = errors.New("reader gave up: more nodes than the bound")
var errTooDeep = errors.New("reader gave up: deeper than the bound")

func (c *readCtl) node() error {
	c.nodes++
	if c.maxNodes > 0 && c.nodes > c.maxNodes {
		return errTooBig
	}
	return nil
}

// modelErr is an error our generic reader raises, as generated code would (unknown type on the wire).
type modelErr struct{ s string }

func (m *modelErr) Error() string { return m.s }

// readV reads a value of wire type t from a self-describing protocol, using only what the protocol tells it.
// hint, when not nil, says where BINARY was written (wire type STRING): it is read with ReadBinary, as generated code does.
func readV(p thrift.TProtocol, t thrift.TType, hint *V, c *readCtl) (*V, error) {
	if between != nil {
		between()
	}
	if e := c.node(); e != nil {
		return nil, e
	}
	c.depth++
	defer func() { c.depth-- }()
	if c.maxDepth > 0 && c.depth > c.maxDepth {
		return nil, errTooDeep
	}
	v := &V{T: t}
	switch t {
	case thrift.BOOL:
		x, e := p.ReadBool()
		if e != nil {
			return nil, e
		}
		if x {
			v.I = 1
		}
		c.got("bool %v", x)
	case thrift.BYTE:
		x, e := p.ReadByte()
		if e != nil {
			return nil, e
		}
		v.I = int64(x)
		c.got("int %d", x)
	case thrift.I16:
		x, e := p.ReadI16()
		if e != nil {
			return nil, e
		}
		v.I = int64(x)
		c.got("int %d", x)
	case thrift.I32:
		x, e := p.ReadI32()
		if e != nil {
			return nil, e
		}
		v.I = int64(x)
		c.got("int %d", x)
	case thrift.I64:
		x, e := p.ReadI64()
		if e != nil {
			return nil, e
		}
		v.I = x
		c.got("int %d", x)
	case thrift.DOUBLE:
		x, e := p.ReadDouble()
		if e != nil {
			return nil, e
		}
		v.D = math.Float64bits(x)
		c.got("double %x", v.D)
	case thrift.STRING:
		if hint != nil && hint.T == thrift.BINARY {
			v.T = thrift.BINARY
			x, e := p.ReadBinary()
			if e != nil {
				return nil, e
			}
			v.S = string(x)
			c.got("bin %q", x)
			c.keep(x)
		} else {
			x, e := p.ReadString()
			if e != nil {
				return nil, e
			}
			v.S = x
			c.got("str %q", x)
		}
	case thrift.STRUCT:
		if _, e := p.ReadStructBegin(); e != nil {
			return nil, e
		}
		for i := 0; ; i++ {
			name, ft, id, e := p.ReadFieldBegin()
			if e != nil {
				return nil, e
			}
			c.got("field %q %d %d", name, ft, id)
			if ft == thrift.STOP {
				break
			}
			var h *V
			if hint != nil && hint.T == thrift.STRUCT && i < len(hint.F) {
				h = hint.F[i].V
			}
			x, err := readV(p, ft, h, c)
			if err != nil {
				return nil, err
			}
			v.F = append(v.F, Fld{Name: name, ID: id, V: x})
			if e := p.ReadFieldEnd(); e != nil {
				return nil, e
			}
		}
		if e := p.ReadStructEnd(); e != nil {
			return nil, e
		}
	case thrift.MAP:
		kt, vt, n, e := p.ReadMapBegin()
		if e != nil {
			return nil, e
		}
		if n < 0 {
			return nil, &modelErr{fmt.Sprintf("NEGATIVE SIZE %d", n)}
		}
		v.KT, v.VT = kt, vt
		c.got("map %d %d %d", kt, vt, n)
		for i := 0; i < n; i++ {
			var hk, hv *V
			if hint != nil && hint.T == thrift.MAP && 2*i+1 < len(hint.L) {
				hk, hv = hint.L[2*i], hint.L[2*i+1]
			}
			k, err := readV(p, kt, hk, c)
			if err != nil {
				return nil, err
			}
			x, err := readV(p, vt, hv, c)
			if err != nil {
				return nil, err
			}
			v.L = append(v.L, k, x)
		}
		if e := p.ReadMapEnd(); e != nil {
			return nil, e
		}
	case thrift.SET, thrift.LIST:
		var et thrift.TType
		var n int
		var e thrift.TProtocolException
		if t == thrift.SET {
			et, n, e = p.ReadSetBegin()
		} else {
			et, n, e = p.ReadListBegin()
		}
		if e != nil {
			return nil, e
		}
		if n < 0 {
			return nil, &modelErr{fmt.Sprintf("NEGATIVE SIZE %d", n)}
		}
		v.VT = et
		c.got("list %d %d", et, n)
		for i := 0; i < n; i++ {
			var h *V
			if hint != nil && (hint.T == thrift.SET || hint.T == thrift.LIST) && i < len(hint.L) {
				h = hint.L[i]
			}
			x, err := readV(p, et, h, c)
			if err != nil {
				return nil, err
			}
			v.L = append(v.L, x)
		}
		if t == thrift.SET {
			e = p.ReadSetEnd()
		} else {
			e = p.ReadListEnd()
		}
		if e != nil {
			return nil, e
		}
	default:
		return nil, &modelErr{fmt.Sprintf("UNKNOWN TYPE %d", int(t))}
	}
	return v, nil
}

func readMsg(p thrift.TProtocol, hint *Msg, c *readCtl) (*Msg, error) {
	name, kind, seq, e := p.ReadMessageBegin()
	if e != nil {
		return nil, e
	}
	c.got("msg %q %d %d", name, kind, seq)
	var h *V
	if hint != nil {
		h = hint.Body
	}
	b, err := readV(p, thrift.STRUCT, h, c)
	if err != nil {
		return nil, err
	}
	if e := p.ReadMessageEnd(); e != nil {
		return nil, e
	}
	return &Msg{Name: name, Kind: kind, Seq: seq, Body: b}, nil
}

// readSchema reads the value that was written as w from a protocol that does not describe itself (simple JSON):
// the types come from w, names, sizes and element types from the wire.
func readSchema(p thrift.TProtocol, w *V, c *readCtl) (*V, error) {
	if between != nil {
		between()
	}
	if e := c.node(); e != nil {
		return nil, e
	}
	v := &V{T: w.T}
	switch w.T {
	case thrift.STRUCT:
		if _, e := p.ReadStructBegin(); e != nil {
			return nil, e
		}
		for i := 0; ; i++ {
			name, ft, _, e := p.ReadFieldBegin()
			if e != nil {
				return nil, e
			}
			c.got("field %q %d", name, ft)
			if ft == thrift.STOP {
				break
			}
			var h *V
			for _, f := range w.F {
				if f.Name == name {
					h = f.V
				}
			}
			if h == nil {
				return nil, &modelErr{fmt.Sprintf("unknown field name %q", name)}
			}
			x, err := readSchema(p, h, c)
			if err != nil {
				return nil, err
			}
			v.F = append(v.F, Fld{Name: name, V: x})
			if e := p.ReadFieldEnd(); e != nil {
				return nil, e
			}
		}
		if e := p.ReadStructEnd(); e != nil {
			return nil, e
		}
	case thrift.MAP:
		kt, vt, n, e := p.ReadMapBegin()
		if e != nil {
			return nil, e
		}
		v.KT, v.VT = kt, vt
		c.got("map %d %d %d", kt, vt, n)
		for i := 0; i < n; i++ {
			if 2*i+1 >= len(w.L) {
				return nil, &modelErr{fmt.Sprintf("map larger than written: %d", n)}
			}
			k, err := readSchema(p, w.L[2*i], c)
			if err != nil {
				return nil, err
			}
			x, err := readSchema(p, w.L[2*i+1], c)
			if err != nil {
				return nil, err
			}
			v.L = append(v.L, k, x)
		}
		if e := p.ReadMapEnd(); e != nil {
			return nil, e
		}
	case thrift.SET, thrift.LIST:
		var et thrift.TType
		var n int
		var e thrift.TProtocolException
		if w.T == thrift.SET {
			et, n, e = p.ReadSetBegin()
		} else {
			et, n, e = p.ReadListBegin()
		}
		if e != nil {
			return nil, e
		}
		v.VT = et
		c.got("list %d %d", et, n)
		for i := 0; i < n; i++ {
			if i >= len(w.L) {
				return nil, &modelErr{fmt.Sprintf("container larger than written: %d", n)}
			}
			x, err := readSchema(p, w.L[i], c)
			if err != nil {
				return nil, err
			}
			v.L = append(v.L, x)
		}
		if w.T == thrift.SET {
			e = p.ReadSetEnd()
		} else {
			e = p.ReadListEnd()
		}
		if e != nil {
			return nil, e
		}
	default:
		return readV(p, wireT(w.T), w, c)
	}
	return v, nil
}

func readMsgSchema(p thrift.TProtocol, w *Msg, c *readCtl) (*Msg, error) {
	name, kind, seq, e := p.ReadMessageBegin()
	if e != nil {
		return nil, e
	}
	c.got("msg %q %d %d", name, kind, seq)
	b, err := readSchema(p, w.Body, c)
	if err != nil {
		return nil, err
	}
	if e := p.ReadMessageEnd(); e != nil {
		return nil, e
	}
	return &Msg{Name: name, Kind: kind, Seq: seq, Body: b}, nil
}
