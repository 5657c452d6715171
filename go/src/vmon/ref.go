package main

import (
	"encoding/binary"
	"errors"
	"math"
	"thrift"
)

// Reference encoders and decoders for the binary and compact encodings, written from the published specifications and
// sharing nothing with the library but its type constants.

// binEnc encodes in the binary protocol.
type binEnc struct {
	b      []byte
	strict bool
	r      *Rng // when set, choose among the encodings the specification allows
}

func (e *binEnc) i32(n int32) { e.b = binary.BigEndian.AppendUint32(e.b, uint32(n)) }

func (e *binEnc) msg(m *Msg) {
	if e.strict {
		e.i32(int32(uint32(0x80010000) | uint32(m.Kind)))
		e.str(m.Name)
		e.i32(m.Seq)
	} else {
		e.str(m.Name)
		e.b = append(e.b, byte(m.Kind))
		e.i32(m.Seq)
	}
	e.val(m.Body)
}

func (e *binEnc) str(s string) { e.i32(int32(len(s))); e.b = append(e.b, s...) }

func (e *binEnc) val(v *V) {
	switch v.T {
	case thrift.BOOL, thrift.BYTE:
		e.b = append(e.b, byte(v.I))
	case thrift.I16:
		e.b = binary.BigEndian.AppendUint16(e.b, uint16(v.I))
	case thrift.I32:
		e.i32(int32(v.I))
	case thrift.I64:
		e.b = binary.BigEndian.AppendUint64(e.b, uint64(v.I))
	case thrift.DOUBLE:
		e.b = binary.BigEndian.AppendUint64(e.b, v.D)
	case thrift.STRING, thrift.BINARY:
		e.str(v.S)
	case thrift.STRUCT:
		for _, f := range v.F {
			e.b = append(e.b, byte(wireT(f.V.T)))
			e.b = binary.BigEndian.AppendUint16(e.b, uint16(f.ID))
			e.val(f.V)
		}
		e.b = append(e.b, 0)
	case thrift.MAP:
		e.b = append(e.b, byte(wireT(v.KT)), byte(wireT(v.VT)))
		e.i32(int32(len(v.L) / 2))
		for _, x := range v.L {
			e.val(x)
		}
	case thrift.SET, thrift.LIST:
		e.b = append(e.b, byte(wireT(v.VT)))
		e.i32(int32(len(v.L)))
		for _, x := range v.L {
			e.val(x)
		}
	}
}

var errRef = errors.New("reference: malformed")

// refDec is what the two reference decoders share.
type refDec struct {
	b   []byte
	pos int
	amb bool // the specification does not say what these bytes mean
}

func (d *refDec) take(n int) ([]byte, error) {
	if n < 0 || n > len(d.b)-d.pos {
		return nil, errRef
	}
	s := d.b[d.pos : d.pos+n]
	d.pos += n
	return s, nil
}

func (d *refDec) u8() (byte, error) {
	s, e := d.take(1)
	if e != nil {
		return 0, e
	}
	return s[0], nil
}

type binDec struct {
	refDec
	strictRead bool
}

func (d *binDec) i32() (int32, error) {
	s, e := d.take(4)
	if e != nil {
		return 0, e
	}
	return int32(binary.BigEndian.Uint32(s)), nil
}

func (d *binDec) str() (string, error) {
	n, e := d.i32()
	if e != nil || n < 0 {
		return "", errRef
	}
	s, e := d.take(int(n))
	return string(s), e
}

func (d *binDec) msg() (*Msg, error) {
	m := &Msg{}
	n, e := d.i32()
	if e != nil {
		return nil, e
	}
	if n < 0 {
		if uint32(n)>>16 != 0x8001 {
			return nil, errRef
		}
		if n>>8&0xff != 0 {
			d.amb = true
		}
		m.Kind = thrift.TMessageType(byte(n))
		if m.Name, e = d.str(); e != nil {
			return nil, e
		}
	} else {
		if d.strictRead {
			return nil, errRef
		}
		s, e := d.take(int(n))
		if e != nil {
			return nil, e
		}
		m.Name = string(s)
		k, e := d.u8()
		if e != nil {
			return nil, e
		}
		m.Kind = thrift.TMessageType(k)
	}
	if m.Kind < 1 || m.Kind > 4 {
		d.amb = true
	}
	if m.Seq, e = d.i32(); e != nil {
		return nil, e
	}
	m.Body, e = d.val(thrift.STRUCT)
	return m, e
}

func (d *binDec) val(t thrift.TType) (*V, error) {
	v := &V{T: t}
	switch t {
	case thrift.BOOL:
		x, e := d.u8()
		if e != nil {
			return nil, e
		}
		if x > 1 {
			d.amb = true
		}
		v.I = int64(x)
	case thrift.BYTE:
		x, e := d.u8()
		if e != nil {
			return nil, e
		}
		v.I = int64(x)
	case thrift.I16:
		s, e := d.take(2)
		if e != nil {
			return nil, e
		}
		v.I = int64(int16(binary.BigEndian.Uint16(s)))
	case thrift.I32:
		x, e := d.i32()
		if e != nil {
			return nil, e
		}
		v.I = int64(x)
	case thrift.I64:
		s, e := d.take(8)
		if e != nil {
			return nil, e
		}
		v.I = int64(binary.BigEndian.Uint64(s))
	case thrift.DOUBLE:
		s, e := d.take(8)
		if e != nil {
			return nil, e
		}
		v.D = binary.BigEndian.Uint64(s)
	case thrift.STRING:
		s, e := d.str()
		if e != nil {
			return nil, e
		}
		v.S = s
	case thrift.STRUCT:
		for {
			ft, e := d.u8()
			if e != nil {
				return nil, e
			}
			if ft == 0 {
				return v, nil
			}
			s, e := d.take(2)
			if e != nil {
				return nil, e
			}
			x, e := d.val(thrift.TType(ft))
			if e != nil {
				return nil, e
			}
			v.F = append(v.F, Fld{ID: int16(binary.BigEndian.Uint16(s)), V: x})
		}
	case thrift.MAP:
		s, e := d.take(2)
		if e != nil {
			return nil, e
		}
		v.KT, v.VT = thrift.TType(s[0]), thrift.TType(s[1])
		n, e := d.i32()
		if e != nil || n < 0 {
			return nil, errRef
		}
		for i := 0; i < int(n); i++ {
			k, e := d.val(v.KT)
			if e != nil {
				return nil, e
			}
			x, e := d.val(v.VT)
			if e != nil {
				return nil, e
			}
			v.L = append(v.L, k, x)
		}
	case thrift.SET, thrift.LIST:
		et, e := d.u8()
		if e != nil {
			return nil, e
		}
		v.VT = thrift.TType(et)
		n, e := d.i32()
		if e != nil || n < 0 {
			return nil, errRef
		}
		for i := 0; i < int(n); i++ {
			x, e := d.val(v.VT)
			if e != nil {
				return nil, e
			}
			v.L = append(v.L, x)
		}
	default:
		switch t {
		case thrift.VOID, thrift.UTF8, thrift.UTF16, thrift.BINARY, thrift.GENERIC:
			d.amb = true // type codes of this library that the specification does not have on the wire
		}
		return nil, errRef
	}
	return v, nil
}

// ---------------------------------------------------------------- compact

var compactCode = map[thrift.TType]byte{thrift.BOOL: 1, thrift.BYTE: 3, thrift.I16: 4, thrift.I32: 5, thrift.I64: 6, thrift.DOUBLE: 7,
	thrift.STRING: 8, thrift.LIST: 9, thrift.SET: 10, thrift.MAP: 11, thrift.STRUCT: 12}
var compactType = map[byte]thrift.TType{1: thrift.BOOL, 2: thrift.BOOL, 3: thrift.BYTE, 4: thrift.I16, 5: thrift.I32, 6: thrift.I64,
	7: thrift.DOUBLE, 8: thrift.STRING, 9: thrift.LIST, 10: thrift.SET, 11: thrift.MAP, 12: thrift.STRUCT}

// compEnc encodes in the compact protocol.
type compEnc struct {
	b         []byte
	r         *Rng
	boolElem  byte // type code of boolean elements: 1 or 2
	falseElem byte // a false element: 2 or 0
}

func (e *compEnc) alt(pct int) bool { return e.r != nil && e.r.P(pct) }

func (e *compEnc) uvar(n uint64) { e.b = binary.AppendUvarint(e.b, n) }
func (e *compEnc) zig(n int64)   { e.uvar(uint64(n<<1) ^ uint64(n>>63)) }
func (e *compEnc) str(s string)  { e.uvar(uint64(len(s))); e.b = append(e.b, s...) }

func (e *compEnc) msg(m *Msg) {
	e.b = append(e.b, 0x82, byte(m.Kind)<<5|1)
	e.uvar(uint64(uint32(m.Seq)))
	e.str(m.Name)
	e.val(m.Body)
}

func (e *compEnc) code(t thrift.TType) byte {
	t = wireT(t)
	if t == thrift.BOOL {
		if e.r != nil {
			return byte(1 + e.r.Intn(2))
		}
		return e.boolElem
	}
	return compactCode[t]
}

func (e *compEnc) val(v *V) {
	switch v.T {
	case thrift.BOOL:
		if v.I != 0 {
			e.b = append(e.b, 1)
		} else if e.r != nil {
			e.b = append(e.b, []byte{0, 2}[e.r.Intn(2)])
		} else {
			e.b = append(e.b, e.falseElem)
		}
	case thrift.BYTE:
		e.b = append(e.b, byte(v.I))
	case thrift.I16, thrift.I32, thrift.I64:
		e.zig(v.I)
	case thrift.DOUBLE:
		e.b = binary.LittleEndian.AppendUint64(e.b, v.D)
	case thrift.STRING, thrift.BINARY:
		e.str(v.S)
	case thrift.STRUCT:
		last := 0
		for _, f := range v.F {
			c := compactCode[wireT(f.V.T)]
			if f.V.T == thrift.BOOL && f.V.I == 0 {
				c = 2
			}
			if d := int(f.ID) - last; d > 0 && d <= 15 && !e.alt(30) {
				e.b = append(e.b, byte(d)<<4|c)
			} else {
				e.b = append(e.b, c)
				e.zig(int64(f.ID))
			}
			last = int(f.ID)
			if f.V.T != thrift.BOOL {
				e.val(f.V)
			}
		}
		e.b = append(e.b, 0)
	case thrift.MAP:
		n := len(v.L) / 2
		e.uvar(uint64(n))
		if n > 0 {
			e.b = append(e.b, e.code(v.KT)<<4|e.code(v.VT))
		}
		for _, x := range v.L {
			e.val(x)
		}
	case thrift.SET, thrift.LIST:
		if len(v.L) < 15 && !e.alt(30) {
			e.b = append(e.b, byte(len(v.L))<<4|e.code(v.VT))
		} else {
			e.b = append(e.b, 0xf0|e.code(v.VT))
			e.uvar(uint64(len(v.L)))
		}
		for _, x := range v.L {
			e.val(x)
		}
	}
}

type compDec struct{ refDec }

func (d *compDec) uvar(max uint64) (uint64, error) {
	var n uint64
	for i := 0; ; i++ {
		x, e := d.u8()
		if e != nil {
			return 0, e
		}
		if i > 9 || i == 9 && x > 1 {
			return 0, errRef
		}
		n |= uint64(x&0x7f) << uint(7*i)
		if x < 0x80 {
			break
		}
	}
	if n > max {
		return 0, errRef
	}
	return n, nil
}

func unzig(n uint64) int64 { return int64(n>>1) ^ -int64(n&1) }

func (d *compDec) size() (int, error) {
	n, e := d.uvar(math.MaxInt32)
	return int(n), e
}

func (d *compDec) str() (string, error) {
	n, e := d.size()
	if e != nil {
		return "", e
	}
	s, e := d.take(n)
	return string(s), e
}

func (d *compDec) msg() (*Msg, error) {
	s, e := d.take(1)
	if e != nil || s[0] != 0x82 {
		return nil, errRef
	}
	s, e = d.take(1)
	if e != nil || s[0]&0x1f != 1 {
		return nil, errRef
	}
	m := &Msg{Kind: thrift.TMessageType(s[0] >> 5)}
	if m.Kind < 1 || m.Kind > 4 {
		d.amb = true
	}
	q, e := d.uvar(math.MaxUint32)
	if e != nil {
		return nil, e
	}
	m.Seq = int32(uint32(q))
	if m.Name, e = d.str(); e != nil {
		return nil, e
	}
	m.Body, e = d.val(thrift.STRUCT)
	return m, e
}

func (d *compDec) typ(c byte) (thrift.TType, error) {
	if c == 0 {
		return thrift.STOP, nil
	}
	t, ok := compactType[c]
	if !ok {
		return 0, errRef
	}
	return t, nil
}

func (d *compDec) zig(max uint64) (int64, error) {
	n, e := d.uvar(max)
	return unzig(n), e
}

func (d *compDec) val(t thrift.TType) (*V, error) {
	v := &V{T: t}
	var e error
	switch t {
	case thrift.BOOL:
		x, e := d.u8()
		if e != nil {
			return nil, e
		}
		if x > 2 {
			d.amb = true
		}
		if x == 1 {
			v.I = 1
		}
	case thrift.BYTE:
		x, e := d.u8()
		if e != nil {
			return nil, e
		}
		v.I = int64(x)
	case thrift.I16:
		// the specification sends an i16 as an i32; one outside the range of i16 is not a value of this type
		if v.I, e = d.zig(math.MaxUint32); e != nil || v.I != int64(int16(v.I)) {
			return nil, errRef
		}
	case thrift.I32:
		if v.I, e = d.zig(math.MaxUint32); e != nil {
			return nil, e
		}
	case thrift.I64:
		if v.I, e = d.zig(math.MaxUint64); e != nil {
			return nil, e
		}
	case thrift.DOUBLE:
		s, e := d.take(8)
		if e != nil {
			return nil, e
		}
		v.D = binary.LittleEndian.Uint64(s)
	case thrift.STRING:
		if v.S, e = d.str(); e != nil {
			return nil, e
		}
	case thrift.STRUCT:
		last := 0
		for {
			h, e := d.u8()
			if e != nil {
				return nil, e
			}
			if h&0xf == 0 {
				if h != 0 {
					d.amb = true
				}
				return v, nil
			}
			if h>>4 == 0 {
				n, e := d.zig(math.MaxUint32)
				if e != nil || n != int64(int16(n)) {
					return nil, errRef
				}
				last = int(n)
			} else {
				last += int(h >> 4)
				if last > math.MaxInt16 {
					d.amb = true
					last = int(int16(last))
				}
			}
			ft, e := d.typ(h & 0xf)
			if e != nil {
				return nil, e
			}
			var x *V
			if ft == thrift.BOOL {
				x = &V{T: thrift.BOOL}
				if h&0xf == 1 {
					x.I = 1
				}
			} else if x, e = d.val(ft); e != nil {
				return nil, e
			}
			v.F = append(v.F, Fld{ID: int16(last), V: x})
		}
	case thrift.MAP:
		n, e := d.size()
		if e != nil {
			return nil, e
		}
		if n == 0 {
			return v, nil
		}
		h, e := d.u8()
		if e != nil {
			return nil, e
		}
		if v.KT, e = d.typ(h >> 4); e != nil {
			return nil, e
		}
		if v.VT, e = d.typ(h & 0xf); e != nil {
			return nil, e
		}
		for i := 0; i < n; i++ {
			k, e := d.val(v.KT)
			if e != nil {
				return nil, e
			}
			x, e := d.val(v.VT)
			if e != nil {
				return nil, e
			}
			v.L = append(v.L, k, x)
		}
	case thrift.SET, thrift.LIST:
		h, e := d.u8()
		if e != nil {
			return nil, e
		}
		n := int(h >> 4)
		if n == 15 {
			if n, e = d.size(); e != nil {
				return nil, e
			}
		}
		if v.VT, e = d.typ(h & 0xf); e != nil {
			return nil, e
		}
		for i := 0; i < n; i++ {
			x, e := d.val(v.VT)
			if e != nil {
				return nil, e
			}
			v.L = append(v.L, x)
		}
	default:
		switch t {
		case thrift.VOID, thrift.UTF8, thrift.UTF16, thrift.BINARY, thrift.GENERIC:
			d.amb = true // type codes of this library that the specification does not have on the wire
		}
		return nil, errRef
	}
	return v, nil
}

// refMsg decodes one message with the reference decoder of the protocol: value, bytes used, whether the bytes are
// ambiguous, and whether they are a message at all.
func refMsg(p *Proto, b []byte) (m *Msg, used int, amb bool, err error) {
	switch p {
	case pCompact, pCompactFac:
		d := &compDec{refDec{b: b}}
		m, err = d.msg()
		return m, d.pos, d.amb, err
	case pBinaryLax, pBinaryFac, pBinaryDef:
		d := &binDec{refDec: refDec{b: b}}
		m, err = d.msg()
		return m, d.pos, d.amb, err
	}
	d := &binDec{refDec: refDec{b: b}, strictRead: true}
	m, err = d.msg()
	return m, d.pos, d.amb, err
}

func refVal(p *Proto, t thrift.TType, b []byte) (v *V, used int, amb bool, err error) {
	switch p {
	case pCompact, pCompactFac:
		d := &compDec{refDec{b: b}}
		v, err = d.val(t)
		return v, d.pos, d.amb, err
	}
	d := &binDec{refDec: refDec{b: b}}
	v, err = d.val(t)
	return v, d.pos, d.amb, err
}
