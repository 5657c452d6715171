package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"strings"
	"thrift"
)

func init() { props["C13"] = framedChecks }

func frame(b []byte) []byte { return append(binary.BigEndian.AppendUint32(nil, uint32(len(b))), b...) }

// chunk sizes around the internal buffer sizes of the transports
func (r *Rng) chunk(max int) int {
	var n int
	switch r.Intn(8) {
	case 0:
		n = 0
	case 1, 2:
		n = 1 + r.Intn(4)
	case 3, 4:
		n = r.Intn(300)
	case 5:
		b := []int{255, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536}
		n = b[r.Intn(len(b))] + r.Intn(5) - 2
	case 6:
		n = r.Intn(5000)
	default:
		n = 1 + r.Intn(40)
	}
	if n > max {
		n = r.Intn(max + 1)
	}
	return n
}

func framedOver(r *Rng, x *XT) (thrift.TTransport, string) {
	switch r.Intn(4) {
	case 0:
		return thrift.NewTFramedTransportFactory(thrift.NewTTransportFactory()).GetTransport(x), "factory"
	case 1:
		return thrift.NewTFramedTransportFactory(identityFactory{}).GetTransport(x), "factory-own"
	}
	return thrift.NewTFramedTransport(x), "new"
}

type identityFactory struct{}

func (identityFactory) GetTransport(t thrift.TTransport) thrift.TTransport { return t }

// writeScribbled writes b from a buffer that is overwritten right afterwards: a transport must not keep it.
func writeScribbled(tr thrift.TTransport, b []byte) (int, error) {
	c := append([]byte(nil), b...)
	n, e := tr.Write(c)
	for i := range c {
		c[i] = 0xEE
	}
	return n, e
}

func framedChecks(r *Run) {
	// writing: after every call the sink holds exactly the frames flushed so far
	r.Cases("write", r.N(1500, 30000), func(t *T) {
		x := NewXT(nil)
		w, how := framedOver(t.R, x)
		max := 5000
		if t.R.P(5) {
			max = 200000
			if t.R.P(20) {
				max = 3 << 20
			}
		}
		var want, pend []byte
		var pos []int
		var ops []string
		t.Desc(func() string { return how + ": " + strings.Join(ops, " ") })
		h := uint64(7)
		for i, n := 0, 1+t.R.Intn(25); i < n; i++ {
			if t.R.P(30) {
				ops = append(ops, "flush")
				if e := w.Flush(); e != nil {
					t.Fail("flush failed: %v", e)
					return
				}
				want = append(want, frame(pend)...)
				h = h*31 + uint64(len(pend)) + 1
				pend = nil
				pos = append(pos, len(want))
				t.Count("frames_written", 1)
			} else {
				b := t.R.Bytes(t.R.chunk(max))
				ops = append(ops, fmt.Sprintf("write(%d)", len(b)))
				k, e := writeScribbled(w, b)
				if e != nil || k != len(b) {
					t.Fail("write of %d bytes returned %d, %v", len(b), k, e)
					return
				}
				pend = append(pend, b...)
				h = h*31 + uint64(len(b))*2
			}
			if !bytes.Equal(x.Sink.buf, want) {
				t.Fail("after %s the stream differs from the frames flushed at byte %d (%d bytes instead of %d)", ops[len(ops)-1], commonLen(want, x.Sink.buf), len(x.Sink.buf), len(want))
				return
			}
			if fmt.Sprint(x.flushPos) != fmt.Sprint(pos) {
				t.Fail("the underlying transport was flushed at %v instead of %v", x.flushPos, pos)
				return
			}
		}
		t.Seen(h)
	})
	// reading: any read sizes give the concatenation, each frame being fetched only when it is needed
	r.Cases("read", r.N(2500, 60000), func(t *T) {
		var in, want []byte
		var ends []int   // stream offset after each frame
		var starts []int // content offset where each frame starts
		nf := 1 + t.R.Intn(6)
		max := 3000
		if t.R.P(6) {
			max = 300000
		}
		h := uint64(11)
		for i := 0; i < nf; i++ {
			b := t.R.Bytes(t.R.chunk(max))
			if t.R.P(10) {
				b = nil
			}
			if t.R.P(10) { // content that looks like a frame header
				b = append([]byte{0, 0, 0, byte(t.R.Intn(9))}, b...)
			}
			starts = append(starts, len(want))
			in = append(in, frame(b)...)
			want = append(want, b...)
			ends = append(ends, len(in))
			h = h*31 + uint64(len(b))
		}
		x := NewXT(in)
		x.frag = pickFrag(t.R, x.Src, len(in))
		x.eofWith = t.R.Bool()
		rd, how := framedOver(t.R, x)
		var ops []string
		t.Desc(func() string {
			return fmt.Sprintf("%s, frames ending at %v of %d content bytes: %s", how, ends, len(want), strings.Join(ops, " "))
		})
		got := 0
		zero := 0
		for step := 0; step < 100000; step++ {
			n := t.R.chunk(max)
			all := t.R.P(40)
			if len(ops) < 200 {
				ops = append(ops, fmt.Sprintf("%s(%d)", map[bool]string{true: "readall", false: "read"}[all], n))
			}
			buf := make([]byte, n+3)
			for i := range buf {
				buf[i] = 0xA5
			}
			var k int
			var e error
			if all {
				k, e = rd.ReadAll(buf[:n])
			} else {
				k, e = rd.Read(buf[:n])
			}
			h = h*31 + uint64(n)
			if k < 0 || k > n {
				t.Fail("a read of %d bytes reports %d", n, k)
				return
			}
			for i := k; i < len(buf); i++ {
				if buf[i] != 0xA5 {
					t.Fail("a read of %d bytes that reports %d changed byte %d of the buffer", n, k, i)
					return
				}
			}
			left := len(want) - got
			if k > left || !bytes.Equal(buf[:k], want[got:got+k]) {
				t.Fail("content differs at byte %d", got+commonLen(want[got:], buf[:k]))
				return
			}
			got += k
			if all && n <= left && (e != nil || k != n) || all && n > left && (e == nil || k != left) {
				t.Fail("readall(%d) with %d bytes left returned %d, %v", n, left, k, e)
				return
			}
			if !all && left > 0 && n > 0 && (k == 0 || e != nil) {
				t.Fail("read(%d) with %d bytes left returned %d, %v", n, left, k, e)
				return
			}
			if !all && left == 0 && n > 0 && e == nil {
				t.Fail("read(%d) after the last frame returned %d without an error", n, k)
				return
			}
			// nothing beyond the frame that holds the last byte delivered may have been fetched
			if e == nil && k > 0 {
				f := 0
				for f+1 < nf && starts[f+1] < got {
					f++
				}
				if x.Src.pos > ends[f] {
					t.Fail("after %d content bytes the reader is at stream byte %d, beyond the frame that ends at %d", got, x.Src.pos, ends[f])
					return
				}
			}
			t.Count("reads_checked", 1)
			if e != nil {
				if te, ok := e.(thrift.TTransportException); !ok || te.TypeId() != thrift.END_OF_FILE {
					t.Fail("the end of the stream is reported as %T %v", e, e)
				}
				break
			}
			if n == 0 {
				if zero++; zero > 1000 {
					break
				}
			}
		}
		t.Seen(h)
	})
	// large frames
	r.Cases("huge", r.N(1, 2), func(t *T) {
		n := 17<<20 + t.R.Intn(20<<20)
		t.Desc(func() string { return fmt.Sprintf("a frame of %d bytes", n) })
		b := bytes.Repeat(t.R.Bytes(4099), n/4099+1)[:n]
		x := NewXT(nil)
		w := thrift.NewTFramedTransport(x)
		for c := 0; c < n; {
			m := n - c
			if m > 1<<20 && t.R.P(80) {
				m = 1 + t.R.Intn(4<<20)
				if m > n-c {
					m = n - c
				}
			}
			if k, e := w.Write(b[c : c+m]); k != m || e != nil {
				t.Fail("write of %d bytes returned %d, %v", m, k, e)
				return
			}
			c += m
		}
		if e := w.Flush(); e != nil {
			t.Fail("flush: %v", e)
			return
		}
		if f := frame(b); !bytes.Equal(x.Sink.buf, f) {
			t.Fail("the stream of %d bytes differs from the frame of %d at byte %d", len(x.Sink.buf), len(f), commonLen(f, x.Sink.buf))
			return
		}
		rd := thrift.NewTFramedTransport(NewXT(append(x.Sink.buf, frame([]byte("next"))...)))
		got := make([]byte, n+4)
		if k, e := rd.ReadAll(got); k != n+4 || e != nil {
			t.Fail("readall of %d bytes returned %d, %v", n+4, k, e)
			return
		}
		if !bytes.Equal(got[:n], b) || string(got[n:]) != "next" {
			t.Fail("content differs at byte %d", commonLen(b, got))
		}
		t.Count("huge_frames", 1)
		t.Seen(uint64(n))
	})
	// reading and writing through one transport do not meet, and two transports share nothing
	r.Cases("duplex", r.N(400, 8000), func(t *T) {
		type side struct {
			x              *XT
			tr             thrift.TTransport
			in, out, pend  []byte
			content        []byte
			got            int
			written, reads int
		}
		var s [2]*side
		for i := range s {
			c := &side{}
			for f := 0; f < 1+t.R.Intn(4); f++ {
				b := t.R.Bytes(t.R.chunk(2000))
				c.in = append(c.in, frame(b)...)
				c.content = append(c.content, b...)
			}
			c.x = NewXT(c.in)
			c.x.frag = pickFrag(t.R, c.x.Src, len(c.in))
			c.tr, _ = framedOver(t.R, c.x)
			s[i] = c
		}
		h := uint64(3)
		for i, n := 0, 10+t.R.Intn(40); i < n; i++ {
			w := t.R.Intn(2)
			c := s[w]
			op := t.R.Intn(3)
			h = h*31 + uint64(op*2+w)
			switch op {
			case 0:
				b := t.R.Bytes(t.R.chunk(500))
				writeScribbled(c.tr, b)
				c.pend = append(c.pend, b...)
			case 1:
				if e := c.tr.Flush(); e != nil {
					t.Fail("flush failed: %v", e)
					return
				}
				c.out = append(c.out, frame(c.pend)...)
				c.pend = nil
			case 2:
				buf := make([]byte, 1+t.R.chunk(700))
				k, e := c.tr.Read(buf)
				if c.got < len(c.content) && (e != nil || k == 0) {
					t.Fail("transport %d: read failed with %d bytes left: %v", w, len(c.content)-c.got, e)
					return
				}
				if c.got+k > len(c.content) || !bytes.Equal(buf[:k], c.content[c.got:c.got+k]) {
					t.Fail("transport %d: content differs after byte %d", w, c.got)
					return
				}
				c.got += k
				t.Count("reads_checked", 1)
			}
			for j := range s {
				if !bytes.Equal(s[j].x.Sink.buf, s[j].out) {
					t.Fail("transport %d: the stream differs from the frames flushed", j)
					return
				}
			}
		}
		t.Seen(h)
	})
	// a frame cut short anywhere, negative lengths, errors of the underlying transport
	r.Cases("cut", r.N(1500, 30000), func(t *T) {
		var in, want []byte
		ends := map[int]int{0: 0}
		for i, nf := 0, 1+t.R.Intn(4); i < nf; i++ {
			b := t.R.Bytes(t.R.chunk(600))
			in = append(in, frame(b)...)
			want = append(want, b...)
			ends[len(in)] = len(want)
		}
		cut := t.R.Intn(len(in))
		x := NewXT(in[:cut])
		x.frag = pickFrag(t.R, x.Src, len(in))
		x.eofWith = t.R.Bool()
		boom := errors.New("the wire broke")
		if t.R.Bool() {
			x.endErr = boom
		}
		rd, _ := framedOver(t.R, x)
		t.Desc(func() string { return fmt.Sprintf("frames ending at %v, cut at %d", ends, cut) })
		var got []byte
		var e error
		for i := 0; i < 100000 && e == nil; i++ {
			buf := make([]byte, 1+t.R.chunk(400))
			var k int
			if t.R.P(30) {
				k, e = rd.ReadAll(buf)
			} else {
				k, e = rd.Read(buf)
			}
			got = append(got, buf[:k]...)
		}
		if e == nil {
			t.Fail("no error at the end of a cut stream")
			return
		}
		if k := commonLen(want, got); k != len(got) {
			t.Fail("content differs at byte %d", k)
			return
		}
		whole := 0
		for end, c := range ends {
			if end <= cut && c > whole {
				whole = c
			}
		}
		if len(got) < whole {
			t.Fail("only %d of the %d bytes of complete frames were delivered", len(got), whole)
			return
		}
		if x.endErr != nil && !strings.Contains(e.Error(), boom.Error()) {
			t.Fail("the underlying error is reported as %q", e)
			return
		}
		// and it stays an error
		if k, e := rd.Read(make([]byte, 4)); e == nil {
			t.Fail("a read after the error returned %d bytes without an error", k)
		}
		t.Count("cuts", 1)
		t.Seen(uint64(cut)*1000003 + uint64(len(in)))
	})
	negs := []uint32{0x80000000, 0x80000001, 0xffffffff, 0xfffffffe, 0x80010001, 0xdeadbeef, 0xff000000}
	r.Cases("negative", len(negs)*3, func(t *T) {
		n := negs[t.Idx/3]
		pre := t.R.Bytes(t.R.Intn(3) * 5)
		var in []byte
		if len(pre) > 0 {
			in = frame(pre)
		}
		in = binary.BigEndian.AppendUint32(in, n)
		in = append(in, t.R.Bytes(5000)...)
		x := NewXT(in)
		rd, _ := framedOver(t.R, x)
		t.Desc(func() string { return fmt.Sprintf("frame length %08x after %d bytes", n, len(pre)) })
		if len(pre) > 0 {
			if _, e := rd.ReadAll(make([]byte, len(pre))); e != nil {
				t.Fail("the frame before was not read: %v", e)
				return
			}
		}
		buf := make([]byte, 10)
		var k int
		var e error
		switch t.Idx % 3 {
		case 0:
			k, e = rd.Read(buf)
		case 1:
			k, e = rd.ReadAll(buf)
		case 2:
			k, e = rd.ReadAll(buf[:1])
		}
		if e == nil || k != 0 {
			t.Fail("returned %d bytes, error %v", k, e)
		}
		t.Count("negative_lengths", 1)
		t.Seen(uint64(n) + uint64(len(pre)))
	})
	// every call on the underlying transport fails in turn
	r.Cases("fault", r.N(800, 15000), func(t *T) {
		boom := errors.New("underlying fault 4711")
		var parts [][]byte
		for i, n := 0, 1+t.R.Intn(5); i < n; i++ {
			parts = append(parts, t.R.Bytes(t.R.chunk(3000)))
		}
		probe := NewXT(nil)
		w, _ := framedOver(NewRng(1), probe)
		run := func(w thrift.TTransport) error {
			for i, b := range parts {
				if _, e := w.Write(b); e != nil {
					return e
				}
				if i%2 == 1 {
					if e := w.Flush(); e != nil {
						return e
					}
				}
			}
			return w.Flush()
		}
		if e := run(w); e != nil {
			t.Fail("failed without a fault: %v", e)
			return
		}
		for k := 1; k <= probe.calls; k++ {
			x := NewXT(nil)
			x.Sink.failAt, x.Sink.failErr, x.Sink.short = k, boom, t.R.Intn(5)
			w, _ := framedOver(t.R, x)
			e := run(w)
			if e == nil {
				t.Fail("call %d of the underlying transport failed and no error was reported", k)
				return
			}
			if !strings.Contains(e.Error(), boom.Error()) {
				t.Fail("the fault at call %d is reported as %q", k, e)
				return
			}
			t.Count("write_faults", 1)
			t.Seen(uint64(k)*7919 + uint64(len(parts)))
		}
		// reading
		var in, want []byte
		for _, b := range parts {
			in = append(in, frame(b)...)
			want = append(want, b...)
		}
		seed := t.R.U64()
		total := 1
		for k := 0; k < total && k < 40; k++ {
			x := NewXT(in)
			x.frag = fragRandom(NewRng(seed))
			if len(in) > 2000 {
				x.frag = fragAll
			}
			x.Src.failAt, x.Src.failErr = k, boom
			rd, _ := framedOver(t.R, x)
			got := make([]byte, len(want))
			n, e := rd.ReadAll(got)
			if n > len(want) || !bytes.Equal(got[:n], want[:n]) {
				t.Fail("content differs when read %d fails", k)
				return
			}
			if k == 0 {
				total = x.reads + 1
				continue
			}
			if e == nil && n < len(want) || e == nil && x.reads >= k {
				t.Fail("read %d of the underlying transport failed, %d of %d bytes were returned and no error was reported", k, n, len(want))
				return
			}
			if e != nil && !strings.Contains(e.Error(), boom.Error()) {
				t.Fail("the fault at read %d is reported as %q", k, e)
				return
			}
			t.Count("read_faults", 1)
		}
	})
	// frames inside frames, and whole messages of every protocol between framed transports
	r.Cases("nested", r.N(300, 5000), func(t *T) {
		x := NewXT(nil)
		w := thrift.NewTFramedTransport(thrift.NewTFramedTransport(x))
		var want, content []byte
		for i, n := 0, 1+t.R.Intn(5); i < n; i++ {
			b := t.R.Bytes(t.R.chunk(3000))
			writeScribbled(w, b)
			if e := w.Flush(); e != nil {
				t.Fail("flush: %v", e)
				return
			}
			want = append(want, frame(frame(b))...)
			content = append(content, b...)
		}
		if !bytes.Equal(x.Sink.buf, want) {
			t.Fail("nested frames differ at byte %d", commonLen(want, x.Sink.buf))
			return
		}
		x.Src.data = x.Sink.buf
		x.frag = pickFrag(t.R, x.Src, len(want))
		rd := thrift.NewTFramedTransport(thrift.NewTFramedTransport(x))
		got := make([]byte, len(content))
		if n, e := rd.ReadAll(got); e != nil || !bytes.Equal(got, content) {
			t.Fail("reading nested frames: %d of %d bytes, %v", n, len(content), e)
			return
		}
		t.Count("frames_written", 1)
		t.Seen(hashBytes(want[:8]) + uint64(len(want)))
	})
}

func commonLen(a, b []byte) int {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	return n
}

func pickFrag(r *Rng, s *Src, n int) Frag {
	switch r.Intn(4) {
	case 0:
		if n < 20000 {
			return fragOne
		}
		return fragAll
	case 1:
		return fragAll
	case 2:
		return fragAt(s, []int{r.Intn(n + 1), 4, 3, 1})
	}
	if n > 50000 {
		return fragAll
	}
	return fragRandom(NewRng(r.U64()))
}
