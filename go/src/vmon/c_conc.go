package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"runtime"
	"simple"
	"sort"
	"strings"
	"sync"
	"thrift"
)

func init() { props["C28"] = concChecks }

// yielding lets other goroutines run at every call on a transport.
type yielding struct {
	thrift.TTransport
	r *Rng
}

func (y yielding) Read(p []byte) (int, error) {
	if y.r.P(30) {
		runtime.Gosched()
	}
	return y.TTransport.Read(p)
}
func (y yielding) ReadAll(p []byte) (int, error) { return thrift.ReadAllTransport(y, p) }
func (y yielding) Write(p []byte) (int, error) {
	if y.r.P(30) {
		runtime.Gosched()
	}
	return y.TTransport.Write(p)
}

// kit is what goroutines share: factories and values nobody changes.
type kit struct {
	p    *Proto
	tfac thrift.TTransportFactory
	pfac thrift.TProtocolFactory
	proc thrift.TProcessor
	pf   thrift.TProcessorFactory
}

func guard(f func() string) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s += fmt.Sprintf(" panic %v", e)
		}
	}()
	return f()
}

func hexOf(b []byte) string { return fmt.Sprintf("%d:%x", len(b), hashBytes(b)) }

// jobs have a result that follows from the generator they are given; each uses objects of its own.
var jobs = []struct {
	name string
	f    func(r *Rng, k *kit) string
}{
	{"messages", func(r *Rng, k *kit) string {
		g := newGen(r, k.p.genOpt())
		var out []string
		mem := thrift.NewTMemoryBuffer()
		pr := k.pfac.GetProtocol(k.tfac.GetTransport(yielding{mem, r}))
		var ms []*Msg
		for i := 0; i < 2; i++ {
			ms = append(ms, g.msg())
			if e := writeMsg(pr, ms[i]); e != nil {
				return e.Error()
			}
			pr.Transport().Flush()
		}
		out = append(out, hexOf(mem.Bytes()))
		c := readCtl{trace: true, maxNodes: 20000, maxDepth: 500}
		back := k.pfac.GetProtocol(k.tfac.GetTransport(yielding{memOf(append([]byte{}, mem.Bytes()...)), r}))
		for i := 0; i < 2; i++ {
			m, e := k.p.readMsg(back, ms[i], &c)
			out = append(out, fmt.Sprint(m, errType(e)))
		}
		return strings.Join(out, "|") + strings.Join(c.ev, ";")
	}},
	{"damaged", func(r *Rng, k *kit) string {
		g := newGen(r, k.p.genOpt())
		v := g.value(thrift.STRUCT, 2)
		b, e := k.p.encodeV(v)
		if e != nil {
			return e.Error()
		}
		b = mutate(r, b, b)
		c := readCtl{trace: true, maxNodes: 20000, maxDepth: 500}
		_, e = k.p.readV(k.pfac.GetProtocol(yielding{memOf(b), r}), v, &c)
		s := fmt.Sprint(errType(e), e)
		if !k.p.Schema {
			e := k.pfac.GetProtocol(yielding{memOf(b), r}).Skip(thrift.STRUCT)
			s += fmt.Sprint(errType(nilErr(e)), e)
		}
		return s + strings.Join(c.ev, ";")
	}},
	{"scalars", func(r *Rng, k *kit) string {
		g := newGen(r, k.p.genOpt())
		var out []string
		for i := 0; i < 8; i++ {
			t := []thrift.TType{thrift.BOOL, thrift.BYTE, thrift.I16, thrift.I32, thrift.I64, thrift.DOUBLE, thrift.STRING, thrift.BINARY}[i]
			v := &V{T: thrift.STRUCT, F: []Fld{{Name: "a", ID: 1, V: g.scalar(t)}}}
			b, e := k.p.encodeV(v)
			out = append(out, string(b), fmt.Sprint(e))
			c := readCtl{maxNodes: 100, maxDepth: 10}
			w, e := k.p.readV(k.p.New(yielding{memOf(b), r}), v, &c)
			out = append(out, fmt.Sprint(w, e))
		}
		return strings.Join(out, "|")
	}},
	{"containers", func(r *Rng, k *kit) string {
		s := schOf(r, []thrift.TType{thrift.LIST, thrift.SET, thrift.MAP, thrift.STRUCT}[r.Intn(4)], 2)
		a, b := s.val(r), s.val(r)
		return reading(s, mk(a, r, 1), mk(b, r, 2), r) + reading(s, mk(b, r, 0), mk(b, r, 1), r)
	}},
	{"lists", func(r *Rng, k *kit) string {
		s := elemSch(r)
		l := thrift.NewTListDefault()
		for i := 0; i < 10; i++ {
			x := mk(s.val(r), r, 0)
			n := l.Len()
			try(func() {
				switch r.Intn(6) {
				case 0:
					l.Insert(r.Intn(n+1), x)
				case 1:
					if n > 0 {
						l.Set(r.Intn(n), x)
					}
				case 2:
					if n > 0 {
						l.Delete(r.Intn(n))
					}
				default:
					l.Push(x)
				}
			})
			runtime.Gosched()
		}
		c, e := canonGo(l, thrift.LIST, false)
		return fmt.Sprint(l.Len(), c, e)
	}},
	{"conversions", func(r *Rng, k *kit) string {
		var out []string
		for i := 0; i < 10; i++ {
			v := kin(genSch(r, 1).val(r), r)
			t := thrift.TType([]int{2, 3, 4, 6, 8, 10, 11, 18}[r.Intn(8)])
			out = append(out, guard(func() string {
				y, ok := t.CoerceData(v)
				c, e := canonGo(y, t, false)
				return fmt.Sprint(ok, c, e != nil, thrift.TypeFromValue(v), t.String())
			}))
		}
		return strings.Join(out, "|")
	}},
	{"numerics", func(r *Rng, k *kit) string {
		n := thrift.NewNumericFromI64(r.Int64())
		f := thrift.NewNumericFromDouble(float64(r.Intn(1000)) / 8)
		j := thrift.NewNumericFromJSONString(fmt.Sprint(r.Intn(100000)), false)
		return fmt.Sprint(n.Int64(), f.Float64(), j.Int32(), n.String(), f.String(), thrift.NAN.String(), thrift.INFINITY.Float64(), thrift.ZERO.Int())
	}},
	{"exceptions", func(r *Rng, k *kit) string {
		msg := fmt.Sprint("m", r.Intn(1000))
		a := thrift.NewTApplicationException(int32(r.Intn(8)), msg)
		pe := thrift.NewTProtocolException(r.Intn(7), msg)
		te := thrift.NewTTransportException(r.Intn(5), msg)
		mem := thrift.NewTMemoryBuffer()
		p := k.pfac.GetProtocol(mem)
		a.Write(p)
		p.Transport().Flush()
		out := hexOf(mem.Bytes())
		b, e := thrift.NewTApplicationExceptionDefault().Read(k.pfac.GetProtocol(mem))
		out += fmt.Sprint(b, e)
		out += fmt.Sprint(thrift.NewTProtocolExceptionFromOsError(errors.New(msg)), thrift.NewTTransportExceptionFromOsError(io.EOF),
			thrift.NewTProtocolExceptionFromOsError(te).TypeId(), pe.TypeId(), te.TypeId(), errors.Is(pe, thrift.TException(pe)))
		return out
	}},
	{"framed", func(r *Rng, k *kit) string {
		mem := thrift.NewTMemoryBuffer()
		f := thrift.NewTFramedTransport(yielding{mem, r})
		var sent []byte
		for i := 0; i < 4; i++ {
			b := r.Bytes(r.Intn(300))
			f.Write(b)
			sent = append(sent, b...)
			if r.Bool() || i == 3 {
				f.Flush()
			}
		}
		out := hexOf(mem.Bytes())
		b := make([]byte, len(sent))
		n, e := f.ReadAll(b)
		return fmt.Sprint(out, n, e, bytes.Equal(b, sent))
	}},
	{"streams", func(r *Rng, k *kit) string {
		var w bytes.Buffer
		b := r.Bytes(200 + r.Intn(9000))
		s := thrift.NewTIOStreamTransportRW(&w)
		n, e := s.Write(b)
		s.Flush()
		in := make([]byte, len(b))
		m, e2 := s.ReadAll(in)
		return fmt.Sprint(n, e, m, e2, hexOf(in))
	}},
	{"calls", func(r *Rng, k *kit) string {
		in, out := thrift.NewTMemoryBuffer(), thrift.NewTMemoryBuffer()
		uid := int64(r.U64() >> 34)
		c := simple.NewContainerOfEnumsTestServiceClientProtocol(nil, k.pfac.GetProtocol(out), k.pfac.GetProtocol(yielding{in, r}))
		e := c.SendEcho(goldenCall(uid))
		in.Flush()
		s := fmt.Sprint(e, hexOf(in.Bytes()))
		proc := k.pf.GetProcessor(in)
		ok, ex := proc.Process(k.pfac.GetProtocol(yielding{in, r}), k.pfac.GetProtocol(yielding{out, r}))
		s += fmt.Sprint(ok, ex, hexOf(out.Bytes()))
		v, e := c.RecvEcho()
		return s + fmt.Sprint(e, v != nil && sameEnums(v, goldenAnswer(uid)), v)
	}},
	{"generated", func(r *Rng, k *kit) string {
		c := randEnums(r)
		mem := thrift.NewTMemoryBuffer()
		p := k.pfac.GetProtocol(yielding{mem, r})
		e := c.Write(p)
		p.Transport().Flush()
		s := hexOf(mem.Bytes())
		d := simple.NewContainerOfEnums()
		e2 := d.Read(k.pfac.GetProtocol(yielding{mem, r}))
		return s + fmt.Sprint(e, e2, c, d, sameEnums(c, d)) + readStruct(c, d, k)
	}},
	{"fields", func(r *Rng, k *kit) string {
		var fs []thrift.TField
		for i, n := 0, r.Intn(6); i < n; i++ {
			fs = append(fs, thrift.NewTField(fmt.Sprint("f", i), thrift.TType(thrift.I32), i))
		}
		a, b := thrift.NewTFieldContainer(fs), thrift.NewTFieldContainer(fs)
		s := fmt.Sprint(a.Len(), a.Equals(b), thrift.ANONYMOUS_FIELD.Name(), thrift.EMPTY_MESSAGE.Name())
		for x := range a.Iter() {
			f := x.(thrift.TField)
			s += fmt.Sprint(f.Name(), f.Id(), f.TypeId(), a.FieldNameFromFieldId(f.Id()), a.FieldFromFieldName(f.Name()).Id())
		}
		m := thrift.NewTMessage("m", thrift.CALL, r.Intn(9))
		return s + fmt.Sprint(m.Name(), m.TypeId(), m.SeqId(), m.Equals(m), thrift.NewTMessageDefault().Name())
	}},
}

func memOf(b []byte) thrift.TTransport {
	m := thrift.NewTMemoryBuffer()
	m.Write(b)
	m.Flush()
	return m
}

func (r *Rng) Int64() int64 { return int64(r.U64()) }

// reading looks at a in all ways without changing it.
func reading(s *sch, a, b interface{}, r *Rng) string {
	var out []string
	say := func(f func() string) { out = append(out, guard(f)) }
	t := thrift.TType(s.t)
	say(func() string { c, e := canonGo(a, t, false); return fmt.Sprint(c, e) })
	say(func() string { i, ok := t.Compare(a, b); return fmt.Sprint(i, ok) })
	say(func() string { return fmt.Sprint(t.Less(a, b), thrift.TypeFromValue(a)) })
	say(func() string { y, ok := t.CoerceData(a); c, e := canonGo(y, t, false); return fmt.Sprint(c, ok, e) })
	runtime.Gosched()
	sorted := func(c <-chan interface{}, t thrift.TType) string {
		var l []string
		for x := range c {
			s, _ := canonGo(x, t, false)
			l = append(l, s)
		}
		sort.Strings(l)
		return strings.Join(l, ",")
	}
	switch x := a.(type) {
	case thrift.TList:
		say(func() string { return fmt.Sprint(x.Len(), x.ElemType(), x.Equals(b), x.Contains(b)) })
		say(func() string { i, ok := x.CompareTo(b); return fmt.Sprint(i, ok) })
		say(func() string { return sorted(x.Iter(), x.ElemType()) })
		for i := 0; i < x.Len(); i++ {
			i := i
			say(func() string { return fmt.Sprint(x.Contains(x.At(i)), x.Less(i, 0)) })
		}
	case thrift.TSet:
		say(func() string { return fmt.Sprint(x.Len(), x.ElemType(), x.Equals(b), x.Contains(b)) })
		say(func() string { i, ok := x.CompareTo(b); return fmt.Sprint(i, ok) })
		for e := x.Front(); e != nil; e = e.Next() {
			e := e
			say(func() string { return fmt.Sprint(x.Contains(e.Value)) })
		}
	case thrift.TMap:
		say(func() string { return fmt.Sprint(x.Len(), x.KeyType(), x.ValueType(), x.Equals(b), x.Contains(b)) })
		say(func() string { i, ok := x.CompareTo(b); return fmt.Sprint(i, ok) })
		say(func() string { return sorted(x.KeyIter(), x.KeyType()) })
		say(func() string { return sorted(x.ValueIter(), x.ValueType()) })
		kept := out
		out = nil
		for _, y := range x.Keys() {
			y := y
			say(func() string {
				v, ok := x.Get(y)
				c, _ := canonGo(v, x.ValueType(), false)
				return fmt.Sprint(c, ok, x.Contains(y))
			})
		}
		sort.Strings(out) // in no particular order
		out = append(kept, out...)
	case thrift.TStruct:
		say(func() string {
			return fmt.Sprint(x.TStructName(), x.ThriftName(), x.TStructFields().Len(), x.Equals(b))
		})
		say(func() string { return lookups(x.TStructFields()) })
		say(func() string { i, ok := x.CompareTo(b); return fmt.Sprint(i, ok) })
	}
	return strings.Join(out, "|")
}

// lookups asks for all fields by name, id and value.
func lookups(fs thrift.TFieldContainer) string {
	var out []string
	for f := range fs.Iter() {
		n := f.Name()
		g := fs.FieldFromFieldName(n)
		out = append(out, fmt.Sprint(n, f.Id(), f.TypeId(), f.String(), fs.FieldNameFromFieldId(f.Id()), fs.FieldIdFromFieldName(n), g.Id(), fs.FieldFromFieldId(f.Id()).Name(), fs.At(f.Id()).Name(),
			fs.Contains(n), fs.Contains(f.Id()), fs.Contains(f), f.Equals(g)))
	}
	return fmt.Sprint(strings.Join(out, ";"), fs.Len(), fs.FieldIdFromFieldName("nosuchfield"), fs.FieldFromFieldId(-7).Name(), fs.FieldFromFieldName("").Name())
}

// readStruct uses a generated structure without changing it.
func readStruct(c, d *simple.ContainerOfEnums, k *kit) string {
	var out []string
	mem := thrift.NewTMemoryBuffer()
	p := k.pfac.GetProtocol(mem)
	e := c.Write(p)
	p.Transport().Flush()
	out = append(out, hexOf(mem.Bytes()), fmt.Sprint(e))
	out = append(out, fmt.Sprint(c.IsSetFirst(), c.IsSetSecond(), c.IsSetOptionalFourth(), c.IsSetOptionalFifth(), c.IsSetDefaultSeventh(), c.IsSetDefaultNineth(), c.String()))
	fs := c.TStructFields()
	for x := range fs.Iter() {
		f := x.(thrift.TField)
		out = append(out, fmt.Sprint(f.Name(), f.Id(), f.TypeId(), c.AttributeByFieldId(f.Id())))
	}
	i, ok := c.CompareTo(d)
	out = append(out, fmt.Sprint(i, ok, c.TStructName(), c.ThriftName(), fs.Equals(d.TStructFields())))
	return strings.Join(out, "|")
}

func newKit(r *Rng) *kit {
	k := &kit{p: []*Proto{pBinary, pCompact, pJSON, pSimple}[r.Intn(4)]}
	k.tfac = pickFac(r.P(40))
	k.pfac = facOf(k.p, r)
	k.proc = simple.NewContainerOfEnumsTestServiceProcessor(echoAnswer{})
	k.pf = thrift.NewTProcessorFactory(k.proc)
	return k
}

// echoAnswer has no state of its own.
type echoAnswer struct{}

func (echoAnswer) Echo(m *simple.ContainerOfEnums) (*simple.ContainerOfEnums, error) {
	runtime.Gosched()
	return goldenAnswer(int64(m.OptionalFourth)), nil
}

func facOf(p *Proto, r *Rng) thrift.TProtocolFactory {
	switch p {
	case pBinary:
		switch r.Intn(3) {
		case 0:
			return thrift.NewTBinaryProtocolFactoryDefault()
		case 1:
			return thrift.NewTBinaryProtocolFactory(false, true)
		}
		return thrift.NewTBinaryProtocolFactory(true, true)
	case pCompact:
		return thrift.NewTCompactProtocolFactory()
	case pJSON:
		return thrift.NewTJSONProtocolFactory()
	}
	return thrift.NewTSimpleJSONProtocolFactory()
}

// race runs the functions at the same time, started together.
func atOnce(fs []func()) {
	var wg sync.WaitGroup
	start := make(chan bool)
	for _, f := range fs {
		f := f
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			f()
		}()
	}
	close(start)
	wg.Wait()
}

func concChecks(r *Run) {
	thrift.LOGGER.SetOutput(io.Discard)
	r.Cases("own", r.N(3000, 40000), func(t *T) {
		k := newKit(t.R)
		n := 2 + t.R.Intn(7)
		type part struct {
			job  int
			seed uint64
			got  string
		}
		parts := make([][]*part, n)
		mix := t.R.P(50)
		one := t.R.Intn(len(jobs))
		for i := range parts {
			for j := 0; j < 3; j++ {
				x := &part{job: one, seed: t.R.U64()}
				if mix {
					x.job = t.R.Intn(len(jobs))
				}
				parts[i] = append(parts[i], x)
			}
		}
		t.Desc(func() string {
			return fmt.Sprintf("%s, %d goroutines, mixed %v, else %s", k.p.Name, n, mix, jobs[one].name)
		})
		var fs []func()
		for _, ps := range parts {
			ps := ps
			fs = append(fs, func() {
				for _, x := range ps {
					x.got = guard(func() string { return jobs[x.job].f(NewRng(x.seed), k) })
				}
			})
		}
		alone := func() (l []string) {
			for _, ps := range parts {
				for _, x := range ps {
					k2 := *k
					k2.pf = thrift.NewTProcessorFactory(simple.NewContainerOfEnumsTestServiceProcessor(echoAnswer{}))
					l = append(l, guard(func() string { return jobs[x.job].f(NewRng(x.seed), &k2) }))
				}
			}
			return
		}
		var wants []string
		if t.R.Bool() {
			wants = alone()
		}
		atOnce(fs)
		if wants == nil {
			wants = alone()
		}
		for i, ps := range parts {
			for j, x := range ps {
				want := wants[3*i+j]
				if want != x.got {
					a := firstDiff(want, x.got)
					t.Fail("goroutine %d: %s gives %q instead of %q as it does alone", i, jobs[x.job].name, cutAt(x.got, a), cutAt(want, a))
					return
				}
				t.Count("results_compared", 1)
				t.Count("job_"+jobs[x.job].name, 1)
				t.Seen(hashStr(x.seed, x.got))
			}
		}
	})
	r.Cases("readers", r.N(3000, 40000), func(t *T) {
		rr := t.R
		s := schOf(rr, []thrift.TType{thrift.LIST, thrift.SET, thrift.MAP, thrift.STRUCT}[t.Idx%4], 2)
		va, vb := s.val(rr), s.val(rr)
		a, b := mk(va, rr, rr.Intn(3)), mk(vb, rr, rr.Intn(3))
		if rr.P(30) {
			b = mk(va, rr, rr.Intn(3))
		}
		t.Desc(func() string { return fmt.Sprintf("%s %v %v", s, va, vb) })
		n := 2 + rr.Intn(6)
		got := make([]string, n)
		var fs []func()
		for i := range got {
			i := i
			fs = append(fs, func() { got[i] = reading(s, a, b, NewRng(1)) })
		}
		atOnce(fs)
		want := reading(s, a, b, NewRng(1))
		for i, x := range got {
			if x != want {
				d := firstDiff(want, x)
				t.Fail("reader %d sees %q instead of %q", i, cutAt(x, d), cutAt(want, d))
			}
			t.Count("readers", 1)
		}
		t.Seen(hashStr(1, want))
	})
	r.Cases("struct-readers", r.N(1500, 20000), func(t *T) {
		c, d := randEnums(t.R), randEnums(t.R)
		n := 2 + t.R.Intn(6)
		got := make([]string, n)
		ks := make([]*kit, n)
		same := t.R.Bool()
		for i := range ks {
			if i == 0 || !same {
				ks[i] = newKit(t.R)
			} else {
				ks[i] = ks[0]
			}
		}
		t.Desc(func() string { return fmt.Sprint(c, d, same) })
		var fs []func()
		for i := range got {
			i := i
			fs = append(fs, func() { got[i] = readStruct(c, d, ks[i]) })
		}
		atOnce(fs)
		for i, x := range got {
			want := readStruct(c, d, ks[i])
			if x != want {
				at := firstDiff(want, x)
				t.Fail("reader %d sees %q instead of %q", i, cutAt(x, at), cutAt(want, at))
			}
			t.Count("struct_readers", 1)
		}
		t.Seen(hashStr(2, strings.Join(got, "")))
	})
	r.Cases("processor", r.N(1200, 20000), func(t *T) {
		// one processor used by many connections at a time
		k := newKit(t.R)
		n := 2 + t.R.Intn(7)
		got := make([]string, n)
		seeds := make([]uint64, n)
		var fs []func()
		f := func(i int) string {
			return guard(func() string {
				r := NewRng(seeds[i])
				s := ""
				for j := 0; j < 3; j++ {
					in, out := thrift.NewTMemoryBuffer(), thrift.NewTMemoryBuffer()
					p := k.pfac.GetProtocol(in)
					name := []string{"echo", "echo", "nothing", "Echo"}[r.Intn(4)]
					args := simple.NewEchoArgs()
					args.Message = goldenCall(int64(r.U64() >> 34))
					p.WriteMessageBegin(name, thrift.CALL, int32(r.Intn(1000)))
					args.Write(p)
					p.WriteMessageEnd()
					p.Transport().Flush()
					ok, ex := k.proc.Process(k.pfac.GetProtocol(yielding{in, r}), k.pfac.GetProtocol(yielding{out, r}))
					s += fmt.Sprint(ok, ex, hexOf(out.Bytes()))
				}
				return s
			})
		}
		for i := range got {
			i := i
			seeds[i] = t.R.U64()
			fs = append(fs, func() { got[i] = f(i) })
		}
		t.Desc(func() string { return k.p.Name })
		atOnce(fs)
		for i := range got {
			if want := f(i); want != got[i] {
				t.Fail("connection %d: %q instead of %q", i, got[i], want)
			}
			t.Count("shared_processor_calls", 3)
			t.Seen(hashStr(3, got[i]))
		}
	})
}

func cutAt(s string, at int) string {
	a, b := at-60, at+100
	if a < 0 {
		a = 0
	}
	if b > len(s) {
		b = len(s)
	}
	if a > b {
		return ""
	}
	return s[a:b]
}
