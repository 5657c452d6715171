package main

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"thrift"
	"time"
)

func init() { props["C25"] = coerceChecks }

// denoted is what a Go value stands for: a number (exactly), a text, a truth value, or nothing of the kind.
type denoted struct {
	num  *big.Rat
	nan  bool
	inf  int
	text bool // the value is a text; txt says which
	txt  string
	bin  bool // the value is a string of bytes
	bl   bool // the value is a truth value
	b    bool
	null bool
	f32  bool
}

var spaceOrSign = " \t\n_+"

// ratOf gives the number a decimal text denotes; nil if it is none. Texts with huge exponents are not judged.
func ratOf(s string) (*big.Rat, bool) {
	t := strings.TrimPrefix(strings.TrimPrefix(s, "-"), "+")
	if t == "" {
		return nil, true
	}
	dig, e := 0, -1
	for i := 0; i < len(t); i++ {
		c := t[i]
		switch {
		case c >= '0' && c <= '9':
			if e < 0 {
				dig++
			}
		case c == '.' && e < 0 && !strings.Contains(t[:i], "."):
		case (c == 'e' || c == 'E') && e < 0 && dig > 0:
			e = i
		case (c == '+' || c == '-') && e >= 0 && i == e+1:
		default:
			return nil, true
		}
	}
	if dig == 0 || e == len(t)-1 || (e >= 0 && strings.HasSuffix(t, "+")) || (e >= 0 && strings.HasSuffix(t, "-")) {
		return nil, true
	}
	if e >= 0 {
		x, err := strconv.Atoi(t[e+1:])
		if err != nil || x > 2000 || x < -2000 {
			return nil, false
		}
	}
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		return nil, true
	}
	return r, true
}

func nearest(r *big.Rat) float64 {
	f, _ := r.Float64()
	return f
}

type stringy struct{ s string }

func (s stringy) String() string { return s.s }

type source struct {
	x     interface{}
	d     denoted
	judge bool
}

func intSource(t *T, i *big.Int) source {
	r := t.R
	d := denoted{num: new(big.Rat).SetInt(i)}
	if i.IsUint64() && !i.IsInt64() {
		if r.Bool() {
			return source{uint(i.Uint64()), d, true}
		}
		return source{i.Uint64(), d, true}
	}
	x := kin(&V{T: thrift.I64, I: i.Int64()}, r)
	if _, ok := x.(enumv); ok {
		d.text, d.txt = true, "enumv"
	}
	return source{x, d, true}
}

var numTexts = []string{"", "0", "-0", "1", "-1", "+5", "007", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536",
	"2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808",
	"-9223372036854775809", "18446744073709551615", "18446744073709551616", "9007199254740992", "9007199254740993", "9007199254740993.0", "9007199254740995", "0.1", "0.5", "1.5", "-2.5", "1e3", "1E3",
	"1e-3", "12.0", "1e18", "9e18", "1e19", "1e308", "1e309", "-1e309", "1e-320", "1e-400", "3.4028235677973366e+38", "0x10", "0b1", "1_000", " 5", "5 ", "5a", "abc", ".", "-", "+", "e5", "1e", "1e+", "..1", "1.2.3",
	"Infinity", "-Infinity", "NaN", "inf", "+Inf", "nan", "null", "true", "false", "\x00", "９", "1e999999999", "1e-999999999", "9223372036854775806.5", "9223372036854775806.25", "4611686018427387904.5",
	"100000000000000000000000000000000000e-30", "0.000000000000000000012e20", "120e-1", "125e-2", "2.5e1", "1.", ".5", "-.5e1"}

func genSource(t *T) source {
	r := t.R
	g := newGen(r, GenOpt{})
	switch r.Intn(14) {
	case 0, 1, 2:
		i := big.NewInt(g.i64())
		if r.P(15) {
			i = new(big.Int).SetUint64(uint64(math.MaxInt64) + 1 + r.U64()>>1)
		}
		return intSource(t, i)
	case 3, 4:
		f := math.Float64frombits(g.f64bits())
		if r.P(30) {
			f = float64(g.i64())
		}
		if r.P(20) {
			f = float64(g.i64()) + []float64{0.5, -0.5, 0.25}[r.Intn(3)]
		}
		if r.P(30) {
			x := float32(f)
			d := denoteF(float64(x))
			d.f32 = true
			return source{x, d, true}
		}
		return source{f, denoteF(f), true}
	case 5, 6, 7:
		s := numTexts[r.Intn(len(numTexts))]
		if r.P(30) {
			s = strconv.FormatInt(g.i64(), 10)
		} else if r.P(20) {
			s = strconv.FormatFloat(math.Float64frombits(g.f64bits()), byte("gef"[r.Intn(3)]), -1, 64)
		}
		if r.P(10) && len(s) > 0 {
			b := []byte(s)
			b[r.Intn(len(b))] = "0123456789.e+-x "[r.Intn(16)]
			s = string(b)
		}
		d, ok := denoteText(s)
		if r.P(25) {
			return source{stringy{s}, d, ok}
		}
		return source{s, d, ok}
	case 8:
		b := r.Bool()
		return source{b, denoted{bl: true, b: b}, true}
	case 9:
		b := r.Bytes(r.Intn(4))
		return source{b, denoted{bin: true, txt: string(b)}, true}
	case 10:
		i := g.i64()
		switch r.Intn(4) {
		case 0:
			return source{thrift.NewNumericFromI64(i), denoted{num: new(big.Rat).SetInt64(i), text: true, txt: strconv.FormatInt(i, 10)}, true}
		case 1:
			return source{thrift.NewNumericFromI32(int32(i)), denoted{num: new(big.Rat).SetInt64(int64(int32(i))), text: true, txt: strconv.Itoa(int(int32(i)))}, true}
		case 2:
			f := math.Float64frombits(g.f64bits())
			n := thrift.NewNumericFromDouble(f)
			d := denoteF(f)
			d.text, d.txt = true, n.String()
			return source{n, d, true}
		}
		return source{enumv(i), denoted{num: new(big.Rat).SetInt64(i), text: true, txt: "enumv"}, true}
	case 11:
		s := numTexts[r.Intn(len(numTexts))]
		d, ok := denoteText(s)
		if r.Bool() {
			d.null = s == ""
			return source{thrift.NewNumericFromString(s), d, ok}
		}
		return source{thrift.NewNumericFromJSONString(s, false), d, ok && s != ""}
	case 12:
		switch r.Intn(4) {
		case 0:
			return source{thrift.NewTList(thrift.I32, 0), denoted{}, true}
		case 1:
			return source{thrift.NewTSet(thrift.I32, 0), denoted{}, true}
		case 2:
			return source{thrift.NewTMap(thrift.I32, thrift.I32, 0), denoted{}, true}
		}
		return source{thrift.NewTStructEmpty("s"), denoted{}, false} // has a String, the name
	}
	switch r.Intn(5) {
	case 0:
		return source{make(chan int), denoted{}, true}
	case 1:
		return source{[]int{1}, denoted{}, true}
	case 2:
		return source{map[string]int{}, denoted{}, true}
	case 3:
		return source{func() {}, denoted{}, true}
	}
	return source{struct{ x []byte }{}, denoted{}, true}
}

func denoteF(f float64) denoted {
	switch {
	case f != f:
		return denoted{nan: true}
	case math.IsInf(f, 1):
		return denoted{inf: 1}
	case math.IsInf(f, -1):
		return denoted{inf: -1}
	}
	return denoted{num: new(big.Rat).SetFloat64(f)}
}

func denoteText(s string) (denoted, bool) {
	d := denoted{text: true, txt: s}
	switch strings.ToLower(strings.TrimPrefix(strings.TrimPrefix(s, "-"), "+")) {
	case "nan", "inf", "infinity":
		l := strings.ToLower(s)
		if strings.HasSuffix(l, "nan") {
			d.nan = true
		} else if l[0] == '-' {
			d.inf = -1
		} else {
			d.inf = 1
		}
		return d, true
	}
	if strings.ContainsAny(s, "_xXpP") {
		return d, false // numbers in Go's syntax, in part
	}
	var ok bool
	d.num, ok = ratOf(s)
	return d, ok
}

func ratInt(r *big.Rat) (int64, bool) {
	if r == nil || !r.IsInt() || !r.Num().IsInt64() {
		return 0, false
	}
	return r.Num().Int64(), true
}

var intRange = map[thrift.TType][2]int64{thrift.BYTE: {math.MinInt8, math.MaxUint8}, thrift.I16: {math.MinInt16, math.MaxInt16}, thrift.I32: {math.MinInt32, math.MaxInt32}, thrift.I64: {math.MinInt64, math.MaxInt64}}

func isIntKind(x interface{}) bool {
	switch x.(type) {
	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
		return true
	}
	return false
}

// judgeCoercion says what is wrong with the outcome of converting a source to a type.
func judgeCoercion(s source, ty thrift.TType, y interface{}, ok bool) string {
	d := s.d
	if rng, isInt := intRange[ty]; isInt {
		want, fits := ratInt(d.num)
		fits = fits && want >= rng[0] && want <= rng[1]
		if d.bl {
			want, fits = 0, true
			if d.b {
				want = 1
			}
		}
		if d.null {
			want, fits = 0, true
		}
		if !ok {
			if isIntKind(s.x) && fits {
				return "an integer in range is refused"
			}
			return ""
		}
		if d.bin {
			if ty == thrift.BYTE && len(d.txt) <= 1 {
				return ""
			}
			return "bytes are no integer"
		}
		if !fits {
			return "does not denote a value of the type, yet is accepted"
		}
		var got int64
		switch v := y.(type) {
		case byte:
			if ty != thrift.BYTE {
				return "wrong Go type"
			}
			got = int64(v)
			if want < 0 {
				want += 256
			}
		case int16:
			if ty != thrift.I16 {
				return "wrong Go type"
			}
			got = int64(v)
		case int32:
			if ty != thrift.I32 {
				return "wrong Go type"
			}
			got = int64(v)
		case int64:
			if ty != thrift.I64 {
				return "wrong Go type"
			}
			got = v
		default:
			return "wrong Go type"
		}
		if got != want {
			return fmt.Sprintf("the value is %d", want)
		}
		return ""
	}
	switch ty {
	case thrift.BOOL:
		b, isb := y.(bool)
		_, numeric := s.x.(thrift.Numeric)
		if ok && !isb {
			return "wrong Go type"
		}
		if !ok {
			if d.bl || isIntKind(s.x) {
				return "a truth value or integer is refused"
			}
			return ""
		}
		switch {
		case d.bl:
			if b != d.b {
				return "the other truth value"
			}
		case d.text && !numeric && (d.txt == "true" || d.txt == "false"):
			if b != (d.txt == "true") {
				return "the other truth value"
			}
		case d.num != nil && !d.text:
			if b != (d.num.Sign() != 0) {
				return "the other truth value"
			}
		case d.text && (d.txt == "0" || d.txt == "1"):
			if b != (d.txt == "1") {
				return "the other truth value"
			}
		case d.bin && len(d.txt) <= 1:
			if b != (len(d.txt) == 1 && d.txt[0] != 0) {
				return "the other truth value"
			}
		}
		return ""
	case thrift.DOUBLE:
		f, isf := y.(float64)
		if ok && !isf {
			return "wrong Go type"
		}
		if !ok {
			switch s.x.(type) {
			case float64, float32:
				return "a double is refused"
			}
			return ""
		}
		switch {
		case d.bin:
			if len(d.txt) > 1 {
				return "bytes are no number"
			}
			return ""
		case d.null:
			if f != 0 {
				return "the value is 0"
			}
		case d.nan:
			if f == f {
				return "the value is NaN"
			}
		case d.inf != 0:
			if !math.IsInf(f, d.inf) {
				return "the value is infinite"
			}
		case d.bl:
			if (f == 1) != d.b || (f == 0) == d.b {
				return "the value is 0 or 1"
			}
		case d.num == nil:
			return "does not denote a number, yet is accepted"
		case d.text:
			if w := nearest(d.num); f != w {
				return fmt.Sprintf("the value is %v", w)
			}
			if math.IsInf(f, 0) {
				return "a number out of range becomes infinite"
			}
		default:
			if math.IsInf(f, 0) || f != f || new(big.Rat).SetFloat64(f).Cmp(d.num) != 0 {
				return "the value is " + d.num.RatString()
			}
		}
		if x, is := s.x.(float64); is && math.Float64bits(x) != math.Float64bits(f) {
			return "the double is not the same"
		}
		return ""
	case thrift.STRING, thrift.UTF8, thrift.UTF16, thrift.BINARY:
		if !ok {
			switch s.x.(type) {
			case string, []byte:
				return "a string is refused"
			}
			return ""
		}
		var got string
		if ty == thrift.BINARY {
			b, is := y.([]byte)
			if !is {
				return "wrong Go type"
			}
			got = string(b)
		} else {
			b, is := y.(string)
			if !is {
				return "wrong Go type"
			}
			got = b
		}
		switch {
		case d.text || d.bin:
			if got != d.txt {
				return fmt.Sprintf("the text is %q", d.txt)
			}
		case d.bl:
			if got != strconv.FormatBool(d.b) {
				return "the text is true or false"
			}
		case d.nan || d.inf != 0:
			f, e := strconv.ParseFloat(got, 64)
			if e != nil || (f != f) != d.nan || (!d.nan && !math.IsInf(f, d.inf)) {
				return "the text is another value's"
			}
		case d.num != nil:
			r, _ := ratOf(got)
			bits := 64
			if d.f32 {
				bits = 32
			}
			if isIntKind(s.x) {
				if r == nil || r.Cmp(d.num) != 0 {
					return "the text is another value's"
				}
			} else if f, e := strconv.ParseFloat(got, bits); e != nil || new(big.Rat).SetFloat64(f).Cmp(d.num) != 0 {
				return "the text is another value's"
			}
		default:
			return "does not denote a text, yet is accepted"
		}
		return ""
	case thrift.STRUCT:
		_, is := s.x.(thrift.TStruct)
		return same(s.x, y, ok, is)
	case thrift.LIST:
		_, is := s.x.(thrift.TList)
		return same(s.x, y, ok, is)
	case thrift.SET:
		_, is := s.x.(thrift.TSet)
		return same(s.x, y, ok, is)
	case thrift.MAP:
		_, is := s.x.(thrift.TMap)
		return same(s.x, y, ok, is)
	default:
		if ok {
			return "a type without values accepts one"
		}
	}
	return ""
}

func same(x, y interface{}, ok, is bool) string {
	if ok != is {
		return fmt.Sprintf("accepted = %v, want %v", ok, is)
	}
	if ok && fmt.Sprintf("%p", x) != fmt.Sprintf("%p", y) {
		return "not the same object"
	}
	return ""
}

var coerceTypes = append(append([]thrift.TType{}, allTypes...), thrift.STOP, thrift.VOID, thrift.UTF8, thrift.UTF16, thrift.GENERIC, thrift.TType(5), thrift.TType(77))

func coerceChecks(r *Run) {
	r.Cases("conversions", r.N(60000, 600000), func(t *T) {
		s := genSource(t)
		t.Desc(func() string { return fmt.Sprintf("%T %v", s.x, s.x) })
		coerceAll(t, s)
		t.Seen(hashStr(3, fmt.Sprintf("%T %v", s.x, s.x)))
	})
	r.Cases("texts", len(numTexts), func(t *T) {
		s := numTexts[t.Idx]
		d, ok := denoteText(s)
		t.Desc(func() string { return strconv.Quote(s) })
		began := time.Now()
		coerceAll(t, source{s, d, ok})
		coerceAll(t, source{stringy{s}, d, ok})
		n := thrift.NewNumericFromString(s)
		d.null = s == ""
		coerceAll(t, source{n, d, ok})
		numericIs(t, "NewNumericFromString", n, s, d, ok)
		if s != "" {
			j := thrift.NewNumericFromJSONString(s, false)
			coerceAll(t, source{j, d, ok})
			numericIs(t, "NewNumericFromJSONString", j, s, d, ok)
		}
		if time.Since(began) > 5*time.Second {
			t.Fail("takes %v", time.Since(began))
		}
		t.Seen(hashStr(4, s))
	})
	// a value of the type itself is taken as it is
	r.Cases("own values", r.N(12000, 120000), func(t *T) {
		s := genSch(t.R, 2)
		v := s.val(t.R)
		if isScalar(s.t) && t.R.Bool() {
			v = newGen(t.R, GenOpt{}).scalar(s.t)
		}
		x := mk(v, t.R, 0)
		t.Desc(func() string { return fmt.Sprintf("%s %v", s, v) })
		y, ok := s.t.CoerceData(x)
		if !ok {
			t.Fail("is refused")
			return
		}
		want := canon(v, true)
		if c, e := canonGo(y, s.t, true); e != nil || c != want {
			t.Fail("becomes %s (%v)", c, e)
		}
		if s.t == thrift.BINARY && !bytes.Equal(y.([]byte), x.([]byte)) {
			t.Fail("bytes differ")
		}
		t.Count("conversions", 1)
		t.Seen(hashStr(9, want))
	})
	r.Cases("numerics", r.N(30000, 300000), func(t *T) {
		g := newGen(t.R, GenOpt{})
		i := g.i64()
		f := math.Float64frombits(g.f64bits())
		if t.R.P(30) {
			f = float64(i)
		}
		t.Desc(func() string { return fmt.Sprint(i, f) })
		itext := strconv.FormatInt(i, 10)
		numericIs(t, "NewNumericFromI64", thrift.NewNumericFromI64(i), itext, denoted{num: new(big.Rat).SetInt64(i)}, true)
		numericIs(t, "NewNumericFromI32", thrift.NewNumericFromI32(int32(i)), strconv.Itoa(int(int32(i))), denoted{num: new(big.Rat).SetInt64(int64(int32(i)))}, true)
		nf := thrift.NewNumericFromDouble(f)
		numericIs(t, "NewNumericFromDouble", nf, "", denoteF(f), true)
		if f == f {
			if x := nf.Float64(); x != f {
				t.Fail("the numeric of %v has the double %v", f, x)
			}
			if x, e := strconv.ParseFloat(nf.String(), 64); e != nil || x != f {
				t.Fail("the numeric of %v has the text %q", f, nf.String())
			}
			if x := thrift.NewNumericFromString(nf.String()).Float64(); x != f {
				t.Fail("the double %v becomes %v by way of its text %q", f, x, nf.String())
			}
			if x := thrift.NewNumericFromJSONString(nf.String(), false).Float64(); x != f {
				t.Fail("the double %v becomes %v by way of its JSON text %q", f, x, nf.String())
			}
		}
		if x := thrift.NewNumericFromString(itext).Int64(); x != i {
			t.Fail("the integer %d becomes %d by way of its text", i, x)
		}
		if x := thrift.NewNumericFromJSONString(itext, false).Int64(); x != i {
			t.Fail("the integer %d becomes %d by way of its JSON text", i, x)
		}
		t.Seen(uint64(i) ^ math.Float64bits(f))
	})
	r.Case("nil", 0, func(t *T) {
		for _, ty := range scalarTypes {
			y, ok := ty.CoerceData(nil)
			if !ok || y == nil {
				continue
			}
			if c, e := canonGo(y, ty, true); e != nil || c != canon(&V{T: ty}, true) {
				t.Fail("nil becomes %s (%v) as %s", c, e, tname(ty))
			}
		}
		n := thrift.NewNullNumeric()
		if n.Int64() != 0 || n.Float64() != 0 {
			t.Fail("the null numeric is %v", n)
		}
		for _, c := range []struct {
			n thrift.Numeric
			f float64
		}{{thrift.INFINITY, math.Inf(1)}, {thrift.NEGATIVE_INFINITY, math.Inf(-1)}, {thrift.NAN, math.NaN()}, {thrift.ZERO, 0}} {
			if x := c.n.Float64(); x != c.f && !(x != x && c.f != c.f) {
				t.Fail("the constant %v has the value %v", c.f, x)
			}
		}
	})
	r.Cases("type names", 256, func(t *T) {
		// the numeric forms of a type denote that type
		ty := thrift.TType(t.Idx)
		_ = ty.String()
		for _, x := range []interface{}{ty, byte(t.Idx), int(t.Idx), int32(t.Idx), int64(t.Idx), uint(t.Idx), uint32(t.Idx), uint64(t.Idx), float64(t.Idx), float32(t.Idx)} {
			if got := thrift.TType(0).Coerce(x); got != ty {
				t.Fail("%T %v denotes the type %d", x, x, int(got))
			}
		}
		t.Seen(uint64(t.Idx))
	})
	kinds := []struct {
		x interface{}
		t thrift.TType
	}{{true, thrift.BOOL}, {byte(1), thrift.BYTE}, {int8(1), thrift.BYTE}, {int16(1), thrift.I16}, {int32(1), thrift.I32}, {int(1), thrift.I32}, {int64(1), thrift.I64}, {1.5, thrift.DOUBLE}, {float32(1.5), thrift.DOUBLE},
		{"s", thrift.STRING}, {[]byte("s"), thrift.BINARY}, {thrift.NewTList(thrift.I32, 0), thrift.LIST}, {thrift.NewTSet(thrift.I32, 0), thrift.SET}, {thrift.NewTMap(thrift.I32, thrift.I32, 0), thrift.MAP}, {thrift.NewTStructEmpty("x"), thrift.STRUCT}}
	r.Cases("types of values", len(kinds), func(t *T) {
		k := kinds[t.Idx]
		if ty := thrift.TypeFromValue(k.x); ty != k.t {
			t.Fail("%T has type %s, want %s", k.x, ty, tname(k.t))
		}
		t.Seen(uint64(t.Idx))
	})
}

func coerceAll(t *T, s source) {
	for _, ty := range coerceTypes {
		y, ok := ty.CoerceData(s.x)
		t.Count("conversions", 1)
		if !s.judge {
			continue
		}
		if ok {
			t.Count("accepted", 1)
		} else {
			t.Count("refused", 1)
		}
		if e := judgeCoercion(s, ty, y, ok); e != "" {
			t.Fail("%T %v as %s: %T %v, %v: %s", s.x, s.x, tname(ty), y, y, ok, e)
		}
	}
}

// numericIs compares all the forms of a numeric with the number it stands for.
func numericIs(t *T, how string, n thrift.Numeric, text string, d denoted, ok bool) {
	t.Count("numerics", 1)
	if text != "" && !d.nan && d.inf == 0 && n.String() != text {
		t.Fail("%s(%q) has the text %q", how, text, n.String())
	}
	if !ok {
		return
	}
	switch {
	case d.nan:
		// texts other than NaN itself are not numbers of JSON or Thrift
		if (text == "" || text == "NaN") && n.Float64() == n.Float64() {
			t.Fail("%s: NaN becomes %v", how, n.Float64())
		}
		return
	case d.inf != 0:
		if (text == "" || strings.HasSuffix(text, "Infinity")) && !math.IsInf(n.Float64(), d.inf) {
			t.Fail("%s: infinity becomes %v", how, n.Float64())
		}
		return
	case d.num == nil:
		return
	}
	if w := nearest(d.num); n.Float64() != w {
		t.Fail("%s(%q) has the double %v, want %v", how, text, n.Float64(), w)
	}
	if w := float32(nearest(d.num)); n.Float32() != w {
		t.Fail("%s(%q) has the float %v, want %v", how, text, n.Float32(), w)
	}
	i, isInt := ratInt(d.num)
	if !isInt {
		return
	}
	if n.Int64() != i || n.Int() != int(i) {
		t.Fail("%s(%q) has the integers %d and %d, want %d", how, text, n.Int64(), n.Int(), i)
	}
	if int64(int32(i)) == i && int64(n.Int32()) != i {
		t.Fail("%s(%q) has the 32-bit integer %d", how, text, n.Int32())
	}
	if int64(int16(i)) == i && int64(n.Int16()) != i {
		t.Fail("%s(%q) has the 16-bit integer %d", how, text, n.Int16())
	}
	if i >= 0 && i < 256 && int64(n.Byte()) != i {
		t.Fail("%s(%q) has the byte %d", how, text, n.Byte())
	}
}
