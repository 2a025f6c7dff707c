package main

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"unicode"
)

// ---- C07: integers ----

var intTypes = []reflect.Type{
	typeOf[int8](), typeOf[uint8](), typeOf[int16](), typeOf[uint16](), typeOf[int32](), typeOf[uint32](), typeOf[int64](), typeOf[uint64](), typeOf[int](), typeOf[uint](),
	typeOf[MyI8](), typeOf[MyU8](), typeOf[MyI16](), typeOf[MyU16](), typeOf[MyI32](), typeOf[MyU32](), typeOf[MyI64](), typeOf[MyU64](), typeOf[MyInt](), typeOf[MyUint](),
}

func signed(rt reflect.Type) bool { return rt.Kind() >= reflect.Int && rt.Kind() <= reflect.Int64 }

func intLimits(rt reflect.Type) (lo, hi *big.Int) {
	one := big.NewInt(1)
	if signed(rt) {
		lo = new(big.Int).Neg(new(big.Int).Lsh(one, uint(rt.Bits()-1)))
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(rt.Bits()-1)), one)
		return
	}
	return new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(one, uint(rt.Bits())), one)
}

// drawBig draws an integer of any size, dense around the limits of the integer types.
func drawBig(t *T) *big.Int {
	v := new(big.Int)
	switch t.W(4, 5, 3, 3, 2) {
	case 0:
		v.SetInt64(int64(t.Int(0, 300)))
	case 1: // near a power of two
		v.Lsh(big.NewInt(1), uint(t.N(70)))
		v.Add(v, big.NewInt(int64(t.Int(0, 4))-2))
	case 2: // near a power of ten
		v.Exp(big.NewInt(10), big.NewInt(int64(t.N(24))), nil)
		v.Mul(v, big.NewInt(int64(t.Int(1, 9))))
		v.Add(v, big.NewInt(int64(t.Int(0, 4))-2))
	case 3:
		v.SetUint64(t.U64(math.MaxUint64) >> uint(t.N(64)))
	case 4: // digits
		v.SetUint64(t.U64(math.MaxUint64))
		v.Mul(v, big.NewInt(int64(t.Int(1, 1000000))))
		if t.Chance(1, 4) { // a multiple of 2^64 and a bit: wraps to something small
			v.Lsh(big.NewInt(int64(t.Int(1, 40))), uint(pick(t, []int{64, 63, 32, 65})))
			v.Add(v, big.NewInt(int64(t.Int(0, 200))))
		}
	}
	if t.Bool() {
		v.Neg(v)
	}
	return v
}

func setBig(rv reflect.Value, v *big.Int) {
	if signed(rv.Type()) {
		rv.SetInt(v.Int64())
	} else {
		rv.SetUint(v.Uint64())
	}
}

func fits(v *big.Int, rt reflect.Type) bool {
	lo, hi := intLimits(rt)
	return v.Cmp(lo) >= 0 && v.Cmp(hi) <= 0
}

// encodings of an integer value in all kinds of place
func c07Encode(t *T) {
	rt := pick(t, intTypes)
	v := drawBig(t)
	if !fits(v, rt) {
		lo, hi := intLimits(rt)
		n := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
		v.Sub(v, lo).Mod(v, n).Add(v, lo)
	}
	x := newOf(rt)
	setBig(x, v)
	t.Desc(func() string { return "Marshal of " + v.String() + " as " + typeName(rt) })
	checkIntEncode(t.Failf, x, v.String())
	t.NonTrivial(mix(hashStr(v.String()), hashStr(rt.String())))
	t.Label(rt.Kind().String())
}

var intHolders = map[reflect.Type]reflect.Type{}

func init() {
	for _, rt := range intTypes {
		intHolders[rt] = structOf(field("A", rt, `php:"a"`), field("B", rt, `php:"b,string"`), field("C", reflect.PointerTo(rt), `php:"c,string"`),
			field("D", reflect.MapOf(rt, rt), `php:"d"`), field("E", reflect.ArrayOf(1, rt), `php:"e"`), field("F", anyType, `php:"f"`),
			field("G", anyType, `php:"g,string"`), field("H", reflect.MapOf(typeOf[string](), rt), `php:"h"`), field("I", reflect.MapOf(rt, anyType), `php:"i"`))
	}
}

func checkIntEncode(failf func(string, ...any), x reflect.Value, text string) {
	rt := x.Type()
	p := reflect.New(rt)
	p.Elem().Set(x)
	st := newOf(intHolders[rt])
	st.Field(0).Set(x)
	st.Field(1).Set(x)
	st.Field(2).Set(p)
	m := reflect.MakeMap(reflect.MapOf(rt, rt))
	m.SetMapIndex(x, x)
	st.Field(3).Set(m)
	st.Field(4).Index(0).Set(x)
	st.Field(5).Set(x)
	st.Field(6).Set(x)
	hm := reflect.MakeMap(st.Field(7).Type())
	hm.SetMapIndex(reflect.ValueOf("k"), x)
	st.Field(7).Set(hm)
	im := reflect.MakeMap(st.Field(8).Type())
	im.SetMapIndex(x, p)
	st.Field(8).Set(im)
	i := "i:" + text + ";"
	s := "s:" + strconv.Itoa(len(text)) + `:"` + text + `";`
	want := `a:9:{s:1:"a";` + i + `s:1:"b";` + s + `s:1:"c";` + s + `s:1:"d";a:1:{` + i + i + `}s:1:"e";a:1:{i:0;` + i + `}s:1:"f";` + i + `s:1:"g";` + s + `s:1:"h";a:1:{s:1:"k";` + i + `}s:1:"i";a:1:{` + i + i + `}}`
	got, err := marshal(st.Interface())
	if err != nil || string(got) != want {
		failf("integer %s of type %s: Marshal = %s, %v; want %s", text, typeName(rt), got, err, want)
	}
	got, err = marshal(x.Interface())
	if err != nil || string(got) != i {
		failf("integer %s of type %s: Marshal = %s, %v; want %s", text, typeName(rt), got, err, i)
	}
}

func c07Decode(t *T) {
	rt := pick(t, intTypes)
	v := drawBig(t)
	if t.Chance(2, 5) {
		lo, hi := intLimits(rt)
		v.Set(pick(t, []*big.Int{lo, hi}))
		v.Add(v, big.NewInt(int64(t.Int(0, 6))-3))
	}
	text := v.String()
	if t.Chance(1, 6) { // php reads leading zeros, and a sign before zero
		digits := strings.TrimPrefix(text, "-")
		sign := text[:len(text)-len(digits)]
		if v.Sign() == 0 && signed(rt) && t.Bool() {
			sign = "-"
		}
		text = sign + strings.Repeat("0", t.Int(0, 22)) + digits
		t.Label("zeros")
	}
	t.Desc(func() string { return "integer text " + text + " into " + typeName(rt) })
	checkIntDecode(t.Failf, rt, v, text)
	t.NonTrivial(mix(hashStr(text), hashStr(rt.String())))
	if fits(v, rt) {
		t.Label("fits")
	} else {
		t.Label("does not fit")
	}
}

func intIs(rv reflect.Value, v *big.Int) bool {
	if rv.CanInt() {
		return v.IsInt64() && rv.Int() == v.Int64()
	}
	return v.IsUint64() && rv.Uint() == v.Uint64()
}

func checkIntDecode(failf func(string, ...any), rt reflect.Type, v *big.Int, text string) {
	ok := fits(v, rt)
	try := func(place, doc string, dest reflect.Value, get func() reflect.Value, ok bool) {
		err := unmarshal([]byte(doc), dest.Addr().Interface())
		if isPanic(err) {
			failf("Unmarshal(%q, *%s) panicked: %v", doc, typeName(dest.Type()), err)
		}
		if !ok {
			if err == nil {
				failf("%s: Unmarshal(%q, *%s) accepted an integer that does not fit: %s", place, doc, typeName(dest.Type()), show(dest))
			}
			return
		}
		if err != nil {
			failf("%s: Unmarshal(%q, *%s) failed: %v", place, doc, typeName(dest.Type()), err)
		}
		if got := get(); !got.IsValid() || !intIs(got, v) {
			failf("%s: Unmarshal(%q, *%s) = %s, want %s", place, doc, typeName(dest.Type()), show(dest), text)
		}
	}
	i := "i:" + text + ";"
	s := "s:" + strconv.Itoa(len(text)) + `:"` + text + `";`
	d := newOf(rt)
	if rt.Kind() != reflect.Uint8 || !ok { // make an untouched destination visible
		if signed(rt) {
			d.SetInt(77)
		} else {
			d.SetUint(77)
		}
	}
	try("direct", i, d, func() reflect.Value { return d }, ok)
	st := newOf(intHolders[rt])
	try("field", `a:1:{s:1:"a";`+i+`}`, st, func() reflect.Value { return st.Field(0) }, ok)
	try("string field", `a:1:{s:1:"b";`+s+`}`, st, func() reflect.Value { return st.Field(1) }, ok)
	try("pointer string field", `a:1:{s:1:"c";`+s+`}`, st, func() reflect.Value { return st.Field(2).Elem() }, ok)
	try("map value", `a:1:{s:1:"d";a:1:{i:1;`+i+`}}`, st, func() reflect.Value { return st.Field(3).MapIndex(reflect.ValueOf(1).Convert(rt)) }, ok)
	st.Field(3).SetZero()
	try("map key", `O:1:"X":1:{s:1:"d";a:1:{`+i+`i:3;}}`, st, func() reflect.Value {
		for _, k := range st.Field(3).MapKeys() {
			return k
		}
		return reflect.Value{}
	}, ok)
	try("array", `a:1:{s:1:"e";a:1:{i:0;`+i+`}}`, st, func() reflect.Value { return st.Field(4).Index(0) }, ok)
	try("interface field", `a:1:{s:1:"f";`+i+`}`, st, func() reflect.Value { return asInt64(st.Field(5)) }, v.IsInt64())
	if rt.Kind() != reflect.Uint8 {
		sl := newOf(reflect.SliceOf(rt))
		try("slice", `a:1:{i:0;`+i+`}`, sl, func() reflect.Value { return sl.Index(0) }, ok)
	}
	var a any
	av := reflect.ValueOf(&a).Elem()
	try("any", i, av, func() reflect.Value { return asInt64(av) }, v.IsInt64())
	var ma map[any]any
	mv := reflect.ValueOf(&ma).Elem()
	try("any key", `a:1:{`+i+`N;}`, mv, func() reflect.Value {
		for k := range ma {
			return asInt64(reflect.ValueOf(&k).Elem())
		}
		return reflect.Value{}
	}, v.IsInt64())
}

// asInt64 is the int64 held by an interface, invalid when it holds anything else.
func asInt64(rv reflect.Value) reflect.Value {
	if rv.IsNil() || rv.Elem().Type() != typeOf[int64]() {
		return reflect.Value{}
	}
	return rv.Elem()
}

func failError(err *error) func(string, ...any) {
	return func(f string, a ...any) {
		if *err == nil {
			*err = fmt.Errorf(f, a...)
		}
	}
}

// all values of the small types, in and out of range; in the thorough tier all int32 and uint32
func c07Exhaustive(tier string, shard, shards int, tick func(int)) (err error) {
	fail := failError(&err)
	for v := -66000 + shard; v <= 66000; v += shards {
		b := big.NewInt(int64(v))
		text := strconv.Itoa(v)
		for _, rt := range intTypes[:4] {
			checkIntDecode(fail, rt, b, text)
			tick(1)
			if fits(b, rt) {
				x := newOf(rt)
				setBig(x, b)
				checkIntEncode(fail, x, text)
				tick(1)
			}
		}
		if err != nil {
			return
		}
	}
	if tier != "thorough" {
		return
	}
	var buf []byte
	for v := int64(shard); v < 1<<32; v += int64(shards) {
		i, u := int32(uint32(v)), uint32(v)
		buf = append(strconv.AppendInt(append(buf[:0], "i:"...), int64(i), 10), ';')
		out, e := marshal(i)
		if e != nil || string(out) != string(buf) {
			return fmt.Errorf("Marshal(int32 %d) = %s, %v", i, out, e)
		}
		var i2 int32 = 5
		if e := unmarshal(buf, &i2); e != nil || i2 != i {
			return fmt.Errorf("Unmarshal(%s, *int32) = %d, %v", buf, i2, e)
		}
		buf = append(strconv.AppendUint(append(buf[:0], "i:"...), uint64(u), 10), ';')
		out, e = marshal(u)
		if e != nil || string(out) != string(buf) {
			return fmt.Errorf("Marshal(uint32 %d) = %s, %v", u, out, e)
		}
		var u2 uint32 = 5
		if e := unmarshal(buf, &u2); e != nil || u2 != u {
			return fmt.Errorf("Unmarshal(%s, *uint32) = %d, %v", buf, u2, e)
		}
		if v&0xfffff < int64(shards) {
			tick(4 << 20 / shards)
		}
	}
	return
}

// ---- C08: floats ----

type floatHolder struct {
	A float64            `php:"a"`
	B float64            `php:"b,string"`
	C *float64           `php:"c,string"`
	D map[string]float64 `php:"d"`
	E [1]float64         `php:"e"`
	F any                `php:"f"`
	G []MyF64            `php:"g"`
	H *float64           `php:"h"`
	I any                `php:"i,string"`
	J any                `php:"j,omitempty,string"`
}

type floatHolder32 struct {
	A float32            `php:"a"`
	B float32            `php:"b,string"`
	C *float32           `php:"c,string"`
	D map[string]float32 `php:"d"`
	E [1]float32         `php:"e"`
	F any                `php:"f"`
	G []MyF32            `php:"g"`
	H *float32           `php:"h"`
	I any                `php:"i,string"`
	J any                `php:"j,omitempty,string"`
}

func floatDoc(d, s string) string {
	q := "s:" + strconv.Itoa(len(s)) + `:"` + s + `";`
	d = "d:" + d + ";"
	return `a:10:{s:1:"a";` + d + `s:1:"b";` + q + `s:1:"c";` + q + `s:1:"d";a:1:{s:1:"k";` + d + `}s:1:"e";a:1:{i:0;` + d + `}s:1:"f";` + d + `s:1:"g";a:1:{i:0;` + d + `}s:1:"h";` + d + `s:1:"i";` + q + `s:1:"j";` + q + `}`
}

func c08Encode(t *T) {
	if t.Bool() {
		f := drawFloat32(t, false)
		t.Desc(func() string { return fmt.Sprintf("Marshal of float32 %g (%08x)", f, math.Float32bits(f)) })
		checkFloat32Encode(t.Failf, f)
		t.NonTrivial(mix(32, uint64(math.Float32bits(f))))
		return
	}
	f := drawFloat64(t, false)
	t.Desc(func() string { return fmt.Sprintf("Marshal of float64 %g (%016x)", f, math.Float64bits(f)) })
	text := floatText(f, 64)
	got, err := marshal(floatHolder{f, f, &f, map[string]float64{"k": f}, [1]float64{f}, f, []MyF64{MyF64(f)}, &f, f, &f})
	want := floatDoc(text, floatPlain(f, 64))
	if err != nil || string(got) != want {
		t.Failf("float64 %g: Marshal = %s, %v; want %s", f, got, err, want)
	}
	checkFloatText(t, got, f, 64)
	t.NonTrivial(math.Float64bits(f))
}

// the text of the first float of the document reads back as f, by exact arithmetic, and no shorter
// text does
func checkFloatText(t *T, doc []byte, f float64, bits int) {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return
	}
	s := string(doc[strings.Index(string(doc), "d:")+2:])
	s = s[:strings.IndexByte(s, ';')]
	if !exactlyReads(s, f, bits) {
		t.Failf("the text %q does not read back as %v", s, f)
	}
}

func exactlyReads(s string, f float64, bits int) bool {
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		return false
	}
	if r.Sign() == 0 {
		return f == 0 && math.Signbit(f) == strings.HasPrefix(s, "-")
	}
	if bits == 32 {
		g, _ := r.Float32()
		return float64(g) == f
	}
	g, _ := r.Float64()
	return g == f
}

func checkFloat32Encode(failf func(string, ...any), f float32) {
	got, err := marshal(floatHolder32{f, f, &f, map[string]float32{"k": f}, [1]float32{f}, f, []MyF32{MyF32(f)}, &f, f, &f})
	want := floatDoc(floatText(float64(f), 32), floatPlain(float64(f), 32))
	if err != nil || string(got) != want {
		failf("float32 %g (%08x): Marshal = %s, %v; want %s", f, math.Float32bits(f), got, err, want)
	}
}

// drawDecimal draws the text of a decimal number.
func drawDecimal(t *T) string {
	var sb strings.Builder
	if t.Bool() {
		sb.WriteByte('-')
	}
	digits := func(n int) {
		for ; n > 0; n-- {
			sb.WriteByte('0' + byte(t.N(10)))
		}
	}
	switch t.W(3, 3, 3, 2) {
	case 0:
		sb.WriteByte('1' + byte(t.N(9)))
		digits(t.Int(0, 18))
		if t.Bool() {
			sb.WriteByte('.')
			digits(t.Int(1, 25))
		}
	case 1:
		sb.WriteString("0.")
		sb.WriteString(strings.Repeat("0", t.Int(0, 30)))
		digits(t.Int(1, 25))
	case 2:
		sb.WriteByte('1' + byte(t.N(9)))
		if t.Bool() {
			sb.WriteByte('.')
			digits(t.Int(1, 30))
		}
		sb.WriteString(pick(t, []string{"e", "E"}))
		switch t.N(4) {
		case 0:
			sb.WriteString(strconv.Itoa(t.Int(0, 330)))
		case 1:
			sb.WriteString("-" + strconv.Itoa(t.Int(0, 345)))
		case 2:
			sb.WriteString("+" + strconv.Itoa(t.Int(0, 45)))
		case 3:
			sb.WriteString("-" + strconv.Itoa(t.Int(0, 60)))
		}
	case 3: // halfway and near it: where rounding is decided
		var f *big.Float
		if t.Bool() {
			a := drawFloat32(t, true)
			b := math.Nextafter32(a, float32(math.Inf(1)))
			if math.IsInf(float64(a), 0) || math.IsInf(float64(b), 0) {
				a, b = 1, math.Nextafter32(1, 2)
			}
			f = new(big.Float).SetPrec(2000).Add(big.NewFloat(float64(a)), big.NewFloat(float64(b)))
		} else {
			a := drawFloat64(t, true)
			b := math.Nextafter(a, math.Inf(1))
			if math.IsInf(a, 0) || math.IsInf(b, 0) {
				a, b = 1, math.Nextafter(1, 2)
			}
			f = new(big.Float).SetPrec(2000).Add(new(big.Float).SetPrec(2000).SetFloat64(a), new(big.Float).SetPrec(2000).SetFloat64(b))
		}
		f.Quo(f, big.NewFloat(2))
		s := f.Text('e', 780)
		m, e, _ := strings.Cut(s, "e")
		m = strings.TrimRight(strings.TrimRight(m, "0"), ".")
		switch t.N(3) {
		case 1:
			if !strings.Contains(m, ".") {
				m += "."
			}
			m += "0000001"
		case 2:
			if n := t.Int(12, 40); len(m) > n && strings.IndexByte(m, '.') < n-1 {
				m = m[:n]
			}
		}
		return m + "e" + e
	}
	return sb.String()
}

var floatLimits = []string{"1.7976931348623157e308", "1.7976931348623158e308", "1.797693134862315807e308", "1.797693134862315808e308", "1.7976931348623159e308", "1.8e308", "1e309",
	"3.4028234e38", "3.4028235e38", "3.40282346638528859811704183484516925440e38", "3.4028235677973366e38", "3.402823567797336e38", "3.4028235677973367e38", "3.4028236e38", "3.5e38", "1e39", "-3.4028235e38", "-3.4028236e38",
	"4.9e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "2.5e-324", "1.4e-45", "7.006492321624085e-46", "7.006492321624086e-46", "7.1e-46", "1.17549435e-38", "1.175494210692441e-38",
	"2.2250738585072011e-308", "2.2250738585072012e-308", "2.2250738585072014e-308", "0", "-0", "0.0", "-0.0", "1e-400", "-1e-400", "1e400", "16777217", "16777219", "9007199254740993", "9007199254740992.99999"}

func c08Decode(t *T) {
	var text string
	switch t.W(5, 2, 1) {
	case 0:
		text = drawDecimal(t)
	case 1:
		text = pick(t, floatLimits)
	case 2:
		text = pick(t, []string{"INF", "-INF", "NAN"})
	}
	t.Desc(func() string { return "float text " + text })
	var want64, want32 float64
	ok64, ok32 := true, true
	switch text {
	case "INF":
		want64 = math.Inf(1)
	case "-INF":
		want64 = math.Inf(-1)
	case "NAN":
		want64 = math.NaN()
	default:
		r, ok := new(big.Rat).SetString(text)
		if !ok {
			panic("bad decimal " + text)
		}
		want64, _ = r.Float64()
		f32, _ := r.Float32()
		want32 = float64(f32)
		ok64, ok32 = !math.IsInf(want64, 0), !math.IsInf(want32, 0)
		if r.Sign() == 0 && strings.HasPrefix(text, "-") {
			want64, want32 = math.Copysign(0, -1), math.Copysign(0, -1)
		} else if strings.HasPrefix(text, "-") { // underflow keeps the sign
			want64, want32 = math.Copysign(want64, -1), math.Copysign(want32, -1)
		}
	}
	if math.IsInf(want64, 0) || math.IsNaN(want64) {
		want32 = want64
	}
	same := func(a, b float64) bool {
		return math.IsNaN(a) && math.IsNaN(b) || math.Float64bits(a) == math.Float64bits(b)
	}
	check := func(ok bool, doc string, dest any, get func() (float64, bool), want float64) {
		err := unmarshal([]byte(doc), dest)
		mustNotPanic(t, "Unmarshal", err)
		if !ok {
			if err == nil {
				t.Failf("Unmarshal(%q, %T) accepted a number out of range: %s", doc, dest, show(reflect.ValueOf(dest)))
			}
			return
		}
		if err != nil {
			t.Failf("Unmarshal(%q, %T) failed: %v", doc, dest, err)
		}
		got, k := get()
		if !k || !same(got, want) {
			t.Failf("Unmarshal(%q, %T) = %s, want %v (%016x)", doc, dest, show(reflect.ValueOf(dest)), want, math.Float64bits(want))
		}
	}
	d := "d:" + text + ";"
	q := "s:" + strconv.Itoa(len(text)) + `:"` + text + `";`
	for _, half := range []bool{false, true} {
		if !half {
			var f float64 = 77
			check(ok64, d, &f, func() (float64, bool) { return f, true }, want64)
			var h floatHolder
			check(ok64, `a:1:{s:1:"a";`+d+`}`, &h, func() (float64, bool) { return h.A, true }, want64)
			check(ok64, `a:1:{s:1:"b";`+q+`}`, &h, func() (float64, bool) { return h.B, true }, want64)
			check(ok64, `a:1:{s:1:"c";`+q+`}`, &h, func() (float64, bool) { return *h.C, true }, want64)
			check(ok64, `a:1:{s:1:"d";a:1:{s:1:"k";`+d+`}}`, &h, func() (float64, bool) { v, k := h.D["k"]; return v, k }, want64)
			check(ok64, `a:1:{s:1:"g";a:1:{i:0;`+d+`}}`, &h, func() (float64, bool) { return float64(h.G[0]), true }, want64)
			check(ok64, `a:1:{s:1:"f";`+d+`}`, &h, func() (float64, bool) { v, k := h.F.(float64); return v, k }, want64)
			check(ok64, `a:1:{s:1:"h";`+d+`}`, &h, func() (float64, bool) { return *h.H, true }, want64)
			var a any
			check(ok64, d, &a, func() (float64, bool) { v, k := a.(float64); return v, k }, want64)
			continue
		}
		var f float32 = 77
		check(ok32, d, &f, func() (float64, bool) { return float64(f), true }, want32)
		var h floatHolder32
		check(ok32, `a:1:{s:1:"e";a:1:{i:0;`+d+`}}`, &h, func() (float64, bool) { return float64(h.E[0]), true }, want32)
		check(ok32, `a:1:{s:1:"b";`+q+`}`, &h, func() (float64, bool) { return float64(h.B), true }, want32)
		check(ok32, `a:1:{s:1:"c";`+q+`}`, &h, func() (float64, bool) { return float64(*h.C), true }, want32)
		check(ok32, `a:1:{s:1:"h";`+d+`}`, &h, func() (float64, bool) { return float64(*h.H), true }, want32)
	}
	t.NonTrivial(hashStr(text))
	switch {
	case !ok64:
		t.Label("too large for float64")
	case !ok32:
		t.Label("too large for float32")
	case want64 == 0 && strings.Trim(text, "-0.") != "":
		t.Label("underflow")
	}
}

// every text that encoding produces decodes to the very same value
func c08Trip(t *T) {
	f, g := drawFloat64(t, false), drawFloat32(t, false)
	t.Desc(func() string { return fmt.Sprintf("round trip of float64 %g and float32 %g", f, g) })
	type tr struct {
		A float64
		B float32
		C float64 `php:",string"`
		D float32 `php:",string"`
		E any
	}
	v := tr{f, g, f, g, f}
	b, err := marshal(v)
	if err != nil {
		t.Failf("Marshal failed: %v", err)
	}
	var w tr
	if err := unmarshal(b, &w); err != nil {
		t.Failf("Unmarshal(%s) failed: %v", b, err)
	}
	if d := diff(reflect.ValueOf(v), reflect.ValueOf(w)); d != "" {
		t.Failf("%s: %s", b, d)
	}
	t.NonTrivial(mix(math.Float64bits(f), uint64(math.Float32bits(g))))
}

func c08Exhaustive(tier string, shard, shards int, tick func(int)) (err error) {
	if tier != "thorough" {
		return nil
	}
	var buf []byte
	for v := int64(shard); v < 1<<32; v += int64(shards) {
		f := math.Float32frombits(uint32(v))
		out, e := marshal(f)
		buf = append(append(append(buf[:0], "d:"...), floatText(float64(f), 32)...), ';')
		if e != nil || string(out) != string(buf) {
			return fmt.Errorf("Marshal(float32 %08x) = %s, %v", v, out, e)
		}
		g := float32(77)
		if e := unmarshal(buf, &g); e != nil || (math.Float32bits(f) != math.Float32bits(g) && (f == f || g == g)) {
			return fmt.Errorf("Unmarshal(%s, *float32) = %v, %v", buf, g, e)
		}
		if v&0xfffff < int64(shards) {
			tick(2 << 20 / shards)
		}
	}
	return nil
}

// ---- C09: strings ----

type strHolder struct {
	A string
	B MyStr          `php:"b"`
	C []byte         `php:"c"`
	D map[string]int `php:"d"`
	E []string
	F any
	G *string
	H string `php:"h,string"`
	I [2][]byte
	J map[string]any
	L any `php:"l"`
}

func checkString(failf func(string, ...any), s string) {
	p := s
	h := strHolder{s, MyStr(s), []byte(s), map[string]int{s: 1}, []string{"", s}, s, &p, s, [2][]byte{nil, []byte(s)}, map[string]any{s: s}, []byte(s)}
	q := "s:" + strconv.Itoa(len(s)) + `:"` + s + `";`
	e, n := `s:0:"";`, `s:0:"";`
	want := `a:11:{s:1:"A";` + q + `s:1:"b";` + q + `s:1:"c";` + q + `s:1:"d";a:1:{` + q + `i:1;}s:1:"E";a:2:{i:0;` + e + `i:1;` + q + `}s:1:"F";` + q +
		`s:1:"G";` + q + `s:1:"h";` + q + `s:1:"I";a:2:{i:0;` + n + `i:1;` + q + `}s:1:"J";a:1:{` + q + q + `}s:1:"l";` + q + `}`
	got, err := marshal(h)
	if err != nil || string(got) != want {
		failf("Marshal with the string %s: %v: %s", clip([]byte(s)), err, firstDiff([]byte(want), got))
		return
	}
	var d strHolder
	if err := unmarshal(got, &d); err != nil {
		failf("Unmarshal with the string %s failed: %v", clip([]byte(s)), err)
		return
	}
	h.L = s
	h.I[0] = []byte{}
	if x := diff(reflect.ValueOf(h), reflect.ValueOf(d)); x != "" {
		failf("round trip of the string %s: %s", clip([]byte(s)), x)
		return
	}
	// class names of any length and content
	var m map[string]string
	doc := "O" + q[1:len(q)-1] + `:1:{s:1:"k";` + q + `}`
	if err := unmarshal([]byte(doc), &m); err != nil || len(m) != 1 || m["k"] != s {
		failf("Unmarshal of an object of class %s: %v, %s", clip([]byte(s)), err, show(reflect.ValueOf(m)))
		return
	}
	var st struct {
		K string `php:"k"`
		X int
	}
	// and an unknown key, an unknown value, before the known one
	doc = "O" + q[1:len(q)-1] + `:3:{` + `s:2:"zz";` + q + `s:` + strconv.Itoa(len(s)+2) + `:"zz` + s + `";O` + q[1:len(q)-1] + `:1:{` + q + q + `}s:1:"k";` + q + `}`
	if s == "" { // the two unknown keys are the same
		return
	}
	if err := unmarshal([]byte(doc), &st); err != nil || st.K != s {
		failf("Unmarshal with unknown entries named and valued %s: %v, %s", clip([]byte(s)), err, show(reflect.ValueOf(st)))
		return
	}
	var mb MyBytes
	if err := unmarshal([]byte(q), &mb); err != nil || string(mb) != s {
		failf("Unmarshal of the string %s into a named byte slice: %v, %s", clip([]byte(s)), err, clip(mb))
		return
	}
	var u UnmRec
	if err := unmarshal([]byte(q), &u); err != nil || u.Got != q {
		failf("UnmarshalPHP got %s for the string %s: %v", clip([]byte(u.Got)), clip([]byte(s)), err)
		return
	}
	var a any
	if err := unmarshal([]byte(`a:1:{`+q+`O`+q[1:len(q)-1]+`:1:{`+q+q+`}}`), &a); err != nil {
		failf("Unmarshal into any of %s: %v", clip([]byte(s)), err)
		return
	}
	if w := any(map[any]any{s: map[string]any{s: s}}); !reflect.DeepEqual(a, w) {
		failf("Unmarshal into any of the string %s = %s", clip([]byte(s)), show(reflect.ValueOf(a)))
	}
}

func c09(t *T) {
	s := drawString(t, true, nil)
	t.Desc(func() string { return fmt.Sprintf("string of %d bytes %s", len(s), clip([]byte(s))) })
	checkString(t.Failf, s)
	t.NonTrivial(hashStr(s))
	switch {
	case len(s) > 1000:
		t.Label("longer than 1000")
	case strings.ContainsAny(s, "\";{}:"):
		t.Label("has syntax characters")
	}
}

// a string that is a serialized document is not looked into
func c09Nested(t *T) {
	g := newDocGen(t)
	s := string(g.Any(t.Int(1, 4)).Bytes())
	for n := t.Int(0, 3); n > 0; n-- {
		s = string(nArr(nStr(s)).Bytes())
	}
	if t.Bool() && len(s) > 0 { // part of one
		i := t.N(len(s))
		s = s[i:]
		s = s[:t.Int(0, len(s))]
	}
	t.Desc(func() string { return "string " + clip([]byte(s)) })
	checkString(t.Failf, s)
	t.NonTrivial(hashStr(s))
}

// c09Fields: names of struct fields are strings like others.
func c09Fields(t *T) {
	const punct = "!#$%&()*+-./:<=>?@[]^_{|}~ "
	letters := []rune("abzAZ09éßжЯ日本語٣ªʰǅ𐐀𝒳Ⅷ")
	var fs []reflect.StructField
	seen := map[string]bool{"-": true}
	var names []string
	for i := range t.Int(1, 6) {
		var name []rune
		n := t.Int(1, 12)
		if t.Chance(1, 8) {
			n = t.Int(12, 300)
		}
		for range n {
			switch t.W(4, 1, 1) {
			case 0:
				if r := pick(t, letters); unicode.IsLetter(r) || unicode.IsDigit(r) {
					name = append(name, r)
				}
			case 1:
				name = append(name, rune(punct[t.N(len(punct))]))
			default:
				if r := rune(t.Int(0x80, 0x2fa1d)); unicode.IsLetter(r) || unicode.IsDigit(r) {
					name = append(name, r)
				}
			}
		}
		if len(name) == 0 || seen[string(name)] {
			continue
		}
		seen[string(name)] = true
		names = append(names, string(name))
		fs = append(fs, field("F"+strconv.Itoa(i), pick(t, []reflect.Type{typeOf[int](), typeOf[string](), typeOf[*bool](), anyType}), `php:`+strconv.Quote(string(name))))
	}
	if len(fs) == 0 {
		t.Discard()
	}
	v := newValGen(t, ValOpts{NoNaN: true, Budget: 20, NoRaw: true, RT: true}).Value(reflect.StructOf(fs))
	for i := range v.NumField() { // decodes to what it was
		if v.Field(i).Kind() == reflect.Interface {
			v.Field(i).Set(reflect.ValueOf("v"))
		}
	}
	t.Desc(func() string { return fmt.Sprintf("struct with fields named %q", names) })
	t.NonTrivial(hashStr(strings.Join(names, ",")))
	out := checkMarshal(t, v.Interface())
	n, err := parseStrict(out)
	if err != nil {
		t.Failf("Marshal = %s: %v", clip(out), err)
	}
	for i, name := range names {
		if n.Ent[i].Key.Str != name {
			t.Failf("field named %q is written under %q", name, n.Ent[i].Key.Str)
		}
	}
	shuffle(t, n.Ent)
	back := newOf(v.Type())
	err = unmarshal(n.Bytes(), back.Addr().Interface())
	mustNotPanic(t, "Unmarshal", err)
	if err != nil {
		t.Failf("Unmarshal of %s failed: %v", clip(out), err)
	}
	if d := diff(v, back); d != "" {
		t.Failf("Unmarshal of %s: %s", clip(out), d)
	}
}

func c09Exhaustive(tier string, shard, shards int, tick func(int)) (err error) {
	fail := failError(&err)
	top := 2600
	if tier == "thorough" {
		top = 70000
	}
	pats := []string{"x", "\"", ";", "\x00", "\xff}", "é日"}
	for n := shard; n <= top && err == nil; n += shards {
		k := 1
		if n <= 2600 {
			k = len(pats)
		}
		for i := range k {
			p := pats[(i+n)%len(pats)]
			checkString(fail, strings.Repeat(p, n/len(p)+1)[:n])
			tick(1)
		}
	}
	// the lengths at which one more digit, or byte, is needed
	for i, n := range []int{1e5, 1e6 - 1, 1e6, 1<<20 + 1, 1e7 - 1, 1e7, 12345678, 1 << 24} {
		if i%shards == shard && err == nil {
			checkString(fail, strings.Repeat("x", n))
			tick(1)
		}
	}
	// all strings of two bytes
	step := shards
	if tier != "thorough" {
		step = shards * 3
	}
	for v := shard; v < 1<<16 && err == nil; v += step {
		checkString(fail, string([]byte{byte(v >> 8), byte(v)}))
		tick(1)
	}
	for v := shard; v < 1<<8 && err == nil; v += shards {
		checkString(fail, string([]byte{byte(v)}))
		tick(1)
	}
	return
}

func init() {
	register(&Property{ID: "C07",
		Rule: "integers of arbitrary size dense around the limits of every width, encoded from and decoded into every integer type in 8 to 12 kinds of place (key, value, element, field, string option, interface) against big-integer arithmetic, and all values of the 8 and 16 bit types with their neighbours; every case is non-trivial, distinct by text and type",
		Arms: []Arm{{"encode", c07Encode, 300000, 2000000}, {"decode", c07Decode, 300000, 2000000}}, Exhaustive: c07Exhaustive})
	register(&Property{ID: "C08",
		Rule: "floats of both widths from raw bits, limits and their neighbours, encoded in 8 kinds of place against the documented text form and exact rational arithmetic; decimal texts (limits, halfway points, up to 800 digits) decoded in 14 kinds of place against exact rational arithmetic; every case is non-trivial",
		Arms: []Arm{{"encode", c08Encode, 400000, 3000000}, {"decode", c08Decode, 400000, 3000000}, {"trip", c08Trip, 300000, 2000000}}, Exhaustive: c08Exhaustive})
	register(&Property{ID: "C09",
		Rule: "strings of any bytes (syntax characters, whole documents, invalid UTF-8) and lengths (every length up to 2600, edges to 100000, lengths of up to 8 digits) as values, keys, byte slices, class names, unknown keys and values, raw values, and names of struct fields of any letters, digits and punctuation; every case is non-trivial, distinct by content",
		Arms: []Arm{{"strings", c09, 64000, 640000}, {"nested", c09Nested, 32000, 320000}, {"fields", c09Fields, 6000, 30000}}, Exhaustive: c09Exhaustive})
}
