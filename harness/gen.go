package main

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"unsafe"
)

// TypeOpts restricts the types drawn.
type TypeOpts struct {
	NoIface    bool // no interface types
	NoMar      bool // no custom Marshalers
	Unm        bool // custom Unmarshalers allowed
	MarW, UnmW int  // weights of custom types when not 0
	RecW       int  // weight of recursive types when not 0
	NoRec      bool // no recursive named types
	NoTags     bool // no php tags
	StringTags bool // more ,string options
	StrAny     bool // ,string options at empty interfaces, which are decoded as without
	Enc        bool // types that are only encoded: Marshalers of types not supported otherwise, interfaces with methods
	Dec        bool // types that are only decoded: Unmarshalers of types not supported otherwise
	Decode     bool // types for decoding: no uintptr etc, interface fields with ,string are fine
	WideStruct bool // many fields
	BigArray   bool
}

// TypeGen draws Go types that Marshal and Unmarshal support.
type TypeGen struct {
	t *T
	o TypeOpts
	n int

	nonce string // added to the tags of struct fields
}

var fieldNames = []string{"A", "B", "C", "Name", "ID", "Value", "X", "Key", "Ünicode", "F_1"}

var tagNames = []string{"a", "b", "name", "id", "x-y", "k.v", "snake_case", "with space", "0", "1", "-1", "naïve", "日本", "A", "B", "Name", "omitempty", "string",
	"a/b", "a:b", "{}", "s:1", "é", "k", "kk", "kkk", "user[0]", "~", "-x", "$", "!", "#%&()*+", "<=>?", "@^|", strings.Repeat("long", 40)}

var badTagNames = []string{"a;b", "a'b", `a\b`, "tab\t", "q\"q", "a`"}

func (g *TypeGen) Any(depth int) reflect.Type {
	t := g.t
	g.n++
	if depth <= 0 || g.n > 120 {
		return g.leaf()
	}
	if g.n == 1 && t.Chance(1, 200) {
		return g.deep()
	}
	iface, mar, unm, rec := 3, 2, 0, 2
	if g.o.NoIface {
		iface = 0
	}
	if g.o.NoMar {
		mar = 0
	}
	if g.o.Unm {
		unm = 3
	}
	if g.o.MarW > 0 {
		mar = g.o.MarW
	}
	if g.o.UnmW > 0 {
		unm = g.o.UnmW
	}
	if g.o.RecW > 0 {
		rec = g.o.RecW
	}
	if g.o.NoRec {
		rec = 0
	}
	switch t.W(12, 2, 2, 6, 3, 6, 5, 8, iface, 2, rec, mar, unm) {
	case 0:
		return pick(t, scalarTypes)
	case 1:
		return bytesType
	case 2:
		return pick(t, namedScalars)
	case 3:
		return reflect.SliceOf(g.Any(depth - 1))
	case 4:
		n := g.arrayLen()
		e := g.Any(depth - 1)
		if sz := int(e.Size()); sz > 0 && n*sz > 1<<13 { // keep values small
			n = max(1, 1<<13/sz)
		}
		return reflect.ArrayOf(n, e)
	case 5:
		return reflect.MapOf(g.Key(), g.Any(depth-1))
	case 6:
		return g.Ptr(depth)
	case 7:
		return g.Struct(depth)
	case 8:
		if g.o.Enc && t.Chance(1, 5) {
			return fooIface
		}
		return anyType
	case 9:
		return g.named()
	case 10:
		if g.o.RecW > 0 && t.Bool() {
			return pick(t, pick(t, [][]reflect.Type{genericTypes, cliqueTypes, sameTypes}))
		}
		return pick(t, recursiveTypes)
	case 11:
		return g.marshaler()
	default:
		return g.unmarshaler()
	}
}

// deep draws a type of very many levels.
func (g *TypeGen) deep() reflect.Type {
	t := g.t
	g.n += 100
	rt := g.leaf()
	n := t.Int(8, 150)
	var ks []int
	for range t.Int(1, 4) {
		ks = append(ks, t.N(6))
	}
	for i := range n {
		switch ks[i%len(ks)] {
		case 0:
			rt = reflect.SliceOf(rt)
		case 1:
			rt = reflect.MapOf(pick(t, keyTypes[:5]), rt)
		case 2:
			rt = reflect.ArrayOf(1, rt)
		case 3:
			rt = reflect.StructOf([]reflect.StructField{{Name: "F", Type: rt, Tag: reflect.StructTag(pick(t, []string{"", `php:"f"`}))}})
		case 4:
			if rt.Kind() == reflect.Pointer {
				rt = reflect.SliceOf(rt)
			} else {
				rt = reflect.PointerTo(rt)
			}
		default:
			rt = reflect.StructOf([]reflect.StructField{{Name: "A", Type: typeOf[int]()}, {Name: "P", Type: rt}})
		}
	}
	t.Label("type of very many levels")
	return rt
}

func (g *TypeGen) named() reflect.Type {
	for {
		rt := pick(g.t, namedTypes)
		if g.t.Chance(1, 8) && !g.o.NoRec {
			rt = pick(g.t, sameTypes)
		}
		if g.o.NoIface && (rt == typeOf[MyStruct]() || rt == typeOf[MyStruct2]()) {
			return typeOf[MyMap]()
		}
		return rt
	}
}

func (g *TypeGen) arrayLen() int {
	switch g.t.W(8, 1, 1) {
	case 0:
		return g.t.Int(1, 4)
	case 1:
		return 0
	default:
		if g.o.BigArray {
			return g.t.Int(5, 300)
		}
		return g.t.Int(5, 14)
	}
}

func (g *TypeGen) leaf() reflect.Type {
	if g.o.MarW > 0 && g.t.Chance(g.o.MarW, 20) {
		return g.marshaler()
	}
	if g.o.UnmW > 0 && g.t.Chance(g.o.UnmW, 20) {
		return g.unmarshaler()
	}
	switch g.t.W(8, 2, 2) {
	case 0:
		return pick(g.t, scalarTypes)
	case 1:
		return bytesType
	default:
		return pick(g.t, namedScalars)
	}
}

func (g *TypeGen) marshaler() reflect.Type {
	if g.o.Enc && g.t.Chance(1, 3) {
		return pick(g.t, onlyMarshalers)
	}
	return pick(g.t, marshalerTypes)
}

func (g *TypeGen) unmarshaler() reflect.Type {
	if g.o.Dec && g.t.Chance(1, 3) {
		return pick(g.t, onlyUnmarshalers)
	}
	return pick(g.t, unmarshalerTypes)
}

var fooIface = typeOf[notMarshaler]()

var keyTypes = []reflect.Type{
	typeOf[string](), typeOf[int](), typeOf[int64](), typeOf[int8](), typeOf[int16](), typeOf[int32](),
	typeOf[uint](), typeOf[uint8](), typeOf[uint16](), typeOf[uint32](), typeOf[uint64](), typeOf[MyStr](), typeOf[MyInt](), typeOf[MyU8](), typeOf[MyI64](), typeOf[MarStr](), typeOf[MarInt](), // keys are written by their kind
}

func (g *TypeGen) Key() reflect.Type { return pick(g.t, keyTypes) }

// Ptr draws a pointer; a pointer to a pointer is not supported as a static type.
func (g *TypeGen) Ptr(depth int) reflect.Type {
	e := g.Any(depth - 1)
	if e.Kind() == reflect.Pointer || (e.Kind() == reflect.Interface && g.t.Bool()) {
		return e
	}
	return reflect.PointerTo(e)
}

// Struct draws a struct type with distinct keys.
func (g *TypeGen) Struct(depth int) reflect.Type {
	t := g.t
	var n int
	switch t.W(12, 2, 1) {
	case 0:
		n = t.Int(1, 6)
	case 1:
		n = 0
	default:
		n = t.Int(7, 16)
		if g.o.WideStruct {
			n = t.Int(7, 140)
			if t.Chance(1, 5) {
				n = t.Int(141, 700)
			}
		}
	}
	if v, ok := t.dictWithin(7, 140); ok && g.n < 20 {
		n = v
	}
	many := n > 16 && depth > 1 && t.Chance(1, 4) // of many types
	var fs []reflect.StructField
	names := map[string]bool{}
	keys := map[string]bool{}
	for i := 0; i < n; i++ {
		f := reflect.StructField{Name: "F" + strconv.Itoa(i)}
		if t.Chance(1, 2) {
			if nm := pick(t, fieldNames); !names[nm] {
				f.Name = nm
			}
		}
		names[f.Name] = true
		if n > 16 && !many {
			f.Type = g.leaf()
		} else {
			f.Type = g.Any(depth - 1)
		}
		if t.Chance(1, 14) { // unexported
			f.Name = "u" + strconv.Itoa(i)
			f.PkgPath = "verifharness"
			if t.Chance(1, 3) {
				f.Type = pick(t, ignoredTypes())
			}
			if t.Bool() {
				f.Tag = `php:"hidden` + reflect.StructTag(strconv.Itoa(i)) + `"`
			}
			fs = append(fs, f)
			continue
		}
		key := f.Name
		if !g.o.NoTags {
			tag, k := g.tag(f.Name, f.Type)
			if keys[k] || (k != f.Name && names[k]) {
				tag, k = "", f.Name // keep keys distinct
			}
			if tag != "" {
				f.Tag = reflect.StructTag(tag)
			}
			key = k
			if strings.HasPrefix(k, ignoredKey) {
				switch t.N(4) {
				case 0: // of any type
					f.Type = pick(t, ignoredTypes())
				case 1: // embedded
					e := pick(t, embeddedTypes)
					if n := strings.TrimPrefix(e.String(), "*main."); !names[strings.TrimPrefix(n, "main.")] {
						f.Type, f.Anonymous, f.Name = e, true, strings.TrimPrefix(n, "main.")
						names[f.Name] = true
					}
				}
			}
		}
		if keys[key] {
			continue
		}
		keys[key] = true
		if g.nonce != "" && i == 0 {
			f.Tag += reflect.StructTag(g.nonce)
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

const ignoredKey = "\x00ignored"

// types of ignored fields: they matter in no way, whatever they are
var ignoredSamples = []any{
	make(chan int), (chan string)(nil), (func())(nil), (func(int) string)(nil), complex64(1), complex128(0), unsafe.Pointer(nil),
	map[float64]int{1: 1}, map[[2]int]string{{}: "x"}, map[bool]int{true: 1}, map[any]any{1: 1}, map[*int]int{nil: 1}, map[notMarshaler]int{fooInt(1): 1},
	withEmb{}, &withEmb{}, withEmbPtr{}, new(*int), new(**string), []chan int{nil}, map[string]func(){"a": nil}, [1]complex64{2}, struct{ C chan int }{}, []**int{nil}, [2]withEmb{},
	struct {
		A int `php:"x"`
		B int `php:"x"`
	}{}, struct {
		S []int `php:",string"`
	}{[]int{1}}, []map[complex64]int{{1: 1}}, new(error), new(notMarshaler), []error{nil},
}

var ignoredSample = map[reflect.Type]reflect.Value{}

var ignoredTypes = sync.OnceValue(func() (ts []reflect.Type) {
	for _, v := range ignoredSamples {
		rt := reflect.TypeOf(v)
		ignoredSample[rt] = reflect.ValueOf(v)
		ts = append(ts, rt)
	}
	return
})

// types that are embedded in fields that are ignored
var embeddedTypes = []reflect.Type{typeOf[MyStruct](), typeOf[*MyStruct](), typeOf[MyStruct2](), typeOf[*MyStruct2](), typeOf[RecList](), typeOf[*RecList](), typeOf[MyInt](), typeOf[MySlice](),
	typeOf[WithChan](), typeOf[*WithChan](), typeOf[RecTree](), typeOf[EmbHidden2]()}

func canStringTag(rt reflect.Type, decode bool) bool {
	if rt.Kind() == reflect.Pointer {
		rt = rt.Elem()
	}
	if reflect.PointerTo(rt).Implements(unmarshalerIface) || reflect.PointerTo(rt).Implements(marshalerIface) {
		return false
	}
	switch rt.Kind() {
	case reflect.Bool, reflect.String, reflect.Float32, reflect.Float64,
		reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return true
	}
	return false
}

var otherTags = []string{`json:"other,omitempty"`, `json:"-"`, `PHP:"-"`, `phpserialize:"q,omitempty,string"`, `Php:"z"`, `db:"php"`}

// words that are not options
var noOptions = []string{"", "inline", "OmitEmpty", "omitempty2", "foo", " omitempty", "omitempty ", "omitempty\t", "OMITEMPTY", "omitEmpty", "omit", "omitzero", "omitempty=1", "-omitempty",
	" string", "string ", "String", "STRING", "strings", "str", "string=1", "-", "squash", "int", "bool", "required", "default"}

// tag draws a struct tag and reports the effective key of the field.
func (g *TypeGen) tag(name string, ft reflect.Type) (string, string) {
	t := g.t
	key := name
	var v string
	switch t.W(4, 8, 1, 1, 1) {
	case 0: // no name
	case 1:
		v = pick(t, tagNames)
		if t.Chance(1, 4) {
			v += strconv.Itoa(t.N(50))
		}
		if s, ok := t.dictStr(); ok && validTagName(s) && s != "-" {
			v = s
		} else if n, ok := t.dictWithin(1, 300); ok {
			v = strings.Repeat(pick(t, []string{"k", "n", "x"}), n)
		}
		key = v
	case 2:
		return pick(t, []string{`php:"-"`, `php:"-"`, `php:"-" json:"a"`, `json:"b,omitempty" php:"-"`}), ignoredKey + name
	case 3: // a name that is not valid is not used
		v = pick(t, badTagNames)
	case 4: // a key "-"
		v, key = "-", "-"
	}
	sw := 6
	if g.o.StringTags {
		sw = 1
	}
	var opts []string
	if t.Chance(1, 3) {
		opts = append(opts, "omitempty")
	}
	if (canStringTag(ft, g.o.Decode) || g.o.StrAny && ft == anyType) && t.Chance(1, sw) {
		opts = append(opts, "string")
	}
	for t.Chance(1, 8) && len(opts) < 4 {
		opts = append(opts, pick(t, noOptions))
	}
	if len(opts) > 0 && t.Chance(1, 10) {
		opts = append(opts, opts[0]) // an option given twice
	}
	if len(opts) > 1 {
		shuffle(t, opts)
	}
	if v == "-" && len(opts) == 0 {
		opts = append(opts, "")
	}
	if len(opts) > 0 {
		v += "," + strings.Join(opts, ",")
	}
	if v == "" && t.Bool() {
		return pick(t, []string{"", "", `json:"-"`, `phpx:"b,omitempty"`, `php`, `php:b`, `yaml:"b,string"`}), key
	}
	tag := "php:" + strconv.Quote(v)
	if t.Chance(1, 4) {
		tag = pick(t, otherTags) + " " + tag + ` yaml:"zzz"`
	}
	return tag, key
}

// ---- values ----

// ValOpts bounds and restricts the values drawn.
type ValOpts struct {
	Budget  int  // nodes
	RT      bool // values that can be decoded again into the same type
	Sharing bool // the same pointer, slice or map may occur several times
	Big     bool // long strings and containers now and then
	NilPct  int  // chance in 8 of a nil pointer, slice, map or interface
	Types   *TypeGen
	NoRaw   bool // custom Marshalers return well-formed bytes
	MarErr  bool // custom Marshalers may fail
	NoNaN   bool
	Prior   bool // contents of a destination: interfaces hold all that decoding into them could fill by mistake
}

// ValGen fills values.
type ValGen struct {
	t    *T
	o    ValOpts
	left int
	pool map[reflect.Type][]shared
	big  bool
	exp  int // nodes once shared values are written out
}

type shared struct {
	v      reflect.Value
	weight int
}

func newValGen(t *T, o ValOpts) *ValGen {
	if o.Budget == 0 {
		o.Budget = 60
	}
	return &ValGen{t: t, o: o, left: o.Budget, pool: map[reflect.Type][]shared{}}
}

var lenEdges = []int{0, 1, 2, 8, 9, 10, 11, 12, 15, 16, 31, 32, 63, 64, 98, 99, 100, 101, 127, 128, 255, 256, 257, 511, 512, 999, 1000, 1001, 1023, 1024, 1025}
var bigLenEdges = []int{2047, 2048, 4095, 4096, 4097, 8191, 8192, 9999, 10000, 10001, 16384, 32767, 32768, 65535, 65536, 65537, 99999, 100000}

var stringAtoms = []string{"a", "b", "z", "0", "9", `"`, ";", ":", "{", "}", `";`, "\x00", "\n", "\xff", "\x80", "é", "日", "😀", "i:1;", `s:1:"a";`, "N;", "}", "\\", "'", " ",
	"\xc3", "\r\n", "a:1:{", "\u2028", "b:1;", "-", "."}

var specialStrings = []string{"", "0", "1", "-1", "01", "1.5", "true", "null", `"`, `";`, "\x00", "\xff\xfe", "N;", `s:0:"";`, "a:0:{}", "}", strings.Repeat("}", 9), "9223372036854775807"}

// Str draws a string of any bytes.
func (g *ValGen) Str() string { return drawString(g.t, g.o.Big && !g.big, &g.big) }

func drawString(t *T, big bool, used *bool) string {
	if s, ok := t.dictStr(); ok {
		return s
	}
	switch t.W(10, 3, 5, 2) {
	case 0:
		var sb strings.Builder
		for n := t.Int(0, 6); n > 0; n-- {
			sb.WriteString(pick(t, stringAtoms))
		}
		return sb.String()
	case 1:
		return pick(t, specialStrings)
	case 2: // arbitrary bytes
		b := make([]byte, t.Int(0, 14))
		for i := range b {
			b[i] = byte(t.U64(255))
		}
		return string(b)
	default:
		n := pick(t, lenEdges)
		if big && t.Chance(1, 12) {
			n = pick(t, bigLenEdges)
			if used != nil {
				*used = true
			}
		}
		if t.Chance(1, 4) {
			n += t.Int(0, 3)
		}
		if v, ok := t.dictWithin(0, 1<<10); ok {
			n = v
		} else if v, ok := t.dictWithin(0, 1<<17); ok && big {
			n = v
			if used != nil {
				*used = true
			}
		}
		if t.Bool() {
			return strings.Repeat(pick(t, []string{"x", `"`, ";", "\x00", "\xff", "}"}), n)
		}
		seed := t.U64(1 << 20)
		b := make([]byte, n)
		for i := range b {
			if i%8 == 0 {
				seed = mix(seed)
			}
			b[i] = byte(seed >> (8 * (i % 8)))
		}
		return string(b)
	}
}

// Int64 draws a signed integer within the bit size, biased to the edges.
func drawInt(t *T, bits int) int64 {
	lo, hi := int64(math.MinInt64), int64(math.MaxInt64)
	if bits < 64 {
		lo, hi = -(int64(1) << (bits - 1)), int64(1)<<(bits-1)-1
	}
	var v int64
	how := t.W(6, 3, 3, 3, 3)
	if d, ok := t.dictInt(); ok {
		how, v = -1, int64(d)
		if t.Bool() {
			v = -v
		}
	}
	switch how {
	case 0:
		v = int64(t.Int(0, 20)) - 4
	case 1:
		v = pick(t, []int64{lo, hi, lo + 1, hi - 1, -1, 0})
	case 2: // powers of ten
		p := int64(1)
		for n := t.N(19); n > 0; n-- {
			p *= 10
		}
		v = p + int64(t.Int(0, 2)) - 1
		if t.Bool() {
			v = -v
		}
	case 3: // powers of two
		v = int64(uint64(1)<<t.N(64)) + int64(t.Int(0, 2)) - 1
		if t.Bool() {
			v = -v
		}
	case 4:
		v = int64(t.U64(math.MaxUint64))
	}
	if bits < 64 && (v < lo || v > hi) {
		v = v << (64 - bits) >> (64 - bits)
	}
	return v
}

func drawUint(t *T, bits int) uint64 {
	var v uint64
	how := t.W(6, 3, 3, 3, 3)
	if d, ok := t.dictInt(); ok {
		how, v = -1, d
	}
	switch how {
	case 0:
		v = uint64(t.Int(0, 20))
	case 1:
		v = pick(t, []uint64{0, math.MaxUint64, math.MaxUint64 - 1, 1, math.MaxInt64, math.MaxInt64 + 1}) & (math.MaxUint64 >> (64 - bits))
	case 2:
		p := uint64(1)
		for n := t.N(20); n > 0; n-- {
			p *= 10
		}
		v = p + uint64(t.Int(0, 2)) - 1
	case 3:
		v = uint64(1)<<t.N(64) + uint64(t.Int(0, 2)) - 1
	case 4:
		v = t.U64(math.MaxUint64)
	}
	return v & (math.MaxUint64 >> (64 - bits))
}

var floatEdges64 = []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 0.5, 1.5, 1e-6, 9.999999999999999e-7, 1e-7, 1e21, 9.999999999999999e20, 1e20, 1e22, 123456789.125, 1e15, 1e16, 1e17,
	math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 2.2250738585072014e-308, 2.225073858507201e-308, math.Inf(1), math.Inf(-1), math.NaN(),
	1 << 53, 1<<53 + 2, 1 << 63, 1 << 64, 0.30000000000000004, math.Pi, 1e308, 5e-324, 4.35, 100, 1e5, 1e6, 1e-5, math.MaxFloat32, 2 * math.MaxFloat32, 1e100, 1e-100}

var floatEdges32 = []float32{0, float32(math.Copysign(0, -1)), 1, -1, 0.1, 0.5, 1e-6, 9.999999e-7, 1.0000001e-6, 1e21, 9.999999e20, 1.0000001e21, 1e20, math.MaxFloat32, -math.MaxFloat32,
	math.SmallestNonzeroFloat32, 1.1754944e-38, 1.1754942e-38, float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN()), 1 << 24, 1<<24 + 2, 16777216, 3.4e38, 0.3, 1e10, 123456.789, 8388608.5}

func drawFloat64(t *T, nan bool) float64 {
	var f float64
	switch t.W(6, 5, 4, 4, 3) {
	case 0:
		f = float64(t.Int(0, 30)) / 4
	case 1:
		f = pick(t, floatEdges64)
	case 2:
		f = math.Float64frombits(t.U64(math.MaxUint64))
	case 3: // near an edge
		f = math.Float64frombits(math.Float64bits(pick(t, floatEdges64)) + t.U64(4) - 2)
	case 4: // decimal like
		f = float64(drawInt(t, 54)) / math.Pow(10, float64(t.Int(0, 30)))
	}
	if d, ok := t.dictInt(); ok {
		f = float64(d) + pick(t, []float64{0, 0.5, -0.25})
	}
	if nan && math.IsNaN(f) {
		return 1.25
	}
	return f
}

func drawFloat32(t *T, nan bool) float32 {
	var f float32
	switch t.W(6, 5, 4, 4, 3) {
	case 0:
		f = float32(t.Int(0, 30)) / 4
	case 1:
		f = pick(t, floatEdges32)
	case 2:
		f = math.Float32frombits(uint32(t.U64(math.MaxUint32)))
	case 3:
		f = math.Float32frombits(math.Float32bits(pick(t, floatEdges32)) + uint32(t.U64(4)) - 2)
	case 4:
		f = float32(drawInt(t, 25)) / float32(math.Pow(10, float64(t.Int(0, 12))))
	}
	if nan && f != f {
		return 1.25
	}
	return f
}

func (g *ValGen) isNil() bool { return g.t.Chance(g.o.NilPct, 8) }

// size of a container
func (g *ValGen) size() int {
	t := g.t
	var n int
	switch t.W(10, 3, 2, 2) {
	case 0:
		n = t.Int(1, 4)
	case 1:
		n = 0
	case 2:
		n = t.Int(5, 12)
	case 3:
		n = t.Int(13, 30)
		if g.o.Big && !g.big && t.Chance(1, 5) {
			n = pick(t, []int{99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1024, 1030})
			g.big = true
			g.left = max(g.left, n+10)
		}
	}
	if v, ok := t.dictWithin(0, 40); ok {
		n = v
	} else if v, ok := t.dictWithin(0, 2000); ok && g.o.Big && !g.big {
		n, g.big = v, true
		g.left = max(g.left, n+10)
	}
	return min(n, max(g.left, 0))
}

// Value draws a value of the type.
func (g *ValGen) Value(rt reflect.Type) reflect.Value {
	rv := reflect.New(rt).Elem()
	g.Fill(rv)
	return rv
}

func (g *ValGen) Fill(rv reflect.Value) {
	t := g.t
	rt := rv.Type()
	g.left--
	g.exp++
	exp0 := g.exp
	if rt == typeOf[MarStr]() || rt == typeOf[MarBytes]() || rt == typeOf[MarStruct]() || rt == typeOf[MarPtr]() {
		s := g.Str()
		switch {
		case g.o.MarErr && t.Chance(1, 3):
			s = "ERR" + s + "!"
		case !g.o.NoRaw && t.Chance(1, 6):
			s = "RAW" + s
		}
		if rv.Kind() == reflect.String {
			rv.SetString(s)
		} else if rv.Kind() == reflect.Struct {
			rv.Field(0).SetString(s)
		} else {
			rv.SetBytes([]byte(s))
		}
		return
	}
	if rt == typeOf[Both]() {
		*(rv.Addr().Interface().(*Both)) = Both{g.Str()}
		return
	}
	if rt == marshalerIface {
		if g.isNil() {
			return
		}
		v := g.Value(pick(t, marshalerConcrete))
		rv.Set(v)
		return
	}
	if s, ok := ignoredSample[rt]; ok {
		if t.Bool() && !g.o.RT {
			rv.Set(s)
		}
		return
	}
	if rt == fooIface {
		if !g.isNil() && g.left > 0 {
			rv.Set(g.Value(pick(t, fooTypes)))
		}
		return
	}
	switch rv.Kind() {
	case reflect.Complex128:
		rv.SetComplex(complex(float64(t.Int(0, 9)), float64(t.Int(0, 9))))
	case reflect.Uintptr:
		rv.SetUint(uint64(t.Int(0, 300)))
	case reflect.Chan:
		if !g.isNil() {
			rv.Set(reflect.MakeChan(rt, t.Int(0, 9)))
		}
	case reflect.Func:
		if rt == typeOf[MarFunc]() && !g.isNil() {
			s := g.Str()
			rv.Set(reflect.ValueOf(MarFunc(func() string { return s })))
		}
	case reflect.Bool:
		rv.SetBool(t.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		rv.SetInt(drawInt(t, rt.Bits()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		rv.SetUint(drawUint(t, rt.Bits()))
	case reflect.Float32:
		rv.SetFloat(float64(drawFloat32(t, g.o.NoNaN)))
	case reflect.Float64:
		rv.SetFloat(drawFloat64(t, g.o.NoNaN))
	case reflect.String:
		rv.SetString(g.Str())
	case reflect.Slice:
		if g.isNil() {
			return
		}
		if rt.Elem().Kind() == reflect.Uint8 {
			s := g.Str()
			v := reflect.MakeSlice(rt, len(s), len(s)+t.Int(0, 3))
			reflect.Copy(v, reflect.ValueOf(s))
			rv.Set(v)
			return
		}
		if g.share(rv) {
			return
		}
		n := g.size()
		if isHeavy(rt.Elem()) {
			n = min(n, 3)
		}
		spare := t.Int(0, 2)
		if g.o.Prior && t.Chance(1, 3) { // part of a longer one
			spare += t.Int(1, 9)
		}
		v := reflect.MakeSlice(rt, n, n+spare)
		for i := 0; i < n; i++ {
			g.Fill(v.Index(i))
		}
		if g.o.Prior {
			for i := n; i < n+spare && g.left > 0; i++ {
				g.Fill(v.Slice(0, v.Cap()).Index(i))
			}
		}
		rv.Set(v)
		g.keep(rv, g.exp-exp0)
	case reflect.Array:
		for i := 0; i < rv.Len(); i++ {
			g.Fill(rv.Index(i))
		}
	case reflect.Map:
		if g.isNil() || g.share(rv) {
			return
		}
		n := g.size()
		m := reflect.MakeMap(rt)
		for i := 0; i < n; i++ {
			k := g.mapKey(rt.Key())
			m.SetMapIndex(k, g.Value(rt.Elem()))
		}
		rv.Set(m)
		g.keep(rv, g.exp-exp0)
	case reflect.Pointer:
		if g.isNil() || (g.left < -50 && recursive(rt)) || g.share(rv) {
			return
		}
		p := reflect.New(rt.Elem())
		g.Fill(p.Elem())
		rv.Set(p.Convert(rt))
		g.keep(rv, g.exp-exp0)
	case reflect.Struct:
		for i := 0; i < rv.NumField(); i++ {
			f := rv.Field(i)
			if !f.CanSet() { // unexported: must neither be written out nor be changed
				if g.o.RT {
					continue
				}
				f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			}
			if g.t.Chance(1, 6) {
				continue // zero
			}
			g.Fill(f)
		}
	case reflect.Interface:
		if g.isNil() || rt.NumMethod() > 0 {
			return
		}
		rv.Set(g.dynamic())
	}
}

func isHeavy(rt reflect.Type) bool {
	return rt.Kind() == reflect.Array && rt.Len() > 20
}

var recCache = map[reflect.Type]bool{}

func recursive(rt reflect.Type) bool {
	if v, ok := recCache[rt]; ok {
		return v
	}
	v := reaches(rt, rt, map[reflect.Type]bool{})
	recCache[rt] = v
	return v
}

func reaches(from, to reflect.Type, seen map[reflect.Type]bool) bool {
	if seen[from] {
		return false
	}
	seen[from] = true
	check := func(rt reflect.Type) bool { return rt == to || reaches(rt, to, seen) }
	switch from.Kind() {
	case reflect.Pointer, reflect.Slice, reflect.Array, reflect.Map:
		return check(from.Elem())
	case reflect.Struct:
		for i := 0; i < from.NumField(); i++ {
			if check(from.Field(i).Type) {
				return true
			}
		}
	}
	return false
}

// share reuses a finished value, so that it occurs several times without being cyclic.
func (g *ValGen) share(rv reflect.Value) bool {
	if !g.o.Sharing {
		return false
	}
	if p := g.pool[rv.Type()]; len(p) > 0 && g.t.Chance(1, 3) {
		sh := p[g.t.N(len(p))]
		if g.exp+sh.weight > 2000 {
			return false
		}
		g.exp += sh.weight
		rv.Set(sh.v)
		if rv.Kind() == reflect.Slice && rv.Len() > 0 && g.t.Bool() {
			rv.Set(rv.Slice(0, g.t.Int(0, rv.Len())))
		}
		g.t.Label("shared")
		return true
	}
	return false
}

func (g *ValGen) keep(rv reflect.Value, weight int) {
	if g.o.Sharing {
		g.pool[rv.Type()] = append(g.pool[rv.Type()], shared{reflect.ValueOf(rv.Interface()), weight})
	}
}

func (g *ValGen) mapKey(rt reflect.Type) reflect.Value {
	k := reflect.New(rt).Elem()
	t := g.t
	switch k.Kind() {
	case reflect.String:
		switch t.W(5, 1) {
		case 0:
			k.SetString(pick(t, []string{"a", "b", "c", "k", "key", "0", "1", "10", "-1", "", "x\x00", `q"`, "é"}) + strings.Repeat("x", t.Int(0, 3)))
		default:
			k.SetString(g.Str())
		}
		if g.left < 0 && len(k.String()) > 40 {
			k.SetString("t" + strconv.Itoa(t.N(100)))
		}
	case reflect.Interface:
		if t.Bool() {
			k.Set(reflect.ValueOf(drawInt(t, 64)))
		} else {
			k.Set(reflect.ValueOf(g.Str()))
		}
	default:
		g.Fill(k)
	}
	return k
}

var priorTypes = []reflect.Type{
	typeOf[map[any]any](), typeOf[map[string]any](), typeOf[[]any](), typeOf[*any](), typeOf[*int64](), typeOf[*string](), typeOf[*bool](), typeOf[*float64](),
	typeOf[*map[any]any](), typeOf[*map[string]any](), typeOf[*[]any](), typeOf[*struct{ A, B any }](), typeOf[map[string]int64](), typeOf[[]int64](), typeOf[[3]any](),
	typeOf[*UnmRec](), typeOf[UnmMap](), typeOf[*map[int64]any](), typeOf[*[2]int64](), typeOf[*[]byte](), typeOf[[]byte](),
}

// dynamic draws a value to put into an empty interface.
func (g *ValGen) dynamic() reflect.Value {
	t := g.t
	if g.o.RT { // only what decodes into an interface again
		switch t.N(4) {
		case 0:
			return reflect.ValueOf(drawInt(t, 64))
		case 1:
			return reflect.ValueOf(g.Str())
		case 2:
			return reflect.ValueOf(t.Bool())
		default:
			return reflect.ValueOf(drawFloat64(t, g.o.NoNaN))
		}
	}
	depth := 2
	if g.left < 10 {
		depth = 0
	}
	if g.o.Prior && t.Bool() {
		rt := pick(t, priorTypes)
		if rt.Kind() == reflect.Pointer && rt.Elem().Kind() != reflect.Pointer { // never nil
			p := reflect.New(rt.Elem())
			p.Elem().Set(g.Value(rt.Elem()))
			return p
		}
		return g.Value(rt)
	}
	switch t.W(6, 3, 3, 6, 2) {
	case 0:
		return g.Value(pick(t, scalarTypes))
	case 1:
		return g.Value(typeOf[[]any]())
	case 2:
		return g.Value(typeOf[map[string]any]())
	case 3:
		if g.o.Types == nil {
			return g.Value(pick(t, namedScalars))
		}
		rt := g.o.Types.Any(depth)
		for rt.Kind() == reflect.Interface {
			rt = typeOf[int]()
		}
		return g.Value(rt)
	default: // pointers to pointers are fine inside an interface
		rt := pick(t, scalarTypes)
		v := g.Value(rt)
		for n := t.Int(1, 3); n > 0; n-- {
			p := reflect.New(v.Type())
			p.Elem().Set(v)
			v = p
		}
		return v
	}
}

// show renders a value for people.
func show(rv reflect.Value) string { return showDepth(rv, 0) }

func showDepth(rv reflect.Value, d int) string {
	if d > 12 {
		return "…"
	}
	if !rv.IsValid() {
		return "nil"
	}
	switch rv.Kind() {
	case reflect.Pointer:
		if rv.IsNil() {
			return "nil"
		}
		return "&" + showDepth(rv.Elem(), d+1)
	case reflect.Interface:
		if rv.IsNil() {
			return "any(nil)"
		}
		return "any(" + typeName(rv.Elem().Type()) + " " + showDepth(rv.Elem(), d+1) + ")"
	case reflect.Slice:
		if rv.IsNil() {
			return "nil"
		}
		if rv.Type().Elem().Kind() == reflect.Uint8 {
			return "bytes" + clip(rv.Bytes())
		}
		fallthrough
	case reflect.Array:
		var s []string
		for i := 0; i < rv.Len() && i < 40; i++ {
			s = append(s, showDepth(rv.Index(i), d+1))
		}
		if rv.Len() > 40 {
			s = append(s, fmt.Sprintf("…(%d)", rv.Len()))
		}
		return "[" + strings.Join(s, " ") + "]"
	case reflect.Map:
		if rv.IsNil() {
			return "nil"
		}
		var s []string
		it := rv.MapRange()
		for it.Next() {
			s = append(s, showDepth(it.Key(), d+1)+":"+showDepth(it.Value(), d+1))
		}
		sortStrings(s)
		if len(s) > 40 {
			s = append(s[:40], fmt.Sprintf("…(%d)", rv.Len()))
		}
		return "map{" + strings.Join(s, " ") + "}"
	case reflect.Struct:
		var s []string
		for i := 0; i < rv.NumField(); i++ {
			s = append(s, rv.Type().Field(i).Name+":"+showDepth(rv.Field(i), d+1))
		}
		return "{" + strings.Join(s, " ") + "}"
	case reflect.String:
		return clip([]byte(rv.String()))
	case reflect.Bool:
		return strconv.FormatBool(rv.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(rv.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return strconv.FormatUint(rv.Uint(), 10)
	case reflect.Float32, reflect.Float64:
		return strconv.FormatFloat(rv.Float(), 'g', -1, 64)
	}
	return rv.Kind().String()
}

func typeName(rt reflect.Type) string {
	s := strings.ReplaceAll(rt.String(), "main.", "")
	if len(s) > 500 {
		s = s[:500] + "…"
	}
	return s
}
