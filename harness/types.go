package main

import (
	"errors"
	"fmt"
	"reflect"
	"strconv"

	phpserialize "github.com/trim21/go-phpserialize"
)

// ---- named types the dynamic generator cannot build ----

type MyBool bool
type MyInt int
type MyI8 int8
type MyI16 int16
type MyI32 int32
type MyI64 int64
type MyU8 uint8
type MyU16 uint16
type MyU32 uint32
type MyU64 uint64
type MyUint uint
type MyF32 float32
type MyF64 float64
type MyStr string
type MyBytes []byte
type MySlice []int
type MyStrs []string
type MyMap map[string]int
type MyIMap map[int]string
type MyArr [3]int
type MyAny any
type MyPtr *int
type MyStruct struct {
	A int
	B string `php:"b"`
	C *MyStruct2
	d int
}
type MyStruct2 struct {
	X []int          `php:"x,omitempty"`
	Y map[string]any `php:"y,omitempty"`
	Z float64        `php:",string"`
	W bool           `php:"-"`
}

// embedded fields that are not structs are plain fields
type EmbInt struct {
	MyInt
	MyStr `php:"s"`
	B     bool
}

type EmbMore struct {
	*MyInt
	*MyF32 `php:"f,omitempty,string"`
	MyMap
	*MySlice `php:",omitempty"`
	MyAny
	*MyArr `php:"-,"`
	MyBool `php:",string"`
	*MyStr
}

// WithChan is not supported, but may be ignored.
type WithChan struct {
	A int
	C chan int
	F func()
}

type embHid struct {
	A int
	B string `php:"b"`
}

type embFunc func()

// EmbHidden embeds what is ignored: types that are not exported, and what is tagged so.
type EmbHidden struct {
	embHid
	*embFunc
	A         int
	MyStruct  `php:"-"`
	*WithChan `php:"-"`
	B         string `php:"b"`
	error
	MyMap
}

type EmbHidden2 struct {
	*embHid
	X         uint8 `php:"x,omitempty"`
	MyStruct2 `php:"-" json:"y"`
	RecTree   `php:"-"`
	c         chan int
	Y         []string
}

// ---- recursive types ----

type RecS []RecS
type RecM map[string]RecM
type RecIM map[int]RecIM
type RecList struct {
	V    int
	Next *RecList `php:"next"`
}
type RecTree struct {
	Name string     `php:"name"`
	Kids []*RecTree `php:"kids"`
}
type RecTreeV struct {
	N    uint8
	Kids []RecTreeV
}
type RecMapT struct {
	V int64              `php:"v,omitempty"`
	M map[string]RecMapT `php:"m"`
	P map[int8]*RecMapT  `php:"p,omitempty"`
}
type RecArr struct {
	A [2]*RecArr
	V int
}
type RecPA [1]*RecPA
type RecPA3 [3]*RecPA3
type RecPA7 [7]*RecPA7
type RecSA3 [3][]RecSA3
type RecMA map[string]*[2]RecMA
type RecSA [][2]RecSA
type RecPS []*RecPS
type RecPM map[string]*RecPM
type RecMutA struct {
	B *RecMutB `php:"b"`
	S string
}
type RecMutB struct {
	A  *RecMutA `php:"a,omitempty"`
	As []RecMutA
}
type RecMS map[string][]RecMS
type RecFieldPA struct {
	P *[1]RecFieldPA
	V bool
}
type RecFieldPS struct {
	P *[]RecFieldPS
	V bool
}
type RecFieldPM struct {
	P *map[string]RecFieldPM
	V bool
}

// recursive through interfaces (encode only)
type IfaceNode struct {
	Next any
	V    int
}
type IfacePtrNode struct {
	P *any
	V int
}

var recursiveTypes = []reflect.Type{
	typeOf[RecS](), typeOf[RecM](), typeOf[RecIM](), typeOf[RecList](), typeOf[RecTree](), typeOf[RecTreeV](), typeOf[RecMapT](),
	typeOf[RecArr](), typeOf[RecPA](), typeOf[RecSA](), typeOf[RecPS](), typeOf[RecPM](), typeOf[RecMutA](), typeOf[RecMutB](), typeOf[RecMS](),
	typeOf[RecFieldPA](), typeOf[RecFieldPS](), typeOf[RecFieldPM](),
	typeOf[RecPA3](), typeOf[RecSA3](), typeOf[RecMA](), typeOf[GLens[int]](), typeOf[GKinds[string]](),
}

var namedTypes = []reflect.Type{
	typeOf[MyStruct](), typeOf[MyStruct2](), typeOf[MySlice](), typeOf[MyStrs](), typeOf[MyMap](), typeOf[MyIMap](), typeOf[MyArr](),
	typeOf[MyBytes](), typeOf[[]MyU8](), typeOf[EmbInt](), typeOf[EmbMore](), typeOf[MyPtr](), typeOf[EmbHidden](), typeOf[EmbHidden2](),
}

var scalarTypes = []reflect.Type{
	typeOf[int](), typeOf[string](), typeOf[bool](), typeOf[float64](), typeOf[int8](), typeOf[int16](), typeOf[int32](), typeOf[int64](),
	typeOf[uint](), typeOf[uint8](), typeOf[uint16](), typeOf[uint32](), typeOf[uint64](), typeOf[float32](),
}

var namedScalars = []reflect.Type{
	typeOf[MyInt](), typeOf[MyStr](), typeOf[MyBool](), typeOf[MyF64](), typeOf[MyF32](), typeOf[MyI8](), typeOf[MyI16](), typeOf[MyI32](),
	typeOf[MyI64](), typeOf[MyU8](), typeOf[MyU16](), typeOf[MyU32](), typeOf[MyU64](), typeOf[MyUint](),
}

func typeOf[V any]() reflect.Type { return reflect.TypeOf((*V)(nil)).Elem() }

var (
	bytesType = typeOf[[]byte]()
	anyType   = typeOf[any]()
)

// ---- custom Marshalers ----

// marshalerI is the public Marshaler interface, restated so that the model does not use the library.
type marshalerI interface{ MarshalPHP() ([]byte, error) }
type unmarshalerI interface{ UnmarshalPHP([]byte) error }

var (
	marshalerIface   = typeOf[marshalerI]()
	unmarshalerIface = typeOf[unmarshalerI]()
)

var errCustom = errors.New("custom marshaler failure")

func customBytes(tag string, v any) ([]byte, error) {
	s := fmt.Sprint(v)
	if len(s) > 3 && s[:3] == "ERR" {
		return nil, errCustom
	}
	if len(s) > 3 && s[:3] == "RAW" { // not even well formed: output is documented as not validated
		return []byte(s[3:]), nil
	}
	s = tag + s
	return []byte("s:" + strconv.Itoa(len(s)) + `:"` + s + `";`), nil
}

type MarStruct struct{ X string }
type MarPtr struct{ X string } // pointer receiver
type MarStr string
type MarInt int
type MarBool bool
type MarF64 float64
type MarSlice []string
type MarBytes []byte
type MarMap map[string]string
type MarArr [2]string
type MarPtrInt int // pointer receiver
type MarPtrSlice []string
type MarPtrMap map[string]string
type MarFunc func() string
type MarArrPtr [1]*string
type MarChan chan string
type MarCplx complex128
type MarUptr uintptr
type MarU8 uint8 // a slice of them is not bytes
type MarPtrU8 uint8
type MarKeys map[float64]string // of a kind that is not supported otherwise
type marNil struct{ X string }  // nil will do as well
type MarEmb struct {            // methods of embedded types are methods of the struct
	MarStruct
	Y int
}
type MarEmbP struct {
	Y []int
	*marNil
}
type MarEmbPtr struct { // only pointers have the method
	MarPtrInt
	Y bool
}
type MarDeep struct{ MarEmb }

func (m MarFunc) MarshalPHP() ([]byte, error) {
	if m == nil {
		return customBytes("FN:", nil)
	}
	return customBytes("F:", m())
}
func (m MarChan) MarshalPHP() ([]byte, error)   { return customBytes("C:", cap(m)) }
func (m MarCplx) MarshalPHP() ([]byte, error)   { return customBytes("X:", complex128(m)) }
func (m MarU8) MarshalPHP() ([]byte, error)     { return customBytes("u8:", uint64(m)) }
func (m *MarPtrU8) MarshalPHP() ([]byte, error) { return customBytes("pu8:", uint64(*m)) }
func (m MarUptr) MarshalPHP() ([]byte, error)   { return customBytes("U:", uint64(m)) }
func (m MarKeys) MarshalPHP() ([]byte, error)   { return customBytes("K:", len(m)) }
func (m *marNil) MarshalPHP() ([]byte, error) {
	if m == nil {
		return customBytes("", "nil")
	}
	return customBytes("E:", m.X)
}

func (m MarStruct) MarshalPHP() ([]byte, error)    { return customBytes("S:", m.X) }
func (m *MarPtr) MarshalPHP() ([]byte, error)      { return customBytes("P:", m.X) }
func (m MarStr) MarshalPHP() ([]byte, error)       { return customBytes("", string(m)) }
func (m MarInt) MarshalPHP() ([]byte, error)       { return customBytes("I:", int(m)) }
func (m MarBool) MarshalPHP() ([]byte, error)      { return customBytes("B:", bool(m)) }
func (m MarF64) MarshalPHP() ([]byte, error)       { return customBytes("F:", float64(m)) }
func (m MarSlice) MarshalPHP() ([]byte, error)     { return customBytes("L:", len(m)) }
func (m MarBytes) MarshalPHP() ([]byte, error)     { return customBytes("Y:", string(m)) }
func (m MarMap) MarshalPHP() ([]byte, error)       { return customBytes("M:", len(m)) }
func (m MarArr) MarshalPHP() ([]byte, error)       { return customBytes("A:", m[0]+m[1]) }
func (m *MarPtrInt) MarshalPHP() ([]byte, error)   { return customBytes("PI:", int(*m)) }
func (m *MarPtrSlice) MarshalPHP() ([]byte, error) { return customBytes("PL:", len(*m)) }
func (m *MarPtrMap) MarshalPHP() ([]byte, error)   { return customBytes("PM:", len(*m)) }
func (m MarArrPtr) MarshalPHP() ([]byte, error)    { return customBytes("AP:", m[0] == nil) }

// types to generate
var marshalerTypes = []reflect.Type{
	typeOf[MarStr](), typeOf[MarStruct](), typeOf[MarInt](), typeOf[MarBool](), typeOf[MarF64](), typeOf[MarSlice](), typeOf[MarBytes](),
	typeOf[MarMap](), typeOf[MarArr](), typeOf[MarArrPtr](), typeOf[*MarPtr](), typeOf[*MarPtrInt](), typeOf[*MarPtrSlice](), typeOf[*MarPtrMap](),
	typeOf[*MarStr](), typeOf[*MarStruct](), typeOf[*MarInt](), typeOf[*MarSlice](), typeOf[*MarMap](), typeOf[*MarArr](), typeOf[*MarBytes](),
	typeOf[marshalerI](), typeOf[Reent](), typeOf[*Reent](),
	typeOf[MarU8](), typeOf[[]MarU8](), typeOf[[3]MarU8](), typeOf[[]MarPtrU8](), typeOf[[]*MarPtrU8](),
	typeOf[MarPtr](), typeOf[MarPtrInt](), typeOf[MarPtrSlice](), typeOf[MarPtrMap](), // not Marshalers, only their pointers are
}

// Marshalers that could not be encoded without their method
var onlyMarshalers = []reflect.Type{
	typeOf[MarFunc](), typeOf[MarChan](), typeOf[MarCplx](), typeOf[*MarCplx](), typeOf[MarUptr](), typeOf[MarKeys](), typeOf[MarEmb](), typeOf[*MarEmb](), typeOf[MarEmbP](), typeOf[*MarEmbP](), typeOf[*MarEmbPtr](), typeOf[MarDeep](),
}

// concrete types that may be held by a marshalerI
var marshalerConcrete = []reflect.Type{
	typeOf[MarStr](), typeOf[MarStruct](), typeOf[MarInt](), typeOf[MarSlice](), typeOf[MarMap](), typeOf[*MarPtr](), typeOf[*MarPtrInt](),
	typeOf[*MarStruct](), typeOf[*MarStr](), typeOf[MarBytes](), typeOf[MarArr](), typeOf[MarFunc](), typeOf[MarChan](), typeOf[MarEmb](), typeOf[*MarEmbP](), typeOf[MarUptr](),
}

// ---- custom Unmarshalers ----

// UnmRec records what it is given.
type UnmRec struct {
	Got   string
	Calls int
}

func (u *UnmRec) UnmarshalPHP(b []byte) error { return record(&u.Got, &u.Calls, b) }

type UnmStr string
type UnmInt int
type UnmSlice []byte
type UnmMap map[string]string
type UnmArr [2]string
type UnmBool bool
type UnmF64 float64
type UnmU8 uint8
type UnmCplx complex128
type UnmUptr uintptr
type UnmKeys map[[1]string]bool
type UnmEmb struct { // methods of embedded types are methods of the struct
	UnmRec
	Y int
}
type UnmDeep struct {
	Z []int
	UnmEmb
}

var errUnm = errors.New("custom unmarshaler failure")

const unmReject = "REJECT"

func record(got *string, calls *int, b []byte) error {
	*got = string(b)
	*calls++
	return unmCheck(b)
}

func unmCheck(b []byte) error {
	_ = append(b, `"7;}x`...) // behind the slice is nothing that matters
	if string(b) == `s:6:"`+unmReject+`";` {
		return errUnm
	}
	return nil
}

func (u *UnmStr) UnmarshalPHP(b []byte) error   { *u = UnmStr(b); return unmCheck(b) }
func (u *UnmInt) UnmarshalPHP(b []byte) error   { *u = UnmInt(hashBytes(b)); return unmCheck(b) }
func (u *UnmSlice) UnmarshalPHP(b []byte) error { *u = append(UnmSlice(nil), b...); return unmCheck(b) }
func (u *UnmMap) UnmarshalPHP(b []byte) error   { *u = UnmMap{"raw": string(b)}; return unmCheck(b) }
func (u *UnmArr) UnmarshalPHP(b []byte) error   { *u = UnmArr{string(b), "x"}; return unmCheck(b) }
func (u *UnmBool) UnmarshalPHP(b []byte) error  { *u = len(b)%2 == 1; return unmCheck(b) }
func (u *UnmU8) UnmarshalPHP(b []byte) error    { *u = UnmU8(hashBytes(b)); return unmCheck(b) }
func (u *UnmF64) UnmarshalPHP(b []byte) error   { *u = UnmF64(hashBytes(b) >> 12); return unmCheck(b) }
func (u *UnmCplx) UnmarshalPHP(b []byte) error {
	*u = UnmCplx(complex(float64(len(b)), float64(hashBytes(b)>>12)))
	return unmCheck(b)
}
func (u *UnmUptr) UnmarshalPHP(b []byte) error { *u = UnmUptr(hashBytes(b)); return unmCheck(b) }
func (u *UnmKeys) UnmarshalPHP(b []byte) error { *u = UnmKeys{{string(b)}: true}; return unmCheck(b) }

// UnmVal is a value receiver that writes through a map.
var unmarshalerTypes = []reflect.Type{
	typeOf[UnmRec](), typeOf[UnmStr](), typeOf[UnmInt](), typeOf[UnmSlice](), typeOf[UnmMap](), typeOf[UnmArr](), typeOf[UnmBool](),
	typeOf[*UnmRec](), typeOf[*UnmStr](), typeOf[*UnmSlice](), typeOf[*UnmMap](), typeOf[ReentU](), typeOf[*ReentU](),
	typeOf[UnmF64](), typeOf[UnmU8](), typeOf[[]UnmU8](), typeOf[[2]UnmU8](), typeOf[map[string][]UnmU8](),
}

// Unmarshalers that could not be decoded, or encoded, without their method
var onlyUnmarshalers = []reflect.Type{
	typeOf[UnmCplx](), typeOf[UnmUptr](), typeOf[UnmKeys](), typeOf[*UnmKeys](), typeOf[UnmEmb](), typeOf[*UnmEmb](), typeOf[UnmDeep](),
}

// Reent calls the library from within MarshalPHP, the models treat it as its content.
type Reent struct{ V any }

func (r Reent) MarshalPHP() ([]byte, error) { return phpserialize.Marshal(&r.V) }

// ReentU calls the library from within UnmarshalPHP.
type ReentU struct{ V any }

func (r *ReentU) UnmarshalPHP(b []byte) error { return phpserialize.Unmarshal(b, &r.V) }

// named types with a method that means nothing to the library
type fooStr string
type fooStruct struct {
	A int
	B notMarshaler `php:"b,omitempty"`
}
type fooSlice []notMarshaler
type fooMap map[string]notMarshaler
type fooBytes []byte
type fooArr [2]bool
type fooPtr struct{ X []string }

func (fooStr) Foo()    {}
func (fooStruct) Foo() {}
func (fooSlice) Foo()  {}
func (fooMap) Foo()    {}
func (fooBytes) Foo()  {}
func (fooArr) Foo()    {}
func (*fooPtr) Foo()   {}

// concrete types that may be held by a notMarshaler
var fooTypes = []reflect.Type{typeOf[fooInt](), typeOf[fooInt](), typeOf[fooStr](), typeOf[fooStr](), typeOf[fooStruct](), typeOf[*fooStruct](), typeOf[fooSlice](), typeOf[fooMap](),
	typeOf[fooBytes](), typeOf[fooArr](), typeOf[*fooPtr](), typeOf[*fooInt](), typeOf[*fooMap]()}

// Both is a round-tripping custom type.
type Both struct{ v string }

func (b Both) MarshalPHP() ([]byte, error) {
	return []byte("a:1:{i:0;s:" + strconv.Itoa(len(b.v)) + `:"` + b.v + `";}`), nil
}
func (b *Both) UnmarshalPHP(d []byte) error {
	n, err := parseStrict(d)
	if err != nil {
		return err
	}
	if n.K != 'a' || len(n.Ent) != 1 || n.Ent[0].Val.K != 's' {
		return errors.New("not a Both")
	}
	b.v = n.Ent[0].Val.Str
	return nil
}

// NestMix has every kind of place a level of nesting can be in.
type NestMix struct {
	S  []NestMix          `php:"s"`
	M  map[string]NestMix `php:"m"`
	N  map[int16]*NestMix `php:"n"`
	P  *NestMix           `php:"p"`
	A  *[1]NestMix        `php:"a"`
	B  []*NestMix         `php:"b"`
	W  [][]NestMix        `php:"w"`
	I  any                `php:"i"`
	F  map[string]any     `php:"f"`
	G  []any              `php:"g"`
	K  map[any]any        `php:"k"`
	U  UnmRec             `php:"u"`
	V  *UnmRec            `php:"v"`
	X  []UnmRec           `php:"x"`
	Y  map[string]UnmRec  `php:"y"`
	D  int                `php:"d"`
	E  *[3]NestMix        `php:"e"`
	H  *[5]*NestMix       `php:"h"`
	J  *[3][]NestMix      `php:"j"`
	L  map[string][]any   `php:"l"`
	Q  *[4]any            `php:"q"`
	R  *[3]UnmRec         `php:"r"`
	AA [2]int             `php:"aa"`
	AM [2]map[string]int  `php:"am"`
	AT struct{ X int }    `php:"at"`
	AB []byte             `php:"ab"`
	AW [2][2]string       `php:"aw"`
}
