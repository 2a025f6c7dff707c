package main

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"unsafe"
)

// ---- C04: any ----

var anyDests = []reflect.Type{anyType, typeOf[map[any]any](), typeOf[map[string]any](), typeOf[[]any](), typeOf[[4]any](), typeOf[*any](), typeOf[map[int64]any](),
	typeOf[map[string]map[any]any](), typeOf[[]map[any]any](), typeOf[MyAny](), typeOf[map[any]string](), typeOf[map[any][]any](),
	typeOf[struct {
		A any
		B *any `php:"b"`
		C []any
		D map[any]any `php:"name"`
	}]()}

func c04(t *T) {
	g := newDocGen(t)
	g.left = 90
	rt := anyType
	if t.Chance(1, 2) {
		rt = pick(t, anyDests)
	}
	var n *Node
	if rt == anyType || t.Chance(1, 6) {
		n = g.Any(t.Int(1, 6))
	} else {
		n = g.For(rt, 4)
	}
	rv := newOf(rt)
	if t.Chance(1, 4) { // prior contents are replaced
		vg := newValGen(t, ValOpts{RT: true, Budget: 10})
		vg.Fill(rv)
	}
	descDoc(t, n, rt)
	if checkUnmarshal(t, n, rv) && n.Count() > 1 {
		t.NonTrivial(hashBytes(n.Bytes()))
		t.Label("dest " + typeName(rt))
	}
	docLabels(t, g)
}

// ---- C05: typed ----

func decodeType(t *T, o TypeOpts) (reflect.Type, *TypeGen) {
	o.NoMar = true
	tg := &TypeGen{t: t, o: o}
	return tg.Any(t.Int(1, 4)), tg
}

func c05(t *T) {
	rt, _ := decodeType(t, TypeOpts{Dec: true, Unm: true, WideStruct: true})
	g := newDocGen(t)
	n := g.For(rt, t.Int(2, 5))
	rv := newOf(rt)
	descDoc(t, n, rt)
	if checkUnmarshal(t, n, rv) && n.Count() > 1 {
		t.NonTrivial(mix(hashBytes(n.Bytes()), hashStr(rt.String())))
		t.Label("kind " + rt.Kind().String())
	}
	docLabels(t, g)
}

// a document in every kind of place decodes to the same value
func c05Places(t *T) {
	rt, _ := decodeType(t, TypeOpts{Dec: true, Unm: true})
	g := newDocGen(t)
	g.left = 25
	n := g.For(rt, 3)
	if t.Chance(1, 5) {
		n = nNull()
	}
	want := newOf(rt)
	m := &decModel{}
	err := m.decode(n, want)
	if err != nil || m.unspec != "" {
		t.Discard()
	}
	check := func(name string, doc *Node, dest reflect.Value, get func() reflect.Value) {
		t.Desc(func() string { return fmt.Sprintf("document %s for %s decoded in place %s", n, typeName(rt), name) })
		err := unmarshal(doc.Bytes(), dest.Addr().Interface())
		mustNotPanic(t, "Unmarshal in "+name, err)
		if err != nil {
			t.Failf("in %s: Unmarshal(%s, *%s) failed: %v", name, doc, typeName(dest.Type()), err)
		}
		got := get()
		if !got.IsValid() {
			t.Failf("in %s: Unmarshal(%s, *%s): the value is missing", name, doc, typeName(dest.Type()))
		}
		if d := diff(want, got); d != "" {
			t.Failf("in %s: Unmarshal(%s, *%s): %s", name, doc, typeName(dest.Type()), d)
		}
	}
	str := func(k string, v *Node) *Node { return &Node{K: 'a', Ent: []Entry{{nStr(k), v}}} }
	{
		d := newOf(rt)
		check("direct", n, d, func() reflect.Value { return d })
	}
	if rt.Kind() != reflect.Pointer && n.K != 'N' {
		d := newOf(reflect.PointerTo(rt))
		check("pointer", n, d, func() reflect.Value { return d.Elem() })
		f := newOf(structOf(field("F", reflect.PointerTo(rt), `php:"f"`)))
		check("struct{*T}", str("f", n), f, func() reflect.Value { return f.Field(0).Elem() })
	}
	if rt.Kind() != reflect.Uint8 {
		d := newOf(reflect.SliceOf(rt))
		check("[]T", nArr(n), d, func() reflect.Value { return d.Index(0) })
	}
	{
		d := newOf(reflect.ArrayOf(2, rt))
		check("[2]T", nArr(&Node{K: 'N'}, n), d, func() reflect.Value { return d.Index(1) })
	}
	{
		d := newOf(reflect.MapOf(typeOf[string](), rt))
		check("map[string]T", str("k", n), d, func() reflect.Value { return d.MapIndex(reflect.ValueOf("k")) })
		e := newOf(reflect.MapOf(typeOf[int16](), rt))
		check("map[int16]T", &Node{K: 'a', Ent: []Entry{{nInt(-3), n}}}, e, func() reflect.Value { return e.MapIndex(reflect.ValueOf(int16(-3))) })
	}
	{
		d := newOf(structOf(field("F", rt, ""), field("Z", typeOf[int](), "")))
		check("struct{T}", str("F", n), d, func() reflect.Value { return d.Field(0) })
		o := str("F", n)
		o.K, o.Str = 'O', "Cls"
		d2 := newOf(d.Type())
		check("struct{T} as object", o, d2, func() reflect.Value { return d2.Field(0) })
		d3 := newOf(reflect.SliceOf(reflect.PointerTo(d.Type())))
		check("[]*struct{T}", nArr(nNull(), o), d3, func() reflect.Value { return d3.Index(1).Elem().Field(0) })
		d4 := newOf(reflect.MapOf(typeOf[string](), reflect.SliceOf(d.Type())))
		check("map[string][]struct{T}", str("x", nArr(str("F", n))), d4, func() reflect.Value { return d4.MapIndex(reflect.ValueOf("x")).Index(0).Field(0) })
	}
	t.NonTrivial(mix(hashBytes(n.Bytes()), hashStr(rt.String())))
}

// ---- C06: round trip ----

// rtWant turns a value into what its round trip gives: a pointer to something encoded as null is nil.
func rtNormal(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		e := v.Elem()
		if n, err := refEncode(e.Interface()); err == nil && n.K == 'N' {
			v.SetZero()
			return
		}
		rtNormal(e)
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			rtNormal(v.Index(i))
		}
	case reflect.Map:
		it := v.MapRange()
		for it.Next() {
			e := deepCopy(it.Value())
			rtNormal(e)
			v.SetMapIndex(it.Key(), e)
		}
	case reflect.Struct:
		kept := map[int]bool{}
		for _, f := range fieldsOf(v.Type()) {
			// a zero that is left out comes back as the plain zero, also when it was -0
			kept[f.idx] = !f.omitEmpty || !v.Field(f.idx).IsZero()
		}
		for i := 0; i < v.NumField(); i++ {
			if !kept[i] {
				if f := v.Field(i); f.CanSet() {
					f.SetZero()
				}
				continue
			}
			rtNormal(v.Field(i))
		}
	case reflect.Interface:
		if !v.IsNil() {
			switch e := v.Elem(); e.Kind() { // numbers come back in the widest type
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				v.Set(reflect.ValueOf(e.Int()))
			}
		}
	}
}

func c06(t *T) {
	tg := &TypeGen{t: t, o: TypeOpts{NoMar: true, StringTags: t.Bool(), WideStruct: true}}
	rt := tg.Any(t.Int(1, 4))
	rv := newValGen(t, ValOpts{RT: true, Big: true, NilPct: 1, Budget: 80}).Value(rt)
	descValue(t, rv)
	want := deepCopy(rv)
	rtNormal(want)
	b, err := marshal(argOf(t, rv))
	mustNotPanic(t, "Marshal", err)
	if err != nil {
		t.Failf("Marshal failed: %v", err)
	}
	got := newOf(rt)
	err = unmarshal(b, got.Addr().Interface())
	mustNotPanic(t, "Unmarshal", err)
	if err != nil {
		t.Failf("Unmarshal(%s, *%s) failed: %v", clip(b), typeName(rt), err)
	}
	if d := diff(want, got); d != "" {
		t.Failf("round trip through %s: %s", clip(b), d)
	}
	// the second trip is the identity on the value
	b2, err := marshal(argOf(t, got))
	mustNotPanic(t, "Marshal", err)
	n1, perr1 := parseStrict(b)
	n2, perr2 := parseStrict(b2)
	if err != nil || perr1 != nil || perr2 != nil {
		t.Failf("Marshal of the decoded value: %v %v %v", err, perr1, perr2)
	}
	_, _ = n1, n2
	if len(b) > 8 {
		t.NonTrivial(mix(hashBytes(b), hashStr(rt.String())))
		t.Label("kind " + rt.Kind().String())
	}
	sizeLabel(t, len(b))
}

// types with custom encoding on both sides
func c06Custom(t *T) {
	type S struct {
		A Both
		B *Both `php:"b,omitempty"`
		C []Both
		D map[string]Both
		E map[int]*Both `php:"e"`
		F [2]Both
	}
	rt := pick(t, []reflect.Type{typeOf[S](), typeOf[Both](), typeOf[[]Both](), typeOf[map[string]S](), typeOf[[]*S](), typeOf[map[int][]Both](), typeOf[[2]*Both]()})
	rv := newValGen(t, ValOpts{RT: true, NilPct: 1, Budget: 30}).Value(rt)
	descValue(t, rv)
	want := deepCopy(rv)
	b, err := marshal(argOf(t, rv))
	mustNotPanic(t, "Marshal", err)
	if err != nil {
		t.Failf("Marshal failed: %v", err)
	}
	got := newOf(rt)
	err = unmarshal(b, got.Addr().Interface())
	mustNotPanic(t, "Unmarshal", err)
	if err != nil {
		t.Failf("Unmarshal(%s, *%s) failed: %v", clip(b), typeName(rt), err)
	}
	if d := diff(want, got); d != "" {
		t.Failf("round trip through %s: %s", clip(b), d)
	}
	t.NonTrivial(mix(hashBytes(b), hashStr(rt.String())))
}

// ---- C02: struct tags ----

func structType(t *T, o TypeOpts) (reflect.Type, *TypeGen) {
	tg := &TypeGen{t: t, o: o}
	for {
		rt := tg.Struct(t.Int(1, 2))
		if rt.NumField() > 0 {
			return rt, tg
		}
	}
}

func c02Encode(t *T) {
	rt, tg := structType(t, TypeOpts{Enc: true, NoMar: t.Bool(), StringTags: true, WideStruct: true})
	rv := newValGen(t, ValOpts{NilPct: 1, Types: tg, NoRaw: true, Budget: 30}).Value(rt)
	descValue(t, rv)
	out := checkMarshal(t, argOf(t, rv))
	t.NonTrivial(mix(hashStr(rt.String()), hashBytes(out)))
}

var stringScalars = []reflect.Type{typeOf[bool](), typeOf[int](), typeOf[int8](), typeOf[int16](), typeOf[int32](), typeOf[int64](), typeOf[uint](), typeOf[uint8](), typeOf[uint16](), typeOf[uint32](), typeOf[uint64](),
	typeOf[float32](), typeOf[float64](), typeOf[string](), typeOf[MyInt](), typeOf[MyStr](), typeOf[MyF32](), typeOf[MyU16](), typeOf[MyBool](), typeOf[fooInt]()}

// c02Iface: the string option on fields that hold any value, when that value is a scalar, however it is held.
func c02Iface(t *T) {
	g := newValGen(t, ValOpts{NilPct: 1, NoRaw: true, Budget: 30})
	var fs []reflect.StructField
	var vs []reflect.Value
	for i := range t.Int(1, 5) {
		v := g.Value(pick(t, stringScalars))
		for n := t.W(4, 3, 2, 1); n > 0; n-- {
			if t.Chance(1, 3) { // *any
				x := reflect.New(anyType)
				x.Elem().Set(v)
				v = x
			} else {
				p := reflect.New(v.Type())
				p.Elem().Set(v)
				v = p
			}
		}
		if t.Chance(1, 8) {
			v = reflect.Zero(reflect.PointerTo(v.Type())) // nil in the interface
		}
		ft := anyType
		if _, ok := v.Interface().(notMarshaler); ok && t.Bool() {
			ft = typeOf[notMarshaler]()
		}
		fs = append(fs, field("F"+strconv.Itoa(i), ft, pick(t, []string{`php:",string"`, `php:"x` + strconv.Itoa(i) + `,string"`, `php:",omitempty,string"`, `php:"y` + strconv.Itoa(i) + `,string,omitempty"`, `php:"z` + strconv.Itoa(i) + `"`})))
		vs = append(vs, v)
	}
	rv := newOf(structOf(fs...))
	for i, v := range vs {
		if !t.Chance(1, 12) {
			rv.Field(i).Set(v)
		}
	}
	descValue(t, rv)
	out := checkMarshal(t, argOf(t, rv))
	t.NonTrivial(mix(hashStr(rv.Type().String()), hashBytes(out)))
}

func c02Decode(t *T) {
	rt, _ := structType(t, TypeOpts{NoMar: true, StringTags: true, StrAny: true, WideStruct: true})
	g := newDocGen(t)
	n := g.For(rt, 3)
	rv := newOf(rt)
	if t.Bool() {
		newValGen(t, ValOpts{RT: false, Budget: 20}).Fill(rv)
	}
	descDoc(t, n, rt)
	checkUnmarshal(t, n, rv)
	docLabels(t, g)
	t.NonTrivial(mix(hashStr(rt.String()), hashBytes(n.Bytes())))
}

// what is encoded under a key is decoded from that key, and nothing else is touched
func c02Agree(t *T) {
	rt, _ := structType(t, TypeOpts{NoMar: true, StringTags: true, NoIface: true, WideStruct: true})
	rv := newValGen(t, ValOpts{RT: true, NilPct: 1, Budget: 30}).Value(rt)
	descValue(t, rv)
	b, err := marshal(rv.Interface())
	mustNotPanic(t, "Marshal", err)
	if err != nil {
		t.Failf("Marshal failed: %v", err)
	}
	doc, perr := parseStrict(b)
	if perr != nil {
		t.Failf("Marshal = %s: %v", clip(b), perr)
	}
	present := map[string]bool{}
	for _, e := range doc.Ent {
		present[e.Key.Str] = true
	}
	// decode over other contents
	got := newValGen(t, ValOpts{Budget: 20}).Value(rt)
	prior := deepCopy(got)
	fresh := newOf(rt)
	for _, d := range []reflect.Value{got, fresh} {
		err = unmarshal(b, d.Addr().Interface())
		mustNotPanic(t, "Unmarshal", err)
		if err != nil {
			t.Failf("Unmarshal(%s, *%s) failed: %v", clip(b), typeName(rt), err)
		}
	}
	keys := map[int]fieldInfo{}
	for _, f := range fieldsOf(rt) {
		keys[f.idx] = f
	}
	want := deepCopy(rv)
	rtNormal(want)
	for i := 0; i < rt.NumField(); i++ {
		f, ok := keys[i]
		name := rt.Field(i).Name
		switch {
		case !ok || !present[f.key]:
			if ok && !f.omitEmpty {
				t.Failf("field %s (key %q) is missing from %s", name, f.key, clip(b))
			}
			if ok && !rv.Field(i).IsZero() {
				t.Failf("field %s is not zero and missing from %s", name, clip(b))
			}
			if d := diff(prior.Field(i), got.Field(i)); d != "" {
				t.Failf("field %s is not in %s and changed: %s", name, clip(b), d)
			}
		default:
			if f.omitEmpty && rv.Field(i).IsZero() {
				t.Failf("zero field %s with omitempty is in %s", name, clip(b))
			}
			if d := diff(want.Field(i), fresh.Field(i)); d != "" {
				t.Failf("field %s of %s: %s", name, clip(b), d)
			}
		}
		delete(present, f.key)
	}
	if len(present) > 0 {
		t.Failf("unexpected keys %v in %s", present, clip(b))
	}
	t.NonTrivial(mix(hashStr(rt.String()), hashBytes(b)))
}

// ---- C21: Unmarshalers ----

func c21(t *T) {
	rt, _ := decodeType(t, TypeOpts{Dec: true, UnmW: t.Int(6, 14)})
	g := newDocGen(t)
	n := g.For(rt, t.Int(1, 4))
	if t.Chance(1, 5) {
		replaceRandom(t, n, func(m *Node) { *m = *nStr(unmReject) })
	}
	rv := newOf(rt)
	if t.Chance(1, 3) {
		newValGen(t, ValOpts{Budget: 20, RT: true}).Fill(rv)
	}
	descDoc(t, n, rt)
	want := deepCopy(rv)
	werr := (&decModel{}).decode(n, want)
	if errors.Is(werr, errUnm) {
		err := unmarshal(n.Bytes(), deepCopy(rv).Addr().Interface())
		mustNotPanic(t, "Unmarshal", err)
		if err == nil {
			t.Failf("Unmarshal(%s, *%s) dropped the error of UnmarshalPHP", n, typeName(rt))
		}
		if !errors.Is(err, errUnm) {
			t.Failf("Unmarshal(%s, *%s) failed with %v, not with the error of UnmarshalPHP", n, typeName(rt), err)
		}
		t.Label("UnmarshalPHP failed")
	}
	checkUnmarshal(t, n, rv)
	if strings.Contains(rt.String(), "main.Unm") {
		t.NonTrivial(mix(hashStr(rt.String()), hashBytes(n.Bytes())))
	}
	docLabels(t, g)
}

// replaceRandom changes one value node.
func replaceRandom(t *T, n *Node, f func(*Node)) {
	vals := valuesOf(n)
	f(vals[t.N(len(vals))])
}

func valuesOf(n *Node) []*Node {
	vals := []*Node{n}
	for _, e := range n.Ent {
		vals = append(vals, valuesOf(e.Val)...)
	}
	return vals
}

// UnmKey is usable as a map key.
type UnmKey string

func (u *UnmKey) UnmarshalPHP(b []byte) error { *u = UnmKey("<" + string(b) + ">"); return unmCheck(b) }

type UnmByte uint8

func (u *UnmByte) UnmarshalPHP(b []byte) error { *u = UnmByte(len(b)); return unmCheck(b) }

func c21Places(t *T) {
	g := newDocGen(t)
	n := g.Any(t.Int(0, 4))
	if n.K == 'N' {
		t.Discard() // decided by the other arm
	}
	if t.Chance(1, 12) {
		n = nStr(unmReject)
	}
	raw := string(n.Bytes())
	reject := n.K == 's' && n.Str == unmReject
	check := func(name string, doc *Node, dest any, get func() (string, int)) {
		t.Desc(func() string { return "raw value " + n.String() + " for an Unmarshaler in " + name })
		err := unmarshal(doc.Bytes(), dest)
		mustNotPanic(t, "Unmarshal in "+name, err)
		if reject {
			if !errors.Is(err, errUnm) {
				t.Failf("in %s: UnmarshalPHP failed, Unmarshal returned %v", name, err)
			}
			return
		}
		if err != nil {
			t.Failf("in %s: Unmarshal(%s) failed: %v", name, doc, err)
		}
		if got, calls := get(); got != raw || calls != 1 {
			t.Failf("in %s: UnmarshalPHP got %s in %d calls, want %s once", name, clip([]byte(got)), calls, clip([]byte(raw)))
		}
	}
	rec := func(u *UnmRec) (string, int) {
		if u == nil {
			return "(not called)", 0
		}
		return u.Got, u.Calls
	}
	str := func(k string, v *Node) *Node { return &Node{K: 'a', Ent: []Entry{{nStr(k), v}}} }
	{
		var d UnmRec
		check("direct", n, &d, func() (string, int) { return rec(&d) })
		var p *UnmRec
		check("pointer", n, &p, func() (string, int) { return rec(p) })
	}
	{
		var d struct {
			A int
			F UnmRec
			P *UnmRec `php:"p,omitempty"`
		}
		check("field", str("F", n), &d, func() (string, int) { return rec(&d.F) })
		check("pointer field", str("p", n), &d, func() (string, int) { return rec(d.P) })
	}
	{
		var d []UnmRec
		check("slice", nArr(nNull(), n), &d, func() (string, int) { return rec(&d[1]) })
		var p []*UnmRec
		check("pointer slice", nArr(n), &p, func() (string, int) { return rec(p[0]) })
		var a [2]UnmRec
		check("array", nArr(nNull(), n), &a, func() (string, int) { return rec(&a[1]) })
	}
	{
		var d map[string]UnmRec
		check("map value", str("k", n), &d, func() (string, int) { v := d["k"]; return rec(&v) })
		var p map[int]*UnmRec
		check("map pointer value", &Node{K: 'a', Ent: []Entry{{nInt(5), n}}}, &p, func() (string, int) { return rec(p[5]) })
	}
	{
		u := &UnmRec{}
		var d unmarshalerI = u
		check("interface holding it", n, &d, func() (string, int) { return rec(u) })
		u2 := &UnmRec{}
		s := struct{ F unmarshalerI }{u2}
		check("interface field holding it", str("F", n), &s, func() (string, int) { return rec(u2) })
	}
	{
		us := [3]*UnmRec{{}, {}, {}}
		for i, dest := range []any{
			&struct {
				In struct{ A, B, C unmarshalerI }
			}{struct{ A, B, C unmarshalerI }{us[0], us[1], us[2]}},
			&struct {
				A, B, C unmarshalerI
				D       int
			}{us[0], us[1], us[2], 0},
			&struct {
				A, B, C *unmarshalerI
				D       int
			}{&[]unmarshalerI{us[0]}[0], &[]unmarshalerI{us[1]}[0], &[]unmarshalerI{us[2]}[0], 0},
		} {
			doc := &Node{K: 'a', Ent: []Entry{{nStr("A"), n}, {nStr("B"), n}, {nStr("C"), n}, {nStr("D"), nInt(-3)}}}
			if i == 0 {
				doc.Ent = doc.Ent[:3]
				doc = str("In", doc)
			}
			for _, u := range us {
				*u = UnmRec{}
			}
			check(fmt.Sprintf("interfaces holding it (%T)", dest), doc, dest, func() (string, int) {
				for _, u := range us[:2] {
					if got, calls := rec(u); got != raw || calls != 1 {
						return got, calls
					}
				}
				return rec(us[2])
			})
		}
	}
	{
		var d struct {
			F []map[string]*struct{ G UnmRec }
		}
		check("nested", str("F", nArr(str("k", str("G", n)))), &d, func() (string, int) { return rec(&d.F[0]["k"].G) })
	}
	if n.K == 's' || n.K == 'i' {
		var d map[UnmKey]int
		check("map key", &Node{K: 'a', Ent: []Entry{{n, nInt(1)}}}, &d, func() (string, int) {
			for k, v := range d {
				return strings.TrimSuffix(strings.TrimPrefix(string(k), "<"), ">"), v
			}
			return "", 0
		})
	}
	t.NonTrivial(hashStr(raw))
	t.Label("raw " + string(n.K))
}

// unmSeq records what the Unmarshalers below are given; one case at a time.
var unmSeq struct {
	got    []string
	failAt int
}

func unmSeqNext(b []byte) error {
	unmSeq.got = append(unmSeq.got, string(b))
	if len(unmSeq.got)-1 == unmSeq.failAt {
		return errUnm
	}
	return nil
}

type (
	SeqStruct struct{ Raw string }
	SeqInt    int
	SeqStr    string
	SeqMap    map[string]int
	SeqSlice  []SeqInt
)

func (u *SeqStruct) UnmarshalPHP(b []byte) error { u.Raw = string(b); return unmSeqNext(b) }
func (u *SeqInt) UnmarshalPHP(b []byte) error    { *u = SeqInt(len(b)); return unmSeqNext(b) }
func (u *SeqStr) UnmarshalPHP(b []byte) error    { *u = SeqStr(b); return unmSeqNext(b) }
func (u *SeqMap) UnmarshalPHP(b []byte) error    { *u = SeqMap{string(b): 1}; return unmSeqNext(b) }
func (u *SeqSlice) UnmarshalPHP(b []byte) error  { *u = make(SeqSlice, len(b)); return unmSeqNext(b) }

type seqNode struct {
	A SeqStruct
	B *SeqStruct `php:"b"`
	C []SeqInt
	D []*SeqMap `php:",omitempty"`
	E [2]SeqStr
	F map[string]SeqSlice
	G map[SeqStr]*SeqStruct
	H *seqNode
	I []seqNode
	J map[int]*seqNode
	K unmarshalerI
	L map[SeqInt]SeqMap
	M struct{ A, B *SeqInt }
	N *SeqMap
	O [][]SeqStruct
	P SeqInt
	Q SeqSlice
	R [1]*SeqStr
	S *[]SeqStruct
	T map[string]map[string]SeqStruct
	U struct{ V struct{ W SeqStr } }
}

// c21Once: each of several values is given once, also when one of them fails.
func c21Once(t *T) {
	g := newDocGen(t)
	var want []string
	id := 0
	val := func() *Node { // no two are alike
		id++
		n := nInt(int64(id))
		switch t.N(4) {
		case 0:
			n = nStr(fmt.Sprint("v", id, strings.Repeat("}", t.N(4))))
		case 1:
			n = nArr(n, g.Any(t.N(2)))
		}
		want = append(want, string(n.Bytes()))
		return n
	}
	key := func() *Node {
		id++
		n := nInt(int64(id))
		if t.Bool() {
			n = nStr(fmt.Sprint("k", id))
		}
		want = append(want, string(n.Bytes()))
		return n
	}
	list := func(k int, f func() *Node) *Node {
		n := &Node{K: 'a'}
		for i := range k {
			n.Ent = append(n.Ent, Entry{nInt(int64(i)), f()})
		}
		return n
	}
	dict := func(k int, f func() *Node) *Node {
		n := &Node{K: 'a'}
		for i := range k {
			n.Ent = append(n.Ent, Entry{nStr(fmt.Sprint("m", i)), f()})
		}
		return n
	}
	keyed := func(k int) *Node {
		n := &Node{K: 'a'}
		for range k {
			n.Ent = append(n.Ent, Entry{key(), val()})
		}
		return n
	}
	str := func(kv ...any) *Node {
		n := &Node{K: 'a'}
		for i := 0; i < len(kv); i += 2 {
			n.Ent = append(n.Ent, Entry{nStr(kv[i].(string)), kv[i+1].(*Node)})
		}
		return n
	}
	left := t.Int(1, 10)
	var node func(depth int) *Node
	node = func(depth int) *Node {
		n := &Node{K: 'a'}
		used := map[string]bool{}
		for k := t.Int(1, 6); k > 0 && left > 0; k-- {
			left--
			name := pick(t, []string{"A", "b", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U"})
			if used[name] || name == "K" && depth != 4 {
				continue
			}
			used[name] = true
			var v *Node
			switch name {
			case "A", "b", "N", "P", "Q", "K":
				v = val()
			case "C", "D", "S":
				v = list(t.Int(1, 4), val)
			case "E":
				v = list(t.Int(1, 2), val)
			case "R":
				v = list(1, val)
			case "F":
				v = dict(t.Int(1, 4), val)
			case "G", "L":
				v = keyed(t.Int(1, 4))
			case "M":
				v = str("A", val(), "B", val())
			case "O":
				v = list(t.Int(1, 3), func() *Node { return list(t.Int(0, 3), val) })
			case "T":
				v = dict(t.Int(1, 3), func() *Node { return dict(t.Int(1, 2), val) })
			case "U":
				v = str("V", str("W", val()))
			default:
				if depth <= 0 {
					continue
				}
				switch name {
				case "H":
					v = node(depth - 1)
				case "I":
					v = list(t.Int(1, 3), func() *Node { return node(depth - 1) })
				case "J":
					v = &Node{K: 'a', Ent: []Entry{{nInt(7), node(depth - 1)}, {nInt(-7), node(depth - 1)}}}
				}
			}
			n.Ent = append(n.Ent, Entry{nStr(name), v})
		}
		return n
	}
	n := node(4)
	if len(want) == 0 {
		t.Discard()
	}
	t.Desc(func() string { return n.String() + " with Unmarshalers in many places" })
	run := func(failAt int) (map[string]int, error) {
		unmSeq.got, unmSeq.failAt = nil, failAt
		err := unmarshal(n.Bytes(), &seqNode{K: &SeqStruct{}})
		mustNotPanic(t, "Unmarshal", err)
		calls := map[string]int{}
		for _, s := range unmSeq.got {
			calls[s]++
		}
		for _, s := range want {
			if calls[s] > 1 {
				t.Failf("UnmarshalPHP was given %s %d times (call %d fails)", clip([]byte(s)), calls[s], failAt)
			}
		}
		return calls, err
	}
	calls, err := run(-1)
	if err != nil {
		t.Failf("Unmarshal failed: %v", err)
	}
	for _, s := range want {
		if calls[s] != 1 {
			t.Failf("no UnmarshalPHP was given %s; the calls were %q", clip([]byte(s)), unmSeq.got)
		}
	}
	if len(unmSeq.got) != len(want) {
		t.Failf("%d calls of UnmarshalPHP for %d values: %q", len(unmSeq.got), len(want), unmSeq.got)
	}
	k := t.N(len(want))
	if _, err = run(k); !errors.Is(err, errUnm) {
		t.Failf("call %d of UnmarshalPHP, and no other, failed: Unmarshal returned %v after %d calls", k, err, len(unmSeq.got))
	}
	if len(want) > 1 {
		t.NonTrivial(hashBytes(n.Bytes()))
	}
}

// ---- C22: unknown and surplus entries ----

// addUnknown inserts entries that the type has no place for; reports how many.
func addUnknown(t *T, g *DocGen, n *Node, rt reflect.Type) int {
	for rt.Kind() == reflect.Pointer {
		rt = rt.Elem()
	}
	if reflect.PointerTo(rt).Implements(unmarshalerIface) {
		return 0
	}
	c := 0
	insert := func(k *Node) {
		i := t.Int(0, len(n.Ent))
		v := g.Skipped(t.Int(0, 5))
		if c == 0 && t.Chance(1, 300) { // of any depth
			d := 1 << t.Int(3, 13)
			d = min(9900, d+t.Int(0, d))
			open := pick(t, []string{"a:1:{i:0;", "a:1:{s:1:\"k\";", "O:1:\"A\":1:{s:1:\"p\";", "a:2:{i:0;i:1;i:1;"})
			v = &Node{K: 'r', Str: strings.Repeat(open, d) + string(v.Bytes()) + strings.Repeat("}", d)}
			t.Label("deep unknown value")
		}
		n.Ent = append(n.Ent[:i:i], append([]Entry{{k, v}}, n.Ent[i:]...)...)
		c++
	}
	switch {
	case rt.Kind() == reflect.Struct && (n.K == 'a' || n.K == 'O'):
		used := map[string]bool{}
		fs := map[string]fieldInfo{}
		for _, f := range fieldsOf(rt) {
			used[f.key] = true
			fs[f.key] = f
		}
		for _, e := range n.Ent {
			if f, ok := fs[e.Key.Str]; ok && !(f.asString && stringTagApplies(f.typ)) {
				c += addUnknown(t, g, e.Val, f.typ)
			}
			used[e.Key.Str] = true
		}
		for k := t.Int(1, 3); k > 0; k-- {
			if key := g.unknownKey(rt, used); !used[key] {
				used[key] = true
				insert(nStr(key))
			}
		}
	case rt.Kind() == reflect.Array && n.K == 'a':
		seen := map[int64]bool{}
		for _, e := range n.Ent {
			i, _ := index(e.Key)
			seen[i] = true
			if i < int64(rt.Len()) {
				c += addUnknown(t, g, e.Val, rt.Elem())
			}
		}
		for k := t.Int(1, 3); k > 0; k-- {
			i := int64(rt.Len() + t.Int(0, 9))
			if t.Chance(1, 5) {
				i += 1 << t.Int(0, 60)
			}
			if !seen[i] {
				seen[i] = true
				insert(nInt(i))
			}
		}
	case (rt.Kind() == reflect.Slice && n.K == 'a') || (rt.Kind() == reflect.Map && (n.K == 'a' || n.K == 'O')):
		for _, e := range n.Ent {
			c += addUnknown(t, g, e.Val, rt.Elem())
		}
	}
	return c
}

func c22(t *T) {
	o := TypeOpts{Dec: true, NoMar: true, Unm: true}
	tg := &TypeGen{t: t, o: o}
	var rt reflect.Type
	switch t.N(5) {
	case 0:
		rt = tg.Struct(2)
	case 1:
		rt = reflect.ArrayOf(t.Int(0, 4), tg.Struct(2))
	case 2:
		rt = reflect.SliceOf(tg.Struct(1))
	case 3:
		rt = reflect.MapOf(typeOf[string](), reflect.ArrayOf(t.Int(0, 3), tg.Any(1)))
	case 4:
		rt = pick(t, recursiveTypes)
	}
	g := newDocGen(t)
	g.Honest = true
	g.left = 30
	n := g.For(rt, 3)
	m := n.Clone()
	g.left = 80
	if addUnknown(t, g, m, rt) == 0 {
		t.Discard()
	}
	a, b := newOf(rt), newOf(rt)
	if t.Chance(1, 3) {
		newValGen(t, ValOpts{Budget: 20, RT: true}).Fill(a)
		b = deepCopy(a)
	}
	t.Desc(func() string { return "*" + typeName(rt) + ": " + n.String() + " with unknown entries: " + m.String() })
	if err := unmarshal(n.Bytes(), a.Addr().Interface()); err != nil {
		mustNotPanic(t, "Unmarshal", err)
		t.Label("plain document failed")
		t.Discard()
	}
	err := unmarshal(m.Bytes(), b.Addr().Interface())
	mustNotPanic(t, "Unmarshal", err)
	if err != nil {
		t.Failf("with unknown entries: Unmarshal(%s, *%s) failed: %v", m, typeName(rt), err)
	}
	if d := diff(a, b); d != "" {
		t.Failf("unknown entries changed the result of %s: %s", m, d)
	}
	t.NonTrivial(mix(hashBytes(m.Bytes()), hashStr(rt.String())))
}

// ---- C23: prior contents ----

func c23(t *T) {
	rt, _ := decodeType(t, TypeOpts{Dec: true, Unm: true, StringTags: t.Bool(), StrAny: true})
	g := newDocGen(t)
	g.Null = 200
	n := g.For(rt, t.Int(1, 4))
	rv := newValGen(t, ValOpts{Budget: 40, NilPct: 1, Prior: true}).Value(rt)
	prior := show(rv)
	t.Desc(func() string {
		return "Unmarshal(" + n.String() + ", *" + typeName(rt) + ") over " + clip([]byte(prior))
	})
	old := slicesOf(rv, nil)
	kept := make([]reflect.Value, len(old))
	for i := range old {
		kept[i] = deepCopy(old[i])
	}
	if checkUnmarshal(t, n, rv) {
		t.NonTrivial(mix(hashBytes(n.Bytes()), hashStr(rt.String()), hashStr(prior)))
		t.Label("kind " + rt.Kind().String())
	}
	for i := range old {
		if d := diff(kept[i], old[i]); d != "" {
			t.Failf("Unmarshal(%s, *%s) wrote to a slice that was there: %s", n, typeName(rt), d)
		}
	}
	if len(old) > 0 {
		t.Label("with slices")
	}
	docLabels(t, g)
}

type linkNode struct {
	V int
	S string `php:"s"`
	P *linkNode
	Q *linkNode `php:"q,omitempty"`
	I *int
	J *int `php:",string"`
	M map[string]int
	N map[string]int
	L []*linkNode
	A [2]*linkNode
	E struct {
		P *linkNode
		V *int
	}
	G map[string]*linkNode
	X any
	U unmarshalerI
	W *[]int
	Z *map[string]int
}

// c23Linked: what the destination holds may refer to itself, and to the same things from several places.
func c23Linked(t *T) {
	nodes := make([]*linkNode, t.Int(1, 5))
	for i := range nodes {
		nodes[i] = &linkNode{V: i + 100}
	}
	ints := []*int{new(int), new(int), nil}
	*ints[0], *ints[1] = 7, 8
	maps := []map[string]int{{"a": 1}, {"b": 2, "V": 3}, nil}
	unms := []unmarshalerI{&UnmRec{}, nil}
	lists := []*[]int{{1, 2}, nil}
	link := func() *linkNode {
		if t.Chance(1, 5) {
			return nil
		}
		return pick(t, nodes)
	}
	for _, n := range nodes {
		n.P, n.Q, n.A[0], n.A[1], n.E.P = link(), link(), link(), link(), link()
		n.I, n.J, n.E.V = pick(t, ints), pick(t, ints), pick(t, ints)
		n.M, n.N, n.U, n.W = pick(t, maps), pick(t, maps), pick(t, unms), pick(t, lists)
		if t.Bool() {
			n.L = []*linkNode{link(), link()}
		}
		if t.Bool() {
			n.G = map[string]*linkNode{"a": link(), "k": link()}
		}
		if t.Bool() {
			n.X = link()
		}
		if t.Bool() {
			n.Z = &pick(t, nodes).M
		}
	}
	g := newDocGen(t)
	g.Null = 100
	doc := g.For(typeOf[linkNode](), t.Int(2, 6))
	t.Desc(func() string { return doc.String() + " into a value of linked nodes" })
	root := reflect.ValueOf(nodes[0])
	copies := map[linkKey]reflect.Value{}
	for _, n := range nodes { // all of them first, as there may be pointers to parts of a node
		c := &linkNode{}
		copies[linkKey{root.Type(), unsafe.Pointer(n)}] = reflect.ValueOf(c)
		copies[linkKey{typeOf[*map[string]int](), unsafe.Pointer(&n.M)}] = reflect.ValueOf(&c.M)
	}
	for _, n := range nodes {
		v := reflect.ValueOf(n)
		linkedFill(linkedCopy(v, copies).Elem(), v.Elem(), copies)
	}
	want := linkedCopy(root, copies)
	werr := (&decModel{}).decode(doc, want.Elem())
	err := unmarshal(doc.Bytes(), nodes[0])
	mustNotPanic(t, "Unmarshal", err)
	if (err != nil) != (werr != nil) {
		t.Failf("Unmarshal: %v, the model: %v", err, werr)
	}
	if err != nil {
		return
	}
	if d := linkedDiff(want, root, "", map[linkKey]unsafe.Pointer{}, map[linkKey]unsafe.Pointer{}); d != "" {
		t.Failf("Unmarshal(%s, %d linked nodes): %s", doc, len(nodes), d)
	}
	if len(doc.Ent) > 0 {
		t.NonTrivial(hashBytes(doc.Bytes()))
	}
}

type linkKey struct {
	typ reflect.Type
	ptr unsafe.Pointer
}

// linkedCopy copies v and everything it refers to, with the same references among them.
func linkedCopy(v reflect.Value, done map[linkKey]reflect.Value) reflect.Value {
	c := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Pointer, reflect.Map, reflect.Slice:
		if v.IsNil() {
			return c
		}
		k := linkKey{v.Type(), v.UnsafePointer()}
		if r, ok := done[k]; ok {
			return r
		}
		switch v.Kind() {
		case reflect.Pointer:
			c.Set(reflect.New(v.Type().Elem()))
			done[k] = c
			linkedFill(c.Elem(), v.Elem(), done)
		case reflect.Map:
			c.Set(reflect.MakeMap(v.Type()))
			done[k] = c
			for it := v.MapRange(); it.Next(); {
				c.SetMapIndex(it.Key(), linkedCopy(it.Value(), done))
			}
		default:
			c.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Cap()))
			done[k] = c
			for i := range v.Len() {
				linkedFill(c.Index(i), v.Index(i), done)
			}
		}
	case reflect.Interface:
		if !v.IsNil() {
			c.Set(linkedCopy(v.Elem(), done))
		}
	default:
		linkedFill(c, v, done)
	}
	return c
}

// linkedFill copies in place.
func linkedFill(c, v reflect.Value, done map[linkKey]reflect.Value) {
	switch v.Kind() {
	case reflect.Struct:
		for i := range v.NumField() {
			linkedFill(c.Field(i), v.Field(i), done)
		}
	case reflect.Array:
		for i := range v.Len() {
			linkedFill(c.Index(i), v.Index(i), done)
		}
	case reflect.Pointer, reflect.Map, reflect.Slice, reflect.Interface:
		c.Set(linkedCopy(v, done))
	default:
		c.Set(v)
	}
}

// linkedDiff compares values and the references among their parts.
func linkedDiff(a, b reflect.Value, path string, fwd, back map[linkKey]unsafe.Pointer) string {
	if a.IsValid() != b.IsValid() || a.IsValid() && a.Type() != b.Type() {
		return fmt.Sprintf("%s: want %v, got %v", path, a, b)
	}
	if !a.IsValid() {
		return ""
	}
	switch a.Kind() {
	case reflect.Pointer, reflect.Map, reflect.Slice:
		if a.Kind() != reflect.Slice && a.IsNil() != b.IsNil() { // a slice without elements may be nil or not
			return fmt.Sprintf("%s: want nil: %v, got nil: %v", path, a.IsNil(), b.IsNil())
		}
		if a.Kind() != reflect.Slice && a.IsNil() {
			return ""
		}
		if a.Kind() != reflect.Pointer && a.Len() != b.Len() {
			return fmt.Sprintf("%s: want %d elements, got %d", path, a.Len(), b.Len())
		}
		if a.Kind() != reflect.Slice || a.Len() > 0 {
			ka, kb := linkKey{a.Type(), a.UnsafePointer()}, linkKey{b.Type(), b.UnsafePointer()}
			pa, oka := fwd[ka]
			pb, okb := back[kb]
			if oka != okb || oka && (pa != kb.ptr || pb != ka.ptr) {
				return path + ": is, or is not, the same as in another place"
			}
			if oka {
				return ""
			}
			fwd[ka], back[kb] = kb.ptr, ka.ptr
		}
		switch a.Kind() {
		case reflect.Pointer:
			return linkedDiff(a.Elem(), b.Elem(), path+"*", fwd, back)
		case reflect.Map:
			for it := a.MapRange(); it.Next(); {
				e := b.MapIndex(it.Key())
				if !e.IsValid() {
					return fmt.Sprintf("%s: no entry %v", path, it.Key())
				}
				if d := linkedDiff(it.Value(), e, fmt.Sprintf("%s[%v]", path, it.Key()), fwd, back); d != "" {
					return d
				}
			}
			return ""
		}
		fallthrough
	case reflect.Array:
		for i := range a.Len() {
			if d := linkedDiff(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i), fwd, back); d != "" {
				return d
			}
		}
	case reflect.Struct:
		for i := range a.NumField() {
			if d := linkedDiff(a.Field(i), b.Field(i), path+"."+a.Type().Field(i).Name, fwd, back); d != "" {
				return d
			}
		}
	case reflect.Interface:
		return linkedDiff(a.Elem(), b.Elem(), path, fwd, back)
	default:
		return diff(a, b)
	}
	return ""
}

// slicesOf returns all slices within v, each up to its capacity.
func slicesOf(v reflect.Value, r []reflect.Value) []reflect.Value {
	if !v.IsValid() || !v.CanInterface() || len(r) > 100 {
		return r
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			r = slicesOf(v.Elem(), r)
		}
	case reflect.Slice:
		if !v.IsNil() {
			full := v.Slice3(0, v.Cap(), v.Cap())
			r = append(r, full)
			for i := range full.Len() {
				r = slicesOf(full.Index(i), r)
			}
		}
	case reflect.Array:
		for i := range v.Len() {
			r = slicesOf(v.Index(i), r)
		}
	case reflect.Map:
		for it := v.MapRange(); it.Next(); {
			r = slicesOf(it.Value(), r)
		}
	case reflect.Struct:
		for i := range v.NumField() {
			r = slicesOf(v.Field(i), r)
		}
	}
	return r
}

// pointers are reused, so that a value decoded through a pointer is seen by its other owners
func c23Ptr(t *T) {
	g := newDocGen(t)
	g.Null = 150
	type In struct {
		X int
		S []string
		M map[string]int
	}
	type Out struct {
		P *In
		Q *int `php:"q"`
		M map[string]*In
		S []*In
		A [2]*In
		Y *string `php:"y,string"`
	}
	fill := newValGen(t, ValOpts{Budget: 40, NilPct: 1}).Value(typeOf[Out]())
	out := fill.Addr().Interface().(*Out)
	p, q, y, a0 := out.P, out.Q, out.Y, out.A[0]
	m := out.M
	mlen := len(m)
	s := append([]*In(nil), out.S...)
	var sv []In
	for _, e := range s {
		if e != nil {
			sv = append(sv, deepCopy(reflect.ValueOf(*e)).Interface().(In))
		} else {
			sv = append(sv, In{})
		}
	}
	n := g.For(typeOf[Out](), 3)
	t.Desc(func() string { return "Unmarshal(" + n.String() + ") over a struct with pointers" })
	if !checkUnmarshal(t, n, fill) {
		return
	}
	ent := map[string]*Node{}
	for _, e := range n.Ent {
		ent[e.Key.Str] = e.Val
	}
	if p != nil && out.P != nil && p != out.P {
		t.Failf("field P: the pointer was not reused")
	}
	if q != nil && out.Q != nil && q != out.Q {
		t.Failf("field Q: the pointer was not reused")
	}
	if y != nil && out.Y != nil && y != out.Y {
		t.Failf("field Y: the pointer was not reused")
	}
	if v := ent["A"]; a0 != nil && v != nil && v.K == 'a' && out.A[0] == a0 {
		t.Failf("field A: the old element was kept")
	}
	if v := ent["M"]; m != nil && v != nil && v.K != 'N' && reflect.ValueOf(m).Pointer() != reflect.ValueOf(out.M).Pointer() {
		t.Failf("field M: the map was not reused")
	}
	if v := ent["M"]; (v == nil || v.K == 'N') && len(m) != mlen {
		t.Failf("field M: the old map was changed")
	}
	// the old slice is replaced, its elements are not written to
	for i, e := range s {
		if e != nil && ent["S"] != nil {
			if d := diff(reflect.ValueOf(sv[i]), reflect.ValueOf(*e)); d != "" {
				t.Failf("field S: the old element %d changed: %s", i, d)
			}
		}
	}
	t.NonTrivial(hashBytes(n.Bytes()))
}

// ---- C24: mismatches ----

func c24(t *T) {
	rt, _ := decodeType(t, TypeOpts{Dec: true, Unm: true, StringTags: t.Bool(), StrAny: true})
	g := newDocGen(t)
	switch t.N(3) {
	case 0:
		g.Mis = 150
	case 1:
		g.OOR = 150
	case 2:
		g.Mis, g.OOR = 60, 60
	}
	n := g.For(rt, t.Int(1, 4))
	rv := newOf(rt)
	descDoc(t, n, rt)
	checkUnmarshal(t, n, rv)
	if g.mis || g.oor {
		t.NonTrivial(mix(hashBytes(n.Bytes()), hashStr(rt.String())))
	}
	docLabels(t, g)
}

// every kind of value into every kind of destination
func c24Matrix(t *T) {
	all := append(append([]reflect.Type{}, scalarTypes...), namedScalars...)
	all = append(all, bytesType, typeOf[[]int](), typeOf[[]string](), typeOf[[2]int](), typeOf[map[string]int](), typeOf[map[int]string](), typeOf[MyStruct2](),
		typeOf[*int](), typeOf[*string](), typeOf[*MyStruct2](), typeOf[*[]int](), typeOf[struct {
			V int     `php:"v,string"`
			F float64 `php:"f,string"`
			B bool    `php:"b,string"`
			U *uint8  `php:"u,string"`
			S string  `php:"s,string"`
		}](), typeOf[fmt.Stringer](), typeOf[MyBytes](), typeOf[[]MyU8](), typeOf[[]uint16](), typeOf[[]bool](), typeOf[map[any]int]())
	rt := pick(t, all)
	g := newDocGen(t)
	g.left = 6
	var n *Node
	v := func() *Node {
		switch t.N(8) {
		case 0:
			return nInt(drawInt(t, 64))
		case 1:
			return nUint(drawUint(t, 64))
		case 2:
			return g.str()
		case 3:
			return nBool(t.Bool())
		case 4:
			return g.float(64)
		case 5:
			return g.Any(1)
		case 6:
			return nStr(strconv.Itoa(t.Int(0, 300)))
		default:
			return g.obj(&Node{})
		}
	}
	n = v()
	if t.Bool() && rt.Kind() != reflect.Pointer {
		if x := g.For(rt, 1); len(x.Ent) > 0 {
			n = x
			e := &n.Ent[t.N(len(n.Ent))]
			if t.Bool() {
				e.Val = v()
			} else if k := v(); k.K == 'i' || k.K == 's' {
				e.Key = k
			}
		}
	}
	var rv reflect.Value
	get := func() reflect.Value { return rv }
	dest := rt
	switch t.N(4) {
	case 1:
		if rt.Kind() != reflect.Uint8 {
			dest = reflect.SliceOf(rt)
			n = nArr(n)
		}
	case 2:
		dest = reflect.MapOf(typeOf[string](), rt)
		n = &Node{K: 'a', Ent: []Entry{{nStr("k"), n}}}
	case 3:
		dest = structOf(field("F", rt, `php:"f"`))
		n = &Node{K: 'a', Ent: []Entry{{nStr("f"), n}}}
	}
	rv = newOf(dest)
	descDoc(t, n, dest)
	if !checkUnmarshal(t, n, get()) {
		t.NonTrivial(mix(hashBytes(n.Bytes()), hashStr(dest.String())))
	}
}

// ---- C26: list indices ----

func c26(t *T) {
	g := newDocGen(t)
	elem := pick(t, []reflect.Type{typeOf[int](), typeOf[string](), typeOf[any](), typeOf[*int](), typeOf[[]int](), typeOf[map[string]int](), typeOf[MyStruct2](),
		typeOf[bool](), typeOf[[2]string](), typeOf[float64](), typeOf[uint8](), typeOf[RecTreeV](), typeOf[UnmRec](), typeOf[int16]()})
	var rt reflect.Type
	if t.Bool() {
		rt = reflect.SliceOf(elem)
	} else {
		rt = reflect.ArrayOf(t.Int(0, 12), elem)
	}
	var idx []int64
	seen := map[int64]bool{}
	at := int64(0)
	n := &Node{K: 'a'}
	for c := t.Int(1, 24); c > 0; c-- {
		switch t.W(8, 2, 2, 1) {
		case 0:
		case 1:
			at += int64(t.Int(0, 3))
		case 2:
			at = int64(t.Int(0, 40))
		case 3:
			at += int64(t.Int(0, 700))
		}
		if !seen[at] {
			seen[at] = true
			idx = append(idx, at)
		}
		at++
	}
	if rt.Kind() == reflect.Array && t.Chance(1, 3) { // far past the array
		for c := t.Int(1, 3); c > 0; c-- {
			far := pick(t, []int64{1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 33, 1 << 40, 1 << 48, 1 << 62, math.MaxInt64 - 12, math.MaxInt32, 99999999, 1000000000, 1e18}) + int64(t.Int(0, 12))
			if !seen[far] {
				seen[far] = true
				idx = append(idx, far)
			}
		}
		t.Label("far index")
	}
	switch t.N(4) {
	case 1:
		shuffle(t, idx)
	case 2:
		for i, j := 0, len(idx)-1; i < j; i, j = i+1, j-1 {
			idx[i], idx[j] = idx[j], idx[i]
		}
	case 3:
		i := t.N(len(idx))
		idx = append(idx[i:], idx[:i]...)
	}
	g.left = 40
	for _, i := range idx {
		n.Ent = append(n.Ent, Entry{g.zeros(nInt(i)), g.For(elem, 1)})
	}
	if t.Chance(1, 8) { // negative or string index
		k := pick(t, []*Node{nInt(-1), nStr("a"), nStr("0"), nInt(-9223372036854775808), {K: 'i', Text: "9223372036854775808"}, {K: 'i', Text: "18446744073709551616"}, nInt(-2147483649)})
		n.Ent[t.N(len(n.Ent))].Key = k
		t.Label("bad index")
	}
	rv := newOf(rt)
	if t.Chance(1, 3) {
		newValGen(t, ValOpts{Budget: 30, RT: true}).Fill(rv)
	}
	descDoc(t, n, rt)
	checkUnmarshal(t, n, rv)
	t.NonTrivial(mix(hashBytes(n.Bytes()), hashStr(rt.String())))
}

// ---- C27: objects ----

func toObjects(t *T, g *DocGen, n *Node, rt reflect.Type) int {
	for rt.Kind() == reflect.Pointer {
		rt = rt.Elem()
	}
	if reflect.PointerTo(rt).Implements(unmarshalerIface) {
		return 0
	}
	c := 0
	switch {
	case rt.Kind() == reflect.Struct && (n.K == 'a' || n.K == 'O'):
		fs := map[string]fieldInfo{}
		for _, f := range fieldsOf(rt) {
			fs[f.key] = f
		}
		for _, e := range n.Ent {
			if f, ok := fs[e.Key.Str]; ok {
				c += toObjects(t, g, e.Val, f.typ)
			}
		}
	case rt.Kind() == reflect.Map && (n.K == 'a' || n.K == 'O'), rt.Kind() == reflect.Slice, rt.Kind() == reflect.Array:
		for _, e := range n.Ent {
			c += toObjects(t, g, e.Val, rt.Elem())
		}
		if rt.Kind() != reflect.Map {
			return c
		}
	default:
		return 0
	}
	if t.Chance(3, 4) {
		if n.K == 'a' {
			g.obj(n)
		} else {
			n.K, n.Str = 'a', ""
		}
		c++
	}
	return c
}

func c27(t *T) {
	tg := &TypeGen{t: t, o: TypeOpts{NoMar: true, Unm: true}}
	var rt reflect.Type
	switch t.N(4) {
	case 0:
		rt = tg.Struct(2)
	case 1:
		rt = reflect.MapOf(tg.Key(), tg.Any(2))
	case 2:
		rt = reflect.SliceOf(tg.Struct(1))
	case 3:
		rt = pick(t, recursiveTypes)
	}
	g := newDocGen(t)
	n := g.For(rt, 3)
	m := n.Clone()
	if toObjects(t, g, m, rt) == 0 {
		t.Discard()
	}
	a, b := newOf(rt), newOf(rt)
	t.Desc(func() string { return "*" + typeName(rt) + ": " + n.String() + " and " + m.String() })
	err1 := unmarshal(n.Bytes(), a.Addr().Interface())
	err2 := unmarshal(m.Bytes(), b.Addr().Interface())
	mustNotPanic(t, "Unmarshal", err1)
	mustNotPanic(t, "Unmarshal", err2)
	if err1 != nil || err2 != nil {
		t.Failf("%s: %v; %s: %v", n, err1, m, err2)
	}
	if d := diff(a, b); d != "" {
		t.Failf("%s and %s decode differently: %s", n, m, d)
	}
	t.NonTrivial(mix(hashBytes(m.Bytes()), hashStr(rt.String())))
}

func init() {
	register(&Property{ID: "C04",
		Rule: "random documents (all scalar kinds, lists, arrays, objects, nested) into interface-typed destinations against the reference decoder, dynamic types included; non-trivial: the document is a container",
		Arms: []Arm{{"any", c04, 240000, 2400000}, {"sizes", c04Sizes, 4000, 60000}}})
	register(&Property{ID: "C05",
		Rule: "random destination types with documents drawn for them (nulls, objects, unknown entries, shuffled and sparse lists, PHP float spellings) against the reference decoder, and one document in ~10 kinds of place; non-trivial: the document is a container",
		Arms: []Arm{{"typed", c05, 200000, 2000000}, {"places", c05Places, 20000, 200000}, {"sizes", c05Sizes, 6000, 100000}}})
	register(&Property{ID: "C06",
		Rule: "random values of random types are marshalled and unmarshalled into a fresh value of the same type; non-trivial: more than a scalar's worth of output",
		Arms: []Arm{{"typed", c06, 100000, 1500000}, {"custom", c06Custom, 16000, 200000}, {"sizes", c06Sizes, 4000, 60000}}})
	register(&Property{ID: "C02",
		Rule: "random struct types with random php tags (names, unusable names, -, \"-,\", omitempty, string, unknown options, other tags, unexported fields): encoding and decoding against the reference models, and agreement of both directions field by field; every case is non-trivial",
		Arms: []Arm{{"encode", c02Encode, 40000, 600000}, {"iface", c02Iface, 20000, 300000}, {"decode", c02Decode, 40000, 600000}, {"agree", c02Agree, 40000, 600000}}})
	register(&Property{ID: "C21",
		Rule: "random types dense in custom Unmarshalers with random documents against the reference decoder, and a recording Unmarshaler in 14 kinds of place, and many of them in one document, one of which fails, each given its bytes once; non-trivial: the type contains an Unmarshaler, or the document holds several values for them",
		Arms: []Arm{{"types", c21, 200000, 2000000}, {"places", c21Places, 90000, 900000}, {"once", c21Once, 60000, 600000}, {"sizes", c21Sizes, 4000, 40000}}})
	register(&Property{ID: "C22",
		Rule: "a document is decoded with and without extra entries that the destination has no place for (unknown keys near the real ones, indices past an array), holding random nested values, at random positions and levels; the results must be equal; every case is non-trivial",
		Arms: []Arm{{"extra", c22, 160000, 1600000}, {"sizes", c22Sizes, 4000, 40000}}})
	register(&Property{ID: "C23",
		Rule: "random documents with many nulls and missing entries are decoded over random prior contents, against the reference decoder, and identity of reused pointers and maps is checked, also where what is there refers to itself or is reached several ways; non-trivial: the document was accepted",
		Arms: []Arm{{"prior", c23, 300000, 3000000}, {"identity", c23Ptr, 100000, 1000000}, {"linked", c23Linked, 40000, 400000}, {"sizes", c23Sizes, 6000, 60000}}})
	register(&Property{ID: "C24",
		Rule: "documents with values that do not fit the destination (other kinds, out of range, unparsable string options), and a kind-by-kind matrix; accepted exactly when the reference decoder accepts, with the same result; non-trivial: a misfit is present",
		Arms: []Arm{{"misfit", c24, 300000, 3000000}, {"matrix", c24Matrix, 200000, 2000000}, {"sizes", c24Sizes, 6000, 60000}}})
	register(&Property{ID: "C26",
		Rule: "lists with dense, sparse, reversed, rotated and shuffled indices into slices and arrays, also over prior contents, against the reference decoder; every case is non-trivial",
		Arms: []Arm{{"indices", c26, 300000, 3000000}, {"sizes", c26Sizes, 6000, 60000}}})
	register(&Property{ID: "C27",
		Rule: "a document and its copy with arrays turned into objects of random class names (and back) wherever a struct or map takes them; both must decode equally; every case is non-trivial",
		Arms: []Arm{{"objects", c27, 160000, 1600000}, {"sizes", c27Sizes, 4000, 40000}}})
}
