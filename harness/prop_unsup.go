package main

import (
	"fmt"
	"reflect"
	"unsafe"
)

// ---- C25: what is not supported is reported ----

type Embedded struct{ Z int }
type withEmb struct {
	Embedded
	B int
}
type withEmbPtr struct {
	*Embedded
	B int
}
type notMarshaler interface{ Foo() }
type fooInt int
type nestedPtr *int

func (fooInt) Foo() {}

type badLeaf struct {
	v    any // a value of the type, reachable parts included
	dec  bool
	enc  bool
	full bool // any document must be rejected
}

var badLeafs = []badLeaf{
	{make(chan int), true, true, true}, {(chan int)(nil), true, true, true}, {func() {}, true, true, true}, {(func(int) string)(nil), true, true, true},
	{complex64(1), true, true, true}, {complex128(0), true, true, true}, {unsafe.Pointer(nil), true, true, true},
	{map[float64]int{1: 1}, true, true, false}, {map[[2]int]string{{}: "x"}, true, true, false}, {map[struct{ A int }]int{{1}: 1}, true, true, false},
	{map[complex64]int{1: 1}, true, true, false}, {map[bool]int{true: 1}, false, true, false}, {map[any]any{1: 1}, false, true, false}, {map[any]string{"a": "a"}, false, true, false},
	{map[*int]int{new(int): 1}, true, true, false}, {map[chan int]int{nil: 1}, true, true, false}, {map[float32]any{0: nil}, true, true, false}, {map[notMarshaler]int{fooInt(1): 1}, true, true, false},
	{map[float64]int(nil), true, true, false}, {map[[2]int]string(nil), true, true, false}, {map[bool]int(nil), false, true, false}, {map[any]any(nil), false, true, false},
	{map[complex64]any(nil), true, true, false}, {map[*int]any{}, true, true, false}, {map[any]string{}, false, true, false}, {map[struct{}]any(nil), true, true, false},
	{withEmb{}, true, true, true}, {withEmbPtr{}, true, true, true}, {[]chan int{nil}, true, true, false}, {map[string]func(){"a": nil}, true, true, false},
	{[1]complex64{}, true, true, false}, {struct{ C chan int }{}, true, true, false}, {[]any{make(chan int)}, false, true, false}, {map[string]any{"k": complex64(1)}, false, true, false},
	{[0]chan int{}, false, true, false}, {[0]func(){}, false, true, false}, {[0]map[float64]int{}, false, true, false}, {[2][0]complex64{}, false, true, false},
	{struct{ Z [0]unsafe.Pointer }{}, false, true, false}, {[]map[string][0]chan int{{"a": {}}}, false, true, false},
	// pointers to pointers are values of every place but fields
	{struct{ P **int }{}, false, true, false}, {struct{ P ***string }{}, false, true, false}, {struct {
		A int
		P **int `php:",omitempty"`
	}{}, false, true, false}, {struct {
		P *nestedPtr `php:"p"`
	}{new(nestedPtr)}, false, true, false}, {[0]struct{ P **MyStruct }{}, false, true, false},
	// the string option of what it does not apply to
	{struct {
		S []int `php:",string"`
	}{}, false, true, false}, {struct {
		M map[string]int `php:"m,string,omitempty"`
	}{}, false, true, false}, {struct {
		A [2]bool `php:",string"`
	}{}, false, true, false}, {struct {
		S MyStruct `php:",omitempty,string"`
	}{}, false, true, false}, {struct {
		B []byte `php:",string"`
	}{}, false, true, false}, {struct {
		I any `php:",string"`
	}{[]int{1}}, false, true, false}, {struct {
		I any `php:",string,omitempty"`
	}{map[string]int{}}, false, true, false}, {struct {
		I any `php:",string"`
	}{MyStruct{}}, false, true, false}, {struct {
		I any `php:",string"`
	}{[]byte("5")}, false, true, false},
	{struct {
		A int     `php:"x"`
		B string  `php:"x"`
		C float64 `php:"y"`
	}{}, true, false, true},
	{struct {
		A int `php:"B"`
		B string
	}{}, true, false, true},
}

// omitTag is the tag if a field with that value is written all the same, or is of a type that is never written.
func omitTag(v reflect.Value, tag string) string {
	switch v.Kind() {
	case reflect.Chan, reflect.Func, reflect.Complex64, reflect.Complex128, reflect.UnsafePointer:
		return tag
	}
	if v.IsZero() {
		return ""
	}
	return tag
}

// badHolder puts the leaf into a random place in which Marshal must meet it.
func badHolder(t *T, leaf reflect.Value) (reflect.Value, []string) {
	v := leaf
	var path []string
	fill := func() reflect.Value {
		tg := &TypeGen{t: t, o: TypeOpts{}}
		return newValGen(t, ValOpts{NilPct: 1, Budget: 6, NoRaw: true}).Value(tg.Any(1))
	}
	ptr := func(v reflect.Value) reflect.Value {
		p := reflect.New(v.Type())
		p.Elem().Set(v)
		return p
	}
	for n := t.Int(0, 5); n > 0; n-- {
		rt := v.Type()
		k := t.N(9)
		switch k {
		case 0: // []any with company
			s := reflect.ValueOf([]any{fill().Interface(), nil, fill().Interface()})
			s.Index(1).Set(v)
			v = s
		case 1:
			v = reflect.ValueOf(map[string]any{"k": v.Interface(), "l": 1, "m": "x"})
		case 2: // typed struct
			st := reflect.New(structOf(field("A", typeOf[int](), ""), field("X", rt, pick(t, []string{"", `php:"x"`, `php:"y,string2"`, omitTag(v, `php:",omitempty"`), omitTag(v, `php:"x,omitempty"`)})), field("Z", typeOf[string](), ""))).Elem()
			st.Field(1).Set(v)
			v = st
		case 3: // typed slice
			s := reflect.MakeSlice(reflect.SliceOf(rt), 0, 3)
			for i := t.Int(0, 2); i > 0; i-- {
				s = reflect.Append(s, v)
			}
			v = reflect.Append(s, v)
		case 4:
			a := reflect.New(reflect.ArrayOf(2, rt)).Elem()
			a.Index(0).Set(v)
			a.Index(1).Set(v)
			v = a
		case 5:
			m := reflect.MakeMap(reflect.MapOf(pick(t, keyTypes), rt))
			m.SetMapIndex(newOf(m.Type().Key()), v)
			v = m
		case 6:
			if rt.Kind() != reflect.Pointer {
				v = ptr(v)
			} else {
				v = reflect.ValueOf([]any{v.Interface()})
			}
		case 7: // a struct field of interface type
			st := reflect.New(structOf(field("I", anyType, pick(t, []string{"", `php:"i"`, `php:",omitempty"`})), field("B", typeOf[bool](), ""))).Elem()
			st.Field(0).Set(v)
			v = st
		default: // pointer field
			if rt.Kind() == reflect.Pointer {
				v = ptr(reflect.ValueOf([]any{v.Interface()}))
				break
			}
			st := reflect.New(structOf(field("P", reflect.PointerTo(rt), `php:"p,omitempty"`))).Elem()
			st.Field(0).Set(ptr(v))
			v = st
		}
		path = append(path, []string{"[]any", "map[string]any", "struct", "slice", "array", "map", "pointer", "any field", "pointer field"}[k])
	}
	return v, path
}

func c25Encode(t *T) {
	l := pick(t, badLeafs)
	for !l.enc {
		l = pick(t, badLeafs)
	}
	v, path := badHolder(t, reflect.ValueOf(l.v))
	t.Desc(func() string { return fmt.Sprintf("Marshal of %T within %v", l.v, path) })
	t.NonTrivial(mix(hashStr(fmt.Sprintf("%T %v", l.v, path))))
	for range 2 {
		out, err := marshal(v.Interface())
		mustNotPanic(t, "Marshal", err)
		if err == nil {
			t.Failf("Marshal of an unsupported %T within %v succeeded with %s", l.v, path, clip(out))
		}
		if out != nil {
			t.Failf("failing Marshal returned %s", clip(out))
		}
		if err.Error() == "" {
			t.Failf("the error says nothing")
		}
	}
}

func c25Decode(t *T) {
	l := pick(t, badLeafs)
	for !l.dec {
		l = pick(t, badLeafs)
	}
	rt := reflect.TypeOf(l.v)
	g := newDocGen(t)
	g.Null = 0
	var n *Node
	switch {
	case l.full:
		n = g.Any(1)
		for n.K == 'N' {
			n = nInt(1)
		}
		if t.Chance(1, 5) { // there is nothing it could reset
			n = nNull()
		}
	case rt.Kind() == reflect.Struct:
		n = &Node{K: 'a', Ent: []Entry{{nStr("C"), nInt(1)}}}
	default: // a container with one entry
		n = nArr(nInt(int64(t.Int(0, 3))))
		if rt.Kind() == reflect.Map && t.Bool() {
			n.Ent[0].Key = nStr(pick(t, []string{"a", "1", "1.5", ""}))
		}
	}
	path := ""
	for k := t.Int(0, 4); k > 0; k-- {
		switch t.N(5) {
		case 0:
			rt, n, path = reflect.SliceOf(rt), nArr(n), "slice of "+path
		case 1:
			rt = structOf(field("A", typeOf[int](), ""), field("X", rt, `php:"x"`), field("L", typeOf[[]string](), ""))
			es := []Entry{{nStr("A"), nInt(1)}, {nStr("x"), n}, {nStr("L"), nArr(nStr("q"))}}
			shuffle(t, es)
			n, path = &Node{K: 'a', Ent: es}, "struct of "+path
		case 2:
			rt, n, path = reflect.MapOf(typeOf[string](), rt), &Node{K: 'a', Ent: []Entry{{nStr("k"), n}}}, "map of "+path
		case 3:
			rt, n, path = reflect.ArrayOf(1, rt), nArr(n), "array of "+path
		default:
			if rt.Kind() != reflect.Pointer && n.K != 'N' {
				rt, path = reflect.PointerTo(rt), "pointer to "+path
			}
		}
	}
	t.Desc(func() string { return fmt.Sprintf("Unmarshal(%s) into %s%T", n, path, l.v) })
	t.NonTrivial(mix(hashBytes(n.Bytes()), hashStr(rt.String())))
	for range 2 {
		err := unmarshal(n.Bytes(), newOf(rt).Addr().Interface())
		mustNotPanic(t, "Unmarshal", err)
		if err == nil {
			t.Failf("Unmarshal(%s) into %s%T, which is not supported, succeeded", n, path, l.v)
		}
		if err.Error() == "" {
			t.Failf("the error says nothing")
		}
	}
}

// c25Dest: destinations and data that cannot be used at all.
func c25Dest(t *T) {
	tg := &TypeGen{t: t, o: TypeOpts{Unm: true, MarW: 1}}
	rt := tg.Any(t.Int(0, 3))
	rv := newValGen(t, ValOpts{NilPct: 1, Types: tg, Budget: 20}).Value(rt)
	g := newDocGen(t)
	doc := g.For(rt, 3).Bytes()
	before := deepCopy(rv)
	var dest any
	what := ""
	switch t.N(5) {
	case 0:
		dest, what = nil, "nil"
	case 1: // the value itself
		if rt.Kind() == reflect.Pointer || rt.Kind() == reflect.Interface {
			t.Discard()
		}
		dest, what = rv.Interface(), "a value that is not a pointer"
	case 2:
		dest, what = reflect.Zero(reflect.PointerTo(rt)).Interface(), "a nil pointer"
	case 3:
		dest, what, doc = rv.Addr().Interface(), "empty data", []byte{}
	default:
		dest, what, doc = rv.Addr().Interface(), "nil data", nil
	}
	t.Desc(func() string { return fmt.Sprintf("Unmarshal(%s) with %s of %s", clip(doc), what, typeName(rt)) })
	t.NonTrivial(mix(hashStr(what), hashStr(rt.String()), hashBytes(doc)))
	t.Label(what)
	for range 2 {
		err := unmarshal(doc, dest)
		mustNotPanic(t, "Unmarshal with "+what, err)
		if err == nil {
			t.Failf("Unmarshal with %s succeeded", what)
		}
		if err.Error() == "" {
			t.Failf("the error says nothing")
		}
	}
	if d := diff(before, rv); d != "" {
		t.Failf("Unmarshal with %s changed the value: %s", what, d)
	}
}

// c25Ignored: a field that is not part of the data may have any type.
func c25Ignored(t *T) {
	l := pick(t, badLeafs[:19])
	tg := &TypeGen{t: t, o: TypeOpts{NoIface: true, NoMar: true}}
	ft := tg.Any(2)
	hidden := reflect.StructField{Name: "hid", PkgPath: "verifharness", Type: reflect.TypeOf(l.v)}
	if t.Bool() {
		hidden = field("Hid", reflect.TypeOf(l.v), `php:"-"`)
	}
	fs := []reflect.StructField{field("A", ft, `php:"a"`), hidden, field("B", typeOf[int](), "")}
	shuffle(t, fs)
	rt := structOf(fs...)
	rv := newOf(rt)
	newValGen(t, ValOpts{NilPct: 1, Budget: 20, RT: true, NoNaN: true}).Fill(rv.FieldByName("A"))
	rv.FieldByName("B").SetInt(5)
	t.Desc(func() string {
		return fmt.Sprintf("ignored field of type %T beside %s", l.v, show(rv.FieldByName("A")))
	})
	t.NonTrivial(mix(hashStr(rt.String()), uint64(len(t.rec))))
	checkMarshal(t, argOf(t, rv))
	n := newDocGen(t).For(rt, 3)
	checkUnmarshal(t, n, newOf(rt))
}

func init() {
	register(&Property{ID: "C25",
		Rule: "values of 34 unsupported types in random typed and untyped holders, to be met by Marshal; documents that reach a destination of an unsupported type below random holders; nil, non-pointer and nil-pointer destinations and empty data with random types; the same types in ignored fields, where all must work; every case is non-trivial",
		Arms: []Arm{{"encode", c25Encode, 60000, 600000}, {"decode", c25Decode, 60000, 600000}, {"dest", c25Dest, 60000, 600000}, {"ignored", c25Ignored, 30000, 300000}}})
}
