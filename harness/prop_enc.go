package main

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"strings"
)

func ifaceOf(rv reflect.Value) any {
	if !rv.IsValid() {
		return nil
	}
	return rv.Interface()
}

func descValue(t *T, rv reflect.Value) {
	t.Desc(func() string { return "Marshal(" + typeName(rv.Type()) + " " + show(rv) + ")" })
}

// argOf draws how the value is handed to Marshal.
func argOf(t *T, rv reflect.Value) any {
	k := rv.Kind()
	if k == reflect.Interface || (k != reflect.Pointer && t.Chance(1, 4)) {
		t.Label("by pointer")
		return rv.Addr().Interface()
	}
	return rv.Interface()
}

// checkMarshal compares Marshal(v) with the reference encoder.
func checkMarshal(t *T, v any) []byte {
	want, werr := refEncode(v)
	got, err := marshal(v)
	mustNotPanic(t, "Marshal", err)
	if werr != nil {
		if err == nil {
			t.Failf("Marshal succeeded with %s, the model says it must fail: %v", clip(got), werr)
		}
		if got != nil {
			t.Failf("failing Marshal returned output %s", clip(got))
		}
		if errors.Is(werr, errCustom) && !errors.Is(err, errCustom) {
			t.Failf("Marshal failed with %v, not with the error of MarshalPHP", err)
		}
		t.Label("error")
		return nil
	}
	if err != nil {
		t.Failf("Marshal failed: %v; want %s", err, clip(want.Bytes()))
	}
	if d := matchAll(want, got); d != "" {
		t.Failf("Marshal = %s: %s", clip(got), d)
	}
	return got
}

func sizeLabel(t *T, n int) {
	switch {
	case n > 1024:
		t.Label("output>1024")
	case n > 100:
		t.Label("output>100")
	}
}

// ---- C01 ----

func c01General(t *T) {
	tg := &TypeGen{t: t, o: TypeOpts{Enc: true, WideStruct: true, BigArray: true}}
	rt := tg.Any(t.Int(1, 4))
	vg := newValGen(t, ValOpts{Big: true, Sharing: true, NilPct: 1, Types: tg, NoRaw: true})
	rv := vg.Value(rt)
	descValue(t, rv)
	out := checkMarshal(t, argOf(t, rv))
	if n, err := parseStrict(out); err != nil {
		t.Failf("Marshal = %s: not well formed: %v", clip(out), err)
	} else if n.Count() > 1 {
		t.NonTrivial(hashBytes(out))
		t.Label("kind " + rt.Kind().String())
	}
	sizeLabel(t, len(out))
}

func c01Any(t *T) {
	tg := &TypeGen{t: t, o: TypeOpts{Enc: true}}
	vg := newValGen(t, ValOpts{Big: true, Sharing: true, NilPct: 1, Types: tg, NoRaw: true, Budget: 120})
	rv := vg.Value(pick(t, []reflect.Type{typeOf[map[string]any](), typeOf[[]any](), typeOf[map[int]any](), typeOf[any](), typeOf[[3]any](), typeOf[map[MyStr]any](),
		typeOf[map[uint8]any](), typeOf[[]map[string]any](), typeOf[map[string][]any](), typeOf[struct {
			A any
			B []any
			C map[string]any `php:",omitempty"`
		}]()}))
	descValue(t, rv)
	out := checkMarshal(t, argOf(t, rv))
	if n, err := parseStrict(out); err != nil {
		t.Failf("Marshal = %s: not well formed: %v", clip(out), err)
	} else if n.Depth() > 1 {
		t.NonTrivial(hashBytes(out))
	}
	sizeLabel(t, len(out))
}

// every length around the sizes of internal buffers
func c01Sizes(t *T) {
	n := t.Int(0, 2600)
	if t.Chance(1, 10) {
		n = t.Int(2600, 70000)
	}
	var v any
	switch t.N(6) {
	case 0:
		v = map[string]string{"k": strings.Repeat("x", n)}
	case 1:
		v = struct {
			A string
			B []int
		}{strings.Repeat("x", n), make([]int, t.Int(0, 120))}
	case 2:
		v = make([]uint16, n/8)
	case 3:
		v = make([]struct{ A, B bool }, n/20)
	case 4:
		m := map[int]any{}
		for i := 0; i < n/12; i++ {
			m[i*7] = i % 3
		}
		v = m
	case 5:
		type in struct{ V []string }
		type out struct {
			A in
			B *in
			S string
		}
		v = out{in{[]string{strings.Repeat("q", n/3)}}, &in{make([]string, n/30)}, strings.Repeat("r", n/3)}
	}
	rv := reflect.ValueOf(v)
	t.Desc(func() string { return "Marshal(" + typeName(rv.Type()) + fmt.Sprintf(" of size %d)", n) })
	out := checkMarshal(t, v)
	t.NonTrivial(mix(uint64(n), hashStr(rv.Type().String()), uint64(len(out))))
	sizeLabel(t, len(out))
}

// ---- C03 ----

type holder struct {
	name string
	v    any
	pre  string
	post string
}

func holdersOf(t *T, rv reflect.Value) []holder {
	rt := rv.Type()
	x := rv
	var hs []holder
	add := func(name string, v reflect.Value, pre, post string) {
		hs = append(hs, holder{name, v.Interface(), pre, post})
	}
	ptr := func(v reflect.Value) reflect.Value {
		p := reflect.New(v.Type())
		p.Elem().Set(v)
		return p
	}
	isPtr := rt.Kind() == reflect.Pointer
	// a pointer whose type alone has MarshalPHP is another kind of value
	ptrMar := !isPtr && !rt.Implements(marshalerIface) && reflect.PointerTo(rt).Implements(marshalerIface)
	iface := func(v reflect.Value) reflect.Value { a := newOf(anyType); a.Set(v); return a }
	if rt.Kind() != reflect.Interface {
		add("direct", x, "", "")
	}
	a := iface(x)
	add("*any", ptr(a), "", "")
	add("[]any", reflect.Append(newOf(typeOf[[]any]()), a), "a:1:{i:0;", "}")
	m := reflect.MakeMap(typeOf[map[string]any]())
	m.SetMapIndex(reflect.ValueOf("k"), a)
	add("map[string]any", m, `a:1:{s:1:"k";`, "}")
	arr := newOf(typeOf[[1]any]())
	arr.Index(0).Set(a)
	add("[1]any", arr, "a:1:{i:0;", "}")
	add("struct{any}", reflect.ValueOf(struct{ F any }{a.Interface()}), `a:1:{s:1:"F";`, "}")
	if p := ptr(a); true {
		add("struct{*any}", reflect.ValueOf(struct{ F *any }{p.Interface().(*any)}), `a:1:{s:1:"F";`, "}")
	}
	// statically typed holders
	sl := reflect.MakeSlice(reflect.SliceOf(rt), 1, 1)
	sl.Index(0).Set(x)
	add("[]T", sl, "a:1:{i:0;", "}")
	add("[]T in any", ptr(iface(sl)), "a:1:{i:0;", "}")
	av := newOf(reflect.ArrayOf(1, rt))
	av.Index(0).Set(x)
	add("[1]T", av, "a:1:{i:0;", "}")
	add("*[1]T", ptr(av), "a:1:{i:0;", "}")
	add("[1]T in any", ptr(iface(av)), "a:1:{i:0;", "}")
	mt := reflect.MakeMap(reflect.MapOf(typeOf[int](), rt))
	mt.SetMapIndex(reflect.ValueOf(7), x)
	add("map[int]T", mt, "a:1:{i:7;", "}")
	add("map[int]T in any", ptr(iface(mt)), "a:1:{i:7;", "}")
	ms := reflect.MakeMap(reflect.MapOf(typeOf[string](), reflect.SliceOf(rt)))
	ms.SetMapIndex(reflect.ValueOf("k"), sl)
	add("map[string][]T", ms, `a:1:{s:1:"k";a:1:{i:0;`, "}}")
	st := newOf(structOf(field("F", rt, "")))
	st.Field(0).Set(x)
	add("struct{T}", st, `a:1:{s:1:"F";`, "}")
	add("*struct{T}", ptr(st), `a:1:{s:1:"F";`, "}")
	add("struct{T} in any", ptr(iface(st)), `a:1:{s:1:"F";`, "}")
	st2 := newOf(structOf(field("A", typeOf[int](), ""), field("G", rt, `php:"g"`), field("Z", typeOf[string](), "")))
	st2.Field(1).Set(x)
	add("struct{int,T,string}", st2, `a:3:{s:1:"A";i:0;s:1:"g";`, `s:1:"Z";s:0:"";}`)
	if !rv.IsZero() {
		st3 := newOf(structOf(field("G", rt, `php:"g,omitempty"`), field("H", typeOf[[]int](), `php:",omitempty"`)))
		st3.Field(0).Set(x)
		add("struct{T,omitempty}", st3, `a:1:{s:1:"g";`, "}")
	}
	if !isPtr && !ptrMar {
		add("*T", ptr(x), "", "")
		add("*T in any", ptr(iface(ptr(x))), "", "")
		add("[]*T", reflect.Append(newOf(reflect.SliceOf(reflect.PointerTo(rt))), ptr(x)), "a:1:{i:0;", "}")
		sp := newOf(structOf(field("F", reflect.PointerTo(rt), "")))
		sp.Field(0).Set(ptr(x))
		add("struct{*T}", sp, `a:1:{s:1:"F";`, "}")
		sps := newOf(structOf(field("F", reflect.PointerTo(reflect.SliceOf(rt)), "")))
		sps.Field(0).Set(ptr(sl))
		add("struct{*[]T}", sps, `a:1:{s:1:"F";a:1:{i:0;`, "}}")
		mp := reflect.MakeMap(reflect.MapOf(typeOf[string](), reflect.PointerTo(rt)))
		mp.SetMapIndex(reflect.ValueOf("k"), ptr(x))
		add("map[string]*T", mp, `a:1:{s:1:"k";`, "}")
	}
	if !ptrMar && (rt.Kind() != reflect.Interface || isPtr) {
		add("**T in any", ptr(iface(ptr(ptr(x)))), "", "")
	}
	return hs
}

func c03(t *T) {
	tg := &TypeGen{t: t, o: TypeOpts{Enc: true, MarW: t.Int(1, 3)}}
	rt := tg.Any(t.Int(0, 3))
	rv := newValGen(t, ValOpts{NilPct: 1, Types: tg, NoRaw: true, Budget: 30, Sharing: true}).Value(rt)
	if rt.Kind() == reflect.Slice && rv.IsNil() && rt != bytesType {
		t.Label("nil slice")
	}
	want, werr := refEncode(rv.Interface())
	if werr != nil || rt == typeOf[uint8]() { // []byte and [n]byte are kinds of their own
		t.Discard()
	}
	hs := holdersOf(t, rv)
	for _, h := range hs {
		t.Desc(func() string { return "value " + typeName(rt) + " " + show(rv) + " held by " + h.name })
		got, err := marshal(h.v)
		mustNotPanic(t, "Marshal in "+h.name, err)
		if err != nil {
			t.Failf("held by %s: Marshal failed: %v; want %s", h.name, err, clip(want.Bytes()))
		}
		if !bytes.HasPrefix(got, []byte(h.pre)) || !bytes.HasSuffix(got, []byte(h.post)) || len(got) < len(h.pre)+len(h.post) {
			t.Failf("held by %s: Marshal = %s, want %s … %s around %s", h.name, clip(got), h.pre, h.post, clip(want.Bytes()))
		}
		if d := matchAll(want, got[len(h.pre):len(got)-len(h.post)]); d != "" {
			t.Failf("held by %s: Marshal = %s: %s", h.name, clip(got), d)
		}
	}
	t.NonTrivial(mix(hashStr(rt.String()), hashBytes(want.Bytes())))
	t.Label("kind " + rt.Kind().String())
}

// ---- C20 ----

func c20(t *T) {
	tg := &TypeGen{t: t, o: TypeOpts{Enc: true, MarW: t.Int(6, 14)}}
	rt := tg.Any(t.Int(0, 3))
	rv := newValGen(t, ValOpts{NilPct: t.Int(0, 2), Types: tg, MarErr: t.Chance(1, 3), Budget: 40}).Value(rt)
	descValue(t, rv)
	out := checkMarshal(t, argOf(t, rv))
	s := rt.String()
	if strings.Contains(s, "main.Mar") || strings.Contains(s, "marshalerI") {
		t.NonTrivial(mix(hashBytes(out), hashStr(s)))
	}
}

// a Marshaler in each kind of place, with the holder's own encoding known exactly
func c20Places(t *T) {
	rt := (&TypeGen{t: t, o: TypeOpts{Enc: true}}).marshaler()
	rv := newValGen(t, ValOpts{NilPct: 2, Budget: 10}).Value(rt)
	want, err := refEncode(rv.Interface())
	if err != nil {
		t.Discard()
	}
	for _, h := range holdersOf(t, rv) {
		t.Desc(func() string { return "Marshaler " + typeName(rt) + " " + show(rv) + " held by " + h.name })
		got, err := marshal(h.v)
		mustNotPanic(t, "Marshal in "+h.name, err)
		if err != nil {
			t.Failf("held by %s: Marshal failed: %v", h.name, err)
		}
		if !bytes.HasPrefix(got, []byte(h.pre)) || !bytes.HasSuffix(got, []byte(h.post)) || len(got) < len(h.pre)+len(h.post) {
			t.Failf("held by %s: Marshal = %s, want %s%s%s", h.name, clip(got), h.pre, clip(want.Bytes()), h.post)
		}
		if d := matchAll(want, got[len(h.pre):len(got)-len(h.post)]); d != "" {
			t.Failf("held by %s: Marshal = %s: %s", h.name, clip(got), d)
		}
	}
	t.NonTrivial(mix(hashStr(rt.String()), hashBytes(want.Bytes())))
}

var errMar = errors.New("from MarshalPHP")

// MarTok returns something else each time it is asked, and may fail once.
type MarTok struct{ log *tokLog }

type tokLog struct {
	toks   []string
	failAt int // the call that fails, none if negative
	part   bool
}

func (m MarTok) next() ([]byte, error) {
	n := len(m.log.toks)
	tok := strings.Repeat("t", n%5*n%17) + fmt.Sprintf("<%d>", n)
	m.log.toks = append(m.log.toks, tok)
	if n == m.log.failAt {
		if m.log.part {
			return []byte(tok), errMar
		}
		return nil, errMar
	}
	return []byte(tok), nil
}

func (m MarTok) MarshalPHP() ([]byte, error) { return m.next() }

type MarTokP struct {
	n int
	m MarTok
}

func (m *MarTokP) MarshalPHP() ([]byte, error) { return m.m.next() }

// c20Calls: every occurrence is asked anew, in the order of the output.
func c20Calls(t *T) {
	var log tokLog
	v, p := MarTok{&log}, &MarTokP{m: MarTok{&log}}
	pv := &v
	places := 0
	type node struct {
		A MarTok
		B *MarTok `php:"b"`
		C marshalerI
		D *MarTokP
		E any
		F []*MarTokP `php:",omitempty"`
		G *MarTokP   `php:",omitempty"`
	}
	const hole = "\x00"
	var build func(depth int) (any, string)
	build = func(depth int) (any, string) {
		places++
		k := t.N(6)
		if depth > 0 {
			k = t.N(16)
		}
		switch k {
		case 0:
			return p, hole
		case 1:
			return v, hole
		case 2:
			return pv, hole
		case 3:
			return &struct{ P *MarTokP }{p}, `a:1:{s:1:"P";` + hole + "}"
		case 4:
			return &[]marshalerI{p}[0], hole
		case 5:
			return (*MarTokP)(nil), "N;"
		case 6:
			n := t.Int(1, 5)
			s := make([]*MarTokP, n)
			want := fmt.Sprintf("a:%d:{", n)
			for i := range s {
				s[i] = p
				want += fmt.Sprintf("i:%d;", i) + hole
			}
			return s, want + "}"
		case 7:
			return [2]*MarTok{pv, pv}, "a:2:{i:0;" + hole + "i:1;" + hole + "}"
		case 8:
			return map[string]*MarTokP{"k": p}, `a:1:{s:1:"k";` + hole + "}"
		case 9:
			return []marshalerI{p, v, pv, p, nil}, "a:5:{i:0;" + hole + "i:1;" + hole + "i:2;" + hole + "i:3;" + hole + "i:4;N;}"
		case 10:
			return []MarTok{v, v}, "a:2:{i:0;" + hole + "i:1;" + hole + "}"
		case 11:
			in, want := build(depth - 1)
			return map[int]any{7: in}, "a:1:{i:7;" + want + "}"
		case 12, 13:
			in, want := build(depth - 1)
			return &node{v, pv, p, p, in, []*MarTokP{p, p}, p},
				`a:7:{s:1:"A";` + hole + `s:1:"b";` + hole + `s:1:"C";` + hole + `s:1:"D";` + hole + `s:1:"E";` + want + `s:1:"F";a:2:{i:0;` + hole + "i:1;" + hole + `}s:1:"G";` + hole + "}"
		default:
			s := []any{}
			want := ""
			for i := range t.Int(1, 4) {
				in, w := build(depth - 1)
				s = append(s, in)
				want += fmt.Sprintf("i:%d;", i) + w
			}
			return s, fmt.Sprintf("a:%d:{", len(s)) + want + "}"
		}
	}
	top, want := build(t.Int(1, 4))
	t.Desc(func() string { return fmt.Sprintf("%T with one Marshaler in all places of %q", top, want) })
	for range 2 {
		log = tokLog{failAt: -1}
		out, err := marshal(top)
		mustNotPanic(t, "Marshal", err)
		if err != nil {
			t.Failf("Marshal failed: %v", err)
		}
		parts := strings.Split(want, hole)
		var sb strings.Builder
		for i, part := range parts {
			if i > 0 && i <= len(log.toks) {
				sb.WriteString(log.toks[i-1])
			}
			sb.WriteString(part)
		}
		if string(out) != sb.String() || len(log.toks) != len(parts)-1 {
			t.Failf("%d calls of MarshalPHP for %d places; %s", len(log.toks), len(parts)-1, firstDiff([]byte(sb.String()), out))
		}
	}
	if k := strings.Count(want, hole); k > 0 {
		log = tokLog{failAt: t.N(k), part: t.Bool()}
		out, err := marshal(top)
		mustNotPanic(t, "Marshal", err)
		if !errors.Is(err, errMar) || len(out) != 0 {
			t.Failf("call %d of MarshalPHP, and no other, failed: Marshal = %s, %v after %d calls", log.failAt, clip(out), err, len(log.toks))
		}
	}
	if places > 1 {
		t.NonTrivial(hashStr(want + fmt.Sprintf("%T", top)))
	}
}

func init() {
	register(&Property{ID: "C01",
		Rule: "random Go types (scalars, strings, bytes, slices, arrays, maps, pointers, interfaces, tagged structs, named and recursive types) with values biased to edges, shared sub-values included, against a reference encoder and a strict parser; non-trivial: the output is a container",
		Arms: []Arm{{"general", c01General, 120000, 2000000}, {"any", c01Any, 40000, 600000}, {"sizes", c01Sizes, 12000, 100000}, {"wide", c01Wide, 4000, 60000}},
	})
	register(&Property{ID: "C03",
		Rule: "a random value of a random type is marshalled alone and inside ~25 kinds of holder (pointer, interface, slice, array, map, struct field, and nestings of them); the bytes of the value must be the same everywhere; every case is non-trivial",
		Arms: []Arm{{"holders", c03, 24000, 240000}},
	})
	register(&Property{ID: "C20",
		Rule: "random types dense in custom Marshalers (value and pointer receivers, of struct, string, int, bool, float, slice, bytes, map, array, interface kind), some failing, some returning raw bytes, against the reference encoder, each Marshaler in ~25 kinds of place, and one Marshaler in many places whose method returns something else each time; non-trivial: the type contains a Marshaler",
		Arms: []Arm{{"types", c20, 240000, 2400000}, {"places", c20Places, 80000, 800000}, {"sizes", c20Sizes, 2400, 24000}, {"calls", c20Calls, 40000, 400000}},
	})
}
