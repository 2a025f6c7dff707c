package main

import (
	"bytes"
	"cmp"
	"errors"
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"
	"runtime"
	"slices"
	"strings"
	"sync"
	"time"
	"unsafe"

	phpserialize "github.com/trim21/go-phpserialize"
)

// ---- memory of a value ----

// memory hashes everything reachable from a value: addresses, lengths, capacities and contents,
// up to the capacity of slices.
type memory struct {
	seen map[memKey]bool
}

type memKey struct {
	typ reflect.Type
	ptr unsafe.Pointer
	len int
}

func memoryOf(rv reflect.Value) uint64 {
	m := &memory{seen: map[memKey]bool{}}
	return m.of(rv)
}

func (m *memory) visit(k memKey) bool {
	if m.seen[k] {
		return false
	}
	m.seen[k] = true
	return true
}

func (m *memory) of(rv reflect.Value) uint64 {
	if !rv.IsValid() {
		return 1
	}
	k := uint64(rv.Kind())
	switch rv.Kind() {
	case reflect.Bool:
		if rv.Bool() {
			return mix(k, 1)
		}
		return mix(k, 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return mix(k, uint64(rv.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return mix(k, rv.Uint())
	case reflect.Float32, reflect.Float64:
		return mix(k, math.Float64bits(rv.Float()))
	case reflect.String:
		return mix(k, hashStr(rv.String()))
	case reflect.Slice:
		h := mix(k, uint64(rv.Pointer()), uint64(rv.Len()), uint64(rv.Cap()))
		if rv.IsNil() || !m.visit(memKey{rv.Type(), rv.UnsafePointer(), rv.Cap()}) {
			return h
		}
		full := rv.Slice(0, rv.Cap())
		if rv.Type().Elem().Kind() == reflect.Uint8 {
			return mix(h, hashBytes(full.Bytes()))
		}
		for i := 0; i < full.Len(); i++ {
			h = mix(h, m.of(full.Index(i)))
		}
		return h
	case reflect.Array:
		h := mix(k, uint64(rv.Len()))
		for i := 0; i < rv.Len(); i++ {
			h = mix(h, m.of(rv.Index(i)))
		}
		return h
	case reflect.Map:
		h := mix(k, uint64(rv.Pointer()), uint64(rv.Len()))
		if rv.IsNil() || !m.visit(memKey{rv.Type(), rv.UnsafePointer(), 0}) {
			return h
		}
		it := rv.MapRange()
		sum := uint64(0)
		for it.Next() {
			sum += mix(memoryOf(it.Key()), memoryOf(it.Value())) // the order must not matter
		}
		return mix(h, sum)
	case reflect.Pointer:
		h := mix(k, uint64(rv.Pointer()))
		if rv.IsNil() || !m.visit(memKey{rv.Type(), rv.UnsafePointer(), 0}) {
			return h
		}
		return mix(h, m.of(rv.Elem()))
	case reflect.Interface:
		if rv.IsNil() {
			return k
		}
		return mix(k, hashStr(rv.Elem().Type().String()), m.of(rv.Elem()))
	case reflect.Struct:
		h := k
		for i := 0; i < rv.NumField(); i++ {
			h = mix(h, m.of(rv.Field(i)))
		}
		return h
	}
	return mix(k, 99)
}

// scribble overwrites everything that can be reached from the value without replacing its
// containers: what shares memory with it changes as well.
func scribble(rv reflect.Value, seen map[memKey]bool) {
	visit := func(n int) bool {
		k := memKey{rv.Type(), rv.UnsafePointer(), n}
		if seen[k] {
			return false
		}
		seen[k] = true
		return true
	}
	switch rv.Kind() {
	case reflect.Slice:
		if rv.IsNil() || !visit(rv.Cap()) {
			return
		}
		full := rv.Slice(0, rv.Cap())
		for i := 0; i < full.Len(); i++ {
			scribble(full.Index(i), seen)
		}
		return
	case reflect.Array:
		for i := 0; i < rv.Len(); i++ {
			scribble(rv.Index(i), seen)
		}
		return
	case reflect.Map:
		if rv.IsNil() || !visit(0) {
			return
		}
		for i, k := range rv.MapKeys() {
			scribble(rv.MapIndex(k), seen)
			if i%2 == 0 {
				rv.SetMapIndex(k, reflect.Zero(rv.Type().Elem()))
			} else {
				rv.SetMapIndex(k, reflect.Value{})
			}
		}
		rv.SetMapIndex(reflect.Zero(rv.Type().Key()), reflect.Zero(rv.Type().Elem()))
		return
	case reflect.Pointer:
		if !rv.IsNil() && visit(0) {
			scribble(rv.Elem(), seen)
		}
		return
	case reflect.Interface:
		if !rv.IsNil() {
			scribble(rv.Elem(), seen)
		}
		return
	case reflect.Struct:
		for i := 0; i < rv.NumField(); i++ {
			if f := rv.Field(i); rv.Type().Field(i).IsExported() {
				scribble(f, seen)
			}
		}
		return
	}
	if !rv.CanSet() {
		return
	}
	switch rv.Kind() {
	case reflect.Bool:
		rv.SetBool(!rv.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		rv.SetInt(^rv.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		rv.SetUint(^rv.Uint())
	case reflect.Float32, reflect.Float64:
		rv.SetFloat(-12345.5)
	case reflect.String:
		rv.SetString("<scribbled>")
	}
}

// scribbleSpare writes into the spare capacity of every slice of the value, as append would.
func scribbleSpare(rv reflect.Value, n *int) {
	switch rv.Kind() {
	case reflect.Slice:
		if rv.IsNil() {
			return
		}
		for i := 0; i < rv.Len() && rv.Type().Elem().Kind() != reflect.Uint8; i++ {
			scribbleSpare(rv.Index(i), n)
		}
		for s := rv.Slice(rv.Len(), rv.Cap()); s.Len() > 0; s = s.Slice(1, s.Len()) {
			s.Index(0).SetZero()
			scribble(s.Index(0), map[memKey]bool{})
			*n++
		}
	case reflect.Array:
		for i := 0; i < rv.Len(); i++ {
			scribbleSpare(rv.Index(i), n)
		}
	case reflect.Map:
		it := rv.MapRange()
		for it.Next() {
			scribbleSpare(it.Value(), n)
		}
	case reflect.Pointer, reflect.Interface:
		if !rv.IsNil() {
			scribbleSpare(rv.Elem(), n)
		}
	case reflect.Struct:
		for i := 0; i < rv.NumField(); i++ {
			if rv.Type().Field(i).IsExported() {
				scribbleSpare(rv.Field(i), n)
			}
		}
	}
}

// region is memory that can be written to through a value.
type region struct {
	from, to uintptr
	what     string
	typ      reflect.Type
}

// regionsOf collects what can be written to through a value: the targets of pointers, the arrays of
// slices up to their capacity, and maps.
func regionsOf(rv reflect.Value, what string, out *[]region) {
	if len(*out) > 20000 {
		return
	}
	switch rv.Kind() {
	case reflect.Slice:
		if n := uintptr(rv.Cap()) * rv.Type().Elem().Size(); n > 0 {
			*out = append(*out, region{rv.Pointer(), rv.Pointer() + n, what, rv.Type()})
		}
		for i := 0; i < rv.Len() && rv.Type().Elem().Kind() != reflect.Uint8; i++ {
			regionsOf(rv.Index(i), what, out)
		}
	case reflect.Array:
		for i := 0; i < rv.Len(); i++ {
			regionsOf(rv.Index(i), what, out)
		}
	case reflect.Map:
		if rv.IsNil() {
			return
		}
		*out = append(*out, region{rv.Pointer(), rv.Pointer() + 1, what, rv.Type()})
		it := rv.MapRange()
		for it.Next() {
			regionsOf(it.Value(), what, out)
		}
	case reflect.Pointer:
		if rv.IsNil() {
			return
		}
		if n := rv.Type().Elem().Size(); n > 0 {
			*out = append(*out, region{rv.Pointer(), rv.Pointer() + n, what, rv.Type()})
		}
		regionsOf(rv.Elem(), what, out)
	case reflect.Interface:
		if !rv.IsNil() {
			regionsOf(rv.Elem(), what, out)
		}
	case reflect.Struct:
		for i := 0; i < rv.NumField(); i++ {
			if rv.Type().Field(i).IsExported() {
				regionsOf(rv.Field(i), what, out)
			}
		}
	}
}

// overlap reports two regions that share memory.
func overlap(rs []region) (a, b region, found bool) {
	slices.SortFunc(rs, func(a, b region) int { return cmp.Compare(a.from, b.from) })
	for i := 1; i < len(rs); i++ {
		if rs[i].from < rs[i-1].to {
			return rs[i-1], rs[i], true
		}
	}
	return
}

func fillBytes(b []byte, c byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] = c
	}
}

// ---- C17: who owns what ----

// MarKeep returns memory it keeps, with spare capacity behind it.
type MarKeep struct{ buf *[]byte }

func (m MarKeep) MarshalPHP() ([]byte, error) { return *m.buf, nil }

func c17Marshal(t *T) {
	tg := &TypeGen{t: t, o: TypeOpts{Enc: true, MarW: t.Int(0, 4)}}
	rt := tg.Any(t.Int(0, 3))
	rv := newValGen(t, ValOpts{NilPct: 1, Types: tg, Sharing: true, MarErr: t.Chance(1, 8), Budget: 40}).Value(rt)
	arg := argOf(t, rv)
	descValue(t, rv)
	before := memoryOf(rv)
	want, werr := refEncode(arg)
	if memoryOf(rv) != before {
		panic("the model changed the value")
	}
	out := checkMarshal(t, arg)
	if memoryOf(rv) != before {
		t.Failf("Marshal changed the value it was given (or the memory behind one of its slices)")
	}
	if werr != nil {
		return
	}
	if len(out) > 6 {
		t.NonTrivial(mix(hashBytes(out), hashStr(rt.String())))
	}
	keep := bytes.Clone(out)
	// later calls, of any size and outcome
	for n := t.Int(1, 3); n > 0; n-- {
		switch t.N(4) {
		case 0:
			again, err := marshal(arg)
			mustNotPanic(t, "Marshal", err)
			if err != nil {
				t.Failf("second Marshal failed: %v", err)
			}
			if d := matchAll(want, again); d != "" {
				t.Failf("second Marshal = %s: %s", clip(again), d)
			}
			fillBytes(again, 'X')
		case 1:
			_, _ = marshal(newValGen(t, ValOpts{Budget: 20}).Value(pick(t, scalarTypes)).Interface())
		case 2:
			_, _ = marshal([]string{strings.Repeat("y", pick(t, lenEdges)+1), "z"})
		default:
			_, _ = marshal([]any{1, strings.Repeat("q", 100), make(chan int)})
		}
	}
	if !bytes.Equal(out, keep) {
		t.Failf("a later call changed the bytes Marshal had returned: %s", firstDiff(keep, out))
	}
	// the caller may do as it likes with the result
	fillBytes(out, 'Z')
	if memoryOf(rv) != before {
		t.Failf("writing to the bytes Marshal returned changed the value")
	}
	out2, err := marshal(arg)
	mustNotPanic(t, "Marshal", err)
	if err != nil {
		t.Failf("Marshal failed after its earlier result was overwritten: %v", err)
	}
	if d := matchAll(want, out2); d != "" {
		t.Failf("Marshal after its earlier result was overwritten = %s: %s", clip(out2), d)
	}
	keep = bytes.Clone(out2)
	scribble(rv, map[memKey]bool{})
	if !bytes.Equal(out2, keep) {
		t.Failf("writing to the value changed the bytes Marshal had returned")
	}
}

// c17Big: results of any size stay what they are while others are made and thrown away.
func c17Big(t *T) {
	type kept struct {
		out, want []byte
		v         any
	}
	var keep []kept
	size := func() int {
		n := 1 << t.Int(3, 19)
		return n + pick(t, []int{0, -1, 1, -7, -8, -9, -20, 5, n / 2, n / 3})
	}
	total := 0
	n := t.Int(2, 8)
	for range n {
		sz := max(0, size())
		var v any
		var want []byte
		switch t.N(5) {
		case 0:
			s := strings.Repeat(string(rune('a'+len(keep))), sz)
			v, want = s, fmt.Appendf(nil, "s:%d:\"%s\";", sz, s)
		case 1:
			b := bytes.Repeat([]byte{byte('A' + len(keep))}, sz)
			v, want = b, fmt.Appendf(nil, "s:%d:\"%s\";", sz, b)
		case 2:
			s := make([]int, sz/8)
			want = fmt.Appendf(nil, "a:%d:{", len(s))
			for i := range s {
				s[i] = len(keep)
				want = fmt.Appendf(want, "i:%d;i:%d;", i, len(keep))
			}
			v, want = s, append(want, '}')
		case 3:
			s := make([]any, sz/32)
			want = fmt.Appendf(nil, "a:%d:{", len(s))
			for i := range s {
				s[i] = "0123456789012345678" + string(rune('0'+len(keep)))
				want = fmt.Appendf(want, "i:%d;s:20:\"%s\";", i, s[i])
			}
			v, want = s, append(want, '}')
		default:
			raw := bytes.Repeat([]byte{byte('m' + len(keep))}, sz)
			v, want = MarKeep{&raw}, bytes.Clone(raw)
		}
		out, err := marshal(v)
		mustNotPanic(t, "Marshal", err)
		if err != nil {
			t.Failf("Marshal of a value of %d bytes failed: %v", len(want), err)
		}
		if !bytes.Equal(out, want) {
			t.Failf("Marshal of a value of %d bytes: %s", len(want), firstDiff(want, out))
		}
		keep = append(keep, kept{out, want, v})
		total += len(out)
		if t.Chance(1, 4) { // failing, with much written before
			_, _ = marshal([]any{strings.Repeat("f", sz), make(chan int)})
		}
		if t.Chance(1, 4) { // one of the results is used up
			k := t.N(len(keep))
			fillBytes(keep[k].out, '#')
			keep = slices.Delete(keep, k, k+1)
		}
		for i, k := range keep {
			if !bytes.Equal(k.out, k.want) {
				t.Failf("result %d of %d bytes was changed by later calls: %s", i, len(k.want), firstDiff(k.want, k.out))
			}
		}
	}
	t.Desc(func() string { return fmt.Sprintf("%d Marshal calls, %d bytes in all", n, total) })
	t.NonTrivial(mix(uint64(total), uint64(n)))
	for i, k := range keep {
		out, err := marshal(k.v)
		mustNotPanic(t, "Marshal", err)
		if err != nil || !bytes.Equal(out, k.want) {
			t.Failf("Marshal of value %d again: %v, %s", i, err, firstDiff(k.want, out))
		}
	}
}

// c17Raw: the slice a MarshalPHP returns stays its own.
func c17Raw(t *T) {
	n := pick(t, []int{0, 1, 2, 5, 20, 100, 1000, 1023, 1024, 1025, 5000})
	buf := make([]byte, n, n+pick(t, []int{0, 1, 8, 64, 4096}))
	full := buf[:cap(buf)]
	for i := range full {
		full[i] = byte('a' + i%26)
	}
	m := MarKeep{&buf}
	keep := bytes.Clone(full)
	raw := string(buf)
	var v any
	var want string
	switch k := t.N(9); k {
	case 0:
		v, want = m, raw
	case 1:
		v, want = &m, raw
	case 2:
		v, want = []MarKeep{m, m}, "a:2:{i:0;"+raw+"i:1;"+raw+"}"
	case 3:
		v, want = map[string]MarKeep{"k": m}, `a:1:{s:1:"k";`+raw+"}"
	case 4:
		v, want = []any{m, "s"}, "a:2:{i:0;"+raw+`i:1;s:1:"s";}`
	case 5:
		v, want = struct {
			A MarKeep
			B int
		}{m, 7}, `a:2:{s:1:"A";`+raw+`s:1:"B";i:7;}`
	case 6:
		v, want = struct {
			A *MarKeep `php:",omitempty"`
			B any
		}{&m, m}, `a:2:{s:1:"A";`+raw+`s:1:"B";`+raw+"}"
	case 7:
		v, want = [2]marshalerI{m, &m}, "a:2:{i:0;"+raw+"i:1;"+raw+"}"
	default:
		v, want = []byte(buf), fmt.Sprintf("s:%d:\"%s\";", len(raw), raw)
	}
	t.Desc(func() string { return fmt.Sprintf("%T whose MarshalPHP keeps its %d of %d bytes", v, n, cap(buf)) })
	t.NonTrivial(mix(uint64(n), uint64(cap(buf)), hashStr(fmt.Sprintf("%T", v))))
	for range 3 {
		out, err := marshal(v)
		mustNotPanic(t, "Marshal", err)
		if err != nil || string(out) != want {
			t.Failf("Marshal = %s, %v; want %s", clip(out), err, clip([]byte(want)))
		}
		if !bytes.Equal(full, keep) {
			t.Failf("Marshal wrote into the slice MarshalPHP returned: %s", firstDiff(keep, full))
		}
		fillBytes(out, '#')
		if !bytes.Equal(full, keep) {
			t.Failf("the result of Marshal shares memory with the slice MarshalPHP returned")
		}
	}
	for n := t.Int(1, 6); n > 0; n-- { // other calls
		if t.Bool() {
			_, _ = marshal(v)
		}
		_, _ = marshal(pick(t, []any{-12345, "abc", []string{strings.Repeat("y", 2*len(full)), "z"}, m, struct{ A, B any }{m, 1}, []any{m, make(chan int)}}))
		if !bytes.Equal(full, keep) {
			t.Failf("a later Marshal wrote into the slice MarshalPHP had returned: %s", firstDiff(keep, full))
		}
	}
	out, err := marshal(v)
	if err != nil {
		t.Failf("Marshal failed: %v", err)
	}
	fillBytes(full, '@')
	if string(out) != want {
		t.Failf("the result of Marshal shares memory with the slice MarshalPHP returned")
	}
}

func c17Unmarshal(t *T) {
	var rt reflect.Type
	if t.Chance(1, 4) {
		rt = pick(t, []reflect.Type{anyType, typeOf[[]any](), typeOf[map[string]any](), typeOf[[][]byte](), typeOf[map[string][]byte](), typeOf[[]string](), typeOf[[]*[]byte](),
			typeOf[[2][]byte](), typeOf[map[string][]string](), typeOf[map[MyStr]MyStr](), typeOf[[]MyBytes](), typeOf[[]UnmSlice]()})
	} else {
		rt, _ = decodeType(t, TypeOpts{Dec: true, Unm: true})
	}
	g := newDocGen(t)
	n := g.For(rt, t.Int(1, 4))
	doc := n.Bytes()
	descDoc(t, n, rt)
	model := func() (reflect.Value, error, string) {
		w := newOf(rt)
		m := &decModel{}
		err := m.decode(n, w)
		return w, err, m.unspec
	}
	want, werr, unspec := model()
	if unspec != "" {
		return
	}
	mem := append(make([]byte, 0, len(doc)+t.Int(0, 64)), doc...)
	fillBytes(mem[len(mem):], '%')
	data := mem
	keep := bytes.Clone(mem[:cap(mem)])
	intact := func(when string) {
		if !bytes.Equal(mem[:cap(mem)], keep) {
			t.Failf("%s changed the caller's data: %s", when, firstDiff(keep, mem[:cap(mem)]))
		}
	}
	decode := func() reflect.Value {
		x := newOf(rt)
		err := unmarshal(data, x.Addr().Interface())
		mustNotPanic(t, "Unmarshal", err)
		intact("Unmarshal")
		if (err == nil) != (werr == nil) {
			t.Failf("Unmarshal: %v, the model: %v", err, werr)
		}
		return x
	}
	is := func(x reflect.Value, when string) {
		if werr != nil {
			return
		}
		if d := diff(want, x); d != "" {
			t.Failf("%s: %s", when, d)
		}
	}
	x, y := decode(), decode()
	is(x, "decoded")
	others := []reflect.Value{}
	apart := func() {
		if werr != nil {
			return
		}
		var rs []region
		regionsOf(x.Addr(), "first result", &rs)
		regionsOf(y.Addr(), "second result", &rs)
		for _, o := range others {
			regionsOf(o.Addr(), "result of other data", &rs)
		}
		if cap(mem) > 0 {
			p := uintptr(unsafe.Pointer(unsafe.SliceData(mem)))
			rs = append(rs, region{p, p + uintptr(cap(mem)), "data", bytesType})
		}
		if len(rs) > 3 {
			t.Label("regions compared")
		}
		if a, b, found := overlap(rs); found {
			t.Failf("a %s of the %s and a %s of the %s share memory", a.typ, a.what, b.typ, b.what)
		}
	}
	apart()
	spare := 0
	scribbleSpare(x, &spare) // append to every slice of the result
	if spare > 0 {
		t.Label("spare capacity written")
	}
	is(x, "after append to the slices of the result")
	is(y, "after append to the slices of an earlier result")
	intact("append to a decoded slice")
	for k := t.Int(0, 2); k > 0; k-- { // other calls
		switch t.N(3) {
		case 0:
			a := newOf(anyType)
			_ = unmarshal(g.Any(2).Bytes(), a.Addr().Interface())
			others = append(others, a)
		case 1:
			a := newOf(rt)
			_ = unmarshal(damaged(t, doc), a.Addr().Interface())
			others = append(others, a)
		default:
			_, _ = marshal(x.Addr().Interface())
		}
	}
	is(x, "after other calls")
	if len(others) > 0 {
		apart()
	}
	fillBytes(mem, '!')
	is(x, "after the data was overwritten")
	is(y, "after the data was overwritten")
	copy(mem[:cap(mem)], keep)
	scribble(x, map[memKey]bool{})
	is(y, "after another result of the same data was overwritten")
	intact("writing to the result")
	z := decode()
	is(z, "decoded again after an earlier result was overwritten")
	if len(doc) > 12 && werr == nil {
		t.NonTrivial(mix(hashBytes(doc), hashStr(rt.String())))
	}
}

// UnmEvil keeps a copy, then writes all over the slice it was given and appends to it.
type UnmEvil struct{ Got string }

func (u *UnmEvil) UnmarshalPHP(b []byte) error {
	u.Got = string(b)
	b = append(b, `";i:999;s:3:"bad";}}}}}`...)
	for i := range b {
		b[i] = '7'
	}
	return nil
}

func c17Evil(t *T) {
	g := newDocGen(t)
	g.Null = 0
	raw := g.Any(t.Int(0, 2))
	if raw.K == 'N' {
		t.Discard()
	}
	raws := string(raw.Bytes())
	s1, s2 := drawString(t, false, nil), drawString(t, false, nil)
	type rec struct {
		A string
		E UnmEvil
		B []byte
		P *UnmEvil
		L []UnmEvil
		Z any
		M map[string]UnmEvil
		N int
	}
	ents := []Entry{{nStr("A"), nStr(s1)}, {nStr("E"), raw}, {nStr("B"), nStr(s2)}, {nStr("P"), raw}, {nStr("L"), nArr(raw, raw)}, {nStr("Z"), nArr(nStr(s1), nInt(5))},
		{nStr("M"), &Node{K: 'a', Ent: []Entry{{nStr("k"), raw}, {nStr("kk"), raw}}}}, {nStr("N"), nInt(-7)}}
	shuffle(t, ents)
	doc := (&Node{K: 'a', Ent: ents}).Bytes()
	mem := append(make([]byte, 0, len(doc)+40), doc...)
	keep := bytes.Clone(mem[:cap(mem)])
	t.Desc(func() string { return "UnmarshalPHP that overwrites its argument: " + clip(doc) })
	t.NonTrivial(hashBytes(doc))
	var x rec
	err := unmarshal(mem, &x)
	mustNotPanic(t, "Unmarshal", err)
	if err != nil {
		t.Failf("Unmarshal failed: %v", err)
	}
	if !bytes.Equal(mem[:cap(mem)], keep) {
		t.Failf("UnmarshalPHP could write to the caller's data: %s", firstDiff(keep, mem[:cap(mem)]))
	}
	want := rec{s1, UnmEvil{raws}, []byte(s2), &UnmEvil{raws}, []UnmEvil{{raws}, {raws}}, map[any]any{int64(0): s1, int64(1): int64(5)}, map[string]UnmEvil{"k": {raws}, "kk": {raws}}, -7}
	if d := diff(reflect.ValueOf(want), reflect.ValueOf(x)); d != "" {
		t.Failf("an UnmarshalPHP that appends to its argument changed other parts: %s", d)
	}
}

// ---- C18: history ----

// MarPanic panics in the middle of Marshal.
type MarPanic struct{}

func (MarPanic) MarshalPHP() ([]byte, error) { panic(userPanic{"MarshalPHP"}) }

type UnmPanic struct{}

func (*UnmPanic) UnmarshalPHP([]byte) error { panic(userPanic{"UnmarshalPHP"}) }

// swallow runs a call in which a custom method panics.
func swallow(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(userPanic); !ok {
				panic(r)
			}
		}
	}()
	f()
}

type heldOut struct{ out, keep []byte }
type heldVal struct{ got, want reflect.Value }

type history struct {
	t     *T
	types []reflect.Type
	vals  []reflect.Value
	outs  []heldOut
	decs  []heldVal
	log   []string
}

func (h *history) say(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	if len(s) > 160 {
		s = s[:160] + "…"
	}
	h.log = append(h.log, s)
}

func wrapTypes(t *T, base []reflect.Type) []reflect.Type {
	out := append([]reflect.Type(nil), base...)
	for _, b := range base {
		for n := t.Int(0, 2); n > 0; n-- {
			switch t.N(6) {
			case 0:
				out = append(out, reflect.PointerTo(b))
			case 1:
				out = append(out, reflect.SliceOf(b))
			case 2:
				out = append(out, reflect.MapOf(pick(t, keyTypes), b))
			case 3:
				out = append(out, structOf(field("X", b, ""), field("Y", reflect.PointerTo(b), `php:"y,omitempty"`)))
			case 4:
				out = append(out, reflect.ArrayOf(2, b))
			default:
				out = append(out, structOf(field("L", reflect.SliceOf(reflect.PointerTo(b)), `php:"l"`), field("I", anyType, "")))
			}
		}
	}
	return out
}

// freshTypes makes types this process has not seen.
func freshTypes(t *T, n int) ([]reflect.Type, *TypeGen) {
	tg := &TypeGen{t: t, o: TypeOpts{Unm: true, Decode: true, MarW: 1}}
	var base []reflect.Type
	for ; n > 0; n-- {
		tg.freshen()
		tg.n = 0
		base = append(base, tg.Struct(2))
	}
	return wrapTypes(t, base), tg
}

func (h *history) marshalOne() {
	t := h.t
	rv := pick(t, h.vals)
	h.say("Marshal(%s)", show(rv))
	if out := checkMarshal(t, argOf(t, rv)); out != nil {
		h.outs = append(h.outs, heldOut{out, bytes.Clone(out)})
	}
}

// failing makes a value that Marshal must reject, with pool values before and after the fault.
func (h *history) failing() (any, string) {
	t := h.t
	var bad any
	name := ""
	switch t.N(7) {
	case 0:
		bad, name = MarStr("ERR!"), "failing Marshaler"
	case 1:
		bad, name = make(chan int), "chan"
	case 2:
		bad, name = map[float64]int{1: 1}, "float keys"
	case 3:
		l := &RecList{V: 1}
		l.Next = &RecList{Next: l}
		bad, name = l, "cyclic pointer"
	case 4:
		m := map[string]any{"v": pick(t, h.vals).Interface()}
		m["self"] = []any{m}
		bad, name = m, "cyclic map"
	case 5:
		s := []any{pick(t, h.vals).Interface(), nil}
		s[1] = s
		bad, name = s, "cyclic slice"
	default:
		bad, name = struct {
			A int
			C complex128
		}{}, "complex field"
	}
	v := []any{pick(t, h.vals).Interface(), bad, pick(t, h.vals).Interface()}
	for n := pick(t, []int{0, 0, 1, 3, 1100}); n > 0; n-- {
		v = []any{v}
	}
	return v, name
}

// MarSwitch fails, panics or succeeds as it is told.
type MarSwitch struct{ mode *int }

func (m MarSwitch) MarshalPHP() ([]byte, error) {
	if m.mode != nil {
		switch *m.mode {
		case 1:
			return []byte("b:0;"), errCustom
		case 2:
			panic(userPanic{"MarSwitch"})
		}
	}
	return []byte("b:1;"), nil
}

// FailNode reaches a MarSwitch through every kind of link.
type FailNode struct {
	S []FailNode          `php:"s,omitempty"`
	M map[string]FailNode `php:"m,omitempty"`
	P *FailNode           `php:"p,omitempty"`
	A *[1]FailNode        `php:"a,omitempty"`
	Q []*FailNode         `php:"q,omitempty"`
	I any                 `php:"i,omitempty"`
	E MarSwitch           `php:"e,omitempty"`
	F []MarSwitch         `php:"f,omitempty"`
	G map[int]*MarSwitch  `php:"g,omitempty"`
}

// c18Heal: the same value is marshalled while a Marshaler deep inside it fails, and again when
// it does not; the failures leave nothing behind.
func c18Heal(t *T) {
	mode := 0
	leaf := MarSwitch{&mode}
	var nd FailNode
	switch t.N(4) {
	case 0:
		nd.E = leaf
	case 1:
		nd.F = []MarSwitch{{}, leaf}
	case 2:
		nd.G = map[int]*MarSwitch{1: &leaf}
	default:
		nd.I = []any{1, leaf}
	}
	depth := pick(t, []int{0, 1, 2, 3, 10, 400, 1100, 1500})
	var links []int
	for n := t.Int(1, 3); n > 0; n-- {
		links = append(links, t.N(10))
	}
	for i := range depth {
		in := nd
		nd = FailNode{}
		switch links[i%len(links)] {
		case 0:
			nd.S = []FailNode{in}
		case 1:
			nd.M = map[string]FailNode{"k": in}
		case 2:
			nd.P = &in
		case 3:
			nd.A = &[1]FailNode{in}
		case 4:
			nd.Q = []*FailNode{&in}
		case 5:
			nd.I = in
		case 6:
			nd.I = &in
		case 7:
			nd.I = []any{in}
		case 8:
			nd.I = map[string]any{"k": &in}
		default:
			nd.I = []FailNode{in}
		}
	}
	var top any = nd
	switch t.N(4) {
	case 0:
		top = &nd
	case 1:
		top = []FailNode{nd}
	case 2:
		top = map[string]*FailNode{"x": &nd}
	}
	fails := pick(t, []int{1, 2, 5})
	if depth <= 3 && t.Chance(1, 3) {
		fails = 1300
	}
	kind := t.W(3, 1) + 1
	t.Desc(func() string {
		return fmt.Sprintf("%T, %d levels of links %v: Marshal fails %d times (mode %d), then succeeds", top, depth, links, fails, kind)
	})
	t.NonTrivial(mix(uint64(depth), uint64(fails), uint64(kind), hashStr(fmt.Sprint(links)), hashStr(fmt.Sprintf("%T", top))))
	want, werr := refEncode(top)
	if werr != nil {
		panic(werr)
	}
	exp := want.Bytes()
	for range t.Int(1, 2) {
		mode = kind
		for range fails {
			swallow(func() {
				out, err := marshal(top)
				mustNotPanic(t, "Marshal", err)
				if !errors.Is(err, errCustom) || out != nil {
					t.Failf("Marshal with a failing Marshaler = %s, %v", clip(out), err)
				}
			})
		}
		mode = 0
		for range 2 {
			out, err := marshal(top)
			mustNotPanic(t, "Marshal", err)
			if err != nil {
				t.Failf("after %d failures Marshal of the same value fails: %v", fails, err)
			}
			if !bytes.Equal(out, exp) {
				t.Failf("after %d failures Marshal of the same value: %s", fails, firstDiff(exp, out))
			}
		}
	}
}

func c18(t *T) {
	h := &history{t: t}
	var tg *TypeGen
	h.types, tg = freshTypes(t, t.Int(1, 3))
	h.types = append(h.types, pick(t, recursiveTypes), anyType, pick(t, scalarTypes), pick(t, sameTypes), pick(t, sameTypes))
	for range 5 {
		rt := pick(t, h.types)
		rv := newValGen(t, ValOpts{NilPct: 1, Types: tg, Sharing: true, Budget: 25}).Value(rt)
		if rv.Kind() == reflect.Interface && rv.IsNil() {
			rv = reflect.ValueOf("s")
			rv = reflect.New(rv.Type()).Elem()
		}
		h.vals = append(h.vals, rv)
	}
	t.Desc(func() string { return strings.Join(h.log, "; ") })
	steps := t.Int(4, 30)
	kinds := map[int]bool{}
	for range steps {
		op := t.W(6, 8, 3, 3, 2, 2, 2, 1, 1, 1, 1, 1)
		kinds[op] = true
		switch op {
		case 0:
			h.marshalOne()
		case 1: // decode
			rt := pick(t, h.types)
			g := newDocGen(t)
			switch t.N(4) {
			case 0:
				g.Mis, g.OOR = 60, 60
			}
			n := g.For(rt, 3)
			x := newOf(rt)
			h.say("Unmarshal(%s, *%s)", n, typeName(rt))
			if checkUnmarshal(t, n, x) {
				w := newOf(rt)
				if (&decModel{}).decode(n, w) == nil {
					h.decs = append(h.decs, heldVal{x, w})
				}
			}
		case 2: // a failing Marshal
			v, name := h.failing()
			h.say("Marshal with %s", name)
			for n := t.Int(1, 2); n > 0; n-- {
				out, err := marshal(v)
				mustNotPanic(t, "Marshal with "+name, err)
				if err == nil {
					t.Failf("Marshal with %s succeeded: %s", name, clip(out))
				}
				if out != nil {
					t.Failf("failing Marshal returned %s", clip(out))
				}
			}
			h.marshalOne()
		case 3: // damaged data
			rt := pick(t, h.types)
			b := tame(damaged(t, newDocGen(t).For(rt, 3).Bytes()))
			h.say("Unmarshal(damaged %s, *%s)", clip(b), typeName(rt))
			checkRobust(t, rt, b)
		case 4: // a MarshalPHP panics
			h.say("Marshal with a panicking Marshaler")
			v := []any{pick(t, h.vals).Interface(), map[string]any{"p": MarPanic{}}}
			for n := pick(t, []int{0, 0, 2, 1100}); n > 0; n-- {
				v = []any{v}
			}
			swallow(func() { _, _ = marshal(v) })
			h.marshalOne()
		case 5: // an UnmarshalPHP panics
			h.say("Unmarshal with a panicking Unmarshaler")
			rt := pick(t, h.types)
			st := structOf(field("A", rt, ""), field("P", typeOf[[]UnmPanic](), ""), field("B", rt, ""))
			g := newDocGen(t)
			n := &Node{K: 'a', Ent: []Entry{{nStr("A"), g.For(rt, 2)}, {nStr("P"), nArr(nInt(1))}, {nStr("B"), nNull()}}}
			swallow(func() { _ = unmarshal(n.Bytes(), newOf(st).Addr().Interface()) })
		case 6: // a deep value: references are tracked from some depth on
			rv := pick(t, h.vals)
			v := []any{rv.Interface(), rv.Interface()}
			d := pick(t, []int{990, 1000, 1005, 1100})
			for n := d; n > 0; n-- {
				v = []any{v}
			}
			h.say("Marshal of a pool value below %d lists", d)
			checkMarshal(t, v)
		case 7: // too deep data
			if t.Chance(2, 3) {
				h.marshalOne()
				break
			}
			h.say("Unmarshal of 10002 levels")
			var a any
			b := []byte(strings.Repeat("a:1:{i:0;", 10002) + "i:1;" + strings.Repeat("}", 10002))
			err := unmarshal(b, &a)
			mustNotPanic(t, "Unmarshal", err)
			if err == nil {
				t.Failf("10002 levels were accepted")
			}
		case 8:
			h.say("GC")
			runtime.GC()
			if t.Bool() {
				runtime.GC()
			}
		case 9: // a big output
			n := pick(t, []int{1000, 1024, 5000, 70000})
			h.say("Marshal of %d bytes", n)
			out := checkMarshal(t, []any{strings.Repeat("b", n), pick(t, h.vals).Interface()})
			if out != nil {
				h.outs = append(h.outs, heldOut{out, bytes.Clone(out)})
			}
		case 10: // unsupported types
			h.say("unsupported types")
			rt := pick(t, h.types)
			st := structOf(field("A", rt, ""), field("C", typeOf[chan int](), ""))
			_, err := marshal(newOf(st).Interface())
			mustNotPanic(t, "Marshal", err)
			if err == nil {
				t.Failf("Marshal of a struct with a chan succeeded")
			}
			g := newDocGen(t)
			err = unmarshal((&Node{K: 'a', Ent: []Entry{{nStr("A"), g.For(rt, 2)}, {nStr("C"), nInt(1)}}}).Bytes(), newOf(st).Addr().Interface())
			mustNotPanic(t, "Unmarshal", err)
			if err == nil {
				t.Failf("Unmarshal into a chan succeeded")
			}
			et := structOf(reflect.StructField{Name: "RecList", Type: typeOf[RecList](), Anonymous: true}, field("A", rt, ""))
			err = unmarshal([]byte("a:0:{}"), newOf(et).Addr().Interface())
			mustNotPanic(t, "Unmarshal", err)
			if err == nil {
				t.Failf("Unmarshal into a struct with an embedded struct succeeded")
			}
		default: // modify what was decoded, the pool of values changes
			if len(h.decs) > 0 {
				h.say("overwrite a decoded value")
				i := t.N(len(h.decs))
				scribble(h.decs[i].got, map[memKey]bool{})
				h.decs = append(h.decs[:i], h.decs[i+1:]...)
			}
			if len(h.outs) > 0 {
				i := t.N(len(h.outs))
				fillBytes(h.outs[i].out, '*')
				h.outs = append(h.outs[:i], h.outs[i+1:]...)
			}
		}
	}
	for _, rv := range h.vals { // everything still works
		checkMarshal(t, argOf(t, rv))
	}
	for _, o := range h.outs {
		if !bytes.Equal(o.out, o.keep) {
			t.Failf("a later call changed the bytes an earlier Marshal had returned: %s", firstDiff(o.keep, o.out))
		}
	}
	for _, d := range h.decs {
		if s := diff(d.want, d.got); s != "" {
			t.Failf("a later call changed a value decoded earlier: %s", s)
		}
	}
	for k := range kinds {
		t.Label(fmt.Sprintf("op %d", k))
	}
	if len(kinds) >= 4 {
		t.NonTrivial(hashStr(strings.Join(h.log, ";")))
	}
}

// c18Crowd: any number of other types comes between two uses of a type.
func c18Crowd(t *T) {
	n := []int{10, 20, 40, 70, 130, 260, 300, 520, 1030, 2100}[t.W(3, 3, 3, 3, 3, 3, 3, 2, 1, 1)]
	n += t.Int(0, n/4)
	base := t.U64(^uint64(0))
	types, tg := freshTypes(t, 2)
	types = append(types, pick(t, recursiveTypes), pick(t, genericTypes))
	for range 6 {
		types = append(types, pick(t, sameTypes))
	}
	shuffle(t, types)
	type probe struct {
		rt  reflect.Type
		v   reflect.Value
		doc *Node
	}
	var probes []probe
	for _, rt := range types {
		probes = append(probes, probe{rt, newValGen(t, ValOpts{NilPct: 1, Types: tg, Budget: 12}).Value(rt), newDocGen(t).For(rt, 2)})
	}
	dirs := t.Int(1, 3)
	t.Desc(func() string {
		var names []string
		for _, p := range probes {
			names = append(names, typeName(p.rt))
		}
		return fmt.Sprintf("%d other types between uses of %s", n, strings.Join(names, ", "))
	})
	t.NonTrivial(mix(base, uint64(n)))
	use := func(ps []probe) {
		for _, p := range ps {
			if dirs&1 != 0 || t.Chance(1, 4) {
				checkMarshal(t, argOf(t, p.v))
			}
			if dirs&2 != 0 || t.Chance(1, 4) {
				checkUnmarshal(t, p.doc, newOf(p.rt))
			}
		}
	}
	use(probes[:t.Int(0, len(probes))])
	kind := t.N(6)
	for i := range n {
		rt := structOf(field(fmt.Sprintf("F%x_%d", base, i), typeOf[int](), `php:"a"`))
		pre, post := "", ""
		k := kind
		if k == 5 {
			k = i % 5
		}
		switch k {
		case 1:
			rt, pre, post = reflect.SliceOf(rt), "a:1:{i:0;", "}"
		case 2:
			rt, pre, post = reflect.MapOf(typeOf[int](), rt), "a:1:{i:0;", "}"
		case 3:
			rt, pre, post = reflect.ArrayOf(1, rt), "a:1:{i:0;", "}"
		case 4:
			rt = reflect.PointerTo(rt)
		}
		doc := pre + fmt.Sprintf(`a:1:{s:1:"a";i:%d;}`, i) + post
		v := newOf(rt)
		if err := unmarshal([]byte(doc), v.Addr().Interface()); err != nil {
			t.Failf("Unmarshal of %s into *%s, new type %d: %v", doc, typeName(rt), i, err)
		}
		out, err := marshal(v.Interface())
		if err != nil || string(out) != doc {
			t.Failf("Marshal of %s, new type %d: %s, %v; want %s", show(v), i, clip(out), err, doc)
		}
		if i&(i+1) == 0 { // after powers of two
			use(probes[t.N(len(probes)):])
		}
	}
	use(probes)
	slices.Reverse(probes)
	use(probes)
}

// ---- C19: concurrency ----

// Yield lets other goroutines run while a call is under way, so that the parts of calls interleave.
type Yield struct{ N int }

func (y *Yield) yield() {
	for range 3 {
		runtime.Gosched()
	}
	if rand.Uint64()%4 == 0 { // synchronizes nothing
		time.Sleep(20 * time.Microsecond)
	}
}

func (y *Yield) MarshalPHP() ([]byte, error) { y.yield(); return []byte("i:1;"), nil }
func (y *Yield) UnmarshalPHP(b []byte) error { y.yield(); y.N = len(b); return nil }

type concOp struct {
	name string
	run  func() string // what went wrong
}

// concMarshal is a call with a value that all goroutines share.
func concMarshal(rt reflect.Type, arg any) concOp {
	want, werr := refEncode(arg)
	return concOp{"Marshal(" + typeName(rt) + ")", func() string {
		out, err := marshal(arg)
		if p, ok := err.(*libPanic); ok {
			return fmt.Sprintf("panicked: %v [%s]", p.val, p.stack)
		}
		if (err != nil) != (werr != nil) {
			return fmt.Sprintf("Marshal: %v, the model: %v", err, werr)
		}
		if err != nil {
			return ""
		}
		if d := matchAll(want, out); d != "" {
			return "Marshal = " + clip(out) + ": " + d
		}
		fillBytes(out, '*')
		return ""
	}}
}

// concUnmarshal is a call with data that all goroutines share.
func concUnmarshal(rt reflect.Type, nd *Node) (concOp, bool) {
	doc := nd.Bytes()
	want := newOf(rt)
	m := &decModel{}
	werr := m.decode(nd, want)
	if m.unspec != "" {
		return concOp{}, false
	}
	return concOp{"Unmarshal(" + nd.String() + ", *" + typeName(rt) + ")", func() string {
		x := newOf(rt)
		err := unmarshal(doc, x.Addr().Interface())
		if p, ok := err.(*libPanic); ok {
			return fmt.Sprintf("panicked: %v [%s]", p.val, p.stack)
		}
		if (err != nil) != (werr != nil) {
			return fmt.Sprintf("Unmarshal: %v, the model: %v", err, werr)
		}
		if err != nil {
			return ""
		}
		if d := diff(want, x); d != "" {
			return d
		}
		scribble(x, map[memKey]bool{})
		return ""
	}}, true
}

func c19(t *T) {
	types, tg := freshTypes(t, t.Int(1, 4))
	types = append(types, pick(t, recursiveTypes), pick(t, genericTypes), anyType)
	var ops []concOp
	for n := t.Int(4, 14); n > 0; n-- {
		rt := pick(t, types)
		switch t.W(5, 5, 2, 1, 1) {
		case 0: // Marshal of a value all goroutines share
			rv := newValGen(t, ValOpts{NilPct: 1, Types: tg, Sharing: true, Budget: 25}).Value(rt)
			arg := argOf(t, rv)
			if t.Bool() { // let others run in the middle of the call
				arg = []any{&Yield{}, arg, &Yield{}, arg, &Yield{}}
			}
			ops = append(ops, concMarshal(rt, arg))
		case 1: // Unmarshal of shared data
			g := newDocGen(t)
			if t.Chance(1, 4) {
				g.Mis = 60
			}
			nd := g.For(rt, 3)
			if t.Bool() { // let others run in the middle of the call
				nd = &Node{K: 'a', Ent: []Entry{{nStr("A"), nInt(1)}, {nStr("B"), nd}, {nStr("C"), nInt(2)}, {nStr("D"), nd}, {nStr("E"), nInt(3)}}}
				y := typeOf[*Yield]()
				rt = reflect.StructOf([]reflect.StructField{{Name: "A", Type: y}, {Name: "B", Type: rt}, {Name: "C", Type: y}, {Name: "D", Type: rt}, {Name: "E", Type: y}})
			}
			if o, ok := concUnmarshal(rt, nd); ok {
				ops = append(ops, o)
			}
		case 2: // failing and panicking calls
			rv := newValGen(t, ValOpts{NilPct: 1, Types: tg, Budget: 15}).Value(rt)
			bad := pick(t, []any{MarStr("ERR!"), make(chan int), MarPanic{}, map[float64]int{1: 1}})
			v := []any{rv.Interface(), bad}
			ops = append(ops, concOp{fmt.Sprintf("Marshal with a failing %T", bad), func() (s string) {
				swallow(func() {
					out, err := marshal(v)
					if err == nil || isPanic(err) || out != nil {
						s = fmt.Sprintf("Marshal = %s, %v", clip(out), err)
					}
				})
				return
			}})
		case 3: // deep, with references shared between the goroutines
			rv := newValGen(t, ValOpts{NilPct: 1, Types: tg, Budget: 10}).Value(rt)
			var v any = []any{rv.Interface(), rv.Interface()}
			for n := pick(t, []int{3, 1001}); n > 0; n-- {
				v = &[]any{v}
			}
			want, werr := refEncode(v)
			ops = append(ops, concOp{"Marshal of a deep value", func() string {
				out, err := marshal(v)
				if (err != nil) != (werr != nil) || isPanic(err) {
					return fmt.Sprintf("Marshal: %v, the model: %v", err, werr)
				}
				if err != nil {
					return ""
				}
				return matchAll(want, out)
			}})
		default: // cyclic
			l := &RecList{V: 1}
			l.Next = &RecList{Next: l}
			ops = append(ops, concOp{"Marshal of a cyclic value", func() string {
				out, err := marshal([]any{l, l})
				if err == nil || isPanic(err) {
					return fmt.Sprintf("Marshal = %s, %v", clip(out), err)
				}
				return ""
			}})
		}
	}
	if len(ops) == 0 {
		t.Discard()
	}
	runConc(t, ops, t.Int(1, 2))
}

// c19Sink: fields of every kind, with other goroutines running between them.
func c19Sink(t *T) {
	kinds := slices.Concat(scalarTypes, scalarTypes, namedScalars, []reflect.Type{bytesType, anyType, anyType, typeOf[[]any](), typeOf[map[string]any](), typeOf[map[int]string](), typeOf[[2]string](),
		typeOf[[]float64](), typeOf[map[uint8]bool](), typeOf[MarStr](), typeOf[UnmStr](), typeOf[*RecList](), typeOf[struct {
			A float32 `php:"a,string,omitempty"`
			B *uint16 `php:",string"`
		}]()})
	y := typeOf[*Yield]()
	var fs []reflect.StructField
	for i := range t.Int(4, 16) {
		rt := pick(t, kinds)
		if rt.Kind() != reflect.Pointer && t.Chance(1, 3) {
			rt = reflect.PointerTo(rt)
		}
		tag := ""
		if (canStringTag(rt, true) || rt == anyType) && t.Bool() {
			tag = `php:",string"`
		}
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("Y%d", i), Type: y}, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: rt, Tag: reflect.StructTag(tag)})
	}
	rt := reflect.StructOf(fs)
	var ops []concOp
	for range t.Int(1, 3) {
		if t.Bool() {
			rv := newValGen(t, ValOpts{NilPct: 1, NoRaw: true, Budget: 60}).Value(rt)
			for i := 0; i < rv.NumField(); i += 2 {
				rv.Field(i).Set(reflect.ValueOf(&Yield{}))
			}
			ops = append(ops, concMarshal(rt, rv.Interface()))
		} else {
			g := newDocGen(t)
			if o, ok := concUnmarshal(rt, g.For(rt, 3)); ok {
				ops = append(ops, o)
			}
		}
	}
	if len(ops) == 0 {
		t.Discard()
	}
	runConc(t, ops, 1)
}

func runConc(t *T, ops []concOp, rounds int) {
	workers := t.Int(2, 8)
	order := make([][]int, workers)
	same := t.Bool() // all start with the same calls: first uses of the types collide
	for w := range order {
		p := make([]int, len(ops))
		for i := range p {
			p[i] = i
		}
		if !same || w > workers/2 {
			shuffle(t, p)
		}
		order[w] = p
	}
	t.Desc(func() string {
		var names []string
		for _, o := range ops {
			names = append(names, o.name)
		}
		return fmt.Sprintf("%d goroutines: %s", workers, strings.Join(names, "; "))
	})
	start := make(chan struct{})
	errs := make([]string, workers)
	var wg sync.WaitGroup
	for w := range order {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs[w] = fmt.Sprintf("panic: %v", r)
				}
			}()
			<-start
			for range rounds {
				for _, i := range order[w] {
					if s := ops[i].run(); s != "" {
						errs[w] = ops[i].name + ": " + s
						return
					}
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	for _, e := range errs {
		if e != "" {
			t.Failf("among %d goroutines: %s", workers, e)
		}
	}
	t.NonTrivial(uint64(len(t.rec))<<32 ^ t.rec[len(t.rec)-1] ^ mix(t.rec[min(len(t.rec)-1, 3):min(len(t.rec), 40)]...))
	t.Label(fmt.Sprintf("%d goroutines", workers))
}

var _ phpserialize.Marshaler = MarKeep{}

func init() {
	register(&Property{ID: "C17",
		Rule: "Marshal and Unmarshal of random values, then every byte that the caller owns afterwards (results to their full capacity, decoded values, spare capacity of decoded slices, the data, the slice of a MarshalPHP, the argument of an UnmarshalPHP) is overwritten and everything else must be as before; a hash of all memory reachable from the argument of Marshal must not change; results of up to 800 KB are kept while others are made; non-trivial: more than a small scalar",
		Arms: []Arm{{"marshal", c17Marshal, 100000, 1000000}, {"unmarshal", c17Unmarshal, 200000, 2000000}, {"raw", c17Raw, 8000, 20000}, {"big", c17Big, 1600, 20000}, {"evil", c17Evil, 30000, 300000}}})
	register(&Property{ID: "C18",
		Rule: "random histories of 4 to 30 calls over types new to the process and a pool of values: successful, failing, panicking, cyclic, very deep and damaged ones, GC, overwritten results; each call against the reference models, earlier results rechecked at the end; and values reached through random chains of links of which a Marshaler fails or panics up to 1300 times before it succeeds; and types (several of one name among them) used again after 10 to 2600 others new to the process; non-trivial: at least four kinds of step",
		Arms: []Arm{{"history", c18, 3200, 80000}, {"heal", c18Heal, 3200, 60000}, {"crowd", c18Crowd, 100, 400}}})
	register(&Property{ID: "C19", Race: true,
		Rule: "2 to 8 goroutines run 4 to 14 shared calls (of types new to the process, shared values and data, failing and panicking ones) in the same or different orders, under the race detector, each result against the reference models; and structs with fields of every kind, each between fields whose methods let other goroutines run; every case is non-trivial",
		Arms: []Arm{{"calls", c19, 1000, 12000}, {"fields", c19Sink, 1000, 12000}}})
}
