package main

import (
	"bytes"
	"fmt"
	"reflect"
	"strconv"
	"strings"
)

// Containers of any size, in many orders: where a count, an index or a buffer passes some limit.

// drawSize draws a number of entries up to the limit.
func drawSize(t *T, limit int) int {
	if v, ok := t.dictWithin(0, limit); ok {
		return v
	}
	switch t.W(6, 5, 4, 1) {
	case 0:
		return min(limit, t.Int(0, 40))
	case 1:
		return min(limit, t.Int(0, 600))
	case 2:
		return max(0, min(limit, 1<<t.Int(0, 13)+t.Int(-2, 2)))
	default:
		return min(limit, pick(t, []int{99, 100, 101, 999, 1000, 1001, 9999, 10000, 10001, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537}))
	}
}

// numbers of entries around and past what sixteen bits can count
var moreThan16Bits = []int{65535, 65536, 65537, 70000, 131073}

// order permutes indices in one of many ways.
func order(t *T, n int) []int {
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	if n < 2 {
		return idx
	}
	switch t.N(8) {
	case 2: // reversed
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			idx[i], idx[j] = idx[j], idx[i]
		}
	case 3: // rotated
		i := t.N(n)
		idx = append(idx[i:], idx[:i]...)
	case 4: // two swapped
		i, j := t.N(n), t.N(n)
		idx[i], idx[j] = idx[j], idx[i]
	case 5: // shuffled
		seed := t.U64(1 << 30)
		for i := n - 1; i > 0; i-- {
			seed = mix(seed)
			j := int(seed % uint64(i+1))
			idx[i], idx[j] = idx[j], idx[i]
		}
	case 6: // even ones, then odd ones
		k := 0
		for p := range 2 {
			for i := p; i < n; i += 2 {
				idx[k] = i
				k++
			}
		}
	case 7: // the last one first
		idx = append(idx[n-1:], idx[:n-1]...)
	}
	return idx
}

var sizedElems = []reflect.Type{typeOf[int](), typeOf[string](), anyType, typeOf[int8](), typeOf[uint8](), typeOf[uint16](), typeOf[bool](), typeOf[float64](), typeOf[*int](), typeOf[*string](), typeOf[MyStruct2](), typeOf[*MyStruct2](),
	typeOf[[]int](), typeOf[[]string](), typeOf[[2]int8](), typeOf[map[string]int](), typeOf[map[int]any](), typeOf[[]any](), bytesType, typeOf[UnmRec](), typeOf[UnmStr](), typeOf[struct{}](), typeOf[[0]int](), typeOf[RecList](), typeOf[[]*int](),
	typeOf[struct {
		A string
		B int16 `php:"b,string"`
	}](), typeOf[[40]byte](), typeOf[float32](), typeOf[uint64](), typeOf[MyStr]()}

// sized draws a container type and a document of n entries for it.
type sized struct {
	rt   reflect.Type
	elem reflect.Type
	n    int
	doc  *Node
	kind string
}

func drawSized(t *T, limit int, noUnm bool) *sized {
	s := &sized{elem: pick(t, sizedElems)}
	for noUnm && reflect.PointerTo(s.elem).Implements(unmarshalerIface) {
		s.elem = pick(t, sizedElems[:20])
	}
	s.n = drawSize(t, limit)
	g := smallDocGen(t)
	g.Honest = true
	var tmpl []*Node
	left := 6
	if t.Chance(1, 100) {
		s.n, left = pick(t, moreThan16Bits), 1
	}
	for range t.Int(1, 4) {
		g.left = left
		tmpl = append(tmpl, g.For(s.elem, 1))
	}
	vary := s.elem.Kind() == reflect.Int || s.elem.Kind() == reflect.Interface || s.elem.Kind() == reflect.Uint64
	val := func(i int) *Node {
		if vary && i%3 > 0 {
			return nInt(int64(i))
		}
		return tmpl[i%len(tmpl)]
	}
	s.doc = &Node{K: 'a'}
	ord := order(t, s.n)
	switch t.W(4, 2, 3, 3, 2, 2) {
	case 0:
		s.kind, s.rt = "slice", reflect.SliceOf(s.elem)
		for _, i := range ord {
			s.doc.Ent = append(s.doc.Ent, Entry{nInt(int64(i)), val(i)})
		}
	case 1:
		s.kind = "array"
		size := max(0, s.n+pick(t, []int{0, 0, 0, 1, -1, 7, -7}))
		if b := int(s.elem.Size()); b*size > 1<<20 {
			size = 1 << 20 / b
		}
		s.rt = reflect.ArrayOf(size, s.elem)
		for _, i := range ord {
			s.doc.Ent = append(s.doc.Ent, Entry{nInt(int64(i)), val(i)})
		}
	case 2:
		s.kind = "string map"
		key := typeOf[string]()
		if t.Chance(1, 4) {
			key = pick(t, []reflect.Type{typeOf[MyStr](), anyType})
		}
		s.rt = reflect.MapOf(key, s.elem)
		pre := pick(t, []string{"", "k", "a longer key ", "\x00"})
		for _, i := range ord {
			s.doc.Ent = append(s.doc.Ent, Entry{nStr(pre + strconv.Itoa(i)), val(i)})
		}
	case 3:
		s.kind = "int map"
		s.rt = reflect.MapOf(pick(t, []reflect.Type{typeOf[int](), typeOf[int64](), typeOf[uint32](), typeOf[MyInt](), anyType}), s.elem)
		step := int64(pick(t, []int{1, 1, 7, 256, 65521}))
		for _, i := range ord {
			s.doc.Ent = append(s.doc.Ent, Entry{nInt(int64(i) * step), val(i)})
		}
	case 4:
		s.kind = "struct"
		s.n = min(s.n, t.Int(1, 300))
		ord = order(t, s.n)
		var fs []reflect.StructField
		var keys []string
		style := t.N(4)
		total := 0
		for i := 0; i < s.n && total < 1<<20; i++ {
			f := field("F"+strconv.Itoa(i), s.elem, "")
			key := f.Name
			switch style {
			case 1:
				key = "a long name that all the keys have in common up to " + strconv.Itoa(i)
				f.Tag = reflect.StructTag(`php:"` + key + `"`)
			case 2:
				key = strconv.Itoa(i)
				f.Tag = reflect.StructTag(`php:"` + key + `"`)
			case 3:
				key = strings.Repeat("k", i+1)
				f.Tag = reflect.StructTag(`php:"` + key + `"`)
			}
			total += int(s.elem.Size())
			keys = append(keys, key)
			fs = append(fs, f)
		}
		s.rt = reflect.StructOf(fs)
		for _, i := range ord {
			if i < len(keys) {
				s.doc.Ent = append(s.doc.Ent, Entry{nStr(keys[i]), val(i)})
			}
		}
	default:
		s.kind, s.rt = "any", pick(t, []reflect.Type{anyType, typeOf[[]any](), typeOf[*any](), typeOf[map[any]any](), typeOf[map[int]any]()})
		s.elem = anyType
		for _, i := range ord {
			s.doc.Ent = append(s.doc.Ent, Entry{nInt(int64(i)), val(i)})
		}
	}
	if t.Chance(1, 4) && (s.kind == "struct" || strings.HasSuffix(s.kind, "map")) {
		g.obj(s.doc)
	}
	t.Desc(func() string { return s.String() })
	return s
}

func (s *sized) String() string {
	d := s.doc.String()
	if len(d) > 400 {
		d = d[:300] + "…" + d[len(d)-80:]
	}
	return fmt.Sprintf("%s of %d entries, *%s: %s", s.kind, s.n, clip([]byte(typeName(s.rt))), d)
}

func (s *sized) nonTrivial(t *T) {
	if s.n > 1 {
		t.NonTrivial(mix(uint64(s.n), hashStr(s.rt.String()), hashBytes(s.doc.Bytes())))
		t.Label(s.kind)
		if s.n > 1000 {
			t.Label("over 1000 entries")
		}
	}
}

func c05Sizes(t *T) {
	s := drawSized(t, 70000, false)
	if checkUnmarshal(t, s.doc, newOf(s.rt)) {
		s.nonTrivial(t)
	}
}

// c04Sizes: large dynamic lists, arrays and objects, with large ones in them.
func c04Sizes(t *T) {
	g := smallDocGen(t)
	var tmpl []*Node
	for range t.Int(1, 4) {
		g.left = 8
		tmpl = append(tmpl, g.Any(2))
	}
	big := func(n int, vals []*Node) *Node {
		d := &Node{K: 'a'}
		if t.Chance(1, 4) {
			g.obj(d)
		}
		how := t.N(3)
		if d.K == 'O' {
			how = 1
		}
		for _, i := range order(t, n) {
			k := nInt(int64(i))
			if how == 1 || how == 2 && i%5 == 0 {
				k = nStr("k" + strconv.Itoa(i))
			}
			d.Ent = append(d.Ent, Entry{k, vals[i%len(vals)]})
		}
		return d
	}
	n := drawSize(t, 70000)
	doc := big(n, tmpl)
	if n < 600 && t.Bool() {
		doc = big(t.Int(1, 6), append(tmpl, doc, big(t.Int(0, 40), tmpl)))
	}
	rt := anyType
	if t.Chance(1, 3) {
		rt = pick(t, anyDests[:10])
	}
	t.Desc(func() string { return fmt.Sprintf("a document with %d entries into *%s", n, typeName(rt)) })
	checkUnmarshal(t, doc, newOf(rt))
	if n > 1 {
		t.NonTrivial(mix(uint64(n), hashStr(rt.String()), hashBytes(doc.Bytes())))
	}
}

// c06Sizes: large values there and back.
func c06Sizes(t *T) {
	s := drawSized(t, 20000, true)
	rv := newOf(s.rt)
	if err := (&decModel{}).decode(s.doc, rv); err != nil {
		t.Discard()
	}
	if s.kind == "any" && s.rt != typeOf[[]any]() || s.elem.Kind() == reflect.Interface || hasAny(s.rt) {
		t.Discard() // dynamic types are not kept
	}
	want := deepCopy(rv)
	rtNormal(want)
	out := checkMarshal(t, rv.Interface())
	got := newOf(s.rt)
	err := unmarshal(out, got.Addr().Interface())
	mustNotPanic(t, "Unmarshal", err)
	if err != nil {
		t.Failf("Unmarshal of a marshalled value failed: %v", err)
	}
	if d := diff(want, got); d != "" {
		t.Failf("round trip: %s", d)
	}
	s.nonTrivial(t)
}

// hasAny looks for interfaces in a type.
func hasAny(rt reflect.Type) bool { return hasAnySeen(rt, map[reflect.Type]bool{}) }

func hasAnySeen(rt reflect.Type, seen map[reflect.Type]bool) bool {
	if seen[rt] {
		return false
	}
	seen[rt] = true
	switch rt.Kind() {
	case reflect.Interface:
		return true
	case reflect.Pointer, reflect.Slice, reflect.Array:
		return hasAnySeen(rt.Elem(), seen)
	case reflect.Map:
		return hasAnySeen(rt.Key(), seen) || hasAnySeen(rt.Elem(), seen)
	case reflect.Struct:
		for i := 0; i < rt.NumField(); i++ {
			if hasAnySeen(rt.Field(i).Type, seen) {
				return true
			}
		}
	}
	return false
}

// hasAnyMap looks for maps with keys of interface type in a value.
func hasAnyMap(rv reflect.Value) bool {
	switch rv.Kind() {
	case reflect.Interface, reflect.Pointer:
		return !rv.IsNil() && hasAnyMap(rv.Elem())
	case reflect.Slice, reflect.Array:
		if !hasAny(rv.Type()) {
			return false
		}
		for i := 0; i < rv.Len(); i++ {
			if hasAnyMap(rv.Index(i)) {
				return true
			}
		}
	case reflect.Map:
		if rv.Type().Key().Kind() == reflect.Interface {
			return true
		}
		if !hasAny(rv.Type()) {
			return false
		}
		for it := rv.MapRange(); it.Next(); {
			if hasAnyMap(it.Value()) {
				return true
			}
		}
	case reflect.Struct:
		for i := 0; i < rv.NumField(); i++ {
			if hasAnyMap(rv.Field(i)) {
				return true
			}
		}
	}
	return false
}

// c01Wide: the output of large values of every kind.
func c01Wide(t *T) {
	s := drawSized(t, 70000, true)
	rv := newOf(s.rt)
	if err := (&decModel{}).decode(s.doc, rv); err != nil {
		t.Discard()
	}
	if hasAnyMap(rv) { // not supported
		t.Discard()
	}
	var v any = rv.Interface()
	switch t.N(4) {
	case 1:
		v = rv.Addr().Interface()
	case 2:
		v = []any{v, 1}
	case 3:
		v = map[string]any{"k": v}
	}
	checkMarshal(t, v)
	s.nonTrivial(t)
}

// c23Sizes: containers over containers of other sizes.
func c23Sizes(t *T) {
	s := drawSized(t, 3000, false)
	rv := newOf(s.rt)
	vg := newValGen(t, ValOpts{Budget: 30, RT: true})
	m := drawSize(t, 3000)
	switch rv.Kind() {
	case reflect.Slice:
		sl := reflect.MakeSlice(s.rt, m, m+pick(t, []int{0, 1, 8, 100, s.n}))
		tmpl := vg.Value(s.rt.Elem())
		for i := 0; i < m; i++ {
			sl.Index(i).Set(tmpl)
		}
		rv.Set(sl)
	case reflect.Map:
		rv.Set(reflect.MakeMap(s.rt))
		tmpl := vg.Value(s.rt.Elem())
		k := newOf(s.rt.Key())
		for i := range m {
			switch k.Kind() {
			case reflect.String:
				k.SetString("k" + strconv.Itoa(i))
			case reflect.Interface:
				k.Set(reflect.ValueOf(i))
			case reflect.Uint32:
				k.SetUint(uint64(i))
			default:
				k.SetInt(int64(i))
			}
			rv.SetMapIndex(k, tmpl)
		}
	default:
		vg.Fill(rv)
	}
	if t.Chance(1, 3) && len(s.doc.Ent) > 0 { // nulls among the entries
		for i := range s.doc.Ent {
			if i%3 == 0 {
				s.doc.Ent[i].Val = nNull()
			}
		}
	}
	if checkUnmarshal(t, s.doc, rv) {
		s.nonTrivial(t)
	}
}

// c24Sizes: one misfit or malformed entry somewhere in a large container is found.
func c24Sizes(t *T) {
	s := drawSized(t, 9000, false)
	if len(s.doc.Ent) == 0 {
		t.Discard()
	}
	e := &s.doc.Ent[t.N(len(s.doc.Ent))]
	if t.Chance(1, 3) {
		e = &s.doc.Ent[len(s.doc.Ent)-1]
	}
	bad := pick(t, []*Node{nStr("x"), nInt(1 << 40), nInt(-1), nArr(nInt(1)), nBool(true), {K: 'd', Text: "1.5"}, {K: 'O', Str: "A"}, {K: 'i', Text: "99999999999999999999"}})
	if t.Bool() {
		e.Val = bad
	} else if bad.K == 'i' || bad.K == 's' {
		e.Key = bad
	}
	checkUnmarshal(t, s.doc, newOf(s.rt))
	s.nonTrivial(t)
}

// c12Sizes: one malformed entry somewhere in a large container is found.
func c12Sizes(t *T) {
	s := drawSized(t, 9000, false)
	if len(s.doc.Ent) == 0 {
		t.Discard()
	}
	e := &s.doc.Ent[t.N(len(s.doc.Ent))]
	if t.Chance(1, 3) {
		e = &s.doc.Ent[len(s.doc.Ent)-1]
	}
	m := nRaw([]byte(pick(t, malformed)))
	if t.Chance(2, 3) {
		e.Val = m
	} else {
		e.Key = m
	}
	b := s.doc.Bytes()
	for i, rt := range []reflect.Type{s.rt, anyType, typeOf[UnmRec](), typeOf[struct{}](), typeOf[[0]int]()} {
		if isLenient(b, i == 0) {
			continue
		}
		v := newOf(rt)
		err := unmarshal(b, v.Addr().Interface())
		mustNotPanic(t, "Unmarshal", err)
		if err == nil {
			t.Failf("a document with the malformed entry %q was accepted into *%s", m.Str, clip([]byte(typeName(rt))))
		}
		s.nonTrivial(t)
	}
}

// c22Sizes: many unknown entries, and large ones.
func c22Sizes(t *T) {
	s := drawSized(t, 3000, false)
	k := drawSize(t, 20000)
	inner := smallDocGen(t).Any(2)
	if t.Chance(1, 40) {
		k, inner = pick(t, moreThan16Bits), nNull()
	}
	var extra *Node
	var rt reflect.Type
	list := &Node{K: 'a'}
	for i := range k {
		list.Ent = append(list.Ent, Entry{nInt(int64(i)), inner})
	}
	host := structOf(field("A", s.rt, ""), field("B", typeOf[int](), ""))
	rt = host
	want, got := newOf(rt), newOf(rt)
	plain := &Node{K: 'a', Ent: []Entry{{nStr("A"), s.doc}, {nStr("B"), nInt(7)}}}
	extra = plain.Clone()
	switch t.N(4) {
	case 0: // one large unknown entry
		if t.Bool() {
			list.K, list.Str = 'O', "Big"
			for i := range list.Ent {
				list.Ent[i].Key = nStr("k" + strconv.Itoa(i))
			}
		}
		extra.Ent = append([]Entry{{nStr("C"), list}}, extra.Ent...)
	case 1: // many unknown entries
		var es []Entry
		for i := range k {
			es = append(es, Entry{nStr("u" + strconv.Itoa(i)), inner})
		}
		at := t.N(3)
		extra.Ent = append(append(append([]Entry{}, extra.Ent[:at]...), es...), extra.Ent[at:]...)
	case 2: // long strings
		str := strings.Repeat(pick(t, []string{"x", `"`, ";", "}", `";}`, "\x00"}), k)
		extra.Ent = append(extra.Ent[:1:1], append([]Entry{{nStr("C"), nStr(str)}, {nStr("D" + str), nInt(1)}}, extra.Ent[1:]...)...)
	default: // long class names
		str := strings.Repeat(pick(t, []string{"x", `"`, ";", "}", `":0:{}`, "\x00"}), k)
		extra.Ent = append(extra.Ent[:1:1], append([]Entry{{nStr("C"), &Node{K: 'O', Str: str, Ent: []Entry{{nStr("a"), inner}}}}}, extra.Ent[1:]...)...)
	}
	t.Desc(func() string { return s.String() + fmt.Sprintf(", with %d unknown things", k) })
	if err := unmarshal(plain.Bytes(), want.Addr().Interface()); err != nil {
		mustNotPanic(t, "Unmarshal", err)
		t.Discard()
	}
	err := unmarshal(extra.Bytes(), got.Addr().Interface())
	mustNotPanic(t, "Unmarshal", err)
	if err != nil {
		t.Failf("with %d unknown things: Unmarshal failed: %v", k, err)
	}
	if d := diff(want, got); d != "" {
		t.Failf("unknown things changed the result: %s", d)
	}
	if k > 1 {
		t.NonTrivial(mix(uint64(k), hashBytes(s.doc.Bytes()), hashStr(s.rt.String())))
	}
}

// c21Sizes: an Unmarshaler gets exactly the bytes of its value, however large.
func c21Sizes(t *T) {
	s := drawSized(t, 20000, true)
	n := s.doc
	switch t.N(4) {
	case 1:
		n = nStr(strings.Repeat(pick(t, []string{"x", `"`, ";", "\x00"}), drawSize(t, 70000)))
	case 2:
		n = &Node{K: 'O', Str: strings.Repeat(pick(t, []string{"x", `"`, `":0:{}`}), drawSize(t, 5000)), Ent: []Entry{{nStr("a"), n}}}
	}
	raw := string(n.Bytes())
	type S struct {
		A int
		B UnmRec  `php:"b"`
		C *UnmRec `php:"c"`
		D []UnmRec
	}
	doc := &Node{K: 'a', Ent: []Entry{{nStr("c"), n}, {nStr("b"), n}, {nStr("D"), nArr(n, nInt(1), n)}, {nStr("A"), nInt(3)}}}
	t.Desc(func() string { return fmt.Sprintf("raw values of %d bytes for Unmarshalers", len(raw)) })
	var v S
	err := unmarshal(doc.Bytes(), &v)
	mustNotPanic(t, "Unmarshal", err)
	if err != nil {
		t.Failf("Unmarshal failed: %v", err)
	}
	if v.A != 3 || v.C == nil || len(v.D) != 3 {
		t.Failf("Unmarshal gave %s", clip([]byte(show(reflect.ValueOf(v)))))
	}
	for i, got := range []UnmRec{v.B, *v.C, v.D[0], v.D[2]} {
		if got.Got != raw || got.Calls != 1 {
			t.Failf("value %d: UnmarshalPHP got in %d calls, %s", i, got.Calls, firstDiff([]byte(raw), []byte(got.Got)))
		}
	}
	if len(raw) > 100 {
		t.NonTrivial(hashStr(raw))
	}
}

// c20Sizes: the bytes of MarshalPHP are written as they are, however many and however large.
func c20Sizes(t *T) {
	n := drawSize(t, 20000)
	raw := bytes.Repeat([]byte(pick(t, []string{"x", "i:1;", `"`, "\x00"})), drawSize(t, 70000)/(1+n/100))
	m := MarKeep{&raw}
	list := make([]MarKeep, n)
	ptrs := make([]*MarKeep, n)
	anys := make([]any, n)
	for i := range list {
		list[i], ptrs[i], anys[i] = m, &m, m
		if i%2 == 1 {
			anys[i] = &m
		}
	}
	var v any
	switch t.N(4) {
	case 0:
		v = list
	case 1:
		v = ptrs
	case 2:
		v = anys
	default:
		v = [1][]MarKeep{list}
	}
	t.Desc(func() string { return fmt.Sprintf("%T of %d Marshalers that return %d bytes", v, n, len(raw)) })
	want := fmt.Appendf(nil, "a:%d:{", n)
	for i := range n {
		want = append(fmt.Appendf(want, "i:%d;", i), raw...)
	}
	want = append(want, '}')
	if _, ok := v.([1][]MarKeep); ok {
		want = append(append([]byte("a:1:{i:0;"), want...), '}')
	}
	got, err := marshal(v)
	mustNotPanic(t, "Marshal", err)
	if err != nil {
		t.Failf("Marshal failed: %v", err)
	}
	if !bytes.Equal(got, want) {
		t.Failf("Marshal of %d Marshalers with %d bytes: %s", n, len(raw), firstDiff(want, got))
	}
	t.NonTrivial(mix(uint64(n), uint64(len(raw)), hashStr(fmt.Sprintf("%T", v))))
}

// c26Sizes: large lists with every kind of order and gap.
func c26Sizes(t *T) {
	elem := pick(t, []reflect.Type{typeOf[int](), typeOf[string](), anyType, typeOf[uint8](), typeOf[*int](), typeOf[[]int](), typeOf[MyStruct2]()})
	n := drawSize(t, 9000)
	gap := pick(t, []int{1, 1, 1, 2, 3, 17, 300})
	if n*gap > 300000 {
		gap = 1
	}
	off := 0
	if t.Chance(1, 3) {
		off = drawSize(t, 20000)
	}
	rt := reflect.SliceOf(elem)
	if t.Chance(1, 3) {
		rt = reflect.ArrayOf(t.Int(0, min(9000, n*gap+off+10)), elem)
	}
	doc := &Node{K: 'a'}
	val := smallDocGen(t)
	val.left = 4
	tmpl := val.For(elem, 1)
	for _, i := range order(t, n) {
		v := tmpl
		if elem.Kind() == reflect.Int || elem.Kind() == reflect.Interface {
			v = nInt(int64(i))
		}
		doc.Ent = append(doc.Ent, Entry{nInt(int64(off + i*gap)), v})
	}
	t.Desc(func() string {
		return fmt.Sprintf("%d indices from %d on with gaps of %d into *%s, %s", n, off, gap, typeName(rt), clip(doc.Bytes()))
	})
	rv := newOf(rt)
	if t.Chance(1, 4) {
		newValGen(t, ValOpts{Budget: 30, RT: true}).Fill(rv)
	}
	checkUnmarshal(t, doc, rv)
	if n > 1 {
		t.NonTrivial(mix(uint64(n), uint64(gap), uint64(off), hashStr(rt.String()), hashBytes(doc.Bytes())))
	}
}

// c27Sizes: large arrays as objects.
func c27Sizes(t *T) {
	s := drawSized(t, 20000, false)
	if s.kind != "struct" && !strings.HasSuffix(s.kind, "map") {
		t.Discard()
	}
	a, b := newOf(s.rt), newOf(s.rt)
	arr, obj := s.doc.Clone(), s.doc.Clone()
	arr.K, arr.Str = 'a', ""
	obj.K, obj.Str = 'O', strings.Repeat(pick(t, []string{"C", `"`, `":1:{`, "\\"}), drawSize(t, 70000))
	err1 := unmarshal(arr.Bytes(), a.Addr().Interface())
	err2 := unmarshal(obj.Bytes(), b.Addr().Interface())
	mustNotPanic(t, "Unmarshal", err1)
	mustNotPanic(t, "Unmarshal", err2)
	if err1 != nil || err2 != nil {
		t.Failf("as array: %v; as object of a class name of %d bytes: %v", err1, len(obj.Str), err2)
	}
	if d := diff(a, b); d != "" {
		t.Failf("array and object of a class name of %d bytes decode differently: %s", len(obj.Str), d)
	}
	s.nonTrivial(t)
}
