package main

import (
	"bytes"
	"fmt"
	"reflect"
	"slices"
	"sync"
)

// ---- C15: cyclic and shared values ----

// graph builds nodes of many types and links them at random.
type graph struct {
	t     *T
	nodes []reflect.Value // pointers, maps and slices
	owner []int           // the node an interior reference points into, or the node itself
	edges int
}

// add appends a node, and maybe references to the inside of it.
func (g *graph) add(n reflect.Value) {
	own := len(g.nodes)
	g.nodes, g.owner = append(g.nodes, n), append(g.owner, own)
	if !g.t.Chance(1, 3) {
		return
	}
	var in []reflect.Value
	var collect func(rv reflect.Value, depth int)
	collect = func(rv reflect.Value, depth int) {
		if depth > 0 && rv.CanAddr() && rv.CanSet() {
			in = append(in, rv.Addr())
			if k := rv.Kind(); k == reflect.Array && rv.Len() > 0 {
				in = append(in, rv.Slice(0, rv.Len()), rv.Slice(0, 1), rv.Slice(rv.Len()-1, rv.Len()))
			}
		}
		switch rv.Kind() {
		case reflect.Struct:
			for i := 0; i < rv.NumField(); i++ {
				collect(rv.Field(i), depth+1)
			}
		case reflect.Array:
			for i := 0; i < rv.Len(); i++ {
				collect(rv.Index(i), depth+1)
			}
		}
	}
	switch n.Kind() {
	case reflect.Pointer:
		collect(n.Elem(), 0)
	case reflect.Slice:
		for i := 0; i < n.Len(); i++ {
			collect(n.Index(i), 1)
		}
		in = append(in, n.Slice(1, n.Len()), n.Slice(0, 1))
	}
	if len(in) == 0 {
		return
	}
	for range g.t.Int(1, 3) {
		g.nodes, g.owner = append(g.nodes, pick(g.t, in)), append(g.owner, own)
	}
}

// later are the nodes that may be reached from node i without a cycle.
func (g *graph) later(i int, inside bool) []reflect.Value {
	var out []reflect.Value
	for j, n := range g.nodes {
		if g.owner[j] > i || inside && g.owner[j] == i && j != i {
			out = append(out, n)
		}
	}
	return out
}

type GNode struct {
	Any  any            `php:"any"`
	L    *RecList       `php:"l,omitempty"`
	T    []*RecTree     `php:"t"`
	M    map[string]any `php:"m,omitempty"`
	S    []any          `php:"s"`
	P    *any           `php:"p"`
	A    *[2]any        `php:"a"`
	Self *GNode         `php:"self"`
	In   GInner         `php:"in"`
	Hide *GNode         `php:"-"`
	priv *GNode
	Str  any            `php:"str,string"`
	Sl   *[]any         `php:"sl"`
	Mp   *map[int]any   `php:"mp"`
	Arr  [2]*GNode      `php:"arr"`
	MN   map[int]*GNode `php:"mn"`
	SN   []*GNode       `php:"sn"`
	SV   []GInner       `php:"sv"`
}
type GInner struct {
	N *GNode
	V any
}

// GFirst and GNest begin at the address of what they begin with.
type GFirst struct {
	A [2]any
	P *[2]any
	Q any
	S []any
	F *GFirst
}
type GNest struct {
	F GFirst
	P *GFirst
	A *[2]any
	E *any
	N *GNest
}
type GOne struct {
	O [1]GFirst
	P *[1]GFirst
	Q *GFirst
	R *[2]any
}

var graphTypes = []reflect.Type{
	typeOf[*IfaceNode](), typeOf[*IfacePtrNode](), typeOf[map[string]any](), typeOf[[]any](), typeOf[*any](), typeOf[*RecList](), typeOf[*RecTree](), typeOf[*RecMapT](),
	typeOf[RecPS](), typeOf[RecPM](), typeOf[*RecArr](), typeOf[*[2]any](), typeOf[*GNode](), typeOf[*GNode](), typeOf[map[int]any](), typeOf[[]map[string]any](), typeOf[[]*GNode](),
	typeOf[RecS](), typeOf[RecM](), typeOf[*RecMutA](), typeOf[*RecMutB](), typeOf[*[]any](), typeOf[*map[string]any](), typeOf[**GNode](), typeOf[map[string]*GNode](), typeOf[*[1]*GNode](),
	typeOf[*RecPA](), typeOf[RecSA](), typeOf[RecMS](), typeOf[*RecFieldPA](), typeOf[*RecFieldPS](), typeOf[*RecFieldPM](), typeOf[map[MyStr]any](), typeOf[[]GInner](), typeOf[[]*any](),
	typeOf[*GFirst](), typeOf[*GFirst](), typeOf[*RecPA3](), typeOf[RecMA](), typeOf[*RecSA3](), typeOf[*GTree[any]](), typeOf[*GMutA[any]](), typeOf[*GLens[any]](), typeOf[*GKinds[any]](), typeOf[*GPtr[any]](), typeOf[*GPtr[int]](), typeOf[*Cq0](),
	typeOf[*GNest](), typeOf[*GNest](), typeOf[*GOne](), typeOf[*[1]GFirst](), typeOf[[]GFirst](), typeOf[[][2]any](), typeOf[*[2][1]any](), typeOf[*struct {
		M map[string]any
		P *map[string]any
		Q any
	}](), typeOf[*struct {
		S []any
		P *[]any
		Q any
	}](), typeOf[*struct {
		E any
		P *any
		Q any
	}](),
}

var graphFamilies sync.Map

// graphFamily lists the types of references that values of a type can hold at any depth.
func graphFamily(rt reflect.Type) []reflect.Type {
	if f, ok := graphFamilies.Load(rt); ok {
		return f.([]reflect.Type)
	}
	var out []reflect.Type
	seen := map[reflect.Type]bool{}
	var visit func(reflect.Type)
	visit = func(rt reflect.Type) {
		if seen[rt] {
			return
		}
		seen[rt] = true
		switch rt.Kind() {
		case reflect.Pointer:
			if k := rt.Elem().Kind(); k == reflect.Struct || k == reflect.Array || k == reflect.Interface || k == reflect.Map || k == reflect.Slice {
				out = append(out, rt)
			}
			visit(rt.Elem())
		case reflect.Map:
			if k := rt.Key().Kind(); k == reflect.String || k == reflect.Int {
				out = append(out, rt)
			}
			visit(rt.Elem())
		case reflect.Slice:
			out = append(out, rt)
			visit(rt.Elem())
		case reflect.Array:
			visit(rt.Elem())
		case reflect.Struct:
			for i := range rt.NumField() {
				if rt.Field(i).IsExported() {
					visit(rt.Field(i).Type)
				}
			}
		}
	}
	visit(rt)
	graphFamilies.Store(rt, out)
	return out
}

func (g *graph) alloc(rt reflect.Type) reflect.Value {
	switch rt.Kind() {
	case reflect.Pointer:
		return reflect.New(rt.Elem()).Convert(rt)
	case reflect.Map:
		return reflect.MakeMap(rt)
	default:
		return reflect.MakeSlice(rt, g.t.Int(1, 3), 4)
	}
}

func (g *graph) linkAll(acyclic bool, chance int) {
	inside := g.t.Bool()
	for i, nd := range g.nodes {
		if g.owner[i] != i {
			continue
		}
		allowed := g.nodes
		if acyclic {
			allowed = g.later(i, inside)
		}
		g.link(nd, allowed, chance)
	}
}

// link fills what the node holds with references to the allowed nodes.
func (g *graph) link(n reflect.Value, allowed []reflect.Value, chance int) {
	switch n.Kind() {
	case reflect.Pointer:
		g.fill(n.Elem(), allowed, chance, 0)
	case reflect.Slice:
		for i := 0; i < n.Len(); i++ {
			g.fill(n.Index(i), allowed, chance, 0)
		}
	case reflect.Map:
		n.Clear()
		for i := g.t.Int(1, 2); i > 0; i-- {
			k := reflect.New(n.Type().Key()).Elem()
			if k.Kind() == reflect.String {
				k.SetString(fmt.Sprint("k", i))
			} else {
				k.SetInt(int64(i))
			}
			v := reflect.New(n.Type().Elem()).Elem()
			g.fill(v, allowed, chance, 0)
			n.SetMapIndex(k, v)
		}
	}
}

// valueAround is an array or a struct, held by value, with v in it.
func valueAround(t *T, v reflect.Value) reflect.Value {
	vt := v.Type()
	var c reflect.Value
	switch t.N(4) {
	case 0:
		c = newOf(reflect.ArrayOf(1, vt))
		c.Index(0).Set(v)
	case 1:
		c = newOf(structOf(field("P", vt, "")))
		c.Field(0).Set(v)
	case 2:
		c = newOf(typeOf[[2]any]())
		c.Index(t.N(2)).Set(v)
	default:
		c = newOf(reflect.ArrayOf(1, structOf(field("P", vt, `php:",omitempty"`))))
		c.Index(0).Field(0).Set(v)
	}
	return c
}

func (g *graph) fill(rv reflect.Value, allowed []reflect.Value, chance, depth int) {
	t := g.t
	if !rv.CanSet() {
		return
	}
	rt := rv.Type()
	if rt.Kind() == reflect.Pointer || rt.Kind() == reflect.Map || rt.Kind() == reflect.Slice || rt.Kind() == reflect.Interface {
		rv.SetZero()
		var fit []reflect.Value
		for _, n := range allowed {
			if rt.Kind() == reflect.Interface || n.Type() == rt {
				fit = append(fit, n)
			}
		}
		if len(fit) > 0 && t.Chance(chance, 8) {
			v := pick(t, fit)
			if v.Kind() == reflect.Slice && t.Chance(1, 4) {
				v = v.Slice(0, t.Int(0, v.Len()))
			}
			if rt == anyType && t.Chance(1, 5) && !(v.Kind() == reflect.Pointer && v.Type().Elem().Kind() == reflect.Pointer) {
				v = valueAround(t, v)
			}
			rv.Set(v)
			g.edges++
			return
		}
	}
	switch rv.Kind() {
	case reflect.Struct:
		for i := 0; i < rv.NumField(); i++ {
			f := rt.Field(i)
			if f.Tag.Get("php") == "str,string" { // holds pointers to interfaces only
				rv.Field(i).SetZero()
				var fit []reflect.Value
				for _, n := range allowed {
					if n.Type() == typeOf[*any]() {
						fit = append(fit, n)
					}
				}
				if len(fit) > 0 && t.Chance(1, 12) {
					rv.Field(i).Set(pick(t, fit))
				}
				continue
			}
			g.fill(rv.Field(i), allowed, chance, depth+1)
		}
	case reflect.Array:
		for i := 0; i < rv.Len(); i++ {
			g.fill(rv.Index(i), allowed, chance, depth+1)
		}
	case reflect.Interface:
		if rt.NumMethod() == 0 && t.Bool() {
			rv.Set(reflect.ValueOf(pick(t, []any{1, "s", true, 1.5, []int{1}, MyInt(3)})))
		}
	case reflect.Pointer, reflect.Map, reflect.Slice:
	case reflect.Int, reflect.Int64, reflect.Int8:
		rv.SetInt(int64(t.Int(0, 3)))
	case reflect.String:
		rv.SetString(pick(t, []string{"", "a", "q\""}))
	}
}

type visitKey struct {
	rt  reflect.Type
	ptr uintptr
	n   int
}

// walk follows what Marshal would write, and reports whether that ends.
type walk struct {
	on    map[visitKey]bool
	size  int
	depth int
	deep  int
}

const walkLimit = 6000

// cyclic is true when a value contains itself; bad is true when an unsupported ",string" is met.
func (w *walk) cyclic(rv reflect.Value) bool {
	w.size++
	if w.size > walkLimit {
		return false
	}
	w.depth++
	w.deep = max(w.deep, w.depth)
	defer func() { w.depth-- }()
	switch rv.Kind() {
	case reflect.Interface, reflect.Pointer, reflect.Map, reflect.Slice:
		if rv.IsNil() {
			return false
		}
	}
	switch rv.Kind() {
	case reflect.Pointer, reflect.Map, reflect.Slice:
		k := visitKey{rv.Type(), rv.Pointer(), 0}
		if rv.Kind() == reflect.Slice {
			if k.n = rv.Len(); k.n == 0 {
				return false
			}
		}
		if w.on[k] {
			return true
		}
		w.on[k] = true
		defer delete(w.on, k)
	}
	switch rv.Kind() {
	case reflect.Interface, reflect.Pointer:
		return w.cyclic(rv.Elem())
	case reflect.Slice, reflect.Array:
		for i := 0; i < rv.Len(); i++ {
			if w.cyclic(rv.Index(i)) {
				return true
			}
		}
	case reflect.Map:
		it := rv.MapRange()
		for it.Next() {
			if w.cyclic(it.Value()) {
				return true
			}
		}
	case reflect.Struct:
		for _, f := range fieldsOf(rv.Type()) {
			if w.cyclic(rv.Field(f.idx)) {
				return true
			}
		}
	}
	return false
}

// wrap puts the value under levels of pointers, as the detection starts only at some depth.
func wrap(t *T, v any, n int) any {
	kind := t.N(4)
	for i := range n {
		switch kind {
		case 0:
			v = &IfaceNode{v, 1}
		case 1:
			p := new(any)
			*p = v
			v = &IfacePtrNode{p, 2}
		case 2:
			v = &[2]any{v, nil}
		default:
			switch i % 3 {
			case 0:
				p := new(any)
				*p = v
				v = p
			case 1:
				v = &IfaceNode{v, 1}
			default:
				v = []any{v, 1}
			}
		}
	}
	return v
}

func c15(t *T) {
	g := &graph{t: t}
	n := t.Int(1, 7)
	few := t.Int(1, 4) // few types, so that nodes fit each other
	var kinds []reflect.Type
	for range few {
		rt := pick(t, graphTypes)
		kinds = append(kinds, rt)
		if f := graphFamily(rt); len(f) > 0 && t.Bool() {
			for range t.Int(1, 3) {
				kinds = append(kinds, pick(t, f))
			}
		}
	}
	for range n {
		g.add(g.alloc(pick(t, kinds)))
	}
	chance := t.Int(2, 8)
	acyclic := t.Bool()
	g.linkAll(acyclic, chance)
	levels := 0
	switch t.W(8, 2, 1, 1) {
	case 1:
		levels = t.Int(1, 10)
	case 2:
		levels = t.Int(990, 1010)
	case 3:
		levels = t.Int(1100, 1600)
	}
	if t.Chance(1, 20) {
		levels = 500
	}
	root := g.nodes[0].Interface()
	if typeOf[**GNode]() == g.nodes[0].Type() { // supported inside an interface only
		root = []any{root}
	}
	root = wrap(t, root, levels)
	g.check(root, levels)
	if t.Chance(1, 3) { // the same nodes linked anew, without cycles: nothing must be left over
		g.linkAll(true, chance)
		t.Label("relinked")
		g.check(root, levels)
	}
}

func (g *graph) check(root any, levels int) {
	t := g.t
	w := &walk{on: map[visitKey]bool{}}
	cyc := w.cyclic(reflect.ValueOf(root))
	if w.size > walkLimit {
		t.Label("too large")
		return
	}
	t.Desc(func() string {
		s := ""
		for i, n := range g.nodes {
			if i > 0 {
				s += "; "
			}
			s += fmt.Sprintf("%s %#x", typeName(n.Type()), n.Pointer()&0xffffff)
			switch n.Kind() {
			case reflect.Pointer:
				s += fmt.Sprintf(" = %s", shallow(n.Elem()))
			default:
				s += fmt.Sprintf(" = %s", shallow(n))
			}
		}
		return fmt.Sprintf("Marshal of node 0 of a graph (cyclic %v) below %d levels of pointers, nodes: %s", cyc, levels, s)
	})
	if cyc {
		out, err := marshal(root)
		mustNotPanic(t, "Marshal", err)
		if err == nil {
			t.Failf("Marshal of a cyclic value succeeded with %s", clip(out))
		}
		if out != nil {
			t.Failf("failing Marshal returned output %s", clip(out))
		}
		t.Label("cyclic")
	} else {
		checkMarshal(t, root)
		t.Label("acyclic")
		if levels > 900 {
			t.Label("acyclic and deep")
		}
	}
	if g.edges > 1 {
		t.NonTrivial(mix(uint64(w.size), uint64(g.edges), uint64(levels), hashStr(fmt.Sprint(reflect.TypeOf(root))), uint64(w.deep), uint64(len(g.nodes))))
	}
}

// shallow renders one node without following references.
func shallow(rv reflect.Value) string {
	switch rv.Kind() {
	case reflect.Pointer, reflect.Map, reflect.Slice:
		if rv.IsNil() {
			return "nil"
		}
		if rv.Kind() != reflect.Pointer {
			s := "{"
			if rv.Kind() == reflect.Slice {
				for i := 0; i < rv.Len(); i++ {
					s += ref(rv.Index(i)) + " "
				}
			} else {
				it := rv.MapRange()
				for it.Next() {
					s += fmt.Sprint(it.Key()) + ":" + ref(it.Value()) + " "
				}
			}
			return s + "}"
		}
		return ref(rv)
	case reflect.Struct, reflect.Array:
		s := "{"
		n := 0
		if rv.Kind() == reflect.Array {
			n = rv.Len()
		} else {
			n = rv.NumField()
		}
		for i := 0; i < n; i++ {
			var f reflect.Value
			if rv.Kind() == reflect.Array {
				f = rv.Index(i)
			} else {
				f = rv.Field(i)
				if f.IsZero() {
					continue
				}
				s += rv.Type().Field(i).Name + ":"
			}
			switch f.Kind() {
			case reflect.Struct, reflect.Array:
				s += shallow(f) + " "
			default:
				s += ref(f) + " "
			}
		}
		return s + "}"
	}
	return ref(rv)
}

func ref(rv reflect.Value) string {
	switch rv.Kind() {
	case reflect.Interface:
		if rv.IsNil() {
			return "nil"
		}
		return ref(rv.Elem())
	case reflect.Pointer, reflect.Map, reflect.Slice:
		if rv.IsNil() {
			return "nil"
		}
		return fmt.Sprintf("%s %#x", typeName(rv.Type()), rv.Pointer()&0xffffff)
	case reflect.Struct, reflect.Array:
		return typeName(rv.Type())
	}
	return fmt.Sprint(rv)
}

// c15Shared: a value that occurs often is written as often, at any depth.
func c15Shared(t *T) {
	n := t.Int(2, 40)
	deep := pick(t, []int{0, 0, 1, 5, 995, 999, 1000, 1001, 1200})
	leafs := []any{&RecList{1, &RecList{2, nil}}, &IfaceNode{"x", 1}, map[string]any{"k": 1}, []any{1, 2}, &[2]any{1, nil}, &RecTree{"a", []*RecTree{{"b", nil}}}, []int{1, 2, 3},
		map[string]int{"a": 1}, &MyStruct{A: 1}, RecM{"a": nil}, RecS{nil}, &GNode{}, []string{"q"}, &[]any{1}}
	leaf := pick(t, leafs)
	var v any
	switch t.N(5) {
	case 0:
		s := make([]any, n)
		for i := range s {
			s[i] = leaf
		}
		v = s
	case 1:
		m := map[int]any{}
		for i := range n {
			m[i] = leaf
		}
		v = m
	case 2: // the same again on the way down
		v = leaf
		for range n {
			v = []any{leaf, v, leaf}
		}
	case 3: // a typed slice of one pointer
		rt := reflect.TypeOf(leaf)
		s := reflect.MakeSlice(reflect.SliceOf(rt), n, n)
		for i := 0; i < n; i++ {
			s.Index(i).Set(reflect.ValueOf(leaf))
		}
		v = s.Interface()
	default: // slices of one array
		base := make([]any, n)
		for i := range base {
			base[i] = i
		}
		v = []any{base, base[:n/2], base[n/2:], base[:0], base[:n:n], base[1:], map[string]any{"b": base}, &base}
	}
	v = wrap(t, v, deep)
	t.Desc(func() string { return fmt.Sprintf("%T shared %d times below %d levels", leaf, n, deep) })
	t.NonTrivial(mix(uint64(n), uint64(deep), hashStr(fmt.Sprintf("%T", leaf)), uint64(len(t.rec))))
	for range 2 {
		checkMarshal(t, v)
	}
}

type ringNode struct {
	P *ringNode            `php:",omitempty"`
	I any                  `php:",omitempty"`
	M map[string]any       `php:",omitempty"`
	S []any                `php:",omitempty"`
	A *[1]any              `php:",omitempty"`
	T []*ringNode          `php:",omitempty"`
	N map[string]*ringNode `php:",omitempty"`
}

// c15Ring: one long chain of references, whose end may point back to any of its nodes.
func c15Ring(t *T) {
	pattern := make([]int, t.Int(1, 4))
	for i := range pattern {
		pattern[i] = t.N(12)
	}
	n := 1 << t.Int(0, 13)
	n += t.Int(0, n)
	back := -1
	if t.Chance(2, 3) {
		back = 0
		if t.Bool() {
			back = t.Int(0, n-1)
		}
	}
	nodes := make([]any, n)
	for i := range nodes {
		switch pattern[i%len(pattern)] {
		case 0:
			nodes[i] = []any{nil}
		case 1:
			nodes[i] = map[string]any{}
		case 2:
			nodes[i] = new(any)
		case 3:
			nodes[i] = new([1]any)
		default:
			nodes[i] = new(ringNode)
		}
	}
	var head, tail []byte
	link := func(i int, to any) (before, after string) {
		switch x := nodes[i].(type) {
		case []any:
			x[0] = to
			return "a:1:{i:0;", "}"
		case map[string]any:
			x["k"] = to
			return `a:1:{s:1:"k";`, "}"
		case *any:
			*x = to
			return "", ""
		case *[1]any:
			x[0] = to
			return "a:1:{i:0;", "}"
		}
		x := nodes[i].(*ringNode)
		*x = ringNode{}
		kind := pattern[i%len(pattern)] - 4
		r, ok := to.(*ringNode)
		if !ok {
			kind = min(kind, 3)
		}
		switch kind {
		case 1:
			x.M = map[string]any{"k": to}
			return `a:1:{s:1:"M";a:1:{s:1:"k";`, "}}"
		case 2:
			x.S = []any{to}
			return `a:1:{s:1:"S";a:1:{i:0;`, "}}"
		case 3:
			x.A = &[1]any{to}
			return `a:1:{s:1:"A";a:1:{i:0;`, "}}"
		case 4:
			x.T = []*ringNode{r}
			return `a:1:{s:1:"T";a:1:{i:0;`, "}}"
		case 5:
			x.N = map[string]*ringNode{"k": r}
			return `a:1:{s:1:"N";a:1:{s:1:"k";`, "}}"
		case 6, 7:
			x.P = r
			return `a:1:{s:1:"P";`, "}"
		}
		x.I = to
		return `a:1:{s:1:"I";`, "}"
	}
	for i := range n - 1 {
		a, b := link(i, nodes[i+1])
		head, tail = append(head, a...), append(tail, b...)
	}
	t.Desc(func() string {
		return fmt.Sprintf("a chain of %d references of kinds %v, the last to node %d", n, pattern, back)
	})
	t.NonTrivial(mix(uint64(n), uint64(back+1), hashStr(fmt.Sprint(pattern))))
	if back >= 0 {
		link(n-1, nodes[back])
		out, err := marshal(nodes[0])
		mustNotPanic(t, "Marshal", err)
		if err == nil {
			t.Failf("Marshal of a cyclic value succeeded with %s", clip(out))
		}
		if out != nil {
			t.Failf("failing Marshal returned output %s", clip(out))
		}
		t.Label("cyclic")
	}
	a, b := link(n-1, any("end"))
	want := append(append(append(head, a...), `s:3:"end";`...), append([]byte(b), tail...)...)
	out, err := marshal(nodes[0])
	mustNotPanic(t, "Marshal", err)
	if err != nil {
		t.Failf("Marshal of the chain without the cycle failed: %v", err)
	}
	if !bytes.Equal(out, want) {
		t.Failf("Marshal of the chain without the cycle: %s", firstDiff(want, out))
	}
}

// ---- C16: recursive types ----

func recType(t *T) reflect.Type {
	g := &TypeGen{t: t, o: TypeOpts{NoIface: true, NoMar: true, RecW: 40, NoTags: t.Bool()}}
	g.freshen()
	switch t.N(5) {
	case 0:
		return pick(t, genericTypes)
	case 1:
		return pick(t, cliqueTypes)
	case 2:
		return pick(t, recursiveTypes)
	case 3:
		return pick(t, sameTypes)
	default:
		return g.Struct(t.Int(1, 3))
	}
}

func c16(t *T) {
	rt := recType(t)
	steps := []int{0, 1, 2}
	shuffle(t, steps)
	for _, s := range steps {
		switch s {
		case 0:
			rv := newValGen(t, ValOpts{NilPct: 2, RT: true, NoNaN: true, Sharing: true, Budget: 40}).Value(rt)
			descValue(t, rv)
			out := checkMarshal(t, argOf(t, rv))
			if len(out) > 30 {
				t.NonTrivial(hashBytes(out))
			}
		case 1:
			g := newDocGen(t)
			n := g.For(rt, t.Int(1, 4))
			descDoc(t, n, rt)
			checkUnmarshal(t, n, newOf(rt))
		default:
			rv := newValGen(t, ValOpts{NilPct: 2, RT: true, NoNaN: true, Budget: 40}).Value(rt)
			descValue(t, rv)
			roundTrip(t, rv)
		}
	}
	switch {
	case slices.Contains(genericTypes, rt):
		t.Label("generic")
	case slices.Contains(sameTypes, rt):
		t.Label("same name")
	case slices.Contains(cliqueTypes, rt):
		t.Label("clique")
	case rt.Name() != "":
		t.Label("named")
	default:
		t.Label("dynamic")
	}
}

// c16Deep: a recursive value of some size, both ways.
func c16Deep(t *T) {
	n := t.Int(1, 400)
	rt := pick(t, append([]reflect.Type{typeOf[RecList](), typeOf[RecTreeV](), typeOf[RecMutA](), typeOf[RecMapT](), typeOf[RecArr](), typeOf[RecSA](), typeOf[RecFieldPM]()}, genericTypes[:18]...))
	rv := reflect.New(rt).Elem()
	filled := 0
	deepFill(t, rv, n, &filled)
	if filled == 0 {
		t.Discard()
	}
	t.Desc(func() string { return fmt.Sprintf("%s nested about %d levels", typeName(rt), n) })
	t.NonTrivial(mix(hashStr(rt.String()), uint64(n), uint64(filled)))
	checkMarshal(t, rv.Addr().Interface())
	roundTrip(t, rv)
}

// deepFill makes one path of n levels.
func deepFill(t *T, rv reflect.Value, n int, filled *int) bool {
	if n <= 0 {
		return true
	}
	rt := rv.Type()
	switch rv.Kind() {
	case reflect.Pointer:
		if !recursive(rt) {
			return false
		}
		p := reflect.New(rt.Elem())
		rv.Set(p.Convert(rt))
		*filled++
		return deepFill(t, p.Elem(), n-1, filled)
	case reflect.Slice:
		if !recursive(rt) {
			return false
		}
		rv.Set(reflect.MakeSlice(rt, 1, 1))
		*filled++
		return deepFill(t, rv.Index(0), n-1, filled)
	case reflect.Array:
		if rv.Len() > 0 && recursive(rt) {
			return deepFill(t, rv.Index(rv.Len()-1), n, filled)
		}
	case reflect.Map:
		if !recursive(rt) {
			return false
		}
		e := reflect.New(rt.Elem()).Elem()
		deepFill(t, e, n-1, filled)
		m := reflect.MakeMap(rt)
		k := reflect.New(rt.Key()).Elem()
		if k.Kind() == reflect.String {
			k.SetString("k")
		}
		m.SetMapIndex(k, e)
		rv.Set(m)
		*filled++
		return true
	case reflect.Struct:
		var cand []int
		for i := 0; i < rv.NumField(); i++ {
			if f := rv.Field(i); f.CanSet() && recursive(f.Type()) {
				cand = append(cand, i)
			}
		}
		if len(cand) == 0 {
			return false
		}
		return deepFill(t, rv.Field(cand[(n+int(hashStr(rt.String())%7))%len(cand)]), n, filled)
	}
	return false
}

// roundTrip marshals the value and decodes that into a fresh one.
func roundTrip(t *T, rv reflect.Value) {
	in := rv.Interface()
	if rv.Kind() == reflect.Interface {
		in = rv.Addr().Interface()
	}
	out, err := marshal(in)
	mustNotPanic(t, "Marshal", err)
	if err != nil {
		t.Failf("Marshal failed: %v", err)
	}
	back := newOf(rv.Type())
	err = unmarshal(out, back.Addr().Interface())
	mustNotPanic(t, "Unmarshal", err)
	if err != nil {
		t.Failf("Unmarshal(%s) of a marshalled value failed: %v", clip(out), err)
	}
	want := deepCopy(rv)
	rtNormal(want)
	if d := diff(want, back); d != "" {
		t.Failf("round trip through %s: %s", clip(out), d)
	}
	again, err := marshal(back.Addr().Interface())
	if err != nil {
		t.Failf("Marshal of the decoded value failed: %v", err)
	}
	_ = bytes.Equal(again, out)
}

func init() {
	register(&Property{ID: "C15",
		Rule: "random graphs of 1-7 nodes of 47 pointer, map, slice and array types, and references to the inside of them, linked at random, below 0-1600 levels of pointers: cyclic ones must fail, acyclic ones with sharing must encode as the reference encoder says, also after the nodes of a cyclic graph are linked anew; chains of 1 to 16384 references of 12 kinds with and without a way back; non-trivial: at least two edges, or a chain",
		Arms: []Arm{{"graph", c15, 40000, 1000000}, {"shared", c15Shared, 8000, 80000}, {"ring", c15Ring, 2400, 40000}}})
	register(&Property{ID: "C16",
		Rule: "recursive and mutually recursive types (named, 252 generic instances, a clique of 12 structs, dynamic structs around them, first use in random order and direction): encode and decode against the reference models and round trip; non-trivial: more than 30 bytes of output",
		Arms: []Arm{{"types", c16, 12000, 240000}, {"deep", c16Deep, 3000, 40000}}})
}
