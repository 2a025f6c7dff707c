package main

import (
	"fmt"
	"reflect"
	"sort"
)

func sortStrings(s []string) { sort.Strings(s) }

// nonce makes the struct types of a case new to the process.
func (g *TypeGen) freshen() { g.nonce = fmt.Sprintf(` vfy:"%x"`, g.t.U64(^uint64(0))) }

func descDoc(t *T, n *Node, rt reflect.Type) {
	t.Desc(func() string { return "Unmarshal(" + n.String() + ", *" + typeName(rt) + ")" })
}

// checkUnmarshal decodes the document into rv, which may hold prior contents, and compares the
// outcome with the reference decoder. It returns whether the document was accepted.
func checkUnmarshal(t *T, n *Node, rv reflect.Value) bool {
	want := deepCopy(rv)
	old := &pieces{}
	if !rv.IsZero() {
		old.pair(want, rv)
	}
	m := &decModel{}
	werr := m.decode(n, want)
	doc := n.Bytes()
	err := unmarshal(doc, rv.Addr().Interface())
	mustNotPanic(t, "Unmarshal", err)
	if m.unspec != "" {
		t.Label("unspecified: " + m.unspec)
		return false
	}
	if werr != nil {
		if err == nil {
			t.Failf("Unmarshal(%s, *%s) succeeded with %s, the model says it must fail: %v", n, typeName(rv.Type()), clip([]byte(show(rv))), werr)
		}
		t.Label("error")
		return false
	}
	if err != nil {
		t.Failf("Unmarshal(%s, *%s) failed: %v; want %s", n, typeName(rv.Type()), err, clip([]byte(show(want))))
	}
	if d := diff(want, rv); d != "" {
		t.Failf("Unmarshal(%s, *%s): %s", n, typeName(rv.Type()), d)
	}
	// what the destination referred to before may have been filled or left alone, also when it is not reached any more
	for i := range old.want {
		if d := diff(old.want[i], old.got[i]); d != "" {
			t.Failf("Unmarshal(%s, *%s) with the old contents at %s: %s", n, typeName(rv.Type()), old.path[i], d)
		}
	}
	return true
}

// pieces are the pointer targets, maps and slices that are reached from a value and, in parallel, from its copy.
type pieces struct {
	want, got []reflect.Value
	path      []string
	seen      map[memKey]bool
	shared    bool
}

func (p *pieces) pair(want, got reflect.Value) {
	p.seen = map[memKey]bool{}
	p.walk(want, got, "$")
	if p.shared { // the copy does not share
		*p = pieces{}
	}
}

func (p *pieces) add(want, got reflect.Value, path string, k memKey) bool {
	if p.seen[k] {
		p.shared = true
		return false
	}
	p.seen[k] = true
	p.want, p.got, p.path = append(p.want, want), append(p.got, got), append(p.path, path)
	return true
}

func (p *pieces) walk(want, got reflect.Value, path string) {
	switch got.Kind() {
	case reflect.Pointer:
		if !got.IsNil() && got.Type().Elem().Size() > 0 && p.add(want.Elem(), got.Elem(), path+".*", memKey{got.Type(), got.UnsafePointer(), 0}) {
			p.walk(want.Elem(), got.Elem(), path+".*")
		}
	case reflect.Interface:
		if !got.IsNil() {
			p.walk(want.Elem(), got.Elem(), path+".()")
		}
	case reflect.Struct:
		for i := range got.NumField() {
			if got.Type().Field(i).IsExported() {
				p.walk(want.Field(i), got.Field(i), path+"."+got.Type().Field(i).Name)
			}
		}
	case reflect.Array:
		if isScalarKind(got.Type().Elem().Kind()) {
			return
		}
		for i := range got.Len() {
			p.walk(want.Index(i), got.Index(i), path+"[]")
		}
	case reflect.Slice:
		if got.Len() == 0 || got.Type().Elem().Size() == 0 {
			return
		}
		want, got = frozen(want), frozen(got)
		if !p.add(want, got, path, memKey{got.Type(), got.UnsafePointer(), got.Len()}) || isScalarKind(got.Type().Elem().Kind()) {
			return
		}
		for i := range got.Len() {
			p.walk(want.Index(i), got.Index(i), path+"[]")
		}
	case reflect.Map:
		if got.IsNil() {
			return
		}
		want, got = frozen(want), frozen(got)
		if !p.add(want, got, path, memKey{got.Type(), got.UnsafePointer(), 0}) {
			return
		}
		for it := got.MapRange(); it.Next(); {
			if w := want.MapIndex(it.Key()); w.IsValid() {
				p.walk(w, it.Value(), path+"[]")
			}
		}
	}
}

// frozen is the value without the variable that holds it.
func frozen(rv reflect.Value) reflect.Value {
	v := reflect.New(rv.Type()).Elem()
	v.Set(rv)
	return v
}

func isScalarKind(k reflect.Kind) bool { return k <= reflect.Complex128 || k == reflect.String }

func docLabels(t *T, g *DocGen) {
	if g.nulls > 0 {
		t.Label("has null")
	}
	if g.unknown > 0 {
		t.Label("has unknown entries")
	}
	if g.sparse > 0 {
		t.Label("has sparse or shuffled list")
	}
	if g.objects > 0 {
		t.Label("has object")
	}
	if g.mis {
		t.Label("has misfit")
	}
	if g.oor {
		t.Label("has out of range number")
	}
}

func newOf(rt reflect.Type) reflect.Value { return reflect.New(rt).Elem() }

func structOf(fs ...reflect.StructField) reflect.Type { return reflect.StructOf(fs) }

func field(name string, rt reflect.Type, tag string) reflect.StructField {
	f := reflect.StructField{Name: name, Type: rt}
	if tag != "" {
		f.Tag = reflect.StructTag(tag)
	}
	return f
}

// firstDiff shows where two byte strings part.
func firstDiff(want, got []byte) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	return fmt.Sprintf("at offset %d want %s, got %s", i, clip(want[max(0, i-12):]), clip(got[min(len(got), max(0, i-12)):]))
}
