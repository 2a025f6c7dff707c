package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"reflect"
	"regexp"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// ---- C10: arbitrary bytes into arbitrary destinations ----

var soup = []string{"N;", "b:1;", "b:0;", "i:0;", "i:1;", "i:-1;", `s:1:"a";`, `s:0:"";`, "d:1.5;", "a:0:{}", "a:1:{", "a:2:{", `O:1:"A":1:{`, `O:0:"":0:{}`, "}", "{", ":", ";", `"`,
	"a:", "s:", "i:", "d:", "b:", "O:", "N", "a", "s", "O", "i", "d", "b", "-", "0", "1", "9", "a:1:{i:0;", `a:1:{s:1:"a";`, "s:5:\"", "s:-1:\"\";", "a:-1:{}",
	"9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809", "99999999999999999999999",
	"a:9223372036854775807:{", `s:9223372036854775807:"a";`, `s:9223372036854775806:"`, `O:9223372036854775807:"A":1:{`, "i:9223372036854775807;", "i:-9223372036854775808;",
	"4294967296", "4294967295", "2147483648", "65536", "00", "+1", "1e5", "r:1;", "R:1;", "C:1:\"A\":0:{}", `E:3:"A:B";`, "S:1:\"a\";", "x:1;", "d:;", "d:NAN;", "d:INF;", "d:-INF;", "i:;", "i:-;",
	"\x00", " ", "\n", "\xff", "[", "]", "\\", "'", "null", "true"}

func drawSoup(t *T) []byte {
	var b []byte
	for n := t.Int(0, 14); n > 0; n-- {
		b = append(b, pick(t, soup)...)
	}
	return b
}

var numRe = regexp.MustCompile(`-?[0-9]+`)
var idxRe = regexp.MustCompile(`i:[0-9]{6,11};?`)

// tame replaces indices that a slice could really be grown to: the memory that takes is
// documented behaviour and would only measure the machine.
func tame(b []byte) []byte {
	for {
		c := idxRe.ReplaceAllFunc(b, func(m []byte) []byte {
			v, err := strconv.ParseUint(strings.Trim(string(m), "i:;"), 10, 64)
			if err == nil && v > 100000 && v < 1<<31 {
				return []byte(strings.Replace(string(m), strconv.FormatUint(v, 10), "99", 1))
			}
			return m
		})
		if bytes.Equal(b, c) {
			return c
		}
		b = c
	}
}

// damage applies one random edit.
func damage(t *T, b []byte) []byte {
	b = append([]byte(nil), b...)
	at := func(n int) int { return t.N(max(1, n)) }
	if len(b) == 0 {
		return drawSoup(t)
	}
	switch t.N(12) {
	case 0: // delete a byte
		i := at(len(b))
		return append(b[:i], b[i+1:]...)
	case 1: // insert a syntax byte
		i := at(len(b) + 1)
		return append(b[:i], append([]byte{pick(t, []byte(`:;"{}aisdbON0123456789-+. `))}, b[i:]...)...)
	case 2: // replace a byte
		b[at(len(b))] = pick(t, []byte(":;\"{}aisdbONrRCSE0123456789-+.e \x00\xff"))
		return b
	case 3: // truncate
		return b[:at(len(b))]
	case 4: // a number becomes another number
		loc := numRe.FindAllIndex(b, -1)
		if len(loc) == 0 {
			return b[:len(b)-1]
		}
		l := pick(t, loc)
		v, _ := strconv.ParseInt(string(b[l[0]:l[1]]), 10, 64)
		var s string
		switch t.N(4) {
		case 0:
			s = strconv.FormatInt(v+int64(t.Int(1, 3)), 10)
		case 1:
			s = strconv.FormatInt(v-int64(t.Int(1, 3)), 10)
		case 2:
			s = pick(t, []string{"9223372036854775807", "9223372036854775806", "9223372036854775808", "18446744073709551615", "18446744073709551616", "-1", "-0", "", "00", "4294967296", "2147483648", "99999999999999999999", "-9223372036854775808", "0x10", "1.5", "1e3", "+1", " 1"})
		default:
			s = "0" + string(b[l[0]:l[1]])
		}
		return append(append(append([]byte(nil), b[:l[0]]...), s...), b[l[1]:]...)
	case 5: // duplicate a range
		i := at(len(b))
		j := i + t.Int(1, min(20, len(b)-i))
		return append(append(append([]byte(nil), b[:j]...), b[i:j]...), b[j:]...)
	case 6: // remove a range
		i := at(len(b))
		j := i + t.Int(1, min(20, len(b)-i))
		return append(b[:i], b[j:]...)
	case 7: // swap neighbours
		if len(b) > 1 {
			i := at(len(b) - 1)
			b[i], b[i+1] = b[i+1], b[i]
		}
		return b
	case 8: // insert a token
		i := at(len(b) + 1)
		return append(append(append([]byte(nil), b[:i]...), pick(t, soup)...), b[i:]...)
	case 9: // flip a bit
		b[at(len(b))] ^= 1 << t.N(8)
		return b
	case 10: // drop one occurrence of a syntax byte
		c := pick(t, []byte(`:;"{}`))
		var pos []int
		for i, x := range b {
			if x == c {
				pos = append(pos, i)
			}
		}
		if len(pos) == 0 {
			return b[:len(b)-1]
		}
		i := pick(t, pos)
		return append(b[:i], b[i+1:]...)
	default: // append
		return append(b, pick(t, soup)...)
	}
}

func damaged(t *T, b []byte) []byte {
	for n := t.Int(1, 3); n > 0; n-- {
		b = damage(t, b)
	}
	return b
}

// destinations that are unusual, unsupported or deeply indirect
type nonEmptyI interface{ Foo() }
type EmbIface struct {
	fmt.Stringer
	A int
}
type weirdRec struct {
	M map[string]any
	S []*weirdRec
	F func()       `php:"f"`
	C chan int     `php:"c"`
	X complex128   `php:"x"`
	E error        `php:"e"`
	U uintptr      `php:"u"`
	B [4]byte      `php:"b"`
	P **int        `php:"p"`
	Q ***weirdRec  `php:"q"`
	R UnmRec       `php:"r"`
	Z [0]int       `php:"z"`
	Y struct{}     `php:"y"`
	V [3]UnmStr    `php:"v"`
	I nonEmptyI    `php:"i"`
	K map[MyU8]any `php:"k"`
}

var weirdTypes = []reflect.Type{
	typeOf[weirdRec](), typeOf[**int](), typeOf[***string](), typeOf[*any](), typeOf[**any](), typeOf[chan int](), typeOf[func()](), typeOf[complex64](),
	typeOf[complex128](), typeOf[error](), typeOf[nonEmptyI](), typeOf[EmbIface](), typeOf[uintptr](), typeOf[[0]int](), typeOf[struct{}](), typeOf[[]struct{}](),
	typeOf[map[string]struct{}](), typeOf[map[any]any](), typeOf[map[any]string](), typeOf[map[*int]int](), typeOf[map[float64]int](), typeOf[map[bool]int](),
	typeOf[map[[2]int]int](), typeOf[map[struct{ A int }]int](), typeOf[map[error]int](), typeOf[map[UnmKey]int](), typeOf[map[string]**int](), typeOf[[]**int](),
	typeOf[[]chan int](), typeOf[map[string]func()](), typeOf[[]error](), typeOf[*error](), typeOf[[]unmarshalerI](), typeOf[map[string]unmarshalerI](),
	typeOf[[]UnmRec](), typeOf[[3]any](), typeOf[[]any](), typeOf[[][][]any](), typeOf[map[string]any](), typeOf[[2][2]int8](), typeOf[[1 << 12]byte](),
	typeOf[[]float32](), typeOf[[]bool](), typeOf[[]string](), typeOf[[]uint8](), typeOf[[]MyU8](), typeOf[[]int8](), typeOf[map[int8]uint8](), typeOf[map[uint64]float32](),
	typeOf[any](), typeOf[any](), typeOf[any](), typeOf[reflect.Value](), typeOf[map[complex64]int](), typeOf[[]map[int]map[string][]any](), typeOf[MarStr](), typeOf[Both](), typeOf[[]Both](),
	typeOf[unmarshalerI](), typeOf[heldRec](), typeOf[heldRec](), typeOf[[2]heldRec](), typeOf[[3]unmarshalerI](),
}

// heldRec has interfaces that can hold an Unmarshaler before the call.
type heldRec struct {
	A unmarshalerI
	B int             `php:"b"`
	C [2]unmarshalerI `php:"c"`
	D struct{ E unmarshalerI }
	F string       `php:"f"`
	G unmarshalerI `php:"g"`
}

// holding is a new value in which such interfaces do hold one.
func holding(rt reflect.Type) reflect.Value {
	rv := newOf(rt)
	hold(rv)
	return rv
}

func hold(rv reflect.Value) {
	switch rv.Kind() {
	case reflect.Interface:
		if rv.NumMethod() > 0 && rv.CanSet() && typeOf[*UnmRec]().Implements(rv.Type()) {
			rv.Set(reflect.ValueOf(&UnmRec{}))
		}
	case reflect.Array:
		for i := range min(rv.Len(), 8) {
			hold(rv.Index(i))
		}
	case reflect.Struct:
		for i := range rv.NumField() {
			hold(rv.Field(i))
		}
	}
}

func robustType(t *T) reflect.Type {
	switch t.N(4) {
	case 0:
		return pick(t, weirdTypes)
	case 1:
		return pick(t, recursiveTypes)
	case 2:
		return pick(t, scalarTypes)
	default:
		g := &TypeGen{t: t, o: TypeOpts{Dec: true, Unm: true, Decode: true, StringTags: t.Bool()}}
		return g.Any(3)
	}
}

func safely[V any](f func() V) (v V, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, d := r.(Discard); d {
				panic(r)
			}
			ok = false
		}
	}()
	return f(), true
}

func c10(t *T) {
	rt := robustType(t)
	g := newDocGen(t)
	var b []byte
	valid := false
	switch t.N(5) {
	case 0:
		b = drawSoup(t)
	case 1:
		b = []byte(drawString(t, false, nil))
	case 2:
		b = g.For(rt, 3).Bytes()
		valid = true
	case 3:
		b = damaged(t, g.For(rt, 3).Bytes())
	default:
		b = damaged(t, g.Any(4).Bytes())
	}
	b = tame(b)
	t.Desc(func() string { return "Unmarshal(" + clip(b) + ", *" + typeName(rt) + ")" })
	checkRobust(t, rt, b)
	if !valid {
		t.NonTrivial(mix(hashBytes(b), hashStr(rt.String())))
	}
}

// checkRobust decodes the bytes into a fresh value, twice: with nothing and with plausible bytes,
// few or many, behind them in memory.
func checkRobust(t *T, rt reflect.Type, b []byte) (reflect.Value, error) {
	x, y := newOf(rt), newOf(rt)
	if t.Bool() {
		hold(x)
		hold(y)
	}
	d1 := append(make([]byte, 0, len(b)), b...)[:len(b):len(b)]
	behind := pick(t, []string{strings.Repeat(`0";}`, 64), `"`, `;`, `}`, `";`, `";}`, `;}}`, `0;`, `:{}`, "\x00", "\x00\x00"})
	d2 := append(append(make([]byte, 0, len(b)+len(behind)), b...), behind...)[: len(b) : len(b)+len(behind)]
	err1 := unmarshal(d1, x.Addr().Interface())
	mustNotPanic(t, "Unmarshal", err1)
	err2 := unmarshal(d2, y.Addr().Interface())
	mustNotPanic(t, "Unmarshal", err2)
	if !bytes.Equal(b, d1) || !bytes.Equal(b, d2) {
		t.Failf("Unmarshal changed its input")
	}
	if (err1 == nil) != (err2 == nil) {
		t.Failf("decoding the same bytes twice gave %v and %v", err1, err2)
	}
	if d := diff(x, y); d != "" {
		t.Failf("decoding the same bytes twice gave different values: %s", d)
	}
	if err1 == nil {
		t.Label("accepted")
	}
	return x, err1
}

// ---- C11: truncation and trailing data ----

func c11(t *T) {
	var rt reflect.Type
	var b []byte
	g := newDocGen(t)
	switch t.N(4) {
	case 0:
		rt = anyType
		b = g.Any(3).Bytes()
	case 1, 2:
		tg := &TypeGen{t: t, o: TypeOpts{Dec: true, Unm: true, Decode: true}}
		rt = tg.Any(3)
		b = g.For(rt, 3).Bytes()
	default: // the raw bytes go to an Unmarshaler, or are skipped
		rt = pick(t, []reflect.Type{typeOf[UnmRec](), typeOf[struct{}](), typeOf[[1]UnmStr](), typeOf[[0]int](), typeOf[struct{ A int }](), typeOf[unmarshalerI](), typeOf[heldRec]()})
		switch rt.Kind() {
		case reflect.Array:
			b = nArr(g.Any(3)).Bytes()
		case reflect.Interface:
			b = g.Any(3).Bytes()
		case reflect.Struct:
			if rt == typeOf[heldRec]() {
				b = g.For(rt, 3).Bytes()
				break
			}
			n := &Node{K: 'a'}
			n.Ent = append(n.Ent, Entry{nStr("zz"), g.Any(3)})
			b = n.Bytes()
		}
	}
	descDoc(t, nRaw(b), rt)
	v := holding(rt)
	if err := unmarshal(b, v.Addr().Interface()); err != nil {
		mustNotPanic(t, "Unmarshal", err)
		t.Discard()
	}
	reject := func(what string, c []byte) {
		w := holding(rt)
		err := unmarshal(c, w.Addr().Interface())
		mustNotPanic(t, "Unmarshal", err)
		if err == nil {
			t.Failf("%s: Unmarshal(%s, *%s) succeeded with %s", what, nRaw(c), typeName(rt), clip([]byte(show(w))))
		}
	}
	cut := func(i int) { // the rest may lie behind the slice in memory
		reject("truncated document", b[:i:i])
		reject("truncated document, the rest behind it", b[:i:min(len(b), i+t.Int(1, 4))])
		if i%2 == 0 {
			reject("truncated document, all the rest behind it", append(b, "\x00\x00\x00\x00"...)[:i])
		}
	}
	if len(b) <= 200 {
		for i := range b {
			cut(i)
		}
	} else {
		for k := 0; k < 60; k++ {
			cut(t.N(len(b)))
		}
		for i := len(b) - 12; i < len(b); i++ {
			cut(i)
		}
	}
	for k := 0; k < 6; k++ {
		var tail []byte
		switch t.N(5) {
		case 0:
			tail = []byte(pick(t, []string{";", "}", "\n", " ", "\x00", "N;", "0", "\"", "\r\n", "\t", "i:0;"}))
		case 1:
			tail = []byte{byte(t.N(256))}
		case 2:
			tail = []byte(pick(t, soup))
		case 3:
			tail = b
		default:
			tail = newDocGen(t).Any(1).Bytes()
		}
		c := append(append(make([]byte, 0, len(b)+len(tail)), b...), tail...)
		reject("trailing data", c)
		head := tail
		if len(head) == len(b) {
			continue
		}
		c = append(append(make([]byte, 0, len(b)+len(tail)), head...), b...)
		if h, err := parseStrict(head); err == nil || len(head) == 1 {
			_ = h
			reject("leading data", c)
		}
	}
	if len(b) > 6 {
		t.NonTrivial(mix(hashBytes(b), hashStr(rt.String())))
	}
}

func nRaw(b []byte) *Node { return &Node{K: 'r', Str: string(b)} }

// ---- C12: malformed documents ----

// lenient recognises a superset of the serialization format: counts of arrays and objects and
// leading zeros are not looked at.
type lenient struct {
	b        []byte
	pos      int
	boolKeys bool // maps with keys of boolean type read booleans there
}

func isLenient(b []byte, boolKeys bool) bool {
	l := &lenient{b: b, boolKeys: boolKeys}
	return l.value() && l.pos == len(b)
}

var floatGrammar = regexp.MustCompile(`^([+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?|NAN|-?INF)$`)

func (l *lenient) is(c byte) bool {
	if l.pos < len(l.b) && l.b[l.pos] == c {
		l.pos++
		return true
	}
	return false
}

func (l *lenient) digits() (string, bool) {
	s := l.pos
	for l.pos < len(l.b) && l.b[l.pos] >= '0' && l.b[l.pos] <= '9' {
		l.pos++
	}
	return string(l.b[s:l.pos]), l.pos > s
}

func (l *lenient) quoted() bool {
	if !l.is(':') {
		return false
	}
	d, ok := l.digits()
	n, err := strconv.ParseUint(d, 10, 62)
	if !ok || err != nil || !l.is(':') || !l.is('"') || n > uint64(len(l.b)-l.pos) {
		return false
	}
	l.pos += int(n)
	return l.is('"')
}

func (l *lenient) value() bool {
	if l.pos >= len(l.b) {
		return false
	}
	c := l.b[l.pos]
	l.pos++
	switch c {
	case 'N':
		return l.is(';')
	case 'b':
		return l.is(':') && (l.is('0') || l.is('1')) && l.is(';')
	case 'i':
		if !l.is(':') {
			return false
		}
		l.is('-')
		_, ok := l.digits()
		return ok && l.is(';')
	case 'd':
		if !l.is(':') {
			return false
		}
		s := l.pos
		for l.pos < len(l.b) && l.b[l.pos] != ';' {
			l.pos++
		}
		return floatGrammar.Match(l.b[s:l.pos]) && l.is(';')
	case 's':
		return l.quoted() && l.is(';')
	case 'O', 'a':
		if c == 'O' && !l.quoted() {
			return false
		}
		if !l.is(':') {
			return false
		}
		if _, ok := l.digits(); !ok || !l.is(':') || !l.is('{') {
			return false
		}
		for !l.is('}') {
			if !l.key() || !l.value() {
				return false
			}
		}
		return true
	}
	return false
}

func (l *lenient) key() bool {
	if l.pos < len(l.b) && (l.b[l.pos] == 'i' || l.b[l.pos] == 's' || l.boolKeys && l.b[l.pos] == 'b') {
		return l.value()
	}
	return false
}

func dupKeys(n *Node) bool {
	seen := map[string]bool{}
	for _, e := range n.Ent {
		k := string(e.Key.Bytes())
		if seen[k] || dupKeys(e.Val) {
			return true
		}
		seen[k] = true
	}
	return false
}

var malformed = []string{`s:2:"a";`, `s:0:"a";`, `s:1:"";`, `s:1:a;`, `s:1:'a';`, `s:1:"a"`, `s:1"a";`, `s:"a";`, `s::"a";`, `s:-1:"a";`, `s:1:"a":`, `s:1:"a;`, `s:1:a";`, `s:18446744073709551617:"a";`,
	`s:9223372036854775807:"a";`, `S:1:"a";`, `s1:"a";`, `s:1;"a";`, `s:1x:"a";`, `s: 1:"a";`, `s:+1:"a";`,
	`i:;`, `i:-;`, `i:+1;`, `i:1.5;`, `i:1`, `i1;`, `i:1:`, `i:0x1;`, `i: 1;`, `i:1 ;`, `i:--1;`, `i:1-;`, `i:1e3;`, `i:"1";`, `i;1;`, `I:1;`,
	`b:2;`, `b:;`, `b:true;`, `b:10;`, `b:-1;`, `b1;`, `b:1`, `b:1:`, `b;1;`, `b: ;`, `d:;`, `d1.5;`, `d;1.5;`, `d:1.5`, `D:1.5;`, `d:abc;`, `d:0x10p1;`, `d:0x1;`, `d:1_0;`, `d:inf;`, `d:Inf;`, `d:+INF;`, `d:infinity;`, `d:nan;`, `d:NaN;`, `d:-NAN;`, `d:.;`, `d:-;`, `d:+;`, `d:1e;`, `d:1e+;`, `d:e5;`, `d:1.5.5;`, `d:1e5e5;`, `d:1e5.5;`, `d: 1;`, `d:1 ;`, `d:1,5;`, `d:--1;`, `d:1-;`, `d:"1";`, `d:INFx;`, `d:1f;`, `N`, `N:`, `NN;`, `n;`, `NULL;`, `null`, ``,
	`a:1:{i:0;i:1;`, `a:1:{i:0;}`, `a:1:{i:0;i:1;i:2;}`, `a:1{i:0;i:1;}`, `a:1:i:0;i:1;}`, `a:1:(i:0;i:1;)`, `a:1:{i:0;i:1;}}`, `a:1:[i:0;i:1;]`, `a::{i:0;i:1;}`, `a:-1:{}`, `a:x:{}`, `a:0:{`, `a:0:}`, `a:0:`, `a:0`, `a:`, `a`,
	`a:0:{};`, `A:0:{}`, `a;0:{}`, `a:0;{}`, `a:1:{i:0,i:1;}`, `a:1:{0;i:1;}`, `a:1:{i:0:i:1;}`, `a:1:{i:0;i:1}`,
	`a:1:{N;i:1;}`, `a:1:{b:1;i:1;}`, `a:1:{d:1;i:1;}`, `a:1:{a:0:{}i:1;}`, `a:1:{O:1:"A":0:{}i:1;}`, `O:1:"A":1:{N;i:1;}`, `O:1:"A":1:{d:0;i:1;}`, `a:2:{i:0;i:1;N;i:1;}`, `a:2:{s:1:"a";i:1;a:0:{}i:1;}`,
	`O:1:"A":1:{s:1:"a";i:1;`, `O:1:"A":0:{`, `O:1:"A:0:{}`, `O:1:A:0:{}`, `O:2:"A":0:{}`, `O:0:"A":0:{}`, `O:"A":0:{}`, `O:1:"A"0:{}`, `O:1:"A":{}`, `O:1:"A":0{}`, `O:1:"A";0:{}`, `O:-1:"A":0:{}`, `O:1:"A":0:{};`,
	`o:1:"A":0:{}`, `O:9223372036854775807:"A":0:{}`, `C:1:"A":1:{a}`, `r:1;`, `R:1;`, `E:3:"A:B";`, `i:1;i:2;`, `"a"`, `1`, `{}`, `[]`, ` i:1;`, `i:1; `, "i:1;\n", `}`, `;`, `:`}

func c12(t *T) {
	var rt reflect.Type
	g := newDocGen(t)
	var n *Node
	if t.Chance(1, 3) {
		rt = anyType
		n = g.Any(3)
	} else if t.Chance(1, 10) {
		rt = typeOf[heldRec]()
		n = g.For(rt, 3)
	} else {
		tg := &TypeGen{t: t, o: TypeOpts{Dec: true, Unm: true, Decode: true}}
		rt = tg.Any(3)
		n = g.For(rt, 3)
	}
	var b []byte
	if t.Bool() { // a malformed value somewhere
		m := pick(t, malformed)
		*pick(t, valuesOf(n)) = Node{K: 'r', Str: m}
		b = n.Bytes()
	} else {
		b = damaged(t, n.Bytes())
	}
	b = tame(b)
	checkMalformed(t, rt, b)
}

func checkMalformed(t *T, rt reflect.Type, b []byte) {
	descDoc(t, nRaw(b), rt)
	s, serr := parseStrict(b)
	for i, rt := range []reflect.Type{rt, anyType, typeOf[UnmRec](), typeOf[unmarshalerI](), typeOf[struct{}](), typeOf[map[string]any](), typeOf[[]any]()} {
		ok := isLenient(b, i == 0)
		v := holding(rt)
		err := unmarshal(b, v.Addr().Interface())
		mustNotPanic(t, "Unmarshal", err)
		switch {
		case !ok && err == nil:
			t.Failf("malformed document %s was accepted into *%s as %s", nRaw(b), typeName(rt), clip([]byte(show(v))))
		case !ok:
			t.NonTrivial(mix(hashBytes(b), hashStr(rt.String())))
		case serr == nil && !dupKeys(s):
			t.Label("still well formed")
			checkUnmarshal(t, s, holding(rt))
		default:
			t.Label("lenient zone, nothing concluded")
			return
		}
	}
}

// c12Counts: where a value is skipped or handed to a custom Unmarshaler, the declared numbers of
// entries must be right.
func c12Counts(t *T) {
	n := newDocGen(t).Any(4)
	if t.Chance(1, 20) {
		n = nArr()
		if t.Chance(1, 3) {
			n = &Node{K: 'O', Str: "Big"}
		}
		size := 1<<t.Int(6, 14) + t.Int(-2, 2)
		e := nInt(1)
		for i := range size {
			n.Ent = append(n.Ent, Entry{nInt(int64(i)), e})
		}
	}
	var arrs []*Node
	for _, v := range valuesOf(n) {
		if v.K == 'a' || v.K == 'O' {
			arrs = append(arrs, v)
		}
	}
	if len(arrs) == 0 {
		n = nArr(n)
		arrs = append(arrs, n)
	}
	a := pick(t, arrs)
	c := int64(len(a.Ent))
	switch t.N(4) {
	case 0:
		c += int64(t.Int(1, 3))
	case 1:
		c -= int64(t.Int(1, 3))
	case 2:
		c = pick(t, []int64{1 << 8, 1 << 16, 1 << 31, 1 << 32, math.MaxInt64})
		c += int64(len(a.Ent)) // wraps around to the right number in a narrow integer
	default:
		c = int64(t.N(20))
	}
	if c < 0 || c == int64(len(a.Ent)) {
		t.Label("unchanged")
		return
	}
	head := "a"
	if a.K == 'O' {
		head = fmt.Sprintf("O:%d:%q", len(a.Str), "") // the name follows
		head = head[:len(head)-1] + a.Str + `"`
	}
	body := a.Bytes()
	body = body[len(head)+1:]
	body = body[bytes.IndexByte(body, ':'):]
	*a = *nRaw([]byte(fmt.Sprintf("%s:%d%s", head, c, body)))
	b := string(n.Bytes())
	rt := pick(t, []reflect.Type{structOf(field("A", typeOf[int](), "")), typeOf[[0]int](), typeOf[[2]any](), typeOf[UnmRec](), typeOf[map[string]UnmStr](), typeOf[[]*UnmRec]()})
	switch rt.Kind() {
	case reflect.Struct:
		if !reflect.PointerTo(rt).Implements(unmarshalerIface) {
			b = `a:2:{s:1:"B";` + b + `s:1:"A";i:1;}`
		}
	case reflect.Array:
		b = fmt.Sprintf(`a:1:{i:%d;%s}`, 2+t.N(5), b)
	case reflect.Map:
		b = `a:1:{s:1:"B";` + b + `}`
	case reflect.Slice:
		b = `a:1:{i:0;` + b + `}`
	}
	descDoc(t, nRaw([]byte(b)), rt)
	v := newOf(rt)
	err := unmarshal([]byte(b), v.Addr().Interface())
	mustNotPanic(t, "Unmarshal", err)
	if err == nil {
		t.Failf("a skipped array with the wrong number of entries was accepted into *%s as %s", typeName(rt), clip([]byte(show(v))))
	}
	t.NonTrivial(mix(hashStr(b), hashStr(rt.String())))
}

// c12Places puts every malformed text at every kind of place.
func c12Places(t *T) {
	m := pick(t, malformed)
	type place struct {
		pre, post string
		rt        reflect.Type
	}
	var rts = []reflect.Type{anyType, typeOf[int](), typeOf[string](), typeOf[bool](), typeOf[float64](), bytesType, typeOf[[]int](), typeOf[map[string]string](), typeOf[map[int]any](),
		typeOf[[2]int](), typeOf[MyStruct](), typeOf[UnmRec](), typeOf[UnmStr](), typeOf[*int](), typeOf[*MyStruct](), typeOf[uint8](), typeOf[float32](), typeOf[any](), typeOf[[]any](), typeOf[*[]string]()}
	rt := pick(t, rts)
	var p place
	switch t.N(9) {
	case 0:
		p = place{"", "", rt}
	case 1:
		p = place{`a:1:{i:0;`, `}`, reflect.SliceOf(rt)}
	case 2:
		p = place{`a:1:{i:0;`, `}`, reflect.ArrayOf(1, rt)}
	case 3:
		p = place{`a:1:{s:1:"k";`, `}`, reflect.MapOf(typeOf[string](), rt)}
	case 4:
		p = place{`O:1:"C":1:{s:1:"A";`, `}`, structOf(field("A", rt, ""))}
	case 5: // unknown key
		p = place{`a:1:{s:1:"k";`, `}`, structOf(field("A", rt, ""))}
	case 6: // past the end of an array
		p = place{`a:1:{i:7;`, `}`, reflect.ArrayOf(1, rt)}
	case 7: // as a key
		p = place{`a:1:{`, `i:1;}`, reflect.MapOf(pick(t, []reflect.Type{typeOf[string](), typeOf[int](), anyType}), anyType)}
	default: // before other entries
		p = place{`a:2:{s:1:"k";`, `s:1:"l";i:1;}`, reflect.MapOf(typeOf[string](), anyType)}
	}
	checkMalformed(t, p.rt, []byte(p.pre+m+p.post))
}

// ---- C13: nesting ----

type nestDest struct {
	name string
	rt   reflect.Type
	// the text of one level and the levels of nesting it makes
	open  []string
	shut  []string
	lv    int
	depth func(reflect.Value) int // levels found in the result, nil: not looked at
}

func anyDepth(v reflect.Value) int {
	d := 0
	x := v.Interface()
	for {
		switch m := x.(type) {
		case map[any]any:
			d++
			x = nil
			for _, e := range m {
				x = e
			}
		case map[string]any:
			d++
			x = nil
			for _, e := range m {
				x = e
			}
		default:
			if x != any(int64(7)) {
				return -1
			}
			return d
		}
	}
}

var lvList, lvMap, lvObj = `a:1:{i:0;`, `a:1:{s:1:"k";`, `O:1:"C":1:{s:1:"k";`

var nestDests = []nestDest{
	{"any", anyType, []string{lvList, lvMap, lvObj}, nil, 1, anyDepth},
	{"any objects", anyType, []string{lvObj}, nil, 1, anyDepth},
	{"any lists", anyType, []string{lvList}, nil, 1, anyDepth},
	{"map[string]any", typeOf[map[string]any](), []string{lvMap, lvObj}, nil, 1, func(v reflect.Value) int { return anyDepth(reflect.ValueOf(v.Interface())) }},
	{"RecS", typeOf[RecS](), []string{lvList}, nil, 1, func(v reflect.Value) int {
		d := 0
		for s := v.Interface().(RecS); len(s) > 0; s = s[0] {
			d++
		}
		return d
	}},
	{"RecM", typeOf[RecM](), []string{lvMap, lvObj}, nil, 1, func(v reflect.Value) int {
		d := 0
		for m := v.Interface().(RecM); len(m) > 0; m = m["k"] {
			d++
		}
		return d
	}},
	{"RecPS", typeOf[RecPS](), []string{lvList}, nil, 1, nil},
	{"RecPM", typeOf[RecPM](), []string{lvMap, lvObj}, nil, 1, nil},
	{"RecPA", typeOf[RecPA](), []string{lvList}, nil, 1, nil},
	{"RecPA3", typeOf[RecPA3](), []string{lvList, `a:1:{i:1;`, `a:1:{i:2;`, `a:2:{i:5;N;i:2;`}, nil, 1, nil},
	{"RecPA7", typeOf[RecPA7](), []string{lvList, `a:1:{i:6;`, `a:1:{i:3;`}, nil, 1, nil},
	{"RecSA3", typeOf[RecSA3](), []string{`a:1:{i:2;a:1:{i:0;`, `a:1:{i:0;a:1:{i:0;`}, []string{"}}"}, 2, nil},
	{"RecMA", typeOf[RecMA](), []string{`a:1:{s:1:"k";a:1:{i:1;`}, []string{"}}"}, 2, nil},
	{"RecSA", typeOf[RecSA](), []string{`a:1:{i:0;a:1:{i:1;`}, []string{"}}"}, 2, nil},
	{"RecList", typeOf[RecList](), []string{`a:1:{s:4:"next";`, `O:7:"RecList":1:{s:4:"next";`, `a:2:{s:1:"V";i:3;s:4:"next";`}, nil, 1, func(v reflect.Value) int {
		d := 0
		l := v.Interface().(RecList)
		for p := &l; p != nil; p = p.Next {
			d++
		}
		return d
	}},
	{"RecTree", typeOf[RecTree](), []string{`a:1:{s:4:"kids";a:1:{i:0;`}, []string{"}}"}, 2, nil},
	{"RecTreeV", typeOf[RecTreeV](), []string{`a:1:{s:4:"Kids";a:1:{i:0;`}, []string{"}}"}, 2, nil},
	{"RecMapT", typeOf[RecMapT](), []string{`a:1:{s:1:"m";a:1:{s:1:"x";`, `a:1:{s:1:"p";a:1:{i:3;`}, []string{"}}"}, 2, nil},
	{"RecArr", typeOf[RecArr](), []string{`a:1:{s:1:"A";a:1:{i:1;`}, []string{"}}"}, 2, nil},
	{"skipped", typeOf[struct{ A int }](), []string{lvList, lvMap, lvObj}, nil, 1, nil},
	{"skipped array", typeOf[[0]int](), []string{lvList, lvMap, lvObj}, nil, 1, nil},
	{"unmarshaler", typeOf[UnmRec](), []string{lvList, lvMap, lvObj}, nil, 1, nil},
	{"unmarshaler field", typeOf[struct {
		K UnmRec `php:"k"`
	}](), []string{lvList, lvMap, lvObj}, nil, 1, nil},
	{"mixed", typeOf[struct {
		K []map[string]any `php:"k"`
	}](), []string{lvMap}, nil, 1, nil},
}

const nestLimit = 10000

func c13(t *T) {
	nd := pick(t, nestDests)
	var depth int
	switch t.W(3, 4, 3, 2) {
	case 0:
		depth = t.Int(1, nestLimit-10)
	case 1:
		depth = nestLimit - t.Int(0, 4)
	case 2:
		depth = nestLimit + 1 + t.Int(0, 4)
	default:
		depth = nestLimit + 10 + t.Int(0, 1<<t.Int(10, 18))
	}
	n := depth / nd.lv
	depth = n * nd.lv
	if n == 0 {
		t.Discard()
	}
	leaf := "i:7;"
	switch nd.name {
	case "any", "any objects", "any lists", "map[string]any", "skipped", "skipped array", "unmarshaler", "unmarshaler field", "mixed":
	default:
		leaf = "N;"
	}
	first := ""
	switch nd.name { // the outer level is given by the type
	case "skipped", "unmarshaler field":
		first = lvMap
	case "skipped array":
		first = lvList
	case "mixed":
		first = `a:1:{s:1:"k";a:1:{i:0;`
	}
	var b []byte
	b = append(b, first...)
	var tail []byte
	for range strings.Count(first, "{") {
		tail = append(tail, '}')
	}
	runs := t.Int(1, 4)
	for r := 0; r < runs; r++ { // runs of one kind of level
		lv := pick(t, nd.open)
		c := n/runs + 1
		for ; c > 0 && n > 0; c-- {
			b = append(b, lv...)
			n--
			for range strings.Count(lv, "{") {
				tail = append(tail, '}')
			}
		}
	}
	for n > 0 {
		lv := nd.open[0]
		b = append(b, lv...)
		n--
		for range strings.Count(lv, "{") {
			tail = append(tail, '}')
		}
	}
	b = append(append(b, leaf...), tail...)
	depth += strings.Count(first, "{")
	t.Desc(func() string { return fmt.Sprintf("%d levels of nesting into %s: %s", depth, nd.name, clip(b)) })
	t.NonTrivial(mix(hashBytes(b), hashStr(nd.name)))
	v := newOf(nd.rt)
	err := unmarshal(b, v.Addr().Interface())
	mustNotPanic(t, "Unmarshal", err)
	switch {
	case depth <= nestLimit:
		t.Label("within the limit")
		if err != nil {
			t.Failf("%d levels of nesting into %s failed: %v", depth, nd.name, err)
		}
		if nd.depth != nil {
			want := depth
			if got := nd.depth(v); got != want {
				t.Failf("%d levels of nesting into %s gave %d levels", want, nd.name, got)
			}
		}
	case depth > nestLimit:
		t.Label("beyond the limit")
		if err == nil {
			t.Failf("%d levels of nesting into %s were accepted", depth, nd.name)
		}
	}
}

type nestStep struct {
	open string
	lv   int
}

// steps from inside a NestMix to inside another one
var nestInner = []nestStep{
	{`s:1:"s";a:1:{i:0;a:1:{`, 2}, {`s:1:"s";a:1:{i:3;O:1:"Q":1:{`, 2}, {`s:1:"m";a:1:{s:1:"k";a:1:{`, 2}, {`s:1:"m";O:1:"C":1:{s:1:"k";O:2:"CD":1:{`, 2},
	{`s:1:"n";a:1:{i:-3;a:1:{`, 2}, {`s:1:"p";a:1:{`, 1}, {`s:1:"p";O:1:"C":1:{`, 1}, {`s:1:"a";a:1:{i:0;a:1:{`, 2}, {`s:1:"b";a:1:{i:0;a:1:{`, 2},
	{`s:1:"w";a:1:{i:1;a:1:{i:0;a:1:{`, 3}, {`s:1:"e";a:1:{i:2;a:1:{`, 2}, {`s:1:"h";a:1:{i:4;a:1:{`, 2}, {`s:1:"j";a:1:{i:1;a:1:{i:0;a:1:{`, 3},
}

// steps from inside a NestMix to a place that takes any value
var nestSinks = []nestStep{
	{`s:1:"i";`, 0}, {`s:1:"f";a:1:{s:1:"x";`, 1}, {`s:1:"g";a:1:{i:0;`, 1}, {`s:1:"k";a:1:{i:5;`, 1}, {`s:1:"k";a:1:{s:2:"kk";`, 1},
	{`s:1:"z";`, 0}, {`s:4:"none";`, 0}, {`s:1:"a";a:1:{i:1;`, 1}, {`s:1:"a";a:1:{i:7;`, 1},
	{`s:1:"l";a:1:{s:1:"k";a:1:{i:0;`, 2}, {`s:1:"q";a:1:{i:3;`, 1}, {`s:1:"q";a:1:{i:4;`, 1}, {`s:1:"e";a:1:{i:3;`, 1}, {`s:1:"r";a:1:{i:2;`, 1}, {`s:1:"h";a:1:{i:6;`, 1},
	{`s:1:"u";`, 0}, {`s:1:"v";`, 0}, {`s:1:"x";a:1:{i:0;`, 1}, {`s:1:"y";a:1:{s:1:"q";`, 1},
}

// the innermost levels of a document that stays inside NestMix
var nestEnds = []string{`s:1:"s";a:0:{}`, `s:1:"s";a:1:{i:2;N;}`, `s:1:"m";a:0:{}`, `s:1:"m";O:1:"A":0:{}`, `s:1:"n";a:0:{}`, `s:1:"p";a:0:{}`, `s:1:"p";O:1:"p":0:{}`, `s:1:"p";a:1:{s:1:"d";i:3;}`,
	`s:1:"a";a:0:{}`, `s:1:"a";a:1:{i:0;N;}`, `s:1:"b";a:0:{}`, `s:1:"w";a:0:{}`, `s:1:"w";a:1:{i:0;a:0:{}}`, `s:1:"e";a:0:{}`, `s:1:"e";a:1:{i:1;N;}`, `s:1:"h";a:0:{}`, `s:1:"h";a:1:{i:4;N;}`,
	`s:1:"j";a:0:{}`, `s:1:"j";a:1:{i:1;a:0:{}}`, `s:1:"l";a:0:{}`, `s:1:"l";a:1:{s:1:"x";a:0:{}}`, `s:1:"q";a:0:{}`, `s:1:"f";a:0:{}`, `s:1:"g";a:0:{}`, `s:1:"k";a:0:{}`, `s:1:"i";a:0:{}`,
	`s:1:"r";a:0:{}`, `s:1:"x";a:0:{}`, `s:1:"y";a:0:{}`, `s:1:"z";a:0:{}`, `s:1:"u";a:0:{}`, `s:1:"d";i:5;`,
	// null is not a level, whatever it is given to
	`s:1:"s";N;`, `s:1:"s";a:1:{i:1;N;}`, `s:1:"m";N;`, `s:1:"m";a:1:{s:1:"k";N;}`, `s:1:"n";N;`, `s:1:"p";N;`, `s:1:"a";N;`, `s:1:"b";N;`, `s:1:"w";N;`, `s:1:"w";a:1:{i:0;N;}`, `s:1:"i";N;`, `s:1:"f";N;`, `s:1:"g";N;`, `s:1:"k";N;`, `s:1:"u";N;`, `s:1:"v";N;`,
	`s:1:"x";N;`, `s:1:"x";a:1:{i:0;N;}`, `s:1:"y";N;`, `s:1:"y";a:1:{s:0:"";N;}`, `s:1:"d";N;`, `s:1:"e";N;`, `s:1:"h";N;`, `s:1:"j";N;`, `s:1:"j";a:1:{i:2;N;}`, `s:1:"l";N;`, `s:1:"l";a:1:{s:0:"";N;}`, `s:1:"q";N;`, `s:1:"r";N;`, `s:1:"r";a:1:{i:0;N;}`, `s:1:"z";N;`,
	`s:2:"aa";N;`, `s:2:"aa";a:0:{}`, `s:2:"aa";a:1:{i:1;i:5;}`, `s:2:"am";N;`, `s:2:"am";a:1:{i:1;N;}`, `s:2:"am";a:1:{i:0;a:0:{}}`, `s:2:"at";N;`, `s:2:"at";a:0:{}`, `s:2:"at";O:1:"a":1:{s:1:"X";i:3;}`, `s:2:"ab";N;`, `s:2:"ab";s:1:"x";`, `s:2:"ab";a:1:{i:1;i:5;}`, `s:2:"aw";N;`, `s:2:"aw";a:2:{i:0;N;i:1;a:0:{}}`}

// c13Mix: the limit is the same whatever the levels are made of.
func c13Mix(t *T) {
	var depth int
	switch t.W(4, 4, 2, 2) {
	case 0:
		depth = nestLimit - t.N(3)
	case 1:
		depth = nestLimit + 1 + t.N(3)
	case 2:
		depth = t.Int(10, nestLimit)
	default:
		depth = nestLimit + t.Int(1, 9900)
	}
	sink := pick(t, nestSinks)
	margin := pick(t, []int{0, 0, 4, 4, 4, 20})
	closed := ""
	if margin == 0 && t.Chance(2, 3) { // the innermost level is typed
		closed = pick(t, nestEnds)
		sink = nestStep{}
		margin = strings.Count(closed, "{")
	}
	typed := 0 // levels inside NestMix
	switch t.W(3, 3, 2, 2) {
	case 0:
		typed = t.Int(0, depth-6)
	case 1:
		typed = depth
	case 2:
		typed = min(t.N(20), depth-6)
	default:
		typed = depth / 2
	}
	b := []byte("a:1:{")
	lv := 1
	inner := []nestStep{pick(t, nestInner)}
	for t.Chance(2, 3) && len(inner) < 5 {
		inner = append(inner, pick(t, nestInner))
	}
	steps := 0
	for lv < typed {
		st := inner[steps%len(inner)]
		steps++
		if lv+st.lv+sink.lv+margin > depth {
			break
		}
		b = append(b, st.open...)
		lv += st.lv
	}
	leaf := "i:7;"
	if closed != "" {
		for ; lv+margin < depth; lv++ {
			b = append(b, `s:1:"p";a:1:{`...)
		}
		leaf = closed
		t.Label("typed to the end")
	}
	b = append(b, sink.open...)
	lv += sink.lv
	units := []string{lvList, lvMap, lvObj}
	u := t.N(3)
	vary := t.Chance(1, 3)
	rest := depth - lv - strings.Count(closed, "{")
	if rest > 0 && t.Chance(1, 3) { // the last level has no entries
		rest--
		leaf = pick(t, []string{"a:0:{}", `O:1:"C":0:{}`})
	}
	for i := range rest {
		if vary && i%7 == 0 {
			u = (u + 1) % 3
		}
		b = append(b, units[u]...)
	}
	opened := bytes.Count(b, []byte("{"))
	b = append(append(b, leaf...), bytes.Repeat([]byte("}"), opened)...)
	t.Desc(func() string {
		return fmt.Sprintf("%d levels (%d of them typed, then %s): %s", depth, lv, sink.open, clip(b))
	})
	t.NonTrivial(hashBytes(b))
	var v NestMix
	err := unmarshal(b, &v)
	mustNotPanic(t, "Unmarshal", err)
	switch {
	case depth <= nestLimit && err != nil:
		t.Failf("%d levels of nesting (%d of them typed, then %s) failed: %v", depth, lv, sink.open, err)
	case depth > nestLimit && err == nil:
		t.Failf("%d levels of nesting (%d of them typed, then %s) were accepted", depth, lv, sink.open)
	}
	if depth <= nestLimit {
		t.Label("within the limit")
	} else {
		t.Label("beyond the limit")
	}
}

// truncated and hostile nesting, without a well-formed end
func c13Open(t *T) {
	nd := pick(t, nestDests)
	n := t.Int(1, 1<<t.Int(1, 18))
	var b []byte
	switch nd.name {
	case "skipped", "unmarshaler field", "mixed":
		b = append(b, lvMap...)
	case "skipped array":
		b = append(b, lvList...)
	}
	unit := pick(t, nd.open)
	if t.Chance(1, 3) {
		unit = pick(t, []string{"a:1:{", `O:1:"A":1:{`, "a:1:{i:0;a:2:{i:0;N;i:1;", "a:9:{i:0;"}) // also containers as keys
	}
	b = append(b, strings.Repeat(unit, n)...)
	t.Desc(func() string { return fmt.Sprintf("%d times %q into %s", n, unit, nd.name) })
	t.NonTrivial(mix(hashBytes(b), hashStr(nd.name)))
	for _, rt := range []reflect.Type{nd.rt, anyType, typeOf[UnmRec]()} {
		v := newOf(rt)
		err := unmarshal(b, v.Addr().Interface())
		mustNotPanic(t, "Unmarshal", err)
		if err == nil {
			t.Failf("%d times %q without an end was accepted into %s", n, unit, typeName(rt))
		}
	}
}

// c13Encode: deep values are encoded.
func c13Encode(t *T) {
	var v any
	var want []byte
	rep := func(open string, n int, leaf string, shut string) []byte {
		return []byte(strings.Repeat(open, n) + leaf + strings.Repeat(shut, n))
	}
	var n int
	kind := t.N(10)
	switch kind {
	case 0:
		n = t.Int(1, 20000)
		v = int64(7)
		for range n {
			v = []any{v}
		}
		want = rep(lvList, n, "i:7;", "}")
	case 1:
		n = t.Int(1, 12000)
		v = "x"
		for range n {
			v = map[string]any{"k": v}
		}
		want = rep(lvMap, n, `s:1:"x";`, "}")
	case 2:
		n = t.Int(1, 15000)
		var l *RecList
		for range n {
			l = &RecList{7, l}
		}
		v = l
		want = rep(`a:2:{s:1:"V";i:7;s:4:"next";`, n, "N;", "}")
	case 3:
		n = t.Int(1, 20000)
		var l RecS
		for range n {
			l = RecS{l}
		}
		v = l
		want = rep(lvList, n, "N;", "}")
	case 4:
		n = t.Int(1, 12000)
		var l RecM
		for range n {
			l = RecM{"k": l}
		}
		v = l
		want = rep(lvMap, n, "N;", "}")
	case 5:
		n = t.Int(1, 12000)
		var l RecPS
		for range n {
			p := l
			l = RecPS{&p}
		}
		v = l
		want = rep(lvList, n, "N;", "}")
	case 6:
		n = t.Int(1, 12000)
		v = int64(7)
		for i := range n {
			if i%2 == 0 {
				v = &IfaceNode{v, 1}
			} else {
				v = IfaceNode{v, 1}
			}
		}
		want = rep(`a:2:{s:4:"Next";`, n, "i:7;", `s:1:"V";i:1;}`)
	case 7:
		n = t.Int(1, 15000)
		l := &RecFieldPS{}
		for range n {
			l = &RecFieldPS{P: &[]RecFieldPS{*l}}
		}
		v = l
		want = rep(`a:2:{s:1:"P";a:1:{i:0;`, n, `a:2:{s:1:"P";N;s:1:"V";b:0;}`, `}s:1:"V";b:0;}`)
	case 8:
		n = t.Int(1, 15000)
		var l RecPA
		for range n {
			p := l
			l = RecPA{&p}
		}
		v = &l
		want = rep("a:1:{i:0;", n, "a:1:{i:0;N;}", "}")
	default: // any mix
		n = t.Int(1, 15000)
		v = "x"
		var pre, post []string
		for range n {
			open, shut := lvList, "}"
			switch t.N(7) {
			case 0:
				v = []any{v}
			case 1:
				v, open = map[string]any{"k": v}, lvMap
			case 2:
				v, open, shut = &IfaceNode{v, 1}, `a:2:{s:4:"Next";`, `s:1:"V";i:1;}`
			case 3:
				v, open, shut = IfaceNode{v, 1}, `a:2:{s:4:"Next";`, `s:1:"V";i:1;}`
			case 4:
				p := v
				v, open, shut = &p, "", ""
			case 5:
				v = [1]any{v}
			default:
				p := v
				v, open, shut = IfacePtrNode{&p, 1}, `a:2:{s:1:"P";`, `s:1:"V";i:1;}`
			}
			pre, post = append(pre, open), append(post, shut)
		}
		slices.Reverse(pre)
		want = []byte(strings.Join(pre, "") + `s:1:"x";` + strings.Join(post, ""))
	}
	t.Desc(func() string { return fmt.Sprintf("value nested %d levels, kind %d (%T)", n, kind, v) })
	t.NonTrivial(mix(uint64(n), uint64(kind)))
	out, err := marshal(v)
	mustNotPanic(t, "Marshal", err)
	if err != nil {
		t.Failf("Marshal of %d nested levels of %T failed: %v", n, v, err)
	}
	if !bytes.Equal(out, want) {
		t.Failf("Marshal of %d nested levels of %T: %s", n, v, firstDiff(want, out))
	}
}

// ---- C14: work is bounded by the size of the input ----

func allocated(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

var boundTypes = []reflect.Type{anyType, anyType, typeOf[[]any](), typeOf[[]int](), typeOf[[]string](), typeOf[[][]int](), typeOf[map[string]any](), typeOf[map[int]string](), typeOf[map[any]any](),
	typeOf[RecS](), typeOf[RecM](), typeOf[RecTree](), typeOf[MyStruct](), typeOf[[]MyStruct2](), typeOf[[]*int](), typeOf[[][]byte](), typeOf[UnmRec](), typeOf[struct{}](), typeOf[string](), bytesType}

var lies = []int64{1, 100, 10000, 1 << 16, 1 << 20, 1 << 24, 1 << 30, 1 << 31, 1 << 32, 1 << 40, 1 << 48, 1 << 60, math.MaxInt64 - 1, math.MaxInt64}

// bytes allocated per byte of input (measured at up to 32), and for a call
const (
	perByte = 600
	perCall = 64 << 10
)

func c14Lies(t *T) {
	rt := pick(t, boundTypes)
	lie := func() string { return strconv.FormatInt(pick(t, lies)+int64(t.Int(0, 3))-3, 10) }
	var b []byte
	n := t.Int(1, 60)
	if t.Chance(1, 4) {
		n = t.Int(60, 3000)
	}
	var tail []byte
	open := 0
	if t.Bool() {
		b = append(b, `a:`+lie()+`:{`...)
		open++
	}
	keyed := t.Bool()
	for i := range n {
		k := "i:" + strconv.Itoa(i) + ";"
		if keyed {
			k = `s:4:"kids";`
			if t.Bool() {
				k = fmt.Sprintf(`s:5:"k%04d";`, i%10000)
			}
		}
		if open == 0 {
			k = ""
		}
		b = append(b, k...)
		switch t.W(4, 4, 2, 1, 1) {
		case 0: // an empty container with a large declared length
			b = append(b, `a:`+lie()+`:{}`...)
		case 1: // a container that goes on
			b = append(b, `a:`+lie()+`:{`...)
			open++
		case 2:
			b = append(b, `O:1:"C":`+lie()+`:{`...)
			open++
		case 3:
			b = append(b, `s:`+lie()+`:"abc";`...)
		default:
			b = append(b, "i:1;"...)
		}
	}
	if t.Bool() {
		tail = bytes.Repeat([]byte("}"), open)
	}
	b = append(b, tail...)
	descDoc(t, nRaw(b), rt)
	t.NonTrivial(mix(hashBytes(b), hashStr(rt.String())))
	v := newOf(rt)
	p := v.Addr().Interface()
	_ = unmarshal([]byte("N;"), p) // compiled before
	var err error
	got := allocated(func() { err = unmarshal(b, p) })
	mustNotPanic(t, "Unmarshal", err)
	if lim := uint64(perCall + perByte*len(b)); got > lim {
		t.Failf("Unmarshal of %d bytes into *%s allocated %d bytes (err %v)", len(b), typeName(rt), got, err)
	}
}

// growth is a family of documents that differ in their number of entries only.
type growth struct {
	name string
	rt   reflect.Type
	make func(n int) []byte
}

var growths = sync.OnceValue(func() []growth {
	list := func(val func(i int) string) func(int) []byte {
		return func(n int) []byte {
			b := []byte("a:" + strconv.Itoa(n) + ":{")
			for i := range n {
				b = append(b, "i:"+strconv.Itoa(i)+";"+val(i)...)
			}
			return append(b, '}')
		}
	}
	keyed := func(val func(i int) string) func(int) []byte {
		return func(n int) []byte {
			b := []byte("a:" + strconv.Itoa(n) + ":{")
			for i := range n {
				k := "k" + strconv.Itoa(i)
				b = append(b, `s:`+strconv.Itoa(len(k))+`:"`+k+`";`+val(i)...)
			}
			return append(b, '}')
		}
	}
	num := func(i int) string { return "i:" + strconv.Itoa(i) + ";" }
	str := func(i int) string { return `s:3:"abc";` }
	sub := func(i int) string { return `a:2:{i:0;i:1;i:1;i:2;}` }
	obj := func(i int) string { return `O:1:"C":2:{s:1:"A";i:1;s:2:"zz";a:1:{i:0;i:1;}}` }
	low := func(mk func(int) []byte) func(int) []byte { // declares less than there is
		return func(n int) []byte {
			b := mk(n)
			return append([]byte("a:1:"), b[bytes.IndexByte(b, '{'):]...)
		}
	}
	return []growth{
		{"list of int", typeOf[[]int](), list(num)}, {"list of any", anyType, list(num)}, {"strings", typeOf[[]string](), list(str)}, {"bytes", typeOf[[][]byte](), list(str)},
		{"lists of lists", typeOf[[][]int](), list(sub)}, {"any of lists", anyType, list(sub)}, {"objects", typeOf[[]MyStruct](), list(obj)}, {"pointers", typeOf[[]*MyStruct](), list(obj)},
		{"any objects", anyType, list(obj)}, {"map", typeOf[map[string]int](), keyed(num)}, {"map any", typeOf[map[string]any](), keyed(sub)}, {"any map", anyType, keyed(str)},
		{"int map", typeOf[map[int]string](), list(str)}, {"any keys", typeOf[map[any]any](), keyed(num)}, {"skipped", typeOf[MyStruct](), keyed(sub)}, {"raw", typeOf[UnmRec](), list(obj)},
		{"raws", typeOf[[]UnmRec](), list(obj)}, {"low count list", typeOf[[]int](), low(list(num))}, {"low count any", anyType, low(list(num))}, {"low count structs", typeOf[[]MyStruct](), low(list(obj))},
		{"past an array", typeOf[[4]int](), list(num)}, {"floats", typeOf[[]float64](), list(func(i int) string { return "d:" + strconv.Itoa(i) + ".5;" })},
		{"nested lists", typeOf[RecS](), func(n int) []byte {
			n = min(n, 9000)
			return []byte(strings.Repeat(lvList, n) + "N;" + strings.Repeat("}", n))
		}},
		{"from the end", typeOf[[]int](), func(n int) []byte {
			b := []byte("a:" + strconv.Itoa(n) + ":{")
			for i := range n {
				b = append(b, "i:"+strconv.Itoa(n-1-i)+";i:1;"...)
			}
			return append(b, '}')
		}},
		{"the same key", typeOf[MyStruct](), func(n int) []byte {
			return []byte("a:" + strconv.Itoa(n) + ":{" + strings.Repeat(`s:1:"A";i:1;`, n) + "}")
		}},
		{"the same map key", typeOf[map[string][]int](), func(n int) []byte {
			return []byte("a:" + strconv.Itoa(n) + ":{" + strings.Repeat(`s:1:"A";a:1:{i:0;i:1;}`, n) + "}")
		}},
		{"raw map", typeOf[map[string]UnmRec](), keyed(sub)}, {"maps", typeOf[[]map[string]any](), list(obj)}, {"arrays", typeOf[[][3]any](), list(sub)}, {"pointer map", typeOf[map[string]*string](), keyed(str)},
		{"nested dynamic", anyType, func(n int) []byte {
			n = min(n, 9000)
			return []byte(strings.Repeat(lvList, n) + "N;" + strings.Repeat("}", n))
		}},
		{"nested skipped", typeOf[struct{}](), func(n int) []byte {
			n = min(n, 9000)
			return []byte(`a:1:{s:1:"x";` + strings.Repeat(lvList, n) + "N;" + strings.Repeat("}", n) + "}")
		}},
		{"one string", typeOf[string](), func(n int) []byte { return nStr(strings.Repeat("x", n)).Bytes() }},
	}
})

// c14Growth: twice the input takes no more than about twice the allocation.
func c14Growth(t *T) {
	s := pick(t, growths())
	n := t.Int(1000, 4400)
	x, y := s.make(n), s.make(2*n)
	t.Desc(func() string {
		return fmt.Sprintf("%s: %d and %d entries, %s into *%s", s.name, n, 2*n, clip(x), typeName(s.rt))
	})
	t.NonTrivial(mix(hashStr(s.name), uint64(n)))
	run := func(b []byte) uint64 {
		v := newOf(s.rt)
		p := v.Addr().Interface()
		_ = unmarshal([]byte("N;"), p)
		var err error
		r := allocated(func() { err = unmarshal(b, p) })
		mustNotPanic(t, "Unmarshal", err)
		if err != nil {
			t.Failf("%s: Unmarshal(%s) failed: %v", s.name, clip(b), err)
		}
		return r
	}
	a, b := run(x), run(y)
	if b > 3*a+perCall {
		t.Failf("%s: %d entries allocated %d bytes, %d entries %d bytes", s.name, n, a, 2*n, b)
	}
	if b > uint64(perByte*len(y)+perCall) {
		t.Failf("%s: Unmarshal of %d bytes allocated %d", s.name, len(y), b)
	}
}

type chain struct {
	Next *chain
	V    int
}

var growingValues = sync.OnceValue(func() []func(n int) any {
	type pair struct {
		A int
		B string `php:"b"`
	}
	return []func(n int) any{
		func(n int) any { return make([]int, n) },
		func(n int) any { return make([]string, n) },
		func(n int) any { return make([]pair, n) },
		func(n int) any {
			s := make([]any, n)
			for i := range s {
				s[i] = pair{i, "x"}
			}
			return s
		},
		func(n int) any {
			s := make([]*pair, n)
			for i := range s {
				s[i] = &pair{i, "x"}
			}
			return s
		},
		func(n int) any {
			m := map[string]int{}
			for i := range n {
				m[strconv.Itoa(i)] = i
			}
			return m
		},
		func(n int) any {
			m := map[int]any{}
			for i := range n {
				m[i] = []int{i}
			}
			return m
		},
		func(n int) any { return strings.Repeat("x", n*10) },
		func(n int) any { return make([][3]float64, n) },
		func(n int) any { return make([]MarStruct, n) },
		func(n int) any { // a chain of pointers
			var l *chain
			for range min(n, 16000) {
				l = &chain{l, 1}
			}
			return l
		},
		func(n int) any { // one value in many places
			p := &pair{1, "x"}
			s := make([]any, n)
			for i := range s {
				s[i] = p
			}
			return s
		},
		func(n int) any { // slices in interfaces, nested
			var v any
			for range min(n, 16000) {
				v = []any{1, v}
			}
			return v
		},
		func(n int) any { return slices.Repeat([]map[string]int{{"a": 1}}, n) },
		func(n int) any { return slices.Repeat([]MarSlice{{"x"}}, n) },
	}
})

// c14Encode: the memory taken by Marshal grows with its output.
func c14Encode(t *T) {
	mk := growingValues()
	k := t.N(len(mk))
	n := t.Int(500, 6000)
	v, w := mk[k](n), mk[k](2*n)
	t.Desc(func() string { return fmt.Sprintf("Marshal of %T with %d and %d entries", v, n, 2*n) })
	t.NonTrivial(mix(uint64(k), uint64(n)))
	run := func(v any) (uint64, int) {
		var out []byte
		var err error
		_, _ = marshal(v)
		a := allocated(func() { out, err = marshal(v) })
		if err != nil {
			t.Failf("Marshal(%T): %v", v, err)
		}
		return a, len(out)
	}
	a, _ := run(v)
	b, size := run(w)
	if b > uint64(40*size+(512<<10)) {
		t.Failf("Marshal of %T: %d entries allocated %d bytes, %d entries %d bytes (%d bytes of output)", v, n, a, 2*n, b, size)
	}
}

// cpuTime is the processor time this thread has used.
func cpuTime() int64 {
	var ts syscall.Timespec
	_, _, e := syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 3, uintptr(unsafe.Pointer(&ts)), 0)
	if e != 0 {
		return time.Now().UnixNano()
	}
	return ts.Nano()
}

// c14Time: the time taken grows with the size, not with its square.
func c14Time(t *T) {
	const factor, most = 16, 100 // linear work takes about 16 times as long, quadratic work 256 times
	var name string
	var run func(n int) func() error
	n := t.Int(700, 1000)
	if t.Chance(1, 3) {
		i := t.N(len(growingValues()))
		mk := growingValues()[i]
		name = fmt.Sprintf("Marshal of %T", mk(1))
		run = func(n int) func() error {
			v := mk(n)
			return func() error {
				_, err := marshal(v)
				return err
			}
		}
	} else {
		s := pick(t, growths())
		name = "Unmarshal of " + s.name
		if strings.HasPrefix(s.name, "nested") {
			n = 150
		}
		run = func(n int) func() error {
			b := s.make(n)
			return func() error { return unmarshal(b, newOf(s.rt).Addr().Interface()) }
		}
	}
	t.Desc(func() string { return fmt.Sprintf("%s, %d and %d entries", name, n, factor*n) })
	t.NonTrivial(mix(hashStr(name), uint64(n)))
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	small, large := run(n), run(factor*n)
	a, b := int64(math.MaxInt64), int64(math.MaxInt64)
	once := func(f func() error) int64 {
		x := cpuTime()
		err := f()
		x = cpuTime() - x
		if err != nil {
			t.Failf("%s: %v", name, err)
		}
		return x
	}
	for range 12 {
		a = min(a, once(small), once(small), once(small))
		b = min(b, once(large))
		if b < most*max(a, 10_000) {
			return
		}
	}
	// What outgrows the caches takes longer per entry, though no longer the
	// larger it gets: quadratic work takes 16 times as long for 4 times the
	// entries at any size.
	if b < 2_000_000_000 {
		huge := run(4 * factor * n)
		c := int64(math.MaxInt64)
		for range 6 {
			b = min(b, once(large))
			c = min(c, once(huge))
			if c < 10*b {
				return
			}
		}
	}
	t.Failf("%s: %d entries take %d us, %d entries take %d us", name, n, a/1000, factor*n, b/1000)
}

// c14Levels: the time taken grows with the depth of nesting, whatever the levels are made of.
func c14Levels(t *T) {
	var run func(n int) func() error
	var name string
	fails := false
	if t.Chance(1, 3) {
		kinds := make([]int, t.Int(1, 4))
		for i := range kinds {
			kinds[i] = t.N(12)
		}
		wrap := t.N(3)
		name = fmt.Sprintf("Marshal of levels %v, %d", kinds, wrap)
		run = func(n int) func() error {
			var v any = "x"
			for i := range n {
				v = deeper(kinds[i%len(kinds)], v)
			}
			switch wrap {
			case 1:
				p := v
				v = &p
			case 2:
				v = []any{1, v, v}
			}
			return func() error {
				_, err := marshal(v)
				return err
			}
		}
	} else {
		var first, leaf string
		var units []string
		var rt reflect.Type
		if t.Chance(1, 2) {
			rt, first, leaf = typeOf[NestMix](), "a:1:{", `s:1:"i";i:7;`
			for range t.Int(1, 4) {
				units = append(units, pick(t, nestInner).open)
			}
			if t.Chance(1, 2) { // to a place that takes anything
				first += pick(t, nestSinks).open
				leaf, units = "i:7;", nil
			}
		} else {
			nd := pick(t, nestDests)
			rt, leaf = nd.rt, "N;"
			for range t.Int(1, 4) {
				units = append(units, pick(t, nd.open))
			}
			switch nd.name { // the outer level is given by the type
			case "skipped", "unmarshaler field":
				first = lvMap
			case "skipped array":
				first = lvList
			case "mixed":
				first = `a:1:{s:1:"k";a:1:{i:0;`
			}
		}
		if units == nil {
			for range t.Int(1, 4) {
				units = append(units, pick(t, []string{lvList, lvMap, lvObj, `a:2:{i:0;i:1;i:1;`, `O:1:"C":2:{s:1:"a";N;s:1:"k";`, `a:1:{i:-5;`}))
			}
		}
		shut := true
		switch t.W(6, 1, 1) {
		case 1:
			leaf, fails = pick(t, []string{"?", "i:x;", `s:9:"a";`, `s:1:"i";i:x;`}), true
		case 2:
			shut, fails = false, true
		}
		name = fmt.Sprintf("Unmarshal of %q… with %q into %s", first+strings.Join(units, ""), leaf, typeName(rt))
		run = func(n int) func() error {
			b := []byte(first)
			for i := range n {
				b = append(b, units[i%len(units)]...)
			}
			open := bytes.Count(b, []byte("{"))
			b = append(b, leaf...)
			if shut {
				b = append(b, strings.Repeat("}", open)...)
			}
			return func() error { return unmarshal(b, newOf(rt).Addr().Interface()) }
		}
	}
	t.Desc(func() string { return name })
	t.NonTrivial(hashStr(name))
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	var got []string
	for n := 8; n < 3000; n += 2 + n/5 {
		f := run(n)
		// a level takes less than a microsecond
		limit := int64(5_000_000 + 40_000*n)
		least := int64(math.MaxInt64)
		for i := 0; i < 20 && least > limit; i++ {
			x := cpuTime()
			err := f()
			least = min(least, cpuTime()-x)
			if (err != nil) != fails {
				t.Failf("%s, %d levels: error %v", name, n, err)
			}
		}
		got = append(got, fmt.Sprintf("%d: %d us", n, least/1000))
		if least > limit {
			t.Failf("%s: the time taken for that many levels is %s", name, strings.Join(got, ", "))
		}
	}
}

// deeper is v inside one more level.
func deeper(kind int, v any) any {
	switch kind {
	case 0:
		return []any{v}
	case 1:
		return map[string]any{"k": v}
	case 2:
		return &IfaceNode{v, 1}
	case 3:
		return IfaceNode{v, 1}
	case 4:
		return &v
	case 5:
		return [1]any{v}
	case 6:
		return IfacePtrNode{&v, 1}
	case 7:
		return map[int]any{3: v, 5: 1}
	case 8:
		return struct {
			A int `php:",omitempty"`
			X any `php:"x,omitempty"`
		}{0, v}
	case 9:
		return []map[string]any{{"q": v}}
	case 10:
		return &[]any{1, v}
	default:
		return []*any{nil, &v}
	}
}

var c14TypeNo int

// c14Types: the first use of a type takes time that grows with the number of its parts, not with the number of ways to them.
func c14Types(t *T) {
	branches := make([]int, t.Int(2, 4))
	for i := range branches {
		branches[i] = t.N(9)
	}
	tag := pick(t, []string{"", `php:",omitempty"`, `php:"b"`})
	mk := func(levels int) reflect.Type {
		c14TypeNo++
		rt := structOf(reflect.StructField{Name: fmt.Sprint("N", c14TypeNo), Type: typeOf[int]()})
		for range levels {
			fs := []reflect.StructField{{Name: "N", Type: typeOf[string]()}}
			for i, k := range branches {
				ft := rt
				switch k {
				case 1:
					ft = reflect.SliceOf(rt)
				case 2:
					ft = reflect.MapOf(typeOf[string](), rt)
				case 3:
					ft = reflect.SliceOf(reflect.PointerTo(rt))
				case 4:
					ft = reflect.MapOf(typeOf[int](), reflect.PointerTo(rt))
				case 5:
					ft = reflect.PointerTo(reflect.SliceOf(rt))
				case 6:
					ft = reflect.SliceOf(reflect.MapOf(typeOf[string](), reflect.SliceOf(rt)))
				case 7:
					ft = reflect.PointerTo(reflect.ArrayOf(2, rt))
				default:
					ft = reflect.PointerTo(rt)
				}
				for e := ft; e != rt; e = e.Elem() { // made here, once
					reflect.PointerTo(e)
				}
				reflect.PointerTo(rt)
				f := reflect.StructField{Name: string(rune('A' + i)), Type: ft}
				if i == 1 {
					f.Tag = reflect.StructTag(tag)
				}
				fs = append(fs, f)
			}
			rt = structOf(fs...)
		}
		return rt
	}
	enc := t.Bool()
	name := fmt.Sprintf("first use by Unmarshal of types of kinds %v, %q", branches, tag)
	if enc {
		name = fmt.Sprintf("first use by Marshal of types of kinds %v, %q", branches, tag)
	}
	t.Desc(func() string { return name })
	t.NonTrivial(hashStr(name))
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	// The text of such a type is as long as there are ways to its parts, so
	// there are only some thousands.
	levels, ways := 0, 1
	for ways < 8000 {
		levels++
		ways *= len(branches)
	}
	const limit = 8_000_000
	least := int64(math.MaxInt64)
	for i := 0; i < 12 && least > limit; i++ {
		v := reflect.New(mk(levels)).Interface()
		var err error
		x := cpuTime()
		if enc {
			_, err = marshal(v)
		} else {
			err = unmarshal([]byte("a:0:{}"), v)
		}
		least = min(least, cpuTime()-x)
		if err != nil {
			t.Failf("%s, %d levels: error %v", name, levels, err)
		}
	}
	if least > limit {
		t.Failf("%s: %d levels take %d us", name, levels, least/1000)
	}
	if os.Getenv("VERIF_TIMES") != "" {
		fmt.Fprintf(os.Stderr, "%s: %d us\n", name, least/1000)
	}
}

// c14After: what a small call takes does not depend on how large earlier calls were.
func c14After(t *T) {
	n := 1 << t.Int(14, 19)
	var big any
	switch t.N(4) {
	case 0:
		big = strings.Repeat("x", n)
	case 1:
		big = make([]bool, n/8)
	case 2:
		big = struct{ A []byte }{make([]byte, n)}
	default:
		m := map[int]any{}
		for i := range n / 16 {
			m[i] = i
		}
		big = m
	}
	small := pick(t, []any{1, "abc", []int{1, 2}, map[string]int{"a": 1}, struct{ A, B any }{1, "x"}, true, nil, 1.5})
	t.Desc(func() string { return fmt.Sprintf("%T of size %d, then %T", big, n, small) })
	t.NonTrivial(mix(uint64(n), hashStr(fmt.Sprintf("%T%T", big, small))))
	doc, err := marshal(big)
	if err != nil {
		t.Failf("Marshal(%T): %v", big, err)
	}
	var out []byte
	least := uint64(math.MaxUint64)
	for range 4 {
		least = min(least, allocated(func() { out, err = marshal(small) }))
	}
	if err != nil {
		t.Failf("Marshal(%T): %v", small, err)
	}
	if least > perCall/4 || cap(out) > 2*len(out)+4096 {
		t.Failf("after a result of %d bytes, Marshal of %T allocates %d bytes and returns %d bytes in a slice of capacity %d", len(doc), small, least, len(out), cap(out))
	}
	var v, w any
	if err := unmarshal(doc, &v); err != nil {
		t.Failf("Unmarshal(%s): %v", clip(doc), err)
	}
	least = math.MaxUint64
	for range 4 {
		least = min(least, allocated(func() { err = unmarshal(out, &w) }))
	}
	if err != nil {
		t.Failf("Unmarshal(%s): %v", clip(out), err)
	}
	if least > perCall/4 {
		t.Failf("after a document of %d bytes, Unmarshal of %d bytes allocates %d", len(doc), len(out), least)
	}
}

func init() {
	register(&Property{ID: "C10",
		Rule: "random bytes, token soups, and documents after 1-3 random edits (and some intact) into ordinary, unusual and unsupported destination types; no panic, no crash, the same outcome twice (also with other bytes behind the slice), input unchanged; non-trivial: the document is not one drawn for its type",
		Arms: []Arm{{"bytes", c10, 640000, 6400000}}})
	register(&Property{ID: "C11",
		Rule: "for accepted documents every prefix (up to 200 bytes, beyond that a sample), and random data before and after; all must be rejected; non-trivial: the document has more than 6 bytes",
		Arms: []Arm{{"cut", c11, 96000, 960000}}})
	register(&Property{ID: "C12",
		Rule: "documents with a malformed token, or after 1-3 random edits, into six destinations each: outside a lenient superset of the format they must be rejected, when still well formed they must decode as the reference decoder says; non-trivial: rejected as malformed",
		Arms: []Arm{{"edits", c12, 240000, 3000000}, {"places", c12Places, 80000, 800000}, {"counts", c12Counts, 80000, 1000000}, {"sizes", c12Sizes, 4000, 40000}}})
	register(&Property{ID: "C13",
		Rule: "documents nested 1 to 270000 levels, by random runs of lists, maps and objects, into 19 kinds of destination (dynamic, recursive types, skipped, custom), also without an end; deep Go values into Marshal; every case is non-trivial",
		Arms: []Arm{{"depth", c13, 1600, 12000}, {"mix", c13Mix, 2400, 24000}, {"open", c13Open, 1600, 12000}, {"encode", c13Encode, 800, 6000}}})
	register(&Property{ID: "C14", Measures: true,
		Rule: "documents full of false declared lengths, and documents of n and 2n entries of 33 shapes: bytes allocated are bounded by a constant times the input and do not grow faster than it, values of n and 2n entries likewise, small calls after large ones take no more than before, the time taken grows with the depth of nesting of whatever levels, the first use of a type takes time growing with the number of its parts, and 16 times the entries take far less than 256 times the processor time; every case is non-trivial",
		Arms: []Arm{{"lies", c14Lies, 24000, 300000}, {"growth", c14Growth, 1600, 20000}, {"encode", c14Encode, 800, 8000}, {"after", c14After, 1600, 16000}, {"levels", c14Levels, 2400, 24000}, {"types", c14Types, 400, 4000}, {"time", c14Time, 800, 8000}}})
}
