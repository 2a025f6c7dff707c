package main

import (
	"math"
	"reflect"
	"strconv"
	"strings"
)

// DocGen draws documents.
type DocGen struct {
	t       *T
	left    int
	Mis     int  // per mille of nodes that do not fit the type
	Null    int  // per mille of nulls
	OOR     int  // per mille of integers and floats out of the range of the type
	NoStyle bool // canonical text only
	Small   bool // no long texts, the document is repeated
	Honest  bool // no unknown keys, surplus or sparse entries
	mis     bool // a misfit was drawn
	oor     bool
	nulls   int
	unknown int
	sparse  int
	objects int

	intNames bool // objects may have integers as keys, as those that php makes of lists have
}

func newDocGen(t *T) *DocGen { return &DocGen{t: t, left: 60, Null: 60} }

func smallDocGen(t *T) *DocGen { return &DocGen{t: t, left: 60, Null: 60, Small: true} }

func (g *DocGen) permille(n int) bool { return n > 0 && g.t.Chance(n, 1000) }

func shuffle[V any](t *T, vs []V) {
	for i := len(vs) - 1; i > 0; i-- {
		j := i - t.N(i+1)
		vs[i], vs[j] = vs[j], vs[i]
	}
}

var classNames = []string{"A", "stdClass", "App\\Models\\User", "", "Längere", strings.Repeat("C", 10), strings.Repeat("Cl", 60), `a":1:{`, "x;}", "\x00p\x00q"}

func (g *DocGen) className() string {
	if g.t.Chance(1, 8) {
		return drawString(g.t, false, nil)
	}
	return pick(g.t, classNames)
}

func (g *DocGen) obj(n *Node) *Node {
	n.K = 'O'
	n.Str = g.className()
	g.objects++
	return n
}

func (g *DocGen) str() *Node { return nStr(drawString(g.t, false, nil)) }

var phpFloats = []string{"1.0E+25", "1.0E-10", "-1.5E-7", "0.10000000000000001", "0.30000000000000004", "-0", "0", "3", "100000", "1.7976931348623157E+308", "4.9E-324", "2.2250738585072014E-308",
	"INF", "-INF", "NAN", "0.1", "1.0E+100", "123456789012345680", "9007199254740993", "1e3", "0.000001", "0.0000001"}

func (g *DocGen) float(bits int) *Node {
	t := g.t
	text := ""
	if !g.NoStyle {
		switch t.W(5, 2, 1) {
		case 1:
			text = pick(t, phpFloats)
		case 2:
			f := drawFloat64(t, true)
			if !math.IsInf(f, 0) {
				how := t.W(6, 3, 1, 1)
				if g.Small {
					how = 0
				}
				switch how {
				case 0:
					text = strconv.FormatFloat(f, pick(t, []byte{'g', 'E', 'G'}), t.Int(17, 20), 64)
				case 1: // more digits than needed
					text = strconv.FormatFloat(f, pick(t, []byte{'g', 'E', 'G'}), t.Int(21, 80), 64)
				case 2: // written out
					text = strconv.FormatFloat(f, 'f', t.Int(0, 60), 64)
				default:
					text = strconv.FormatFloat(f, pick(t, []byte{'e', 'E'}), t.Int(80, 1100), 64)
				}
			}
		}
	}
	if text != "" {
		if _, err := parseFloatText(text, bits); err == nil {
			return &Node{K: 'd', Text: text}
		}
	}
	if bits == 32 {
		return nFloat(float64(drawFloat32(t, false)), 32)
	}
	return nFloat(drawFloat64(t, false), 64)
}

// zeros now and then writes an integer with leading zeros, or zero with a sign, as php reads them too.
func (g *DocGen) zeros(n *Node) *Node {
	if g.Honest || !g.t.Chance(1, 60) {
		return n
	}
	digits := strings.TrimPrefix(n.Text, "-")
	sign := n.Text[:len(n.Text)-len(digits)]
	if digits == "0" && g.t.Bool() {
		sign = "-"
	}
	return &Node{K: 'i', Text: sign + strings.Repeat("0", g.t.Int(0, 3)) + digits}
}

func (g *DocGen) scalar() *Node {
	t := g.t
	switch t.N(5) {
	case 0:
		return g.zeros(nInt(drawInt(t, 64)))
	case 1:
		return g.str()
	case 2:
		return nBool(t.Bool())
	case 3:
		return g.float(64)
	default:
		return nNull()
	}
}

func (g *DocGen) key() *Node {
	t := g.t
	switch t.W(4, 3, 1, 1) {
	case 0:
		return nStr(pick(t, tagNames))
	case 1:
		return nInt(int64(t.Int(0, 8)))
	case 2:
		return nInt(drawInt(t, 64))
	default:
		return nStr(drawString(t, false, nil))
	}
}

func (g *DocGen) count() int {
	t := g.t
	n := 0
	switch t.W(8, 2, 1) {
	case 0:
		n = t.Int(0, 4)
	case 1:
		n = t.Int(5, 12)
	case 2:
		n = t.Int(13, 40)
	}
	if v, ok := t.dictWithin(0, 60); ok {
		n = v
	}
	return max(0, min(n, g.left))
}

// Skipped draws a value that is skipped.
func (g *DocGen) Skipped(depth int) *Node {
	ints, honest := g.intNames, g.Honest
	g.intNames, g.Honest = true, false
	n := g.Any(depth)
	g.intNames, g.Honest = ints, honest
	return n
}

// Any draws an arbitrary value.
func (g *DocGen) Any(depth int) *Node {
	t := g.t
	g.left--
	if depth <= 0 || g.left <= 0 {
		return g.scalar()
	}
	switch t.W(6, 6, 2) {
	case 0:
		return g.scalar()
	case 1:
		n := &Node{K: 'a'}
		if t.Bool() { // a list
			for i, c := 0, g.count(); i < c; i++ {
				n.Ent = append(n.Ent, Entry{nInt(int64(i)), g.Any(depth - 1)})
			}
			return n
		}
		g.entries(n, depth, g.key)
		return n
	default:
		n := g.obj(&Node{})
		g.entries(n, depth, func() *Node {
			for {
				if k := g.key(); k.K == 's' || g.intNames && t.Chance(1, 3) {
					return k
				}
			}
		})
		return n
	}
}

func (g *DocGen) entries(n *Node, depth int, key func() *Node) {
	seen := map[string]bool{}
	for c := g.count(); c > 0; c-- {
		k := key()
		b := string(k.Bytes())
		if seen[b] {
			continue
		}
		seen[b] = true
		n.Ent = append(n.Ent, Entry{k, g.Any(depth - 1)})
	}
}

// For draws a document for the type.
func (g *DocGen) For(rt reflect.Type, depth int) *Node {
	t := g.t
	g.left--
	if g.permille(g.Mis) {
		g.mis = true
		return g.Any(1)
	}
	if g.permille(g.Null) {
		g.nulls++
		return nNull()
	}
	if reflect.PointerTo(rt).Implements(unmarshalerIface) && rt.Kind() != reflect.Interface {
		return g.Any(min(depth, 3))
	}
	if g.left < -100 && rt.Kind() != reflect.Array {
		return nNull()
	}
	switch rt.Kind() {
	case reflect.Pointer:
		g.left++
		if g.left < 0 || depth < 0 {
			return nNull()
		}
		return g.For(rt.Elem(), depth)
	case reflect.Interface:
		if rt.NumMethod() > 0 {
			return nNull()
		}
		return g.Any(min(depth, 3))
	case reflect.Bool:
		return nBool(t.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if g.permille(g.OOR) {
			g.oor = true
			return g.outOfRange(rt)
		}
		return g.zeros(nInt(drawInt(t, rt.Bits())))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if g.permille(g.OOR) {
			g.oor = true
			return g.outOfRange(rt)
		}
		return nUint(drawUint(t, rt.Bits()))
	case reflect.Float32, reflect.Float64:
		if g.permille(g.OOR) {
			g.oor = true
			return &Node{K: 'd', Text: pick(t, []string{"1e309", "-1e309", "1e39", "-3.5e38", "1.0E+400"})}
		}
		return g.float(rt.Bits())
	case reflect.String:
		return g.str()
	case reflect.Slice:
		if rt.Elem().Kind() == reflect.Uint8 && !t.Chance(1, 5) {
			return g.str()
		}
		n := &Node{K: 'a'}
		c := g.count()
		if depth < 0 {
			c = 0
		}
		for i := 0; i < c; i++ {
			n.Ent = append(n.Ent, Entry{nInt(int64(i)), g.For(rt.Elem(), depth-1)})
		}
		if !g.Honest && c > 0 {
			switch t.W(6, 1, 1) {
			case 1:
				g.sparse++
				shuffle(t, n.Ent)
			case 2: // gaps
				g.sparse++
				at := 0
				for i := range n.Ent {
					at += t.Int(0, 3)
					if t.Chance(1, 30) && isSmall(rt.Elem()) {
						at += t.Int(0, 1500)
					}
					n.Ent[i].Key = g.zeros(nInt(int64(at)))
					at++
				}
				if t.Bool() {
					shuffle(t, n.Ent)
				}
			}
		}
		return n
	case reflect.Array:
		n := &Node{K: 'a'}
		for i := 0; i < rt.Len(); i++ {
			if !g.Honest && t.Chance(1, 8) {
				g.sparse++
				continue
			}
			n.Ent = append(n.Ent, Entry{g.zeros(nInt(int64(i))), g.For(rt.Elem(), depth-1)})
		}
		if !g.Honest {
			if t.Chance(1, 5) {
				g.unknown++
				at := int64(rt.Len())
				for c := t.Int(1, 3); c > 0; c-- {
					at += int64(t.Int(0, 2))
					if at < 1<<20 && t.Chance(1, 10) {
						at += 1 << t.Int(8, 60)
					}
					n.Ent = append(n.Ent, Entry{nInt(at), g.Skipped(2)})
					at++
				}
			}
			if t.Chance(1, 4) {
				shuffle(t, n.Ent)
			}
		}
		return n
	case reflect.Map:
		n := &Node{K: 'a'}
		seen := map[string]bool{}
		for c := g.count(); c > 0 && depth >= 0; c-- {
			k := g.keyFor(rt.Key())
			if k == nil {
				break
			}
			if b := string(k.Bytes()); !seen[b] {
				seen[b] = true
				n.Ent = append(n.Ent, Entry{k, g.For(rt.Elem(), depth-1)})
			}
		}
		if t.Chance(1, 4) {
			g.obj(n)
		}
		return n
	case reflect.Struct:
		n := &Node{K: 'a'}
		used := map[string]bool{}
		for _, f := range fieldsOf(rt) {
			used[f.key] = true
			if t.Chance(1, 6) {
				continue
			}
			var v *Node
			if f.asString && stringTagApplies(f.typ) {
				v = g.asString(f.typ)
			} else {
				v = g.For(f.typ, depth-1)
			}
			n.Ent = append(n.Ent, Entry{nStr(f.key), v})
		}
		if !g.Honest {
			if t.Chance(1, 4) {
				for c := t.Int(1, 4); c > 0; c-- {
					g.unknown++
					k := g.unknownKey(rt, used)
					if used[k] {
						continue
					}
					used[k] = true
					n.Ent = append(n.Ent, Entry{nStr(k), g.Skipped(t.Int(0, 3))})
				}
			}
			if t.Chance(1, 3) {
				shuffle(t, n.Ent)
			}
		}
		if t.Chance(1, 3) {
			g.obj(n)
		}
		return n
	}
	return g.Any(1)
}

// unknownKey draws a key that is near the keys of the struct but none of them.
func (g *DocGen) unknownKey(rt reflect.Type, used map[string]bool) string {
	t := g.t
	var names []string
	for i := 0; i < rt.NumField(); i++ {
		names = append(names, rt.Field(i).Name)
		if tag, _, _ := strings.Cut(rt.Field(i).Tag.Get("php"), ","); tag != "" {
			names = append(names, tag)
		}
	}
	names = append(names, "zz", "")
	k := pick(t, names)
	switch t.N(17) {
	case 15: // as PHP names the properties that are not public
		k = "\x00" + pick(t, []string{"*", "A", "stdClass", "Foo\\Bar", ""}) + "\x00" + k
	case 16: // what might be cut off
		affix := pick(t, []string{"_", " ", "$", "-", "\x00", ".", ":", "\"", "[]", "\n", "\t", "F", "php:", "\\", "'", ",", "\xef\xbb\xbf", "@", "0"})
		if t.Bool() {
			k += affix
		} else {
			k = affix + k
		}
	case 13, 14: // as long as a known name in the low bits of its length, or longer than any of them
		n := 256
		how := t.N(12)
		if g.Small {
			how = 2 + 2*t.N(2)
		}
		switch how {
		case 0:
			n = 1 << 16
		case 1:
			n = 1 << t.Int(3, 13)
		case 2:
			n = t.Int(1, 700)
		case 3:
			n = 512
		}
		pad := strings.Repeat(pick(t, []string{"x", k + "x", "\x00", " "}), n)[:n]
		if t.Chance(1, 4) {
			k = pad + k
		} else {
			k += pad
		}
	case 7: // one other byte in the middle
		if len(k) > 2 {
			i := t.Int(1, len(k)-2)
			k = k[:i] + string(rune('a'+t.N(26))) + k[i+1:]
		}
	case 8: // at the front
		if len(k) > 0 {
			k = string(rune('a'+t.N(26))) + k[1:]
		}
	case 9: // at the end
		if len(k) > 0 {
			k = k[:len(k)-1] + string(rune('a'+t.N(26)))
		}
	case 10: // the same bytes in another order
		if len(k) > 1 {
			i := t.Int(0, len(k)-2)
			k = k[:i] + k[i+1:i+2] + k[i:i+1] + k[i+2:]
		}
	case 11:
		k = string(rune('a'+t.N(26))) + k
	case 12:
		if len(k) > 0 {
			k = k[1:]
		}
	case 1:
		k = strings.ToLower(k)
	case 2:
		k = strings.ToUpper(k)
	case 3:
		k += "x"
	case 4:
		k += "\x00"
	case 5:
		if len(k) > 0 {
			k = k[:len(k)-1]
		}
	case 6:
		k = drawString(t, false, nil)
	}
	return k
}

func isSmall(rt reflect.Type) bool { return rt.Size() <= 64 }

func (g *DocGen) keyFor(rt reflect.Type) *Node {
	t := g.t
	if reflect.PointerTo(rt).Implements(unmarshalerIface) {
		return g.key()
	}
	switch rt.Kind() {
	case reflect.String:
		if g.permille(g.Mis) {
			g.mis = true
			return nInt(int64(t.N(4)))
		}
		if t.Chance(1, 4) {
			return g.str()
		}
		return nStr(pick(t, tagNames))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if g.permille(g.Mis) {
			g.mis = true
			return nStr(strconv.Itoa(t.N(4)))
		}
		return nInt(drawInt(t, rt.Bits()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if g.permille(g.Mis) {
			g.mis = true
			return nStr(strconv.Itoa(t.N(4)))
		}
		return nUint(drawUint(t, rt.Bits()))
	case reflect.Interface:
		return g.key()
	}
	return nil
}

// outOfRange draws an integer that does not fit the type.
func (g *DocGen) outOfRange(rt reflect.Type) *Node {
	return &Node{K: 'i', Text: outOfRangeText(g.t, rt)}
}

func outOfRangeText(t *T, rt reflect.Type) string {
	bits := rt.Bits()
	signed := rt.Kind() >= reflect.Int && rt.Kind() <= reflect.Int64
	huge := []string{"99999999999999999999", "18446744073709551616", "18446744073709551617", "184467440737095516160", "-18446744073709551616", "-99999999999999999999",
		"100000000000000000000000000000", "36893488147419103232", "-9223372036854775809", "-36893488147419103233"}
	if t.Chance(1, 4) {
		return pick(t, huge)
	}
	if signed {
		if bits == 64 {
			return pick(t, []string{"9223372036854775808", "-9223372036854775809", "18446744073709551615", "9999999999999999999", "-9999999999999999999", "10000000000000000000"})
		}
		lo, hi := -(int64(1) << (bits - 1)), int64(1)<<(bits-1)-1
		if t.Bool() {
			return strconv.FormatInt(hi+1+int64(t.U64(uint64(math.MaxInt64-hi-1)>>uint(t.N(62)))), 10)
		}
		return strconv.FormatInt(lo-1-int64(t.U64(uint64(math.MaxInt64+lo)>>uint(t.N(62)))), 10)
	}
	if t.Chance(1, 3) {
		return strconv.FormatInt(-1-int64(t.U64(uint64(math.MaxInt64)>>uint(t.N(63)))), 10)
	}
	if bits == 64 {
		return pick(t, huge[:4])
	}
	hi := uint64(1)<<bits - 1
	return strconv.FormatUint(hi+1+t.U64((math.MaxUint64-hi-1)>>uint(t.N(62))), 10)
}

// asString draws the string form of a scalar.
func (g *DocGen) asString(rt reflect.Type) *Node {
	t := g.t
	if rt.Kind() == reflect.Pointer {
		rt = rt.Elem()
	}
	if g.permille(g.Null) {
		g.nulls++
		return nNull()
	}
	if g.permille(g.Mis) {
		g.mis = true
		if t.Bool() {
			return g.Any(1)
		}
		return nStr(pick(t, []string{"", "x", "1x", " 1", "1 ", "--1", "TRUEE", "0x", "1,5", "\x00", "yes", "1\x00"}))
	}
	switch rt.Kind() {
	case reflect.Bool:
		return nStr(pick(t, []string{"false", "true", "false", "true", "1", "0"}))
	case reflect.String:
		return g.str()
	case reflect.Float32, reflect.Float64:
		if g.permille(g.OOR) {
			g.oor = true
			return nStr("1e309")
		}
		return nStr(g.float(rt.Bits()).Text)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if g.permille(g.OOR) {
			g.oor = true
			return nStr(outOfRangeText(t, rt))
		}
		return nStr(strconv.FormatUint(drawUint(t, rt.Bits()), 10))
	default:
		if g.permille(g.OOR) {
			g.oor = true
			return nStr(outOfRangeText(t, rt))
		}
		return nStr(strconv.FormatInt(drawInt(t, rt.Bits()), 10))
	}
}
