package main

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// Node is an abstract PHP value.
type Node struct {
	K       byte    // 'N' 'b' 'i' 'd' 's' 'a' 'O', 'r' for raw bytes of a custom Marshaler
	Text    string  // text of b, i, d
	Str     string  // bytes of s, class name of O, raw bytes of r
	Ent     []Entry // entries of a and O
	Unord   bool    // entries may come in any order
	Declare int     // when not 0, declared count is len(Ent)+Declare (documents only)
}

// Entry is one entry of an array or object.
type Entry struct{ Key, Val *Node }

func nNull() *Node         { return &Node{K: 'N'} }
func nInt(v int64) *Node   { return &Node{K: 'i', Text: strconv.FormatInt(v, 10)} }
func nUint(v uint64) *Node { return &Node{K: 'i', Text: strconv.FormatUint(v, 10)} }
func nStr(s string) *Node  { return &Node{K: 's', Str: s} }
func nBool(b bool) *Node {
	if b {
		return &Node{K: 'b', Text: "1"}
	}
	return &Node{K: 'b', Text: "0"}
}

// floatText is the documented text of a float: the shortest decimal that reads back as the same
// value at its own width, in exponent form only below 1e-6 and from 1e21 on.
func floatText(f float64, bitSize int) string {
	switch {
	case math.IsNaN(f):
		return "NAN"
	case math.IsInf(f, 1):
		return "INF"
	case math.IsInf(f, -1):
		return "-INF"
	}
	return floatPlain(f, bitSize)
}

func floatPlain(f float64, bitSize int) string {
	a := math.Abs(f)
	small, big := a < 1e-6, a >= 1e21
	if bitSize == 32 {
		small, big = float32(a) < 1e-6, float32(a) >= 1e21
	}
	if a != 0 && (small || big) {
		return strconv.FormatFloat(f, 'e', -1, bitSize)
	}
	return strconv.FormatFloat(f, 'f', -1, bitSize)
}

func nFloat(f float64, bitSize int) *Node { return &Node{K: 'd', Text: floatText(f, bitSize)} }

func nArr(vals ...*Node) *Node {
	n := &Node{K: 'a'}
	for i, v := range vals {
		n.Ent = append(n.Ent, Entry{nInt(int64(i)), v})
	}
	return n
}

// AppendTo writes the canonical serialization.
func (n *Node) AppendTo(b []byte) []byte {
	switch n.K {
	case 'N':
		return append(b, "N;"...)
	case 'b', 'i', 'd':
		b = append(b, n.K, ':')
		b = append(b, n.Text...)
		return append(b, ';')
	case 's':
		b = append(b, "s:"...)
		b = strconv.AppendInt(b, int64(len(n.Str)), 10)
		b = append(b, `:"`...)
		b = append(b, n.Str...)
		return append(b, `";`...)
	case 'r':
		return append(b, n.Str...)
	case 'O':
		b = append(b, "O:"...)
		b = strconv.AppendInt(b, int64(len(n.Str)), 10)
		b = append(b, `:"`...)
		b = append(b, n.Str...)
		b = append(b, `":`...)
	case 'a':
		b = append(b, "a:"...)
	default:
		panic("bad node kind " + string(n.K))
	}
	b = strconv.AppendInt(b, int64(len(n.Ent)+n.Declare), 10)
	b = append(b, ":{"...)
	for _, e := range n.Ent {
		b = e.Key.AppendTo(b)
		b = e.Val.AppendTo(b)
	}
	return append(b, '}')
}

func (n *Node) Bytes() []byte { return n.AppendTo(nil) }

func (n *Node) Depth() int {
	d := 0
	for _, e := range n.Ent {
		d = max(d, e.Val.Depth())
	}
	if n.K == 'a' || n.K == 'O' {
		d++
	}
	return d
}

func (n *Node) Count() int {
	c := 1
	for _, e := range n.Ent {
		c += e.Val.Count()
	}
	return c
}

func (n *Node) Clone() *Node {
	c := *n
	c.Ent = nil
	for _, e := range n.Ent {
		c.Ent = append(c.Ent, Entry{e.Key.Clone(), e.Val.Clone()})
	}
	return &c
}

func (n *Node) hasUnord() bool {
	if n.Unord && len(n.Ent) > 1 {
		return true
	}
	for _, e := range n.Ent {
		if e.Val.hasUnord() {
			return true
		}
	}
	return false
}

func (n *Node) String() string {
	s := string(n.Bytes())
	if len(s) > 400 {
		s = s[:400] + fmt.Sprintf("…(%d)", len(s))
	}
	return strconv.Quote(s)
}

type mismatch struct {
	pos  int
	msg  string
	path string
}

// match checks that out starting at pos is exactly the serialization of n, where the entries of a
// map may come in any order. It returns the position after it.
func (n *Node) match(out []byte, pos int, path string) (int, *mismatch) {
	want := func(w []byte) (int, *mismatch) {
		if pos+len(w) <= len(out) && bytes.Equal(out[pos:pos+len(w)], w) {
			return pos + len(w), nil
		}
		return 0, &mismatch{pos, fmt.Sprintf("want %s, got %s", clip(w), clip(out[min(pos, len(out)):min(len(out), pos+len(w)+8)])), path}
	}
	if n.K != 'a' {
		return want(n.Bytes())
	}
	if !n.hasUnord() {
		// compare entry by entry for a usable message
		end, m := want(n.Bytes())
		if m == nil || len(n.Ent) == 0 {
			return end, m
		}
	}
	head := []byte("a:" + strconv.Itoa(len(n.Ent)) + ":{")
	p, m := want(head)
	if m != nil {
		return 0, m
	}
	pos = p
	if !n.Unord {
		for _, e := range n.Ent {
			if pos, m = e.Key.match(out, pos, path+".key"); m != nil {
				return 0, m
			}
			if pos, m = e.Val.match(out, pos, path+"["+keyText(e.Key)+"]"); m != nil {
				return 0, m
			}
		}
	} else {
		byKey := make(map[string]*Node, len(n.Ent))
		for _, e := range n.Ent {
			byKey[string(e.Key.Bytes())] = e.Val
		}
		for range n.Ent {
			k, end, err := scanKey(out, pos)
			if err != "" {
				return 0, &mismatch{pos, err, path}
			}
			v, ok := byKey[k]
			if !ok {
				return 0, &mismatch{pos, "unexpected or repeated key " + clip([]byte(k)), path}
			}
			delete(byKey, k)
			if pos, m = v.match(out, end, path+"["+k+"]"); m != nil {
				return 0, m
			}
		}
	}
	if pos < len(out) && out[pos] == '}' {
		return pos + 1, nil
	}
	return 0, &mismatch{pos, "want }, got " + clip(out[min(pos, len(out)):min(len(out), pos+12)]), path}
}

func keyText(k *Node) string {
	if k.K == 's' {
		return k.Str
	}
	return k.Text
}

func clip(b []byte) string {
	if len(b) > 60 {
		return strconv.Quote(string(b[:60])) + fmt.Sprintf("…(%d)", len(b))
	}
	return strconv.Quote(string(b))
}

// scanKey reads a canonical i or s token.
func scanKey(out []byte, pos int) (string, int, string) {
	if pos >= len(out) {
		return "", 0, "output ends where a key is expected"
	}
	switch out[pos] {
	case 'i':
		e := bytes.IndexByte(out[pos:], ';')
		if e < 0 {
			return "", 0, "integer key without end"
		}
		return string(out[pos : pos+e+1]), pos + e + 1, ""
	case 's':
		q := bytes.IndexByte(out[pos:], '"')
		if q < 4 {
			return "", 0, "bad string key"
		}
		n, err := strconv.Atoi(string(out[pos+2 : pos+q-1]))
		end := pos + q + 1 + n + 2
		if err != nil || n < 0 || end > len(out) {
			return "", 0, "bad string key length"
		}
		return string(out[pos:end]), end, ""
	}
	return "", 0, "want a key, got " + clip(out[pos:min(len(out), pos+12)])
}

// matchAll reports how out differs from n, "" when it does not.
func matchAll(n *Node, out []byte) string {
	end, m := n.match(out, 0, "$")
	if m != nil {
		return fmt.Sprintf("at offset %d (%s): %s", m.pos, m.path, m.msg)
	}
	if end != len(out) {
		return fmt.Sprintf("%d bytes after the value: %s", len(out)-end, clip(out[end:]))
	}
	return ""
}

// parse is a strict parser of the format, independent of the library: canonical integers and
// lengths, exact counts, valid floats.
type parser struct {
	b   []byte
	pos int
}

func parseStrict(b []byte) (*Node, error) {
	p := &parser{b: b}
	n, err := p.value(0)
	if err != nil {
		return nil, err
	}
	if p.pos != len(b) {
		return nil, fmt.Errorf("trailing bytes at %d", p.pos)
	}
	return n, nil
}

func (p *parser) lit(s string) error {
	if !strings.HasPrefix(string(p.b[p.pos:min(len(p.b), p.pos+len(s))]), s) {
		return fmt.Errorf("want %q at %d", s, p.pos)
	}
	p.pos += len(s)
	return nil
}

func (p *parser) until(c byte) (string, error) {
	e := bytes.IndexByte(p.b[p.pos:], c)
	if e < 0 {
		return "", fmt.Errorf("no %q after %d", c, p.pos)
	}
	s := string(p.b[p.pos : p.pos+e])
	p.pos += e + 1
	return s, nil
}

func (p *parser) count() (int, error) {
	s, err := p.until(':')
	if err != nil {
		return 0, err
	}
	n, err := strconv.Atoi(s)
	if err != nil || n < 0 || strconv.Itoa(n) != s {
		return 0, fmt.Errorf("bad length %q", s)
	}
	return n, nil
}

func (p *parser) quoted() (string, error) {
	n, err := p.count()
	if err != nil {
		return "", err
	}
	if err := p.lit(`"`); err != nil {
		return "", err
	}
	if n > len(p.b)-p.pos {
		return "", fmt.Errorf("string of %d bytes runs past the end", n)
	}
	s := string(p.b[p.pos : p.pos+n])
	p.pos += n
	return s, p.lit(`"`)
}

func (p *parser) value(depth int) (*Node, error) {
	if p.pos >= len(p.b) {
		return nil, fmt.Errorf("unexpected end")
	}
	n := &Node{K: p.b[p.pos]}
	p.pos++
	switch n.K {
	case 'N':
		return n, p.lit(";")
	case 'b', 'i', 'd':
		if err := p.lit(":"); err != nil {
			return nil, err
		}
		s, err := p.until(';')
		if err != nil {
			return nil, err
		}
		n.Text = s
		switch n.K {
		case 'b':
			if s != "0" && s != "1" {
				return nil, fmt.Errorf("bad bool %q", s)
			}
		case 'i':
			if !canonicalInt(s) {
				return nil, fmt.Errorf("bad integer %q", s)
			}
		case 'd':
			if s != "NAN" && s != "INF" && s != "-INF" {
				if _, err := strconv.ParseFloat(s, 64); err != nil || strings.Trim(s, "0123456789+-.eE") != "" {
					return nil, fmt.Errorf("bad float %q", s)
				}
			}
		}
		return n, nil
	case 's':
		if err := p.lit(":"); err != nil {
			return nil, err
		}
		s, err := p.quoted()
		if err != nil {
			return nil, err
		}
		n.Str = s
		return n, p.lit(";")
	case 'O', 'a':
		if err := p.lit(":"); err != nil {
			return nil, err
		}
		if n.K == 'O' {
			s, err := p.quoted()
			if err != nil {
				return nil, err
			}
			n.Str = s
			if err := p.lit(":"); err != nil {
				return nil, err
			}
		}
		c, err := p.count()
		if err != nil {
			return nil, err
		}
		if err := p.lit("{"); err != nil {
			return nil, err
		}
		for range c {
			k, err := p.value(depth + 1)
			if err != nil {
				return nil, err
			}
			if k.K != 'i' && k.K != 's' {
				return nil, fmt.Errorf("bad key type %q", k.K)
			}
			v, err := p.value(depth + 1)
			if err != nil {
				return nil, err
			}
			n.Ent = append(n.Ent, Entry{k, v})
		}
		return n, p.lit("}")
	}
	return nil, fmt.Errorf("bad type %q at %d", n.K, p.pos-1)
}

func canonicalInt(s string) bool {
	t := strings.TrimPrefix(s, "-")
	if t == "" || strings.Trim(t, "0123456789") != "" {
		return false
	}
	return s == "0" || t[0] != '0'
}

func sortEntries(es []Entry) {
	sort.Slice(es, func(i, j int) bool { return string(es[i].Key.Bytes()) < string(es[j].Key.Bytes()) })
}
