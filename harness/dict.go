package main

import (
	_ "embed"
	"encoding/json"
	"go/ast"
	"go/constant"
	goparser "go/parser"
	"go/token"
	"io/fs"
	"math"
	"os"
	"path/filepath"
	"runtime/debug"
	"slices"
	"strconv"
	"strings"
)

// The constants of the library's source direct the search, as the dictionary of a fuzzer does: a
// limit, a special length or a special name that the source mentions is tried more often than
// chance would. They are inputs only, no oracle knows them. Those that the source did not have when
// the baseline was written come first, as that is where a change is.

type dictionary struct {
	Ints []uint64 // the new ones only
	Strs []string // the new ones only
	All  []uint64 // every integer
	Text []string // every string
}

var dict dictionary

//go:embed dict_base.json
var dictBase []byte

const modulePath = "github.com/trim21/go-phpserialize"

// sourceDir is the directory the library was built from.
func sourceDir() string {
	bi, ok := debug.ReadBuildInfo()
	if !ok {
		return ""
	}
	for _, d := range bi.Deps {
		if d.Path == modulePath && d.Replace != nil {
			return d.Replace.Path
		}
	}
	return ""
}

// mine collects the constants of the source; what cannot be read is left out.
func mine(dir string) dictionary {
	ints, strs := map[uint64]bool{}, map[string]bool{}
	addInt := func(v constant.Value) {
		if v.Kind() == constant.Float {
			if i := constant.ToInt(v); i.Kind() == constant.Int {
				v = i
			} else {
				return
			}
		}
		if v.Kind() != constant.Int {
			return
		}
		if constant.Sign(v) < 0 {
			v = constant.UnaryOp(token.SUB, v, 0)
		}
		if u, ok := constant.Uint64Val(v); ok {
			ints[u] = true
		}
	}
	var files []*ast.File
	set := token.NewFileSet()
	_ = filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() {
			if n := d.Name(); path != dir && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "tests" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(path, ".go") && !strings.HasSuffix(path, "_test.go") && len(files) < 1000 {
			if f, err := goparser.ParseFile(set, path, nil, 0); err == nil {
				files = append(files, f)
			}
		}
		return nil
	})
	// constants by name, whatever their scope
	names := map[string]constant.Value{}
	var eval func(e ast.Expr) constant.Value
	eval = func(e ast.Expr) (v constant.Value) {
		defer func() {
			if recover() != nil {
				v = nil
			}
		}()
		switch e := e.(type) {
		case *ast.BasicLit:
			if v := constant.MakeFromLiteral(e.Value, e.Kind, 0); v.Kind() != constant.Unknown {
				return v
			}
		case *ast.ParenExpr:
			return eval(e.X)
		case *ast.Ident:
			return names[e.Name]
		case *ast.CallExpr: // a conversion
			if id, ok := e.Fun.(*ast.Ident); ok && len(e.Args) == 1 && strings.Contains(" int int8 int16 int32 int64 uint uint8 uint16 uint32 uint64 uintptr byte rune float64 float32 string ", " "+id.Name+" ") {
				return eval(e.Args[0])
			}
		case *ast.UnaryExpr:
			if x := eval(e.X); x != nil {
				return constant.UnaryOp(e.Op, x, 0)
			}
		case *ast.BinaryExpr:
			x, y := eval(e.X), eval(e.Y)
			if x == nil || y == nil {
				return nil
			}
			switch e.Op {
			case token.SHL, token.SHR:
				if n, ok := constant.Uint64Val(y); ok && n < 200 {
					return constant.Shift(x, e.Op, uint(n))
				}
			case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT, token.REM:
				return constant.BinaryOp(x, e.Op, y)
			case token.QUO:
				if x.Kind() == constant.Int && y.Kind() == constant.Int {
					return constant.BinaryOp(x, token.QUO_ASSIGN, y)
				}
			}
		}
		return nil
	}
	for range 3 { // as they refer to each other
		for _, f := range files {
			ast.Inspect(f, func(n ast.Node) bool {
				if s, ok := n.(*ast.ValueSpec); ok {
					for i, id := range s.Names {
						if i < len(s.Values) && id.Name != "_" {
							if v := eval(s.Values[i]); v != nil {
								names[id.Name] = v
							}
						}
					}
				}
				return true
			})
		}
	}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.Field:
				if n.Tag != nil {
					return false
				}
			case ast.Expr:
				if _, ok := n.(*ast.Ident); ok {
					return true
				}
				v := eval(n)
				if v == nil {
					return true
				}
				switch v.Kind() {
				case constant.String:
					if s := constant.StringVal(v); len(s) > 0 && len(s) <= 200 {
						strs[s] = true
					}
				case constant.Int, constant.Float:
					addInt(v)
					if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.CHAR {
						if r, ok := constant.Int64Val(v); ok && r > 0 {
							if r < 256 {
								strs[string([]byte{byte(r)})] = true
							} else {
								strs[string(rune(r))] = true
							}
						}
					}
				}
			}
			return true
		})
	}
	var saved savedDict
	die(json.Unmarshal(dictBase, &saved))
	base := saved.dictionary()
	var d dictionary
	for v := range ints {
		d.All = append(d.All, v)
		if v > 1 && !slices.Contains(base.All, v) {
			d.Ints = append(d.Ints, v)
		}
	}
	for s := range strs {
		if len(s) > 1 && strings.ContainsAny(s, "% ") && len(s) > 12 { // a message
			continue
		}
		d.Text = append(d.Text, s)
		if !slices.Contains(base.Text, s) {
			d.Strs = append(d.Strs, s)
		}
	}
	slices.Sort(d.Ints)
	slices.Sort(d.Strs)
	slices.Sort(d.All)
	slices.Sort(d.Text)
	return d
}

func (d dictionary) save(dir string) {
	b, err := json.Marshal(toSaved(d))
	die(err)
	die(os.WriteFile(filepath.Join(dir, "dict.json"), b, 0o644))
}

func loadDict(dir string) {
	b, err := os.ReadFile(filepath.Join(dir, "dict.json"))
	if err != nil {
		return
	}
	var s savedDict
	die(json.Unmarshal(b, &s))
	dict = s.dictionary()
}

// savedDict is the form of files: strings of any bytes are quoted.
type savedDict struct {
	Ints []uint64 `json:",omitempty"`
	Strs []string `json:",omitempty"`
	All  []uint64
	Text []string
}

func toSaved(d dictionary) *savedDict {
	q := func(ss []string) (out []string) {
		for _, s := range ss {
			out = append(out, strconv.QuoteToASCII(s))
		}
		return
	}
	return &savedDict{d.Ints, q(d.Strs), d.All, q(d.Text)}
}

func (s *savedDict) dictionary() dictionary {
	u := func(ss []string) (out []string) {
		for _, s := range ss {
			if v, err := strconv.Unquote(s); err == nil {
				out = append(out, v)
			}
		}
		return
	}
	return dictionary{s.Ints, u(s.Strs), s.All, u(s.Text)}
}

// near is a value at or next to one of the values.
func near(t *T, vs []uint64) uint64 {
	v := pick(t, vs)
	return v + []uint64{0, 1, math.MaxUint64, 2, math.MaxUint64 - 1}[t.W(6, 4, 3, 1, 1)]
}

// dictInt now and then gives a constant of the source, or a value next to it.
func (t *T) dictInt() (uint64, bool) {
	if len(dict.Ints) > 0 && t.Chance(1, 6) {
		return near(t, dict.Ints), true
	}
	if len(dict.All) > 0 && t.Chance(1, 30) {
		return near(t, dict.All), true
	}
	return 0, false
}

// dictWithin gives a new constant of the source within the bounds.
func (t *T) dictWithin(lo, hi int) (int, bool) {
	if len(dict.Ints) == 0 || !t.Chance(1, 5) {
		return 0, false
	}
	v := near(t, dict.Ints)
	if v > math.MaxInt || int(v) < lo || int(v) > hi {
		return 0, false
	}
	return int(v), true
}

// dictStr now and then gives a string of the source, or one with it.
func (t *T) dictStr() (string, bool) {
	var s string
	switch {
	case len(dict.Strs) > 0 && t.Chance(1, 6):
		s = pick(t, dict.Strs)
	case len(dict.Text) > 0 && t.Chance(1, 40):
		s = pick(t, dict.Text)
	default:
		return "", false
	}
	switch t.W(5, 2, 2, 1, 1, 1) {
	case 1:
		s += pick(t, stringAtoms)
	case 2:
		s = pick(t, stringAtoms) + s
	case 3:
		s = strings.ToUpper(s)
	case 4:
		s = strings.Repeat(s, t.N(8)+2)
	case 5:
		s = strings.Repeat("q", t.N(12)) + s + strings.Repeat("q", t.N(12))
	}
	return s, true
}
