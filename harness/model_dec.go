package main

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"unsafe"
)

// The reference decoder: what Unmarshal does to a destination, for a well-formed document
// with correct counts.

var errDecode = errors.New("model: not decodable")

type decModel struct {
	unspec string // not empty: the document left the specified domain, nothing can be concluded
}

func mdErr(n *Node, rt reflect.Type) error {
	return fmt.Errorf("%w: %s into %s", errDecode, clip(n.Bytes()), typeName(rt))
}

func (d *decModel) decode(n *Node, rv reflect.Value) error {
	rt := rv.Type()
	if reflect.PointerTo(rt).Implements(unmarshalerIface) && rv.Kind() != reflect.Interface {
		if n.K == 'N' {
			rv.SetZero()
			return nil
		}
		v := reflect.New(rt)
		if rt == typeOf[ReentU]() {
			if err := d.decode(n, v.Elem().Field(0)); err != nil {
				return err
			}
			rv.Set(v.Elem())
			return nil
		}
		if err := v.Interface().(unmarshalerI).UnmarshalPHP(n.Bytes()); err != nil {
			return err
		}
		rv.Set(v.Elem())
		return nil
	}
	switch rv.Kind() {
	case reflect.Pointer:
		if n.K == 'N' {
			rv.SetZero()
			return nil
		}
		if rv.IsNil() {
			rv.Set(reflect.New(rt.Elem()).Convert(rt))
		}
		return d.decode(n, rv.Elem())
	case reflect.Interface:
		if rt.NumMethod() > 0 {
			if !rv.IsNil() {
				if u, ok := rv.Interface().(unmarshalerI); ok {
					if n.K == 'N' {
						rv.SetZero()
						return nil
					}
					return u.UnmarshalPHP(n.Bytes())
				}
			}
			if n.K == 'N' {
				rv.SetZero()
				return nil
			}
			return mdErr(n, rt)
		}
		v, err := d.any(n)
		if err != nil {
			return err
		}
		if v == nil {
			rv.SetZero()
		} else {
			rv.Set(reflect.ValueOf(v))
		}
		return nil
	case reflect.Bool:
		switch n.K {
		case 'N':
			return nil
		case 'b':
			rv.SetBool(n.Text == "1")
			return nil
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		switch n.K {
		case 'N':
			return nil
		case 'i':
			return d.setInt(n, n.Text, rv)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		switch n.K {
		case 'N':
			return nil
		case 'i':
			return d.setUint(n, n.Text, rv)
		}
	case reflect.Float32, reflect.Float64:
		switch n.K {
		case 'N':
			return nil
		case 'd':
			return d.setFloat(n, n.Text, rv)
		}
	case reflect.String:
		switch n.K {
		case 'N':
			return nil
		case 's':
			rv.SetString(n.Str)
			return nil
		}
	case reflect.Slice:
		isBytes := rt.Elem().Kind() == reflect.Uint8
		switch n.K {
		case 'N':
			if !isBytes {
				rv.SetZero()
			}
			return nil
		case 's':
			if isBytes {
				b := reflect.MakeSlice(rt, len(n.Str), len(n.Str))
				reflect.Copy(b, reflect.ValueOf(n.Str))
				rv.Set(b)
				return nil
			}
		case 'a':
			size := 0
			seen := map[int64]bool{}
			for _, e := range n.Ent {
				i, err := index(e.Key)
				if err != nil {
					return mdErr(n, rt)
				}
				if seen[i] {
					d.unspec = "repeated index"
				}
				seen[i] = true
				if i >= 1<<24 || uint64(i)*uint64(max(1, rt.Elem().Size())) > 64<<20 {
					d.unspec = "huge index"
					return nil
				}
				size = max(size, int(i)+1)
			}
			s := reflect.MakeSlice(rt, size, size)
			for _, e := range n.Ent {
				i, _ := index(e.Key)
				if err := d.decode(e.Val, s.Index(int(i))); err != nil {
					return err
				}
			}
			rv.Set(s)
			return nil
		}
	case reflect.Array:
		switch n.K {
		case 'N':
			return nil
		case 'a':
			rv.SetZero()
			seen := map[int64]bool{}
			for _, e := range n.Ent {
				i, err := index(e.Key)
				if err != nil {
					return mdErr(n, rt)
				}
				if seen[i] {
					d.unspec = "repeated index"
				}
				seen[i] = true
				if i >= int64(rv.Len()) {
					continue
				}
				if err := d.decode(e.Val, rv.Index(int(i))); err != nil {
					return err
				}
			}
			return nil
		}
	case reflect.Map:
		switch n.K {
		case 'N':
			rv.SetZero()
			return nil
		case 'a', 'O':
			if rv.IsNil() {
				rv.Set(reflect.MakeMap(rt))
			}
			for _, e := range n.Ent {
				k := reflect.New(rt.Key()).Elem()
				if err := d.key(e.Key, k); err != nil {
					return err
				}
				v := reflect.New(rt.Elem()).Elem()
				if err := d.decode(e.Val, v); err != nil {
					return err
				}
				rv.SetMapIndex(k, v)
			}
			return nil
		}
	case reflect.Struct:
		switch n.K {
		case 'N':
			return nil
		case 'a', 'O':
			fs := map[string]fieldInfo{}
			for _, f := range fieldsOf(rt) {
				fs[f.key] = f
			}
			seen := map[string]bool{}
			for _, e := range n.Ent {
				if e.Key.K != 's' {
					d.unspec = "struct with a key that is not a string"
					return mdErr(n, rt)
				}
				f, ok := fs[e.Key.Str]
				if !ok {
					continue
				}
				if seen[e.Key.Str] {
					d.unspec = "repeated key"
				}
				seen[e.Key.Str] = true
				fv := rv.Field(f.idx)
				var err error
				if f.asString && stringTagApplies(f.typ) {
					err = d.fromString(e.Val, fv)
				} else {
					err = d.decode(e.Val, fv)
				}
				if err != nil {
					return err
				}
			}
			return nil
		}
	}
	return mdErr(n, rt)
}

func index(k *Node) (int64, error) {
	if k.K != 'i' {
		return 0, errDecode
	}
	v, err := strconv.ParseInt(k.Text, 10, 64)
	if err != nil || v < 0 {
		return 0, errDecode
	}
	return v, nil
}

func (d *decModel) setInt(n *Node, text string, rv reflect.Value) error {
	v, err := strconv.ParseInt(text, 10, rv.Type().Bits())
	if err != nil {
		return mdErr(n, rv.Type())
	}
	rv.SetInt(v)
	return nil
}

func (d *decModel) setUint(n *Node, text string, rv reflect.Value) error {
	if text == "-0" {
		d.unspec = "-0"
	}
	v, err := strconv.ParseUint(text, 10, rv.Type().Bits())
	if err != nil {
		return mdErr(n, rv.Type())
	}
	rv.SetUint(v)
	return nil
}

func parseFloatText(s string, bits int) (float64, error) {
	switch s {
	case "INF":
		return math.Inf(1), nil
	case "-INF":
		return math.Inf(-1), nil
	case "NAN":
		return math.NaN(), nil
	}
	return strconv.ParseFloat(s, bits)
}

func (d *decModel) setFloat(n *Node, text string, rv reflect.Value) error {
	f, err := parseFloatText(text, rv.Type().Bits())
	if err != nil {
		return mdErr(n, rv.Type())
	}
	rv.SetFloat(f)
	return nil
}

// stringTagApplies: the option only applies to scalars and pointers to them.
func stringTagApplies(rt reflect.Type) bool {
	if rt.Kind() == reflect.Pointer {
		rt = rt.Elem()
	}
	return canStringTag(rt, true)
}

func (d *decModel) fromString(n *Node, rv reflect.Value) error {
	if rv.Kind() == reflect.Pointer {
		if n.K == 'N' {
			rv.SetZero()
			return nil
		}
		if rv.IsNil() {
			rv.Set(reflect.New(rv.Type().Elem()).Convert(rv.Type()))
		}
		return d.fromString(n, rv.Elem())
	}
	switch n.K {
	case 'N':
		return nil
	case 's':
	default:
		return mdErr(n, rv.Type())
	}
	switch rv.Kind() {
	case reflect.String:
		rv.SetString(n.Str)
	case reflect.Bool:
		b, err := strconv.ParseBool(n.Str)
		if err != nil {
			return mdErr(n, rv.Type())
		}
		rv.SetBool(b)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return d.setInt(n, n.Str, rv)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return d.setUint(n, n.Str, rv)
	case reflect.Float32, reflect.Float64:
		return d.setFloat(n, n.Str, rv)
	}
	return nil
}

func (d *decModel) key(k *Node, kv reflect.Value) error {
	rt := kv.Type()
	if reflect.PointerTo(rt).Implements(unmarshalerIface) {
		return d.decode(k, kv)
	}
	switch kv.Kind() {
	case reflect.String:
		if k.K == 's' {
			kv.SetString(k.Str)
			return nil
		}
	case reflect.Interface:
		if rt.NumMethod() == 0 {
			v, err := d.any(k)
			if err == nil {
				kv.Set(reflect.ValueOf(v))
			}
			return err
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if k.K == 'i' {
			return d.setInt(k, k.Text, kv)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if k.K == 'i' {
			return d.setUint(k, k.Text, kv)
		}
	}
	return mdErr(k, rt)
}

func (d *decModel) any(n *Node) (any, error) {
	switch n.K {
	case 'N':
		return nil, nil
	case 'b':
		return n.Text == "1", nil
	case 'i':
		v, err := strconv.ParseInt(n.Text, 10, 64)
		if err != nil {
			return nil, mdErr(n, anyType)
		}
		return v, nil
	case 'd':
		v, err := parseFloatText(n.Text, 64)
		if err != nil {
			return nil, mdErr(n, anyType)
		}
		return v, nil
	case 's':
		return n.Str, nil
	case 'a':
		m := map[any]any{}
		for _, e := range n.Ent {
			k, err := d.any(e.Key)
			if err != nil {
				return nil, err
			}
			v, err := d.any(e.Val)
			if err != nil {
				return nil, err
			}
			m[k] = v
		}
		return m, nil
	case 'O':
		m := map[string]any{}
		for _, e := range n.Ent {
			if e.Key.K != 's' {
				return nil, mdErr(n, anyType)
			}
			v, err := d.any(e.Val)
			if err != nil {
				return nil, err
			}
			m[e.Key.Str] = v
		}
		return m, nil
	}
	return nil, mdErr(n, anyType)
}

// ---- comparing and copying ----

// diff compares two values of the same type, "" when equal. NaN equals NaN, the zeros differ,
// a nil slice equals an empty one.
func diff(want, got reflect.Value) string { return diffAt(want, got, "$", 0) }

func diffAt(a, b reflect.Value, path string, depth int) string {
	if !a.IsValid() || !b.IsValid() {
		if a.IsValid() != b.IsValid() {
			return path + ": one is missing"
		}
		return ""
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: want type %s, got %s", path, typeName(a.Type()), typeName(b.Type()))
	}
	ne := func() string {
		return fmt.Sprintf("%s: want %s, got %s", path, showDepth(a, 8), showDepth(b, 8))
	}
	switch a.Kind() {
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return ne()
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if a.Int() != b.Int() {
			return ne()
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if a.Uint() != b.Uint() {
			return ne()
		}
	case reflect.Float32, reflect.Float64:
		x, y := a.Float(), b.Float()
		if math.IsNaN(x) && math.IsNaN(y) {
			return ""
		}
		if math.Float64bits(x) != math.Float64bits(y) {
			return ne()
		}
	case reflect.String:
		if a.String() != b.String() {
			return ne()
		}
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: want length %d, got %d", path, a.Len(), b.Len())
		}
		if a.Type().Elem().Kind() == reflect.Uint8 {
			if string(a.Bytes()) != string(b.Bytes()) {
				return ne()
			}
			return ""
		}
		fallthrough
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if s := diffAt(a.Index(i), b.Index(i), path+"["+strconv.Itoa(i)+"]", depth+1); s != "" {
				return s
			}
		}
	case reflect.Map:
		if a.IsNil() != b.IsNil() {
			return ne()
		}
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: want %d entries, got %d: %s / %s", path, a.Len(), b.Len(), showDepth(a, 9), showDepth(b, 9))
		}
		it := a.MapRange()
		for it.Next() {
			v := b.MapIndex(it.Key())
			if !v.IsValid() {
				return fmt.Sprintf("%s: key %s is missing", path, show(it.Key()))
			}
			if s := diffAt(it.Value(), v, path+"["+clip([]byte(show(it.Key())))+"]", depth+1); s != "" {
				return s
			}
		}
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() != b.IsNil() {
			return ne()
		}
		if a.IsNil() || (a.Kind() == reflect.Pointer && a.UnsafePointer() == b.UnsafePointer()) {
			return ""
		}
		return diffAt(a.Elem(), b.Elem(), path+".*", depth+1)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if s := diffAt(a.Field(i), b.Field(i), path+"."+a.Type().Field(i).Name, depth+1); s != "" {
				return s
			}
		}
	}
	return ""
}

// deepCopy copies acyclic values without sharing.
func deepCopy(v reflect.Value) reflect.Value {
	c := reflect.New(v.Type()).Elem()
	copyInto(c, v)
	return c
}

func copyInto(dst, src reflect.Value) {
	switch src.Kind() {
	case reflect.Slice:
		if src.IsNil() {
			return
		}
		s := reflect.MakeSlice(src.Type(), src.Len(), src.Cap())
		for i := 0; i < src.Len(); i++ {
			copyInto(s.Index(i), src.Index(i))
		}
		dst.Set(s)
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			copyInto(dst.Index(i), src.Index(i))
		}
	case reflect.Map:
		if src.IsNil() {
			return
		}
		m := reflect.MakeMap(src.Type())
		it := src.MapRange()
		for it.Next() {
			m.SetMapIndex(it.Key(), deepCopy(it.Value()))
		}
		dst.Set(m)
	case reflect.Pointer:
		if src.IsNil() {
			return
		}
		p := reflect.New(src.Type().Elem())
		copyInto(p.Elem(), src.Elem())
		dst.Set(p.Convert(src.Type()))
	case reflect.Interface:
		if src.IsNil() {
			return
		}
		dst.Set(deepCopy(src.Elem()))
	case reflect.Struct:
		if !src.CanAddr() { // make the unexported fields reachable
			t := reflect.New(src.Type()).Elem()
			t.Set(src)
			src = t
		}
		for i := 0; i < src.NumField(); i++ {
			s, d := src.Field(i), dst.Field(i)
			if !d.CanSet() {
				s = reflect.NewAt(s.Type(), unsafe.Pointer(s.UnsafeAddr())).Elem()
				d = reflect.NewAt(d.Type(), unsafe.Pointer(d.UnsafeAddr())).Elem()
			}
			copyInto(d, s)
		}
	default:
		dst.Set(src)
	}
}
