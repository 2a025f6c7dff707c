package main

import (
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"unicode"
)

// The reference encoder: what the documentation and the tests of the repository say Marshal writes.

type fieldInfo struct {
	idx       int
	key       string
	omitEmpty bool
	asString  bool
	typ       reflect.Type
}

func validTagName(s string) bool {
	if s == "" {
		return false
	}
	for _, r := range s {
		if !unicode.IsLetter(r) && !unicode.IsDigit(r) && !strings.ContainsRune("!#$%&()*+-./:<=>?@[]^_{|}~ ", r) {
			return false
		}
	}
	return true
}

func fieldsOf(rt reflect.Type) (fs []fieldInfo) {
	for i := 0; i < rt.NumField(); i++ {
		f := rt.Field(i)
		tag := f.Tag.Get("php")
		if !f.IsExported() || tag == "-" {
			continue
		}
		name, rest, _ := strings.Cut(tag, ",")
		fi := fieldInfo{idx: i, key: f.Name, typ: f.Type}
		if validTagName(name) {
			fi.key = name
		}
		for _, o := range strings.Split(rest, ",") {
			switch o {
			case "omitempty":
				fi.omitEmpty = true
			case "string":
				fi.asString = true
			}
		}
		fs = append(fs, fi)
	}
	return
}

var errModel = errors.New("model: not encodable")

func refEncode(v any) (*Node, error) {
	if v == nil {
		return nNull(), nil
	}
	return refEnc(reflect.ValueOf(v))
}

func refEnc(rv reflect.Value) (*Node, error) {
	rt := rv.Type()
	switch rv.Kind() {
	case reflect.Interface, reflect.Pointer:
		if rv.IsNil() {
			return nNull(), nil
		}
		if rv.Kind() == reflect.Interface {
			return refEnc(rv.Elem())
		}
	}
	switch v := rv.Interface().(type) {
	case Reent:
		return refEncode(v.V)
	case *Reent:
		return refEncode(v.V)
	}
	if rt.Implements(marshalerIface) {
		b, err := rv.Interface().(marshalerI).MarshalPHP()
		if err != nil {
			return nil, err
		}
		return &Node{K: 'r', Str: string(b)}, nil
	}
	if rt == bytesType {
		return nStr(string(rv.Bytes())), nil
	}
	switch rv.Kind() {
	case reflect.Pointer:
		return refEnc(rv.Elem())
	case reflect.Bool:
		return nBool(rv.Bool()), nil
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return nInt(rv.Int()), nil
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return nUint(rv.Uint()), nil
	case reflect.Float32:
		return nFloat(rv.Float(), 32), nil
	case reflect.Float64:
		return nFloat(rv.Float(), 64), nil
	case reflect.String:
		return nStr(rv.String()), nil
	case reflect.Slice:
		if rv.IsNil() {
			return nNull(), nil
		}
		fallthrough
	case reflect.Array:
		n := &Node{K: 'a'}
		for i := 0; i < rv.Len(); i++ {
			e, err := refEnc(rv.Index(i))
			if err != nil {
				return nil, err
			}
			n.Ent = append(n.Ent, Entry{nInt(int64(i)), e})
		}
		return n, nil
	case reflect.Map:
		if rv.IsNil() {
			return nNull(), nil
		}
		n := &Node{K: 'a', Unord: true}
		it := rv.MapRange()
		for it.Next() {
			var k *Node
			switch key := it.Key(); key.Kind() {
			case reflect.String:
				k = nStr(key.String())
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				k = nInt(key.Int())
			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
				k = nUint(key.Uint())
			default:
				return nil, errModel
			}
			e, err := refEnc(it.Value())
			if err != nil {
				return nil, err
			}
			n.Ent = append(n.Ent, Entry{k, e})
		}
		sortEntries(n.Ent) // only so that the model itself is deterministic
		return n, nil
	case reflect.Struct:
		n := &Node{K: 'a'}
		for _, f := range fieldsOf(rt) {
			v := rv.Field(f.idx)
			if f.omitEmpty && v.IsZero() {
				continue
			}
			var e *Node
			var err error
			if f.asString {
				e, err = refEncString(v)
			} else {
				e, err = refEnc(v)
			}
			if err != nil {
				return nil, err
			}
			n.Ent = append(n.Ent, Entry{nStr(f.key), e})
		}
		return n, nil
	}
	return nil, fmt.Errorf("%w: %s", errModel, rt)
}

func refEncString(v reflect.Value) (*Node, error) {
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() {
			return nNull(), nil
		}
		return refEncString(v.Elem())
	case reflect.Bool:
		return nStr(strconv.FormatBool(v.Bool())), nil
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return nStr(strconv.FormatInt(v.Int(), 10)), nil
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return nStr(strconv.FormatUint(v.Uint(), 10)), nil
	case reflect.Float32:
		return nStr(floatPlain(v.Float(), 32)), nil
	case reflect.Float64:
		return nStr(floatPlain(v.Float(), 64)), nil
	case reflect.String:
		return nStr(v.String()), nil
	}
	return nil, errModel
}
