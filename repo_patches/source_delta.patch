From f2537cea491c967238486b63b759e0e21b3bdf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:21 +0000
Subject: [PATCH 01/24] fix: Unmarshal into a nil interface returns an error
 instead of panicking

---
 unmarshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unmarshal.go b/unmarshal.go
index 8388124..b60e3dc 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -29,7 +29,7 @@ func Unmarshal(data []byte, v any) error {
 func unmarshal(data []byte, v any) error {
 	rv := reflect.ValueOf(v)
 
-	rt := rv.Type()
+	rt := reflect.TypeOf(v)
 
 	if err := validateValue(rv, rt); err != nil {
 		return err
-- 
2.43.0


From cb63f8d9e5a5d5901ea5bd0322923c2aa57e262b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:22 +0000
Subject: [PATCH 02/24] fix: reject embedded struct pointers when encoding, as
 for embedded structs

---
 internal/encoder/struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/encoder/struct.go b/internal/encoder/struct.go
index 873da8b..832d850 100644
--- a/internal/encoder/struct.go
+++ b/internal/encoder/struct.go
@@ -129,7 +129,7 @@ func compileStructFieldsEncoders(rt reflect.Type, seen compileSeenMap) ([]struct
 		}
 
 		if field.Anonymous {
-			if field.Type.Kind() == reflect.Struct || (field.Type.Kind() == reflect.Ptr && field.Type.Kind() == reflect.Struct) {
+			if field.Type.Kind() == reflect.Struct || (field.Type.Kind() == reflect.Ptr && field.Type.Elem().Kind() == reflect.Struct) {
 				return nil, fmt.Errorf("supported for Anonymous struct field has been removed: %s", field.Type.String())
 			}
 		}
-- 
2.43.0


From 2637d320fe310ca68e4c3e5866b532dac869c155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:24 +0000
Subject: [PATCH 03/24] fix: encode fields tagged "-," under the key "-", as
 the decoder reads them

---
 internal/encoder/struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/encoder/struct.go b/internal/encoder/struct.go
index 832d850..e811d75 100644
--- a/internal/encoder/struct.go
+++ b/internal/encoder/struct.go
@@ -113,7 +113,7 @@ func compileStructFieldsEncoders(rt reflect.Type, seen compileSeenMap) ([]struct
 	for i := 0; i < rt.NumField(); i++ {
 		field := rt.Field(i)
 		cfg := runtime.StructTagFromField(field)
-		if cfg.Key == "-" || !cfg.Field.IsExported() {
+		if runtime.IsIgnoredStructField(field) {
 			continue
 		}
 
-- 
2.43.0


From 6e58766c8b2f471a88823e3a555bacc23e30b339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:25 +0000
Subject: [PATCH 04/24] fix: decoded byte slices no longer share spare capacity
 with each other

---
 internal/decoder/context.go       | 2 +-
 internal/decoder/interface.go     | 2 +-
 internal/decoder/unmarshal_php.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/decoder/context.go b/internal/decoder/context.go
index 8c9d61d..a882533 100644
--- a/internal/decoder/context.go
+++ b/internal/decoder/context.go
@@ -284,7 +284,7 @@ func readString(buf []byte, cursor int64) ([]byte, int64, error) {
 
 	cursor++
 
-	return buf[start:end], cursor, nil
+	return buf[start:end:end], cursor, nil
 }
 
 func readIntegerBytes(buf []byte, cursor int64) ([]byte, int64, error) {
diff --git a/internal/decoder/interface.go b/internal/decoder/interface.go
index 61e21ed..e1cf67a 100644
--- a/internal/decoder/interface.go
+++ b/internal/decoder/interface.go
@@ -107,7 +107,7 @@ func decodePHPUnmarshaler(buf []byte, cursor, depth int64, unmarshaler Unmarshal
 	if err != nil {
 		return 0, err
 	}
-	src := buf[start:end]
+	src := buf[start:end:end]
 	if bytes.Equal(src, nullbytes) {
 		rv.SetZero()
 		return end, nil
diff --git a/internal/decoder/unmarshal_php.go b/internal/decoder/unmarshal_php.go
index f276c9a..89850ac 100644
--- a/internal/decoder/unmarshal_php.go
+++ b/internal/decoder/unmarshal_php.go
@@ -49,7 +49,7 @@ func (d *unmarshalPHPDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, r
 	if err != nil {
 		return 0, err
 	}
-	src := buf[start:end]
+	src := buf[start:end:end]
 	if len(src) > 0 {
 		switch src[0] {
 		case '[':
-- 
2.43.0


From 1a396f54a2a43f359258296793c37c0751eae190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:26 +0000
Subject: [PATCH 05/24] fix: accept the string tag option on string fields when
 decoding

---
 internal/decoder/wrapped_string.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/decoder/wrapped_string.go b/internal/decoder/wrapped_string.go
index b467272..3ee239b 100644
--- a/internal/decoder/wrapped_string.go
+++ b/internal/decoder/wrapped_string.go
@@ -34,6 +34,8 @@ func newWrappedStringDecoder(typ reflect.Type, dec Decoder, structName, fieldNam
 	case *ptrDecoder:
 		err := v.wrapString()
 		return dec, err
+	case *stringDecoder:
+		return v, nil
 	default:
 		return nil, &errors.UnsupportedTypeError{Type: typ}
 	}
-- 
2.43.0


From 22d9953bd4baba2212ea0f7823eb3f5e4e5724a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:51 +0000
Subject: [PATCH 06/24] fix: decoding into a map with interface or pointer keys
 no longer panics

---
 internal/decoder/compile.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/internal/decoder/compile.go b/internal/decoder/compile.go
index 8460de8..6f24c07 100644
--- a/internal/decoder/compile.go
+++ b/internal/decoder/compile.go
@@ -141,17 +141,19 @@ func compileMapKey(typ reflect.Type, structName, fieldName string, structTypeToD
 		return nil, err
 	}
 
-	for {
-		switch t := dec.(type) {
-		case *stringDecoder, *interfaceDecoder:
-			return dec, nil
-		case *boolDecoder, *intDecoder, *uintDecoder:
-			return dec, nil
-		case *ptrDecoder:
-			dec = t.dec
-		default:
-			return newInvalidDecoder(typ, structName, fieldName), nil
+	switch t := dec.(type) {
+	case *interfaceDecoder:
+		if typ.NumMethod() == 0 {
+			// php array keys are integers or strings, anything else may not be hashable
+			return t.mapAnyKeyDecoder, nil
 		}
+		return dec, nil
+	case *stringDecoder:
+		return dec, nil
+	case *boolDecoder, *intDecoder, *uintDecoder:
+		return dec, nil
+	default:
+		return newInvalidDecoder(typ, structName, fieldName), nil
 	}
 }
 
-- 
2.43.0


From a484630152f9ba3aeb5b9621a65acab1d0358c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:08 +0000
Subject: [PATCH 07/24] fix: slice decoding no longer panics on a huge length
 or index, and grows in linear time

---
 internal/decoder/context.go |  5 +++++
 internal/decoder/slice.go   | 19 +++++++++++++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/internal/decoder/context.go b/internal/decoder/context.go
index a882533..75ec39e 100644
--- a/internal/decoder/context.go
+++ b/internal/decoder/context.go
@@ -257,6 +257,11 @@ func readLengthInt(buf []byte, cursor int64) (int, int64, error) {
 	return int(length), end, nil
 }
 
+// maximum number of array entries in the rest of input, the shortest entry is `i:0;N;`
+func maxArrayEntries(buf []byte, cursor int64) int {
+	return (len(buf) - int(cursor)) / 6
+}
+
 // `:${length}:"${content}";`
 func readString(buf []byte, cursor int64) ([]byte, int64, error) {
 	sLen, end, err := readLength(buf, cursor)
diff --git a/internal/decoder/slice.go b/internal/decoder/slice.go
index d3a3cbb..e31080d 100644
--- a/internal/decoder/slice.go
+++ b/internal/decoder/slice.go
@@ -26,6 +26,10 @@ type sliceHeader struct {
 	cap  int
 }
 
+// a slice is as long as the largest index, limit the size (in bytes) of a slice
+// whose index is larger than the number of elements that could be in the input.
+const maxSparseSliceSize = 1<<31 - 1
+
 func newSliceDecoder(dec Decoder, elemType reflect.Type, size uintptr, structName, fieldName string) *sliceDecoder {
 	return &sliceDecoder{
 		valueDecoder:      dec,
@@ -102,7 +106,8 @@ func (d *sliceDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 		}
 		cursor++
 
-		slice := reflect.MakeSlice(d.stype, 0, arrLen)
+		// the declared length is not trusted, a slice never needs more than the input can hold.
+		slice := reflect.MakeSlice(d.stype, 0, min(arrLen, maxArrayEntries(buf, cursor)))
 
 		for {
 			if !hasByte(buf, cursor) {
@@ -119,9 +124,15 @@ func (d *sliceDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 			}
 
 			if currentIndex >= slice.Len() {
-				newSlice := reflect.MakeSlice(d.stype, currentIndex+1, currentIndex+1)
-				reflect.Copy(newSlice, slice)
-				slice = newSlice
+				if currentIndex >= slice.Cap() {
+					if currentIndex >= len(buf) && uintptr(currentIndex) >= maxSparseSliceSize/max(d.size, 1) {
+						return 0, errors.ErrSyntax("php-serialize: array index is too large for slice", cursor)
+					}
+					newSlice := reflect.MakeSlice(d.stype, slice.Len(), max(currentIndex+1, slice.Cap()*2))
+					reflect.Copy(newSlice, slice)
+					slice = newSlice
+				}
+				slice = slice.Slice(0, currentIndex+1)
 			}
 
 			c, err := d.valueDecoder.Decode(ctx, cursor, depth, slice.Index(currentIndex))
-- 
2.43.0


From 3acd5d313822dfb151d22583cbc299dc9f526fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:08 +0000
Subject: [PATCH 08/24] fix: a declared length no longer makes map decoding
 allocate more than the input can fill

---
 internal/decoder/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/decoder/map.go b/internal/decoder/map.go
index 203a84e..e41b3cf 100644
--- a/internal/decoder/map.go
+++ b/internal/decoder/map.go
@@ -75,7 +75,7 @@ func (d *mapDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect
 	}
 
 	if rv.IsNil() {
-		rv.Set(reflect.MakeMapWithSize(d.mapType, int(l)))
+		rv.Set(reflect.MakeMapWithSize(d.mapType, int(min(l, int64(maxArrayEntries(buf, cursor))))))
 	}
 
 	cursor++
-- 
2.43.0


From 4370d83327a264aa3fa987a392646662b29fa5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:33 +0000
Subject: [PATCH 09/24] fix: decode into recursive slice, map, array and
 pointer types without overflowing the stack

---
 internal/decoder/compile.go | 35 ++++++++++++++++++++++++++++++-----
 internal/decoder/ptr.go     |  2 +-
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/internal/decoder/compile.go b/internal/decoder/compile.go
index 6f24c07..1773dc2 100644
--- a/internal/decoder/compile.go
+++ b/internal/decoder/compile.go
@@ -158,11 +158,15 @@ func compileMapKey(typ reflect.Type, structName, fieldName string, structTypeToD
 }
 
 func compilePtr(typ reflect.Type, structName, fieldName string, structTypeToDecoder map[reflect.Type]Decoder) (Decoder, error) {
-	dec, err := compile(typ.Elem(), structName, fieldName, structTypeToDecoder)
+	ptrDec, err := newPtrDecoder(nil, typ.Elem(), structName, fieldName)
 	if err != nil {
 		return nil, err
 	}
-	return newPtrDecoder(dec, typ.Elem(), structName, fieldName)
+	ptrDec.dec, err = compile(typ.Elem(), structName, fieldName, structTypeToDecoder)
+	if err != nil {
+		return nil, err
+	}
+	return ptrDec, nil
 }
 
 func compileInt(typ reflect.Type, structName, fieldName string) (Decoder, error) {
@@ -226,33 +230,54 @@ func compileBytes(typ reflect.Type, structName, fieldName string) (Decoder, erro
 }
 
 func compileSlice(typ reflect.Type, structName, fieldName string, structTypeToDecoder map[reflect.Type]Decoder) (Decoder, error) {
+	if dec, exists := structTypeToDecoder[typ]; exists {
+		return dec, nil
+	}
 	elem := typ.Elem()
+	sliceDec := newSliceDecoder(nil, elem, elem.Size(), structName, fieldName)
+	structTypeToDecoder[typ] = sliceDec
 	decoder, err := compile(elem, structName, fieldName, structTypeToDecoder)
 	if err != nil {
 		return nil, err
 	}
-	return newSliceDecoder(decoder, elem, elem.Size(), structName, fieldName), nil
+	sliceDec.valueDecoder = decoder
+	delete(structTypeToDecoder, typ)
+	return sliceDec, nil
 }
 
 func compileArray(typ reflect.Type, structName, fieldName string, structTypeToDecoder map[reflect.Type]Decoder) (Decoder, error) {
+	if dec, exists := structTypeToDecoder[typ]; exists {
+		return dec, nil
+	}
 	elem := typ.Elem()
+	arrayDec := newArrayDecoder(nil, elem, typ.Len(), structName, fieldName)
+	structTypeToDecoder[typ] = arrayDec
 	decoder, err := compile(elem, structName, fieldName, structTypeToDecoder)
 	if err != nil {
 		return nil, err
 	}
-	return newArrayDecoder(decoder, elem, typ.Len(), structName, fieldName), nil
+	arrayDec.valueDecoder = decoder
+	delete(structTypeToDecoder, typ)
+	return arrayDec, nil
 }
 
 func compileMap(typ reflect.Type, structName, fieldName string, structTypeToDecoder map[reflect.Type]Decoder) (Decoder, error) {
+	if dec, exists := structTypeToDecoder[typ]; exists {
+		return dec, nil
+	}
 	keyDec, err := compileMapKey(typ.Key(), structName, fieldName, structTypeToDecoder)
 	if err != nil {
 		return nil, err
 	}
+	mapDec := newMapDecoder(typ, typ.Key(), keyDec, typ.Elem(), nil, structName, fieldName)
+	structTypeToDecoder[typ] = mapDec
 	valueDec, err := compile(typ.Elem(), structName, fieldName, structTypeToDecoder)
 	if err != nil {
 		return nil, err
 	}
-	return newMapDecoder(typ, typ.Key(), keyDec, typ.Elem(), valueDec, structName, fieldName), nil
+	mapDec.valueDecoder = valueDec
+	delete(structTypeToDecoder, typ)
+	return mapDec, nil
 }
 
 func compileInterface(typ reflect.Type, structName, fieldName string) (Decoder, error) {
diff --git a/internal/decoder/ptr.go b/internal/decoder/ptr.go
index 91e68d7..7c78b1a 100644
--- a/internal/decoder/ptr.go
+++ b/internal/decoder/ptr.go
@@ -13,7 +13,7 @@ type ptrDecoder struct {
 	fieldName  string
 }
 
-func newPtrDecoder(dec Decoder, typ reflect.Type, structName, fieldName string) (Decoder, error) {
+func newPtrDecoder(dec Decoder, typ reflect.Type, structName, fieldName string) (*ptrDecoder, error) {
 	if typ.Kind() == reflect.Ptr {
 		return nil, &errors.UnsupportedTypeError{
 			Type: reflect.PointerTo(typ),
-- 
2.43.0


From ac72a1ae3cb640cdb1dbca32f916fe08639414da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:03 +0000
Subject: [PATCH 10/24] fix: encode types that are recursive through an array
 without overflowing the stack

---
 internal/encoder/array.go   | 28 +++++++++++++---------------
 internal/encoder/compile.go |  2 +-
 2 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/internal/encoder/array.go b/internal/encoder/array.go
index 32ca216..8b9409c 100644
--- a/internal/encoder/array.go
+++ b/internal/encoder/array.go
@@ -4,25 +4,22 @@ import (
 	"reflect"
 )
 
-func compileArray(rt reflect.Type) (encoder, error) {
+func compileArray(rt reflect.Type, seen compileSeenMap) (encoder, error) {
+	if recursiveEnc, exists := seen[rt]; exists {
+		return recursiveEnc.Encode, nil
+	}
+	recursiveEnc := &structRecEncoder{}
+	seen[rt] = recursiveEnc
+
 	length := rt.Len()
 	i64 := int64(length)
-	var enc encoder
-	var err error
 
-	if rt.Elem().Kind() == reflect.Map {
-		enc, err = compileWithCache(rt.Elem())
-		if err != nil {
-			return nil, err
-		}
-	} else {
-		enc, err = compileWithCache(rt.Elem())
-		if err != nil {
-			return nil, err
-		}
+	enc, err := compile(rt.Elem(), seen)
+	if err != nil {
+		return nil, err
 	}
 
-	return func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
+	recursiveEnc.enc = func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
 		b = appendArrayBegin(b, i64)
 
 		var err error // create a new error value, so shadow compiler's error
@@ -35,5 +32,6 @@ func compileArray(rt reflect.Type) (encoder, error) {
 		}
 
 		return append(b, '}'), nil
-	}, nil
+	}
+	return recursiveEnc.Encode, nil
 }
diff --git a/internal/encoder/compile.go b/internal/encoder/compile.go
index 39f32d6..c5030c2 100644
--- a/internal/encoder/compile.go
+++ b/internal/encoder/compile.go
@@ -36,7 +36,7 @@ func compile(rt reflect.Type, seen compileSeenMap) (encoder, error) {
 	case reflect.Struct:
 		return compileStruct(rt, seen)
 	case reflect.Array:
-		return compileArray(rt)
+		return compileArray(rt, seen)
 	case reflect.Slice:
 		return compileSlice(rt, seen)
 	case reflect.Map:
-- 
2.43.0


From 40e47f9038c7616dfd32eddef0818acdd8d46bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:05 +0000
Subject: [PATCH 11/24] fix: encode arrays stored in an interface

---
 internal/encoder/array.go     | 9 +++++++++
 internal/encoder/interface.go | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/internal/encoder/array.go b/internal/encoder/array.go
index 8b9409c..940d35b 100644
--- a/internal/encoder/array.go
+++ b/internal/encoder/array.go
@@ -35,3 +35,12 @@ func compileArray(rt reflect.Type, seen compileSeenMap) (encoder, error) {
 	}
 	return recursiveEnc.Encode, nil
 }
+
+func reflectArray(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
+	enc, err := compileWithCache(rv.Type())
+	if err != nil {
+		return nil, err
+	}
+
+	return enc(ctx, b, rv)
+}
diff --git a/internal/encoder/interface.go b/internal/encoder/interface.go
index 65c919f..cf350a7 100644
--- a/internal/encoder/interface.go
+++ b/internal/encoder/interface.go
@@ -50,6 +50,8 @@ LOOP:
 		return reflectRecursiveValue(ctx, b, rv, reflectMap)
 	case reflect.Struct:
 		return reflectStruct(ctx, b, rv)
+	case reflect.Array:
+		return reflectArray(ctx, b, rv)
 	}
 
 	return b, &UnsupportedInterfaceTypeError{rv.Type()}
-- 
2.43.0


From 73c5157c44934e1f20106022f4f5dc90b35a425a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:35 +0000
Subject: [PATCH 12/24] fix: encode a nil pointer or nil interface of a
 Marshaler type as null instead of panicking

---
 internal/encoder/marshal_php.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/encoder/marshal_php.go b/internal/encoder/marshal_php.go
index 8fff89a..ea1c07c 100644
--- a/internal/encoder/marshal_php.go
+++ b/internal/encoder/marshal_php.go
@@ -12,6 +12,13 @@ type Marshaler interface {
 
 func compileMarshaler(rt reflect.Type) (encoder, error) {
 	return func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
+		if rv.Kind() == reflect.Interface {
+			rv = rv.Elem()
+		}
+		if !rv.IsValid() || (rv.Kind() == reflect.Ptr && rv.IsNil()) {
+			return appendNull(b), nil
+		}
+
 		raw, err := rv.Interface().(Marshaler).MarshalPHP()
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 7e968dd4c94ba965938abe7d81e5805e36ceb8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:36 +0000
Subject: [PATCH 13/24] fix: call MarshalPHP on values stored in an interface
 and on pointer struct fields

---
 internal/encoder/interface.go   |  7 +++++++
 internal/encoder/marshal_php.go | 28 +++++++++++++++-------------
 internal/encoder/struct.go      |  5 ++++-
 3 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/internal/encoder/interface.go b/internal/encoder/interface.go
index cf350a7..09d8e78 100644
--- a/internal/encoder/interface.go
+++ b/internal/encoder/interface.go
@@ -21,12 +21,19 @@ LOOP:
 			if rv.IsNil() || rv.IsZero() {
 				return appendNull(b), nil
 			}
+			if rv.Type().Implements(marshalerType) {
+				return encodeMarshaler(ctx, b, rv)
+			}
 			rv = rv.Elem()
 		default:
 			break LOOP
 		}
 	}
 
+	if rv.Type().Implements(marshalerType) {
+		return encodeMarshaler(ctx, b, rv)
+	}
+
 	// simple type
 	switch rv.Type().Kind() {
 	case reflect.Bool:
diff --git a/internal/encoder/marshal_php.go b/internal/encoder/marshal_php.go
index ea1c07c..bd94c6e 100644
--- a/internal/encoder/marshal_php.go
+++ b/internal/encoder/marshal_php.go
@@ -11,19 +11,21 @@ type Marshaler interface {
 }
 
 func compileMarshaler(rt reflect.Type) (encoder, error) {
-	return func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
-		if rv.Kind() == reflect.Interface {
-			rv = rv.Elem()
-		}
-		if !rv.IsValid() || (rv.Kind() == reflect.Ptr && rv.IsNil()) {
-			return appendNull(b), nil
-		}
+	return encodeMarshaler, nil
+}
+
+func encodeMarshaler(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
+	if rv.Kind() == reflect.Interface {
+		rv = rv.Elem()
+	}
+	if !rv.IsValid() || (rv.Kind() == reflect.Ptr && rv.IsNil()) {
+		return appendNull(b), nil
+	}
 
-		raw, err := rv.Interface().(Marshaler).MarshalPHP()
-		if err != nil {
-			return nil, err
-		}
+	raw, err := rv.Interface().(Marshaler).MarshalPHP()
+	if err != nil {
+		return nil, err
+	}
 
-		return append(b, raw...), nil
-	}, nil
+	return append(b, raw...), nil
 }
diff --git a/internal/encoder/struct.go b/internal/encoder/struct.go
index e811d75..57dec34 100644
--- a/internal/encoder/struct.go
+++ b/internal/encoder/struct.go
@@ -141,7 +141,10 @@ func compileStructFieldsEncoders(rt reflect.Type, seen compileSeenMap) ([]struct
 				fieldEncoder, err = compileAsString(field.Type)
 			}
 		} else {
-			if field.Type.Kind() == reflect.Ptr {
+			if field.Type.Implements(marshalerType) {
+				fieldEncoder, err = compileMarshaler(field.Type)
+				isPtrField = false
+			} else if field.Type.Kind() == reflect.Ptr {
 				fieldEncoder, err = compile(field.Type.Elem(), seen)
 				if err == nil && field.Type.Elem().Kind() == reflect.Struct {
 					fieldEncoder = checkStructRecursiveEncoder(fieldEncoder)
-- 
2.43.0


From 316ca28c9738345ea4bc20e5ada9effa296f276e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:20 +0000
Subject: [PATCH 14/24] fix: values sharing an address are not reported as
 recursive

---
 internal/encoder/context.go   | 22 ++++++++++++++++++++--
 internal/encoder/interface.go | 12 ++++++++----
 internal/encoder/ptr.go       | 16 ++++++++--------
 3 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/internal/encoder/context.go b/internal/encoder/context.go
index 70f7717..a5d3800 100644
--- a/internal/encoder/context.go
+++ b/internal/encoder/context.go
@@ -1,6 +1,7 @@
 package encoder
 
 import (
+	"reflect"
 	"sync"
 	"unsafe"
 )
@@ -10,17 +11,34 @@ var ctxPool = sync.Pool{
 		return &Ctx{
 			Buf:         make([]byte, 0, 1024),
 			smallBuffer: make([]byte, 0, 20),
-			Seen:        make(map[unsafe.Pointer]empty, 100),
+			Seen:        make(map[seenKey]empty, 100),
 		}
 	},
 }
 
 type empty struct{}
 
+// seenKey identify a pointer, map or slice being encoded.
+// different values may share same address, for example, a slice and its sub-slice,
+// or a struct and its first field.
+type seenKey struct {
+	typ reflect.Type
+	ptr unsafe.Pointer
+	len int
+}
+
+func newSeenKey(rv reflect.Value) seenKey {
+	key := seenKey{typ: rv.Type(), ptr: rv.UnsafePointer()}
+	if rv.Kind() == reflect.Slice {
+		key.len = rv.Len()
+	}
+	return key
+}
+
 type Ctx struct {
 	smallBuffer []byte // a small buffer to encode float and time.Time as string
 	Buf         []byte
-	Seen        map[unsafe.Pointer]empty
+	Seen        map[seenKey]empty
 	StackDepth  uint
 }
 
diff --git a/internal/encoder/interface.go b/internal/encoder/interface.go
index 09d8e78..b12987a 100644
--- a/internal/encoder/interface.go
+++ b/internal/encoder/interface.go
@@ -52,6 +52,10 @@ LOOP:
 
 	switch rv.Kind() {
 	case reflect.Slice:
+		if rv.Type().Elem().Kind() != reflect.Interface {
+			// encoder of concrete slice will check recursive value by itself
+			return reflectConcreteSlice(ctx, b, rv)
+		}
 		return reflectRecursiveValue(ctx, b, rv, reflectSlice)
 	case reflect.Map:
 		return reflectRecursiveValue(ctx, b, rv, reflectMap)
@@ -65,13 +69,13 @@ LOOP:
 }
 
 func reflectRecursiveValue(ctx *Ctx, b []byte, rv reflect.Value, enc encoder) ([]byte, error) {
-	ptr := rv.UnsafePointer()
-	if _, seen := ctx.Seen[ptr]; seen {
+	key := newSeenKey(rv)
+	if _, seen := ctx.Seen[key]; seen {
 		return b, fmt.Errorf("php: try to encode recursive value of type %s", rv.Type())
 	}
-	ctx.Seen[ptr] = empty{}
+	ctx.Seen[key] = empty{}
 	b, err := enc(ctx, b, rv)
-	delete(ctx.Seen, ptr)
+	delete(ctx.Seen, key)
 	return b, err
 }
 
diff --git a/internal/encoder/ptr.go b/internal/encoder/ptr.go
index aed0db2..d6cf545 100644
--- a/internal/encoder/ptr.go
+++ b/internal/encoder/ptr.go
@@ -57,19 +57,19 @@ func checkStructRecursiveEncoder(enc encoder) encoder {
 
 		ctx.StackDepth++
 		tracked := ctx.StackDepth > 1000
-		ptr := rv.UnsafePointer()
+		key := newSeenKey(rv)
 		if tracked {
-			_, seen := ctx.Seen[ptr]
+			_, seen := ctx.Seen[key]
 			if seen {
 				ctx.StackDepth--
 				return b, fmt.Errorf("php: try to encode recursive value of type %s", rv.Type())
 			}
-			ctx.Seen[ptr] = empty{}
+			ctx.Seen[key] = empty{}
 		}
 
 		b, err := enc(ctx, b, rv.Elem())
 		if tracked {
-			delete(ctx.Seen, ptr)
+			delete(ctx.Seen, key)
 		}
 		ctx.StackDepth--
 
@@ -85,20 +85,20 @@ func checkRecursiveEncoder(enc encoder) encoder {
 
 		ctx.StackDepth++
 		tracked := ctx.StackDepth > 1000
-		ptr := rv.UnsafePointer()
+		key := newSeenKey(rv)
 		if tracked {
-			_, seen := ctx.Seen[ptr]
+			_, seen := ctx.Seen[key]
 			if seen {
 				ctx.StackDepth--
 				return b, fmt.Errorf("php: try to encode recursive value of type %s", rv.Type())
 			}
 
-			ctx.Seen[ptr] = empty{}
+			ctx.Seen[key] = empty{}
 		}
 
 		b, err := enc(ctx, b, rv)
 		if tracked {
-			delete(ctx.Seen, ptr)
+			delete(ctx.Seen, key)
 		}
 		ctx.StackDepth--
 
-- 
2.43.0


From 84753476ad180755df2736427266d925c99fb68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:02 +0000
Subject: [PATCH 15/24] fix: report values that are recursive through an
 interface or a pointer to an array

---
 internal/encoder/interface.go | 42 ++++++++++++++++------------------
 internal/encoder/ptr.go       | 43 ++++++++++++++++++++---------------
 internal/encoder/struct.go    |  9 +++++---
 3 files changed, 50 insertions(+), 44 deletions(-)

diff --git a/internal/encoder/interface.go b/internal/encoder/interface.go
index b12987a..b30c26c 100644
--- a/internal/encoder/interface.go
+++ b/internal/encoder/interface.go
@@ -14,20 +14,18 @@ func compileInterface(rt reflect.Type) (encoder, error) {
 }
 
 func reflectInterfaceValue(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
-LOOP:
-	for {
-		switch rv.Kind() {
-		case reflect.Ptr, reflect.Interface:
-			if rv.IsNil() || rv.IsZero() {
-				return appendNull(b), nil
-			}
-			if rv.Type().Implements(marshalerType) {
-				return encodeMarshaler(ctx, b, rv)
-			}
-			rv = rv.Elem()
-		default:
-			break LOOP
+	switch rv.Kind() {
+	case reflect.Ptr, reflect.Interface:
+		if rv.IsNil() || rv.IsZero() {
+			return appendNull(b), nil
+		}
+		if rv.Type().Implements(marshalerType) {
+			return encodeMarshaler(ctx, b, rv)
+		}
+		if rv.Kind() == reflect.Ptr {
+			return encodeRecursivePtr(ctx, b, rv, reflectInterfaceValue)
 		}
+		return reflectInterfaceValue(ctx, b, rv.Elem())
 	}
 
 	if rv.Type().Implements(marshalerType) {
@@ -86,17 +84,15 @@ func compileInterfaceAsString(rt reflect.Type) (encoder, error) {
 }
 
 func reflectInterfaceValueAsString(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
-LOOP:
-	for {
-		switch rv.Kind() {
-		case reflect.Ptr, reflect.Interface:
-			if rv.IsNil() || rv.IsZero() {
-				return appendNull(b), nil
-			}
-			rv = rv.Elem()
-		default:
-			break LOOP
+	switch rv.Kind() {
+	case reflect.Ptr, reflect.Interface:
+		if rv.IsNil() || rv.IsZero() {
+			return appendNull(b), nil
+		}
+		if rv.Kind() == reflect.Ptr {
+			return encodeRecursivePtr(ctx, b, rv, reflectInterfaceValueAsString)
 		}
+		return reflectInterfaceValueAsString(ctx, b, rv.Elem())
 	}
 
 	switch value := rv.Interface().(type) {
diff --git a/internal/encoder/ptr.go b/internal/encoder/ptr.go
index d6cf545..88b36f3 100644
--- a/internal/encoder/ptr.go
+++ b/internal/encoder/ptr.go
@@ -28,7 +28,10 @@ func compilePtr(rt reflect.Type, seen compileSeenMap) (encoder, error) {
 		return deRefNilEncoder(enc), err
 	case reflect.Struct:
 		enc, err := compileStruct(rt.Elem(), seen)
-		return checkStructRecursiveEncoder(enc), err
+		return checkPtrRecursiveEncoder(enc), err
+	case reflect.Array:
+		enc, err := compileArray(rt.Elem(), seen)
+		return checkPtrRecursiveEncoder(enc), err
 	}
 
 	enc, err := compile(rt.Elem(), seen)
@@ -49,32 +52,36 @@ func deRefNilEncoder(enc encoder) encoder {
 	}
 }
 
-func checkStructRecursiveEncoder(enc encoder) encoder {
+func checkPtrRecursiveEncoder(enc encoder) encoder {
 	return func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
 		if rv.IsNil() {
 			return appendNull(b), nil
 		}
 
-		ctx.StackDepth++
-		tracked := ctx.StackDepth > 1000
-		key := newSeenKey(rv)
-		if tracked {
-			_, seen := ctx.Seen[key]
-			if seen {
-				ctx.StackDepth--
-				return b, fmt.Errorf("php: try to encode recursive value of type %s", rv.Type())
-			}
-			ctx.Seen[key] = empty{}
-		}
+		return encodeRecursivePtr(ctx, b, rv, enc)
+	}
+}
 
-		b, err := enc(ctx, b, rv.Elem())
-		if tracked {
-			delete(ctx.Seen, key)
+func encodeRecursivePtr(ctx *Ctx, b []byte, rv reflect.Value, enc encoder) ([]byte, error) {
+	ctx.StackDepth++
+	tracked := ctx.StackDepth > 1000
+	key := newSeenKey(rv)
+	if tracked {
+		_, seen := ctx.Seen[key]
+		if seen {
+			ctx.StackDepth--
+			return b, fmt.Errorf("php: try to encode recursive value of type %s", rv.Type())
 		}
-		ctx.StackDepth--
+		ctx.Seen[key] = empty{}
+	}
 
-		return b, err
+	b, err := enc(ctx, b, rv.Elem())
+	if tracked {
+		delete(ctx.Seen, key)
 	}
+	ctx.StackDepth--
+
+	return b, err
 }
 
 func checkRecursiveEncoder(enc encoder) encoder {
diff --git a/internal/encoder/struct.go b/internal/encoder/struct.go
index 57dec34..5230963 100644
--- a/internal/encoder/struct.go
+++ b/internal/encoder/struct.go
@@ -146,9 +146,12 @@ func compileStructFieldsEncoders(rt reflect.Type, seen compileSeenMap) ([]struct
 				isPtrField = false
 			} else if field.Type.Kind() == reflect.Ptr {
 				fieldEncoder, err = compile(field.Type.Elem(), seen)
-				if err == nil && field.Type.Elem().Kind() == reflect.Struct {
-					fieldEncoder = checkStructRecursiveEncoder(fieldEncoder)
-					isPtrField = false
+				if err == nil {
+					switch field.Type.Elem().Kind() {
+					case reflect.Struct, reflect.Array, reflect.Interface:
+						fieldEncoder = checkPtrRecursiveEncoder(fieldEncoder)
+						isPtrField = false
+					}
 				}
 			} else {
 				fieldEncoder, err = compile(field.Type, seen)
-- 
2.43.0


From 448305faa52faafa1c224fb88157730b8802631e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:03 +0000
Subject: [PATCH 16/24] fix: accept strings and named types in interface fields
 with the string tag option

---
 internal/encoder/interface.go | 40 ++++++++++++-----------------------
 1 file changed, 13 insertions(+), 27 deletions(-)

diff --git a/internal/encoder/interface.go b/internal/encoder/interface.go
index b30c26c..d03b0cf 100644
--- a/internal/encoder/interface.go
+++ b/internal/encoder/interface.go
@@ -95,33 +95,19 @@ func reflectInterfaceValueAsString(ctx *Ctx, b []byte, rv reflect.Value) ([]byte
 		return reflectInterfaceValueAsString(ctx, b, rv.Elem())
 	}
 
-	switch value := rv.Interface().(type) {
-	case bool:
-		return appendBoolAsString(b, value)
-	case uint8:
-		return appendUintAsString(b, uint64(value))
-	case uint16:
-		return appendUintAsString(b, uint64(value))
-	case uint32:
-		return appendUintAsString(b, uint64(value))
-	case uint64:
-		return appendUintAsString(b, uint64(value))
-	case uint:
-		return appendUintAsString(b, uint64(value))
-	case int8:
-		return appendIntAsString(b, int64(value))
-	case int16:
-		return appendIntAsString(b, int64(value))
-	case int32:
-		return appendIntAsString(b, int64(value))
-	case int64:
-		return appendIntAsString(b, int64(value))
-	case int:
-		return appendIntAsString(b, int64(value))
-	case float32:
-		return appendFloat32AsString(ctx.smallBuffer[:0], b, value), nil
-	case float64:
-		return appendFloat64AsString(ctx.smallBuffer[:0], b, value), nil
+	switch rv.Kind() {
+	case reflect.Bool:
+		return appendBoolAsString(b, rv.Bool())
+	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
+		return appendUintAsString(b, rv.Uint())
+	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
+		return appendIntAsString(b, rv.Int())
+	case reflect.Float32:
+		return encodeFloat32AsString(ctx, b, rv)
+	case reflect.Float64:
+		return encodeFloat64AsString(ctx, b, rv)
+	case reflect.String:
+		return encodeString(ctx, b, rv)
 	}
 
 	// slice, map and struct as interface are not supported yet.
-- 
2.43.0


From 8dc45d1325c84dac29aeed1025a9244a6e7ea894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:57 +0000
Subject: [PATCH 17/24] fix: decode the text of a float32 to the nearest
 float32, the largest one included

---
 internal/decoder/float.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/decoder/float.go b/internal/decoder/float.go
index 27a6a12..1b596d1 100644
--- a/internal/decoder/float.go
+++ b/internal/decoder/float.go
@@ -61,6 +61,12 @@ func (d *floatDecoder) processBytes(bytes []byte, cursor int64, rv reflect.Value
 		f64 = math.NaN()
 	default:
 		f64, err = strconv.ParseFloat(unsafeStr(bytes), 64)
+		if err == nil && rv.Kind() == reflect.Float32 {
+			// the shortest decimal of a float32 is only exact when rounded to a float32 directly
+			if f32, err := strconv.ParseFloat(unsafeStr(bytes), 32); err == nil {
+				f64 = f32
+			}
+		}
 	}
 	if err != nil {
 		return 0, errors.ErrSyntax(err.Error(), cursor)
-- 
2.43.0


From ead23e16536eee8604806b3577c5bdf1efb19266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:47 +0000
Subject: [PATCH 18/24] fix: the declared lengths of all arrays together no
 longer allocate more than the input can fill

---
 internal/decoder/context.go | 13 ++++++++++---
 internal/decoder/map.go     |  2 +-
 internal/decoder/slice.go   |  3 +--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/internal/decoder/context.go b/internal/decoder/context.go
index 75ec39e..1315c8b 100644
--- a/internal/decoder/context.go
+++ b/internal/decoder/context.go
@@ -9,6 +9,7 @@ import (
 
 type RuntimeContext struct {
 	Buf          []byte
+	reserved     int64 // number of array entries already allocated from declared lengths
 	MaxMapSize   uint
 	MaxSliceSize uint
 }
@@ -27,6 +28,7 @@ func TakeRuntimeContext() *RuntimeContext {
 
 func ReleaseRuntimeContext(ctx *RuntimeContext) {
 	ctx.Buf = nil
+	ctx.reserved = 0
 	ctx.MaxSliceSize = 0
 	ctx.MaxMapSize = 0
 	runtimeContextPool.Put(ctx)
@@ -257,9 +259,14 @@ func readLengthInt(buf []byte, cursor int64) (int, int64, error) {
 	return int(length), end, nil
 }
 
-// maximum number of array entries in the rest of input, the shortest entry is `i:0;N;`
-func maxArrayEntries(buf []byte, cursor int64) int {
-	return (len(buf) - int(cursor)) / 6
+// reserve returns the number of array entries to allocate for a declared length.
+//
+// the declared length is not trusted. The shortest entry is `i:0;N;`, so all arrays in the input
+// together never have more entries than the input can hold.
+func (ctx *RuntimeContext) reserve(length int64) int {
+	n := max(min(length, int64(len(ctx.Buf)/6)-ctx.reserved), 0)
+	ctx.reserved += n
+	return int(n)
 }
 
 // `:${length}:"${content}";`
diff --git a/internal/decoder/map.go b/internal/decoder/map.go
index e41b3cf..9ff3943 100644
--- a/internal/decoder/map.go
+++ b/internal/decoder/map.go
@@ -75,7 +75,7 @@ func (d *mapDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect
 	}
 
 	if rv.IsNil() {
-		rv.Set(reflect.MakeMapWithSize(d.mapType, int(min(l, int64(maxArrayEntries(buf, cursor))))))
+		rv.Set(reflect.MakeMapWithSize(d.mapType, ctx.reserve(l)))
 	}
 
 	cursor++
diff --git a/internal/decoder/slice.go b/internal/decoder/slice.go
index e31080d..934da7d 100644
--- a/internal/decoder/slice.go
+++ b/internal/decoder/slice.go
@@ -106,8 +106,7 @@ func (d *sliceDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 		}
 		cursor++
 
-		// the declared length is not trusted, a slice never needs more than the input can hold.
-		slice := reflect.MakeSlice(d.stype, 0, min(arrLen, maxArrayEntries(buf, cursor)))
+		slice := reflect.MakeSlice(d.stype, 0, ctx.reserve(int64(arrLen)))
 
 		for {
 			if !hasByte(buf, cursor) {
-- 
2.43.0


From f8ae387faeaed81442afbaebd6753e228a14b21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:21 +0000
Subject: [PATCH 19/24] fix: decoder compile time is no longer exponential in
 the number of struct types that refer to each other

---
 internal/decoder/compile.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/internal/decoder/compile.go b/internal/decoder/compile.go
index 1773dc2..a78f9c6 100644
--- a/internal/decoder/compile.go
+++ b/internal/decoder/compile.go
@@ -346,7 +346,5 @@ func compileStruct(rt reflect.Type, structName, fieldName string, structTypeToDe
 		structDec.fieldMap[set.key] = set
 	}
 
-	delete(structTypeToDecoder, rt)
-
 	return structDec, nil
 }
-- 
2.43.0


From 42398a08b26daa0da772f5ee12236da5b3e65928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:58 +0000
Subject: [PATCH 20/24] fix: reject floats that are not in the format, also
 when they are skipped

---
 internal/decoder/context.go | 42 +++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/internal/decoder/context.go b/internal/decoder/context.go
index 1315c8b..028df27 100644
--- a/internal/decoder/context.go
+++ b/internal/decoder/context.go
@@ -357,9 +357,51 @@ func readFloatBytes(buf []byte, cursor int64) ([]byte, int64, error) {
 	if !hasByte(buf, cursor) {
 		return nil, cursor, errors.ErrUnexpectedEnd("float", cursor)
 	}
+	if !isFloat(buf[start:cursor]) {
+		return nil, start, errors.ErrSyntax("php-serialize: invalid float", start)
+	}
 	return buf[start:cursor], cursor + 1, nil
 }
 
+// isFloat reports whether b is a float as php writes and reads it: a decimal number, INF, -INF or NAN.
+func isFloat(b []byte) bool {
+	switch unsafeStr(b) {
+	case "INF", "-INF", "NAN":
+		return true
+	}
+	i := 0
+	sign := func() {
+		if i < len(b) && (b[i] == '-' || b[i] == '+') {
+			i++
+		}
+	}
+	digits := func() int {
+		start := i
+		for i < len(b) && isInteger[b[i]] {
+			i++
+		}
+		return i - start
+	}
+
+	sign()
+	n := digits()
+	if i < len(b) && b[i] == '.' {
+		i++
+		n += digits()
+	}
+	if n == 0 {
+		return false
+	}
+	if i < len(b) && (b[i] == 'e' || b[i] == 'E') {
+		i++
+		sign()
+		if digits() == 0 {
+			return false
+		}
+	}
+	return i == len(b)
+}
+
 func readBool(buf []byte, cursor int64) (bool, error) {
 	if !hasBytes(buf, cursor, 4) {
 		return false, errors.ErrUnexpectedEnd("bool", cursor)
-- 
2.43.0


From 84891b4d660891c5a62f386b6c1cccff7faf6051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:14 +0000
Subject: [PATCH 21/24] fix: reject null and other values that are not keys in
 the place of a key, also when they are skipped

---
 internal/decoder/context.go | 14 ++++++++++++++
 internal/decoder/map.go     |  6 ++++++
 internal/decoder/struct.go  |  3 +++
 3 files changed, 23 insertions(+)

diff --git a/internal/decoder/context.go b/internal/decoder/context.go
index 028df27..0c7522b 100644
--- a/internal/decoder/context.go
+++ b/internal/decoder/context.go
@@ -148,6 +148,9 @@ func skipArray(buf []byte, cursor, depth int64) (int64, error) {
 	}
 	cursor++
 	for range length {
+		if err := validateKey(buf, cursor); err != nil {
+			return cursor, err
+		}
 		cursor, err = skipValue(buf, cursor, depth)
 		if err != nil {
 			return cursor, err
@@ -222,6 +225,17 @@ func validateEmptyArray(buf []byte, cursor int64) error {
 	return nil
 }
 
+// keys of arrays and objects are integers or strings
+func validateKey(buf []byte, cursor int64) error {
+	if !hasByte(buf, cursor) {
+		return errors.ErrUnexpectedEnd("key", cursor)
+	}
+	if buf[cursor] != 'i' && buf[cursor] != 's' {
+		return errors.ErrUnexpected("'i' or 's' to start a key", cursor, buf[cursor])
+	}
+	return nil
+}
+
 func validateNull(buf []byte, cursor int64) error {
 	if cursor+1 >= int64(len(buf)) {
 		return errors.ErrUnexpectedEnd("null", cursor)
diff --git a/internal/decoder/map.go b/internal/decoder/map.go
index 9ff3943..49feaad 100644
--- a/internal/decoder/map.go
+++ b/internal/decoder/map.go
@@ -91,6 +91,12 @@ func (d *mapDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect
 		if !hasByte(buf, cursor) {
 			return cursor, errors.ErrUnexpectedEnd("map", cursor)
 		}
+		// keys of boolean type are read from booleans
+		if d.keyType.Kind() != reflect.Bool || buf[cursor] != 'b' {
+			if err := validateKey(buf, cursor); err != nil {
+				return 0, err
+			}
+		}
 		k := reflect.New(d.keyType)
 		keyCursor, err := d.keyDecoder.Decode(ctx, cursor, depth, k.Elem())
 		if err != nil {
diff --git a/internal/decoder/struct.go b/internal/decoder/struct.go
index 3eecfea..d4868fc 100644
--- a/internal/decoder/struct.go
+++ b/internal/decoder/struct.go
@@ -31,6 +31,9 @@ func newStructDecoder(structName, fieldName string, fieldMap map[string]*structF
 
 // TODO: this can be optimized for small size struct
 func decodeKey(d *structDecoder, buf []byte, cursor int64) (int64, *structFieldSet, error) {
+	if err := validateKey(buf, cursor); err != nil {
+		return 0, nil, err
+	}
 	key, c, err := d.stringDecoder.decodeByte(buf, cursor)
 	if err != nil {
 		return 0, nil, err
-- 
2.43.0


From 70be7afe59639fd23ebf3f0930d944bbd2898267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:12 +0000
Subject: [PATCH 22/24] fix: encoding nested structs no longer takes quadratic
 time and memory in their depth

---
 internal/encoder/buffer.go | 22 -------------------
 internal/encoder/struct.go | 44 ++++++++++++++++++++------------------
 2 files changed, 23 insertions(+), 43 deletions(-)
 delete mode 100644 internal/encoder/buffer.go

diff --git a/internal/encoder/buffer.go b/internal/encoder/buffer.go
deleted file mode 100644
index d9d8b02..0000000
--- a/internal/encoder/buffer.go
+++ /dev/null
@@ -1,22 +0,0 @@
-package encoder
-
-import "sync"
-
-type buffer struct {
-	b []byte
-}
-
-var bufferPool = sync.Pool{New: func() any {
-	return &buffer{b: make([]byte, 0, 1024)}
-}}
-
-func newBuffer() *buffer {
-	buf := bufferPool.Get().(*buffer)
-	buf.b = buf.b[:0]
-
-	return buf
-}
-
-func freeBuffer(buf *buffer) {
-	bufferPool.Put(buf)
-}
diff --git a/internal/encoder/struct.go b/internal/encoder/struct.go
index 5230963..e9469df 100644
--- a/internal/encoder/struct.go
+++ b/internal/encoder/struct.go
@@ -60,49 +60,51 @@ func compileStructFields(rt reflect.Type, seen compileSeenMap) (encoder, error)
 		return nil, compileErr
 	}
 
+	hasOmitEmpty := false
+	for _, field := range fields {
+		hasOmitEmpty = hasOmitEmpty || field.omitEmpty
+	}
+
 	return func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
 		// shadow compiler's error
 		var err error
 
-		buf := newBuffer()
-		defer freeBuffer(buf)
-		structBuffer := buf.b
-
-		var writtenField int64
-
-	FIELD:
-		for _, field := range fields {
-			v := rv.Field(field.index)
-
-			if field.omitEmpty {
-				if v.IsZero() {
+		// choose the fields first, so they can be written to b directly. Writing them to another buffer
+		// to count them copies everything once per level of nesting.
+		written := fields
+		if hasOmitEmpty {
+			written = make([]structEncoder, 0, len(fields))
+			for _, field := range fields {
+				if field.omitEmpty && rv.Field(field.index).IsZero() {
 					continue
 				}
+
+				written = append(written, field)
 			}
+		}
+
+		b = appendArrayBegin(b, int64(len(written)))
 
-			writtenField++
+		for _, field := range written {
+			v := rv.Field(field.index)
 
-			structBuffer = appendPhpStringVariable(ctx, structBuffer, field.fieldName)
+			b = appendPhpStringVariable(ctx, b, field.fieldName)
 
 			if field.ptr {
 				if v.IsNil() {
-					structBuffer = appendNull(structBuffer)
-					continue FIELD
+					b = appendNull(b)
+					continue
 				}
 
 				v = v.Elem()
 			}
 
-			structBuffer, err = field.encode(ctx, structBuffer, v)
+			b, err = field.encode(ctx, b, v)
 			if err != nil {
 				return b, err
 			}
 		}
 
-		b = appendArrayBegin(b, writtenField)
-		b = append(b, structBuffer...)
-		buf.b = structBuffer
-
 		return append(b, '}'), nil
 	}, nil
 }
-- 
2.43.0


From 40b4700423ba4fdfbec5fbf4f11bd0d00a7b1393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:04 +0000
Subject: [PATCH 23/24] fix: a null below the deepest allowed level of nesting
 is not too deep

---
 internal/decoder/array.go  | 2 +-
 internal/decoder/map.go    | 2 +-
 internal/decoder/slice.go  | 2 +-
 internal/decoder/struct.go | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/decoder/array.go b/internal/decoder/array.go
index f4047ba..8593a15 100644
--- a/internal/decoder/array.go
+++ b/internal/decoder/array.go
@@ -35,7 +35,7 @@ func (d *arrayDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 		return 0, errors.ErrUnexpectedEnd("array", cursor)
 	}
 	depth++
-	if depth > maxDecodeNestingDepth {
+	if depth > maxDecodeNestingDepth && buf[cursor] != 'N' { // null is not a level of nesting
 		return 0, errors.ErrExceededMaxDepth(buf[cursor], cursor)
 	}
 
diff --git a/internal/decoder/map.go b/internal/decoder/map.go
index 49feaad..e379dad 100644
--- a/internal/decoder/map.go
+++ b/internal/decoder/map.go
@@ -34,7 +34,7 @@ func (d *mapDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect
 		return 0, errors.ErrUnexpectedEnd("map", cursor)
 	}
 	depth++
-	if depth > maxDecodeNestingDepth {
+	if depth > maxDecodeNestingDepth && buf[cursor] != 'N' { // null is not a level of nesting
 		return 0, errors.ErrExceededMaxDepth(buf[cursor], cursor)
 	}
 
diff --git a/internal/decoder/slice.go b/internal/decoder/slice.go
index 934da7d..a7cf2f4 100644
--- a/internal/decoder/slice.go
+++ b/internal/decoder/slice.go
@@ -58,7 +58,7 @@ func (d *sliceDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 		return 0, errors.ErrUnexpectedEnd("slice", cursor)
 	}
 	depth++
-	if depth > maxDecodeNestingDepth {
+	if depth > maxDecodeNestingDepth && buf[cursor] != 'N' { // null is not a level of nesting
 		return 0, errors.ErrExceededMaxDepth(buf[cursor], cursor)
 	}
 
diff --git a/internal/decoder/struct.go b/internal/decoder/struct.go
index d4868fc..b6146eb 100644
--- a/internal/decoder/struct.go
+++ b/internal/decoder/struct.go
@@ -55,7 +55,7 @@ func (d *structDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refl
 		return 0, errors.ErrUnexpectedEnd("object", cursor)
 	}
 	depth++
-	if depth > maxDecodeNestingDepth {
+	if depth > maxDecodeNestingDepth && buf[cursor] != 'N' { // null is not a level of nesting
 		return 0, errors.ErrExceededMaxDepth(buf[cursor], cursor)
 	}
 	switch buf[cursor] {
-- 
2.43.0


From b3f88c0df5b34a3570fb4a11a8008ff8a9df9c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 24/24] fix: skip entries past a Go array whose index does not
 fit int on 32 bit platforms

---
 internal/decoder/array.go |  8 ++++----
 internal/decoder/int.go   | 17 +++++++++++++++--
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/internal/decoder/array.go b/internal/decoder/array.go
index 8593a15..7d4bb16 100644
--- a/internal/decoder/array.go
+++ b/internal/decoder/array.go
@@ -83,12 +83,12 @@ func (d *arrayDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 		}
 		cursor++
 
-		idx := 0
+		idx := int64(0)
 		for {
 			if !hasByte(buf, cursor) {
 				return cursor, errors.ErrUnexpectedEnd("array", cursor)
 			}
-			currentIndex, end, err := readInt(buf, cursor)
+			currentIndex, end, err := readIndex(buf, cursor)
 			if err != nil {
 				return 0, err
 			}
@@ -99,8 +99,8 @@ func (d *arrayDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 				return cursor, errors.ErrUnexpectedEnd("array value", cursor)
 			}
 
-			if idx < d.alen {
-				c, err := d.valueDecoder.Decode(ctx, cursor, depth, rv.Index(idx))
+			if idx < int64(d.alen) {
+				c, err := d.valueDecoder.Decode(ctx, cursor, depth, rv.Index(int(idx)))
 				if err != nil {
 					return 0, err
 				}
diff --git a/internal/decoder/int.go b/internal/decoder/int.go
index 17c903a..1bee212 100644
--- a/internal/decoder/int.go
+++ b/internal/decoder/int.go
@@ -149,14 +149,27 @@ func (d *intDecoder) processBytes(bytes []byte, cursor int64, rv reflect.Value)
 	return cursor, nil
 }
 
-func readInt(buf []byte, cursor int64) (int, int64, error) {
+// readIndex reads the integer key of a list entry.
+func readIndex(buf []byte, cursor int64) (int64, int64, error) {
 	start := cursor + 2
 	bytes, end, err := readIntegerBytes(buf, cursor)
 	if err != nil {
 		return 0, cursor, err
 	}
 	value64, err := parseInt64(bytes)
-	if err != nil || value64 < 0 || int64(int(value64)) != value64 {
+	if err != nil || value64 < 0 {
+		return 0, cursor, errors.ErrSyntax("php-serialize: invalid array index", start)
+	}
+	return value64, end, nil
+}
+
+func readInt(buf []byte, cursor int64) (int, int64, error) {
+	start := cursor + 2
+	value64, end, err := readIndex(buf, cursor)
+	if err != nil {
+		return 0, cursor, err
+	}
+	if int64(int(value64)) != value64 {
 		return 0, cursor, errors.ErrSyntax("php-serialize: invalid array index", start)
 	}
 	return int(value64), end, nil
-- 
2.43.0

