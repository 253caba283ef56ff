From f5b15a43487992a878180f5c3f3d1df3b9e37d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:53 +0000
Subject: [PATCH 01/26] fix: return an error from Unmarshal(data, nil) instead
 of panicking

---
 unmarshal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index 8388124..9cf6193 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -28,6 +28,9 @@ func Unmarshal(data []byte, v any) error {
 
 func unmarshal(data []byte, v any) error {
 	rv := reflect.ValueOf(v)
+	if !rv.IsValid() {
+		return &errors.InvalidUnmarshalError{}
+	}
 
 	rt := rv.Type()
 
-- 
2.43.0


From 314de5b6672812b61ec0ed6a7130f3381a625b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:55 +0000
Subject: [PATCH 02/26] fix: compile encoders of types that are recursive
 through arrays without exhausting the stack

---
 internal/encoder/array.go   | 17 ++++++++++++-----
 internal/encoder/compile.go |  2 +-
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/internal/encoder/array.go b/internal/encoder/array.go
index 32ca216..319f831 100644
--- a/internal/encoder/array.go
+++ b/internal/encoder/array.go
@@ -4,25 +4,31 @@ import (
 	"reflect"
 )
 
-func compileArray(rt reflect.Type) (encoder, error) {
+func compileArray(rt reflect.Type, seen compileSeenMap) (encoder, error) {
+	if recursiveEnc, exists := seen[rt]; exists {
+		return recursiveEnc.Encode, nil
+	}
+	recursiveEnc := &structRecEncoder{}
+	seen[rt] = recursiveEnc
+
 	length := rt.Len()
 	i64 := int64(length)
 	var enc encoder
 	var err error
 
 	if rt.Elem().Kind() == reflect.Map {
-		enc, err = compileWithCache(rt.Elem())
+		enc, err = compile(rt.Elem(), seen)
 		if err != nil {
 			return nil, err
 		}
 	} else {
-		enc, err = compileWithCache(rt.Elem())
+		enc, err = compile(rt.Elem(), seen)
 		if err != nil {
 			return nil, err
 		}
 	}
 
-	return func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
+	recursiveEnc.enc = func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
 		b = appendArrayBegin(b, i64)
 
 		var err error // create a new error value, so shadow compiler's error
@@ -35,5 +41,6 @@ func compileArray(rt reflect.Type) (encoder, error) {
 		}
 
 		return append(b, '}'), nil
-	}, nil
+	}
+	return recursiveEnc.Encode, nil
 }
diff --git a/internal/encoder/compile.go b/internal/encoder/compile.go
index 39f32d6..c5030c2 100644
--- a/internal/encoder/compile.go
+++ b/internal/encoder/compile.go
@@ -36,7 +36,7 @@ func compile(rt reflect.Type, seen compileSeenMap) (encoder, error) {
 	case reflect.Struct:
 		return compileStruct(rt, seen)
 	case reflect.Array:
-		return compileArray(rt)
+		return compileArray(rt, seen)
 	case reflect.Slice:
 		return compileSlice(rt, seen)
 	case reflect.Map:
-- 
2.43.0


From 9550acbce934e89059863ef2f2cbc0e766fba8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:14 +0000
Subject: [PATCH 03/26] fix: compile decoders of recursive slice, map, array
 and pointer types without exhausting the stack

---
 internal/decoder/compile.go | 45 +++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/internal/decoder/compile.go b/internal/decoder/compile.go
index 8460de8..32e74b1 100644
--- a/internal/decoder/compile.go
+++ b/internal/decoder/compile.go
@@ -58,6 +58,51 @@ func compile(rt reflect.Type, structName, fieldName string, structTypeToDecoder
 		return newUnmarshalTextDecoder(reflect.PointerTo(rt), structName, fieldName), nil
 	}
 
+	if isRecursiveKind(rt) {
+		return compileNamed(rt, structName, fieldName, structTypeToDecoder)
+	}
+
+	return compileKind(rt, structName, fieldName, structTypeToDecoder)
+}
+
+// struct types break their own recursion in compileStruct, other defined types may recurse too,
+// for example `type T map[string]T`.
+func isRecursiveKind(rt reflect.Type) bool {
+	if rt.Name() == "" {
+		return false
+	}
+	switch rt.Kind() {
+	case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map:
+		return true
+	}
+	return false
+}
+
+// recursiveDecoder stands for the decoder of a type that is still being compiled.
+type recursiveDecoder struct {
+	dec Decoder
+}
+
+func (d *recursiveDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect.Value) (int64, error) {
+	return d.dec.Decode(ctx, cursor, depth, rv)
+}
+
+func compileNamed(rt reflect.Type, structName, fieldName string, structTypeToDecoder map[reflect.Type]Decoder) (Decoder, error) {
+	if dec, exists := structTypeToDecoder[rt]; exists {
+		return dec, nil
+	}
+	placeholder := &recursiveDecoder{}
+	structTypeToDecoder[rt] = placeholder
+	dec, err := compileKind(rt, structName, fieldName, structTypeToDecoder)
+	if err != nil {
+		return nil, err
+	}
+	placeholder.dec = dec
+	delete(structTypeToDecoder, rt)
+	return dec, nil
+}
+
+func compileKind(rt reflect.Type, structName, fieldName string, structTypeToDecoder map[reflect.Type]Decoder) (Decoder, error) {
 	switch rt.Kind() {
 	case reflect.Ptr:
 		return compilePtr(rt, structName, fieldName, structTypeToDecoder)
-- 
2.43.0


From 872e08082555f24042761afff3c0008dbed0086c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 04/26] fix: limit the capacity of decoded byte slices so that
 appending cannot overwrite other data

---
 internal/decoder/context.go       | 2 +-
 internal/decoder/interface.go     | 2 +-
 internal/decoder/unmarshal_php.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/decoder/context.go b/internal/decoder/context.go
index 8c9d61d..a882533 100644
--- a/internal/decoder/context.go
+++ b/internal/decoder/context.go
@@ -284,7 +284,7 @@ func readString(buf []byte, cursor int64) ([]byte, int64, error) {
 
 	cursor++
 
-	return buf[start:end], cursor, nil
+	return buf[start:end:end], cursor, nil
 }
 
 func readIntegerBytes(buf []byte, cursor int64) ([]byte, int64, error) {
diff --git a/internal/decoder/interface.go b/internal/decoder/interface.go
index 61e21ed..e1cf67a 100644
--- a/internal/decoder/interface.go
+++ b/internal/decoder/interface.go
@@ -107,7 +107,7 @@ func decodePHPUnmarshaler(buf []byte, cursor, depth int64, unmarshaler Unmarshal
 	if err != nil {
 		return 0, err
 	}
-	src := buf[start:end]
+	src := buf[start:end:end]
 	if bytes.Equal(src, nullbytes) {
 		rv.SetZero()
 		return end, nil
diff --git a/internal/decoder/unmarshal_php.go b/internal/decoder/unmarshal_php.go
index f276c9a..89850ac 100644
--- a/internal/decoder/unmarshal_php.go
+++ b/internal/decoder/unmarshal_php.go
@@ -49,7 +49,7 @@ func (d *unmarshalPHPDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, r
 	if err != nil {
 		return 0, err
 	}
-	src := buf[start:end]
+	src := buf[start:end:end]
 	if len(src) > 0 {
 		switch src[0] {
 		case '[':
-- 
2.43.0


From 7e2f7c4c823362862999630a698cac57597a46dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:32 +0000
Subject: [PATCH 05/26] fix: refuse pointer map keys in Unmarshal instead of
 panicking

---
 internal/decoder/compile.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/decoder/compile.go b/internal/decoder/compile.go
index 32e74b1..cd5508f 100644
--- a/internal/decoder/compile.go
+++ b/internal/decoder/compile.go
@@ -181,6 +181,9 @@ func compileMapKey(typ reflect.Type, structName, fieldName string, structTypeToD
 	if typ.Kind() == reflect.String {
 		return newStringDecoder(structName, fieldName), nil
 	}
+	if typ.Kind() == reflect.Ptr {
+		return newInvalidDecoder(typ, structName, fieldName), nil
+	}
 	dec, err := compile(typ, structName, fieldName, structTypeToDecoder)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 10737b6aecc83a2710638e1722ffad01fb515750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:33 +0000
Subject: [PATCH 06/26] fix: reject array keys that are neither integers nor
 strings, unhashable ones panicked

---
 internal/decoder/context.go | 3 +++
 internal/decoder/map.go     | 8 ++++++++
 internal/decoder/struct.go  | 3 +++
 3 files changed, 14 insertions(+)

diff --git a/internal/decoder/context.go b/internal/decoder/context.go
index a882533..0212a79 100644
--- a/internal/decoder/context.go
+++ b/internal/decoder/context.go
@@ -146,6 +146,9 @@ func skipArray(buf []byte, cursor, depth int64) (int64, error) {
 	}
 	cursor++
 	for range length {
+		if hasByte(buf, cursor) && buf[cursor] != 'i' && buf[cursor] != 's' {
+			return cursor, errors.ErrUnexpected("array key", cursor, buf[cursor])
+		}
 		cursor, err = skipValue(buf, cursor, depth)
 		if err != nil {
 			return cursor, err
diff --git a/internal/decoder/map.go b/internal/decoder/map.go
index 203a84e..3fa8f6c 100644
--- a/internal/decoder/map.go
+++ b/internal/decoder/map.go
@@ -91,11 +91,19 @@ func (d *mapDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect
 		if !hasByte(buf, cursor) {
 			return cursor, errors.ErrUnexpectedEnd("map", cursor)
 		}
+		switch buf[cursor] {
+		case 'i', 's', 'b':
+		default:
+			return 0, errors.ErrUnexpected("map key", cursor, buf[cursor])
+		}
 		k := reflect.New(d.keyType)
 		keyCursor, err := d.keyDecoder.Decode(ctx, cursor, depth, k.Elem())
 		if err != nil {
 			return 0, err
 		}
+		if !k.Elem().Comparable() {
+			return 0, errors.ErrSyntax("php-serialize: map key is not hashable", cursor)
+		}
 		cursor = keyCursor
 		if !hasByte(buf, cursor) {
 			return cursor, errors.ErrUnexpectedEnd("map value", cursor)
diff --git a/internal/decoder/struct.go b/internal/decoder/struct.go
index 3eecfea..494b20e 100644
--- a/internal/decoder/struct.go
+++ b/internal/decoder/struct.go
@@ -108,6 +108,9 @@ func (d *structDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refl
 		if !hasByte(buf, cursor) {
 			return cursor, errors.ErrUnexpectedEnd("object", cursor)
 		}
+		if buf[cursor] == 'N' {
+			return 0, errors.ErrUnexpected("object key", cursor, buf[cursor])
+		}
 		c, field, err := decodeKey(d, buf, cursor)
 		if err != nil {
 			return 0, err
-- 
2.43.0


From 059a848350842e33951584e625d652fa90bbc94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:00 +0000
Subject: [PATCH 07/26] fix: don't allocate or panic for declared lengths and
 indexes that are not backed by data

---
 internal/decoder/map.go   |  2 +-
 internal/decoder/slice.go | 19 ++++++++++++++++---
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/internal/decoder/map.go b/internal/decoder/map.go
index 3fa8f6c..3580b68 100644
--- a/internal/decoder/map.go
+++ b/internal/decoder/map.go
@@ -75,7 +75,7 @@ func (d *mapDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect
 	}
 
 	if rv.IsNil() {
-		rv.Set(reflect.MakeMapWithSize(d.mapType, int(l)))
+		rv.Set(reflect.MakeMapWithSize(d.mapType, int(min(l, maxPreAllocSize))))
 	}
 
 	cursor++
diff --git a/internal/decoder/slice.go b/internal/decoder/slice.go
index d3a3cbb..b449fc4 100644
--- a/internal/decoder/slice.go
+++ b/internal/decoder/slice.go
@@ -17,6 +17,12 @@ type sliceDecoder struct {
 	fieldName         string
 }
 
+// max number of elements allocated for a declared length, before any of them is decoded.
+const maxPreAllocSize = 16
+
+// no slice can be bigger than the address space.
+const maxSliceMemory = 1 << 47
+
 // If use reflect.SliceHeader, data type is uintptr.
 // In this case, Go compiler cannot trace reference created by newArray().
 // So, define using unsafe.Pointer as data type
@@ -102,7 +108,8 @@ func (d *sliceDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 		}
 		cursor++
 
-		slice := reflect.MakeSlice(d.stype, 0, arrLen)
+		// the declared length is not verified yet, don't trust it for big allocation
+		slice := reflect.MakeSlice(d.stype, 0, min(arrLen, maxPreAllocSize))
 
 		for {
 			if !hasByte(buf, cursor) {
@@ -118,10 +125,16 @@ func (d *sliceDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 				return cursor, errors.ErrUnexpectedEnd("array value", cursor)
 			}
 
-			if currentIndex >= slice.Len() {
-				newSlice := reflect.MakeSlice(d.stype, currentIndex+1, currentIndex+1)
+			if uint64(currentIndex) >= maxSliceMemory/uint64(max(d.elemType.Size(), 1)) {
+				return 0, errors.ErrSyntax("php-serialize: array index too large", cursor)
+			}
+
+			if currentIndex >= slice.Cap() {
+				newSlice := reflect.MakeSlice(d.stype, currentIndex+1, max(currentIndex+1, 2*slice.Cap()))
 				reflect.Copy(newSlice, slice)
 				slice = newSlice
+			} else if currentIndex >= slice.Len() {
+				slice = slice.Slice(0, currentIndex+1)
 			}
 
 			c, err := d.valueDecoder.Decode(ctx, cursor, depth, slice.Index(currentIndex))
-- 
2.43.0


From 3453dc9699837651002456056cfee98e40663b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:01 +0000
Subject: [PATCH 08/26] fix: reject arrays whose declared length does not match
 their entries

---
 internal/decoder/array.go | 7 +++++--
 internal/decoder/map.go   | 8 +++++++-
 internal/decoder/slice.go | 5 ++++-
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/internal/decoder/array.go b/internal/decoder/array.go
index f4047ba..0d9aa6c 100644
--- a/internal/decoder/array.go
+++ b/internal/decoder/array.go
@@ -70,7 +70,7 @@ func (d *arrayDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 			return cursor + 4, nil
 		}
 
-		_, end, err := readLengthInt(buf, cursor-1)
+		arrLen, end, err := readLengthInt(buf, cursor-1)
 		if err != nil {
 			return cursor, err
 		}
@@ -84,7 +84,7 @@ func (d *arrayDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 		cursor++
 
 		idx := 0
-		for {
+		for count := 1; ; count++ {
 			if !hasByte(buf, cursor) {
 				return cursor, errors.ErrUnexpectedEnd("array", cursor)
 			}
@@ -117,6 +117,9 @@ func (d *arrayDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 				return cursor, errors.ErrUnexpectedEnd("array", cursor)
 			}
 			if buf[cursor] == '}' {
+				if count != arrLen {
+					return 0, errors.ErrSyntax("php-serialize: array length mismatch", cursor)
+				}
 				cursor++
 				return cursor, nil
 			}
diff --git a/internal/decoder/map.go b/internal/decoder/map.go
index 3580b68..8b9b95d 100644
--- a/internal/decoder/map.go
+++ b/internal/decoder/map.go
@@ -83,11 +83,14 @@ func (d *mapDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect
 		return cursor, errors.ErrUnexpectedEnd("map", cursor)
 	}
 	if buf[cursor] == '}' {
+		if l != 0 {
+			return 0, errors.ErrSyntax("php-serialize: map length mismatch", cursor)
+		}
 		cursor++
 		return cursor, nil
 	}
 
-	for {
+	for count := int64(1); ; count++ {
 		if !hasByte(buf, cursor) {
 			return cursor, errors.ErrUnexpectedEnd("map", cursor)
 		}
@@ -120,6 +123,9 @@ func (d *mapDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect
 			return cursor, errors.ErrUnexpectedEnd("map", cursor)
 		}
 		if buf[cursor] == '}' {
+			if count != l {
+				return 0, errors.ErrSyntax("php-serialize: map length mismatch", cursor)
+			}
 			cursor++
 			return cursor, nil
 		}
diff --git a/internal/decoder/slice.go b/internal/decoder/slice.go
index b449fc4..76fdb18 100644
--- a/internal/decoder/slice.go
+++ b/internal/decoder/slice.go
@@ -111,7 +111,7 @@ func (d *sliceDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 		// the declared length is not verified yet, don't trust it for big allocation
 		slice := reflect.MakeSlice(d.stype, 0, min(arrLen, maxPreAllocSize))
 
-		for {
+		for count := 1; ; count++ {
 			if !hasByte(buf, cursor) {
 				return cursor, errors.ErrUnexpectedEnd("array", cursor)
 			}
@@ -149,6 +149,9 @@ func (d *sliceDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 				return cursor, errors.ErrUnexpectedEnd("array", cursor)
 			}
 			if buf[cursor] == '}' {
+				if count != arrLen {
+					return 0, errors.ErrSyntax("php-serialize: array length mismatch", cursor)
+				}
 				cursor++
 				return cursor, nil
 			}
-- 
2.43.0


From 32b764356ba9a7376511d0b5412d154b51d75226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:26 +0000
Subject: [PATCH 09/26] fix: encode nil pointers and nil interfaces of
 Marshaler types as null instead of panicking

---
 internal/encoder/marshal_php.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/internal/encoder/marshal_php.go b/internal/encoder/marshal_php.go
index 8fff89a..4a8e586 100644
--- a/internal/encoder/marshal_php.go
+++ b/internal/encoder/marshal_php.go
@@ -12,6 +12,9 @@ type Marshaler interface {
 
 func compileMarshaler(rt reflect.Type) (encoder, error) {
 	return func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
+		if isNilMarshaler(rv) {
+			return appendNull(b), nil
+		}
 		raw, err := rv.Interface().(Marshaler).MarshalPHP()
 		if err != nil {
 			return nil, err
@@ -20,3 +23,14 @@ func compileMarshaler(rt reflect.Type) (encoder, error) {
 		return append(b, raw...), nil
 	}, nil
 }
+
+// a nil pointer or nil interface is null, its method can't be called.
+func isNilMarshaler(rv reflect.Value) bool {
+	if rv.Kind() == reflect.Interface {
+		if rv.IsNil() {
+			return true
+		}
+		rv = rv.Elem()
+	}
+	return rv.Kind() == reflect.Ptr && rv.IsNil()
+}
-- 
2.43.0


From 1af469cb0b3f9fe0a1933ba193bd18a9f7c8b368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:28 +0000
Subject: [PATCH 10/26] fix: call MarshalPHP of values held in interfaces and
 of pointer fields

---
 internal/encoder/interface.go | 8 ++++++++
 internal/encoder/struct.go    | 5 ++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/encoder/interface.go b/internal/encoder/interface.go
index 65c919f..cc39237 100644
--- a/internal/encoder/interface.go
+++ b/internal/encoder/interface.go
@@ -16,6 +16,14 @@ func compileInterface(rt reflect.Type) (encoder, error) {
 func reflectInterfaceValue(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
 LOOP:
 	for {
+		if rv.Kind() != reflect.Interface && rv.Type().Implements(marshalerType) {
+			enc, err := compileMarshaler(rv.Type())
+			if err != nil {
+				return b, err
+			}
+			return enc(ctx, b, rv)
+		}
+
 		switch rv.Kind() {
 		case reflect.Ptr, reflect.Interface:
 			if rv.IsNil() || rv.IsZero() {
diff --git a/internal/encoder/struct.go b/internal/encoder/struct.go
index 873da8b..ff3ce7e 100644
--- a/internal/encoder/struct.go
+++ b/internal/encoder/struct.go
@@ -141,7 +141,10 @@ func compileStructFieldsEncoders(rt reflect.Type, seen compileSeenMap) ([]struct
 				fieldEncoder, err = compileAsString(field.Type)
 			}
 		} else {
-			if field.Type.Kind() == reflect.Ptr {
+			if field.Type.Kind() == reflect.Ptr && field.Type.Implements(marshalerType) {
+				fieldEncoder, err = compileMarshaler(field.Type)
+				isPtrField = false
+			} else if field.Type.Kind() == reflect.Ptr {
 				fieldEncoder, err = compile(field.Type.Elem(), seen)
 				if err == nil && field.Type.Elem().Kind() == reflect.Struct {
 					fieldEncoder = checkStructRecursiveEncoder(fieldEncoder)
-- 
2.43.0


From 5b00ec7ea348f7cfa69fb8fec8fec061dce32033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:29 +0000
Subject: [PATCH 11/26] fix: don't reject acyclic values whose parts share an
 address as recursive

---
 internal/encoder/context.go   | 21 +++++++++++++++++++--
 internal/encoder/interface.go |  2 +-
 internal/encoder/ptr.go       |  4 ++--
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/internal/encoder/context.go b/internal/encoder/context.go
index 70f7717..4276823 100644
--- a/internal/encoder/context.go
+++ b/internal/encoder/context.go
@@ -1,6 +1,7 @@
 package encoder
 
 import (
+	"reflect"
 	"sync"
 	"unsafe"
 )
@@ -10,17 +11,33 @@ var ctxPool = sync.Pool{
 		return &Ctx{
 			Buf:         make([]byte, 0, 1024),
 			smallBuffer: make([]byte, 0, 20),
-			Seen:        make(map[unsafe.Pointer]empty, 100),
+			Seen:        make(map[seenKey]empty, 100),
 		}
 	},
 }
 
 type empty struct{}
 
+// seenKey identifies a reference being encoded. A pointer alone is not enough,
+// a struct and its first field, or a slice and its prefix, share their address.
+type seenKey struct {
+	ptr unsafe.Pointer
+	typ reflect.Type
+	len int
+}
+
+func newSeenKey(rv reflect.Value) seenKey {
+	key := seenKey{ptr: rv.UnsafePointer(), typ: rv.Type()}
+	if rv.Kind() == reflect.Slice {
+		key.len = rv.Len()
+	}
+	return key
+}
+
 type Ctx struct {
 	smallBuffer []byte // a small buffer to encode float and time.Time as string
 	Buf         []byte
-	Seen        map[unsafe.Pointer]empty
+	Seen        map[seenKey]empty
 	StackDepth  uint
 }
 
diff --git a/internal/encoder/interface.go b/internal/encoder/interface.go
index cc39237..245024e 100644
--- a/internal/encoder/interface.go
+++ b/internal/encoder/interface.go
@@ -64,7 +64,7 @@ LOOP:
 }
 
 func reflectRecursiveValue(ctx *Ctx, b []byte, rv reflect.Value, enc encoder) ([]byte, error) {
-	ptr := rv.UnsafePointer()
+	ptr := newSeenKey(rv)
 	if _, seen := ctx.Seen[ptr]; seen {
 		return b, fmt.Errorf("php: try to encode recursive value of type %s", rv.Type())
 	}
diff --git a/internal/encoder/ptr.go b/internal/encoder/ptr.go
index aed0db2..627e61a 100644
--- a/internal/encoder/ptr.go
+++ b/internal/encoder/ptr.go
@@ -57,7 +57,7 @@ func checkStructRecursiveEncoder(enc encoder) encoder {
 
 		ctx.StackDepth++
 		tracked := ctx.StackDepth > 1000
-		ptr := rv.UnsafePointer()
+		ptr := newSeenKey(rv)
 		if tracked {
 			_, seen := ctx.Seen[ptr]
 			if seen {
@@ -85,7 +85,7 @@ func checkRecursiveEncoder(enc encoder) encoder {
 
 		ctx.StackDepth++
 		tracked := ctx.StackDepth > 1000
-		ptr := rv.UnsafePointer()
+		ptr := newSeenKey(rv)
 		if tracked {
 			_, seen := ctx.Seen[ptr]
 			if seen {
-- 
2.43.0


From eae5f5aed9cdc41666fdbc825cd8d7ba2c51033b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:30 +0000
Subject: [PATCH 12/26] fix: detect cycles through pointers held in interfaces
 and through pointers to arrays

---
 internal/encoder/interface.go | 19 +++++++++++++++++++
 internal/encoder/ptr.go       |  4 ++++
 internal/encoder/struct.go    |  4 ++++
 3 files changed, 27 insertions(+)

diff --git a/internal/encoder/interface.go b/internal/encoder/interface.go
index 245024e..e7c1784 100644
--- a/internal/encoder/interface.go
+++ b/internal/encoder/interface.go
@@ -29,6 +29,10 @@ LOOP:
 			if rv.IsNil() || rv.IsZero() {
 				return appendNull(b), nil
 			}
+			if rv.Kind() == reflect.Ptr {
+				// a cycle through pointers and interfaces only never leaves this function
+				return checkStructRecursiveEncoder(reflectInterfaceValue)(ctx, b, rv)
+			}
 			rv = rv.Elem()
 		default:
 			break LOOP
@@ -81,6 +85,9 @@ func compileInterfaceAsString(rt reflect.Type) (encoder, error) {
 }
 
 func reflectInterfaceValueAsString(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
+	var depth uint
+	var seen map[seenKey]empty
+
 LOOP:
 	for {
 		switch rv.Kind() {
@@ -88,6 +95,18 @@ LOOP:
 			if rv.IsNil() || rv.IsZero() {
 				return appendNull(b), nil
 			}
+			depth++
+			if depth > 1000 {
+				if seen == nil {
+					seen = make(map[seenKey]empty)
+				}
+				if rv.Kind() == reflect.Ptr {
+					if _, ok := seen[newSeenKey(rv)]; ok {
+						return b, fmt.Errorf("php: try to encode recursive value of type %s", rv.Type())
+					}
+					seen[newSeenKey(rv)] = empty{}
+				}
+			}
 			rv = rv.Elem()
 		default:
 			break LOOP
diff --git a/internal/encoder/ptr.go b/internal/encoder/ptr.go
index 627e61a..4343792 100644
--- a/internal/encoder/ptr.go
+++ b/internal/encoder/ptr.go
@@ -36,6 +36,10 @@ func compilePtr(rt reflect.Type, seen compileSeenMap) (encoder, error) {
 		return nil, err
 	}
 
+	if rt.Elem().Kind() == reflect.Array {
+		return checkStructRecursiveEncoder(enc), nil
+	}
+
 	return deRefNilEncoder(enc), nil
 }
 
diff --git a/internal/encoder/struct.go b/internal/encoder/struct.go
index ff3ce7e..d1a71a6 100644
--- a/internal/encoder/struct.go
+++ b/internal/encoder/struct.go
@@ -150,6 +150,10 @@ func compileStructFieldsEncoders(rt reflect.Type, seen compileSeenMap) ([]struct
 					fieldEncoder = checkStructRecursiveEncoder(fieldEncoder)
 					isPtrField = false
 				}
+				if err == nil && (field.Type.Elem().Kind() == reflect.Array || field.Type.Elem().Kind() == reflect.Interface) {
+					fieldEncoder = checkStructRecursiveEncoder(fieldEncoder)
+					isPtrField = false
+				}
 			} else {
 				fieldEncoder, err = compile(field.Type, seen)
 			}
-- 
2.43.0


From b103a4b76396b19efea251d91b539feea6c31feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 13/26] fix: don't reject slices held in deeply nested
 interfaces as recursive

---
 internal/encoder/interface.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/encoder/interface.go b/internal/encoder/interface.go
index e7c1784..3705d6d 100644
--- a/internal/encoder/interface.go
+++ b/internal/encoder/interface.go
@@ -57,6 +57,10 @@ LOOP:
 
 	switch rv.Kind() {
 	case reflect.Slice:
+		if rv.Type().Elem().Kind() != reflect.Interface {
+			// the encoder of a concrete slice tracks it already
+			return reflectConcreteSlice(ctx, b, rv)
+		}
 		return reflectRecursiveValue(ctx, b, rv, reflectSlice)
 	case reflect.Map:
 		return reflectRecursiveValue(ctx, b, rv, reflectMap)
-- 
2.43.0


From ad810273a27e03fc963f91d65075efed5dce65f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:10 +0000
Subject: [PATCH 14/26] fix: encode arrays held in interfaces

---
 internal/encoder/array_reflect.go | 14 ++++++++++++++
 internal/encoder/interface.go     |  2 ++
 2 files changed, 16 insertions(+)
 create mode 100644 internal/encoder/array_reflect.go

diff --git a/internal/encoder/array_reflect.go b/internal/encoder/array_reflect.go
new file mode 100644
index 0000000..c479568
--- /dev/null
+++ b/internal/encoder/array_reflect.go
@@ -0,0 +1,14 @@
+package encoder
+
+import (
+	"reflect"
+)
+
+func reflectArray(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
+	enc, err := compileWithCache(rv.Type())
+	if err != nil {
+		return nil, err
+	}
+
+	return enc(ctx, b, rv)
+}
diff --git a/internal/encoder/interface.go b/internal/encoder/interface.go
index 3705d6d..7861d1e 100644
--- a/internal/encoder/interface.go
+++ b/internal/encoder/interface.go
@@ -66,6 +66,8 @@ LOOP:
 		return reflectRecursiveValue(ctx, b, rv, reflectMap)
 	case reflect.Struct:
 		return reflectStruct(ctx, b, rv)
+	case reflect.Array:
+		return reflectArray(ctx, b, rv)
 	}
 
 	return b, &UnsupportedInterfaceTypeError{rv.Type()}
-- 
2.43.0


From 49fe03075662438b493ffa361b3d96106d1865c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:11 +0000
Subject: [PATCH 15/26] fix: support strings and defined types in interface
 fields with the string option

---
 internal/encoder/interface.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/encoder/interface.go b/internal/encoder/interface.go
index 7861d1e..2a28406 100644
--- a/internal/encoder/interface.go
+++ b/internal/encoder/interface.go
@@ -148,6 +148,11 @@ LOOP:
 		return appendFloat64AsString(ctx.smallBuffer[:0], b, value), nil
 	}
 
+	// strings and values of defined types
+	if enc, err := compileAsString(rv.Type()); err == nil {
+		return enc(ctx, b, rv)
+	}
+
 	// slice, map and struct as interface are not supported yet.
 	return b, fmt.Errorf("failed to encode %s as string", rv.Kind())
 }
-- 
2.43.0


From 8eca15e24906f59f6656ade4d077b46a8cda83fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:13 +0000
Subject: [PATCH 16/26] fix: accept the string option on string fields in
 Unmarshal

---
 internal/decoder/wrapped_string.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/decoder/wrapped_string.go b/internal/decoder/wrapped_string.go
index b467272..2ceb36a 100644
--- a/internal/decoder/wrapped_string.go
+++ b/internal/decoder/wrapped_string.go
@@ -31,6 +31,9 @@ func newWrappedStringDecoder(typ reflect.Type, dec Decoder, structName, fieldNam
 		innerDec = newStringUintDecoder(structName, fieldName, v)
 	case *intDecoder:
 		innerDec = newStringIntDecoder(structName, fieldName, v)
+	case *stringDecoder:
+		// already a string
+		return dec, nil
 	case *ptrDecoder:
 		err := v.wrapString()
 		return dec, err
-- 
2.43.0


From 6ba8b8d2c2c845759cafb02be808f25a2c1b440f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:14 +0000
Subject: [PATCH 17/26] fix: round decimals to float32 only once

---
 internal/decoder/float.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/decoder/float.go b/internal/decoder/float.go
index 27a6a12..aeb56e7 100644
--- a/internal/decoder/float.go
+++ b/internal/decoder/float.go
@@ -60,7 +60,7 @@ func (d *floatDecoder) processBytes(bytes []byte, cursor int64, rv reflect.Value
 	case "NAN":
 		f64 = math.NaN()
 	default:
-		f64, err = strconv.ParseFloat(unsafeStr(bytes), 64)
+		f64, err = strconv.ParseFloat(unsafeStr(bytes), rv.Type().Bits())
 	}
 	if err != nil {
 		return 0, errors.ErrSyntax(err.Error(), cursor)
-- 
2.43.0


From 2cbbff82b28030c0603bee6bfa1168ea53dd5bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:16 +0000
Subject: [PATCH 18/26] fix: don't count null as a nesting level

---
 internal/decoder/array.go  | 2 +-
 internal/decoder/map.go    | 2 +-
 internal/decoder/slice.go  | 2 +-
 internal/decoder/struct.go | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/decoder/array.go b/internal/decoder/array.go
index 0d9aa6c..eb626a5 100644
--- a/internal/decoder/array.go
+++ b/internal/decoder/array.go
@@ -35,7 +35,7 @@ func (d *arrayDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 		return 0, errors.ErrUnexpectedEnd("array", cursor)
 	}
 	depth++
-	if depth > maxDecodeNestingDepth {
+	if depth > maxDecodeNestingDepth && buf[cursor] != 'N' {
 		return 0, errors.ErrExceededMaxDepth(buf[cursor], cursor)
 	}
 
diff --git a/internal/decoder/map.go b/internal/decoder/map.go
index 8b9b95d..097f9af 100644
--- a/internal/decoder/map.go
+++ b/internal/decoder/map.go
@@ -34,7 +34,7 @@ func (d *mapDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect
 		return 0, errors.ErrUnexpectedEnd("map", cursor)
 	}
 	depth++
-	if depth > maxDecodeNestingDepth {
+	if depth > maxDecodeNestingDepth && buf[cursor] != 'N' {
 		return 0, errors.ErrExceededMaxDepth(buf[cursor], cursor)
 	}
 
diff --git a/internal/decoder/slice.go b/internal/decoder/slice.go
index 76fdb18..60f6486 100644
--- a/internal/decoder/slice.go
+++ b/internal/decoder/slice.go
@@ -60,7 +60,7 @@ func (d *sliceDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 		return 0, errors.ErrUnexpectedEnd("slice", cursor)
 	}
 	depth++
-	if depth > maxDecodeNestingDepth {
+	if depth > maxDecodeNestingDepth && buf[cursor] != 'N' {
 		return 0, errors.ErrExceededMaxDepth(buf[cursor], cursor)
 	}
 
diff --git a/internal/decoder/struct.go b/internal/decoder/struct.go
index 494b20e..29bd651 100644
--- a/internal/decoder/struct.go
+++ b/internal/decoder/struct.go
@@ -52,7 +52,7 @@ func (d *structDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refl
 		return 0, errors.ErrUnexpectedEnd("object", cursor)
 	}
 	depth++
-	if depth > maxDecodeNestingDepth {
+	if depth > maxDecodeNestingDepth && buf[cursor] != 'N' {
 		return 0, errors.ErrExceededMaxDepth(buf[cursor], cursor)
 	}
 	switch buf[cursor] {
-- 
2.43.0


From edf4d7a42e052e3b5c5a6b3d12e7353b01b436d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:17 +0000
Subject: [PATCH 19/26] fix: reject malformed floats, also in skipped data

---
 internal/decoder/context.go | 41 +++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/internal/decoder/context.go b/internal/decoder/context.go
index 0212a79..8bd3df1 100644
--- a/internal/decoder/context.go
+++ b/internal/decoder/context.go
@@ -348,9 +348,50 @@ func readFloatBytes(buf []byte, cursor int64) ([]byte, int64, error) {
 	if !hasByte(buf, cursor) {
 		return nil, cursor, errors.ErrUnexpectedEnd("float", cursor)
 	}
+	if !isFloat(buf[start:cursor]) {
+		return nil, cursor, errors.ErrSyntax("php-serialize: invalid float", start)
+	}
 	return buf[start:cursor], cursor + 1, nil
 }
 
+// decimal number with optional sign, fraction and exponent, or INF, -INF, NAN.
+func isFloat(s []byte) bool {
+	switch unsafeStr(s) {
+	case "INF", "-INF", "NAN":
+		return true
+	}
+	i := 0
+	digits := func() int {
+		start := i
+		for i < len(s) && numTable[s[i]] {
+			i++
+		}
+		return i - start
+	}
+	sign := func() {
+		if i < len(s) && (s[i] == '-' || s[i] == '+') {
+			i++
+		}
+	}
+	sign()
+	n := digits()
+	if i < len(s) && s[i] == '.' {
+		i++
+		n += digits()
+	}
+	if n == 0 {
+		return false
+	}
+	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
+		i++
+		sign()
+		if digits() == 0 {
+			return false
+		}
+	}
+	return i == len(s)
+}
+
 func readBool(buf []byte, cursor int64) (bool, error) {
 	if !hasBytes(buf, cursor, 4) {
 		return false, errors.ErrUnexpectedEnd("bool", cursor)
-- 
2.43.0


From 88f20a36107b264b8faf1682e9ee59b3a03676e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:15 +0000
Subject: [PATCH 20/26] fix: don't call UnmarshalPHP on a nil pointer held in
 an interface

---
 internal/decoder/interface.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/decoder/interface.go b/internal/decoder/interface.go
index e1cf67a..d336c0d 100644
--- a/internal/decoder/interface.go
+++ b/internal/decoder/interface.go
@@ -121,6 +121,11 @@ func decodePHPUnmarshaler(buf []byte, cursor, depth int64, unmarshaler Unmarshal
 	return end, nil
 }
 
+// isNilPtr reports whether v is a nil pointer, which has nothing to decode into.
+func isNilPtr(v reflect.Value) bool {
+	return v.Kind() == reflect.Ptr && v.IsNil()
+}
+
 func (d *interfaceDecoder) errUnmarshalType(typ reflect.Type, offset int64) *errors.UnmarshalTypeError {
 	return &errors.UnmarshalTypeError{
 		Value:  typ.String(),
@@ -134,7 +139,7 @@ func (d *interfaceDecoder) errUnmarshalType(typ reflect.Type, offset int64) *err
 func (d *interfaceDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect.Value) (int64, error) {
 	buf := ctx.Buf
 	if rv.NumMethod() > 0 && rv.CanInterface() {
-		if u, ok := rv.Interface().(Unmarshaler); ok {
+		if u, ok := rv.Interface().(Unmarshaler); ok && !isNilPtr(rv.Elem()) {
 			return decodePHPUnmarshaler(buf, cursor, depth, u, rv)
 		}
 		if buf[cursor] == 'N' {
-- 
2.43.0


From ff0cb8d68afc6f60608d2401e4fc3045b6769fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:20 +0000
Subject: [PATCH 21/26] fix: encode fields tagged `-,` under the key "-" that
 Unmarshal reads them from

---
 internal/encoder/struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/encoder/struct.go b/internal/encoder/struct.go
index d1a71a6..431edad 100644
--- a/internal/encoder/struct.go
+++ b/internal/encoder/struct.go
@@ -113,7 +113,7 @@ func compileStructFieldsEncoders(rt reflect.Type, seen compileSeenMap) ([]struct
 	for i := 0; i < rt.NumField(); i++ {
 		field := rt.Field(i)
 		cfg := runtime.StructTagFromField(field)
-		if cfg.Key == "-" || !cfg.Field.IsExported() {
+		if runtime.IsIgnoredStructField(field) {
 			continue
 		}
 
-- 
2.43.0


From 7d84507fe620912f840137b1cdf01cd2587e993e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:20 +0000
Subject: [PATCH 22/26] fix: refuse embedded pointers to structs in Marshal, as
 Unmarshal does

---
 internal/encoder/struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/encoder/struct.go b/internal/encoder/struct.go
index 431edad..720df1f 100644
--- a/internal/encoder/struct.go
+++ b/internal/encoder/struct.go
@@ -129,7 +129,7 @@ func compileStructFieldsEncoders(rt reflect.Type, seen compileSeenMap) ([]struct
 		}
 
 		if field.Anonymous {
-			if field.Type.Kind() == reflect.Struct || (field.Type.Kind() == reflect.Ptr && field.Type.Kind() == reflect.Struct) {
+			if field.Type.Kind() == reflect.Struct || (field.Type.Kind() == reflect.Ptr && field.Type.Elem().Kind() == reflect.Struct) {
 				return nil, fmt.Errorf("supported for Anonymous struct field has been removed: %s", field.Type.String())
 			}
 		}
-- 
2.43.0


From ed8c6f67aca25c1ccc9d1b18d4f0bbc6c8fcfadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:08 +0000
Subject: [PATCH 23/26] fix: reject boolean array keys unless the map's keys
 are booleans

---
 internal/decoder/map.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/decoder/map.go b/internal/decoder/map.go
index 097f9af..c6226b7 100644
--- a/internal/decoder/map.go
+++ b/internal/decoder/map.go
@@ -94,8 +94,9 @@ func (d *mapDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect
 		if !hasByte(buf, cursor) {
 			return cursor, errors.ErrUnexpectedEnd("map", cursor)
 		}
-		switch buf[cursor] {
-		case 'i', 's', 'b':
+		switch {
+		case buf[cursor] == 'i' || buf[cursor] == 's':
+		case buf[cursor] == 'b' && d.keyType.Kind() == reflect.Bool:
 		default:
 			return 0, errors.ErrUnexpected("map key", cursor, buf[cursor])
 		}
-- 
2.43.0


From 848702454301b7b54e5e0d3b5eb33951b07d6933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 24/26] fix: encode structs in place, copying them once per
 level took quadratic time and memory in the depth

---
 internal/encoder/buffer.go | 22 --------------------
 internal/encoder/struct.go | 41 ++++++++++++++++++++------------------
 2 files changed, 22 insertions(+), 41 deletions(-)
 delete mode 100644 internal/encoder/buffer.go

diff --git a/internal/encoder/buffer.go b/internal/encoder/buffer.go
deleted file mode 100644
index d9d8b02..0000000
--- a/internal/encoder/buffer.go
+++ /dev/null
@@ -1,22 +0,0 @@
-package encoder
-
-import "sync"
-
-type buffer struct {
-	b []byte
-}
-
-var bufferPool = sync.Pool{New: func() any {
-	return &buffer{b: make([]byte, 0, 1024)}
-}}
-
-func newBuffer() *buffer {
-	buf := bufferPool.Get().(*buffer)
-	buf.b = buf.b[:0]
-
-	return buf
-}
-
-func freeBuffer(buf *buffer) {
-	bufferPool.Put(buf)
-}
diff --git a/internal/encoder/struct.go b/internal/encoder/struct.go
index 720df1f..ed862fc 100644
--- a/internal/encoder/struct.go
+++ b/internal/encoder/struct.go
@@ -64,45 +64,48 @@ func compileStructFields(rt reflect.Type, seen compileSeenMap) (encoder, error)
 		// shadow compiler's error
 		var err error
 
-		buf := newBuffer()
-		defer freeBuffer(buf)
-		structBuffer := buf.b
+		// decide what is left out before anything is written, the number of fields comes first
+		var decided [32]bool
+		omitted := decided[:]
+		if len(fields) > len(decided) {
+			omitted = make([]bool, len(fields))
+		}
 
-		var writtenField int64
+		writtenField := int64(len(fields))
+		for i, field := range fields {
+			if field.omitEmpty && rv.Field(field.index).IsZero() {
+				omitted[i] = true
+				writtenField--
+			}
+		}
 
-	FIELD:
-		for _, field := range fields {
-			v := rv.Field(field.index)
+		b = appendArrayBegin(b, writtenField)
 
-			if field.omitEmpty {
-				if v.IsZero() {
-					continue
-				}
+	FIELD:
+		for i, field := range fields {
+			if omitted[i] {
+				continue
 			}
 
-			writtenField++
+			v := rv.Field(field.index)
 
-			structBuffer = appendPhpStringVariable(ctx, structBuffer, field.fieldName)
+			b = appendPhpStringVariable(ctx, b, field.fieldName)
 
 			if field.ptr {
 				if v.IsNil() {
-					structBuffer = appendNull(structBuffer)
+					b = appendNull(b)
 					continue FIELD
 				}
 
 				v = v.Elem()
 			}
 
-			structBuffer, err = field.encode(ctx, structBuffer, v)
+			b, err = field.encode(ctx, b, v)
 			if err != nil {
 				return b, err
 			}
 		}
 
-		b = appendArrayBegin(b, writtenField)
-		b = append(b, structBuffer...)
-		buf.b = structBuffer
-
 		return append(b, '}'), nil
 	}, nil
 }
-- 
2.43.0


From 82dee919067ebcfa4a7d229b340b445cf34b1985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 25/26] fix: compile the fields of a struct type once per
 compilation, mutually recursive types took factorial time

---
 internal/decoder/compile.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/internal/decoder/compile.go b/internal/decoder/compile.go
index cd5508f..821f28f 100644
--- a/internal/decoder/compile.go
+++ b/internal/decoder/compile.go
@@ -306,8 +306,9 @@ func compileInterface(typ reflect.Type, structName, fieldName string) (Decoder,
 }
 
 func compileStruct(rt reflect.Type, structName, fieldName string, structTypeToDecoder map[reflect.Type]Decoder) (Decoder, error) {
-	if dec, exists := structTypeToDecoder[rt]; exists {
-		return dec, nil
+	if dec, exists := structTypeToDecoder[rt].(*structDecoder); exists {
+		// the fields are the same wherever the struct is used, only the names in errors differ.
+		return newStructDecoder(structName, fieldName, dec.fieldMap), nil
 	}
 	structDec := newStructDecoder(structName, fieldName, map[string]*structFieldSet{})
 	structTypeToDecoder[rt] = structDec
@@ -367,7 +368,5 @@ func compileStruct(rt reflect.Type, structName, fieldName string, structTypeToDe
 		structDec.fieldMap[set.key] = set
 	}
 
-	delete(structTypeToDecoder, rt)
-
 	return structDec, nil
 }
-- 
2.43.0


From 7727221839a2841a7506dc891a4bd5bb9eac13eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:05 +0000
Subject: [PATCH 26/26] fix: a cycle through one pointer and many struct or
 array values held in interfaces exhausted the stack

---
 internal/encoder/interface.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/encoder/interface.go b/internal/encoder/interface.go
index 2a28406..824062a 100644
--- a/internal/encoder/interface.go
+++ b/internal/encoder/interface.go
@@ -65,14 +65,23 @@ LOOP:
 	case reflect.Map:
 		return reflectRecursiveValue(ctx, b, rv, reflectMap)
 	case reflect.Struct:
-		return reflectStruct(ctx, b, rv)
+		return reflectLevel(ctx, b, rv, reflectStruct)
 	case reflect.Array:
-		return reflectArray(ctx, b, rv)
+		return reflectLevel(ctx, b, rv, reflectArray)
 	}
 
 	return b, &UnsupportedInterfaceTypeError{rv.Type()}
 }
 
+// reflectLevel counts a level that is not a reference itself, a cycle through a pointer
+// and many such levels has to be noticed before it exhausts the stack.
+func reflectLevel(ctx *Ctx, b []byte, rv reflect.Value, enc encoder) ([]byte, error) {
+	ctx.StackDepth++
+	b, err := enc(ctx, b, rv)
+	ctx.StackDepth--
+	return b, err
+}
+
 func reflectRecursiveValue(ctx *Ctx, b []byte, rv reflect.Value, enc encoder) ([]byte, error) {
 	ptr := newSeenKey(rv)
 	if _, seen := ctx.Seen[ptr]; seen {
-- 
2.43.0

