From 7189d68d2142b75fe8d19959af5bb37b83539914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:02 +0000
Subject: [PATCH 01/14] fix: compute a map entry's length prefix with the
 value's own codec

---
 proto/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proto/map.go b/proto/map.go
index 38e3b8b..6c6dd19 100644
--- a/proto/map.go
+++ b/proto/map.go
@@ -77,7 +77,7 @@ func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {
 			val := m.Value()
 
 			keySize := keyCodec.size(key, f.keyField)
-			valSize := keyCodec.size(val, f.valField)
+			valSize := valCodec.size(val, f.valField)
 			elemSize := keySize + valSize
 
 			b = append(b, mapTag...)
-- 
2.43.0


From f922120aa2e77778a4457e5e362389565db8b566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 02/14] fix: do not encode a nil or empty map as one
 zero-valued entry

---
 proto/map.go | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/proto/map.go b/proto/map.go
index 6c6dd19..10ebb43 100644
--- a/proto/map.go
+++ b/proto/map.go
@@ -9,8 +9,6 @@ import (
 	. "github.com/RomiChan/protobuf/internal/runtime_reflect"
 )
 
-const zeroSize = 1 // sizeOfVarint(0)
-
 type mapField struct {
 	wiretag  uint64
 	keyField *structField
@@ -48,16 +46,12 @@ func mapSizeFuncOf(t reflect.Type, f *mapField) sizeFunc {
 			valSize := valCodec.size(m.Value(), f.valField)
 			n += mapTagSize + sizeOfVarint(uint64(keySize+valSize)) + keySize + valSize
 		}
-		if n == 0 {
-			n = mapTagSize + zeroSize
-		}
 		return n
 	}
 }
 
 func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {
 	mapTag := appendVarint(nil, f.wiretag)
-	zero := append(mapTag, 0)
 	keyCodec := f.keyField.codec
 	valCodec := f.valField.codec
 
@@ -67,8 +61,6 @@ func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {
 		}
 		p = *(*unsafe.Pointer)(p)
 
-		origLen := len(b)
-
 		m := MapIter{}
 		defer m.Done()
 
@@ -85,10 +77,6 @@ func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {
 			b = keyCodec.encode(b, key, f.keyField)
 			b = valCodec.encode(b, val, f.valField)
 		}
-
-		if len(b) == origLen {
-			b = append(b, zero...)
-		}
 		return b
 	}
 }
-- 
2.43.0


From b41703f0f6a84995be9f45d5501499d14ed75584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:25 +0000
Subject: [PATCH 03/14] fix: decode zigzag map keys and values as zigzag

---
 proto/map.go    | 12 +++++++-----
 proto/walker.go | 10 +++++++---
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/proto/map.go b/proto/map.go
index 10ebb43..1814862 100644
--- a/proto/map.go
+++ b/proto/map.go
@@ -1,8 +1,8 @@
 package proto
 
 import (
-	"fmt"
 	"reflect"
+	"strconv"
 	"sync"
 	"unsafe"
 
@@ -11,6 +11,8 @@ import (
 
 type mapField struct {
 	wiretag  uint64
+	keyTag   string
+	valTag   string
 	keyField *structField
 	valField *structField
 }
@@ -81,14 +83,14 @@ func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {
 	}
 }
 
-func formatWireTag(wire uint64) reflect.StructTag {
-	return reflect.StructTag(fmt.Sprintf(`protobuf:"%s,%d,opt"`, wireType(wire&7), wire>>3))
+func formatEntryTag(tag string) reflect.StructTag {
+	return reflect.StructTag(`protobuf:` + strconv.Quote(tag))
 }
 
 func mapDecodeFuncOf(t reflect.Type, m *mapField, w *walker) decodeFunc {
 	structType := reflect.StructOf([]reflect.StructField{
-		{Name: "Key", Type: t.Key(), Tag: formatWireTag(m.keyField.wiretag)},
-		{Name: "Elem", Type: t.Elem(), Tag: formatWireTag(m.valField.wiretag)},
+		{Name: "Key", Type: t.Key(), Tag: formatEntryTag(m.keyTag)},
+		{Name: "Elem", Type: t.Elem(), Tag: formatEntryTag(m.valTag)},
 	})
 
 	info := w.structInfo(structType)
diff --git a/proto/walker.go b/proto/walker.go
index 32a4df9..5cc06b6 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -235,15 +235,19 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 			case reflect.Map:
 				conf.required = true // map key and val should be encoded always
 				key, val := f.Type.Key(), f.Type.Elem()
-				m := &mapField{wiretag: field.wiretag}
+				m := &mapField{
+					wiretag: field.wiretag,
+					keyTag:  f.Tag.Get("protobuf_key"),
+					valTag:  f.Tag.Get("protobuf_val"),
+				}
 
-				t, _ := parseStructTag(f.Tag.Get("protobuf_key"))
+				t, _ := parseStructTag(m.keyTag)
 				keyField := &structField{wiretag: uint64(t.fieldNumber)<<3 | uint64(t.wireType)}
 				keyField.tagsize = sizeOfVarint(keyField.wiretag)
 				conf.zigzag = t.zigzag
 				keyField.codec = w.codec(key, conf)
 
-				t, _ = parseStructTag(f.Tag.Get("protobuf_val"))
+				t, _ = parseStructTag(m.valTag)
 				valFiled := &structField{wiretag: uint64(t.fieldNumber)<<3 | uint64(t.wireType)}
 				valFiled.tagsize = sizeOfVarint(valFiled.wiretag)
 				conf.zigzag = t.zigzag
-- 
2.43.0


From e6dded84fd98bcc966574a23f63d54dc84bdc218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:26 +0000
Subject: [PATCH 04/14] fix: reject a map field whose key or value tag is
 missing or malformed

---
 proto/walker.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/proto/walker.go b/proto/walker.go
index 5cc06b6..41565b9 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -241,13 +241,19 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 					valTag:  f.Tag.Get("protobuf_val"),
 				}
 
-				t, _ := parseStructTag(m.keyTag)
+				t, err := parseStructTag(m.keyTag)
+				if err != nil {
+					panic(err)
+				}
 				keyField := &structField{wiretag: uint64(t.fieldNumber)<<3 | uint64(t.wireType)}
 				keyField.tagsize = sizeOfVarint(keyField.wiretag)
 				conf.zigzag = t.zigzag
 				keyField.codec = w.codec(key, conf)
 
-				t, _ = parseStructTag(m.valTag)
+				t, err = parseStructTag(m.valTag)
+				if err != nil {
+					panic(err)
+				}
 				valFiled := &structField{wiretag: uint64(t.fieldNumber)<<3 | uint64(t.wireType)}
 				valFiled.tagsize = sizeOfVarint(valFiled.wiretag)
 				conf.zigzag = t.zigzag
-- 
2.43.0


From 0111e5ab7f0d8e43453f038d46b3198ef21f04f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:26 +0000
Subject: [PATCH 05/14] fix: choose pointer and slice codecs by the field's own
 tag, not by the first field of that type

---
 proto/map.go    | 2 --
 proto/slice.go  | 7 +------
 proto/walker.go | 3 +--
 3 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/proto/map.go b/proto/map.go
index 1814862..72078f5 100644
--- a/proto/map.go
+++ b/proto/map.go
@@ -19,8 +19,6 @@ type mapField struct {
 
 func (w *walker) mapCodec(t reflect.Type, f *mapField) *codec {
 	m := new(codec)
-	w.codecs[t] = m
-
 	m.size = mapSizeFuncOf(t, f)
 	m.encode = mapEncodeFuncOf(t, f)
 	m.decode = mapDecodeFuncOf(t, f, w)
diff --git a/proto/slice.go b/proto/slice.go
index a3bc710..6b29459 100644
--- a/proto/slice.go
+++ b/proto/slice.go
@@ -10,16 +10,11 @@ import (
 
 var sliceMap sync.Map // map[*codec]*codec for slice
 
-func sliceCodecOf(t reflect.Type, c *codec, w *walker) *codec {
+func sliceCodecOf(t reflect.Type, c *codec) *codec {
 	if loaded, ok := sliceMap.Load(c); ok {
 		return loaded.(*codec)
 	}
-	if w.codecs[t] != nil {
-		return w.codecs[t]
-	}
 	s := new(codec)
-	w.codecs[t] = s
-
 	s.size = sliceSizeFuncOf(t, c)
 	s.encode = sliceEncodeFuncOf(t, c)
 	s.decode = sliceDecodeFuncOf(t, c)
diff --git a/proto/walker.go b/proto/walker.go
index 41565b9..66d7b29 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -229,7 +229,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 				} else {
 					conf.required = true
 					field.codec = w.codec(elem, conf)
-					field.codec = sliceCodecOf(f.Type, field.codec, w)
+					field.codec = sliceCodecOf(f.Type, field.codec)
 				}
 
 			case reflect.Map:
@@ -298,7 +298,6 @@ func (w *walker) pointer(t reflect.Type, conf *walkerConfig) *codec {
 	}
 	// common value
 	p := new(codec)
-	w.codecs[t] = p
 	c := w.codec(t.Elem(), conf)
 	p.size = pointerSizeFuncOf(t, c)
 	p.encode = pointerEncodeFuncOf(t, c)
-- 
2.43.0


From 03762a94ccbcc11541f77dd75e73ebb7546ce067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:46 +0000
Subject: [PATCH 06/14] fix: honour fixed32/fixed64 tags on signed, pointer,
 repeated and map fields

---
 proto/struct.go |  4 ++++
 proto/walker.go | 62 ++++++++++++++++++++++++-------------------------
 2 files changed, 35 insertions(+), 31 deletions(-)

diff --git a/proto/struct.go b/proto/struct.go
index 9b9ce5b..39d7a77 100644
--- a/proto/struct.go
+++ b/proto/struct.go
@@ -156,6 +156,10 @@ type structTag struct {
 	zigzag      bool
 }
 
+func (t *structTag) fixed() bool {
+	return t.wireType == fixed32 || t.wireType == fixed64
+}
+
 func parseStructTag(tag string) (structTag, error) {
 	t := structTag{
 		// version:    2,
diff --git a/proto/walker.go b/proto/walker.go
index 66d7b29..9bb946b 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -23,6 +23,7 @@ type walker struct {
 
 type walkerConfig struct {
 	zigzag   bool
+	fixed    bool // fixed32 or fixed64
 	required bool
 }
 
@@ -40,15 +41,27 @@ func (w *walker) codec(t reflect.Type, conf *walkerConfig) *codec {
 		if conf.zigzag {
 			return &zigzag32Codec
 		}
+		if conf.fixed {
+			return &fixed32Codec
+		}
 		return &int32Codec
 	case reflect.Int64:
 		if conf.zigzag {
 			return &zigzag64Codec
 		}
+		if conf.fixed {
+			return &fixed64Codec
+		}
 		return &int64Codec
 	case reflect.Uint32:
+		if conf.fixed {
+			return &fixed32Codec
+		}
 		return &uint32Codec
 	case reflect.Uint64:
+		if conf.fixed {
+			return &fixed64Codec
+		}
 		return &uint64Codec
 	case reflect.Float32:
 		return &float32Codec
@@ -120,17 +133,6 @@ func (w *walker) structCodec(t reflect.Type) *codec {
 	return actualCodec.(*codec)
 }
 
-func baseKindOf(t reflect.Type) reflect.Kind {
-	return baseTypeOf(t).Kind()
-}
-
-func baseTypeOf(t reflect.Type) reflect.Type {
-	for t.Kind() == reflect.Ptr {
-		t = t.Elem()
-	}
-	return t
-}
-
 func (w *walker) structInfo(t reflect.Type) *structInfo {
 	if info, ok := structInfoCache.Load(pointer(t)); ok {
 		return info
@@ -168,28 +170,16 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 			switch f.Type {
 			case optionFloat32Type:
 				field.codec = &float32OptionCodec
-			case optionUInt32Type:
+			case optionInt32Type, optionUInt32Type:
 				field.codec = &fixed32OptionCodec
 			}
-			switch baseKindOf(f.Type) {
-			case reflect.Uint32:
-				field.codec = &fixed32Codec
-			case reflect.Float32:
-				field.codec = &float32Codec
-			}
 		case fixed64:
 			switch f.Type {
-			case optionUInt64Type:
+			case optionInt64Type, optionUInt64Type:
 				field.codec = &fixed64OptionCodec
 			case optionFloat64Type:
 				field.codec = &float64OptionCodec
 			}
-			switch baseKindOf(f.Type) {
-			case reflect.Uint64:
-				field.codec = &fixed64Codec
-			case reflect.Float64:
-				field.codec = &float64Codec
-			}
 		}
 		if field.codec == nil {
 			switch f.Type {
@@ -216,12 +206,10 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 		if field.codec == nil {
 			conf := &walkerConfig{
 				zigzag: t.zigzag,
+				fixed:  t.fixed(),
 				// required: t.required,
 			}
-			switch baseKindOf(f.Type) {
-			case reflect.Struct:
-				field.codec = w.codec(f.Type, conf)
-
+			switch f.Type.Kind() {
 			case reflect.Slice:
 				elem := f.Type.Elem()
 				if elem.Kind() == reflect.Uint8 { // []byte
@@ -247,7 +235,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 				}
 				keyField := &structField{wiretag: uint64(t.fieldNumber)<<3 | uint64(t.wireType)}
 				keyField.tagsize = sizeOfVarint(keyField.wiretag)
-				conf.zigzag = t.zigzag
+				conf.zigzag, conf.fixed = t.zigzag, t.fixed()
 				keyField.codec = w.codec(key, conf)
 
 				t, err = parseStructTag(m.valTag)
@@ -256,7 +244,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 				}
 				valFiled := &structField{wiretag: uint64(t.fieldNumber)<<3 | uint64(t.wireType)}
 				valFiled.tagsize = sizeOfVarint(valFiled.wiretag)
-				conf.zigzag = t.zigzag
+				conf.zigzag, conf.fixed = t.zigzag, t.fixed()
 				valFiled.codec = w.codec(val, conf)
 
 				m.keyField = keyField
@@ -317,15 +305,27 @@ func (w *walker) required(t reflect.Type, conf *walkerConfig) *codec {
 		if conf.zigzag {
 			return &zigzag32RequiredCodec
 		}
+		if conf.fixed {
+			return &fixed32RequiredCodec
+		}
 		return &int32RequiredCodec
 	case reflect.Int64:
 		if conf.zigzag {
 			return &zigzag64RequiredCodec
 		}
+		if conf.fixed {
+			return &fixed64RequiredCodec
+		}
 		return &int64RequiredCodec
 	case reflect.Uint32:
+		if conf.fixed {
+			return &fixed32RequiredCodec
+		}
 		return &uint32RequiredCodec
 	case reflect.Uint64:
+		if conf.fixed {
+			return &fixed64RequiredCodec
+		}
 		return &uint64RequiredCodec
 	case reflect.Float32:
 		return &float32RequiredCodec
-- 
2.43.0


From ecef28cd137d31ee1d3854054e4f754e5105a7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:18 +0000
Subject: [PATCH 07/14] fix: encode the value of a non-nil scalar pointer even
 when it is zero

---
 proto/walker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proto/walker.go b/proto/walker.go
index 9bb946b..c1785dc 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -286,7 +286,7 @@ func (w *walker) pointer(t reflect.Type, conf *walkerConfig) *codec {
 	}
 	// common value
 	p := new(codec)
-	c := w.codec(t.Elem(), conf)
+	c := w.required(t.Elem(), conf) // a non-nil pointer is present, whatever it points to
 	p.size = pointerSizeFuncOf(t, c)
 	p.encode = pointerEncodeFuncOf(t, c)
 	p.decode = pointerDecodeFuncOf(t, c)
-- 
2.43.0


From 9cb6fcd63af185a9c7e47f9e7c3286594ac6f93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:19 +0000
Subject: [PATCH 08/14] fix: encode nil elements of repeated bytes and nil
 bytes map values as empty

---
 proto/gen/required/main.go |  2 +-
 proto/required_codec.go    | 14 ++++++++++++++
 proto/walker.go            |  2 +-
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/proto/gen/required/main.go b/proto/gen/required/main.go
index 802ccdb..48054a9 100644
--- a/proto/gen/required/main.go
+++ b/proto/gen/required/main.go
@@ -20,7 +20,7 @@ func setOf(ss ...string) map[string]bool {
 }
 
 var needTransform = setOf(
-	"bool", "string",
+	"bool", "string", "bytes",
 	"float32", "float64",
 	"int32", "int64", "uint32", "uint64",
 	"fixed32", "fixed64", "zigzag32", "zigzag64",
diff --git a/proto/required_codec.go b/proto/required_codec.go
index 3a6279d..d2fe03f 100644
--- a/proto/required_codec.go
+++ b/proto/required_codec.go
@@ -22,6 +22,20 @@ func encodeBoolRequired(b []byte, p unsafe.Pointer, f *structField) []byte {
 	return b
 }
 
+var bytesRequiredCodec = codec{size: sizeOfBytesRequired, encode: encodeBytesRequired, decode: decodeBytes}
+
+func sizeOfBytesRequired(p unsafe.Pointer, f *structField) int {
+	v := *(*[]byte)(p)
+	return sizeOfVarlen(len(v)) + f.tagsize
+}
+func encodeBytesRequired(b []byte, p unsafe.Pointer, f *structField) []byte {
+	v := *(*[]byte)(p)
+	b = appendVarint(b, f.wiretag)
+	b = appendVarint(b, uint64(len(v)))
+	b = append(b, v...)
+	return b
+}
+
 var stringRequiredCodec = codec{size: sizeOfStringRequired, encode: encodeStringRequired, decode: decodeString}
 
 func sizeOfStringRequired(p unsafe.Pointer, f *structField) int {
diff --git a/proto/walker.go b/proto/walker.go
index c1785dc..ccea673 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -337,7 +337,7 @@ func (w *walker) required(t reflect.Type, conf *walkerConfig) *codec {
 		elem := t.Elem()
 		switch elem.Kind() {
 		case reflect.Uint8:
-			return &bytesCodec
+			return &bytesRequiredCodec
 		}
 	case reflect.Struct:
 		panic("nested message must be pointer:" + t.String())
-- 
2.43.0


From fd5e0eb420aa3c84159b7573aeacf8e364974e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 09/14] fix: decode a bool from the whole varint, not from its
 first byte

---
 proto/normal_codec.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/proto/normal_codec.go b/proto/normal_codec.go
index 8fd393b..5033c68 100644
--- a/proto/normal_codec.go
+++ b/proto/normal_codec.go
@@ -1,7 +1,6 @@
 package proto
 
 import (
-	"io"
 	"math"
 	"unsafe"
 )
@@ -32,11 +31,9 @@ func encodeBool(b []byte, p unsafe.Pointer, f *structField) []byte {
 }
 
 func decodeBool(b []byte, p unsafe.Pointer) (int, error) {
-	if len(b) == 0 {
-		return 0, io.ErrUnexpectedEOF
-	}
-	*(*bool)(p) = b[0] != 0
-	return 1, nil
+	v, n, err := decodeVarint(b)
+	*(*bool)(p) = v != 0
+	return n, err
 }
 
 var bytesCodec = codec{
-- 
2.43.0


From 70738d1dccd3972878ff7cb17cddfa7558ca0b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 10/14] fix: report nil and non-message arguments as errors
 instead of crashing

---
 proto/proto.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/proto/proto.go b/proto/proto.go
index b687f50..c732d30 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -14,8 +14,8 @@ import (
 
 func Size(v interface{}) int {
 	t, p := inspect(v)
-	if t.Kind() != reflect.Ptr {
-		panic(fmt.Errorf("proto.Marshal(%T): not a pointer", v))
+	if !isStructPointer(t) {
+		panic(fmt.Errorf("proto.Size(%T): not a pointer to a struct", v))
 	}
 	t = t.Elem()
 	info := cachedStructInfoOf(t)
@@ -24,8 +24,8 @@ func Size(v interface{}) int {
 
 func Marshal(v interface{}) ([]byte, error) {
 	t, p := inspect(v)
-	if t.Kind() != reflect.Ptr {
-		return nil, fmt.Errorf("proto.Marshal(%T): not a pointer", v)
+	if !isStructPointer(t) {
+		return nil, fmt.Errorf("proto.Marshal(%T): not a pointer to a struct", v)
 	}
 	t = t.Elem()
 	info := cachedStructInfoOf(t)
@@ -41,14 +41,10 @@ func Unmarshal(b []byte, v interface{}) error {
 	}
 
 	t, p := inspect(v)
-	if t.Kind() != reflect.Pointer || p == nil {
+	if !isStructPointer(t) || p == nil {
 		return &InvalidUnmarshalError{Type: t}
 	}
-	elem := t.Elem()
-	if elem.Kind() != reflect.Struct {
-		return &InvalidUnmarshalError{Type: t}
-	}
-	c := cachedStructInfoOf(elem)
+	c := cachedStructInfoOf(t.Elem())
 
 	n, err := c.decode(b, p)
 	if err != nil {
@@ -60,6 +56,12 @@ func Unmarshal(b []byte, v interface{}) error {
 	return nil
 }
 
+// isStructPointer reports whether t, the dynamic type of an argument, is a
+// pointer to a struct. It is nil if the argument was a nil interface.
+func isStructPointer(t reflect.Type) bool {
+	return t != nil && t.Kind() == reflect.Pointer && t.Elem().Kind() == reflect.Struct
+}
+
 type iface struct {
 	typ unsafe.Pointer
 	ptr unsafe.Pointer
-- 
2.43.0


From e4472013337ae3982d58dedeeead758ba3c1c42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:21 +0000
Subject: [PATCH 11/14] fix: publish codecs of a type only once its whole walk
 has finished

---
 proto/proto.go  |  4 ++--
 proto/walker.go | 17 +++++++++++++----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/proto/proto.go b/proto/proto.go
index c732d30..dac00b5 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -122,6 +122,6 @@ func cachedStructInfoOf(t reflect.Type) *structInfo {
 	}
 
 	info := w.structInfo(t)
-	actual, _ := structInfoCache.LoadOrStore(pointer(t), info)
-	return actual
+	w.publish()
+	return info
 }
diff --git a/proto/walker.go b/proto/walker.go
index ccea673..278f0da 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -129,8 +129,7 @@ func (w *walker) structCodec(t reflect.Type) *codec {
 		l, err := info.decode(b[n:], *v)
 		return n + l, err
 	}
-	actualCodec, _ := codecCache.LoadOrStore(pointer(t), c)
-	return actualCodec.(*codec)
+	return c
 }
 
 func (w *walker) structInfo(t reflect.Type) *structInfo {
@@ -268,11 +267,21 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 	for _, f := range info.fields {
 		info.fieldIndex[f.fieldNumber()] = f
 	}
-
-	structInfoCache.Store(pointer(t), info)
 	return info
 }
 
+// publish makes everything this walk has built visible to other goroutines. It
+// must not be called before the whole walk is done: until then, the codecs of a
+// recursive type refer to a structInfo that is still being filled in.
+func (w *walker) publish() {
+	for t, c := range w.codecs {
+		codecCache.LoadOrStore(pointer(t), c)
+	}
+	for t, info := range w.infos {
+		structInfoCache.LoadOrStore(pointer(t), info)
+	}
+}
+
 // @@@ Pointers @@@
 
 func deref(p unsafe.Pointer) unsafe.Pointer {
-- 
2.43.0


From 832b5fe99003e888d3258e08789c9edbe9552c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 12/14] fix: decode a repeated element from zero, not on top of
 stale spare capacity

---
 proto/slice.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/proto/slice.go b/proto/slice.go
index 6b29459..54bb61c 100644
--- a/proto/slice.go
+++ b/proto/slice.go
@@ -53,6 +53,7 @@ func sliceEncodeFuncOf(t reflect.Type, c *codec) encodeFunc {
 func sliceDecodeFuncOf(t reflect.Type, c *codec) decodeFunc {
 	elemType := t.Elem()
 	elemSize := alignedSize(elemType)
+	elemZero := unsafe.Pointer(reflect.New(elemType).Pointer())
 	return func(b []byte, p unsafe.Pointer) (int, error) {
 		s := (*Slice)(p)
 		i := s.Len()
@@ -61,7 +62,11 @@ func sliceDecodeFuncOf(t reflect.Type, c *codec) decodeFunc {
 			*s = growSlice(elemType, s)
 		}
 
-		n, err := c.decode(b, s.Index(i, elemSize))
+		// spare capacity may hold an old element; do not merge into it
+		elem := s.Index(i, elemSize)
+		Assign(pointer(elemType), elem, elemZero)
+
+		n, err := c.decode(b, elem)
 		if err == nil {
 			s.SetLen(i + 1)
 		}
-- 
2.43.0


From f8c5fe35c5f360683039e221be54e94b57fde73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 13/14] fix: accept the req option that protoc-gen-golite emits
 for required fields

---
 proto/struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proto/struct.go b/proto/struct.go
index 39d7a77..d36fc3d 100644
--- a/proto/struct.go
+++ b/proto/struct.go
@@ -196,7 +196,7 @@ func parseStructTag(tag string) (structTag, error) {
 
 		case 2:
 			switch f {
-			case "opt":
+			case "opt", "req":
 				// not sure what this is for
 			case "rep":
 				t.repeated = true
-- 
2.43.0


From b723db1d14497b7ba7b8c4853515c51c5d48ca64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:30 +0000
Subject: [PATCH 14/14] fix: reject a struct tag whose field number is missing
 or out of range

---
 proto/struct.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/proto/struct.go b/proto/struct.go
index d36fc3d..578886d 100644
--- a/proto/struct.go
+++ b/proto/struct.go
@@ -160,6 +160,8 @@ func (t *structTag) fixed() bool {
 	return t.wireType == fixed32 || t.wireType == fixed64
 }
 
+const maxFieldNumber = 1<<29 - 1
+
 func parseStructTag(tag string) (structTag, error) {
 	t := structTag{
 		// version:    2,
@@ -192,6 +194,9 @@ func parseStructTag(tag string) (structTag, error) {
 			if err != nil {
 				return t, fmt.Errorf("unsupported field number in struct tag %q: %w", tag, err)
 			}
+			if n < 1 || n > maxFieldNumber {
+				return t, fmt.Errorf("field number out of range in struct tag %q: %d", tag, n)
+			}
 			t.fieldNumber = fieldNumber(n)
 
 		case 2:
@@ -223,6 +228,9 @@ func parseStructTag(tag string) (structTag, error) {
 		}
 	}
 
+	if t.fieldNumber == 0 {
+		return t, fmt.Errorf("missing field number in struct tag %q", tag)
+	}
 	return t, nil
 }
 
-- 
2.43.0

