From 1bb5051151fb41d2758e48b4a5ad1233bb8ed7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 01/14] fix: decode bool fields as varints

A bool sent as a varint of more than one byte (0x80 0x01) was read from its
first byte only, and the remaining bytes were then parsed as the next tag.
---
 proto/normal_codec.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/proto/normal_codec.go b/proto/normal_codec.go
index 8fd393b..5033c68 100644
--- a/proto/normal_codec.go
+++ b/proto/normal_codec.go
@@ -1,7 +1,6 @@
 package proto
 
 import (
-	"io"
 	"math"
 	"unsafe"
 )
@@ -32,11 +31,9 @@ func encodeBool(b []byte, p unsafe.Pointer, f *structField) []byte {
 }
 
 func decodeBool(b []byte, p unsafe.Pointer) (int, error) {
-	if len(b) == 0 {
-		return 0, io.ErrUnexpectedEOF
-	}
-	*(*bool)(p) = b[0] != 0
-	return 1, nil
+	v, n, err := decodeVarint(b)
+	*(*bool)(p) = v != 0
+	return n, err
 }
 
 var bytesCodec = codec{
-- 
2.43.0


From 5f13b5b96d93f6bfbbb109a8d4bcc747c93941b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 02/14] fix: size map values with the value codec when encoding

The length prefix of a map entry was computed by applying the key codec to
the value, so any map whose key and value types differ was encoded with a
wrong length (or read the value memory as the wrong type).
---
 proto/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proto/map.go b/proto/map.go
index 38e3b8b..6c6dd19 100644
--- a/proto/map.go
+++ b/proto/map.go
@@ -77,7 +77,7 @@ func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {
 			val := m.Value()
 
 			keySize := keyCodec.size(key, f.keyField)
-			valSize := keyCodec.size(val, f.valField)
+			valSize := valCodec.size(val, f.valField)
 			elemSize := keySize + valSize
 
 			b = append(b, mapTag...)
-- 
2.43.0


From 799108eb4d931841b2e5f83539f9529dfbe1e619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 03/14] fix: encode a nil or empty map as nothing

A map without entries was encoded as one zero-length entry, which every
decoder (this one included) reads back as an entry with the zero key and
the zero value.
---
 proto/map.go | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/proto/map.go b/proto/map.go
index 6c6dd19..10ebb43 100644
--- a/proto/map.go
+++ b/proto/map.go
@@ -9,8 +9,6 @@ import (
 	. "github.com/RomiChan/protobuf/internal/runtime_reflect"
 )
 
-const zeroSize = 1 // sizeOfVarint(0)
-
 type mapField struct {
 	wiretag  uint64
 	keyField *structField
@@ -48,16 +46,12 @@ func mapSizeFuncOf(t reflect.Type, f *mapField) sizeFunc {
 			valSize := valCodec.size(m.Value(), f.valField)
 			n += mapTagSize + sizeOfVarint(uint64(keySize+valSize)) + keySize + valSize
 		}
-		if n == 0 {
-			n = mapTagSize + zeroSize
-		}
 		return n
 	}
 }
 
 func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {
 	mapTag := appendVarint(nil, f.wiretag)
-	zero := append(mapTag, 0)
 	keyCodec := f.keyField.codec
 	valCodec := f.valField.codec
 
@@ -67,8 +61,6 @@ func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {
 		}
 		p = *(*unsafe.Pointer)(p)
 
-		origLen := len(b)
-
 		m := MapIter{}
 		defer m.Done()
 
@@ -85,10 +77,6 @@ func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {
 			b = keyCodec.encode(b, key, f.keyField)
 			b = valCodec.encode(b, val, f.valField)
 		}
-
-		if len(b) == origLen {
-			b = append(b, zero...)
-		}
 		return b
 	}
 }
-- 
2.43.0


From 20b7496acf658dc667a6fc0bf9121400ab5cd862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 04/14] fix: decode zigzag map keys and values as zigzag

Map entries are decoded through a synthesised struct whose tags only kept
the wire type, so sint32/sint64 keys and values were encoded with zigzag
but decoded without.
---
 proto/map.go    | 20 +++++++++++++-------
 proto/walker.go |  2 ++
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/proto/map.go b/proto/map.go
index 10ebb43..c9256ab 100644
--- a/proto/map.go
+++ b/proto/map.go
@@ -10,9 +10,11 @@ import (
 )
 
 type mapField struct {
-	wiretag  uint64
-	keyField *structField
-	valField *structField
+	wiretag   uint64
+	keyField  *structField
+	valField  *structField
+	keyZigzag bool
+	valZigzag bool
 }
 
 func (w *walker) mapCodec(t reflect.Type, f *mapField) *codec {
@@ -81,14 +83,18 @@ func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {
 	}
 }
 
-func formatWireTag(wire uint64) reflect.StructTag {
-	return reflect.StructTag(fmt.Sprintf(`protobuf:"%s,%d,opt"`, wireType(wire&7), wire>>3))
+func formatWireTag(wire uint64, zigzag bool) reflect.StructTag {
+	name := wireType(wire & 7).String()
+	if zigzag {
+		name = "zigzag64"
+	}
+	return reflect.StructTag(fmt.Sprintf(`protobuf:"%s,%d,opt"`, name, wire>>3))
 }
 
 func mapDecodeFuncOf(t reflect.Type, m *mapField, w *walker) decodeFunc {
 	structType := reflect.StructOf([]reflect.StructField{
-		{Name: "Key", Type: t.Key(), Tag: formatWireTag(m.keyField.wiretag)},
-		{Name: "Elem", Type: t.Elem(), Tag: formatWireTag(m.valField.wiretag)},
+		{Name: "Key", Type: t.Key(), Tag: formatWireTag(m.keyField.wiretag, m.keyZigzag)},
+		{Name: "Elem", Type: t.Elem(), Tag: formatWireTag(m.valField.wiretag, m.valZigzag)},
 	})
 
 	info := w.structInfo(structType)
diff --git a/proto/walker.go b/proto/walker.go
index 32a4df9..12ad419 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -241,12 +241,14 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 				keyField := &structField{wiretag: uint64(t.fieldNumber)<<3 | uint64(t.wireType)}
 				keyField.tagsize = sizeOfVarint(keyField.wiretag)
 				conf.zigzag = t.zigzag
+				m.keyZigzag = t.zigzag
 				keyField.codec = w.codec(key, conf)
 
 				t, _ = parseStructTag(f.Tag.Get("protobuf_val"))
 				valFiled := &structField{wiretag: uint64(t.fieldNumber)<<3 | uint64(t.wireType)}
 				valFiled.tagsize = sizeOfVarint(valFiled.wiretag)
 				conf.zigzag = t.zigzag
+				m.valZigzag = t.zigzag
 				valFiled.codec = w.codec(val, conf)
 
 				m.keyField = keyField
-- 
2.43.0


From 52fa4d50bf4cd498483adff65ef0555028e59c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:31 +0000
Subject: [PATCH 05/14] fix: honour fixed32/fixed64 tags on every field shape

The tag was only looked at for plain and Option unsigned/float fields.
Pointer fields got the fixed codec applied to the pointer itself (writing
payload bytes over it when decoding), while repeated fields, map keys and
values and sfixed32/sfixed64 fields put varints behind a fixed-width tag.
---
 proto/struct.go |  4 ++++
 proto/walker.go | 44 ++++++++++++++++++++++++++++++--------------
 2 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/proto/struct.go b/proto/struct.go
index 9b9ce5b..f11c24b 100644
--- a/proto/struct.go
+++ b/proto/struct.go
@@ -156,6 +156,10 @@ type structTag struct {
 	zigzag      bool
 }
 
+func (t *structTag) isFixed() bool {
+	return t.wireType == fixed32 || t.wireType == fixed64
+}
+
 func parseStructTag(tag string) (structTag, error) {
 	t := structTag{
 		// version:    2,
diff --git a/proto/walker.go b/proto/walker.go
index 12ad419..6585b3b 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -23,6 +23,7 @@ type walker struct {
 
 type walkerConfig struct {
 	zigzag   bool
+	fixed    bool
 	required bool
 }
 
@@ -40,15 +41,27 @@ func (w *walker) codec(t reflect.Type, conf *walkerConfig) *codec {
 		if conf.zigzag {
 			return &zigzag32Codec
 		}
+		if conf.fixed { // sfixed32, same representation as fixed32
+			return &fixed32Codec
+		}
 		return &int32Codec
 	case reflect.Int64:
 		if conf.zigzag {
 			return &zigzag64Codec
 		}
+		if conf.fixed { // sfixed64, same representation as fixed64
+			return &fixed64Codec
+		}
 		return &int64Codec
 	case reflect.Uint32:
+		if conf.fixed {
+			return &fixed32Codec
+		}
 		return &uint32Codec
 	case reflect.Uint64:
+		if conf.fixed {
+			return &fixed64Codec
+		}
 		return &uint64Codec
 	case reflect.Float32:
 		return &float32Codec
@@ -168,28 +181,16 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 			switch f.Type {
 			case optionFloat32Type:
 				field.codec = &float32OptionCodec
-			case optionUInt32Type:
+			case optionUInt32Type, optionInt32Type:
 				field.codec = &fixed32OptionCodec
 			}
-			switch baseKindOf(f.Type) {
-			case reflect.Uint32:
-				field.codec = &fixed32Codec
-			case reflect.Float32:
-				field.codec = &float32Codec
-			}
 		case fixed64:
 			switch f.Type {
-			case optionUInt64Type:
+			case optionUInt64Type, optionInt64Type:
 				field.codec = &fixed64OptionCodec
 			case optionFloat64Type:
 				field.codec = &float64OptionCodec
 			}
-			switch baseKindOf(f.Type) {
-			case reflect.Uint64:
-				field.codec = &fixed64Codec
-			case reflect.Float64:
-				field.codec = &float64Codec
-			}
 		}
 		if field.codec == nil {
 			switch f.Type {
@@ -216,6 +217,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 		if field.codec == nil {
 			conf := &walkerConfig{
 				zigzag: t.zigzag,
+				fixed:  t.isFixed(),
 				// required: t.required,
 			}
 			switch baseKindOf(f.Type) {
@@ -241,6 +243,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 				keyField := &structField{wiretag: uint64(t.fieldNumber)<<3 | uint64(t.wireType)}
 				keyField.tagsize = sizeOfVarint(keyField.wiretag)
 				conf.zigzag = t.zigzag
+				conf.fixed = t.isFixed()
 				m.keyZigzag = t.zigzag
 				keyField.codec = w.codec(key, conf)
 
@@ -248,6 +251,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 				valFiled := &structField{wiretag: uint64(t.fieldNumber)<<3 | uint64(t.wireType)}
 				valFiled.tagsize = sizeOfVarint(valFiled.wiretag)
 				conf.zigzag = t.zigzag
+				conf.fixed = t.isFixed()
 				m.valZigzag = t.zigzag
 				valFiled.codec = w.codec(val, conf)
 
@@ -310,15 +314,27 @@ func (w *walker) required(t reflect.Type, conf *walkerConfig) *codec {
 		if conf.zigzag {
 			return &zigzag32RequiredCodec
 		}
+		if conf.fixed { // sfixed32, same representation as fixed32
+			return &fixed32RequiredCodec
+		}
 		return &int32RequiredCodec
 	case reflect.Int64:
 		if conf.zigzag {
 			return &zigzag64RequiredCodec
 		}
+		if conf.fixed { // sfixed64, same representation as fixed64
+			return &fixed64RequiredCodec
+		}
 		return &int64RequiredCodec
 	case reflect.Uint32:
+		if conf.fixed {
+			return &fixed32RequiredCodec
+		}
 		return &uint32RequiredCodec
 	case reflect.Uint64:
+		if conf.fixed {
+			return &fixed64RequiredCodec
+		}
 		return &uint64RequiredCodec
 	case reflect.Float32:
 		return &float32RequiredCodec
-- 
2.43.0


From 3725da91f9ef33914a8dfa2f12f269bc9e0d5705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 06/14] fix: do not reuse codecs across fields with different
 tags

The walker memoised scalar-pointer, slice and map codecs by Go type alone,
so in one message a []int64 or *int32 field tagged zigzag was given the
codec of an earlier field of that type tagged varint (and vice versa). Only
message codecs, which no tag affects, need the memo (for recursion).
---
 proto/map.go    | 2 --
 proto/slice.go  | 5 -----
 proto/walker.go | 1 -
 3 files changed, 8 deletions(-)

diff --git a/proto/map.go b/proto/map.go
index c9256ab..d75aad1 100644
--- a/proto/map.go
+++ b/proto/map.go
@@ -19,8 +19,6 @@ type mapField struct {
 
 func (w *walker) mapCodec(t reflect.Type, f *mapField) *codec {
 	m := new(codec)
-	w.codecs[t] = m
-
 	m.size = mapSizeFuncOf(t, f)
 	m.encode = mapEncodeFuncOf(t, f)
 	m.decode = mapDecodeFuncOf(t, f, w)
diff --git a/proto/slice.go b/proto/slice.go
index a3bc710..c26cdf9 100644
--- a/proto/slice.go
+++ b/proto/slice.go
@@ -14,12 +14,7 @@ func sliceCodecOf(t reflect.Type, c *codec, w *walker) *codec {
 	if loaded, ok := sliceMap.Load(c); ok {
 		return loaded.(*codec)
 	}
-	if w.codecs[t] != nil {
-		return w.codecs[t]
-	}
 	s := new(codec)
-	w.codecs[t] = s
-
 	s.size = sliceSizeFuncOf(t, c)
 	s.encode = sliceEncodeFuncOf(t, c)
 	s.decode = sliceDecodeFuncOf(t, c)
diff --git a/proto/walker.go b/proto/walker.go
index 6585b3b..70a58d9 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -294,7 +294,6 @@ func (w *walker) pointer(t reflect.Type, conf *walkerConfig) *codec {
 	}
 	// common value
 	p := new(codec)
-	w.codecs[t] = p
 	c := w.codec(t.Elem(), conf)
 	p.size = pointerSizeFuncOf(t, c)
 	p.encode = pointerEncodeFuncOf(t, c)
-- 
2.43.0


From 663deb10018abceb7755d74b2b8466b1a82ee7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 07/14] fix: return errors for nil and non-struct arguments

Marshal(nil) and Unmarshal(b, nil) dereferenced a nil reflect.Type, and
Marshal of a pointer to a non-struct panicked inside reflect.
---
 proto/proto.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/proto/proto.go b/proto/proto.go
index b687f50..3328851 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -24,9 +24,12 @@ func Size(v interface{}) int {
 
 func Marshal(v interface{}) ([]byte, error) {
 	t, p := inspect(v)
-	if t.Kind() != reflect.Ptr {
+	if t == nil || t.Kind() != reflect.Ptr {
 		return nil, fmt.Errorf("proto.Marshal(%T): not a pointer", v)
 	}
+	if t.Elem().Kind() != reflect.Struct {
+		return nil, fmt.Errorf("proto.Marshal(%T): not a pointer to a struct", v)
+	}
 	t = t.Elem()
 	info := cachedStructInfoOf(t)
 	b := make([]byte, 0, info.size(p))
@@ -41,7 +44,7 @@ func Unmarshal(b []byte, v interface{}) error {
 	}
 
 	t, p := inspect(v)
-	if t.Kind() != reflect.Pointer || p == nil {
+	if t == nil || t.Kind() != reflect.Pointer || p == nil {
 		return &InvalidUnmarshalError{Type: t}
 	}
 	elem := t.Elem()
-- 
2.43.0


From f71b8c5ded101f741a0baa5295c45afdd76a60b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 08/14] fix: encode nil elements of repeated bytes fields

bytesCodec omits nil slices, so a nil element of a [][]byte vanished from
the encoded list. Elements (and map values) are now always encoded.
---
 proto/gen/required/main.go |  2 +-
 proto/required_codec.go    | 14 ++++++++++++++
 proto/walker.go            |  2 +-
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/proto/gen/required/main.go b/proto/gen/required/main.go
index 802ccdb..48054a9 100644
--- a/proto/gen/required/main.go
+++ b/proto/gen/required/main.go
@@ -20,7 +20,7 @@ func setOf(ss ...string) map[string]bool {
 }
 
 var needTransform = setOf(
-	"bool", "string",
+	"bool", "string", "bytes",
 	"float32", "float64",
 	"int32", "int64", "uint32", "uint64",
 	"fixed32", "fixed64", "zigzag32", "zigzag64",
diff --git a/proto/required_codec.go b/proto/required_codec.go
index 3a6279d..d2fe03f 100644
--- a/proto/required_codec.go
+++ b/proto/required_codec.go
@@ -22,6 +22,20 @@ func encodeBoolRequired(b []byte, p unsafe.Pointer, f *structField) []byte {
 	return b
 }
 
+var bytesRequiredCodec = codec{size: sizeOfBytesRequired, encode: encodeBytesRequired, decode: decodeBytes}
+
+func sizeOfBytesRequired(p unsafe.Pointer, f *structField) int {
+	v := *(*[]byte)(p)
+	return sizeOfVarlen(len(v)) + f.tagsize
+}
+func encodeBytesRequired(b []byte, p unsafe.Pointer, f *structField) []byte {
+	v := *(*[]byte)(p)
+	b = appendVarint(b, f.wiretag)
+	b = appendVarint(b, uint64(len(v)))
+	b = append(b, v...)
+	return b
+}
+
 var stringRequiredCodec = codec{size: sizeOfStringRequired, encode: encodeStringRequired, decode: decodeString}
 
 func sizeOfStringRequired(p unsafe.Pointer, f *structField) int {
diff --git a/proto/walker.go b/proto/walker.go
index 70a58d9..50c2894 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -345,7 +345,7 @@ func (w *walker) required(t reflect.Type, conf *walkerConfig) *codec {
 		elem := t.Elem()
 		switch elem.Kind() {
 		case reflect.Uint8:
-			return &bytesCodec
+			return &bytesRequiredCodec
 		}
 	case reflect.Struct:
 		panic("nested message must be pointer:" + t.String())
-- 
2.43.0


From 06f1ba9802559d2685ced5d065d575ffcb2bdfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 09/14] fix: clear the slot a repeated element is decoded into

Decoding into the spare capacity of a slice merged the new element into
whatever the slot held before: elements of a truncated slice, or the
partial element of an earlier failed Unmarshal.
---
 proto/slice.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/proto/slice.go b/proto/slice.go
index c26cdf9..d7f5bba 100644
--- a/proto/slice.go
+++ b/proto/slice.go
@@ -53,6 +53,8 @@ func sliceEncodeFuncOf(t reflect.Type, c *codec) encodeFunc {
 func sliceDecodeFuncOf(t reflect.Type, c *codec) decodeFunc {
 	elemType := t.Elem()
 	elemSize := alignedSize(elemType)
+	etype := pointer(elemType)
+	elemZero := unsafe.Pointer(reflect.New(elemType).Pointer())
 	return func(b []byte, p unsafe.Pointer) (int, error) {
 		s := (*Slice)(p)
 		i := s.Len()
@@ -61,7 +63,10 @@ func sliceDecodeFuncOf(t reflect.Type, c *codec) decodeFunc {
 			*s = growSlice(elemType, s)
 		}
 
-		n, err := c.decode(b, s.Index(i, elemSize))
+		// the slot may hold a leftover of the slice's earlier life
+		elem := s.Index(i, elemSize)
+		Assign(etype, elem, elemZero)
+		n, err := c.decode(b, elem)
 		if err == nil {
 			s.SetLen(i + 1)
 		}
-- 
2.43.0


From ff35cc90b8a62aeb69c9e24b6c34f22f8e9861ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 10/14] fix: accept the "req" field option

protoc-gen-golite emits it for proto2 required fields, and the runtime
panicked on the struct tag.
---
 proto/struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proto/struct.go b/proto/struct.go
index f11c24b..2175e8e 100644
--- a/proto/struct.go
+++ b/proto/struct.go
@@ -196,7 +196,7 @@ func parseStructTag(tag string) (structTag, error) {
 
 		case 2:
 			switch f {
-			case "opt":
+			case "opt", "req":
 				// not sure what this is for
 			case "rep":
 				t.repeated = true
-- 
2.43.0


From 873677b1ffea863130bc00f623c345c946064d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 11/14] fix: encode pointer fields that point to a zero value

A non-nil *int32, *bool, *string, ... says the field is present, but the
field was dropped when the value was zero and came back as nil.
---
 proto/walker.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/proto/walker.go b/proto/walker.go
index 50c2894..7fba290 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -294,7 +294,12 @@ func (w *walker) pointer(t reflect.Type, conf *walkerConfig) *codec {
 	}
 	// common value
 	p := new(codec)
-	c := w.codec(t.Elem(), conf)
+	// the pointer carries presence, its target is encoded even if zero
+	c := w.codec(t.Elem(), &walkerConfig{
+		zigzag:   conf.zigzag,
+		fixed:    conf.fixed,
+		required: true,
+	})
 	p.size = pointerSizeFuncOf(t, c)
 	p.encode = pointerEncodeFuncOf(t, c)
 	p.decode = pointerDecodeFuncOf(t, c)
-- 
2.43.0


From 2738298f8b7a24571b75dcf0bb754155c14878b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 12/14] fix: do not treat a pointer to a slice as a slice

Fields were dispatched on the kind behind any number of pointers, so a
*[]byte field got a slice codec that read the pointer as a slice header.
---
 proto/walker.go | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/proto/walker.go b/proto/walker.go
index 7fba290..7095154 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -133,17 +133,6 @@ func (w *walker) structCodec(t reflect.Type) *codec {
 	return actualCodec.(*codec)
 }
 
-func baseKindOf(t reflect.Type) reflect.Kind {
-	return baseTypeOf(t).Kind()
-}
-
-func baseTypeOf(t reflect.Type) reflect.Type {
-	for t.Kind() == reflect.Ptr {
-		t = t.Elem()
-	}
-	return t
-}
-
 func (w *walker) structInfo(t reflect.Type) *structInfo {
 	if info, ok := structInfoCache.Load(pointer(t)); ok {
 		return info
@@ -220,10 +209,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 				fixed:  t.isFixed(),
 				// required: t.required,
 			}
-			switch baseKindOf(f.Type) {
-			case reflect.Struct:
-				field.codec = w.codec(f.Type, conf)
-
+			switch f.Type.Kind() {
 			case reflect.Slice:
 				elem := f.Type.Elem()
 				if elem.Kind() == reflect.Uint8 { // []byte
-- 
2.43.0


From a549bdf2f004e3285f758bcfed7d55d6b6c372ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 13/14] fix: publish type information only once it is complete

While a recursive message type was being walked, its codec and the infos of
the types it refers to were already in the global caches, with no fields
yet. A concurrent Marshal/Unmarshal (or any later one, if the walk panicked
on an unsupported field) silently treated such a message as empty.
---
 proto/proto.go  | 9 +++++++++
 proto/walker.go | 4 +---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/proto/proto.go b/proto/proto.go
index 3328851..6903723 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -123,6 +123,15 @@ func cachedStructInfoOf(t reflect.Type) *structInfo {
 	}
 
 	info := w.structInfo(t)
+
+	// Publish only now that the walk is over: until then the infos of
+	// recursive types are incomplete, and the walk may still panic.
+	for t, c := range w.codecs {
+		codecCache.LoadOrStore(pointer(t), c)
+	}
+	for t, info := range w.infos {
+		structInfoCache.LoadOrStore(pointer(t), info)
+	}
 	actual, _ := structInfoCache.LoadOrStore(pointer(t), info)
 	return actual
 }
diff --git a/proto/walker.go b/proto/walker.go
index 7095154..08e85fd 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -129,8 +129,7 @@ func (w *walker) structCodec(t reflect.Type) *codec {
 		l, err := info.decode(b[n:], *v)
 		return n + l, err
 	}
-	actualCodec, _ := codecCache.LoadOrStore(pointer(t), c)
-	return actualCodec.(*codec)
+	return c
 }
 
 func (w *walker) structInfo(t reflect.Type) *structInfo {
@@ -263,7 +262,6 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 		info.fieldIndex[f.fieldNumber()] = f
 	}
 
-	structInfoCache.Store(pointer(t), info)
 	return info
 }
 
-- 
2.43.0


From 01b07ddd3bdb5d369e9ed60b2c2c516d48f70e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:36 +0000
Subject: [PATCH 14/14] fix: decode sint32 from the low 32 bits of its varint

A sint32 payload longer than 32 bits has to be truncated before the zigzag
is undone, as it is in the other implementations.
---
 proto/normal_codec.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proto/normal_codec.go b/proto/normal_codec.go
index 5033c68..e4bddc4 100644
--- a/proto/normal_codec.go
+++ b/proto/normal_codec.go
@@ -347,7 +347,8 @@ func encodeZigzag32(b []byte, p unsafe.Pointer, f *structField) []byte {
 
 func decodeZigzag32(b []byte, p unsafe.Pointer) (int, error) {
 	u, n, err := decodeVarint(b)
-	*(*int32)(p) = int32(decodeZigZag64(u))
+	// only the low 32 bits count: truncate before undoing the zigzag
+	*(*int32)(p) = int32(decodeZigZag64(uint64(uint32(u))))
 	return n, err
 }
 
-- 
2.43.0

