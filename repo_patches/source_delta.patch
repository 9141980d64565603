From e89f0d2ac48336058cc24225741840bc8e7f8f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:24 +0000
Subject: [PATCH 01/42] fix: encode and decode the full 32-bit range of
 variable-length integers

WriteVaruint and WriteVarint panicked for values that need five bytes; values
outside of the 32-bit range are now reported as errors on both sides.
---
 pkg/abi/decode.go |  6 ++++++
 pkg/abi/encode.go | 10 ++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index 4419fd5..a033004 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -418,6 +418,9 @@ func (dec *Decoder) ReadVaruint() (uint, error) {
 	if err != nil {
 		return 0, err
 	}
+	if v > math.MaxUint32 {
+		return 0, errors.New("abi: varuint32 out of range")
+	}
 	return uint(v), nil
 }
 
@@ -426,6 +429,9 @@ func (dec *Decoder) ReadVarint() (int, error) {
 	if err != nil {
 		return 0, err
 	}
+	if v > math.MaxInt32 || v < math.MinInt32 {
+		return 0, errors.New("abi: varint32 out of range")
+	}
 	return int(v), nil
 }
 
diff --git a/pkg/abi/encode.go b/pkg/abi/encode.go
index d8b420e..1d07d9c 100644
--- a/pkg/abi/encode.go
+++ b/pkg/abi/encode.go
@@ -217,13 +217,19 @@ func (enc *Encoder) WriteInt64(v int64) error {
 }
 
 func (enc *Encoder) WriteVaruint(v uint) error {
-	var b [4]byte
+	if uint64(v) > math.MaxUint32 {
+		return errors.New("eosio encoder: varuint32 out of range")
+	}
+	var b [binary.MaxVarintLen32]byte
 	l := binary.PutUvarint(b[:], uint64(v))
 	return enc.WriteBytes(b[:l])
 }
 
 func (enc *Encoder) WriteVarint(v int) error {
-	var b [4]byte
+	if int64(v) > math.MaxInt32 || int64(v) < math.MinInt32 {
+		return errors.New("eosio encoder: varint32 out of range")
+	}
+	var b [binary.MaxVarintLen32]byte
 	l := binary.PutVarint(b[:], int64(v))
 	return enc.WriteBytes(b[:l])
 }
-- 
2.43.0


From 455ab0727399403db5599fcea73dd673030f3e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:50 +0000
Subject: [PATCH 02/42] fix: do not allocate memory based on untrusted length
 prefixes alone

---
 pkg/abi/decode.go        | 22 +++++++++++++++++++++-
 pkg/chain/abi.go         |  3 ++-
 pkg/chain/encoding.go    |  8 ++++++++
 pkg/chain/transaction.go |  9 ++++++---
 4 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index a033004..50413e0 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -1,6 +1,7 @@
 package abi
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -12,6 +13,9 @@ import (
 // Fast-path decoding function can be implemented to handle additional types without reflection.
 type DecodeFunc func(dec *Decoder, v interface{}) (done bool, err error)
 
+// Upper bound for how many bytes or elements are allocated based on a length prefix alone.
+const maxPrealloc = 1024
+
 type Decoder struct {
 	r  io.Reader
 	fn DecodeFunc
@@ -255,9 +259,16 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 		l, err = dec.ReadVaruint()
 		if err == nil {
 			if pv.Len() != int(l) {
-				pv.Set(reflect.MakeSlice(pv.Type(), int(l), int(l)))
+				n := int(l)
+				if n > maxPrealloc {
+					n = maxPrealloc
+				}
+				pv.Set(reflect.MakeSlice(pv.Type(), n, n))
 			}
 			for i := 0; i < int(l); i++ {
+				if i == pv.Len() {
+					pv.Set(reflect.Append(pv, reflect.Zero(pv.Type().Elem())))
+				}
 				pv := pv.Index(i)
 				if pv.Kind() == reflect.Ptr {
 					if pv.IsNil() {
@@ -316,6 +327,15 @@ func (dec *Decoder) ReadBytes(n int) (an int, b []byte, err error) {
 	if n == 0 {
 		return 0, []byte{}, nil
 	}
+	if n > maxPrealloc {
+		// n might be a bogus length prefix, so let the buffer grow with the data actually read
+		buf := new(bytes.Buffer)
+		m, err := io.CopyN(buf, dec.r, int64(n))
+		if err == io.EOF && m > 0 {
+			err = io.ErrUnexpectedEOF
+		}
+		return int(m), buf.Bytes(), err
+	}
 	b = make([]byte, n)
 	an, err = io.ReadFull(dec.r, b)
 	if err != nil {
diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index c925d18..5c077ef 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -413,8 +413,9 @@ func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}) error
 		var l uint
 		l, err = dec.ReadVaruint()
 		if err == nil {
-			va := make([]interface{}, l)
+			va := make([]interface{}, 0, prealloc(l))
 			for i := 0; i < int(l); i++ {
+				va = append(va, nil)
 				err = a.decodeInner(dec, t, &va[i])
 				if err != nil {
 					return err // can't recover from this
diff --git a/pkg/chain/encoding.go b/pkg/chain/encoding.go
index d3b34d0..8f83f2d 100644
--- a/pkg/chain/encoding.go
+++ b/pkg/chain/encoding.go
@@ -151,3 +151,11 @@ func NewCustomEncoder(w io.Writer, fn abi.EncodeFunc) *abi.Encoder {
 		return done, err
 	})
 }
+
+// How many elements to allocate up front for a length prefix read from untrusted data.
+func prealloc(length uint) uint {
+	if length > 1024 {
+		return 1024
+	}
+	return length
+}
diff --git a/pkg/chain/transaction.go b/pkg/chain/transaction.go
index dffb1df..bfb76f6 100644
--- a/pkg/chain/transaction.go
+++ b/pkg/chain/transaction.go
@@ -152,8 +152,9 @@ func (tx *Transaction) UnmarshalABI(d *abi.Decoder) error {
 	if err != nil {
 		return err
 	}
-	tx.ContextFreeActions = make([]Action, len)
+	tx.ContextFreeActions = make([]Action, 0, prealloc(len))
 	for i := 0; i < int(len); i++ {
+		tx.ContextFreeActions = append(tx.ContextFreeActions, Action{})
 		err = tx.ContextFreeActions[i].UnmarshalABI(d)
 		if err != nil {
 			return err
@@ -163,8 +164,9 @@ func (tx *Transaction) UnmarshalABI(d *abi.Decoder) error {
 	if err != nil {
 		return err
 	}
-	tx.Actions = make([]Action, len)
+	tx.Actions = make([]Action, 0, prealloc(len))
 	for i := 0; i < int(len); i++ {
+		tx.Actions = append(tx.Actions, Action{})
 		err = tx.Actions[i].UnmarshalABI(d)
 		if err != nil {
 			return err
@@ -174,8 +176,9 @@ func (tx *Transaction) UnmarshalABI(d *abi.Decoder) error {
 	if err != nil {
 		return err
 	}
-	tx.Extensions = make([]TransactionExtension, len)
+	tx.Extensions = make([]TransactionExtension, 0, prealloc(len))
 	for i := 0; i < int(len); i++ {
+		tx.Extensions = append(tx.Extensions, TransactionExtension{})
 		err = tx.Extensions[i].UnmarshalABI(d)
 		if err != nil {
 			return err
-- 
2.43.0


From b8d2aab2d1c8c16b7ba2cadfc8a594736a08272e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:52 +0000
Subject: [PATCH 03/42] fix: reject input nested too deeply instead of
 exhausting the stack

---
 pkg/abi/decode.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index 50413e0..88f0471 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -16,9 +16,13 @@ type DecodeFunc func(dec *Decoder, v interface{}) (done bool, err error)
 // Upper bound for how many bytes or elements are allocated based on a length prefix alone.
 const maxPrealloc = 1024
 
+// How deeply values can be nested, guards against exhausting the stack when decoding recursive types.
+const maxDepth = 10000
+
 type Decoder struct {
-	r  io.Reader
-	fn DecodeFunc
+	r     io.Reader
+	fn    DecodeFunc
+	depth int
 }
 
 type Unmarshaler interface {
@@ -147,6 +151,12 @@ func (dec *Decoder) DecodeVariant(v interface{}) error {
 func (dec *Decoder) DecodeValue(v reflect.Value) error {
 	var err error
 
+	if dec.depth >= maxDepth {
+		return errors.New("abi: value is nested too deeply")
+	}
+	dec.depth++
+	defer func() { dec.depth-- }()
+
 	u, pv := indirect(v, false)
 	if u != nil {
 		return u.UnmarshalABI(dec)
-- 
2.43.0


From 68e85d66757f437b2b8cd9760eb36af80a690481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:55 +0000
Subject: [PATCH 04/42] fix: only treat an extension as absent when none of its
 bytes are present

---
 pkg/abi/decode.go | 11 ++++++++++-
 pkg/chain/abi.go  | 14 +++++++++++---
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index 88f0471..4213009 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -23,6 +23,7 @@ type Decoder struct {
 	r     io.Reader
 	fn    DecodeFunc
 	depth int
+	pos   int64
 }
 
 type Unmarshaler interface {
@@ -246,13 +247,14 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 					}
 				}
 
+				start := dec.pos
 				if tag == "variant" {
 					err = dec.DecodeVariant(vi)
 				} else {
 					err = dec.Decode(vi)
 				}
 
-				if tag == "extension" && err == io.EOF {
+				if tag == "extension" && err == io.EOF && dec.pos == start {
 					// TODO: make sure extensions are only last field in a top-level struct
 					pv.Set(reflect.Zero(pv.Type()))
 					continue
@@ -328,6 +330,11 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 	return err
 }
 
+// Number of bytes read from the underlying reader so far.
+func (dec *Decoder) Position() int64 {
+	return dec.pos
+}
+
 // reading methods
 
 func (dec *Decoder) ReadBytes(n int) (an int, b []byte, err error) {
@@ -341,6 +348,7 @@ func (dec *Decoder) ReadBytes(n int) (an int, b []byte, err error) {
 		// n might be a bogus length prefix, so let the buffer grow with the data actually read
 		buf := new(bytes.Buffer)
 		m, err := io.CopyN(buf, dec.r, int64(n))
+		dec.pos += m
 		if err == io.EOF && m > 0 {
 			err = io.ErrUnexpectedEOF
 		}
@@ -348,6 +356,7 @@ func (dec *Decoder) ReadBytes(n int) (an int, b []byte, err error) {
 	}
 	b = make([]byte, n)
 	an, err = io.ReadFull(dec.r, b)
+	dec.pos += int64(an)
 	if err != nil {
 		return an, b, err
 	}
diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 5c077ef..67fe45c 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -401,6 +401,17 @@ func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}) error
 }
 
 func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}) error {
+	start := dec.Position()
+	err := a.decodeValue(dec, t, v)
+	if err == io.EOF && t.isExtension && dec.Position() == start {
+		// input ends before the extension
+		*v = nil
+		return nil
+	}
+	return err
+}
+
+func (a Abi) decodeValue(dec *abi.Decoder, t *resolvedType, v *interface{}) error {
 	var err error
 	if t.isOptional {
 		var exists bool
@@ -426,9 +437,6 @@ func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}) error
 	} else {
 		err = a.decodeInner(dec, t, v)
 	}
-	if err == io.EOF && t.isExtension {
-		return nil
-	}
 	return err
 }
 
-- 
2.43.0


From 2cdecbe33b06205bbfb95523313312251657fd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:57 +0000
Subject: [PATCH 05/42] fix: report nil pointers to types with their own
 marshaler instead of panicking

---
 pkg/abi/encode.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/abi/encode.go b/pkg/abi/encode.go
index 1d07d9c..da4be23 100644
--- a/pkg/abi/encode.go
+++ b/pkg/abi/encode.go
@@ -77,6 +77,10 @@ func (enc *Encoder) Encode(v interface{}) error {
 }
 
 func (enc *Encoder) EncodeValue(v reflect.Value) error {
+	// nil can't be encoded, and value receivers of Marshaler can't be called on nil pointers
+	if !v.IsValid() || v.Kind() == reflect.Ptr && v.IsNil() {
+		return errors.New("eosio encoder: encountered unexpected nil pointer")
+	}
 	// check if value conforms to Marshaler
 	if v.CanInterface() {
 		if m, ok := v.Interface().(Marshaler); ok {
@@ -86,7 +90,7 @@ func (enc *Encoder) EncodeValue(v reflect.Value) error {
 
 	switch v.Kind() {
 	case reflect.Ptr:
-		if v.IsNil() || !v.Elem().CanInterface() {
+		if !v.Elem().CanInterface() {
 			return errors.New("eosio encoder: encountered unexpected nil pointer")
 		}
 		return enc.Encode(v.Elem().Interface())
-- 
2.43.0


From fad86f1972484b8a24cb795aa06e0a74f8da4081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:59 +0000
Subject: [PATCH 06/42] fix: report read and write errors that were ignored

---
 pkg/abi/encode.go   |  4 +++-
 pkg/chain/abi.go    |  2 +-
 pkg/chain/action.go | 26 ++++++++++++++++++++------
 3 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/pkg/abi/encode.go b/pkg/abi/encode.go
index da4be23..9524ccf 100644
--- a/pkg/abi/encode.go
+++ b/pkg/abi/encode.go
@@ -117,7 +117,9 @@ func (enc *Encoder) EncodeValue(v reflect.Value) error {
 			tag := v.Type().Field(i).Tag.Get("eosio")
 			if tag == "optional" {
 				exists := !v.Field(i).IsZero()
-				enc.WriteBool(exists)
+				if err := enc.WriteBool(exists); err != nil {
+					return err
+				}
 				if !exists {
 					continue
 				}
diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 67fe45c..481122a 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -154,7 +154,7 @@ func (a Abi) encodeType(enc *abi.Encoder, t *resolvedType, v interface{}) error
 	if t.isOptional {
 		err = enc.WriteBool(exists)
 		if !exists || err != nil {
-			return nil
+			return err
 		}
 	} else if !exists {
 		return fmt.Errorf("found nil for non optional %v", t.baseName)
diff --git a/pkg/chain/action.go b/pkg/chain/action.go
index 58bdd0c..db9a8c2 100644
--- a/pkg/chain/action.go
+++ b/pkg/chain/action.go
@@ -51,14 +51,22 @@ func (a Action) Digest() Checksum256 {
 // abi.Marshaler conformance
 
 func (pl PermissionLevel) MarshalABI(e *abi.Encoder) error {
-	pl.Actor.MarshalABI(e)
+	if err := pl.Actor.MarshalABI(e); err != nil {
+		return err
+	}
 	return pl.Permission.MarshalABI(e)
 }
 
 func (a Action) MarshalABI(e *abi.Encoder) error {
 	var err error
-	a.Account.MarshalABI(e)
-	a.Name.MarshalABI(e)
+	err = a.Account.MarshalABI(e)
+	if err != nil {
+		return err
+	}
+	err = a.Name.MarshalABI(e)
+	if err != nil {
+		return err
+	}
 	l := uint(len(a.Authorization))
 	err = e.WriteVaruint(l)
 	if err != nil {
@@ -76,13 +84,19 @@ func (a Action) MarshalABI(e *abi.Encoder) error {
 // abi.Unmarshaler conformance
 
 func (pl *PermissionLevel) UnmarshalABI(d *abi.Decoder) error {
-	pl.Actor.UnmarshalABI(d)
+	if err := pl.Actor.UnmarshalABI(d); err != nil {
+		return err
+	}
 	return pl.Permission.UnmarshalABI(d)
 }
 
 func (a *Action) UnmarshalABI(d *abi.Decoder) error {
-	a.Account.UnmarshalABI(d)
-	a.Name.UnmarshalABI(d)
+	if err := a.Account.UnmarshalABI(d); err != nil {
+		return err
+	}
+	if err := a.Name.UnmarshalABI(d); err != nil {
+		return err
+	}
 	l, err := d.ReadVaruint()
 	if err != nil {
 		return err
-- 
2.43.0


From b01b73674d338b0c6f5868f81a0990202a541da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:02 +0000
Subject: [PATCH 07/42] fix: replace action authorization when decoding into a
 used action

---
 pkg/chain/action.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/chain/action.go b/pkg/chain/action.go
index db9a8c2..31fc6c7 100644
--- a/pkg/chain/action.go
+++ b/pkg/chain/action.go
@@ -101,6 +101,7 @@ func (a *Action) UnmarshalABI(d *abi.Decoder) error {
 	if err != nil {
 		return err
 	}
+	a.Authorization = nil
 	for i := 0; i < int(l); i++ {
 		var pl PermissionLevel
 		err = pl.UnmarshalABI(d)
-- 
2.43.0


From 72df1b0fa7e5321c106fa57a328aa70a2c58b9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:04 +0000
Subject: [PATCH 08/42] fix: encode maps in a deterministic order

---
 pkg/abi/encode.go | 48 ++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 5 deletions(-)

diff --git a/pkg/abi/encode.go b/pkg/abi/encode.go
index 9524ccf..bc0cb9c 100644
--- a/pkg/abi/encode.go
+++ b/pkg/abi/encode.go
@@ -1,11 +1,13 @@
 package abi
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"io"
 	"math"
 	"reflect"
+	"sort"
 )
 
 // Fast-path decoding function can be implemented to handle additional types without reflection.
@@ -135,11 +137,12 @@ func (enc *Encoder) EncodeValue(v reflect.Value) error {
 		if err != nil {
 			return err
 		}
-		for _, key := range v.MapKeys() {
-			if err := enc.Encode(key.Interface()); err != nil {
-				return err
-			}
-			if err := enc.Encode(v.MapIndex(key).Interface()); err != nil {
+		entries, err := enc.sortedEntries(v)
+		if err != nil {
+			return err
+		}
+		for _, entry := range entries {
+			if err := enc.WriteBytes(entry.data); err != nil {
 				return err
 			}
 		}
@@ -160,6 +163,41 @@ func (enc *Encoder) EncodeValue(v reflect.Value) error {
 	return nil
 }
 
+type mapEntry struct {
+	key  reflect.Value
+	data []byte
+}
+
+// encode map entries and sort them by key, like std::map, so that equal maps always encode to the same bytes.
+func (enc *Encoder) sortedEntries(m reflect.Value) ([]mapEntry, error) {
+	var entries []mapEntry
+	for it := m.MapRange(); it.Next(); {
+		buf := new(bytes.Buffer)
+		sub := NewEncoder(buf, enc.fn)
+		if err := sub.Encode(it.Key().Interface()); err != nil {
+			return nil, err
+		}
+		if err := sub.Encode(it.Value().Interface()); err != nil {
+			return nil, err
+		}
+		entries = append(entries, mapEntry{it.Key(), buf.Bytes()})
+	}
+	sort.Slice(entries, func(i, j int) bool {
+		a, b := entries[i], entries[j]
+		switch a.key.Kind() {
+		case reflect.String:
+			return a.key.String() < b.key.String()
+		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+			return a.key.Int() < b.key.Int()
+		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+			return a.key.Uint() < b.key.Uint()
+		default:
+			return bytes.Compare(a.data, b.data) < 0
+		}
+	})
+	return entries, nil
+}
+
 // writing methods
 
 func (enc *Encoder) WriteBytes(b []byte) error {
-- 
2.43.0


From b54d4ed66cee9e77a4cf4c700e6700ae48ee9f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:07 +0000
Subject: [PATCH 09/42] fix: encode variant fields as variants and support all
 variant indices

---
 pkg/abi/decode.go |  2 +-
 pkg/abi/encode.go | 41 ++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index 4213009..0b52186 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -109,7 +109,7 @@ func (dec *Decoder) DecodeVariant(v interface{}) error {
 		return fmt.Errorf("abi: invalid variant type, unable to decode into %s", val.Type())
 	}
 	// read variant index
-	vIdx, err := dec.ReadByte()
+	vIdx, err := dec.ReadVaruint()
 	if err != nil {
 		return err
 	}
diff --git a/pkg/abi/encode.go b/pkg/abi/encode.go
index bc0cb9c..605be51 100644
--- a/pkg/abi/encode.go
+++ b/pkg/abi/encode.go
@@ -126,7 +126,12 @@ func (enc *Encoder) EncodeValue(v reflect.Value) error {
 					continue
 				}
 			}
-			err := enc.Encode(v.Field(i).Interface())
+			var err error
+			if tag == "variant" {
+				err = enc.EncodeVariant(v.Field(i).Interface())
+			} else {
+				err = enc.Encode(v.Field(i).Interface())
+			}
 			if err != nil {
 				return err
 			}
@@ -163,6 +168,40 @@ func (enc *Encoder) EncodeValue(v reflect.Value) error {
 	return nil
 }
 
+// Encode variant, which must be a struct with all pointer fields where exactly one is set.
+func (enc *Encoder) EncodeVariant(v interface{}) error {
+	val := reflect.ValueOf(v)
+	if m, ok := v.(Marshaler); ok && (val.Kind() != reflect.Ptr || !val.IsNil()) {
+		return m.MarshalABI(enc)
+	}
+	for val.Kind() == reflect.Ptr {
+		val = val.Elem()
+	}
+	if val.Kind() != reflect.Struct {
+		return errors.New("eosio encoder: invalid variant, expected struct")
+	}
+	idx := -1
+	for i := 0; i < val.NumField(); i++ {
+		if val.Field(i).Kind() != reflect.Ptr {
+			return errors.New("eosio encoder: invalid variant, expected field pointer")
+		}
+		if val.Field(i).IsNil() {
+			continue
+		}
+		if idx != -1 {
+			return errors.New("eosio encoder: invalid variant, more than one field set")
+		}
+		idx = i
+	}
+	if idx == -1 {
+		return errors.New("eosio encoder: invalid variant, no field set")
+	}
+	if err := enc.WriteVaruint(uint(idx)); err != nil {
+		return err
+	}
+	return enc.Encode(val.Field(idx).Interface())
+}
+
 type mapEntry struct {
 	key  reflect.Value
 	data []byte
-- 
2.43.0


From 911e894e7d44730e60c7a187da129efa6c0352b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:29 +0000
Subject: [PATCH 10/42] fix: do not panic on empty or one letter ABI type names

---
 pkg/chain/abi.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 481122a..a1c352f 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"reflect"
+	"strings"
 
 	"github.com/greymass/go-eosio/pkg/abi"
 )
@@ -596,17 +597,17 @@ func (r *resolver) resolve(name string) *resolvedType {
 	}
 	var isOptional bool
 	baseName := name
-	if name[len(name)-1] == '?' {
+	if strings.HasSuffix(baseName, "?") {
 		isOptional = true
-		baseName = name[:len(name)-1]
+		baseName = baseName[:len(baseName)-1]
 	}
 	var isExtension bool
-	if baseName[len(baseName)-1] == '$' {
+	if strings.HasSuffix(baseName, "$") {
 		isExtension = true
 		baseName = baseName[:len(baseName)-1]
 	}
 	var isArray bool
-	if baseName[len(baseName)-2] == '[' && baseName[len(baseName)-1] == ']' {
+	if strings.HasSuffix(baseName, "[]") {
 		isArray = true
 		baseName = baseName[:len(baseName)-2]
 	}
-- 
2.43.0


From 29a259a8a6d82649137ad091361222bc62d66661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:40 +0000
Subject: [PATCH 11/42] fix: support nested type suffixes in ABI type names

---
 pkg/chain/abi.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index a1c352f..01ec9a0 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -646,6 +646,9 @@ func (r *resolver) resolve(name string) *resolvedType {
 		}
 	} else if at := r.abi.GetType(baseName); at != nil {
 		t.ref = r.resolve(at.Type)
+	} else if strings.HasSuffix(baseName, "?") || strings.HasSuffix(baseName, "[]") {
+		// nested type suffixes, e.g. optional elements in an array
+		t.ref = r.resolve(baseName)
 	}
 
 	return &t
-- 
2.43.0


From 94cb390b448d8f762ca5308f82957fff9ee6f467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:43 +0000
Subject: [PATCH 12/42] fix: support structs without fields in ABI encoding and
 decoding

---
 pkg/chain/abi.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 01ec9a0..a2abc1c 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -681,10 +681,10 @@ func (rt *resolvedType) allFields() []*struct {
 	if rt.fields == nil {
 		return nil
 	}
-	var rv []*struct {
+	rv := []*struct {
 		name string
 		typ  *resolvedType
-	}
+	}{} // not nil, structs can be empty
 	var seen map[string]bool = make(map[string]bool)
 	var cur *resolvedType = rt
 	for {
-- 
2.43.0


From 8b486755bd424b87c3a437c79e264eeaea47abee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:45 +0000
Subject: [PATCH 13/42] fix: encode bytes in ABI encoding with their length and
 accept decoded values

---
 pkg/chain/abi.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index a2abc1c..17c3add 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -318,8 +318,11 @@ func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}) error
 			}
 		case "bytes":
 			var vv []byte
+			var vv2 Bytes
 			if vv, ok = v.([]byte); ok {
-				err = enc.WriteBytes(vv)
+				err = Bytes(vv).MarshalABI(enc)
+			} else if vv2, ok = v.(Bytes); ok {
+				err = vv2.MarshalABI(enc)
 			}
 		// chain builtins
 		case "asset":
-- 
2.43.0


From 381da7612284ee636f79b51a0826733d2f9cc863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:48 +0000
Subject: [PATCH 14/42] fix: decode eosio::name like name, as it is encoded

---
 pkg/chain/abi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 17c3add..a9e6092 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -552,7 +552,7 @@ func (a Abi) decodeInner(dec *abi.Decoder, t *resolvedType, v *interface{}) erro
 			var rv ExtendedAsset
 			err = rv.UnmarshalABI(dec)
 			*v = rv
-		case "name":
+		case "name", "eosio::name":
 			var rv Name
 			err = rv.UnmarshalABI(dec)
 			*v = rv
-- 
2.43.0


From 178c7463e08a9d7927c56b6841e90ce54808f3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:50 +0000
Subject: [PATCH 15/42] fix: accept nil for aliases of optional types in ABI
 encoding

---
 pkg/chain/abi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index a9e6092..da13868 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -157,7 +157,7 @@ func (a Abi) encodeType(enc *abi.Encoder, t *resolvedType, v interface{}) error
 		if !exists || err != nil {
 			return err
 		}
-	} else if !exists {
+	} else if !exists && (t.ref == nil || t.isArray) {
 		return fmt.Errorf("found nil for non optional %v", t.baseName)
 	}
 	if t.isArray {
-- 
2.43.0


From a1ea656a6deb859cbcb2dd68551ff2189c191316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:53 +0000
Subject: [PATCH 16/42] fix: allow absent trailing extensions in ABI encoding

---
 pkg/chain/abi.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index da13868..8d02e79 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -190,7 +190,15 @@ func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}) error
 		if !ok {
 			return fmt.Errorf("expected map, found %v", reflect.TypeOf(v))
 		}
+		omitted := ""
 		for _, f := range fields {
+			if vs[f.name] == nil && f.typ.isExtension && !f.typ.isNullable() {
+				omitted = f.name
+				continue
+			}
+			if omitted != "" {
+				return fmt.Errorf("found %v after omitted extension %v", f.name, omitted)
+			}
 			if err = a.encodeType(enc, f.typ, vs[f.name]); err != nil {
 				return err
 			}
@@ -677,6 +685,11 @@ func (t *resolvedType) String() string {
 	return "type<" + t.name + ">"
 }
 
+// whether nil is a value of this type
+func (t *resolvedType) isNullable() bool {
+	return t.isOptional || !t.isArray && t.ref != nil && t.ref.isOptional
+}
+
 func (rt *resolvedType) allFields() []*struct {
 	name string
 	typ  *resolvedType
-- 
2.43.0


From 756de2bdd8b0bce83ee97e942fda742558fb0eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:55 +0000
Subject: [PATCH 17/42] fix: report circular ABI types instead of overflowing
 the stack

---
 pkg/chain/abi.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 8d02e79..69442bf 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -150,6 +150,10 @@ func (a Abi) Encode(w io.Writer, name string, v interface{}) error {
 }
 
 func (a Abi) encodeType(enc *abi.Encoder, t *resolvedType, v interface{}) error {
+	if err := t.enter(); err != nil {
+		return err
+	}
+	defer t.leave()
 	var err error
 	exists := v != nil
 	if t.isOptional {
@@ -413,6 +417,10 @@ func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}) error
 }
 
 func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}) error {
+	if err := t.enter(); err != nil {
+		return err
+	}
+	defer t.leave()
 	start := dec.Position()
 	err := a.decodeValue(dec, t, v)
 	if err == io.EOF && t.isExtension && dec.Position() == start {
@@ -671,6 +679,7 @@ type resolvedType struct {
 	isArray     bool
 	isOptional  bool
 	isExtension bool
+	depth       int
 
 	base   *resolvedType
 	fields *[]*struct {
@@ -685,6 +694,19 @@ func (t *resolvedType) String() string {
 	return "type<" + t.name + ">"
 }
 
+// limit how deeply a type can be nested in itself, types that refer only to themselves never end
+func (t *resolvedType) enter() error {
+	if t.depth >= 1024 {
+		return fmt.Errorf("type %v is nested too deeply", t.name)
+	}
+	t.depth++
+	return nil
+}
+
+func (t *resolvedType) leave() {
+	t.depth--
+}
+
 // whether nil is a value of this type
 func (t *resolvedType) isNullable() bool {
 	return t.isOptional || !t.isArray && t.ref != nil && t.ref.isOptional
-- 
2.43.0


From 2fd68c559309eef8c246bc142efb5f0e72b9f096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:08 +0000
Subject: [PATCH 18/42] fix: do not panic when decoding base58 text with
 multi-byte characters

---
 pkg/base58/base58.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/base58/base58.go b/pkg/base58/base58.go
index eb6c070..5dc462a 100644
--- a/pkg/base58/base58.go
+++ b/pkg/base58/base58.go
@@ -48,7 +48,7 @@ func Decode(b string) []byte {
 		}
 
 		total := uint64(0)
-		for _, v := range t[:n] {
+		for _, v := range []byte(t[:n]) {
 			tmp := b58[v]
 			if tmp == 255 {
 				return []byte("")
-- 
2.43.0


From 9f2d38bf09df31044d11df04a3dbd7d0355707c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:49 +0000
Subject: [PATCH 19/42] fix: use the ripemd160 checksum for legacy public keys

---
 pkg/chain/public_key.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/chain/public_key.go b/pkg/chain/public_key.go
index 2b4335a..6cc96c9 100644
--- a/pkg/chain/public_key.go
+++ b/pkg/chain/public_key.go
@@ -45,7 +45,7 @@ func NewPublicKeyFromString(s string) (*PublicKey, error) {
 		}, err
 	}
 	// legacy format
-	d, err := base58.CheckDecode(s[len(s)-50:])
+	d, err := base58.CheckDecodeEosio(s[len(s)-50:], "")
 	return &PublicKey{
 		Type: K1,
 		Data: d,
@@ -61,7 +61,7 @@ func (pk *PublicKey) LegacyString(prefix string) string {
 	if pk.Type != K1 {
 		panic("only K1 keys can be converted to legacy format")
 	}
-	return prefix + base58.CheckEncode(pk.Data)
+	return prefix + base58.CheckEncodeEosio(pk.Data, "")
 }
 
 // abi.Marshaler conformance
-- 
2.43.0


From b390d0e03514f0fe1742788e92c6b34acebb72b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:51 +0000
Subject: [PATCH 20/42] fix: do not panic on short legacy public keys

---
 pkg/chain/public_key.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/chain/public_key.go b/pkg/chain/public_key.go
index 6cc96c9..79a835d 100644
--- a/pkg/chain/public_key.go
+++ b/pkg/chain/public_key.go
@@ -45,6 +45,9 @@ func NewPublicKeyFromString(s string) (*PublicKey, error) {
 		}, err
 	}
 	// legacy format
+	if len(s) < 50 {
+		return nil, errors.New("invalid public key string")
+	}
 	d, err := base58.CheckDecodeEosio(s[len(s)-50:], "")
 	return &PublicKey{
 		Type: K1,
-- 
2.43.0


From 8d485445e1298a99fd5a848b79a0ec0f61ebf2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:20 +0000
Subject: [PATCH 21/42] fix: reject key and signature texts with a wrong
 separator or payload length

---
 pkg/chain/key_type.go   | 12 ++++++++++++
 pkg/chain/public_key.go | 26 ++++++++++++++++++--------
 pkg/chain/signature.go  | 14 ++++++++------
 3 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/pkg/chain/key_type.go b/pkg/chain/key_type.go
index b89c5c3..ec7bf2a 100644
--- a/pkg/chain/key_type.go
+++ b/pkg/chain/key_type.go
@@ -1,5 +1,11 @@
 package chain
 
+import (
+	"bytes"
+
+	"github.com/greymass/go-eosio/pkg/abi"
+)
+
 type KeyType byte
 
 const (
@@ -20,3 +26,9 @@ func (t KeyType) String() string {
 		return "XX"
 	}
 }
+
+// Check that data is exactly what the binary form of a key or signature of the given type holds.
+func isKeyData(v abi.Unmarshaler, t KeyType, data []byte) bool {
+	r := bytes.NewReader(append([]byte{byte(t)}, data...))
+	return v.UnmarshalABI(NewDecoder(r)) == nil && r.Len() == 0
+}
diff --git a/pkg/chain/public_key.go b/pkg/chain/public_key.go
index 79a835d..4f029fd 100644
--- a/pkg/chain/public_key.go
+++ b/pkg/chain/public_key.go
@@ -27,6 +27,9 @@ func NewPublicKeyFromString(s string) (*PublicKey, error) {
 	}
 	if s[0:4] == "PUB_" {
 		// new format
+		if s[6] != '_' {
+			return nil, errors.New("invalid public key string")
+		}
 		var t KeyType
 		switch s[4:6] {
 		case "K1":
@@ -39,20 +42,27 @@ func NewPublicKeyFromString(s string) (*PublicKey, error) {
 			return nil, fmt.Errorf("unknown key type: %s", s[4:6])
 		}
 		d, err := base58.CheckDecodeEosio(s[7:], t.String())
-		return &PublicKey{
-			Type: t,
-			Data: d,
-		}, err
+		if err != nil {
+			return nil, err
+		}
+		return validPublicKey(t, d)
 	}
 	// legacy format
 	if len(s) < 50 {
 		return nil, errors.New("invalid public key string")
 	}
 	d, err := base58.CheckDecodeEosio(s[len(s)-50:], "")
-	return &PublicKey{
-		Type: K1,
-		Data: d,
-	}, err
+	if err != nil {
+		return nil, err
+	}
+	return validPublicKey(K1, d)
+}
+
+func validPublicKey(t KeyType, d []byte) (*PublicKey, error) {
+	if !isKeyData(new(PublicKey), t, d) {
+		return nil, errors.New("invalid public key data")
+	}
+	return NewPublicKey(t, d), nil
 }
 
 func (pk *PublicKey) String() string {
diff --git a/pkg/chain/signature.go b/pkg/chain/signature.go
index 6e661fe..59e9e49 100644
--- a/pkg/chain/signature.go
+++ b/pkg/chain/signature.go
@@ -22,7 +22,7 @@ func NewSignature(t KeyType, d []byte) *Signature {
 }
 
 func NewSignatureString(s string) (*Signature, error) {
-	if len(s) < 7 || s[:4] != "SIG_" {
+	if len(s) < 7 || s[:4] != "SIG_" || s[6] != '_' {
 		return nil, errors.New("invalid signature string")
 	}
 	var t KeyType
@@ -37,11 +37,13 @@ func NewSignatureString(s string) (*Signature, error) {
 		return nil, fmt.Errorf("unknown signature type: %s", s[4:6])
 	}
 	d, err := base58.CheckDecodeEosio(s[7:], t.String())
-	return &Signature{
-		Type: t,
-		Data: d,
-	}, err
-
+	if err != nil {
+		return nil, err
+	}
+	if !isKeyData(new(Signature), t, d) {
+		return nil, errors.New("invalid signature data")
+	}
+	return NewSignature(t, d), nil
 }
 
 func (pk *Signature) String() string {
-- 
2.43.0


From 1f0f1e95572949457c43ab29ac3c1637bfe737a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:23 +0000
Subject: [PATCH 22/42] fix: reject checksum and float128 texts of the wrong
 length

---
 pkg/chain/checksum.go | 33 ++++++++++++++++-----------------
 pkg/chain/numbers.go  |  6 +-----
 2 files changed, 17 insertions(+), 22 deletions(-)

diff --git a/pkg/chain/checksum.go b/pkg/chain/checksum.go
index 06ea317..d4a83e4 100644
--- a/pkg/chain/checksum.go
+++ b/pkg/chain/checksum.go
@@ -4,6 +4,7 @@ import (
 	"crypto/sha256"
 	"crypto/sha512"
 	"encoding/hex"
+	"errors"
 
 	"github.com/greymass/go-eosio/pkg/abi"
 	"github.com/greymass/go-eosio/pkg/ripemd160"
@@ -117,28 +118,26 @@ func (c512 Checksum512) MarshalText() (text []byte, err error) {
 // encoding.TextUnmarshaler conformance
 
 func (c160 *Checksum160) UnmarshalText(text []byte) error {
-	data := make([]byte, hex.DecodedLen(len(text)))
-	_, err := hex.Decode(data, text)
-	if err == nil {
-		copy((*c160)[:], data[:20])
-	}
-	return err
+	return decodeHex(c160[:], text)
 }
 
 func (c256 *Checksum256) UnmarshalText(text []byte) error {
-	data := make([]byte, hex.DecodedLen(len(text)))
-	_, err := hex.Decode(data, text)
-	if err == nil {
-		copy((*c256)[:], data[:32])
-	}
-	return err
+	return decodeHex(c256[:], text)
 }
 
 func (c512 *Checksum512) UnmarshalText(text []byte) error {
-	data := make([]byte, hex.DecodedLen(len(text)))
-	_, err := hex.Decode(data, text)
-	if err == nil {
-		copy((*c512)[:], data[:64])
+	return decodeHex(c512[:], text)
+}
+
+// Decode hex text that must fill dst exactly, dst is left unchanged on errors.
+func decodeHex(dst []byte, text []byte) error {
+	data, err := hex.DecodeString(string(text))
+	if err != nil {
+		return err
 	}
-	return err
+	if len(data) != len(dst) {
+		return errors.New("invalid hex string length")
+	}
+	copy(dst, data)
+	return nil
 }
diff --git a/pkg/chain/numbers.go b/pkg/chain/numbers.go
index 4edba44..a331fd4 100644
--- a/pkg/chain/numbers.go
+++ b/pkg/chain/numbers.go
@@ -219,11 +219,7 @@ func (i128 *Int128) UnmarshalText(text []byte) error {
 }
 
 func (f128 *Float128) UnmarshalText(text []byte) error {
-	b, err := hex.DecodeString(string(text))
-	if err == nil {
-		copy(f128.Data[:], b)
-	}
-	return err
+	return decodeHex(f128.Data[:], text)
 }
 
 // json.Marshaler conformance
-- 
2.43.0


From 68afbce14a7dc76a3687941122e0b076d4f2f233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:25 +0000
Subject: [PATCH 23/42] fix: report invalid hex when parsing bytes

---
 pkg/chain/bytes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/chain/bytes.go b/pkg/chain/bytes.go
index 7427f71..69dbc36 100644
--- a/pkg/chain/bytes.go
+++ b/pkg/chain/bytes.go
@@ -54,5 +54,5 @@ func (b *Bytes) UnmarshalText(text []byte) error {
 	if err == nil {
 		*b = data
 	}
-	return nil
+	return err
 }
-- 
2.43.0


From 6acecc4917b34b32275f98d4e72ec5cc54f08f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:27 +0000
Subject: [PATCH 24/42] fix: keep the old value when parsing a blob or 128-bit
 integer fails

---
 pkg/chain/blob.go    |  6 ++++--
 pkg/chain/numbers.go | 12 ++++++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/pkg/chain/blob.go b/pkg/chain/blob.go
index a382d73..a70c4fc 100644
--- a/pkg/chain/blob.go
+++ b/pkg/chain/blob.go
@@ -57,7 +57,9 @@ func (b *Blob) UnmarshalText(text []byte) error {
 	case 3:
 		text = append(text, "="...)
 	}
-	var err error
-	*b, err = base64.StdEncoding.DecodeString(string(text))
+	data, err := base64.StdEncoding.DecodeString(string(text))
+	if err == nil {
+		*b = data
+	}
 	return err
 }
diff --git a/pkg/chain/numbers.go b/pkg/chain/numbers.go
index a331fd4..d200076 100644
--- a/pkg/chain/numbers.go
+++ b/pkg/chain/numbers.go
@@ -207,14 +207,18 @@ func (f128 Float128) MarshalText() (text []byte, err error) {
 // encoding.TextUnmarshaler conformance
 
 func (u128 *Uint128) UnmarshalText(text []byte) error {
-	var err error
-	*u128, err = NewUint128FromString(string(text))
+	new, err := NewUint128FromString(string(text))
+	if err == nil {
+		*u128 = new
+	}
 	return err
 }
 
 func (i128 *Int128) UnmarshalText(text []byte) error {
-	var err error
-	*i128, err = NewInt128FromString(string(text))
+	new, err := NewInt128FromString(string(text))
+	if err == nil {
+		*i128 = new
+	}
 	return err
 }
 
-- 
2.43.0


From 3cafc0bd00b0fd2cc901483bc6a13b857138905c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:30 +0000
Subject: [PATCH 25/42] fix: do not overwrite caller memory when parsing
 unpadded base64

---
 pkg/chain/blob.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/chain/blob.go b/pkg/chain/blob.go
index a70c4fc..57d913c 100644
--- a/pkg/chain/blob.go
+++ b/pkg/chain/blob.go
@@ -50,7 +50,8 @@ func (b Blob) MarshalText() (text []byte, err error) {
 // encoding.TextUnmarshaler conformance
 
 func (b *Blob) UnmarshalText(text []byte) error {
-	// fix up the base64 encoding padding
+	// fix up the base64 encoding padding, without writing to the caller's memory
+	text = text[:len(text):len(text)]
 	switch len(text) % 4 {
 	case 2:
 		text = append(text, "=="...)
-- 
2.43.0


From 6e3bd86b867942952af9f598b29bd9c189a7b2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:59 +0000
Subject: [PATCH 26/42] fix: format assets with the smallest amount or a large
 precision correctly

---
 pkg/chain/asset.go | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/pkg/chain/asset.go b/pkg/chain/asset.go
index 5592188..782c2b5 100644
--- a/pkg/chain/asset.go
+++ b/pkg/chain/asset.go
@@ -2,7 +2,6 @@ package chain
 
 import (
 	"errors"
-	"fmt"
 	"strconv"
 	"strings"
 
@@ -82,21 +81,19 @@ func A(s string) *Asset {
 // String representation of asset, e.g. "1.0000 EOS"
 func (a *Asset) String() string {
 	s := ""
+	v := uint64(a.Value)
 	if a.Value < 0 {
 		s = "-"
-	}
-	v := int(a.Value)
-	if v < 0 {
 		v = -v
 	}
-	s += fmt.Sprint(v / a.Symbol.Precision())
-	if a.Symbol.Decimals() > 0 {
-		f := v % a.Symbol.Precision()
-		fs := strconv.Itoa(f)
-		for len(fs) < a.Symbol.Decimals() {
-			fs = "0" + fs
-		}
-		s += "." + fs
+	d := a.Symbol.Decimals()
+	ds := strconv.FormatUint(v, 10)
+	for len(ds) <= d {
+		ds = "0" + ds
+	}
+	s += ds[:len(ds)-d]
+	if d > 0 {
+		s += "." + ds[len(ds)-d:]
 	}
 	return s + " " + a.Symbol.Name()
 }
-- 
2.43.0


From 12d1ad3d48e4a673eae5d6deeeddb9132fbe4ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:01 +0000
Subject: [PATCH 27/42] fix: check the range of 128-bit integers

---
 pkg/chain/numbers.go | 39 +++++++++++++++++----------------------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/pkg/chain/numbers.go b/pkg/chain/numbers.go
index d200076..21c6d25 100644
--- a/pkg/chain/numbers.go
+++ b/pkg/chain/numbers.go
@@ -33,8 +33,11 @@ func (bn BlockNum) String() string {
 	return fmt.Sprintf("%010d", bn)
 }
 
-// Create new Uint128 from big.Int, panics if big.Int is too large.
+// Create new Uint128 from big.Int, panics if big.Int is negative or too large.
 func NewUint128(i *big.Int) Uint128 {
+	if i.Sign() < 0 {
+		panic("uint128 can't be negative")
+	}
 	var b [16]byte
 	i.FillBytes(b[:])
 	return Uint128{
@@ -45,29 +48,21 @@ func NewUint128(i *big.Int) Uint128 {
 
 // Create new Int128 from big.Int, panics if big.Int is too large.
 func NewInt128(i *big.Int) Int128 {
-	var b []byte
-	if i.BitLen() > 128 {
-		panic("int128 only supports bitlen <= 128")
+	if !isInt128(i) {
+		panic("int128 is limited to -2^127..2^127-1")
 	}
-	switch i.Sign() {
-	case 0:
-		return Int128{0, 0}
-	case 1:
-		b = i.Bytes()
-		for len(b) < 16 {
-			b = append([]byte{0}, b...)
-		}
-	case -1:
-		length := uint(i.BitLen()/8+1) * 8
-		b = new(big.Int).Add(i, new(big.Int).Lsh(big.NewInt(1), length)).Bytes()
-		for len(b) < 16 {
-			b = append([]byte{0xff}, b...)
-		}
+	if i.Sign() < 0 {
+		// two's complement
+		i = new(big.Int).Add(i, new(big.Int).Lsh(big.NewInt(1), 128))
 	}
-	return Int128{
-		binary.BigEndian.Uint64(b[8:]),
-		binary.BigEndian.Uint64(b[:8]),
+	return Int128(NewUint128(i))
+}
+
+func isInt128(i *big.Int) bool {
+	if i.Sign() < 0 {
+		i = new(big.Int).Not(i) // -2^127 is in range
 	}
+	return i.BitLen() < 128
 }
 
 func NewUint128FromString(s string) (Uint128, error) {
@@ -80,7 +75,7 @@ func NewUint128FromString(s string) (Uint128, error) {
 
 func NewInt128FromString(s string) (Int128, error) {
 	i, ok := (&big.Int{}).SetString(s, 10)
-	if !ok || i.BitLen() > 128 {
+	if !ok || !isInt128(i) {
 		return Int128{}, errors.New("invalid signed integer")
 	}
 	return NewInt128(i), nil
-- 
2.43.0


From f887a084b5c69226e1b2a1916e2ab283e43ed333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:04 +0000
Subject: [PATCH 28/42] fix: reject times out of range instead of wrapping
 around

---
 pkg/chain/time.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/chain/time.go b/pkg/chain/time.go
index 4a012a1..4d1f7d1 100644
--- a/pkg/chain/time.go
+++ b/pkg/chain/time.go
@@ -1,6 +1,7 @@
 package chain
 
 import (
+	"errors"
 	"time"
 
 	"github.com/greymass/go-eosio/pkg/abi"
@@ -51,7 +52,11 @@ func NewTimePointSecFromString(s string) (TimePointSec, error) {
 	if err != nil {
 		return 0, err
 	}
-	return NewTimePointSec(t), nil
+	tps := NewTimePointSec(t)
+	if !tps.Time().Equal(t.Truncate(time.Second)) {
+		return 0, errors.New("time is out of range")
+	}
+	return tps, nil
 }
 
 func NewBlockTimestampFromString(s string) (BlockTimestamp, error) {
@@ -62,7 +67,11 @@ func NewBlockTimestampFromString(s string) (BlockTimestamp, error) {
 	if err != nil {
 		return 0, err
 	}
-	return NewBlockTimestamp(t), nil
+	bts := NewBlockTimestamp(t)
+	if !bts.Time().Equal(t.Round(time.Millisecond * 500)) {
+		return 0, errors.New("time is out of range")
+	}
+	return bts, nil
 }
 
 func (tp TimePoint) Time() time.Time {
-- 
2.43.0


From 82c8379d9d6fa6dbc2a1241bfd1168d683f8b418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:06 +0000
Subject: [PATCH 29/42] fix: marshal signatures passed by value as text

---
 pkg/chain/signature.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/chain/signature.go b/pkg/chain/signature.go
index 59e9e49..c5d2664 100644
--- a/pkg/chain/signature.go
+++ b/pkg/chain/signature.go
@@ -109,7 +109,7 @@ func (s *Signature) UnmarshalABI(d *abi.Decoder) error {
 
 // encoding.TextMarshaler conformance
 
-func (s *Signature) MarshalText() (text []byte, err error) {
+func (s Signature) MarshalText() (text []byte, err error) {
 	return []byte(s.String()), nil
 }
 
-- 
2.43.0


From 7520e93aaad18f0c98f6ab5ecb7591748a137934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:58 +0000
Subject: [PATCH 30/42] fix: generate code that compiles for structs with fixed
 arrays

---
 pkg/codegen/codegen.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pkg/codegen/codegen.go b/pkg/codegen/codegen.go
index e4c52b5..3ee9f3e 100644
--- a/pkg/codegen/codegen.go
+++ b/pkg/codegen/codegen.go
@@ -266,7 +266,6 @@ func GenUnmarshalFn(structType interface{}) string {
 			f.Code = render(writeSliceTemplate, f)
 		}
 		if f.IsArray {
-			ctx.UsesLength = true
 			f.Code = indent(f.Code)
 			f.Code = render(writeArrayTemplate, f)
 		}
-- 
2.43.0


From 4b189f7a6fcd9f8c0fdbe40cbae7ca543be10017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:00 +0000
Subject: [PATCH 31/42] fix: generate working decoding code for pointer fields

---
 pkg/codegen/codegen.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pkg/codegen/codegen.go b/pkg/codegen/codegen.go
index 3ee9f3e..c4efb54 100644
--- a/pkg/codegen/codegen.go
+++ b/pkg/codegen/codegen.go
@@ -52,19 +52,15 @@ var writeTemplate = template.Must(template.New("").Parse(`
 ))
 
 var readTemplate = template.Must(template.New("").Parse(`
-	{{ if .IsPtr -}}
-	var tmp {{ .Type }}
-	{{ end -}}
-	if {{ if .IsPtr }}tmp{{ else -}}
+	{{- if .IsPtr }}
+	v.{{ .Name }} = new({{ .Type }})
+	{{- end }}
+	if {{ if .IsPtr }}*{{ end -}}
 		v.{{ .Name }}
 		{{- if or .IsSlice .IsArray }}[i]{{ end -}}
-	{{- end -}}
 	, err = d.Read{{ .Method }}(); err != nil {
 		return err
-	}
-	{{- if .IsPtr }}
-	v.{{ .Name }}{{ if or .IsSlice .IsArray }}[i]{{ end }} = &tmp
-	{{- end }}`,
+	}`,
 ))
 
 var writeOtherTemplate = template.Must(template.New("").Parse(`
@@ -78,6 +74,9 @@ var writeOtherTemplate = template.Must(template.New("").Parse(`
 ))
 
 var readOtherTemplate = template.Must(template.New("").Parse(`
+	{{- if and .IsPtr (not (or .IsSlice .IsArray)) }}
+	v.{{ .Name }} = new({{ .Type }})
+	{{- end }}
 	if err = {{ if and .IsPtr (or .IsSlice .IsArray) }}(*{{ end -}}
 		v.{{ .Name -}}
 		{{- if and .IsPtr (or .IsSlice .IsArray) }}){{ end -}}
@@ -141,6 +140,8 @@ var readOptionalTemplate = template.Must(template.New("").Parse(`
 	}
 	if exists {
 		{{- .Code }}
+	} else {
+		v.{{ .Name }} = nil
 	}`,
 ))
 
-- 
2.43.0


From c17c2968f51f854f5cd89e8f7dff4e3246da4c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:02 +0000
Subject: [PATCH 32/42] fix: do not qualify types from the package code is
 generated for

---
 pkg/codegen/codegen.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/codegen/codegen.go b/pkg/codegen/codegen.go
index c4efb54..ba67a79 100644
--- a/pkg/codegen/codegen.go
+++ b/pkg/codegen/codegen.go
@@ -209,6 +209,9 @@ func GenUnmarshalFn(structType interface{}) string {
 			}
 		}
 
+		// types in the same package as the struct are not qualified
+		f.Type = strings.TrimPrefix(f.Type, strings.TrimSuffix(t.String(), t.Name()))
+
 		if t.Field(i).Tag.Get("eosio") == "optional" {
 			if !f.IsPtr {
 				panic("cant generate code for non-pointer optionals")
-- 
2.43.0


From 7cb6815cdebf671dfcc6e887205fd8a561209dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:04 +0000
Subject: [PATCH 33/42] fix: do not allocate memory based on length prefixes
 alone in generated code

---
 pkg/codegen/codegen.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/codegen/codegen.go b/pkg/codegen/codegen.go
index ba67a79..7db0b56 100644
--- a/pkg/codegen/codegen.go
+++ b/pkg/codegen/codegen.go
@@ -100,8 +100,9 @@ var readSliceTemplate = template.Must(template.New("").Parse(`
 	if length, err = d.ReadVaruint(); err != nil {
 		return err
 	}
-	v.{{ .Name }} = make([]{{ .Type }}, length)
+	v.{{ .Name }} = []{{ .Type }}{}
 	for i := 0; i < int(length); i++ {
+		v.{{ .Name }} = append(v.{{ .Name }}, *new({{ .Type }}))
 		{{- .Code }}
 	}`,
 ))
-- 
2.43.0


From 7f2ddfabee02b80e1781b9cd33ea39b9cb300966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:28 +0000
Subject: [PATCH 34/42] fix: decode pointers to pointers and pointers in maps

---
 pkg/abi/decode.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index 0b52186..27b0330 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -158,6 +158,14 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 	dec.depth++
 	defer func() { dec.depth-- }()
 
+	// decode what pointers point to like any other value
+	if v.Kind() == reflect.Ptr {
+		if v.IsNil() {
+			v.Set(reflect.New(v.Type().Elem()))
+		}
+		return dec.Decode(v.Interface())
+	}
+
 	u, pv := indirect(v, false)
 	if u != nil {
 		return u.UnmarshalABI(dec)
-- 
2.43.0


From 7bd8fabb0f62e6a07b4f4f324b90544c64d0e4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:50 +0000
Subject: [PATCH 35/42] fix: do not report an error when a trailing extension
 is absent

---
 pkg/abi/decode.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index 27b0330..fd606bf 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -265,6 +265,7 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 				if tag == "extension" && err == io.EOF && dec.pos == start {
 					// TODO: make sure extensions are only last field in a top-level struct
 					pv.Set(reflect.Zero(pv.Type()))
+					err = nil
 					continue
 				}
 
-- 
2.43.0


From 4266ef9a961ee6ce674ccad9ce6a613312ab8c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:10 +0000
Subject: [PATCH 36/42] fix: follow type aliases when resolving struct bases

---
 pkg/chain/abi.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 69442bf..62bd2f0 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -726,6 +726,11 @@ func (rt *resolvedType) allFields() []*struct {
 	var seen map[string]bool = make(map[string]bool)
 	var cur *resolvedType = rt
 	for {
+		// bases can be aliases
+		for cur.ref != nil && !cur.isArray && !cur.isOptional && !seen[cur.name] {
+			seen[cur.name] = true
+			cur = cur.ref
+		}
 		if cur.fields == nil {
 			return nil // invalid struct
 		}
-- 
2.43.0


From 4aee9c131d68e6ee110f777bd5842f75c40df763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:56 +0000
Subject: [PATCH 37/42] fix: omit absent optional extensions that follow an
 omitted extension

---
 pkg/chain/abi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 62bd2f0..06c65fd 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -196,7 +196,7 @@ func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}) error
 		}
 		omitted := ""
 		for _, f := range fields {
-			if vs[f.name] == nil && f.typ.isExtension && !f.typ.isNullable() {
+			if vs[f.name] == nil && f.typ.isExtension && (omitted != "" || !f.typ.isNullable()) {
 				omitted = f.name
 				continue
 			}
-- 
2.43.0


From 701f4dd9ad5addf704f92ae367fa561c871857c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:21 +0000
Subject: [PATCH 38/42] fix: limit the total nesting depth of ABI-driven values

The limit counted each type separately, so types referring to each other in a
long enough circle still overflowed the stack.
---
 pkg/chain/abi.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 06c65fd..08a9175 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -134,7 +134,7 @@ func (a Abi) EncodeAction(w io.Writer, name Name, v interface{}) error {
 }
 
 func (a Abi) Decode(r io.Reader, name string) (interface{}, error) {
-	res := resolver{&a, make(map[string]*resolvedType)}
+	res := resolver{&a, make(map[string]*resolvedType), new(int)}
 	t := res.resolve(name)
 	dec := NewDecoder(r)
 	var rv interface{}
@@ -143,7 +143,7 @@ func (a Abi) Decode(r io.Reader, name string) (interface{}, error) {
 }
 
 func (a Abi) Encode(w io.Writer, name string, v interface{}) error {
-	res := resolver{&a, make(map[string]*resolvedType)}
+	res := resolver{&a, make(map[string]*resolvedType), new(int)}
 	t := res.resolve(name)
 	enc := NewEncoder(w)
 	return a.encodeType(enc, t, v)
@@ -608,6 +608,7 @@ func (a Abi) decodeInner(dec *abi.Decoder, t *resolvedType, v *interface{}) erro
 type resolver struct {
 	abi   *Abi
 	types map[string]*resolvedType
+	depth *int // current nesting depth, shared by all types
 }
 
 func (r *resolver) resolve(name string) *resolvedType {
@@ -637,6 +638,7 @@ func (r *resolver) resolve(name string) *resolvedType {
 		isArray:     isArray,
 		isOptional:  isOptional,
 		isExtension: isExtension,
+		depth:       r.depth,
 	}
 	r.types[name] = &t
 
@@ -679,7 +681,7 @@ type resolvedType struct {
 	isArray     bool
 	isOptional  bool
 	isExtension bool
-	depth       int
+	depth       *int
 
 	base   *resolvedType
 	fields *[]*struct {
@@ -694,17 +696,17 @@ func (t *resolvedType) String() string {
 	return "type<" + t.name + ">"
 }
 
-// limit how deeply a type can be nested in itself, types that refer only to themselves never end
+// limit how deeply values can be nested, types that refer only to each other never end
 func (t *resolvedType) enter() error {
-	if t.depth >= 1024 {
+	if *t.depth >= 10000 {
 		return fmt.Errorf("type %v is nested too deeply", t.name)
 	}
-	t.depth++
+	*t.depth++
 	return nil
 }
 
 func (t *resolvedType) leave() {
-	t.depth--
+	*t.depth--
 }
 
 // whether nil is a value of this type
-- 
2.43.0


From b4ff704d0de950fbdbf383292200af449bcad636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:11 +0000
Subject: [PATCH 39/42] fix: encode values through marshalers with pointer
 receivers

---
 pkg/abi/encode.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/pkg/abi/encode.go b/pkg/abi/encode.go
index 605be51..65d4b9d 100644
--- a/pkg/abi/encode.go
+++ b/pkg/abi/encode.go
@@ -22,6 +22,8 @@ type Marshaler interface {
 	MarshalABI(*Encoder) error
 }
 
+var marshalerType = reflect.TypeOf((*Marshaler)(nil)).Elem()
+
 func NewEncoder(w io.Writer, fn EncodeFunc) *Encoder {
 	return &Encoder{w: w, fn: fn}
 }
@@ -85,7 +87,7 @@ func (enc *Encoder) EncodeValue(v reflect.Value) error {
 	}
 	// check if value conforms to Marshaler
 	if v.CanInterface() {
-		if m, ok := v.Interface().(Marshaler); ok {
+		if m, ok := marshaler(v); ok {
 			return m.MarshalABI(enc)
 		}
 	}
@@ -171,8 +173,10 @@ func (enc *Encoder) EncodeValue(v reflect.Value) error {
 // Encode variant, which must be a struct with all pointer fields where exactly one is set.
 func (enc *Encoder) EncodeVariant(v interface{}) error {
 	val := reflect.ValueOf(v)
-	if m, ok := v.(Marshaler); ok && (val.Kind() != reflect.Ptr || !val.IsNil()) {
-		return m.MarshalABI(enc)
+	if val.IsValid() && (val.Kind() != reflect.Ptr || !val.IsNil()) {
+		if m, ok := marshaler(val); ok {
+			return m.MarshalABI(enc)
+		}
 	}
 	for val.Kind() == reflect.Ptr {
 		val = val.Elem()
@@ -202,6 +206,19 @@ func (enc *Encoder) EncodeVariant(v interface{}) error {
 	return enc.Encode(val.Field(idx).Interface())
 }
 
+// marshaler gets the Marshaler of a value, which can have a pointer receiver like Unmarshaler.
+func marshaler(v reflect.Value) (Marshaler, bool) {
+	if m, ok := v.Interface().(Marshaler); ok {
+		return m, true
+	}
+	if v.Kind() != reflect.Ptr && reflect.PtrTo(v.Type()).Implements(marshalerType) {
+		ptr := reflect.New(v.Type())
+		ptr.Elem().Set(v)
+		return ptr.Interface().(Marshaler), true
+	}
+	return nil, false
+}
+
 type mapEntry struct {
 	key  reflect.Value
 	data []byte
-- 
2.43.0


From bc286665c4b7ede7dda747f20460d0a674baedad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:28 +0000
Subject: [PATCH 40/42] fix: let variants with their own unmarshaler read their
 index

---
 pkg/abi/decode.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index fd606bf..6db1ac3 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -108,15 +108,15 @@ func (dec *Decoder) DecodeVariant(v interface{}) error {
 	if val.Kind() != reflect.Ptr || val.IsNil() {
 		return fmt.Errorf("abi: invalid variant type, unable to decode into %s", val.Type())
 	}
+	u, ptrValue := indirect(reflect.ValueOf(v), false)
+	if u != nil {
+		return u.UnmarshalABI(dec)
+	}
 	// read variant index
 	vIdx, err := dec.ReadVaruint()
 	if err != nil {
 		return err
 	}
-	u, ptrValue := indirect(reflect.ValueOf(v), false)
-	if u != nil {
-		return u.UnmarshalABI(dec)
-	}
 	// make sure the pointer is a pointer to a struct
 	if ptrValue.Kind() != reflect.Struct {
 		return fmt.Errorf("abi: invalid variant: expected struct, got %s", ptrValue.Kind())
-- 
2.43.0


From e5bb65820f53cd67611d285990d8cfccb27936a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:43 +0000
Subject: [PATCH 41/42] fix: decode an empty list in an optional field as
 present

An empty list read from the wire was left nil when the destination was nil, so a
present but empty optional list field came back absent and was written as absent.
---
 pkg/abi/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index 6db1ac3..f100fe6 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -279,7 +279,7 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 		var l uint
 		l, err = dec.ReadVaruint()
 		if err == nil {
-			if pv.Len() != int(l) {
+			if pv.IsNil() || pv.Len() != int(l) {
 				n := int(l)
 				if n > maxPrealloc {
 					n = maxPrealloc
-- 
2.43.0


From a97fd8a738a3a96dbadb70b22a6465aba4ccd832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:58 +0000
Subject: [PATCH 42/42] fix: refuse to decode a variant with fields that are
 not pointers

---
 pkg/abi/decode.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index f100fe6..9f7e5e9 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -125,6 +125,12 @@ func (dec *Decoder) DecodeVariant(v interface{}) error {
 	if int(vIdx) >= ptrValue.NumField() {
 		return fmt.Errorf("abi: variant index out of bounds: %d", vIdx)
 	}
+	// make sure all variant fields are pointers
+	for i := 0; i < ptrValue.NumField(); i++ {
+		if kind := ptrValue.Field(i).Kind(); kind != reflect.Ptr {
+			return fmt.Errorf("abi: invalid variant: expected field pointer, got %s", kind)
+		}
+	}
 	// enumerate fields and set to nil where needed
 	for i := 0; i < ptrValue.NumField(); i++ {
 		if i != int(vIdx) && !ptrValue.Field(i).IsNil() {
@@ -132,10 +138,6 @@ func (dec *Decoder) DecodeVariant(v interface{}) error {
 		}
 	}
 	variantValuePtr := ptrValue.Field(int(vIdx))
-	// make sure the variant field is a pointer
-	if variantValuePtr.Kind() != reflect.Ptr {
-		return fmt.Errorf("abi: invalid variant: expected field pointer, got %s", variantValuePtr.Kind())
-	}
 	variantType := variantValuePtr.Type().Elem()
 	variantValue := reflect.New(variantType).Elem()
 
-- 
2.43.0

