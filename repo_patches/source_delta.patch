From 71ee24dcfb56be8840c23fc2e225d7325646b785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:03 +0000
Subject: [PATCH 01/17] fix: reject \\u escapes that start with a low surrogate

A lone low surrogate followed by another one was accepted and decoded
to a code point outside Unicode, i.e. to an invalid UTF-8 string.
---
 unmarshal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index 249222a..01aed4d 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -493,6 +493,10 @@ func (it iter) handleEscapeUnicodeStartWithEnd(i *int, end int, sectEnd *int) (e
 	}
 
 	// reference: [JSON 序列化中的转义和 Unicode 编码](https://cloud.tencent.com/developer/article/1625557/)
+	// a low surrogate cannot come first
+	if r >= 0xDC00 {
+		return fmt.Errorf("%w, unexpected low surrogate 0x%04X at position %d", ErrIllegalString, r, *i)
+	}
 	// should get another unicode-escaped character
 	if end-*i <= 11 {
 		return fmt.Errorf("insufficient UTF-16 data at offset %d", *i)
-- 
2.43.0


From 212ac5b744ab5c792a86f8ca2a10aa2f4f94d526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:07 +0000
Subject: [PATCH 02/17] fix: do not panic when reading a number from an empty
 string

GetInt and the other number getters indexed into the text of an empty
(or blank) string value.
---
 unmarshal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index 01aed4d..f534a22 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -766,6 +766,10 @@ func (it iter) parseNumber(
 	if edgeFound {
 		idx--
 	}
+	if idx == offset {
+		err = it.numErrorf(offset, "no digit found")
+		return
+	}
 
 	if floated {
 		if dotGot && !intAfterDotGot {
-- 
2.43.0


From a908c20247c0ba63f02bd0b95d4c022c05db593c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:11 +0000
Subject: [PATCH 03/17] fix: reject numbers with leading zeros or without an
 integer part

-01, 01.5, 01e5 and -.5 were accepted, and marshaled verbatim afterwards,
which made invalid JSON output.
---
 unmarshal.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unmarshal.go b/unmarshal.go
index f534a22..fa4d2fa 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -720,6 +720,10 @@ func (it iter) parseNumber(
 
 		case '1', '2', '3', '4', '5', '6', '7', '8', '9':
 			if !floated {
+				if integer == 0 && idx > offset && it[idx-1] == '0' {
+					err = it.numErrorf(idx, "unexpected leading zero")
+					return
+				}
 				integer = integer*10 + uint64(b) - '0'
 			} else if !exponentGot {
 				intAfterDotGot = true
@@ -754,7 +758,7 @@ func (it iter) parseNumber(
 			}
 
 		case '.':
-			if idx == offset || floated || exponentGot || dotGot {
+			if idx == offset || it[idx-1] == '-' || floated || exponentGot || dotGot {
 				err = it.numErrorf(idx, "unexpected dot symbol")
 				return
 			}
-- 
2.43.0


From 1779f7ba1befcc5a73f1367e28aefa24072f416a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:15 +0000
Subject: [PATCH 04/17] fix: reject all 20-digit integers that overflow uint64

36893488147419103231 for example was accepted as 18446744073709551615.
---
 unmarshal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unmarshal.go b/unmarshal.go
index fa4d2fa..2e9aa2b 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -865,7 +865,8 @@ func (it iter) parsePositiveIntResult(p pool, start, end int, integer uint64) (*
 	if le > len(uintMaxStr) {
 		return nil, it.numErrorf(start, "value too large")
 	} else if le == len(uintMaxStr) {
-		if integer < uintMaxDigits {
+		if integer < uintMaxDigits || it[start] > '1' {
+			// the second condition: integer may have overflowed more than once
 			return nil, it.numErrorf(start, "value too large")
 		}
 	}
-- 
2.43.0


From ca38e0582cf479ef7fd1a2affa8f020b410dfef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:20 +0000
Subject: [PATCH 05/17] fix: keep the comma after an omitted null member

With OmitNull, {"a":1,"b":null,"c":3} could be marshaled as {"a":1"c":3}.
---
 marshal.go | 2 +-
 sort.go    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/marshal.go b/marshal.go
index 405d9d4..67a10c5 100644
--- a/marshal.go
+++ b/marshal.go
@@ -252,7 +252,7 @@ func marshalObject(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
 func writeObjectKVInRandomizedSequence(v *V, buf buffer.Buffer, opt *Opt) {
 	firstWritten := false
 	for k, child := range v.children.object {
-		firstWritten = writeObjectChildren(nil, buf, !firstWritten, k, child.v, opt)
+		firstWritten = writeObjectChildren(nil, buf, !firstWritten, k, child.v, opt) || firstWritten
 	}
 }
 
diff --git a/sort.go b/sort.go
index 0ebfc8e..b334e1d 100644
--- a/sort.go
+++ b/sort.go
@@ -195,7 +195,7 @@ func (sov *sortObjectV) marshalObjectWithLessFunc(buf buffer.Buffer, opt *Opt) {
 	for i, key := range sov.keys {
 		child := sov.values[i]
 		par := newParentInfo(child, sov.parentInfo, stringKey(key))
-		firstWritten = writeObjectChildren(par, buf, !firstWritten, key, child, opt)
+		firstWritten = writeObjectChildren(par, buf, !firstWritten, key, child, opt) || firstWritten
 	}
 }
 
@@ -243,7 +243,7 @@ func (sssv *sortStringSliceV) marshalObjectWithStringSlice(buf buffer.Buffer, op
 	firstWritten := false
 	for i, key := range sssv.keys {
 		child := sssv.values[i]
-		firstWritten = writeObjectChildren(nil, buf, !firstWritten, key, child, opt)
+		firstWritten = writeObjectChildren(nil, buf, !firstWritten, key, child, opt) || firstWritten
 	}
 }
 
-- 
2.43.0


From 39d651cddcfde17c78ca9622f95e2e2692c7adac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:25 +0000
Subject: [PATCH 06/17] fix: escape the vertical tab

0x0B was written raw into the JSON output, which is illegal in a string.
---
 option.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/option.go b/option.go
index 163bff1..f20ce3f 100644
--- a/option.go
+++ b/option.go
@@ -579,6 +579,7 @@ func (o *Opt) parseEscapingFuncs() {
 	// ASCII control bytes should always escaped
 	iterate(0x00, 0x07, escAsciiControlChar)
 	// 0x08 is \b, encoding/json marshal as \u0008, but according to JSON standard, it should be "\b"
+	o.asciiCharEscapingFunc[0x0B] = escAsciiControlChar // \v has no short escape in JSON
 	iterate(0x0E, 0x1F, escAsciiControlChar)
 	o.asciiCharEscapingFunc[0x7F] = escAsciiControlChar // encoding/json does not escape DEL
 
-- 
2.43.0


From 820eaca0e06e5feee1c01e078d5dae05ae382bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:35 +0000
Subject: [PATCH 07/17] fix: do not panic in KeyPath.String

The default options have no escaping functions until they are combined.
---
 sort.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sort.go b/sort.go
index b334e1d..2c86322 100644
--- a/sort.go
+++ b/sort.go
@@ -142,7 +142,7 @@ func (p KeyPath) String() (s string) {
 			buff.WriteString(s)
 		} else {
 			buff.WriteRune('"')
-			escapeStringToBuff(k.String(), &buff, getDefaultOptions())
+			escapeStringToBuff(k.String(), &buff, combineOptions(nil))
 			buff.WriteRune('"')
 		}
 	}
-- 
2.43.0


From 2508af93d39b154f61f116425f1d479e391977ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:39 +0000
Subject: [PATCH 08/17] fix: do not write beyond the string header in StoB

The capacity was written into the word that follows the two words of the
string header, which is memory of something else.
---
 internal/unsafe/unsafe.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/unsafe/unsafe.go b/internal/unsafe/unsafe.go
index 53f95ec..da05dfa 100644
--- a/internal/unsafe/unsafe.go
+++ b/internal/unsafe/unsafe.go
@@ -1,7 +1,6 @@
 package unsafe
 
 import (
-	"reflect"
 	"unsafe"
 )
 
@@ -12,7 +11,10 @@ func BtoS(b []byte) string {
 
 // StoB string to []byte
 func StoB(s string) []byte {
-	sh := (*reflect.SliceHeader)(unsafe.Pointer(&s))
-	sh.Cap = sh.Len
-	return *(*[]byte)(unsafe.Pointer(sh))
+	// a string header has no room for the capacity of a slice header
+	sh := struct {
+		string
+		capacity int
+	}{s, len(s)}
+	return *(*[]byte)(unsafe.Pointer(&sh))
 }
-- 
2.43.0


From 51df734febf7021d0ed10f61f36629d5d34d2bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:43 +0000
Subject: [PATCH 09/17] fix: return a NotExist value from Unmarshal of empty
 input

Unmarshal(nil) and MustUnmarshal(nil) returned a nil pointer, while every
other error, and UnmarshalNoCopy(nil), returns a NotExist value.
---
 jsonvalue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonvalue.go b/jsonvalue.go
index d9e64de..eb3faf7 100644
--- a/jsonvalue.go
+++ b/jsonvalue.go
@@ -238,7 +238,7 @@ func MustUnmarshal(b []byte) *V {
 func Unmarshal(b []byte) (ret *V, err error) {
 	le := len(b)
 	if le == 0 {
-		return nil, ErrNilParameter
+		return &V{}, ErrNilParameter
 	}
 
 	trueB := make([]byte, len(b))
-- 
2.43.0


From 97e3bf2dcfed9ec409eecbbf4ac74a59d4ef2c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:48 +0000
Subject: [PATCH 10/17] fix: return ErrOutOfRange from Set().At() when a middle
 index is out of range

Set(x).At(10, "a") on an array of two elements appended a new element.
Only the index that equals the length appends, as for the last index.
---
 set.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/set.go b/set.go
index 3e4ba4a..6ff47bc 100644
--- a/set.go
+++ b/set.go
@@ -284,6 +284,9 @@ func (s *setter) atArray(firstParam any, otherParams []any) (*V, error) {
 	child, ok := childAtIndex(v, pos)
 	isNewChild := false
 	if !ok {
+		if pos != len(v.children.arr) {
+			return &V{}, ErrOutOfRange
+		}
 		isNewChild = true
 		if _, err := anyToString(otherParams[0]); err == nil {
 			child = NewObject()
-- 
2.43.0


From 595c53e605aba63b37922ba829a3e15a28167d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:52 +0000
Subject: [PATCH 11/17] fix: do not wrap unsigned array indexes

Get(uint64(math.MaxUint64)) returned the last element.
---
 conv.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/conv.go b/conv.go
index 0c9f90c..13184e1 100644
--- a/conv.go
+++ b/conv.go
@@ -133,6 +133,8 @@ func escapeStringToBuff(s string, buf buffer.Buffer, opt *Opt) {
 	}
 }
 
+const maxInt = uint64(^uint(0) >> 1)
+
 func anyToInt(v any) (u int, err error) {
 	if v == nil {
 		return 0, fmt.Errorf("%w: parameter is nil", ErrParameterError)
@@ -142,7 +144,10 @@ func anyToInt(v any) (u int, err error) {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		return int(value.Int()), nil
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		return int(value.Uint()), nil
+		if n := value.Uint(); n <= maxInt {
+			return int(n), nil
+		}
+		return 0, fmt.Errorf("%w: %v is too large for an index", ErrOutOfRange, v)
 	default:
 		return 0, fmt.Errorf("%v is not a number", reflect.TypeOf(v))
 	}
-- 
2.43.0


From 3ea0596a1971fe0cc4f9c6fb293c971303383ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:35 +0000
Subject: [PATCH 12/17] fix: refuse to append or insert a value that does not
 exist

Append ignored the error of the conversion of its argument, and Append and
Insert put a nil or NotExist child into the array, where Set returns an error.
Marshaling such an array panics or gives invalid JSON.
---
 insert_append_delete.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/insert_append_delete.go b/insert_append_delete.go
index 535a4a2..f16d636 100644
--- a/insert_append_delete.go
+++ b/insert_append_delete.go
@@ -189,7 +189,10 @@ func (ins *insert) Before(firstParam any, otherParams ...any) (*V, error) {
 	}
 	v := ins.v
 	c := ins.c
-	if v.valueType == NotExist {
+	if nil == v || v.valueType == NotExist {
+		return &V{}, ErrValueUninitialized
+	}
+	if nil == c || c.valueType == NotExist {
 		return &V{}, ErrValueUninitialized
 	}
 
@@ -241,6 +244,9 @@ func (ins *insert) After(firstParam any, otherParams ...any) (*V, error) {
 	if nil == v || v.valueType == NotExist {
 		return &V{}, ErrValueUninitialized
 	}
+	if nil == c || c.valueType == NotExist {
+		return &V{}, ErrValueUninitialized
+	}
 
 	// this is the last iteration
 	paramCount := len(otherParams)
@@ -428,11 +434,17 @@ func (v *V) AppendArray() Appender {
 //
 // InTheBeginning 函数将 Append 函数指定的 JSON 值，添加到参数指定的数组的最前端
 func (apd *appender) InTheBeginning(params ...any) (*V, error) {
+	if apd.err != nil {
+		return &V{}, apd.err
+	}
 	v := apd.v
 	c := apd.c
 	if nil == v || v.valueType == NotExist {
 		return &V{}, ErrValueUninitialized
 	}
+	if nil == c || c.valueType == NotExist {
+		return &V{}, ErrValueUninitialized
+	}
 
 	// this is the last iteration
 	paramCount := len(params)
@@ -478,9 +490,21 @@ func (apd *appender) InTheBeginning(params ...any) (*V, error) {
 //
 // InTheEnd 函数将 Append 函数指定的 JSON 值，添加到参数指定的数组的最后面
 func (apd *appender) InTheEnd(params ...any) (*V, error) {
+	if apd.err != nil {
+		return &V{}, apd.err
+	}
+	if apd.err != nil {
+		return &V{}, apd.err
+	}
 	v := apd.v
 	c := apd.c
-	if v.valueType == NotExist {
+	if nil == v || v.valueType == NotExist {
+		return &V{}, ErrValueUninitialized
+	}
+	if nil == c || c.valueType == NotExist {
+		return &V{}, ErrValueUninitialized
+	}
+	if nil == c || c.valueType == NotExist {
 		return &V{}, ErrValueUninitialized
 	}
 
-- 
2.43.0


From f91cd7972c354ab1c5b6e0014bbf84f1fce9521b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:40 +0000
Subject: [PATCH 13/17] fix: report unsupported floats nested in objects and
 arrays

The error for a NaN or infinite number was dropped unless the number was the
root, so that Marshal returned invalid JSON such as {"a":} and no error.
---
 marshal.go | 51 ++++++++++++++++++++++++++++++++-------------------
 sort.go    | 18 ++++++++++++++----
 2 files changed, 46 insertions(+), 23 deletions(-)

diff --git a/marshal.go b/marshal.go
index 67a10c5..dc84af8 100644
--- a/marshal.go
+++ b/marshal.go
@@ -76,9 +76,9 @@ func marshalToBuffer(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt)
 	case Null:
 		marshalNull(buf)
 	case Object:
-		marshalObject(v, parentInfo, buf, opt)
+		err = marshalObject(v, parentInfo, buf, opt)
 	case Array:
-		marshalArray(v, parentInfo, buf, opt)
+		err = marshalArray(v, parentInfo, buf, opt)
 	}
 	return err
 }
@@ -216,10 +216,10 @@ func marshalNull(buf buffer.Buffer) {
 	_, _ = buf.WriteString("null")
 }
 
-func marshalObject(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
+func marshalObject(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) (err error) {
 	if len(v.children.object) == 0 {
 		_, _ = buf.WriteString("{}")
-		return
+		return nil
 	}
 
 	opt.indent.cnt++
@@ -227,18 +227,21 @@ func marshalObject(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
 
 	if opt.MarshalLessFunc != nil {
 		sov := newSortObjectV(v, parentInfo, opt)
-		sov.marshalObjectWithLessFunc(buf, opt)
+		err = sov.marshalObjectWithLessFunc(buf, opt)
 
 	} else if len(opt.MarshalKeySequence) > 0 {
 		sssv := newSortStringSliceV(v, opt)
-		sssv.marshalObjectWithStringSlice(buf, opt)
+		err = sssv.marshalObjectWithStringSlice(buf, opt)
 
 	} else if opt.marshalBySetSequence {
 		sssv := newSortStringSliceVBySetSeq(v)
-		sssv.marshalObjectWithStringSlice(buf, opt)
+		err = sssv.marshalObjectWithStringSlice(buf, opt)
 
 	} else {
-		writeObjectKVInRandomizedSequence(v, buf, opt)
+		err = writeObjectKVInRandomizedSequence(v, buf, opt)
+	}
+	if err != nil {
+		return err
 	}
 
 	opt.indent.cnt--
@@ -247,20 +250,26 @@ func marshalObject(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
 		writeIndent(buf, opt)
 	}
 	_ = buf.WriteByte('}')
+	return nil
 }
 
-func writeObjectKVInRandomizedSequence(v *V, buf buffer.Buffer, opt *Opt) {
+func writeObjectKVInRandomizedSequence(v *V, buf buffer.Buffer, opt *Opt) error {
 	firstWritten := false
 	for k, child := range v.children.object {
-		firstWritten = writeObjectChildren(nil, buf, !firstWritten, k, child.v, opt) || firstWritten
+		written, err := writeObjectChildren(nil, buf, !firstWritten, k, child.v, opt)
+		if err != nil {
+			return err
+		}
+		firstWritten = written || firstWritten
 	}
+	return nil
 }
 
 func writeObjectChildren(
 	parentInfo *ParentInfo, buf buffer.Buffer, isFirstOne bool, key string, child *V, opt *Opt,
-) (written bool) {
+) (written bool, err error) {
 	if child.IsNull() && opt.OmitNull {
-		return false
+		return false, nil
 	}
 	if !isFirstOne {
 		_ = buf.WriteByte(',')
@@ -280,8 +289,8 @@ func writeObjectChildren(
 		_, _ = buf.WriteString("\":")
 	}
 
-	_ = marshalToBuffer(child, parentInfo, buf, opt)
-	return true
+	err = marshalToBuffer(child, parentInfo, buf, opt)
+	return true, err
 }
 
 func writeIndent(buf buffer.Buffer, opt *Opt) {
@@ -291,10 +300,10 @@ func writeIndent(buf buffer.Buffer, opt *Opt) {
 	}
 }
 
-func marshalArray(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
+func marshalArray(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) (err error) {
 	if len(v.children.arr) == 0 {
 		_, _ = buf.WriteString("[]")
-		return
+		return nil
 	}
 
 	opt.indent.cnt++
@@ -309,12 +318,15 @@ func marshalArray(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
 			writeIndent(buf, opt)
 		}
 		if opt.MarshalLessFunc == nil {
-			_ = marshalToBuffer(child, nil, buf, opt)
+			err = marshalToBuffer(child, nil, buf, opt)
 		} else {
-			_ = marshalToBuffer(child, newParentInfo(v, parentInfo, intKey(i)), buf, opt)
+			err = marshalToBuffer(child, newParentInfo(v, parentInfo, intKey(i)), buf, opt)
 		}
-		return true
+		return err == nil
 	})
+	if err != nil {
+		return err
+	}
 
 	opt.indent.cnt--
 	if opt.indent.enabled {
@@ -322,4 +334,5 @@ func marshalArray(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
 		writeIndent(buf, opt)
 	}
 	_ = buf.WriteByte(']')
+	return nil
 }
diff --git a/sort.go b/sort.go
index 2c86322..77ee233 100644
--- a/sort.go
+++ b/sort.go
@@ -186,7 +186,7 @@ func DefaultStringSequence(parent *ParentInfo, key1, key2 string, v1, v2 *V) boo
 	return strings.Compare(key1, key2) <= 0
 }
 
-func (sov *sortObjectV) marshalObjectWithLessFunc(buf buffer.Buffer, opt *Opt) {
+func (sov *sortObjectV) marshalObjectWithLessFunc(buf buffer.Buffer, opt *Opt) error {
 	// sort
 	sort.Sort(sov)
 
@@ -195,8 +195,13 @@ func (sov *sortObjectV) marshalObjectWithLessFunc(buf buffer.Buffer, opt *Opt) {
 	for i, key := range sov.keys {
 		child := sov.values[i]
 		par := newParentInfo(child, sov.parentInfo, stringKey(key))
-		firstWritten = writeObjectChildren(par, buf, !firstWritten, key, child, opt) || firstWritten
+		written, err := writeObjectChildren(par, buf, !firstWritten, key, child, opt)
+		if err != nil {
+			return err
+		}
+		firstWritten = written || firstWritten
 	}
+	return nil
 }
 
 type sortObjectV struct {
@@ -235,7 +240,7 @@ func newSortObjectV(v *V, parentInfo *ParentInfo, opt *Opt) *sortObjectV {
 }
 
 // marshalObjectWithStringSlice use a slice to determine sequence of object
-func (sssv *sortStringSliceV) marshalObjectWithStringSlice(buf buffer.Buffer, opt *Opt) {
+func (sssv *sortStringSliceV) marshalObjectWithStringSlice(buf buffer.Buffer, opt *Opt) error {
 	// sort
 	sort.Sort(sssv)
 
@@ -243,8 +248,13 @@ func (sssv *sortStringSliceV) marshalObjectWithStringSlice(buf buffer.Buffer, op
 	firstWritten := false
 	for i, key := range sssv.keys {
 		child := sssv.values[i]
-		firstWritten = writeObjectChildren(nil, buf, !firstWritten, key, child, opt) || firstWritten
+		written, err := writeObjectChildren(nil, buf, !firstWritten, key, child, opt)
+		if err != nil {
+			return err
+		}
+		firstWritten = written || firstWritten
 	}
+	return nil
 }
 
 type sortStringSliceV struct {
-- 
2.43.0


From 2cdbbba86a52eea36b3a6459e425f65f5b78e6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:08 +0000
Subject: [PATCH 14/17] fix: compare NaN and infinite numbers by their value

They have no decimal text, so that +Inf was equal to -Inf and to 0 and not
greater than 1.
---
 compare.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/compare.go b/compare.go
index 9f7f8b2..748ab0c 100644
--- a/compare.go
+++ b/compare.go
@@ -2,6 +2,7 @@ package jsonvalue
 
 import (
 	"bytes"
+	"math"
 
 	"github.com/shopspring/decimal"
 )
@@ -48,6 +49,10 @@ func greaterThan(left, right *V) (result, ok bool) {
 	if left.valueType != Number || right.valueType != Number {
 		return false, false
 	}
+	if !isValidFloat(left.num.f64) || !isValidFloat(right.num.f64) {
+		// NaN and infinite numbers have no decimal text
+		return left.num.f64 > right.num.f64, comparableFloats(left, right)
+	}
 	a1, _ := decimal.NewFromString(string(left.srcByte))
 	a2, _ := decimal.NewFromString(string(right.srcByte))
 	return a1.GreaterThan(a2), true
@@ -57,6 +62,9 @@ func greaterOrEqualThan(left, right *V) (result, ok bool) {
 	if left.valueType != Number || right.valueType != Number {
 		return false, false
 	}
+	if !isValidFloat(left.num.f64) || !isValidFloat(right.num.f64) {
+		return left.num.f64 >= right.num.f64, comparableFloats(left, right)
+	}
 	if bytes.Equal(left.srcByte, right.srcByte) {
 		return true, true
 	}
@@ -65,6 +73,10 @@ func greaterOrEqualThan(left, right *V) (result, ok bool) {
 	return a1.GreaterThanOrEqual(a2), true
 }
 
+func comparableFloats(left, right *V) bool {
+	return !math.IsNaN(left.num.f64) && !math.IsNaN(right.num.f64)
+}
+
 // Equal shows whether the content of two JSON values equal to each other.
 //
 // Equal 判断两个 JSON 的内容是否相等
@@ -95,6 +107,9 @@ func (v *V) Equal(another *V) bool {
 }
 
 func numberEqual(left, right *V) bool {
+	if !isValidFloat(left.num.f64) || !isValidFloat(right.num.f64) {
+		return left.num.f64 == right.num.f64 || (math.IsNaN(left.num.f64) && math.IsNaN(right.num.f64))
+	}
 	if bytes.Equal(left.srcByte, right.srcByte) {
 		return true
 	}
-- 
2.43.0


From 8829c0bcfdff72874fe96db3eca4e1bd7701eb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:33 +0000
Subject: [PATCH 15/17] fix: import nil marshalers as null

A nil pointer of a type that implements json.Marshaler was imported as a nil
value, which panics when it is used or marshaled in an array.
---
 import_export.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/import_export.go b/import_export.go
index 724754e..ac5fe75 100644
--- a/import_export.go
+++ b/import_export.go
@@ -36,6 +36,9 @@ func Import(src any, opts ...Option) (*V, error) {
 	if err != nil {
 		return &V{}, err
 	}
+	if res == nil {
+		return NewNull(), nil
+	}
 	return res, nil
 }
 
@@ -342,6 +345,9 @@ func parseArrayValue(v reflect.Value, ex ext) (*V, error) {
 		if err != nil {
 			return nil, err
 		}
+		if child == nil {
+			child = NewNull() // keeps its position
+		}
 		res.MustAppend(child).InTheEnd()
 	}
 
-- 
2.43.0


From 5ee63ccbf0b9e82911175ae3f91d773a11a838c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:38 +0000
Subject: [PATCH 16/17] fix: keep zero elements of maps in fields with
 omitempty

The option of the field was applied to each element of its map, which
dropped members.
---
 import_export.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/import_export.go b/import_export.go
index ac5fe75..b973cae 100644
--- a/import_export.go
+++ b/import_export.go
@@ -368,6 +368,7 @@ func parseMapValue(v reflect.Value, ex ext, keyFunc func(key reflect.Value) stri
 	}
 
 	res := NewObject()
+	ex.omitempty = false // as for arrays, it tells nothing about the elements
 
 	for _, kk := range keys {
 		vv := v.MapIndex(kk)
-- 
2.43.0


From 074ceebae3d2394686a776699b6cbca8bd44c410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:55 +0000
Subject: [PATCH 17/17] fix: accept long floats whose integer part wraps to
 zero

The check for leading zeros used the accumulated integer, which overflows:
184467440737095516160.5 was rejected as if it started with zeros.
---
 unmarshal.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 2e9aa2b..5929311 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -683,6 +683,7 @@ func (it iter) parseNumber(
 ) (v *V, end int, reachEnd bool, err error) {
 
 	idx := offset
+	first := offset // where digits start
 	negative := false
 	floated := false
 	exponentGot := false
@@ -707,12 +708,7 @@ func (it iter) parseNumber(
 				// OK
 			} else if dotGot {
 				intAfterDotGot = true
-			} else if negative {
-				if integer == 0 && idx != offset+1 {
-					err = it.numErrorf(idx, "unexpected zero")
-					return
-				}
-			} else if integer == 0 {
+			} else if idx > first && it[first] == '0' {
 				err = it.numErrorf(idx, "unexpected zero")
 				return
 			}
@@ -720,7 +716,7 @@ func (it iter) parseNumber(
 
 		case '1', '2', '3', '4', '5', '6', '7', '8', '9':
 			if !floated {
-				if integer == 0 && idx > offset && it[idx-1] == '0' {
+				if idx > first && it[first] == '0' {
 					err = it.numErrorf(idx, "unexpected leading zero")
 					return
 				}
@@ -755,6 +751,7 @@ func (it iter) parseNumber(
 					return
 				}
 				negative = true
+				first++
 			}
 
 		case '.':
-- 
2.43.0

