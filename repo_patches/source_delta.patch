From 3d68407934ea4602826276b3a2a585a53ce36bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 01/47] fix: read the identifier names map under the lock in
 Identifier.String

---
 types/identifier.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types/identifier.go b/types/identifier.go
index 9f2c95a..b41e84b 100644
--- a/types/identifier.go
+++ b/types/identifier.go
@@ -320,6 +320,9 @@ func ID(s string, quoted bool) Identifier {
 }
 
 func (id Identifier) String() string {
+	mutex.RLock()
+	defer mutex.RUnlock()
+
 	return names[id]
 }
 
-- 
2.43.0


From 5aa9c84a36e3ab2282e4f52e5d0a018f860023e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 02/47] fix: gob encode unreserved keyword identifiers so that
 they decode to themselves

---
 types/identifier.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/types/identifier.go b/types/identifier.go
index b41e84b..6116a92 100644
--- a/types/identifier.go
+++ b/types/identifier.go
@@ -346,10 +346,11 @@ func (id *Identifier) GobDecode(val []byte) error {
 }
 
 func (id Identifier) GobEncode() ([]byte, error) {
-	if id.IsReserved() {
-		return append([]byte{1}, []byte(id.String())...), nil
+	s := id.String()
+	if kid, ok := keywords[s]; ok && kid == id {
+		return append([]byte{1}, []byte(s)...), nil
 	}
-	return append([]byte{0}, []byte(id.String())...), nil
+	return append([]byte{0}, []byte(s)...), nil
 }
 
 func init() {
-- 
2.43.0


From 9b88ec16156d9d5ea68785d12841ba2a2551090f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 03/47] fix: limit identifiers to the maximum length after case
 folding and between characters

---
 types/identifier.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/types/identifier.go b/types/identifier.go
index 6116a92..2f1a1dd 100644
--- a/types/identifier.go
+++ b/types/identifier.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"strings"
 	"sync"
+	"unicode/utf8"
 )
 
 type Identifier int
@@ -284,6 +285,16 @@ func lookupID(s string, quoted bool, create bool) (Identifier, bool) {
 		s = strings.ToLower(s)
 	}
 
+	// Folding to lower case might change the length of the name, so limit it afterwards and
+	// without splitting a character.
+	if len(s) > MaxIdentifier {
+		n := MaxIdentifier
+		for n > MaxIdentifier-utf8.UTFMax && !utf8.RuneStart(s[n]) {
+			n -= 1
+		}
+		s = s[:n]
+	}
+
 	if id, ok := identifiers[s]; ok {
 		return id, true
 	}
@@ -299,10 +310,6 @@ func lookupID(s string, quoted bool, create bool) (Identifier, bool) {
 }
 
 func ID(s string, quoted bool) Identifier {
-	if len(s) > MaxIdentifier {
-		s = s[:MaxIdentifier]
-	}
-
 	mutex.RLock()
 	id, ok := lookupID(s, quoted, false)
 	mutex.RUnlock()
-- 
2.43.0


From d3dde7557403b7ee5c540252adf302b142e728a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:53 +0000
Subject: [PATCH 04/47] fix: fail to cast NaN and out of range floats to
 integers

---
 types/value.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types/value.go b/types/value.go
index 9ebb7fe..1915b97 100644
--- a/types/value.go
+++ b/types/value.go
@@ -284,6 +284,10 @@ func CastValue(vt ValueType, val Value) (Value, error) {
 		}
 	case Int64Type:
 		if f, ok := val.(Float64Value); ok {
+			// The bounds are exact: -2^63 and 2^63; NaN is not within them.
+			if !(f >= math.MinInt64 && f < -math.MinInt64) {
+				return nil, fmt.Errorf("expected an integer: %v", val)
+			}
 			return Int64Value(f), nil
 		} else if s, ok := val.(StringValue); ok {
 			i, err := strconv.ParseInt(strings.Trim(string(s), " \t\n"), 10, 64)
-- 
2.43.0


From bb0ffe8d5335734f2753450767094d706ed1d67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:54 +0000
Subject: [PATCH 05/47] fix: compare integers and floats exactly and order NaN
 consistently

---
 types/value.go | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/types/value.go b/types/value.go
index 1915b97..dc07458 100644
--- a/types/value.go
+++ b/types/value.go
@@ -98,16 +98,33 @@ func (i Int64Value) compare(val Value) int {
 		}
 		return 0
 	case Float64Value:
-		if Float64Value(i) < v {
-			return -1
-		} else if Float64Value(i) > v {
-			return 1
-		}
-		return 0
+		return compareInt64Float64(i, v)
 	}
 	panic(fmt.Sprintf("unexpected type for value: %T: %v", val, val))
 }
 
+// compareInt64Float64 compares exactly, which converting i to a float first would not, and sorts
+// NaN before all numbers.
+func compareInt64Float64(i Int64Value, f Float64Value) int {
+	if f >= -math.MinInt64 {
+		return -1
+	} else if !(f >= math.MinInt64) {
+		return 1
+	}
+
+	t := Int64Value(f) // truncated toward zero
+	if i < t {
+		return -1
+	} else if i > t {
+		return 1
+	} else if frac := f - Float64Value(t); frac > 0 {
+		return -1
+	} else if frac < 0 {
+		return 1
+	}
+	return 0
+}
+
 type Float64Value float64
 
 func (f Float64Value) String() string {
@@ -121,17 +138,19 @@ func (_ Float64Value) order() int {
 func (f Float64Value) compare(val Value) int {
 	switch v := val.(type) {
 	case Int64Value:
-		if f < Float64Value(v) {
-			return -1
-		} else if f > Float64Value(v) {
-			return 1
-		}
-		return 0
+		return -compareInt64Float64(v, f)
 	case Float64Value:
 		if f < v {
 			return -1
 		} else if f > v {
 			return 1
+		} else if f != v {
+			// At least one is NaN; sort it before all numbers, the same as in keys.
+			if v == v {
+				return -1
+			} else if f == f {
+				return 1
+			}
 		}
 		return 0
 	}
-- 
2.43.0


From d0ee174b9db3cf63b535a299f2a8c1ffdeda7456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 06/47] fix: convert updated values to the column types, as
 insert does

---
 storage/basic/basic.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index 0380e21..f93d374 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -440,7 +440,11 @@ func (rr rowRef) Update(ctx context.Context, cols []types.ColumnNum, vals []type
 	}
 	row := append(make([]types.Value, 0, len(it.row)), it.row...)
 	for idx, col := range cols {
-		row[col] = vals[idx]
+		val, err := types.ConvertValue(rr.tbl.tt.ColumnTypes[col], vals[idx])
+		if err != nil {
+			return err
+		}
+		row[col] = val
 	}
 
 	rr.tbl.tx.forWrite()
-- 
2.43.0


From 693a9e0fa62f77ba383bb0744a0aa828bdf1b192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 07/47] fix: keep the row when updating its key fails with a
 duplicate

---
 storage/basic/basic.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index f93d374..f5b6963 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -450,14 +450,18 @@ func (rr rowRef) Update(ctx context.Context, cols []types.ColumnNum, vals []type
 	rr.tbl.tx.forWrite()
 
 	if types.ColumnKeyUpdated(rr.tbl.tt.Key, cols) {
-		err := rr.Delete(ctx)
-		if err != nil {
-			return err
+		// Check for a duplicate before deleting the existing row.
+		uit := rowToItem(toRelationId(rr.tbl.tid, primaryIndexId), rr.tbl.tt.Key, row)
+		if !bytes.Equal(uit.key, rr.key) && rr.tbl.tx.tree.Has(uit) {
+			return fmt.Errorf("basic: %s: primary index: existing row with duplicate key: %s",
+				rr.tbl.tt.Name, types.Row(row))
 		}
-		err = rr.tbl.Insert(ctx, []types.Row{row})
+
+		err := rr.Delete(ctx)
 		if err != nil {
 			return err
 		}
+		rr.tbl.tx.tree.ReplaceOrInsert(uit)
 	} else {
 		rr.tbl.tx.tree.ReplaceOrInsert(
 			rowToItem(toRelationId(rr.tbl.tid, primaryIndexId), rr.tbl.tt.Key, row))
-- 
2.43.0


From 2ffc55d8ec8a751687f1b5675707268f5a1fb60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 08/47] fix: don't panic when scanning with a predicate on a
 column containing NULL

---
 storage/basic/basic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index f5b6963..1cc18a0 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -348,7 +348,7 @@ func (tbl *table) Rows(ctx context.Context, cols []types.ColumnNum, minRow, maxR
 				return false
 			}
 
-			if predFn != nil && !predFn(it.row[predCol]) {
+			if predFn != nil && (it.row[predCol] == nil || !predFn(it.row[predCol])) {
 				return true
 			}
 
-- 
2.43.0


From 08666c464969027c789162c20272fe3b25c93d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 09/47] fix: delete the rows of a dropped table

---
 storage/basic/basic.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index 1cc18a0..702b26d 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -220,7 +220,21 @@ func (tx *transaction) DropTable(ctx context.Context, tid storage.TableId) error
 		panic(fmt.Sprintf("basic: unable to delete table type: %d", tid))
 	}
 
-	// XXX: delete all rows in the table
+	// Delete all rows in the table; otherwise, they would reappear if the table is created again.
+	rel := toRelationId(tid, primaryIndexId)
+	var items []item
+	tx.tree.AscendGreaterOrEqual(item{rel: rel},
+		func(it item) bool {
+			if it.rel != rel {
+				return false
+			}
+			items = append(items, it)
+			return true
+		})
+	for _, it := range items {
+		tx.tree.Delete(it)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 975e9beaac91d7b1e915e0f6230823814df7ed3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 10/47] fix: fail to create a table with a too large definition
 rather than panic

---
 engine/engine.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/engine/engine.go b/engine/engine.go
index 188d1f2..5e0a190 100644
--- a/engine/engine.go
+++ b/engine/engine.go
@@ -127,6 +127,10 @@ type tablesRow struct {
 	Type     []byte `maho:"size=8192,notnull"`
 }
 
+const (
+	maxTableTypeSize = 8192 // size of tablesRow.Type
+)
+
 func (eng *engine) withTransaction(
 	fn func(tx storage.Transaction, ctx context.Context) error) error {
 
@@ -399,6 +403,10 @@ func (tx *transaction) CreateTable(ctx context.Context, tn types.TableName,
 	if err != nil {
 		return err
 	}
+	if len(buf) > maxTableTypeSize {
+		return fmt.Errorf("engine: table %s: definition too large: %d bytes", tn, len(buf))
+	}
+
 	tid, err := tx.nextTableId(ctx)
 	if err != nil {
 		return err
-- 
2.43.0


From 553bdb02381e28e3555ea3989773ab2d3e8a8380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 11/47] fix: convert rows to structs with pointers to any
 supported field type

---
 engine/typedtable.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/engine/typedtable.go b/engine/typedtable.go
index e1a429a..fdf24fd 100644
--- a/engine/typedtable.go
+++ b/engine/typedtable.go
@@ -99,8 +99,8 @@ func (ti *TypedInfo) RowToStruct(row types.Row, st interface{}) {
 			if ct.NotNull {
 				fval.SetBool(bool(b))
 			} else {
-				b := bool(b)
-				fval.Set(reflect.ValueOf(&b))
+				fval.Set(reflect.New(fval.Type().Elem()))
+				fval.Elem().SetBool(bool(b))
 			}
 		case types.StringType:
 			s, ok := row[cdx].(types.StringValue)
@@ -110,8 +110,8 @@ func (ti *TypedInfo) RowToStruct(row types.Row, st interface{}) {
 			if ct.NotNull {
 				fval.SetString(string(s))
 			} else {
-				s := string(s)
-				fval.Set(reflect.ValueOf(&s))
+				fval.Set(reflect.New(fval.Type().Elem()))
+				fval.Elem().SetString(string(s))
 			}
 		case types.BytesType:
 			b, ok := row[cdx].(types.BytesValue)
@@ -127,8 +127,8 @@ func (ti *TypedInfo) RowToStruct(row types.Row, st interface{}) {
 			if ct.NotNull {
 				fval.SetFloat(float64(f))
 			} else {
-				f := float64(f)
-				fval.Set(reflect.ValueOf(&f))
+				fval.Set(reflect.New(fval.Type().Elem()))
+				fval.Elem().SetFloat(float64(f))
 			}
 		case types.Int64Type:
 			i, ok := row[cdx].(types.Int64Value)
@@ -138,8 +138,8 @@ func (ti *TypedInfo) RowToStruct(row types.Row, st interface{}) {
 			if ct.NotNull {
 				fval.SetInt(int64(i))
 			} else {
-				i := int64(i)
-				fval.Set(reflect.ValueOf(&i))
+				fval.Set(reflect.New(fval.Type().Elem()))
+				fval.Elem().SetInt(int64(i))
 			}
 		default:
 			panic(fmt.Sprintf("typed table: unexpected column type: %#v %d", ct, ct.Type))
-- 
2.43.0


From 85ae2300d21321dce931757bbc82d1dfe2a46f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:51 +0000
Subject: [PATCH 12/47] fix: copy bytes literals out of the scanner buffer,
 which the next token reuses

---
 parser/scanner/scanner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 36fb80c..47480bb 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -468,7 +468,7 @@ func (s *Scanner) scanBytes(sctx *ScanCtx, esc bool) rune {
 	if r == token.Error {
 		return token.Error
 	}
-	sctx.Bytes = s.buffer.Bytes()
+	sctx.Bytes = bytes.Clone(s.buffer.Bytes())
 	return token.Bytes
 }
 
@@ -570,6 +570,6 @@ func (s *Scanner) scanHexBytes(sctx *ScanCtx) rune {
 		s.buffer.WriteByte(byte(d1*16 + d2))
 	}
 
-	sctx.Bytes = s.buffer.Bytes()
+	sctx.Bytes = bytes.Clone(s.buffer.Bytes())
 	return token.Bytes
 }
-- 
2.43.0


From a77a975942c099fa38ec6bf33610714db9d63b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:52 +0000
Subject: [PATCH 13/47] fix: fail on escapes which are not a character rather
 than panic or change them

---
 parser/scanner/scanner.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 47480bb..acc9491 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"strconv"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/leftmike/maho/parser/token"
 	"github.com/leftmike/maho/types"
@@ -426,6 +427,10 @@ func (s *Scanner) scanUnicode(sctx *ScanCtx, digits int) rune {
 		u = u*16 + d
 		digits -= 1
 	}
+	if u > unicode.MaxRune || !utf8.ValidRune(rune(u)) {
+		sctx.Error = fmt.Errorf("scanner: invalid unicode code point: %X", u)
+		return token.Error
+	}
 	return rune(u)
 }
 
@@ -451,6 +456,10 @@ func (s *Scanner) scanOctal(sctx *ScanCtx, r rune) rune {
 	if !ok {
 		return token.Error
 	}
+	if r > '3' {
+		sctx.Error = fmt.Errorf("scanner: octal escape out of range")
+		return token.Error
+	}
 	return rune(octal*8 + d)
 }
 
-- 
2.43.0


From e1b6a3fa82418b01a348d4ea3b92941861dbebf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:53 +0000
Subject: [PATCH 14/47] fix: hex and octal escapes in bytes literals are one
 byte

---
 parser/scanner/scanner.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index acc9491..fe05d3d 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -464,7 +464,7 @@ func (s *Scanner) scanOctal(sctx *ScanCtx, r rune) rune {
 }
 
 func (s *Scanner) scanString(sctx *ScanCtx, esc bool) rune {
-	r := s.scanQuotedConstant(sctx, esc)
+	r := s.scanQuotedConstant(sctx, esc, false)
 	if r == token.Error {
 		return token.Error
 	}
@@ -473,7 +473,7 @@ func (s *Scanner) scanString(sctx *ScanCtx, esc bool) rune {
 }
 
 func (s *Scanner) scanBytes(sctx *ScanCtx, esc bool) rune {
-	r := s.scanQuotedConstant(sctx, esc)
+	r := s.scanQuotedConstant(sctx, esc, true)
 	if r == token.Error {
 		return token.Error
 	}
@@ -481,7 +481,7 @@ func (s *Scanner) scanBytes(sctx *ScanCtx, esc bool) rune {
 	return token.Bytes
 }
 
-func (s *Scanner) scanQuotedConstant(sctx *ScanCtx, esc bool) rune {
+func (s *Scanner) scanQuotedConstant(sctx *ScanCtx, esc, raw bool) rune {
 	for {
 		r := s.readRune(sctx)
 		if r == token.EOF {
@@ -517,6 +517,7 @@ func (s *Scanner) scanQuotedConstant(sctx *ScanCtx, esc bool) rune {
 		}
 		if r == '\\' && esc {
 			r = s.readRune(sctx)
+			var octet bool
 			switch r {
 			case 'a':
 				r = 7 // bell
@@ -534,12 +535,14 @@ func (s *Scanner) scanQuotedConstant(sctx *ScanCtx, esc bool) rune {
 				r = 13 // carriage return
 			case 'x':
 				r = s.scanHex(sctx)
+				octet = true
 			case 'u':
 				r = s.scanUnicode(sctx, 4)
 			case 'U':
 				r = s.scanUnicode(sctx, 8)
 			case '0', '1', '2', '3', '4', '5', '6', '7':
 				r = s.scanOctal(sctx, r)
+				octet = true
 			}
 
 			if r == token.EOF {
@@ -547,6 +550,9 @@ func (s *Scanner) scanQuotedConstant(sctx *ScanCtx, esc bool) rune {
 				return token.Error
 			} else if r == token.Error {
 				return token.Error
+			} else if octet && raw {
+				s.buffer.WriteByte(byte(r))
+				continue
 			}
 		}
 		s.buffer.WriteRune(r)
-- 
2.43.0


From f4ab2894696e47cb14a04a3c25de30f1a684bf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:54 +0000
Subject: [PATCH 15/47] fix: scan the smallest 64 bit integer

---
 parser/scanner/scanner.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index fe05d3d..77595d2 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -326,7 +326,12 @@ func (s *Scanner) scanNumber(sctx *ScanCtx, r rune, sign int64) rune {
 	if dbl {
 		sctx.Float, err = strconv.ParseFloat(s.buffer.String(), 64)
 	} else {
-		sctx.Integer, err = strconv.ParseInt(s.buffer.String(), 10, 64)
+		digits := s.buffer.String()
+		if sign < 0 {
+			// Parse with the sign because the smallest integer is out of range without it.
+			digits = "-" + digits
+		}
+		sctx.Integer, err = strconv.ParseInt(digits, 10, 64)
 	}
 	if err != nil {
 		sctx.Error = err
@@ -336,7 +341,6 @@ func (s *Scanner) scanNumber(sctx *ScanCtx, r rune, sign int64) rune {
 		sctx.Float *= float64(sign)
 		return token.Float
 	} else {
-		sctx.Integer *= sign
 		return token.Integer
 	}
 }
-- 
2.43.0


From 5fcfc0b2776d09a016fb6cedbe4ee8f49f1b87e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 16/47] fix: position of end of statement, end of file, minus,
 and slash tokens

---
 parser/scanner/scanner.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 77595d2..d3e0b1d 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -116,6 +116,8 @@ SkipWhitespace:
 
 	for {
 		if r < 0 {
+			sctx.Column = s.column
+			sctx.Line = s.line
 			return r
 		}
 		if !unicode.IsSpace(r) {
@@ -125,6 +127,9 @@ SkipWhitespace:
 		r = s.readRune(sctx)
 	}
 
+	sctx.Column = s.column
+	sctx.Line = s.line
+
 	if r == ';' {
 		return token.EndOfStatement
 	}
@@ -172,9 +177,6 @@ SkipWhitespace:
 		}
 	}
 
-	sctx.Column = s.column
-	sctx.Line = s.line
-
 	if r == 'e' || r == 'E' {
 		if s.readRune(sctx) == '\'' {
 			return s.scanString(sctx, true)
-- 
2.43.0


From 978682d74b3955499511b441317449fb457eaf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:56 +0000
Subject: [PATCH 17/47] fix: don't drop a minus or slash just before the end of
 file

---
 parser/scanner/scanner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index d3e0b1d..ec7f0d2 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -148,7 +148,7 @@ SkipWhitespace:
 			}
 
 			goto SkipWhitespace
-		} else if r2 < 0 {
+		} else if r2 == token.Error {
 			return r2
 		} else {
 			s.unreadRune()
@@ -170,7 +170,7 @@ SkipWhitespace:
 			}
 
 			goto SkipWhitespace
-		} else if r2 < 0 {
+		} else if r2 == token.Error {
 			return r2
 		} else {
 			s.unreadRune()
-- 
2.43.0


From 7799eaa41daf6d7fc2cd59ba7b3c7b87f3ebaf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 18/47] fix: report a read error which happens while looking
 ahead

---
 parser/scanner/scanner.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index ec7f0d2..0d06300 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -41,6 +41,7 @@ type Scanner struct {
 	rr          io.RuneReader
 	unread      bool
 	read        rune
+	err         error
 	filename    string
 	line        int
 	column      int
@@ -243,7 +244,9 @@ SkipWhitespace:
 		return r
 	} else if r == '$' {
 		r = s.readRune(sctx)
-		if !unicode.IsDigit(r) {
+		if r == token.Error {
+			return token.Error
+		} else if !unicode.IsDigit(r) {
 			sctx.Error = fmt.Errorf("scanner: expected parameter %s", s.buffer.String())
 			return token.Error
 		}
@@ -257,6 +260,9 @@ SkipWhitespace:
 func (s *Scanner) readRune(sctx *ScanCtx) rune {
 	if s.unread {
 		s.unread = false
+		if s.read == token.Error {
+			sctx.Error = s.err
+		}
 		return s.read
 	}
 
@@ -266,6 +272,8 @@ func (s *Scanner) readRune(sctx *ScanCtx) rune {
 		s.read = token.EOF
 		return token.EOF
 	} else if err != nil {
+		s.read = token.Error
+		s.err = err
 		sctx.Error = err
 		return token.Error
 	}
-- 
2.43.0


From ce852c7a153613476d4851bf7d335c59ec4d56ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:18 +0000
Subject: [PATCH 19/47] fix: skip the rest of a string or bytes literal which
 has an error in it

---
 parser/scanner/scanner.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 0d06300..b1cba63 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -414,6 +414,7 @@ func (s *Scanner) scanHexDigit(sctx *ScanCtx) (uint, bool) {
 		return uint(r - 'a' + 10), true
 	}
 	if r != token.Error {
+		s.unreadRune()
 		sctx.Error = fmt.Errorf("scanner: expected hex digit")
 	}
 	return 0, false
@@ -454,6 +455,7 @@ func (s *Scanner) scanOctalDigit(sctx *ScanCtx) (byte, bool) {
 		return byte(r - '0'), true
 	}
 	if r != token.Error {
+		s.unreadRune()
 		sctx.Error = fmt.Errorf("scanner: expected octal digit")
 	}
 	return 0, false
@@ -480,6 +482,7 @@ func (s *Scanner) scanOctal(sctx *ScanCtx, r rune) rune {
 func (s *Scanner) scanString(sctx *ScanCtx, esc bool) rune {
 	r := s.scanQuotedConstant(sctx, esc, false)
 	if r == token.Error {
+		s.skipQuoted(esc)
 		return token.Error
 	}
 	sctx.String = s.buffer.String()
@@ -489,6 +492,7 @@ func (s *Scanner) scanString(sctx *ScanCtx, esc bool) rune {
 func (s *Scanner) scanBytes(sctx *ScanCtx, esc bool) rune {
 	r := s.scanQuotedConstant(sctx, esc, true)
 	if r == token.Error {
+		s.skipQuoted(esc)
 		return token.Error
 	}
 	sctx.Bytes = bytes.Clone(s.buffer.Bytes())
@@ -575,6 +579,32 @@ func (s *Scanner) scanQuotedConstant(sctx *ScanCtx, esc, raw bool) rune {
 	return token.String
 }
 
+// skipQuoted skips the rest of a bad quoted constant, so that it is not taken for something else.
+func (s *Scanner) skipQuoted(esc bool) {
+	if !s.unread && s.read < 0 {
+		// Already at the end of the file or a read error.
+		return
+	}
+
+	var sctx ScanCtx
+	for {
+		r := s.readRune(&sctx)
+		if r == '\\' && esc {
+			r = s.readRune(&sctx)
+		} else if r == '\'' {
+			r = s.readRune(&sctx)
+			if r != '\'' {
+				s.unreadRune()
+				return
+			}
+		}
+		if r < 0 {
+			s.unreadRune()
+			return
+		}
+	}
+}
+
 func (s *Scanner) scanHexBytes(sctx *ScanCtx) rune {
 	for {
 		r := s.readRune(sctx)
@@ -590,10 +620,12 @@ func (s *Scanner) scanHexBytes(sctx *ScanCtx) rune {
 		s.unreadRune()
 		d1, ok := s.scanHexDigit(sctx)
 		if !ok {
+			s.skipQuoted(false)
 			return token.Error
 		}
 		d2, ok := s.scanHexDigit(sctx)
 		if !ok {
+			s.skipQuoted(false)
 			return token.Error
 		}
 		s.buffer.WriteByte(byte(d1*16 + d2))
-- 
2.43.0


From 7aab1eb28ab1a34378200cd86d17068af765742a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:29 +0000
Subject: [PATCH 20/47] fix: don't lose the statement after an empty statement

---
 parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/parser.go b/parser/parser.go
index d65da6f..c3e1fbe 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -245,6 +245,7 @@ func (p *Parser) expectEndOfStatement() {
 
 func (p *Parser) parseStmt() sql.Stmt {
 	if p.maybeToken(token.EndOfStatement) {
+		p.unscan() // for expectEndOfStatement
 		return nil
 	}
 
-- 
2.43.0


From 1ab14ca421558ac093c87ede6256d3a263cda168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:30 +0000
Subject: [PATCH 21/47] fix: skip the rest of a statement which starts with a
 scan error

---
 parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/parser.go b/parser/parser.go
index c3e1fbe..13602e5 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -33,6 +33,7 @@ func NewParser(rr io.RuneReader, fn string) *Parser {
 func (p *Parser) Parse() (stmt sql.Stmt, err error) {
 	t, err := p.scanRune()
 	if err != nil {
+		p.failed = true
 		return nil, err
 	} else if t == token.EOF {
 		return nil, io.EOF
-- 
2.43.0


From 1b67bd6a53830ffec3d6c6e44721350e05cbc897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:31 +0000
Subject: [PATCH 22/47] fix: fail rather than panic on set and use with NULL

---
 parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 13602e5..d669c93 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1670,7 +1670,7 @@ func (p *Parser) parseSet() sql.Stmt {
 	}
 	e := p.parseExpr()
 	l, ok := e.(sql.Literal)
-	if !ok {
+	if !ok || l.Value == nil {
 		p.error(fmt.Sprintf("expected a literal value, got %s", e.String()))
 	}
 	if sv, ok := l.Value.(types.StringValue); ok {
@@ -1848,7 +1848,7 @@ func (p *Parser) parseUse() sql.Stmt {
 
 	e := p.parseExpr()
 	l, ok := e.(sql.Literal)
-	if !ok {
+	if !ok || l.Value == nil {
 		p.error(fmt.Sprintf("expected a literal value, got %s", e.String()))
 	}
 	if sv, ok := l.Value.(types.StringValue); ok {
-- 
2.43.0


From 35611af0321a29cf1373cc219c2954adca6460a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:32 +0000
Subject: [PATCH 23/47] fix: adjust precedence in the expression before IN,
 ANY, SOME, and ALL

---
 parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index d669c93..fb757c7 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1117,6 +1117,10 @@ func adjustPrecedence(e sql.Expr) sql.Expr {
 		for idx, arg := range e.Args {
 			e.Args[idx] = adjustPrecedence(arg)
 		}
+	case *sql.Subquery:
+		if e.Expr != nil {
+			e.Expr = adjustPrecedence(e.Expr)
+		}
 	}
 
 	return e
-- 
2.43.0


From 654863e28cf39ac3c71ee1cf52c27725bd718a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 24/47] fix: parse operators after IN, IS NULL, ANY, SOME, and
 ALL

---
 parser/parser.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index fb757c7..d82c5d2 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1246,17 +1246,21 @@ func (p *Parser) parseSubExpr() sql.Expr {
 		p.error(fmt.Sprintf("expected an expression, got %s", p.got()))
 	}
 
+	return p.parseSubExprOp(e)
+}
+
+func (p *Parser) parseSubExprOp(e sql.Expr) sql.Expr {
 	op, ok, bop := p.optionalBinaryOp()
 	if !ok {
 		if p.optionalReserved(types.IN, types.NOT, types.IS) {
 			switch p.sctx.Identifier {
 			case types.IN:
-				return &sql.Subquery{Op: sql.Any, ExprOp: sql.EqualOp, Expr: e,
-					Stmt: p.parseSubquery()}
+				return p.parseSubExprOp(&sql.Subquery{Op: sql.Any, ExprOp: sql.EqualOp, Expr: e,
+					Stmt: p.parseSubquery()})
 			case types.NOT:
 				if p.optionalReserved(types.IN) {
-					return &sql.Subquery{Op: sql.All, ExprOp: sql.NotEqualOp, Expr: e,
-						Stmt: p.parseSubquery()}
+					return p.parseSubExprOp(&sql.Subquery{Op: sql.All, ExprOp: sql.NotEqualOp,
+						Expr: e, Stmt: p.parseSubquery()})
 				}
 				p.unscan()
 			case types.IS:
@@ -1268,9 +1272,9 @@ func (p *Parser) parseSubExpr() sql.Expr {
 
 				e = &sql.SExpr{Name: types.ID("is_null", false), Args: []sql.Expr{e}}
 				if not {
-					return &sql.UnaryExpr{Op: sql.NotOp, Expr: e}
+					e = &sql.UnaryExpr{Op: sql.NotOp, Expr: e}
 				}
-				return e
+				return p.parseSubExprOp(e)
 			}
 		}
 
@@ -1287,7 +1291,8 @@ func (p *Parser) parseSubExpr() sql.Expr {
 		} else {
 			subqueryOp = sql.Any
 		}
-		return &sql.Subquery{Op: subqueryOp, ExprOp: op, Expr: e, Stmt: p.parseSubquery()}
+		return p.parseSubExprOp(&sql.Subquery{Op: subqueryOp, ExprOp: op, Expr: e,
+			Stmt: p.parseSubquery()})
 	}
 
 	return &sql.BinaryExpr{Op: op, Left: e, Right: p.parseSubExpr()}
-- 
2.43.0


From b6e3c28d3e50f15c6fa3e6954ef6d785761e6416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:02 +0000
Subject: [PATCH 25/47] fix: parse a join of a join

---
 parser/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index d82c5d2..9e4992d 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1558,6 +1558,10 @@ func (p *Parser) parseFromItem() sql.FromItem {
 		fi = p.parseTableAlias()
 	}
 
+	return p.parseFromJoin(fi)
+}
+
+func (p *Parser) parseFromJoin(fi sql.FromItem) sql.FromItem {
 	jt := sql.NoJoin
 	if p.optionalReserved(types.JOIN) {
 		jt = sql.Join
@@ -1616,7 +1620,7 @@ func (p *Parser) parseFromItem() sql.FromItem {
 		}
 	}
 
-	return fj
+	return p.parseFromJoin(fj)
 }
 
 func (p *Parser) parseFromList() sql.FromItem {
-- 
2.43.0


From 317c5bd59c1394a3b0f99a59ef38cc5bc2743aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:03 +0000
Subject: [PATCH 26/47] fix: print select without FROM and with HAVING but not
 GROUP BY

---
 parser/sql/query.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/parser/sql/query.go b/parser/sql/query.go
index ca2eb8b..11bf3ef 100644
--- a/parser/sql/query.go
+++ b/parser/sql/query.go
@@ -260,7 +260,9 @@ func (stmt *Select) String() string {
 			buf.WriteString(sr.String())
 		}
 	}
-	fmt.Fprintf(&buf, " FROM %s", stmt.From)
+	if stmt.From != nil {
+		fmt.Fprintf(&buf, " FROM %s", stmt.From)
+	}
 	if stmt.Where != nil {
 		fmt.Fprintf(&buf, " WHERE %s", stmt.Where)
 	}
@@ -272,9 +274,9 @@ func (stmt *Select) String() string {
 			}
 			buf.WriteString(e.String())
 		}
-		if stmt.Having != nil {
-			buf.WriteString(fmt.Sprintf(" HAVING %s", stmt.Having))
-		}
+	}
+	if stmt.Having != nil {
+		buf.WriteString(fmt.Sprintf(" HAVING %s", stmt.Having))
 	}
 	if stmt.OrderBy != nil {
 		buf.WriteString(" ORDER BY ")
-- 
2.43.0


From 7f95837d97bc357edbdda3513f58c5dee99ccdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:04 +0000
Subject: [PATCH 27/47] fix: print insert and update with DEFAULT

---
 parser/sql/query.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/parser/sql/query.go b/parser/sql/query.go
index 11bf3ef..f9425ac 100644
--- a/parser/sql/query.go
+++ b/parser/sql/query.go
@@ -138,7 +138,11 @@ func (stmt *InsertValues) String() string {
 			if j > 0 {
 				buf.WriteString(", ")
 			}
-			buf.WriteString(v.String())
+			if v == nil {
+				buf.WriteString("DEFAULT")
+			} else {
+				buf.WriteString(v.String())
+			}
 		}
 
 		buf.WriteRune(')')
@@ -169,7 +173,11 @@ func (stmt *Update) String() string {
 		if i > 0 {
 			buf.WriteString(", ")
 		}
-		fmt.Fprintf(&buf, "%s = %s", cu.Column, cu.Expr)
+		if cu.Expr == nil {
+			fmt.Fprintf(&buf, "%s = DEFAULT", cu.Column)
+		} else {
+			fmt.Fprintf(&buf, "%s = %s", cu.Column, cu.Expr)
+		}
 	}
 	if stmt.Where != nil {
 		fmt.Fprintf(&buf, " WHERE %s", stmt.Where)
-- 
2.43.0


From 7f3afa9a23bf4ed5a0309522d29cdfb33765aa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 28/47] fix: reject duplicate names of check and foreign key
 constraints

---
 parser/parser.go | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 9e4992d..c72e44f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -593,6 +593,7 @@ func (p *Parser) parseCreateDetails(s *sql.CreateTable) {
 				key)
 		} else if p.optionalReserved(types.CHECK) {
 			p.expectTokens(token.LParen)
+			p.checkConstraintName(s, cn)
 			s.Constraints = append(s.Constraints,
 				sql.Constraint{
 					Type:   sql.CheckConstraint,
@@ -603,6 +604,7 @@ func (p *Parser) parseCreateDetails(s *sql.CreateTable) {
 			p.expectTokens(token.RParen)
 		} else if p.optionalReserved(types.FOREIGN) {
 			p.expectReserved(types.KEY)
+			p.checkConstraintName(s, cn)
 			s.ForeignKeys = append(s.ForeignKeys, p.parseForeignKey(cn))
 		} else if cn != 0 {
 			p.error("CONSTRAINT name specified without a constraint")
@@ -701,13 +703,27 @@ func makeKeyConstraintName(cn types.Identifier, key sql.IndexKey, suffix string)
 	return types.ID(nam+suffix, false)
 }
 
-func (p *Parser) addKeyConstraint(s *sql.CreateTable, ct sql.ConstraintType,
-	cn types.Identifier, nkey sql.IndexKey) {
-
+func (p *Parser) checkConstraintName(s *sql.CreateTable, cn types.Identifier) {
+	if cn == 0 {
+		return
+	}
 	for _, c := range s.Constraints {
 		if c.Name == cn {
 			p.error(fmt.Sprintf("duplicate constraint name: %s", cn))
 		}
+	}
+	for _, fk := range s.ForeignKeys {
+		if fk.Name == cn {
+			p.error(fmt.Sprintf("duplicate constraint name: %s", cn))
+		}
+	}
+}
+
+func (p *Parser) addKeyConstraint(s *sql.CreateTable, ct sql.ConstraintType,
+	cn types.Identifier, nkey sql.IndexKey) {
+
+	p.checkConstraintName(s, cn)
+	for _, c := range s.Constraints {
 		if c.Type == sql.PrimaryConstraint && ct == sql.PrimaryConstraint {
 			p.error("only one primary key allowed")
 		}
@@ -731,10 +747,9 @@ func (p *Parser) addKeyConstraint(s *sql.CreateTable, ct sql.ConstraintType,
 func (p *Parser) addColumnConstraint(s *sql.CreateTable, ct sql.ConstraintType,
 	cn types.Identifier, colNum int) {
 
+	p.checkConstraintName(s, cn)
 	for _, c := range s.Constraints {
-		if c.Name == cn {
-			p.error(fmt.Sprintf("duplicate constraint name: %s", cn))
-		} else if colNum == c.ColNum && ct == c.Type {
+		if colNum == c.ColNum && ct == c.Type {
 			p.error(fmt.Sprintf("duplicate %s constraint on %s", ct, s.Columns[colNum]))
 		}
 	}
@@ -820,6 +835,7 @@ func (p *Parser) parseColumn(s *sql.CreateTable) {
 				})
 		} else if p.optionalReserved(types.CHECK) {
 			p.expectTokens(token.LParen)
+			p.checkConstraintName(s, cn)
 			s.Constraints = append(s.Constraints,
 				sql.Constraint{
 					Type:   sql.CheckConstraint,
@@ -829,6 +845,7 @@ func (p *Parser) parseColumn(s *sql.CreateTable) {
 				})
 			p.expectTokens(token.RParen)
 		} else if p.optionalReserved(types.REFERENCES) {
+			p.checkConstraintName(s, cn)
 			rtn := p.parseTableName()
 			var refCols []types.Identifier
 			if p.maybeToken(token.LParen) {
-- 
2.43.0


From 373399c96d00b3a8ce83b71ca1ede7577d9e5a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:04 +0000
Subject: [PATCH 29/47] fix: fail on unsupported statements rather than accept
 them as nothing

---
 parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/parser.go b/parser/parser.go
index c72e44f..891e1cc 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -365,6 +365,7 @@ func (p *Parser) parseStmt() sql.Stmt {
 		return p.parseValues()
 	}
 
+	p.error(fmt.Sprintf("unsupported statement: %s", p.sctx.Identifier))
 	return nil
 }
 
-- 
2.43.0


From 1e722e664273ad2f0c17851d110920ea78af3add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:32 +0000
Subject: [PATCH 30/47] fix: scan an operator directly followed by a comment

---
 parser/scanner/scanner.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index b1cba63..ca95266 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -226,7 +226,8 @@ SkipWhitespace:
 	} else if token.IsOpRune(r) {
 		s.buffer.WriteRune(r)
 		r2 := s.readRune(sctx)
-		if r2 == '-' || r2 == '+' {
+		if r2 == '-' || r2 == '+' || r2 == '/' {
+			// No operator has one of these second, but it might start a comment or an operand.
 			s.unreadRune()
 			return r
 		} else if token.IsOpRune(r2) {
-- 
2.43.0


From d66a111d35fdc774846a846af986b37bbef84740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:19 +0000
Subject: [PATCH 31/47] fix: scan the end of COPY before handing over the
 reader

---
 parser/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 891e1cc..1d9510b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1419,6 +1419,11 @@ func (p *Parser) parseCopy() sql.Stmt {
 		s.Delimiter = rune(p.sctx.String[0])
 	}
 
+	// The end of the statement must already be scanned when the reader is returned; otherwise, it
+	// might be skipped.
+	p.expectEndOfStatement()
+	p.unscan()
+
 	// Must be last because the scanner will skip to the end of the line before returning
 	// the reader.
 	s.From, s.FromLine = p.scanner.RuneReader()
-- 
2.43.0


From 96b9e9ce3c24842489986a74c03709fb2ca45045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:10 +0000
Subject: [PATCH 32/47] fix: keep the character after a $ that is no parameter

---
 parser/scanner/scanner.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index ca95266..3c42fd8 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -248,6 +248,7 @@ SkipWhitespace:
 		if r == token.Error {
 			return token.Error
 		} else if !unicode.IsDigit(r) {
+			s.unreadRune()
 			sctx.Error = fmt.Errorf("scanner: expected parameter %s", s.buffer.String())
 			return token.Error
 		}
-- 
2.43.0


From ee7062cd7c6c1fd34957327c660c9ffd12bf4bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:36 +0000
Subject: [PATCH 33/47] fix: report the end of input, not an error, after a
 failed last statement

---
 parser/parser.go | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 1d9510b..2308aea 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -31,28 +31,21 @@ func NewParser(rr io.RuneReader, fn string) *Parser {
 }
 
 func (p *Parser) Parse() (stmt sql.Stmt, err error) {
-	t, err := p.scanRune()
-	if err != nil {
-		p.failed = true
-		return nil, err
-	} else if t == token.EOF {
-		return nil, io.EOF
-	}
-	p.unscan()
-
-	if p.failed {
-		for {
-			t, err = p.scanRune()
-			if err != nil {
-				return nil, err
-			} else if t == token.EOF {
-				return nil, io.EOF
-			} else if t == token.EndOfStatement {
-				break
-			}
+	for {
+		var t rune
+		t, err = p.scanRune()
+		if err != nil {
+			p.failed = true
+			return nil, err
+		} else if t == token.EOF {
+			return nil, io.EOF
+		}
+		if !p.failed {
+			break
 		}
-		p.failed = false
+		p.failed = (t != token.EndOfStatement)
 	}
+	p.unscan()
 
 	defer func() {
 		if r := recover(); r != nil {
-- 
2.43.0


From f1bc9ad8550d9f87bcd845856eb25a28a1004b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:33 +0000
Subject: [PATCH 34/47] fix: print VERBOSE of EXPLAIN

---
 parser/sql/stmt.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/sql/stmt.go b/parser/sql/stmt.go
index 3cb103a..915a967 100644
--- a/parser/sql/stmt.go
+++ b/parser/sql/stmt.go
@@ -67,6 +67,9 @@ type Explain struct {
 }
 
 func (stmt *Explain) String() string {
+	if stmt.Verbose {
+		return fmt.Sprintf("EXPLAIN VERBOSE %s", stmt.Stmt)
+	}
 	return fmt.Sprintf("EXPLAIN %s", stmt.Stmt)
 }
 
-- 
2.43.0


From 6b5c79bc4dcee73efcd9268f36c8abede48231e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:34 +0000
Subject: [PATCH 35/47] fix: print the actions of foreign keys

---
 parser/sql/datadef.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/parser/sql/datadef.go b/parser/sql/datadef.go
index aa3aed1..9678092 100644
--- a/parser/sql/datadef.go
+++ b/parser/sql/datadef.go
@@ -106,6 +106,23 @@ const (
 	SetDefault
 )
 
+func (ra RefAction) String() string {
+	switch ra {
+	case NoAction:
+		return "NO ACTION"
+	case Restrict:
+		return "RESTRICT"
+	case Cascade:
+		return "CASCADE"
+	case SetNull:
+		return "SET NULL"
+	case SetDefault:
+		return "SET DEFAULT"
+	default:
+		panic(fmt.Sprintf("unexpected referential action: %d", ra))
+	}
+}
+
 type ForeignKey struct {
 	Name     types.Identifier
 	FKTable  types.TableName
@@ -140,6 +157,12 @@ func (fk ForeignKey) String() string {
 		}
 		buf.WriteRune(')')
 	}
+	if fk.OnDelete != NoAction {
+		fmt.Fprintf(&buf, " ON DELETE %s", fk.OnDelete)
+	}
+	if fk.OnUpdate != NoAction {
+		fmt.Fprintf(&buf, " ON UPDATE %s", fk.OnUpdate)
+	}
 	return buf.String()
 }
 
-- 
2.43.0


From 6681552c84bf05c49764dd35bf0135a6e8739dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:36 +0000
Subject: [PATCH 36/47] fix: print unnamed check constraints

---
 parser/sql/datadef.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/sql/datadef.go b/parser/sql/datadef.go
index 9678092..1269adb 100644
--- a/parser/sql/datadef.go
+++ b/parser/sql/datadef.go
@@ -88,6 +88,9 @@ func (c Constraint) String() string {
 	case UniqueConstraint:
 		return fmt.Sprintf(", CONSTRAINT %s UNIQUE %s", c.Name, c.Key)
 	case CheckConstraint:
+		if c.Name == 0 {
+			return fmt.Sprintf(", CHECK (%s)", c.Check)
+		}
 		return fmt.Sprintf(", CONSTRAINT %s CHECK (%s)", c.Name, c.Check)
 	default:
 		panic(fmt.Sprintf("unexpected constraint type: %d", c.Type))
-- 
2.43.0


From 4ed9061afe32b1c03cec78cd47bcfbae77144b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:37 +0000
Subject: [PATCH 37/47] fix: print COPY without columns

---
 parser/sql/query.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/parser/sql/query.go b/parser/sql/query.go
index f9425ac..15bdda1 100644
--- a/parser/sql/query.go
+++ b/parser/sql/query.go
@@ -69,14 +69,18 @@ type Copy struct {
 
 func (stmt *Copy) String() string {
 	var buf strings.Builder
-	fmt.Fprintf(&buf, "COPY %s (", stmt.Table)
-	for i, col := range stmt.Columns {
-		if i > 0 {
-			buf.WriteString(", ")
+	fmt.Fprintf(&buf, "COPY %s", stmt.Table)
+	if stmt.Columns != nil {
+		buf.WriteString(" (")
+		for i, col := range stmt.Columns {
+			if i > 0 {
+				buf.WriteString(", ")
+			}
+			buf.WriteString(col.String())
 		}
-		buf.WriteString(col.String())
+		buf.WriteRune(')')
 	}
-	buf.WriteString(") FROM STDIN")
+	buf.WriteString(" FROM STDIN")
 
 	if stmt.Delimiter != '\t' {
 		fmt.Fprintf(&buf, " DELIMITER '%c'", stmt.Delimiter)
-- 
2.43.0


From 20516790420dd82af1a8128535c3a626003731b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:47 +0000
Subject: [PATCH 38/47] fix: print the value of SET as a string

---
 parser/sql/stmt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/sql/stmt.go b/parser/sql/stmt.go
index 915a967..744c942 100644
--- a/parser/sql/stmt.go
+++ b/parser/sql/stmt.go
@@ -2,6 +2,7 @@ package sql
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/leftmike/maho/types"
 )
@@ -46,7 +47,8 @@ type Set struct {
 }
 
 func (stmt *Set) String() string {
-	return fmt.Sprintf("SET %s TO %s", stmt.Variable, stmt.Value)
+	return fmt.Sprintf("SET %s TO '%s'", stmt.Variable,
+		strings.ReplaceAll(stmt.Value, "'", "''"))
 }
 
 func (_ *Set) Resolve(r Resolver) {}
-- 
2.43.0


From 9fe7faaf3c16d735b1e2ea2861ca80cabb3805f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:56 +0000
Subject: [PATCH 39/47] fix: double the quotes in printed strings

---
 types/value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/value.go b/types/value.go
index dc07458..0eb3628 100644
--- a/types/value.go
+++ b/types/value.go
@@ -160,7 +160,7 @@ func (f Float64Value) compare(val Value) int {
 type StringValue string
 
 func (s StringValue) String() string {
-	return fmt.Sprintf("'%s'", string(s)) // XXX
+	return fmt.Sprintf("'%s'", strings.ReplaceAll(string(s), "'", "''"))
 }
 
 func (_ StringValue) order() int {
-- 
2.43.0


From b6528527892600ee78c83664828f1822b6249149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:29 +0000
Subject: [PATCH 40/47] fix: name the bytes, not an earlier string, in error
 messages

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 2308aea..f7138f0 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -118,7 +118,7 @@ func (p *Parser) got() string {
 	case token.String:
 		return fmt.Sprintf("string %q", p.sctx.String)
 	case token.Bytes:
-		return fmt.Sprintf("bytes %v", p.sctx.String)
+		return fmt.Sprintf("bytes %v", p.sctx.Bytes)
 	case token.Integer:
 		return fmt.Sprintf("integer %d", p.sctx.Integer)
 	case token.Float:
-- 
2.43.0


From 6f315fd4ea992fac83198efe8708c74a1df739d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:13 +0000
Subject: [PATCH 41/47] fix: give the position of an error in the first token
 of a statement

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index f7138f0..948d475 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -36,7 +36,7 @@ func (p *Parser) Parse() (stmt sql.Stmt, err error) {
 		t, err = p.scanRune()
 		if err != nil {
 			p.failed = true
-			return nil, err
+			return nil, fmt.Errorf("parser: %s: %w", p.sctx.Position, err)
 		} else if t == token.EOF {
 			return nil, io.EOF
 		}
-- 
2.43.0


From 62d44d0d2afff96b2ea6d3b78c2fbee5d363e0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:46 +0000
Subject: [PATCH 42/47] fix: report a read error in the middle of an operator

---
 parser/scanner/scanner.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/scanner/scanner.go b/parser/scanner/scanner.go
index 3c42fd8..bef7ffe 100644
--- a/parser/scanner/scanner.go
+++ b/parser/scanner/scanner.go
@@ -207,6 +207,8 @@ SkipWhitespace:
 		r = s.readRune(sctx)
 		if unicode.IsDigit(r) {
 			return s.scanNumber(sctx, r, 1)
+		} else if r == token.Error {
+			return r
 		}
 		s.unreadRune()
 		return '+'
@@ -237,6 +239,8 @@ SkipWhitespace:
 			}
 			sctx.Error = fmt.Errorf("scanner: unexpected operator %s", s.buffer.String())
 			return token.Error
+		} else if r2 == token.Error {
+			return token.Error
 		} else {
 			s.unreadRune()
 			return r
-- 
2.43.0


From 06c3b5c132491d093dd221edc6b6385090a671ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:58 +0000
Subject: [PATCH 43/47] fix: keep a leading NUL when parsing a string value

---
 testutil/parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/testutil/parse.go b/testutil/parse.go
index 744f1de..cf10495 100644
--- a/testutil/parse.go
+++ b/testutil/parse.go
@@ -69,7 +69,7 @@ func expectRune(rs io.RuneScanner, e rune, err error, eofAllowed bool) bool {
 
 func readRunes(rs io.RuneScanner, r rune, eofAllowed bool, pred func(rune) bool) string {
 	var buf strings.Builder
-	if r != 0 {
+	if r >= 0 {
 		buf.WriteRune(r)
 	}
 
@@ -144,7 +144,7 @@ func parseValue(rs io.RuneScanner) types.Value {
 			panicError(errBadBytesString)
 		}
 
-		s := readRunes(rs, 0, false,
+		s := readRunes(rs, -1, false,
 			func(r rune) bool {
 				return r != '\''
 			})
-- 
2.43.0


From e52af956794c0420dc4083ba47ad23a103db3e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:06 +0000
Subject: [PATCH 44/47] fix: fail on bytes values which are not hex digits

---
 testutil/parse.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/testutil/parse.go b/testutil/parse.go
index cf10495..0481509 100644
--- a/testutil/parse.go
+++ b/testutil/parse.go
@@ -100,8 +100,12 @@ func hexDigit(ch byte) byte {
 		return ch - '0'
 	} else if ch >= 'a' && ch <= 'f' {
 		return ch - 'a' + 10
+	} else if ch >= 'A' && ch <= 'F' {
+		return ch - 'A' + 10
 	}
-	return ch - 'A' + 10
+
+	panicError(errBadBytesString)
+	return 0
 }
 
 func parseValue(rs io.RuneScanner) types.Value {
-- 
2.43.0


From b1a532c2aae5ef0b7f3a4af10dd9897a84dbd450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:16 +0000
Subject: [PATCH 45/47] fix: fail on column sizes of more than 32 bits

---
 testutil/parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/testutil/parse.go b/testutil/parse.go
index 0481509..596c5e9 100644
--- a/testutil/parse.go
+++ b/testutil/parse.go
@@ -358,7 +358,7 @@ func parseOptionalSize(rs io.RuneScanner) (uint32, bool) {
 		panicError(errExpectedNumber)
 	}
 
-	i, err := strconv.ParseInt(readRunes(rs, r, true, unicode.IsDigit), 10, 64)
+	i, err := strconv.ParseUint(readRunes(rs, r, true, unicode.IsDigit), 10, 32)
 	if err != nil {
 		panicError(err)
 	}
-- 
2.43.0


From d097f62aebe250bfa4b82796a82f6658614bb428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:11 +0000
Subject: [PATCH 46/47] fix: do not share rows, bytes and column lists between
 the store and its callers

---
 storage/basic/basic.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/storage/basic/basic.go b/storage/basic/basic.go
index 702b26d..5a2525a 100644
--- a/storage/basic/basic.go
+++ b/storage/basic/basic.go
@@ -335,6 +335,22 @@ func predicateFunction(pred storage.Predicate, ct types.ColumnType) func(types.V
 	return nil
 }
 
+// copyValue copies bytes, so that the store and its callers do not share them.
+func copyValue(val types.Value) types.Value {
+	if b, ok := val.(types.BytesValue); ok {
+		return types.BytesValue(slices.Clone(b))
+	}
+	return val
+}
+
+func copyRow(row types.Row) types.Row {
+	nrow := make(types.Row, len(row))
+	for idx, val := range row {
+		nrow[idx] = copyValue(val)
+	}
+	return nrow
+}
+
 func (tbl *table) Rows(ctx context.Context, cols []types.ColumnNum, minRow, maxRow types.Row,
 	pred storage.Predicate) (storage.Rows, error) {
 
@@ -373,7 +389,7 @@ func (tbl *table) Rows(ctx context.Context, cols []types.ColumnNum, minRow, maxR
 	tbl.tx.rowsCount += 1
 	return &rows{
 		tbl:   tbl,
-		cols:  cols,
+		cols:  slices.Clone(cols),
 		items: items,
 	}, nil
 }
@@ -388,7 +404,7 @@ func (tbl *table) Insert(ctx context.Context, rows []types.Row) error {
 			return err
 		}
 
-		it := rowToItem(rel, tbl.tt.Key, row)
+		it := rowToItem(rel, tbl.tt.Key, copyRow(row))
 		if tbl.tx.tree.Has(it) {
 			return fmt.Errorf("basic: %s: primary index: existing row with duplicate key: %s",
 				tbl.tt.Name, row)
@@ -413,12 +429,12 @@ func (rs *rows) Next(ctx context.Context) (types.Row, error) {
 	if rs.cols != nil {
 		row := make([]types.Value, len(rs.cols))
 		for idx, col := range rs.cols {
-			row[idx] = rs.items[rs.next-1].row[col]
+			row[idx] = copyValue(rs.items[rs.next-1].row[col])
 		}
 		return row, nil
 	}
 
-	return rs.items[rs.next-1].row, nil
+	return copyRow(rs.items[rs.next-1].row), nil
 }
 
 func (rs *rows) Current() (storage.RowRef, error) {
@@ -458,7 +474,7 @@ func (rr rowRef) Update(ctx context.Context, cols []types.ColumnNum, vals []type
 		if err != nil {
 			return err
 		}
-		row[col] = val
+		row[col] = copyValue(val)
 	}
 
 	rr.tbl.tx.forWrite()
-- 
2.43.0


From 19c8e4aa227a09294a09427ce0ab072872c6c650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:48 +0000
Subject: [PATCH 47/47] fix: refuse a struct field size which does not fit a
 column size

---
 engine/typedinfo.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/engine/typedinfo.go b/engine/typedinfo.go
index add81bf..ac51b90 100644
--- a/engine/typedinfo.go
+++ b/engine/typedinfo.go
@@ -118,9 +118,11 @@ func MakeTypedInfo(tid storage.TableId, tn types.TableName, st interface{}) *Typ
 
 		size := uint32(1)
 		if val, ok := tags["size"]; ok {
-			n, err := strconv.Atoi(val)
+			n, err := strconv.ParseInt(val, 10, 64)
 			if err != nil || n <= 0 {
 				panic(fmt.Sprintf("typed table: size not a positive integer: %s: %s", val, err))
+			} else if n > types.MaxColumnSize {
+				panic(fmt.Sprintf("typed table: size too large: %s", val))
 			}
 			size = uint32(n)
 		}
-- 
2.43.0

