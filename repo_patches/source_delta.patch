From 5e4ccb4b86968e5d702b4c7bf734f1abc550a240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:25 +0000
Subject: [PATCH 01/88] fix: filter: keep comparisons of NULL and booleans with
 operators other than = and <>

Constructor.Col dropped such predicates after already having written their AND,
which left a dangling connector in the WHERE clause.
---
 filter/filter.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/filter/filter.go b/filter/filter.go
index 2e21f61..2822ea0 100644
--- a/filter/filter.go
+++ b/filter/filter.go
@@ -208,30 +208,36 @@ func (c *Constructor) Col(column string, op string, value interface{}) {
 			switch op {
 			case "=":
 				c.filter.where = append(c.filter.where, sqlUnary{col: column, pred: "IS NULL"})
+				return
 			case "<>":
 				c.filter.where = append(c.filter.where, sqlUnary{col: column, pred: "IS NOT NULL"})
+				return
 			}
 		case true:
 			switch op {
 			case "=":
 				c.filter.where = append(c.filter.where, sqlUnary{col: column, pred: "IS TRUE"})
+				return
 			case "<>":
 				c.filter.where = append(c.filter.where, sqlUnary{col: column, pred: "IS NOT TRUE"})
+				return
 			}
 		case false:
 			switch op {
 			case "=":
 				c.filter.where = append(c.filter.where, sqlUnary{col: column, pred: "IS FALSE"})
+				return
 			case "<>":
 				c.filter.where = append(c.filter.where, sqlUnary{col: column, pred: "IS NOT FALSE"})
+				return
 			}
-		default:
-			c.filter.where = append(c.filter.where, sqlBinary{
-				col: column,
-				op:  op,
-				val: value,
-			})
 		}
+
+		c.filter.where = append(c.filter.where, sqlBinary{
+			col: column,
+			op:  op,
+			val: value,
+		})
 	}
 }
 
-- 
2.43.0


From 1ca6c96ee342815cbccfddabcc9b2878968817c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:26 +0000
Subject: [PATCH 02/88] fix: filter: render membership in an empty list as
 FALSE instead of IN ()

---
 filter/convenience.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/filter/convenience.go b/filter/convenience.go
index b323a6c..bd911c8 100644
--- a/filter/convenience.go
+++ b/filter/convenience.go
@@ -14,6 +14,12 @@ type sqlIn[T any] struct {
 func (sqlIn[T]) canAndOr() bool { return true }
 
 func (n sqlIn[T]) write(w *sqlWriter) {
+	// "IN ()" is not valid SQL, and nothing is a member of an empty list.
+	if len(n.vals) == 0 {
+		w.WriteString("FALSE")
+		return
+	}
+
 	w.WriteString(n.col)
 	w.WriteString(" IN (")
 	for i := range n.vals {
-- 
2.43.0


From 82415eceae1dd488a172c370293207d70a544743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:54 +0000
Subject: [PATCH 03/88] fix: filter: never leave connectors or parentheses
 without operands in a WHERE clause

Connectors with nothing on one side, groups to which nothing is added, and, in
lenient mode, rules of an expression whose keys are unknown made the filter
produce malformed SQL (e.g. "a = $1 AND", "()"). They now have no effect, and an
expression that is rejected leaves the filter as it was.
---
 filter/filter.go | 69 +++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 59 insertions(+), 10 deletions(-)

diff --git a/filter/filter.go b/filter/filter.go
index 2822ea0..6ca1f72 100644
--- a/filter/filter.go
+++ b/filter/filter.go
@@ -144,6 +144,29 @@ func (c *Constructor) canAndOr() bool {
 	return len(c.filter.where) > 0 && c.filter.where[len(c.filter.where)-1].canAndOr()
 }
 
+// dropDangling removes a trailing sqlAnd/sqlOr node from the given list.
+func dropDangling(where []sqlNode) []sqlNode {
+	if n := len(where); n > 0 {
+		switch where[n-1].(type) {
+		case sqlAnd, sqlOr:
+			return where[:n-1]
+		}
+	}
+	return where
+}
+
+// closeParen closes the most recently opened group. If nothing was added to
+// that group then everything from start, the length that the sqlNode list had
+// before the group was opened, is removed.
+func (c *Constructor) closeParen(start int) {
+	c.filter.where = dropDangling(c.filter.where)
+	if _, ok := c.filter.where[len(c.filter.where)-1].(sqlLParen); ok {
+		c.filter.where = c.filter.where[:start]
+		return
+	}
+	c.filter.where = append(c.filter.where, sqlRParen{})
+}
+
 // StrictSwitch switches the strict mode on and off.
 func (c *Constructor) StrictSwitch() { c.strict = !c.strict }
 
@@ -257,6 +280,7 @@ func (c *Constructor) TextSearch(value string) {
 //
 // The And method implements part of the gosql.FilterConstructor interface.
 func (c *Constructor) And(nest func()) {
+	start := len(c.filter.where)
 	if c.canAndOr() {
 		c.filter.where = append(c.filter.where, sqlAnd{})
 	}
@@ -264,7 +288,7 @@ func (c *Constructor) And(nest func()) {
 	if nest != nil {
 		c.filter.where = append(c.filter.where, sqlLParen{})
 		nest()
-		c.filter.where = append(c.filter.where, sqlRParen{})
+		c.closeParen(start)
 	}
 }
 
@@ -274,6 +298,7 @@ func (c *Constructor) And(nest func()) {
 //
 // The Or method implements part of the gosql.FilterConstructor interface.
 func (c *Constructor) Or(nest func()) {
+	start := len(c.filter.where)
 	if c.canAndOr() {
 		c.filter.where = append(c.filter.where, sqlOr{})
 	}
@@ -281,7 +306,7 @@ func (c *Constructor) Or(nest func()) {
 	if nest != nil {
 		c.filter.where = append(c.filter.where, sqlLParen{})
 		nest()
-		c.filter.where = append(c.filter.where, sqlRParen{})
+		c.closeParen(start)
 	}
 }
 
@@ -356,9 +381,21 @@ func (c *Constructor) Page(page int64) {
 // If the given string is not valid FQL an error will be returned. If the Constructor
 // is in strict mode and the column keys in the FQL do not have an entry in the
 // Constructor's colmap, the UnknownColumnKeyError will be returned.
-func (c *Constructor) UnmarshalFQL(str string) error {
+func (c *Constructor) UnmarshalFQL(str string) (err error) {
 	str = strings.Trim(str, ";,") // sanitize
 
+	start := len(c.filter.where)
+	defer func() {
+		if err != nil {
+			c.filter.where = c.filter.where[:start]
+		} else if len(c.filter.where) > start {
+			c.filter.where = dropDangling(c.filter.where)
+		}
+	}()
+
+	// the lengths of the sqlNode list before each of the currently open groups
+	var groups []int
+
 	z := fql.NewTokenizer(str)
 	for {
 		tok, err := z.Next()
@@ -371,16 +408,28 @@ func (c *Constructor) UnmarshalFQL(str string) error {
 
 		switch tok {
 		case fql.LPAREN:
+			groups = append(groups, len(c.filter.where))
 			if c.canAndOr() {
 				c.filter.where = append(c.filter.where, sqlAnd{})
 			}
 			c.filter.where = append(c.filter.where, sqlLParen{})
 		case fql.RPAREN:
-			c.filter.where = append(c.filter.where, sqlRParen{})
+			c.closeParen(groups[len(groups)-1])
+			groups = groups[:len(groups)-1]
 		case fql.AND:
-			c.filter.where = append(c.filter.where, sqlAnd{})
+			if c.canAndOr() {
+				c.filter.where = append(c.filter.where, sqlAnd{})
+			}
 		case fql.OR:
-			c.filter.where = append(c.filter.where, sqlOr{})
+			if c.canAndOr() {
+				c.filter.where = append(c.filter.where, sqlOr{})
+			} else if n := len(c.filter.where); n > start {
+				// The rules between the preceding connector and this one were
+				// skipped, they and their AND make way for the OR.
+				if _, ok := c.filter.where[n-1].(sqlAnd); ok {
+					c.filter.where[n-1] = sqlOr{}
+				}
+			}
 		case fql.RULE:
 			rule := z.Rule()
 			if col, ok := c.colmap[rule.Key]; ok {
@@ -483,9 +532,9 @@ var (
 // The ToSQL method implements the gosql.Filter interface.
 func (f *filter) ToSQL(ppos int) (filterString string, params []interface{}) {
 	w := sqlWriter{p: ppos}
-	if len(f.where) > 0 {
+	if where := dropDangling(f.where); len(where) > 0 {
 		w.WriteString(" WHERE ")
-		for _, node := range f.where {
+		for _, node := range where {
 			node.write(&w)
 		}
 	}
@@ -518,9 +567,9 @@ var (
 // ToSQL implements the gosql.Filter interface.
 func (f *countFilter) ToSQL(ppos int) (filterString string, params []interface{}) {
 	w := sqlWriter{p: ppos}
-	if len(f.where) > 0 {
+	if where := dropDangling(f.where); len(where) > 0 {
 		w.WriteString(" WHERE ")
-		for _, node := range f.where {
+		for _, node := range where {
 			node.write(&w)
 		}
 	}
-- 
2.43.0


From 3d58f89798a9e59f6ded9a6e47a43d913126c8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 04/88] fix: generator: do not invoke the ErrorInfoHandler when
 a plain exec succeeded

---
 internal/generator/generator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index b931130..2a74c82 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -208,8 +208,11 @@ func buildQueryCode(g *generator, qs *analysis.QueryStruct) {
 		buildQueryCallExec(g, qs)
 		if qs.RowsAffected != nil {
 			buildQueryResultRowsAffected(g, qs)
-		} else {
+		} else if qs.HasNoErrorInfoHandler() {
 			g.queryResultStmt = makeErrorReturnStmt(g, qs, GO.Ident{"err"})
+		} else {
+			// the ErrorInfoHandler should be invoked only if there was an error
+			g.queryResultStmt = GO.StmtList{makeErrorIfStmt(g, qs), GO.ReturnStmt{GO.Ident{"nil"}}}
 		}
 	} else if qs.IsSingleOutput() {
 		buildQueryCallQueryRow(g, qs)
-- 
2.43.0


From d9734f8ffe7039853a7b3f5534b817b916f90d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:02 +0000
Subject: [PATCH 05/88] fix: analysis: recognise error handlers and
 after-scanners by method set (interfaces, pointers, promoted methods)

---
 internal/analysis/analysis.go    |  6 ++++++
 internal/typesutil/predicates.go | 35 +++++++++++++-------------------
 2 files changed, 20 insertions(+), 21 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index f31d8fa..6a79c29 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -2160,6 +2160,9 @@ func isBoolType(typ types.Type) bool {
 
 // isErrorHandler reports whether or not the given type implements the gosql.ErrorHandler interface.
 func isErrorHandler(typ types.Type) bool {
+	if ptr, ok := typ.(*types.Pointer); ok && !types.IsInterface(ptr.Elem()) {
+		typ = ptr.Elem()
+	}
 	named, ok := typ.(*types.Named)
 	if !ok {
 		return false
@@ -2169,6 +2172,9 @@ func isErrorHandler(typ types.Type) bool {
 
 // isErrorInfoHandler reports whether or not the given type implements the gosql.ErrorInfoHandler interface.
 func isErrorInfoHandler(typ types.Type) bool {
+	if ptr, ok := typ.(*types.Pointer); ok && !types.IsInterface(ptr.Elem()) {
+		typ = ptr.Elem()
+	}
 	named, ok := typ.(*types.Named)
 	if !ok {
 		return false
diff --git a/internal/typesutil/predicates.go b/internal/typesutil/predicates.go
index d23c295..2b063a6 100644
--- a/internal/typesutil/predicates.go
+++ b/internal/typesutil/predicates.go
@@ -257,29 +257,28 @@ func IsDirective(ident string, typ types.Type) bool {
 	return ok && st.NumFields() == 1 && st.Field(0).Name() == "_isdir"
 }
 
+// lookupMethod returns the signature of the named type's method with the given name,
+// which may be declared by the type itself, by the type's underlying interface, or it
+// may be promoted from an embedded field. If no such method exists it returns nil.
+func lookupMethod(named *types.Named, name string) *types.Signature {
+	obj, _, _ := types.LookupFieldOrMethod(named, true, named.Obj().Pkg(), name)
+	if m, ok := obj.(*types.Func); ok {
+		return m.Type().(*types.Signature)
+	}
+	return nil
+}
+
 // ImplementsAfterScanner reports whether or not the given named type
 // implements the "gosql.AfterScanner" interface.
 func ImplementsAfterScanner(named *types.Named) bool {
-	var sig *types.Signature
-	for i := 0; i < named.NumMethods(); i++ {
-		if m := named.Method(i); m.Name() == "AfterScan" {
-			sig = m.Type().(*types.Signature)
-			break
-		}
-	}
+	sig := lookupMethod(named, "AfterScan")
 	return sig != nil && sig.Params().Len() == 0 && sig.Results().Len() == 0
 }
 
 // ImplementsErrorHandler reports whether or not the given named type
 // implements the "gosql.ErrorHandler" interface.
 func ImplementsErrorHandler(named *types.Named) bool {
-	var sig *types.Signature
-	for i := 0; i < named.NumMethods(); i++ {
-		if m := named.Method(i); m.Name() == "HandleError" {
-			sig = m.Type().(*types.Signature)
-			break
-		}
-	}
+	sig := lookupMethod(named, "HandleError")
 	if sig == nil || sig.Params().Len() != 1 || sig.Results().Len() != 1 {
 		return false
 	}
@@ -290,13 +289,7 @@ func ImplementsErrorHandler(named *types.Named) bool {
 // ImplementsErrorInfoHandler reports whether or not the given named type
 // implements the "gosql.ErrorInfoHandler" interface.
 func ImplementsErrorInfoHandler(named *types.Named) bool {
-	var sig *types.Signature
-	for i := 0; i < named.NumMethods(); i++ {
-		if m := named.Method(i); m.Name() == "HandleErrorInfo" {
-			sig = m.Type().(*types.Signature)
-			break
-		}
-	}
+	sig := lookupMethod(named, "HandleErrorInfo")
 	if sig == nil || sig.Params().Len() != 1 || sig.Results().Len() != 1 {
 		return false
 	}
-- 
2.43.0


From af4a15e587a131fff1c8f9b9a9201a0ee7f2cd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:53 +0000
Subject: [PATCH 06/88] fix: generator: keep the RETURNING clause of an UPDATE
 over a slice

---
 internal/generator/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 2a74c82..bb0b456 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1013,7 +1013,7 @@ func buildSQLUpdateStatement(g *generator, qs *analysis.QueryStruct) {
 
 		columns := append(g.inputCols, g.inputColsPKeys...)
 		alias := SQL.ValuesListAliasPartial{Alias: "x", Columns: columns}
-		tail := SQL.UpdateTail{Where: g.whereClause}
+		tail := SQL.UpdateTail{Where: g.whereClause, Returning: SQL.ReturningClause(g.outputVals)}
 		g.sqlTailNode = SQL.NodeList{alias, tail}
 		g.sqlMainNode = stmt
 		return
-- 
2.43.0


From 6a31e1fcecddc3d5a44b0360e1cad9083bf27513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:35 +0000
Subject: [PATCH 07/88] fix: scanners reject sources they cannot handle, copy
 the driver's memory and reset the destination on NULL

---
 pgsql/any.go          |  3 +++
 pgsql/box.go          |  1 +
 pgsql/char.go         |  8 ++++++++
 pgsql/chararr.go      |  1 +
 pgsql/cidr.go         |  3 +++
 pgsql/convert_util.go |  8 +++++++-
 pgsql/date.go         | 12 +++++++++---
 pgsql/daterange.go    |  1 +
 pgsql/hstore.go       |  3 +++
 pgsql/hstorearr.go    |  3 +++
 pgsql/inet.go         |  6 ++++++
 pgsql/int4range.go    | 12 ++++++++++++
 pgsql/int8range.go    | 12 ++++++++++++
 pgsql/json.go         | 22 ++++++++++++++++++++--
 pgsql/line.go         |  1 +
 pgsql/linearr.go      |  1 +
 pgsql/lseg.go         |  1 +
 pgsql/lsegarr.go      |  1 +
 pgsql/macaddr.go      |  3 +++
 pgsql/money.go        |  1 +
 pgsql/numrange.go     | 12 ++++++++++++
 pgsql/point.go        |  1 +
 pgsql/pointarr.go     |  1 +
 pgsql/time.go         | 10 +++++++++-
 pgsql/timetz.go       | 10 +++++++++-
 pgsql/tsrange.go      |  1 +
 pgsql/tstzrange.go    |  1 +
 pgsql/uuid.go         |  1 +
 pgsql/varbit.go       |  1 +
 pgsql/xml.go          | 22 ++++++++++++++++++++--
 30 files changed, 153 insertions(+), 10 deletions(-)

diff --git a/pgsql/any.go b/pgsql/any.go
index ade61c8..fb43f73 100644
--- a/pgsql/any.go
+++ b/pgsql/any.go
@@ -15,6 +15,9 @@ type anyToEmptyInterface struct {
 }
 
 func (v anyToEmptyInterface) Scan(src interface{}) error {
+	if b, ok := src.([]byte); ok {
+		src = append([]byte{}, b...)
+	}
 	*v.val = src
 	return nil
 }
diff --git a/pgsql/box.go b/pgsql/box.go
index 361f6f0..d9707dc 100644
--- a/pgsql/box.go
+++ b/pgsql/box.go
@@ -45,6 +45,7 @@ func (v boxToFloat64Array2Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2][2]float64{}
 		return nil
 	}
 
diff --git a/pgsql/char.go b/pgsql/char.go
index 18ff44b..dfa887a 100644
--- a/pgsql/char.go
+++ b/pgsql/char.go
@@ -48,6 +48,10 @@ func (v charToByte) Scan(src interface{}) error {
 		if len(data) > 0 {
 			*v.val = data[0]
 		}
+	case nil:
+		*v.val = 0
+	default:
+		return srcerror(src)
 	}
 	return nil
 }
@@ -74,6 +78,10 @@ func (v charToRune) Scan(src interface{}) error {
 		if len(data) > 0 {
 			*v.val, _ = utf8.DecodeRune(data)
 		}
+	case nil:
+		*v.val = 0
+	default:
+		return srcerror(src)
 	}
 	return nil
 }
diff --git a/pgsql/chararr.go b/pgsql/chararr.go
index c0992be..2dba0d5 100644
--- a/pgsql/chararr.go
+++ b/pgsql/chararr.go
@@ -94,6 +94,7 @@ func (v charArrayToString) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = ""
 		return nil
 	}
 
diff --git a/pgsql/cidr.go b/pgsql/cidr.go
index 3534f53..5cebcb9 100644
--- a/pgsql/cidr.go
+++ b/pgsql/cidr.go
@@ -40,7 +40,10 @@ func (v cidrToIPNet) Scan(src interface{}) error {
 	case string:
 		str = s
 	case nil:
+		*v.val = net.IPNet{}
 		return nil
+	default:
+		return srcerror(src)
 	}
 
 	_, ipnet, err := net.ParseCIDR(str)
diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index 2a8fd1a..a103899 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -3,6 +3,7 @@ package pgsql
 import (
 	"bytes"
 	"encoding/hex"
+	"fmt"
 	"time"
 )
 
@@ -16,6 +17,11 @@ const (
 
 var noZone = time.FixedZone("", 0)
 
+// srcerror reports a source of a type that a scanner does not handle.
+func srcerror(src interface{}) error {
+	return fmt.Errorf("gosql/pgsql: unsupported source type %T", src)
+}
+
 func srcbytes(src interface{}) ([]byte, error) {
 	switch src := src.(type) {
 	case []byte:
@@ -25,7 +31,7 @@ func srcbytes(src interface{}) ([]byte, error) {
 	case nil:
 		return nil, nil
 	}
-	return nil, nil // TODO error
+	return nil, srcerror(src)
 }
 
 // parse as single bytes
diff --git a/pgsql/date.go b/pgsql/date.go
index 228712c..6ac5749 100644
--- a/pgsql/date.go
+++ b/pgsql/date.go
@@ -27,8 +27,10 @@ type dateToTime struct {
 func (v dateToTime) Scan(src interface{}) error {
 	if t, ok := src.(time.Time); ok {
 		*v.val = t.In(time.UTC)
-	} else {
+	} else if src == nil {
 		*v.val = time.Time{}
+	} else {
+		return srcerror(src)
 	}
 	return nil
 }
@@ -40,8 +42,10 @@ type dateToString struct {
 func (v dateToString) Scan(src interface{}) error {
 	if t, ok := src.(time.Time); ok {
 		*v.val = t.Format(dateLayout)
-	} else {
+	} else if src == nil {
 		*v.val = ""
+	} else {
+		return srcerror(src)
 	}
 	return nil
 }
@@ -53,8 +57,10 @@ type dateToByteSlice struct {
 func (v dateToByteSlice) Scan(src interface{}) error {
 	if t, ok := src.(time.Time); ok {
 		*v.val = []byte(t.Format(dateLayout))
-	} else {
+	} else if src == nil {
 		*v.val = nil
+	} else {
+		return srcerror(src)
 	}
 	return nil
 }
diff --git a/pgsql/daterange.go b/pgsql/daterange.go
index 22d6e25..5256048 100644
--- a/pgsql/daterange.go
+++ b/pgsql/daterange.go
@@ -72,6 +72,7 @@ func (v dateRangeToTimeArray2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]time.Time{}
 		return nil
 	}
 
diff --git a/pgsql/hstore.go b/pgsql/hstore.go
index 4797905..225246d 100644
--- a/pgsql/hstore.go
+++ b/pgsql/hstore.go
@@ -68,6 +68,7 @@ func (v hstoreToStringMap) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
@@ -122,6 +123,7 @@ func (v hstoreToStringPtrMap) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
@@ -177,6 +179,7 @@ func (v hstoreToNullStringMap) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/hstorearr.go b/pgsql/hstorearr.go
index 3cd6860..2a1a943 100644
--- a/pgsql/hstorearr.go
+++ b/pgsql/hstorearr.go
@@ -98,6 +98,7 @@ func (v hstoreArrayToStringMapSlice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
@@ -201,6 +202,7 @@ func (v hstoreArrayToStringPtrMapSlice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
@@ -305,6 +307,7 @@ func (v hstoreArrayToNullStringMapSlice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/inet.go b/pgsql/inet.go
index f4ae042..42f88fb 100644
--- a/pgsql/inet.go
+++ b/pgsql/inet.go
@@ -49,7 +49,10 @@ func (v inetToIPNet) Scan(src interface{}) error {
 	case string:
 		str = s
 	case nil:
+		*v.val = net.IPNet{}
 		return nil
+	default:
+		return srcerror(src)
 	}
 
 	_, ipnet, err := net.ParseCIDR(str)
@@ -83,7 +86,10 @@ func (v inetToIP) Scan(src interface{}) error {
 	case string:
 		str = s
 	case nil:
+		*v.val = nil
 		return nil
+	default:
+		return srcerror(src)
 	}
 
 	*v.val = net.ParseIP(str)
diff --git a/pgsql/int4range.go b/pgsql/int4range.go
index 9d912d3..07d6592 100644
--- a/pgsql/int4range.go
+++ b/pgsql/int4range.go
@@ -148,6 +148,7 @@ func (v int4RangeToIntArray2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int{}
 		return nil
 	}
 
@@ -191,6 +192,7 @@ func (v int4RangeToInt8Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int8{}
 		return nil
 	}
 
@@ -234,6 +236,7 @@ func (v int4RangeToInt16Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int16{}
 		return nil
 	}
 
@@ -277,6 +280,7 @@ func (v int4RangeToInt32Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int32{}
 		return nil
 	}
 
@@ -320,6 +324,7 @@ func (v int4RangeToInt64Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int64{}
 		return nil
 	}
 
@@ -363,6 +368,7 @@ func (v int4RangeToUintArray2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint{}
 		return nil
 	}
 
@@ -406,6 +412,7 @@ func (v int4RangeToUint8Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint8{}
 		return nil
 	}
 
@@ -449,6 +456,7 @@ func (v int4RangeToUint16Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint16{}
 		return nil
 	}
 
@@ -492,6 +500,7 @@ func (v int4RangeToUint32Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint32{}
 		return nil
 	}
 
@@ -535,6 +544,7 @@ func (v int4RangeToUint64Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint64{}
 		return nil
 	}
 
@@ -578,6 +588,7 @@ func (v int4RangeToFloat32Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]float32{}
 		return nil
 	}
 
@@ -621,6 +632,7 @@ func (v int4RangeToFloat64Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]float64{}
 		return nil
 	}
 
diff --git a/pgsql/int8range.go b/pgsql/int8range.go
index fff0d7d..aea0f72 100644
--- a/pgsql/int8range.go
+++ b/pgsql/int8range.go
@@ -148,6 +148,7 @@ func (v int8RangeToIntArray2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int{}
 		return nil
 	}
 
@@ -191,6 +192,7 @@ func (v int8RangeToInt8Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int8{}
 		return nil
 	}
 
@@ -234,6 +236,7 @@ func (v int8RangeToInt16Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int16{}
 		return nil
 	}
 
@@ -277,6 +280,7 @@ func (v int8RangeToInt32Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int32{}
 		return nil
 	}
 
@@ -320,6 +324,7 @@ func (v int8RangeToInt64Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int64{}
 		return nil
 	}
 
@@ -363,6 +368,7 @@ func (v int8RangeToUintArray2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint{}
 		return nil
 	}
 
@@ -406,6 +412,7 @@ func (v int8RangeToUint8Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint8{}
 		return nil
 	}
 
@@ -449,6 +456,7 @@ func (v int8RangeToUint16Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint16{}
 		return nil
 	}
 
@@ -492,6 +500,7 @@ func (v int8RangeToUint32Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint32{}
 		return nil
 	}
 
@@ -535,6 +544,7 @@ func (v int8RangeToUint64Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint64{}
 		return nil
 	}
 
@@ -578,6 +588,7 @@ func (v int8RangeToFloat32Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]float32{}
 		return nil
 	}
 
@@ -621,6 +632,7 @@ func (v int8RangeToFloat64Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]float64{}
 		return nil
 	}
 
diff --git a/pgsql/json.go b/pgsql/json.go
index 4f8138c..d97b2b6 100644
--- a/pgsql/json.go
+++ b/pgsql/json.go
@@ -4,6 +4,7 @@ import (
 	"database/sql"
 	"database/sql/driver"
 	"encoding/json"
+	"reflect"
 )
 
 // JSON returns a value that implements both the driver.Valuer and sql.Scanner
@@ -28,8 +29,25 @@ func (j jsontype) Value() (driver.Value, error) {
 }
 
 func (j jsontype) Scan(src interface{}) error {
-	if b, ok := src.([]byte); ok {
-		return json.Unmarshal(b, j.val)
+	data, err := srcbytes(src)
+	if err != nil {
+		return err
 	}
+
+	// the value replaces whatever the destination holds
+	dst := reflect.ValueOf(j.val)
+	if dst.Kind() != reflect.Ptr || dst.IsNil() {
+		if data == nil {
+			return nil
+		}
+		return json.Unmarshal(data, j.val)
+	}
+	val := reflect.New(dst.Type().Elem())
+	if data != nil {
+		if err := json.Unmarshal(data, val.Interface()); err != nil {
+			return err
+		}
+	}
+	dst.Elem().Set(val.Elem())
 	return nil
 }
diff --git a/pgsql/line.go b/pgsql/line.go
index afabe56..a01893b 100644
--- a/pgsql/line.go
+++ b/pgsql/line.go
@@ -42,6 +42,7 @@ func (v lineToFloat64Array3) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [3]float64{}
 		return nil
 	}
 
diff --git a/pgsql/linearr.go b/pgsql/linearr.go
index 5d8e7a0..1f13ae4 100644
--- a/pgsql/linearr.go
+++ b/pgsql/linearr.go
@@ -57,6 +57,7 @@ func (v lineArrayToFloat64Array3Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/lseg.go b/pgsql/lseg.go
index b25849f..3acb3e6 100644
--- a/pgsql/lseg.go
+++ b/pgsql/lseg.go
@@ -44,6 +44,7 @@ func (v lsegToFloat64Array2Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2][2]float64{}
 		return nil
 	}
 
diff --git a/pgsql/lsegarr.go b/pgsql/lsegarr.go
index e7c5a0c..5e556b0 100644
--- a/pgsql/lsegarr.go
+++ b/pgsql/lsegarr.go
@@ -59,6 +59,7 @@ func (v lsegArrayToFloat64Array2Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/macaddr.go b/pgsql/macaddr.go
index 97d9ce3..20459ab 100644
--- a/pgsql/macaddr.go
+++ b/pgsql/macaddr.go
@@ -39,7 +39,10 @@ func (v macAddrToHardwareAddr) Scan(src interface{}) error {
 	case string:
 		str = s
 	case nil:
+		*v.val = nil
 		return nil
+	default:
+		return srcerror(src)
 	}
 
 	mac, err := net.ParseMAC(str)
diff --git a/pgsql/money.go b/pgsql/money.go
index ca05195..7ad9796 100644
--- a/pgsql/money.go
+++ b/pgsql/money.go
@@ -35,6 +35,7 @@ func (v moneyToInt64) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = 0
 		return nil
 	}
 
diff --git a/pgsql/numrange.go b/pgsql/numrange.go
index 407a48b..ba6aaf4 100644
--- a/pgsql/numrange.go
+++ b/pgsql/numrange.go
@@ -148,6 +148,7 @@ func (v numRangeToIntArray2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int{}
 		return nil
 	}
 
@@ -191,6 +192,7 @@ func (v numRangeToInt8Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int8{}
 		return nil
 	}
 
@@ -234,6 +236,7 @@ func (v numRangeToInt16Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int16{}
 		return nil
 	}
 
@@ -277,6 +280,7 @@ func (v numRangeToInt32Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int32{}
 		return nil
 	}
 
@@ -320,6 +324,7 @@ func (v numRangeToInt64Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]int64{}
 		return nil
 	}
 
@@ -363,6 +368,7 @@ func (v numRangeToUintArray2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint{}
 		return nil
 	}
 
@@ -406,6 +412,7 @@ func (v numRangeToUint8Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint8{}
 		return nil
 	}
 
@@ -449,6 +456,7 @@ func (v numRangeToUint16Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint16{}
 		return nil
 	}
 
@@ -492,6 +500,7 @@ func (v numRangeToUint32Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint32{}
 		return nil
 	}
 
@@ -535,6 +544,7 @@ func (v numRangeToUint64Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]uint64{}
 		return nil
 	}
 
@@ -578,6 +588,7 @@ func (v numRangeToFloat32Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]float32{}
 		return nil
 	}
 
@@ -621,6 +632,7 @@ func (v numRangeToFloat64Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]float64{}
 		return nil
 	}
 
diff --git a/pgsql/point.go b/pgsql/point.go
index 142310f..62a036d 100644
--- a/pgsql/point.go
+++ b/pgsql/point.go
@@ -40,6 +40,7 @@ func (v pointToFloat64Array2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]float64{}
 		return nil
 	}
 
diff --git a/pgsql/pointarr.go b/pgsql/pointarr.go
index 79aebda..961f867 100644
--- a/pgsql/pointarr.go
+++ b/pgsql/pointarr.go
@@ -55,6 +55,7 @@ func (v pointArrayToFloat64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/time.go b/pgsql/time.go
index eab6d66..aad7ebb 100644
--- a/pgsql/time.go
+++ b/pgsql/time.go
@@ -27,6 +27,10 @@ func (v timeToString) Scan(src interface{}) error {
 		*v.val = string(data)
 	case string:
 		*v.val = data
+	case nil:
+		*v.val = ""
+	default:
+		return srcerror(src)
 	}
 	return nil
 }
@@ -40,9 +44,13 @@ func (v timeToByteSlice) Scan(src interface{}) error {
 	case time.Time:
 		*v.val = []byte(data.Format(timeLayout))
 	case []byte:
-		*v.val = data
+		*v.val = append([]byte{}, data...)
 	case string:
 		*v.val = []byte(data)
+	case nil:
+		*v.val = nil
+	default:
+		return srcerror(src)
 	}
 	return nil
 }
diff --git a/pgsql/timetz.go b/pgsql/timetz.go
index 88cc3ea..75e0964 100644
--- a/pgsql/timetz.go
+++ b/pgsql/timetz.go
@@ -27,6 +27,10 @@ func (v timetzToString) Scan(src interface{}) error {
 		*v.val = string(data)
 	case string:
 		*v.val = data
+	case nil:
+		*v.val = ""
+	default:
+		return srcerror(src)
 	}
 	return nil
 }
@@ -40,9 +44,13 @@ func (v timetzToByteSlice) Scan(src interface{}) error {
 	case time.Time:
 		*v.val = []byte(data.Format(timetzLayout))
 	case []byte:
-		*v.val = data
+		*v.val = append([]byte{}, data...)
 	case string:
 		*v.val = []byte(data)
+	case nil:
+		*v.val = nil
+	default:
+		return srcerror(src)
 	}
 	return nil
 }
diff --git a/pgsql/tsrange.go b/pgsql/tsrange.go
index 3171c1b..4d55649 100644
--- a/pgsql/tsrange.go
+++ b/pgsql/tsrange.go
@@ -43,6 +43,7 @@ func (v tsRangeToTimeArray2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]time.Time{}
 		return nil
 	}
 
diff --git a/pgsql/tstzrange.go b/pgsql/tstzrange.go
index 6e6ac60..2479cb8 100644
--- a/pgsql/tstzrange.go
+++ b/pgsql/tstzrange.go
@@ -43,6 +43,7 @@ func (v tstzRangeToTimeArray2) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [2]time.Time{}
 		return nil
 	}
 
diff --git a/pgsql/uuid.go b/pgsql/uuid.go
index 1ed4368..88e990c 100644
--- a/pgsql/uuid.go
+++ b/pgsql/uuid.go
@@ -32,6 +32,7 @@ func (v uuidToByteArray16) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = [16]byte{}
 		return nil
 	}
 
diff --git a/pgsql/varbit.go b/pgsql/varbit.go
index 7bdf237..a3904c4 100644
--- a/pgsql/varbit.go
+++ b/pgsql/varbit.go
@@ -54,6 +54,7 @@ func (v varBitToInt64) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
+		*v.val = 0
 		return nil
 	}
 
diff --git a/pgsql/xml.go b/pgsql/xml.go
index dac30b4..1f3f144 100644
--- a/pgsql/xml.go
+++ b/pgsql/xml.go
@@ -4,6 +4,7 @@ import (
 	"database/sql"
 	"database/sql/driver"
 	"encoding/xml"
+	"reflect"
 )
 
 // XML returns a value that implements both the driver.Valuer and sql.Scanner
@@ -21,9 +22,26 @@ type xmltype struct {
 }
 
 func (x xmltype) Scan(src interface{}) error {
-	if b, ok := src.([]byte); ok {
-		return xml.Unmarshal(b, x.val)
+	data, err := srcbytes(src)
+	if err != nil {
+		return err
 	}
+
+	// the value replaces whatever the destination holds
+	dst := reflect.ValueOf(x.val)
+	if dst.Kind() != reflect.Ptr || dst.IsNil() {
+		if data == nil {
+			return nil
+		}
+		return xml.Unmarshal(data, x.val)
+	}
+	val := reflect.New(dst.Type().Elem())
+	if data != nil {
+		if err := xml.Unmarshal(data, val.Interface()); err != nil {
+			return err
+		}
+	}
+	dst.Elem().Set(val.Elem())
 	return nil
 }
 
-- 
2.43.0


From 1bbb336c3f34448e0553b2ad80eb66042b2539cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:56 +0000
Subject: [PATCH 08/88] fix: range array scanners reset the destination, not
 their own pointer, on NULL

---
 pgsql/daterangearr.go |  2 +-
 pgsql/int4rangearr.go | 24 ++++++++++++------------
 pgsql/int8rangearr.go | 24 ++++++++++++------------
 3 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/pgsql/daterangearr.go b/pgsql/daterangearr.go
index fe6d628..b8dac6f 100644
--- a/pgsql/daterangearr.go
+++ b/pgsql/daterangearr.go
@@ -59,7 +59,7 @@ func (v dateRangeArrayToTimeArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/int4rangearr.go b/pgsql/int4rangearr.go
index 8732f6a..41d8679 100644
--- a/pgsql/int4rangearr.go
+++ b/pgsql/int4rangearr.go
@@ -160,7 +160,7 @@ func (v int4RangeArrayToIntArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -223,7 +223,7 @@ func (v int4RangeArrayToInt8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -286,7 +286,7 @@ func (v int4RangeArrayToInt16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -349,7 +349,7 @@ func (v int4RangeArrayToInt32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -412,7 +412,7 @@ func (v int4RangeArrayToInt64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -475,7 +475,7 @@ func (v int4RangeArrayToUintArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -538,7 +538,7 @@ func (v int4RangeArrayToUint8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -601,7 +601,7 @@ func (v int4RangeArrayToUint16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -664,7 +664,7 @@ func (v int4RangeArrayToUint32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -727,7 +727,7 @@ func (v int4RangeArrayToUint64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -790,7 +790,7 @@ func (v int4RangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -853,7 +853,7 @@ func (v int4RangeArrayToFloat64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/int8rangearr.go b/pgsql/int8rangearr.go
index 416f928..538e7e1 100644
--- a/pgsql/int8rangearr.go
+++ b/pgsql/int8rangearr.go
@@ -160,7 +160,7 @@ func (v int8RangeArrayToIntArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -223,7 +223,7 @@ func (v int8RangeArrayToInt8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -286,7 +286,7 @@ func (v int8RangeArrayToInt16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -349,7 +349,7 @@ func (v int8RangeArrayToInt32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -412,7 +412,7 @@ func (v int8RangeArrayToInt64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -475,7 +475,7 @@ func (v int8RangeArrayToUintArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -538,7 +538,7 @@ func (v int8RangeArrayToUint8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -601,7 +601,7 @@ func (v int8RangeArrayToUint16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -664,7 +664,7 @@ func (v int8RangeArrayToUint32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -727,7 +727,7 @@ func (v int8RangeArrayToUint64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -790,7 +790,7 @@ func (v int8RangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -853,7 +853,7 @@ func (v int8RangeArrayToFloat64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
-- 
2.43.0


From eb95dae8181a11b972a7aeceb8258a555cbecc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:56 +0000
Subject: [PATCH 09/88] fix: int8[] into []uint parses 64 bits

---
 pgsql/int8arr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgsql/int8arr.go b/pgsql/int8arr.go
index 5999c24..29e119d 100644
--- a/pgsql/int8arr.go
+++ b/pgsql/int8arr.go
@@ -409,7 +409,7 @@ func (v int8ArrayToUintSlice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	uints := make([]uint, len(elems))
 	for i := 0; i < len(elems); i++ {
-		u64, err := strconv.ParseUint(string(elems[i]), 10, 32)
+		u64, err := strconv.ParseUint(string(elems[i]), 10, 64)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 0ac05674185227b0d7549603430ad84fff0cde9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:56 +0000
Subject: [PATCH 10/88] fix: numrange converters keep fractions of floats

---
 pgsql/numrange.go    | 20 ++++++++++----------
 pgsql/numrangearr.go | 44 ++++++++++++++++++++++----------------------
 2 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/pgsql/numrange.go b/pgsql/numrange.go
index ba6aaf4..b26fdd1 100644
--- a/pgsql/numrange.go
+++ b/pgsql/numrange.go
@@ -572,9 +572,9 @@ type numRangeFromFloat32Array2 struct {
 
 func (v numRangeFromFloat32Array2) Value() (driver.Value, error) {
 	out := []byte{'['}
-	out = strconv.AppendInt(out, int64(v.val[0]), 10)
+	out = strconv.AppendFloat(out, float64(v.val[0]), 'f', -1, 32)
 	out = append(out, ',')
-	out = strconv.AppendInt(out, int64(v.val[1]), 10)
+	out = strconv.AppendFloat(out, float64(v.val[1]), 'f', -1, 32)
 	out = append(out, ')')
 	return out, nil
 }
@@ -592,15 +592,15 @@ func (v numRangeToFloat32Array2) Scan(src interface{}) error {
 		return nil
 	}
 
-	var lo, hi int64
+	var lo, hi float64
 	elems := pgParseRange(data)
 	if len(elems[0]) > 0 {
-		if lo, err = strconv.ParseInt(string(elems[0]), 10, 64); err != nil {
+		if lo, err = strconv.ParseFloat(string(elems[0]), 32); err != nil {
 			return err
 		}
 	}
 	if len(elems[1]) > 0 {
-		if hi, err = strconv.ParseInt(string(elems[1]), 10, 64); err != nil {
+		if hi, err = strconv.ParseFloat(string(elems[1]), 32); err != nil {
 			return err
 		}
 	}
@@ -616,9 +616,9 @@ type numRangeFromFloat64Array2 struct {
 
 func (v numRangeFromFloat64Array2) Value() (driver.Value, error) {
 	out := []byte{'['}
-	out = strconv.AppendInt(out, int64(v.val[0]), 10)
+	out = strconv.AppendFloat(out, float64(v.val[0]), 'f', -1, 64)
 	out = append(out, ',')
-	out = strconv.AppendInt(out, int64(v.val[1]), 10)
+	out = strconv.AppendFloat(out, float64(v.val[1]), 'f', -1, 64)
 	out = append(out, ')')
 	return out, nil
 }
@@ -636,15 +636,15 @@ func (v numRangeToFloat64Array2) Scan(src interface{}) error {
 		return nil
 	}
 
-	var lo, hi int64
+	var lo, hi float64
 	elems := pgParseRange(data)
 	if len(elems[0]) > 0 {
-		if lo, err = strconv.ParseInt(string(elems[0]), 10, 64); err != nil {
+		if lo, err = strconv.ParseFloat(string(elems[0]), 64); err != nil {
 			return err
 		}
 	}
 	if len(elems[1]) > 0 {
-		if hi, err = strconv.ParseInt(string(elems[1]), 10, 64); err != nil {
+		if hi, err = strconv.ParseFloat(string(elems[1]), 64); err != nil {
 			return err
 		}
 	}
diff --git a/pgsql/numrangearr.go b/pgsql/numrangearr.go
index 81557f0..c0c8b8b 100644
--- a/pgsql/numrangearr.go
+++ b/pgsql/numrangearr.go
@@ -160,7 +160,7 @@ func (v numRangeArrayToIntArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -223,7 +223,7 @@ func (v numRangeArrayToInt8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -286,7 +286,7 @@ func (v numRangeArrayToInt16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -349,7 +349,7 @@ func (v numRangeArrayToInt32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -412,7 +412,7 @@ func (v numRangeArrayToInt64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -475,7 +475,7 @@ func (v numRangeArrayToUintArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -538,7 +538,7 @@ func (v numRangeArrayToUint8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -601,7 +601,7 @@ func (v numRangeArrayToUint16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -664,7 +664,7 @@ func (v numRangeArrayToUint32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -727,7 +727,7 @@ func (v numRangeArrayToUint64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -771,9 +771,9 @@ func (v numRangeArrayFromFloat32Array2Slice) Value() (driver.Value, error) {
 
 	for _, a := range v.val {
 		out = append(out, '"', '[')
-		out = strconv.AppendInt(out, int64(a[0]), 10)
+		out = strconv.AppendFloat(out, float64(a[0]), 'f', -1, 32)
 		out = append(out, ',')
-		out = strconv.AppendInt(out, int64(a[1]), 10)
+		out = strconv.AppendFloat(out, float64(a[1]), 'f', -1, 32)
 		out = append(out, ')', '"', ',')
 	}
 
@@ -790,7 +790,7 @@ func (v numRangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -798,15 +798,15 @@ func (v numRangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 	ranges := make([][2]float32, len(elems))
 
 	for i, elem := range elems {
-		var lo, hi int64
+		var lo, hi float64
 		arr := pgParseRange(elem)
 		if len(arr[0]) > 0 {
-			if lo, err = strconv.ParseInt(string(arr[0]), 10, 32); err != nil {
+			if lo, err = strconv.ParseFloat(string(arr[0]), 32); err != nil {
 				return err
 			}
 		}
 		if len(arr[1]) > 0 {
-			if hi, err = strconv.ParseInt(string(arr[1]), 10, 32); err != nil {
+			if hi, err = strconv.ParseFloat(string(arr[1]), 32); err != nil {
 				return err
 			}
 		}
@@ -834,9 +834,9 @@ func (v numRangeArrayFromFloat64Array2Slice) Value() (driver.Value, error) {
 
 	for _, a := range v.val {
 		out = append(out, '"', '[')
-		out = strconv.AppendInt(out, int64(a[0]), 10)
+		out = strconv.AppendFloat(out, float64(a[0]), 'f', -1, 64)
 		out = append(out, ',')
-		out = strconv.AppendInt(out, int64(a[1]), 10)
+		out = strconv.AppendFloat(out, float64(a[1]), 'f', -1, 64)
 		out = append(out, ')', '"', ',')
 	}
 
@@ -853,7 +853,7 @@ func (v numRangeArrayToFloat64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -861,15 +861,15 @@ func (v numRangeArrayToFloat64Array2Slice) Scan(src interface{}) error {
 	ranges := make([][2]float64, len(elems))
 
 	for i, elem := range elems {
-		var lo, hi int64
+		var lo, hi float64
 		arr := pgParseRange(elem)
 		if len(arr[0]) > 0 {
-			if lo, err = strconv.ParseInt(string(arr[0]), 10, 64); err != nil {
+			if lo, err = strconv.ParseFloat(string(arr[0]), 64); err != nil {
 				return err
 			}
 		}
 		if len(arr[1]) > 0 {
-			if hi, err = strconv.ParseInt(string(arr[1]), 10, 64); err != nil {
+			if hi, err = strconv.ParseFloat(string(arr[1]), 64); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From 32c3733bc70e32967604954526e882760ecc6553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:56 +0000
Subject: [PATCH 11/88] fix: bytea[], macaddr[] and cidr[] converters handle
 NULL elements

---
 pgsql/byteaarr.go   | 18 ++++++++++++++++++
 pgsql/cidrarr.go    |  7 +++++++
 pgsql/macaddrarr.go |  7 +++++++
 3 files changed, 32 insertions(+)

diff --git a/pgsql/byteaarr.go b/pgsql/byteaarr.go
index 6773d7b..4b30b91 100644
--- a/pgsql/byteaarr.go
+++ b/pgsql/byteaarr.go
@@ -4,6 +4,7 @@ import (
 	"database/sql"
 	"database/sql/driver"
 	"encoding/hex"
+	"fmt"
 )
 
 // ByteaArrayFromByteSliceSlice returns a driver.Valuer that produces a PostgreSQL bytea[] from the given Go [][]byte.
@@ -41,6 +42,11 @@ func (v byteaArrayFromByteSliceSlice) Value() (driver.Value, error) {
 	out[0] = '{'
 
 	for i := 0; i < len(v.val); i++ {
+		if v.val[i] == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		}
+
 		out = append(out, '"', '\\', '\\', 'x')
 
 		dst := make([]byte, hex.EncodedLen(len(v.val[i])))
@@ -71,6 +77,12 @@ func (v byteaArrayToByteSliceSlice) Scan(src interface{}) error {
 	out := make([][]byte, len(elems))
 	for i := 0; i < len(elems); i++ {
 		src := elems[i]
+		if len(src) > 0 && src[0] == 'N' { // NULL
+			continue
+		}
+		if len(src) < 5 {
+			return fmt.Errorf("gosql/pgsql: bad bytea array element %q", src)
+		}
 
 		// drop the initial "\\x and the last "
 		src = src[4 : len(src)-1]
@@ -133,6 +145,12 @@ func (v byteaArrayToStringSlice) Scan(src interface{}) error {
 	out := make([]string, len(elems))
 	for i := 0; i < len(elems); i++ {
 		src := elems[i]
+		if len(src) > 0 && src[0] == 'N' { // NULL
+			continue
+		}
+		if len(src) < 5 {
+			return fmt.Errorf("gosql/pgsql: bad bytea array element %q", src)
+		}
 
 		// drop the initial "\\x and the last "
 		src = src[4 : len(src)-1]
diff --git a/pgsql/cidrarr.go b/pgsql/cidrarr.go
index 5830403..6526b56 100644
--- a/pgsql/cidrarr.go
+++ b/pgsql/cidrarr.go
@@ -30,6 +30,10 @@ func (v cidrArrayFromIPNetSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for i := 0; i < len(v.val); i++ {
+		if v.val[i].IP == nil && v.val[i].Mask == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		}
 		out = append(out, []byte(v.val[i].String())...)
 		out = append(out, ',')
 	}
@@ -54,6 +58,9 @@ func (v cidrArrayToIPNetSlice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(data)
 	ipnets := make([]net.IPNet, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if string(elems[i]) == `NULL` {
+			continue
+		}
 		_, ipnet, err := net.ParseCIDR(string(elems[i]))
 		if err != nil {
 			return err
diff --git a/pgsql/macaddrarr.go b/pgsql/macaddrarr.go
index 2a074c6..4a9363e 100644
--- a/pgsql/macaddrarr.go
+++ b/pgsql/macaddrarr.go
@@ -30,6 +30,10 @@ func (v macAddrArrayFromHardwareAddrSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, mac := range v.val {
+		if mac == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		}
 		out = append(out, []byte(mac.String())...)
 		out = append(out, ',')
 	}
@@ -54,6 +58,9 @@ func (v macAddrArrayToHardwareAddrSlice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(data)
 	macs := make([]net.HardwareAddr, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if string(elems[i]) == `NULL` {
+			continue
+		}
 		if macs[i], err = net.ParseMAC(string(elems[i])); err != nil {
 			return err
 		}
-- 
2.43.0


From b5b97e2f48656a5d87dc4dde067b3e0a8942c7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:56 +0000
Subject: [PATCH 12/88] fix: char[] converters keep braces, bells and
 backspaces

---
 pgsql/chararr.go | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/pgsql/chararr.go b/pgsql/chararr.go
index 2dba0d5..1f17f54 100644
--- a/pgsql/chararr.go
+++ b/pgsql/chararr.go
@@ -64,10 +64,8 @@ func (v charArrayFromString) Value() (driver.Value, error) {
 			out = append(out, '"', byte(r), '"', ',')
 		case '"', '\\':
 			out = append(out, '"', '\\', byte(r), '"', ',')
-		case ',':
-			out = append(out, '"', ',', '"', ',')
-		case '\b', '\a':
-			// TODO handle if possible
+		case ',', '{', '}':
+			out = append(out, '"', byte(r), '"', ',')
 		default:
 			if size := utf8.RuneLen(r); size > 1 {
 				p := make([]byte, size+1, size+1)
@@ -123,10 +121,8 @@ func (v charArrayFromByteSlice) Value() (driver.Value, error) {
 			out = append(out, '"', b, '"', ',')
 		case '"', '\\':
 			out = append(out, '"', '\\', b, '"', ',')
-		case ',':
-			out = append(out, '"', ',', '"', ',')
-		case '\b', '\a':
-			// TODO handle if possible
+		case ',', '{', '}':
+			out = append(out, '"', b, '"', ',')
 		default:
 			out = append(out, b, ',')
 		}
@@ -174,10 +170,8 @@ func (v charArrayFromRuneSlice) Value() (driver.Value, error) {
 			out = append(out, '"', byte(r), '"', ',')
 		case '"', '\\':
 			out = append(out, '"', '\\', byte(r), '"', ',')
-		case ',':
-			out = append(out, '"', ',', '"', ',')
-		case '\b', '\a':
-			// TODO handle if possible
+		case ',', '{', '}':
+			out = append(out, '"', byte(r), '"', ',')
 		default:
 			if size := utf8.RuneLen(r); size > 1 {
 				p := make([]byte, size+1, size+1)
@@ -234,10 +228,8 @@ func (v charArrayFromStringSlice) Value() (driver.Value, error) {
 			out = append(out, '"', byte(r), '"', ',')
 		case '"', '\\':
 			out = append(out, '"', '\\', byte(r), '"', ',')
-		case ',':
-			out = append(out, '"', ',', '"', ',')
-		case '\b', '\a':
-			// TODO handle if possible
+		case ',', '{', '}':
+			out = append(out, '"', byte(r), '"', ',')
 		default:
 			if size > 1 {
 				p := make([]byte, size+1, size+1)
@@ -271,7 +263,9 @@ func (v charArrayToStringSlice) Scan(src interface{}) error {
 	runes := pgparsearray3(data)
 	val := make([]string, len(runes))
 	for i := 0; i < len(val); i++ {
-		val[i] = string(runes[i])
+		if runes[i] != 0 { // not NULL
+			val[i] = string(runes[i])
+		}
 	}
 	*v.val = val
 	return nil
-- 
2.43.0


From c5091f08c7685d3ea4a17cfb700ee924e5309c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:56 +0000
Subject: [PATCH 13/88] fix: pgsql converters keep sub-millisecond times, zone
 offsets, unbounded ends, large money, hstore and inet details, and quoted
 elements; malformed text does not panic

---
 pgsql/convert_util.go   | 217 ++++++++++++++++++++++++++++------------
 pgsql/inet.go           |  12 ++-
 pgsql/inetarr.go        |  24 ++++-
 pgsql/int2vectorarr.go  | 144 ++++++++++++++++++++++++++
 pgsql/money.go          |  10 +-
 pgsql/moneyarr.go       |  12 +--
 pgsql/timestamptzarr.go |   2 +-
 pgsql/timetzarr.go      |   2 +-
 pgsql/tsqueryarr.go     |  76 +++-----------
 pgsql/tsrange.go        |  19 +---
 pgsql/tsrangearr.go     |  28 +++---
 pgsql/tstzrange.go      |  19 +---
 pgsql/tstzrangearr.go   |  28 +++---
 pgsql/tsvectorarr.go    | 122 +++-------------------
 14 files changed, 395 insertions(+), 320 deletions(-)

diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index a103899..1d79590 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -4,15 +4,17 @@ import (
 	"bytes"
 	"encoding/hex"
 	"fmt"
+	"net"
+	"strconv"
 	"time"
 )
 
 const (
 	dateLayout        = "2006-01-02"
-	timeLayout        = "15:04:05.999"
-	timetzLayout      = "15:04:05.999-07:00"
-	timestampLayout   = "2006-01-02 15:04:05.999"
-	timestamptzLayout = "2006-01-02 15:04:05.999-07"
+	timeLayout        = "15:04:05.999999"
+	timetzLayout      = "15:04:05.999999-07:00"
+	timestampLayout   = "2006-01-02 15:04:05.999999"
+	timestamptzLayout = "2006-01-02 15:04:05.999999-07:00:00"
 )
 
 var noZone = time.FixedZone("", 0)
@@ -34,14 +36,25 @@ func srcbytes(src interface{}) ([]byte, error) {
 	return nil, srcerror(src)
 }
 
+// pgUnwrap drops the first and the last byte.
+func pgUnwrap(a []byte) []byte {
+	if len(a) < 2 {
+		return nil
+	}
+	return a[1 : len(a)-1]
+}
+
 // parse as single bytes
 func pgparsearray2(a []byte) (out []byte) {
 	out = make([]byte, 0, len(a))
 
-	a = a[1 : len(a)-1] // drop curly braces
+	a = pgUnwrap(a) // drop curly braces
 
 	for i := 0; i < len(a); i++ {
 		if a[i] == '"' {
+			if i+3 >= len(a) && (i+2 >= len(a) || a[i+1] == '\\') {
+				break // malformed
+			}
 			if a[i+1] == '\\' {
 				out = append(out, a[i+2])
 				i += 3
@@ -53,6 +66,12 @@ func pgparsearray2(a []byte) (out []byte) {
 			}
 		}
 
+		if a[i] == 'N' && i+3 < len(a) && string(a[i:i+4]) == `NULL` { // NULL?
+			out = append(out, 0)
+			i += 3
+			continue
+		}
+
 		if a[i] != ',' {
 			out = append(out, a[i])
 		}
@@ -65,11 +84,14 @@ func pgparsearray2(a []byte) (out []byte) {
 func pgparsearray3(a []byte) (out []rune) {
 	out = make([]rune, 0)
 
-	a = a[1 : len(a)-1] // drop curly braces
+	a = pgUnwrap(a) // drop curly braces
 	r := bytes.Runes(a)
 
 	for i := 0; i < len(r); i++ {
 		if r[i] == '"' {
+			if i+3 >= len(r) && (i+2 >= len(r) || r[i+1] == '\\') {
+				break // malformed
+			}
 			if r[i+1] == '\\' {
 				out = append(out, r[i+2])
 				i += 3
@@ -81,6 +103,12 @@ func pgparsearray3(a []byte) (out []rune) {
 			}
 		}
 
+		if r[i] == 'N' && i+3 < len(r) && string(r[i:i+4]) == `NULL` { // NULL?
+			out = append(out, 0)
+			i += 3
+			continue
+		}
+
 		if r[i] != ',' {
 			out = append(out, r[i])
 		}
@@ -101,8 +129,9 @@ func pgparsehstore(a []byte) (out [][2][]byte) {
 
 	for i := 0; i < len(a); i++ {
 		if a[i] == '"' { // start of key or value?
+			pair[idx] = []byte{}
 			for j := i + 1; j < len(a); j++ {
-				if a[j] == '\\' {
+				if a[j] == '\\' && j+1 < len(a) {
 					j++ // skip escaped char
 					pair[idx] = append(pair[idx], a[j])
 					continue
@@ -139,7 +168,7 @@ func pgparsehstorearr(a []byte) (out [][][2][]byte) {
 	if len(a) == 0 {
 		return out // nothing to do if empty
 	}
-	a = a[1 : len(a)-1] // drop array delimiters
+	a = pgUnwrap(a) // drop array delimiters
 
 	var (
 		idx  uint8     // pair index 0=key 1=val
@@ -153,6 +182,7 @@ func pgparsehstorearr(a []byte) (out [][][2][]byte) {
 			for j := i + 1; j < len(a); j++ {
 
 				if a[j] == '\\' && a[j+1] == '"' { // start of key or value?
+					pair[idx] = []byte{}
 					for k := j + 2; k < len(a); k++ {
 						if a[k] == '\\' {
 							if a[k+1] == '\\' { // escape??
@@ -208,8 +238,56 @@ func pgparsedate(a []byte) (time.Time, error) {
 	return time.ParseInLocation(dateLayout, string(a), time.UTC)
 }
 
+// Expected format: LAYOUT followed by a zone offset, which is one of +hh, +hh:mm, or +hh:mm:ss.
+func pgParseWithZone(layout string, a []byte) (t time.Time, err error) {
+	for _, zone := range []string{"-07", "-07:00", "-07:00:00"} {
+		if t, err = time.Parse(layout+zone, string(a)); err == nil {
+			return t, nil
+		}
+	}
+	return t, err
+}
+
+// Expected format: an IP address with an optional network mask.
+func pgParseInet(s string) (net.IPNet, error) {
+	ip, ipnet, err := net.ParseCIDR(s)
+	if err != nil {
+		if ip = net.ParseIP(s); ip == nil {
+			return net.IPNet{}, err
+		}
+		return net.IPNet{IP: ip}, nil
+	}
+	if ip4 := ip.To4(); ip4 != nil && len(ipnet.Mask) == net.IPv4len {
+		ip = ip4
+	}
+	return net.IPNet{IP: ip, Mask: ipnet.Mask}, nil
+}
+
+// Expected format: '[-]$N[,NNN ...].NN'.
+func pgParseMoney(a []byte) (int64, error) {
+	var digits []byte
+	for i := 0; i < len(a); i++ {
+		if a[i] != '$' && a[i] != ',' && a[i] != '.' {
+			digits = append(digits, a[i])
+		}
+	}
+	return strconv.ParseInt(string(digits), 10, 64)
+}
+
+// pgAppendMoney appends the given amount, which is in hundredths, as '[-]$N.NN'.
+func pgAppendMoney(buf []byte, val int64) []byte {
+	u := uint64(val)
+	if val < 0 {
+		u = -u
+		buf = append(buf, '-')
+	}
+	buf = append(buf, '$')
+	buf = strconv.AppendUint(buf, u/100, 10)
+	return append(buf, '.', byte('0'+u%100/10), byte('0'+u%10))
+}
+
 func pgParseRange(a []byte) (out [2][]byte) {
-	a = a[1 : len(a)-1] // drop range delimiters
+	a = pgUnwrap(a) // drop range delimiters
 
 	for i := 0; i < len(a); i++ {
 		if a[i] == ',' {
@@ -222,9 +300,39 @@ func pgParseRange(a []byte) (out [2][]byte) {
 	return out
 }
 
+// Expected format: that of a range whose bounds may be enclosed in double quotes, which may be escaped.
+func pgParseTimeRange(a []byte) (out [2][]byte) {
+	if len(a) == 0 {
+		return out // NULL
+	}
+	out = pgParseRange(a)
+	out[0] = bytes.Trim(out[0], `\"`)
+	out[1] = bytes.Trim(out[1], `\"`)
+	return out
+}
+
+// pgAppendTimeRange appends the given bounds as a range, the zero time stands for no bound.
+func pgAppendTimeRange(buf []byte, val [2]time.Time, layout, quote string) []byte {
+	if val[0].IsZero() {
+		buf = append(buf, '(')
+	} else {
+		buf = append(buf, '[')
+		buf = append(buf, quote...)
+		buf = val[0].AppendFormat(buf, layout)
+		buf = append(buf, quote...)
+	}
+	buf = append(buf, ',')
+	if !val[1].IsZero() {
+		buf = append(buf, quote...)
+		buf = val[1].AppendFormat(buf, layout)
+		buf = append(buf, quote...)
+	}
+	return append(buf, ')')
+}
+
 // Expected format: '{STRING [, ...]}' where STRING is a double quoted string.
 func pgParseQuotedStringArray(a []byte) (out [][]byte) {
-	a = a[1 : len(a)-1] // drop curly braces
+	a = pgUnwrap(a) // drop curly braces
 
 mainloop:
 	for i := 0; i < len(a); i++ {
@@ -254,7 +362,7 @@ mainloop:
 
 // Expected format: '{STRING [, ...]}' where STRING is either an unquoted or a double quoted string.
 func pgParseStringArray(a []byte) (out [][]byte) {
-	a = a[1 : len(a)-1] // drop curly braces
+	a = pgUnwrap(a) // drop curly braces
 
 mainloop:
 	for i := 0; i < len(a); i++ {
@@ -279,7 +387,7 @@ mainloop:
 				}
 			}
 		case 'N': // NULL?
-			if len(a) > i+3 && string(a[i:i+4]) == `NULL` {
+			if len(a) > i+3 && string(a[i:i+4]) == `NULL` && (len(a) == i+4 || a[i+4] == ',') {
 				out = append(out, []byte(nil))
 				i = i + 3
 				continue mainloop
@@ -306,7 +414,7 @@ mainloop:
 
 // Expected format: '`[`(X1,Y1),(X2,Y2)`]`' where Xn and Yn are numbers.
 func pgParseLseg(a []byte) (out [2][2][]byte) {
-	a = a[1 : len(a)-1] // drop the surrounding brackets
+	a = pgUnwrap(a) // drop the surrounding brackets
 
 	n := 0
 	for i := 0; i < len(a); i++ {
@@ -322,8 +430,10 @@ func pgParseLseg(a []byte) (out [2][2][]byte) {
 					break
 				}
 			}
-			out[n] = point
-			n += 1
+			if n < len(out) {
+				out[n] = point
+				n += 1
+			}
 		}
 	}
 	return out
@@ -331,7 +441,7 @@ func pgParseLseg(a []byte) (out [2][2][]byte) {
 
 // Expected format: '{"[(X1,Y1),(X2,Y2)]"[, ...]}' where Xn and Yn are numbers.
 func pgParseLsegArray(a []byte) (out [][2][2][]byte) {
-	a = a[1 : len(a)-1] // drop the surrounding curlies
+	a = pgUnwrap(a) // drop the surrounding curlies
 	for i := 0; i < len(a); i++ {
 		if a[i] == '"' { // lseg start
 			var lseg [2][2][]byte
@@ -366,7 +476,7 @@ func pgParseLsegArray(a []byte) (out [][2][2][]byte) {
 
 // Expected format: '{A,B,C}' where A, B, and C are numbers.
 func pgParseLine(a []byte) (out [3][]byte) {
-	a = a[1 : len(a)-1] // drop the surrounding curly braces
+	a = pgUnwrap(a) // drop the surrounding curly braces
 	for i := 0; i < len(a); i++ {
 		if a[i] == ',' {
 			out[0] = a[:i]
@@ -385,7 +495,7 @@ func pgParseLine(a []byte) (out [3][]byte) {
 
 // Expected format: '{"{A,B,C}"[, ...]}' where A, B, and C are numbers.
 func pgParseLineArray(a []byte) (out [][3][]byte) {
-	a = a[1 : len(a)-1] // drop the surrounding curlies
+	a = pgUnwrap(a) // drop the surrounding curlies
 	for i := 0; i < len(a); i++ {
 		if a[i] == '"' { // line start
 			var line [3][]byte
@@ -415,7 +525,7 @@ func pgParseLineArray(a []byte) (out [][3][]byte) {
 
 // Expected format: '(X,Y)' where X and Y are numbers.
 func pgParsePoint(a []byte) (out [2][]byte) {
-	a = a[1 : len(a)-1] // drop the surrounding parentheses
+	a = pgUnwrap(a) // drop the surrounding parentheses
 	for i := 0; i < len(a); i++ {
 		if a[i] == ',' {
 			out[0] = a[:i]
@@ -428,7 +538,7 @@ func pgParsePoint(a []byte) (out [2][]byte) {
 
 // Expected format: '{"(X,Y)"[, ...]}' where X and Y are numbers.
 func pgParsePointArray(a []byte) (out [][2][]byte) {
-	a = a[1 : len(a)-1] // drop the surrounding curlies
+	a = pgUnwrap(a) // drop the surrounding curlies
 	for i := 0; i < len(a); i++ {
 		if a[i] == '"' { // point start
 			var point [2][]byte
@@ -475,13 +585,13 @@ func pgParsePointList(a []byte) (out [][2][]byte) {
 
 // Expected format: '((X,Y)[, ...])' where X and Y are numbers.
 func pgParsePolygon(a []byte) (out [][2][]byte) {
-	a = a[1 : len(a)-1] // drop the first `(` and last `)`
+	a = pgUnwrap(a) // drop the first `(` and last `)`
 	return pgParsePointList(a)
 }
 
 // Expected format: '{"((X,Y)[, ...])"[, ...]}' where X and Y are numbers.
 func pgParsePolygonArray(a []byte) (out [][][2][]byte) {
-	a = a[1 : len(a)-1] // drop the first `{` and last `}`
+	a = pgUnwrap(a) // drop the first `{` and last `}`
 
 	for i := 0; i < len(a); i++ {
 		var polygon [][2][]byte
@@ -516,14 +626,14 @@ func pgParsePolygonArray(a []byte) (out [][][2][]byte) {
 
 // Expected format: '((X,Y)[, ...]) | `[`(X,Y)[, ...]`]`' where X and Y are numbers.
 func pgParsePath(a []byte) (out [][2][]byte, closed bool) {
-	closed = (a[0] == '(')
-	a = a[1 : len(a)-1] // drop the surrounding parentheses or square brackets
+	closed = len(a) > 0 && a[0] == '('
+	a = pgUnwrap(a) // drop the surrounding parentheses or square brackets
 	return pgParsePointList(a), closed
 }
 
 // Expected format: '{"((X,Y)[, ...])" | "`[`(X,Y)[, ...]`]`" [, ...]}' where X and Y are numbers.
 func pgParsePathArray(a []byte) (out [][][2][]byte) {
-	a = a[1 : len(a)-1] // drop the first `{` and last `}`
+	a = pgUnwrap(a) // drop the first `{` and last `}`
 
 	for i := 0; i < len(a); i++ {
 		var path [][2][]byte
@@ -558,7 +668,7 @@ func pgParsePathArray(a []byte) (out [][][2][]byte) {
 
 // Expected format: '(X1,Y1),(X2,Y2)' where X and Y are numbers.
 func pgParseBox(a []byte) (out [][]byte) {
-	a = a[1 : len(a)-1] // drop the first '(' and last ')'
+	a = pgUnwrap(a) // drop the first '(' and last ')'
 
 	n := 0 // start of next elem
 	for i := 0; i < len(a); i++ {
@@ -583,7 +693,7 @@ func pgParseBox(a []byte) (out [][]byte) {
 
 // Expected format: '{(X1,Y1),(X2,Y2)[; ...]}' where X and Y are numbers.
 func pgParseBoxArray(a []byte) (out [][]byte) {
-	if len(a) == 2 {
+	if len(a) < 4 {
 		return out // nothing to do if empty "{}"
 	}
 
@@ -612,7 +722,7 @@ func pgParseBoxArray(a []byte) (out [][]byte) {
 
 // Expected format: '{X [, ...]}' where X is anything that doesn't contain a comma.
 func pgParseCommaArray(a []byte) (out [][]byte) {
-	a = a[1 : len(a)-1] // drop curly braces
+	a = pgUnwrap(a) // drop curly braces
 
 	n := 0 // start of next elem
 	for i := 0; i < len(a); i++ {
@@ -629,11 +739,15 @@ func pgParseCommaArray(a []byte) (out [][]byte) {
 	return out
 }
 
-// Expected format: 'E[ ...]' (space separated list of elements).
+// Expected format: 'E[ ...]' (space separated list of elements, in which single quoted text may itself contain spaces).
 func pgParseVector(a []byte) (out [][]byte) {
 	var j int
+	var quoted bool
 	for i := 0; i < len(a); i++ {
-		if a[i] == ' ' {
+		if a[i] == '\'' {
+			quoted = !quoted
+		}
+		if a[i] == ' ' && !quoted {
 			out = append(out, a[j:i])
 			j = i + 1
 		}
@@ -650,49 +764,22 @@ func pgParseVectorArray(a []byte) (out [][][]byte) {
 	if len(a) == 0 {
 		return out // nothing to do if empty
 	}
-	a = a[1 : len(a)-1] // drop array delimiters
 
-	for i := 0; i < len(a); i++ {
-		switch a[i] {
-		case '"': // quoted element
-			vector := [][]byte{}
-
-			k := i + 1 // vector start
-			for j := k; j < len(a); j++ {
-				if a[j] == '"' { // vector end
-					vector = append(vector, a[k:j])
-					i = j + 1
-					break
-				}
-				if a[j] == ' ' {
-					vector = append(vector, a[k:j])
-					k = j + 1
-				}
-			}
-
-			out = append(out, vector)
-		case 'N': // NULL element?
-			if len(a) > i+3 && string(a[i:i+4]) == `NULL` {
-				out = append(out, [][]byte(nil))
-				i = i + 3
-			}
-		default: // unquoted element
-			k, j := i, i // elem start
-			for ; j < len(a); j++ {
-				if a[j] == ',' { // elem end
-					i = j
-					break
-				}
-			}
-			out = append(out, [][]byte{a[k:j]})
+	for _, elem := range pgParseStringArray(a) {
+		if elem == nil {
+			out = append(out, nil)
+		} else {
+			out = append(out, append([][]byte{}, pgParseVector(elem)...))
 		}
 	}
-
 	return out
 }
 
 // Expected format: 'xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx'.
 func pgParseUUID(data []byte) (arr [16]byte, err error) {
+	if len(data) != 36 {
+		return arr, fmt.Errorf("gosql/pgsql: bad uuid %q", data)
+	}
 	if _, err = hex.Decode(arr[0:4], data[0:8]); err != nil {
 		return arr, err
 	}
diff --git a/pgsql/inet.go b/pgsql/inet.go
index 42f88fb..6df75d2 100644
--- a/pgsql/inet.go
+++ b/pgsql/inet.go
@@ -55,11 +55,11 @@ func (v inetToIPNet) Scan(src interface{}) error {
 		return srcerror(src)
 	}
 
-	_, ipnet, err := net.ParseCIDR(str)
+	ipnet, err := pgParseInet(str)
 	if err != nil {
-		ipnet = &net.IPNet{IP: net.ParseIP(str)}
+		return err
 	}
-	*v.val = *ipnet
+	*v.val = ipnet
 	return nil
 }
 
@@ -92,6 +92,10 @@ func (v inetToIP) Scan(src interface{}) error {
 		return srcerror(src)
 	}
 
-	*v.val = net.ParseIP(str)
+	ip := net.ParseIP(str)
+	if ip == nil {
+		return &net.ParseError{Type: "IP address", Text: str}
+	}
+	*v.val = ip
 	return nil
 }
diff --git a/pgsql/inetarr.go b/pgsql/inetarr.go
index c5f9478..3a360be 100644
--- a/pgsql/inetarr.go
+++ b/pgsql/inetarr.go
@@ -40,6 +40,10 @@ func (v inetArrayFromIPNetSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, ipnet := range v.val {
+		if ipnet.IP == nil && ipnet.Mask == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		}
 		out = append(out, []byte(ipnet.String())...)
 		out = append(out, ',')
 	}
@@ -64,11 +68,12 @@ func (v inetArrayToIPNetSlice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(data)
 	ipnets := make([]net.IPNet, len(elems))
 	for i := 0; i < len(elems); i++ {
-		_, ipnet, err := net.ParseCIDR(string(elems[i]))
-		if err != nil {
-			ipnet = &net.IPNet{IP: net.ParseIP(string(elems[i]))}
+		if string(elems[i]) == `NULL` {
+			continue
+		}
+		if ipnets[i], err = pgParseInet(string(elems[i])); err != nil {
+			return err
 		}
-		ipnets[i] = *ipnet
 	}
 
 	*v.val = ipnets
@@ -89,6 +94,10 @@ func (v inetArrayFromIPSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, ip := range v.val {
+		if ip == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		}
 		out = append(out, []byte(ip.String())...)
 		out = append(out, ',')
 	}
@@ -113,7 +122,12 @@ func (v inetArrayToIPSlice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(data)
 	ips := make([]net.IP, len(elems))
 	for i := 0; i < len(elems); i++ {
-		ips[i] = net.ParseIP(string(elems[i]))
+		if string(elems[i]) == `NULL` {
+			continue
+		}
+		if ips[i] = net.ParseIP(string(elems[i])); ips[i] == nil {
+			return &net.ParseError{Type: "IP address", Text: string(elems[i])}
+		}
 	}
 
 	*v.val = ips
diff --git a/pgsql/int2vectorarr.go b/pgsql/int2vectorarr.go
index d4f980d..5f39dec 100644
--- a/pgsql/int2vectorarr.go
+++ b/pgsql/int2vectorarr.go
@@ -140,6 +140,14 @@ func (v int2VectorArrayFromIntSliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, ints := range v.val {
+		if ints == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		} else if len(ints) == 0 {
+			out = append(out, '"', '"', ',')
+			continue
+		}
+
 		out = append(out, '"')
 		for _, i := range ints {
 			out = strconv.AppendInt(out, int64(i), 10)
@@ -169,6 +177,10 @@ func (v int2VectorArrayToIntSliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	intss := make([][]int, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil {
+			continue
+		}
+
 		ints := make([]int, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			i64, err := strconv.ParseInt(string(elems[i][j]), 10, 16)
@@ -198,6 +210,14 @@ func (v int2VectorArrayFromInt8SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, int8s := range v.val {
+		if int8s == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		} else if len(int8s) == 0 {
+			out = append(out, '"', '"', ',')
+			continue
+		}
+
 		out = append(out, '"')
 		for _, i8 := range int8s {
 			out = strconv.AppendInt(out, int64(i8), 10)
@@ -227,6 +247,10 @@ func (v int2VectorArrayToInt8SliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	int8ss := make([][]int8, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil {
+			continue
+		}
+
 		int8s := make([]int8, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			i64, err := strconv.ParseInt(string(elems[i][j]), 10, 8)
@@ -256,6 +280,14 @@ func (v int2VectorArrayFromInt16SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, int16s := range v.val {
+		if int16s == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		} else if len(int16s) == 0 {
+			out = append(out, '"', '"', ',')
+			continue
+		}
+
 		out = append(out, '"')
 		for _, i16 := range int16s {
 			out = strconv.AppendInt(out, int64(i16), 10)
@@ -285,6 +317,10 @@ func (v int2VectorArrayToInt16SliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	int16ss := make([][]int16, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil {
+			continue
+		}
+
 		int16s := make([]int16, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			i64, err := strconv.ParseInt(string(elems[i][j]), 10, 16)
@@ -314,6 +350,14 @@ func (v int2VectorArrayFromInt32SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, int32s := range v.val {
+		if int32s == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		} else if len(int32s) == 0 {
+			out = append(out, '"', '"', ',')
+			continue
+		}
+
 		out = append(out, '"')
 		for _, i32 := range int32s {
 			out = strconv.AppendInt(out, int64(i32), 10)
@@ -343,6 +387,10 @@ func (v int2VectorArrayToInt32SliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	int32ss := make([][]int32, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil {
+			continue
+		}
+
 		int32s := make([]int32, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			i64, err := strconv.ParseInt(string(elems[i][j]), 10, 16)
@@ -372,6 +420,14 @@ func (v int2VectorArrayFromInt64SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, int64s := range v.val {
+		if int64s == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		} else if len(int64s) == 0 {
+			out = append(out, '"', '"', ',')
+			continue
+		}
+
 		out = append(out, '"')
 		for _, i64 := range int64s {
 			out = strconv.AppendInt(out, i64, 10)
@@ -401,6 +457,10 @@ func (v int2VectorArrayToInt64SliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	int64ss := make([][]int64, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil {
+			continue
+		}
+
 		int64s := make([]int64, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			i64, err := strconv.ParseInt(string(elems[i][j]), 10, 16)
@@ -430,6 +490,14 @@ func (v int2VectorArrayFromUintSliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, uints := range v.val {
+		if uints == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		} else if len(uints) == 0 {
+			out = append(out, '"', '"', ',')
+			continue
+		}
+
 		out = append(out, '"')
 		for _, u := range uints {
 			out = strconv.AppendUint(out, uint64(u), 10)
@@ -459,6 +527,10 @@ func (v int2VectorArrayToUintSliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	uintss := make([][]uint, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil {
+			continue
+		}
+
 		uints := make([]uint, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			u64, err := strconv.ParseUint(string(elems[i][j]), 10, 16)
@@ -488,6 +560,14 @@ func (v int2VectorArrayFromUint8SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, uint8s := range v.val {
+		if uint8s == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		} else if len(uint8s) == 0 {
+			out = append(out, '"', '"', ',')
+			continue
+		}
+
 		out = append(out, '"')
 		for _, u8 := range uint8s {
 			out = strconv.AppendUint(out, uint64(u8), 10)
@@ -517,6 +597,10 @@ func (v int2VectorArrayToUint8SliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	uint8ss := make([][]uint8, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil {
+			continue
+		}
+
 		uint8s := make([]uint8, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			u64, err := strconv.ParseUint(string(elems[i][j]), 10, 8)
@@ -546,6 +630,14 @@ func (v int2VectorArrayFromUint16SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, uint16s := range v.val {
+		if uint16s == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		} else if len(uint16s) == 0 {
+			out = append(out, '"', '"', ',')
+			continue
+		}
+
 		out = append(out, '"')
 		for _, u16 := range uint16s {
 			out = strconv.AppendUint(out, uint64(u16), 10)
@@ -575,6 +667,10 @@ func (v int2VectorArrayToUint16SliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	uint16ss := make([][]uint16, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil {
+			continue
+		}
+
 		uint16s := make([]uint16, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			u64, err := strconv.ParseUint(string(elems[i][j]), 10, 16)
@@ -604,6 +700,14 @@ func (v int2VectorArrayFromUint32SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, uint32s := range v.val {
+		if uint32s == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		} else if len(uint32s) == 0 {
+			out = append(out, '"', '"', ',')
+			continue
+		}
+
 		out = append(out, '"')
 		for _, u32 := range uint32s {
 			out = strconv.AppendUint(out, uint64(u32), 10)
@@ -633,6 +737,10 @@ func (v int2VectorArrayToUint32SliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	uint32ss := make([][]uint32, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil {
+			continue
+		}
+
 		uint32s := make([]uint32, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			u64, err := strconv.ParseUint(string(elems[i][j]), 10, 16)
@@ -662,6 +770,14 @@ func (v int2VectorArrayFromUint64SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, uint64s := range v.val {
+		if uint64s == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		} else if len(uint64s) == 0 {
+			out = append(out, '"', '"', ',')
+			continue
+		}
+
 		out = append(out, '"')
 		for _, u64 := range uint64s {
 			out = strconv.AppendUint(out, u64, 10)
@@ -691,6 +807,10 @@ func (v int2VectorArrayToUint64SliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	uint64ss := make([][]uint64, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil {
+			continue
+		}
+
 		uint64s := make([]uint64, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			u64, err := strconv.ParseUint(string(elems[i][j]), 10, 16)
@@ -720,6 +840,14 @@ func (v int2VectorArrayFromFloat32SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, float32s := range v.val {
+		if float32s == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		} else if len(float32s) == 0 {
+			out = append(out, '"', '"', ',')
+			continue
+		}
+
 		out = append(out, '"')
 		for _, f32 := range float32s {
 			out = strconv.AppendInt(out, int64(f32), 10)
@@ -749,6 +877,10 @@ func (v int2VectorArrayToFloat32SliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	float32ss := make([][]float32, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil {
+			continue
+		}
+
 		float32s := make([]float32, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			i64, err := strconv.ParseInt(string(elems[i][j]), 10, 16)
@@ -778,6 +910,14 @@ func (v int2VectorArrayFromFloat64SliceSlice) Value() (driver.Value, error) {
 	out := []byte{'{'}
 
 	for _, float64s := range v.val {
+		if float64s == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
+		} else if len(float64s) == 0 {
+			out = append(out, '"', '"', ',')
+			continue
+		}
+
 		out = append(out, '"')
 		for _, f64 := range float64s {
 			out = strconv.AppendInt(out, int64(f64), 10)
@@ -807,6 +947,10 @@ func (v int2VectorArrayToFloat64SliceSlice) Scan(src interface{}) error {
 	elems := pgParseVectorArray(arr)
 	float64ss := make([][]float64, len(elems))
 	for i := 0; i < len(elems); i++ {
+		if elems[i] == nil {
+			continue
+		}
+
 		float64s := make([]float64, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
 			i64, err := strconv.ParseInt(string(elems[i][j]), 10, 16)
diff --git a/pgsql/money.go b/pgsql/money.go
index 7ad9796..7ab8e4b 100644
--- a/pgsql/money.go
+++ b/pgsql/money.go
@@ -3,7 +3,6 @@ package pgsql
 import (
 	"database/sql"
 	"database/sql/driver"
-	"strconv"
 )
 
 // MoneyFromInt64 returns a driver.Valuer that produces a PostgreSQL money from the given Go int64.
@@ -21,9 +20,7 @@ type moneyFromInt64 struct {
 }
 
 func (v moneyFromInt64) Value() (driver.Value, error) {
-	out := []byte{'$'}
-	out = strconv.AppendFloat(out, float64(v.val)/100.0, 'f', 2, 64)
-	return out, nil
+	return pgAppendMoney(nil, v.val), nil
 }
 
 type moneyToInt64 struct {
@@ -39,12 +36,11 @@ func (v moneyToInt64) Scan(src interface{}) error {
 		return nil
 	}
 
-	data = data[1:] // drop $
-	f64, err := strconv.ParseFloat(string(data), 64)
+	i64, err := pgParseMoney(data)
 	if err != nil {
 		return err
 	}
 
-	*v.val = int64(f64 * 100.0)
+	*v.val = i64
 	return nil
 }
diff --git a/pgsql/moneyarr.go b/pgsql/moneyarr.go
index ce857b2..022db8c 100644
--- a/pgsql/moneyarr.go
+++ b/pgsql/moneyarr.go
@@ -3,7 +3,6 @@ package pgsql
 import (
 	"database/sql"
 	"database/sql/driver"
-	"strconv"
 )
 
 // MoneyArrayFromInt64Slice returns a driver.Valuer that produces a PostgreSQL money[] from the given Go []int64.
@@ -35,8 +34,7 @@ func (v moneyArrayFromInt64Slice) Value() (driver.Value, error) {
 	out[0] = '{'
 
 	for i := 0; i < len(v.val); i++ {
-		out = append(out, '$')
-		out = strconv.AppendFloat(out, float64(v.val[i])/100.0, 'f', 2, 64)
+		out = pgAppendMoney(out, v.val[i])
 		out = append(out, ',')
 	}
 
@@ -57,16 +55,12 @@ func (v moneyArrayToInt64Slice) Scan(src interface{}) error {
 		return nil
 	}
 
-	elems := pgParseCommaArray(data)
+	elems := pgParseStringArray(data)
 	int64s := make([]int64, len(elems))
 	for i := 0; i < len(elems); i++ {
-		elems[i] = elems[i][1:] // drop $
-		f64, err := strconv.ParseFloat(string(elems[i]), 64)
-		if err != nil {
+		if int64s[i], err = pgParseMoney(elems[i]); err != nil {
 			return err
 		}
-
-		int64s[i] = int64(f64 * 100.0)
 	}
 
 	*v.val = int64s
diff --git a/pgsql/timestamptzarr.go b/pgsql/timestamptzarr.go
index 7bd4dc3..d4b6829 100644
--- a/pgsql/timestamptzarr.go
+++ b/pgsql/timestamptzarr.go
@@ -66,7 +66,7 @@ func (v timestamptzArrayToTimeSlice) Scan(src interface{}) error {
 		}
 
 		ts = ts[1 : len(ts)-1] // drop surrounding double quotes
-		t, err := time.Parse(timestamptzLayout, string(ts))
+		t, err := pgParseWithZone(timestampLayout, ts)
 		if err != nil {
 			return err
 		}
diff --git a/pgsql/timetzarr.go b/pgsql/timetzarr.go
index 101ac5e..9e2e667 100644
--- a/pgsql/timetzarr.go
+++ b/pgsql/timetzarr.go
@@ -57,7 +57,7 @@ func (v timetzArrayToTimeSlice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(data)
 	times := make([]time.Time, len(elems))
 	for i := 0; i < len(elems); i++ {
-		t, err := time.Parse(timetzLayout, string(elems[i]))
+		t, err := pgParseWithZone(timeLayout, elems[i])
 		if err != nil {
 			return err
 		}
diff --git a/pgsql/tsqueryarr.go b/pgsql/tsqueryarr.go
index 2b8d3e7..06a92c2 100644
--- a/pgsql/tsqueryarr.go
+++ b/pgsql/tsqueryarr.go
@@ -36,32 +36,13 @@ func (v tsQueryArrayFromStringSlice) Value() (driver.Value, error) {
 		return []byte{'{', '}'}, nil
 	}
 
-	size := (len(v.val) * 2) + // number of surrounding double quotes
-		(len(v.val) - 1) + // number of commas between elements
-		2 // curly braces
-	for i := 0; i < len(v.val); i++ {
-		size += len(v.val[i]) // length of the element
+	out := []byte{'{'}
+	for _, elem := range v.val {
+		out = pgAppendQuote1(out, []byte(elem))
+		out = append(out, ',')
 	}
 
-	out := make([]byte, size)
-	out[0] = '{'
-
-	var pos int
-	for i := 0; i < len(v.val); i++ {
-		pos += 1
-		out[pos] = '"'
-		pos += 1
-
-		length := len(v.val[i])
-		copy(out[pos:pos+length], v.val[i])
-		pos += length
-
-		out[pos] = '"'
-		pos += 1
-		out[pos] = ','
-	}
-
-	out[pos] = '}'
+	out[len(out)-1] = '}' // replace last "," with "}"
 	return out, nil
 }
 
@@ -99,46 +80,17 @@ func (v tsQueryArrayFromByteSliceSlice) Value() (driver.Value, error) {
 		return []byte{'{', '}'}, nil
 	}
 
-	size := (len(v.val) * 2) + // number of surrounding double quotes
-		(len(v.val) - 1) + // number of commas between elements
-		2 // curly braces
-	for i := 0; i < len(v.val); i++ {
-		if v.val[i] == nil {
-			size += 2 // len(`NULL`) - 2 double quotes
-		} else {
-			size += len(v.val[i]) // length of the element
-		}
-	}
-
-	out := make([]byte, size)
-	out[0] = '{'
-
-	var pos int
-	for i := 0; i < len(v.val); i++ {
-		pos += 1
-
-		if v.val[i] == nil {
-			out[pos+0] = 'N'
-			out[pos+1] = 'U'
-			out[pos+2] = 'L'
-			out[pos+3] = 'L'
-			pos += 4
-		} else {
-			out[pos] = '"'
-			pos += 1
-
-			length := len(v.val[i])
-			copy(out[pos:pos+length], v.val[i])
-			pos += length
-
-			out[pos] = '"'
-			pos += 1
+	out := []byte{'{'}
+	for _, elem := range v.val {
+		if elem == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
+			continue
 		}
-
-		out[pos] = ','
+		out = pgAppendQuote1(out, elem)
+		out = append(out, ',')
 	}
 
-	out[pos] = '}'
+	out[len(out)-1] = '}' // replace last "," with "}"
 	return out, nil
 }
 
@@ -158,7 +110,7 @@ func (v tsQueryArrayToByteSliceSlice) Scan(src interface{}) error {
 	elems := pgParseStringArray(data)
 	bytess := make([][]byte, len(elems))
 	for i := 0; i < len(elems); i++ {
-		if len(elems[i]) == 4 && elems[i][0] == 'N' { // NULL?
+		if elems[i] == nil { // NULL?
 			continue
 		}
 
diff --git a/pgsql/tsrange.go b/pgsql/tsrange.go
index 4d55649..bcdc9ad 100644
--- a/pgsql/tsrange.go
+++ b/pgsql/tsrange.go
@@ -24,13 +24,8 @@ func (v tsRangeFromTimeArray2) Value() (driver.Value, error) {
 	// len(`"yyyy-mm-dd hh:mm:ss"`) == 21
 	size := 3 + (len(v.val) * 21)
 
-	out := make([]byte, 2, size)
-	out[0], out[1] = '[', '"'
-
-	out = append(out, v.val[0].Format(timestampLayout)...)
-	out = append(out, '"', ',', '"')
-	out = append(out, v.val[1].Format(timestampLayout)...)
-	out = append(out, '"', ')')
+	out := make([]byte, 0, size)
+	out = pgAppendTimeRange(out, v.val, timestampLayout, `"`)
 	return out, nil
 }
 
@@ -48,18 +43,14 @@ func (v tsRangeToTimeArray2) Scan(src interface{}) error {
 	}
 
 	var lo, hi time.Time
-	elems := pgParseRange(data)
+	elems := pgParseTimeRange(data)
 	if len(elems[0]) > 0 {
-		s := elems[0]
-		s = s[1 : len(s)-1]
-		if lo, err = time.Parse(timestampLayout, string(s)); err != nil {
+		if lo, err = time.ParseInLocation(timestampLayout, string(elems[0]), time.UTC); err != nil {
 			return err
 		}
 	}
 	if len(elems[1]) > 0 {
-		s := elems[1]
-		s = s[1 : len(s)-1]
-		if hi, err = time.Parse(timestampLayout, string(s)); err != nil {
+		if hi, err = time.ParseInLocation(timestampLayout, string(elems[1]), time.UTC); err != nil {
 			return err
 		}
 	}
diff --git a/pgsql/tsrangearr.go b/pgsql/tsrangearr.go
index b6312fc..ab17aed 100644
--- a/pgsql/tsrangearr.go
+++ b/pgsql/tsrangearr.go
@@ -35,11 +35,9 @@ func (v tsRangeArrayFromTimeArray2Slice) Value() (driver.Value, error) {
 	out[0] = '{'
 
 	for _, a := range v.val {
-		out = append(out, '"', '[', '\\', '"')
-		out = append(out, a[0].Format(timestampLayout)...)
-		out = append(out, '\\', '"', ',', '\\', '"')
-		out = append(out, a[1].Format(timestampLayout)...)
-		out = append(out, '\\', '"', ')', '"', ',')
+		out = append(out, '"')
+		out = pgAppendTimeRange(out, a, timestampLayout, `\"`)
+		out = append(out, '"', ',')
 	}
 
 	out[len(out)-1] = '}' // replace last "," with "}"
@@ -62,20 +60,18 @@ func (v tsRangeArrayToTimeArray2Slice) Scan(src interface{}) error {
 	elems := pgParseQuotedStringArray(data)
 	slice := make([][2]time.Time, len(elems))
 	for i := 0; i < len(elems); i++ {
-		a := pgParseRange(elems[i])
-
-		// drop surrounding escaped double quotes
-		a[0] = a[0][2 : len(a[0])-2]
-		a[1] = a[1][2 : len(a[1])-2]
+		a := pgParseTimeRange(elems[i])
 
 		var t0, t1 time.Time
-		t0, err = time.ParseInLocation(timestampLayout, string(a[0]), noZone)
-		if err != nil {
-			return err
+		if len(a[0]) > 0 {
+			if t0, err = time.ParseInLocation(timestampLayout, string(a[0]), noZone); err != nil {
+				return err
+			}
 		}
-		t1, err = time.ParseInLocation(timestampLayout, string(a[1]), noZone)
-		if err != nil {
-			return err
+		if len(a[1]) > 0 {
+			if t1, err = time.ParseInLocation(timestampLayout, string(a[1]), noZone); err != nil {
+				return err
+			}
 		}
 
 		slice[i][0] = t0
diff --git a/pgsql/tstzrange.go b/pgsql/tstzrange.go
index 2479cb8..679d54f 100644
--- a/pgsql/tstzrange.go
+++ b/pgsql/tstzrange.go
@@ -24,13 +24,8 @@ func (v tstzRangeFromTimeArray2) Value() (driver.Value, error) {
 	// len(`"yyyy-mm-dd hh:mm:ss-tz"`) == 24
 	size := 3 + (2 * 24)
 
-	out := make([]byte, 2, size)
-	out[0], out[1] = '[', '"'
-
-	out = append(out, v.val[0].Format(timestamptzLayout)...)
-	out = append(out, '"', ',', '"')
-	out = append(out, v.val[1].Format(timestamptzLayout)...)
-	out = append(out, '"', ')')
+	out := make([]byte, 0, size)
+	out = pgAppendTimeRange(out, v.val, timestamptzLayout, `"`)
 	return out, nil
 }
 
@@ -48,18 +43,14 @@ func (v tstzRangeToTimeArray2) Scan(src interface{}) error {
 	}
 
 	var lo, hi time.Time
-	elems := pgParseRange(data)
+	elems := pgParseTimeRange(data)
 	if len(elems[0]) > 0 {
-		s := elems[0]
-		s = s[1 : len(s)-1] // remove surrounding double quotes
-		if lo, err = time.Parse(timestamptzLayout, string(s)); err != nil {
+		if lo, err = pgParseWithZone(timestampLayout, elems[0]); err != nil {
 			return err
 		}
 	}
 	if len(elems[1]) > 0 {
-		s := elems[1]
-		s = s[1 : len(s)-1] // remove surrounding double quotes
-		if hi, err = time.Parse(timestamptzLayout, string(s)); err != nil {
+		if hi, err = pgParseWithZone(timestampLayout, elems[1]); err != nil {
 			return err
 		}
 	}
diff --git a/pgsql/tstzrangearr.go b/pgsql/tstzrangearr.go
index 04543f8..7cd4888 100644
--- a/pgsql/tstzrangearr.go
+++ b/pgsql/tstzrangearr.go
@@ -35,11 +35,9 @@ func (v tstzRangeArrayFromTimeArray2Slice) Value() (driver.Value, error) {
 	out[0] = '{'
 
 	for _, a := range v.val {
-		out = append(out, '"', '[', '\\', '"')
-		out = append(out, a[0].Format(timestamptzLayout)...)
-		out = append(out, '\\', '"', ',', '\\', '"')
-		out = append(out, a[1].Format(timestamptzLayout)...)
-		out = append(out, '\\', '"', ')', '"', ',')
+		out = append(out, '"')
+		out = pgAppendTimeRange(out, a, timestamptzLayout, `\"`)
+		out = append(out, '"', ',')
 	}
 
 	out[len(out)-1] = '}' // replace last "," with "}"
@@ -62,20 +60,18 @@ func (v tstzRangeArrayToTimeArray2Slice) Scan(src interface{}) error {
 	elems := pgParseQuotedStringArray(data)
 	slice := make([][2]time.Time, len(elems))
 	for i := 0; i < len(elems); i++ {
-		a := pgParseRange(elems[i])
-
-		// drop surrounding escaped double quotes
-		a[0] = a[0][2 : len(a[0])-2]
-		a[1] = a[1][2 : len(a[1])-2]
+		a := pgParseTimeRange(elems[i])
 
 		var t0, t1 time.Time
-		t0, err = time.ParseInLocation(timestamptzLayout, string(a[0]), noZone)
-		if err != nil {
-			return err
+		if len(a[0]) > 0 {
+			if t0, err = pgParseWithZone(timestampLayout, a[0]); err != nil {
+				return err
+			}
 		}
-		t1, err = time.ParseInLocation(timestamptzLayout, string(a[1]), noZone)
-		if err != nil {
-			return err
+		if len(a[1]) > 0 {
+			if t1, err = pgParseWithZone(timestampLayout, a[1]); err != nil {
+				return err
+			}
 		}
 
 		slice[i][0] = t0
diff --git a/pgsql/tsvectorarr.go b/pgsql/tsvectorarr.go
index fe117a0..f79bd98 100644
--- a/pgsql/tsvectorarr.go
+++ b/pgsql/tsvectorarr.go
@@ -1,8 +1,10 @@
 package pgsql
 
 import (
+	"bytes"
 	"database/sql"
 	"database/sql/driver"
+	"strings"
 )
 
 // TSVectorArrayFromStringSliceSlice returns a driver.Valuer that produces a PostgreSQL tsvector[] from the given Go [][]string.
@@ -36,63 +38,17 @@ func (v tsVectorArrayFromStringSliceSlice) Value() (driver.Value, error) {
 		return []byte{'{', '}'}, nil
 	}
 
-	size := (2 + (len(v.val) - 1)) // curly braces + number of commas
-	for i := 0; i < len(v.val); i++ {
-		if v.val[i] == nil {
-			size += 4 // len(`NULL`)
-		} else if len(v.val[i]) == 0 {
-			size += 2 // len(`""`)
-		} else {
-			size += (2 + (len(v.val[i]) - 1)) // double quotes + number of spaces
-			for j := 0; j < len(v.val[i]); j++ {
-				size += len(v.val[i][j])
-			}
-		}
-	}
-
-	out := make([]byte, size)
-	out[0] = '{'
-
-	var pos int
-	for i := 0; i < len(v.val); i++ {
-		if v.val[i] == nil {
-			out[pos+1] = 'N'
-			out[pos+2] = 'U'
-			out[pos+3] = 'L'
-			out[pos+4] = 'L'
-			out[pos+5] = ','
-			pos += 5
+	out := []byte{'{'}
+	for _, elem := range v.val {
+		if elem == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
 			continue
 		}
-
-		if len(v.val[i]) == 0 {
-			out[pos+1] = '"'
-			out[pos+2] = '"'
-			out[pos+3] = ','
-			pos += 3
-			continue
-		}
-
-		pos += 1
-		out[pos] = '"'
-
-		for j, num := 0, len(v.val[i]); j < num; j++ {
-			pos += 1
-
-			length := len(v.val[i][j])
-			copy(out[pos:pos+length], v.val[i][j])
-
-			pos += length
-			out[pos] = ' '
-		}
-
-		out[pos] = '"'
-		pos += 1
-
-		out[pos] = ','
+		out = pgAppendQuote1(out, []byte(strings.Join(elem, " ")))
+		out = append(out, ',')
 	}
 
-	out[pos] = '}'
+	out[len(out)-1] = '}' // replace last "," with "}"
 	return out, nil
 }
 
@@ -142,63 +98,17 @@ func (v tsVectorArrayFromByteSliceSliceSlice) Value() (driver.Value, error) {
 		return []byte{'{', '}'}, nil
 	}
 
-	size := (2 + (len(v.val) - 1)) // curly braces + number of commas
-	for i := 0; i < len(v.val); i++ {
-		if v.val[i] == nil {
-			size += 4 // len(`NULL`)
-		} else if len(v.val[i]) == 0 {
-			size += 2 // len(`""`)
-		} else {
-			size += (2 + (len(v.val[i]) - 1)) // double quotes + number of spaces
-			for j := 0; j < len(v.val[i]); j++ {
-				size += len(v.val[i][j])
-			}
-		}
-	}
-
-	out := make([]byte, size)
-	out[0] = '{'
-
-	var pos int
-	for i := 0; i < len(v.val); i++ {
-		if v.val[i] == nil {
-			out[pos+1] = 'N'
-			out[pos+2] = 'U'
-			out[pos+3] = 'L'
-			out[pos+4] = 'L'
-			out[pos+5] = ','
-			pos += 5
+	out := []byte{'{'}
+	for _, elem := range v.val {
+		if elem == nil {
+			out = append(out, 'N', 'U', 'L', 'L', ',')
 			continue
 		}
-
-		if len(v.val[i]) == 0 {
-			out[pos+1] = '"'
-			out[pos+2] = '"'
-			out[pos+3] = ','
-			pos += 3
-			continue
-		}
-
-		pos += 1
-		out[pos] = '"'
-
-		for j, num := 0, len(v.val[i]); j < num; j++ {
-			pos += 1
-
-			length := len(v.val[i][j])
-			copy(out[pos:pos+length], v.val[i][j])
-
-			pos += length
-			out[pos] = ' '
-		}
-
-		out[pos] = '"'
-		pos += 1
-
-		out[pos] = ','
+		out = pgAppendQuote1(out, bytes.Join(elem, []byte{' '}))
+		out = append(out, ',')
 	}
 
-	out[pos] = '}'
+	out[len(out)-1] = '}' // replace last "," with "}"
 	return out, nil
 }
 
-- 
2.43.0


From 24b2363d2a3acdfc13592eb6e9048848a1fc2668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:12 +0000
Subject: [PATCH 14/88] fix: pgsql scanners reject bits, bools, boxes, lines
 and hstores they cannot parse instead of panicking or inventing values

---
 pgsql/bitarr.go         | 33 +++++++++++-----
 pgsql/boolarr.go        |  8 +++-
 pgsql/box.go            |  4 ++
 pgsql/boxarr.go         |  4 ++
 pgsql/convert_util.go   | 84 +++++++++++------------------------------
 pgsql/timestamparr.go   |  3 +-
 pgsql/timestamptzarr.go |  3 +-
 pgsql/varbit.go         | 12 ++++--
 pgsql/varbitarr.go      | 16 +++++---
 9 files changed, 82 insertions(+), 85 deletions(-)

diff --git a/pgsql/bitarr.go b/pgsql/bitarr.go
index 45c00e2..3b204d7 100644
--- a/pgsql/bitarr.go
+++ b/pgsql/bitarr.go
@@ -145,11 +145,14 @@ func (v bitArrayToBoolSlice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	bools := make([]bool, len(elems))
 	for i := 0; i < len(elems); i++ {
-		if elems[i][0] == '1' {
-			bools[i] = true
-		} else {
-			bools[i] = false
+		if pgIsNULL(elems[i]) {
+			continue
 		}
+		bit, err := pgParseBit(elems[i])
+		if err != nil {
+			return err
+		}
+		bools[i] = bit
 	}
 
 	*v.val = bools
@@ -172,10 +175,15 @@ func (v bitArrayToUint8Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	uint8s := make([]uint8, len(elems))
 	for i := 0; i < len(elems); i++ {
-		if elems[i][0] == '1' {
+		if pgIsNULL(elems[i]) {
+			continue
+		}
+		bit, err := pgParseBit(elems[i])
+		if err != nil {
+			return err
+		}
+		if bit {
 			uint8s[i] = 1
-		} else {
-			uint8s[i] = 0
 		}
 	}
 
@@ -199,10 +207,15 @@ func (v bitArrayToUintSlice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	uints := make([]uint, len(elems))
 	for i := 0; i < len(elems); i++ {
-		if elems[i][0] == '1' {
+		if pgIsNULL(elems[i]) {
+			continue
+		}
+		bit, err := pgParseBit(elems[i])
+		if err != nil {
+			return err
+		}
+		if bit {
 			uints[i] = 1
-		} else {
-			uints[i] = 0
 		}
 	}
 
diff --git a/pgsql/boolarr.go b/pgsql/boolarr.go
index 2ff4534..066d4e6 100644
--- a/pgsql/boolarr.go
+++ b/pgsql/boolarr.go
@@ -3,6 +3,7 @@ package pgsql
 import (
 	"database/sql"
 	"database/sql/driver"
+	"fmt"
 )
 
 // BoolArrayFromBoolSlice returns a driver.Valuer that produces a PostgreSQL boolean[] from the given Go []bool.
@@ -60,10 +61,13 @@ func (v boolArrayToBoolSlice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	bools := make([]bool, len(elems))
 	for i := 0; i < len(elems); i++ {
-		if elems[i][0] == 't' {
+		switch string(elems[i]) {
+		case "t":
 			bools[i] = true
-		} else {
+		case "f", "NULL":
 			bools[i] = false
+		default:
+			return fmt.Errorf("pgsql: %q is not a bool", elems[i])
 		}
 	}
 
diff --git a/pgsql/box.go b/pgsql/box.go
index d9707dc..03ff1c5 100644
--- a/pgsql/box.go
+++ b/pgsql/box.go
@@ -3,6 +3,7 @@ package pgsql
 import (
 	"database/sql"
 	"database/sql/driver"
+	"fmt"
 	"strconv"
 )
 
@@ -50,6 +51,9 @@ func (v boxToFloat64Array2Array2) Scan(src interface{}) error {
 	}
 
 	elems := pgParseBox(data)
+	if len(elems) != 4 {
+		return fmt.Errorf("pgsql: %q is not a box", data)
+	}
 
 	var box [2][2]float64
 	x1, err := strconv.ParseFloat(string(elems[0]), 64)
diff --git a/pgsql/boxarr.go b/pgsql/boxarr.go
index 04587f1..fc4e049 100644
--- a/pgsql/boxarr.go
+++ b/pgsql/boxarr.go
@@ -3,6 +3,7 @@ package pgsql
 import (
 	"database/sql"
 	"database/sql/driver"
+	"fmt"
 	"strconv"
 )
 
@@ -61,6 +62,9 @@ func (v boxArrayToFloat64Array2Array2Slice) Scan(src interface{}) error {
 	}
 
 	elems := pgParseBoxArray(data)
+	if len(elems)%4 != 0 {
+		return fmt.Errorf("pgsql: %q is not an array of boxes", data)
+	}
 
 	n := len(elems) / 4
 	boxes := make([][2][2]float64, n)
diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index 1d79590..3112759 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -168,67 +168,12 @@ func pgparsehstorearr(a []byte) (out [][][2][]byte) {
 	if len(a) == 0 {
 		return out // nothing to do if empty
 	}
-	a = pgUnwrap(a) // drop array delimiters
 
-	var (
-		idx  uint8     // pair index 0=key 1=val
-		pair [2][]byte // current pair
-	)
-
-	for i := 0; i < len(a); i++ {
-		if a[i] == '"' { // start of hstore in array?
-			hstore := [][2][]byte{}
-
-			for j := i + 1; j < len(a); j++ {
-
-				if a[j] == '\\' && a[j+1] == '"' { // start of key or value?
-					pair[idx] = []byte{}
-					for k := j + 2; k < len(a); k++ {
-						if a[k] == '\\' {
-							if a[k+1] == '\\' { // escape??
-								k += 3 // skip escaped char
-								pair[idx] = append(pair[idx], a[k])
-								continue
-							}
-
-							if a[k+1] == '"' { // key or value ending quote?
-								j = k + 2
-								break
-							}
-						}
-
-						pair[idx] = append(pair[idx], a[k])
-					}
-
-					if idx == 1 { // is the pair done?
-						hstore = append(hstore, pair)
-						pair = [2][]byte{} // next pair
-					}
-
-					// flip the index
-					idx ^= 1
-				}
-
-				// handle NULL value in pair
-				if a[j] == 'N' {
-					j += 4
-					idx = 0
-					hstore = append(hstore, pair)
-					pair = [2][]byte{} // next pair
-				}
-
-				if a[j] == '"' { // end of hstore in array?
-					out = append(out, hstore)
-					i = j
-					break
-				}
-			}
-		}
-
-		// handle NULL hstore
-		if a[i] == 'N' {
+	for _, elem := range pgParseStringArray(a) {
+		if elem == nil { // NULL hstore
 			out = append(out, nil)
-			i += 4
+		} else {
+			out = append(out, append([][2][]byte{}, pgparsehstore(elem)...))
 		}
 	}
 	return out
@@ -503,7 +448,7 @@ func pgParseLineArray(a []byte) (out [][3][]byte) {
 			i += 2 // len(`"{`) == 2
 			n := 0
 			for j := i; j < len(a); j++ {
-				if a[j] == ',' {
+				if a[j] == ',' && n < 2 {
 					line[n] = a[i:j]
 					i = j + 1
 					n += 1
@@ -543,7 +488,7 @@ func pgParsePointArray(a []byte) (out [][2][]byte) {
 		if a[i] == '"' { // point start
 			var point [2][]byte
 			for j := i + 2; j < len(a); j++ {
-				if a[j] == ',' {
+				if a[j] == ',' && point[0] == nil {
 					point[0] = a[i+2 : j]
 					i = j
 				} else if a[j] == ')' {
@@ -685,7 +630,7 @@ func pgParseBox(a []byte) (out [][]byte) {
 	}
 
 	// append the last element
-	if n > 0 {
+	if n > 0 && n <= len(a) {
 		out = append(out, a[n:])
 	}
 	return out
@@ -714,7 +659,7 @@ func pgParseBoxArray(a []byte) (out [][]byte) {
 	}
 
 	// append the last element
-	if n > 0 {
+	if n > 0 && n <= len(a) {
 		out = append(out, a[n:])
 	}
 	return out
@@ -739,6 +684,19 @@ func pgParseCommaArray(a []byte) (out [][]byte) {
 	return out
 }
 
+// pgIsNULL reports whether a, an unquoted element of an array, is the NULL.
+func pgIsNULL(a []byte) bool {
+	return string(a) == `NULL`
+}
+
+// Expected format: '0' or '1'.
+func pgParseBit(a []byte) (bool, error) {
+	if len(a) != 1 || (a[0] != '0' && a[0] != '1') {
+		return false, fmt.Errorf("pgsql: %q is not a bit", a)
+	}
+	return a[0] == '1', nil
+}
+
 // Expected format: 'E[ ...]' (space separated list of elements, in which single quoted text may itself contain spaces).
 func pgParseVector(a []byte) (out [][]byte) {
 	var j int
diff --git a/pgsql/timestamparr.go b/pgsql/timestamparr.go
index 287ea0d..f3ef1c9 100644
--- a/pgsql/timestamparr.go
+++ b/pgsql/timestamparr.go
@@ -1,6 +1,7 @@
 package pgsql
 
 import (
+	"bytes"
 	"database/sql"
 	"database/sql/driver"
 	"time"
@@ -64,7 +65,7 @@ func (v timestampArrayToTimeSlice) Scan(src interface{}) error {
 			continue
 		}
 
-		ts = ts[1 : len(ts)-1] // drop surrounding double quotes
+		ts = bytes.Trim(ts, `"`) // drop surrounding double quotes
 		t, err := time.ParseInLocation(timestampLayout, string(ts), noZone)
 		if err != nil {
 			return err
diff --git a/pgsql/timestamptzarr.go b/pgsql/timestamptzarr.go
index d4b6829..f49615f 100644
--- a/pgsql/timestamptzarr.go
+++ b/pgsql/timestamptzarr.go
@@ -1,6 +1,7 @@
 package pgsql
 
 import (
+	"bytes"
 	"database/sql"
 	"database/sql/driver"
 	"time"
@@ -65,7 +66,7 @@ func (v timestamptzArrayToTimeSlice) Scan(src interface{}) error {
 			continue
 		}
 
-		ts = ts[1 : len(ts)-1] // drop surrounding double quotes
+		ts = bytes.Trim(ts, `"`) // drop surrounding double quotes
 		t, err := pgParseWithZone(timestampLayout, ts)
 		if err != nil {
 			return err
diff --git a/pgsql/varbit.go b/pgsql/varbit.go
index a3904c4..a15fbcc 100644
--- a/pgsql/varbit.go
+++ b/pgsql/varbit.go
@@ -104,9 +104,11 @@ func (v varBitToBoolSlice) Scan(src interface{}) error {
 
 	bools := make([]bool, len(data))
 	for i := 0; i < len(data); i++ {
-		if data[i] == '1' {
-			bools[i] = true
+		bit, err := pgParseBit(data[i : i+1])
+		if err != nil {
+			return err
 		}
+		bools[i] = bit
 	}
 
 	*v.val = bools
@@ -150,7 +152,11 @@ func (v varBitToUint8Slice) Scan(src interface{}) error {
 
 	uint8s := make([]uint8, len(data))
 	for i := 0; i < len(data); i++ {
-		if data[i] == '1' {
+		bit, err := pgParseBit(data[i : i+1])
+		if err != nil {
+			return err
+		}
+		if bit {
 			uint8s[i] = 1
 		}
 	}
diff --git a/pgsql/varbitarr.go b/pgsql/varbitarr.go
index a73bba0..89bd463 100644
--- a/pgsql/varbitarr.go
+++ b/pgsql/varbitarr.go
@@ -118,7 +118,7 @@ func (v varBitArrayToBoolSliceSlice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	boolss := make([][]bool, len(elems))
 	for i := 0; i < len(elems); i++ {
-		if len(elems[i]) == 4 && elems[i][0] == 'N' { // NULL?
+		if pgIsNULL(elems[i]) {
 			continue
 		}
 		if len(elems[i]) == 2 && elems[i][0] == '"' { // ""?
@@ -128,9 +128,11 @@ func (v varBitArrayToBoolSliceSlice) Scan(src interface{}) error {
 
 		bools := make([]bool, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
-			if elems[i][j] == '1' {
-				bools[j] = true
+			bit, err := pgParseBit(elems[i][j : j+1])
+			if err != nil {
+				return err
 			}
+			bools[j] = bit
 		}
 
 		boolss[i] = bools
@@ -212,7 +214,7 @@ func (v varBitArrayToUint8SliceSlice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	uint8ss := make([][]uint8, len(elems))
 	for i := 0; i < len(elems); i++ {
-		if len(elems[i]) == 4 && elems[i][0] == 'N' { // NULL?
+		if pgIsNULL(elems[i]) {
 			continue
 		}
 		if len(elems[i]) == 2 && elems[i][0] == '"' { // ""?
@@ -222,7 +224,11 @@ func (v varBitArrayToUint8SliceSlice) Scan(src interface{}) error {
 
 		uint8s := make([]uint8, len(elems[i]))
 		for j := 0; j < len(elems[i]); j++ {
-			if elems[i][j] == '1' {
+			bit, err := pgParseBit(elems[i][j : j+1])
+			if err != nil {
+				return err
+			}
+			if bit {
 				uint8s[j] = 1
 			}
 		}
-- 
2.43.0


From defe592b0ff007fb5bd5ce261748a12cd4ad2b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 15/88] fix: command: check and format everything before
 writing anything, never overwrite an input file

---
 internal/command/command.go | 101 +++++++++++++++++++++++++++++-------
 1 file changed, 81 insertions(+), 20 deletions(-)

diff --git a/internal/command/command.go b/internal/command/command.go
index cc94378..6880967 100644
--- a/internal/command/command.go
+++ b/internal/command/command.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"fmt"
 	"go/format"
-	"io"
 	"os"
 	"path/filepath"
 	"strings"
@@ -95,16 +94,33 @@ func (cmd *Command) Run() error {
 		result[i] = outFiles
 	}
 
-	// 5. write to file(s)
-	for _, outFiles := range result {
-		for _, out := range outFiles {
-			if err := cmd.writeOutFile(out); err != nil {
+	// 5. format & check, to make sure that nothing is written if anything is wrong
+	inPaths := make(map[string]bool)
+	for _, pkg := range pkgs {
+		for _, file := range pkg.Files {
+			inPaths[file.Path] = true
+		}
+	}
+	var outFiles []*outFile
+	outPaths := make(map[string]bool)
+	for _, files := range result {
+		for _, out := range files {
+			if inPaths[out.path] {
+				return fmt.Errorf("output file would overwrite an input file: %q", out.path)
+			} else if outPaths[out.path] {
+				return fmt.Errorf("output file of more than one input file: %q", out.path)
+			}
+			outPaths[out.path] = true
+
+			if err := out.prepare(); err != nil {
 				return err
 			}
+			outFiles = append(outFiles, out)
 		}
 	}
 
-	return nil
+	// 6. write to file(s)
+	return writeOutFiles(outFiles)
 }
 
 func (cmd *Command) outFilePath(inFilePath string) string {
@@ -126,30 +142,75 @@ type outFile struct {
 	targInfos []*postgres.TargetInfo
 	// the generated code
 	buf bytes.Buffer
+	// the generated code after formatting
+	code []byte
+	// the mode of the output file
+	mode os.FileMode
 }
 
-func (cmd *Command) writeOutFile(out *outFile) (err error) {
-	f, err := os.Create(out.path)
+// prepare formats the generated code and checks that the output file can be written.
+func (out *outFile) prepare() (err error) {
+	// make it look pretty
+	if out.code, err = format.Source(out.buf.Bytes()); err != nil {
+		return fmt.Errorf("failed formatting code for %q -- %v", out.path, err)
+	}
+
+	out.mode = 0666 // before umask
+	if path, err := filepath.EvalSymlinks(out.path); err == nil {
+		out.path = path // write to the link's target
+	}
+	info, err := os.Lstat(out.path)
+	if os.IsNotExist(err) {
+		return nil
+	} else if err != nil {
+		return err
+	}
+	if !info.Mode().IsRegular() {
+		return fmt.Errorf("output file is not a regular file: %q", out.path)
+	}
+	f, err := os.OpenFile(out.path, os.O_WRONLY, 0)
 	if err != nil {
 		return err
 	}
+	out.mode = info.Mode().Perm()
+	return f.Close()
+}
+
+// writeOutFiles first writes the code of all of the files to temporary files
+// and only once that succeeds does it replace the actual output files.
+func writeOutFiles(outFiles []*outFile) (err error) {
+	tmpPaths := make([]string, 0, len(outFiles))
 	defer func() {
-		f.Close()
-		if err != nil {
-			os.Remove(out.path)
+		for _, path := range tmpPaths {
+			os.Remove(path)
 		}
 	}()
 
-	// make it look pretty
-	bs, err := format.Source(out.buf.Bytes())
-	if err != nil {
-		return err
-	}
+	for _, out := range outFiles {
+		path := fmt.Sprintf("%s.%d.tmp", out.path, os.Getpid())
+		f, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_EXCL, out.mode)
+		if err != nil {
+			return err
+		}
+		tmpPaths = append(tmpPaths, path)
 
-	buf := bytes.NewBuffer(bs)
-	if _, err := io.Copy(f, buf); err != nil {
-		return err
+		_, err = f.Write(out.code)
+		if err == nil {
+			err = f.Sync()
+		}
+		if e := f.Close(); err == nil {
+			err = e
+		}
+		if err != nil {
+			return err
+		}
 	}
 
-	return f.Sync()
+	for i, out := range outFiles {
+		if err := os.Rename(tmpPaths[i], out.path); err != nil {
+			return err
+		}
+	}
+	tmpPaths = nil
+	return nil
 }
-- 
2.43.0


From de29a95398841e659e8fd6d3aaa64f17abb536e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 16/88] fix: search: targets are struct types, not aliases or
 types of another kind

---
 internal/search/search.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/search/search.go b/internal/search/search.go
index 1fce5a9..408dd15 100644
--- a/internal/search/search.go
+++ b/internal/search/search.go
@@ -123,6 +123,10 @@ func Search(dir string, recursive bool, filter func(filePath string) bool) (out
 					if !ok {
 						continue
 					}
+					// an alias is not a declaration of a new type, and only structs are targets
+					if _, ok := named.Underlying().(*types.Struct); !ok || typeSpec.Assign.IsValid() {
+						continue
+					}
 
 					match := new(Match)
 					match.Named = named
-- 
2.43.0


From 6c847f1792816476d3e75084e29800c9cd818225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 17/88] fix: config: refuse a method name that is not an
 identifier

---
 internal/config/config.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/config/config.go b/internal/config/config.go
index 9f15135..494260c 100644
--- a/internal/config/config.go
+++ b/internal/config/config.go
@@ -285,6 +285,11 @@ func (c *Config) Validate() (err error) {
 		return fmt.Errorf("bad filter column key separator: %q", c.FilterColumnKeySeparator.Value)
 	}
 
+	// check that the method name can be used as the name of a method
+	if name := c.MethodName.Value; !token.IsIdentifier(name) || name == "_" {
+		return fmt.Errorf("bad method name: %q", name)
+	}
+
 	// check that the method argument type implements the required interface
 	if c.MethodArgumentType.String() != "github.com/frk/gosql.Conn" {
 		if err := checkMethodArgumentType(&c.MethodArgumentType, c); err != nil {
-- 
2.43.0


From aec8c3d1d385e674d6a379ba2d90bb2fe40a3f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 18/88] fix: analysis: a relation type used from two packages
 is analysed for each of them

---
 internal/analysis/analysis.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 6a79c29..9e8a788 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -437,11 +437,11 @@ func analyzeRelType(a *analysis, rt *RelType, field *types.Var) error {
 	}()
 
 	ftyp := field.Type()
-	cacheKey := ftyp.String()
+	// The result of the analysis depends also on the package in which the type is used.
+	cacheKey := a.pkgPath + "|" + ftyp.String()
 	named, ok := ftyp.(*types.Named)
 	if ok {
 		ftyp = named.Underlying()
-		cacheKey = named.String()
 	}
 
 	relTypeCache.RLock()
-- 
2.43.0


From 23108085474d10714a3ef43b51dff1d90e236765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:13 +0000
Subject: [PATCH 19/88] fix: NOT BETWEEN, BETWEEN SYMMETRIC and ASYMMETRIC
 predicates keep their modifiers

---
 internal/analysis/enums.go      |  1 +
 internal/generator/generator.go | 10 ++++++++++
 2 files changed, 11 insertions(+)

diff --git a/internal/analysis/enums.go b/internal/analysis/enums.go
index d93b68e..7d3519d 100644
--- a/internal/analysis/enums.go
+++ b/internal/analysis/enums.go
@@ -355,6 +355,7 @@ var predicates = [...]string{
 // predicateAdjectives is a whitelist of predicate adjectives and adverbs. Used for parsing tags.
 var predicateAdjectives = []string{
 	"between",
+	"betweenasym",
 	"betweensym",
 	"distinct",
 	"false",
diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index bb0b456..5a39a18 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1413,6 +1413,16 @@ func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, s
 func makeSQLBetweenPredicate(g *generator, cond *postgres.BetweenConditional) SQL.BetweenPredicate {
 	predicate := SQL.BetweenPredicate{}
 	predicate.Predicand = makeColRef(cond.ColIdent)
+	switch cond.Predicate {
+	case analysis.NotBetween, analysis.NotBetweenSym, analysis.NotBetweenAsym:
+		predicate.Not = true
+	}
+	switch cond.Predicate {
+	case analysis.IsBetweenSym, analysis.NotBetweenSym:
+		predicate.Sym = SQL.SYMMETRIC
+	case analysis.IsBetweenAsym, analysis.NotBetweenAsym:
+		predicate.Sym = SQL.ASYMMETRIC
+	}
 
 	switch lower := cond.LowerBound.(type) {
 	case *postgres.ColumnConditional:
-- 
2.43.0


From af96260ba2eeeceb535aee1f18071d3261232be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:13 +0000
Subject: [PATCH 20/88] fix: generator: apply limit and offset fallbacks before
 collecting the parameters

---
 internal/generator/generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 5a39a18..61b8406 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -241,6 +241,10 @@ func buildQueryCode(g *generator, qs *analysis.QueryStruct) {
 		g.queryCallStmt,
 		g.queryResultStmt,
 	}
+	if len(g.inputSliceArgs) > 0 && len(g.queryLimitAndOffsetFallback) > 1 {
+		// the fallbacks must be in place before the params are collected
+		method.Body.List[0], method.Body.List[1] = method.Body.List[1], method.Body.List[0]
+	}
 
 	if g.cfg.MethodWithContext.Value {
 		ctxType := GO.TypeNode(GO.QualifiedIdent{"context", "Context"})
-- 
2.43.0


From dfaceb2cbde795aae740261f36718fc2bbdc2825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:13 +0000
Subject: [PATCH 21/88] fix: generator: qualify the target relation's columns
 in queries over several relations

---
 internal/generator/generator.go | 36 +++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 61b8406..b2f5d30 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -99,6 +99,9 @@ type generator struct {
 	closeFilter bool
 	// The query method's receiver identifier.
 	queryRecv GO.Ident
+	// The qualifier for references to the target relation's unqualified columns,
+	// set only if the query involves more than one relation.
+	targetQual string
 
 	inputPKeys []*postgres.FieldWrite
 	// The root node for the fields to be passed as input to the query (Exec|Query|QueryRow).
@@ -185,6 +188,13 @@ func buildQueryCode(g *generator, qs *analysis.QueryStruct) {
 		_ = addimport(g.file, "context", "")
 	}
 
+	if qs.Join != nil || qs.IsUpdateSlice() {
+		g.targetQual = qs.Rel.Id.Alias
+		if len(g.targetQual) == 0 {
+			g.targetQual = `"` + qs.Rel.Id.Name + `"`
+		}
+	}
+
 	buildQueryInput(g, qs)
 	buildQueryOutput(g, qs)
 
@@ -587,7 +597,7 @@ func buildQueryOutputSourceColumns(g *generator, qs *analysis.QueryStruct) {
 
 	for _, fr := range g.info.Reads {
 		var expr SQL.ValueExpr
-		expr = makeColRef(fr.ColIdent)
+		expr = makeColRef(g, fr.ColIdent)
 		if fr.NeedsCOALESCE() {
 			expr = addCoalesceCallExpr(expr, fr.Field.CoalesceValue, fr.Column)
 		}
@@ -1151,7 +1161,7 @@ func buildSQLOrderClause(g *generator, qs *analysis.QueryStruct) {
 
 	for _, item := range qs.OrderBy.Items {
 		order := SQL.OrderBy{}
-		order.Column = makeColRef(item.ColIdent)
+		order.Column = makeColRef(g, item.ColIdent)
 		order.Desc = (item.Direction == analysis.OrderDesc)
 		order.NullsFirst = (item.Nulls == analysis.NullsFirst)
 		g.orderClause.List = append(g.orderClause.List, order)
@@ -1195,7 +1205,7 @@ func buildSQLWhereClause(g *generator, qs *analysis.QueryStruct) {
 		for i, fw := range g.info.PKeys {
 			predicate := SQL.ComparisonPredicate{}
 			predicate.Cmp = sqlCMPOP[analysis.IsEQ]
-			predicate.LPredicand = makeColRef(fw.ColIdent)
+			predicate.LPredicand = makeColRef(g, fw.ColIdent)
 			predicate.RPredicand = makeParamSpec(g, fw.Field)
 
 			if qs.Rel.Type.IsSlice {
@@ -1277,7 +1287,7 @@ func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, s
 				fieldName = cond.FieldName // needed for isin/notin predicates
 				pred = cond.Predicate
 				qua = cond.Quantifier
-				lhs = makeColRef(cond.ColIdent)
+				lhs = makeColRef(g, cond.ColIdent)
 				rhs = makeParamSpec(g, cond)
 
 				if len(cond.FuncName) > 0 {
@@ -1298,9 +1308,9 @@ func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, s
 			case *postgres.ColumnConditional:
 				pred = cond.Predicate
 				qua = cond.Quantifier
-				lhs = makeColRef(cond.LHSColIdent)
+				lhs = makeColRef(g, cond.LHSColIdent)
 				if !cond.RHSColIdent.IsEmpty() {
-					rhs = makeColRef(cond.RHSColIdent)
+					rhs = makeColRef(g, cond.RHSColIdent)
 				} else if len(cond.RHSLiteral) > 0 {
 					rhs = SQL.Literal{cond.RHSLiteral}
 				}
@@ -1416,7 +1426,7 @@ func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, s
 // makeSQLBetweenPredicate
 func makeSQLBetweenPredicate(g *generator, cond *postgres.BetweenConditional) SQL.BetweenPredicate {
 	predicate := SQL.BetweenPredicate{}
-	predicate.Predicand = makeColRef(cond.ColIdent)
+	predicate.Predicand = makeColRef(g, cond.ColIdent)
 	switch cond.Predicate {
 	case analysis.NotBetween, analysis.NotBetweenSym, analysis.NotBetweenAsym:
 		predicate.Not = true
@@ -1430,14 +1440,14 @@ func makeSQLBetweenPredicate(g *generator, cond *postgres.BetweenConditional) SQ
 
 	switch lower := cond.LowerBound.(type) {
 	case *postgres.ColumnConditional:
-		predicate.LowEnd = makeColRef(lower.RHSColIdent)
+		predicate.LowEnd = makeColRef(g, lower.RHSColIdent)
 	case *postgres.FieldConditional:
 		predicate.LowEnd = makeParamSpec(g, lower)
 	}
 
 	switch upper := cond.UpperBound.(type) {
 	case *postgres.ColumnConditional:
-		predicate.HighEnd = makeColRef(upper.RHSColIdent)
+		predicate.HighEnd = makeColRef(g, upper.RHSColIdent)
 	case *postgres.FieldConditional:
 		predicate.HighEnd = makeParamSpec(g, upper)
 	}
@@ -2289,8 +2299,12 @@ func makeRelTypeNode(reltyp analysis.RelType) GO.TypeNode {
 	return GO.Ident{reltyp.Base.Name}
 }
 
-// makeColRef
-func makeColRef(id analysis.ColIdent) SQL.ColumnReference {
+// makeColRef builds a reference to the identified column. An unqualified column
+// is a column of the target relation.
+func makeColRef(g *generator, id analysis.ColIdent) SQL.ColumnReference {
+	if len(id.Qualifier) == 0 {
+		id.Qualifier = g.targetQual
+	}
 	return SQL.ColumnReference{
 		Qual: id.Qualifier,
 		Name: SQL.Name(id.Name),
-- 
2.43.0


From 8a75421ea8ab20ec782f4d4047a4d2e7c74bc432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 22/88] fix: generator: put a delete's RETURNING clause after
 its filter

---
 internal/generator/generator.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index b2f5d30..3284315 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1072,7 +1072,12 @@ func buildSQLDeleteStatement(g *generator, qs *analysis.QueryStruct) {
 	}
 
 	stmt.Where = g.whereClause
-	stmt.Returning = SQL.ReturningClause(g.outputVals) //returning
+	if qs.Filter != nil && len(g.outputVals) > 0 {
+		// the filter's WHERE clause goes before the RETURNING clause
+		g.sqlTailNode = SQL.ReturningClause(g.outputVals)
+	} else {
+		stmt.Returning = SQL.ReturningClause(g.outputVals) //returning
+	}
 	g.sqlMainNode = stmt
 }
 
-- 
2.43.0


From 50d490ff54fc1dadbe01310d505c6eecbd21b8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 23/88] fix: generator: updates by primary key with columns set
 to their default

---
 internal/generator/generator.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 3284315..a0b3151 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -314,7 +314,12 @@ func buildQueryInputTargetValues(g *generator, qs *analysis.QueryStruct) {
 
 	for _, fw := range g.info.Writes {
 		if canUseDefault(qs, fw.Field) {
-			g.inputVals = append(g.inputVals, SQL.DEFAULT)
+			if qs.IsUpdateSlice() {
+				// DEFAULT is not allowed inside of the VALUES list
+				g.updateCols = append(g.updateCols, SQL.DEFAULT)
+			} else {
+				g.inputVals = append(g.inputVals, SQL.DEFAULT)
+			}
 			continue
 		}
 
@@ -1025,7 +1030,13 @@ func buildSQLUpdateStatement(g *generator, qs *analysis.QueryStruct) {
 	if qs.Rel.Type.IsSlice {
 		stmt.Head.From.List = append(stmt.Head.From.List, SQL.ValuesListClausePartial{})
 
-		columns := append(g.inputCols, g.inputColsPKeys...)
+		columns := SQL.NameGroup{}
+		for _, fw := range g.info.Writes {
+			if !canUseDefault(qs, fw.Field) {
+				columns = append(columns, SQL.Name(fw.Column.Name))
+			}
+		}
+		columns = append(columns, g.inputColsPKeys...)
 		alias := SQL.ValuesListAliasPartial{Alias: "x", Columns: columns}
 		tail := SQL.UpdateTail{Where: g.whereClause, Returning: SQL.ReturningClause(g.outputVals)}
 		g.sqlTailNode = SQL.NodeList{alias, tail}
@@ -2075,11 +2086,14 @@ func buildQueryResultRowsScan(g *generator, qs *analysis.QueryStruct) {
 // Helpers
 //
 
+// inputPKeys returns the primary key fields whose values are not already
+// among the values to be written.
 func inputPKeys(t *postgres.TargetInfo) (out []*postgres.FieldWrite) {
+	qs, _ := t.Struct.(*analysis.QueryStruct)
 	for i := 0; i < len(t.PKeys); i++ {
 		elide := false
 		for j := 0; j < len(t.Writes); j++ {
-			if t.Writes[j].Field == t.PKeys[i].Field {
+			if t.Writes[j].Field == t.PKeys[i].Field && !canUseDefault(qs, t.Writes[j].Field) {
 				elide = true
 			}
 		}
-- 
2.43.0


From 7506a0237e4a3beb8e59fdbb8815bd229708eb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 24/88] fix: generator: encode primary key values the way
 written values are

---
 internal/generator/generator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index a0b3151..7314dcb 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -436,6 +436,7 @@ func buildQueryInputPKeyFields(g *generator, qs *analysis.QueryStruct) {
 				fx = GO.SelectorExpr{X: fx, Sel: GO.Ident{node.Name}}
 			}
 			fx = GO.SelectorExpr{X: fx, Sel: GO.Ident{fw.Field.Name}}
+			fx = addConverterCallExpr(g, fx, fw.Valuer)
 			g.inputArgs = append(g.inputArgs, fx)
 		}
 	}
-- 
2.43.0


From e3f4818d50005ec8c5058993956bc05051590f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 25/88] fix: field and nesting options that forbid reading or
 writing always apply

---
 internal/analysis/types.go    | 33 +++++++++++++++++++++++++++++++++
 internal/postgres/postgres.go |  6 +++---
 2 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/internal/analysis/types.go b/internal/analysis/types.go
index d2c5df5..9e730fb 100644
--- a/internal/analysis/types.go
+++ b/internal/analysis/types.go
@@ -691,6 +691,39 @@ func (f FieldInfo) IsWriteOnly() bool {
 	return f.Mode.IsWriteOnly()
 }
 
+// CanSelect reports whether or not the field, and all of the fields
+// that it is nested in, can be read by queries.
+func (f FieldInfo) CanSelect() bool {
+	for i := range f.Selector {
+		if !f.Selector[i].Mode.CanSelect() {
+			return false
+		}
+	}
+	return f.Mode.CanSelect()
+}
+
+// CanInsert reports whether or not the field, and all of the fields
+// that it is nested in, can be written by INSERTs.
+func (f FieldInfo) CanInsert() bool {
+	for i := range f.Selector {
+		if !f.Selector[i].Mode.CanInsert() {
+			return false
+		}
+	}
+	return f.Mode.CanInsert()
+}
+
+// CanUpdate reports whether or not the field, and all of the fields
+// that it is nested in, can be written by UPDATEs.
+func (f FieldInfo) CanUpdate() bool {
+	for i := range f.Selector {
+		if !f.Selector[i].Mode.CanUpdate() {
+			return false
+		}
+	}
+	return f.Mode.CanUpdate()
+}
+
 func (f FieldInfo) ExcludeFromFilter() bool {
 	for i := range f.Selector {
 		if f.Selector[i].Mode.CanExcludeFilter() {
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 4e996c3..ec3743d 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1989,17 +1989,17 @@ func loadRelation(c *checker, db *DB, rid analysis.RelIdent, ptr analysis.FieldP
 
 // skipFieldInsert reports whether or not the given FieldWrite should be skipped for INSERTs.
 func skipFieldInsert(c *checker, fw *FieldWrite) bool {
-	return !fw.Field.Mode.CanInsert() && (c.force == nil || !c.force.Contains(fw.ColIdent))
+	return !fw.Field.CanInsert() && (c.force == nil || !c.force.Contains(fw.ColIdent))
 }
 
 // skipFieldUpdate reports whether or not the given FieldWrite should be skipped for UPDATEs.
 func skipFieldUpdate(c *checker, fw *FieldWrite) bool {
-	return !fw.Field.Mode.CanUpdate() && (c.force == nil || !c.force.Contains(fw.ColIdent))
+	return !fw.Field.CanUpdate() && (c.force == nil || !c.force.Contains(fw.ColIdent))
 }
 
 // skipFieldRead reports whether or not the given FieldRead should be skipped.
 func skipFieldRead(c *checker, fr *FieldRead) bool {
-	return fr.Field.IsWriteOnly() && (c.force == nil || !c.force.Contains(fr.ColIdent))
+	return !fr.Field.CanSelect() && (c.force == nil || !c.force.Contains(fr.ColIdent))
 }
 
 // typeCompatibility
-- 
2.43.0


From 8273172341420c1dec0ee556c6d3878a93c38007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:23 +0000
Subject: [PATCH 26/88] fix: refuse updates and deletes that do not say which
 rows they affect

---
 internal/postgres/errors.go   | 17 ++++++++++++++
 internal/postgres/postgres.go | 44 +++++++++++++++++++++++++++++++----
 2 files changed, 57 insertions(+), 4 deletions(-)

diff --git a/internal/postgres/errors.go b/internal/postgres/errors.go
index adf1e1b..306c9c2 100644
--- a/internal/postgres/errors.go
+++ b/internal/postgres/errors.go
@@ -40,6 +40,10 @@ const (
 	errRelationIndexGet          // TODO
 	errRelationIndexScan         // TODO
 
+	// row identification errors
+	errQualifierMissing
+	errPrimaryKeyIncomplete
+
 	// column errors
 	errColumnUnknown
 	errColumnDefaultUnset
@@ -408,6 +412,19 @@ Relation error templates
     {{- template "external_error_issue" . }}
 {{ end }}
 
+{{ define "` + errQualifierMissing.name() + `" -}}
+{{Wb .Field.File.NameAndLine}}: {{Y "Missing qualifier."}}
+    The query type "{{R .Target.Name}}" would affect every row of the relation "{{R .Rel.Name}}".
+    - use a {{Wb "where"}} struct, or a filter field, to specify which rows should be affected.
+    - use the {{Wb "gosql.All"}} directive to affect all the rows.
+{{ end }}
+
+{{ define "` + errPrimaryKeyIncomplete.name() + `" -}}
+{{Wb .Field.File.NameAndLine}}: {{Y "Missing primary key."}}
+    The fields of the query type "{{R .Target.Name}}" do not constitute a complete primary key of the relation "{{R .Rel.Name}}".
+    - an update without a {{Wb "where"}} struct, a filter field, or the {{Wb "gosql.All"}} directive, identifies the rows by the primary key.
+{{ end }}
+
 --------------------------------------------------------------------------------
 Column error templates
 --------------------------------------------------------------------------------
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index ec3743d..c80c65a 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -263,6 +263,8 @@ func typeCheckQueryStruct(c *checker, qs *analysis.QueryStruct) error {
 
 		typeCheckQueryWhereStruct,
 		typeCheckQueryOnConflictStruct,
+
+		typeCheckQueryQualifier,
 	}
 	for i := 0; i < len(checks); i++ {
 		if err := checks[i](c, qs); err != nil {
@@ -284,10 +286,6 @@ func typeCheckQueryStruct(c *checker, qs *analysis.QueryStruct) error {
 	// if this is a read query (select, or I,U,D with returning) the columns do
 	// not have to be unique.
 
-	// TODO(mkopriva): if this is an UPDATE but none of the columns associated
-	// with the available fields constitute a complete primary key of the table,
-	// an error should be returned as then there's no way to properly match the
-	// data instances with specific rows in the table.
 	return nil
 }
 
@@ -473,6 +471,44 @@ func typeCheckQueryRelField(c *checker, qs *analysis.QueryStruct) error {
 	return nil
 }
 
+// typeCheckQueryQualifier checks that an UPDATE or DELETE specifies which rows it affects.
+//
+// CHECKLIST:
+//
+//	✅ The where struct of an UPDATE or DELETE MUST contain at least one condition.
+//	✅ A DELETE MUST have a where struct, a filter field, or the All directive.
+//	✅ An UPDATE without those MUST have fields for the complete primary key.
+func typeCheckQueryQualifier(c *checker, qs *analysis.QueryStruct) error {
+	if qs.Kind != analysis.QueryKindUpdate && qs.Kind != analysis.QueryKindDelete {
+		return nil
+	}
+	if qs.HasQualifier() {
+		if qs.Where != nil && len(c.res.Where) == 0 {
+			return c.dbError(dbError{Code: errQualifierMissing, Rel: relInfo{Relation: c.rel}}, qs.Rel)
+		}
+		return nil
+	}
+	if qs.Kind == analysis.QueryKindDelete {
+		return c.dbError(dbError{Code: errQualifierMissing, Rel: relInfo{Relation: c.rel}}, qs.Rel)
+	}
+
+	complete := len(c.res.PKeys) > 0
+	for _, col := range c.rel.Columns {
+		if !col.IsPrimary {
+			continue
+		}
+		found := false
+		for _, fw := range c.res.PKeys {
+			found = found || fw.Column == col
+		}
+		complete = complete && found
+	}
+	if !complete {
+		return c.dbError(dbError{Code: errPrimaryKeyIncomplete, Rel: relInfo{Relation: c.rel}}, qs.Rel)
+	}
+	return nil
+}
+
 // typeCheckQueryJoinStruct ...
 func typeCheckQueryJoinStruct(c *checker, qs *analysis.QueryStruct) error {
 	if qs.Join == nil {
-- 
2.43.0


From 95b30085b854d4a4ae764876431251eba1e93b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 27/88] fix: pgsql: write NULL for a nil pointer to an xml
 value

---
 pgsql/xml.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pgsql/xml.go b/pgsql/xml.go
index 1f3f144..c2be989 100644
--- a/pgsql/xml.go
+++ b/pgsql/xml.go
@@ -49,5 +49,9 @@ func (x xmltype) Value() (driver.Value, error) {
 	if x.val == nil {
 		return nil, nil
 	}
+	if v := reflect.ValueOf(x.val); v.Kind() == reflect.Ptr && v.IsNil() {
+		// nothing to marshal, and the empty text cannot be unmarshaled
+		return nil, nil
+	}
 	return xml.Marshal(x.val)
 }
-- 
2.43.0


From b7f2511809bd807c82ccbed7d8c1550281251e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 28/88] fix: no order, limit or offset clauses where a count or
 a filter cannot have them

---
 internal/analysis/analysis.go   | 32 ++++++++++++++++++++++++++++++++
 internal/analysis/error.go      | 14 ++++++++++++++
 internal/generator/generator.go |  4 +++-
 3 files changed, 49 insertions(+), 1 deletion(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 9e8a788..1d4dc55 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -286,6 +286,10 @@ func analyzeQueryStruct(a *analysis, structType *types.Struct) (*QueryStruct, er
 		}
 	}
 
+	if err := checkSelectModifiers(a); err != nil {
+		return nil, err
+	}
+
 	// TODO(mkopriva): if QueryKind is Select, Update, or Insert, and the analyzed
 	// RelType.Fields slice is empty (for Select also check ResultType.Fields), then fail.
 
@@ -357,6 +361,34 @@ func analyzeQueryStructRelField(a *analysis, f *types.Var, ftag, reltag string)
 	return nil
 }
 
+// checkSelectModifiers ensures that the "order by", "limit", and "offset" clauses
+// are not used where they have no place: a "count" produces a single row, and
+// a filter comes with clauses of its own.
+func checkSelectModifiers(a *analysis) error {
+	ecode := errorCode(0)
+	if a.query.Kind == QueryKindSelectCount {
+		ecode = errIllegalCountModifier
+	} else if a.query.Filter != nil {
+		ecode = errIllegalFilterModifier
+	} else {
+		return nil
+	}
+
+	var ptr FieldPtr
+	if a.query.OrderBy != nil {
+		ptr = a.query.OrderBy
+	} else if a.query.Limit != nil {
+		ptr = a.query.Limit
+	} else if a.query.Offset != nil {
+		ptr = a.query.Offset
+	} else {
+		return nil
+	}
+
+	fv := a.info.FieldMap[ptr]
+	return a.error(ecode, fv.Var, "", fv.Tag, "", "")
+}
+
 // analyzeQueryStructDirective [ ... ]
 func analyzeQueryStructDirective(a *analysis, f *types.Var, tag string, dirname string) error {
 	analyzers := map[string]func(*analysis, *types.Var, string) error{
diff --git a/internal/analysis/error.go b/internal/analysis/error.go
index 20334a3..66ad746 100644
--- a/internal/analysis/error.go
+++ b/internal/analysis/error.go
@@ -232,6 +232,8 @@ const (
 	errBadBetweenPredicate
 	errBadJoinConditionLHS
 	errIllegalSliceUpdateModifier
+	errIllegalCountModifier
+	errIllegalFilterModifier
 	errIllegalListPredicate
 	errIllegalUnaryPredicate
 	errIllegalFieldQuantifier
@@ -520,6 +522,18 @@ var error_template_string = `
     {{Wb "FIX:"}} remove the {{R .FieldDefinition}} {{.FieldKind}} from the {{Wb .TargetName}} query type.
 {{ end }}
 
+{{ define "` + errIllegalCountModifier.name() + `" -}}
+{{Wb .FileAndLine}}: {{Y "Illegal count modifier."}}
+    The {{R .TargetXxx}} query types with a "{{Wb "Count"}}" field {{Wu "DO NOT"}} support {{R .FieldDefinition}} {{.FieldKind}}s.
+    {{Wb "FIX:"}} remove the {{R .FieldDefinition}} {{.FieldKind}} from the {{Wb .TargetName}} query type.
+{{ end }}
+
+{{ define "` + errIllegalFilterModifier.name() + `" -}}
+{{Wb .FileAndLine}}: {{Y "Illegal filter modifier."}}
+    The {{R .TargetXxx}} query types with a field of type {{Ci "gosql.Filter"}} {{Wu "DO NOT"}} support {{R .FieldDefinition}} {{.FieldKind}}s.
+    {{Wb "FIX:"}} remove the {{R .FieldDefinition}} {{.FieldKind}} from the {{Wb .TargetName}} query type and let the filter do its job.
+{{ end }}
+
 {{ define "` + errIllegalListPredicate.name() + `" -}}
 {{Wb .FileAndLine}}: {{Y "Illegal list predicate."}}
     The use of a {{Wi "list_predicate"}} with a field of non-sequence type is illegal ({{R .TagError}} in "{{R .TagExpr}}" from the field {{R .FieldDefinition}} in {{W .TargetName}}).
diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 7314dcb..b705804 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1144,7 +1144,9 @@ func buildSQLLimitClause(g *generator, qs *analysis.QueryStruct) {
 		// In case the QueryStruct doesn't have a "limit" field, but the relation
 		// field handles only a single record (i.e. it's not a slice, etc.)
 		// then, by default, generate a `LIMIT 1` clause.
-		if typ := qs.Rel.Type; !typ.IsArray && !typ.IsSlice && !typ.IsIter {
+		//
+		// A filter comes with a "limit" clause of its own.
+		if typ := qs.Rel.Type; qs.Filter == nil && !typ.IsArray && !typ.IsSlice && !typ.IsIter {
 			g.limitClause.Value = SQL.LimitInt(1)
 		}
 		return
-- 
2.43.0


From 0804e6f0ca2456e5e6355bade3ebd85a2f7c2114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:48 +0000
Subject: [PATCH 29/88] fix: recognise methods promoted from embedded fields

---
 internal/typesutil/predicates.go | 56 ++++++++++++++------------------
 1 file changed, 24 insertions(+), 32 deletions(-)

diff --git a/internal/typesutil/predicates.go b/internal/typesutil/predicates.go
index 2b063a6..cc2660a 100644
--- a/internal/typesutil/predicates.go
+++ b/internal/typesutil/predicates.go
@@ -314,10 +314,7 @@ func ImplementsErrorInfoHandler(named *types.Named) bool {
 
 // ImplementsGosqlConn reports whether or not the given named type implements the "gosql.Conn" interface.
 func ImplementsGosqlConn(named *types.Named) bool {
-	mm := Methoder(named)
-	if iface, ok := named.Underlying().(*types.Interface); ok {
-		mm = iface
-	}
+	mm := methodsOf(named)
 
 	var hasExec, hasQuery, hasQueryRow bool
 	var hasExecContext, hasQueryContext, hasQueryRowContext bool
@@ -418,10 +415,7 @@ func ImplementsGosqlFilterConstructor(typ types.Type) bool {
 		return false
 	}
 
-	mm := Methoder(named)
-	if iface, ok := named.Underlying().(*types.Interface); ok {
-		mm = iface
-	}
+	mm := methodsOf(named)
 
 	var hasInit, hasInitV2, hasCol, hasAnd, hasOr bool
 
@@ -491,10 +485,7 @@ func ImplementsGosqlFilterConstructor(typ types.Type) bool {
 // interface type, ImplementsScanner will report whether or not that interface
 // type declares, or embeds, the "Scan(interface{}) error" method.
 func ImplementsScanner(named *types.Named) bool {
-	if iface, ok := named.Underlying().(*types.Interface); ok {
-		return IsScanner(iface)
-	}
-	return IsScanner(named)
+	return IsScanner(methodsOf(named))
 }
 
 // IsScanner reports whether or not the given Methoder type declares,
@@ -522,10 +513,7 @@ func IsScanner(mm Methoder) bool {
 // an interface type, ImplementsValuer will report whether or not that interface
 // type declares, or embeds, the "Value() (driver.Value, error)" method.
 func ImplementsValuer(named *types.Named) bool {
-	if iface, ok := named.Underlying().(*types.Interface); ok {
-		return IsValuer(iface)
-	}
-	return IsValuer(named)
+	return IsValuer(methodsOf(named))
 }
 
 // IsValuer reports whether or not the given Methoder type declares,
@@ -553,10 +541,7 @@ func IsValuer(mm Methoder) bool {
 // is an interface type, ImplementsJSONMarshaler will report whether or not that
 // interface type declares, or embeds, the "MarshalJSON() ([]byte, error)" method.
 func ImplementsJSONMarshaler(named *types.Named) bool {
-	if iface, ok := named.Underlying().(*types.Interface); ok {
-		return IsJSONMarshaler(iface)
-	}
-	return IsJSONMarshaler(named)
+	return IsJSONMarshaler(methodsOf(named))
 }
 
 // IsJSONMarshaler reports whether or not the given Methoder type declares,
@@ -584,10 +569,7 @@ func IsJSONMarshaler(mm Methoder) bool {
 // is an interface type, ImplementsJSONUnmarshaler will report whether or not that
 // interface type declares, or embeds, the "UnmarshalJSON([]byte) (error)" method.
 func ImplementsJSONUnmarshaler(named *types.Named) bool {
-	if iface, ok := named.Underlying().(*types.Interface); ok {
-		return IsJSONUnmarshaler(iface)
-	}
-	return IsJSONUnmarshaler(named)
+	return IsJSONUnmarshaler(methodsOf(named))
 }
 
 // IsJSONUnmarshaler reports whether or not the given Methoder type declares,
@@ -615,10 +597,7 @@ func IsJSONUnmarshaler(mm Methoder) bool {
 // type, ImplementsXMLMarshaler will report whether or not that interface type declares,
 // or embeds, the "MarshalXML(*xml.Encoder, xml.StartElement) (error)" method.
 func ImplementsXMLMarshaler(named *types.Named) bool {
-	if iface, ok := named.Underlying().(*types.Interface); ok {
-		return IsXMLMarshaler(iface)
-	}
-	return IsXMLMarshaler(named)
+	return IsXMLMarshaler(methodsOf(named))
 }
 
 // IsXMLMarshaler reports whether or not the given Methoder type declares,
@@ -647,10 +626,7 @@ func IsXMLMarshaler(mm Methoder) bool {
 // type, ImplementsXMLUnmarshaler will report whether or not that interface type declares,
 // or embeds, the "UnmarshalXML(*xml.Decoder, xml.StartElement) (error)" method.
 func ImplementsXMLUnmarshaler(named *types.Named) bool {
-	if iface, ok := named.Underlying().(*types.Interface); ok {
-		return IsXMLUnmarshaler(iface)
-	}
-	return IsXMLUnmarshaler(named)
+	return IsXMLUnmarshaler(methodsOf(named))
 }
 
 // IsXMLUnmarshaler reports whether or not the given Methoder type declares,
@@ -681,6 +657,22 @@ type Methoder interface {
 	Method(i int) *types.Func
 }
 
+// methodSet is the Methoder that represents the full method set of a type,
+// i.e. including the methods that are promoted from the type's embedded fields.
+type methodSet struct{ *types.MethodSet }
+
+func (s methodSet) NumMethods() int          { return s.Len() }
+func (s methodSet) Method(i int) *types.Func { return s.At(i).Obj().(*types.Func) }
+
+// methodsOf returns the methods of the given named type or, if the
+// named type is not an interface, of the pointer to that type.
+func methodsOf(named *types.Named) Methoder {
+	if iface, ok := named.Underlying().(*types.Interface); ok {
+		return iface
+	}
+	return methodSet{types.NewMethodSet(types.NewPointer(named))}
+}
+
 // isbyteslice reports whether or not the given type is a []byte type.
 func isbyteslice(t types.Type) bool {
 	if s, ok := t.(*types.Slice); ok {
-- 
2.43.0


From 8fb33373f9531e9064a07570841d3eddb885d396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:48 +0000
Subject: [PATCH 30/88] fix: config: look for the method argument's package
 from the working directory

---
 internal/config/config.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/config/config.go b/internal/config/config.go
index 494260c..669a62b 100644
--- a/internal/config/config.go
+++ b/internal/config/config.go
@@ -359,6 +359,7 @@ func checkMethodArgumentType(t *GoType, c *Config) (err error) {
 			packages.NeedEmbedFiles |
 			packages.NeedEmbedPatterns |
 			packages.NeedTarget,
+		Dir: c.WorkingDirectory.Value,
 	}
 	pkgs, err := packages.Load(cfg, t.PkgPath)
 	if err != nil {
-- 
2.43.0


From df32d3b9c3200a56d4cb5fc1de69d68865c95a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 31/88] fix: generator: qualify types by the names their
 packages are imported under

---
 internal/generator/generator.go | 128 ++++++++++++++++++++------------
 1 file changed, 80 insertions(+), 48 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index b705804..8252750 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1,10 +1,13 @@
 package generator
 
 import (
+	"go/token"
 	"io"
 	"log"
+	"regexp"
 	"strconv"
 	"strings"
+	"unicode"
 
 	"github.com/frk/gosql/internal/analysis"
 	"github.com/frk/gosql/internal/config"
@@ -182,10 +185,13 @@ func (g *generator) tableExprSlice() []SQL.TableExpr {
 // buildQueryCode builds code for the given QueryStruct.
 func buildQueryCode(g *generator, qs *analysis.QueryStruct) {
 	typ := g.cfg.MethodArgumentType
-	imp := addimport(g.file, typ.PkgPath, typ.PkgName)
-	typ.PkgName = imp.name
-	if g.cfg.MethodWithContext.Value {
-		_ = addimport(g.file, "context", "")
+	conn := GO.TypeNode(GO.Ident{typ.Name})
+	if typ.PkgPath != g.info.Info.PkgPath {
+		imp := addimport(g.file, typ.PkgPath, typ.PkgName)
+		conn = GO.QualifiedIdent{imp.name, typ.Name}
+	}
+	if typ.IsPtr {
+		conn = GO.PointerType{conn}
 	}
 
 	if qs.Join != nil || qs.IsUpdateSlice() {
@@ -232,11 +238,6 @@ func buildQueryCode(g *generator, qs *analysis.QueryStruct) {
 		buildQueryResultRowsScan(g, qs)
 	}
 
-	conn := GO.TypeNode(GO.QualifiedIdent{typ.PkgName, typ.Name})
-	if typ.IsPtr {
-		conn = GO.PointerType{conn}
-	}
-
 	// put it all together
 	method := GO.MethodDecl{}
 	method.Recv.Name.Name = "q"
@@ -257,7 +258,8 @@ func buildQueryCode(g *generator, qs *analysis.QueryStruct) {
 	}
 
 	if g.cfg.MethodWithContext.Value {
-		ctxType := GO.TypeNode(GO.QualifiedIdent{"context", "Context"})
+		imp := addimport(g.file, "context", "context")
+		ctxType := GO.TypeNode(GO.QualifiedIdent{imp.name, "Context"})
 		method.Type.Params = GO.ParamList{
 			{Names: GO.Ident{"ctx"}, Type: ctxType},
 			method.Type.Params[0],
@@ -508,6 +510,9 @@ func buildQueryOutputInitRoot(g *generator, qs *analysis.QueryStruct) {
 	if qs.Result != nil {
 		typ = qs.Result.Type
 	}
+	if !typ.IsSlice && !typ.IsIter && !typ.IsPointer {
+		return // nothing to be initialized
+	}
 
 	typeNode := GO.TypeNode(GO.Ident{typ.Base.Name})
 	if typ.Base.IsImported {
@@ -553,7 +558,7 @@ func buildQueryOutputInitFields(g *generator, qs *analysis.QueryStruct) {
 
 		fx := g.outputVar
 		for _, node := range fr.Field.Selector {
-			key += node.Name
+			key += "." + node.Name
 
 			fx = GO.SelectorExpr{X: fx, Sel: GO.Ident{node.Name}}
 			if node.IsPointer && !done[key] {
@@ -649,8 +654,8 @@ func buildQueryLimitOffsetFallback(g *generator, qs *analysis.QueryStruct) {
 // addConverterCallExpr
 func addConverterCallExpr(g *generator, x GO.ExprNode, converter string) GO.ExprNode {
 	if len(converter) > 0 {
-		addimport(g.file, pgsqlPkgPath, pgsqlPkgName)
-		sel := GO.SelectorExpr{X: GO.Ident{pgsqlPkgName}, Sel: GO.Ident{converter}}
+		imp := addimport(g.file, pgsqlPkgPath, pgsqlPkgName)
+		sel := GO.SelectorExpr{X: GO.Ident{imp.name}, Sel: GO.Ident{converter}}
 		return GO.CallExpr{Fun: sel, Args: GO.ArgsList{List: x}}
 	}
 	return x
@@ -873,18 +878,14 @@ func buildFilterMethodsForColumns(g *generator, fs *analysis.FilterStruct, mapid
 			continue
 		}
 
-		// add import if necessary
-		if imported := ff.Field.Type.ImportedTypes(); len(imported) > 0 {
-			for _, typ := range imported {
-				imp := addimport(g.file, typ.PkgPath, typ.PkgName)
-				ff.Field.Type.PkgName = imp.name
-			}
-		}
+		// add imports if necessary
+		valueType := ff.Field.Type
+		qualifyType(g, &valueType)
 
 		// the method's input and output arguments
 		methodecl.Type.Params = GO.ParamList{
 			{Names: oper, Type: GO.Ident{"string"}},
-			{Names: value, Type: GO.Ident{string(ff.Field.Type.Literal())}},
+			{Names: value, Type: GO.Ident{string(valueType.Literal())}},
 		}
 		methodecl.Type.Results = GO.ParamList{{Type: GO.PointerType{GO.Ident{fs.TypeName}}}}
 
@@ -1396,7 +1397,8 @@ func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, s
 				arg1 := GO.Ident{"len" + num}
 				arg2 := GO.Ident{"pos" + num}
 
-				call := GO.CallExpr{Fun: GO.QualifiedIdent{"gosql", "InValueList"}}
+				imp := addimport(g.file, gosqlPkgPath, gosqlPkgName)
+				call := GO.CallExpr{Fun: GO.QualifiedIdent{imp.name, "InValueList"}}
 				call.Args = GO.ArgsList{List: GO.ExprList{arg1, arg2}}
 
 				predicate := SQL.InPredicate{}
@@ -1495,7 +1497,6 @@ func buildQueryStringForSliceInsertOrUpdate(g *generator, qs *analysis.QueryStru
 		queryStringVar = GO.Ident{"queryString"}
 		paramsVar      = GO.Ident{"params"}
 		ifaceSliceType = GO.Ident{"[]interface{}"}
-		ordinalParams  = GO.QualifiedIdent{"gosql", "OrdinalParameters"}
 		forLoop        = GO.ForStmt{}
 	)
 
@@ -1563,7 +1564,6 @@ func buildQueryStringForSliceInsertOrUpdate(g *generator, qs *analysis.QueryStru
 		strConcatExprList = make([]GO.ExprNode, valueCount+1) // +1 for the final `),`
 	)
 
-	var importGosql bool
 	inputVals := append(g.inputVals, g.inputValsPKeys...)
 	for i, val := range inputVals {
 		sep := `, `
@@ -1575,7 +1575,8 @@ func buildQueryStringForSliceInsertOrUpdate(g *generator, qs *analysis.QueryStru
 			defaultCount += 1
 			strConcatExprList[i] = GO.RawStringLit(sep + `DEFAULT`)
 		} else {
-			importGosql = true
+			imp := addimport(g.file, gosqlPkgPath, gosqlPkgName)
+			ordinalParams := GO.QualifiedIdent{imp.name, "OrdinalParameters"}
 
 			// produce:
 			//	`, ` + gosql.OrdinalParameters[pos+<i - defaultCount>] +
@@ -1606,10 +1607,6 @@ func buildQueryStringForSliceInsertOrUpdate(g *generator, qs *analysis.QueryStru
 
 		}
 	}
-	if importGosql {
-		addimport(g.file, gosqlPkgPath, gosqlPkgName)
-	}
-
 	strConcatExprList[len(strConcatExprList)-1] = GO.RawStringLit(`),`)
 
 	assign := GO.AssignStmt{Token: GO.AssignAdd}
@@ -2107,32 +2104,54 @@ func inputPKeys(t *postgres.TargetInfo) (out []*postgres.FieldWrite) {
 	return out
 }
 
+// rxReservedName matches the identifiers that the generated code declares or expects
+// to be predeclared, those cannot be used as the names of the imported packages.
+var rxReservedName = regexp.MustCompile(`^(?:c|ctx|err|f|filterString|i|nest|nstatic|op|params|pos|q|` +
+	`queryString|res|row|rows|v|val|(?:len|pos)[0-9]+|` + // declared
+	`append|bool|byte|error|false|init|interface|int|len|main|make|map|new|nil|rune|string|true|` +
+	`(?:int|uint)(?:8|16|32|64)?|uintptr|float32|float64|complex64|complex128)$`)
+
 // addimport adds a new impspec to the file's impset if it is not already a member of the set.
 func addimport(f *file, path, name string) *impspec {
+	local := false
 	if name == "" {
+		// the name is not known, use one that's derived from the path
 		name = path
 		if i := strings.LastIndexByte(name, '/'); i > -1 {
 			name = name[i+1:]
 		}
+		name = strings.Map(func(r rune) rune {
+			if r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r) {
+				return r
+			}
+			return '_'
+		}, name)
+		if !token.IsIdentifier(name) {
+			name = "_" + name
+		}
+		local = true
 	}
 
-	var namesake *impspec
+	taken := make(map[string]*impspec)
 	for _, imp := range f.impset {
 		// already added, exit
 		if imp.path == path {
 			return imp
 		}
-
-		// retain import that has the same name
-		if imp.name == name {
-			namesake = imp
-		}
+		taken[imp.name] = imp
 	}
 
-	imp := &impspec{path: path, name: name}
-	if namesake != nil {
-		namesake.num += 1
-		imp.name = name + strconv.Itoa(namesake.num)
+	imp := &impspec{path: path, name: name, local: local}
+	if rxReservedName.MatchString(name) {
+		imp.name += "pkg"
+		imp.local = true
+	}
+	if namesake := taken[imp.name]; namesake != nil {
+		base := imp.name
+		for taken[imp.name] != nil {
+			namesake.num += 1
+			imp.name = base + strconv.Itoa(namesake.num)
+		}
 		imp.local = true
 	}
 
@@ -2140,6 +2159,26 @@ func addimport(f *file, path, name string) *impspec {
 	return imp
 }
 
+// qualifyType adds the imports needed by the given type and sets the type's, and its
+// component types', package names to those by which the packages are known in the file.
+func qualifyType(g *generator, t *analysis.TypeInfo) {
+	if len(t.Name) > 0 {
+		if t.IsImported {
+			t.PkgName = addimport(g.file, t.PkgPath, t.PkgName).name
+		} else {
+			t.PkgName = ""
+		}
+		return
+	}
+	for _, c := range []**analysis.TypeInfo{&t.Key, &t.Elem} {
+		if *c != nil {
+			copy := **c
+			qualifyType(g, &copy)
+			*c = &copy
+		}
+	}
+}
+
 // newImportDecl produces an import declaration for packages that are to be imported by the given file.
 func newImportDecl(f *file) *GO.ImportDecl {
 	imports := new(GO.ImportDecl)
@@ -2192,10 +2231,11 @@ func makeErrorReturnStmt(g *generator, qs *analysis.QueryStruct, errExpr GO.Expr
 	fieldSelector := GO.QualifiedIdent{"q", qs.ErrorHandler.Name}
 	if qs.ErrorHandler.IsInfo {
 		var (
+			imp            = addimport(g.file, gosqlPkgPath, gosqlPkgName)
 			errVar         = GO.Ident{"err"}
 			nilVal         = GO.Ident{"nil"}
 			queryStringVar = GO.Ident{"queryString"}
-			errorInfoType  = GO.QualifiedIdent{"gosql", "ErrorInfo"}
+			errorInfoType  = GO.QualifiedIdent{imp.name, "ErrorInfo"}
 		)
 
 		// produce:
@@ -2313,14 +2353,6 @@ func makeParamSpec(g *generator, ptr analysis.FieldPtr) SQL.OrdinalParameterSpec
 	return SQL.OrdinalParameterSpec{g.paramNum}
 }
 
-// makeRelTypeNode
-func makeRelTypeNode(reltyp analysis.RelType) GO.TypeNode {
-	if reltyp.Base.IsImported {
-		return GO.QualifiedIdent{reltyp.Base.PkgName, reltyp.Base.Name}
-	}
-	return GO.Ident{reltyp.Base.Name}
-}
-
 // makeColRef builds a reference to the identified column. An unqualified column
 // is a column of the target relation.
 func makeColRef(g *generator, id analysis.ColIdent) SQL.ColumnReference {
-- 
2.43.0


From ec2e0057d76b5ccd84dd79403158163b1088809b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:22 +0000
Subject: [PATCH 32/88] fix: generator: keep typed filter methods from clashing
 and spell only types that can be named

A field whose method would be called Init, And or Or, or would share the name
of another method or of a field of the filter, and a field whose type cannot
be written in the target package produced code that does not compile.
---
 internal/generator/generator.go | 36 +++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 8252750..f03ad5f 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -850,6 +850,9 @@ func buildFilterMethodsForColumns(g *generator, fs *analysis.FilterStruct, mapid
 		selx  = GO.SelectorExpr{X: GO.SelectorExpr{X: recv, Sel: ctor}, Sel: GO.Ident{"Col"}}
 	)
 
+	// the names that are already taken by the filter's fields and methods
+	taken := map[string]struct{}{fs.Rel.FieldName: {}, fs.FilterConstructor.Name: {}}
+
 	for _, ff := range g.info.Filters {
 		methodecl := GO.MethodDecl{}
 
@@ -877,15 +880,22 @@ func buildFilterMethodsForColumns(g *generator, fs *analysis.FilterStruct, mapid
 		if _, ok := reservedFilterMethodNames[methodecl.Name.Name]; ok {
 			continue
 		}
+		if _, ok := taken[methodecl.Name.Name]; ok {
+			continue
+		}
+		taken[methodecl.Name.Name] = struct{}{}
 
-		// add imports if necessary
-		valueType := ff.Field.Type
-		qualifyType(g, &valueType)
+		valueType := "interface{}"
+		if typ := ff.Field.Type; isNameable(&typ) {
+			// add imports if necessary
+			qualifyType(g, &typ)
+			valueType = string(typ.Literal())
+		}
 
 		// the method's input and output arguments
 		methodecl.Type.Params = GO.ParamList{
 			{Names: oper, Type: GO.Ident{"string"}},
-			{Names: value, Type: GO.Ident{string(valueType.Literal())}},
+			{Names: value, Type: GO.Ident{valueType}},
 		}
 		methodecl.Type.Results = GO.ParamList{{Type: GO.PointerType{GO.Ident{fs.TypeName}}}}
 
@@ -904,6 +914,21 @@ func buildFilterMethodsForColumns(g *generator, fs *analysis.FilterStruct, mapid
 	}
 }
 
+// isNameable reports whether or not the given type can be spelled out
+// in the generated code.
+func isNameable(t *analysis.TypeInfo) bool {
+	if len(t.Name) > 0 {
+		return !t.IsImported || token.IsExported(t.Name)
+	}
+	switch t.Kind {
+	case analysis.TypeKindInterface:
+		return t.IsEmptyInterface
+	case analysis.TypeKindStruct, analysis.TypeKindChan, analysis.TypeKindFunc:
+		return false
+	}
+	return (t.Key == nil || isNameable(t.Key)) && (t.Elem == nil || isNameable(t.Elem))
+}
+
 // buildFilterMethodBoolOp
 func buildFilterMethodBoolOp(g *generator, fs *analysis.FilterStruct, name string) {
 	var (
@@ -2438,6 +2463,9 @@ var reservedFilterMethodNames = map[string]struct{}{
 	"UnmarshalFQL":  struct{}{},
 	"UnmarshalSort": struct{}{},
 	"TextSearch":    struct{}{},
+	"Init":          struct{}{},
+	"And":           struct{}{},
+	"Or":            struct{}{},
 	"AND":           struct{}{},
 	"OR":            struct{}{},
 }
-- 
2.43.0


From 48af4587eb578a95edf3a04a34bdde8223cefb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:35 +0000
Subject: [PATCH 33/88] fix: analysis: leave out unexported fields of imported
 structs behind pointers and in unnamed structs

---
 internal/analysis/analysis.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 1d4dc55..d73a4cb 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -553,14 +553,14 @@ func analyzeFieldInfoList(a *analysis, rt *RelType, styp *types.Struct) error {
 	// The loopstate type holds the state of a loop over a struct's fields.
 	type loopstate struct {
 		styp     *types.Struct // the struct type whose fields are being analyzed
-		typ      *TypeInfo     // info on the struct type; holds the resulting slice of analyzed FieldInfo
 		idx      int           // keeps track of the field index
 		pfx      string        // column prefix
+		imported bool          // the struct type is declared in another package
 		selector []*FieldSelectorNode
 	}
 
 	// LIFO stack of states used for depth first traversal of struct fields.
-	stack := []*loopstate{{styp: styp, typ: &rt.Base}}
+	stack := []*loopstate{{styp: styp, imported: rt.Base.IsImported}}
 
 stackloop:
 	for len(stack) > 0 {
@@ -584,7 +584,7 @@ stackloop:
 				// - has blank name, i.e. it's practically inaccessible
 				fvar.Name() == "_" ||
 				// - it's unexported and the field's struct type is imported
-				(!fvar.Exported() && loop.typ.IsImported) {
+				(!fvar.Exported() && loop.imported) {
 				continue
 			}
 
@@ -606,7 +606,6 @@ stackloop:
 			if f.Type.Is(TypeKindStruct) && strings.HasPrefix(sqltag, ">") {
 				loop2 := new(loopstate)
 				loop2.styp = ftyp.(*types.Struct)
-				loop2.typ = &f.Type
 				loop2.pfx = loop.pfx + strings.TrimPrefix(sqltag, ">")
 
 				// Allocate selector of the appropriate size an copy it.
@@ -620,6 +619,13 @@ stackloop:
 					typ = *typ.Elem
 				}
 
+				// An unnamed struct type belongs to the
+				// package of the type that contains it.
+				loop2.imported = loop.imported
+				if len(typ.Name) > 0 {
+					loop2.imported = typ.IsImported
+				}
+
 				node := new(FieldSelectorNode)
 				node.Name = f.Name
 				node.Tag = f.Tag
-- 
2.43.0


From 66cd9d641a07a971088c33b3b5ed8d4201fed5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:33 +0000
Subject: [PATCH 34/88] fix: config: refuse argument types whose value lacks
 the methods of a connection

---
 internal/config/config.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/internal/config/config.go b/internal/config/config.go
index 669a62b..e153f4a 100644
--- a/internal/config/config.go
+++ b/internal/config/config.go
@@ -394,7 +394,7 @@ func checkMethodArgumentType(t *GoType, c *Config) (err error) {
 					return fmt.Errorf("bad method argument type: %q", t)
 				}
 
-				if !typesutil.ImplementsGosqlConn(named) {
+				if !typesutil.ImplementsGosqlConn(named) || !hasConnMethods(named, t.IsPtr) {
 					return fmt.Errorf("bad method argument type: %q --"+
 						" does not implement the \"github.com/frk/gosql.Conn\" interface.", t)
 				}
@@ -409,3 +409,21 @@ func checkMethodArgumentType(t *GoType, c *Config) (err error) {
 
 	return fmt.Errorf("could not find method argument type: %q", t)
 }
+
+// hasConnMethods reports whether or not the method set of the named type, or of the
+// pointer to it, contains the methods of the gosql.Conn interface; those of a type with
+// pointer receivers and those of a pointer to an interface type do not.
+func hasConnMethods(named *types.Named, isPtr bool) bool {
+	var typ types.Type = named
+	if isPtr {
+		typ = types.NewPointer(named)
+	}
+
+	mset := types.NewMethodSet(typ)
+	for _, name := range []string{"Exec", "ExecContext", "Query", "QueryContext", "QueryRow", "QueryRowContext"} {
+		if mset.Lookup(nil, name) == nil {
+			return false
+		}
+	}
+	return true
+}
-- 
2.43.0


From 25667b06e935e2f0a1e8e38148e91d26167a3926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:33 +0000
Subject: [PATCH 35/88] fix: config: a type given after a pointer type is not a
 pointer

---
 internal/config/types.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/config/types.go b/internal/config/types.go
index b8a3a04..9af91c5 100644
--- a/internal/config/types.go
+++ b/internal/config/types.go
@@ -184,6 +184,7 @@ func (t *GoType) Set(value string) error {
 		return fmt.Errorf("bad method argument type: %q", value)
 	} else {
 		t.PkgPath, t.Name = value[:i], value[i+1:]
+		t.IsPtr = false
 		if len(t.PkgPath) > 0 && t.PkgPath[0] == '*' {
 			t.PkgPath = t.PkgPath[1:]
 			t.IsPtr = true
-- 
2.43.0


From cfda4a5e103aec0f5e15f09ec1b744974a0dfe70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:58 +0000
Subject: [PATCH 36/88] fix: analysis: refuse blank fields in a where struct
 that are not column directives

---
 internal/analysis/analysis.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index d73a4cb..29d074f 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -880,7 +880,7 @@ stackloop:
 			// Analyze directive where item.
 			if fvar.Name() == "_" {
 				if !typesutil.IsDirective("Column", fvar.Type()) {
-					continue
+					return a.error(errIllegalStructDirective, fvar, f.Name(), ftag, "", "")
 				}
 
 				// If the expression in a gosql.Column tag's value
-- 
2.43.0


From e4cac969731295c08b7557f7ca9387281d221885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:14 +0000
Subject: [PATCH 37/88] fix: analysis: refuse text after the predicate of a
 where field

---
 internal/analysis/analysis.go | 7 +++++++
 internal/analysis/error.go    | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 29d074f..7ce25b7 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -955,6 +955,9 @@ stackloop:
 				if len(op2) > 0 {
 					return a.error(errIllegalPredicateQuantifier, fvar, f.Name(), ftag, sqltag, op2) // TODO test
 				}
+				if len(rhs) > 0 {
+					return a.error(errBadFieldPredicateExpr, fvar, f.Name(), ftag, sqltag, rhs)
+				}
 
 				ns, err := typesutil.GetStruct(fvar)
 				if err != nil {
@@ -1026,6 +1029,10 @@ stackloop:
 			if ecode > 0 {
 				return a.error(ecode, fvar, f.Name(), ftag, lhs, eval)
 			}
+			// The right-hand-side of the predicate is the field itself.
+			if len(rhs) > 0 {
+				return a.error(errBadFieldPredicateExpr, fvar, f.Name(), ftag, sqltag, rhs)
+			}
 			// If no predicate was provided default to "="
 			if len(op) == 0 {
 				op = "="
diff --git a/internal/analysis/error.go b/internal/analysis/error.go
index 66ad746..3fc4837 100644
--- a/internal/analysis/error.go
+++ b/internal/analysis/error.go
@@ -229,6 +229,7 @@ const (
 	errBadNullsOrderTagValue
 	errBadOverrideTagValue
 	errBadDirectiveBooleanExpr
+	errBadFieldPredicateExpr
 	errBadBetweenPredicate
 	errBadJoinConditionLHS
 	errIllegalSliceUpdateModifier
@@ -497,6 +498,12 @@ var error_template_string = `
     {{Wb "HINT:"}} A valid {{Wi "boolean_expression"}} in a directive MUST be a {{Wu "complete"}} binary or unary expression.
 {{ end }}
 
+{{ define "` + errBadFieldPredicateExpr.name() + `" -}}
+{{Wb .FileAndLine}}: {{Y "Bad predicate expression in field."}}
+    The "{{R .TagError}}" in the expression "{{R .TagExpr}}" of {{R .FieldDefinition}} from {{W .TargetName}}{{if .BlockName}}.{{Wb .BlockName}}{{end}} is not allowed.
+    {{Wb "HINT:"}} The right-hand-side of the expression is the field itself, its tag can specify only the column, the predicate, and the quantifier.
+{{ end }}
+
 {{ define "` + errBadBetweenPredicate.name() + `" -}}
 {{Wb .FileAndLine}}: {{Y "Bad between_predicate type."}}
     The {{R .FieldName}} {{R .FieldTypeShort}} field from {{Wb .TargetName}} has an invalid {{Wi "between_predicate"}} type.
-- 
2.43.0


From 641a88173b10248719fe9f4f8e26074b5de20d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:51 +0000
Subject: [PATCH 38/88] fix: analysis: refuse quantifiers of predicates that
 take none in SQL

---
 internal/analysis/enums.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/analysis/enums.go b/internal/analysis/enums.go
index 7d3519d..b61d38d 100644
--- a/internal/analysis/enums.go
+++ b/internal/analysis/enums.go
@@ -392,7 +392,10 @@ func (p Predicate) IsArray() bool { return _seq_pred_start < p && p < _seq_pred_
 func (p Predicate) IsUnary() bool { return p.IsNull() || p.IsBoolean() }
 
 // CanQuantify reports whether or not the predicate can be used together with a quantifier.
-func (p Predicate) CanQuantify() bool { return p.IsBinary() || p.IsPatternMatch() }
+func (p Predicate) CanQuantify() bool {
+	return (p.IsBinary() || p.IsPatternMatch()) &&
+		!p.IsOneOf(IsDistinct, NotDistinct, IsSimilar, NotSimilar)
+}
 
 // IsOneOf reports whether or not p is one of the provided predicates.
 func (p Predicate) IsOneOf(pp ...Predicate) bool {
-- 
2.43.0


From 9c37d00b6b0c3d17dcbe49971ab18815a07c2673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:55 +0000
Subject: [PATCH 39/88] fix: analysis: refuse repeated directives and repeated
 join and onconflict structs

---
 internal/analysis/analysis.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 7ce25b7..fe1b490 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -1093,6 +1093,10 @@ func analyzeJoinStruct(a *analysis, f *types.Var, tag string) (err error) {
 		return a.error(errIllegalQueryField, f, "", tag, "", "")
 	}
 
+	if a.query.Join != nil {
+		return a.error(errConflictingFieldOrDirective, f, "", tag, "", "")
+	}
+
 	ns, err := typesutil.GetStruct(f)
 	if err != nil {
 		return a.error(errBadFieldTypeStruct, f, "", tag, "", "")
@@ -1279,6 +1283,9 @@ func analyzeOnConflictStruct(a *analysis, f *types.Var, tag string) (err error)
 	if a.query.Kind != QueryKindInsert {
 		return a.error(errIllegalQueryField, f, "", tag, "", "")
 	}
+	if a.query.OnConflict != nil {
+		return a.error(errConflictingFieldOrDirective, f, "", tag, "", "")
+	}
 	ns, err := typesutil.GetStruct(f)
 	if err != nil {
 		return a.error(errBadFieldTypeStruct, f, "", tag, "", "")
@@ -1640,6 +1647,9 @@ func analyzeOrderByDirective(a *analysis, f *types.Var, tag string) (err error)
 		items = append(items, item)
 	}
 
+	if a.query.OrderBy != nil {
+		return a.error(errConflictingFieldOrDirective, f, "", tag, "", "")
+	}
 	a.query.OrderBy = new(OrderByDirective)
 	a.query.OrderBy.Items = items
 	a.info.FieldMap[a.query.OrderBy] = FieldVar{Var: f, Tag: tag}
@@ -1662,6 +1672,9 @@ func analyzeOverrideDirective(a *analysis, f *types.Var, tag string) (err error)
 		return a.error(errBadOverrideTagValue, f, "", tag, "", val)
 	}
 
+	if a.query.Override != nil {
+		return a.error(errConflictingFieldOrDirective, f, "", tag, "", "")
+	}
 	a.query.Override = new(OverrideDirective)
 	a.query.Override.Kind = kind
 	a.info.FieldMap[a.query.Override] = FieldVar{Var: f, Tag: tag}
@@ -1725,6 +1738,9 @@ func analyzeDefaultDirective(a *analysis, f *types.Var, tag string) error {
 		return a.error(ecode, f, "", tag, t.Get("sql"), eval)
 	}
 
+	if a.query.Default != nil {
+		return a.error(errConflictingFieldOrDirective, f, "", tag, "", "")
+	}
 	a.query.Default = new(DefaultDirective)
 	a.query.Default.ColIdentList = list
 	a.info.FieldMap[a.query.Default] = FieldVar{Var: f, Tag: tag}
@@ -1752,6 +1768,9 @@ func analyzeForceDirective(a *analysis, f *types.Var, tag string) error {
 		}
 	}
 
+	if a.query.Force != nil {
+		return a.error(errConflictingFieldOrDirective, f, "", tag, "", "")
+	}
 	a.query.Force = new(ForceDirective)
 	a.query.Force.ColIdentList = list
 	a.info.FieldMap[a.query.Force] = FieldVar{Var: f, Tag: tag}
@@ -1776,6 +1795,9 @@ func analyzeOptionalDirective(a *analysis, f *types.Var, tag string) error {
 		}
 	}
 
+	if a.query.Optional != nil {
+		return a.error(errConflictingFieldOrDirective, f, "", tag, "", "")
+	}
 	a.query.Optional = new(OptionalDirective)
 	a.query.Optional.ColIdentList = list
 	a.info.FieldMap[a.query.Optional] = FieldVar{Var: f, Tag: tag}
@@ -1793,6 +1815,9 @@ func analyzeTextSearchDirective(a *analysis, f *types.Var, tag string) error {
 		return a.error(ecode, f, "", tag, tval, eval)
 	}
 
+	if a.filter.TextSearch != nil {
+		return a.error(errConflictingFieldOrDirective, f, "", tag, "", "")
+	}
 	a.filter.TextSearch = new(TextSearchDirective)
 	a.filter.TextSearch.ColIdent = cid
 	a.info.FieldMap[a.filter.TextSearch] = FieldVar{Var: f, Tag: tag}
-- 
2.43.0


From 2f5a8e0dc0963a2c6e5e6d43d9dff78ee0ce328b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:00 +0000
Subject: [PATCH 40/88] fix: analysis: refuse an order by directive without
 columns

---
 internal/analysis/analysis.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index fe1b490..6870aef 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -1650,6 +1650,10 @@ func analyzeOrderByDirective(a *analysis, f *types.Var, tag string) (err error)
 	if a.query.OrderBy != nil {
 		return a.error(errConflictingFieldOrDirective, f, "", tag, "", "")
 	}
+	if len(items) == 0 {
+		return a.error(errMissingTagColumnList, f, "", tag, "", "")
+	}
+
 	a.query.OrderBy = new(OrderByDirective)
 	a.query.OrderBy.Items = items
 	a.info.FieldMap[a.query.OrderBy] = FieldVar{Var: f, Tag: tag}
-- 
2.43.0


From 497128cb0eee15b585e7a6d05e698bf6095071b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 41/88] fix: analysis: refuse from and using structs without a
 relation

---
 internal/analysis/analysis.go | 5 +++++
 internal/analysis/error.go    | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 6870aef..79947d1 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -1136,6 +1136,11 @@ func analyzeJoinStruct(a *analysis, f *types.Var, tag string) (err error) {
 
 	}
 
+	// The relation being joined in the FROM, or USING, clause MUST be specified.
+	if fname != "join" && join.Relation == nil {
+		return a.error(errMissingRelationDirective, f, "", tag, "", "")
+	}
+
 	a.query.Join = join
 	a.info.FieldMap[a.query.Join] = FieldVar{Var: f, Tag: tag}
 	return nil
diff --git a/internal/analysis/error.go b/internal/analysis/error.go
index 3fc4837..edfbf92 100644
--- a/internal/analysis/error.go
+++ b/internal/analysis/error.go
@@ -219,6 +219,7 @@ const (
 	errMissingRelField
 	errMissingTagValue
 	errMissingTagColumnList
+	errMissingRelationDirective
 	errMissingOnConflictTarget
 	errMissingFilterConstructor
 	errBadIdentTagValue
@@ -424,6 +425,12 @@ var error_template_string = `
     {{Wb "FIX:"}} Make sure that the {{R .FieldName}} {{R .FieldTypeShort}} field / directive in {{Wb .TargetName}} has the "sql" tag with a valid list of columns. 
 {{ end }}
 
+{{ define "` + errMissingRelationDirective.name() + `" -}}
+{{Wb .FileAndLine}}: {{Y "Missing \"gosql.Relation\" directive."}}
+    The {{R .FieldName}} struct field in {{Wb .TargetName}} is missing the "gosql.Relation" directive.
+    {{Wb "FIX:"}} Make sure that {{R .FieldName}} in {{Wb .TargetName}} has {{Wb "exactly one"}} "gosql.Relation" directive.
+{{ end }}
+
 {{ define "` + errMissingOnConflictTarget.name() + `" -}}
 {{Wb .FileAndLine}}: {{Y "Missing on_conflict target directive."}}
     The {{R .FieldName}} struct field in {{Wb .TargetName}} is missing a "target" directive.
-- 
2.43.0


From 181441c7352a8a36d393d5776d70c9b5a5411781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:56 +0000
Subject: [PATCH 42/88] fix: postgres: refuse an onconflict struct without an
 action

---
 internal/postgres/errors.go   | 7 +++++++
 internal/postgres/postgres.go | 8 ++++++++
 2 files changed, 15 insertions(+)

diff --git a/internal/postgres/errors.go b/internal/postgres/errors.go
index 306c9c2..88335ae 100644
--- a/internal/postgres/errors.go
+++ b/internal/postgres/errors.go
@@ -71,6 +71,7 @@ const (
 	errOnConflictIndexColumnsNotUnique
 	errOnConflictConstraintUnknown
 	errOnConflictConstraintNotUnique
+	errOnConflictActionMissing
 )
 
 type dbError struct {
@@ -606,6 +607,12 @@ On Conflict error templates
     - directive "{{W .Field.TypeShort}}" requires a constraint of type: "{{W "unique"}}", or "{{W "primary key"}}".
 {{ end }}
 
+{{ define "` + errOnConflictActionMissing.name() + `" -}}
+{{Wb .Field.File.NameAndLine}}: {{Y "Missing on_conflict action directive."}}
+    The "{{R .Field.Name}}" struct field in {{Wb .Target.Name}} is missing an "action" directive.
+    {{Wb "FIX:"}} Make sure that the "{{R .Field.Name}}" struct has {{Wb "exactly one"}} of the "gosql.Ignore" and "gosql.Update" directives.
+{{ end }}
+
 ` // `
 
 var error_templates = template.Must(template.New("t").Funcs(template.FuncMap{
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index c80c65a..099ca9e 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1055,6 +1055,8 @@ func typeCheckComparison(c *checker, ltyp *Type, rtyp *Type, pred analysis.Predi
 //	✅ If a gosql.Constraint directive was used in the OnConflict block, the
 //	   constraint specified in the directive's tag MUST be present on the target
 //	   table and it MUST be a unique constraint.
+//	✅ The OnConflict block MUST contain either the gosql.Ignore or the
+//	   gosql.Update directive.
 //	✅ If a gosql.Update directive was used in the OnConflict block, the columns
 //	   listed in the directive's tag MUST be present in the target table.
 func typeCheckQueryOnConflictStruct(c *checker, qs *analysis.QueryStruct) error {
@@ -1138,6 +1140,12 @@ func typeCheckQueryOnConflictStruct(c *checker, qs *analysis.QueryStruct) error
 		info.Target = target
 	}
 
+	// check that there is something to do in case of a conflict
+	if qs.OnConflict.Ignore == nil && qs.OnConflict.Update == nil {
+		return c.dbError(dbError{Code: errOnConflictActionMissing,
+			Rel: relInfo{Relation: c.rel}}, qs.OnConflict)
+	}
+
 	// check that each specified column is present in the target table
 	if qs.OnConflict.Update != nil {
 		if qs.OnConflict.Update.All {
-- 
2.43.0


From 16e0b7d505e0d9ae112ffbd0738b5b0c3ed36763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:00 +0000
Subject: [PATCH 43/88] fix: analysis: refuse cross joins with conditions

---
 internal/analysis/analysis.go | 5 +++++
 internal/analysis/error.go    | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 79947d1..ea01a82 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -1262,6 +1262,11 @@ func analyzeJoinStructJoinDirective(a *analysis, j *JoinStruct, dirName string,
 		}
 	}
 
+	// The CROSS JOIN takes no condition.
+	if dir.JoinType == JoinTypeCross && len(dir.TagItems) > 0 {
+		return a.error(errIllegalJoinCondition, f, j.FieldName, ftag, "", "")
+	}
+
 	j.Directives = append(j.Directives, dir)
 	a.info.FieldMap[dir] = FieldVar{Var: f, Tag: ftag}
 	return nil
diff --git a/internal/analysis/error.go b/internal/analysis/error.go
index edfbf92..35654bb 100644
--- a/internal/analysis/error.go
+++ b/internal/analysis/error.go
@@ -233,6 +233,7 @@ const (
 	errBadFieldPredicateExpr
 	errBadBetweenPredicate
 	errBadJoinConditionLHS
+	errIllegalJoinCondition
 	errIllegalSliceUpdateModifier
 	errIllegalCountModifier
 	errIllegalFilterModifier
@@ -530,6 +531,12 @@ var error_template_string = `
     {{Wb "HINT:"}} The {{Wb "LHS"}} of a {{Wi "join_condition"}} expression MUST refer to a column of the relation being joined.
 {{ end }}
 
+{{ define "` + errIllegalJoinCondition.name() + `" -}}
+{{Wb .FileAndLine}}: {{Y "Illegal join_condition."}}
+    The {{R .FieldDefinition}} directive in {{Wb .TargetName}} {{Wu "DOES NOT"}} support a {{Wi "join_condition"}}.
+    {{Wb "FIX:"}} Remove the {{Wi "join_condition"}} from the "sql" tag of the directive.
+{{ end }}
+
 {{ define "` + errIllegalSliceUpdateModifier.name() + `" -}}
 {{Wb .FileAndLine}}: {{Y "Illegal slice update modifier."}}
     The {{R .TargetXxx}} query types with a "rel" field of {{Wb "slice"}} type {{Wu "DO NOT"}} support {{R .FieldDefinition}} {{.FieldKind}}s.
-- 
2.43.0


From 81a71e97c14b3726b1981ca1416c997753403f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:14 +0000
Subject: [PATCH 44/88] fix: generator: refuse joins that require conditions
 and have none

---
 internal/generator/generator.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index f03ad5f..92d7259 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1,6 +1,7 @@
 package generator
 
 import (
+	"fmt"
 	"go/token"
 	"io"
 	"log"
@@ -48,6 +49,9 @@ func Write(f io.Writer, pkgName string, targets []*postgres.TargetInfo, cfg conf
 
 		switch s := info.Struct.(type) {
 		case *analysis.QueryStruct:
+			if err := checkJoinConditions(s); err != nil {
+				return err
+			}
 			buildQueryCode(g, s)
 		case *analysis.FilterStruct:
 			buildFilterCode(g, s)
@@ -60,6 +64,20 @@ func Write(f io.Writer, pkgName string, targets []*postgres.TargetInfo, cfg conf
 	return GO.Write(file, f)
 }
 
+// checkJoinConditions ensures that every join, other than a CROSS JOIN, has a condition.
+func checkJoinConditions(qs *analysis.QueryStruct) error {
+	if qs.Join == nil {
+		return nil
+	}
+	for _, dir := range qs.Join.Directives {
+		if dir.JoinType != analysis.JoinTypeCross && len(dir.TagItems) == 0 {
+			return fmt.Errorf("the join of the relation %q in the %s struct of the %s type has no condition",
+				dir.RelIdent.Name, qs.Join.FieldName, qs.TypeName)
+		}
+	}
+	return nil
+}
+
 // The impspec type holds info that is used to generate a GO.ImportSpec node.
 type impspec struct {
 	// The package path of the import spec.
-- 
2.43.0


From cecdfdb618fe5ee266d5886c02ab7ac9d6f47ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:18 +0000
Subject: [PATCH 45/88] fix: analysis: refuse nested where structs without
 conditions

---
 internal/analysis/analysis.go | 4 ++++
 internal/analysis/error.go    | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index ea01a82..f38f4fa 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -1061,6 +1061,10 @@ stackloop:
 		}
 
 		if loop.where != nil {
+			if len(loop.items) == 0 {
+				fv := a.info.FieldMap[loop.where]
+				return a.error(errMissingWhereCondition, fv.Var, f.Name(), fv.Tag, "", "")
+			}
 			loop.where.Items = loop.items
 		}
 
diff --git a/internal/analysis/error.go b/internal/analysis/error.go
index 35654bb..1599009 100644
--- a/internal/analysis/error.go
+++ b/internal/analysis/error.go
@@ -220,6 +220,7 @@ const (
 	errMissingTagValue
 	errMissingTagColumnList
 	errMissingRelationDirective
+	errMissingWhereCondition
 	errMissingOnConflictTarget
 	errMissingFilterConstructor
 	errBadIdentTagValue
@@ -432,6 +433,12 @@ var error_template_string = `
     {{Wb "FIX:"}} Make sure that {{R .FieldName}} in {{Wb .TargetName}} has {{Wb "exactly one"}} "gosql.Relation" directive.
 {{ end }}
 
+{{ define "` + errMissingWhereCondition.name() + `" -}}
+{{Wb .FileAndLine}}: {{Y "Missing search conditions."}}
+    The {{R .FieldName}} struct field in {{Wb .TargetName}}.{{Wb .BlockName}} has no search conditions.
+    {{Wb "FIX:"}} Add at least one search condition to the {{R .FieldName}} struct, or remove it.
+{{ end }}
+
 {{ define "` + errMissingOnConflictTarget.name() + `" -}}
 {{Wb .FileAndLine}}: {{Y "Missing on_conflict target directive."}}
     The {{R .FieldName}} struct field in {{Wb .TargetName}} is missing a "target" directive.
-- 
2.43.0


From e6c0b47c2fc3b9afb9f592d5086340e621f323a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:47 +0000
Subject: [PATCH 46/88] fix: analysis: do not crash on types of the universe
 scope

---
 internal/analysis/analysis.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index f38f4fa..f831ce7 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -686,11 +686,12 @@ func analyzeTypeInfo(a *analysis, tt types.Type) (typ TypeInfo, base types.Type)
 	base = tt
 
 	if named, ok := base.(*types.Named); ok {
-		pkg := named.Obj().Pkg()
 		typ.Name = named.Obj().Name()
-		typ.PkgPath = pkg.Path()
-		typ.PkgName = pkg.Name()
-		typ.PkgLocal = pkg.Name()
+		if pkg := named.Obj().Pkg(); pkg != nil { // nil for "error"
+			typ.PkgPath = pkg.Path()
+			typ.PkgName = pkg.Name()
+			typ.PkgLocal = pkg.Name()
+		}
 		typ.IsImported = isImportedType(a, named)
 		typ.IsScanner = typesutil.ImplementsScanner(named)
 		typ.IsValuer = typesutil.ImplementsValuer(named)
-- 
2.43.0


From c61c3cf7c6b7c20a2255ec819d9b8b49c09ef457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:50 +0000
Subject: [PATCH 47/88] fix: postgres: refuse writes of no columns and of
 repeated columns

---
 internal/postgres/errors.go   | 13 +++++++++++++
 internal/postgres/postgres.go | 34 ++++++++++++++++++++++++++++++----
 2 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/internal/postgres/errors.go b/internal/postgres/errors.go
index 88335ae..c09a827 100644
--- a/internal/postgres/errors.go
+++ b/internal/postgres/errors.go
@@ -65,6 +65,8 @@ const (
 	// procedure errors
 	errProcedureUnknown
 	// on conflict errors
+	errColumnWritesMissing
+	errColumnWriteDuplicate
 	errOnConflictIndexUnknown
 	errOnConflictIndexNotUnique
 	errOnConflictIndexColumnsUnknown
@@ -567,6 +569,17 @@ Procedure error templates
     exists in the database "{{W .DB.Name}}" (search_path: {{Wb .DB.SearchPath}}).
 {{ end }}
 
+{{ define "` + errColumnWritesMissing.name() + `" -}}
+{{Wb .Field.File.NameAndLine}}: {{Y "No columns to write."}}
+    The type of the "{{R .Field.Definition}}" field in {{Wb .Target.Name}} has no field whose value can be written to the relation "{{W .Rel.Id.Name}}".
+{{ end }}
+
+{{ define "` + errColumnWriteDuplicate.name() + `" -}}
+{{Wb .Field.File.NameAndLine}}: {{Y "Column written more than once."}}
+    The column "{{R .Col.Id.Name}}" is, in {{Wb .Target.Name}}, to be written from the field "{{R .Field.Definition}}" and also from another field.
+    {{Wb "FIX:"}} Make sure that, at most, {{Wu "only one"}} of the fields is writable.
+{{ end }}
+
 --------------------------------------------------------------------------------
 On Conflict error templates
 --------------------------------------------------------------------------------
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 099ca9e..5b681de 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -265,6 +265,7 @@ func typeCheckQueryStruct(c *checker, qs *analysis.QueryStruct) error {
 		typeCheckQueryOnConflictStruct,
 
 		typeCheckQueryQualifier,
+		typeCheckQueryWrites,
 	}
 	for i := 0; i < len(checks); i++ {
 		if err := checks[i](c, qs); err != nil {
@@ -281,11 +282,36 @@ func typeCheckQueryStruct(c *checker, qs *analysis.QueryStruct) error {
 		// on/off...?)
 	}
 
-	// TODO(mkopriva): if this is an insert or update (i.e. write) the column
-	// generated from the field tags cannot contain duplicate columns. Conversely
-	// if this is a read query (select, or I,U,D with returning) the columns do
-	// not have to be unique.
+	return nil
+}
+
+// typeCheckQueryWrites checks the columns written by an INSERT or UPDATE.
+//
+// CHECKLIST:
+//
+//	✅ There MUST be at least one column to write.
+//	✅ Each column MUST be written from, or compared to, at most one field. Conversely if this is a read query
+//	   (select, or I,U,D with returning) the columns do not have to be unique.
+func typeCheckQueryWrites(c *checker, qs *analysis.QueryStruct) error {
+	if qs.Kind != analysis.QueryKindInsert && qs.Kind != analysis.QueryKindUpdate {
+		return nil
+	}
+	if len(c.res.Writes) == 0 {
+		return c.dbError(dbError{Code: errColumnWritesMissing, Rel: relInfo{Relation: c.rel}}, qs.Rel)
+	}
 
+	writes := c.res.Writes
+	if qs.IsUpdateWithPKeys() {
+		writes = append(writes[:len(writes):len(writes)], c.res.PKeys...)
+	}
+	seen := make(map[*Column]*analysis.FieldInfo)
+	for _, w := range writes {
+		if f, ok := seen[w.Column]; ok && f != w.Field {
+			return c.dbError(dbError{Code: errColumnWriteDuplicate, Rel: relInfo{Relation: c.rel},
+				Col: colInfo{Id: w.ColIdent, Column: w.Column}}, w.Field)
+		}
+		seen[w.Column] = w.Field
+	}
 	return nil
 }
 
-- 
2.43.0


From 61dc9bd09d753d98c8ad2621237b2fabc30e2ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:14 +0000
Subject: [PATCH 48/88] fix: analysis: types of the universe scope are not
 imported

---
 internal/analysis/analysis.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index f831ce7..1fea921 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -2213,7 +2213,7 @@ func (cl *ColIdentList) Contains(cid ColIdent) bool {
 // isImportedType reports whether or not the given type is imported based on
 // on the package in which the target of the analysis is declared.
 func isImportedType(a *analysis, named *types.Named) bool {
-	return named != nil && named.Obj().Pkg().Path() != a.pkgPath
+	return named != nil && named.Obj().Pkg() != nil && named.Obj().Pkg().Path() != a.pkgPath
 }
 
 // isAccessible reports whether or not the given value is accessible from
-- 
2.43.0


From 459434d99696ce7c69eb32651d62e6281a9b4e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:56 +0000
Subject: [PATCH 49/88] fix: postgres: refuse queries that are to return rows
 of no columns

---
 internal/postgres/errors.go   |  6 ++++++
 internal/postgres/postgres.go | 20 ++++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/internal/postgres/errors.go b/internal/postgres/errors.go
index c09a827..2888afa 100644
--- a/internal/postgres/errors.go
+++ b/internal/postgres/errors.go
@@ -65,6 +65,7 @@ const (
 	// procedure errors
 	errProcedureUnknown
 	// on conflict errors
+	errColumnReadsMissing
 	errColumnWritesMissing
 	errColumnWriteDuplicate
 	errOnConflictIndexUnknown
@@ -569,6 +570,11 @@ Procedure error templates
     exists in the database "{{W .DB.Name}}" (search_path: {{Wb .DB.SearchPath}}).
 {{ end }}
 
+{{ define "` + errColumnReadsMissing.name() + `" -}}
+{{Wb .Field.File.NameAndLine}}: {{Y "No columns to read."}}
+    The "{{R .Field.Definition}}" in {{Wb .Target.Name}} has no column of the relation "{{W .Rel.Id.Name}}" whose value can be read.
+{{ end }}
+
 {{ define "` + errColumnWritesMissing.name() + `" -}}
 {{Wb .Field.File.NameAndLine}}: {{Y "No columns to write."}}
     The type of the "{{R .Field.Definition}}" field in {{Wb .Target.Name}} has no field whose value can be written to the relation "{{W .Rel.Id.Name}}".
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 5b681de..9a1c9b5 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -266,6 +266,7 @@ func typeCheckQueryStruct(c *checker, qs *analysis.QueryStruct) error {
 
 		typeCheckQueryQualifier,
 		typeCheckQueryWrites,
+		typeCheckQueryReads,
 	}
 	for i := 0; i < len(checks); i++ {
 		if err := checks[i](c, qs); err != nil {
@@ -315,6 +316,25 @@ func typeCheckQueryWrites(c *checker, qs *analysis.QueryStruct) error {
 	return nil
 }
 
+// typeCheckQueryReads checks the columns returned by a query.
+//
+// CHECKLIST:
+//
+//	✅ If the query returns rows, there MUST be at least one column to read.
+func typeCheckQueryReads(c *checker, qs *analysis.QueryStruct) error {
+	if len(c.res.Reads) > 0 {
+		return nil
+	}
+	if qs.Result != nil {
+		return c.dbError(dbError{Code: errColumnReadsMissing, Rel: relInfo{Relation: c.rel}}, qs.Result)
+	} else if qs.Return != nil {
+		return c.dbError(dbError{Code: errColumnReadsMissing, Rel: relInfo{Relation: c.rel}}, qs.Return)
+	} else if qs.Kind == analysis.QueryKindSelect {
+		return c.dbError(dbError{Code: errColumnReadsMissing, Rel: relInfo{Relation: c.rel}}, qs.Rel)
+	}
+	return nil
+}
+
 // typeCheckQueryForceDirective checks the columns listed in the gosql.Force directive's tag.
 //
 // CHECKLIST:
-- 
2.43.0


From 731e42748685c13157992950905ff7701458d9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:41 +0000
Subject: [PATCH 50/88] fix: generator: separate the values of a slice update
 from the relations of its from struct

---
 internal/generator/generator.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 92d7259..4ec4703 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -15,6 +15,8 @@ import (
 	"github.com/frk/gosql/internal/postgres"
 	"github.com/frk/gosql/internal/postgres/oid"
 
+	"github.com/frk/ast"
+
 	GO "github.com/frk/ast/golang"
 	SQL "github.com/frk/ast/sqlang"
 )
@@ -1057,6 +1059,17 @@ func buildSQLInsertStatement(g *generator, qs *analysis.QueryStruct) {
 	g.sqlMainNode = stmt
 }
 
+// nextValuesListClausePartial is the head of a VALUES list that follows
+// other items in the FROM clause.
+type nextValuesListClausePartial struct {
+	SQL.ValuesListClausePartial
+}
+
+func (v nextValuesListClausePartial) Walk(w *ast.Writer) {
+	w.Write(", ")
+	v.ValuesListClausePartial.Walk(w)
+}
+
 // buildSQLUpdateStatement builds an SQL.UpdateStatement.
 func buildSQLUpdateStatement(g *generator, qs *analysis.QueryStruct) {
 	stmt := SQL.UpdateStatement{}
@@ -1073,7 +1086,11 @@ func buildSQLUpdateStatement(g *generator, qs *analysis.QueryStruct) {
 	}
 
 	if qs.Rel.Type.IsSlice {
-		stmt.Head.From.List = append(stmt.Head.From.List, SQL.ValuesListClausePartial{})
+		if len(stmt.Head.From.List) > 0 {
+			stmt.Head.From.List = append(stmt.Head.From.List, nextValuesListClausePartial{})
+		} else {
+			stmt.Head.From.List = append(stmt.Head.From.List, SQL.ValuesListClausePartial{})
+		}
 
 		columns := SQL.NameGroup{}
 		for _, fw := range g.info.Writes {
-- 
2.43.0


From e21d4944ea4b6d3721576f00b5b5a349dd9daab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:04 +0000
Subject: [PATCH 51/88] fix: generator: refuse array types that records are to
 be read from or written to

---
 internal/generator/generator.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 4ec4703..1a04c98 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -54,6 +54,9 @@ func Write(f io.Writer, pkgName string, targets []*postgres.TargetInfo, cfg conf
 			if err := checkJoinConditions(s); err != nil {
 				return err
 			}
+			if err := checkRelArrays(s, info); err != nil {
+				return err
+			}
 			buildQueryCode(g, s)
 		case *analysis.FilterStruct:
 			buildFilterCode(g, s)
@@ -80,6 +83,18 @@ func checkJoinConditions(qs *analysis.QueryStruct) error {
 	return nil
 }
 
+// checkRelArrays ensures that no record is to be read from, or written to, an
+// array, code for which cannot be generated.
+func checkRelArrays(qs *analysis.QueryStruct, info *postgres.TargetInfo) error {
+	if qs.Rel.Type.IsArray && (len(info.Reads) > 0 || len(info.Writes) > 0) && (qs.Result == nil || len(info.Writes) > 0) {
+		return fmt.Errorf("the array type of the %s.%s field is not supported, use a slice", qs.TypeName, qs.Rel.FieldName)
+	}
+	if qs.Result != nil && qs.Result.Type.IsArray {
+		return fmt.Errorf("the array type of the %s.%s field is not supported, use a slice", qs.TypeName, qs.Result.FieldName)
+	}
+	return nil
+}
+
 // The impspec type holds info that is used to generate a GO.ImportSpec node.
 type impspec struct {
 	// The package path of the import spec.
-- 
2.43.0


From 1e7aa794aa6b75f342e6e4360f8d7d1a36a0e7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:04 +0000
Subject: [PATCH 52/88] fix: analysis: refuse between predicates with a single
 operand

---
 internal/analysis/analysis.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 1fea921..2076b10 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -911,6 +911,8 @@ stackloop:
 
 					if item.Predicate.IsUnary() {
 						return a.error(errIllegalUnaryPredicate, fvar, f.Name(), ftag, sqltag, op)
+					} else if item.Predicate.IsRange() {
+						return a.error(errBadDirectiveBooleanExpr, fvar, f.Name(), ftag, "", sqltag)
 					} else if item.Quantifier > 0 && !item.Predicate.CanQuantify() {
 						return a.error(errIllegalPredicateQuantifier, fvar, f.Name(), ftag, sqltag, op2)
 					}
@@ -1240,6 +1242,8 @@ func analyzeJoinStructJoinDirective(a *analysis, j *JoinStruct, dirName string,
 
 				if item.Predicate.IsUnary() {
 					return a.error(errIllegalUnaryPredicate, f, j.FieldName, ftag, val, op)
+				} else if item.Predicate.IsRange() {
+					return a.error(errBadDirectiveBooleanExpr, f, j.FieldName, ftag, "", val)
 				} else if item.Quantifier > 0 && !item.Predicate.CanQuantify() {
 					return a.error(errIllegalPredicateQuantifier, f, j.FieldName, ftag, val, op2)
 				}
-- 
2.43.0


From 505d5099d5e4e26a1390f2a9ec52d62ff4bfb259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:08 +0000
Subject: [PATCH 53/88] fix: postgres: columns of join conditions without a
 qualifier are those of the relation that is joined

---
 internal/postgres/postgres.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 9a1c9b5..f103656 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -584,6 +584,9 @@ func typeCheckQueryJoinStruct(c *checker, qs *analysis.QueryStruct) error {
 			case *analysis.JoinConditionTagItem:
 				cond := new(ColumnConditional)
 				cond.LHSColIdent = item.LHSColIdent
+				if len(cond.LHSColIdent.Qualifier) == 0 {
+					cond.LHSColIdent.Qualifier = relIdentKey(dir.RelIdent)
+				}
 				cond.RHSColIdent = item.RHSColIdent
 				cond.RHSLiteral = item.RHSLiteral
 				cond.Predicate = item.Predicate
-- 
2.43.0


From aee7999f2f48c4910840683d10031cadfd11b2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:12 +0000
Subject: [PATCH 54/88] fix: postgres: refuse join conditions on the target of
 an update or a delete

---
 internal/postgres/errors.go   | 7 +++++++
 internal/postgres/postgres.go | 8 ++++++++
 2 files changed, 15 insertions(+)

diff --git a/internal/postgres/errors.go b/internal/postgres/errors.go
index 2888afa..0553f7d 100644
--- a/internal/postgres/errors.go
+++ b/internal/postgres/errors.go
@@ -52,6 +52,7 @@ const (
 	errColumnFieldTypeRead
 	errColumnFieldComparison
 	errColumnQualifierUnknown
+	errJoinConditionTarget
 	errColumnComparison
 	// predicate errors
 	errPredicateOperandQuantifier
@@ -473,6 +474,12 @@ Column error templates
     - please consider opening an issue if the error persists.
 {{ end }}
 
+{{ define "` + errJoinConditionTarget.name() + `" -}}
+{{Wb .Field.File.NameAndLine}}: {{Y "Illegal column in join condition."}}
+    The column "{{R .Col.Id.Name}}" of the target relation cannot be used in the join conditions of the {{Wb .Target.Name}} type.
+    {{Wb "FIX:"}} Move the condition to the "where" struct.
+{{ end }}
+
 --------------------------------------------------------------------------------
 Pred error templates
 --------------------------------------------------------------------------------
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index f103656..5817341 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -594,6 +594,14 @@ func typeCheckQueryJoinStruct(c *checker, qs *analysis.QueryStruct) error {
 				if err := typeCheckColumnConditional(c, cond, rel, dir.RelIdent, dir); err != nil {
 					return err
 				}
+
+				// The target relation is not visible to the joins of FROM and USING.
+				if q := cond.RHSColIdent.Qualifier; qs.Join.Relation != nil && cond.RHSColumn != nil &&
+					(len(q) == 0 || q == relIdentKey(qs.Rel.Id)) {
+					return c.dbError(dbError{Code: errJoinConditionTarget,
+						Rel: relInfo{Id: qs.Rel.Id, Relation: c.rel},
+						Col: colInfo{Id: cond.RHSColIdent, Column: cond.RHSColumn}}, dir)
+				}
 				conds[i] = cond
 			default:
 				// NOTE(mkopriva): currently predicates other than
-- 
2.43.0


From 5d4c95da69f918e59d2985ef49c11835fda524c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:20 +0000
Subject: [PATCH 55/88] fix: postgres: refuse comparisons of values of one type
 that has no such operator

---
 internal/postgres/postgres.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 5817341..6dd56e3 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1063,6 +1063,9 @@ func typeCheckComparison(c *checker, ltyp *Type, rtyp *Type, pred analysis.Predi
 	}
 
 	if ltyp.OID == rtyp.OID {
+		if !hasOperator(c, ltyp, pred) {
+			return errColumnComparison
+		}
 		return 0
 	}
 
@@ -1099,6 +1102,32 @@ func typeCheckComparison(c *checker, ltyp *Type, rtyp *Type, pred analysis.Predi
 	return errColumnComparison
 }
 
+// hasOperator reports whether or not two values of the given type can be
+// compared with the operator of the given predicate.
+func hasOperator(c *checker, typ *Type, pred analysis.Predicate) bool {
+	if typ.Category == TypeCategoryString {
+		return true
+	}
+	// The operators of enums, arrays, ranges, etc. are those of pseudo-types.
+	if typ.Type != TypeTypeBase || typ.Category == TypeCategoryArray {
+		return !pred.IsPatternMatch()
+	}
+
+	name := predicateToOprname[pred]
+	if _, ok := c.db.catalog.Operators[OpKey{Left: typ.OID, Right: typ.OID, Name: name}]; ok {
+		return true
+	}
+	for key, cast := range c.db.catalog.Casts {
+		if key.Source != typ.OID || cast.Context != CastContextImplicit {
+			continue
+		}
+		if _, ok := c.db.catalog.Operators[OpKey{Left: key.Target, Right: key.Target, Name: name}]; ok {
+			return true
+		}
+	}
+	return false
+}
+
 // typeCheckQueryOnConflictStruct
 //
 // CHECKLIST:
-- 
2.43.0


From d0e17fa1b0723ff9542999051d9c7b4b861dba88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:49 +0000
Subject: [PATCH 56/88] fix: analysis: refuse complex numbers for xml columns

---
 internal/analysis/analysis.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 2076b10..d641670 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -2440,7 +2440,7 @@ func (t *TypeInfo) IsJSONIllegal() bool {
 
 // Indicates whether or not an instance of the type's Kind is illegal to be used with encoding/xml.
 func (t *TypeInfo) IsXMLIllegal() bool {
-	return t.Is(TypeKindChan, TypeKindFunc, TypeKindMap)
+	return t.Is(TypeKindChan, TypeKindFunc, TypeKindMap, TypeKindComplex64, TypeKindComplex128)
 }
 
 ////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From ee1bcacce5e2fa4a8592d8ff2e1085329bd345ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:52 +0000
Subject: [PATCH 57/88] fix: postgres: read inet arrays with the scanners of
 inet arrays

---
 internal/postgres/compatibility.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/postgres/compatibility.go b/internal/postgres/compatibility.go
index 115333b..80ba236 100644
--- a/internal/postgres/compatibility.go
+++ b/internal/postgres/compatibility.go
@@ -215,8 +215,8 @@ func init_oid2literal() map[compkey]map[analysis.LiteralType]compentry {
 			analysis.LiteralByteSlice: {},
 		},
 		{oid: oid.InetArr}: {
-			analysis.LiteralIPSlice:    {valuer: "InetArrayFromIPSlice", scanner: "InetArrayFromIPSlice"},
-			analysis.LiteralIPNetSlice: {valuer: "InetArrayFromIPNetSlice", scanner: "InetArrayFromIPNetSlice"},
+			analysis.LiteralIPSlice:    {valuer: "InetArrayFromIPSlice", scanner: "InetArrayToIPSlice"},
+			analysis.LiteralIPNetSlice: {valuer: "InetArrayFromIPNetSlice", scanner: "InetArrayToIPNetSlice"},
 			analysis.LiteralString:     {},
 			analysis.LiteralByteSlice:  {},
 		},
-- 
2.43.0


From 79ee96385552d5c3b33e04bafb2521a1248a3413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:16 +0000
Subject: [PATCH 58/88] fix: postgres: refuse fields whose type the converter
 of the column does not take

---
 internal/postgres/postgres.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 6dd56e3..fa94c95 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -847,7 +847,8 @@ func typeCheckFieldConditional(c *checker, cond *FieldConditional) dbErrorCode {
 	key := OpKey{Left: coid, Right: coid, Name: oprname}
 	if _, ok := c.db.catalog.Operators[key]; ok {
 		typmod1 := isLength1Type(c, cond.Column)
-		if comp := typeCompatibility(c, ctyp, ftyp, typmod1); comp != nil {
+		comp := typeCompatibility(c, ctyp, ftyp, typmod1)
+		if comp != nil && (comp.valuer == "" || isConvertible(ftyp)) {
 			cond.Valuer = comp.valuer
 			return 0
 		}
@@ -868,7 +869,7 @@ func typeCheckFieldConditional(c *checker, cond *FieldConditional) dbErrorCode {
 			if ce.valuer == "" {
 				comp = ce
 				break
-			} else if comp == nil {
+			} else if comp == nil && isConvertible(ftyp) {
 				comp = ce
 			}
 		}
@@ -935,7 +936,8 @@ func typeCheckFieldConditionalWithFunc(c *checker, cond *FieldConditional) dbErr
 				ftyp = analysis.TypeInfo{Kind: analysis.TypeKindString}
 			}
 
-			if comp := typeCompatibility(c, p.R, ftyp, false); comp != nil {
+			comp := typeCompatibility(c, p.R, ftyp, false)
+			if comp != nil && (comp.valuer == "" || isConvertible(ftyp)) {
 				cond.Valuer = comp.valuer
 				return 0
 			}
@@ -1352,6 +1354,9 @@ func typeCheckFieldRead(c *checker, f *analysis.FieldInfo, strict bool) error {
 
 		typmod1 := isLength1Type(c, col)
 		if comp := typeCompatibility(c, col.Type, f.Type, typmod1); comp != nil {
+			if comp.scanner != "" && !isConvertible(f.Type) {
+				return "", errColumnFieldTypeRead
+			}
 			return comp.scanner, 0
 		}
 
@@ -1476,6 +1481,9 @@ func typeCheckFieldWrite(c *checker, f *analysis.FieldInfo) (*FieldWrite, error)
 
 		typmod1 := isLength1Type(c, col)
 		if comp := typeCompatibility(c, col.Type, f.Type, typmod1); comp != nil {
+			if comp.valuer != "" && !isConvertible(f.Type) {
+				return "", errColumnFieldTypeWrite
+			}
 			return comp.valuer, 0
 		}
 
@@ -1594,6 +1602,9 @@ func typeCheckFieldFilter(c *checker, f *analysis.FieldInfo, strict bool) error
 
 		typmod1 := isLength1Type(c, col)
 		if comp := typeCompatibility(c, col.Type, f.Type, typmod1); comp != nil {
+			if comp.valuer != "" && !isConvertible(f.Type) {
+				return "", errColumnFieldTypeWrite
+			}
 			return comp.valuer, 0
 		}
 
@@ -2161,6 +2172,17 @@ func typeCompatibility(c *checker, ctyp *Type, ftyp analysis.TypeInfo, typmod1 b
 	return nil // not compatible
 }
 
+// isConvertible reports whether or not a field of the given type can be passed
+// to the pgsql converters. The converters take the types of the compatibility
+// table, they do not take pointers to those types, nor do they take types that
+// were defined with one of the basic types.
+func isConvertible(typ analysis.TypeInfo) bool {
+	if typ.Kind == analysis.TypeKindPtr {
+		return false
+	}
+	return !typ.Kind.IsBasic() || typ.Name == ""
+}
+
 // typeOfLiteral returns the type of the given literal expression.
 func typeOfLiteral(c *checker, expr string) (*Type, dbErrorCode) {
 	const pgselectexprtype = `SELECT id::oid FROM pg_typeof(%s) AS id` //`
-- 
2.43.0


From 1ac40d7bb909b2fb823848a8702a750845bc111f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:16 +0000
Subject: [PATCH 59/88] fix: generator: numbers and bytes keep their type in
 NULLIF

---
 internal/generator/generator.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 1a04c98..b5d64a7 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -768,6 +768,13 @@ func addNULLIFCallExpr(x SQL.ValueExpr, c *postgres.Column) SQL.ValueExpr {
 		nullif.Value = x
 		nullif.Expr = SQL.Literal{lit}
 
+		// NOTE without its type the literal would make the type of the
+		// parameter "integer" or "text", i.e. not the column's type.
+		switch c.Type.OID {
+		case oid.Int8, oid.Numeric, oid.Money, oid.Float4, oid.Bytea:
+			nullif.Expr = SQL.CastExpr{Expr: nullif.Expr, Type: c.Type.NameFmt}
+		}
+
 		cast := SQL.CastExpr{}
 		cast.Expr = nullif
 		cast.Type = c.Type.NameFmt
-- 
2.43.0


From c6ace6975cb2d03a19ca60749dea2f76b3184543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:20 +0000
Subject: [PATCH 60/88] fix: postgres: quote the zero value of line segments

---
 internal/postgres/oid/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/postgres/oid/types.go b/internal/postgres/oid/types.go
index 5bd705d..32dbaf0 100644
--- a/internal/postgres/oid/types.go
+++ b/internal/postgres/oid/types.go
@@ -247,7 +247,7 @@ var TypeToZeroValue = map[OID]string{
 	JSONBArr:      `'{}'`,
 	// Line:          `''`,
 	LineArr:        `'{}'`,
-	LSeg:           `[(0,0),(0,0)]`,
+	LSeg:           `'[(0,0),(0,0)]'`,
 	LSegArr:        `'{}'`,
 	MACAddr:        `'00:00:00:00:00:00'`,
 	MACAddrArr:     `'{}'`,
-- 
2.43.0


From 631c469b770b3f20b503edba70601b43e0ffdfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:05 +0000
Subject: [PATCH 61/88] fix: postgres, generator: convert the operands of isin
 and notin one by one

---
 internal/generator/generator.go |  7 ++++++-
 internal/postgres/postgres.go   | 27 +++++++++++++++++++++++++++
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index b5d64a7..ac9bf9b 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -149,6 +149,8 @@ type generator struct {
 	// List of selector expressions for fields that containin slices that
 	// will be used as input for [NOT] IN clauses.
 	inputSliceArgs []GO.SelectorExpr
+	// The names of the converters, if any, for the elements of inputSliceArgs.
+	inputSliceValuers []string
 	// The list of target columns to be set by the sql query (INSERT|UPDATE).
 	inputCols      SQL.NameGroup
 	inputColsPKeys SQL.NameGroup
@@ -1381,6 +1383,7 @@ func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, s
 				qua        analysis.Quantifier
 				fieldName  string
 				columnType string
+				valuer     string
 			)
 
 			// prepare
@@ -1391,6 +1394,7 @@ func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, s
 				qua = cond.Quantifier
 				lhs = makeColRef(g, cond.ColIdent)
 				rhs = makeParamSpec(g, cond)
+				valuer = cond.Valuer
 
 				if len(cond.FuncName) > 0 {
 					lhsFuncCall := SQL.RoutineInvocation{}
@@ -1473,6 +1477,7 @@ func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, s
 			case analysis.IsIn, analysis.NotIn:
 				sx := GO.SelectorExpr{X: sx, Sel: GO.Ident{fieldName}}
 				g.inputSliceArgs = append(g.inputSliceArgs, sx)
+				g.inputSliceValuers = append(g.inputSliceValuers, valuer)
 				g.paramNum -= 1 // ordinal param won't be used directly
 
 				num := strconv.Itoa(len(g.inputSliceArgs))
@@ -1810,7 +1815,7 @@ func buildQueryStringForSliceArgs(g *generator, qs *analysis.QueryStruct) {
 
 		assign := GO.AssignStmt{Token: GO.Assign}
 		assign.Lhs = GO.IndexExpr{X: paramsVar, Index: binExpr}
-		assign.Rhs = GO.IndexExpr{X: arg, Index: iVar}
+		assign.Rhs = addConverterCallExpr(g, GO.IndexExpr{X: arg, Index: iVar}, g.inputSliceValuers[i])
 
 		forLoop.Body = GO.BlockStmt{List: []GO.StmtNode{assign}}
 		stmtList = append(stmtList, forLoop)
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index fa94c95..954e575 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -848,6 +848,9 @@ func typeCheckFieldConditional(c *checker, cond *FieldConditional) dbErrorCode {
 	if _, ok := c.db.catalog.Operators[key]; ok {
 		typmod1 := isLength1Type(c, cond.Column)
 		comp := typeCompatibility(c, ctyp, ftyp, typmod1)
+		if comp != nil && cond.Predicate.IsArray() {
+			return typeCheckFieldConditionalElem(c, cond)
+		}
 		if comp != nil && (comp.valuer == "" || isConvertible(ftyp)) {
 			cond.Valuer = comp.valuer
 			return 0
@@ -877,7 +880,31 @@ func typeCheckFieldConditional(c *checker, cond *FieldConditional) dbErrorCode {
 	if comp == nil {
 		return errColumnFieldComparison
 	}
+	if cond.Predicate.IsArray() {
+		return typeCheckFieldConditionalElem(c, cond)
+	}
+
+	cond.Valuer = comp.valuer
+	return 0
+}
+
+// typeCheckFieldConditionalElem checks the element type of the given conditional's
+// field against the conditional's column. The operands of an array predicate are the
+// individual elements of the field and therefore it's them that need to be converted.
+func typeCheckFieldConditionalElem(c *checker, cond *FieldConditional) dbErrorCode {
+	if cond.FieldType.Elem == nil {
+		return errPredicateOperandArray
+	}
+
+	etyp := *cond.FieldType.Elem
+	if !etyp.Kind.IsBasic() && etyp.IsValuer {
+		etyp = analysis.TypeInfo{Kind: analysis.TypeKindString}
+	}
 
+	comp := typeCompatibility(c, cond.Column.Type, etyp, isLength1Type(c, cond.Column))
+	if comp == nil || (comp.valuer != "" && !isConvertible(etyp)) {
+		return errColumnFieldComparison
+	}
 	cond.Valuer = comp.valuer
 	return 0
 }
-- 
2.43.0


From e71eb8ba55da4879f9c77fea28af72dbf20939d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:46 +0000
Subject: [PATCH 62/88] fix: postgres: distinct predicates need the equality
 operator

---
 internal/postgres/enums.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/postgres/enums.go b/internal/postgres/enums.go
index d0f763c..170040c 100644
--- a/internal/postgres/enums.go
+++ b/internal/postgres/enums.go
@@ -90,7 +90,7 @@ var predicateToOprname = map[analysis.Predicate]string{
 	analysis.IsMatchi:    "~*",
 	analysis.NotMatch:    "!~",
 	analysis.NotMatchi:   "!~*",
-	analysis.IsDistinct:  "<>",
+	analysis.IsDistinct:  "=", // IS [NOT] DISTINCT FROM is resolved with "="
 	analysis.NotDistinct: "=",
 	analysis.IsLike:      "~~",
 	analysis.NotLike:     "!~~",
-- 
2.43.0


From 5b77406c1e9b652fd73685d16be2e715058cac27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:50 +0000
Subject: [PATCH 63/88] fix: postgres: refuse to read numbers, booleans, and
 times into types defined as string

---
 internal/postgres/postgres.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 954e575..5e48124 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1384,6 +1384,9 @@ func typeCheckFieldRead(c *checker, f *analysis.FieldInfo, strict bool) error {
 			if comp.scanner != "" && !isConvertible(f.Type) {
 				return "", errColumnFieldTypeRead
 			}
+			if comp.scanner == "" && !isScannable(f.Type, col.Type) {
+				return "", errColumnFieldTypeRead
+			}
 			return comp.scanner, 0
 		}
 
@@ -2210,6 +2213,21 @@ func isConvertible(typ analysis.TypeInfo) bool {
 	return !typ.Kind.IsBasic() || typ.Name == ""
 }
 
+// isScannable reports whether or not database/sql can scan a column of the given
+// type into a field of the given type. The driver turns columns of the listed types
+// into int64, float64, bool, or time.Time values; database/sql can convert those to
+// strings, but it can not convert them to types that were defined as string.
+func isScannable(ftyp analysis.TypeInfo, ctyp *Type) bool {
+	if ftyp.Kind == analysis.TypeKindPtr && ftyp.Elem != nil {
+		ftyp = *ftyp.Elem
+	}
+	if ftyp.Kind != analysis.TypeKindString || ftyp.Name == "" || ftyp.ImplementsScanner() {
+		return true
+	}
+	return !ctyp.is(oid.Int2, oid.Int4, oid.Int8, oid.Float4, oid.Float8, oid.Bool,
+		oid.Date, oid.Time, oid.Timetz, oid.Timestamp, oid.Timestamptz)
+}
+
 // typeOfLiteral returns the type of the given literal expression.
 func typeOfLiteral(c *checker, expr string) (*Type, dbErrorCode) {
 	const pgselectexprtype = `SELECT id::oid FROM pg_typeof(%s) AS id` //`
-- 
2.43.0


From ed669764a02fbfd43e66ea3f4528989875fd4ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:42 +0000
Subject: [PATCH 64/88] fix: analysis: pointers to bytes are kept in documents
 as the bytes are

---
 internal/analysis/analysis.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index d641670..42719b8 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -2380,9 +2380,12 @@ func (t *TypeInfo) Is(kk ...TypeKind) bool {
 	return false
 }
 
-// IsSliceKind reports whether or not t represents a slice type whose elem type
-// is one of the provided TypeKinds.
+// IsSliceKind reports whether or not t represents a slice type, or a pointer to
+// a slice type, whose elem type is one of the provided TypeKinds.
 func (t *TypeInfo) IsSliceKind(kk ...TypeKind) bool {
+	if t.Kind == TypeKindPtr {
+		t = t.Elem
+	}
 	if t.Kind == TypeKindSlice {
 		for _, k := range kk {
 			if t.Elem.Kind == k {
-- 
2.43.0


From 288a1a4059bc25129120d63d3b23f578c6c51d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:45 +0000
Subject: [PATCH 65/88] fix: postgres: refuse to read bits into types defined
 as bool

---
 internal/postgres/postgres.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 5e48124..fc5906f 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -2214,13 +2214,17 @@ func isConvertible(typ analysis.TypeInfo) bool {
 }
 
 // isScannable reports whether or not database/sql can scan a column of the given
-// type into a field of the given type. The driver turns columns of the listed types
+// type into a field of the given type. Types that were defined as bool can be scanned
+// only from booleans. As for types that were defined as string, the driver turns columns of the listed types
 // into int64, float64, bool, or time.Time values; database/sql can convert those to
 // strings, but it can not convert them to types that were defined as string.
 func isScannable(ftyp analysis.TypeInfo, ctyp *Type) bool {
 	if ftyp.Kind == analysis.TypeKindPtr && ftyp.Elem != nil {
 		ftyp = *ftyp.Elem
 	}
+	if ftyp.Kind == analysis.TypeKindBool && ftyp.Name != "" && !ftyp.ImplementsScanner() {
+		return ctyp.is(oid.Bool)
+	}
 	if ftyp.Kind != analysis.TypeKindString || ftyp.Name == "" || ftyp.ImplementsScanner() {
 		return true
 	}
-- 
2.43.0


From 6ecae806e3dcaa6b5962abe1b0e79bbe525218de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:53 +0000
Subject: [PATCH 66/88] fix: pgsql: refuse bytea array elements that aren't in
 hex notation

---
 pgsql/byteaarr.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pgsql/byteaarr.go b/pgsql/byteaarr.go
index 4b30b91..bf7bc7a 100644
--- a/pgsql/byteaarr.go
+++ b/pgsql/byteaarr.go
@@ -77,10 +77,10 @@ func (v byteaArrayToByteSliceSlice) Scan(src interface{}) error {
 	out := make([][]byte, len(elems))
 	for i := 0; i < len(elems); i++ {
 		src := elems[i]
-		if len(src) > 0 && src[0] == 'N' { // NULL
+		if string(src) == "NULL" {
 			continue
 		}
-		if len(src) < 5 {
+		if n := len(src); n < 5 || string(src[:4]) != `"\\x` || src[n-1] != '"' {
 			return fmt.Errorf("gosql/pgsql: bad bytea array element %q", src)
 		}
 
@@ -145,10 +145,10 @@ func (v byteaArrayToStringSlice) Scan(src interface{}) error {
 	out := make([]string, len(elems))
 	for i := 0; i < len(elems); i++ {
 		src := elems[i]
-		if len(src) > 0 && src[0] == 'N' { // NULL
+		if string(src) == "NULL" {
 			continue
 		}
-		if len(src) < 5 {
+		if n := len(src); n < 5 || string(src[:4]) != `"\\x` || src[n-1] != '"' {
 			return fmt.Errorf("gosql/pgsql: bad bytea array element %q", src)
 		}
 
-- 
2.43.0


From 35afe1ef888a4e401d8c6c47993c7e706ffb6883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:35 +0000
Subject: [PATCH 67/88] fix: pgsql: refuse timestamp array elements that merely
 begin as NULL does

---
 pgsql/timestamparr.go   | 2 +-
 pgsql/timestamptzarr.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgsql/timestamparr.go b/pgsql/timestamparr.go
index f3ef1c9..c1e3623 100644
--- a/pgsql/timestamparr.go
+++ b/pgsql/timestamparr.go
@@ -61,7 +61,7 @@ func (v timestampArrayToTimeSlice) Scan(src interface{}) error {
 	times := make([]time.Time, len(elems))
 	for i := 0; i < len(elems); i++ {
 		ts := elems[i]
-		if len(ts) > 0 && ts[0] == 'N' { // NULL
+		if string(ts) == "NULL" {
 			continue
 		}
 
diff --git a/pgsql/timestamptzarr.go b/pgsql/timestamptzarr.go
index f49615f..10ed48d 100644
--- a/pgsql/timestamptzarr.go
+++ b/pgsql/timestamptzarr.go
@@ -62,7 +62,7 @@ func (v timestamptzArrayToTimeSlice) Scan(src interface{}) error {
 	times := make([]time.Time, len(elems))
 	for i := 0; i < len(elems); i++ {
 		ts := elems[i]
-		if len(ts) > 0 && ts[0] == 'N' { // NULL
+		if string(ts) == "NULL" {
 			continue
 		}
 
-- 
2.43.0


From 24f5324adbada36b10e0dd200e83b1349a8c8b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:01 +0000
Subject: [PATCH 68/88] fix: refuse the columns of another relation where only
 the target's can be used

---
 internal/postgres/errors.go   |  6 ++++++
 internal/postgres/postgres.go | 18 ++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/internal/postgres/errors.go b/internal/postgres/errors.go
index 0553f7d..d9da9ec 100644
--- a/internal/postgres/errors.go
+++ b/internal/postgres/errors.go
@@ -52,6 +52,7 @@ const (
 	errColumnFieldTypeRead
 	errColumnFieldComparison
 	errColumnQualifierUnknown
+	errColumnQualifierTarget
 	errJoinConditionTarget
 	errColumnComparison
 	// predicate errors
@@ -474,6 +475,11 @@ Column error templates
     - please consider opening an issue if the error persists.
 {{ end }}
 
+{{ define "` + errColumnQualifierTarget.name() + `" -}}
+{{Wb .Field.File.NameAndLine}}: {{Y "Not a column of the target relation."}}
+    The column "{{R .Col.Id.Qualifier}}.{{R .Col.Id.Name}}" in {{Wb .Target.Name}} cannot be used here, only the columns of the target relation can be.
+{{ end }}
+
 {{ define "` + errJoinConditionTarget.name() + `" -}}
 {{Wb .Field.File.NameAndLine}}: {{Y "Illegal column in join condition."}}
     The column "{{R .Col.Id.Name}}" of the target relation cannot be used in the join conditions of the {{Wb .Target.Name}} type.
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index fc5906f..9b8fab8 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -368,6 +368,10 @@ func typeCheckQueryDefaultDirective(c *checker, qs *analysis.QueryStruct) error
 	}
 
 	for _, cid := range qs.Default.Items {
+		if !isTargetColumn(c, cid) {
+			return c.dbError(dbError{Code: errColumnQualifierTarget,
+				Rel: relInfo{Relation: c.rel}, Col: colInfo{Id: cid}}, qs.Default)
+		}
 		if col := findRelColumn(c.rel, cid.Name); col == nil {
 			return c.dbError(dbError{Code: errColumnUnknown,
 				Rel: relInfo{Relation: c.rel}, Col: colInfo{Id: cid}}, qs.Default)
@@ -428,6 +432,10 @@ func typeCheckQueryReturnDirective(c *checker, qs *analysis.QueryStruct) error {
 	} else {
 		strict = true
 		for _, cid := range qs.Return.Items {
+			if !isTargetColumn(c, cid) {
+				return c.dbError(dbError{Code: errColumnQualifierTarget,
+					Rel: relInfo{Relation: c.rel}, Col: colInfo{Id: cid}}, qs.Return)
+			}
 			if f, ecode := findQueryColumnField(c, qs, cid, strict); ecode > 0 {
 				return c.dbError(dbError{Code: ecode, Col: colInfo{Id: cid}}, qs.Return)
 			} else if f != nil {
@@ -458,6 +466,10 @@ func typeCheckQueryResultField(c *checker, qs *analysis.QueryStruct) error {
 	}
 
 	for _, f := range qs.Result.Type.Fields {
+		if !isTargetColumn(c, f.ColIdent) {
+			return c.dbError(dbError{Code: errColumnQualifierTarget,
+				Rel: relInfo{Relation: c.rel}, Col: colInfo{Id: f.ColIdent}}, f)
+		}
 		if err := typeCheckFieldRead(c, f, true); err != nil {
 			return err
 		}
@@ -2267,6 +2279,12 @@ func relIdentKey(rid analysis.RelIdent) string {
 	return rid.Name
 }
 
+// isTargetColumn reports whether or not the given identifier, if it has a
+// qualifier, identifies a column of the target relation.
+func isTargetColumn(c *checker, cid analysis.ColIdent) bool {
+	return len(cid.Qualifier) == 0 || cid.Qualifier == relIdentKey(c.rid)
+}
+
 // matchNumbers is a helper func that reports whether a and b both contain
 // the same numbers regardless of the order.
 func matchNumbers(a, b []int16) bool {
-- 
2.43.0


From 37e05f4fe43bd180fd97316028d65eef981a60d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:05 +0000
Subject: [PATCH 69/88] fix: analyse a record anew where its columns can be
 qualified with other relations

---
 internal/analysis/analysis.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 42719b8..03d4028 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -6,6 +6,7 @@ import (
 	"go/types"
 	"log"
 	"regexp"
+	"sort"
 	"strconv"
 	"strings"
 	"sync"
@@ -469,8 +470,14 @@ func analyzeRelType(a *analysis, rt *RelType, field *types.Var) error {
 	}()
 
 	ftyp := field.Type()
-	// The result of the analysis depends also on the package in which the type is used.
-	cacheKey := a.pkgPath + "|" + ftyp.String()
+	// The result of the analysis depends also on the package in which the type
+	// is used, and on the relations with which its columns can be qualified.
+	quals := make([]string, 0, len(a.info.RelSpace))
+	for q := range a.info.RelSpace {
+		quals = append(quals, q)
+	}
+	sort.Strings(quals)
+	cacheKey := a.pkgPath + "|" + ftyp.String() + "|" + strings.Join(quals, "|")
 	named, ok := ftyp.(*types.Named)
 	if ok {
 		ftyp = named.Underlying()
-- 
2.43.0


From ca56a6cec184ee5130744e904af41d362ea5765c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:22 +0000
Subject: [PATCH 70/88] fix: postgres: refuse functions that can't be called in
 a condition

---
 internal/postgres/postgres.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 9b8fab8..f6752f7 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1903,6 +1903,7 @@ func loadCatalog(db *DB, key string) (*Catalog, error) {
 		return nil, db.dbError(dbError{Code: errCatalogCastGet, Err: err})
 	}
 
+	// Only those functions that can be called in a conditional, by their unquoted name.
 	var selectProcs string
 	if db.version >= 110000 {
 		// v11+
@@ -1914,6 +1915,10 @@ func loadCatalog(db *DB, key string) (*Catalog, error) {
 			, p.prokind = 'a'
 		FROM pg_proc p
 		WHERE p.pronargs = 1
+		AND p.prokind = 'f'
+		AND NOT p.proretset
+		AND pg_function_is_visible(p.oid)
+		AND p.proname = quote_ident(p.proname)
 		AND p.proname NOT LIKE 'pg_%'
 		AND p.proname NOT LIKE '_pg_%'
 		` //`
@@ -1927,6 +1932,11 @@ func loadCatalog(db *DB, key string) (*Catalog, error) {
 			, p.proisagg
 		FROM pg_proc p
 		WHERE p.pronargs = 1
+		AND NOT p.proisagg
+		AND NOT p.proiswindow
+		AND NOT p.proretset
+		AND pg_function_is_visible(p.oid)
+		AND p.proname = quote_ident(p.proname)
 		AND p.proname NOT LIKE 'pg_%'
 		AND p.proname NOT LIKE '_pg_%'
 		` //`
-- 
2.43.0


From 61fdc09d602a1479dddfcaed58a9024f8f678091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:22 +0000
Subject: [PATCH 71/88] fix: postgres: refuse functions whose argument a column
 can't be cast to implicitly

---
 internal/postgres/postgres.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index f6752f7..98a080a 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1695,10 +1695,10 @@ func checkTypeCoercion(c *checker, target oid.OID, source oid.OID) bool {
 		return true
 	}
 
-	// if pg_cast says ok, accept.
+	// if pg_cast says ok, accept. (the casts "in assignment" do not apply to function arguments)
 	key := CastKey{Target: target, Source: source}
 	if cast := c.db.catalog.Casts[key]; cast != nil {
-		return cast.Context == CastContextImplicit || cast.Context == CastContextAssignment
+		return cast.Context == CastContextImplicit
 	}
 	return false
 }
-- 
2.43.0


From 6d2f81888fdda8f8ae0a74113d5f1687e413b2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:46 +0000
Subject: [PATCH 72/88] fix: postgres: refuse functions of which none can be
 chosen for a parameter

---
 internal/postgres/postgres.go | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 98a080a..f2fc3a3 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -923,7 +923,7 @@ func typeCheckFieldConditionalElem(c *checker, cond *FieldConditional) dbErrorCo
 
 func typeCheckFieldConditionalWithFunc(c *checker, cond *FieldConditional) dbErrorCode {
 	procs, ok := c.db.catalog.Procs[string(cond.FuncName)]
-	if !ok {
+	if !ok || !resolvesParameter(c, procs) {
 		return errProcedureUnknown
 	}
 
@@ -1005,6 +1005,38 @@ func typeCheckFieldConditionalWithFunc(c *checker, cond *FieldConditional) dbErr
 //     ✅ The RHS column or literal expression MUST be quantifiable.
 //
 //     ✅ The LHS and RHS types MUST be comparable with the given predicate and quantifier.
+// resolvesParameter reports whether or not postgres can choose one from the given overloads
+// of a function for an argument that, like a parameter of a statement, has no type.
+func resolvesParameter(c *checker, procs []*Proc) bool {
+	var (
+		total   = make(map[TypeCategory]int)
+		prefers = make(map[TypeCategory]int)
+	)
+	for _, p := range procs {
+		cat := TypeCategoryPseudo
+		if typ, ok := c.db.catalog.Types[p.ArgType]; ok {
+			cat = typ.Category
+			if typ.IsPreferred {
+				prefers[cat]++
+			}
+		}
+		total[cat]++
+	}
+	if len(procs) == 1 {
+		return true
+	}
+
+	cat := TypeCategoryString
+	if total[cat] == 0 {
+		if len(total) != 1 {
+			return false
+		}
+		for cat = range total {
+		}
+	}
+	return prefers[cat] == 1 || (prefers[cat] == 0 && total[cat] == 1)
+}
+
 func typeCheckColumnConditional(c *checker, cond *ColumnConditional, rel *Relation, rid analysis.RelIdent, ptr analysis.FieldPtr) error {
 	if cond.LHSColumn == nil {
 		if rel != nil {
-- 
2.43.0


From 2650bda3036e45364ff3ba0b1b40c95e16452b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:14 +0000
Subject: [PATCH 73/88] fix: postgres: refuse pattern matching of types that
 have no operator for it

---
 internal/postgres/enums.go    | 4 ++--
 internal/postgres/postgres.go | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/postgres/enums.go b/internal/postgres/enums.go
index 170040c..a220dee 100644
--- a/internal/postgres/enums.go
+++ b/internal/postgres/enums.go
@@ -96,8 +96,8 @@ var predicateToOprname = map[analysis.Predicate]string{
 	analysis.NotLike:     "!~~",
 	analysis.IsILike:     "~~*",
 	analysis.NotILike:    "!~~*",
-	analysis.IsSimilar:   "~~",
-	analysis.NotSimilar:  "!~~",
+	analysis.IsSimilar:   "~", // [NOT] SIMILAR TO is resolved with "~"
+	analysis.NotSimilar:  "!~",
 	analysis.IsIn:        "=",
 	analysis.NotIn:       "<>",
 }
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index f2fc3a3..d62f0e5 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -838,6 +838,9 @@ func typeCheckFieldConditional(c *checker, cond *FieldConditional) dbErrorCode {
 	}
 
 	if ctyp.Type == TypeTypeEnum { // enum labels are basically text
+		if cond.Predicate.IsPatternMatch() { // but enums have no such operators
+			return errColumnFieldComparison
+		}
 		coid = oid.Text
 	}
 
@@ -1143,6 +1146,9 @@ func typeCheckComparison(c *checker, ltyp *Type, rtyp *Type, pred analysis.Predi
 	}
 
 	if (ltyp.Category == TypeCategoryString || ltyp.Type == TypeTypeEnum) && rtyp.OID == oid.Unknown {
+		if !hasOperator(c, ltyp, pred) {
+			return errColumnComparison
+		}
 		return 0
 	}
 
-- 
2.43.0


From bb306805164f81ce0c504580d11a5d03058b5edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:14 +0000
Subject: [PATCH 74/88] fix: refuse limits and offsets that postgres doesn't
 take

---
 internal/analysis/analysis.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 03d4028..fb20543 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -1489,7 +1489,7 @@ func analyzeLimitFieldOrDirective(a *analysis, f *types.Var, tag string) error {
 	}
 
 	if len(val) > 0 {
-		u64, err := strconv.ParseUint(val, 10, 64)
+		u64, err := strconv.ParseUint(val, 10, 63) // a bigint
 		if err != nil {
 			return a.error(errBadUIntegerTagValue, f, "", tag, "", val)
 		}
@@ -1524,7 +1524,7 @@ func analyzeOffsetFieldOrDirective(a *analysis, f *types.Var, tag string) error
 	}
 
 	if len(val) > 0 {
-		u64, err := strconv.ParseUint(val, 10, 64)
+		u64, err := strconv.ParseUint(val, 10, 63) // a bigint
 		if err != nil {
 			return a.error(errBadUIntegerTagValue, f, "", tag, "", val)
 		}
-- 
2.43.0


From 9f94273522956aef29f104429d1b29a69448a47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:29 +0000
Subject: [PATCH 75/88] fix: postgres: refuse to compare an enum with what
 isn't a label of it

---
 internal/postgres/postgres.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index d62f0e5..e6d9642 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1093,6 +1093,9 @@ func typeCheckColumnConditional(c *checker, cond *ColumnConditional, rel *Relati
 		cond.RHSType = col.Type
 	} else if len(cond.RHSLiteral) > 0 {
 		typ, ecode := typeOfLiteral(c, cond.RHSLiteral)
+		if ecode == 0 && typ.is(oid.Unknown) && cond.LHSColumn.Type.Type == TypeTypeEnum {
+			ecode = checkEnumLiteral(c, cond.LHSColumn.Type, cond.RHSLiteral)
+		}
 		if ecode > 0 {
 			return c.dbError(dbError{Code: ecode,
 				Col:    colInfo{Id: cond.LHSColIdent, Column: cond.LHSColumn},
@@ -2304,6 +2307,20 @@ func typeOfLiteral(c *checker, expr string) (*Type, dbErrorCode) {
 	return c.db.catalog.Types[typoid], 0
 }
 
+// checkEnumLiteral checks that the given literal expression, if not NULL, is a label of the given enum type.
+func checkEnumLiteral(c *checker, typ *Type, expr string) dbErrorCode {
+	const pgselectenumlabel = `SELECT (%[1]s) IS NULL OR EXISTS (
+		SELECT 1 FROM pg_enum e WHERE e.enumtypid = %[2]d AND e.enumlabel = (%[1]s)
+	)` //`
+
+	var ok bool
+	row := c.db.QueryRow(fmt.Sprintf(pgselectenumlabel, expr, typ.OID))
+	if err := row.Scan(&ok); err != nil || !ok {
+		return errPredicateLiteralExpr
+	}
+	return 0
+}
+
 // isLength1Type reports whether or not the given column's type
 // is a "length 1" type, i.e. char(1), varchar(1), or bit(1)[], etc.
 func isLength1Type(c *checker, col *Column) bool {
-- 
2.43.0


From c155b335c225d956c69f439623facb14d10e845c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:59 +0000
Subject: [PATCH 76/88] fix: set a column listed twice in an on-conflict update
 only once

---
 internal/postgres/postgres.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index e6d9642..a21fcad 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1323,6 +1323,7 @@ func typeCheckQueryOnConflictStruct(c *checker, qs *analysis.QueryStruct) error
 
 		} else {
 
+			seen := make(map[*Column]bool) // a column can be set only once
 			for _, cid := range qs.OnConflict.Update.Items {
 				col := findRelColumn(c.rel, cid.Name)
 				if col == nil {
@@ -1330,7 +1331,10 @@ func typeCheckQueryOnConflictStruct(c *checker, qs *analysis.QueryStruct) error
 						Rel: relInfo{Relation: c.rel}, Col: colInfo{Id: cid}},
 						qs.OnConflict.Update)
 				}
-				info.Update = append(info.Update, col)
+				if !seen[col] {
+					seen[col] = true
+					info.Update = append(info.Update, col)
+				}
 			}
 		}
 	}
-- 
2.43.0


From 454777b2c5602c7420571e4e122ed9383721d26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:21 +0000
Subject: [PATCH 77/88] fix: postgres: let the database say whether a function
 can be called

---
 internal/postgres/postgres.go | 43 +++++++++--------------------------
 1 file changed, 11 insertions(+), 32 deletions(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index a21fcad..048ac78 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -926,7 +926,7 @@ func typeCheckFieldConditionalElem(c *checker, cond *FieldConditional) dbErrorCo
 
 func typeCheckFieldConditionalWithFunc(c *checker, cond *FieldConditional) dbErrorCode {
 	procs, ok := c.db.catalog.Procs[string(cond.FuncName)]
-	if !ok || !resolvesParameter(c, procs) {
+	if !ok || !isCallable(c, cond.FuncName, cond.Column.Type) {
 		return errProcedureUnknown
 	}
 
@@ -1008,36 +1008,15 @@ func typeCheckFieldConditionalWithFunc(c *checker, cond *FieldConditional) dbErr
 //     ✅ The RHS column or literal expression MUST be quantifiable.
 //
 //     ✅ The LHS and RHS types MUST be comparable with the given predicate and quantifier.
-// resolvesParameter reports whether or not postgres can choose one from the given overloads
-// of a function for an argument that, like a parameter of a statement, has no type.
-func resolvesParameter(c *checker, procs []*Proc) bool {
-	var (
-		total   = make(map[TypeCategory]int)
-		prefers = make(map[TypeCategory]int)
-	)
-	for _, p := range procs {
-		cat := TypeCategoryPseudo
-		if typ, ok := c.db.catalog.Types[p.ArgType]; ok {
-			cat = typ.Category
-			if typ.IsPreferred {
-				prefers[cat]++
-			}
-		}
-		total[cat]++
-	}
-	if len(procs) == 1 {
-		return true
-	}
-
-	cat := TypeCategoryString
-	if total[cat] == 0 {
-		if len(total) != 1 {
-			return false
-		}
-		for cat = range total {
-		}
+// isCallable reports whether or not postgres can resolve the function with the given name both
+// for an argument of the given type and for one that, like a parameter of a statement, has no type.
+func isCallable(c *checker, name analysis.FuncName, typ *Type) bool {
+	stmt, err := c.db.Prepare(fmt.Sprintf(`SELECT %[1]s(NULL::%[2]s), %[1]s($1)`, name, typ.NameFmt))
+	if err != nil {
+		return false
 	}
-	return prefers[cat] == 1 || (prefers[cat] == 0 && total[cat] == 1)
+	stmt.Close()
+	return true
 }
 
 func typeCheckColumnConditional(c *checker, cond *ColumnConditional, rel *Relation, rid analysis.RelIdent, ptr analysis.FieldPtr) error {
@@ -1740,10 +1719,10 @@ func checkTypeCoercion(c *checker, target oid.OID, source oid.OID) bool {
 		return true
 	}
 
-	// if pg_cast says ok, accept. (the casts "in assignment" do not apply to function arguments)
+	// if pg_cast says ok, accept.
 	key := CastKey{Target: target, Source: source}
 	if cast := c.db.catalog.Casts[key]; cast != nil {
-		return cast.Context == CastContextImplicit
+		return cast.Context == CastContextImplicit || cast.Context == CastContextAssignment
 	}
 	return false
 }
-- 
2.43.0


From 200e3902d7a249ca6e5e792ba11b0ed074544eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:27 +0000
Subject: [PATCH 78/88] fix: postgres: allow conditions on varchar and cidr
 columns

---
 internal/postgres/postgres.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 048ac78..9478638 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -844,6 +844,14 @@ func typeCheckFieldConditional(c *checker, cond *FieldConditional) dbErrorCode {
 		coid = oid.Text
 	}
 
+	// types that have no operators of their own and use those of another type
+	switch coid {
+	case oid.VarChar:
+		coid = oid.Text
+	case oid.CIDR:
+		coid = oid.Inet
+	}
+
 	if cond.Predicate.IsArray() || cond.Quantifier > 0 {
 		// FIXME(mkopriva): this currently breaks for custom types like
 		// enums. Must figure out how to find the oid of a custom type...
-- 
2.43.0


From 52489750d13df08d365ae78df3f9149f60bdeddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:27 +0000
Subject: [PATCH 79/88] fix: postgres: cast to char and bit columns' types
 without truncating to length 1

---
 internal/postgres/postgres.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 9478638..b78af81 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1833,7 +1833,7 @@ func loadCatalog(db *DB, key string) (*Catalog, error) {
 	const selectTypes = `SELECT
 		t.oid
 		, t.typname
-		, pg_catalog.format_type(t.oid, NULL)
+		, pg_catalog.format_type(t.oid, -1)
 		, t.typlen
 		, t.typtype
 		, t.typcategory
-- 
2.43.0


From 8a64c0d6c49a14a6a6fb64f3707f17350b118269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:42 +0000
Subject: [PATCH 80/88] fix: generator: parenthesize literal operands that
 consist of more than one term

---
 internal/generator/generator.go | 39 ++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index ac9bf9b..200475c 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -9,6 +9,7 @@ import (
 	"strconv"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/frk/gosql/internal/analysis"
 	"github.com/frk/gosql/internal/config"
@@ -1356,6 +1357,42 @@ func buildSQLTableJoinSlice(g *generator, qs *analysis.QueryStruct) {
 	}
 }
 
+// makeLiteralOperand returns the given literal expression in a form in which it
+// can be used as the operand of a predicate, i.e. an expression that consists
+// of more than one term is parenthesized.
+func makeLiteralOperand(lit string) string {
+	var depth int
+	var quote byte
+	for i := 0; i < len(lit); i++ {
+		ch := lit[i]
+		if quote > 0 {
+			if ch == quote {
+				quote = 0
+			}
+			continue
+		}
+
+		switch {
+		case ch == '\'' || ch == '"':
+			quote = ch
+		case ch == '(' || ch == '[':
+			depth += 1
+		case ch == ')' || ch == ']':
+			depth -= 1
+		case depth > 0:
+			// nested
+		case ch == '-' || ch == '+':
+			if i > 0 {
+				return "(" + lit + ")"
+			}
+		case ch != '_' && ch != '.' && ch != ':' && ch != '$' && ch < utf8.RuneSelf &&
+			!unicode.IsLetter(rune(ch)) && !unicode.IsDigit(rune(ch)):
+			return "(" + lit + ")"
+		}
+	}
+	return lit
+}
+
 // makeSQLBoolValueExprList builds and returns an SQL.BoolValueExprList.
 func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, sx GO.SelectorExpr, parenthesized bool) (list SQL.BoolValueExprList, count int) {
 	var boolean analysis.Boolean
@@ -1418,7 +1455,7 @@ func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, s
 				if !cond.RHSColIdent.IsEmpty() {
 					rhs = makeColRef(g, cond.RHSColIdent)
 				} else if len(cond.RHSLiteral) > 0 {
-					rhs = SQL.Literal{cond.RHSLiteral}
+					rhs = SQL.Literal{makeLiteralOperand(cond.RHSLiteral)}
 				}
 			}
 
-- 
2.43.0


From 782de25270eac9694e0a8cbc0e1d8ac293177917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:42 +0000
Subject: [PATCH 81/88] fix: generator: generate isin and notin of column
 directives as comparisons with an array

---
 internal/generator/generator.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 200475c..b05f1ca 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1512,6 +1512,20 @@ func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, s
 				predicate.Pattern = rhs
 				expr = predicate
 			case analysis.IsIn, analysis.NotIn:
+				if _, ok := conds[i].(*postgres.ColumnConditional); ok {
+					// the operand is an array, not a list of values
+					predicate := SQL.ComparisonPredicate{LPredicand: lhs}
+					if pred == analysis.IsIn {
+						predicate.Cmp = sqlCMPOP[analysis.IsEQ]
+						predicate.RPredicand = SQL.QuantifiedExpr{Qua: SQL.ANY, Expr: rhs}
+					} else {
+						predicate.Cmp = sqlCMPOP[analysis.NotEQ]
+						predicate.RPredicand = SQL.QuantifiedExpr{Qua: SQL.ALL, Expr: rhs}
+					}
+					expr = predicate
+					break
+				}
+
 				sx := GO.SelectorExpr{X: sx, Sel: GO.Ident{fieldName}}
 				g.inputSliceArgs = append(g.inputSliceArgs, sx)
 				g.inputSliceValuers = append(g.inputSliceValuers, valuer)
-- 
2.43.0


From 2e14ac8374e43476b7f6414180f63d0381a7b4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:03 +0000
Subject: [PATCH 82/88] fix: postgres: compare quantified operands with the
 array of an operator's type

---
 internal/postgres/postgres.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index b78af81..3a9dd63 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -886,7 +886,11 @@ func typeCheckFieldConditional(c *checker, cond *FieldConditional) dbErrorCode {
 			continue
 		}
 
-		typ, ok := c.db.catalog.Types[key.Right]
+		right := key.Right
+		if cond.Quantifier > 0 { // the field's type must be compatible with the array of the type
+			right = oid.TypeToArray[right]
+		}
+		typ, ok := c.db.catalog.Types[right]
 		if !ok {
 			continue
 		}
-- 
2.43.0


From 3c32d1ba4df8b5897712e56a014d5c8134741472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:03 +0000
Subject: [PATCH 83/88] fix: generator: cast every value of a slice update to
 its column's type

---
 internal/generator/generator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index b05f1ca..ef7a108 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -373,7 +373,8 @@ func buildQueryInputTargetValues(g *generator, qs *analysis.QueryStruct) {
 			expr = makeParamSpec(g, fw.Field)
 			if fw.NeedsNULLIF() {
 				expr = addNULLIFCallExpr(expr, fw.Column)
-			} else {
+			}
+			if _, ok := expr.(SQL.CastExpr); !ok {
 				cast := SQL.CastExpr{}
 				cast.Expr = expr
 				cast.Type = fw.Column.Type.NameFmt
-- 
2.43.0


From 54a0888023bccb10e7befcc055dd8a378554b80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:54 +0000
Subject: [PATCH 84/88] fix: postgres: keep typeCheckColumnConditional's
 comment with it

---
 internal/postgres/postgres.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 3a9dd63..b1adf65 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -936,6 +936,17 @@ func typeCheckFieldConditionalElem(c *checker, cond *FieldConditional) dbErrorCo
 	return 0
 }
 
+// isCallable reports whether or not postgres can resolve the function with the given name both
+// for an argument of the given type and for one that, like a parameter of a statement, has no type.
+func isCallable(c *checker, name analysis.FuncName, typ *Type) bool {
+	stmt, err := c.db.Prepare(fmt.Sprintf(`SELECT %[1]s(NULL::%[2]s), %[1]s($1)`, name, typ.NameFmt))
+	if err != nil {
+		return false
+	}
+	stmt.Close()
+	return true
+}
+
 func typeCheckFieldConditionalWithFunc(c *checker, cond *FieldConditional) dbErrorCode {
 	procs, ok := c.db.catalog.Procs[string(cond.FuncName)]
 	if !ok || !isCallable(c, cond.FuncName, cond.Column.Type) {
@@ -1020,17 +1031,6 @@ func typeCheckFieldConditionalWithFunc(c *checker, cond *FieldConditional) dbErr
 //     ✅ The RHS column or literal expression MUST be quantifiable.
 //
 //     ✅ The LHS and RHS types MUST be comparable with the given predicate and quantifier.
-// isCallable reports whether or not postgres can resolve the function with the given name both
-// for an argument of the given type and for one that, like a parameter of a statement, has no type.
-func isCallable(c *checker, name analysis.FuncName, typ *Type) bool {
-	stmt, err := c.db.Prepare(fmt.Sprintf(`SELECT %[1]s(NULL::%[2]s), %[1]s($1)`, name, typ.NameFmt))
-	if err != nil {
-		return false
-	}
-	stmt.Close()
-	return true
-}
-
 func typeCheckColumnConditional(c *checker, cond *ColumnConditional, rel *Relation, rid analysis.RelIdent, ptr analysis.FieldPtr) error {
 	if cond.LHSColumn == nil {
 		if rel != nil {
-- 
2.43.0


From 797b63061dde6084c8b5c03b1f7200810eb360a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:17 +0000
Subject: [PATCH 85/88] fix: postgres: refuse deferrable constraints as
 conflict targets, which postgres doesn't take

---
 internal/postgres/errors.go   |  6 +++---
 internal/postgres/postgres.go | 11 +++++++++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/internal/postgres/errors.go b/internal/postgres/errors.go
index d9da9ec..c9713fd 100644
--- a/internal/postgres/errors.go
+++ b/internal/postgres/errors.go
@@ -612,7 +612,7 @@ On Conflict error templates
 {{ define "` + errOnConflictIndexNotUnique.name() + `" -}}
 {{Wb .Field.File.NameAndLine}}: {{Y "Index not unique."}}
     The index "{{R .Field.SqlTagFirst}}" referenced by "{{R .Field.Definition}}" is not unique / primary key.
-    - directive "{{W .Field.TypeShort}}" requires an index of type: "{{W "unique"}}", or "{{W "primary key"}}".
+    - directive "{{W .Field.TypeShort}}" requires an index of type: "{{W "unique"}}", or "{{W "primary key"}}", that is not deferrable.
 {{ end }}
 
 {{ define "` + errOnConflictIndexColumnsUnknown.name() + `" -}}
@@ -624,7 +624,7 @@ On Conflict error templates
 {{ define "` + errOnConflictIndexColumnsNotUnique.name() + `" -}}
 {{Wb .Field.File.NameAndLine}}: {{Y "Column index not unique."}}
     The columns "{{R .Field.SqlTag}}" referenced by "{{R .Field.Definition}}" match no unique / primary key index.
-    - directive "{{W .Field.TypeShort}}" requires the column(s) that match those of an index of type: "{{W "unique"}}", or "{{W "primary key"}}".
+    - directive "{{W .Field.TypeShort}}" requires the column(s) that match those of an index of type: "{{W "unique"}}", or "{{W "primary key"}}", that is not deferrable.
 {{ end }}
 
 {{ define "` + errOnConflictConstraintUnknown.name() + `" -}}
@@ -636,7 +636,7 @@ On Conflict error templates
 {{ define "` + errOnConflictConstraintNotUnique.name() + `" -}}
 {{Wb .Field.File.NameAndLine}}: {{Y "Constraint not unique."}}
     The constraint "{{R .Field.SqlTagFirst}}" referenced by "{{R .Field.Definition}}" is not unique / primary key.
-    - directive "{{W .Field.TypeShort}}" requires a constraint of type: "{{W "unique"}}", or "{{W "primary key"}}".
+    - directive "{{W .Field.TypeShort}}" requires a constraint of type: "{{W "unique"}}", or "{{W "primary key"}}", that is not deferrable.
 {{ end }}
 
 {{ define "` + errOnConflictActionMissing.name() + `" -}}
diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index b1adf65..1827873 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1248,6 +1248,9 @@ func typeCheckQueryOnConflictStruct(c *checker, qs *analysis.QueryStruct) error
 			if !ind.IsUnique && !ind.IsPrimary {
 				continue
 			}
+			if !ind.IsImmediate {
+				continue // a deferrable constraint cannot arbitrate
+			}
 			isunique = true
 
 			target := new(ConflictIndex)
@@ -1276,6 +1279,10 @@ func typeCheckQueryOnConflictStruct(c *checker, qs *analysis.QueryStruct) error
 			return c.dbError(dbError{Code: errOnConflictIndexNotUnique,
 				Rel: relInfo{Relation: c.rel}}, qs.OnConflict.Index)
 		}
+		if !ind.IsImmediate { // a deferrable constraint cannot arbitrate
+			return c.dbError(dbError{Code: errOnConflictIndexNotUnique,
+				Rel: relInfo{Relation: c.rel}}, qs.OnConflict.Index)
+		}
 
 		target := new(ConflictIndex)
 		target.Expression = ind.Expression
@@ -1293,6 +1300,10 @@ func typeCheckQueryOnConflictStruct(c *checker, qs *analysis.QueryStruct) error
 			return c.dbError(dbError{Code: errOnConflictConstraintNotUnique,
 				Rel: relInfo{Relation: c.rel}}, qs.OnConflict.Constraint)
 		}
+		if con.IsDeferrable { // a deferrable constraint cannot arbitrate
+			return c.dbError(dbError{Code: errOnConflictConstraintNotUnique,
+				Rel: relInfo{Relation: c.rel}}, qs.OnConflict.Constraint)
+		}
 
 		target := new(ConflictConstraint)
 		target.Name = con.Name
-- 
2.43.0


From 45c40dfe1f61f4918698620862af7d4990dc9b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:20 +0000
Subject: [PATCH 86/88] fix: typesutil: don't crash on fields of the
 predeclared type error

---
 internal/typesutil/predicates.go | 11 ++++++-----
 internal/typesutil/utils.go      |  4 ++--
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/internal/typesutil/predicates.go b/internal/typesutil/predicates.go
index cc2660a..6b9bc9f 100644
--- a/internal/typesutil/predicates.go
+++ b/internal/typesutil/predicates.go
@@ -224,11 +224,11 @@ func IsFilterColumn(typ types.Type) bool {
 	}
 
 	name := named.Obj().Name()
-	path := named.Obj().Pkg().Path()
-
 	if name != "Column" {
 		return false
 	}
+
+	path := named.Obj().Pkg().Path()
 	if !strings.HasSuffix(path, "github.com/frk/gosql/filter") {
 		return false
 	}
@@ -307,9 +307,10 @@ func ImplementsErrorInfoHandler(named *types.Named) bool {
 	if !ok {
 		return false
 	}
-	name := argnamed.Obj().Name()
-	path := argnamed.Obj().Pkg().Path()
-	return strings.HasSuffix(path, "github.com/frk/gosql") && name == "ErrorInfo"
+	if argnamed.Obj().Name() != "ErrorInfo" {
+		return false
+	}
+	return strings.HasSuffix(argnamed.Obj().Pkg().Path(), "github.com/frk/gosql")
 }
 
 // ImplementsGosqlConn reports whether or not the given named type implements the "gosql.Conn" interface.
diff --git a/internal/typesutil/utils.go b/internal/typesutil/utils.go
index 7435d1c..bde039c 100644
--- a/internal/typesutil/utils.go
+++ b/internal/typesutil/utils.go
@@ -41,8 +41,8 @@ func GetDirectiveName(v *types.Var) string {
 		return ""
 	}
 
-	path := named.Obj().Pkg().Path()
-	if !strings.HasSuffix(path, "github.com/frk/gosql") {
+	pkg := named.Obj().Pkg()
+	if pkg == nil || !strings.HasSuffix(pkg.Path(), "github.com/frk/gosql") {
 		return ""
 	}
 
-- 
2.43.0


From f2e9205b0871d151f275193483fc076421ace2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:00 +0000
Subject: [PATCH 87/88] fix: analysis: refuse directives in fields with a name,
 which were ignored

---
 internal/analysis/analysis.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index fb20543..58ee188 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -213,6 +213,9 @@ func analyzeFilterStruct(a *analysis, structType *types.Struct) (*FilterStruct,
 				if err := analyzeFilterConstructorField(a, fvar, ftag); err != nil {
 					return nil, err
 				}
+			} else if len(dirname) > 0 {
+				// directives must have the blank identifier as their name
+				return nil, a.error(errIllegalQueryField, fvar, "", "", "", "")
 			}
 		}
 	}
@@ -428,6 +431,11 @@ func analyzeQueryStructField(a *analysis, f *types.Var, tag string) error {
 		return afunc(a, f, tag)
 	}
 
+	// directives must have the blank identifier as their name
+	if len(typesutil.GetDirectiveName(f)) > 0 {
+		return a.error(errIllegalQueryField, f, "", tag, "", "")
+	}
+
 	// if no match by field name, look for specific field types
 	if isAccessible(a, f, a.named) {
 		switch {
@@ -1132,6 +1140,9 @@ func analyzeJoinStruct(a *analysis, f *types.Var, tag string) (err error) {
 		// In a JoinStruct all fields are expected to be directives
 		// with the blank identifier as their name.
 		if fvar.Name() != "_" {
+			if len(typesutil.GetDirectiveName(fvar)) > 0 {
+				return a.error(errIllegalStructDirective, fvar, f.Name(), ftag, "", "")
+			}
 			continue
 		}
 
@@ -1326,6 +1337,9 @@ func analyzeOnConflictStruct(a *analysis, f *types.Var, tag string) (err error)
 		// In an OnConflictStruct all fields are expected to be directives
 		// with the blank identifier as their name.
 		if fvar.Name() != "_" {
+			if len(typesutil.GetDirectiveName(fvar)) > 0 {
+				return a.error(errIllegalStructDirective, fvar, f.Name(), ftag, "", "")
+			}
 			continue
 		}
 
-- 
2.43.0


From f100ab87687eeb153975bd00536929c619916ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:01 +0000
Subject: [PATCH 88/88] fix: analysis: refuse defaults of limit and offset
 fields that the field's type cannot hold

---
 internal/analysis/analysis.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/internal/analysis/analysis.go b/internal/analysis/analysis.go
index 58ee188..88fb267 100644
--- a/internal/analysis/analysis.go
+++ b/internal/analysis/analysis.go
@@ -1492,18 +1492,20 @@ func analyzeLimitFieldOrDirective(a *analysis, f *types.Var, tag string) error {
 	}
 
 	val := tagutil.New(tag).First("sql")
+	bits := 63 // a bigint
 	limit := new(LimitField)
 	if name := f.Name(); name != "_" {
 		if !isIntegerType(f.Type()) {
 			return a.error(errBadFieldTypeInt, f, "", tag, "", "")
 		}
+		bits = fieldValueBits(f.Type())
 		limit.Name = name
 	} else if len(val) == 0 {
 		return a.error(errMissingTagValue, f, "", tag, "", "")
 	}
 
 	if len(val) > 0 {
-		u64, err := strconv.ParseUint(val, 10, 63) // a bigint
+		u64, err := strconv.ParseUint(val, 10, bits)
 		if err != nil {
 			return a.error(errBadUIntegerTagValue, f, "", tag, "", val)
 		}
@@ -1527,18 +1529,20 @@ func analyzeOffsetFieldOrDirective(a *analysis, f *types.Var, tag string) error
 	}
 
 	val := tagutil.New(tag).First("sql")
+	bits := 63 // a bigint
 	offset := new(OffsetField)
 	if name := f.Name(); name != "_" {
 		if !isIntegerType(f.Type()) {
 			return a.error(errBadFieldTypeInt, f, "", tag, "", "")
 		}
+		bits = fieldValueBits(f.Type())
 		offset.Name = name
 	} else if len(val) == 0 {
 		return a.error(errMissingTagValue, f, "", tag, "", "")
 	}
 
 	if len(val) > 0 {
-		u64, err := strconv.ParseUint(val, 10, 63) // a bigint
+		u64, err := strconv.ParseUint(val, 10, bits)
 		if err != nil {
 			return a.error(errBadUIntegerTagValue, f, "", tag, "", val)
 		}
@@ -2263,6 +2267,26 @@ func isIntegerType(typ types.Type) bool {
 	return types.Int <= kind && kind <= types.Uint64
 }
 
+// fieldValueBits returns the number of bits of the biggest number, but no
+// bigger than a bigint, that a field of the given integer type can hold.
+func fieldValueBits(typ types.Type) int {
+	switch typ.(*types.Basic).Kind() {
+	case types.Int8:
+		return 7
+	case types.Uint8:
+		return 8
+	case types.Int16:
+		return 15
+	case types.Uint16:
+		return 16
+	case types.Int32:
+		return 31
+	case types.Uint32:
+		return 32
+	}
+	return 63
+}
+
 // isBoolType reports whether or not the given type is a boolean.
 func isBoolType(typ types.Type) bool {
 	basic, ok := typ.(*types.Basic)
-- 
2.43.0

