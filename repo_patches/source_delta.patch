From 223469f42d6eb67b60bcbb8ee6bea70be84e5544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 01/24] fix: do not dereference a nil *uuid.UUID field when
 encoding

---
 generator/codegen/field/fields.go     | 2 +-
 generator/codegen/field/marshalers.go | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/generator/codegen/field/fields.go b/generator/codegen/field/fields.go
index 411573e..27239c4 100644
--- a/generator/codegen/field/fields.go
+++ b/generator/codegen/field/fields.go
@@ -165,7 +165,7 @@ func (f *Field) MarshalStatements(src ast.Expr, name string) []ast.Stmt {
 			return block.Render(putCommaFirstIf)
 		}
 		if tt.Sel.Name == "UUID" {
-			block := uuidMarshal(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty")
+			block := uuidMarshal(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", f.isStar)
 			return block.Render(putCommaFirstIf)
 		}
 		return marshalTransit(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", f.isStar).Render(putCommaFirstIf)
diff --git a/generator/codegen/field/marshalers.go b/generator/codegen/field/marshalers.go
index 1ef5143..89b4f41 100644
--- a/generator/codegen/field/marshalers.go
+++ b/generator/codegen/field/marshalers.go
@@ -97,7 +97,7 @@ func timeMarshal(src ast.Expr, jsonName, layout string, omitempty, isStar bool)
 //			result.Write(buf)
 //			result.WriteRune('"')
 //		}
-func uuidMarshal(src ast.Expr, jsonName string, omitempty bool) WriteBlock {
+func uuidMarshal(src ast.Expr, jsonName string, omitempty, isStar bool) WriteBlock {
 	var bufVar = asthlp.NewIdent("buf")
 	var w = WriteBlock{
 		Block: []ast.Stmt{
@@ -130,6 +130,9 @@ func uuidMarshal(src ast.Expr, jsonName string, omitempty bool) WriteBlock {
 			),
 		},
 	}
+	if isStar {
+		w.NotZero = asthlp.NotNil(src)
+	}
 	if !omitempty {
 		w.IfZero = []ast.Stmt{
 			asthlp.CallStmt(asthlp.Call(
-- 
2.43.0


From d1792069711a414931c8023632f03402a3b14397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:59 +0000
Subject: [PATCH 02/24] fix: encode a nil *time.Time as null, not as the zero
 date

---
 generator/codegen/field/marshalers.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/generator/codegen/field/marshalers.go b/generator/codegen/field/marshalers.go
index 89b4f41..ed058a6 100644
--- a/generator/codegen/field/marshalers.go
+++ b/generator/codegen/field/marshalers.go
@@ -78,11 +78,14 @@ func timeMarshal(src ast.Expr, jsonName, layout string, omitempty, isStar bool)
 		if layout == "" {
 			layout = time.RFC3339
 		}
-		var zeroDate = time.Time{}.Format(layout)
+		var zeroValue = `"` + time.Time{}.Format(layout) + `"`
+		if isStar {
+			zeroValue = "null"
+		}
 		w.IfZero = []ast.Stmt{
 			asthlp.CallStmt(asthlp.Call(
 				RawStringFn,
-				asthlp.StringConstant(fmt.Sprintf(`"%s":"%s"`, jsonName, zeroDate)).Expr(),
+				asthlp.StringConstant(fmt.Sprintf(`"%s":%s`, jsonName, zeroValue)).Expr(),
 			)),
 			SetCommaVar,
 		}
-- 
2.43.0


From 429c04d5d39f789fb2f1e8255436e52b99485011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:34 +0000
Subject: [PATCH 03/24] fix: do not dereference nil array pointers and nil
 double pointers when encoding

---
 generator/codegen/field/fields.go     |  3 +++
 generator/codegen/field/marshal.go    |  5 +----
 generator/codegen/field/marshalers.go | 14 ++++++++++++--
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/generator/codegen/field/fields.go b/generator/codegen/field/fields.go
index 27239c4..d72e9e3 100644
--- a/generator/codegen/field/fields.go
+++ b/generator/codegen/field/fields.go
@@ -193,6 +193,9 @@ func (f *Field) MarshalStatements(src ast.Expr, name string) []ast.Stmt {
 			valType := helpers.DenotedType(tt.Elt)
 			errExpr := asthlp.Call(asthlp.FmtErrorfFn, asthlp.StringConstant(`can't marshal "`+f.tags.JsonName()+`" item at position %d: %w`).Expr(), asthlp.NewIdent("_k"), asthlp.NewIdent("err"))
 			block = arrayMarshal(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", GetValueExtractor(valType, errExpr, dec), tt.Len == nil)
+			if f.isStar && block.NotZero == nil {
+				block.NotZero = refNotNil(src)
+			}
 		}
 		return block.Render(putCommaFirstIf)
 
diff --git a/generator/codegen/field/marshal.go b/generator/codegen/field/marshal.go
index 4265b0e..f229be6 100644
--- a/generator/codegen/field/marshal.go
+++ b/generator/codegen/field/marshal.go
@@ -83,10 +83,7 @@ func (f *Field) typeMarshal(src ast.Expr, t string) []ast.Stmt {
 	}
 
 	if f.isStar {
-		wb.NotZero = asthlp.NotNil(src)
-		if s, ok := src.(*ast.StarExpr); ok {
-			wb.NotZero = asthlp.And(asthlp.NotNil(s.X), wb.NotZero)
-		}
+		wb.NotZero = refNotNil(src)
 		if f.tags.JsonAppendix() != "omitempty" {
 			wb.IfZero = []ast.Stmt{
 				asthlp.CallStmt(asthlp.Call(
diff --git a/generator/codegen/field/marshalers.go b/generator/codegen/field/marshalers.go
index ed058a6..ae06d8a 100644
--- a/generator/codegen/field/marshalers.go
+++ b/generator/codegen/field/marshalers.go
@@ -43,6 +43,16 @@ func (w WriteBlock) Render(putComma ast.Stmt) []ast.Stmt {
 	}
 }
 
+// refNotNil makes a condition that the reference (or the reference to the reference) can be dereferenced
+//
+//	s.Date != nil && *s.Date != nil
+func refNotNil(src ast.Expr) ast.Expr {
+	if s, ok := src.(*ast.StarExpr); ok {
+		return asthlp.And(asthlp.NotNil(s.X), asthlp.NotNil(src))
+	}
+	return asthlp.NotNil(src)
+}
+
 // timeMarshal produces block of code that writes date-time format.
 //
 //	result.WriteRune(',')
@@ -59,7 +69,7 @@ func timeMarshal(src ast.Expr, jsonName, layout string, omitempty, isStar bool)
 	}
 	var notZero = asthlp.Not(asthlp.Call(asthlp.InlineFunc(asthlp.Selector(src, names.MethodNameZero))))
 	if isStar {
-		notZero = asthlp.NotNil(src)
+		notZero = refNotNil(src)
 		src = asthlp.Star(src)
 	}
 	var w = WriteBlock{
@@ -134,7 +144,7 @@ func uuidMarshal(src ast.Expr, jsonName string, omitempty, isStar bool) WriteBlo
 		},
 	}
 	if isStar {
-		w.NotZero = asthlp.NotNil(src)
+		w.NotZero = refNotNil(src)
 	}
 	if !omitempty {
 		w.IfZero = []ast.Stmt{
-- 
2.43.0


From 9d864df769e61bc80793f0844790dde011925ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:23 +0000
Subject: [PATCH 04/24] fix: quote string defaults so that backslashes and
 control characters survive

---
 generator/codegen/helpers/asthelpers.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generator/codegen/helpers/asthelpers.go b/generator/codegen/helpers/asthelpers.go
index 3c0daae..114be7d 100644
--- a/generator/codegen/helpers/asthelpers.go
+++ b/generator/codegen/helpers/asthelpers.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"go/ast"
 	"go/token"
+	"strconv"
 	"strings"
 
 	asthlp "github.com/iv-menshenin/go-ast"
@@ -47,7 +48,7 @@ func BasicLiteralFromType(t ast.Expr, val string) ast.Expr {
 		case "string":
 			return &ast.BasicLit{
 				Kind:  token.STRING,
-				Value: "\"" + strings.Replace(val, "\"", "\\\"", -1) + "\"",
+				Value: strconv.Quote(val),
 			}
 
 		case "byte", "rune":
-- 
2.43.0


From 0b984fbd7fb476f79dd662a82c9e6d567254951a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:42 +0000
Subject: [PATCH 05/24] fix: do not cut default and layout values at commas

---
 generator/codegen/tags/tags.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/generator/codegen/tags/tags.go b/generator/codegen/tags/tags.go
index 4005038..faed230 100644
--- a/generator/codegen/tags/tags.go
+++ b/generator/codegen/tags/tags.go
@@ -72,8 +72,9 @@ func (t Tags) Layout() string {
 func Parse(tag string) Tags {
 	var result = make(map[string][]string)
 	result["json"] = strings.Split(StructTag(tag).Get("json"), ",")
-	result["layout"] = strings.Split(StructTag(tag).Get("layout"), ",")
-	result["default"] = strings.Split(StructTag(tag).Get("default"), ",")
+	// the comma is a part of the value here
+	result["layout"] = []string{StructTag(tag).Get("layout")}
+	result["default"] = []string{StructTag(tag).Get("default")}
 	return result
 }
 
-- 
2.43.0


From 88644551bd10d2a06ca25dbce0c83502e627ba22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:24 +0000
Subject: [PATCH 06/24] fix: encode times with the layout constant that is used
 to decode them

---
 generator/codegen/field/extractors.go | 17 ++++++++++++-----
 generator/codegen/field/marshalers.go | 10 +++++++++-
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/generator/codegen/field/extractors.go b/generator/codegen/field/extractors.go
index 0bfdb51..70ddd86 100644
--- a/generator/codegen/field/extractors.go
+++ b/generator/codegen/field/extractors.go
@@ -318,11 +318,8 @@ func timeExtraction(dst *ast.Ident, v, jsonName, layout string) []ast.Stmt {
 		extrStmt = timeExtractionUnify(dst, srcString)
 	} else {
 		var layoutExpr ast.Expr
-		if l := strings.Split(layout, "."); len(l) == 2 && l[0] == "time" {
-			layoutExpr = &ast.SelectorExpr{
-				X:   ast.NewIdent(l[0]),
-				Sel: ast.NewIdent(l[1]),
-			}
+		if sel, ok := timeLayoutConst(layout); ok {
+			layoutExpr = sel
 		} else {
 			layoutExpr = &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf(`"%s"`, strings.Replace(layout, "\"", "\\\"", -1))}
 		}
@@ -369,6 +366,16 @@ func timeExtraction(dst *ast.Ident, v, jsonName, layout string) []ast.Stmt {
 	)
 }
 
+// timeLayoutConst tells if the layout refers to a constant of the time package
+//
+//	time.RFC3339
+func timeLayoutConst(layout string) (ast.Expr, bool) {
+	if l := strings.Split(layout, "."); len(l) == 2 && l[0] == "time" {
+		return asthlp.SimpleSelector(l[0], l[1]), true
+	}
+	return nil, false
+}
+
 // valDateBegin, err := parseDateTime(string(b))
 func timeExtractionUnify(dst *ast.Ident, v ast.Expr) []ast.Stmt {
 	return []ast.Stmt{
diff --git a/generator/codegen/field/marshalers.go b/generator/codegen/field/marshalers.go
index ae06d8a..661ee3d 100644
--- a/generator/codegen/field/marshalers.go
+++ b/generator/codegen/field/marshalers.go
@@ -64,7 +64,10 @@ func refNotNil(src ast.Expr) ast.Expr {
 //	}
 func timeMarshal(src ast.Expr, jsonName, layout string, omitempty, isStar bool) WriteBlock {
 	var layoutExpr = names.TimeDefaultLayout
-	if layout != "" {
+	layoutConst, isConst := timeLayoutConst(layout)
+	if isConst {
+		layoutExpr = layoutConst
+	} else if layout != "" {
 		layoutExpr = asthlp.StringConstant(layout).Expr()
 	}
 	var notZero = asthlp.Not(asthlp.Call(asthlp.InlineFunc(asthlp.Selector(src, names.MethodNameZero))))
@@ -84,6 +87,11 @@ func timeMarshal(src ast.Expr, jsonName, layout string, omitempty, isStar bool)
 			SetCommaVar,
 		},
 	}
+	if !omitempty && !isStar && isConst {
+		// the value of the constant is unknown here, so the zero date is formatted like any other
+		w.NotZero = nil
+		return w
+	}
 	if !omitempty {
 		if layout == "" {
 			layout = time.RFC3339
-- 
2.43.0


From 45d9d54f0cee4de126966691017fe9d29af57a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:12 +0000
Subject: [PATCH 07/24] fix: report malformed times inside of lists

---
 generator/codegen/field/extractors.go | 26 ++++++++++++++++++++++++++
 generator/codegen/field/fill.go       |  5 +++++
 2 files changed, 31 insertions(+)

diff --git a/generator/codegen/field/extractors.go b/generator/codegen/field/extractors.go
index 70ddd86..1932f32 100644
--- a/generator/codegen/field/extractors.go
+++ b/generator/codegen/field/extractors.go
@@ -366,6 +366,32 @@ func timeExtraction(dst *ast.Ident, v, jsonName, layout string) []ast.Stmt {
 	)
 }
 
+// timeElementExtraction extracts a time without declaring the error again, so the code around it can check it
+//
+//	var {dst} time.Time
+//	var b []byte
+//	b, err = {v}.StringBytes()
+//	if err == nil {
+//	  {dst}, err = parseDateTime(string(b))
+//	}
+func timeElementExtraction(dst *ast.Ident, t ast.Expr, v string) []ast.Stmt {
+	return append(
+		particularTypeExtraction("b", v, asthlp.ArrayType(asthlp.Byte), "StringBytes"),
+		asthlp.Var(asthlp.VariableType(dst.Name, t)),
+		asthlp.If(
+			asthlp.IsNil(asthlp.NewIdent(names.VarNameError)),
+			asthlp.Assign(
+				asthlp.MakeVarNames(dst.Name, names.VarNameError),
+				asthlp.Assignment,
+				asthlp.Call(
+					asthlp.InlineFunc(asthlp.NewIdent("parseDateTime")),
+					asthlp.VariableTypeConvert("b", asthlp.String),
+				),
+			),
+		),
+	)
+}
+
 // timeLayoutConst tells if the layout refers to a constant of the time package
 //
 //	time.RFC3339
diff --git a/generator/codegen/field/fill.go b/generator/codegen/field/fill.go
index 35d7662..591afc3 100644
--- a/generator/codegen/field/fill.go
+++ b/generator/codegen/field/fill.go
@@ -213,6 +213,11 @@ func (f *Field) TypedValue(dst *ast.Ident, v string, elemPathExpr ast.Expr) []as
 		switch t.Sel.Name {
 
 		case "Time":
+			if f.level > 0 && f.tags.Layout() == "" {
+				// the element of a list: the loop around it checks the error
+				result = append(result, timeElementExtraction(dst, t, v)...)
+				break
+			}
 			result = append(result, timeExtraction(dst, v, f.tags.JsonName(), f.tags.Layout())...)
 
 		case "UUID":
-- 
2.43.0


From b40410977b69e6352b6c2f7cab1afc96a8cfc3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:40 +0000
Subject: [PATCH 08/24] fix: reject numbers that do not fit the elements of
 lists, arrays, maps and named numeric types

---
 generator/codegen/array.go      |  5 ++-
 generator/codegen/field/fill.go | 54 +++++++++++++++++++++++++++++++++
 generator/codegen/map.go        |  1 +
 generator/codegen/transit.go    |  4 ++-
 4 files changed, 62 insertions(+), 2 deletions(-)

diff --git a/generator/codegen/array.go b/generator/codegen/array.go
index 4b72413..699467b 100644
--- a/generator/codegen/array.go
+++ b/generator/codegen/array.go
@@ -99,7 +99,10 @@ func (a *Array) FillFromFunc() ast.Decl {
 		makeStmt,
 		asthlp.Range(true, _i, _v, asthlp.NewIdent(_a),
 			append(
-				field.IsNotEmpty(valFactory.TypedValue(asthlp.NewIdent("value"), _v, asthlp.Call(asthlp.StrconvItoaFn, asthlp.NewIdent(_i)))),
+				append(
+					field.IsNotEmpty(valFactory.TypedValue(asthlp.NewIdent("value"), _v, asthlp.Call(asthlp.StrconvItoaFn, asthlp.NewIdent(_i)))),
+					valFactory.RangeCheck(asthlp.NewIdent("value"))...,
+				),
 				//if err != nil {
 				//	return fmt.Errorf("error parsing '%s[%d]' value: %w", objPath, i, err)
 				//}
diff --git a/generator/codegen/field/fill.go b/generator/codegen/field/fill.go
index 591afc3..56800b5 100644
--- a/generator/codegen/field/fill.go
+++ b/generator/codegen/field/fill.go
@@ -3,6 +3,8 @@ package field
 import (
 	"fmt"
 	"go/ast"
+	"go/token"
+	"strings"
 
 	asthlp "github.com/iv-menshenin/go-ast"
 
@@ -112,6 +114,7 @@ func (f *Field) appendElem(dst ast.Expr, valVariableName string) fillArrayResult
 	r.append(IsNotEmpty(
 		f.TypedValue(elemVar, r.varElem.Name, asthlp.Call(asthlp.StrconvItoaFn, r.varNum)),
 	)...)
+	r.append(f.RangeCheck(elemVar)...)
 	r.append(f.breakErr(r.varNum)...)
 
 	elemAsParticularType := asthlp.Call(asthlp.InlineFunc(f.expr), elemVar)
@@ -165,6 +168,7 @@ func (f *Field) fillElem(dst ast.Expr, valVariableName string) fillArrayResult {
 		))
 	}
 	r.append(IsNotEmpty(f.TypedValue(bufVariable, r.varElem.Name, asthlp.Call(asthlp.StrconvItoaFn, r.varNum)))...)
+	r.append(f.RangeCheck(bufVariable)...)
 	r.append(f.breakErr(r.varNum)...)
 
 	elemAsParticularType := asthlp.Call(asthlp.InlineFunc(f.expr), bufVariable)
@@ -518,6 +522,56 @@ func getMaxByType(t *ast.Ident) ast.Expr {
 	}
 }
 
+// RangeCheck makes statements that turn a value outside of the range of its type into an error. The code that follows
+// has to check the error.
+//
+//	if err == nil && (value > math.MaxInt8 || value < math.MinInt8) {
+//		err = fmt.Errorf("%d is out of range for data type int8", value)
+//	}
+func (f *Field) RangeCheck(val *ast.Ident) []ast.Stmt {
+	ident, isIdent := f.refx.(*ast.Ident)
+	if !isIdent {
+		return nil
+	}
+	var (
+		format   = "%d"
+		exceeded ast.Expr
+	)
+	switch ident.Name {
+
+	case "uint8", "uint16", "uint32":
+		exceeded = asthlp.Great(val, getMaxByType(ident))
+
+	case "int8", "int16", "int32":
+		minExp := asthlp.SimpleSelector("math", strings.Replace(ident.Name, "int", "MinInt", 1))
+		exceeded = asthlp.ParenExpr(asthlp.Or(
+			asthlp.Great(val, getMaxByType(ident)),
+			asthlp.Binary(val, minExp, token.LSS),
+		))
+
+	case "float32":
+		format = "%f"
+		exceeded = asthlp.Call(
+			asthlp.InlineFunc(asthlp.SimpleSelector("math", "IsInf")),
+			asthlp.ExpressionTypeConvert(asthlp.ExpressionTypeConvert(val, ident), asthlp.Float64),
+			asthlp.Zero,
+		)
+
+	default:
+		return nil
+	}
+	return []ast.Stmt{
+		asthlp.If(
+			asthlp.And(asthlp.IsNil(asthlp.NewIdent(names.VarNameError)), exceeded),
+			asthlp.Assign(
+				asthlp.MakeVarNames(names.VarNameError),
+				asthlp.Assignment,
+				helpers.FmtError(format+" is out of range for data type "+ident.Name, val),
+			),
+		),
+	}
+}
+
 //	if err != nil {
 //		err = newParsingError(strconv.Itoa(_elemNum), err)
 //		break
diff --git a/generator/codegen/map.go b/generator/codegen/map.go
index 58fcc05..5a96fd4 100644
--- a/generator/codegen/map.go
+++ b/generator/codegen/map.go
@@ -138,6 +138,7 @@ func (m *Map) FillFromFunc() ast.Decl {
 					// fills one value
 					field.IsNotEmpty(valFactory.TypedValue(value, "v", asthlp.VariableTypeConvert("key", asthlp.String)))...,
 				).
+				AppendStmt(valFactory.RangeCheck(value)...).
 				AppendStmt(
 					// if err == nil {
 					//   err = fmt.Errorf("error parsing '%s.%s' value: %w", objPath, string(key), err)
diff --git a/generator/codegen/transit.go b/generator/codegen/transit.go
index de54043..c40964e 100644
--- a/generator/codegen/transit.go
+++ b/generator/codegen/transit.go
@@ -168,9 +168,11 @@ func (t *Transitive) FillFromFunc() ast.Decl {
 		asthlp.Field(names.VarNameError, nil, asthlp.ErrorType),
 	)
 
-	typedFiller := field.NewFromType(t.tran, true).TypedValue(asthlp.NewIdent("_val"), names.VarNameJsonValue, asthlp.StringConstant("(root)").Expr())
+	valFactory := field.NewFromType(t.tran, true)
+	typedFiller := valFactory.TypedValue(asthlp.NewIdent("_val"), names.VarNameJsonValue, asthlp.StringConstant("(root)").Expr())
 	if len(typedFiller) > 0 {
 		fn.AppendStmt(typedFiller...)
+		fn.AppendStmt(valFactory.RangeCheck(asthlp.NewIdent("_val"))...)
 		fn.AppendStmt(
 			asthlp.If(asthlp.NotNil(asthlp.NewIdent(names.VarNameError)), asthlp.Return(asthlp.NewIdent(names.VarNameError))),
 			asthlp.Assign(asthlp.VarNames{asthlp.Star(asthlp.NewIdent(names.VarNameReceiver))}, asthlp.Assignment, asthlp.VariableTypeConvert("_val", asthlp.NewIdent(t.name))),
-- 
2.43.0


From 30e6c9fb1c64a55920027c4da6aca19872ba6ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:57 +0000
Subject: [PATCH 09/24] fix: report malformed uuids and map values inside of
 lists

---
 generator/codegen/field/extractors.go | 18 ++++++------------
 generator/codegen/field/fill.go       | 26 +++++++++++++++++++++-----
 2 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/generator/codegen/field/extractors.go b/generator/codegen/field/extractors.go
index 1932f32..f92ddb1 100644
--- a/generator/codegen/field/extractors.go
+++ b/generator/codegen/field/extractors.go
@@ -366,28 +366,22 @@ func timeExtraction(dst *ast.Ident, v, jsonName, layout string) []ast.Stmt {
 	)
 }
 
-// timeElementExtraction extracts a time without declaring the error again, so the code around it can check it
+// textElementExtraction extracts an element of a list that is represented by a text. The error is not declared again, so
+// that the loop around the element can check it
 //
-//	var {dst} time.Time
 //	var b []byte
 //	b, err = {v}.StringBytes()
+//	var {dst} {t}
 //	if err == nil {
-//	  {dst}, err = parseDateTime(string(b))
+//	  {dst}, err = {parse}({arg})
 //	}
-func timeElementExtraction(dst *ast.Ident, t ast.Expr, v string) []ast.Stmt {
+func textElementExtraction(dst *ast.Ident, t ast.Expr, v string, parse asthlp.CallFunctionDescriber, arg ast.Expr) []ast.Stmt {
 	return append(
 		particularTypeExtraction("b", v, asthlp.ArrayType(asthlp.Byte), "StringBytes"),
 		asthlp.Var(asthlp.VariableType(dst.Name, t)),
 		asthlp.If(
 			asthlp.IsNil(asthlp.NewIdent(names.VarNameError)),
-			asthlp.Assign(
-				asthlp.MakeVarNames(dst.Name, names.VarNameError),
-				asthlp.Assignment,
-				asthlp.Call(
-					asthlp.InlineFunc(asthlp.NewIdent("parseDateTime")),
-					asthlp.VariableTypeConvert("b", asthlp.String),
-				),
-			),
+			asthlp.Assign(asthlp.MakeVarNames(dst.Name, names.VarNameError), asthlp.Assignment, asthlp.Call(parse, arg)),
 		),
 	)
 }
diff --git a/generator/codegen/field/fill.go b/generator/codegen/field/fill.go
index 56800b5..20b5507 100644
--- a/generator/codegen/field/fill.go
+++ b/generator/codegen/field/fill.go
@@ -219,12 +219,16 @@ func (f *Field) TypedValue(dst *ast.Ident, v string, elemPathExpr ast.Expr) []as
 		case "Time":
 			if f.level > 0 && f.tags.Layout() == "" {
 				// the element of a list: the loop around it checks the error
-				result = append(result, timeElementExtraction(dst, t, v)...)
+				result = append(result, textElementExtraction(dst, t, v, asthlp.InlineFunc(asthlp.NewIdent("parseDateTime")), asthlp.VariableTypeConvert("b", asthlp.String))...)
 				break
 			}
 			result = append(result, timeExtraction(dst, v, f.tags.JsonName(), f.tags.Layout())...)
 
 		case "UUID":
+			if f.level > 0 {
+				result = append(result, textElementExtraction(dst, t, v, asthlp.InlineFunc(asthlp.SimpleSelector("uuid", "ParseBytes")), asthlp.NewIdent("b"))...)
+				break
+			}
 			result = append(result, uuidExtraction(dst, f.refx, v, f.tags.JsonName())...)
 
 		default:
@@ -383,11 +387,23 @@ func (f *Field) mapExtraction(dst *ast.Ident, t *ast.MapType, v, json string) []
 		"json": {f.tags.JsonName()},
 	}), t.Value))
 	valFactory.DontCheckErr()
-	return asthlp.Block(
-		//	o, err := {v}.Object()
-		asthlp.Assign(asthlp.MakeVarNames("o", names.VarNameError), asthlp.Definition, asthlp.Call(
+	//	o, err := {v}.Object()
+	var declareObject = asthlp.EmptyStmt()
+	var getObject = asthlp.Assign(asthlp.MakeVarNames("o", names.VarNameError), asthlp.Definition, asthlp.Call(
+		asthlp.InlineFunc(asthlp.SimpleSelector(v, "Object")),
+	))
+	if f.level > 0 {
+		// the element of a list: the loop around it checks the error, so it must not be declared again
+		//	var o *fastjson.Object
+		//	o, err = {v}.Object()
+		declareObject = asthlp.Var(asthlp.VariableType("o", asthlp.Star(asthlp.SimpleSelector("fastjson", "Object"))))
+		getObject = asthlp.Assign(asthlp.MakeVarNames("o", names.VarNameError), asthlp.Assignment, asthlp.Call(
 			asthlp.InlineFunc(asthlp.SimpleSelector(v, "Object")),
-		)),
+		))
+	}
+	return asthlp.Block(
+		declareObject,
+		getObject,
 		checkErrAndReturnParsingError(asthlp.StringConstant(json).Expr()),
 		//	{dst} := s.Tags
 		//	if {dst} == nil {
-- 
2.43.0


From c57367642280a91aeb67f7678f3fa5487e729e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:50 +0000
Subject: [PATCH 10/24] fix: leave fields tagged json:"-" out of the encoder
 and the validator

---
 generator/codegen/field/fields.go |  2 +-
 generator/codegen/struct.go       | 24 +++++++++++++++++++-----
 generator/codegen/tags/tags.go    |  6 ++++++
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/generator/codegen/field/fields.go b/generator/codegen/field/fields.go
index d72e9e3..5c79a54 100644
--- a/generator/codegen/field/fields.go
+++ b/generator/codegen/field/fields.go
@@ -105,7 +105,7 @@ func (f *Field) DontCheckErr() {
 //	     s.Offset = 100
 //		}
 func (f *Field) FillStatements(name string) []ast.Stmt {
-	if f.tags.JsonName() == "-" {
+	if f.tags.Ignored() {
 		return nil
 	}
 	var v = intermediateVarName(name, f.tags)
diff --git a/generator/codegen/struct.go b/generator/codegen/struct.go
index 67fedc8..525ea20 100644
--- a/generator/codegen/struct.go
+++ b/generator/codegen/struct.go
@@ -125,7 +125,8 @@ func (s *Struct) ValidatorFunc() ast.Decl {
 			asthlp.ReturnEmpty(),
 		),
 	)
-	for i, fieldSpec := range s.spec.Fields.List {
+	var fields = s.jsonFields()
+	for i, fieldSpec := range fields {
 		var fieldTags tags.Tags
 		if fieldSpec.Tag != nil {
 			fieldTags = tags.Parse(fieldSpec.Tag.Value)
@@ -182,10 +183,10 @@ func (s *Struct) ValidatorFunc() ast.Decl {
 		asthlp.If(asthlp.NotEqual(asthlp.NewIdent(names.VarNameError), asthlp.Nil), asthlp.Return(asthlp.NewIdent(names.VarNameError))),
 	)
 
-	if len(s.spec.Fields.List) > 0 {
+	if len(fields) > 0 {
 		// var checkFields [1]int
 		fn.AppendStmt(
-			asthlp.Var(asthlp.VariableType(checkFieldsVarName, asthlp.ArrayType(asthlp.Int, asthlp.IntegerConstant(len(s.spec.Fields.List)).Expr()))),
+			asthlp.Var(asthlp.VariableType(checkFieldsVarName, asthlp.ArrayType(asthlp.Int, asthlp.IntegerConstant(len(fields)).Expr()))),
 		)
 	}
 
@@ -220,7 +221,8 @@ func (s *Struct) MarshalToFunc() ast.Decl {
 		Params(asthlp.Field(names.VarNameWriter, nil, asthlp.Star(asthlp.SimpleSelector("jwriter", "Writer")))).
 		Results(asthlp.Field("", nil, asthlp.ErrorType))
 
-	if len(s.spec.Fields.List) == 0 {
+	var fields = s.jsonFields()
+	if len(fields) == 0 {
 		return fn.AppendStmt(
 			asthlp.CallStmt(asthlp.Call(field.RawStringFn, asthlp.StringConstant("{}").Expr())),
 			asthlp.Return(asthlp.Nil),
@@ -249,7 +251,7 @@ func (s *Struct) MarshalToFunc() ast.Decl {
 		)),
 	)
 
-	for _, fld := range s.spec.Fields.List {
+	for _, fld := range fields {
 		fn.AppendStmt(jsonFieldStmts(fld)...)
 	}
 
@@ -259,6 +261,18 @@ func (s *Struct) MarshalToFunc() ast.Decl {
 	return fn.Decl()
 }
 
+// jsonFields lists the fields that take part in JSON
+func (s *Struct) jsonFields() []*ast.Field {
+	var fields = make([]*ast.Field, 0, len(s.spec.Fields.List))
+	for _, fld := range s.spec.Fields.List {
+		if fld.Tag != nil && tags.Parse(fld.Tag.Value).Ignored() {
+			continue
+		}
+		fields = append(fields, fld)
+	}
+	return fields
+}
+
 func jsonFieldStmts(fld *ast.Field) []ast.Stmt {
 	factory := field.New(fld)
 	if len(fld.Names) == 0 {
diff --git a/generator/codegen/tags/tags.go b/generator/codegen/tags/tags.go
index faed230..00f93ab 100644
--- a/generator/codegen/tags/tags.go
+++ b/generator/codegen/tags/tags.go
@@ -39,6 +39,12 @@ func (t Tags) JsonAppendix() string {
 	return ""
 }
 
+// Ignored tells that the field takes no part in JSON: its tag is `json:"-"`
+func (t Tags) Ignored() bool {
+	v := t["json"]
+	return len(v) == 1 && v[0] == "-"
+}
+
 func (t Tags) JsonTags() StructTags {
 	if t == nil {
 		return nil
-- 
2.43.0


From 9d11fbeb94bd096fdc7234e1938dfef0214c0bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:23 +0000
Subject: [PATCH 11/24] fix: encode a nil pointer to a struct without fields as
 null

---
 generator/codegen/struct.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/generator/codegen/struct.go b/generator/codegen/struct.go
index 525ea20..c8ea9ae 100644
--- a/generator/codegen/struct.go
+++ b/generator/codegen/struct.go
@@ -221,14 +221,6 @@ func (s *Struct) MarshalToFunc() ast.Decl {
 		Params(asthlp.Field(names.VarNameWriter, nil, asthlp.Star(asthlp.SimpleSelector("jwriter", "Writer")))).
 		Results(asthlp.Field("", nil, asthlp.ErrorType))
 
-	var fields = s.jsonFields()
-	if len(fields) == 0 {
-		return fn.AppendStmt(
-			asthlp.CallStmt(asthlp.Call(field.RawStringFn, asthlp.StringConstant("{}").Expr())),
-			asthlp.Return(asthlp.Nil),
-		).Decl()
-	}
-
 	fn.AppendStmt(
 		// 	if s == nil {
 		//		result.WriteString("null")
@@ -240,6 +232,16 @@ func (s *Struct) MarshalToFunc() ast.Decl {
 			asthlp.CallStmt(asthlp.Call(field.RawStringFn, asthlp.StringConstant("null").Expr())),
 			asthlp.Return(asthlp.Nil),
 		),
+	)
+	var fields = s.jsonFields()
+	if len(fields) == 0 {
+		return fn.AppendStmt(
+			asthlp.CallStmt(asthlp.Call(field.RawStringFn, asthlp.StringConstant("{}").Expr())),
+			asthlp.Return(asthlp.Nil),
+		).Decl()
+	}
+
+	fn.AppendStmt(
 		// var (
 		// 	err    error
 		// )
-- 
2.43.0


From dc309c2d1e28ece3a15ee15c46667a8e9473c1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:59 +0000
Subject: [PATCH 12/24] fix: read field tags written as interpreted string
 literals

---
 generator/codegen/tags/tags.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/generator/codegen/tags/tags.go b/generator/codegen/tags/tags.go
index 00f93ab..345bec5 100644
--- a/generator/codegen/tags/tags.go
+++ b/generator/codegen/tags/tags.go
@@ -2,6 +2,7 @@ package tags
 
 import (
 	"reflect"
+	"strconv"
 	"strings"
 )
 
@@ -85,13 +86,12 @@ func Parse(tag string) Tags {
 }
 
 func StructTag(tag string) reflect.StructTag {
-	if len(tag) < 2 {
+	// a tag is any string literal of Go, raw or interpreted
+	value, err := strconv.Unquote(tag)
+	if err != nil {
 		return ""
 	}
-	if tag[0] == '`' && tag[len(tag)-1] == '`' {
-		return reflect.StructTag(tag[1 : len(tag)-1])
-	}
-	return ""
+	return reflect.StructTag(value)
 }
 
 type StructTags []string
-- 
2.43.0


From 396709d5adf2d7e0fcadca7d93cd98729d892e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:36 +0000
Subject: [PATCH 13/24] fix: refuse fields whose tag has no json key

---
 generator/analyse.go           | 7 +++----
 generator/codegen/tags/tags.go | 9 ++++++++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/generator/analyse.go b/generator/analyse.go
index 15c33ae..20e3928 100644
--- a/generator/analyse.go
+++ b/generator/analyse.go
@@ -222,10 +222,9 @@ func (v *visitor) collectFields(src []*ast.Field) []*ast.Field {
 		var tag tags.Tags
 		if fld.Tag != nil {
 			tag = tags.Parse(fld.Tag.Value)
-		} else {
-			if len(fld.Names) > 0 {
-				panic(fmt.Errorf("all fields should have tags, but %q haven't", fld.Names[0].Name))
-			}
+		}
+		if !tag.HasJson() && len(fld.Names) > 0 {
+			panic(fmt.Errorf("all fields should have tags, but %q haven't", fld.Names[0].Name))
 		}
 		if sel, ok := fld.Type.(*ast.SelectorExpr); ok && sel.Sel.Obj == nil {
 			// try to resolve external type
diff --git a/generator/codegen/tags/tags.go b/generator/codegen/tags/tags.go
index 345bec5..dd9abf2 100644
--- a/generator/codegen/tags/tags.go
+++ b/generator/codegen/tags/tags.go
@@ -40,6 +40,11 @@ func (t Tags) JsonAppendix() string {
 	return ""
 }
 
+// HasJson tells that the json tag is present, whatever it says
+func (t Tags) HasJson() bool {
+	return len(t["json"]) > 0
+}
+
 // Ignored tells that the field takes no part in JSON: its tag is `json:"-"`
 func (t Tags) Ignored() bool {
 	v := t["json"]
@@ -78,7 +83,9 @@ func (t Tags) Layout() string {
 
 func Parse(tag string) Tags {
 	var result = make(map[string][]string)
-	result["json"] = strings.Split(StructTag(tag).Get("json"), ",")
+	if json, ok := StructTag(tag).Lookup("json"); ok {
+		result["json"] = strings.Split(json, ",")
+	}
 	// the comma is a part of the value here
 	result["layout"] = []string{StructTag(tag).Get("layout")}
 	result["default"] = []string{StructTag(tag).Get("default")}
-- 
2.43.0


From 8affc83832fe9593cc3e8c950795285e3f670aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:35 +0000
Subject: [PATCH 14/24] fix: keep the own tags of a grouped type that is the
 element of an earlier list

---
 generator/analyse.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/generator/analyse.go b/generator/analyse.go
index 20e3928..bf5a107 100644
--- a/generator/analyse.go
+++ b/generator/analyse.go
@@ -182,7 +182,10 @@ func (v *visitor) processDecl(decl taggedDecl, result []renderer) []renderer {
 			elDecl := v.getDeclByName(el.Name)
 			if elDecl != nil && len(elDecl.tags) == 0 {
 				var elDeclT = *elDecl
-				elDeclT.tags = decl.tags // inherits tags from an heir
+				elDeclT.tags = v.getTagsByName(el.Name)
+				if len(elDeclT.tags) == 0 {
+					elDeclT.tags = decl.tags // inherits tags from an heir
+				}
 				result = v.processDecl(elDeclT, result)
 			}
 		}
@@ -216,6 +219,16 @@ func (v *visitor) getDeclByName(name string) *taggedDecl {
 	return nil
 }
 
+// getTagsByName looks for tags in all comments of the type: a type of a group has two, that of the group and its own
+func (v *visitor) getTagsByName(name string) []string {
+	for _, decl := range v.decls {
+		if decl.spec.Name.Name == name && len(decl.tags) > 0 {
+			return decl.tags
+		}
+	}
+	return nil
+}
+
 func (v *visitor) collectFields(src []*ast.Field) []*ast.Field {
 	var flds = make([]*ast.Field, 0, len(src))
 	for _, fld := range src {
-- 
2.43.0


From 3436c3060bb99d1a4cf2598dd110538dcf32e1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:02 +0000
Subject: [PATCH 15/24] fix: inline structs of the package that the file
 imports, aliased or not

---
 generator/analyse.go |  2 +-
 generator/parser.go  | 16 ++++++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/generator/analyse.go b/generator/analyse.go
index bf5a107..c208401 100644
--- a/generator/analyse.go
+++ b/generator/analyse.go
@@ -322,7 +322,7 @@ func (v *visitor) exploreInlinedSelector(inlined *ast.SelectorExpr) (fields []*a
 	if !ok {
 		panic(fmt.Errorf("can't inline struct %q; can't recognize %+v expression", inlined.Sel.Name, inlined.X))
 	}
-	pkg, err := v.g.discovery.GetPackage(packIdent.Name, inlined.Sel.Name)
+	pkg, err := v.g.importedPackage(packIdent.Name, inlined.Sel.Name)
 	if err != nil {
 		panic(fmt.Errorf("can't inline struct %q; can't parse '%s' package: %+v", inlined.Sel.Name, packIdent.Name, err))
 	}
diff --git a/generator/parser.go b/generator/parser.go
index 878e64a..b70daac 100644
--- a/generator/parser.go
+++ b/generator/parser.go
@@ -164,6 +164,22 @@ func (g *Gen) ExploreType(p explorer.Package, objName string) *ast.TypeSpec {
 	return nil
 }
 
+// importedPackage returns the package that the file imports under this name
+func (g *Gen) importedPackage(name, objName string) (ast.Node, error) {
+	for _, p := range g.packages[name] {
+		parsed, err := parsePackage(g.discovery.PackagePathFromPath(p.Path))
+		if err != nil {
+			return nil, err
+		}
+		for packName, pack := range parsed {
+			if !strings.HasSuffix(packName, "_test") {
+				return pack, nil
+			}
+		}
+	}
+	return g.discovery.GetPackage(name, objName)
+}
+
 func fmtGOFile(fileName string) (err error) {
 	var fileSet = token.NewFileSet()
 	f, err := parser.ParseFile(fileSet, fileName, nil, parser.ParseComments)
-- 
2.43.0


From 433487e2e50db22f04d2f329989f06f434f6096c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:47 +0000
Subject: [PATCH 16/24] fix: keep percent signs of names out of the formats of
 encoding errors

---
 generator/codegen/field/fields.go     | 10 ++++++++--
 generator/codegen/field/marshalers.go |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/generator/codegen/field/fields.go b/generator/codegen/field/fields.go
index 5c79a54..d438f45 100644
--- a/generator/codegen/field/fields.go
+++ b/generator/codegen/field/fields.go
@@ -3,6 +3,7 @@ package field
 import (
 	"fmt"
 	"go/ast"
+	"strings"
 	"unicode"
 
 	asthlp "github.com/iv-menshenin/go-ast"
@@ -180,7 +181,7 @@ func (f *Field) MarshalStatements(src ast.Expr, name string) []ast.Stmt {
 		}
 		dec := GetDecorExpr(tt.Value)
 		valType := helpers.DenotedType(tt.Value)
-		errExpr := asthlp.Call(asthlp.FmtErrorfFn, asthlp.StringConstant(`can't marshal "`+f.tags.JsonName()+`" attribute %q: %w`).Expr(), asthlp.NewIdent("_k"), asthlp.NewIdent("err"))
+		errExpr := asthlp.Call(asthlp.FmtErrorfFn, asthlp.StringConstant(`can't marshal "`+verbatim(f.tags.JsonName())+`" attribute %q: %w`).Expr(), asthlp.NewIdent("_k"), asthlp.NewIdent("err"))
 		block := mapMarshal(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", isString, GetValueExtractor(valType, errExpr, dec))
 		return block.Render(putCommaFirstIf)
 
@@ -191,7 +192,7 @@ func (f *Field) MarshalStatements(src ast.Expr, name string) []ast.Stmt {
 		} else {
 			dec := GetDecorExpr(tt.Elt)
 			valType := helpers.DenotedType(tt.Elt)
-			errExpr := asthlp.Call(asthlp.FmtErrorfFn, asthlp.StringConstant(`can't marshal "`+f.tags.JsonName()+`" item at position %d: %w`).Expr(), asthlp.NewIdent("_k"), asthlp.NewIdent("err"))
+			errExpr := asthlp.Call(asthlp.FmtErrorfFn, asthlp.StringConstant(`can't marshal "`+verbatim(f.tags.JsonName())+`" item at position %d: %w`).Expr(), asthlp.NewIdent("_k"), asthlp.NewIdent("err"))
 			block = arrayMarshal(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", GetValueExtractor(valType, errExpr, dec), tt.Len == nil)
 			if f.isStar && block.NotZero == nil {
 				block.NotZero = refNotNil(src)
@@ -453,6 +454,11 @@ func (f *Field) notEmptyCondition(src ast.Expr) ast.Expr {
 	}
 }
 
+// verbatim makes a text suitable for being a part of a format string
+func verbatim(text string) string {
+	return strings.ReplaceAll(text, "%", "%%")
+}
+
 func intermediateVarName(name string, _ tags.Tags) string {
 	return "_" + string(unicode.ToLower([]rune(name)[0])) + string([]rune(name)[1:])
 }
diff --git a/generator/codegen/field/marshalers.go b/generator/codegen/field/marshalers.go
index 661ee3d..95ef698 100644
--- a/generator/codegen/field/marshalers.go
+++ b/generator/codegen/field/marshalers.go
@@ -384,7 +384,7 @@ func structMarshal(src ast.Expr, jsonName string, omitempty bool) WriteBlock {
 				asthlp.Return(
 					asthlp.Call(
 						asthlp.FmtErrorfFn,
-						asthlp.StringConstant(`can't marshal "`+jsonName+`" attribute: %w`).Expr(),
+						asthlp.StringConstant(`can't marshal "`+verbatim(jsonName)+`" attribute: %w`).Expr(),
 						asthlp.NewIdent(names.VarNameError),
 					),
 				),
-- 
2.43.0


From 644c68324bd8f67332507766a4eda9ea03867c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:48 +0000
Subject: [PATCH 17/24] fix: IsZero of a type declared over a list or map type
 is false for an empty one

After Reset such a value is empty but not nil, so that IsZero did not report it as
zero, unlike the type it is declared over.
---
 generator/codegen/transit.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/generator/codegen/transit.go b/generator/codegen/transit.go
index c40964e..8e7c720 100644
--- a/generator/codegen/transit.go
+++ b/generator/codegen/transit.go
@@ -199,8 +199,14 @@ func (t *Transitive) ZeroFunc() ast.Decl {
 	zero := helpers.ZeroValueOfT(t.tran)
 	if zero != nil {
 		if zero == asthlp.Nil {
+			// an empty list or map is zero whether it is nil or not
+			receiver, empty := ast.Expr(asthlp.NewIdent(names.VarNameReceiver)), zero
+			switch helpers.DenotedType(t.tran).(type) {
+			case *ast.ArrayType, *ast.MapType:
+				receiver, empty = asthlp.Call(asthlp.LengthFn, receiver), asthlp.Zero
+			}
 			fn.AppendStmt(
-				asthlp.Return(asthlp.Equal(asthlp.NewIdent(names.VarNameReceiver), zero)),
+				asthlp.Return(asthlp.Equal(receiver, empty)),
 			)
 		} else {
 			fn.AppendStmt(
-- 
2.43.0


From e659b58fc15e12fbfb88f38a5fac5785acd4a8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:56 +0000
Subject: [PATCH 18/24] fix: layouts with quotes or backslashes

---
 generator/codegen/field/extractors.go |  9 +++++--
 generator/codegen/field/marshalers.go | 36 +++++++++++++++++++++++----
 2 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/generator/codegen/field/extractors.go b/generator/codegen/field/extractors.go
index f92ddb1..a3b4b16 100644
--- a/generator/codegen/field/extractors.go
+++ b/generator/codegen/field/extractors.go
@@ -1,9 +1,9 @@
 package field
 
 import (
-	"fmt"
 	"go/ast"
 	"go/token"
+	"strconv"
 	"strings"
 
 	"github.com/iv-menshenin/go-ast"
@@ -321,7 +321,7 @@ func timeExtraction(dst *ast.Ident, v, jsonName, layout string) []ast.Stmt {
 		if sel, ok := timeLayoutConst(layout); ok {
 			layoutExpr = sel
 		} else {
-			layoutExpr = &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf(`"%s"`, strings.Replace(layout, "\"", "\\\"", -1))}
+			layoutExpr = layoutLiteral(layout)
 		}
 		extrStmt = []ast.Stmt{
 			&ast.AssignStmt{
@@ -396,6 +396,11 @@ func timeLayoutConst(layout string) (ast.Expr, bool) {
 	return nil, false
 }
 
+// layoutLiteral makes a string literal of the layout, whatever it contains
+func layoutLiteral(layout string) ast.Expr {
+	return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(layout)}
+}
+
 // valDateBegin, err := parseDateTime(string(b))
 func timeExtractionUnify(dst *ast.Ident, v ast.Expr) []ast.Stmt {
 	return []ast.Stmt{
diff --git a/generator/codegen/field/marshalers.go b/generator/codegen/field/marshalers.go
index 95ef698..3f1331b 100644
--- a/generator/codegen/field/marshalers.go
+++ b/generator/codegen/field/marshalers.go
@@ -3,6 +3,7 @@ package field
 import (
 	"fmt"
 	"go/ast"
+	"strings"
 	"time"
 
 	asthlp "github.com/iv-menshenin/go-ast"
@@ -68,22 +69,25 @@ func timeMarshal(src ast.Expr, jsonName, layout string, omitempty, isStar bool)
 	if isConst {
 		layoutExpr = layoutConst
 	} else if layout != "" {
-		layoutExpr = asthlp.StringConstant(layout).Expr()
+		layoutExpr = layoutLiteral(layout)
 	}
 	var notZero = asthlp.Not(asthlp.Call(asthlp.InlineFunc(asthlp.Selector(src, names.MethodNameZero))))
 	if isStar {
 		notZero = refNotNil(src)
 		src = asthlp.Star(src)
 	}
+	var writeValue = asthlp.Call(names.WriteTimeFunc, asthlp.NewIdent(names.VarNameWriter), src, layoutExpr)
+	if strings.IndexFunc(layout, needsEscape) >= 0 {
+		// result.String(s.DateBegin.Format(`"2006"`))
+		writeValue = asthlp.Call(names.WriteStringFunc, asthlp.Call(asthlp.InlineFunc(asthlp.Selector(src, "Format")), layoutExpr))
+	}
 	var w = WriteBlock{
 		NotZero: notZero,
 		Block: []ast.Stmt{
 			// result.RawString(`"date_begin":`)
 			asthlp.CallStmt(asthlp.Call(RawStringFn, asthlp.StringConstant(fmt.Sprintf(`"%s":`, jsonName)).Expr())),
 			// writeTime(result, s.DateBegin, time.RFC3339Nano)
-			asthlp.CallStmt(
-				asthlp.Call(names.WriteTimeFunc, asthlp.NewIdent(names.VarNameWriter), src, layoutExpr),
-			),
+			asthlp.CallStmt(writeValue),
 			SetCommaVar,
 		},
 	}
@@ -96,7 +100,7 @@ func timeMarshal(src ast.Expr, jsonName, layout string, omitempty, isStar bool)
 		if layout == "" {
 			layout = time.RFC3339
 		}
-		var zeroValue = `"` + time.Time{}.Format(layout) + `"`
+		var zeroValue = `"` + jsonEscape(time.Time{}.Format(layout)) + `"`
 		if isStar {
 			zeroValue = "null"
 		}
@@ -111,6 +115,28 @@ func timeMarshal(src ast.Expr, jsonName, layout string, omitempty, isStar bool)
 	return w
 }
 
+// needsEscape tells if the character must be escaped in a json string
+func needsEscape(r rune) bool {
+	return r == '"' || r == '\\' || r < ' '
+}
+
+// jsonEscape escapes what must be escaped in a json string
+func jsonEscape(s string) string {
+	var b strings.Builder
+	for _, r := range s {
+		switch {
+		case r == '"' || r == '\\':
+			b.WriteRune('\\')
+			b.WriteRune(r)
+		case needsEscape(r):
+			fmt.Fprintf(&b, `\u%04x`, r)
+		default:
+			b.WriteRune(r)
+		}
+	}
+	return b.String()
+}
+
 //	if buf, err := s.RayID.MarshalText(); err != nil {
 //			return fmt.Errorf(`can't marshal "nested1" attribute: %w`, err)
 //		} else {
-- 
2.43.0


From 2dd536ab52048b78f352d6872168587f83ed5a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:31 +0000
Subject: [PATCH 19/24] fix: members of inlined structures with lists, maps and
 references of their package's types

---
 generator/analyse.go              | 31 +++++++++++++++++++++++++------
 generator/codegen/field/fields.go | 12 +++---------
 2 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/generator/analyse.go b/generator/analyse.go
index c208401..586d7ec 100644
--- a/generator/analyse.go
+++ b/generator/analyse.go
@@ -244,12 +244,7 @@ func (v *visitor) collectFields(src []*ast.Field) []*ast.Field {
 			sel.Sel.Obj = v.resolveExternal(sel)
 		}
 		if v.over != nil {
-			if i, ok := fld.Type.(*ast.Ident); ok && unicode.IsUpper([]rune(i.Name)[0]) {
-				fld.Type = &ast.SelectorExpr{
-					X:   v.over,
-					Sel: i,
-				}
-			}
+			fld.Type = v.qualified(fld.Type)
 		}
 		if tag.JsonAppendix() == "inline" {
 			inlinedFields, canInline := v.exploreInlined(fld)
@@ -264,6 +259,30 @@ func (v *visitor) collectFields(src []*ast.Field) []*ast.Field {
 	return flds
 }
 
+// qualified puts the package name before the types that the package of the inlined structure declares
+func (v *visitor) qualified(expr ast.Expr) ast.Expr {
+	switch t := expr.(type) {
+	case *ast.Ident:
+		if unicode.IsUpper([]rune(t.Name)[0]) {
+			return &ast.SelectorExpr{
+				X:   v.over,
+				Sel: t,
+			}
+		}
+
+	case *ast.StarExpr:
+		t.X = v.qualified(t.X)
+
+	case *ast.ArrayType:
+		t.Elt = v.qualified(t.Elt)
+
+	case *ast.MapType:
+		t.Key = v.qualified(t.Key)
+		t.Value = v.qualified(t.Value)
+	}
+	return expr
+}
+
 func (v *visitor) resolveExternal(sel *ast.SelectorExpr) *ast.Object {
 	packages, ok := v.g.packages[sel.X.(*ast.Ident).String()]
 	if ok {
diff --git a/generator/codegen/field/fields.go b/generator/codegen/field/fields.go
index d438f45..96be0c9 100644
--- a/generator/codegen/field/fields.go
+++ b/generator/codegen/field/fields.go
@@ -214,15 +214,9 @@ func EmptyDecorSrc(e ast.Expr) ast.Expr {
 }
 
 func GetDecorExpr(valType ast.Expr) DecorSrc {
-	if i, ok := valType.(*ast.Ident); ok {
-		valType = helpers.DenotedIdent(i)
-		switch t := valType.(type) {
-		case *ast.Ident:
-			if i.Name != "string" && t.Name == "string" {
-				return func(e ast.Expr) ast.Expr {
-					return asthlp.ExpressionTypeConvert(e, asthlp.String)
-				}
-			}
+	if t, ok := helpers.DenotedType(valType).(*ast.Ident); ok && t.Name == "string" && !helpers.IsIdent(valType, "string") {
+		return func(e ast.Expr) ast.Expr {
+			return asthlp.ExpressionTypeConvert(e, asthlp.String)
 		}
 	}
 	return EmptyDecorSrc
-- 
2.43.0


From a5390ea0e552d38682bd37d7db332c9948bd82e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:50 +0000
Subject: [PATCH 20/24] fix: fields whose tag has no name are written and read
 under the empty name

---
 generator/analyse.go           | 20 ++++++++++++++++++++
 generator/codegen/tags/tags.go | 10 ++++++++++
 2 files changed, 30 insertions(+)

diff --git a/generator/analyse.go b/generator/analyse.go
index 586d7ec..cba28d9 100644
--- a/generator/analyse.go
+++ b/generator/analyse.go
@@ -254,11 +254,31 @@ func (v *visitor) collectFields(src []*ast.Field) []*ast.Field {
 			}
 			// cant inline? try to process as a field
 		}
+		if tag.JsonName() == "" && tag.JsonAppendix() != "inline" && len(fld.Names) > 0 {
+			flds = append(flds, namedAfterField(fld)...)
+			continue
+		}
 		flds = append(flds, fld)
 	}
 	return flds
 }
 
+// namedAfterField gives the fields whose tag has no name (`json:",omitempty"`) the name of the field itself
+func namedAfterField(fld *ast.Field) []*ast.Field {
+	var flds = make([]*ast.Field, 0, len(fld.Names))
+	for _, name := range fld.Names {
+		var named = *fld
+		named.Names = []*ast.Ident{name}
+		named.Tag = &ast.BasicLit{
+			ValuePos: fld.Tag.ValuePos,
+			Kind:     fld.Tag.Kind,
+			Value:    tags.WithJsonName(fld.Tag.Value, name.Name),
+		}
+		flds = append(flds, &named)
+	}
+	return flds
+}
+
 // qualified puts the package name before the types that the package of the inlined structure declares
 func (v *visitor) qualified(expr ast.Expr) ast.Expr {
 	switch t := expr.(type) {
diff --git a/generator/codegen/tags/tags.go b/generator/codegen/tags/tags.go
index dd9abf2..2dae0ef 100644
--- a/generator/codegen/tags/tags.go
+++ b/generator/codegen/tags/tags.go
@@ -101,6 +101,16 @@ func StructTag(tag string) reflect.StructTag {
 	return reflect.StructTag(value)
 }
 
+// WithJsonName gives the name to the json tag and keeps everything else
+func WithJsonName(tag, name string) string {
+	_, options, _ := strings.Cut(StructTag(tag).Get("json"), ",")
+	if options != "" {
+		name += "," + options
+	}
+	// the first one of the same keys counts
+	return strconv.Quote("json:" + strconv.Quote(name) + " " + string(StructTag(tag)))
+}
+
 type StructTags []string
 
 func (t StructTags) Has(s string) bool {
-- 
2.43.0


From b77b6595d85483fc77937da52e2d5042fec83c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:50 +0000
Subject: [PATCH 21/24] fix: two fields of one name are written twice and their
 own decoder refuses them

---
 generator/analyse.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/generator/analyse.go b/generator/analyse.go
index cba28d9..aa0cecf 100644
--- a/generator/analyse.go
+++ b/generator/analyse.go
@@ -167,6 +167,7 @@ func (v *visitor) processDecl(decl taggedDecl, result []renderer) []renderer {
 		stct := &ast.StructType{
 			Fields: &ast.FieldList{List: v.collectFields(typed.Fields.List)}, // uninline
 		}
+		checkUnique(stct.Fields.List)
 		put(codegen.NewStruct(decl.spec.Name.Name, decl.tags, stct))
 
 	case *ast.MapType:
@@ -279,6 +280,30 @@ func namedAfterField(fld *ast.Field) []*ast.Field {
 	return flds
 }
 
+// checkUnique makes sure that no field shares its name with another one, in Go or in JSON: neither could be told apart
+func checkUnique(src []*ast.Field) {
+	var byGo, byJson = make(map[string]bool), make(map[string]bool)
+	for _, fld := range src {
+		var tag tags.Tags
+		if fld.Tag != nil {
+			tag = tags.Parse(fld.Tag.Value)
+		}
+		if tag.Ignored() || tag.JsonName() == "" {
+			continue
+		}
+		for _, name := range fld.Names {
+			if byGo[name.Name] {
+				panic(fmt.Errorf("field %q is declared more than once, the inlined structures included", name.Name))
+			}
+			byGo[name.Name] = true
+		}
+		if byJson[tag.JsonName()] || len(fld.Names) > 1 {
+			panic(fmt.Errorf("more than one field has the json name %q", tag.JsonName()))
+		}
+		byJson[tag.JsonName()] = true
+	}
+}
+
 // qualified puts the package name before the types that the package of the inlined structure declares
 func (v *visitor) qualified(expr ast.Expr) ast.Expr {
 	switch t := expr.(type) {
-- 
2.43.0


From b193ad16f1ca5fae1c888db57c89bf254f0183b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:29 +0000
Subject: [PATCH 22/24] fix: an unknown option before it hides the omitempty,
 required or inline of a json tag

---
 generator/codegen/tags/tags.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/generator/codegen/tags/tags.go b/generator/codegen/tags/tags.go
index 2dae0ef..f31e240 100644
--- a/generator/codegen/tags/tags.go
+++ b/generator/codegen/tags/tags.go
@@ -35,7 +35,11 @@ func (t Tags) JsonAppendix() string {
 		return ""
 	}
 	if v := t["json"]; len(v) > 1 {
-		return v[1]
+		for _, option := range v[1:] {
+			if option == "omitempty" || option == "required" || option == "inline" {
+				return option
+			}
+		}
 	}
 	return ""
 }
-- 
2.43.0


From 68eb72040cba19df6b42f6b63b5227a15d5d27a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:30 +0000
Subject: [PATCH 23/24] fix: a layout is silently ignored for times in lists,
 arrays and maps

---
 generator/analyse.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/generator/analyse.go b/generator/analyse.go
index aa0cecf..eb23cf9 100644
--- a/generator/analyse.go
+++ b/generator/analyse.go
@@ -240,6 +240,9 @@ func (v *visitor) collectFields(src []*ast.Field) []*ast.Field {
 		if !tag.HasJson() && len(fld.Names) > 0 {
 			panic(fmt.Errorf("all fields should have tags, but %q haven't", fld.Names[0].Name))
 		}
+		if tag.Layout() != "" && holdsTimes(helpers.DenotedType(fld.Type)) {
+			panic(fmt.Errorf("times in lists and maps take no layout, but the field of json name %q has %q", tag.JsonName(), tag.Layout()))
+		}
 		if sel, ok := fld.Type.(*ast.SelectorExpr); ok && sel.Sel.Obj == nil {
 			// try to resolve external type
 			sel.Sel.Obj = v.resolveExternal(sel)
@@ -264,6 +267,33 @@ func (v *visitor) collectFields(src []*ast.Field) []*ast.Field {
 	return flds
 }
 
+// holdsTimes tells that the type is a list, an array or a map of times or refers to one
+func holdsTimes(expr ast.Expr) bool {
+	var elem ast.Expr
+	switch t := expr.(type) {
+	case *ast.StarExpr:
+		return holdsTimes(t.X)
+	case *ast.ArrayType:
+		elem = t.Elt
+	case *ast.MapType:
+		elem = t.Value
+	default:
+		return false
+	}
+	if holdsTimes(elem) {
+		return true
+	}
+	for {
+		star, ok := elem.(*ast.StarExpr)
+		if !ok {
+			break
+		}
+		elem = star.X
+	}
+	sel, ok := helpers.DenotedType(elem).(*ast.SelectorExpr)
+	return ok && sel.Sel.Name == "Time"
+}
+
 // namedAfterField gives the fields whose tag has no name (`json:",omitempty"`) the name of the field itself
 func namedAfterField(fld *ast.Field) []*ast.Field {
 	var flds = make([]*ast.Field, 0, len(fld.Names))
-- 
2.43.0


From e50cf268068af0dab99cc05d289eeadb7dda3ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:35 +0000
Subject: [PATCH 24/24] fix: maps whose keys are no strings are encoded with
 broken keys by encode-only types

The keys of a map[int]string were converted to strings as code points: {1: "a"}
became {"\u0001":"a"}. The decoder of such a map never compiled, only the
encoder did, so types with //json:encode alone got it. The generator refuses
such maps now.
---
 generator/analyse.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/generator/analyse.go b/generator/analyse.go
index eb23cf9..d977aa3 100644
--- a/generator/analyse.go
+++ b/generator/analyse.go
@@ -171,9 +171,11 @@ func (v *visitor) processDecl(decl taggedDecl, result []renderer) []renderer {
 		put(codegen.NewStruct(decl.spec.Name.Name, decl.tags, stct))
 
 	case *ast.MapType:
+		checkKeys(typed)
 		put(codegen.NewMap(decl.spec.Name.Name, decl.tags, typed))
 
 	case *ast.ArrayType:
+		checkKeys(typed)
 		if helpers.IsIdent(helpers.DenotedType(typed.Elt), "byte") {
 			put(codegen.NewByteSlice(decl.spec.Name.Name, decl.tags, typed))
 			break
@@ -243,6 +245,9 @@ func (v *visitor) collectFields(src []*ast.Field) []*ast.Field {
 		if tag.Layout() != "" && holdsTimes(helpers.DenotedType(fld.Type)) {
 			panic(fmt.Errorf("times in lists and maps take no layout, but the field of json name %q has %q", tag.JsonName(), tag.Layout()))
 		}
+		if !tag.Ignored() {
+			checkKeys(helpers.DenotedType(fld.Type))
+		}
 		if sel, ok := fld.Type.(*ast.SelectorExpr); ok && sel.Sel.Obj == nil {
 			// try to resolve external type
 			sel.Sel.Obj = v.resolveExternal(sel)
@@ -294,6 +299,24 @@ func holdsTimes(expr ast.Expr) bool {
 	return ok && sel.Sel.Name == "Time"
 }
 
+// checkKeys makes sure that the keys of maps are strings, nothing else is a name in JSON
+func checkKeys(expr ast.Expr) {
+	switch t := expr.(type) {
+	case *ast.StarExpr:
+		checkKeys(t.X)
+	case *ast.ArrayType:
+		checkKeys(t.Elt)
+	case *ast.MapType:
+		if key, ok := helpers.DenotedType(t.Key).(*ast.Ident); ok {
+			switch key.Name {
+			case "bool", "byte", "rune", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "float32", "float64":
+				panic(fmt.Errorf("keys of maps should be strings, not %s", key.Name))
+			}
+		}
+		checkKeys(t.Value)
+	}
+}
+
 // namedAfterField gives the fields whose tag has no name (`json:",omitempty"`) the name of the field itself
 func namedAfterField(fld *ast.Field) []*ast.Field {
 	var flds = make([]*ast.Field, 0, len(fld.Names))
-- 
2.43.0

