From 6857f71499cc79f3199bdc69e78fa7fdd9f22eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:54 +0000
Subject: [PATCH 01/21] fix: report failures to close and format the generated
 file

---
 generator/parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/generator/parser.go b/generator/parser.go
index 878e64a..7264f56 100644
--- a/generator/parser.go
+++ b/generator/parser.go
@@ -116,7 +116,6 @@ func (g *Gen) Print(name string) {
 	if err != nil {
 		panic(err)
 	}
-	defer fmtGOFile(name)
 	defer f.Close()
 	_, err = fmt.Fprint(f, "// Code generated [github.com/iv-menshenin/valyjson]; DO NOT EDIT.\n")
 	if err != nil {
@@ -126,6 +125,12 @@ func (g *Gen) Print(name string) {
 	if err := printer.Fprint(f, token.NewFileSet(), &g.result); err != nil {
 		panic(err)
 	}
+	if err = f.Close(); err != nil {
+		panic(err)
+	}
+	if err = fmtGOFile(name); err != nil {
+		panic(err)
+	}
 	err = static.Print(static.Context{
 		Package: g.packageN,
 	}, path.Dir(name))
-- 
2.43.0


From 3108ce5eb5fb48252d8c4436b83299597a9be226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:54 +0000
Subject: [PATCH 02/21] fix: report a failure to close the utilities file

---
 generator/static/static.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/generator/static/static.go b/generator/static/static.go
index 3cadd45..c22cedb 100644
--- a/generator/static/static.go
+++ b/generator/static/static.go
@@ -68,12 +68,16 @@ func (t *TPL) Execute(ctx Context) error {
 	return t.tpl.Execute(&t.str, ctx)
 }
 
-func (t *TPL) Print(name string) error {
+func (t *TPL) Print(name string) (err error) {
 	f, err := os.Create(name)
 	if err != nil {
 		return err
 	}
-	defer f.Close()
+	defer func() {
+		if e := f.Close(); e != nil && err == nil {
+			err = e
+		}
+	}()
 	_, err = f.WriteString(t.str.String())
 	return err
 }
-- 
2.43.0


From 31405873a4607510546053b740c5d5499103b0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:45 +0000
Subject: [PATCH 03/21] fix: refuse types of the module that cannot be resolved
 instead of ignoring them

---
 generator/analyse.go | 1 +
 generator/parser.go  | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/generator/analyse.go b/generator/analyse.go
index 15c33ae..460776d 100644
--- a/generator/analyse.go
+++ b/generator/analyse.go
@@ -267,6 +267,7 @@ func (v *visitor) resolveExternal(sel *ast.SelectorExpr) *ast.Object {
 				}
 			}
 		}
+		panic(fmt.Errorf("can't find type %q in package %q", sel.Sel.Name, sel.X.(*ast.Ident).String()))
 	}
 	return nil
 }
diff --git a/generator/parser.go b/generator/parser.go
index 7264f56..6a8021b 100644
--- a/generator/parser.go
+++ b/generator/parser.go
@@ -46,7 +46,7 @@ func (g *Gen) Parse() (err error) {
 			name = imp.Name.Name
 		}
 		pkgPath := strings.Trim(imp.Path.Value, `"`)
-		if !strings.HasPrefix(pkgPath, g.discovery.GetModuleName()) {
+		if module := g.discovery.GetModuleName(); pkgPath != module && !strings.HasPrefix(pkgPath, module+"/") {
 			continue
 		}
 		if name == "" {
@@ -142,7 +142,7 @@ func (g *Gen) Print(name string) {
 func (g *Gen) ExploreType(p explorer.Package, objName string) *ast.TypeSpec {
 	parsed, err := parsePackage(g.discovery.PackagePathFromPath(p.Path))
 	if err != nil {
-		return nil
+		panic(fmt.Errorf("can't parse package %q: %w", p.Path, err))
 	}
 	for name, pack := range parsed {
 		if strings.HasSuffix(name, "_test") {
-- 
2.43.0


From 240f8140aa8a3373fc1599aa86c7a6dfab9ce570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:50 +0000
Subject: [PATCH 04/21] fix: leave fields tagged json:"-" out of the encoder
 and the duplicate check

---
 generator/codegen/field/fields.go |  3 +++
 generator/codegen/struct.go       | 17 ++++++++++++-----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/generator/codegen/field/fields.go b/generator/codegen/field/fields.go
index 411573e..f6ab4bb 100644
--- a/generator/codegen/field/fields.go
+++ b/generator/codegen/field/fields.go
@@ -143,6 +143,9 @@ func (f *Field) FillStatements(name string) []ast.Stmt {
 //
 // result.Write(b)
 func (f *Field) MarshalStatements(src ast.Expr, name string) []ast.Stmt {
+	if f.tags.JsonName() == "-" {
+		return nil
+	}
 	switch tt := f.refx.(type) {
 
 	case *ast.StarExpr:
diff --git a/generator/codegen/struct.go b/generator/codegen/struct.go
index 67fedc8..c1071ce 100644
--- a/generator/codegen/struct.go
+++ b/generator/codegen/struct.go
@@ -125,11 +125,16 @@ func (s *Struct) ValidatorFunc() ast.Decl {
 			asthlp.ReturnEmpty(),
 		),
 	)
+	var checked bool
 	for i, fieldSpec := range s.spec.Fields.List {
 		var fieldTags tags.Tags
 		if fieldSpec.Tag != nil {
 			fieldTags = tags.Parse(fieldSpec.Tag.Value)
 		}
+		if fieldTags.JsonName() == "-" {
+			continue
+		}
+		checked = true
 		visitFunc.AppendStmt(
 			//		if bytes.Equal(key, []byte{'f', 'i', 'l', 't', 'e', 'r'}) {
 			//			. . .
@@ -182,7 +187,7 @@ func (s *Struct) ValidatorFunc() ast.Decl {
 		asthlp.If(asthlp.NotEqual(asthlp.NewIdent(names.VarNameError), asthlp.Nil), asthlp.Return(asthlp.NewIdent(names.VarNameError))),
 	)
 
-	if len(s.spec.Fields.List) > 0 {
+	if checked {
 		// var checkFields [1]int
 		fn.AppendStmt(
 			asthlp.Var(asthlp.VariableType(checkFieldsVarName, asthlp.ArrayType(asthlp.Int, asthlp.IntegerConstant(len(s.spec.Fields.List)).Expr()))),
@@ -220,7 +225,11 @@ func (s *Struct) MarshalToFunc() ast.Decl {
 		Params(asthlp.Field(names.VarNameWriter, nil, asthlp.Star(asthlp.SimpleSelector("jwriter", "Writer")))).
 		Results(asthlp.Field("", nil, asthlp.ErrorType))
 
-	if len(s.spec.Fields.List) == 0 {
+	var stmts []ast.Stmt
+	for _, fld := range s.spec.Fields.List {
+		stmts = append(stmts, jsonFieldStmts(fld)...)
+	}
+	if len(stmts) == 0 {
 		return fn.AppendStmt(
 			asthlp.CallStmt(asthlp.Call(field.RawStringFn, asthlp.StringConstant("{}").Expr())),
 			asthlp.Return(asthlp.Nil),
@@ -249,9 +258,7 @@ func (s *Struct) MarshalToFunc() ast.Decl {
 		)),
 	)
 
-	for _, fld := range s.spec.Fields.List {
-		fn.AppendStmt(jsonFieldStmts(fld)...)
-	}
+	fn.AppendStmt(stmts...)
 
 	fn.AppendStmt(
 		makeWriteAndReturn('}')...,
-- 
2.43.0


From b3cda6efe67162624c0edf6b68e69f8d05879f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:14 +0000
Subject: [PATCH 05/21] fix: keep the commas of default and layout tags

---
 generator/codegen/tags/tags.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/codegen/tags/tags.go b/generator/codegen/tags/tags.go
index 4005038..d7ee62c 100644
--- a/generator/codegen/tags/tags.go
+++ b/generator/codegen/tags/tags.go
@@ -72,8 +72,8 @@ func (t Tags) Layout() string {
 func Parse(tag string) Tags {
 	var result = make(map[string][]string)
 	result["json"] = strings.Split(StructTag(tag).Get("json"), ",")
-	result["layout"] = strings.Split(StructTag(tag).Get("layout"), ",")
-	result["default"] = strings.Split(StructTag(tag).Get("default"), ",")
+	result["layout"] = []string{StructTag(tag).Get("layout")}
+	result["default"] = []string{StructTag(tag).Get("default")}
 	return result
 }
 
-- 
2.43.0


From 2f591d03cbd150c983c42ba8d345733158cc59e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:00 +0000
Subject: [PATCH 06/21] fix: quote the text of string defaults

---
 generator/codegen/helpers/asthelpers.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generator/codegen/helpers/asthelpers.go b/generator/codegen/helpers/asthelpers.go
index 3c0daae..114be7d 100644
--- a/generator/codegen/helpers/asthelpers.go
+++ b/generator/codegen/helpers/asthelpers.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"go/ast"
 	"go/token"
+	"strconv"
 	"strings"
 
 	asthlp "github.com/iv-menshenin/go-ast"
@@ -47,7 +48,7 @@ func BasicLiteralFromType(t ast.Expr, val string) ast.Expr {
 		case "string":
 			return &ast.BasicLit{
 				Kind:  token.STRING,
-				Value: "\"" + strings.Replace(val, "\"", "\\\"", -1) + "\"",
+				Value: strconv.Quote(val),
 			}
 
 		case "byte", "rune":
-- 
2.43.0


From f3293db0653eb4206af5250c9f8277df231483e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:08 +0000
Subject: [PATCH 07/21] fix: format times in the time package layout their tag
 names

---
 generator/codegen/field/extractors.go | 24 +++++++++++++-----------
 generator/codegen/field/marshalers.go | 17 +++++++++++++----
 2 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/generator/codegen/field/extractors.go b/generator/codegen/field/extractors.go
index 0bfdb51..ce6d902 100644
--- a/generator/codegen/field/extractors.go
+++ b/generator/codegen/field/extractors.go
@@ -1,9 +1,9 @@
 package field
 
 import (
-	"fmt"
 	"go/ast"
 	"go/token"
+	"strconv"
 	"strings"
 
 	"github.com/iv-menshenin/go-ast"
@@ -317,15 +317,6 @@ func timeExtraction(dst *ast.Ident, v, jsonName, layout string) []ast.Stmt {
 	if layout == "" {
 		extrStmt = timeExtractionUnify(dst, srcString)
 	} else {
-		var layoutExpr ast.Expr
-		if l := strings.Split(layout, "."); len(l) == 2 && l[0] == "time" {
-			layoutExpr = &ast.SelectorExpr{
-				X:   ast.NewIdent(l[0]),
-				Sel: ast.NewIdent(l[1]),
-			}
-		} else {
-			layoutExpr = &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf(`"%s"`, strings.Replace(layout, "\"", "\\\"", -1))}
-		}
 		extrStmt = []ast.Stmt{
 			&ast.AssignStmt{
 				Lhs: []ast.Expr{dst, ast.NewIdent("err")},
@@ -337,7 +328,7 @@ func timeExtraction(dst *ast.Ident, v, jsonName, layout string) []ast.Stmt {
 							Sel: ast.NewIdent("Parse"),
 						},
 						Args: []ast.Expr{
-							layoutExpr,
+							layoutExpr(layout),
 							srcString,
 						},
 					},
@@ -369,6 +360,17 @@ func timeExtraction(dst *ast.Ident, v, jsonName, layout string) []ast.Stmt {
 	)
 }
 
+// layoutExpr is the constant of the time package that the layout names, or the layout as it is.
+func layoutExpr(layout string) ast.Expr {
+	if l := strings.Split(layout, "."); len(l) == 2 && l[0] == "time" {
+		return &ast.SelectorExpr{
+			X:   ast.NewIdent(l[0]),
+			Sel: ast.NewIdent(l[1]),
+		}
+	}
+	return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(layout)}
+}
+
 // valDateBegin, err := parseDateTime(string(b))
 func timeExtractionUnify(dst *ast.Ident, v ast.Expr) []ast.Stmt {
 	return []ast.Stmt{
diff --git a/generator/codegen/field/marshalers.go b/generator/codegen/field/marshalers.go
index 1ef5143..ebbfc44 100644
--- a/generator/codegen/field/marshalers.go
+++ b/generator/codegen/field/marshalers.go
@@ -53,9 +53,9 @@ func (w WriteBlock) Render(putComma ast.Stmt) []ast.Stmt {
 //		result.WriteString("\"date_begin\":\"0000-00-00T00:00:00Z\"")
 //	}
 func timeMarshal(src ast.Expr, jsonName, layout string, omitempty, isStar bool) WriteBlock {
-	var layoutExpr = names.TimeDefaultLayout
+	var timeLayout ast.Expr = names.TimeDefaultLayout
 	if layout != "" {
-		layoutExpr = asthlp.StringConstant(layout).Expr()
+		timeLayout = layoutExpr(layout)
 	}
 	var notZero = asthlp.Not(asthlp.Call(asthlp.InlineFunc(asthlp.Selector(src, names.MethodNameZero))))
 	if isStar {
@@ -69,12 +69,21 @@ func timeMarshal(src ast.Expr, jsonName, layout string, omitempty, isStar bool)
 			asthlp.CallStmt(asthlp.Call(RawStringFn, asthlp.StringConstant(fmt.Sprintf(`"%s":`, jsonName)).Expr())),
 			// writeTime(result, s.DateBegin, time.RFC3339Nano)
 			asthlp.CallStmt(
-				asthlp.Call(names.WriteTimeFunc, asthlp.NewIdent(names.VarNameWriter), src, layoutExpr),
+				asthlp.Call(names.WriteTimeFunc, asthlp.NewIdent(names.VarNameWriter), src, timeLayout),
 			),
 			SetCommaVar,
 		},
 	}
-	if !omitempty {
+	if _, named := timeLayout.(*ast.SelectorExpr); named && !omitempty && layout != "" {
+		w.IfZero = []ast.Stmt{
+			w.Block[0],
+			// writeTime(result, time.Time{}, time.RFC1123)
+			asthlp.CallStmt(
+				asthlp.Call(names.WriteTimeFunc, asthlp.NewIdent(names.VarNameWriter), asthlp.StructLiteral(asthlp.SimpleSelector("time", "Time")).Expr(), timeLayout),
+			),
+			SetCommaVar,
+		}
+	} else if !omitempty {
 		if layout == "" {
 			layout = time.RFC3339
 		}
-- 
2.43.0


From a885952bb793db01059c8b5411681221f29ffb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:25 +0000
Subject: [PATCH 08/21] fix: write nil times as null

---
 generator/codegen/field/marshalers.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/generator/codegen/field/marshalers.go b/generator/codegen/field/marshalers.go
index ebbfc44..4ff04bd 100644
--- a/generator/codegen/field/marshalers.go
+++ b/generator/codegen/field/marshalers.go
@@ -74,7 +74,15 @@ func timeMarshal(src ast.Expr, jsonName, layout string, omitempty, isStar bool)
 			SetCommaVar,
 		},
 	}
-	if _, named := timeLayout.(*ast.SelectorExpr); named && !omitempty && layout != "" {
+	if isStar && !omitempty {
+		w.IfZero = []ast.Stmt{
+			asthlp.CallStmt(asthlp.Call(
+				RawStringFn,
+				asthlp.StringConstant(fmt.Sprintf(`"%s":null`, jsonName)).Expr(),
+			)),
+			SetCommaVar,
+		}
+	} else if _, named := timeLayout.(*ast.SelectorExpr); named && !omitempty && layout != "" {
 		w.IfZero = []ast.Stmt{
 			w.Block[0],
 			// writeTime(result, time.Time{}, time.RFC1123)
-- 
2.43.0


From bb7ae15c3e75b3294f28779a73f827604704d88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:15 +0000
Subject: [PATCH 09/21] fix: write nil UUID pointers as null instead of
 dereferencing them

---
 generator/codegen/field/fields.go     | 2 +-
 generator/codegen/field/marshalers.go | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/generator/codegen/field/fields.go b/generator/codegen/field/fields.go
index f6ab4bb..bb46a75 100644
--- a/generator/codegen/field/fields.go
+++ b/generator/codegen/field/fields.go
@@ -168,7 +168,7 @@ func (f *Field) MarshalStatements(src ast.Expr, name string) []ast.Stmt {
 			return block.Render(putCommaFirstIf)
 		}
 		if tt.Sel.Name == "UUID" {
-			block := uuidMarshal(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty")
+			block := uuidMarshal(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", f.isStar)
 			return block.Render(putCommaFirstIf)
 		}
 		return marshalTransit(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", f.isStar).Render(putCommaFirstIf)
diff --git a/generator/codegen/field/marshalers.go b/generator/codegen/field/marshalers.go
index 4ff04bd..b5baa1a 100644
--- a/generator/codegen/field/marshalers.go
+++ b/generator/codegen/field/marshalers.go
@@ -114,7 +114,7 @@ func timeMarshal(src ast.Expr, jsonName, layout string, omitempty, isStar bool)
 //			result.Write(buf)
 //			result.WriteRune('"')
 //		}
-func uuidMarshal(src ast.Expr, jsonName string, omitempty bool) WriteBlock {
+func uuidMarshal(src ast.Expr, jsonName string, omitempty, isStar bool) WriteBlock {
 	var bufVar = asthlp.NewIdent("buf")
 	var w = WriteBlock{
 		Block: []ast.Stmt{
@@ -147,6 +147,9 @@ func uuidMarshal(src ast.Expr, jsonName string, omitempty bool) WriteBlock {
 			),
 		},
 	}
+	if isStar {
+		w.NotZero = asthlp.NotNil(src)
+	}
 	if !omitempty {
 		w.IfZero = []ast.Stmt{
 			asthlp.CallStmt(asthlp.Call(
-- 
2.43.0


From 973bf09dd003e92f07c7f47412ac9bd6dae86bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:12 +0000
Subject: [PATCH 10/21] fix: report the errors of time and UUID elements of a
 slice or array

---
 generator/codegen/field/extractors.go | 37 +++++++++++++++++++++++++--
 generator/codegen/field/fields.go     |  2 ++
 generator/codegen/field/fill.go       | 11 ++++----
 3 files changed, 43 insertions(+), 7 deletions(-)

diff --git a/generator/codegen/field/extractors.go b/generator/codegen/field/extractors.go
index ce6d902..5150928 100644
--- a/generator/codegen/field/extractors.go
+++ b/generator/codegen/field/extractors.go
@@ -267,7 +267,12 @@ func (f *Field) nestedExtraction(dst *ast.Ident, src, t ast.Expr, v ast.Expr) []
 //	    return fmt.Errorf("error parsing '%s.field' value: %w", objPath, err)
 //	}
 //	valfield, err = uuid.ParseBytes(b)
-func uuidExtraction(dst *ast.Ident, t ast.Expr, v, name string) []ast.Stmt {
+func uuidExtraction(dst *ast.Ident, t ast.Expr, v, name string, isElem bool) []ast.Stmt {
+	if isElem {
+		return elemExtraction(dst, t, v, asthlp.Call(
+			asthlp.InlineFunc(asthlp.SimpleSelector("uuid", "ParseBytes")), asthlp.NewIdent("b"),
+		))
+	}
 	var stmt = []ast.Stmt{
 		&ast.DeclStmt{
 			Decl: &ast.GenDecl{
@@ -311,9 +316,14 @@ func uuidExtraction(dst *ast.Ident, t ast.Expr, v, name string) []ast.Stmt {
 //	}
 //
 // {dst}, err := parseDateTime(string(b))
-func timeExtraction(dst *ast.Ident, v, jsonName, layout string) []ast.Stmt {
+func timeExtraction(dst *ast.Ident, t ast.Expr, v, jsonName, layout string, isElem bool) []ast.Stmt {
 	var extrStmt []ast.Stmt
 	var srcString = asthlp.VariableTypeConvert("b", asthlp.String)
+	if isElem {
+		return elemExtraction(dst, t, v, asthlp.Call(
+			asthlp.InlineFunc(asthlp.NewIdent("parseDateTime")), srcString,
+		))
+	}
 	if layout == "" {
 		extrStmt = timeExtractionUnify(dst, srcString)
 	} else {
@@ -371,6 +381,29 @@ func layoutExpr(layout string) ast.Expr {
 	return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(layout)}
 }
 
+// elemExtraction parses the text of an array element. It assigns to the err variable that is checked after the loop.
+//
+//	var {dst} {t}
+//	var b []byte
+//	if b, err = {v}.StringBytes(); err == nil {
+//		{dst}, err = {parse}
+//	}
+func elemExtraction(dst *ast.Ident, t ast.Expr, v string, parse *ast.CallExpr) []ast.Stmt {
+	return asthlp.Block(
+		asthlp.Var(asthlp.VariableType(dst.Name, t)),
+		asthlp.Var(asthlp.VariableType("b", asthlp.ArrayType(asthlp.Byte))),
+		asthlp.IfInit(
+			asthlp.Assign(
+				asthlp.MakeVarNames("b", names.VarNameError),
+				asthlp.Assignment,
+				asthlp.Call(asthlp.InlineFunc(asthlp.SimpleSelector(v, "StringBytes"))),
+			),
+			asthlp.IsNil(asthlp.NewIdent(names.VarNameError)),
+			asthlp.Assign(asthlp.VarNames{dst, asthlp.NewIdent(names.VarNameError)}, asthlp.Assignment, parse),
+		),
+	).List
+}
+
 // valDateBegin, err := parseDateTime(string(b))
 func timeExtractionUnify(dst *ast.Ident, v ast.Expr) []ast.Stmt {
 	return []ast.Stmt{
diff --git a/generator/codegen/field/fields.go b/generator/codegen/field/fields.go
index bb46a75..2d05b02 100644
--- a/generator/codegen/field/fields.go
+++ b/generator/codegen/field/fields.go
@@ -35,6 +35,8 @@ type (
 		filled bool
 		// level counts code hierarchy
 		level int
+		// isElem is an element of an array, the error of its extraction is checked outside the loop
+		isElem bool
 	}
 )
 
diff --git a/generator/codegen/field/fill.go b/generator/codegen/field/fill.go
index 35d7662..0f05ea1 100644
--- a/generator/codegen/field/fill.go
+++ b/generator/codegen/field/fill.go
@@ -213,10 +213,10 @@ func (f *Field) TypedValue(dst *ast.Ident, v string, elemPathExpr ast.Expr) []as
 		switch t.Sel.Name {
 
 		case "Time":
-			result = append(result, timeExtraction(dst, v, f.tags.JsonName(), f.tags.Layout())...)
+			result = append(result, timeExtraction(dst, f.refx, v, f.tags.JsonName(), f.tags.Layout(), f.isElem)...)
 
 		case "UUID":
-			result = append(result, uuidExtraction(dst, f.refx, v, f.tags.JsonName())...)
+			result = append(result, uuidExtraction(dst, f.refx, v, f.tags.JsonName(), f.isElem)...)
 
 		default:
 			result = append(result, f.nestedExtraction(dst, f.field, f.expr, asthlp.NewIdent(v))...)
@@ -235,9 +235,10 @@ func (f *Field) TypedValue(dst *ast.Ident, v string, elemPathExpr ast.Expr) []as
 				dst,
 				asthlp.FreeExpression(asthlp.Sub(asthlp.Call(asthlp.LengthFn, dst), asthlp.IntegerConstant(1).Expr())),
 			),
-			expr:  t.Elt,
-			tags:  tags.Parse(fmt.Sprintf(`json:"%s"`, f.tags.JsonName())),
-			level: f.level + 1,
+			expr:   t.Elt,
+			tags:   tags.Parse(fmt.Sprintf(`json:"%s"`, f.tags.JsonName())),
+			level:  f.level + 1,
+			isElem: true,
 		}
 		intF.prepareRef()
 		if t.Len == nil {
-- 
2.43.0


From 19f5cfeccc3e45820fbe88b54e1d83bc6d62cbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:50 +0000
Subject: [PATCH 11/21] fix: look an inlined struct up in the package its file
 imports under that name

---
 generator/analyse.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/generator/analyse.go b/generator/analyse.go
index 460776d..d512ed9 100644
--- a/generator/analyse.go
+++ b/generator/analyse.go
@@ -311,7 +311,7 @@ func (v *visitor) exploreInlinedSelector(inlined *ast.SelectorExpr) (fields []*a
 	if !ok {
 		panic(fmt.Errorf("can't inline struct %q; can't recognize %+v expression", inlined.Sel.Name, inlined.X))
 	}
-	pkg, err := v.g.discovery.GetPackage(packIdent.Name, inlined.Sel.Name)
+	pkg, err := v.inlinedPackage(packIdent.Name, inlined.Sel.Name)
 	if err != nil {
 		panic(fmt.Errorf("can't inline struct %q; can't parse '%s' package: %+v", inlined.Sel.Name, packIdent.Name, err))
 	}
@@ -331,6 +331,23 @@ func (v *visitor) exploreInlinedSelector(inlined *ast.SelectorExpr) (fields []*a
 	return
 }
 
+// inlinedPackage finds the package that a selector names: the one that the file imports under this name,
+// if there is any, or the one that is called so
+func (v *visitor) inlinedPackage(packageName, typeName string) (ast.Node, error) {
+	if imported := v.g.packages[packageName]; v.over == nil && len(imported) == 1 {
+		pkgs, err := parsePackage(v.g.discovery.PackagePathFromPath(imported[0].Path))
+		if err != nil {
+			return nil, err
+		}
+		for name, pkg := range pkgs {
+			if name != "main" && !strings.HasSuffix(name, "_test") {
+				return pkg, nil
+			}
+		}
+	}
+	return v.g.discovery.GetPackage(packageName, typeName)
+}
+
 func findFieldWithName(fields []*ast.Field, name string) *ast.Field {
 	for _, field := range fields {
 		for _, fldName := range field.Names {
-- 
2.43.0


From 3eaaed923ad2b47294db3a5b7913b8329e789d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:15 +0000
Subject: [PATCH 12/21] fix: read the name of an imported package from the
 package instead of its path

---
 generator/discoverer/parser.go | 18 ++++++++++++++++++
 generator/parser.go            |  4 +---
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/generator/discoverer/parser.go b/generator/discoverer/parser.go
index 7a54e99..83f56c5 100644
--- a/generator/discoverer/parser.go
+++ b/generator/discoverer/parser.go
@@ -5,6 +5,7 @@ import (
 	"go/ast"
 	"go/parser"
 	"go/token"
+	"path"
 	"strings"
 )
 
@@ -49,6 +50,23 @@ func (d *Discoverer) PackagePathFromPath(packagePath string) string {
 	return d.modPath + "/" + packagePath
 }
 
+// PackageNameFromPath returns the name that a package of the module gives itself,
+// or the last element of its path if there is no such package.
+func (d *Discoverer) PackageNameFromPath(packagePath string) string {
+	dir := path.Clean(d.PackagePathFromPath(packagePath))
+	for name, packagePaths := range d.packages {
+		if name == "main" || strings.HasSuffix(name, "_test") {
+			continue
+		}
+		for _, p := range packagePaths {
+			if path.Clean(p) == dir {
+				return name
+			}
+		}
+	}
+	return path.Base(packagePath)
+}
+
 func (d *Discoverer) GetPackageFullName(packageName string, hints ...string) (string, error) {
 	packagePaths, ok := d.packages[packageName]
 	if !ok {
diff --git a/generator/parser.go b/generator/parser.go
index 6a8021b..5cec2e1 100644
--- a/generator/parser.go
+++ b/generator/parser.go
@@ -50,9 +50,7 @@ func (g *Gen) Parse() (err error) {
 			continue
 		}
 		if name == "" {
-			// FIXME @menshenin the name of package must be read from the package itself
-			split := strings.Split(pkgPath, "/")
-			name = split[len(split)-1]
+			name = g.discovery.PackageNameFromPath(pkgPath)
 		}
 		g.packages[name] = append(
 			g.packages[name],
-- 
2.43.0


From 9f9c31e7222151b09d84dd69cdd82c8fd93dd505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:31 +0000
Subject: [PATCH 13/21] fix: a type of a main package in the directory of an
 imported one was taken for the imported type

---
 generator/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/parser.go b/generator/parser.go
index 5cec2e1..2fed8ac 100644
--- a/generator/parser.go
+++ b/generator/parser.go
@@ -143,7 +143,7 @@ func (g *Gen) ExploreType(p explorer.Package, objName string) *ast.TypeSpec {
 		panic(fmt.Errorf("can't parse package %q: %w", p.Path, err))
 	}
 	for name, pack := range parsed {
-		if strings.HasSuffix(name, "_test") {
+		if name == "main" || strings.HasSuffix(name, "_test") {
 			continue
 		}
 		for _, file := range pack.Files {
-- 
2.43.0


From d35c3620300649e57b92c074f9e9e4335f373797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 14/21] fix: honour omitempty, required and inline wherever
 they stand in a json tag

---
 generator/analyse.go               |  2 +-
 generator/codegen/field/fields.go  | 14 +++++++-------
 generator/codegen/field/fill.go    |  2 +-
 generator/codegen/field/marshal.go | 14 +++++++-------
 generator/codegen/struct.go        |  2 +-
 generator/codegen/tags/tags.go     |  9 +++++----
 6 files changed, 22 insertions(+), 21 deletions(-)

diff --git a/generator/analyse.go b/generator/analyse.go
index d512ed9..e6767e5 100644
--- a/generator/analyse.go
+++ b/generator/analyse.go
@@ -239,7 +239,7 @@ func (v *visitor) collectFields(src []*ast.Field) []*ast.Field {
 				}
 			}
 		}
-		if tag.JsonAppendix() == "inline" {
+		if tag.HasJsonOption("inline") {
 			inlinedFields, canInline := v.exploreInlined(fld)
 			if canInline {
 				flds = append(flds, inlinedFields...)
diff --git a/generator/codegen/field/fields.go b/generator/codegen/field/fields.go
index 2d05b02..28932da 100644
--- a/generator/codegen/field/fields.go
+++ b/generator/codegen/field/fields.go
@@ -166,17 +166,17 @@ func (f *Field) MarshalStatements(src ast.Expr, name string) []ast.Stmt {
 
 	case *ast.SelectorExpr:
 		if tt.Sel.Name == "Time" {
-			block := timeMarshal(src, f.tags.JsonName(), f.tags.Layout(), f.tags.JsonAppendix() == "omitempty", f.isStar)
+			block := timeMarshal(src, f.tags.JsonName(), f.tags.Layout(), f.tags.HasJsonOption("omitempty"), f.isStar)
 			return block.Render(putCommaFirstIf)
 		}
 		if tt.Sel.Name == "UUID" {
-			block := uuidMarshal(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", f.isStar)
+			block := uuidMarshal(src, f.tags.JsonName(), f.tags.HasJsonOption("omitempty"), f.isStar)
 			return block.Render(putCommaFirstIf)
 		}
-		return marshalTransit(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", f.isStar).Render(putCommaFirstIf)
+		return marshalTransit(src, f.tags.JsonName(), f.tags.HasJsonOption("omitempty"), f.isStar).Render(putCommaFirstIf)
 
 	case *ast.StructType:
-		return marshalTransit(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", f.isStar).Render(putCommaFirstIf)
+		return marshalTransit(src, f.tags.JsonName(), f.tags.HasJsonOption("omitempty"), f.isStar).Render(putCommaFirstIf)
 
 	case *ast.MapType:
 		var isString bool
@@ -186,18 +186,18 @@ func (f *Field) MarshalStatements(src ast.Expr, name string) []ast.Stmt {
 		dec := GetDecorExpr(tt.Value)
 		valType := helpers.DenotedType(tt.Value)
 		errExpr := asthlp.Call(asthlp.FmtErrorfFn, asthlp.StringConstant(`can't marshal "`+f.tags.JsonName()+`" attribute %q: %w`).Expr(), asthlp.NewIdent("_k"), asthlp.NewIdent("err"))
-		block := mapMarshal(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", isString, GetValueExtractor(valType, errExpr, dec))
+		block := mapMarshal(src, f.tags.JsonName(), f.tags.HasJsonOption("omitempty"), isString, GetValueExtractor(valType, errExpr, dec))
 		return block.Render(putCommaFirstIf)
 
 	case *ast.ArrayType:
 		var block WriteBlock
 		if helpers.IsIdent(tt.Elt, "byte") {
-			block = byteSliceMarshal(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", tt)
+			block = byteSliceMarshal(src, f.tags.JsonName(), f.tags.HasJsonOption("omitempty"), tt)
 		} else {
 			dec := GetDecorExpr(tt.Elt)
 			valType := helpers.DenotedType(tt.Elt)
 			errExpr := asthlp.Call(asthlp.FmtErrorfFn, asthlp.StringConstant(`can't marshal "`+f.tags.JsonName()+`" item at position %d: %w`).Expr(), asthlp.NewIdent("_k"), asthlp.NewIdent("err"))
-			block = arrayMarshal(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", GetValueExtractor(valType, errExpr, dec), tt.Len == nil)
+			block = arrayMarshal(src, f.tags.JsonName(), f.tags.HasJsonOption("omitempty"), GetValueExtractor(valType, errExpr, dec), tt.Len == nil)
 		}
 		return block.Render(putCommaFirstIf)
 
diff --git a/generator/codegen/field/fill.go b/generator/codegen/field/fill.go
index 0f05ea1..29b26fe 100644
--- a/generator/codegen/field/fill.go
+++ b/generator/codegen/field/fill.go
@@ -721,7 +721,7 @@ func (f *Field) typedRefFillIn(rhs, dst ast.Expr, t string) []ast.Stmt {
 //	}
 func (f *Field) ifDefault(varName, name string) []ast.Stmt {
 	if f.tags.DefaultValue() == "" {
-		if f.tags.JsonAppendix() == "required" {
+		if f.tags.HasJsonOption("required") {
 			// return fmt.Errorf("required element '{json}' is missing", objPath)
 			return []ast.Stmt{
 				asthlp.Return(
diff --git a/generator/codegen/field/marshal.go b/generator/codegen/field/marshal.go
index 4265b0e..9046053 100644
--- a/generator/codegen/field/marshal.go
+++ b/generator/codegen/field/marshal.go
@@ -60,23 +60,23 @@ func (f *Field) typeMarshal(src ast.Expr, t string) []ast.Stmt {
 	switch t {
 
 	case "int", "int8", "int16", "int32", "int64":
-		wb = intMarshal(ur, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", nc || t != "int64")
+		wb = intMarshal(ur, f.tags.JsonName(), f.tags.HasJsonOption("omitempty"), nc || t != "int64")
 
 	case "uint", "uint8", "uint16", "uint32", "uint64":
-		wb = uintMarshal(ur, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", nc || t != "uint64")
+		wb = uintMarshal(ur, f.tags.JsonName(), f.tags.HasJsonOption("omitempty"), nc || t != "uint64")
 
 	case "float32", "float64":
-		wb = floatMarshal(ur, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", nc || t != "float64")
+		wb = floatMarshal(ur, f.tags.JsonName(), f.tags.HasJsonOption("omitempty"), nc || t != "float64")
 
 	case "bool":
 		if f.isStar {
-			wb = refBoolMarshal(ur, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty")
+			wb = refBoolMarshal(ur, f.tags.JsonName(), f.tags.HasJsonOption("omitempty"))
 		} else {
-			wb = boolMarshal(ur, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty")
+			wb = boolMarshal(ur, f.tags.JsonName(), f.tags.HasJsonOption("omitempty"))
 		}
 
 	case "string":
-		wb = stringMarshal(ur, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", nc)
+		wb = stringMarshal(ur, f.tags.JsonName(), f.tags.HasJsonOption("omitempty"), nc)
 
 	default:
 		panic(fmt.Errorf("unknown base type %q", t))
@@ -87,7 +87,7 @@ func (f *Field) typeMarshal(src ast.Expr, t string) []ast.Stmt {
 		if s, ok := src.(*ast.StarExpr); ok {
 			wb.NotZero = asthlp.And(asthlp.NotNil(s.X), wb.NotZero)
 		}
-		if f.tags.JsonAppendix() != "omitempty" {
+		if !f.tags.HasJsonOption("omitempty") {
 			wb.IfZero = []ast.Stmt{
 				asthlp.CallStmt(asthlp.Call(
 					RawStringFn,
diff --git a/generator/codegen/struct.go b/generator/codegen/struct.go
index c1071ce..1495453 100644
--- a/generator/codegen/struct.go
+++ b/generator/codegen/struct.go
@@ -75,7 +75,7 @@ func fillFieldStmts(fld *ast.Field) []ast.Stmt {
 		if fld.Tag != nil {
 			tag = tags.Parse(fld.Tag.Value)
 		}
-		if tag.JsonAppendix() == "inline" {
+		if tag.HasJsonOption("inline") {
 			// panic("dfs")
 		}
 		switch i := fld.Type.(type) {
diff --git a/generator/codegen/tags/tags.go b/generator/codegen/tags/tags.go
index d7ee62c..f274dc5 100644
--- a/generator/codegen/tags/tags.go
+++ b/generator/codegen/tags/tags.go
@@ -29,14 +29,15 @@ func (t Tags) JsonName() string {
 	return ""
 }
 
-func (t Tags) JsonAppendix() string {
+// HasJsonOption tells if the option stands anywhere behind the name in the json tag
+func (t Tags) HasJsonOption(option string) bool {
 	if t == nil {
-		return ""
+		return false
 	}
 	if v := t["json"]; len(v) > 1 {
-		return v[1]
+		return StructTags(v[1:]).Has(option)
 	}
-	return ""
+	return false
 }
 
 func (t Tags) JsonTags() StructTags {
-- 
2.43.0


From bde5536baa8f48628fe716f6ce40460d63e9df86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:35 +0000
Subject: [PATCH 15/21] fix: a nil pointer to an array is encoded as null
 instead of crashing

---
 generator/codegen/field/fields.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/codegen/field/fields.go b/generator/codegen/field/fields.go
index 28932da..c3237e3 100644
--- a/generator/codegen/field/fields.go
+++ b/generator/codegen/field/fields.go
@@ -197,7 +197,7 @@ func (f *Field) MarshalStatements(src ast.Expr, name string) []ast.Stmt {
 			dec := GetDecorExpr(tt.Elt)
 			valType := helpers.DenotedType(tt.Elt)
 			errExpr := asthlp.Call(asthlp.FmtErrorfFn, asthlp.StringConstant(`can't marshal "`+f.tags.JsonName()+`" item at position %d: %w`).Expr(), asthlp.NewIdent("_k"), asthlp.NewIdent("err"))
-			block = arrayMarshal(src, f.tags.JsonName(), f.tags.HasJsonOption("omitempty"), GetValueExtractor(valType, errExpr, dec), tt.Len == nil)
+			block = arrayMarshal(src, f.tags.JsonName(), f.tags.HasJsonOption("omitempty"), GetValueExtractor(valType, errExpr, dec), tt.Len == nil || f.isStar)
 		}
 		return block.Render(putCommaFirstIf)
 
-- 
2.43.0


From 69fb1ed75d8be1a47652c5e427518de73f1e09d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:55 +0000
Subject: [PATCH 16/21] fix: report the errors of map elements of a slice or
 array

The object of an element was taken with o, err := inside the loop, so the
error of its entries was set in a variable of the iteration and never seen
behind the loop: the decoder accepted the document and dropped the value.
---
 generator/codegen/field/fill.go | 36 +++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/generator/codegen/field/fill.go b/generator/codegen/field/fill.go
index 29b26fe..b2cd401 100644
--- a/generator/codegen/field/fill.go
+++ b/generator/codegen/field/fill.go
@@ -249,7 +249,7 @@ func (f *Field) TypedValue(dst *ast.Ident, v string, elemPathExpr ast.Expr) []as
 		return result
 
 	case *ast.MapType:
-		result = append(result, f.mapExtraction(dst, t, v, f.tags.JsonName())...)
+		result = append(result, f.mapExtraction(dst, t, v, f.tags.JsonName(), elemPathExpr)...)
 
 	case *ast.InterfaceType:
 		// supported empty interface only
@@ -330,7 +330,7 @@ func (f *Field) typeExtraction(dst *ast.Ident, v, t string, elemPathExpr ast.Exp
 //	}
 //
 // s.KeyTypedProperties = valKeyTypedProperties
-func (f *Field) mapExtraction(dst *ast.Ident, t *ast.MapType, v, json string) []ast.Stmt {
+func (f *Field) mapExtraction(dst *ast.Ident, t *ast.MapType, v, json string, elemPathExpr ast.Expr) []ast.Stmt {
 	var value = asthlp.NewIdent("value")
 	var ifNullValue = asthlp.EmptyStmt()
 	var valueAsValue = []ast.Stmt{
@@ -375,12 +375,32 @@ func (f *Field) mapExtraction(dst *ast.Ident, t *ast.MapType, v, json string) []
 		"json": {f.tags.JsonName()},
 	}), t.Value))
 	valFactory.DontCheckErr()
-	return asthlp.Block(
-		//	o, err := {v}.Object()
-		asthlp.Assign(asthlp.MakeVarNames("o", names.VarNameError), asthlp.Definition, asthlp.Call(
-			asthlp.InlineFunc(asthlp.SimpleSelector(v, "Object")),
-		)),
+	var object = asthlp.Call(asthlp.InlineFunc(asthlp.SimpleSelector(v, "Object")))
+	//	o, err := {v}.Object()
+	var extractObject = asthlp.Block(
+		asthlp.Assign(asthlp.MakeVarNames("o", names.VarNameError), asthlp.Definition, object),
 		checkErrAndReturnParsingError(asthlp.StringConstant(json).Expr()),
+	)
+	if f.isElem {
+		//	var o *fastjson.Object
+		//	if o, err = {v}.Object(); err != nil {
+		//		err = newParsingError({elemPathExpr}, err)
+		//		break
+		//	}
+		// the error is declared outside the loop and is checked after it
+		extractObject = asthlp.Block(
+			asthlp.Var(asthlp.VariableType("o", asthlp.Star(asthlp.SimpleSelector("fastjson", "Object")))),
+			asthlp.IfInit(
+				asthlp.Assign(asthlp.MakeVarNames("o", names.VarNameError), asthlp.Assignment, object),
+				asthlp.NotNil(asthlp.NewIdent(names.VarNameError)),
+				asthlp.Assign(asthlp.MakeVarNames(names.VarNameError), asthlp.Assignment, asthlp.Call(
+					asthlp.InlineFunc(asthlp.NewIdent(names.ParsingError)), elemPathExpr, asthlp.NewIdent(names.VarNameError),
+				)),
+				asthlp.Break(),
+			),
+		)
+	}
+	return append(extractObject.List, asthlp.Block(
 		//	{dst} := s.Tags
 		//	if {dst} == nil {
 		//		{dst} = make(map[Key]Property, o.Len())
@@ -431,7 +451,7 @@ func (f *Field) mapExtraction(dst *ast.Ident, t *ast.MapType, v, json string) []
 				).
 				Lit(),
 		)),
-	).List
+	).List...)
 }
 
 func (f *Field) interfaceExtraction(*ast.Ident, *ast.InterfaceType, string, string) []ast.Stmt {
-- 
2.43.0


From 719f4c75c387b37e155d4dc7d5860f2b52f0afd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:55 +0000
Subject: [PATCH 17/21] fix: decode a map element of a slice into a new map

The map that an earlier content of the slice left in its memory was taken
again, with its keys.
---
 generator/codegen/field/fill.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/generator/codegen/field/fill.go b/generator/codegen/field/fill.go
index b2cd401..3a287c7 100644
--- a/generator/codegen/field/fill.go
+++ b/generator/codegen/field/fill.go
@@ -400,18 +400,28 @@ func (f *Field) mapExtraction(dst *ast.Ident, t *ast.MapType, v, json string, el
 			),
 		)
 	}
-	return append(extractObject.List, asthlp.Block(
-		//	{dst} := s.Tags
-		//	if {dst} == nil {
-		//		{dst} = make(map[Key]Property, o.Len())
-		//	}
+	var makeMap = asthlp.Call(
+		asthlp.MakeFn, t, asthlp.Call(asthlp.InlineFunc(asthlp.SimpleSelector("o", "Len"))),
+	)
+	//	{dst} := s.Tags
+	//	if {dst} == nil {
+	//		{dst} = make(map[Key]Property, o.Len())
+	//	}
+	var initMap = asthlp.Block(
 		asthlp.Assign(asthlp.MakeVarNames(dst.Name), asthlp.Definition, f.field),
 		asthlp.If(
 			asthlp.IsNil(asthlp.NewIdent(dst.Name)),
-			asthlp.Assign(asthlp.MakeVarNames(dst.Name), asthlp.Assignment, asthlp.Call(
-				asthlp.MakeFn, t, asthlp.Call(asthlp.InlineFunc(asthlp.SimpleSelector("o", "Len"))),
-			)),
+			asthlp.Assign(asthlp.MakeVarNames(dst.Name), asthlp.Assignment, makeMap),
 		),
+	)
+	if f.isElem {
+		//	{dst} := make(map[Key]Property, o.Len())
+		// what the memory of the element held before is not its content
+		initMap = asthlp.Block(
+			asthlp.Assign(asthlp.MakeVarNames(dst.Name), asthlp.Definition, makeMap),
+		)
+	}
+	return append(append(extractObject.List, initMap.List...), asthlp.Block(
 		// o.Visit(func(key []byte, v *fastjson.Value) {
 		asthlp.CallStmt(asthlp.Call(
 			asthlp.InlineFunc(asthlp.SimpleSelector("o", "Visit")),
-- 
2.43.0


From b2d1e340c3c68d33ba09e6e8bca67963652bb08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:47 +0000
Subject: [PATCH 18/21] fix: decode the struct elements of a fixed array in
 place

---
 generator/codegen/field/fill.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/generator/codegen/field/fill.go b/generator/codegen/field/fill.go
index 3a287c7..427a928 100644
--- a/generator/codegen/field/fill.go
+++ b/generator/codegen/field/fill.go
@@ -147,10 +147,15 @@ func appendStmt(dst, el ast.Expr) ast.Stmt {
 	)
 }
 
+// elemNum is the variable of the loop that holds the number of the element
+func (f *Field) elemNum() *ast.Ident {
+	return asthlp.NewIdent(fmt.Sprintf("_key%d", f.level))
+}
+
 func (f *Field) fillElem(dst ast.Expr, valVariableName string) fillArrayResult {
 	r := fillArrayResult{
 		varElem: asthlp.NewIdent(valVariableName),
-		varNum:  asthlp.NewIdent(fmt.Sprintf("_key%d", f.level)),
+		varNum:  f.elemNum(),
 	}
 	bufVariable := asthlp.NewIdent(fmt.Sprintf("_tmp%d", f.level))
 	if f.isNullable {
@@ -168,6 +173,10 @@ func (f *Field) fillElem(dst ast.Expr, valVariableName string) fillArrayResult {
 	r.append(f.breakErr(r.varNum)...)
 
 	elemAsParticularType := asthlp.Call(asthlp.InlineFunc(f.expr), bufVariable)
+	if f.filled {
+		// the element is filled in where it stands
+		return r
+	}
 	// valList[_elemNum] = int32(elem)
 	if f.isStar {
 		const newElem = "newElem"
@@ -240,6 +249,10 @@ func (f *Field) TypedValue(dst *ast.Ident, v string, elemPathExpr ast.Expr) []as
 			level:  f.level + 1,
 			isElem: true,
 		}
+		if t.Len != nil {
+			// &valData[_key1]
+			intF.field = asthlp.Index(dst, asthlp.FreeExpression(intF.elemNum()))
+		}
 		intF.prepareRef()
 		if t.Len == nil {
 			result = append(result, sliceExtraction(dst, f.field, v, f.tags.JsonName(), t.Elt, intF.appendElem(dst, fmt.Sprintf("_val%d", intF.level)))...)
-- 
2.43.0


From 00752c2d55b6ef2841b91ac051a621d52dfece44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:47 +0000
Subject: [PATCH 19/21] fix: null element of a fixed array

---
 generator/codegen/field/fill.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/generator/codegen/field/fill.go b/generator/codegen/field/fill.go
index 427a928..50bb003 100644
--- a/generator/codegen/field/fill.go
+++ b/generator/codegen/field/fill.go
@@ -102,9 +102,14 @@ func (f *Field) appendElem(dst ast.Expr, valVariableName string) fillArrayResult
 		//  valData[len(valData)-1] = nil
 		//  continue
 		// }
+		var empty ast.Expr = asthlp.Nil
+		if arr, isArray := f.expr.(*ast.ArrayType); isArray && arr.Len != nil && !f.isStar {
+			// an array has no nil
+			empty = asthlp.StructLiteral(arr).Expr()
+		}
 		r.append(asthlp.If(
 			asthlp.Not(asthlp.Call(valueIsNotNull, r.varElem)),
-			asthlp.Assign(asthlp.VarNames{reference}, asthlp.Assignment, asthlp.Nil),
+			asthlp.Assign(asthlp.VarNames{reference}, asthlp.Assignment, empty),
 			asthlp.Continue(),
 		))
 	}
@@ -139,14 +144,6 @@ func (f *Field) appendElem(dst ast.Expr, valVariableName string) fillArrayResult
 	return r
 }
 
-func appendStmt(dst, el ast.Expr) ast.Stmt {
-	return asthlp.Assign(
-		asthlp.VarNames{dst},
-		asthlp.Assignment,
-		asthlp.Call(asthlp.AppendFn, dst, el),
-	)
-}
-
 // elemNum is the variable of the loop that holds the number of the element
 func (f *Field) elemNum() *ast.Ident {
 	return asthlp.NewIdent(fmt.Sprintf("_key%d", f.level))
@@ -160,12 +157,11 @@ func (f *Field) fillElem(dst ast.Expr, valVariableName string) fillArrayResult {
 	bufVariable := asthlp.NewIdent(fmt.Sprintf("_tmp%d", f.level))
 	if f.isNullable {
 		// if !valueIsNotNull(listElem) {
-		//  valFieldRef = append(valFieldRef, nil)
+		//   // the array is new, its element is empty already
 		//   continue
 		// }
 		r.append(asthlp.If(
 			asthlp.Not(asthlp.Call(valueIsNotNull, r.varElem)),
-			appendStmt(dst, ast.NewIdent("nil")),
 			asthlp.Continue(),
 		))
 	}
-- 
2.43.0


From ee2681d020c796c3a029c36a4e593855015014ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:47 +0000
Subject: [PATCH 20/21] fix: decode declared slices and arrays of pointers

---
 generator/codegen/array.go | 46 ++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/generator/codegen/array.go b/generator/codegen/array.go
index 4b72413..0a390c1 100644
--- a/generator/codegen/array.go
+++ b/generator/codegen/array.go
@@ -38,6 +38,33 @@ func (a *Array) FillFromFunc() ast.Decl {
 	valFactory := field.New(asthlp.Field("", asthlp.MakeTagsForField(map[string][]string{}), a.spec.Elt))
 	valFactory.DontCheckErr()
 
+	var elem = asthlp.Index(
+		asthlp.ParenExpr(asthlp.Star(asthlp.NewIdent(names.VarNameReceiver))),
+		asthlp.FreeExpression(asthlp.NewIdent(_i)),
+	)
+	var ifNullValue []ast.Stmt
+	// (*s)[i] = test_extr.External(value)
+	var valueAsValue = []ast.Stmt{
+		asthlp.Assign(asthlp.VarNames{elem}, asthlp.Assignment, asthlp.VariableTypeConvert("value", a.spec.Elt)),
+	}
+	if star, isStar := a.spec.Elt.(*ast.StarExpr); isStar {
+		// if v.Type() == fastjson.TypeNull {
+		//	(*s)[i] = nil
+		//	continue
+		// }
+		ifNullValue = []ast.Stmt{asthlp.If(
+			helpers.MakeIfItsNullTypeCondition(asthlp.NewIdent(names.VarNameJsonValue)),
+			asthlp.Assign(asthlp.VarNames{elem}, asthlp.Assignment, asthlp.Nil),
+			asthlp.Continue(),
+		)}
+		// valRef := test_extr.External(value)
+		// (*s)[i] = &valRef
+		valueAsValue = []ast.Stmt{
+			asthlp.Assign(asthlp.MakeVarNames("valRef"), asthlp.Definition, asthlp.VariableTypeConvert("value", star.X)),
+			asthlp.Assign(asthlp.VarNames{elem}, asthlp.Assignment, asthlp.Ref(asthlp.NewIdent("valRef"))),
+		}
+	}
+
 	fn := asthlp.DeclareFunction(asthlp.NewIdent(names.MethodNameFill))
 	fn.Comments("// " + names.MethodNameFill + " fills the array with the values recognized from fastjson.Value")
 	fn.Receiver(asthlp.Field(names.VarNameReceiver, nil, asthlp.Star(asthlp.NewIdent(a.name))))
@@ -98,8 +125,9 @@ func (a *Array) FillFromFunc() ast.Decl {
 		),
 		makeStmt,
 		asthlp.Range(true, _i, _v, asthlp.NewIdent(_a),
-			append(
-				field.IsNotEmpty(valFactory.TypedValue(asthlp.NewIdent("value"), _v, asthlp.Call(asthlp.StrconvItoaFn, asthlp.NewIdent(_i)))),
+			append(append(append(
+				ifNullValue,
+				field.IsNotEmpty(valFactory.TypedValue(asthlp.NewIdent("value"), _v, asthlp.Call(asthlp.StrconvItoaFn, asthlp.NewIdent(_i))))...),
 				//if err != nil {
 				//	return fmt.Errorf("error parsing '%s[%d]' value: %w", objPath, i, err)
 				//}
@@ -116,18 +144,8 @@ func (a *Array) FillFromFunc() ast.Decl {
 							asthlp.NewIdent(names.VarNameError),
 						),
 					),
-				),
-				// (*s)[i] = test_extr.External(value)
-				asthlp.Assign(
-					asthlp.VarNames{
-						asthlp.Index(
-							asthlp.ParenExpr(asthlp.Star(asthlp.NewIdent(names.VarNameReceiver))),
-							asthlp.FreeExpression(asthlp.NewIdent(_i)),
-						),
-					},
-					asthlp.Assignment,
-					asthlp.VariableTypeConvert("value", a.spec.Elt),
-				),
+				)),
+				valueAsValue...,
 			)...,
 		),
 		asthlp.Return(asthlp.Nil),
-- 
2.43.0


From d4b0867efef5d910572e875ebfc5f0082fb969cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:47 +0000
Subject: [PATCH 21/21] fix: encode elements that are pointers to time or named
 times

---
 generator/codegen/field/fields.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/codegen/field/fields.go b/generator/codegen/field/fields.go
index c3237e3..9146c4c 100644
--- a/generator/codegen/field/fields.go
+++ b/generator/codegen/field/fields.go
@@ -358,7 +358,7 @@ func GetValueExtractor(t, errExpr ast.Expr, initDecorSrc DecorSrc) ValueExtracto
 				return decorStmt(src, []ast.Stmt{
 					// writeTime(result, s.DateBegin, time.RFC3339Nano)
 					asthlp.CallStmt(
-						asthlp.Call(names.WriteTimeFunc, asthlp.NewIdent(names.VarNameWriter), src, names.TimeDefaultLayout),
+						asthlp.Call(names.WriteTimeFunc, asthlp.NewIdent(names.VarNameWriter), decorSrc(src), names.TimeDefaultLayout),
 					),
 				})
 			}
-- 
2.43.0

