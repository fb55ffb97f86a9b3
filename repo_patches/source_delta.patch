From 1ff0b30fcd7195b94f219e0227b72f8a27dc0965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:37 +0000
Subject: [PATCH 01/23] fix: scanner: '.' followed by a digit was scanned
 forever without progress

---
 pkg/scanner/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index 1d3d44d..62be993 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -708,7 +708,7 @@ scanAgain:
 			insertSemi = true
 			tok = token.IDENT
 		}
-	case isDecimal(ch) || ch == '.' && isDecimal(rune(s.peek())):
+	case isDecimal(ch):
 		insertSemi = true
 		tok, lit = s.scanNumber()
 	default:
-- 
2.43.0


From 7c2fa54d8eacd76f324c2d82728ee837d7b318a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:43 +0000
Subject: [PATCH 02/23] fix: parser: an illegal first token made ParseFile
 dereference a nil file

---
 pkg/parser/interface.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/interface.go b/pkg/parser/interface.go
index 3a58826..1c4fe92 100644
--- a/pkg/parser/interface.go
+++ b/pkg/parser/interface.go
@@ -83,7 +83,9 @@ func ParseFile(fset *token.FileSet, filename string, src interface{}, mode Mode)
 	// parse source
 	p.init(fset, filename, text, mode)
 	f = p.parseFile()
-	f.Path = filename
+	if f != nil {
+		f.Path = filename
+	}
 	return
 }
 
-- 
2.43.0


From e4a8ccf3c7c47b77d112e0f8798461e05db64fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:43 +0000
Subject: [PATCH 03/23] fix: parser: an array or map as parameter or result of
 a method made the parser panic

---
 pkg/parser/parser.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index a0fc84d..9895c9b 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -595,6 +595,20 @@ func (p *parser) parseVarType() ast.Type {
 	return typ
 }
 
+// parseMethodType parses the parameter or the result type of a method, which
+// cannot be an array or a map.
+func (p *parser) parseMethodType() *ast.VarType {
+	pos := p.pos
+	typ, ok := p.parseVarType().(*ast.VarType)
+	if !ok {
+		p.error(pos, "the parameter and the result of a method cannot be an array or a map")
+		typ = &ast.VarType{
+			TypeExpr: &ast.BadExpr{From: pos, To: p.pos},
+		}
+	}
+	return typ
+}
+
 func (p *parser) parseMethodSpec() *ast.FuncType {
 	if p.trace {
 		defer un(trace(p, "MethodSpec"))
@@ -602,18 +616,18 @@ func (p *parser) parseMethodSpec() *ast.FuncType {
 
 	doc := p.leadComment
 	tags := p.parseTags()
-	result := p.parseVarType()
+	result := p.parseMethodType()
 	name := p.parseIdent()
 	p.expect(token.LPAREN)
-	param := p.parseVarType()
+	param := p.parseMethodType()
 	paramName := p.parseIdent()
 	p.expect(token.RPAREN)
 	id := p.parseId()
 
 	var typ = &ast.FuncType{
-		Result:    result.(*ast.VarType),
+		Result:    result,
 		Name:      name,
-		Param:     param.(*ast.VarType),
+		Param:     param,
 		ParamName: paramName,
 		Doc:       doc,
 		Comment:   doc,
-- 
2.43.0


From 7b0456544d09970b63018f3989b13979c7f02efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:43 +0000
Subject: [PATCH 04/23] fix: parser: the token after a method was dropped,
 whatever it was

---
 pkg/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 9895c9b..f008b0e 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -874,7 +874,7 @@ func (p *parser) parseServerSpec(doc *ast.CommentGroup, tags []*ast.Tag) ast.Spe
 	var list []*ast.FuncType
 	for p.tok != token.RBRACE && p.tok != token.EOF {
 		list = append(list, p.parseMethodSpec())
-		p.next()
+		p.expectSemi()
 	}
 	rbrace := p.expect(token.RBRACE)
 
-- 
2.43.0


From 10348a697463400ee9d0bdddfbc4fc6ad03e4eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:43 +0000
Subject: [PATCH 05/23] fix: parser: any token was accepted in place of '='
 after the name of an enum item

---
 pkg/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index f008b0e..7c779c9 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -843,7 +843,7 @@ func (p *parser) parseEnumItem(scope *ast.Scope) *ast.EnumItem {
 	name := p.parseIdent()
 
 	var id *ast.BasicLit
-	p.next()
+	p.expect(token.ASSIGN)
 	if p.tok != token.INT {
 		p.errorExpected(p.pos, "not find int")
 	}
-- 
2.43.0


From 046085f96d908b0ff664a48173326f451b7bc61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:48 +0000
Subject: [PATCH 06/23] fix: build: only the first tag of a list was checked
 for repeated keys

---
 pkg/build/build.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index bb87369..1550be9 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -310,7 +310,10 @@ func (b *Builder) checkTags(tags []*ast.Tag) error {
 	}
 
 	for _, tag := range tags {
-		return b.checkKeyValue(tag.KV)
+		err := b.checkKeyValue(tag.KV)
+		if err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 83b6fa368c5ce55974fc11ef2bcc1aac7b7ab798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:48 +0000
Subject: [PATCH 07/23] fix: build: a map key of an unknown name, or that is
 itself an array or map, made the compiler panic

---
 pkg/build/build.go | 2 +-
 pkg/build/data.go  | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 1550be9..5558ac0 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -265,7 +265,7 @@ func (b *Builder) checkDataMapKey(file *ast.File, varType *ast.VarType) error {
 			return nil
 		}
 		obj := b.GetDataType(file, varType.TypeExpr.(*ast.Ident).Name)
-		if obj.Kind == ast.Enum {
+		if nil != obj && obj.Kind == ast.Enum {
 			varType.TypeExpr.(*ast.Ident).Obj = obj
 			return nil
 		}
diff --git a/pkg/build/data.go b/pkg/build/data.go
index 83836e2..9a5ed6c 100644
--- a/pkg/build/data.go
+++ b/pkg/build/data.go
@@ -170,7 +170,14 @@ func (b *Builder) checkDataItem(file *ast.File, data *ast.DataType) error {
 			}
 		case *ast.MapType:
 			ma := item.Type.(*ast.MapType)
-			err := b.checkDataMapKey(file, ma.Key.(*ast.VarType))
+			key, ok := ma.Key.(*ast.VarType)
+			if !ok {
+				return scanner.Error{
+					Pos: b.fset.Position(ma.Key.Pos()),
+					Msg: "Map keys can only be of type",
+				}
+			}
+			err := b.checkDataMapKey(file, key)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From e3be05927ab3a5a4443eb2fdb21966bc3faaacc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:48 +0000
Subject: [PATCH 08/23] fix: build: the tags of an enum were not checked for
 repeated names and keys

---
 pkg/build/enum.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/build/enum.go b/pkg/build/enum.go
index aa4acf6..a24da0e 100644
--- a/pkg/build/enum.go
+++ b/pkg/build/enum.go
@@ -6,6 +6,10 @@ import (
 )
 
 func (b *Builder) checkEnum(file *ast.File, enum *ast.EnumType, index int) error {
+	err := b.checkTags(enum.Tags)
+	if err != nil {
+		return err
+	}
 	name := enum.Name.Name
 	if _, ok := _keys[BaseType(name)]; ok {
 		return scanner.Error{
@@ -21,7 +25,7 @@ func (b *Builder) checkEnum(file *ast.File, enum *ast.EnumType, index int) error
 		}
 	}
 
-	err := b.checkEnumItem(file, enum)
+	err = b.checkEnumItem(file, enum)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From a8096e57a4326058ad092d63991def7b5339d629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:44 +0000
Subject: [PATCH 09/23] fix: build: a method's parameter or result could be
 bound to an enum of the same name in an earlier import

---
 pkg/build/server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/build/server.go b/pkg/build/server.go
index 754975d..ed06f32 100644
--- a/pkg/build/server.go
+++ b/pkg/build/server.go
@@ -105,7 +105,7 @@ func (b *Builder) checkServerItemType(file *ast.File, result *ast.VarType) error
 			if _, ok := _types[BaseType(ident.Name)]; ok {
 				return nil
 			}
-			obj := b.GetDataType(file, ident.Name)
+			obj := b.getDataExtends(file, 0, ident.Name)
 			if nil != obj {
 				ident.Obj = obj
 				return nil
@@ -122,7 +122,7 @@ func (b *Builder) checkServerItemType(file *ast.File, result *ast.VarType) error
 					if _, ok := _types[BaseType(ident.Name)]; ok {
 						return nil
 					}
-					obj := b.GetDataType(file, ident.Name)
+					obj := b.getDataExtends(file, 0, ident.Name)
 					if nil != obj {
 						ident.Obj = obj
 						return nil
-- 
2.43.0


From 6d60ee24668174950c589c648dbfdb564e2d28f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:39 +0000
Subject: [PATCH 10/23] fix: build: a type that is its own ancestor made the
 compiler recurse for ever

---
 pkg/build/build.go | 68 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 68 insertions(+)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 5558ac0..bc680bb 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -130,6 +130,10 @@ func Build(out string, in string, typ string, pack string) error {
 	if err != nil {
 		return err
 	}
+	err = build.checkCycles()
+	if err != nil {
+		return err
+	}
 
 	for path, file := range build.pkg.Files {
 		_, name := filepath.Split(path)
@@ -160,6 +164,70 @@ func (b *Builder) checkFiles() error {
 	return nil
 }
 
+// checkCycles reports a type that is, directly or through others, its own parent
+func (b *Builder) checkCycles() error {
+	var list []*ast.TypeSpec
+	for _, file := range b.pkg.Files {
+		list = append(list, typesOf(file)...)
+	}
+	if rest := withoutLevel(list, map[*ast.TypeSpec]int{}); 0 < len(rest) {
+		return scanner.Error{
+			Pos: b.fset.Position(rest[0].Pos()),
+			Msg: "Cyclic extends",
+		}
+	}
+	return nil
+}
+
+func typesOf(file *ast.File) []*ast.TypeSpec {
+	var list []*ast.TypeSpec
+	for _, s := range file.Specs {
+		if spec, ok := s.(*ast.TypeSpec); ok {
+			list = append(list, spec)
+		}
+	}
+	return list
+}
+
+// withoutLevel gives every type a level above those of its parents and returns the types for which there is none
+func withoutLevel(list []*ast.TypeSpec, level map[*ast.TypeSpec]int) []*ast.TypeSpec {
+	for n := 1; 0 < len(list); n++ {
+		var rest []*ast.TypeSpec
+		for _, spec := range list {
+			if parentsBelow(spec, level, n) {
+				level[spec] = n
+			} else {
+				rest = append(rest, spec)
+			}
+		}
+		if len(rest) == len(list) {
+			return rest
+		}
+		list = rest
+	}
+	return nil
+}
+
+func parentsBelow(spec *ast.TypeSpec, level map[*ast.TypeSpec]int, n int) bool {
+	for _, extend := range extendsOf(spec) {
+		l, ok := level[extend.Name.Obj.Decl.(*ast.TypeSpec)]
+		if !ok || n <= l {
+			return false
+		}
+	}
+	return true
+}
+
+func extendsOf(spec *ast.TypeSpec) []*ast.Extends {
+	switch t := spec.Type.(type) {
+	case *ast.DataType:
+		return t.Extends
+	case *ast.ServerType:
+		return t.Extends
+	}
+	return nil
+}
+
 func (b *Builder) checkFile(file *ast.File, imports map[string]void) error {
 	for index, s := range file.Specs {
 		switch s.(type) {
-- 
2.43.0


From 53f92b28fecc981042660f7af190964c5dfa46fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:36 +0000
Subject: [PATCH 11/23] fix: build: a name with an empty part (_a, a__b) made
 the compiler panic, one starting with a non-ASCII letter was garbled

---
 pkg/build/build.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index bc680bb..b445e53 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -8,6 +8,7 @@ import (
 	"path/filepath"
 	"regexp"
 	"strings"
+	"unicode/utf8"
 )
 
 type BaseType string
@@ -499,8 +500,9 @@ func StringToHumpName(val string) string {
 	temp := strings.Split(val, "_")
 	var ret string
 	for _, item := range temp {
-		ret += strings.ToUpper(item[:1])
-		ret += item[1:]
+		_, size := utf8.DecodeRuneInString(item)
+		ret += strings.ToUpper(item[:size])
+		ret += item[size:]
 	}
 	return ret
 }
@@ -513,10 +515,12 @@ func StringToFirstLower(val string) string {
 	temp := strings.Split(val, "_")
 	var ret string
 	for _, item := range temp {
-		ret += strings.ToUpper(item[:1])
-		ret += item[1:]
+		_, size := utf8.DecodeRuneInString(item)
+		ret += strings.ToUpper(item[:size])
+		ret += item[size:]
 	}
-	return strings.ToLower(ret[:1]) + ret[1:]
+	_, size := utf8.DecodeRuneInString(ret)
+	return strings.ToLower(ret[:size]) + ret[size:]
 }
 
 // StringToUnderlineName 下划线
-- 
2.43.0


From 7093d1ad1631c8034aaddccc03230ee9d1a27a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:37 +0000
Subject: [PATCH 12/23] fix: build: a db where condition was cut to the length
 of the first one

---
 pkg/build/database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/build/database.go b/pkg/build/database.go
index 15c700b..925bb8d 100644
--- a/pkg/build/database.go
+++ b/pkg/build/database.go
@@ -74,7 +74,7 @@ func GetDB(n string, tag []*ast.Tag) []*DB {
 					} else if "where" == item.Name.Name {
 						where := make([]string, len(item.Values))
 						for i, val := range item.Values {
-							where[i] = val.Value[1 : len(item.Values[0].Value)-1]
+							where[i] = val.Value[1 : len(val.Value)-1]
 						}
 						db.Where = where
 					} else if "offset" == item.Name.Name {
-- 
2.43.0


From 94b04cca6ffc90cf6c2332d5ae57b5d966e31271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:37 +0000
Subject: [PATCH 13/23] fix: build: a verify format or bind value without a dot
 made the compiler panic

---
 pkg/build/binding.go | 2 +-
 pkg/build/verify.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/build/binding.go b/pkg/build/binding.go
index 8fbfa79..c59442f 100644
--- a/pkg/build/binding.go
+++ b/pkg/build/binding.go
@@ -25,7 +25,7 @@ func GetBinding(tags []*ast.Tag, file *ast.File, getType func(file *ast.File, na
 					return nil, NewError(item.Pos()+1, "Not set value")
 				}
 				temp := strings.Split(value, ".")
-				if 0 == len(temp) {
+				if 2 > len(temp) {
 					return nil, NewError(item.Pos()+1, "Not find server method:"+value)
 				}
 
diff --git a/pkg/build/verify.go b/pkg/build/verify.go
index 662eecf..c77f15d 100644
--- a/pkg/build/verify.go
+++ b/pkg/build/verify.go
@@ -36,7 +36,7 @@ func GetVerify(tags []*ast.Tag, file *ast.File, getType func(file *ast.File, nam
 					return nil, NewError(i.Pos()+1, "Not set format")
 				}
 				temp := strings.Split(format, ".")
-				if 0 == len(temp) {
+				if 2 > len(temp) {
 					return nil, NewError(i.Pos()+1, "Not find enum field:"+format)
 				}
 
-- 
2.43.0


From f4e22047a218a627f0a087f7b40a4f0841724dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:41 +0000
Subject: [PATCH 14/23] fix: generators: a reference to a type was printed with
 its raw name, the type is declared under its hump name

---
 pkg/dart/dart.go             | 2 +-
 pkg/golang/data.go           | 2 +-
 pkg/golang/gloang.go         | 2 +-
 pkg/java/java.go             | 2 +-
 pkg/typescript/typescript.go | 6 +++---
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkg/dart/dart.go b/pkg/dart/dart.go
index 62b402b..0987c04 100644
--- a/pkg/dart/dart.go
+++ b/pkg/dart/dart.go
@@ -215,7 +215,7 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, notEmpty bool) {
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
 			b.getPackage(dst, expr, "")
-			dst.Code(expr.(*ast.Ident).Name)
+			dst.Code(build.StringToHumpName(expr.(*ast.Ident).Name))
 		} else {
 			if build.Decimal == build.BaseType((expr.(*ast.Ident).Name)) {
 				dst.Import("package:decimal/decimal.dart", "")
diff --git a/pkg/golang/data.go b/pkg/golang/data.go
index ce3cf51..792bc80 100644
--- a/pkg/golang/data.go
+++ b/pkg/golang/data.go
@@ -117,7 +117,7 @@ func (b *Builder) printDefault(dst *build.Writer, expr ast.Expr) {
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
 			pack := b.getPackage(dst, expr)
-			dst.Code(pack + (expr.(*ast.Ident)).Name)
+			dst.Code(pack + build.StringToHumpName((expr.(*ast.Ident)).Name))
 			if t.Obj.Kind == ast.Enum {
 				dst.Code("(0)")
 			} else {
diff --git a/pkg/golang/gloang.go b/pkg/golang/gloang.go
index b67ee5b..fcb1cbf 100644
--- a/pkg/golang/gloang.go
+++ b/pkg/golang/gloang.go
@@ -240,7 +240,7 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, b2 bool) {
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
 			pack := b.getPackage(dst, expr)
-			dst.Code(pack + (expr.(*ast.Ident)).Name)
+			dst.Code(pack + build.StringToHumpName((expr.(*ast.Ident)).Name))
 		} else {
 			if build.Date == build.BaseType((expr.(*ast.Ident)).Name) {
 				dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/hbuf", "")
diff --git a/pkg/java/java.go b/pkg/java/java.go
index 180c4fa..1ffdefa 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -224,7 +224,7 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, notEmpty bool) {
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
 			b.getPackage(dst, expr, "")
-			dst.Code(expr.(*ast.Ident).Name)
+			dst.Code(build.StringToHumpName(expr.(*ast.Ident).Name))
 		} else {
 			if build.Decimal == build.BaseType((expr.(*ast.Ident).Name)) {
 				dst.Import("java.math.BigDecimal", "")
diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index ecfd7a7..4e3a205 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -245,7 +245,7 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, notEmpty bool, isR
 				pkg := b.getPackage(dst, expr, "")
 				dst.Code(pkg)
 				dst.Code(".")
-				dst.Code(expr.(*ast.Ident).Name)
+				dst.Code(build.StringToHumpName(expr.(*ast.Ident).Name))
 			}
 		} else {
 			if isRecordKey {
@@ -332,14 +332,14 @@ func (b *Builder) printDefault(dst *build.Writer, expr ast.Expr, notEmpty bool)
 				pkg := b.getPackage(dst, expr, "")
 				dst.Code(pkg)
 				dst.Code(".")
-				dst.Code(expr.(*ast.Ident).Name)
+				dst.Code(build.StringToHumpName(expr.(*ast.Ident).Name))
 				dst.Code(".valueOf(0)")
 			} else {
 				dst.Code("new ")
 				pkg := b.getPackage(dst, expr, "")
 				dst.Code(pkg)
 				dst.Code(".")
-				dst.Code(expr.(*ast.Ident).Name)
+				dst.Code(build.StringToHumpName(expr.(*ast.Ident).Name))
 				dst.Code("()")
 			}
 		} else {
-- 
2.43.0


From ebaf984e0aaf12171eebaa6f6fb6229e767b8912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:41 +0000
Subject: [PATCH 15/23] fix: java: uint64 is printed as BigInteger, which was
 imported for int64 instead

---
 pkg/java/java.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/java/java.go b/pkg/java/java.go
index 1ffdefa..86eb534 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -230,7 +230,7 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, notEmpty bool) {
 				dst.Import("java.math.BigDecimal", "")
 			} else if build.Date == build.BaseType((expr.(*ast.Ident).Name)) {
 				dst.Import("java.util.Date", "")
-			} else if build.Int64 == build.BaseType((expr.(*ast.Ident).Name)) {
+			} else if build.Uint64 == build.BaseType((expr.(*ast.Ident).Name)) {
 				dst.Import("java.math.BigInteger", "")
 			}
 			if notEmpty {
-- 
2.43.0


From 7de4305e08f8b13146b11a98a828a2f671e73ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:31 +0000
Subject: [PATCH 16/23] fix: generators: the lines of a doc comment after the
 first were emitted as code

---
 pkg/build/writer.go      |  6 ++++++
 pkg/dart/data.go         |  6 +++---
 pkg/dart/enum.go         |  4 ++--
 pkg/dart/server.go       |  4 ++--
 pkg/golang/data.go       |  6 +++---
 pkg/golang/enum.go       |  4 ++--
 pkg/golang/server.go     | 10 +++++-----
 pkg/java/data.go         |  6 +++---
 pkg/java/enum.go         |  4 ++--
 pkg/java/server.go       |  4 ++--
 pkg/typescript/data.go   |  4 ++--
 pkg/typescript/enum.go   |  4 ++--
 pkg/typescript/server.go |  6 +++---
 13 files changed, 37 insertions(+), 31 deletions(-)

diff --git a/pkg/build/writer.go b/pkg/build/writer.go
index 4833f42..79134c5 100644
--- a/pkg/build/writer.go
+++ b/pkg/build/writer.go
@@ -36,6 +36,12 @@ func (w *Writer) Code(text string) *Writer {
 	return w
 }
 
+// DocText returns the text of a comment group for use behind a comment mark:
+// the lines after the first are given the mark, too.
+func DocText(doc *ast.CommentGroup, mark string) string {
+	return strings.ReplaceAll(strings.TrimSuffix(doc.Text(), "\n"), "\n", "\n"+mark) + "\n"
+}
+
 func (w *Writer) LF() *Writer {
 	_, _ = w.code.WriteString("\n")
 	return w
diff --git a/pkg/dart/data.go b/pkg/dart/data.go
index 792e74a..2328086 100644
--- a/pkg/dart/data.go
+++ b/pkg/dart/data.go
@@ -15,7 +15,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 }
 func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Code("///" + build.DocText(typ.Doc, "///"))
 	}
 	dst.Code("abstract class " + build.StringToHumpName(typ.Name.Name) + " implements Data")
 	if nil != typ.Extends {
@@ -24,7 +24,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	dst.Code("{\n")
 	for _, field := range typ.Fields.List {
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("\t/// Get " + field.Doc.Text())
+			dst.Code("\t/// Get " + build.DocText(field.Doc, "\t/// "))
 		}
 		isSuper := build.CheckSuperField(field.Name.Name, typ)
 		if isSuper {
@@ -36,7 +36,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 		dst.Code(";\n\n")
 
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("\t/// Set " + field.Doc.Text())
+			dst.Code("\t/// Set " + build.DocText(field.Doc, "\t/// "))
 		}
 		if isSuper {
 			dst.Code("\t@override\n")
diff --git a/pkg/dart/enum.go b/pkg/dart/enum.go
index 9b1fec7..5bbb24e 100644
--- a/pkg/dart/enum.go
+++ b/pkg/dart/enum.go
@@ -18,7 +18,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 		b.getPackage(dst, typ.Name, "ui")
 	}
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Code("///" + build.DocText(typ.Doc, "///"))
 	}
 	dst.Code("class " + enumName)
 	dst.Code("{\n")
@@ -57,7 +57,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 
 	for _, item := range typ.Items {
 		if nil != item.Doc && 0 < len(item.Doc.Text()) {
-			dst.Code("\t///" + item.Doc.Text())
+			dst.Code("\t///" + build.DocText(item.Doc, "\t///"))
 		}
 		itemName := build.StringToAllUpper(item.Name.Name)
 		dst.Code("\tstatic final " + itemName + " = " + enumName + "._(" + item.Id.Value + ", '" + build.StringToHumpName(item.Name.Name) + "'")
diff --git a/pkg/dart/server.go b/pkg/dart/server.go
index 87cba6a..c08e33f 100644
--- a/pkg/dart/server.go
+++ b/pkg/dart/server.go
@@ -18,7 +18,7 @@ func (b *Builder) printServerCode(dst *build.Writer, typ *ast.ServerType) {
 
 func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Code("///" + build.DocText(typ.Doc, "///"))
 	}
 	dst.Code("abstract class " + build.StringToHumpName(typ.Name.Name))
 	if nil != typ.Extends {
@@ -28,7 +28,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("{\n")
 	for _, method := range typ.Methods {
 		if nil != method.Doc && 0 < len(method.Doc.Text()) {
-			dst.Code("///" + method.Doc.Text())
+			dst.Code("///" + build.DocText(method.Doc, "///"))
 		}
 		if build.CheckSuperMethod(method.Name.Name, typ) {
 			dst.Code("  @override\n")
diff --git a/pkg/golang/data.go b/pkg/golang/data.go
index 792bc80..0f83fde 100644
--- a/pkg/golang/data.go
+++ b/pkg/golang/data.go
@@ -17,7 +17,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 	dst.Import("encoding/json", "")
 	name := build.StringToHumpName(typ.Name.Name)
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("// " + name + " " + typ.Doc.Text())
+		dst.Code("// " + name + " " + build.DocText(typ.Doc, "// "))
 	}
 	dst.Code("type " + name + " struct")
 	dst.Code(" {\n")
@@ -78,7 +78,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 
 	for _, field := range typ.Fields.List {
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("// Get" + build.StringToHumpName(field.Name.Name) + " Get " + field.Doc.Text())
+			dst.Code("// Get" + build.StringToHumpName(field.Name.Name) + " Get " + build.DocText(field.Doc, "// "))
 		}
 		dst.Code("func (g *" + build.StringToHumpName(typ.Name.Name) + ") Get" + build.StringToHumpName(field.Name.Name) + "() ")
 		b.printType(dst, field.Type, false)
@@ -96,7 +96,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 		dst.Code("}\n\n")
 
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("// Set" + build.StringToHumpName(field.Name.Name) + " Set " + field.Doc.Text())
+			dst.Code("// Set" + build.StringToHumpName(field.Name.Name) + " Set " + build.DocText(field.Doc, "// "))
 		}
 		dst.Code("func (g *" + build.StringToHumpName(typ.Name.Name) + ") Set" + build.StringToHumpName(field.Name.Name) + "(val ")
 		b.printType(dst, field.Type, false)
diff --git a/pkg/golang/enum.go b/pkg/golang/enum.go
index 2611abc..32bac28 100644
--- a/pkg/golang/enum.go
+++ b/pkg/golang/enum.go
@@ -9,7 +9,7 @@ import (
 func printEnumCode(dst *build.Writer, typ *ast.EnumType) {
 	name := build.StringToHumpName(typ.Name.Name)
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("// " + name + " " + typ.Doc.Text())
+		dst.Code("// " + name + " " + build.DocText(typ.Doc, "// "))
 	}
 	maxLen := 0
 	dst.Code("type " + name + " int\n\n")
@@ -20,7 +20,7 @@ func printEnumCode(dst *build.Writer, typ *ast.EnumType) {
 			maxLen = l
 		}
 		if nil != item.Doc && 0 < len(item.Doc.Text()) {
-			dst.Code("// " + name + itemName + " " + item.Doc.Text())
+			dst.Code("// " + name + itemName + " " + build.DocText(item.Doc, "// "))
 		}
 		dst.Code("const " + name + itemName + " " + name + " = " + item.Id.Value + "\n\n")
 	}
diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index 8c5df35..6921f88 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -25,7 +25,7 @@ func (b *Builder) printServerCode(dst *build.Writer, typ *ast.ServerType) error
 func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	serverName := build.StringToHumpName(typ.Name.Name)
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("// " + build.StringToHumpName(serverName) + " " + typ.Doc.Text())
+		dst.Code("// " + build.StringToHumpName(serverName) + " " + build.DocText(typ.Doc, "// "))
 	}
 	dst.Code("type " + serverName)
 	dst.Code(" interface {\n")
@@ -39,7 +39,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 		}
 		isFast = false
 		if nil != method.Doc && 0 < len(method.Doc.Text()) {
-			dst.Code("\t//" + build.StringToHumpName(method.Name.Name) + " " + method.Doc.Text())
+			dst.Code("\t//" + build.StringToHumpName(method.Name.Name) + " " + build.DocText(method.Doc, "\t// "))
 		}
 		isMethod := method.Result.Type().(*ast.Ident).Name == "void"
 
@@ -63,7 +63,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) error {
 	serverName := build.StringToHumpName(typ.Name.Name)
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("// " + build.StringToHumpName(serverName) + " " + typ.Doc.Text())
+		dst.Code("// " + build.StringToHumpName(serverName) + " " + build.DocText(typ.Doc, "// "))
 	}
 	dst.Code("type Default" + serverName)
 	dst.Code(" struct {\n")
@@ -76,7 +76,7 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 
 	for _, method := range typ.Methods {
 		if nil != method.Doc && 0 < len(method.Doc.Text()) {
-			dst.Code("// " + build.StringToHumpName(method.Name.Name) + " " + method.Doc.Text())
+			dst.Code("// " + build.StringToHumpName(method.Name.Name) + " " + build.DocText(method.Doc, "// "))
 		}
 		isSub := method.Result.Type().(*ast.Ident).Name == "void"
 
@@ -179,7 +179,7 @@ func (b *Builder) printClient(dst *build.Writer, typ *ast.ServerType) {
 	name := build.StringToUnderlineName(typ.Name.Name)
 	err := build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
 		if nil != method.Doc && 0 < len(method.Doc.Text()) {
-			dst.Code("// " + build.StringToHumpName(method.Name.Name) + " " + method.Doc.Text())
+			dst.Code("// " + build.StringToHumpName(method.Name.Name) + " " + build.DocText(method.Doc, "// "))
 		}
 		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/hbuf", "")
 
diff --git a/pkg/java/data.go b/pkg/java/data.go
index 2ca61f9..5ddf849 100644
--- a/pkg/java/data.go
+++ b/pkg/java/data.go
@@ -14,7 +14,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 
 func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Code("///" + build.DocText(typ.Doc, "///"))
 	}
 	dst.Code("\tinterface " + build.StringToHumpName(typ.Name.Name) + " extends Data")
 	if nil != typ.Extends {
@@ -23,7 +23,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	dst.Code(" {\n")
 	for _, field := range typ.Fields.List {
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("\t/// Get " + field.Doc.Text())
+			dst.Code("\t/// Get " + build.DocText(field.Doc, "\t/// "))
 		}
 		isSuper := build.CheckSuperField(field.Name.Name, typ)
 		if isSuper {
@@ -35,7 +35,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 		dst.Code("();\n\n")
 
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("\t/// Set " + field.Doc.Text())
+			dst.Code("\t/// Set " + build.DocText(field.Doc, "\t/// "))
 		}
 		if isSuper {
 			dst.Code("\t@override\n")
diff --git a/pkg/java/enum.go b/pkg/java/enum.go
index 09a1027..3524949 100644
--- a/pkg/java/enum.go
+++ b/pkg/java/enum.go
@@ -16,7 +16,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 		b.getPackage(dst, typ.Name, "ui")
 	}
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Code("///" + build.DocText(typ.Doc, "///"))
 	}
 	dst.Code("\tclass " + enumName)
 	dst.Code("\t{\n")
@@ -61,7 +61,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 
 	for _, item := range typ.Items {
 		if nil != item.Doc && 0 < len(item.Doc.Text()) {
-			dst.Code("///" + item.Doc.Text())
+			dst.Code("///" + build.DocText(item.Doc, "///"))
 		}
 		itemName := build.StringToAllUpper(item.Name.Name)
 		dst.Code("\t\tstatic final " + enumName + " " + itemName + " = new " + enumName + "(" + item.Id.Value + ", \"" + itemName + "\"")
diff --git a/pkg/java/server.go b/pkg/java/server.go
index 38627c8..eadf612 100644
--- a/pkg/java/server.go
+++ b/pkg/java/server.go
@@ -18,7 +18,7 @@ func (b *Builder) printServerCode(dst *build.Writer, typ *ast.ServerType) {
 
 func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Code("///" + build.DocText(typ.Doc, "///"))
 	}
 	dst.Code("\tinterface " + build.StringToHumpName(typ.Name.Name))
 	if nil != typ.Extends {
@@ -28,7 +28,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("{\n")
 	for _, method := range typ.Methods {
 		if nil != method.Doc && 0 < len(method.Doc.Text()) {
-			dst.Code("///" + method.Doc.Text())
+			dst.Code("///" + build.DocText(method.Doc, "///"))
 		}
 		if build.CheckSuperMethod(method.Name.Name, typ) {
 			dst.Code("\t@override\n")
diff --git a/pkg/typescript/data.go b/pkg/typescript/data.go
index 58c91d5..7776400 100644
--- a/pkg/typescript/data.go
+++ b/pkg/typescript/data.go
@@ -13,7 +13,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 
 func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Code("///" + build.DocText(typ.Doc, "///"))
 	}
 	dst.Code("export class " + build.StringToHumpName(typ.Name.Name) + " implements h.Data")
 	if nil != typ.Extends {
@@ -22,7 +22,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	dst.Code(" {\n")
 	err := build.EnumField(typ, func(field *ast.Field, data *ast.DataType) error {
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("\t///" + field.Doc.Text())
+			dst.Code("\t///" + build.DocText(field.Doc, "\t///"))
 		}
 		dst.Code("\t")
 		dst.Code(build.StringToFirstLower(field.Name.Name) + ": ")
diff --git a/pkg/typescript/enum.go b/pkg/typescript/enum.go
index f3134ae..2be1d6f 100644
--- a/pkg/typescript/enum.go
+++ b/pkg/typescript/enum.go
@@ -12,7 +12,7 @@ func (b *Builder) printEnumCode(dst *build.Writer, typ *ast.EnumType) {
 func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 	enumName := build.StringToHumpName(typ.Name.Name)
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Code("///" + build.DocText(typ.Doc, "///"))
 	}
 	dst.Code("export class " + enumName)
 	dst.Code("{\n")
@@ -44,7 +44,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 
 	for _, item := range typ.Items {
 		if nil != item.Doc && 0 < len(item.Doc.Text()) {
-			dst.Code("\t///" + item.Doc.Text())
+			dst.Code("\t///" + build.DocText(item.Doc, "\t///"))
 		}
 		itemName := build.StringToAllUpper(item.Name.Name)
 		dst.Code("\tpublic static readonly " + itemName + " = new " + enumName + "(")
diff --git a/pkg/typescript/server.go b/pkg/typescript/server.go
index d41599b..8d73a06 100644
--- a/pkg/typescript/server.go
+++ b/pkg/typescript/server.go
@@ -16,7 +16,7 @@ func (b *Builder) printServerCode(dst *build.Writer, typ *ast.ServerType) {
 
 func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Code("///" + build.DocText(typ.Doc, "///"))
 	}
 	dst.Code("export interface " + build.StringToHumpName(typ.Name.Name))
 	if nil != typ.Extends {
@@ -26,7 +26,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code(" {\n")
 	for _, method := range typ.Methods {
 		if nil != method.Doc && 0 < len(method.Doc.Text()) {
-			dst.Code("\t//" + method.Doc.Text())
+			dst.Code("\t//" + build.DocText(method.Doc, "\t// "))
 		}
 		isMethod := method.Result.Type().(*ast.Ident).Name == "void"
 
@@ -69,7 +69,7 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 
 	_ = build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
 		if nil != method.Doc && 0 < len(method.Doc.Text()) {
-			dst.Code("\t//" + method.Doc.Text())
+			dst.Code("\t//" + build.DocText(method.Doc, "\t// "))
 		}
 		isMethod := method.Result.Type().(*ast.Ident).Name == "void"
 
-- 
2.43.0


From d74ff10616c2673bd24118b0bbf12c4accb2f8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:57 +0000
Subject: [PATCH 17/23] fix: java: the equals of every enum compared with a
 class Test, and overrides had an unknown annotation

---
 pkg/java/data.go   | 4 ++--
 pkg/java/enum.go   | 6 +++---
 pkg/java/server.go | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/java/data.go b/pkg/java/data.go
index 5ddf849..46d89f0 100644
--- a/pkg/java/data.go
+++ b/pkg/java/data.go
@@ -27,7 +27,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 		}
 		isSuper := build.CheckSuperField(field.Name.Name, typ)
 		if isSuper {
-			dst.Code("\t@override\n")
+			dst.Code("\t@Override\n")
 		}
 		dst.Code("\t\t")
 		b.printType(dst, field.Type, false)
@@ -38,7 +38,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 			dst.Code("\t/// Set " + build.DocText(field.Doc, "\t/// "))
 		}
 		if isSuper {
-			dst.Code("\t@override\n")
+			dst.Code("\t@Override\n")
 		}
 		dst.Code("\t\tvoid set")
 		dst.Code(build.StringToHumpName(field.Name.Name) + "(")
diff --git a/pkg/java/enum.go b/pkg/java/enum.go
index 3524949..2d99006 100644
--- a/pkg/java/enum.go
+++ b/pkg/java/enum.go
@@ -32,7 +32,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 	dst.Code("\t\tpublic boolean equals(Object o) {\n")
 	dst.Code("\t\t\tif (this == o) return true;\n")
 	dst.Code("\t\t\tif (o == null || getClass() != o.getClass()) return false;\n")
-	dst.Code("\t\t\tTest test = (Test) o;\n")
+	dst.Code("\t\t\t" + enumName + " test = (" + enumName + ") o;\n")
 	dst.Code("\t\t\treturn value == test.value;\n")
 	dst.Code("\t\t}\n\n")
 
@@ -47,7 +47,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 	dst.Code("\t\t\t\t\treturn item;\n")
 	dst.Code("\t\t\t\t}\n")
 	dst.Code("\t\t\t}\n")
-	dst.Code("\t\t\tthrow new RuntimeException(\"Get Test by value error, value=\" + value);\n")
+	dst.Code("\t\t\tthrow new RuntimeException(\"Get " + enumName + " by value error, value=\" + value);\n")
 	dst.Code("\t\t}\n\n")
 
 	dst.Code("\t\tpublic static " + enumName + " nameOf(String name) {\n")
@@ -56,7 +56,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 	dst.Code("\t\t\t\t\treturn item;\n")
 	dst.Code("\t\t\t\t}\n")
 	dst.Code("\t\t\t}\n")
-	dst.Code("\t\t\tthrow new RuntimeException(\"Get Test by name error, name=\" + name);\n")
+	dst.Code("\t\t\tthrow new RuntimeException(\"Get " + enumName + " by name error, name=\" + name);\n")
 	dst.Code("\t\t}\n\n")
 
 	for _, item := range typ.Items {
diff --git a/pkg/java/server.go b/pkg/java/server.go
index eadf612..0ee8155 100644
--- a/pkg/java/server.go
+++ b/pkg/java/server.go
@@ -31,7 +31,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 			dst.Code("///" + build.DocText(method.Doc, "///"))
 		}
 		if build.CheckSuperMethod(method.Name.Name, typ) {
-			dst.Code("\t@override\n")
+			dst.Code("\t@Override\n")
 		}
 		dst.Code("\t\tCompletableFuture<")
 		b.printType(dst, method.Result.Type(), false)
-- 
2.43.0


From ba1010ecce622e97a5d3182a503f83d168283f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:23 +0000
Subject: [PATCH 18/23] fix: go: clients and bindings named their parameter
 req, whatever its name in the schema

---
 pkg/golang/server.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index 6921f88..296ebf4 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -121,8 +121,9 @@ func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, bind *bu
 	if err != nil {
 		return err
 	}
+	param := build.StringToFirstLower(method.ParamName.Name)
 	if nil != verify {
-		dst.Code("\tif err := req.Verify(ctx); err != nil {\n")
+		dst.Code("\tif err := " + param + ".Verify(ctx); err != nil {\n")
 		dst.Code("\t\treturn nil, erro.Wrap(err)\n")
 		dst.Code("\t}\n")
 	}
@@ -134,7 +135,7 @@ func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, bind *bu
 	}
 	dst.Code(pack)
 	dst.Code("Get").Code(bind.Server.Name.Name).Code("(ctx).").Code(bind.Method.Name.Name).Code("(ctx, &")
-	dst.Code("req.")
+	dst.Code(param + ".")
 	b.printType(dst, bind.Method.Param.Type(), true)
 	dst.Code(")\n")
 
@@ -205,7 +206,7 @@ func (b *Builder) printClient(dst *build.Writer, typ *ast.ServerType) {
 		} else {
 			dst.Code("\tret")
 		}
-		dst.Code(", err := r.client.Invoke(ctx, req, \"" + name + "/" + build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name) + "\", &rpc.ClientInvoke{\n")
+		dst.Code(", err := r.client.Invoke(ctx, " + build.StringToFirstLower(method.ParamName.Name) + ", \"" + name + "/" + build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name) + "\", &rpc.ClientInvoke{\n")
 		if !isMethod {
 			dst.Code("\t\tToData: func(buf []byte) (hbuf.Data, error) {\n")
 			dst.Code("\t\t\tvar req ")
-- 
2.43.0


From 3f9b8d21081ad8ed6e881a2d7738452457ee4cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:56 +0000
Subject: [PATCH 19/23] fix: dart, typescript: decoders named a type by its raw
 name, the type is declared under its hump name

---
 pkg/dart/data.go       | 8 ++++----
 pkg/dart/ui.go         | 2 +-
 pkg/typescript/data.go | 8 ++++----
 pkg/typescript/ui.go   | 2 +-
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pkg/dart/data.go b/pkg/dart/data.go
index 2328086..c868075 100644
--- a/pkg/dart/data.go
+++ b/pkg/dart/data.go
@@ -408,15 +408,15 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 		if nil != t.Obj {
 			if ast.Enum == t.Obj.Kind {
 				if empty {
-					dst.Code("null == " + name + " ? null :" + v + " is num ? " + t.Name + ".valueOf(" + v + ".toInt()) : null == num.tryParse(" + v + ".toString()) ? null : " + t.Name + ".valueOf(num.tryParse(" + v + ".toString())!.toInt())")
+					dst.Code("null == " + name + " ? null :" + v + " is num ? " + build.StringToHumpName(t.Name) + ".valueOf(" + v + ".toInt()) : null == num.tryParse(" + v + ".toString()) ? null : " + build.StringToHumpName(t.Name) + ".valueOf(num.tryParse(" + v + ".toString())!.toInt())")
 				} else {
-					dst.Code("null == " + name + " ? " + t.Name + ".valueOf(0) : " + t.Name + ".valueOf(" + v + " is num ? " + v + ".toInt() : num.tryParse(" + v + ".toString())?.toInt() ?? 0)")
+					dst.Code("null == " + name + " ? " + build.StringToHumpName(t.Name) + ".valueOf(0) : " + build.StringToHumpName(t.Name) + ".valueOf(" + v + " is num ? " + v + ".toInt() : num.tryParse(" + v + ".toString())?.toInt() ?? 0)")
 				}
 			} else if ast.Data == t.Obj.Kind {
 				if empty {
-					dst.Code("null == " + name + " ? null : " + t.Name + ".fromMap(" + v + ")")
+					dst.Code("null == " + name + " ? null : " + build.StringToHumpName(t.Name) + ".fromMap(" + v + ")")
 				} else {
-					dst.Code("null == " + name + " ? " + t.Name + ".fromMap({}) : " + t.Name + ".fromMap(" + v + ")")
+					dst.Code("null == " + name + " ? " + build.StringToHumpName(t.Name) + ".fromMap({}) : " + build.StringToHumpName(t.Name) + ".fromMap(" + v + ")")
 				}
 			} else {
 				dst.Code("map[\"" + name + "\"]")
diff --git a/pkg/dart/ui.go b/pkg/dart/ui.go
index 87c6ec9..539247f 100644
--- a/pkg/dart/ui.go
+++ b/pkg/dart/ui.go
@@ -402,7 +402,7 @@ func (b *Builder) printFormString(dst *build.Writer, name string, expr ast.Expr,
 	switch expr.(type) {
 	case *ast.EnumType:
 		t := expr.(*ast.EnumType)
-		dst.Code(t.Name.Name + ".nameOf(" + name + "!)")
+		dst.Code(build.StringToHumpName(t.Name.Name) + ".nameOf(" + name + "!)")
 	case *ast.Ident:
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
diff --git a/pkg/typescript/data.go b/pkg/typescript/data.go
index 7776400..9e53b7a 100644
--- a/pkg/typescript/data.go
+++ b/pkg/typescript/data.go
@@ -198,16 +198,16 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 					}
 				} else {
 					if empty {
-						dst.Code("null == " + name + " ? null : " + p + "." + t.Name + ".valueOf(Number(" + v + ").valueOf())")
+						dst.Code("null == " + name + " ? null : " + p + "." + build.StringToHumpName(t.Name) + ".valueOf(Number(" + v + ").valueOf())")
 					} else {
-						dst.Code("null == " + name + " ? " + p + "." + t.Name + ".valueOf(0) : " + p + "." + t.Name + ".valueOf(Number(" + v + ").valueOf())")
+						dst.Code("null == " + name + " ? " + p + "." + build.StringToHumpName(t.Name) + ".valueOf(0) : " + p + "." + build.StringToHumpName(t.Name) + ".valueOf(Number(" + v + ").valueOf())")
 					}
 				}
 			} else if ast.Data == t.Obj.Kind {
 				if empty {
-					dst.Code("null == " + name + " ? null : " + p + "." + t.Name + ".fromJson(" + v + ")")
+					dst.Code("null == " + name + " ? null : " + p + "." + build.StringToHumpName(t.Name) + ".fromJson(" + v + ")")
 				} else {
-					dst.Code("null == " + name + " ? " + p + "." + t.Name + ".fromJson({}) : " + p + "." + t.Name + ".fromJson(" + v + ")")
+					dst.Code("null == " + name + " ? " + p + "." + build.StringToHumpName(t.Name) + ".fromJson({}) : " + p + "." + build.StringToHumpName(t.Name) + ".fromJson(" + v + ")")
 				}
 			} else {
 				dst.Code("map[\"" + name + "\"]")
diff --git a/pkg/typescript/ui.go b/pkg/typescript/ui.go
index 024327a..85ba27d 100644
--- a/pkg/typescript/ui.go
+++ b/pkg/typescript/ui.go
@@ -315,7 +315,7 @@ func (b *Builder) printFormString(dst *build.Writer, name string, expr ast.Expr,
 			dst.Code("(").Code(name).Code(" == null || ").Code(name).Code(".length == 0)").Code(" ? null : ")
 		}
 		p := b.getPackage(dst, t.Name, "")
-		dst.Code("(").Code(p).Code(".").Code(t.Name.Name).Code(".nameOf(").Code(name).Code("))")
+		dst.Code("(").Code(p).Code(".").Code(build.StringToHumpName(t.Name.Name)).Code(".nameOf(").Code(name).Code("))")
 	case *ast.Ident:
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
-- 
2.43.0


From 5a980fbb3da89db366485072e413f05f7b3eb267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:40 +0000
Subject: [PATCH 20/23] fix: go: a binding named the server and the method by
 their raw names

---
 pkg/golang/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index 296ebf4..e24027a 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -134,7 +134,7 @@ func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, bind *bu
 		dst.Code("\terr := ")
 	}
 	dst.Code(pack)
-	dst.Code("Get").Code(bind.Server.Name.Name).Code("(ctx).").Code(bind.Method.Name.Name).Code("(ctx, &")
+	dst.Code("Get").Code(build.StringToHumpName(bind.Server.Name.Name)).Code("(ctx).").Code(build.StringToHumpName(bind.Method.Name.Name)).Code("(ctx, &")
 	dst.Code(param + ".")
 	b.printType(dst, bind.Method.Param.Type(), true)
 	dst.Code(")\n")
-- 
2.43.0


From b6daf656d87586e6e74c8c0b1de0e8034b834e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:25 +0000
Subject: [PATCH 21/23] fix: dart: the values of a map were copied and encoded
 like its keys, with a parenthesis missing

---
 pkg/dart/data.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/dart/data.go b/pkg/dart/data.go
index c868075..8e5c1bf 100644
--- a/pkg/dart/data.go
+++ b/pkg/dart/data.go
@@ -386,13 +386,13 @@ func (b *Builder) printCopy(dst *build.Writer, name string, expr ast.Expr, data
 			dst.Code(name + "?.map((key,value) => MapEntry(")
 			b.printCopy(dst, "key", t.Key, data, empty)
 			dst.Code(",")
-			b.printCopy(dst, "value", t.Key, data, empty)
-			dst.Code(")")
+			b.printCopy(dst, "value", t.VType, data, empty)
+			dst.Code("))")
 		} else {
 			dst.Code(name + ".map((key,value) => MapEntry(")
 			b.printCopy(dst, "key", t.Key, data, empty)
 			dst.Code(",")
-			b.printCopy(dst, "value", t.Key, data, empty)
+			b.printCopy(dst, "value", t.VType, data, empty)
 			dst.Code("))")
 		}
 	case *ast.VarType:
@@ -581,13 +581,13 @@ func (b *Builder) printToMap(dst *build.Writer, name string, expr ast.Expr, data
 			dst.Code(name + "?.map((key,value) => MapEntry(")
 			b.printToMap(dst, "key", t.Key, data, empty)
 			dst.Code(",")
-			b.printToMap(dst, "value", t.Key, data, empty)
-			dst.Code(")")
+			b.printToMap(dst, "value", t.VType, data, empty)
+			dst.Code("))")
 		} else {
 			dst.Code(name + ".map((key,value) => MapEntry(")
 			b.printToMap(dst, "key", t.Key, data, empty)
 			dst.Code(",")
-			b.printToMap(dst, "value", t.Key, data, empty)
+			b.printToMap(dst, "value", t.VType, data, empty)
 			dst.Code("))")
 		}
 	case *ast.VarType:
-- 
2.43.0


From b91570b84bd86ec4df0713070c63ffd1d4b60b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:34 +0000
Subject: [PATCH 22/23] fix: java: the type of every file was called UserData,
 UserServer or UserEnum, not after the file

---
 pkg/java/java.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/java/java.go b/pkg/java/java.go
index 86eb534..0570672 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -185,9 +185,11 @@ func (b *Builder) Node(dst *JavaWriter, fset *token.FileSet, node interface{}) e
 	dst.SetPath(file)
 	dst.SetPackages(val.Value.Value[1 : len(val.Value.Value)-1])
 
-	dst.data.Code("public interface UserData {\n")
-	dst.server.Code("public interface UserServer {\n")
-	dst.enum.Code("public interface UserEnum {\n")
+	_, name := filepath.Split(file.Path)
+	name = build.StringToHumpName(name[:len(name)-len(".hbuf")])
+	dst.data.Code("public interface " + name + "Data {\n")
+	dst.server.Code("public interface " + name + "Server {\n")
+	dst.enum.Code("public interface " + name + "Enum {\n")
 	for _, s := range file.Specs {
 		switch s.(type) {
 		case *ast.ImportSpec:
-- 
2.43.0


From 5dcd4c67c9c5f68eb4b4474d29021b2ecd5241a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:13 +0000
Subject: [PATCH 23/23] fix: java: a type of another package was imported from
 the package of the file that uses it

---
 pkg/java/java.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/java/java.go b/pkg/java/java.go
index 0570672..b62a0b8 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -271,7 +271,11 @@ func (b *Builder) getPackage(dst *build.Writer, expr ast.Expr, s string) string
 	}
 
 	_, name := filepath.Split(file.(*ast.File).Path)
-	name = dst.Packages + "." + build.StringToHumpName(name[:len(name)-len(".hbuf")])
+	pack := dst.Packages
+	if val, ok := (file.(*ast.File)).Packages["java"]; ok {
+		pack = val.Value.Value[1 : len(val.Value.Value)-1]
+	}
+	name = pack + "." + build.StringToHumpName(name[:len(name)-len(".hbuf")])
 	if 0 < len(s) {
 		name = name + "." + s + ".dart"
 	} else {
-- 
2.43.0

