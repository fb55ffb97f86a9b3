# ---- the writer the generators fill, and the spelling of types in every language

pred WriterOK(w *build.Writer) = w != nil && w.code != nil && w.imp != nil && allocated(w.code) && allocated(w.imp)

func build.(*Writer).Code(w, text) (r)
verify C11 C12
requires w != nil && w.code != nil
modifies w.code.$text
ensures r == w && w.code.$text == old(w.code.$text) + text

func build.(*Writer).Import(w, text, s) (r)
verify C11 C12
requires w != nil && w.imp != nil
modifies mapof(w.imp)
ensures text in w.imp && r == w.imp[text]
ensures old(text in w.imp) ==> r == old(w.imp[text])
ensures !old(text in w.imp) ==> r == s
ensures forall k string :: k != text ==> (k in w.imp <==> old(k in w.imp)) && w.imp[k] == old(w.imp[k])

func build.(*Writer).GetImports(w) (r)
verify C11
requires w != nil
ensures r == w.imp

# what the checker leaves (C04, C06, C07): a reference is a name, bound or built-in
pred PackOK(f *ast.File, lang string) = lang in f.Packages ==> f.Packages[lang] != nil && f.Packages[lang].Value != nil && len(f.Packages[lang].Value.Value) >= 2
pred RefFile(id *ast.Ident) *ast.File = as(id.Obj.Data, *ast.File)
pred RefOK(id *ast.Ident) = id != nil && (id.Obj != nil && is(id.Obj.Data, *ast.File) ==> RefFile(id) != nil && PackOK(RefFile(id), "go") && PackOK(RefFile(id), "java") && suffix(RefFile(id).Path, ".hbuf"))
pred IdentOf(v *ast.VarType) *ast.Ident = as(v.TypeExpr, *ast.Ident)
pred VarOK(v *ast.VarType) = v != nil && is(v.TypeExpr, *ast.Ident) && RefOK(IdentOf(v))
pred KeyVar(m *ast.MapType) *ast.VarType = as(m.Key, *ast.VarType)
pred SpeltOK(t ast.Expr) = is(t, *ast.Ident) && RefOK(as(t, *ast.Ident)) || is(t, *ast.VarType) && VarOK(as(t, *ast.VarType))
 || is(t, *ast.ArrayType) && as(t, *ast.ArrayType) != nil && VarOK(as(t, *ast.ArrayType).VType)
 || is(t, *ast.MapType) && as(t, *ast.MapType) != nil && VarOK(as(t, *ast.MapType).VType) && is(as(t, *ast.MapType).Key, *ast.VarType) && VarOK(KeyVar(as(t, *ast.MapType)))
pred TypeRank(t ast.Expr) int = if is(t, *ast.Ident) then 0 else if is(t, *ast.VarType) then 1 else 2

# ---- Go
pred GoBase(n string) string = if n == "int64" then "hbuf.Int64" else if n == "uint64" then "hbuf.Uint64" else if n == "float" then "float32" else if n == "double" then "float64" else if n == "date" then "hbuf.Time" else if n == "decimal" then "decimal.Decimal" else if n == "int8" || n == "int16" || n == "int32" || n == "uint8" || n == "uint16" || n == "uint32" || n == "bool" || n == "string" then n else ""
pred GoNeeds(n string) string = if n == "int64" || n == "uint64" || n == "date" then "github.com/wskfjtheqian/hbuf_golang/pkg/hbuf" else if n == "decimal" then "github.com/shopspring/decimal" else ""
# the package of a file, and the last part of its name
pred GoPack(f *ast.File) string = if "go" in f.Packages then Unq(f.Packages["go"].Value.Value) else ""
pred LastPart(s string) string = Part(s, ".", Parts(s, ".") - 1)
pred GoOther(pk string, id *ast.Ident) = is(id.Obj.Data, *ast.File) && GoPack(RefFile(id)) != "" && GoPack(RefFile(id)) != pk
pred GoPrefix(pk string, id *ast.Ident) string = if GoOther(pk, id) then LastPart(GoPack(RefFile(id))) + "." else ""
pred GoIdent(pk string, id *ast.Ident) string = if id.Obj != nil then GoPrefix(pk, id) + Hump(id.Name) else GoBase(id.Name)
pred GoVar(pk string, v *ast.VarType, opt bool) string = (if opt && v.Empty then "*" else "") + GoIdent(pk, IdentOf(v))
pred GoText(pk string, t ast.Expr, opt bool) string = if is(t, *ast.Ident) then GoIdent(pk, as(t, *ast.Ident)) else if is(t, *ast.VarType) then GoVar(pk, as(t, *ast.VarType), opt)
  else if is(t, *ast.ArrayType) then "[]" + GoVar(pk, as(t, *ast.ArrayType).VType, true)
  else "map[" + GoVar(pk, KeyVar(as(t, *ast.MapType)), true) + "]" + GoVar(pk, as(t, *ast.MapType).VType, true)
# what the spelling mentions is imported
pred GoImported(b *golang.Builder, w *build.Writer, id *ast.Ident) = if id.Obj != nil then (GoOther(w.Packages, id) ==> (b.packages + LastPart(GoPack(RefFile(id)))) in w.imp) else (GoNeeds(id.Name) != "" ==> GoNeeds(id.Name) in w.imp)
pred GoAllIn(b *golang.Builder, w *build.Writer, t ast.Expr) = if is(t, *ast.Ident) then GoImported(b, w, as(t, *ast.Ident)) else if is(t, *ast.VarType) then GoImported(b, w, IdentOf(as(t, *ast.VarType)))
  else if is(t, *ast.ArrayType) then GoImported(b, w, IdentOf(as(t, *ast.ArrayType).VType))
  else GoImported(b, w, IdentOf(KeyVar(as(t, *ast.MapType)))) && GoImported(b, w, IdentOf(as(t, *ast.MapType).VType))
pred Kept(w *build.Writer) = forall k string :: old(k in w.imp) ==> k in w.imp

func golang.(*Builder).getPackage(b, dst, expr) (r)
verify C11
requires b != nil && WriterOK(dst) && is(expr, *ast.Ident) && RefOK(as(expr, *ast.Ident)) && as(expr, *ast.Ident).Obj != nil
modifies mapof(dst.imp)
ensures r == GoPrefix(dst.Packages, as(expr, *ast.Ident))
ensures GoImported(b, dst, as(expr, *ast.Ident)) && Kept(dst)

func golang.(*Builder).printType(b, dst, expr, b2)
verify C11
requires b != nil && WriterOK(dst) && SpeltOK(expr)
modifies dst.code.$text, mapof(dst.imp)
decreases TypeRank(expr)
ensures dst.code.$text == old(dst.code.$text) + GoText(dst.Packages, expr, b2)
ensures GoAllIn(b, dst, expr) && Kept(dst)

func golang.(*Builder).printDefault(b, dst, expr)
verify C11
requires b != nil && WriterOK(dst) && SpeltOK(expr)
modifies dst.code.$text, mapof(dst.imp)
decreases TypeRank(expr)
ensures dst.code.$text == old(dst.code.$text) + GoZero(dst.Packages, expr)
ensures GoAllIn(b, dst, expr) && Kept(dst)
pred GoBaseZero(n string) string = if n == "int64" then "hbuf.Int64(0)" else if n == "uint64" then "hbuf.Uint64(0)" else if n == "date" then "hbuf.Time{}" else if n == "decimal" then "decimal.Zero" else if n == "bool" then "false" else if n == "string" then "\"\"" else if n == "float" then "float32(0)" else if n == "double" then "float64(0)" else if n == "int8" then "int8(0)" else if n == "int16" then "int16(0)" else if n == "int32" then "int32(0)" else if n == "uint8" then "uint8(0)" else if n == "uint16" then "uint16(0)" else if n == "uint32" then "uint32(0)" else ""
pred GoIdentZero(pk string, id *ast.Ident) string = if id.Obj != nil then GoPrefix(pk, id) + Hump(id.Name) + (if id.Obj.Kind == ast.Enum then "(0)" else "{}") else GoBaseZero(id.Name)
pred GoZero(pk string, t ast.Expr) string = if is(t, *ast.Ident) then GoIdentZero(pk, as(t, *ast.Ident)) else if is(t, *ast.VarType) then GoIdentZero(pk, IdentOf(as(t, *ast.VarType))) else GoText(pk, t, true) + "{}"

# ---- the file a declaration is written to
ufun Base(string) string
extern filepath.Split(p) (dir, file)
ensures file == Base(p)
ensures suffix(p, ".hbuf") ==> suffix(file, ".hbuf") && len(file) >= 5
extern strconv.Itoa(n) (r)
ensures r == IntText(n)
ufun IntText(int) string
pred Stem(id *ast.Ident) string = Base(RefFile(id).Path)[0:len(Base(RefFile(id).Path)) - 5]
pred KindText(id *ast.Ident, d string, e string, s string) string = if id.Obj.Kind == ast.Data then d else if id.Obj.Kind == ast.Enum then e else if id.Obj.Kind == ast.Server then s else ""
pred Bound(id *ast.Ident) = id.Obj != nil && is(id.Obj.Data, *ast.File)

# ---- Dart
pred DartBase(n string) string = if n == "int8" || n == "int16" || n == "int32" || n == "uint8" || n == "uint16" || n == "uint32" then "int" else if n == "int64" || n == "uint64" then "Int64" else if n == "bool" then "bool" else if n == "float" || n == "double" then "double" else if n == "string" then "String" else if n == "date" then "DateTime" else if n == "decimal" then "Decimal" else ""
pred DartNeeds(n string) string = if n == "int64" || n == "uint64" then "package:fixnum/fixnum.dart" else if n == "decimal" then "package:decimal/decimal.dart" else ""
pred DartImport(id *ast.Ident) string = Stem(id) + KindText(id, ".data.dart", ".enum.dart", ".server.dart")
pred DartIdent(id *ast.Ident) string = if id.Obj != nil then Hump(id.Name) else DartBase(id.Name)
pred Mark(c bool, s string) string = if c then s else ""
pred DartVar(v *ast.VarType, must bool) string = DartIdent(IdentOf(v)) + Mark(v.Empty && !must, "?")
pred DartText(t ast.Expr, must bool) string = if is(t, *ast.Ident) then DartIdent(as(t, *ast.Ident)) else if is(t, *ast.VarType) then DartVar(as(t, *ast.VarType), must)
  else if is(t, *ast.ArrayType) then "List<" + DartVar(as(t, *ast.ArrayType).VType, false) + ">" + Mark(as(t, *ast.ArrayType).Empty && !must, "?")
  else "Map<" + DartVar(KeyVar(as(t, *ast.MapType)), false) + ", " + DartVar(as(t, *ast.MapType).VType, false) + ">" + Mark(as(t, *ast.MapType).Empty && !must, "?")
pred DartImported(w *build.Writer, id *ast.Ident) = if id.Obj != nil then (Bound(id) ==> DartImport(id) in w.imp) else (DartNeeds(id.Name) != "" ==> DartNeeds(id.Name) in w.imp)
pred DartAllIn(w *build.Writer, t ast.Expr) = if is(t, *ast.Ident) then DartImported(w, as(t, *ast.Ident)) else if is(t, *ast.VarType) then DartImported(w, IdentOf(as(t, *ast.VarType)))
  else if is(t, *ast.ArrayType) then DartImported(w, IdentOf(as(t, *ast.ArrayType).VType))
  else DartImported(w, IdentOf(KeyVar(as(t, *ast.MapType)))) && DartImported(w, IdentOf(as(t, *ast.MapType).VType))

func dart.(*Builder).getPackage(b, dst, expr, s) (r)
verify C11
requires b != nil && WriterOK(dst) && is(expr, *ast.Ident) && RefOK(as(expr, *ast.Ident)) && as(expr, *ast.Ident).Obj != nil
modifies mapof(dst.imp)
ensures r == "" && Kept(dst)
ensures s == "" ==> DartImported(dst, as(expr, *ast.Ident))
ensures s != "" && Bound(as(expr, *ast.Ident)) ==> (Stem(as(expr, *ast.Ident)) + "." + s + ".dart") in dst.imp

func dart.(*Builder).printType(b, dst, expr, notEmpty)
verify C11
requires b != nil && WriterOK(dst) && SpeltOK(expr)
modifies dst.code.$text, mapof(dst.imp)
decreases TypeRank(expr)
ensures dst.code.$text == old(dst.code.$text) + DartText(expr, notEmpty)
ensures DartAllIn(dst, expr) && Kept(dst)

# ---- Java
pred JavaPlain(n string) string = if n == "int8" then "byte" else if n == "int16" then "short" else if n == "int32" || n == "uint16" then "int" else if n == "int64" || n == "uint32" then "long" else if n == "uint8" then "char" else if n == "bool" then "boolean" else if n == "float" || n == "double" then n else JavaBox(n)
pred JavaBox(n string) string = if n == "int8" then "Byte" else if n == "int16" then "Short" else if n == "int32" || n == "uint16" then "Integer" else if n == "int64" || n == "uint32" then "Long" else if n == "uint8" then "Character" else if n == "uint64" then "BigInteger" else if n == "bool" then "Boolean" else if n == "float" then "Float" else if n == "double" then "Double" else if n == "string" then "String" else if n == "date" then "Date" else if n == "decimal" then "BigDecimal" else ""
pred JavaNeeds(n string) string = if n == "uint64" then "java.math.BigInteger" else if n == "decimal" then "java.math.BigDecimal" else if n == "date" then "java.util.Date" else ""
pred JavaPack(pk string, f *ast.File) string = if "java" in f.Packages then Unq(f.Packages["java"].Value.Value) else pk
pred JavaImport(pk string, id *ast.Ident) string = JavaPack(pk, RefFile(id)) + "." + Hump(Stem(id)) + KindText(id, "Data.*", "Enum.*", "Server.*")
pred JavaIdent(id *ast.Ident, plain bool) string = if id.Obj != nil then Hump(id.Name) else if plain then JavaPlain(id.Name) else JavaBox(id.Name)
pred JavaVar(v *ast.VarType, plain bool) string = JavaIdent(IdentOf(v), plain && !v.Empty)
pred JavaText(t ast.Expr, plain bool) string = if is(t, *ast.Ident) then JavaIdent(as(t, *ast.Ident), plain) else if is(t, *ast.VarType) then JavaVar(as(t, *ast.VarType), plain)
  else if is(t, *ast.ArrayType) then "List<" + JavaVar(as(t, *ast.ArrayType).VType, false) + ">"
  else "Map<" + JavaVar(KeyVar(as(t, *ast.MapType)), false) + ", " + JavaVar(as(t, *ast.MapType).VType, false) + ">"
pred JavaImported(w *build.Writer, id *ast.Ident) = if id.Obj != nil then (Bound(id) ==> JavaImport(w.Packages, id) in w.imp) else (JavaNeeds(id.Name) != "" ==> JavaNeeds(id.Name) in w.imp)
pred JavaAllIn(w *build.Writer, t ast.Expr) = if is(t, *ast.Ident) then JavaImported(w, as(t, *ast.Ident)) else if is(t, *ast.VarType) then JavaImported(w, IdentOf(as(t, *ast.VarType)))
  else if is(t, *ast.ArrayType) then JavaImported(w, IdentOf(as(t, *ast.ArrayType).VType)) && "java.util.List" in w.imp
  else JavaImported(w, IdentOf(KeyVar(as(t, *ast.MapType)))) && JavaImported(w, IdentOf(as(t, *ast.MapType).VType)) && "java.util.Map" in w.imp

func java.(*Builder).getPackage(b, dst, expr, s) (r)
verify C11
requires b != nil && WriterOK(dst) && is(expr, *ast.Ident) && RefOK(as(expr, *ast.Ident)) && as(expr, *ast.Ident).Obj != nil
modifies mapof(dst.imp)
ensures r == "" && Kept(dst)
ensures s == "" ==> JavaImported(dst, as(expr, *ast.Ident))

func java.(*Builder).printType(b, dst, expr, notEmpty)
verify C11
requires b != nil && WriterOK(dst) && SpeltOK(expr)
modifies dst.code.$text, mapof(dst.imp)
decreases TypeRank(expr)
ensures dst.code.$text == old(dst.code.$text) + JavaText(expr, notEmpty)
ensures JavaAllIn(dst, expr) && Kept(dst)

# ---- TypeScript: a module is imported under an alias, and its types are named through it
pred TsBase(n string) string = if n == "int8" || n == "int16" || n == "int32" || n == "uint8" || n == "uint16" || n == "uint32" || n == "float" || n == "double" then "number" else if n == "int64" || n == "uint64" then "Long" else if n == "bool" then "boolean" else if n == "string" then "string" else if n == "date" then "Date" else if n == "decimal" then "d.Decimal" else ""
pred TsKeyBase(n string) string = if n == "int64" || n == "uint64" || n == "decimal" then "string" else if n == "date" then "number" else TsBase(n)
pred TsNeeds(n string) string = if n == "int64" || n == "uint64" then "long" else if n == "decimal" then "decimal.js" else ""
pred TsModule(id *ast.Ident) string = "./" + Stem(id) + KindText(id, ".data", ".enum", ".server")
pred TsAliases(w *build.Writer) = forall k string :: k in w.imp && prefix(k, "./") ==> len(w.imp[k]) >= 6 && prefix(w.imp[k], "* as $")
pred TsAlias(w *build.Writer, id *ast.Ident) string = w.imp[TsModule(id)][5:]
pred TsIdent(w *build.Writer, id *ast.Ident, key bool) string = if id.Obj != nil then (if key then "number" else TsAlias(w, id) + "." + Hump(id.Name)) else if key then TsKeyBase(id.Name) else TsBase(id.Name)
pred TsVar(w *build.Writer, v *ast.VarType, must bool, key bool) string = TsIdent(w, IdentOf(v), key) + Mark(v.Empty && !must, " | null")
pred TsText(w *build.Writer, t ast.Expr, must bool, key bool) string = if is(t, *ast.Ident) then TsIdent(w, as(t, *ast.Ident), key) else if is(t, *ast.VarType) then TsVar(w, as(t, *ast.VarType), must, key)
  else if is(t, *ast.ArrayType) then "(" + TsVar(w, as(t, *ast.ArrayType).VType, false, false) + ")[]" + Mark(as(t, *ast.ArrayType).Empty && !must, " | null")
  else "Record<(" + TsVar(w, KeyVar(as(t, *ast.MapType)), false, true) + "), (" + TsVar(w, as(t, *ast.MapType).VType, false, false) + ")>" + Mark(as(t, *ast.MapType).Empty && !must, " | null")
pred TsImported(w *build.Writer, id *ast.Ident) = if id.Obj != nil then TsModule(id) in w.imp else (TsNeeds(id.Name) != "" ==> TsNeeds(id.Name) in w.imp)
pred TsAllIn(w *build.Writer, t ast.Expr) = if is(t, *ast.Ident) then TsImported(w, as(t, *ast.Ident)) else if is(t, *ast.VarType) then TsImported(w, IdentOf(as(t, *ast.VarType)))
  else if is(t, *ast.ArrayType) then TsImported(w, IdentOf(as(t, *ast.ArrayType).VType))
  else TsImported(w, IdentOf(as(t, *ast.MapType).VType))
pred KeptVal(w *build.Writer) = forall k string :: old(k in w.imp) ==> k in w.imp && w.imp[k] == old(w.imp[k])
pred RefBound(t ast.Expr) = if is(t, *ast.Ident) then AllBound(as(t, *ast.Ident)) else if is(t, *ast.VarType) then AllBound(IdentOf(as(t, *ast.VarType))) else if is(t, *ast.ArrayType) then AllBound(IdentOf(as(t, *ast.ArrayType).VType)) else AllBound(IdentOf(KeyVar(as(t, *ast.MapType)))) && AllBound(IdentOf(as(t, *ast.MapType).VType))
pred AllBound(id *ast.Ident) = id.Obj != nil ==> is(id.Obj.Data, *ast.File)

func typescript.(*Builder).getPackage(b, dst, expr, s) (r)
verify C11
requires b != nil && WriterOK(dst) && TsAliases(dst) && is(expr, *ast.Ident) && RefOK(as(expr, *ast.Ident)) && Bound(as(expr, *ast.Ident)) && s == ""
modifies mapof(dst.imp)
ensures r == TsAlias(dst, as(expr, *ast.Ident)) && TsImported(dst, as(expr, *ast.Ident))
ensures TsAliases(dst) && KeptVal(dst)

func typescript.(*Builder).printType(b, dst, expr, notEmpty, isRecordKey)
verify C11
requires b != nil && WriterOK(dst) && TsAliases(dst) && SpeltOK(expr) && RefBound(expr)
modifies dst.code.$text, mapof(dst.imp)
decreases TypeRank(expr)
ensures dst.code.$text == old(dst.code.$text) + TsText(dst, expr, notEmpty, isRecordKey)
ensures !isRecordKey ==> TsAllIn(dst, expr)
ensures TsAliases(dst) && KeptVal(dst)

pred TsBaseZero(n string) string = if n == "int8" || n == "int16" || n == "int32" || n == "uint8" || n == "uint16" || n == "uint32" then "0" else if n == "int64" || n == "uint64" then "Long.ZERO" else if n == "bool" then "false" else if n == "float" || n == "double" then "0.0" else if n == "string" then "\"\"" else if n == "date" then "new Date()" else if n == "decimal" then "new d.Decimal(0)" else ""
pred TsIdentZero(w *build.Writer, id *ast.Ident) string = if id.Obj != nil then (if id.Obj.Kind == ast.Enum then TsAlias(w, id) + "." + Hump(id.Name) + ".valueOf(0)" else "new " + TsAlias(w, id) + "." + Hump(id.Name) + "()") else TsBaseZero(id.Name)
pred TsZero(w *build.Writer, t ast.Expr, must bool) string = if is(t, *ast.Ident) then TsIdentZero(w, as(t, *ast.Ident)) else if is(t, *ast.VarType) then (if as(t, *ast.VarType).Empty && !must then "null" else TsIdentZero(w, IdentOf(as(t, *ast.VarType))))
  else if is(t, *ast.ArrayType) then (if as(t, *ast.ArrayType).Empty && !must then "null" else "[]")
  else if as(t, *ast.MapType).Empty && !must then "null" else "{}"
pred TsZeroImported(w *build.Writer, t ast.Expr, must bool) = (is(t, *ast.Ident) ==> TsImported(w, as(t, *ast.Ident))) && (is(t, *ast.VarType) && !(as(t, *ast.VarType).Empty && !must) ==> TsImported(w, IdentOf(as(t, *ast.VarType))))

func typescript.(*Builder).printDefault(b, dst, expr, notEmpty) (r)
verify C11
requires b != nil && WriterOK(dst) && TsAliases(dst) && SpeltOK(expr) && RefBound(expr)
modifies dst.code.$text, mapof(dst.imp)
decreases TypeRank(expr)
ensures dst.code.$text == old(dst.code.$text) + TsZero(dst, expr, notEmpty)
ensures TsZeroImported(dst, expr, notEmpty)
ensures TsAliases(dst) && KeptVal(dst)
