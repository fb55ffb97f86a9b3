# ---- enumerations: every item with its number, in every language

# the text of a comment is a function of the comment (assumed), a mark is put before every line of it (proved)
ufun CommentText(*ast.CommentGroup) string
ufun Replaced(string, string, string) string
ufun Trimmed(string, string) string
extern strings.ReplaceAll(s, a, b) (r)
ensures r == Replaced(s, a, b)
extern strings.TrimSuffix(s, a) (r)
ensures r == Trimmed(s, a)

func ast.(*CommentGroup).Text(g) (r)
trusted
ensures r == CommentText(g)

pred DocOf(g *ast.CommentGroup, mark string) string = Replaced(Trimmed(CommentText(g), "\n"), "\n", "\n" + mark) + "\n"
func build.DocText(doc, mark) (r)
verify C12 C13 C14
ensures r == DocOf(doc, mark)

pred ItemSet(i *ast.EnumItem) = i != nil && i.Name != nil && i.Id != nil
pred EnumSet(e *ast.EnumType) = e != nil && e.Name != nil && forall i int :: 0 <= i < len(e.Items) ==> ItemSet(e.Items[i])
pred EnumName(e *ast.EnumType) string = Hump(e.Name.Name)
pred ItemName(e *ast.EnumType, i int) string = Hump(e.Items[i].Name.Name)
pred ItemUpper(e *ast.EnumType, i int) string = AllUpper(e.Items[i].Name.Name)
pred HasDoc(g *ast.CommentGroup) = g != nil && 0 < len(CommentText(g))
pred LineDoc(g *ast.CommentGroup, lead string, mark string) string = if HasDoc(g) then lead + DocOf(g, mark) else ""

rec MaxItem(e *ast.EnumType, n int) int = if n <= 0 then 0 else if len(ItemName(e, n - 1)) > MaxItem(e, n - 1) then len(ItemName(e, n - 1)) else MaxItem(e, n - 1)
rec Blanks(n int) string = if n <= 0 then "" else Blanks(n - 1) + " "

# ---- Go: a constant per item, and the tables from number to name and from name to number
rec GoConsts(e *ast.EnumType, n int) string = if n <= 0 then "" else GoConsts(e, n - 1) + LineDoc(e.Items[n - 1].Doc, "// " + EnumName(e) + ItemName(e, n - 1) + " ", "// ") + "const " + EnumName(e) + ItemName(e, n - 1) + " " + EnumName(e) + " = " + e.Items[n - 1].Id.Value + "\n\n"
rec GoNames(e *ast.EnumType, n int, sp string, m int) string = if n <= 0 then "" else GoNames(e, n - 1, sp, m) + "\t" + EnumName(e) + ItemName(e, n - 1) + ": " + sp[0:m - len(ItemName(e, n - 1))] + "\"" + ItemName(e, n - 1) + "\",\n"
rec GoValues(e *ast.EnumType, n int, sp string, m int) string = if n <= 0 then "" else GoValues(e, n - 1, sp, m) + "\t\"" + ItemName(e, n - 1) + "\": " + sp[0:m - len(ItemName(e, n - 1))] + EnumName(e) + ItemName(e, n - 1) + ",\n"

func golang.printEnumCode(dst, typ)
verify C12
requires WriterOK(dst) && EnumSet(typ)
modifies dst.code.$text
ensures prefix(dst.code.$text, old(dst.code.$text))
ensures contains(dst.code.$text, "type " + EnumName(typ) + " int\n")
ensures contains(dst.code.$text, GoConsts(typ, len(typ.Items)))
ensures contains(dst.code.$text, "Map = map[" + EnumName(typ) + "]string{\n" + GoNames(typ, len(typ.Items), Blanks(MaxItem(typ, len(typ.Items))), MaxItem(typ, len(typ.Items))) + "}\n")
ensures contains(dst.code.$text, "Values = map[string]" + EnumName(typ) + "{\n" + GoValues(typ, len(typ.Items), Blanks(MaxItem(typ, len(typ.Items))), MaxItem(typ, len(typ.Items))) + "}\n")
invariant [$m intval, $n count]: $m == MaxItem(typ, $n)
invariant [$m intval, $n count]: forall i int :: 0 <= i < $n ==> len(ItemName(typ, i)) <= $m
invariant [$n count]: dst.code.$text == entry(dst.code.$text) + GoConsts(typ, $n)
invariant [$b *strings.Builder, $n intval]: dst.code.$text == entry(dst.code.$text)
invariant [$b *strings.Builder, $n intval]: $b.$text == Blanks($n) && len($b.$text) == $n
invariant [$n count]: dst.code.$text == entry(dst.code.$text) + GoNames(typ, $n, Blanks(MaxItem(typ, len(typ.Items))), MaxItem(typ, len(typ.Items)))
invariant [$n count]: dst.code.$text == entry(dst.code.$text) + GoValues(typ, $n, Blanks(MaxItem(typ, len(typ.Items))), MaxItem(typ, len(typ.Items)))

# ---- TypeScript
rec TsItems(e *ast.EnumType, n int) string = if n <= 0 then "" else TsItems(e, n - 1) + LineDoc(e.Items[n - 1].Doc, "\t///", "\t///") + "\tpublic static readonly " + ItemUpper(e, n - 1) + " = new " + EnumName(e) + "(" + e.Items[n - 1].Id.Value + ", \"" + ItemName(e, n - 1) + "\");\n\n"
rec TsList(e *ast.EnumType, n int) string = if n <= 0 then "" else TsList(e, n - 1) + "\t\t" + EnumName(e) + "." + ItemUpper(e, n - 1) + ",\n"
func typescript.(*Builder).printEnum(b, dst, typ)
verify C12
requires b != nil && WriterOK(dst) && EnumSet(typ)
modifies dst.code.$text
ensures prefix(dst.code.$text, old(dst.code.$text))
ensures contains(dst.code.$text, "export class " + EnumName(typ) + "{\n")
ensures contains(dst.code.$text, TsItems(typ, len(typ.Items)))
ensures contains(dst.code.$text, "values: " + EnumName(typ) + "[] = [\n" + TsList(typ, len(typ.Items)) + "\t];\n")
invariant [$n count]: dst.code.$text == entry(dst.code.$text) + TsItems(typ, $n)
invariant [$n count]: dst.code.$text == entry(dst.code.$text) + TsList(typ, $n)

# ---- Dart: with the annotation "ui" an item has a text for the user, too
pred Ui(e *ast.EnumType) = !NoTag(e.Tags, "ui")
rec DartItems(e *ast.EnumType, n int, ui bool) string = if n <= 0 then "" else DartItems(e, n - 1, ui) + LineDoc(e.Items[n - 1].Doc, "\t///", "\t///") + "\tstatic final " + ItemUpper(e, n - 1) + " = " + EnumName(e) + "._(" + e.Items[n - 1].Id.Value + ", '" + ItemName(e, n - 1) + "'" + (if ui then ", (context) => " + EnumName(e) + "Localizations.of(context)." + ItemUpper(e, n - 1) else "") + ");\n\n"
rec DartList(e *ast.EnumType, n int) string = if n <= 0 then "" else DartList(e, n - 1) + "\t\t" + ItemUpper(e, n - 1) + ",\n"
func dart.(*Builder).printEnum(b, dst, typ)
verify C12
requires b != nil && WriterOK(dst) && EnumSet(typ) && TagNames(typ.Tags) && RefOK(typ.Name) && typ.Name.Obj != nil
modifies dst.code.$text, mapof(dst.imp)
ensures prefix(dst.code.$text, old(dst.code.$text))
ensures contains(dst.code.$text, "class " + EnumName(typ) + "{\n")
ensures contains(dst.code.$text, DartItems(typ, len(typ.Items), Ui(typ)))
ensures contains(dst.code.$text, "List<" + EnumName(typ) + "> values = [\n" + DartList(typ, len(typ.Items)) + "\t];\n")
invariant [$n count]: dst.code.$text == entry(dst.code.$text) + DartItems(typ, $n, Ui(typ))
invariant [$n count]: dst.code.$text == entry(dst.code.$text) + DartList(typ, $n)

# ---- Java
rec JavaItems(e *ast.EnumType, n int, ui bool) string = if n <= 0 then "" else JavaItems(e, n - 1, ui) + LineDoc(e.Items[n - 1].Doc, "///", "///") + "\t\tstatic final " + EnumName(e) + " " + ItemUpper(e, n - 1) + " = new " + EnumName(e) + "(" + e.Items[n - 1].Id.Value + ", \"" + ItemUpper(e, n - 1) + "\"" + (if ui then ", (context) => " + EnumName(e) + "Localizations.of(context)." + ItemUpper(e, n - 1) else "") + ");\n"
rec JavaList(e *ast.EnumType, n int) string = if n <= 0 then "" else JavaList(e, n - 1) + "\t\t\t" + ItemUpper(e, n - 1) + ",\n"
func java.(*Builder).printEnum(b, dst, typ)
verify C12
requires b != nil && WriterOK(dst) && EnumSet(typ) && TagNames(typ.Tags) && RefOK(typ.Name) && typ.Name.Obj != nil
modifies dst.code.$text, mapof(dst.imp)
ensures prefix(dst.code.$text, old(dst.code.$text))
ensures contains(dst.code.$text, "class " + EnumName(typ) + "\t{\n")
ensures contains(dst.code.$text, JavaItems(typ, len(typ.Items), Ui(typ)))
ensures contains(dst.code.$text, EnumName(typ) + "[] values = new " + EnumName(typ) + "[]{\n" + JavaList(typ, len(typ.Items)) + "\t\t};\n")
invariant [$n count]: dst.code.$text == entry(dst.code.$text) + JavaItems(typ, $n, Ui(typ))
invariant [$n count]: dst.code.$text == entry(dst.code.$text) + JavaList(typ, $n)
