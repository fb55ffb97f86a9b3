# ---- pkg/build: what the annotations of a declaration mean

# a parsed value is a quoted text, and a key has at least one (parser)
pred QuotedKV(kv *ast.KeyValue) = kv != nil && kv.Name != nil && len(kv.Values) >= 1 && forall i int :: 0 <= i < len(kv.Values) ==> kv.Values[i] != nil && len(kv.Values[i].Value) >= 2
pred QuotedKVs(l []*ast.KeyValue) = forall j int :: 0 <= j < len(l) ==> QuotedKV(l[j])
# no key twice in a tag (C06)
pred DistinctKVs(l []*ast.KeyValue) = forall j int :: 0 <= j < len(l) ==> forall k int :: j < k < len(l) ==> l[j].Name.Name != l[k].Name.Name
pred AnnotTag(t *ast.Tag) = t != nil && t.Name != nil && QuotedKVs(t.KV) && DistinctKVs(t.KV)
opaque Annots(tags []*ast.Tag) bool = forall i int :: 0 <= i < len(tags) ==> AnnotTag(tags[i])
pred TagNames(tags []*ast.Tag) = forall i int :: 0 <= i < len(tags) ==> tags[i] != nil && tags[i].Name != nil

pred Unq(s string) string = s[1:len(s) - 1]
pred Val(kv *ast.KeyValue) string = Unq(kv.Values[0].Value)
# v is the value of key k among the first n, or the default
pred StrKey(l []*ast.KeyValue, n int, k string, v string) = (forall j int :: 0 <= j < n && l[j].Name.Name == k ==> v == Val(l[j])) && ((forall j int :: 0 <= j < n ==> l[j].Name.Name != k) ==> v == "")
pred TrueKey(l []*ast.KeyValue, n int, k string, v bool) = (forall j int :: 0 <= j < n && l[j].Name.Name == k ==> (v <==> Val(l[j]) == "true")) && ((forall j int :: 0 <= j < n ==> l[j].Name.Name != k) ==> !v)

pred FirstTag(tags []*ast.Tag, key string, i int) = 0 <= i < len(tags) && tags[i].Name.Name == key && forall j int :: 0 <= j < i ==> tags[j].Name.Name != key
pred NoTag(tags []*ast.Tag, key string) = forall i int :: 0 <= i < len(tags) ==> tags[i].Name.Name != key

func build.GetTag(tags, key) (t, ok)
verify C10
requires TagNames(tags)
ensures ok ==> exists i int :: FirstTag(tags, key, i) && t == tags[i]
ensures !ok ==> t == nil && NoTag(tags, key)
invariant [$n count]: forall j int :: 0 <= j < $n ==> tags[j].Name.Name != key

func build.GetKeyValue(kvs, key) (kv, ok)
verify C10
requires forall j int :: 0 <= j < len(kvs) ==> kvs[j] != nil && kvs[j].Name != nil
ensures ok ==> exists i int :: 0 <= i < len(kvs) && kv == kvs[i] && kvs[i].Name.Name == key && forall j int :: 0 <= j < i ==> kvs[j].Name.Name != key
ensures !ok ==> kv == nil && forall i int :: 0 <= i < len(kvs) ==> kvs[i].Name.Name != key
invariant [$n count]: forall j int :: 0 <= j < $n ==> kvs[j].Name.Name != key

pred FormatOf(f *build.Format, l []*ast.KeyValue, n int) = TrueKey(l, n, "null", f.Null) && StrKey(l, n, "reg", f.Reg) && StrKey(l, n, "min", f.Min) && StrKey(l, n, "max", f.Max)
func build.GetFormat(tags) (f)
verify C10
opt unfold Annots
requires Annots(tags)
ensures f == nil <==> NoTag(tags, "format")
ensures f != nil ==> exists i int :: FirstTag(tags, "format", i) && FormatOf(f, tags[i].KV, len(tags[i].KV))
invariant [$f *build.Format, $t []*ast.KeyValue, $n count]: TrueKey($t, $n, "null", $f.Null)
invariant [$f *build.Format, $t []*ast.KeyValue, $n count]: StrKey($t, $n, "reg", $f.Reg)
invariant [$f *build.Format, $t []*ast.KeyValue, $n count]: StrKey($t, $n, "min", $f.Min)
invariant [$f *build.Format, $t []*ast.KeyValue, $n count]: StrKey($t, $n, "max", $f.Max)

# ---- verify: the enum items a format names
pred EnumNamed(e *ast.EnumType) = e != nil && forall i int :: 0 <= i < len(e.Items) ==> e.Items[i] != nil && e.Items[i].Name != nil
pred ServerNamed(s *ast.ServerType) = s != nil && forall i int :: 0 <= i < len(s.Methods) ==> s.Methods[i] != nil && s.Methods[i].Name != nil
# the declaration a name stands for in a file: what the generator's look-up answers
ufun Lookup(*ast.File, string) *ast.Object
pred DeclOf(o *ast.Object) *ast.TypeSpec = as(o.Decl, *ast.TypeSpec)
opaque LookupOK(o *ast.Object) bool = o != nil && is(o.Decl, *ast.TypeSpec) ==> DeclOf(o) != nil && (is(DeclOf(o).Type, *ast.EnumType) ==> EnumNamed(as(DeclOf(o).Type, *ast.EnumType))) && (is(DeclOf(o).Type, *ast.ServerType) ==> ServerNamed(as(DeclOf(o).Type, *ast.ServerType)))

extern callback:build.GetVerify(getType, file, name) (o)
ensures o == Lookup(file, name)
ensures LookupOK(o)

extern callback:build.GetBinding(getType, file, name) (o)
ensures o == Lookup(file, name)
ensures LookupOK(o)

func build.NewError(pos, message) (e)
verify C10
ensures e != nil && fresh(e) && e.Pos == pos && e.Msg == message

# the first of the items or methods from k on with a name
rec ItemFrom(e *ast.EnumType, name string, k int) *ast.EnumItem = if k >= len(e.Items) then nil else if e.Items[k].Name.Name == name then e.Items[k] else ItemFrom(e, name, k + 1)
rec MethodFrom(s *ast.ServerType, name string, k int) *ast.FuncType = if k >= len(s.Methods) then nil else if s.Methods[k].Name.Name == name then s.Methods[k] else MethodFrom(s, name, k + 1)
pred NamedItem(e *ast.EnumType, name string) *ast.EnumItem = ItemFrom(e, name, 0)
pred NamedMethod(s *ast.ServerType, name string) *ast.FuncType = MethodFrom(s, name, 0)

func build.getEnumItem(em, name) (r)
verify C10
requires EnumNamed(em)
ensures r == NamedItem(em, name)
invariant [$n count]: ItemFrom(em, name, 0) == ItemFrom(em, name, $n)

func build.getServerMethod(em, name) (r)
verify C10
requires ServerNamed(em)
ensures r == NamedMethod(em, name)
invariant [$n count]: MethodFrom(em, name, 0) == MethodFrom(em, name, $n)

pred Ref0(file *ast.File, s string) *ast.Object = Lookup(file, Part(s, ".", 0))
pred RefEnum(file *ast.File, s string) *ast.EnumType = as(DeclOf(Ref0(file, s)).Type, *ast.EnumType)
pred RefServer(file *ast.File, s string) *ast.ServerType = as(DeclOf(Ref0(file, s)).Type, *ast.ServerType)
pred NamesEnum(file *ast.File, s string) = len(s) > 0 && Parts(s, ".") >= 2 && Ref0(file, s) != nil && is(Ref0(file, s).Decl, *ast.TypeSpec) && is(DeclOf(Ref0(file, s)).Type, *ast.EnumType)
pred NamesServer(file *ast.File, s string) = len(s) > 0 && Parts(s, ".") >= 2 && Ref0(file, s) != nil && is(Ref0(file, s).Decl, *ast.TypeSpec) && is(DeclOf(Ref0(file, s)).Type, *ast.ServerType)
pred NamesItem(file *ast.File, s string) = NamesEnum(file, s) && NamedItem(RefEnum(file, s), Part(s, ".", 1)) != nil
pred NamesMethod(file *ast.File, s string) = NamesServer(file, s) && NamedMethod(RefServer(file, s), Part(s, ".", 1)) != nil
pred ItemRef(file *ast.File, s string, v *build.VerifyEnum) = v != nil && v.Enum == RefEnum(file, s) && v.Item == NamedItem(RefEnum(file, s), Part(s, ".", 1))
# the values of the key "format", the first one of the list (keys are distinct)
pred FormatsOf(file *ast.File, l []*ast.KeyValue, n int, f []*build.VerifyEnum) = (forall k int :: 0 <= k < n && l[k].Name.Name == "format" ==> FormatsIn(file, l[k].Values, len(l[k].Values), f)) && ((forall k int :: 0 <= k < n ==> l[k].Name.Name != "format") ==> len(f) == 0)
pred FormatsIn(file *ast.File, vs []*ast.BasicLit, n int, f []*build.VerifyEnum) = len(f) == n && forall i int :: 0 <= i < n ==> NamesItem(file, Unq(vs[i].Value)) && ItemRef(file, Unq(vs[i].Value), f[i])

func build.GetVerify(tags, file, getType) (v, err)
verify C10
opt unfold Annots LookupOK
requires Annots(tags) && getType != nil
ensures err == nil ==> (v == nil <==> NoTag(tags, "verify"))
ensures err == nil && v != nil ==> exists i int :: FirstTag(tags, "verify", i) && FormatsOf(file, tags[i].KV, len(tags[i].KV), v.format)
ensures err != nil ==> exists i int :: FirstTag(tags, "verify", i) && exists k int :: 0 <= k < len(tags[i].KV) && tags[i].KV[k].Name.Name == "format" && exists j int :: 0 <= j < len(tags[i].KV[k].Values) && !NamesItem(file, Unq(tags[i].KV[k].Values[j].Value))
invariant firm [$v *build.Verify, $l []*ast.KeyValue, $n count]: FormatsOf(file, $l, $n, $v.format)
invariant firm [$v *build.Verify, $q []*ast.BasicLit, $n count]: FormatsIn(file, $q, $n, $v.format)
invariant [$v *build.Verify]: fresh($v) && freshelems($v.format) && allocated($v) && allocated($v.format)
invariant [$v *build.Verify]: forall j int :: 0 <= j < len($v.format) ==> allocated($v.format[j])

pred BindOf(file *ast.File, l []*ast.KeyValue, b *build.Binding, k int) = 0 <= k < len(l) && l[k].Name.Name == "value" && NamesMethod(file, Val(l[k])) && b.Server == RefServer(file, Val(l[k])) && b.Method == NamedMethod(RefServer(file, Val(l[k])), Part(Val(l[k]), ".", 1))
pred NoKey(l []*ast.KeyValue, key string) = forall k int :: 0 <= k < len(l) ==> l[k].Name.Name != key
func build.GetBinding(tags, file, getType) (b, err)
verify C10
opt unfold Annots LookupOK
requires Annots(tags) && getType != nil
ensures err == nil && b != nil ==> exists i int :: FirstTag(tags, "bind", i) && exists k int :: BindOf(file, tags[i].KV, b, k)
ensures err == nil && b == nil ==> NoTag(tags, "bind") || exists i int :: FirstTag(tags, "bind", i) && NoKey(tags[i].KV, "value")
ensures err != nil ==> exists i int :: FirstTag(tags, "bind", i) && exists k int :: 0 <= k < len(tags[i].KV) && tags[i].KV[k].Name.Name == "value" && !NamesMethod(file, Val(tags[i].KV[k]))
invariant [$l []*ast.KeyValue, $n count]: forall k int :: 0 <= k < $n ==> $l[k].Name.Name != "value"

# ---- lang: a text per language; the key names are unified (first letter in lower case)
pred KeyOf(kv *ast.KeyValue) string = LowHump(kv.Name.Name)
pred LastOf(l []*ast.KeyValue, n int, j int) = 0 <= j < n && forall m int :: j < m < n ==> KeyOf(l[m]) != KeyOf(l[j])
pred LangIs(l []*ast.KeyValue, n int, lang map[string]string) = (forall j int :: LastOf(l, n, j) ==> KeyOf(l[j]) in lang && lang[KeyOf(l[j])] == Val(l[j])) && (forall k string :: k in lang ==> exists j int :: 0 <= j < n && KeyOf(l[j]) == k) && (forall j int :: 0 <= j < n ==> KeyOf(l[j]) in lang)

func build.getLanguage(tags) (lang)
verify C10
opt unfold Annots
requires Annots(tags)
ensures NoTag(tags, "lang") ==> lang == nil
ensures !NoTag(tags, "lang") ==> lang != nil && fresh(lang) && exists i int :: FirstTag(tags, "lang", i) && LangIs(tags[i].KV, len(tags[i].KV), lang)
invariant [$m map[string]string]: fresh($m) && allocated($m)
invariant firm [$m map[string]string, $l []*ast.KeyValue, $n count]: LangIs($l, $n, $m)
invariant firm [$m map[string]string, $t *ast.Tag, $n count]: LangIs($t.KV, $n, $m)

func build.NewLanguage(name) (l)
verify C10
ensures l != nil && fresh(l) && l.Name == name && l.Key != nil && fresh(l.Key) && l.Lang != nil && fresh(l.Lang)
ensures forall k string :: !(k in l.Key) && !(k in l.Lang)

func build.(*Language).Add(l, field, tags)
verify C10
requires l != nil && l.Key != nil && l.Lang != nil && Annots(tags)
modifies mapof(l.Key), mapof(l.Lang)
ensures field in l.Lang
ensures forall f string :: f != field ==> (f in l.Lang <==> old(f in l.Lang)) && l.Lang[f] == old(l.Lang[f])
ensures NoTag(tags, "lang") ==> l.Lang[field] == nil
ensures !NoTag(tags, "lang") ==> exists i int :: FirstTag(tags, "lang", i) && LangIs(tags[i].KV, len(tags[i].KV), l.Lang[field])
ensures forall k string :: k in l.Key <==> old(k in l.Key) || k == "en" || (l.Lang[field] != nil && k in l.Lang[field])
invariant [$m mapiter]: forall k string :: visited($m, k) ==> k in l.Key
invariant [$m mapiter]: forall k string :: k in l.Key ==> entry(k in l.Key) || visited($m, k)
invariant [$m mapiter]: forall k string :: entry(k in l.Key) ==> k in l.Key
invariant [$m mapiter]: forall k string :: visited($m, k) ==> k in l.Lang[field]

# ---- db: one record per db annotation (db, db0, db1, …), the highest number first
extern model:sort.Slice(s, less)
modifies elems(s)
ensures forall i int :: 0 <= i < len(s) ==> exists j int :: 0 <= j < len(s) && s[i] == old(s[j])
ensures forall i int :: 0 <= i < len(s) ==> exists j int :: 0 <= j < len(s) && s[j] == old(s[i])
ensures (forall i int :: 0 <= i < len(s) ==> forall j int :: i < j < len(s) ==> old(s[i]) != old(s[j])) ==> forall i int :: 0 <= i < len(s) ==> forall j int :: i < j < len(s) ==> s[i] != s[j]

ufun IsNumber(string) bool
ufun NumberOf(string) int
extern strconv.ParseInt(s, base, bits) (n, err)
ensures err == nil <==> IsNumber(s)
ensures err == nil ==> n == NumberOf(s)

func build.GetDB(n, tag) (r)
verify C10
opt unfold Annots
requires Annots(tag)
modifies anyelems(ptr(build.DB))
ensures forall i int :: 0 <= i < len(r) ==> r[i] != nil
invariant [$d *[]*build.DB]: freshelems(deref($d)) && allocated(deref($d)) && forall i int :: 0 <= i < len(deref($d)) ==> deref($d)[i] != nil && fresh(deref($d)[i]) && allocated(deref($d)[i])
