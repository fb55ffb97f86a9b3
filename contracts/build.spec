# ---- pkg/build: the checks a schema has to pass

pred Builtin(n string) = n == "int8" || n == "int16" || n == "int32" || n == "int64" || n == "uint8" || n == "uint16" || n == "uint32" || n == "uint64" || n == "bool" || n == "float" || n == "double" || n == "string" || n == "date" || n == "decimal"
pred Reserved(n string) = Builtin(n) || n == "data" || n == "server" || n == "enum" || n == "import" || n == "package"

# what the checker needs of the trees it is given (made so by the parser, C04)
pred KVsOK(l []*ast.KeyValue) = forall i int :: 0 <= i < len(l) ==> l[i] != nil && l[i].Name != nil
opaque TagsOK(l []*ast.Tag) bool = forall i int :: 0 <= i < len(l) ==> l[i] != nil && l[i].Name != nil && KVsOK(l[i].KV)
pred BuildOK(b *build.Builder) = b != nil && SetOK(b.fset)

opaque KVsUnique(l []*ast.KeyValue) bool = forall i int :: 0 <= i < len(l) ==> forall j int :: i < j < len(l) ==> l[i].Name.Name != l[j].Name.Name
pred TagNamesUnique(l []*ast.Tag) = forall i int :: 0 <= i < len(l) ==> forall j int :: i < j < len(l) ==> l[i].Name.Name != l[j].Name.Name
opaque TagsUnique(l []*ast.Tag) bool = TagNamesUnique(l) && forall i int :: 0 <= i < len(l) ==> KVsUnique(l[i].KV)

func build.(*Builder).checkKeyValue(b, kvs) (err)
verify C06
opt unfold KVsUnique
requires BuildOK(b) && KVsOK(kvs)
modifies b.fset.last
ensures BuildOK(b)
ensures err == nil ==> KVsUnique(kvs)
ensures KVsUnique(kvs) ==> err == nil
invariant BuildOK(b)
invariant [$i phi]: 0 <= $i
invariant [$i phi]: forall k int :: 0 <= k < $i && k < len(kvs) ==> forall m int :: k < m < len(kvs) ==> kvs[k].Name.Name != kvs[m].Name.Name
invariant [$i intval, $j phi]: 0 <= $i && $i < $j && forall m int :: $i < m < $j ==> kvs[$i].Name.Name != kvs[m].Name.Name

func build.(*Builder).checkTags(b, tags) (err)
verify C06
opt unfold TagsUnique TagsOK
requires BuildOK(b) && TagsOK(tags)
modifies b.fset.last
ensures BuildOK(b)
ensures err == nil ==> TagsUnique(tags)
ensures TagsUnique(tags) ==> err == nil
invariant BuildOK(b)
invariant [$i phi]: 0 <= $i
invariant [$i phi]: forall k int :: 0 <= k < $i && k < len(tags) ==> forall m int :: k < m < len(tags) ==> tags[k].Name.Name != tags[m].Name.Name
invariant [$i intval, $j phi]: 0 <= $i && $i < $j && forall m int :: $i < m < $j ==> tags[$i].Name.Name != tags[m].Name.Name
invariant TagNamesUnique(tags)
invariant [$n count]: forall k int :: 0 <= k < $n ==> KVsUnique(tags[k].KV)

# ---- names

pred IsData(o *ast.Object) = is(DeclType(o), *ast.DataType)
pred IsEnumObj(o *ast.Object) = is(DeclType(o), *ast.EnumType)
pred IsServer(o *ast.Object) = is(DeclType(o), *ast.ServerType)
pred DeclType(o *ast.Object) ast.Expr = as(o.Decl, *ast.TypeSpec).Type
pred ObjOK(o *ast.Object) = is(o.Decl, *ast.TypeSpec) && as(o.Decl, *ast.TypeSpec) != nil && (o.Kind == ast.Enum <==> IsEnumObj(o))
pred ScopeOK(s *ast.Scope) = s != nil && s.Objects != nil && forall n string :: s.Objects[n] != nil ==> ObjOK(s.Objects[n])
pred FileWell(f *ast.File) = f != nil && ScopeOK(f.Scope) && forall i int :: 0 <= i < len(f.Imports) ==> f.Imports[i] != nil && f.Imports[i].Path != nil
pred PkgOK(b *build.Builder) = BuildOK(b) && b.pkg != nil && forall n string :: n in b.pkg.Files ==> b.pkg.Files[n] != nil && ScopeOK(b.pkg.Files[n].Scope)

# the file an import names, and what it declares under a name
pred Imported(b *build.Builder, s *ast.ImportSpec, name string) *ast.Object = if s.Path.Value in b.pkg.Files then b.pkg.Files[s.Path.Value].Scope.Objects[name] else nil
func ast.(*Scope).Lookup(s, name) (o)
verify C06 C07
requires s != nil
ensures o == s.Objects[name]

pred IsType(o *ast.Object) = IsData(o) || IsEnumObj(o)

# getDataExtends: a Data is declared under this name, here or in a file imported here; and the one a reference means:
# the one declared here, else that of the first import which has one
opaque KnownData(b *build.Builder, f *ast.File, name string) bool = f.Scope.Objects[name] != nil && IsData(f.Scope.Objects[name]) || exists i int :: 0 <= i < len(f.Imports) && Imported(b, f.Imports[i], name) != nil && IsData(Imported(b, f.Imports[i], name))
opaque DenotesData(b *build.Builder, f *ast.File, name string, o *ast.Object) bool = o != nil && IsData(o) && (o == f.Scope.Objects[name] || (f.Scope.Objects[name] == nil || !IsData(f.Scope.Objects[name])) && exists i int :: 0 <= i < len(f.Imports) && o == Imported(b, f.Imports[i], name) && forall j int :: 0 <= j < i ==> Imported(b, f.Imports[j], name) == nil || !IsData(Imported(b, f.Imports[j], name)))

func build.(*Builder).getDataExtends(b, file, index, name) (o)
verify C07
opt unfold KnownData DenotesData
requires PkgOK(b) && FileWell(file)
ensures o != nil ==> DenotesData(b, file, name, o)
ensures o != nil ==> KnownData(b, file, name)
ensures o == nil ==> !KnownData(b, file, name)
invariant [$n count]: (file.Scope.Objects[name] == nil || !IsData(file.Scope.Objects[name])) && forall i int :: 0 <= i < $n ==> Imported(b, file.Imports[i], name) == nil || !IsData(Imported(b, file.Imports[i], name))

# getServerExtends: a Server is declared under this name, here or in a file imported here; and the one a reference means:
# the one declared here, else that of the first import which has one
opaque KnownServer(b *build.Builder, f *ast.File, name string) bool = f.Scope.Objects[name] != nil && IsServer(f.Scope.Objects[name]) || exists i int :: 0 <= i < len(f.Imports) && Imported(b, f.Imports[i], name) != nil && IsServer(Imported(b, f.Imports[i], name))
opaque DenotesServer(b *build.Builder, f *ast.File, name string, o *ast.Object) bool = o != nil && IsServer(o) && (o == f.Scope.Objects[name] || (f.Scope.Objects[name] == nil || !IsServer(f.Scope.Objects[name])) && exists i int :: 0 <= i < len(f.Imports) && o == Imported(b, f.Imports[i], name) && forall j int :: 0 <= j < i ==> Imported(b, f.Imports[j], name) == nil || !IsServer(Imported(b, f.Imports[j], name)))

func build.(*Builder).getServerExtends(b, file, index, name) (o)
verify C07
opt unfold KnownServer DenotesServer
requires PkgOK(b) && FileWell(file)
ensures o != nil ==> DenotesServer(b, file, name, o)
ensures o != nil ==> KnownServer(b, file, name)
ensures o == nil ==> !KnownServer(b, file, name)
invariant [$n count]: (file.Scope.Objects[name] == nil || !IsServer(file.Scope.Objects[name])) && forall i int :: 0 <= i < $n ==> Imported(b, file.Imports[i], name) == nil || !IsServer(Imported(b, file.Imports[i], name))

# what the name means, if anything, is an enum
opaque KnownEnum(b *build.Builder, f *ast.File, name string) bool = if f.Scope.Objects[name] != nil && IsType(f.Scope.Objects[name]) then f.Scope.Objects[name].Kind == ast.Enum else exists i int :: 0 <= i < len(f.Imports) && Imported(b, f.Imports[i], name) != nil && Imported(b, f.Imports[i], name).Kind == ast.Enum && forall j int :: 0 <= j < i ==> Imported(b, f.Imports[j], name) == nil || !IsType(Imported(b, f.Imports[j], name))

# GetDataType: a Type is declared under this name, here or in a file imported here; and the one a reference means:
# the one declared here, else that of the first import which has one
opaque KnownType(b *build.Builder, f *ast.File, name string) bool = f.Scope.Objects[name] != nil && IsType(f.Scope.Objects[name]) || exists i int :: 0 <= i < len(f.Imports) && Imported(b, f.Imports[i], name) != nil && IsType(Imported(b, f.Imports[i], name))
opaque DenotesType(b *build.Builder, f *ast.File, name string, o *ast.Object) bool = o != nil && IsType(o) && (o == f.Scope.Objects[name] || (f.Scope.Objects[name] == nil || !IsType(f.Scope.Objects[name])) && exists i int :: 0 <= i < len(f.Imports) && o == Imported(b, f.Imports[i], name) && forall j int :: 0 <= j < i ==> Imported(b, f.Imports[j], name) == nil || !IsType(Imported(b, f.Imports[j], name)))

func build.(*Builder).GetDataType(b, file, name) (o)
verify C07
opt unfold KnownType DenotesType KnownEnum
requires PkgOK(b) && FileWell(file)
ensures KnownEnum(b, file, name) <==> o != nil && o.Kind == ast.Enum
ensures o != nil ==> DenotesType(b, file, name, o)
ensures o != nil ==> KnownType(b, file, name)
ensures o == nil ==> !KnownType(b, file, name)
invariant [$n count]: (file.Scope.Objects[name] == nil || !IsType(file.Scope.Objects[name])) && forall i int :: 0 <= i < $n ==> Imported(b, file.Imports[i], name) == nil || !IsType(Imported(b, file.Imports[i], name))

# ---- what the rules of the language ask of a schema

pred Tops(f *ast.File, i int) *ast.TypeSpec = as(f.Specs[i], *ast.TypeSpec)
# the name a type is declared under
pred NameOf(t ast.Expr) string = if is(t, *ast.DataType) then as(t, *ast.DataType).Name.Name else if is(t, *ast.EnumType) then as(t, *ast.EnumType).Name.Name else as(t, *ast.ServerType).Name.Name
pred SpecsOK(f *ast.File) = forall i int :: 0 <= i < len(f.Specs) && is(f.Specs[i], *ast.TypeSpec) ==> DeclWell(Tops(f, i))
pred DeclWell(s *ast.TypeSpec) = s != nil && (is(s.Type, *ast.DataType) && as(s.Type, *ast.DataType) != nil && as(s.Type, *ast.DataType).Name != nil || is(s.Type, *ast.EnumType) && as(s.Type, *ast.EnumType) != nil && as(s.Type, *ast.EnumType).Name != nil || is(s.Type, *ast.ServerType) && as(s.Type, *ast.ServerType) != nil && as(s.Type, *ast.ServerType).Name != nil)
pred Declares(f *ast.File, i int, name string) = is(f.Specs[i], *ast.TypeSpec) && NameOf(Tops(f, i).Type) == name
pred LaterType(f *ast.File, index int, name string) = exists i int :: index < i < len(f.Specs) && Declares(f, i, name)
pred ImportedType(b *build.Builder, f *ast.File, name string) = exists i int :: 0 <= i < len(f.Imports) && Imported(b, f.Imports[i], name) != nil

func build.(*Builder).checkDuplicateType(b, file, index, name) (r)
verify C06
requires PkgOK(b) && FileWell(file) && SpecsOK(file) && index >= 0
ensures r ==> LaterType(file, index, name) || ImportedType(b, file, name)
ensures !r ==> forall i int :: index < i < len(file.Specs) ==> !Declares(file, i, name)
ensures !r ==> forall i int :: 0 <= i < len(file.Imports) ==> Imported(b, file.Imports[i], name) == nil
invariant [$i phi]: index < $i && forall k int :: index < k < $i && k < len(file.Specs) ==> !Declares(file, k, name)
invariant [$n count]: forall i int :: 0 <= i < $n ==> Imported(b, file.Imports[i], name) == nil

func build.(*Builder).checkDataDuplicateExtends(b, data, index, name) (r)
verify C06
requires data != nil && index >= 0 && forall i int :: 0 <= i < len(data.Extends) ==> data.Extends[i] != nil && data.Extends[i].Name != nil
ensures r ==> exists i int :: index < i < len(data.Extends) && data.Extends[i].Name.Name == name
ensures !r ==> forall i int :: index < i < len(data.Extends) ==> data.Extends[i].Name.Name != name
invariant [$i phi]: index < $i && forall k int :: index < k < $i && k < len(data.Extends) ==> data.Extends[k].Name.Name != name

func build.(*Builder).checkServerDuplicateExtends(b, server, index, name) (r)
verify C06
requires server != nil && index >= 0 && forall i int :: 0 <= i < len(server.Extends) ==> server.Extends[i] != nil && server.Extends[i].Name != nil
ensures r ==> exists i int :: index < i < len(server.Extends) && server.Extends[i].Name.Name == name
ensures !r ==> forall i int :: index < i < len(server.Extends) ==> server.Extends[i].Name.Name != name
invariant [$i phi]: index < $i && forall k int :: index < k < $i && k < len(server.Extends) ==> server.Extends[k].Name.Name != name

pred FieldsWell(d *ast.DataType) = d != nil && d.Fields != nil && forall i int :: 0 <= i < len(d.Fields.List) ==> d.Fields.List[i] != nil && d.Fields.List[i].Name != nil && d.Fields.List[i].Id != nil
pred ItemsWell(d *ast.EnumType) = d != nil && d.Name != nil && forall i int :: 0 <= i < len(d.Items) ==> d.Items[i] != nil && d.Items[i].Name != nil && d.Items[i].Id != nil
pred MethodsWell(d *ast.ServerType) = d != nil && forall i int :: 0 <= i < len(d.Methods) ==> d.Methods[i] != nil && d.Methods[i].Name != nil && d.Methods[i].ParamName != nil

func build.(*Builder).checkDataDuplicateItem(b, data, index, name) (r)
verify C06
requires FieldsWell(data) && index >= 0
ensures r ==> exists i int :: index < i < len(data.Fields.List) && data.Fields.List[i].Name.Name == name
ensures !r ==> forall i int :: index < i < len(data.Fields.List) ==> data.Fields.List[i].Name.Name != name
invariant [$i phi]: index < $i && forall k int :: index < k < $i && k < len(data.Fields.List) ==> data.Fields.List[k].Name.Name != name

func build.(*Builder).checkDataDuplicateValue(b, data, index, id) (r)
verify C06
requires FieldsWell(data) && index >= 0
ensures r ==> exists i int :: index < i < len(data.Fields.List) && data.Fields.List[i].Id.Value == id
ensures !r ==> forall i int :: index < i < len(data.Fields.List) ==> data.Fields.List[i].Id.Value != id
invariant [$i phi]: index < $i && forall k int :: index < k < $i && k < len(data.Fields.List) ==> data.Fields.List[k].Id.Value != id

func build.(*Builder).checkEnumDuplicateItem(b, enum, index, name) (r)
verify C06
requires ItemsWell(enum) && index >= 0
ensures r ==> exists i int :: index < i < len(enum.Items) && enum.Items[i].Name.Name == name
ensures !r ==> forall i int :: index < i < len(enum.Items) ==> enum.Items[i].Name.Name != name
invariant [$i phi]: index < $i && forall k int :: index < k < $i && k < len(enum.Items) ==> enum.Items[k].Name.Name != name

func build.(*Builder).checkEnumDuplicateValue(b, enum, index, id) (r)
verify C06
requires ItemsWell(enum) && index >= 0
ensures r ==> exists i int :: index < i < len(enum.Items) && enum.Items[i].Id.Value == id
ensures !r ==> forall i int :: index < i < len(enum.Items) ==> enum.Items[i].Id.Value != id
invariant [$i phi]: index < $i && forall k int :: index < k < $i && k < len(enum.Items) ==> enum.Items[k].Id.Value != id

func build.(*Builder).checkServerDuplicateItem(b, server, index, name) (r)
verify C06
requires MethodsWell(server) && index >= 0
ensures r ==> exists i int :: index < i < len(server.Methods) && server.Methods[i].Name.Name == name
ensures !r ==> forall i int :: index < i < len(server.Methods) ==> server.Methods[i].Name.Name != name
invariant [$i phi]: index < $i && forall k int :: index < k < $i && k < len(server.Methods) ==> server.Methods[k].Name.Name != name

# ---- enums

pred ItemLegal(e *ast.EnumType, k int) = TagsUnique(e.Items[k].Tags) && !Reserved(e.Items[k].Name.Name)
  && (forall i int :: k < i < len(e.Items) ==> e.Items[i].Name.Name != e.Items[k].Name.Name)
  && (forall i int :: k < i < len(e.Items) ==> e.Items[i].Id.Value != e.Items[k].Id.Value)
pred ItemsTags(e *ast.EnumType) = forall i int :: 0 <= i < len(e.Items) ==> TagsOK(e.Items[i].Tags)

func build.(*Builder).checkEnumItem(b, file, enum) (err)
verify C06
requires BuildOK(b) && ItemsWell(enum) && ItemsTags(enum)
modifies b.fset.last
ensures BuildOK(b)
ensures err == nil ==> forall k int :: 0 <= k < len(enum.Items) ==> ItemLegal(enum, k)
ensures (forall k int :: 0 <= k < len(enum.Items) ==> ItemLegal(enum, k)) ==> err == nil
invariant BuildOK(b)
invariant [$n count]: forall k int :: 0 <= k < $n ==> ItemLegal(enum, k)


# ---- data

pred VarIdent(v *ast.VarType) *ast.Ident = as(v.TypeExpr, *ast.Ident)
pred VarWell(v *ast.VarType) = v != nil && (is(v.TypeExpr, *ast.Ident) && VarIdent(v) != nil || is(v.TypeExpr, *ast.BadExpr) && as(v.TypeExpr, *ast.BadExpr) != nil)
pred TypeWell(t ast.Type) =
  is(t, *ast.VarType) && VarWell(as(t, *ast.VarType))
  || is(t, *ast.ArrayType) && as(t, *ast.ArrayType) != nil && VarWell(as(t, *ast.ArrayType).VType)
  || is(t, *ast.MapType) && as(t, *ast.MapType) != nil && VarWell(as(t, *ast.MapType).VType) && KeyWell(as(t, *ast.MapType).Key)
pred KeyWell(k ast.Expr) = is(k, *ast.VarType) && VarWell(as(k, *ast.VarType)) || is(k, *ast.ArrayType) && as(k, *ast.ArrayType) != nil && VarWell(as(k, *ast.ArrayType).VType) || is(k, *ast.MapType) && as(k, *ast.MapType) != nil && VarWell(as(k, *ast.MapType).VType)
# where a type stands in its file, for messages
func ast.(*VarType).Pos(x) (p)
verify C07
requires VarWell(x)
decreases 0
# not among the nodes the parser makes
func ast.(*CompositeLit).Pos(x) (p)
requires false
func ast.(*CompositeLit).End(x) (p)
requires false
func ast.(*VarType).End(x) (p)
verify C07
requires VarWell(x)
decreases 0
func ast.(*ArrayType).Pos(x) (p)
verify C07
requires x != nil && VarWell(x.VType)
func ast.(*MapType).Pos(x) (p)
verify C07
requires x != nil && VarWell(x.VType)

# the name of a type: built in, or declared and reachable
pred Nameable(b *build.Builder, f *ast.File, v *ast.VarType) = is(v.TypeExpr, *ast.Ident) && (Builtin(VarIdent(v).Name) || KnownType(b, f, VarIdent(v).Name))
pred Keyable(b *build.Builder, f *ast.File, v *ast.VarType) = !v.Empty && is(v.TypeExpr, *ast.Ident) && (Builtin(VarIdent(v).Name) || KnownEnum(b, f, VarIdent(v).Name))

# ---- which references the checker may set, and to what

# every reference belongs to one file, and its place in the tree says what it has to denote
# (1 the type of a field or of its elements, 2 what a data extends, 3 what a server extends, 4 the parameter or result of a method,
# 5 the key of a map)
ufun Owner(*ast.Ident) *ast.File
ufun Role(*ast.Ident) int
opaque GoodRef(b *build.Builder, f *ast.File, x *ast.Ident, o *ast.Object) bool = Owner(x) == f && 1 <= Role(x) && Role(x) <= 5 && (Role(x) == 1 || Role(x) == 5 ==> DenotesType(b, f, x.Name, o)) && (Role(x) == 5 ==> o.Kind == ast.Enum) && (Role(x) == 2 || Role(x) == 4 ==> DenotesData(b, f, x.Name, o)) && (Role(x) == 3 ==> DenotesServer(b, f, x.Name, o))
pred ObjStep(b *build.Builder, f *ast.File) = forall x every *ast.Ident :: x.Obj == old(x.Obj) || x.Obj != nil && GoodRef(b, f, x, x.Obj)
pred IsRef(f *ast.File, v *ast.VarType, role int) = is(v.TypeExpr, *ast.Ident) ==> Owner(VarIdent(v)) == f && Role(VarIdent(v)) == role

# set to what it means
pred Named(b *build.Builder, f *ast.File, v *ast.VarType) = is(v.TypeExpr, *ast.Ident) && (Builtin(VarIdent(v).Name) || DenotesType(b, f, VarIdent(v).Name, VarIdent(v).Obj))
pred Keyed(b *build.Builder, f *ast.File, v *ast.VarType) = !v.Empty && is(v.TypeExpr, *ast.Ident) && (Builtin(VarIdent(v).Name) || DenotesType(b, f, VarIdent(v).Name, VarIdent(v).Obj) && VarIdent(v).Obj.Kind == ast.Enum)

func build.(*Builder).checkDataItemType(b, file, typ) (err)
verify C07
opt unfold GoodRef
requires PkgOK(b) && FileWell(file) && is(typ, *ast.VarType) && VarWell(as(typ, *ast.VarType)) && IsRef(file, as(typ, *ast.VarType), 1)
modifies b.fset.last, any(ast.Ident.Obj)
ensures PkgOK(b)
ensures err == nil ==> Named(b, file, as(typ, *ast.VarType))
ensures err == nil ==> Nameable(b, file, as(typ, *ast.VarType))
ensures Nameable(b, file, as(typ, *ast.VarType)) ==> err == nil
ensures ObjStep(b, file)

func build.(*Builder).checkDataMapKey(b, file, varType) (err)
verify C07
opt unfold GoodRef
requires PkgOK(b) && FileWell(file) && VarWell(varType) && IsRef(file, varType, 5)
modifies b.fset.last, any(ast.Ident.Obj)
ensures PkgOK(b)
ensures err == nil ==> Keyed(b, file, varType)
ensures Keyable(b, file, varType) ==> err == nil
ensures ObjStep(b, file)

# the type of a field
pred FieldRefs(f *ast.File, t ast.Type) = IsRef(f, ElemVar(t), 1)
  && (is(t, *ast.MapType) ==> (is(as(t, *ast.MapType).Key, *ast.VarType) ==> IsRef(f, as(as(t, *ast.MapType).Key, *ast.VarType), 5)))
# the type of the elements: of the field, of its array or of the values of its map
pred ElemVar(t ast.Type) *ast.VarType = if is(t, *ast.VarType) then as(t, *ast.VarType) else if is(t, *ast.ArrayType) then as(t, *ast.ArrayType).VType else as(t, *ast.MapType).VType
pred MapKeyed(b *build.Builder, f *ast.File, t ast.Type) = is(t, *ast.MapType) ==> is(as(t, *ast.MapType).Key, *ast.VarType) && Keyed(b, f, as(as(t, *ast.MapType).Key, *ast.VarType))

opaque FieldFine(b *build.Builder, f *ast.File, d *ast.DataType, k int) bool = FieldLegal(d, k) && Nameable(b, f, ElemVar(d.Fields.List[k].Type)) && (is(d.Fields.List[k].Type, *ast.MapType) ==> is(as(d.Fields.List[k].Type, *ast.MapType).Key, *ast.VarType) && Keyable(b, f, as(as(d.Fields.List[k].Type, *ast.MapType).Key, *ast.VarType)))
# the references of a declaration, and that one is set to what it has to denote (or names a built-in type)
pred Resolved(b *build.Builder, f *ast.File, x *ast.Ident, o *ast.Object) = Builtin(x.Name) || Role(x) == 4 && x.Name == "void" || GoodRef(b, f, x, o)
opaque InFields(d *ast.DataType, x *ast.Ident) bool = exists k int :: 0 <= k < len(d.Fields.List) && (x == VarIdent(ElemVar(d.Fields.List[k].Type)) || is(d.Fields.List[k].Type, *ast.MapType) && x == VarIdent(as(as(d.Fields.List[k].Type, *ast.MapType).Key, *ast.VarType)))
opaque InExtends(l []*ast.Extends, x *ast.Ident) bool = exists k int :: 0 <= k < len(l) && x == l[k].Name
opaque InMethods(s *ast.ServerType, x *ast.Ident) bool = exists k int :: 0 <= k < len(s.Methods) && (x == VarIdent(s.Methods[k].Param) || x == VarIdent(s.Methods[k].Result))

pred DataTree(f *ast.File, d *ast.DataType) = FieldsWell(d) && (forall i int :: 0 <= i < len(d.Fields.List) ==> TypeWell(d.Fields.List[i].Type) && TagsOK(d.Fields.List[i].Tags) && FieldRefs(f, d.Fields.List[i].Type))
pred FieldLegal(d *ast.DataType, k int) = TagsUnique(d.Fields.List[k].Tags) && !Reserved(d.Fields.List[k].Name.Name)
  && (forall i int :: k < i < len(d.Fields.List) ==> d.Fields.List[i].Name.Name != d.Fields.List[k].Name.Name)
  && (forall i int :: k < i < len(d.Fields.List) ==> d.Fields.List[i].Id.Value != d.Fields.List[k].Id.Value)

func build.(*Builder).checkDataItem(b, file, data) (err)
verify C06 C07
opt unfold@C06 FieldFine
opt unfold@C07 GoodRef InFields
requires PkgOK(b) && FileWell(file) && DataTree(file, data)
modifies b.fset.last, any(ast.Ident.Obj)
ensures PkgOK(b)
ensures @C06 err == nil ==> forall k int :: 0 <= k < len(data.Fields.List) ==> FieldLegal(data, k)
ensures @C06 (forall k int :: 0 <= k < len(data.Fields.List) ==> FieldFine(b, file, data, k)) ==> err == nil
ensures @C07 err == nil ==> forall k int :: 0 <= k < len(data.Fields.List) ==> Named(b, file, ElemVar(data.Fields.List[k].Type))
ensures @C07 err == nil ==> forall k int :: 0 <= k < len(data.Fields.List) ==> MapKeyed(b, file, data.Fields.List[k].Type)
ensures ObjStep(b, file)
ensures @C07 err == nil ==> forall x every *ast.Ident :: InFields(data, x) ==> Resolved(b, file, x, x.Obj)
invariant PkgOK(b) && ObjStep(b, file)
invariant @C06 [$n count]: forall k int :: 0 <= k < $n ==> FieldLegal(data, k)
invariant @C07 [$n count]: forall k int :: 0 <= k < $n ==> Named(b, file, ElemVar(data.Fields.List[k].Type))
invariant @C07 [$n count]: forall k int :: 0 <= k < $n ==> MapKeyed(b, file, data.Fields.List[k].Type)

# ---- what a data extends

pred ExtendsWell(l []*ast.Extends) = forall i int :: 0 <= i < len(l) ==> l[i] != nil && l[i].Name != nil
pred ExtendsRefs(f *ast.File, l []*ast.Extends, role int) = forall i int :: 0 <= i < len(l) ==> Owner(l[i].Name) == f && Role(l[i].Name) == role
pred ExtendLegal(l []*ast.Extends, k int) = !Reserved(l[k].Name.Name) && forall i int :: k < i < len(l) ==> l[i].Name.Name != l[k].Name.Name

func build.(*Builder).checkDataExtends(b, file, data, index) (err)
verify C06 C07
opt unfold@C07 GoodRef InExtends
opt unfold@C06 GoodRef
requires PkgOK(b) && FileWell(file) && data != nil && data.Name != nil && ExtendsWell(data.Extends) && ExtendsRefs(file, data.Extends, 2)
modifies b.fset.last, any(ast.Ident.Obj)
ensures PkgOK(b)
ensures ObjStep(b, file)
ensures @C06 err == nil ==> forall k int :: 0 <= k < len(data.Extends) ==> ExtendLegal(data.Extends, k)
ensures @C06 (forall k int :: 0 <= k < len(data.Extends) ==> ExtendLegal(data.Extends, k) && KnownData(b, file, data.Extends[k].Name.Name)) ==> err == nil
ensures @C07 err == nil ==> forall k int :: 0 <= k < len(data.Extends) ==> DenotesData(b, file, data.Extends[k].Name.Name, data.Extends[k].Name.Obj)
ensures @C07 err == nil ==> forall x every *ast.Ident :: InExtends(data.Extends, x) ==> Resolved(b, file, x, x.Obj)
invariant PkgOK(b) && ObjStep(b, file)
invariant @C06 [$n count]: forall k int :: 0 <= k < $n ==> ExtendLegal(data.Extends, k)
invariant @C07 [$n count]: forall k int :: 0 <= k < $n ==> DenotesData(b, file, data.Extends[k].Name.Name, data.Extends[k].Name.Obj)

func build.(*Builder).checkServerExtends(b, file, server, index) (err)
verify C06 C07
opt unfold@C07 GoodRef InExtends
opt unfold@C06 GoodRef
requires PkgOK(b) && FileWell(file) && server != nil && server.Name != nil && ExtendsWell(server.Extends) && ExtendsRefs(file, server.Extends, 3)
modifies b.fset.last, any(ast.Ident.Obj)
ensures PkgOK(b)
ensures ObjStep(b, file)
ensures @C06 err == nil ==> forall k int :: 0 <= k < len(server.Extends) ==> ExtendLegal(server.Extends, k)
ensures @C06 (forall k int :: 0 <= k < len(server.Extends) ==> ExtendLegal(server.Extends, k) && KnownServer(b, file, server.Extends[k].Name.Name)) ==> err == nil
ensures @C07 err == nil ==> forall k int :: 0 <= k < len(server.Extends) ==> DenotesServer(b, file, server.Extends[k].Name.Name, server.Extends[k].Name.Obj)
ensures @C07 err == nil ==> forall x every *ast.Ident :: InExtends(server.Extends, x) ==> Resolved(b, file, x, x.Obj)
invariant PkgOK(b) && ObjStep(b, file)
invariant @C06 [$n count]: forall k int :: 0 <= k < $n ==> ExtendLegal(server.Extends, k)
invariant @C07 [$n count]: forall k int :: 0 <= k < $n ==> DenotesServer(b, file, server.Extends[k].Name.Name, server.Extends[k].Name.Obj)

# ---- servers

func build.(*Builder).checkServerItemType(b, file, result) (err)
verify C06 C07
opt unfold GoodRef KnownData
requires PkgOK(b) && FileWell(file) && result != nil && is(result.TypeExpr, *ast.Ident) && VarWell(result) && IsRef(file, result, 4)
modifies b.fset.last, any(ast.Ident.Obj)
ensures PkgOK(b)
ensures ObjStep(b, file)
ensures @C07 err == nil ==> !result.Empty && (Builtin(VarIdent(result).Name) || DenotesData(b, file, VarIdent(result).Name, VarIdent(result).Obj))
ensures @C07 err == nil ==> KnownData(b, file, VarIdent(result).Name)
ensures @C06 !result.Empty && KnownData(b, file, VarIdent(result).Name) ==> err == nil
invariant PkgOK(b) && ObjStep(b, file)
invariant [$n count]: forall i int :: 0 <= i < $n ==> Imported(b, file.Imports[i], VarIdent(result).Name) == nil || !IsData(Imported(b, file.Imports[i], VarIdent(result).Name))

pred MethodNamed(b *build.Builder, f *ast.File, v *ast.VarType) = !v.Empty && (Builtin(VarIdent(v).Name) || DenotesData(b, f, VarIdent(v).Name, VarIdent(v).Obj))
pred MethodRef(f *ast.File, v *ast.VarType) = v != nil && is(v.TypeExpr, *ast.Ident) && VarWell(v) && IsRef(f, v, 4)
pred ServerTree(f *ast.File, s *ast.ServerType) = MethodsWell(s) && (forall i int :: 0 <= i < len(s.Methods) ==> MethodRef(f, s.Methods[i].Result) && MethodRef(f, s.Methods[i].Param) && TagsOK(s.Methods[i].Tags))
pred MethodLegal(s *ast.ServerType, k int) = TagsUnique(s.Methods[k].Tags) && !Reserved(s.Methods[k].Name.Name) && !Reserved(s.Methods[k].ParamName.Name)
  && (forall i int :: k < i < len(s.Methods) ==> s.Methods[i].Name.Name != s.Methods[k].Name.Name)
opaque MethodFine(b *build.Builder, f *ast.File, s *ast.ServerType, k int) bool = MethodLegal(s, k) && !s.Methods[k].Param.Empty && KnownData(b, f, VarIdent(s.Methods[k].Param).Name)
  && (VarIdent(s.Methods[k].Result).Name == "void" || !s.Methods[k].Result.Empty && KnownData(b, f, VarIdent(s.Methods[k].Result).Name))

func build.(*Builder).checkServerItem(b, file, server) (err)
verify C06 C07
opt unfold@C06 MethodFine
opt unfold@C07 GoodRef InMethods
requires PkgOK(b) && FileWell(file) && ServerTree(file, server)
modifies b.fset.last, any(ast.Ident.Obj)
ensures PkgOK(b)
ensures ObjStep(b, file)
ensures @C06 err == nil ==> forall k int :: 0 <= k < len(server.Methods) ==> MethodLegal(server, k)
ensures @C06 (forall k int :: 0 <= k < len(server.Methods) ==> MethodFine(b, file, server, k)) ==> err == nil
ensures @C07 err == nil ==> forall k int :: 0 <= k < len(server.Methods) ==> MethodNamed(b, file, server.Methods[k].Param)
ensures @C07 err == nil ==> forall k int :: 0 <= k < len(server.Methods) ==> VarIdent(server.Methods[k].Result).Name == "void" || MethodNamed(b, file, server.Methods[k].Result)
ensures @C07 err == nil ==> forall x every *ast.Ident :: InMethods(server, x) ==> Resolved(b, file, x, x.Obj)
invariant PkgOK(b) && ObjStep(b, file)
invariant @C06 [$n count]: forall k int :: 0 <= k < $n ==> MethodLegal(server, k)
invariant @C07 [$n count]: forall k int :: 0 <= k < $n ==> MethodNamed(b, file, server.Methods[k].Param)
invariant @C07 [$n count]: forall k int :: 0 <= k < $n ==> VarIdent(server.Methods[k].Result).Name == "void" || MethodNamed(b, file, server.Methods[k].Result)

# ---- declarations

opaque DataLegal(b *build.Builder, f *ast.File, i int, d *ast.DataType) bool = TagsUnique(d.Tags) && !Reserved(d.Name.Name) && !LaterType(f, i, d.Name.Name) && !ImportedType(b, f, d.Name.Name) && (forall k int :: 0 <= k < len(d.Extends) ==> ExtendLegal(d.Extends, k)) && (forall k int :: 0 <= k < len(d.Fields.List) ==> FieldLegal(d, k))
opaque DataFine(b *build.Builder, f *ast.File, i int, d *ast.DataType) bool = TagsUnique(d.Tags) && !Reserved(d.Name.Name) && !LaterType(f, i, d.Name.Name) && !ImportedType(b, f, d.Name.Name) && (forall k int :: 0 <= k < len(d.Extends) ==> ExtendLegal(d.Extends, k) && KnownData(b, f, d.Extends[k].Name.Name)) && (forall k int :: 0 <= k < len(d.Fields.List) ==> FieldFine(b, f, d, k))
opaque EnumLegal(b *build.Builder, f *ast.File, i int, d *ast.EnumType) bool = TagsUnique(d.Tags) && !Reserved(d.Name.Name) && !LaterType(f, i, d.Name.Name) && !ImportedType(b, f, d.Name.Name) && (forall k int :: 0 <= k < len(d.Items) ==> ItemLegal(d, k))
opaque ServerLegal(b *build.Builder, f *ast.File, i int, d *ast.ServerType) bool = TagsUnique(d.Tags) && !Reserved(d.Name.Name) && !LaterType(f, i, d.Name.Name) && !ImportedType(b, f, d.Name.Name) && (forall k int :: 0 <= k < len(d.Extends) ==> ExtendLegal(d.Extends, k)) && (forall k int :: 0 <= k < len(d.Methods) ==> MethodLegal(d, k))
opaque ServerFine(b *build.Builder, f *ast.File, i int, d *ast.ServerType) bool = TagsUnique(d.Tags) && !Reserved(d.Name.Name) && !LaterType(f, i, d.Name.Name) && !ImportedType(b, f, d.Name.Name) && (forall k int :: 0 <= k < len(d.Extends) ==> ExtendLegal(d.Extends, k) && KnownServer(b, f, d.Extends[k].Name.Name)) && (forall k int :: 0 <= k < len(d.Methods) ==> MethodFine(b, f, d, k))

pred NameWell(x *ast.Ident) = x != nil && x.Obj != nil && Role(x) == 0
pred DataWell(f *ast.File, d *ast.DataType) = d != nil && NameWell(d.Name) && TagsOK(d.Tags) && DataTree(f, d) && ExtendsWell(d.Extends) && ExtendsRefs(f, d.Extends, 2)
pred EnumWell(f *ast.File, d *ast.EnumType) = d != nil && NameWell(d.Name) && TagsOK(d.Tags) && ItemsWell(d) && ItemsTags(d)
pred ServerWell(f *ast.File, d *ast.ServerType) = d != nil && NameWell(d.Name) && TagsOK(d.Tags) && ServerTree(f, d) && ExtendsWell(d.Extends) && ExtendsRefs(f, d.Extends, 3)
pred DataOf(o *ast.Object, f *ast.File) = is(o.Data, *ast.File) && as(o.Data, *ast.File) == f

func build.(*Builder).checkData(b, file, data, index) (err)
verify C06 C07
opt unfold@C06 DataLegal DataFine
requires PkgOK(b) && FileWell(file) && SpecsOK(file) && index >= 0 && DataWell(file, data)
modifies b.fset.last, any(ast.Ident.Obj), any(ast.Object.Data)
ensures PkgOK(b)
ensures ObjStep(b, file)
ensures @C06 err == nil ==> DataLegal(b, file, index, data)
ensures @C06 DataFine(b, file, index, data) ==> err == nil
ensures @C07 err == nil ==> forall x every *ast.Ident :: InFields(data, x) ==> Resolved(b, file, x, x.Obj)
ensures @C07 err == nil ==> forall x every *ast.Ident :: InExtends(data.Extends, x) ==> Resolved(b, file, x, x.Obj)
ensures @C07 err == nil ==> DataOf(data.Name.Obj, file)
ensures forall o every *ast.Object :: unchanged(o.Data) || DataOf(o, file)

func build.(*Builder).checkServer(b, file, server, index) (err)
verify C06 C07
opt unfold@C06 ServerLegal ServerFine
requires PkgOK(b) && FileWell(file) && SpecsOK(file) && index >= 0 && ServerWell(file, server)
modifies b.fset.last, any(ast.Ident.Obj), any(ast.Object.Data)
ensures PkgOK(b)
ensures ObjStep(b, file)
ensures @C06 err == nil ==> ServerLegal(b, file, index, server)
ensures @C06 ServerFine(b, file, index, server) ==> err == nil
ensures @C07 err == nil ==> forall x every *ast.Ident :: InMethods(server, x) ==> Resolved(b, file, x, x.Obj)
ensures @C07 err == nil ==> forall x every *ast.Ident :: InExtends(server.Extends, x) ==> Resolved(b, file, x, x.Obj)
ensures @C07 err == nil ==> DataOf(server.Name.Obj, file)
ensures forall o every *ast.Object :: unchanged(o.Data) || DataOf(o, file)

func build.(*Builder).checkEnum(b, file, enum, index) (err)
verify C06 C07
opt unfold@C06 EnumLegal
requires PkgOK(b) && FileWell(file) && SpecsOK(file) && index >= 0 && EnumWell(file, enum)
modifies b.fset.last, any(ast.Object.Data)
ensures PkgOK(b)
ensures @C06 err == nil ==> EnumLegal(b, file, index, enum)
ensures @C06 EnumLegal(b, file, index, enum) ==> err == nil
ensures @C07 err == nil ==> DataOf(enum.Name.Obj, file)
ensures forall o every *ast.Object :: unchanged(o.Data) || DataOf(o, file)

# ---- a type declaration of any kind, a file, a package

opaque TypeTree(f *ast.File, t ast.Expr) bool = (is(t, *ast.DataType) ==> DataWell2(f, as(t, *ast.DataType))) && (is(t, *ast.EnumType) ==> EnumWell2(f, as(t, *ast.EnumType))) && (is(t, *ast.ServerType) ==> ServerWell2(f, as(t, *ast.ServerType)))
pred DataWell2(f *ast.File, d *ast.DataType) = d != nil && TagsOK(d.Tags) && DataTree(f, d) && ExtendsWell(d.Extends) && ExtendsRefs(f, d.Extends, 2)
pred EnumWell2(f *ast.File, d *ast.EnumType) = d != nil && d.Name != nil && TagsOK(d.Tags) && ItemsWell(d) && ItemsTags(d)
pred ServerWell2(f *ast.File, d *ast.ServerType) = d != nil && TagsOK(d.Tags) && ServerTree(f, d) && ExtendsWell(d.Extends) && ExtendsRefs(f, d.Extends, 3)
pred TypeName(t ast.Expr) *ast.Ident = if is(t, *ast.DataType) then as(t, *ast.DataType).Name else if is(t, *ast.EnumType) then as(t, *ast.EnumType).Name else as(t, *ast.ServerType).Name
pred IsDecl(t ast.Expr) = is(t, *ast.DataType) || is(t, *ast.EnumType) || is(t, *ast.ServerType)

# the rules a declaration keeps, and rules which are enough for it to be accepted
opaque TypeLegal(b *build.Builder, f *ast.File, i int, t ast.Expr) bool = (is(t, *ast.DataType) ==> DataLegal(b, f, i, as(t, *ast.DataType))) && (is(t, *ast.EnumType) ==> EnumLegal(b, f, i, as(t, *ast.EnumType))) && (is(t, *ast.ServerType) ==> ServerLegal(b, f, i, as(t, *ast.ServerType)))
opaque TypeFine(b *build.Builder, f *ast.File, i int, t ast.Expr) bool = (is(t, *ast.DataType) ==> DataFine(b, f, i, as(t, *ast.DataType))) && (is(t, *ast.EnumType) ==> EnumLegal(b, f, i, as(t, *ast.EnumType))) && (is(t, *ast.ServerType) ==> ServerFine(b, f, i, as(t, *ast.ServerType)))
# x is one of its references
opaque InType(t ast.Expr, x *ast.Ident) bool = is(t, *ast.DataType) && (InFields(as(t, *ast.DataType), x) || InExtends(as(t, *ast.DataType).Extends, x)) || is(t, *ast.ServerType) && (InMethods(as(t, *ast.ServerType), x) || InExtends(as(t, *ast.ServerType).Extends, x))

func build.(*Builder).checkType(b, file, expr, index) (err)
verify C06 C07
opt unfold TypeTree
opt unfold@C06 TypeLegal TypeFine
opt unfold@C07 InType
requires PkgOK(b) && FileWell(file) && SpecsOK(file) && index >= 0 && IsDecl(expr) && TypeTree(file, expr) && NameWell(TypeName(expr))
modifies b.fset.last, any(ast.Ident.Obj), any(ast.Object.Data)
ensures PkgOK(b)
ensures ObjStep(b, file)
ensures @C06 err == nil ==> TypeLegal(b, file, index, expr)
ensures @C06 TypeFine(b, file, index, expr) ==> err == nil
ensures @C07 err == nil ==> forall x every *ast.Ident :: InType(expr, x) ==> Resolved(b, file, x, x.Obj)
ensures @C07 err == nil ==> DataOf(TypeName(expr).Obj, file)
ensures forall o every *ast.Object :: unchanged(o.Data) || DataOf(o, file)

pred TypesWell(f *ast.File) = forall i int :: 0 <= i < len(f.Specs) && is(f.Specs[i], *ast.TypeSpec) ==> IsDecl(Tops(f, i).Type) && TypeTree(f, Tops(f, i).Type) && DeclName(TypeName(Tops(f, i).Type)) && TypeName(Tops(f, i).Type) != nil && Role(TypeName(Tops(f, i).Type)) == 0
# the name a type is declared under leads to its object; the checker leaves it so
ufun DeclName(*ast.Ident) bool
pred NamesSet(b *build.Builder) = forall x every *ast.Ident :: DeclName(x) ==> x.Obj != nil
opaque FileTree(f *ast.File) bool = FileWell(f) && SpecsOK(f) && TypesWell(f)
pred FileLegal(b *build.Builder, f *ast.File, n int) = forall i int :: 0 <= i < n && is(f.Specs[i], *ast.TypeSpec) ==> TypeLegal(b, f, i, Tops(f, i).Type)
pred FileFine(b *build.Builder, f *ast.File) = forall i int :: 0 <= i < len(f.Specs) && is(f.Specs[i], *ast.TypeSpec) ==> TypeFine(b, f, i, Tops(f, i).Type)
pred FileResolved(b *build.Builder, f *ast.File, n int) = forall i int :: 0 <= i < n && is(f.Specs[i], *ast.TypeSpec) ==> forall x every *ast.Ident :: InType(Tops(f, i).Type, x) ==> Resolved(b, f, x, x.Obj)

func build.(*Builder).checkFile(b, file, imports) (err)
verify C06 C07
opt unfold GoodRef FileTree
requires PkgOK(b) && FileTree(file) && NamesSet(b)
modifies b.fset.last, any(ast.Ident.Obj), any(ast.Object.Data)
ensures PkgOK(b)
ensures ObjStep(b, file)
ensures @C06 err == nil ==> FileLegal(b, file, len(file.Specs))
ensures @C06 FileFine(b, file) ==> err == nil
ensures @C07 err == nil ==> FileResolved(b, file, len(file.Specs))
invariant PkgOK(b) && ObjStep(b, file)
invariant NamesSet(b)
invariant @C06 [$n count]: FileLegal(b, file, $n)
invariant @C07 [$n count]: FileResolved(b, file, $n)

pred Owned(f *ast.File) = forall i int :: 0 <= i < len(f.Specs) && is(f.Specs[i], *ast.TypeSpec) ==> forall x every *ast.Ident :: InType(Tops(f, i).Type, x) ==> Owner(x) == f
opaque LegalFile(b *build.Builder, f *ast.File) bool = FileLegal(b, f, len(f.Specs))
opaque FineFile(b *build.Builder, f *ast.File) bool = FileFine(b, f)

func build.(*Builder).checkFiles(b) (err)
verify C06 C07
opt unfold@C07 GoodRef
opt unfold@C06 LegalFile FineFile
requires PkgOK(b) && forall n string :: n in b.pkg.Files ==> FileTree(b.pkg.Files[n])
requires NamesSet(b)
requires @C07 forall n string :: n in b.pkg.Files ==> Owned(b.pkg.Files[n])
modifies b.fset.last, any(ast.Ident.Obj), any(ast.Object.Data)
ensures PkgOK(b)
ensures @C06 err == nil ==> forall n string :: n in b.pkg.Files ==> LegalFile(b, b.pkg.Files[n])
ensures @C06 (forall n string :: n in b.pkg.Files ==> FineFile(b, b.pkg.Files[n])) ==> err == nil
ensures @C07 err == nil ==> forall n string :: n in b.pkg.Files ==> FileResolved(b, b.pkg.Files[n], len(b.pkg.Files[n].Specs))
invariant PkgOK(b)
invariant NamesSet(b)
invariant @C06 [$m mapiter]: forall n string :: visited($m, n) ==> LegalFile(b, b.pkg.Files[n])
invariant @C07 [$m mapiter]: forall n string :: visited($m, n) ==> FileResolved(b, b.pkg.Files[n], len(b.pkg.Files[n].Specs))
