# ---- pkg/build: inheritance of data and servers

# the spec a parent's name is bound to (C07), and what it has to be
pred ParentSpec(e *ast.Extends) *ast.TypeSpec = as(e.Name.Obj.Decl, *ast.TypeSpec)
pred BoundTo(e *ast.Extends) = e != nil && e.Name != nil && e.Name.Obj != nil && is(e.Name.Obj.Decl, *ast.TypeSpec) && ParentSpec(e) != nil
pred ExtendsOf(s *ast.TypeSpec) []*ast.Extends = if is(s.Type, *ast.DataType) then as(s.Type, *ast.DataType).Extends else as(s.Type, *ast.ServerType).Extends
pred HasParents(s *ast.TypeSpec) = is(s.Type, *ast.DataType) || is(s.Type, *ast.ServerType)
opaque SpecBound(s *ast.TypeSpec) bool = s != nil && s.Name != nil && (is(s.Type, *ast.DataType) ==> as(s.Type, *ast.DataType) != nil) && (is(s.Type, *ast.ServerType) ==> as(s.Type, *ast.ServerType) != nil) && (HasParents(s) ==> forall i int :: 0 <= i < len(ExtendsOf(s)) ==> BoundTo(ExtendsOf(s)[i]))
pred ListBound(l []*ast.TypeSpec) = forall k int :: 0 <= k < len(l) ==> SpecBound(l[k])

func ast.(*TypeSpec).Pos(s) (r)
verify C08
opt unfold SpecBound
requires SpecBound(s)

func build.extendsOf(spec) (l)
verify C08
opt unfold SpecBound
requires SpecBound(spec)
ensures HasParents(spec) ==> l == ExtendsOf(spec)
ensures !HasParents(spec) ==> len(l) == 0

# every parent has a level, below n
opaque Parent(s *ast.TypeSpec, p *ast.TypeSpec) bool = HasParents(s) && exists i int :: 0 <= i < len(ExtendsOf(s)) && ParentSpec(ExtendsOf(s)[i]) == p
opaque Below(s *ast.TypeSpec, level map[*ast.TypeSpec]int, n int) bool = forall p every *ast.TypeSpec :: Parent(s, p) ==> p in level && level[p] < n

func build.parentsBelow(spec, level, n) (r)
verify C08
opt unfold Below Parent SpecBound
requires SpecBound(spec) && level != nil
ensures r <==> Below(spec, level, n)
invariant [$n count]: forall i int :: 0 <= i < $n ==> HasParents(spec) && ParentSpec(ExtendsOf(spec)[i]) in level && level[ParentSpec(ExtendsOf(spec)[i])] < n

# ---- a list in which every parent is in the list and ranks lower: no cycle
ufun Rank(*ast.TypeSpec) int
ufun Listed(*ast.TypeSpec) bool
pred RankedBelow(s *ast.TypeSpec) = forall p every *ast.TypeSpec :: Parent(s, p) ==> Listed(p) && Rank(p) < Rank(s)
pred Ranked() = forall s every *ast.TypeSpec :: Listed(s) ==> Rank(s) >= 0 && RankedBelow(s)
pred Distinct(l []*ast.TypeSpec) = forall i int :: 0 <= i < len(l) ==> forall j int :: i < j < len(l) ==> l[i] != l[j]
pred Stuck(level map[*ast.TypeSpec]int, s *ast.TypeSpec) = Listed(s) && !(s in level)
pred AllStuck(level map[*ast.TypeSpec]int) = forall s every *ast.TypeSpec :: Stuck(level, s) ==> Rank(s) >= 0 && exists p every *ast.TypeSpec :: Stuck(level, p) && Rank(p) < Rank(s)

lemma NoLeast(level map[*ast.TypeSpec]int, k int) @C08
requires AllStuck(level) && k >= 0
ensures forall s every *ast.TypeSpec :: Stuck(level, s) ==> Rank(s) >= k
use k > 0 ==> NoLeast(level, k - 1)
decreases k

# all that is left over waits for something that is left over
pred Waiting(level map[*ast.TypeSpec]int, r []*ast.TypeSpec) = forall k int :: 0 <= k < len(r) ==> !(r[k] in level) && exists p every *ast.TypeSpec :: Parent(r[k], p) && !(p in level)
pred Covered(level map[*ast.TypeSpec]int, list []*ast.TypeSpec, r []*ast.TypeSpec) = forall k int :: 0 <= k < len(list) ==> list[k] in level || exists j int :: 0 <= j < len(r) && r[j] == list[k]
pred ListsAll(list []*ast.TypeSpec) = (forall s every *ast.TypeSpec :: Listed(s) ==> exists k int :: 0 <= k < len(list) && list[k] == s) && (forall k int :: 0 <= k < len(list) ==> Listed(list[k]))
lemma NoneLeft(level map[*ast.TypeSpec]int, list []*ast.TypeSpec, r []*ast.TypeSpec, k int) @C08
requires Ranked() && ListsAll(list) && Waiting(level, r) && Covered(level, list, r) && k >= 0
ensures AllStuck(level)
ensures forall s every *ast.TypeSpec :: Stuck(level, s) ==> Rank(s) >= k
use AllStuck(level) ==> NoLeast(level, k)

pred LevelsOK(level map[*ast.TypeSpec]int, n int) = forall s every *ast.TypeSpec :: s in level ==> 1 <= level[s] && level[s] < n && SpecBound(s) && Below(s, level, level[s])

# the level each type got in the end
ufun $Level(*ast.TypeSpec) int

# every parent has a lower level
pred Levelled(s *ast.TypeSpec) = Level[s] >= 1 && forall p every *ast.TypeSpec :: Parent(s, p) ==> 1 <= Level[p] && Level[p] < Level[s]

func build.withoutLevel(list, level) (r)
verify C08
opt unfold Below
requires ListBound(list) && Distinct(list) && level != nil && len(level) == 0
requires forall s every *ast.TypeSpec :: !(s in level)
modifies mapof(level), ghost(Level)
set forall s every *ast.TypeSpec :: Level[s] == level[s]
ensures len(r) == 0 ==> forall k int :: 0 <= k < len(list) ==> Levelled(list[k])
ensures len(r) == 0 ==> forall k int :: 0 <= k < len(list) ==> list[k] in level
ensures forall s every *ast.TypeSpec :: s in level ==> Below(s, level, level[s]) && level[s] >= 1
ensures Waiting(level, r)
ensures ListBound(r)
ensures Covered(level, list, r)
ensures (forall k int :: 0 <= k < len(list) ==> Listed(list[k])) ==> forall k int :: 0 <= k < len(r) ==> Listed(r[k])
ensures Ranked() && ListsAll(list) ==> len(r) == 0
use Ranked() && ListsAll(list) && len(r) > 0 ==> NoneLeft(level, list, r, Rank(r[0]) + 1)
invariant [$l phi []*ast.TypeSpec]: ListBound($l) && Distinct($l)
invariant [$l phi []*ast.TypeSpec]: forall k int :: 0 <= k < len($l) ==> !($l[k] in level)
invariant [$l []*ast.TypeSpec, $n count]: forall k int :: $n <= k < len($l) ==> !($l[k] in level)
invariant [$l []*ast.TypeSpec, $q phi []*ast.TypeSpec, $n count]: forall k int :: $n <= k < len($l) ==> forall j int :: 0 <= j < len($q) ==> $l[k] != $q[j]
invariant [$n intval]: $n >= 1
invariant [$n intval]: LevelsOK(level, $n)
invariant [$n intval]: LevelsOK(level, $n + 1)
invariant firm [$l phi []*ast.TypeSpec]: forall k int :: 0 <= k < len(list) ==> list[k] in level || exists j int :: 0 <= j < len($l) && $l[j] == list[k]
invariant firm [$l []*ast.TypeSpec, $q phi []*ast.TypeSpec, $n count]: forall k int :: 0 <= k < len(list) ==> list[k] in level || (exists j int :: $n <= j < len($l) && $l[j] == list[k]) || exists j int :: 0 <= j < len($q) && $q[j] == list[k]
invariant [$q phi []*ast.TypeSpec, $n count]: len($q) <= $n
invariant [$l phi []*ast.TypeSpec]: (forall k int :: 0 <= k < len(list) ==> Listed(list[k])) ==> forall k int :: 0 <= k < len($l) ==> Listed($l[k])
invariant [$q phi []*ast.TypeSpec, $n count, $m intval]: len($q) == $n ==> LevelsOK(level, $m)
invariant [$l []*ast.TypeSpec, $q phi []*ast.TypeSpec, $n count, $m intval]: len($q) == $n ==> forall j int :: 0 <= j < $n ==> $q[j] == $l[j] && !Below($l[j], level, $m)
decreases [$l phi []*ast.TypeSpec]: len($l)

# ---- the whole package: the types of all files, parents always among them (names resolved, C07), each declared once
pred SpecAt(f *ast.File, i int) *ast.TypeSpec = as(f.Specs[i], *ast.TypeSpec)
ufun FileName(*ast.File) string
ufun SpecFile(*ast.TypeSpec) *ast.File
ufun SpecIndex(*ast.TypeSpec) int
opaque FileBound(f *ast.File) bool = f != nil && forall i int :: 0 <= i < len(f.Specs) && is(f.Specs[i], *ast.TypeSpec) ==> SpecBound(SpecAt(f, i)) && SpecFile(SpecAt(f, i)) == f && SpecIndex(SpecAt(f, i)) == i && Listed(SpecAt(f, i))
pred InFile(f *ast.File, s *ast.TypeSpec) = SpecFile(s) == f && 0 <= SpecIndex(s) < len(f.Specs) && is(f.Specs[SpecIndex(s)], *ast.TypeSpec) && SpecAt(f, SpecIndex(s)) == s

pred AllOf(f *ast.File, n int, l []*ast.TypeSpec) = forall i int :: 0 <= i < n && is(f.Specs[i], *ast.TypeSpec) ==> exists k int :: 0 <= k < len(l) && l[k] == SpecAt(f, i)

func build.typesOf(file) (l)
verify C08
opt unfold FileBound
requires FileBound(file)
ensures forall k int :: 0 <= k < len(l) ==> InFile(file, l[k]) && Listed(l[k]) && SpecBound(l[k])
ensures Distinct(l)
ensures forall s every *ast.TypeSpec :: Listed(s) && InFile(file, s) ==> exists k int :: 0 <= k < len(l) && l[k] == s
invariant [$l phi []*ast.TypeSpec]: forall k int :: 0 <= k < len($l) ==> InFile(file, $l[k]) && Listed($l[k]) && SpecBound($l[k])
invariant [$l phi []*ast.TypeSpec, $n count]: forall k int :: 0 <= k < len($l) ==> SpecIndex($l[k]) < $n
invariant [$l phi []*ast.TypeSpec]: Distinct($l)
invariant firm [$l phi []*ast.TypeSpec, $n count]: AllOf(file, $n, $l)

func build.(*Builder).checkCycles(b) (err)
verify C08
requires BuildOK(b) && b.pkg != nil && forall n string :: n in b.pkg.Files ==> FileBound(b.pkg.Files[n]) && FileName(b.pkg.Files[n]) == n
requires forall s every *ast.TypeSpec :: Listed(s) ==> FileName(SpecFile(s)) in b.pkg.Files && b.pkg.Files[FileName(SpecFile(s))] == SpecFile(s) && InFile(SpecFile(s), s)
modifies b.fset.last, ghost(Level)
ensures Ranked() ==> err == nil
ensures err == nil ==> forall s every *ast.TypeSpec :: Listed(s) ==> Levelled(s)
invariant [$l phi []*ast.TypeSpec]: forall k int :: 0 <= k < len($l) ==> Listed($l[k]) && SpecBound($l[k])
invariant [$l phi []*ast.TypeSpec]: Distinct($l)
invariant [$l phi []*ast.TypeSpec, $m mapiter]: forall k int :: 0 <= k < len($l) ==> visited($m, FileName(SpecFile($l[k])))
invariant firm [$l phi []*ast.TypeSpec, $m mapiter]: forall s every *ast.TypeSpec :: Listed(s) && visited($m, FileName(SpecFile(s))) ==> exists k int :: 0 <= k < len($l) && $l[k] == s

# ---- flattening: what a data type has by itself and through its parents

# below: the checked types, each with a rank above those of its parents (checkCycles)
ufun DataRank(*ast.DataType) int
ufun Sound(*ast.DataType) bool
pred DataOfExt(e *ast.Extends) *ast.DataType = as(ParentSpec(e).Type, *ast.DataType)
pred DataParents(d *ast.DataType) = forall i int :: 0 <= i < len(d.Extends) ==> BoundTo(d.Extends[i]) && is(ParentSpec(d.Extends[i]).Type, *ast.DataType) && Sound(DataOfExt(d.Extends[i])) && DataRank(DataOfExt(d.Extends[i])) < DataRank(d)
pred OwnFields(d *ast.DataType) = d != nil && d.Fields != nil && forall i int :: 0 <= i < len(d.Fields.List) ==> d.Fields.List[i] != nil && d.Fields.List[i].Name != nil
opaque DataSound(d *ast.DataType) bool = DataRank(d) >= 0 && OwnFields(d) && DataParents(d)
# the names a data type has, and which field each stands for: that of the first parent which has it, else its own
ufun HasField(*ast.DataType, string) bool
ufun FieldOf(*ast.DataType, string) *ast.Field
ufun DataFor(*ast.DataType, string) *ast.DataType
rec UpHas(d *ast.DataType, k int, n string) bool = k > 0 && (UpHas(d, k - 1, n) || HasField(DataOfExt(d.Extends[k - 1]), n))
rec OwnHas(d *ast.DataType, k int, n string) bool = k > 0 && (OwnHas(d, k - 1, n) || d.Fields.List[k - 1].Name.Name == n)
rec UpField(d *ast.DataType, k int, n string) *ast.Field = if k <= 0 then nil else if UpHas(d, k - 1, n) then UpField(d, k - 1, n) else FieldOf(DataOfExt(d.Extends[k - 1]), n)
rec UpData(d *ast.DataType, k int, n string) *ast.DataType = if k <= 0 then nil else if UpHas(d, k - 1, n) then UpData(d, k - 1, n) else DataFor(DataOfExt(d.Extends[k - 1]), n)
rec OwnField(d *ast.DataType, k int, n string) *ast.Field = if k <= 0 then nil else if OwnHas(d, k - 1, n) then OwnField(d, k - 1, n) else d.Fields.List[k - 1]
pred HasUp(d *ast.DataType, n string) = UpHas(d, len(d.Extends), n)
opaque HasDef(d *ast.DataType) bool = forall n string :: (HasField(d, n) <==> HasUp(d, n) || OwnHas(d, len(d.Fields.List), n)) && FieldOf(d, n) == (if HasUp(d, n) then UpField(d, len(d.Extends), n) else OwnField(d, len(d.Fields.List), n)) && DataFor(d, n) == (if HasUp(d, n) then UpData(d, len(d.Extends), n) else d)
pred AllSound() = forall d every *ast.DataType :: Sound(d) ==> DataSound(d) && HasDef(d)

# what has been passed on, by name
ufun $Passed(string) bool
ufun $PassedField(string) *ast.Field
ufun $PassedData(string) *ast.DataType
# at which place it was passed on
ufun $At(string) int
ufun $Count(int) int
# the error the callback returned
ufun $Failed(int) error
extern callback:build.enumField(call, field, data) (err)
requires field != nil && field.Name != nil && data != nil && !Passed[field.Name.Name] && Failed[0] == nil
modifies ghost(Passed), ghost(PassedField), ghost(PassedData), ghost(At), ghost(Count), ghost(Failed)
ensures err == nil ==> forall n string :: Passed[n] <==> old(Passed[n]) || n == field.Name.Name
ensures (err == nil <==> Failed[0] == nil) && (err != nil ==> err == Failed[0])
ensures Count[0] == old(Count[0]) + 1 && At[field.Name.Name] == old(Count[0])
ensures forall n string :: n != field.Name.Name ==> At[n] == old(At[n])
ensures err == nil ==> PassedField[field.Name.Name] == field && PassedData[field.Name.Name] == data
ensures forall n string :: n != field.Name.Name ==> PassedField[n] == old(PassedField[n]) && PassedData[n] == old(PassedData[n])

pred SamePassed(n string) = PassedField[n] == old(PassedField[n]) && PassedData[n] == old(PassedData[n])

func build.enumField(typ, fields, call) (err)
verify C08
opt unfold DataSound HasDef
requires AllSound() && Sound(typ) && fields != nil && call != nil && Failed[0] == nil
requires forall n string :: n in fields <==> Passed[n]
modifies mapof(fields), ghost(Passed), ghost(PassedField), ghost(PassedData), ghost(At), ghost(Count), ghost(Failed)
decreases DataRank(typ)
ensures err == nil ==> forall n string :: n in fields <==> Passed[n]
ensures err == nil ==> forall n string :: n in fields <==> old(n in fields) || HasField(typ, n)
ensures err == nil ==> forall n string :: old(n in fields) ==> PassedField[n] == old(PassedField[n]) && PassedData[n] == old(PassedData[n])
ensures err == nil ==> forall n string :: HasField(typ, n) && !old(n in fields) ==> PassedField[n] == FieldOf(typ, n) && PassedData[n] == DataFor(typ, n)
invariant forall n string :: n in fields <==> Passed[n]
invariant forall n string :: old(n in fields) ==> PassedField[n] == old(PassedField[n]) && PassedData[n] == old(PassedData[n])
invariant [$k count]: forall n string :: n in fields <==> old(n in fields) || UpHas(typ, $k, n)
invariant [$k count]: forall n string :: UpHas(typ, $k, n) && !old(n in fields) ==> PassedField[n] == UpField(typ, $k, n) && PassedData[n] == UpData(typ, $k, n)
invariant [$k count]: forall n string :: n in fields <==> old(n in fields) || HasUp(typ, n) || OwnHas(typ, $k, n)
invariant [$k count]: forall n string :: HasUp(typ, n) && !old(n in fields) ==> PassedField[n] == UpField(typ, len(typ.Extends), n) && PassedData[n] == UpData(typ, len(typ.Extends), n)
invariant [$k count]: forall n string :: OwnHas(typ, $k, n) && !HasUp(typ, n) && !old(n in fields) ==> PassedField[n] == OwnField(typ, $k, n) && PassedData[n] == typ
ensures err == nil ==> forall n string :: old(n in fields) ==> At[n] == old(At[n])
ensures err == nil ==> forall n string :: HasField(typ, n) && !old(n in fields) ==> old(Count[0]) <= At[n] && At[n] < Count[0]
ensures (err == nil <==> Failed[0] == nil) && (err != nil ==> err == Failed[0])
invariant Failed[0] == nil
ensures Count[0] >= old(Count[0])
ensures err == nil ==> forall n string :: forall m string :: HasUp(typ, n) && HasField(typ, m) && !HasUp(typ, m) && !old(n in fields) && !old(m in fields) ==> At[n] < At[m]
invariant Count[0] >= old(Count[0])
invariant forall n string :: old(n in fields) ==> At[n] == old(At[n])
invariant forall n string :: n in fields && !old(n in fields) ==> old(Count[0]) <= At[n] && At[n] < Count[0]
invariant [$k count]: forall n string :: forall m string :: HasUp(typ, n) && OwnHas(typ, $k, m) && !HasUp(typ, m) && !old(n in fields) && !old(m in fields) ==> At[n] < At[m]

func build.EnumField(typ, call) (err)
verify C08
requires AllSound() && Sound(typ) && call != nil && Failed[0] == nil && forall n string :: !Passed[n]
modifies ghost(Passed), ghost(PassedField), ghost(PassedData), ghost(At), ghost(Count), ghost(Failed)
ensures (err == nil <==> Failed[0] == nil) && (err != nil ==> err == Failed[0])
ensures err == nil ==> forall n string :: Passed[n] <==> HasField(typ, n)
ensures err == nil ==> forall n string :: HasField(typ, n) ==> PassedField[n] == FieldOf(typ, n) && PassedData[n] == DataFor(typ, n)
ensures err == nil ==> forall n string :: forall m string :: HasUp(typ, n) && HasField(typ, m) && !HasUp(typ, m) ==> At[n] < At[m]

opaque NoOwn(d *ast.DataType, n string) bool = forall j int :: 0 <= j < len(d.Fields.List) ==> d.Fields.List[j].Name.Name != n

func build.CheckSuperField(name, typ) (r)
verify C08
opt unfold DataSound NoOwn
requires AllSound() && Sound(typ)
ensures !r ==> forall i int :: 0 <= i < len(typ.Extends) ==> NoOwn(DataOfExt(typ.Extends[i]), name)
ensures r ==> exists i int :: 0 <= i < len(typ.Extends) && !NoOwn(DataOfExt(typ.Extends[i]), name)
invariant [$k count]: forall i int :: 0 <= i < $k ==> NoOwn(DataOfExt(typ.Extends[i]), name)
invariant [$k count, $l []*ast.Field]: forall i int :: 0 <= i < $k ==> $l[i].Name.Name != name

# ---- servers: a method of its own comes first, then those of its parents
ufun ServerRank(*ast.ServerType) int
ufun SoundServer(*ast.ServerType) bool
pred ServerOfExt(e *ast.Extends) *ast.ServerType = as(ParentSpec(e).Type, *ast.ServerType)
pred ServerParents(d *ast.ServerType) = forall i int :: 0 <= i < len(d.Extends) ==> BoundTo(d.Extends[i]) && is(ParentSpec(d.Extends[i]).Type, *ast.ServerType) && SoundServer(ServerOfExt(d.Extends[i])) && ServerRank(ServerOfExt(d.Extends[i])) < ServerRank(d)
pred OwnMethods(d *ast.ServerType) = d != nil && forall i int :: 0 <= i < len(d.Methods) ==> d.Methods[i] != nil && d.Methods[i].Name != nil
opaque ServerSound(d *ast.ServerType) bool = ServerRank(d) >= 0 && OwnMethods(d) && ServerParents(d)
ufun HasMethod(*ast.ServerType, string) bool
ufun MethodOf(*ast.ServerType, string) *ast.FuncType
ufun ServerFor(*ast.ServerType, string) *ast.ServerType
rec UpHasM(d *ast.ServerType, k int, n string) bool = k > 0 && (UpHasM(d, k - 1, n) || HasMethod(ServerOfExt(d.Extends[k - 1]), n))
rec OwnHasM(d *ast.ServerType, k int, n string) bool = k > 0 && (OwnHasM(d, k - 1, n) || d.Methods[k - 1].Name.Name == n)
rec UpMethod(d *ast.ServerType, k int, n string) *ast.FuncType = if k <= 0 then nil else if UpHasM(d, k - 1, n) then UpMethod(d, k - 1, n) else MethodOf(ServerOfExt(d.Extends[k - 1]), n)
rec UpServer(d *ast.ServerType, k int, n string) *ast.ServerType = if k <= 0 then nil else if UpHasM(d, k - 1, n) then UpServer(d, k - 1, n) else ServerFor(ServerOfExt(d.Extends[k - 1]), n)
rec OwnMethod(d *ast.ServerType, k int, n string) *ast.FuncType = if k <= 0 then nil else if OwnHasM(d, k - 1, n) then OwnMethod(d, k - 1, n) else d.Methods[k - 1]
pred HasOwnM(d *ast.ServerType, n string) = OwnHasM(d, len(d.Methods), n)
opaque HasDefM(d *ast.ServerType) bool = forall n string :: (HasMethod(d, n) <==> HasOwnM(d, n) || UpHasM(d, len(d.Extends), n)) && MethodOf(d, n) == (if HasOwnM(d, n) then OwnMethod(d, len(d.Methods), n) else UpMethod(d, len(d.Extends), n)) && ServerFor(d, n) == (if HasOwnM(d, n) then d else UpServer(d, len(d.Extends), n))
pred AllServers() = forall d every *ast.ServerType :: SoundServer(d) ==> ServerSound(d) && HasDefM(d)

ufun $PassedMethod(string) *ast.FuncType
ufun $PassedServer(string) *ast.ServerType
extern callback:build.enumMethod(call, method, server) (err)
requires method != nil && method.Name != nil && server != nil && !Passed[method.Name.Name] && Failed[0] == nil
modifies ghost(Passed), ghost(PassedMethod), ghost(PassedServer), ghost(At), ghost(Count), ghost(Failed)
ensures err == nil ==> forall n string :: Passed[n] <==> old(Passed[n]) || n == method.Name.Name
ensures (err == nil <==> Failed[0] == nil) && (err != nil ==> err == Failed[0])
ensures Count[0] == old(Count[0]) + 1 && At[method.Name.Name] == old(Count[0])
ensures forall n string :: n != method.Name.Name ==> At[n] == old(At[n])
ensures err == nil ==> PassedMethod[method.Name.Name] == method && PassedServer[method.Name.Name] == server
ensures forall n string :: n != method.Name.Name ==> PassedMethod[n] == old(PassedMethod[n]) && PassedServer[n] == old(PassedServer[n])

func build.enumMethod(typ, fields, call) (err)
verify C08
opt unfold ServerSound HasDefM
requires AllServers() && SoundServer(typ) && fields != nil && call != nil && Failed[0] == nil
requires forall n string :: n in fields <==> Passed[n]
modifies mapof(fields), ghost(Passed), ghost(PassedMethod), ghost(PassedServer), ghost(At), ghost(Count), ghost(Failed)
decreases ServerRank(typ)
ensures err == nil ==> forall n string :: n in fields <==> Passed[n]
ensures err == nil ==> forall n string :: n in fields <==> old(n in fields) || HasMethod(typ, n)
ensures err == nil ==> forall n string :: old(n in fields) ==> PassedMethod[n] == old(PassedMethod[n]) && PassedServer[n] == old(PassedServer[n])
ensures err == nil ==> forall n string :: HasMethod(typ, n) && !old(n in fields) ==> PassedMethod[n] == MethodOf(typ, n) && PassedServer[n] == ServerFor(typ, n)
ensures err == nil ==> forall n string :: old(n in fields) ==> At[n] == old(At[n])
ensures err == nil ==> forall n string :: HasMethod(typ, n) && !old(n in fields) ==> old(Count[0]) <= At[n] && At[n] < Count[0]
ensures (err == nil <==> Failed[0] == nil) && (err != nil ==> err == Failed[0])
invariant Failed[0] == nil
ensures Count[0] >= old(Count[0])
ensures err == nil ==> forall n string :: forall m string :: HasOwnM(typ, n) && HasMethod(typ, m) && !HasOwnM(typ, m) && !old(n in fields) && !old(m in fields) ==> At[n] < At[m]
invariant forall n string :: n in fields <==> Passed[n]
invariant forall n string :: old(n in fields) ==> PassedMethod[n] == old(PassedMethod[n]) && PassedServer[n] == old(PassedServer[n])
invariant [$k count]: forall n string :: n in fields <==> old(n in fields) || OwnHasM(typ, $k, n)
invariant [$k count]: forall n string :: OwnHasM(typ, $k, n) && !old(n in fields) ==> PassedMethod[n] == OwnMethod(typ, $k, n) && PassedServer[n] == typ
invariant [$k count]: forall n string :: n in fields <==> old(n in fields) || HasOwnM(typ, n) || UpHasM(typ, $k, n)
invariant [$k count]: forall n string :: HasOwnM(typ, n) && !old(n in fields) ==> PassedMethod[n] == OwnMethod(typ, len(typ.Methods), n) && PassedServer[n] == typ
invariant [$k count]: forall n string :: UpHasM(typ, $k, n) && !HasOwnM(typ, n) && !old(n in fields) ==> PassedMethod[n] == UpMethod(typ, $k, n) && PassedServer[n] == UpServer(typ, $k, n)
invariant Count[0] >= old(Count[0])
invariant forall n string :: old(n in fields) ==> At[n] == old(At[n])
invariant forall n string :: n in fields && !old(n in fields) ==> old(Count[0]) <= At[n] && At[n] < Count[0]
invariant [$k count]: forall n string :: forall m string :: HasOwnM(typ, n) && UpHasM(typ, $k, m) && !HasOwnM(typ, m) && !old(n in fields) && !old(m in fields) ==> At[n] < At[m]

func build.EnumMethod(typ, call) (err)
verify C08
requires AllServers() && SoundServer(typ) && call != nil && Failed[0] == nil && forall n string :: !Passed[n]
modifies ghost(Passed), ghost(PassedMethod), ghost(PassedServer), ghost(At), ghost(Count), ghost(Failed)
ensures (err == nil <==> Failed[0] == nil) && (err != nil ==> err == Failed[0])
ensures err == nil ==> forall n string :: Passed[n] <==> HasMethod(typ, n)
ensures err == nil ==> forall n string :: HasMethod(typ, n) ==> PassedMethod[n] == MethodOf(typ, n) && PassedServer[n] == ServerFor(typ, n)
ensures err == nil ==> forall n string :: forall m string :: HasOwnM(typ, n) && HasMethod(typ, m) && !HasOwnM(typ, m) ==> At[n] < At[m]

opaque NoOwnM(d *ast.ServerType, n string) bool = forall j int :: 0 <= j < len(d.Methods) ==> d.Methods[j].Name.Name != n

func build.CheckSuperMethod(name, typ) (r)
verify C08
opt unfold ServerSound NoOwnM
requires AllServers() && SoundServer(typ)
ensures !r ==> forall i int :: 0 <= i < len(typ.Extends) ==> NoOwnM(ServerOfExt(typ.Extends[i]), name)
ensures r ==> exists i int :: 0 <= i < len(typ.Extends) && !NoOwnM(ServerOfExt(typ.Extends[i]), name)
invariant [$k count]: forall i int :: 0 <= i < $k ==> NoOwnM(ServerOfExt(typ.Extends[i]), name)
invariant [$k count, $l []*ast.FuncType]: forall i int :: 0 <= i < $k ==> $l[i].Name.Name != name
