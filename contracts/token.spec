# ---- pkg/token: source positions

pred Sorted(a []int) = forall i int :: 0 <= i < len(a) ==> forall j int :: i < j < len(a) ==> a[i] < a[j]

# representation invariant of a source file's position table
pred FileOK(f *token.File) = f != nil && f.base >= 1 && f.size >= 0 && len(f.lines) >= 1 && f.lines[0] == 0 && Sorted(f.lines)
  && (forall i int :: 0 <= i < len(f.lines) ==> f.lines[i] <= f.size)
  && (forall i int :: 0 <= i < len(f.infos) ==> forall j int :: i < j < len(f.infos) ==> f.infos[i].Offset < f.infos[j].Offset)
  && (forall i int :: 0 <= i < len(f.infos) ==> f.infos[i].Offset >= 0)

func token.(*File).AddLine(f, offset)
opt inlinecalls 1
verify C03
requires FileOK(f)
requires offset >= 0
modifies f.lines, elems(f.lines)
ensures FileOK(f)
ensures old(f.lines[len(f.lines)-1] < offset && offset < f.size) ==> len(f.lines) == old(len(f.lines)) + 1 && f.lines[len(f.lines)-1] == offset
ensures !old(f.lines[len(f.lines)-1] < offset && offset < f.size) ==> len(f.lines) == old(len(f.lines))
ensures forall i int :: 0 <= i < old(len(f.lines)) ==> f.lines[i] == old(f.lines[i])

func token.(*File).AddLineColumnInfo(f, offset, filename, line, column)
verify C03
requires FileOK(f)
requires offset >= 0
modifies f.infos, elems(f.infos)
ensures FileOK(f)

func token.(*File).Pos(f, offset) (p)
verify C03
requires f != nil && offset <= f.size
ensures p == f.base + offset

func token.(*File).Offset(f, p) (o)
verify C03
requires f != nil && f.base <= p <= f.base + f.size
ensures o == p - f.base

func token.searchInts(a, x) (r)
verify C03
requires Sorted(a)
ensures 0 - 1 <= r < len(a)
ensures forall i int :: 0 <= i <= r ==> a[i] <= x
ensures forall i int :: r < i < len(a) ==> a[i] > x
invariant [$i phi, $j phi]: 0 <= $i && $i <= $j && $j <= len(a)
invariant [$i phi]: forall k int :: 0 <= k < $i ==> a[k] <= x
invariant [$j phi]: forall k int :: $j <= k < len(a) ==> a[k] > x

func token.(*File).unpack(f, offset, adjusted) (filename, line, column)
verify C03
requires FileOK(f)
requires 0 <= offset <= f.size
ensures !adjusted || len(f.infos) == 0 ==> filename == f.name && 1 <= line <= len(f.lines) && f.lines[line-1] <= offset && column == offset - f.lines[line-1] + 1
ensures (!adjusted || len(f.infos) == 0) && line < len(f.lines) ==> offset < f.lines[line]

func token.(*File).SetLinesForContent(f, content)
verify C03
requires FileOK(f)
requires f.size == len(content)
modifies f.lines
ensures len(content) > 0 ==> FileOK(f)
invariant [$l []int, $n phi, $k count]: Sorted($l) && $n <= $k && (forall i int :: 0 <= i < len($l) ==> $l[i] < $k) && ($k == 0 ==> $n == 0 && len($l) == 0) && ($k > 0 ==> len($l) >= 1 && $l[0] == 0) && ($n >= 0 && $k > 0 ==> $n == $k)

func token.Lookup(ident) (t)
pure
verify C02
ensures ident == "import" ==> t == token.IMPORT
ensures ident == "package" ==> t == token.PACKAGE
ensures ident == "data" ==> t == token.DATA
ensures ident == "server" ==> t == token.SERVER
ensures ident == "enum" ==> t == token.ENUM
ensures ident != "import" && ident != "package" && ident != "data" && ident != "server" && ident != "enum" ==> t == token.IDENT

# ---- file sets: every position belongs to at most one file, and is mapped by it

pred SetOK(s *token.FileSet) = s != nil && s.base >= 1
  && (forall i int :: 0 <= i < len(s.files) ==> s.files[i] != nil && allocated(s.files[i]) && s.files[i].base >= 1 && s.files[i].size >= 0 && s.files[i].base + s.files[i].size < s.base)
  && (forall i int, j int :: 0 <= i < j < len(s.files) ==> s.files[i].base + s.files[i].size < s.files[j].base)
  && (s.last != nil ==> exists i int :: 0 <= i < len(s.files) && s.files[i] == s.last)

func token.NewFileSet() (s)
verify C03
ensures SetOK(s) && len(s.files) == 0

func token.(*FileSet).AddFile(s, filename, base, size) (f)
verify C03
requires SetOK(s)
requires base < 0 && size >= 0
modifies s.base, s.files, elems(s.files), s.last
ensures SetOK(s)
ensures fresh(f) && len(f.lines) == 1 && fresh(f.lines) && f.infos == nil
ensures FileOK(f) && f.name == filename && f.size == size && f.base == old(s.base) && len(f.infos) == 0
ensures len(s.files) == old(len(s.files)) + 1 && s.files[old(len(s.files))] == f && s.last == f
ensures forall i int :: 0 <= i < old(len(s.files)) ==> s.files[i] == old(s.files[i])

func token.searchFiles(a, x) (r)
verify C03
requires forall i int :: 0 <= i < len(a) ==> a[i] != nil
requires forall i int, j int :: 0 <= i < j < len(a) ==> a[i].base < a[j].base
ensures 0 - 1 <= r < len(a)
ensures forall i int :: 0 <= i <= r ==> a[i].base <= x
ensures forall i int :: r < i < len(a) ==> a[i].base > x

# the tables of every file of the set are well formed (maintained by AddLine, AddLineColumnInfo, SetLinesForContent)
pred SetDeep(s *token.FileSet) = SetOK(s) && forall i int :: 0 <= i < len(s.files) ==> FileOK(s.files[i])
pred PosIn(f *token.File, p int, pos token.Position) = pos.Offset == p - f.base && (len(f.infos) == 0 ==> pos.Filename == f.name && 1 <= pos.Line <= len(f.lines) && f.lines[pos.Line-1] <= pos.Offset && pos.Column == pos.Offset - f.lines[pos.Line-1] + 1 && (pos.Line < len(f.lines) ==> pos.Offset < f.lines[pos.Line]))

func token.(*FileSet).file(s, p) (f)
verify C03
requires SetOK(s)
modifies s.last
ensures SetOK(s)
ensures f != nil ==> f.base <= p <= f.base + f.size && exists i int :: 0 <= i < len(s.files) && s.files[i] == f
ensures forall i int :: 0 <= i < len(s.files) && s.files[i].base <= p <= s.files[i].base + s.files[i].size ==> f == s.files[i]
requires @C03 SetDeep(s)
ensures @C03 SetDeep(s) && (f != nil ==> FileOK(f))

func token.(*File).position(f, p, adjusted) (pos)
verify C03
requires FileOK(f)
requires f.base <= p <= f.base + f.size
ensures pos.Offset == p - f.base
ensures !adjusted || len(f.infos) == 0 ==> pos.Filename == f.name && 1 <= pos.Line <= len(f.lines) && f.lines[pos.Line-1] <= pos.Offset && pos.Column == pos.Offset - f.lines[pos.Line-1] + 1
ensures (!adjusted || len(f.infos) == 0) && pos.Line < len(f.lines) ==> pos.Offset < f.lines[pos.Line]

func token.(*File).PositionFor(f, p, adjusted) (pos)
verify C03
requires FileOK(f)
requires p != 0 ==> f.base <= p <= f.base + f.size
ensures p == 0 ==> pos.Line == 0
ensures p != 0 ==> pos.Offset == p - f.base
ensures p != 0 && (!adjusted || len(f.infos) == 0) ==> pos.Filename == f.name && 1 <= pos.Line <= len(f.lines) && f.lines[pos.Line-1] <= pos.Offset && pos.Column == pos.Offset - f.lines[pos.Line-1] + 1
ensures p != 0 && (!adjusted || len(f.infos) == 0) && pos.Line < len(f.lines) ==> pos.Offset < f.lines[pos.Line]

func token.(*File).Position(f, p) (pos)
verify C03
requires FileOK(f)
requires p != 0 ==> f.base <= p <= f.base + f.size
ensures p == 0 ==> pos.Line == 0
ensures p != 0 ==> pos.Offset == p - f.base
ensures p != 0 && len(f.infos) == 0 ==> pos.Filename == f.name && 1 <= pos.Line <= len(f.lines) && f.lines[pos.Line-1] <= pos.Offset && pos.Column == pos.Offset - f.lines[pos.Line-1] + 1
ensures p != 0 && len(f.infos) == 0 && pos.Line < len(f.lines) ==> pos.Offset < f.lines[pos.Line]

func token.(*FileSet).PositionFor(s, p, adjusted) (pos)
verify C03
requires SetOK(s)
requires @C03 SetDeep(s)
modifies s.last
ensures SetOK(s)
ensures @C03 p == 0 ==> pos.Line == 0
ensures @C03 forall i int :: p != 0 && adjusted && 0 <= i < len(s.files) && s.files[i].base <= p <= s.files[i].base + s.files[i].size ==> PosIn(s.files[i], p, pos)

func token.(*FileSet).Position(s, p) (pos)
verify C03
requires SetOK(s)
requires @C03 SetDeep(s)
modifies s.last
ensures SetOK(s)
ensures @C03 p == 0 ==> pos.Line == 0
ensures @C03 forall i int :: p != 0 && 0 <= i < len(s.files) && s.files[i].base <= p <= s.files[i].base + s.files[i].size ==> PosIn(s.files[i], p, pos)
