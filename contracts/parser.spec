# ---- pkg/parser

modset scanState = $.ch, $.offset, $.rdOffset, $.lineOffset, $.ErrorCount, $.insertSemi, $.file.lines, elems($.file.lines), $.file.infos, elems($.file.infos)
modset parserState = $.pos, $.tok, $.lit, $.comments, elems($.comments), $.leadComment, $.lineComment, $.errors, elems($.errors), $.syncPos, $.syncCnt, $.indent, $.scanner.ch, $.scanner.offset, $.scanner.rdOffset, $.scanner.lineOffset, $.scanner.ErrorCount, $.scanner.insertSemi, $.file.lines, elems($.file.lines), $.file.infos, elems($.file.infos)

# the current name, number or double-quoted string is the text of the source from its position to where the scanner stopped
pred Quoted(p *parser.parser) = p.scanner.src[p.pos - p.file.base] == 34
pred TokText(p *parser.parser) = p.tok == token.IDENT || p.tok == token.INT || p.tok == token.STRING ==>
  p.pos != 0 && p.pos - p.file.base < p.scanner.offset && (p.tok == token.STRING && !Quoted(p) || p.lit == str(p.scanner.src[p.pos - p.file.base : p.scanner.offset]))
# text t is what the source holds at position pos
pred At(p *parser.parser, pos int, t string) = p.file.base <= pos && pos - p.file.base + len(t) <= len(p.scanner.src) && t == str(p.scanner.src[pos - p.file.base : pos - p.file.base + len(t)])
pred IdentAt(p *parser.parser, x *ast.Ident) = At(p, x.NamePos, x.Name)
pred IntAt(p *parser.parser, x *ast.BasicLit) = x.Kind == token.INT && At(p, x.ValuePos, x.Value)
pred StrAt(p *parser.parser, x *ast.BasicLit) = x.Kind == token.STRING && p.file.base <= x.ValuePos && x.ValuePos - p.file.base < len(p.scanner.src) && (p.scanner.src[x.ValuePos - p.file.base] == 34 ==> At(p, x.ValuePos, x.Value))
pred NoErr(p *parser.parser) = Errs(p) == old(Errs(p))
# the parser's state between two tokens, in the mode the compiler uses (all errors, comments)
pred ParserOK(p *parser.parser) = p != nil && ScanOK(addr(p.scanner)) && p.scanner.file == p.file && p.scanner.mode == 1
  && p.mode == 36 && !p.trace && p.indent >= 0
  && (p.pos == 0 || p.file.base <= p.pos <= p.file.base + p.file.size)
  && (p.tok == token.COMMENT ==> len(p.lit) >= 2) && len(p.unresolved) == 0 && p.labelScope == nil && TokText(p)
# how much parsing is left
pred Left(p *parser.parser) int = ScanLeft(addr(p.scanner)) + (if p.tok == token.EOF then 0 else 1)
pred Errs(p *parser.parser) int = len(p.errors)
# the scanner reports into p.errors too; where it did not, no token step adds an error
pred LexOK(p *parser.parser) = p.scanner.ErrorCount == old(p.scanner.ErrorCount)
pred LexMore(p *parser.parser) = p.scanner.ErrorCount >= old(p.scanner.ErrorCount)
pred Quiet(p *parser.parser) = LexMore(p) && (LexOK(p) ==> Errs(p) == old(Errs(p)))

func parser.(*parser).printTrace(p, a)
verify C04 C05
requires ParserOK(p)
decreases [$i phi]: $i
invariant [$i phi]: $i >= 0

func parser.trace(p, msg) (q)
verify C04 C05
requires ParserOK(p)
modifies p.indent
ensures q == p && p.indent == old(p.indent) + 1 && ParserOK(p)

func parser.un(p)
verify C04 C05
requires ParserOK(p) && p.indent >= 1
modifies p.indent
ensures p.indent == old(p.indent) - 1 && ParserOK(p)

func parser.(*parser).next0(p)
verify C04 C05
requires ParserOK(p)
modifies @parserState(p)
ensures ParserOK(p) && p.pos != 0 && p.indent == old(p.indent)
ensures Errs(p) >= old(Errs(p)) && Quiet(p)
ensures Left(p) <= old(Left(p))
ensures old(p.tok) != token.EOF ==> Left(p) < old(Left(p))
ensures old(p.tok) == token.EOF && old(ScanLeft(addr(p.scanner))) == 0 ==> p.tok == token.EOF

func token.(*File).Line(f, p) (r)
opt specname LineOf
reads f.base, f.size, f.name, f.lines, elems(f.lines), f.infos, elems(f.infos)
verify C03
requires FileOK(f)
requires p != 0 ==> f.base <= p <= f.base + f.size

func scanner.(*ErrorList).Add(p, pos, msg)
inline

func parser.(*parser).consumeComment(p) (comment, endline)
verify C04 C05
requires ParserOK(p) && p.tok == token.COMMENT && p.pos != 0
modifies @parserState(p)
ensures ParserOK(p) && p.pos != 0 && p.indent == old(p.indent)
ensures Errs(p) >= old(Errs(p)) && Quiet(p)
ensures Left(p) < old(Left(p))
ensures fresh(comment) && comment.Text == old(p.lit) && comment.Slash == old(p.pos)

func parser.(*parser).consumeCommentGroup(p, n) (comments, endline)
verify C04 C05
requires ParserOK(p) && p.tok == token.COMMENT && p.pos != 0 && n >= 0
modifies @parserState(p)
ensures ParserOK(p) && p.pos != 0 && p.indent == old(p.indent)
ensures Errs(p) >= old(Errs(p)) && Quiet(p)
ensures Left(p) < old(Left(p))
ensures fresh(comments) && len(comments.List) > 0 && comments.List[0].Text == old(p.lit)
invariant ParserOK(p) && p.pos != 0 && p.indent == old(p.indent)
invariant Errs(p) >= old(Errs(p)) && Quiet(p)
invariant [$e phi, $l []*ast.Comment]: Left(p) < old(Left(p)) && len($l) > 0 && $l[0].Text == old(p.lit) || p.tok == token.COMMENT && p.lit == old(p.lit) && LineOf(p.file, p.pos) == $e && len($l) == 0
decreases Left(p)

func parser.(*parser).next(p)
verify C04 C05
requires ParserOK(p)
modifies @parserState(p)
ensures ParserOK(p) && p.pos != 0 && p.indent == old(p.indent)
ensures Errs(p) >= old(Errs(p)) && Quiet(p)
ensures Left(p) <= old(Left(p))
ensures old(p.tok) != token.EOF ==> Left(p) < old(Left(p))
ensures p.tok != token.COMMENT
invariant ParserOK(p) && p.pos != 0 && p.indent == old(p.indent)
invariant Errs(p) >= old(Errs(p)) && Quiet(p)
decreases Left(p)

# one step of recursive descent: the parser stays well-formed, its nesting depth returns, errors are
# only added and no text is unread
pred Step(p *parser.parser) = ParserOK(p) && p.indent == old(p.indent) && Errs(p) >= old(Errs(p)) && LexMore(p) && Left(p) <= old(Left(p)) && p.tok != token.COMMENT

func parser.(*parser).error(p, pos, msg)
verify C04 C05
requires ParserOK(p)
requires pos != 0 ==> p.file.base <= pos <= p.file.base + p.file.size
modifies p.errors, elems(p.errors)
ensures ParserOK(p) && Errs(p) == old(Errs(p)) + 1

func token.(Token).IsLiteral(t) (b)
func token.(Token).IsOperator(t) (b)
func token.(Token).IsKeyword(t) (b)
func token.(Token).String(t) (s)

func parser.(*parser).errorExpected(p, pos, msg)
verify C04 C05
requires ParserOK(p)
requires pos != 0 ==> p.file.base <= pos <= p.file.base + p.file.size
modifies p.errors, elems(p.errors)
ensures ParserOK(p) && Errs(p) == old(Errs(p)) + 1

func parser.(*parser).expect(p, tok) (pos)
verify C04 C05
requires ParserOK(p)
modifies @parserState(p)
ensures Step(p) && pos == old(p.pos) && p.pos != 0
ensures old(p.tok) == tok && LexOK(p) ==> Errs(p) == old(Errs(p))
ensures old(p.tok) != tok ==> Errs(p) > old(Errs(p))
ensures old(p.tok) != token.EOF ==> Left(p) < old(Left(p))

func parser.(*parser).expectSemi(p)
verify C04 C05
requires ParserOK(p) && p.tok != token.COMMENT
modifies @parserState(p)
ensures Step(p)
ensures Errs(p) == old(Errs(p)) ==> old(p.tok) == token.RPAREN || old(p.tok) == token.RBRACE || old(p.tok) == token.SEMICOLON
ensures LexOK(p) && (old(p.tok) == token.RPAREN || old(p.tok) == token.RBRACE || old(p.tok) == token.SEMICOLON) ==> Errs(p) == old(Errs(p))
ensures old(p.tok) == token.SEMICOLON ==> Left(p) < old(Left(p))

func parser.(*parser).advance(p, to)
verify C04 C05
requires ParserOK(p) && p.tok != token.COMMENT
modifies @parserState(p)
ensures Step(p)
ensures p.tok == token.EOF || to[p.tok]
ensures old(p.tok) != token.EOF && !to[old(p.tok)] ==> Left(p) < old(Left(p))
invariant Step(p)
invariant Errs(p) >= entry(Errs(p))
invariant Left(p) == old(Left(p)) && p.tok == old(p.tok) || old(p.tok) != token.EOF && Left(p) < old(Left(p))
decreases Left(p)

func parser.(*parser).parseIdent(p) (id)
verify C04 C05
requires ParserOK(p)
modifies @parserState(p)
ensures Step(p)
ensures fresh(id) && id.Obj == nil && id.NamePos == old(p.pos)
ensures old(p.tok) == token.IDENT ==> id.Name == old(p.lit) && Quiet(p)
ensures old(p.tok) != token.IDENT ==> id.Name == "_" && Errs(p) > old(Errs(p))
ensures NoErr(p) ==> IdentAt(p, id)
ensures old(p.tok) != token.EOF ==> Left(p) < old(Left(p))

# ---- the syntax tree

func ast.NewScope(outer) (s)
verify C04 C05
ensures fresh(s) && s.Outer == outer && s.Objects != nil && len(s.Objects) == 0 && fresh(s.Objects)

func ast.(*Scope).Insert(s, obj) (alt)
verify C04 C05
requires s != nil && s.Objects != nil && obj != nil
modifies mapof(s.Objects)
ensures alt == old(s.Objects[obj.Name])
ensures alt == nil ==> s.Objects[obj.Name] == obj

func ast.NewObj(kind, name) (o)
verify C04 C05
ensures fresh(o) && o.Name == name && o.Kind == kind

func parser.(*parser).declare(p, decl, data, scope, kind, idents)
verify C04 C05
requires ParserOK(p) && scope != nil && scope.Objects != nil
requires len(idents) == 1 && idents[0] != nil && idents[0].Obj == nil
modifies idents[0].Obj, mapof(scope.Objects)
ensures idents[0].Obj != nil && fresh(idents[0].Obj) && idents[0].Obj.Name == idents[0].Name && idents[0].Obj.Kind == kind
invariant p.errors == old(p.errors)
invariant [$i count]: $i == 0 && idents[0].Obj == nil || $i == 1 && idents[0].Obj != nil && fresh(idents[0].Obj) && idents[0].Obj.Name == idents[0].Name && idents[0].Obj.Kind == kind

func parser.(*parser).tryResolve(p, x, collectUnresolved)
verify C04 C05
requires ParserOK(p) && !is(x, *ast.Ident)

func parser.(*parser).resolve(p, x)
verify C04 C05
requires ParserOK(p) && !is(x, *ast.Ident)

pred VarTypeOK(v *ast.VarType) = v != nil && allocated(v) && (is(v.TypeExpr, *ast.Ident) && as(v.TypeExpr, *ast.Ident) != nil || is(v.TypeExpr, *ast.BadExpr) && as(v.TypeExpr, *ast.BadExpr) != nil)

# the type is a name found in the source
pred VarText(p *parser.parser, v *ast.VarType) = is(v.TypeExpr, *ast.Ident) && IdentAt(p, as(v.TypeExpr, *ast.Ident))
pred TypeText(p *parser.parser, t ast.Type) =
  is(t, *ast.VarType) && VarText(p, as(t, *ast.VarType))
  || is(t, *ast.ArrayType) && VarText(p, as(t, *ast.ArrayType).VType)
  || is(t, *ast.MapType) && VarText(p, as(t, *ast.MapType).VType)
pred TypePos(t ast.Type) int =
  if is(t, *ast.VarType) then as(as(t, *ast.VarType).TypeExpr, *ast.Ident).NamePos
  else if is(t, *ast.ArrayType) then as(as(t, *ast.ArrayType).VType.TypeExpr, *ast.Ident).NamePos
  else as(as(t, *ast.MapType).VType.TypeExpr, *ast.Ident).NamePos

func parser.(*parser).parseTypeName(p) (id)
verify C04 C05
requires ParserOK(p)
modifies @parserState(p)
ensures Step(p)
ensures fresh(id) && id.Obj == nil && id.NamePos == old(p.pos)
ensures old(p.tok) == token.IDENT ==> id.Name == old(p.lit) && Quiet(p)
ensures old(p.tok) != token.IDENT ==> id.Name == "_" && Errs(p) > old(Errs(p))
ensures NoErr(p) ==> IdentAt(p, id)
ensures old(p.tok) != token.EOF ==> Left(p) < old(Left(p))

func parser.(*parser).parseArrayType(p, elt) (a)
verify C04 C05
requires ParserOK(p) && elt != nil
modifies @parserState(p)
ensures Step(p)
ensures fresh(a) && a.VType == elt && !a.Empty
ensures Errs(p) == old(Errs(p)) ==> old(p.tok) == token.LBRACK
ensures old(p.tok) != token.EOF ==> Left(p) < old(Left(p))

func parser.(*parser).parseId(p) (id)
verify C04 C05
requires ParserOK(p) && p.tok != token.COMMENT
modifies @parserState(p)
ensures Step(p)
ensures old(p.tok) == token.ASSIGN ==> fresh(id) && Left(p) < old(Left(p))
ensures old(p.tok) != token.ASSIGN ==> id == nil
ensures Errs(p) == old(Errs(p)) ==> id != nil && id.Kind == token.INT && IntAt(p, id)

# one of the three forms of a type, with its parts present
pred TypeOK(t ast.Type) =
  is(t, *ast.VarType) && VarTypeOK(as(t, *ast.VarType))
  || is(t, *ast.ArrayType) && as(t, *ast.ArrayType) != nil && allocated(as(t, *ast.ArrayType)) && VarTypeOK(as(t, *ast.ArrayType).VType)
  || is(t, *ast.MapType) && as(t, *ast.MapType) != nil && allocated(as(t, *ast.MapType)) && VarTypeOK(as(t, *ast.MapType).VType) && as(t, *ast.MapType).Key != nil
pred FreshType(t ast.Type) =
  is(t, *ast.VarType) && fresh(as(t, *ast.VarType)) || is(t, *ast.ArrayType) && fresh(as(t, *ast.ArrayType)) || is(t, *ast.MapType) && fresh(as(t, *ast.MapType))

func parser.(*parser).parseMapType(p, value) (m)
verify C04 C05
opt group types
opt rank 0
requires ParserOK(p) && value != nil && p.tok == token.LSS
modifies @parserState(p)
decreases Left(p)
ensures Step(p)
ensures fresh(m) && m.VType == value && !m.Empty && TypeOK(m.Key)
ensures Errs(p) == old(Errs(p)) ==> old(p.tok) == token.LSS
ensures old(p.tok) != token.EOF ==> Left(p) < old(Left(p))

func parser.(*parser).parseType(p) (t)
verify C04 C05
opt group types
opt rank 3
requires ParserOK(p) && p.tok != token.COMMENT
modifies @parserState(p)
decreases Left(p)
ensures Step(p)
ensures TypeOK(t) && FreshType(t)
ensures NoErr(p) ==> TypeText(p, t) && TypePos(t) == old(p.pos)

func parser.(*parser).tryType(p) (t)
verify C04 C05
opt group types
opt rank 2
requires ParserOK(p) && p.tok != token.COMMENT
modifies @parserState(p)
decreases Left(p)
ensures Step(p)
ensures TypeOK(t) && FreshType(t)
ensures old(p.tok) != token.EOF ==> Left(p) < old(Left(p))
ensures NoErr(p) ==> TypeText(p, t) && TypePos(t) == old(p.pos)

func parser.(*parser).tryIdentOrType(p) (t)
verify C04 C05
opt group types
opt rank 1
requires ParserOK(p) && p.tok != token.COMMENT
modifies @parserState(p)
decreases Left(p)
ensures Step(p)
ensures TypeOK(t) && FreshType(t)
ensures old(p.tok) != token.EOF ==> Left(p) < old(Left(p))
ensures NoErr(p) ==> TypeText(p, t) && TypePos(t) == old(p.pos)

func parser.(*parser).parseVarType(p) (t)
verify C04 C05
requires ParserOK(p) && p.tok != token.COMMENT
modifies @parserState(p)
ensures Step(p)
ensures TypeOK(t) && FreshType(t)
ensures old(p.tok) != token.EOF ==> Left(p) < old(Left(p))
ensures NoErr(p) ==> TypeText(p, t) && TypePos(t) == old(p.pos)

pred ValuesText(p *parser.parser, l []*ast.BasicLit) = forall i int :: 0 <= i < len(l) ==> StrAt(p, l[i])
pred KVText(p *parser.parser, kv *ast.KeyValue) = kv != nil && kv.Name != nil && IdentAt(p, kv.Name) && len(kv.Values) >= 1 && (forall i int :: 0 <= i < len(kv.Values) ==> kv.Values[i] != nil && StrAt(p, kv.Values[i]))
# of a list only the names are carried along; the rest of an element is proved where it is made, and the
# frame conditions say that nothing made by the parser is changed later
pred KVsText(p *parser.parser, l []*ast.KeyValue) = forall i int :: 0 <= i < len(l) ==> l[i] != nil && l[i].Name != nil && IdentAt(p, l[i].Name)
pred TagText(p *parser.parser, t *ast.Tag) = t != nil && t.Name != nil && IdentAt(p, t.Name) && KVsText(p, t.KV)
pred TagsText(p *parser.parser, l []*ast.Tag) = forall i int :: 0 <= i < len(l) ==> l[i] != nil && l[i].Name != nil && IdentAt(p, l[i].Name)
pred KVNew(kv *ast.KeyValue) = allocated(kv) && allocated(kv.Name) && allocated(kv.Values) && (forall i int :: 0 <= i < len(kv.Values) ==> allocated(kv.Values[i]))

func parser.(*parser).parseKeyValue(p) (kv)
verify C04 C05
requires ParserOK(p) && p.tok != token.COMMENT
modifies @parserState(p)
ensures Step(p)
ensures old(p.tok) != token.EOF ==> Left(p) < old(Left(p))
ensures kv == nil ==> Errs(p) > old(Errs(p))
ensures kv != nil ==> fresh(kv) && kv.Name != nil && fresh(kv.Name) && len(kv.Values) >= 1
ensures old(p.tok) == token.IDENT && kv != nil ==> kv.Name.Name == old(p.lit)
ensures kv != nil ==> forall i int :: 0 <= i < len(kv.Values) ==> kv.Values[i] != nil
invariant Step(p)
invariant Errs(p) >= entry(Errs(p))
invariant old(p.tok) != token.EOF ==> Left(p) < old(Left(p))
invariant [$v []*ast.BasicLit]: forall i int :: 0 <= i < len($v) ==> $v[i] != nil
decreases Left(p)
ensures kv != nil && NoErr(p) ==> KVText(p, kv) && kv.Name.NamePos == old(p.pos)
ensures kv != nil ==> KVNew(kv)
invariant [$v []*ast.BasicLit]: forall i int :: 0 <= i < len($v) ==> allocated($v[i])
invariant [$v []*ast.BasicLit]: NoErr(p) ==> ValuesText(p, $v)

pred KVsNew(l []*ast.KeyValue) = forall i int :: 0 <= i < len(l) ==> allocated(l[i]) && allocated(l[i].Name)
pred TagNew(t *ast.Tag) = allocated(t) && allocated(t.Name) && allocated(t.KV)
pred TagsNew(l []*ast.Tag) = forall i int :: 0 <= i < len(l) ==> allocated(l[i]) && allocated(l[i].Name)

func parser.(*parser).parseTag(p) (t)
verify C04 C05
requires ParserOK(p) && p.tok != token.COMMENT && p.tok != token.EOF
modifies @parserState(p)
ensures Step(p)
ensures Left(p) < old(Left(p))
ensures t == nil ==> Errs(p) > old(Errs(p))
ensures t != nil ==> fresh(t) && t.Name != nil && t.Opening == old(p.pos)
ensures t != nil && Errs(p) == old(Errs(p)) ==> forall i int :: 0 <= i < len(t.KV) ==> t.KV[i] != nil
invariant Step(p)
invariant Errs(p) >= entry(Errs(p))
invariant Left(p) < old(Left(p))
invariant [$k []*ast.KeyValue]: Errs(p) == old(Errs(p)) ==> forall i int :: 0 <= i < len($k) ==> $k[i] != nil
decreases Left(p)
ensures t != nil && NoErr(p) ==> TagText(p, t) && TagNew(t)
invariant [$k []*ast.KeyValue]: NoErr(p) ==> KVsText(p, $k)
invariant [$k []*ast.KeyValue]: NoErr(p) ==> KVsNew($k)

func parser.(*parser).parseTags(p) (ts)
verify C04 C05
requires ParserOK(p) && p.tok != token.COMMENT
modifies @parserState(p)
ensures Step(p)
ensures p.tok != token.LBRACK
ensures old(p.tok) != token.LBRACK ==> len(ts) == 0 && Left(p) == old(Left(p)) && p.tok == old(p.tok) && p.pos == old(p.pos)
ensures old(p.tok) == token.LBRACK ==> Left(p) < old(Left(p))
ensures forall i int :: 0 <= i < len(ts) ==> ts[i] != nil && ts[i].Name != nil
invariant Step(p)
invariant Errs(p) >= entry(Errs(p))
invariant Left(p) == old(Left(p)) && p.tok == old(p.tok) && p.pos == old(p.pos) || old(p.tok) == token.LBRACK && Left(p) < old(Left(p))
invariant [$k []*ast.Tag]: (forall i int :: 0 <= i < len($k) ==> $k[i] != nil && $k[i].Name != nil) && (old(p.tok) != token.LBRACK ==> len($k) == 0)
decreases Left(p)
ensures NoErr(p) ==> TagsText(p, ts) && TagsNew(ts)
invariant [$k []*ast.Tag]: NoErr(p) ==> TagsText(p, $k)
invariant [$k []*ast.Tag]: NoErr(p) ==> TagsNew($k)
invariant Errs(p) >= entry(Errs(p))

func parser.(*parser).parsePackageSpec(p) (s)
verify C04 C05
requires ParserOK(p) && p.tok == token.PACKAGE
modifies @parserState(p)
ensures Step(p)
ensures Left(p) < old(Left(p))
ensures s != nil && fresh(s) && s.Value != nil
ensures NoErr(p) && s.Name != nil ==> IdentAt(p, s.Name)

pred ExtText(p *parser.parser, e *ast.Extends) = e != nil && e.Name != nil && IdentAt(p, e.Name) && e.Id != nil && IntAt(p, e.Id)
pred ExtNew(e *ast.Extends) = allocated(e) && allocated(e.Name) && allocated(e.Id)

func parser.(*parser).parseExtend(p) (e)
verify C04 C05
requires ParserOK(p) && p.tok != token.COMMENT && p.tok != token.EOF
modifies @parserState(p)
ensures Step(p)
ensures Left(p) < old(Left(p))
ensures fresh(e) && e.Name != nil
ensures Errs(p) == old(Errs(p)) ==> e.Id != nil && e.Id.Kind == token.INT
ensures NoErr(p) ==> ExtText(p, e) && ExtNew(e)

func parser.(*parser).parseExtends(p) (es)
verify C04 C05
requires ParserOK(p) && p.tok != token.COMMENT
modifies @parserState(p)
ensures Step(p)
ensures p.tok != token.COMMA && p.tok != token.COLON || Left(p) == old(Left(p))
ensures old(p.tok) != token.COLON ==> len(es) == 0
ensures forall i int :: 0 <= i < len(es) ==> es[i] != nil && es[i].Name != nil
ensures Errs(p) == old(Errs(p)) ==> forall i int :: 0 <= i < len(es) ==> es[i].Id != nil
invariant Step(p)
invariant Errs(p) >= entry(Errs(p))
invariant [$k []*ast.Extends]: forall i int :: 0 <= i < len($k) ==> $k[i] != nil && $k[i].Name != nil && allocated($k[i])
invariant [$k []*ast.Extends]: Errs(p) == old(Errs(p)) ==> forall i int :: 0 <= i < len($k) ==> $k[i].Id != nil
decreases Left(p)
ensures NoErr(p) ==> forall i int :: 0 <= i < len(es) ==> ExtText(p, es[i])
invariant [$k []*ast.Extends]: NoErr(p) ==> forall i int :: 0 <= i < len($k) ==> ExtText(p, $k[i]) && ExtNew($k[i])

func parser.(*parser).parseMethodType(p) (t)
verify C04 C05
requires ParserOK(p) && p.tok != token.COMMENT
modifies @parserState(p)
ensures Step(p)
ensures VarTypeOK(t) && fresh(t)
ensures old(p.tok) != token.EOF ==> Left(p) < old(Left(p))
ensures NoErr(p) ==> VarText(p, t) && as(t.TypeExpr, *ast.Ident).NamePos == old(p.pos)

pred FieldOK(f *ast.Field) = f != nil && allocated(f) && f.Name != nil && TypeOK(f.Type)
pred FuncOK(f *ast.FuncType) = f != nil && allocated(f) && f.Name != nil && f.ParamName != nil && VarTypeOK(f.Result) && VarTypeOK(f.Param)
pred ItemOK(f *ast.EnumItem) = f != nil && allocated(f) && f.Name != nil && f.Id != nil

pred FieldText(p *parser.parser, f *ast.Field) = f.Name != nil && IdentAt(p, f.Name) && f.Id != nil && IntAt(p, f.Id) && TypeText(p, f.Type)
pred FuncText(p *parser.parser, f *ast.FuncType) = f.Name != nil && IdentAt(p, f.Name) && f.Id != nil && IntAt(p, f.Id) && VarText(p, f.Result) && VarText(p, f.Param) && f.ParamName != nil && IdentAt(p, f.ParamName)
pred ItemText(p *parser.parser, f *ast.EnumItem) = f.Name != nil && IdentAt(p, f.Name) && f.Id != nil && IntAt(p, f.Id)

func parser.(*parser).parseFieldDecl(p, scope) (f)
verify C04 C05
requires ParserOK(p) && p.tok != token.COMMENT && scope != nil && scope.Objects != nil
modifies @parserState(p), mapof(scope.Objects)
ensures Step(p)
ensures old(p.tok) != token.EOF ==> Left(p) < old(Left(p))
ensures fresh(f) && FieldOK(f)
ensures Errs(p) == old(Errs(p)) ==> f.Id != nil && f.Id.Kind == token.INT
ensures NoErr(p) ==> FieldText(p, f) && TagsText(p, f.Tags)
ensures f.Doc == old(p.leadComment)
ensures allocated(f.Name) && allocated(f.Id)

func parser.(*parser).parseMethodSpec(p) (f)
verify C04 C05
requires ParserOK(p) && p.tok != token.COMMENT
modifies @parserState(p)
ensures Step(p)
ensures old(p.tok) != token.EOF ==> Left(p) < old(Left(p))
ensures fresh(f) && FuncOK(f)
ensures Errs(p) == old(Errs(p)) ==> f.Id != nil && f.Id.Kind == token.INT
ensures NoErr(p) ==> FuncText(p, f) && TagsText(p, f.Tags)
ensures f.Doc == old(p.leadComment)
ensures allocated(f.Name) && allocated(f.Id)

func parser.(*parser).parseEnumItem(p, scope) (f)
verify C04 C05
requires ParserOK(p) && p.tok != token.COMMENT
modifies @parserState(p)
ensures Step(p)
ensures old(p.tok) != token.EOF ==> Left(p) < old(Left(p))
ensures fresh(f) && ItemOK(f)
ensures Errs(p) == old(Errs(p)) ==> f.Id.Kind == token.INT
ensures NoErr(p) ==> ItemText(p, f) && TagsText(p, f.Tags)
ensures f.Doc == old(p.leadComment)
ensures allocated(f.Name) && allocated(f.Id)

func parser.isValidImport(lit) (b)
verify C04 C05

func parser.(*parser).parseImportSpec(p, doc, _1, _2) (s)
verify C04 C05
requires ParserOK(p) && p.tok != token.COMMENT
modifies @parserState(p), p.imports, elems(p.imports)
ensures Step(p)
ensures old(p.tok) != token.EOF ==> Left(p) < old(Left(p))
ensures is(s, *ast.ImportSpec) && len(p.imports) == old(len(p.imports)) + 1 && p.imports[old(len(p.imports))] == as(s, *ast.ImportSpec)
ensures as(s, *ast.ImportSpec).Path != nil && fresh(as(s, *ast.ImportSpec))

pred TopOK(p *parser.parser) = p.topScope != nil && p.topScope.Objects != nil

pred FieldsText(p *parser.parser, l []*ast.Field) = forall i int :: 0 <= i < len(l) ==> allocated(l[i].Name) && allocated(l[i].Id) && IdentAt(p, l[i].Name) && l[i].Id != nil && IntAt(p, l[i].Id)
pred FuncsText(p *parser.parser, l []*ast.FuncType) = forall i int :: 0 <= i < len(l) ==> allocated(l[i].Name) && allocated(l[i].Id) && IdentAt(p, l[i].Name) && l[i].Id != nil && IntAt(p, l[i].Id)
pred ItemsText(p *parser.parser, l []*ast.EnumItem) = forall i int :: 0 <= i < len(l) ==> allocated(l[i].Name) && allocated(l[i].Id) && IdentAt(p, l[i].Name) && l[i].Id != nil && IntAt(p, l[i].Id)

func parser.(*parser).parseDataSpec(p, doc, tags) (s)
verify C04 C05
requires ParserOK(p) && p.tok != token.COMMENT && TopOK(p)
modifies @parserState(p), mapof(p.topScope.Objects)
ensures Step(p)
ensures old(p.tok) != token.EOF ==> Left(p) < old(Left(p))
ensures is(s, *ast.TypeSpec) && fresh(as(s, *ast.TypeSpec)) && as(s, *ast.TypeSpec).Name != nil && is(as(s, *ast.TypeSpec).Type, *ast.DataType)
ensures let d := as(as(s, *ast.TypeSpec).Type, *ast.DataType) in DataOK(d) && d.Tags == tags && d.Doc == doc
invariant Step(p) && (old(p.tok) != token.EOF ==> Left(p) < old(Left(p)))
invariant [$l []*ast.Field]: forall i int :: 0 <= i < len($l) ==> FieldOK($l[i]) && allocated($l[i])
decreases Left(p)
ensures NoErr(p) ==> let d := as(as(s, *ast.TypeSpec).Type, *ast.DataType) in IdentAt(p, d.Name) && d.Name == as(s, *ast.TypeSpec).Name && FieldsText(p, d.Fields.List)
ensures as(s, *ast.TypeSpec).Doc == doc && as(s, *ast.TypeSpec).Comment == p.lineComment
invariant Errs(p) >= entry(Errs(p))
invariant [$l []*ast.Field]: NoErr(p) ==> FieldsText(p, $l)

func parser.(*parser).parseEnumSpec(p, doc, tags) (s)
verify C04 C05
requires ParserOK(p) && p.tok != token.COMMENT && TopOK(p)
modifies @parserState(p), mapof(p.topScope.Objects)
ensures Step(p)
ensures old(p.tok) != token.EOF ==> Left(p) < old(Left(p))
ensures is(s, *ast.TypeSpec) && fresh(as(s, *ast.TypeSpec)) && as(s, *ast.TypeSpec).Name != nil && is(as(s, *ast.TypeSpec).Type, *ast.EnumType)
ensures let d := as(as(s, *ast.TypeSpec).Type, *ast.EnumType) in EnumOK(d) && d.Tags == tags && d.Doc == doc
invariant Step(p) && (old(p.tok) != token.EOF ==> Left(p) < old(Left(p)))
invariant [$l []*ast.EnumItem]: forall i int :: 0 <= i < len($l) ==> ItemOK($l[i]) && allocated($l[i])
decreases Left(p)
ensures NoErr(p) ==> let d := as(as(s, *ast.TypeSpec).Type, *ast.EnumType) in IdentAt(p, d.Name) && d.Name == as(s, *ast.TypeSpec).Name && ItemsText(p, d.Items)
ensures as(s, *ast.TypeSpec).Doc == doc && as(s, *ast.TypeSpec).Comment == p.lineComment
invariant Errs(p) >= entry(Errs(p))
invariant [$l []*ast.EnumItem]: NoErr(p) ==> ItemsText(p, $l)

func parser.(*parser).parseServerSpec(p, doc, tags) (s)
verify C04 C05
requires ParserOK(p) && p.tok != token.COMMENT && TopOK(p)
modifies @parserState(p), mapof(p.topScope.Objects)
ensures Step(p)
ensures old(p.tok) != token.EOF ==> Left(p) < old(Left(p))
ensures is(s, *ast.TypeSpec) && fresh(as(s, *ast.TypeSpec)) && as(s, *ast.TypeSpec).Name != nil && is(as(s, *ast.TypeSpec).Type, *ast.ServerType)
ensures let d := as(as(s, *ast.TypeSpec).Type, *ast.ServerType) in ServerOK(d) && d.Tags == tags && d.Doc == doc
invariant Step(p) && (old(p.tok) != token.EOF ==> Left(p) < old(Left(p)))
invariant [$l []*ast.FuncType]: forall i int :: 0 <= i < len($l) ==> FuncOK($l[i]) && allocated($l[i])
decreases Left(p)
ensures NoErr(p) ==> let d := as(as(s, *ast.TypeSpec).Type, *ast.ServerType) in IdentAt(p, d.Name) && d.Name == as(s, *ast.TypeSpec).Name && FuncsText(p, d.Methods)
ensures as(s, *ast.TypeSpec).Doc == doc && as(s, *ast.TypeSpec).Comment == p.lineComment
invariant Errs(p) >= entry(Errs(p))
invariant [$l []*ast.FuncType]: NoErr(p) ==> FuncsText(p, $l)

pred DataOK(d *ast.DataType) = d != nil && allocated(d) && d.Name != nil && d.Fields != nil && allocated(d.Fields) && allocated(d.Fields.List) && (forall i int :: 0 <= i < len(d.Fields.List) ==> FieldOK(d.Fields.List[i]))
pred EnumOK(d *ast.EnumType) = d != nil && allocated(d) && allocated(d.Items) && d.Name != nil && (forall i int :: 0 <= i < len(d.Items) ==> ItemOK(d.Items[i]))
pred ServerOK(d *ast.ServerType) = d != nil && allocated(d) && allocated(d.Methods) && d.Name != nil && (forall i int :: 0 <= i < len(d.Methods) ==> FuncOK(d.Methods[i]))
pred DataTop(d *ast.DataType) = d != nil && allocated(d) && d.Name != nil && d.Fields != nil && allocated(d.Fields) && allocated(d.Fields.List)
pred EnumTop(d *ast.EnumType) = d != nil && allocated(d) && allocated(d.Items) && d.Name != nil
pred ServerTop(d *ast.ServerType) = d != nil && allocated(d) && allocated(d.Methods) && d.Name != nil
pred TypeSpecTop(s *ast.TypeSpec) = s != nil && allocated(s) && s.Name != nil && (is(s.Type, *ast.DataType) && DataTop(as(s.Type, *ast.DataType)) || is(s.Type, *ast.EnumType) && EnumTop(as(s.Type, *ast.EnumType)) || is(s.Type, *ast.ServerType) && ServerTop(as(s.Type, *ast.ServerType)))
pred TypeSpecOK(s *ast.TypeSpec) = s != nil && allocated(s) && s.Name != nil && (is(s.Type, *ast.DataType) && DataOK(as(s.Type, *ast.DataType)) || is(s.Type, *ast.EnumType) && EnumOK(as(s.Type, *ast.EnumType)) || is(s.Type, *ast.ServerType) && ServerOK(as(s.Type, *ast.ServerType)))

func parser.(*parser).parseDecl(p, sync) (s)
verify C04 C05
requires ParserOK(p) && p.tok != token.COMMENT && TopOK(p) && sync == parser.declStart
modifies @parserState(p), mapof(p.topScope.Objects)
ensures Step(p)
ensures old(p.tok) != token.EOF ==> Left(p) < old(Left(p))
ensures is(s, *ast.TypeSpec) && TypeSpecOK(as(s, *ast.TypeSpec)) || is(s, *ast.BadSpec) && Errs(p) > old(Errs(p))

func parser.(*parser).openScope(p)
verify C04 C05
requires p != nil
modifies p.topScope
ensures p.topScope != nil && fresh(p.topScope) && p.topScope.Outer == old(p.topScope) && p.topScope.Objects != nil && fresh(p.topScope.Objects)

func parser.(*parser).closeScope(p)
verify C04 C05
requires p != nil && p.topScope != nil
modifies p.topScope
ensures p.topScope == old(p.topScope.Outer)

pred SpecOK(s ast.Spec) = is(s, *ast.TypeSpec) && TypeSpecTop(as(s, *ast.TypeSpec)) || is(s, *ast.ImportSpec) && as(s, *ast.ImportSpec) != nil && as(s, *ast.ImportSpec).Path != nil
pred SpecNew(s ast.Spec) = is(s, *ast.TypeSpec) && allocated(as(s, *ast.TypeSpec)) || is(s, *ast.ImportSpec) && allocated(as(s, *ast.ImportSpec)) || is(s, *ast.BadSpec)

func parser.(*parser).parseFile(p) (f)
verify C04 C05
requires ParserOK(p) && p.tok != token.COMMENT && p.topScope == nil && len(p.imports) == 0
modifies @parserState(p), p.topScope, p.pkgScope, p.imports, elems(p.imports), p.unresolved, elems(p.unresolved)
ensures old(Errs(p)) == 0 ==> f != nil
ensures f != nil ==> fresh(f) && f.Scope != nil && f.Packages != nil && p.tok == token.EOF
ensures f != nil && Errs(p) == 0 ==> forall i int :: 0 <= i < len(f.Specs) ==> SpecOK(f.Specs[i])
ensures Errs(p) >= old(Errs(p))
invariant Step(p)
invariant Errs(p) >= entry(Errs(p))
invariant [$l []ast.Spec]: Errs(p) == 0 ==> forall i int :: 0 <= i < len($l) ==> is($l[i], *ast.TypeSpec) || is($l[i], *ast.ImportSpec)
invariant [$l []ast.Spec]: forall i int :: 0 <= i < len($l) && is($l[i], *ast.ImportSpec) ==> as($l[i], *ast.ImportSpec) != nil && as($l[i], *ast.ImportSpec).Path != nil
invariant [$l []ast.Spec]: forall i int :: 0 <= i < len($l) && is($l[i], *ast.TypeSpec) ==> TypeSpecTop(as($l[i], *ast.TypeSpec))
invariant [$l []ast.Spec]: forall i int :: 0 <= i < len($l) ==> SpecNew($l[i])
decreases Left(p)

func parser.(*parser).init(p, fset, filename, src, mode)
verify C04 C05
requires p != nil && SetOK(fset) && mode == 36
requires p.tok == 0 && p.pos == 0 && p.errors == nil && len(p.errors) == 0 && p.comments == nil && p.indent == 0 && len(p.unresolved) == 0 && p.labelScope == nil
modifies object(p), fset.base, fset.files, elems(fset.files), fset.last
ensures ParserOK(p) && p.tok != token.COMMENT && SetOK(fset) && fresh(p.file) && fresh(p.file.lines)
ensures (p.errors == nil || fresh(p.errors)) && (p.comments == nil || fresh(p.comments)) && (p.file.infos == nil || fresh(p.file.infos)) && p.imports == old(p.imports) && p.unresolved == old(p.unresolved)
ensures p.topScope == old(p.topScope) && len(p.imports) == old(len(p.imports)) && (p.scanner.ErrorCount == 0 ==> Errs(p) == 0)

func parser.readSource(filename, src) (b, err)
verify C04 C05

func scanner.(ErrorList).Err(p) (e)
verify C04 C05
ensures len(p) == 0 ==> e == nil
ensures len(p) > 0 ==> e != nil

func parser.ParseFile(fset, filename, src, mode) (f, err)
verify C04 C05
requires SetOK(fset) && mode == 36
modifies fset.base, fset.files, elems(fset.files), fset.last
ensures SetOK(fset)
ensures err == nil ==> f != nil && forall i int :: 0 <= i < len(f.Specs) ==> SpecOK(f.Specs[i])
