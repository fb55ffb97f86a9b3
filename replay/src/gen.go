package main

// A generator of schemas: a model of the declarations is drawn at random and
// written out with random spacing and comments, so that what the tools make of
// the text can be compared with the model.

import (
	"bytes"
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	"hbuf/pkg/ast"
	"hbuf/pkg/token"
)

type mType struct {
	name  string
	opt   bool   // name?
	shape int    // 0 plain, 1 array, 2 map
	sopt  bool   // [] ? or <..> ?
	key   string // of a map
	off   int
}

type mTag struct {
	name string
	kvs  []mKV
}

type mKV struct {
	name   string
	values []string // with the quotes
}

type mField struct { // a field, a method, or an item of an enum
	tags    []mTag
	doc     []string
	typ     mType
	name    string
	param   mType
	pname   string
	id      string
	line    string // line comment
	nameOff int
}

type mExt struct{ name, id string }

type mDecl struct {
	kind    string // data, server, enum
	tags    []mTag
	doc     []string
	name    string
	ext     []mExt
	fields  []*mField
	line    string
	nameOff int
	kwOff   int
}

type mPkg struct{ name, value string }

type mFile struct {
	pkgs     []mPkg
	imports  []string
	decls    []*mDecl
	comments []string
}

type emitter struct {
	r    *rand.Rand
	b    bytes.Buffer
	f    *mFile
	com  bool // comments between tokens
	wild bool // random spacing
	lb   bool // the last token lets a line break follow freely
}

// sp writes the blank between two tokens that stay on one line.
func (e *emitter) sp() {
	if !e.wild {
		e.b.WriteByte(' ')
		return
	}
	switch e.r.Intn(8) {
	case 0:
		e.b.WriteString("  ")
	case 1:
		e.b.WriteString("\t")
	case 2:
		if e.com {
			e.b.WriteByte(' ')
			e.comment(fmt.Sprintf("/* %s */", word(e.r)))
			e.b.WriteByte(' ')
			return
		}
		e.b.WriteByte(' ')
	case 3:
		e.b.WriteString(" \r ")
	default:
		e.b.WriteByte(' ')
	}
}

// opt writes an optional blank.
func (e *emitter) opt() {
	if e.wild && e.r.Intn(3) == 0 {
		e.b.WriteString([]string{" ", "\t", "  "}[e.r.Intn(3)])
	}
}

func (e *emitter) comment(t string) {
	e.f.comments = append(e.f.comments, t)
	e.b.WriteString(t)
}

// nl ends a line and possibly adds empty lines and detached comments.
func (e *emitter) nl() {
	e.b.WriteByte('\n')
	if !e.wild {
		return
	}
	switch e.r.Intn(10) {
	case 0:
		e.b.WriteByte('\n')
	case 1:
		if e.com {
			e.b.WriteString("\n")
			e.comment("// detached " + word(e.r))
			e.b.WriteString("\n\n")
		}
	case 2:
		if e.com {
			e.b.WriteString("\n\t")
			e.comment("/* detached\n   " + word(e.r) + " */")
			e.b.WriteString("\n\n")
		}
	case 3:
		e.b.WriteString("\t")
	}
}

func (e *emitter) doc(doc []string, ind string) {
	if n := e.b.Len(); len(doc) == 0 && e.wild && e.com && n > 0 && (e.b.Bytes()[n-1] == '\n' || e.b.Bytes()[n-1] == '\t') && e.r.Intn(8) == 0 {
		// a comment on the line of the declaration is not its doc comment
		e.comment([]string{"/* same line */", "/* ends on\n the line */"}[e.r.Intn(2)])
		e.b.WriteByte(' ')
	}
	for _, c := range doc {
		e.b.WriteString(ind)
		e.comment(c)
		e.b.WriteByte('\n')
	}
	e.b.WriteString(ind)
}

// end ends a declaration, a field and so on, with the line comment.
func (e *emitter) end(line string) {
	if line == "" && e.wild && e.r.Intn(5) == 0 {
		e.opt()
		e.b.WriteByte(';')
		if e.r.Intn(2) == 0 {
			e.b.WriteByte(' ')
			return
		}
	} else if line != "" {
		if e.wild && e.r.Intn(4) == 0 {
			e.b.WriteByte(';')
		}
		e.b.WriteByte(' ')
		e.comment(line)
	}
	e.nl()
}

func (e *emitter) tags(tags []mTag, ind string) {
	for _, t := range tags {
		e.b.WriteString("[")
		e.opt()
		e.b.WriteString(t.name)
		e.opt()
		e.b.WriteString(":")
		e.opt()
		for i, kv := range t.kvs {
			if i > 0 {
				if e.wild && e.r.Intn(5) == 0 {
					e.b.WriteString("\n")
				} else {
					e.b.WriteString(";")
				}
				e.b.WriteByte(' ')
			}
			e.b.WriteString(kv.name)
			e.opt()
			e.b.WriteString("=")
			e.opt()
			for j, v := range kv.values {
				if j > 0 {
					e.opt()
					e.b.WriteString(",")
					e.opt()
				}
				e.b.WriteString(v)
			}
		}
		e.opt()
		e.b.WriteString("]")
		if e.wild && e.r.Intn(4) == 0 {
			e.b.WriteString("; ")
		} else {
			e.b.WriteString("\n" + ind)
		}
	}
}

func (e *emitter) typ(t *mType) {
	t.off = e.b.Len()
	e.b.WriteString(t.name)
	if t.opt {
		e.opt()
		e.b.WriteByte('?')
	}
	switch t.shape {
	case 1:
		e.opt()
		e.b.WriteByte('[')
		e.opt()
		e.b.WriteByte(']')
	case 2:
		e.opt()
		e.b.WriteByte('<')
		e.opt()
		e.b.WriteString(t.key)
		e.opt()
		e.b.WriteByte('>')
	}
	if t.sopt {
		e.opt()
		e.b.WriteByte('?')
	}
}

func (e *emitter) id(id string) {
	e.opt()
	e.b.WriteByte('=')
	e.opt()
	e.b.WriteString(id)
}

// text writes the file.
func (f *mFile) text(r *rand.Rand, wild, com bool) string {
	f.comments = nil
	e := &emitter{r: r, f: f, wild: wild, com: com}
	for _, p := range f.pkgs {
		e.b.WriteString("package ")
		e.b.WriteString(p.name)
		e.opt()
		e.b.WriteByte('=')
		e.opt()
		e.b.WriteString(strconv.Quote(p.value))
		e.end("")
	}
	for _, p := range f.imports {
		e.b.WriteString("import ")
		e.b.WriteString(strconv.Quote(p))
		e.end("")
	}
	for _, d := range f.decls {
		e.b.WriteByte('\n')
		e.doc(d.doc, "")
		e.tags(d.tags, "")
		d.kwOff = e.b.Len()
		e.b.WriteString(d.kind)
		e.sp()
		d.nameOff = e.b.Len()
		e.b.WriteString(d.name)
		for i, x := range d.ext {
			if i == 0 {
				e.opt()
				e.b.WriteByte(':')
			} else {
				e.opt()
				e.b.WriteByte(',')
			}
			e.opt()
			e.b.WriteString(x.name)
			e.id(x.id)
		}
		e.sp()
		e.b.WriteByte('{')
		e.nl()
		for _, m := range d.fields {
			if len(m.doc) > 0 && e.b.Bytes()[e.b.Len()-1] != '\n' {
				e.b.WriteByte('\n')
			}
			e.doc(m.doc, "\t")
			e.tags(m.tags, "\t")
			switch d.kind {
			case "data":
				e.typ(&m.typ)
				e.sp()
				m.nameOff = e.b.Len()
				e.b.WriteString(m.name)
				e.id(m.id)
			case "server":
				e.typ(&m.typ)
				e.sp()
				m.nameOff = e.b.Len()
				e.b.WriteString(m.name)
				e.opt()
				e.b.WriteByte('(')
				e.opt()
				e.typ(&m.param)
				e.sp()
				e.b.WriteString(m.pname)
				e.opt()
				e.b.WriteByte(')')
				e.id(m.id)
			case "enum":
				m.nameOff = e.b.Len()
				e.b.WriteString(m.name)
				e.id(m.id)
			}
			e.end(m.line)
		}
		e.b.WriteByte('}')
		e.end(d.line)
	}
	return e.b.String()
}

var words = []string{"user", "name", "age", "id", "create_time", "isDel", "Flag", "x", "order_id", "total", "A1", "http_url", "Status", "v", "addr", "phoneNo", "level", "kind", "note", "日", "été"}

func word(r *rand.Rand) string { return words[r.Intn(len(words)-2)] }

var basics = []string{"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "bool", "float", "double", "string", "date", "decimal"}

type gcfg struct {
	r       *rand.Rand
	tags    bool     // random tags
	unicode bool     // names outside ASCII
	free    bool     // references may be to anything
	avoid   []string // names not to be used
}

func pick(r *rand.Rand, l []string) string { return l[r.Intn(len(l))] }

func randTags(r *rand.Rand) []mTag {
	var res []mTag
	used := map[string]bool{}
	for n := r.Intn(4) - 1; n > 0; n-- {
		t := mTag{name: pick(r, []string{"tag", "note", "x", "a1", "v_2", "other"})}
		if used[t.name] {
			continue
		}
		used[t.name] = true
		ku := map[string]bool{}
		for k := r.Intn(4); k > 0; k-- {
			kv := mKV{name: pick(r, []string{"k", "name", "en", "zh_cn", "value", "q"})}
			if ku[kv.name] {
				continue
			}
			ku[kv.name] = true
			for v := 1 + r.Intn(3); v > 0; v-- {
				kv.values = append(kv.values, pick(r, []string{`""`, `"a"`, `"some text"`, `"x;y]"`, `"a\"b"`, "`raw`", `"日本"`, `"a,b"`, `"1"`}))
			}
			t.kvs = append(t.kvs, kv)
		}
		res = append(res, t)
	}
	return res
}

func randDoc(r *rand.Rand) []string {
	switch r.Intn(6) {
	case 0:
		return []string{"// " + word(r) + " of the " + word(r)}
	case 1:
		return []string{"//" + word(r), "// second line " + word(r)}
	case 2:
		return []string{"/* block " + word(r) + " */"}
	case 3:
		return []string{"/*\n * several lines\n * " + word(r) + "\n */"}
	}
	return nil
}

func randLine(r *rand.Rand) string {
	switch r.Intn(6) {
	case 0:
		return "// line " + word(r)
	case 1:
		return "/* end " + word(r) + " */"
	}
	return ""
}

func randId(r *rand.Rand, n int) string {
	switch r.Intn(8) {
	case 0:
		return fmt.Sprintf("0x%X", n+1)
	case 1:
		return fmt.Sprint(n*1000 + 7)
	case 2:
		return fmt.Sprintf("0b%b", n+2)
	}
	return fmt.Sprint(n)
}

func randMType(r *rand.Rand, names []string, keys []string) mType {
	t := mType{}
	if len(names) > 0 && r.Intn(3) == 0 {
		t.name = pick(r, names)
	} else {
		t.name = pick(r, basics)
	}
	t.opt = r.Intn(4) == 0
	switch r.Intn(5) {
	case 0:
		t.shape = 1
	case 1:
		t.shape = 2
		t.key = pick(r, basics)
		if len(keys) > 0 && r.Intn(3) == 0 {
			t.key = pick(r, keys)
		}
	}
	if t.shape != 0 {
		t.sopt = r.Intn(3) == 0
	}
	return t
}

// randFile draws a file whose names are unique; refs are the types it may refer to besides its own.
func randFile(r *rand.Rand, prefix string, refData, refEnum []string) *mFile {
	f := &mFile{}
	for _, l := range []string{"go", "dart", "java", "ts"} {
		if r.Intn(2) == 0 {
			f.pkgs = append(f.pkgs, mPkg{l, word(r)})
		}
	}
	nd := r.Intn(4)
	ne := r.Intn(3)
	ns := r.Intn(3)
	var datas, enums, servers []string
	for i := 0; i < nd; i++ {
		datas = append(datas, fmt.Sprintf("%sData%d", prefix, i))
	}
	for i := 0; i < ne; i++ {
		enums = append(enums, fmt.Sprintf("%sEnum%d", prefix, i))
	}
	for i := 0; i < ns; i++ {
		servers = append(servers, fmt.Sprintf("%sServer%d", prefix, i))
	}
	alld := append(append([]string{}, datas...), refData...)
	alle := append(append([]string{}, enums...), refEnum...)
	types := append(append([]string{}, alld...), alle...)
	for i, n := range datas {
		d := &mDecl{kind: "data", name: n, tags: randTags(r), doc: randDoc(r), line: randLine(r)}
		exts := append(append([]string{}, datas[:i]...), refData...)
		used := map[string]bool{}
		for k := r.Intn(4) - 1; k > 0 && len(exts) > 0; k-- {
			x := pick(r, exts)
			if !used[x] {
				used[x] = true
				d.ext = append(d.ext, mExt{x, randId(r, len(d.ext)+1)})
			}
		}
		nf := r.Intn(5)
		names := map[string]bool{}
		for k := 0; k < nf; k++ {
			nm := pick(r, words)
			if names[nm] {
				nm = fmt.Sprintf("%s%d", nm, k)
			}
			names[nm] = true
			d.fields = append(d.fields, &mField{tags: randTags(r), doc: randDoc(r), typ: randMType(r, types, alle), name: nm, id: fmt.Sprint(k*3 + r.Intn(3)), line: randLine(r)})
		}
		f.decls = append(f.decls, d)
	}
	for _, n := range enums {
		d := &mDecl{kind: "enum", name: n, tags: randTags(r), doc: randDoc(r), line: randLine(r)}
		for k := r.Intn(5); k > 0; k-- {
			d.fields = append(d.fields, &mField{tags: randTags(r), doc: randDoc(r), name: fmt.Sprintf("%s%d", pick(r, words), k), id: fmt.Sprint(k*2 + r.Intn(2)), line: randLine(r)})
		}
		f.decls = append(f.decls, d)
	}
	for i, n := range servers {
		d := &mDecl{kind: "server", name: n, tags: randTags(r), doc: randDoc(r), line: randLine(r)}
		used := map[string]bool{}
		for k := r.Intn(3) - 1; k > 0 && i > 0; k-- {
			x := pick(r, servers[:i])
			if !used[x] {
				used[x] = true
				d.ext = append(d.ext, mExt{x, randId(r, 1)})
			}
		}
		if len(alld) > 0 {
			for k := r.Intn(4); k > 0; k-- {
				m := &mField{tags: randTags(r), doc: randDoc(r), name: fmt.Sprintf("%s%d", pick(r, words), k), id: fmt.Sprint(k), pname: pick(r, words), line: randLine(r)}
				m.typ.name = "void"
				if r.Intn(3) > 0 {
					m.typ.name = pick(r, alld)
				}
				m.param.name = pick(r, alld)
				d.fields = append(d.fields, m)
			}
		}
		f.decls = append(f.decls, d)
	}
	r.Shuffle(len(f.decls), func(i, j int) { f.decls[i], f.decls[j] = f.decls[j], f.decls[i] })
	return f
}

// ---- comparison of the syntax tree with the model

type cmp struct {
	in   string
	base int
	loc  bool // positions too
}

func (c *cmp) eq(what string, got, want interface{}) {
	if fmt.Sprint(got) != fmt.Sprint(want) {
		fail(c.in, fmt.Sprintf("%s: the tree has %q, the source has %q", what, fmt.Sprint(got), fmt.Sprint(want)))
	}
}

func (c *cmp) group(what string, g *ast.CommentGroup, want []string) {
	var got []string
	if g != nil {
		for _, x := range g.List {
			got = append(got, x.Text)
		}
	}
	c.eq(what, strings.Join(got, "\n"), strings.Join(want, "\n"))
}

func (c *cmp) pos(what string, got token.Pos, off int) {
	if c.loc && int(got)-c.base != off {
		fail(c.in, fmt.Sprintf("%s: recorded at offset %d, it is at %d", what, int(got)-c.base, off))
	}
}

func line1(s string) []string {
	if s == "" {
		return nil
	}
	return []string{s}
}

func (c *cmp) tags(what string, got []*ast.Tag, want []mTag) {
	c.eq(what+": number of tags", len(got), len(want))
	for i, t := range want {
		w := what + ", tag " + t.name
		c.eq(w, got[i].Name.Name, t.name)
		c.eq(w+": number of keys", len(got[i].KV), len(t.kvs))
		for j, kv := range t.kvs {
			c.eq(w, got[i].KV[j].Name.Name, kv.name)
			c.eq(w+", key "+kv.name+": number of values", len(got[i].KV[j].Values), len(kv.values))
			for k, v := range kv.values {
				c.eq(w+", key "+kv.name, got[i].KV[j].Values[k].Value, v)
			}
		}
	}
}

func (c *cmp) vtype(what string, got ast.Expr, name string, opt bool, off int) {
	v, ok := got.(*ast.VarType)
	if !ok {
		fail(c.in, fmt.Sprintf("%s: %T instead of a plain type", what, got))
	}
	id, ok := v.TypeExpr.(*ast.Ident)
	if !ok {
		fail(c.in, fmt.Sprintf("%s: %T instead of the name %s", what, v.TypeExpr, name))
	}
	c.eq(what, id.Name, name)
	c.eq(what+": optional", v.Empty, opt)
	if off >= 0 {
		c.pos(what, id.NamePos, off)
	}
}

func (c *cmp) typ(what string, got ast.Expr, t *mType) {
	switch t.shape {
	case 0:
		c.vtype(what, got, t.name, t.opt, t.off)
	case 1:
		a, ok := got.(*ast.ArrayType)
		if !ok {
			fail(c.in, fmt.Sprintf("%s: %T instead of an array", what, got))
		}
		c.vtype(what, a.VType, t.name, t.opt, t.off)
		c.eq(what+": array optional", a.Empty, t.sopt)
	case 2:
		m, ok := got.(*ast.MapType)
		if !ok {
			fail(c.in, fmt.Sprintf("%s: %T instead of a map", what, got))
		}
		c.vtype(what, m.VType, t.name, t.opt, t.off)
		c.vtype(what+", key", m.Key, t.key, false, -1)
		c.eq(what+": map optional", m.Empty, t.sopt)
	}
}

func (c *cmp) file(f *ast.File, m *mFile) {
	c.eq("number of packages", len(f.Packages), len(m.pkgs))
	for _, p := range m.pkgs {
		s := f.Packages[p.name]
		if s == nil {
			fail(c.in, "package "+p.name+" is missing")
		}
		c.eq("package "+p.name, s.Value.Value, strconv.Quote(p.value))
	}
	c.eq("number of imports", len(f.Imports), len(m.imports))
	for i, p := range m.imports {
		c.eq("import", f.Imports[i].Path.Value, strconv.Quote(p))
	}
	c.eq("number of declarations", len(f.Specs), len(m.imports)+len(m.decls))
	for i := range m.imports {
		if s, ok := f.Specs[i].(*ast.ImportSpec); !ok || s != f.Imports[i] {
			fail(c.in, "the imports are not the first declarations")
		}
	}
	for i, d := range m.decls {
		s, ok := f.Specs[len(m.imports)+i].(*ast.TypeSpec)
		if !ok {
			fail(c.in, fmt.Sprintf("%s %s is a %T", d.kind, d.name, f.Specs[len(m.imports)+i]))
		}
		w := d.kind + " " + d.name
		c.eq(w, s.Name.Name, d.name)
		c.group(w+": doc", s.Doc, d.doc)
		c.group(w+": line comment", s.Comment, line1(d.line))
		c.pos(w, s.Name.NamePos, d.nameOff)
		if o := f.Scope.Lookup(d.name); o == nil || o.Decl != interface{}(s) {
			fail(c.in, w+" is not found under its name in the scope of the file")
		}
		ext := func(got []*ast.Extends) {
			c.eq(w+": number of parents", len(got), len(d.ext))
			for k, x := range d.ext {
				c.eq(w+": parent", got[k].Name.Name, x.name)
				c.eq(w+": number of parent "+x.name, got[k].Id.Value, x.id)
			}
		}
		switch t := s.Type.(type) {
		case *ast.DataType:
			c.eq(w, d.kind, "data")
			c.eq(w, t.Name.Name, d.name)
			c.pos(w+": keyword", t.Data, d.kwOff)
			c.group(w+": doc", t.Doc, d.doc)
			c.tags(w, t.Tags, d.tags)
			ext(t.Extends)
			c.eq(w+": number of fields", len(t.Fields.List), len(d.fields))
			for k, x := range d.fields {
				g := t.Fields.List[k]
				w := w + ", field " + x.name
				c.eq(w, g.Name.Name, x.name)
				c.pos(w, g.Name.NamePos, x.nameOff)
				c.eq(w+": number", g.Id.Value, x.id)
				c.typ(w+": type", g.Type, &x.typ)
				c.tags(w, g.Tags, x.tags)
				c.group(w+": doc", g.Doc, x.doc)
				c.group(w+": line comment", g.Comment, line1(x.line))
			}
		case *ast.ServerType:
			c.eq(w, d.kind, "server")
			c.eq(w, t.Name.Name, d.name)
			c.pos(w+": keyword", t.Server, d.kwOff)
			c.group(w+": doc", t.Doc, d.doc)
			c.tags(w, t.Tags, d.tags)
			ext(t.Extends)
			c.eq(w+": number of methods", len(t.Methods), len(d.fields))
			for k, x := range d.fields {
				g := t.Methods[k]
				w := w + ", method " + x.name
				c.eq(w, g.Name.Name, x.name)
				c.pos(w, g.Name.NamePos, x.nameOff)
				c.eq(w+": number", g.Id.Value, x.id)
				c.typ(w+": result", g.Result, &x.typ)
				c.typ(w+": parameter", g.Param, &x.param)
				c.eq(w+": parameter", g.ParamName.Name, x.pname)
				c.tags(w, g.Tags, x.tags)
				c.group(w+": doc", g.Doc, x.doc)
			}
		case *ast.EnumType:
			c.eq(w, d.kind, "enum")
			c.eq(w, t.Name.Name, d.name)
			c.group(w+": doc", t.Doc, d.doc)
			c.tags(w, t.Tags, d.tags)
			c.eq(w+": number of items", len(t.Items), len(d.fields))
			for k, x := range d.fields {
				g := t.Items[k]
				w := w + ", item " + x.name
				c.eq(w, g.Name.Name, x.name)
				c.pos(w, g.Name.NamePos, x.nameOff)
				c.eq(w+": number", g.Id.Value, x.id)
				c.tags(w, g.Tags, x.tags)
				c.group(w+": doc", g.Doc, x.doc)
				c.group(w+": line comment", g.Comment, line1(x.line))
			}
		default:
			fail(c.in, fmt.Sprintf("%s is a %T", w, s.Type))
		}
	}
	var all []string
	for _, g := range f.Comments {
		for _, x := range g.List {
			all = append(all, x.Text)
		}
	}
	c.eq("comments", strings.Join(all, "\n"), strings.Join(m.comments, "\n"))
}
