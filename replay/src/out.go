package main

// Compares what the generators write for schemas drawn at random with what the
// schema says, in every language: spelling of types, enums, fields, methods.

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"hbuf/pkg/build"
	"hbuf/pkg/dart"
	"hbuf/pkg/golang"
	"hbuf/pkg/java"
	ts "hbuf/pkg/typescript"
)

func init() {
	build.AddBuildType("dart", dart.Build)
	build.AddBuildType("go", golang.Build)
	build.AddBuildType("java", java.Build)
	build.AddBuildType("ts", ts.Build)
	for _, p := range []string{"C11", "C12", "C13", "C14"} {
		oracles[p] = oracle{search: outSearch, bounded: outSearch}
	}
}

type oVar struct {
	base string
	ref  *oDecl
	opt  bool
}

type oType struct {
	shape int // 0 plain, 1 array, 2 map
	v, k  oVar
	sopt  bool
}

type oItem struct {
	name  string
	id    int
	typ   oType
	doc   []string
	param *oDecl
	res   *oDecl
	pname string
}

type oDecl struct {
	kind, name string
	file       *oFile
	items      []*oItem
	parents    []*oDecl
	doc        []string
}

type oFile struct {
	name  string
	pack  string
	imps  []*oFile
	decls []*oDecl
}

var oBases = []string{"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "bool", "float", "double", "decimal", "string", "date"}

func (v oVar) text() string {
	s := v.base
	if v.ref != nil {
		s = v.ref.name
	}
	if v.opt {
		s += "?"
	}
	return s
}

func (t oType) text() string {
	s := t.v.text()
	switch t.shape {
	case 1:
		s += "[]"
	case 2:
		s += "<" + t.k.text() + ">"
	}
	if t.shape > 0 && t.sopt {
		s += "?"
	}
	return s
}

func docText(doc []string, ind string) string {
	s := ""
	for _, d := range doc {
		s += ind + "// " + d + "\n"
	}
	return s
}

func (f *oFile) text() string {
	var b strings.Builder
	for _, l := range []string{"go", "dart", "java", "ts"} {
		fmt.Fprintf(&b, "package %s=%q\n", l, f.pack)
	}
	for _, i := range f.imps {
		fmt.Fprintf(&b, "import %q\n", i.name+".hbuf")
	}
	for _, d := range f.decls {
		b.WriteString("\n" + docText(d.doc, ""))
		b.WriteString(d.kind + " " + d.name)
		for i, p := range d.parents {
			b.WriteString([]string{" : ", ", "}[min(i, 1)])
			fmt.Fprintf(&b, "%s = %d", p.name, i+1)
		}
		b.WriteString(" {\n")
		for _, i := range d.items {
			b.WriteString(docText(i.doc, "\t"))
			switch d.kind {
			case "enum":
				fmt.Fprintf(&b, "\t%s = %d\n", i.name, i.id)
			case "data":
				fmt.Fprintf(&b, "\t%s %s = %d\n", i.typ.text(), i.name, i.id)
			default:
				r := "void"
				if i.res != nil {
					r = i.res.name
				}
				fmt.Fprintf(&b, "\t%s %s(%s %s) = %d\n", r, i.name, i.param.name, i.pname, i.id)
			}
		}
		b.WriteString("}\n")
	}
	return b.String()
}

type oGen struct {
	r    *rand.Rand
	used map[string]bool
}

var oParts = []string{"user", "Data", "kind", "a", "X", "list", "httpID", "b2", "Time", "é", "order"}

// fresh gives a name whose spellings differ from those of all others.
func (g *oGen) fresh() string {
	for {
		s := ""
		for i := 1 + g.r.Intn(3); i > 0; i-- {
			if s != "" && g.r.Intn(2) == 0 {
				s += "_"
			}
			s += oParts[g.r.Intn(len(oParts))]
		}
		if g.r.Intn(6) == 0 {
			s += fmt.Sprint(g.r.Intn(10))
		}
		k := strings.ToLower(strings.ReplaceAll(s, "_", ""))
		switch k {
		case "data", "import", "server", "enum", "package", "date":
			continue
		}
		if !g.used[k] {
			g.used[k] = true
			return s
		}
	}
}

func (g *oGen) doc() []string {
	switch g.r.Intn(4) {
	case 0:
		return []string{"the " + word(g.r)}
	case 1:
		return []string{"first " + word(g.r), "second " + word(g.r)}
	case 2:
		if g.r.Intn(3) == 0 {
			return []string{""}
		}
	}
	return nil
}

func (g *oGen) v(f *oFile, kinds string) oVar {
	v := oVar{base: oBases[g.r.Intn(len(oBases))], opt: g.r.Intn(3) == 0}
	if g.r.Intn(2) == 0 {
		if d := g.ref(f, kinds); d != nil {
			v.ref = d
		}
	}
	return v
}

func (g *oGen) ref(f *oFile, kinds string) *oDecl {
	var l []*oDecl
	for _, x := range append([]*oFile{f}, f.imps...) {
		for _, d := range x.decls {
			if strings.Contains(kinds, d.kind) {
				l = append(l, d)
			}
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[g.r.Intn(len(l))]
}

func (g *oGen) schema() []*oFile {
	g.used = map[string]bool{}
	packs := []string{"p", "common", "com.x.deep"}
	var fs []*oFile
	n := 1 + g.r.Intn(3)
	for i := n - 1; i >= 0; i-- {
		f := &oFile{name: []string{"f0", "base_x", "other"}[i], pack: packs[g.r.Intn(len(packs))]}
		if i < n-1 {
			f.imps = append(f.imps, fs...)
		}
		for j := g.r.Intn(3); j >= 0; j-- {
			f.decls = append(f.decls, g.enum(f))
		}
		for j := 1 + g.r.Intn(3); j >= 0; j-- {
			f.decls = append(f.decls, g.data(f))
		}
		for j := g.r.Intn(3); j > 0; j-- {
			f.decls = append(f.decls, g.server(f))
		}
		fs = append([]*oFile{f}, fs...)
	}
	return fs
}

func (g *oGen) enum(f *oFile) *oDecl {
	d := &oDecl{kind: "enum", name: g.fresh(), file: f, doc: g.doc()}
	id := g.r.Intn(3)
	keep := g.used
	g.used = map[string]bool{}
	for i := 1 + g.r.Intn(4); i > 0; i-- {
		d.items = append(d.items, &oItem{name: g.fresh(), id: id, doc: g.doc()})
		id += 1 + g.r.Intn(20)
	}
	g.used = keep
	return d
}

func (g *oGen) data(f *oFile) *oDecl {
	d := &oDecl{kind: "data", name: g.fresh(), file: f, doc: g.doc()}
	for i := g.r.Intn(3); i > 0; i-- {
		if p := g.ref(f, "data"); p != nil && (len(d.parents) == 0 || d.parents[0] != p) {
			d.parents = append(d.parents, p)
		}
	}
	id := 1
	for i := 1 + g.r.Intn(4); i > 0; i-- {
		it := &oItem{name: g.fresh(), id: id, doc: g.doc()}
		id += 1 + g.r.Intn(4)
		it.typ.v = g.v(f, "data enum")
		it.typ.shape = g.r.Intn(3)
		it.typ.sopt = g.r.Intn(2) == 0
		it.typ.k = oVar{base: []string{"string", "int32", "int64", "uint16"}[g.r.Intn(4)]}
		if e := g.ref(f, "enum"); e != nil && g.r.Intn(3) == 0 {
			it.typ.k.ref = e
		}
		d.items = append(d.items, it)
	}
	return d
}

func (g *oGen) server(f *oFile) *oDecl {
	d := &oDecl{kind: "server", name: g.fresh(), file: f, doc: g.doc()}
	if p := g.ref(f, "server"); p != nil && g.r.Intn(2) == 0 {
		d.parents = append(d.parents, p)
	}
	for i := 1 + g.r.Intn(3); i > 0; i-- {
		it := &oItem{name: g.fresh(), id: i, doc: g.doc(), param: g.ref(f, "data"), res: g.ref(f, "data"), pname: []string{"req", "the_req", "inData"}[g.r.Intn(3)]}
		d.items = append(d.items, it)
	}
	return d
}

// all gives the fields of a data type: those of its parents before its own, once each.
func (d *oDecl) all(seen map[string]bool) []*oItem {
	var l []*oItem
	for _, p := range d.parents {
		l = append(l, p.all(seen)...)
	}
	for _, i := range d.items {
		if !seen[i.name] {
			seen[i.name] = true
			l = append(l, i)
		}
	}
	return l
}

// ---- spelling

var (
	goB   = map[string]string{"int64": "hbuf.Int64", "uint64": "hbuf.Uint64", "float": "float32", "double": "float64", "date": "hbuf.Time", "decimal": "decimal.Decimal"}
	dartB = map[string]string{"int64": "Int64", "uint64": "Int64", "bool": "bool", "float": "double", "double": "double", "string": "String", "date": "DateTime", "decimal": "Decimal"}
	javaB = map[string]string{"int8": "Byte", "int16": "Short", "int32": "Integer", "uint16": "Integer", "int64": "Long", "uint32": "Long", "uint8": "Character", "uint64": "BigInteger", "bool": "Boolean", "float": "Float", "double": "Double", "string": "String", "date": "Date", "decimal": "BigDecimal"}
	tsB   = map[string]string{"int64": "Long", "uint64": "Long", "bool": "boolean", "string": "string", "date": "Date", "decimal": "d.Decimal"}
	tsK   = map[string]string{"int64": "string", "uint64": "string", "string": "string"}
)

func or(m map[string]string, k, d string) string {
	if v, ok := m[k]; ok {
		return v
	}
	return d
}

func (d *oDecl) goName(pack string) string {
	if d.file.pack != pack {
		return d.file.pack[strings.LastIndex(d.file.pack, ".")+1:] + "." + wantHump(d.name)
	}
	return wantHump(d.name)
}

func (v oVar) goText(pack string, opt bool) string {
	s := or(goB, v.base, v.base)
	if v.ref != nil {
		s = v.ref.goName(pack)
	}
	if v.opt && opt {
		s = "*" + s
	}
	return s
}

func (t oType) goText(pack string, opt bool) string {
	switch t.shape {
	case 1:
		return "[]" + t.v.goText(pack, true)
	case 2:
		return "map[" + t.k.goText(pack, true) + "]" + t.v.goText(pack, true)
	}
	return t.v.goText(pack, opt)
}

func mark(c bool, s string) string {
	if c {
		return s
	}
	return ""
}

func (v oVar) dartText() string {
	s := or(dartB, v.base, "int")
	if v.ref != nil {
		s = wantHump(v.ref.name)
	}
	return s + mark(v.opt, "?")
}

func (t oType) dartText() string {
	switch t.shape {
	case 1:
		return "List<" + t.v.dartText() + ">" + mark(t.sopt, "?")
	case 2:
		return "Map<" + t.k.dartText() + ", " + t.v.dartText() + ">" + mark(t.sopt, "?")
	}
	return t.v.dartText()
}

func (v oVar) javaText() string {
	if v.ref != nil {
		return wantHump(v.ref.name)
	}
	return javaB[v.base]
}

func (t oType) javaText() string {
	switch t.shape {
	case 1:
		return "List<" + t.v.javaText() + ">"
	case 2:
		return "Map<" + t.k.javaText() + ", " + t.v.javaText() + ">"
	}
	return t.v.javaText()
}

func (d *oDecl) tsName() string { return "<" + d.file.name + "." + d.kind + ">." + wantHump(d.name) }

func (v oVar) tsText(key bool) string {
	s := or(tsB, v.base, "number")
	if key {
		s = or(tsK, v.base, "number")
	}
	if v.ref != nil {
		s = v.ref.tsName()
		if key {
			s = "number"
		}
	}
	return s + mark(v.opt, " | null")
}

func (t oType) tsText() string {
	switch t.shape {
	case 1:
		return "(" + t.v.tsText(false) + ")[]" + mark(t.sopt, " | null")
	case 2:
		return "Record<(" + t.k.tsText(true) + "), (" + t.v.tsText(false) + ")>" + mark(t.sopt, " | null")
	}
	return t.v.tsText(false)
}

func (t oType) tsDefault() string {
	switch {
	case t.shape > 0 && t.sopt, t.shape == 0 && t.v.opt:
		return "null"
	case t.shape == 1:
		return "[]"
	case t.shape == 2:
		return "{}"
	case t.v.ref != nil && t.v.ref.kind == "enum":
		return t.v.ref.tsName() + ".valueOf(0)"
	case t.v.ref != nil:
		return "new " + t.v.ref.tsName() + "()"
	}
	return or(map[string]string{"int64": "Long.ZERO", "uint64": "Long.ZERO", "bool": "false", "float": "0.0", "double": "0.0", "string": `""`, "date": "new Date()", "decimal": "new d.Decimal(0)"}, t.v.base, "0")
}

func (t oType) goZero(pack string) string {
	if t.v.ref != nil {
		return t.v.ref.goName(pack) + map[string]string{"enum": "(0)", "data": "{}"}[t.v.ref.kind]
	}
	return or(map[string]string{"date": "hbuf.Time{}", "decimal": "decimal.Zero", "bool": "false", "string": `""`}, t.v.base, t.v.goText(pack, false)+"(0)")
}

// ---- comparison

func norm(s string) string { return strings.Join(strings.Fields(s), " ") }

type outCase struct {
	input string
	texts map[string]string // path of the output: its text, blanks normalised
	lang  string
}

func (c *outCase) has(file, what, want string) {
	t, ok := c.texts[file]
	if !ok {
		fail(c.input, fmt.Sprintf("%s: no file %s is written (for %s)", c.lang, file, what))
	}
	if !strings.Contains(t, norm(want)) {
		fail(c.input, fmt.Sprintf("%s: %s: file %s lacks\n%s\n---- it has ----\n%s", c.lang, what, file, want, t))
	}
}

func (c *outCase) once(file, what, want string) {
	c.has(file, what, want)
	if strings.Count(c.texts[file], norm(want)) != 1 {
		fail(c.input, fmt.Sprintf("%s: %s: file %s has more than once\n%s", c.lang, what, file, want))
	}
}

var tsAlias = regexp.MustCompile(`\$[0-9]+`)
var tsImport = regexp.MustCompile(`import \* as (\$[0-9]+) from "\./([^"]*)"`)

func outDoc(lead string, doc []string, mark string) string {
	if strings.TrimSpace(strings.Join(doc, "")) == "" {
		return ""
	}
	return lead + strings.Join(doc, "\n"+mark) + "\n"
}

func outSearch(r *rand.Rand) {
	for left() {
		g := &oGen{r: r}
		fs := g.schema()
		in := ""
		for _, f := range fs {
			in += "==== " + f.name + ".hbuf\n" + f.text()
		}
		try(in, func() { outCheck(in, fs) })
	}
}

func outCheck(in string, fs []*oFile) {
	dir := filepath.Join(scratch, "o")
	os.RemoveAll(dir)
	os.MkdirAll(dir, 0755)
	for _, f := range fs {
		os.WriteFile(filepath.Join(dir, f.name+".hbuf"), []byte(f.text()), 0644)
	}
	for _, lang := range []string{"go", "dart", "java", "ts"} {
		c := &outCase{input: in, lang: lang, texts: map[string]string{}}
		out := filepath.Join(dir, "out_"+lang)
		if err := build.Build(out, filepath.Join(dir, "f0.hbuf"), lang, "root/"); err != nil {
			fail(in, fmt.Sprintf("%s: a legal schema is refused: %v", lang, err))
		}
		filepath.Walk(out, func(p string, i os.FileInfo, err error) error {
			if err == nil && !i.IsDir() {
				b, _ := os.ReadFile(p)
				t := string(b)
				if lang == "ts" {
					al := map[string]string{}
					for _, m := range tsImport.FindAllStringSubmatch(t, -1) {
						al[m[1]] = "<" + m[2] + ">"
					}
					t = tsAlias.ReplaceAllStringFunc(t, func(a string) string {
						if v, ok := al[a]; ok {
							return v
						}
						return a
					})
				}
				c.texts[filepath.Base(p)] = norm(t)
			}
			return nil
		})
		for _, f := range fs {
			for _, d := range f.decls {
				c.decl(d)
			}
		}
	}
}

func (c *outCase) decl(d *oDecl) {
	n := wantHump(d.name)
	f := d.file.name
	hf := wantHump(f)
	switch c.lang + " " + d.kind {
	case "go enum":
		t := outDoc("// "+n+" ", d.doc, "// ") + "type " + n + " int\n"
		c.once(f+".enum.go", "enum "+d.name, t)
		t, names, vals := "", "", ""
		for _, i := range d.items {
			k := wantHump(i.name)
			t += outDoc("// "+n+k+" ", i.doc, "// ") + fmt.Sprintf("const %s%s %s = %d\n", n, k, n, i.id)
			names += fmt.Sprintf(" %s%s: %q,", n, k, k)
			vals += fmt.Sprintf(" %q: %s%s,", k, n, k)
		}
		c.once(f+".enum.go", "enum "+d.name, t+" func (e "+n+") Pointer()")
		c.once(f+".enum.go", "enum "+d.name, " = map["+n+"]string{"+names+" }")
		c.once(f+".enum.go", "enum "+d.name, " = map[string]"+n+"{"+vals+" }")
	case "dart enum":
		t, l := "", ""
		for _, i := range d.items {
			k := wantUnder(i.name, strings.ToUpper)
			t += outDoc("///", i.doc, "///") + fmt.Sprintf("static final %s = %s._(%d, '%s');\n", k, n, i.id, wantHump(i.name))
			l += " " + k + ","
		}
		c.once(f+".enum.dart", "enum "+d.name, "class "+n+"{")
		c.once(f+".enum.dart", "enum "+d.name, t+" static final List<"+n+"> values = ["+l+" ];")
	case "java enum":
		t, l := "", ""
		for _, i := range d.items {
			k := wantUnder(i.name, strings.ToUpper)
			t += outDoc("///", i.doc, "///") + fmt.Sprintf("static final %s %s = new %s(%d, \"%s\");\n", n, k, n, i.id, k)
			l += " " + k + ","
		}
		c.once(hf+"Enum.java", "enum "+d.name, "class "+n+" {")
		c.once(hf+"Enum.java", "enum "+d.name, t+" static final "+n+"[] values = new "+n+"[]{"+l+" };")
	case "ts enum":
		t, l := "", ""
		for _, i := range d.items {
			k := wantUnder(i.name, strings.ToUpper)
			t += outDoc("///", i.doc, "///") + fmt.Sprintf("public static readonly %s = new %s(%d, \"%s\");\n", k, n, i.id, wantHump(i.name))
			l += " " + n + "." + k + ","
		}
		c.once(f+".enum.ts", "enum "+d.name, "export class "+n+"{")
		c.once(f+".enum.ts", "enum "+d.name, t)
		c.once(f+".enum.ts", "enum "+d.name, n+"[] = ["+l+" ];")
	case "go data", "dart data", "java data", "ts data":
		file := map[string]string{"go": f + ".data.go", "dart": f + ".data.dart", "java": hf + "Data.java", "ts": f + ".data.ts"}[c.lang]
		for _, i := range d.items {
			c.imports(file, d, i)
		}
	}
	switch c.lang + " " + d.kind {
	case "go data":
		c.goData(d, n, f+".data.go")
	case "dart data":
		c.dartData(d, n, f+".data.dart")
	case "java data":
		for _, i := range d.items {
			h, t := wantHump(i.name), i.typ.javaText()
			c.has(hf+"Data.java", "field "+i.name, t+" get"+h+"();")
			c.has(hf+"Data.java", "field "+i.name, "void set"+h+"("+t+" value);")
		}
		for _, i := range d.all(map[string]bool{}) {
			h, l, t := wantHump(i.name), lowFirst(wantHump(i.name)), i.typ.javaText()
			c.has(hf+"Data.java", "field "+i.name, t+" "+l+"; @Override public "+t+" get"+h+"(){ return this."+l+"; } @Override public void set"+h+"("+t+" value){ this."+l+" = value; }")
		}
	case "ts data":
		c.tsData(d, n, f+".data.ts")
	case "go server":
		c.goServer(d, n, f+".server.go")
	case "dart server", "ts server", "java server":
		c.routes(d, n, map[string]string{"dart": f + ".server.dart", "ts": f + ".server.ts", "java": hf + "Server.java"}[c.lang])
	}
}

// imports checks what a variable mentions against the imports of the file.
func (c *outCase) imports(file string, d *oDecl, it *oItem) {
	l := []oVar{it.typ.v}
	if it.typ.shape == 2 {
		l = append(l, it.typ.k)
	}
	for _, v := range l {
		w := ""
		if v.ref != nil {
			f, k := v.ref.file, v.ref.kind
			switch {
			case c.lang == "go" && f.pack != d.file.pack:
				w = "\"root/" + f.pack[strings.LastIndex(f.pack, ".")+1:] + "\""
			case c.lang == "dart" && (f != d.file || k != "data"):
				w = "import '" + f.name + "." + k + ".dart';"
			case c.lang == "java" && (f != d.file || k != "data"):
				w = "import " + f.pack + "." + wantHump(f.name) + wantHump(k) + ".*;"
			case c.lang == "ts":
				w = "from \"./" + f.name + "." + k + "\""
				if it.typ.shape == 2 && v == it.typ.k {
					w = ""
				}
			}
		} else {
			w = map[string]map[string]string{
				"go":   {"int64": "\"github.com/wskfjtheqian/hbuf_golang/pkg/hbuf\"", "uint64": "\"github.com/wskfjtheqian/hbuf_golang/pkg/hbuf\"", "date": "\"github.com/wskfjtheqian/hbuf_golang/pkg/hbuf\"", "decimal": "\"github.com/shopspring/decimal\""},
				"dart": {"int64": "import 'package:fixnum/fixnum.dart';", "uint64": "import 'package:fixnum/fixnum.dart';", "decimal": "import 'package:decimal/decimal.dart';"},
				"java": {"uint64": "import java.math.BigInteger;", "decimal": "import java.math.BigDecimal;", "date": "import java.util.Date;"},
				"ts":   {"int64": "from \"long\"", "uint64": "from \"long\"", "decimal": "from \"decimal.js\""},
			}[c.lang][v.base]
			if c.lang == "ts" && it.typ.shape == 2 && v == it.typ.k {
				w = ""
			}
		}
		if w != "" {
			c.has(file, "import for field "+it.name, w)
		}
	}
	if c.lang == "java" && it.typ.shape > 0 {
		c.has(file, "import for field "+it.name, []string{"", "import java.util.List;", "import java.util.Map;"}[it.typ.shape])
	}
}

func (c *outCase) goData(d *oDecl, n, file string) {
	pk := d.file.pack
	t := outDoc("// "+n+" ", d.doc, "// ") + "type " + n + " struct {\n"
	for _, p := range d.parents {
		t += "\t" + p.goName(pk) + "\n"
	}
	for _, i := range d.items {
		t += "\t" + wantHump(i.name) + " " + i.typ.goText(pk, true) + " `json:\"" + wantUnder(i.name, strings.ToLower) + ",omitempty\"` //" + strings.Join(i.doc, " ") + "\n"
	}
	c.once(file, "data "+d.name, t+"}")
	for _, i := range d.items {
		h, ty := wantHump(i.name), i.typ.goText(pk, false)
		body := "return g." + h
		set := "val"
		if i.typ.shape == 0 && i.typ.v.opt {
			body = "if nil == g." + h + " { return " + i.typ.goZero(pk) + " } return *g." + h
			set = "&val"
		}
		c.once(file, "field "+i.name, "func (g *"+n+") Get"+h+"() "+ty+" { "+body+" }")
		c.once(file, "field "+i.name, "func (g *"+n+") Set"+h+"(val "+ty+") { g."+h+" = "+set+" }")
	}
}

func (c *outCase) dartData(d *oDecl, n, file string) {
	t := ""
	for _, i := range d.all(map[string]bool{}) {
		l, ty := lowFirst(wantHump(i.name)), i.typ.dartText()
		req := "required "
		if strings.HasSuffix(ty, "?") {
			req = ""
		}
		t += " " + req + ty + " " + l + ","
		j := wantUnder(i.name, strings.ToLower)
		c.has(file, "field "+i.name, l+": null == (temp = map[\""+j+"\"])")
		c.has(file, "field "+i.name, "\""+j+"\":"+l)
	}
	c.has(file, "data "+d.name, "factory "+n+"({"+t+" })")
	t = ""
	for _, i := range d.all(map[string]bool{}) {
		t += " " + strings.TrimSuffix(i.typ.dartText(), "?") + "? " + lowFirst(wantHump(i.name)) + ","
	}
	c.has(file, "data "+d.name, n+" copyWith({"+t+" });")
	c.has(file, "data "+d.name, "_"+n+" copyWith({"+t+" }) {")
	for _, i := range d.items {
		l, ty := lowFirst(wantHump(i.name)), i.typ.dartText()
		c.has(file, "field "+i.name, ty+" get "+l+";")
		c.has(file, "field "+i.name, "set "+l+"("+ty+" value);")
	}
}

func (c *outCase) tsData(d *oDecl, n, file string) {
	t := "export class " + n + " implements h.Data"
	for _, p := range d.parents {
		t += ", " + p.tsName()
	}
	t += " {\n"
	for _, i := range d.all(map[string]bool{}) {
		l := lowFirst(wantHump(i.name))
		t += outDoc("///", i.doc, "///") + l + ": " + i.typ.tsText() + " = " + i.typ.tsDefault() + ";\n"
		j := wantUnder(i.name, strings.ToLower)
		c.has(file, "field "+i.name, "ret."+l+" = null == (temp = json[\""+j+"\"])")
		c.has(file, "field "+i.name, "\""+j+"\": ")
	}
	c.once(file, "data "+d.name, t+" public static fromJson(")
}

func (c *outCase) goServer(d *oDecl, n, file string) {
	pk := d.file.pack
	u := wantUnder(d.name, strings.ToLower)
	for _, i := range d.items {
		h, p := wantHump(i.name), lowFirst(wantHump(i.pname))
		sig := h + "(ctx context.Context, " + p + " *" + i.param.goName(pk) + ") "
		res := "(*" + i.res.goName(pk) + ", error)"
		c.has(file, "method "+i.name, sig+res)
		c.once(file, "method "+i.name, "func (r *"+n+"Client) "+sig+res+" { ret, err := r.client.Invoke(ctx, "+p+", \""+u+"/"+u+"/"+wantUnder(i.name, strings.ToLower)+"\", ")
	}
	seen := map[string]bool{}
	for s := d; s != nil; {
		for _, i := range s.items {
			if seen[i.name] {
				continue
			}
			seen[i.name] = true
			h := wantHump(i.name)
			c.once(file, "method "+i.name, "\""+u+"/"+wantUnder(i.name, strings.ToLower)+"\": { ToData: func(buf []byte) (hbuf.Data, error) { var req "+i.param.goName(pk)+" return &req, json.Unmarshal(buf, &req) },")
			c.has(file, "method "+i.name, "return server."+h+"(ctx, data.(*"+i.param.goName(pk)+")) }, },")
		}
		if len(s.parents) == 0 {
			break
		}
		s = s.parents[0]
	}
}

func (c *outCase) routes(d *oDecl, n, file string) {
	u := wantUnder(d.name, strings.ToLower)
	for k, i := range d.items {
		l, p := lowFirst(wantHump(i.name)), lowFirst(wantHump(i.pname))
		route := "\"" + u + "/" + wantUnder(i.name, strings.ToLower) + "\""
		pn, rn := wantHump(i.param.name), wantHump(i.res.name)
		_ = k
		switch c.lang {
		case "dart":
			c.has(file, "method "+i.name, "Future<"+rn+"> "+l+"("+pn+" "+p+", [Context? ctx]){ return invoke<"+rn+">("+route+", ")
			c.has(file, "method "+i.name, route+": ServerInvoke( toData: (List<int> buf) async { return "+pn+".fromMap(")
			c.has(file, "method "+i.name, "return await server."+l+"(data as "+pn+", ctx);")
		case "java":
			c.has(file, "method "+i.name, "public CompletableFuture<"+rn+"> "+l+"("+pn+" "+p+", Server.Context ctx) throws Exception { return invoke("+route+", ")
		case "ts":
			pn, rn = i.param.tsName(), i.res.tsName()
			c.has(file, "method "+i.name, l+"("+p+": "+pn+", ctx?: h.Context): Promise<"+rn+"> { return this.invoke<"+rn+">("+route+", ")
			c.has(file, "method "+i.name, route+": { formData(data: BinaryData | Record<string, any>): h.Data { return "+pn+".fromJson(data) }")
			c.has(file, "method "+i.name, "return server."+l+"(data as "+pn+", ctx);")
		}
	}
}
