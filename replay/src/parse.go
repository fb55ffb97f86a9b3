package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"hbuf/pkg/ast"
	"hbuf/pkg/parser"
	"hbuf/pkg/scanner"
	"hbuf/pkg/token"
)

const pmode = parser.AllErrors | parser.ParseComments

func init() {
	oracles["C04"] = oracle{search: parseSearch, bounded: parseSearch}
	oracles["C05"] = oracle{search: mirrorSearch, bounded: mirrorSearch}
}

// wellFormed checks that an accepted file holds everything the later stages rely on.
func wellFormed(in string, f *ast.File) {
	bad := func(s string, a ...interface{}) {
		fail(in, "accepted without error, but "+fmt.Sprintf(s, a...))
	}
	if f.Scope == nil {
		bad("the file has no scope")
	}
	lit := func(what string, l *ast.BasicLit, k token.Token) {
		if l == nil {
			bad("%s is missing", what)
		}
		if l.Kind != k {
			bad("%s is a %s", what, l.Kind)
		}
		if k == token.STRING && len(l.Value) < 2 {
			bad("%s is the string %q, without quotes", what, l.Value)
		}
	}
	ident := func(what string, id *ast.Ident) {
		if id == nil || id.Name == "" {
			bad("%s has no name", what)
		}
	}
	tags := func(what string, ts []*ast.Tag) {
		for _, t := range ts {
			if t == nil {
				bad("a tag of %s is nil", what)
			}
			ident("a tag of "+what, t.Name)
			for _, kv := range t.KV {
				if kv == nil {
					bad("a key of tag %s is nil", t.Name.Name)
				}
				ident("a key of tag "+t.Name.Name, kv.Name)
				if len(kv.Values) == 0 {
					bad("key %s of tag %s has no value", kv.Name.Name, t.Name.Name)
				}
				for _, v := range kv.Values {
					lit("a value of key "+kv.Name.Name, v, token.STRING)
				}
			}
		}
	}
	var typ func(what string, t ast.Expr)
	typ = func(what string, t ast.Expr) {
		if t == nil || reflect.ValueOf(t).IsNil() {
			bad("%s is missing", what)
		}
		switch t := t.(type) {
		case *ast.VarType:
			id, ok := t.TypeExpr.(*ast.Ident)
			if !ok {
				bad("%s is a %T", what, t.TypeExpr)
			}
			ident(what, id)
		case *ast.ArrayType:
			typ(what, t.VType)
		case *ast.MapType:
			typ(what, t.VType)
			typ(what+" (key)", t.Key)
		default:
			bad("%s is a %T", what, t)
		}
	}
	for n, p := range f.Packages {
		if p == nil || p.Name == nil || p.Name.Name != n {
			bad("package %s is malformed", n)
		}
		lit("package "+n, p.Value, token.STRING)
	}
	for _, i := range f.Imports {
		lit("the path of an import", i.Path, token.STRING)
	}
	for _, s := range f.Specs {
		switch s := s.(type) {
		case *ast.ImportSpec:
		case *ast.TypeSpec:
			ident("a declaration", s.Name)
			if s.Name.Obj == nil || s.Name.Obj.Decl != interface{}(s) {
				bad("the object of %s is not its declaration", s.Name.Name)
			}
			ext := func(l []*ast.Extends) {
				for _, x := range l {
					if x == nil {
						bad("a parent is nil")
					}
					ident("a parent", x.Name)
					lit("the number of a parent", x.Id, token.INT)
				}
			}
			switch t := s.Type.(type) {
			case *ast.DataType:
				ident("a data type", t.Name)
				tags(t.Name.Name, t.Tags)
				ext(t.Extends)
				if t.Fields == nil {
					bad("%s has no list of fields", t.Name.Name)
				}
				for _, x := range t.Fields.List {
					if x == nil {
						bad("a field is nil")
					}
					ident("a field", x.Name)
					lit("the number of field "+x.Name.Name, x.Id, token.INT)
					typ("the type of field "+x.Name.Name, x.Type)
					tags(x.Name.Name, x.Tags)
				}
			case *ast.ServerType:
				ident("a server", t.Name)
				tags(t.Name.Name, t.Tags)
				ext(t.Extends)
				for _, x := range t.Methods {
					if x == nil {
						bad("a method is nil")
					}
					ident("a method", x.Name)
					ident("a parameter", x.ParamName)
					lit("the number of method "+x.Name.Name, x.Id, token.INT)
					typ("the result of method "+x.Name.Name, x.Result)
					typ("the parameter of method "+x.Name.Name, x.Param)
					tags(x.Name.Name, x.Tags)
				}
			case *ast.EnumType:
				ident("an enum", t.Name)
				tags(t.Name.Name, t.Tags)
				for _, x := range t.Items {
					if x == nil {
						bad("an item is nil")
					}
					ident("an item", x.Name)
					lit("the number of item "+x.Name.Name, x.Id, token.INT)
					tags(x.Name.Name, x.Tags)
				}
			default:
				bad("%s is a %T", s.Name.Name, s.Type)
			}
		default:
			bad("a declaration is a %T", s)
		}
	}
}

// structure renders the part of the tree that depends on the tokens alone.
func parseOne(src string) {
	in := fmt.Sprintf("%q", src)
	try(in, func() {
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, "f.hbuf", src, pmode)
		if f == nil {
			fail(in, "ParseFile returns no file")
		}
		n, errs := scanErrors(src)
		if err == nil {
			if n > 0 {
				fail(in, "accepted although the scanner reports: "+errs[0])
			}
			wellFormed(in, f)
			if !grammatical(src) {
				fail(in, "a malformed text is accepted without an error")
			}
			return
		}
		if n == 0 && grammatical(src) {
			fail(in, "a well-formed text is refused: "+err.Error())
		}
		l, ok := err.(scanner.ErrorList)
		if !ok || len(l) == 0 {
			fail(in, fmt.Sprintf("the error is %T, not a non-empty list of errors", err))
		}
		for i, e := range l {
			if e.Pos.Filename != "f.hbuf" && !strings.Contains(src, "line ") || e.Pos.Offset < 0 || e.Pos.Offset > len(src) {
				fail(in, fmt.Sprintf("the error %q is at %s (offset %d)", e.Msg, e.Pos, e.Pos.Offset))
			}
			if i > 0 && !strings.Contains(src, "line ") && (l[i-1].Pos.Line > e.Pos.Line || l[i-1].Pos.Line == e.Pos.Line && l[i-1].Pos.Column > e.Pos.Column) {
				fail(in, "the errors are not sorted by position")
			}
		}
	})
}

func scanErrors(src string) (int, []string) {
	fset := token.NewFileSet()
	file := fset.AddFile("g.hbuf", -1, len(src))
	var s scanner.Scanner
	var l []string
	s.Init(file, []byte(src), func(p token.Position, m string) { l = append(l, m) }, scanner.ScanComments)
	for i := 0; i < 3*len(src)+5; i++ {
		if _, t, _ := s.Scan(); t == token.EOF {
			break
		}
	}
	return s.ErrorCount, l
}

var ptoks = []string{"a", "b", "data", "enum", "server", "import", "package", "1", "0x1F", "08", "\"s\"", "\"f.hbuf\"", "\"\"", "`r`", ",", ":", ";", "(", ")", "[", "]", "{", "}", "<", ">", "=", "?", ".", "\n", "// c\n", "/* c */", "'", "\"open", "@", "int32", "string", "void", "_"}

var seeds = []string{
	"data A {\n int32 a = 0\n}\n",
	"data A : B = 1, C = 2 {\n [t: k=\"v\", \"w\"; q=\"x\"]\n string?[]? a = 0\n int8?<string>? m = 1\n}\n",
	"server S : T = 1 {\n [t: k=\"v\"]\n A m(B p) = 0\n void n(B p) = 1\n}\n",
	"enum E {\n [t:]\n A = 1\n B = 2 // c\n}\n",
	"package go=\"x\"\npackage java=\"y\"\nimport \"f.hbuf\"\n\n// doc\n[db: table=\"t\"]\ndata A {\n}\n",
}

func parseSearch(r *rand.Rand) {
	for _, s := range seeds {
		parseOne(s)
		for i := 0; i <= len(s); i++ {
			parseOne(s[:i])
			if i < len(s) {
				parseOne(s[:i] + s[i+1:])
			}
		}
	}
	for _, a := range ptoks {
		for _, b := range ptoks {
			parseOne(a + " " + b)
		}
	}
	// every token replaced by and every place filled with every token
	for _, s := range seeds {
		t := splitToks(s)
		for i := range t {
			for _, p := range ptoks {
				if !left() {
					return
				}
				u := append(append(append([]string{}, t[:i]...), p), t[i+1:]...)
				parseOne(strings.Join(u, " "))
				u = append(append(append([]string{}, t[:i]...), p), t[i:]...)
				parseOne(strings.Join(u, " "))
			}
		}
	}
	for i := 0; left(); i++ {
		switch r.Intn(3) {
		case 0:
			var b strings.Builder
			b.WriteString(pick(r, []string{"", "data a {", "server s {", "enum e {", "data a { [t: k=", "data A { int32"}))
			for n := r.Intn(14); n >= 0; n-- {
				b.WriteString(pick(r, ptoks))
				b.WriteByte(" \n"[r.Intn(6)/5])
			}
			parseOne(b.String())
		case 1:
			parseOne(string(soup(r)))
		default:
			t := splitToks(randFile(r, "", nil, nil).text(r, true, false))
			for k := 1 + r.Intn(3); k > 0 && len(t) > 0; k-- {
				j := r.Intn(len(t))
				switch r.Intn(4) {
				case 0:
					t = append(t[:j], t[j+1:]...)
				case 1:
					t[j] = pick(r, ptoks)
				case 2:
					j2 := r.Intn(len(t))
					t[j], t[j2] = t[j2], t[j]
				default:
					t = t[:j]
				}
			}
			parseOne(strings.Join(t, " "))
		}
	}
}

// splitToks cuts a source into tokens, line breaks included.
func splitToks(src string) []string {
	fset := token.NewFileSet()
	file := fset.AddFile("g.hbuf", -1, len(src))
	var s scanner.Scanner
	s.Init(file, []byte(src), nil, 0)
	var l []string
	for i := 0; i < 3*len(src)+5; i++ {
		_, t, lit := s.Scan()
		if t == token.EOF {
			break
		}
		if lit == "" || t.IsOperator() && lit != "\n" {
			lit = t.String()
		}
		l = append(l, lit)
	}
	return l
}

func mirrorSearch(r *rand.Rand) {
	for i := 0; left(); i++ {
		m := randFile(r, "", nil, nil)
		if r.Intn(3) == 0 {
			m.imports = append(m.imports, "other.hbuf", "dir/more.hbuf")
		}
		wild := i%4 != 0
		src := m.text(r, wild, i%3 != 0)
		if i%5 == 1 {
			// no line end after the last token
			src = strings.TrimRight(src, "\n\t ")
		}
		in := src
		try(in, func() {
			fset := token.NewFileSet()
			fset.AddFile("pad", -1, i%50)
			base := fset.Base()
			f, err := parser.ParseFile(fset, "f.hbuf", src, pmode)
			if err != nil {
				fail(in, "a correct source is refused: "+err.Error())
			}
			wellFormed(in, f)
			c := &cmp{in: in, base: base, loc: true}
			c.eq("path", f.Path, "f.hbuf")
			c.file(f, m)
		})
	}
}
