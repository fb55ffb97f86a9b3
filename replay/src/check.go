package main

// C06, C07 (and C08): schemas of a few files with a small vocabulary are drawn, one rule
// after the other is broken at random, and what the checker says is compared
// with an evaluation of the rules on the model.

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"hbuf/pkg/ast"
	"hbuf/pkg/build"
	"hbuf/pkg/token"
)

type kType struct {
	name  string
	opt   bool
	shape int // 0 plain 1 array 2 map
	key   string
	kopt  bool
	kshp  int // shape of the key
}

type kItem struct {
	tags  []mTag
	name  string
	id    string
	typ   kType
	res   kType
	param string
}

type kDecl struct {
	kind  string
	name  string
	tags  []mTag
	ext   []mExt
	items []*kItem
}

type kFile struct {
	imports []int
	decls   []*kDecl
}

type kSet struct{ files []*kFile }

var kReserved = map[string]bool{"data": true, "server": true, "enum": true, "import": true, "package": true}
var kBuiltin = map[string]bool{}

func init() {
	for _, t := range strings.Fields("int8 int16 int32 int64 uint8 uint16 uint32 uint64 bool float double string date decimal") {
		kBuiltin[t] = true
	}
	build.AddBuildType("verif", func(file *ast.File, fset *token.FileSet, param *build.Param) error {
		captured[filepath.Base(file.Path)] = file
		return nil
	})
	oracles["C06"] = oracle{search: func(r *rand.Rand) { checkSearch(r, "C06") }}
	oracles["C07"] = oracle{search: func(r *rand.Rand) { checkSearch(r, "C07") }}
	oracles["C08"] = oracle{search: func(r *rand.Rand) { checkSearch(r, "C08") }}
}

var captured = map[string]*ast.File{}

func kTags(tags []mTag) string {
	var b strings.Builder
	for _, t := range tags {
		fmt.Fprintf(&b, "[%s:", t.name)
		for i, kv := range t.kvs {
			if i > 0 {
				b.WriteString(";")
			}
			fmt.Fprintf(&b, " %s=%s", kv.name, strings.Join(kv.values, ", "))
		}
		b.WriteString("]\n")
	}
	return b.String()
}

func opt(b bool) string {
	if b {
		return "?"
	}
	return ""
}

func (t kType) String() string {
	switch t.shape {
	case 1:
		return t.name + "[]" + opt(t.opt)
	case 2:
		k := t.key + opt(t.kopt)
		if t.kshp == 1 {
			k = t.key + "[]"
		} else if t.kshp == 2 {
			k = t.key + "<int32>"
		}
		return t.name + "<" + k + ">" + opt(t.opt)
	}
	return t.name + opt(t.opt)
}

func (s *kSet) fileText(i int) string {
	f := s.files[i]
	var b strings.Builder
	b.WriteString("package go=\"p\"\n")
	for _, j := range f.imports {
		fmt.Fprintf(&b, "import \"f%d.hbuf\"\n", j)
	}
	for _, d := range f.decls {
		b.WriteString(kTags(d.tags))
		b.WriteString(d.kind + " " + d.name)
		for k, e := range d.ext {
			if k == 0 {
				b.WriteString(" : ")
			} else {
				b.WriteString(", ")
			}
			b.WriteString(e.name + " = " + e.id)
		}
		b.WriteString(" {\n")
		for _, it := range d.items {
			b.WriteString(kTags(it.tags))
			switch d.kind {
			case "data":
				fmt.Fprintf(&b, "  %s %s = %s\n", it.typ, it.name, it.id)
			case "enum":
				fmt.Fprintf(&b, "  %s = %s\n", it.name, it.id)
			case "server":
				fmt.Fprintf(&b, "  %s %s(%s %s) = %s\n", it.res, it.name, it.typ, it.param, it.id)
			}
		}
		b.WriteString("}\n")
	}
	return b.String()
}

func (s *kSet) String() string {
	var b strings.Builder
	for i := range s.files {
		fmt.Fprintf(&b, "// f%d.hbuf\n%s", i, s.fileText(i))
	}
	return b.String()
}

// reach lists the files the compiler gets to see.
func (s *kSet) reach() []int {
	seen := map[int]bool{}
	var walk func(i int)
	walk = func(i int) {
		if seen[i] {
			return
		}
		seen[i] = true
		for _, j := range s.files[i].imports {
			walk(j)
		}
	}
	walk(0)
	var out []int
	for i := range seen {
		out = append(out, i)
	}
	sort.Ints(out)
	return out
}

func (f *kFile) decl(n string) *kDecl {
	for _, d := range f.decls {
		if d.name == n {
			return d
		}
	}
	return nil
}

// find gives the declaration a name means: of one of the kinds, here or in the
// first import which has one.
func (s *kSet) find(i int, n string, kinds string) (int, *kDecl) {
	f := s.files[i]
	if d := f.decl(n); d != nil && strings.Contains(kinds, d.kind) {
		return i, d
	}
	for _, j := range f.imports {
		if d := s.files[j].decl(n); d != nil && strings.Contains(kinds, d.kind) {
			return j, d
		}
	}
	return -1, nil
}

func kTagsBad(tags []mTag) bool {
	seen := map[string]bool{}
	for _, t := range tags {
		if seen[t.name] {
			return true
		}
		seen[t.name] = true
		ks := map[string]bool{}
		for _, kv := range t.kvs {
			if ks[kv.name] {
				return true
			}
			ks[kv.name] = true
		}
	}
	return false
}

func reserved(n string) bool { return kReserved[n] || kBuiltin[n] }

// broken names the first rule the schema breaks; names: those of C06, refs: those of C07.
func (s *kSet) broken() (names, refs string) {
	bad := func(p *string, f string, a ...interface{}) {
		if *p == "" {
			*p = fmt.Sprintf(f, a...)
		}
	}
	for _, i := range s.reach() {
		f := s.files[i]
		for di, d := range f.decls {
			at := fmt.Sprintf("f%d %s %s", i, d.kind, d.name)
			if reserved(d.name) {
				bad(&names, "%s: reserved name", at)
			}
			if kTagsBad(d.tags) {
				bad(&names, "%s: repeated tag or key", at)
			}
			for _, e := range f.decls[di+1:] {
				if e.name == d.name {
					bad(&names, "%s: declared twice", at)
				}
			}
			for _, j := range f.imports {
				if s.files[j].decl(d.name) != nil {
					bad(&names, "%s: also declared in the imported f%d", at, j)
				}
			}
			ext := map[string]bool{}
			for _, e := range d.ext {
				if ext[e.name] {
					bad(&names, "%s: extends %s twice", at, e.name)
				}
				ext[e.name] = true
				if reserved(e.name) {
					bad(&names, "%s: extends a reserved name", at)
				}
				if _, p := s.find(i, e.name, d.kind); p == nil {
					bad(&refs, "%s: extends the unknown %s", at, e.name)
				}
			}
			ns, ids := map[string]bool{}, map[string]bool{}
			for _, it := range d.items {
				at := at + " item " + it.name
				if reserved(it.name) {
					bad(&names, "%s: reserved name", at)
				}
				if ns[it.name] {
					bad(&names, "%s: name used twice", at)
				}
				ns[it.name] = true
				if ids[it.id] && d.kind != "server" {
					bad(&names, "%s: id %s used twice", at, it.id)
				}
				ids[it.id] = true
				if kTagsBad(it.tags) {
					bad(&names, "%s: repeated tag or key", at)
				}
				switch d.kind {
				case "data":
					if _, p := s.find(i, it.typ.name, "data enum"); !kBuiltin[it.typ.name] && p == nil {
						bad(&refs, "%s: unknown type %s", at, it.typ.name)
					}
					if it.typ.shape == 2 {
						_, p := s.find(i, it.typ.key, "data enum")
						if it.typ.kshp != 0 || it.typ.kopt || !kBuiltin[it.typ.key] && (p == nil || p.kind != "enum") {
							bad(&refs, "%s: map key %s", at, it.typ)
						}
					}
				case "server":
					if reserved(it.param) {
						bad(&names, "%s: reserved parameter name", at)
					}
					for k, t := range []kType{it.typ, it.res} {
						if k == 1 && t.name == "void" {
							continue
						}
						if _, p := s.find(i, t.name, "data"); t.opt || p == nil {
							bad(&refs, "%s: type %s of a method", at, t)
						}
					}
				}
			}
		}
	}
	return
}

// cyclic tells whether a declaration is its own ancestor.
func (s *kSet) cyclic() bool {
	type node struct {
		i int
		d *kDecl
	}
	state := map[*kDecl]int{}
	var walk func(n node) bool
	walk = func(n node) bool {
		switch state[n.d] {
		case 1:
			return true
		case 2:
			return false
		}
		state[n.d] = 1
		for _, e := range n.d.ext {
			if j, p := s.find(n.i, e.name, n.d.kind); p != nil && walk(node{j, p}) {
				return true
			}
		}
		state[n.d] = 2
		return false
	}
	for _, i := range s.reach() {
		for _, d := range s.files[i].decls {
			if walk(node{i, d}) {
				return true
			}
		}
	}
	return false
}

var kNames = strings.Fields("Aa Bb Cc Dd Ee Ff Gg Hh")

func randKTags(r *rand.Rand) []mTag {
	var out []mTag
	names := []string{"db", "verify", "lang", "x"}
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	for n := r.Intn(4); n > 0 && r.Intn(3) == 0; n-- {
		t := mTag{name: names[n]}
		keys := []string{"k", "v", "w", "name"}
		r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		for k := r.Intn(3) + 1; k > 0; k-- {
			t.kvs = append(t.kvs, mKV{keys[k], []string{`"1"`}})
		}
		out = append(out, t)
	}
	return out
}

// randSet draws a schema which mostly keeps the rules.
func randSet(r *rand.Rand) *kSet {
	s := &kSet{}
	nf := 1 + r.Intn(3)
	pool := append([]string{}, kNames...)
	r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	for i := 0; i < nf; i++ {
		f := &kFile{}
		for j := 0; j < nf; j++ {
			if j != i && r.Intn(2) == 0 {
				f.imports = append(f.imports, j)
			}
		}
		r.Shuffle(len(f.imports), func(i, j int) { f.imports[i], f.imports[j] = f.imports[j], f.imports[i] })
		for n := r.Intn(4); n > 0 && len(pool) > 0; n-- {
			f.decls = append(f.decls, &kDecl{kind: []string{"data", "data", "enum", "server"}[r.Intn(4)], name: pool[0], tags: randKTags(r)})
			pool = pool[1:]
		}
		s.files = append(s.files, f)
	}
	builtins := []string{"int8", "int32", "int64", "string", "date", "decimal", "bool", "uint64"}
	for i, f := range s.files {
		visible := func(kinds string) []string {
			var out []string
			add := func(f *kFile) {
				for _, d := range f.decls {
					if strings.Contains(kinds, d.kind) {
						out = append(out, d.name)
					}
				}
			}
			add(f)
			for _, j := range f.imports {
				add(s.files[j])
			}
			return out
		}
		_ = i
		for _, d := range f.decls {
			if d.kind != "enum" {
				ps := visible(d.kind)
				r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
				for k := 0; k < len(ps) && k < 2 && r.Intn(2) == 0; k++ {
					if ps[k] != d.name && ps[k] < d.name || r.Intn(12) == 0 {
						d.ext = append(d.ext, mExt{ps[k], fmt.Sprint(k)})
					}
				}
			}
			typ := func() string {
				v := append(visible("data enum"), builtins...)
				return v[r.Intn(len(v))]
			}
			datas := visible("data")
			for n := r.Intn(4); n > 0; n-- {
				it := &kItem{tags: randKTags(r), name: fmt.Sprintf("m%c", 'a'+byte(n)), id: fmt.Sprint(n)}
				switch d.kind {
				case "data":
					it.typ = kType{name: typ(), opt: r.Intn(3) == 0, shape: r.Intn(3)}
					if it.typ.shape == 2 {
						ks := append(visible("enum"), builtins...)
						it.typ.key = ks[r.Intn(len(ks))]
					}
				case "server":
					if len(datas) == 0 {
						continue
					}
					it.typ = kType{name: datas[r.Intn(len(datas))]}
					it.res = kType{name: datas[r.Intn(len(datas))]}
					if r.Intn(4) == 0 {
						it.res = kType{name: "void"}
					}
					it.param = "req"
				}
				d.items = append(d.items, it)
			}
		}
	}
	return s
}

// spoil changes one thing.
func (s *kSet) spoil(r *rand.Rand) {
	f := s.files[r.Intn(len(s.files))]
	if r.Intn(2) == 0 {
		f = s.files[0]
	}
	anyName := func() string {
		l := append([]string{"Unknown", "int32", "date", "decimal", "server", "package", "double", "enum", "import", "data", "void"}, kNames...)
		l = append(l, kNames...)
		return l[r.Intn(len(l))]
	}
	notKw := func() string { // what the scanner reads as a name
		for {
			n := anyName()
			if !kReserved[n] {
				return n
			}
		}
	}
	if len(f.decls) == 0 {
		f.decls = append(f.decls, &kDecl{kind: "data", name: notKw()})
		return
	}
	d := f.decls[r.Intn(len(f.decls))]
	switch r.Intn(9) {
	case 0:
		d.name = notKw()
	case 1:
		f.decls = append(f.decls, &kDecl{kind: []string{"data", "enum", "server"}[r.Intn(3)], name: notKw()})
		r.Shuffle(len(f.decls), func(i, j int) { f.decls[i], f.decls[j] = f.decls[j], f.decls[i] })
	case 2:
		if d.kind != "enum" {
			d.ext = append(d.ext, mExt{notKw(), "9"})
		}
	case 3:
		if len(f.imports) > 0 {
			k := r.Intn(len(f.imports))
			f.imports = append(f.imports[:k], f.imports[k+1:]...)
		}
	case 4: // a tag or a key once more
		tags := &d.tags
		if len(d.items) > 0 && r.Intn(2) == 0 {
			tags = &d.items[r.Intn(len(d.items))].tags
		}
		if len(*tags) == 0 || r.Intn(3) == 0 {
			*tags = append(*tags, mTag{"lang", []mKV{{"k", []string{`"1"`}}}}, mTag{[]string{"lang", "x"}[r.Intn(2)], []mKV{{"k", []string{`"1"`}}}})
		}
		t := &(*tags)[r.Intn(len(*tags))]
		t.kvs = append(t.kvs, mKV{[]string{"k", "v", "w", "name"}[r.Intn(4)], []string{`"2"`}})
	default:
		if len(d.items) == 0 {
			return
		}
		it := d.items[r.Intn(len(d.items))]
		switch r.Intn(6) {
		case 0:
			it.name = notKw()
		case 1:
			it.name = d.items[r.Intn(len(d.items))].name
		case 2:
			it.id = d.items[r.Intn(len(d.items))].id
		case 3:
			if d.kind == "server" && r.Intn(2) == 0 {
				it.res.name = notKw()
			} else if d.kind != "enum" {
				it.typ.name = notKw()
			}
		case 4:
			if d.kind == "data" {
				it.typ.shape = 2
				it.typ.key = notKw()
				it.typ.kopt = r.Intn(4) == 0
				it.typ.kshp = []int{0, 0, 0, 1, 2}[r.Intn(5)]
				if it.typ.kshp != 0 {
					it.typ.kopt = false
				}
			} else if d.kind == "server" {
				if r.Intn(2) == 0 {
					it.typ.opt = true
				} else {
					it.res.opt = it.res.name != "void"
				}
			}
		case 5:
			if d.kind == "server" {
				it.param = notKw()
			}
		}
	}
}

// run puts the files down and runs the compiler's front part over them.
func (s *kSet) run() error {
	for i := range s.files {
		os.WriteFile(filepath.Join(scratch, fmt.Sprintf("f%d.hbuf", i)), []byte(s.fileText(i)), 0644)
	}
	for k := range captured {
		delete(captured, k)
	}
	return build.Build(filepath.Join(scratch, "out"), filepath.Join(scratch, "f0.hbuf"), "verif", "p")
}

func checkSearch(r *rand.Rand, prop string) {
	for left() {
		s := randSet(r)
		for n := []int{0, 0, 1, 1, 1, 2, 3}[r.Intn(7)]; n > 0; n-- {
			s.spoil(r)
		}
		in := s.String()
		names, refs := s.broken()
		cyc := s.cyclic()
		try(in, func() {
			err := s.run()
			switch {
			case err == nil && names != "" && prop == "C06":
				fail(in, "accepted, but "+names)
			case err == nil && refs != "" && prop == "C07":
				fail(in, "accepted, but "+refs)
			case err != nil && names == "" && refs == "" && !cyc:
				fail(in, "rejected, but no rule is broken: "+err.Error())
			case err == nil && names == "" && refs == "" && cyc && prop == "C08":
				fail(in, "accepted, but a declaration is its own ancestor")
			case err == nil && names == "" && refs == "" && !cyc && prop == "C07":
				s.resolved(in)
			case err == nil && names == "" && refs == "" && !cyc && prop == "C08":
				s.flattened(r, in)
			}
		})
	}
}

// resolved compares every reference of the checked trees with the model.
func (s *kSet) resolved(in string) {
	for _, i := range s.reach() {
		f := captured[fmt.Sprintf("f%d.hbuf", i)]
		if f == nil {
			fail(in, fmt.Sprintf("f%d.hbuf was not built", i))
		}
		want := func(id *ast.Ident, kinds, at string) {
			if kBuiltin[id.Name] || id.Name == "void" {
				return
			}
			j, d := s.find(i, id.Name, kinds)
			if d == nil {
				return
			}
			if id.Obj == nil {
				fail(in, fmt.Sprintf("f%d: %s: the reference %s is not resolved", i, at, id.Name))
			}
			ts, ok := id.Obj.Decl.(*ast.TypeSpec)
			if !ok || ts.Name.Name != d.name {
				fail(in, fmt.Sprintf("f%d: %s: the reference %s leads to something else", i, at, id.Name))
			}
			found := false
			for _, sp := range captured[fmt.Sprintf("f%d.hbuf", j)].Specs {
				if sp == ast.Spec(ts) {
					found = true
				}
			}
			if !found {
				fail(in, fmt.Sprintf("f%d: %s: the reference %s does not lead to the declaration in f%d", i, at, id.Name, j))
			}
			if id.Obj.Data != captured[fmt.Sprintf("f%d.hbuf", j)] {
				fail(in, fmt.Sprintf("f%d: %s: the object of %s does not know its file", i, at, id.Name))
			}
		}
		ident := func(e ast.Expr) *ast.Ident {
			switch t := e.(type) {
			case *ast.Ident:
				return t
			case *ast.VarType:
				return t.TypeExpr.(*ast.Ident)
			case *ast.ArrayType:
				return t.VType.TypeExpr.(*ast.Ident)
			case *ast.MapType:
				return t.VType.TypeExpr.(*ast.Ident)
			}
			return nil
		}
		for _, sp := range f.Specs {
			ts, ok := sp.(*ast.TypeSpec)
			if !ok {
				continue
			}
			switch d := ts.Type.(type) {
			case *ast.DataType:
				for _, e := range d.Extends {
					want(e.Name, "data", d.Name.Name)
				}
				for _, x := range d.Fields.List {
					want(ident(x.Type), "data enum", d.Name.Name+"."+x.Name.Name)
					if m, ok := x.Type.(*ast.MapType); ok {
						want(ident(m.Key), "data enum", d.Name.Name+"."+x.Name.Name+" key")
					}
				}
			case *ast.ServerType:
				for _, e := range d.Extends {
					want(e.Name, "server", d.Name.Name)
				}
				for _, x := range d.Methods {
					want(ident(x.Param), "data", d.Name.Name+"."+x.Name.Name)
					want(ident(x.Result), "data", d.Name.Name+"."+x.Name.Name)
				}
			}
		}
	}
}

// kMember is a field or method with the declaration it comes from.
type kMember struct{ owner, name string }

// members lists what a declaration has, each name once: fields of the parents
// come before its own, methods after.
func (s *kSet) members(i int, d *kDecl) []kMember {
	var out []kMember
	seen := map[string]bool{}
	var walk func(i int, d *kDecl)
	walk = func(i int, d *kDecl) {
		own := func() {
			for _, it := range d.items {
				if !seen[it.name] {
					seen[it.name] = true
					out = append(out, kMember{d.name, it.name})
				}
			}
		}
		if d.kind == "server" {
			own()
		}
		for _, e := range d.ext {
			if j, p := s.find(i, e.name, d.kind); p != nil {
				walk(j, p)
			}
		}
		if d.kind == "data" {
			own()
		}
	}
	walk(i, d)
	return out
}

// flattened compares the members the generators are given with the model.
func (s *kSet) flattened(r *rand.Rand, in string) {
	for _, i := range s.reach() {
		f := captured[fmt.Sprintf("f%d.hbuf", i)]
		if f == nil {
			fail(in, fmt.Sprintf("f%d.hbuf was not built", i))
		}
		for _, sp := range f.Specs {
			ts, ok := sp.(*ast.TypeSpec)
			if !ok {
				continue
			}
			d := s.files[i].decl(ts.Name.Name)
			if d == nil {
				continue
			}
			want := s.members(i, d)
			stop := -1
			if r.Intn(3) == 0 && len(want) > 0 {
				stop = r.Intn(len(want))
			}
			stopErr := fmt.Errorf("stop")
			var got []kMember
			note := func(m kMember) error {
				got = append(got, m)
				if len(got) > len(want)+3 {
					fail(in, fmt.Sprintf("%s: more members than there are: %v, want %v", d.name, got, want))
				}
				if len(got)-1 == stop {
					return stopErr
				}
				return nil
			}
			var err error
			super := func(string) bool { return false }
			switch t := ts.Type.(type) {
			case *ast.DataType:
				err = build.EnumField(t, func(field *ast.Field, data *ast.DataType) error {
					own := false
					for _, x := range data.Fields.List {
						own = own || x == field
					}
					if !own {
						fail(in, fmt.Sprintf("%s: field %s was passed with a type that does not declare it (%s)", d.name, field.Name.Name, data.Name.Name))
					}
					return note(kMember{data.Name.Name, field.Name.Name})
				})
				super = func(n string) bool { return build.CheckSuperField(n, t) }
			case *ast.ServerType:
				err = build.EnumMethod(t, func(method *ast.FuncType, server *ast.ServerType) error {
					own := false
					for _, x := range server.Methods {
						own = own || x == method
					}
					if !own {
						fail(in, fmt.Sprintf("%s: method %s was passed with a server that does not declare it (%s)", d.name, method.Name.Name, server.Name.Name))
					}
					return note(kMember{server.Name.Name, method.Name.Name})
				})
				super = func(n string) bool { return build.CheckSuperMethod(n, t) }
			default:
				continue
			}
			if stop >= 0 {
				if err != stopErr || len(got) != stop+1 {
					fail(in, fmt.Sprintf("%s: an error of the callback at member %d gave %v after %d members", d.name, stop, err, len(got)))
				}
				want = want[:stop+1]
			} else if err != nil {
				fail(in, fmt.Sprintf("%s: error %v without one of the callback", d.name, err))
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				fail(in, fmt.Sprintf("%s: members %v, want %v", d.name, got, want))
			}
			for _, n := range []string{"ma", "mb", "mc", "md", "none"} {
				w := false
				for _, e := range d.ext {
					if _, p := s.find(i, e.name, d.kind); p != nil {
						for _, it := range p.items {
							w = w || it.name == n
						}
					}
				}
				if super(n) != w {
					fail(in, fmt.Sprintf("%s: a direct parent declares %s: %v, want %v", d.name, n, !w, w))
				}
			}
		}
	}
}
