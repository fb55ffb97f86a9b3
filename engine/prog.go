package main

// Loading the repository's current source.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	root     string
	module   string
	fset     *token.FileSet
	prog     *ssa.Program
	pkgs     []*ssa.Package
	tpkgs    map[string]*types.Package // by label
	concrete []types.Type
	fns      map[string]*ssa.Function
	fnByTerm map[*Term]*FnVal
	mutable  map[string]bool // globals written outside init
	inits    map[*ssa.Package]*State
	initErr  map[*ssa.Package]string
	x        *Ex
	typeMemo map[string]types.Type
}

func loadProgram(root string) (*Program, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax, Dir: root, Fset: fset,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off"),
	}
	patterns := []string{"./cmd", "./pkg/ast", "./pkg/build", "./pkg/dart", "./pkg/golang", "./pkg/java", "./pkg/parser", "./pkg/scanner", "./pkg/token", "./pkg/typescript"}
	pk, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	for _, p := range pk {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, pkgs := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	p := &Program{root: root, fset: fset, prog: prog, tpkgs: map[string]*types.Package{}, fns: map[string]*ssa.Function{}, fnByTerm: map[*Term]*FnVal{}, mutable: map[string]bool{}, inits: map[*ssa.Package]*State{}, initErr: map[*ssa.Package]string{}, typeMemo: map[string]types.Type{}}
	if len(pk) > 0 {
		p.module = strings.SplitN(pk[0].PkgPath, "/", 2)[0]
	}
	for _, sp := range prog.AllPackages() {
		l := pkgLabel(sp.Pkg)
		if strings.HasPrefix(sp.Pkg.Path(), p.module+"/") {
			sp.Build()
			p.tpkgs[l] = sp.Pkg
		} else if _, ok := p.tpkgs[l]; !ok && !strings.Contains(sp.Pkg.Path(), "internal") {
			p.tpkgs[l] = sp.Pkg
		}
	}
	for _, sp := range pkgs {
		if sp == nil {
			continue
		}
		p.pkgs = append(p.pkgs, sp)
		sc := sp.Pkg.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
				T := tn.Type()
				if nt, ok := T.(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				if _, ok := under(T).(*types.Interface); ok {
					continue
				}
				p.concrete = append(p.concrete, T, types.NewPointer(T))
			}
		}
	}
	for _, t := range p.concrete {
		typeTag(t)
	}
	for f := range ssautil.AllFunctions(prog) {
		if p.inRepo(f) {
			if f.Synthetic != "" && f.Name() != "init" {
				if f.Origin() == nil {
					continue
				}
			}
			k := fnKey(f)
			if old, ok := p.fns[k]; ok && (old.Synthetic == "" || f.Synthetic != "") {
				continue
			}
			p.fns[k] = f
		}
	}
	for _, t := range p.concrete {
		if st, ok := under(t).(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if ft := st.Field(i).Type(); isStruct(ft) {
					nestedTypes[tkey(ft)] = true
				}
			}
		}
	}
	p.scanGlobals()
	return p, nil
}

func (p *Program) inRepo(f *ssa.Function) bool {
	if f.Origin() != nil {
		f = f.Origin()
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	var tp *types.Package
	if f.Pkg != nil {
		tp = f.Pkg.Pkg
	} else if f.Object() != nil {
		tp = f.Object().Pkg()
	}
	return tp != nil && strings.HasPrefix(tp.Path(), p.module+"/")
}

// closed: every implementation of the interface is in the repository.
func (p *Program) closed(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), p.module+"/")
}

func (p *Program) scanGlobals() {
	for _, f := range p.fns {
		p.scanFn(f)
	}
}

func (p *Program) scanFn(f *ssa.Function) {
	isInit := f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
	mark := func(v ssa.Value) {
		switch v := v.(type) {
		case *ssa.Global:
			p.mutable["glob:"+v.Pkg.Pkg.Name()+"."+v.Name()] = true
		case *ssa.UnOp:
			if g, ok := v.X.(*ssa.Global); ok {
				p.mutable["glob:"+g.Pkg.Pkg.Name()+"."+g.Name()] = true
			}
		case *ssa.IndexAddr:
			if g, ok := v.X.(*ssa.Global); ok {
				p.mutable["glob:"+g.Pkg.Pkg.Name()+"."+g.Name()] = true
			}
			if u, ok := v.X.(*ssa.UnOp); ok {
				if g, ok := u.X.(*ssa.Global); ok {
					p.mutable["glob:"+g.Pkg.Pkg.Name()+"."+g.Name()] = true
				}
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if isInit {
				continue
			}
			switch in := in.(type) {
			case *ssa.Store:
				mark(in.Addr)
			case *ssa.MapUpdate:
				mark(in.Map)
			case *ssa.Call:
				if bi, ok := in.Call.Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
					mark(in.Call.Args[0])
				}
			}
		}
	}
}

// initState runs a package's initialiser on its single concrete path.
func (p *Program) initState(sp *ssa.Package) *State {
	if s, ok := p.inits[sp]; ok {
		return s
	}
	p.inits[sp] = nil
	f := sp.Func("init")
	if f == nil {
		return nil
	}
	st := &State{heap: map[string]*Term{}, alloc: I(1 << 20), epoch: "init"}
	x := &Ex{prog: p, specs: newSpecs(), dry: 1, trusted: map[string]bool{}, inlined: map[string]bool{}, used: map[string]bool{}}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsup); ok {
					p.initErr[sp] = u.msg
					st = nil
					return
				}
				panic(r)
			}
		}()
		x.concrete(f, st, 0)
	}()
	p.inits[sp] = st
	return st
}

// concrete follows the one path of a function whose branches are all decided.
func (x *Ex) concrete(f *ssa.Function, st *State, depth int) {
	if depth > 5 {
		unsupported("init too deep")
	}
	st.env = map[ssa.Value]Val{}
	b := f.Blocks[0]
	steps := 0
	for {
		for _, in := range b.Instrs {
			steps++
			if steps > 100000 {
				unsupported("init does not terminate")
			}
			switch in := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.If:
				c := x.val(st, in.Cond).C[0]
				t, k := st.known(c)
				if !k {
					// the guard of the package initialiser
					if g, ok := in.Cond.(*ssa.UnOp); ok {
						if gl, ok := g.X.(*ssa.Global); ok && gl.Name() == "init$guard" {
							t, k = false, true
						}
					}
				}
				if !k {
					unsupported("undecided branch in init: %s", c)
				}
				s := 1
				if t {
					s = 0
				}
				x.edge(b, b.Succs[s], st)
				b = b.Succs[s]
			case *ssa.Jump:
				x.edge(b, b.Succs[0], st)
				b = b.Succs[0]
			case *ssa.Return:
				return
			case *ssa.Call:
				callee := in.Call.StaticCallee()
				if callee != nil && callee.Name() == "init" && callee.Pkg != f.Pkg {
					continue
				}
				if callee != nil && strings.HasPrefix(callee.Name(), "init#") {
					env := st.env
					x.concrete(callee, st, depth+1)
					st.env = env
					continue
				}
				env := st.env
				if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
					var args []Val
					for _, a := range in.Call.Args {
						args = append(args, x.val(st, a))
					}
					o := x.builtin(st, bi, &in.Call, args, in.Pos())
					if len(o) > 0 && len(o[0].res) > 0 {
						env[in] = o[0].res[0]
					}
					continue
				}
				rs := x.freshResults(st, in.Call.Signature(), "init")
				st.env = env
				if len(rs) > 0 {
					st.env[in] = packResults(in.Type(), rs)
				}
			default:
				x.initInstr(st, in)
			}
			if _, isJ := in.(*ssa.Jump); isJ {
				break
			}
			if _, isI := in.(*ssa.If); isI {
				break
			}
		}
	}
}

func (x *Ex) initInstr(st *State, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Store:
		v := x.val(st, in.Val)
		v.Fn = nil
		p := x.val(st, in.Addr)
		if a, ok := under(v.T).(*types.Array); ok {
			// whole-array copy: row by row
			dst := p.C[0]
			for _, l := range leaves(a.Elem()) {
				k := elemKey(a.Elem()) + l.path
				h := st.get(k, heapSort(2, l.sort))
				st.heap[k] = Store(h, dst, Select(h, v.C[0]))
			}
			return
		}
		x.storeTo(st, p, v, in.Pos(), "")
		return
	case *ssa.UnOp:
		if in.Op == token.MUL {
			// bypass the constant-global shortcut while initialising
			p := x.val(st, in.X)
			r := Val{T: under(p.T).(*types.Pointer).Elem()}
			if _, ok := under(r.T).(*types.Array); ok {
				st.env[in] = Val{T: r.T, C: []*Term{p.C[0]}}
				return
			}
			for _, l := range ptrLocs(p) {
				r.C = append(r.C, st.read(l))
			}
			st.env[in] = r
			return
		}
	}
	x.instr(nil, st, in)
}

// globalConst: the value of a package variable that is only set by initialisers.
func (p *Program) globalConst(st *State, key string, T types.Type) (Val, bool) {
	if p.mutable[key] {
		return Val{}, false
	}
	name := strings.TrimPrefix(key, "glob:")
	i := strings.IndexByte(name, '.')
	sp := p.ssaPkg(name[:i])
	if sp == nil {
		return Val{}, false
	}
	is := p.initState(sp)
	if is == nil {
		return Val{}, false
	}
	switch u := under(T).(type) {
	case *types.Map:
		ref := Sym("&map:"+name, SInt)
		iref, ok := is.heap[key]
		if !ok {
			return Val{}, false
		}
		r0 := Select(iref, I(0))
		ks := mapKeySort(u)
		st.assume(And(Lt(I(0), ref), Le(ref, Sym("alloc0", SInt))))
		srt := ArrS(SInt, ArrS(ks, SBool))
		if row := Select(is.get(mapBase(u)+"?", srt), r0); row.Op != "select" {
			st.assume(Eq(Select(Sym("H:"+mapBase(u)+"?", srt), ref), row))
		} else {
			return Val{}, false
		}
		for _, l := range leaves(u.Elem()) {
			s := ArrS(SInt, ArrS(ks, l.sort))
			row := rebaseTo(Select(is.get(mapBase(u)+"!"+l.path, s), r0), ConstArr(ArrS(ks, l.sort), zeroTerm(l.sort)))
			if row != nil && !mentions(row, "init") {
				st.assume(Eq(Select(Sym("H:"+mapBase(u)+"!"+l.path, s), ref), row))
			}
		}
		return Val{T: T, C: []*Term{ref}}, true
	case *types.Basic:
		v := Val{T: T}
		for _, l := range leaves(T) {
			h, ok := is.heap[key+l.path]
			if !ok {
				return Val{}, false
			}
			t := Select(h, I(0))
			if len(t.Args) > 0 || t.Op == "sym" {
				return Val{}, false
			}
			v.C = append(v.C, t)
		}
		return v, true
	case *types.Slice:
		h, ok := is.heap[key+"#arr"]
		if !ok {
			return Val{}, false
		}
		arr0 := Select(h, I(0))
		n, off := Select(is.heap[key+"#len"], I(0)), Select(is.heap[key+"#off"], I(0))
		if _, c := n.IsInt(); !c {
			// []byte("literal")
			if n.Op != "int" {
				return Val{}, false
			}
		}
		ref := Sym("&arr:"+name, SInt)
		st.assume(And(Lt(I(0), ref), Le(ref, Sym("alloc0", SInt))))
		for _, l := range leaves(u.Elem()) {
			srt := heapSort(2, l.sort)
			row := Select(is.get(elemKey(u.Elem())+l.path, srt), arr0)
			if !mentions(row, "init") {
				st.assume(Eq(Select(Sym("H:"+elemKey(u.Elem())+l.path, srt), ref), row))
			}
		}
		return Val{T: T, C: []*Term{ref, off, n, n}}, true
	}
	return Val{}, false
}

func mentions(t *Term, s string) bool {
	seen := map[*Term]bool{}
	var w func(t *Term) bool
	w = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.Op == "sym" && strings.HasPrefix(t.Name, "H"+s) {
			return true
		}
		for _, a := range t.Args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

func (p *Program) globalArray(st *State, g *ssa.Global) {
	name := g.Pkg.Pkg.Name() + "." + g.Name()
	if p.mutable["glob:"+name] {
		return
	}
	ref := Sym("&"+name, SInt)
	st.assume(And(Lt(I(0), ref), Le(ref, Sym("alloc0", SInt))))
	sp := g.Pkg
	if p.inits[sp] == nil {
		if _, done := p.inits[sp]; done {
			return
		}
	}
	is := p.initState(sp)
	if is == nil {
		return
	}
	el := under(under(g.Type()).(*types.Pointer).Elem()).(*types.Array).Elem()
	for _, l := range leaves(el) {
		srt := heapSort(2, l.sort)
		row := Select(is.get(elemKey(el)+l.path, srt), ref)
		// cells never written hold the zero value
		row = rebase(row, l.sort)
		if row != nil {
			st.assume(Eq(Select(Sym("H:"+elemKey(el)+l.path, srt), ref), row))
		}
	}
}

// rebase replaces the unknown initial row under a chain of stores by zeros.
func rebase(row *Term, s Sort) *Term {
	return rebaseTo(row, ConstArr(ArrS(SInt, s), zeroTerm(s)))
}

func rebaseTo(row, zero *Term) *Term {
	if row.Op == "store" {
		b := rebaseTo(row.Args[0], zero)
		if b == nil {
			return nil
		}
		return Store(b, row.Args[1], row.Args[2])
	}
	if row.Op == "select" && row.Args[0].Op == "sym" || row.Op == "constarr" {
		return zero
	}
	return nil
}

func (p *Program) ssaPkg(label string) *ssa.Package {
	for _, sp := range p.pkgs {
		if sp.Pkg.Name() == label || pkgLabel(sp.Pkg) == label {
			return sp
		}
	}
	return nil
}

// ---- names used in contracts

func (p *Program) parseType(s string) types.Type {
	if t, ok := p.typeMemo[s]; ok {
		return t
	}
	t := p.parseType1(strings.TrimSpace(s))
	p.typeMemo[s] = t
	return t
}

func (p *Program) parseType1(s string) types.Type {
	switch {
	case strings.HasPrefix(s, "*"):
		if t := p.parseType(s[1:]); t != nil {
			return types.NewPointer(t)
		}
		return nil
	case strings.HasPrefix(s, "[]"):
		if t := p.parseType(s[2:]); t != nil {
			return types.NewSlice(t)
		}
		return nil
	case strings.HasPrefix(s, "map["):
		d := 0
		for i := 3; i < len(s); i++ {
			if s[i] == '[' {
				d++
			}
			if s[i] == ']' {
				d--
				if d == 0 {
					k, v := p.parseType(s[4:i]), p.parseType(s[i+1:])
					if k == nil || v == nil {
						return nil
					}
					return types.NewMap(k, v)
				}
			}
		}
		return nil
	case s == "struct{}":
		return types.NewStruct(nil, nil)
	case s == "interface{}":
		return types.NewInterfaceType(nil, nil)
	}
	if i := strings.IndexByte(s, '.'); i > 0 {
		tp := p.tpkgs[s[:i]]
		if tp == nil {
			return nil
		}
		if o, ok := tp.Scope().Lookup(s[i+1:]).(*types.TypeName); ok {
			return o.Type()
		}
		return nil
	}
	if o, ok := types.Universe.Lookup(s).(*types.TypeName); ok {
		return o.Type()
	}
	return nil
}

func (p *Program) constByName(where, n string) (Val, bool) { return Val{}, false }

func (p *Program) pkgConst(pkg, n string) (Val, bool) {
	tp := p.tpkgs[pkg]
	if tp == nil {
		return Val{}, false
	}
	c, ok := tp.Scope().Lookup(n).(*types.Const)
	if !ok {
		return Val{}, false
	}
	T := c.Type()
	switch c.Val().Kind() {
	case constant.Int:
		return Val{T: T, C: []*Term{IBig(c.Val().ExactString())}}, true
	case constant.String:
		return Val{T: T, C: []*Term{StrLit(constant.StringVal(c.Val()))}}, true
	case constant.Bool:
		return Val{T: T, C: []*Term{BoolT(constant.BoolVal(c.Val()))}}, true
	}
	return Val{}, false
}

func (p *Program) pkgVar(st *State, pkg, n string) (Val, bool) {
	tp := p.tpkgs[pkg]
	if tp == nil {
		return Val{}, false
	}
	v, ok := tp.Scope().Lookup(n).(*types.Var)
	if !ok {
		return Val{}, false
	}
	key := "glob:" + tp.Name() + "." + n
	if r, ok := p.globalConst(st, key, v.Type()); ok {
		return r, true
	}
	r := Val{T: v.Type()}
	for _, l := range addrLocs(&Addr{Key: key, Idx: []*Term{I(0)}, T: v.Type()}) {
		r.C = append(r.C, st.read(l))
	}
	return r, true
}

func (p *Program) sigOf(key string) *types.Signature {
	if f, ok := p.fns[key]; ok {
		return f.Signature
	}
	i := strings.LastIndexByte(key, '.')
	if i < 0 {
		return nil
	}
	if tp := p.tpkgs[key[:i]]; tp != nil {
		if f, ok := tp.Scope().Lookup(key[i+1:]).(*types.Func); ok {
			return f.Type().(*types.Signature)
		}
	}
	return nil
}

func (p *Program) sortedFns() []string {
	var ks []string
	for k := range p.fns {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
