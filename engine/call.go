package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Ex) call(st *State, c *ssa.CallCommon, pos token.Pos) []Outcome {
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(st, a))
	}
	var fn Val
	if c.IsInvoke() {
		fn = x.val(st, c.Value)
	} else if _, ok := c.Value.(*ssa.Builtin); !ok {
		fn = x.val(st, c.Value)
	}
	return x.callWith(st, c, fn, args, pos)
}

func (x *Ex) callWith(st *State, c *ssa.CallCommon, fv Val, args []Val, pos token.Pos) []Outcome {
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		return x.builtin(st, b, c, args, pos)
	}
	if c.IsInvoke() {
		return x.invoke(st, c, fv, args, pos)
	}
	f := c.StaticCallee()
	var bind []Val
	if fv.Fn != nil {
		f = fv.Fn.Fn
		bind = fv.Fn.Bind
	} else if f == nil {
		if k, ok := x.prog.fnByTerm[fv.C[0]]; ok {
			f, bind = k.Fn, k.Bind
		}
	}
	if f == nil {
		return x.unknownCall(st, c, fv, args, pos)
	}
	return x.callFn(st, f, bind, args, pos)
}

func (x *Ex) contractFor(f *ssa.Function) *Contract {
	return x.specs.Contracts[fnKey(f)]
}

func (x *Ex) callFn(st *State, f *ssa.Function, bind, args []Val, pos token.Pos) []Outcome {
	if f.Synthetic != "" && strings.HasPrefix(f.Synthetic, "bound method wrapper") {
		// method value: the receiver is the first binding
		return x.callFnObj(st, f, bind, args, pos)
	}
	con := x.contractFor(f)
	if con != nil && !con.Inline && con.Opts["inlinecalls"] == "" {
		return x.applyContract(st, con, f.Signature, fnKey(f), args, pos, f)
	}
	inRepo := x.prog.inRepo(f)
	if inRepo && len(f.Blocks) > 0 {
		for _, s := range x.stack {
			if s == f {
				unsupported("recursive call of %s without a contract", fnKey(f))
			}
		}
		x.inlined[fnKey(f)] = true
		var names map[string]Val
		if con != nil {
			names = bindNames(con, f.Signature, args)
		}
		for i := range args {
			if i < len(f.Params) {
				args[i].T = f.Params[i].Type()
			}
		}
		return x.run(f, args, bind, st, con, names)
	}
	return x.externCall(st, f, args, pos)
}

func (x *Ex) callFnObj(st *State, f *ssa.Function, bind, args []Val, pos token.Pos) []Outcome {
	return x.run(f, args, bind, st, nil, nil)
}

// externCall: a function outside the repository without a contract.  Its result
// is unconstrained; it is assumed not to touch the repository's data except
// through pointers to plain variables it is handed.
func (x *Ex) externCall(st *State, f *ssa.Function, args []Val, pos token.Pos) []Outcome {
	key := fnKey(f)
	if m, ok := externModels[key]; ok {
		if outs := m(x, st, f, args, pos); outs != nil {
			return outs
		}
	}
	x.trusted["extern without contract (result unconstrained, no effect on repository data): "+key] = true
	for _, a := range args {
		if a.T == nil {
			continue
		}
		if p, ok := under(a.T).(*types.Pointer); ok && a.Addr == nil && !isStruct(p.Elem()) {
			if _, isArr := under(p.Elem()).(*types.Array); !isArr {
				for _, l := range ptrLocs(a) {
					x.write(st, l, Fresh("ext", l.sort))
				}
			}
		} else if a.Addr != nil {
			for _, l := range addrLocs(a.Addr) {
				x.write(st, l, Fresh("ext", l.sort))
			}
		}
	}
	return []Outcome{{st, x.freshResults(st, f.Signature, f.Name())}}
}

func (x *Ex) freshResults(st *State, sig *types.Signature, base string) []Val {
	var out []Val
	for i := 0; i < sig.Results().Len(); i++ {
		v := freshVal("r:"+base, sig.Results().At(i).Type())
		x.facts(st, v)
		out = append(out, v)
	}
	return out
}

func isFuncType(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := under(t).(*types.Signature)
	return ok
}

// ownCallback is the parameter of function type t of the function under proof.
func (x *Ex) ownCallback(t types.Type) *Val {
	if x.top == nil {
		return nil
	}
	for i, p := range x.top.Params {
		if types.Identical(under(p.Type()), under(t)) && x.con != nil && i < len(x.con.Params) {
			if v, ok := x.names[x.con.Params[i]]; ok {
				return &v
			}
		}
	}
	return nil
}

func (x *Ex) unknownCall(st *State, c *ssa.CallCommon, fv Val, args []Val, pos token.Pos) []Outcome {
	x.oblige(st, "nil", "call of a non-nil function value", pos, Ne(fv.C[0], I(0)))
	sig := c.Signature()
	key := "callback:" + tkey(c.Value.Type())
	if con, ok := x.specs.Contracts["callback:"+x.fnKey]; ok { // the one parameter of function type of this function
		if p := x.ownCallback(c.Value.Type()); p != nil {
			x.oblige(st, "requires", "the function called is the callback of "+shortFn(x.top), pos, Eq(fv.C[0], p.C[0]))
		}
		return x.applyContract(st, con, sig, "callback:"+x.fnKey, append([]Val{fv}, args...), pos, nil)
	}
	if con, ok := x.specs.Contracts[key]; ok {
		return x.applyContract(st, con, sig, key, append([]Val{fv}, args...), pos, nil)
	}
	x.trusted["callback of type "+tkey(c.Value.Type())+" assumed not to modify the data under contract"] = true
	return []Outcome{{st, x.freshResults(st, sig, "cb")}}
}

// invoke dispatches an interface method call over the closed world of
// implementations in the repository.
func (x *Ex) invoke(st *State, c *ssa.CallCommon, recv Val, args []Val, pos token.Pos) []Outcome {
	x.oblige(st, "nil", "method "+c.Method.Name()+" of a non-nil interface", pos, Ne(recv.C[0], I(0)))
	it := recv.T
	if c.Value != nil {
		it = c.Value.Type()
	}
	key := tkey(it) + "." + c.Method.Name()
	if con, ok := x.specs.Contracts[key]; ok {
		return x.applyContract(st, con, c.Signature(), key, append([]Val{recv}, args...), pos, nil)
	}
	iface := under(it).(*types.Interface)
	var outs []Outcome
	base := st
	var neg []*Term
	for _, T := range x.prog.concrete {
		if !types.Implements(T, iface) {
			continue
		}
		cond := Eq(recv.C[0], typeTag(T))
		if v, k := base.known(cond); k && !v {
			continue
		} else if k && v {
			neg = nil
			outs = nil
		}
		sel := x.prog.prog.MethodSets.MethodSet(T).Lookup(c.Method.Pkg(), c.Method.Name())
		if sel == nil {
			continue
		}
		m := x.prog.prog.MethodValue(sel)
		if m == nil {
			continue
		}
		s := base.clone()
		s.assume(cond)
		r := unboxVal(T, recv.C[1])
		x.facts(s, r)
		env := s.env
		for _, o := range x.callFn(s, m, nil, append([]Val{r}, args...), pos) {
			o.st.env = env
			outs = append(outs, o)
		}
		neg = append(neg, Not(cond))
		if v, k := base.known(cond); k && v {
			return outs
		}
	}
	// implementations outside the repository
	ext := base.clone()
	for _, n := range neg {
		ext.assume(n)
	}
	if x.prog.closed(it) {
		ext.assume(TFalse)
		return outs
	}
	x.trusted["method "+key+" of implementations outside the repository: result unconstrained, no effect"] = true
	outs = append(outs, Outcome{ext, x.freshResults(ext, c.Signature(), c.Method.Name())})
	return outs
}

func bindNames(con *Contract, sig *types.Signature, args []Val) map[string]Val {
	m := map[string]Val{}
	for i, n := range con.Params {
		if i < len(args) && n != "_" {
			m[n] = args[i]
		}
	}
	return m
}

func resultNames(con *Contract, n int) []string {
	if len(con.Results) >= n && n > 0 {
		return con.Results
	}
	if n == 1 {
		return []string{"result"}
	}
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, fmt.Sprintf("result%d", i))
	}
	return out
}

func (x *Ex) applyContract(st *State, con *Contract, sig *types.Signature, key string, args []Val, pos token.Pos, f *ssa.Function) []Outcome {
	x.used[key] = true
	if con.Extern || con.Trusted || con.Iface {
		x.trusted["assumed contract: "+key] = true
	}
	// static types from the signature
	k := 0
	if sig.Recv() != nil && f != nil {
		if len(args) > 0 {
			args[0].T = sig.Recv().Type()
		}
		k = 1
	} else if len(args) == sig.Params().Len()+1 {
		k = 1
	}
	for i := k; i < len(args); i++ {
		if i-k < sig.Params().Len() {
			args[i].T = sig.Params().At(i - k).Type()
		}
	}
	if len(con.Params) != len(args) {
		unsupported("contract %s has %d parameters, call has %d", key, len(con.Params), len(args))
	}
	names := bindNames(con, sig, args)
	pre := st.snapshot()
	ctx := &Ctx{x: x, st: st, old: pre, names: names, where: con.File}
	for _, r := range con.Requires {
		if !r.active(x.prop) {
			continue
		}
		g := ctx.boolean(r.Expr)
		x.oblige(st, "requires", key+" requires "+r.Src, pos, g)
	}
	// a callback handed on is the caller's own: what its contract records belongs to that one
	for i, a := range args {
		if i < k || !isFuncType(a.T) {
			continue
		}
		if p := x.ownCallback(a.T); p != nil {
			x.oblige(st, "requires", key+" is handed the callback of "+shortFn(x.top)+" itself", pos, Eq(a.C[0], p.C[0]))
		} else {
			x.trusted["a function value handed to "+key+" is assumed not to modify the data under contract"] = true
		}
	}
	// termination of recursion: the callee's measure is below the caller's
	sameGroup := x.con != nil && (x.con.Key == key || (con.Opts["group"] != "" && con.Opts["group"] == x.con.Opts["group"]))
	if sameGroup && !x.con.NoTerm && x.dry == 0 {
		goal := TFalse
		for i, d := range con.Decr {
			if i >= len(x.con.Decr) || len(d.Meta) > 0 {
				continue
			}
			v := ctx.term(d.Expr)
			ectx := &Ctx{x: x, st: x.entry, old: x.entry, names: x.names, where: con.File}
			v0 := ectx.term(x.con.Decr[i].Expr)
			goal = And(Lt(v, v0), Le(I(0), v0))
			r0, r1 := 0, 0
			fmt.Sscan(x.con.Opts["rank"], &r0)
			fmt.Sscan(con.Opts["rank"], &r1)
			if r1 < r0 {
				goal = Le(v, v0)
			}
			break
		}
		x.obs = append(x.obs, &Oblig{Fn: x.fnKey, Kind: "terminates", Desc: "recursive call of " + key + " decreases the measure", Pos: x.pos(pos), PC: st.pc, Goal: goal})
	}
	if con.Pure {
		// value-determined: the result is a function of the arguments
		var rs []Val
		var flat []*Term
		for _, a := range args {
			flat = append(flat, a.C...)
		}
		flat = append(flat, x.readVals(con, &Ctx{x: x, st: pre, old: pre, names: names, where: con.File})...)
		for i := 0; i < sig.Results().Len(); i++ {
			T := sig.Results().At(i).Type()
			v := Val{T: T}
			for j, l := range leaves(T) {
				v.C = append(v.C, pureApp(key, i, j, l.sort, flat))
			}
			x.facts(st, v)
			rs = append(rs, v)
		}
		x.bindResults(con, names, rs)
		x.assumeEnsures(st, pre, con, names)
		return []Outcome{{st, rs}}
	}
	x.applyModifies(st, pre, con, names)
	if con.Opts["noalloc"] == "" {
		n := Fresh("alloc", SInt)
		st.assume(Le(st.alloc, n))
		st.alloc = n
	}
	rs := x.freshResults(st, sig, lastName(key))
	x.bindResults(con, names, rs)
	base := st.pc
	x.assumeEnsures(st, pre, con, names)
	if m := definedStrings(st, pre, base, rs); len(m) > 0 {
		memo := map[*Term]*Term{}
		for k, h := range st.heap {
			if pre.heap[k] != h {
				st.heap[k] = Subst(h, m, memo)
			}
		}
		for i := range rs {
			c := make([]*Term, len(rs[i].C))
			for j, t := range rs[i].C {
				c[j] = Subst(t, m, memo)
			}
			rs[i].C = c
		}
	}
	return []Outcome{{st, rs}}
}

// definedStrings: the string results and string locations of a call that a
// postcondition gives a value (x == e) are replaced by that value, so that
// concatenations stay in normal form.
func definedStrings(st, pre *State, base *PC, rs []Val) map[*Term]*Term {
	fresh := map[*Term]bool{}
	for _, r := range rs {
		for _, t := range r.C {
			if t.Sort == SStr && len(t.Args) == 0 && t.Op == "sym" {
				fresh[t] = true
			}
		}
	}
	for k, h := range st.heap {
		if pre.heap[k] == h {
			continue
		}
		for t := h; t.Op == "store" && t != pre.heap[k]; t = t.Args[0] {
			if v := t.Args[2]; v.Sort == SStr && v.Op == "sym" && strings.HasPrefix(v.Name, "m:") {
				fresh[v] = true
			}
		}
	}
	var m map[*Term]*Term
	def := func(a, b *Term) bool {
		if !fresh[a] || m[a] != nil || occurs(b, fresh) {
			return false
		}
		if m == nil {
			m = map[*Term]*Term{}
		}
		m[a] = b
		return true
	}
	var visit func(t *Term)
	visit = func(t *Term) {
		switch t.Op {
		case "and":
			for _, a := range t.Args {
				visit(a)
			}
		case "=":
			if t.Args[0].Sort == SStr && !def(t.Args[0], t.Args[1]) {
				def(t.Args[1], t.Args[0])
			}
		}
	}
	for p := st.pc; p != nil && p != base; p = p.up {
		visit(p.t)
	}
	return m
}

func occurs(t *Term, set map[*Term]bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if set[t] {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func lastName(k string) string {
	if i := strings.LastIndexByte(k, '.'); i >= 0 {
		return k[i+1:]
	}
	return k
}

func pureApp(key string, i, j int, s Sort, args []*Term) *Term {
	return App(fmt.Sprintf("fn:%s:%d:%d", key, i, j), s, args...)
}

func (x *Ex) bindResults(con *Contract, names map[string]Val, rs []Val) {
	for i, n := range resultNames(con, len(rs)) {
		if i < len(rs) {
			names[n] = rs[i]
		}
	}
}

func (x *Ex) assumeEnsures(st, pre *State, con *Contract, names map[string]Val) {
	ctx := &Ctx{x: x, st: st, old: pre, names: names, where: con.File}
	for _, e := range con.Ensures {
		if !e.active(x.prop) {
			continue
		}
		if strings.HasPrefix(e.Src, "free:") {
			continue
		}
		st.assume(ctx.boolean(e.Expr))
	}
	for _, m := range con.Modifies {
		if m.Expr.Kind == "field" && m.Expr.Name[0] != '$' {
			v := ctx.eval(m.Expr)
			x.facts(st, v)
		}
	}
	for _, e := range ownedSlices(con) {
		st.assume(ownedNow(ctx, e))
	}
}

// ownedSlices: slice fields x.f a contract lists together with elems(x.f).  Such
// a field keeps its array or gets one allocated during the call.
func ownedSlices(con *Contract) []*SExpr {
	var out []*SExpr
	fields := map[string]bool{}
	for _, m := range con.Modifies {
		if m.Expr.Kind == "field" {
			fields[exprKey(m.Expr)] = true
		}
	}
	for _, m := range con.Modifies {
		if m.Expr.Kind == "call" && m.Expr.Name == "elems" && fields[exprKey(m.Expr.Args[0])] {
			out = append(out, m.Expr.Args[0])
		}
	}
	return out
}

func exprKey(e *SExpr) string {
	k := e.Kind + ":" + e.Name
	for _, a := range e.Args {
		k += "(" + exprKey(a) + ")"
	}
	return k
}

func ownedNow(ctx *Ctx, e *SExpr) *Term {
	now := ctx.eval(e)
	oc := *ctx
	oc.st = ctx.old
	was := oc.eval(e)
	return Or(Eq(now.C[0], was.C[0]), Lt(ctx.old.alloc, now.C[0]))
}

// modLocs evaluates a modifies list in a pre-state.
type modSet struct {
	all    bool
	locs   []loc           // single locations
	rows   []loc           // key + first index (whole row)
	whole  map[string]Sort // whole components
	prefix []string        // key prefixes (all components of a type's field)
}

func (x *Ex) modifies(con *Contract, ctx *Ctx) *modSet {
	return x.locSet(con.Modifies, ctx)
}

// readVals: the current contents of the locations a pure function depends on.
func (x *Ex) readVals(con *Contract, ctx *Ctx) []*Term {
	if len(con.Reads) == 0 {
		return nil
	}
	ms := x.locSet(con.Reads, ctx)
	var out []*Term
	for _, l := range ms.locs {
		out = append(out, ctx.st.read(l))
	}
	for _, l := range ms.rows {
		out = append(out, Select(ctx.st.get(l.key, l.sort), l.idx[0]))
	}
	return out
}

// checkReads reports what a function with a reads clause depends on beyond it: its
// result must be a function of the arguments and the listed locations.
func (x *Ex) checkReads(con *Contract, fn *ssa.Function, ctx *Ctx) []string {
	ms := x.locSet(con.Reads, ctx)
	keys := map[string]bool{}
	for _, l := range append(append([]loc{}, ms.locs...), ms.rows...) {
		keys[l.key] = true
	}
	has := func(k string) bool {
		for d := range keys {
			if d == k || strings.HasPrefix(d, k+".") || strings.HasPrefix(d, k+"#") || strings.HasPrefix(k, d+".") {
				return true
			}
		}
		return false
	}
	var bad []string
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	var addr func(v ssa.Value)
	addr = func(v ssa.Value) {
		switch a := v.(type) {
		case *ssa.Alloc, *ssa.FreeVar:
		case *ssa.FieldAddr:
			T := a.X.Type().Underlying().(*types.Pointer).Elem()
			n := T.Underlying().(*types.Struct).Field(a.Field).Name()
			if _, ok := a.X.(*ssa.Alloc); ok {
				return
			}
			if ia, ok := a.X.(*ssa.IndexAddr); ok {
				addr(ia)
				return
			}
			if k := tkey(T) + "." + n; !has(k) {
				bad = append(bad, k)
			}
		case *ssa.IndexAddr:
			var el types.Type
			switch u := a.X.Type().Underlying().(type) {
			case *types.Slice:
				el = u.Elem()
			default:
				addr(a.X)
				return
			}
			if !has(elemKey(el)) {
				bad = append(bad, elemKey(el))
			}
		case *ssa.Parameter:
			if _, ok := a.Type().Underlying().(*types.Pointer); ok {
				bad = append(bad, "*"+a.Name())
			}
		default:
			bad = append(bad, v.String())
		}
	}
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.UnOp:
					if in.Op == token.MUL {
						addr(in.X)
					} else if in.Op == token.ARROW {
						bad = append(bad, "channel receive")
					}
				case *ssa.Range:
					if _, ok := in.X.Type().Underlying().(*types.Map); ok {
						bad = append(bad, "map iteration")
					}
				case *ssa.Lookup:
					if _, ok := in.X.Type().Underlying().(*types.Map); ok {
						bad = append(bad, "map lookup")
					}
				case *ssa.Select:
					bad = append(bad, "select")
				case *ssa.MakeClosure:
					walk(in.Fn.(*ssa.Function))
				case ssa.CallInstruction:
					c := in.Common()
					if c.IsInvoke() {
						bad = append(bad, "interface call")
						continue
					}
					switch g := c.Value.(type) {
					case *ssa.Builtin:
					case *ssa.Function:
						if x.prog.inRepo(g) {
							walk(g)
						} else if n := g.String(); !(n == "sort.Search" || n == "fmt.Sprintf" || strings.HasPrefix(n, "(*sync.Mutex)") || strings.HasPrefix(n, "strings.") || strings.HasPrefix(n, "unicode")) {
							bad = append(bad, n)
						}
					case *ssa.MakeClosure:
					default:
						bad = append(bad, "dynamic call")
					}
				}
			}
		}
	}
	walk(fn)
	return bad
}

func (x *Ex) locSet(clauses []*Clause, ctx *Ctx) *modSet {
	ms := &modSet{whole: map[string]Sort{}}
	for _, m := range clauses {
		if !m.active(x.prop) && len(m.Tags) > 0 {
			continue
		}
		e := m.Expr
		switch {
		case e.Kind == "id" && e.Name == "everything":
			ms.all = true
		case e.Kind == "id" && e.Name == "nothing":
		case e.Kind == "call" && e.Name == "elems":
			v := ctx.eval(e.Args[0])
			el := under(v.T).(*types.Slice).Elem()
			for _, l := range leaves(el) {
				ms.rows = append(ms.rows, loc{elemKey(el) + l.path, []*Term{v.C[0]}, heapSort(2, l.sort), nil})
			}
		case e.Kind == "call" && e.Name == "mapof":
			v := ctx.eval(e.Args[0])
			m := under(v.T).(*types.Map)
			ks := mapKeySort(m)
			ms.rows = append(ms.rows, loc{mapBase(m) + "?", []*Term{v.C[0]}, ArrS(SInt, ArrS(ks, SBool)), nil})
			for _, l := range leaves(m.Elem()) {
				ms.rows = append(ms.rows, loc{mapBase(m) + "!" + l.path, []*Term{v.C[0]}, ArrS(SInt, ArrS(ks, l.sort)), nil})
			}
			ms.rows = append(ms.rows, loc{mapBase(m) + "#n", []*Term{v.C[0]}, ArrS(SInt, SInt), nil})
		case e.Kind == "call" && e.Name == "any":
			// any(pkg.Type.field): that field of every object
			f := e.Args[0]
			t := ctx.typeOf(fieldTypeSrc(f.Args[0]))
			for _, l := range fieldLocs(t, f.Name) {
				ms.whole[l.key] = heapSort(len(l.idx), l.sort)
			}
		case e.Kind == "call" && e.Name == "anyelems":
			src := e.Args[0]
			star := ""
			if src.Kind == "call" && src.Name == "ptr" { // ptr(T): *T
				src, star = src.Args[0], "*"
			}
			t := ctx.typeOf(star + fieldTypeSrc(src))
			for _, l := range leaves(t) {
				ms.whole[elemKey(t)+l.path] = heapSort(2, l.sort)
			}
		case e.Kind == "call" && e.Name == "object":
			v := ctx.eval(e.Args[0])
			T := under(v.T).(*types.Pointer).Elem()
			ms.locs = append(ms.locs, refLocs(T, v.C[0])...)
		case e.Kind == "call" && e.Name == "cell":
			v := ctx.eval(e.Args[0])
			ms.locs = append(ms.locs, ptrLocs(v)...)
		case e.Kind == "call" && e.Name == "ghost":
			ms.whole["ghost:"+e.Args[0].Name] = x.ghostSort(e.Args[0].Name)
		case e.Kind == "field":
			p := ctx.eval(e.Args[0])
			if isStruct(p.T) && e.Args[0].Kind == "field" { // x.F.g with F an embedded struct value
				f := e.Args[0]
				b := ctx.eval(f.Args[0])
				T := under(b.T).(*types.Pointer).Elem()
				p = Val{T: types.NewPointer(fieldType(T, f.Name)), C: []*Term{subref(T, f.Name, b.C[0])}}
			}
			ls := ctx.fieldLocsOf(p, e.Name)
			ms.locs = append(ms.locs, ls...)
		case e.Kind == "id":
			// package variable
			unsupported("modifies %s", e.Name)
		default:
			unsupported("modifies clause %s", m.Src)
		}
	}
	return ms
}

func fieldTypeSrc(e *SExpr) string {
	switch e.Kind {
	case "id":
		return e.Name
	case "field":
		return fieldTypeSrc(e.Args[0]) + "." + e.Name
	}
	return "?"
}

func fieldLocs(T types.Type, field string) []loc {
	st := under(T).(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); f.Name() == field {
			var out []loc
			for _, l := range leaves(f.Type()) {
				out = append(out, loc{tkey(T) + "." + f.Name() + l.path, []*Term{I(0)}, l.sort, l.typ})
			}
			return out
		}
	}
	unsupported("no field %s in %s", field, T)
	return nil
}

func (x *Ex) ghostSort(n string) Sort {
	u, ok := x.specs.UFuns["$"+n]
	if !ok {
		unsupported("ghost %s is not declared", n)
	}
	s := specSort(u.Ret)
	for i := len(u.Args) - 1; i >= 0; i-- {
		s = ArrS(specSort(u.Args[i]), s)
	}
	return s
}

func specSort(t string) Sort {
	switch t {
	case "int":
		return SInt
	case "bool":
		return SBool
	case "string":
		return SStr
	}
	return SInt
}

func (x *Ex) applyModifies(st, pre *State, con *Contract, names map[string]Val) {
	ctx := &Ctx{x: x, st: pre, old: pre, names: names, where: con.File}
	ms := x.modifies(con, ctx)
	if ms.all {
		var ks []string
		for k := range st.heap {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			x.havocKey(st, k, st.heap[k].Sort)
		}
		st.epoch += "'"
		return
	}
	for _, l := range ms.locs {
		x.write(st, l, Fresh("m:"+l.key, l.sort))
	}
	for _, l := range ms.rows {
		_, rs := splitArr(l.sort)
		x.writeRow(st, l.key, l.sort, l.idx[0], Fresh("row:"+l.key, rs))
	}
	var wk []string
	for k := range ms.whole {
		wk = append(wk, k)
	}
	sort.Strings(wk)
	for _, k := range wk {
		x.havocKey(st, k, ms.whole[k])
	}
}

func (x *Ex) builtin(st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Val, pos token.Pos) []Outcome {
	one := func(v Val) []Outcome { return []Outcome{{st, []Val{v}}} }
	intV := func(t *Term) []Outcome { return one(Val{T: types.Typ[types.Int], C: []*Term{t}}) }
	switch b.Name() {
	case "len":
		a := args[0]
		switch u := under(a.T).(type) {
		case *types.Basic:
			return intV(SLen(a.C[0]))
		case *types.Slice:
			return intV(a.C[2])
		case *types.Map:
			n := Ite(Eq(a.C[0], I(0)), I(0), st.read(loc{mapBase(u) + "#n", []*Term{a.C[0]}, SInt, nil}))
			st.assume(Le(I(0), n))
			return intV(n)
		case *types.Array:
			return intV(I(u.Len()))
		case *types.Pointer:
			return intV(I(under(u.Elem()).(*types.Array).Len()))
		}
	case "cap":
		if _, ok := under(args[0].T).(*types.Slice); ok {
			return intV(args[0].C[3])
		}
	case "append":
		return one(x.appendV(st, args[0], args[1], c.Args[0].Type(), pos))
	case "copy":
		d, s := args[0], args[1]
		el := under(d.T).(*types.Slice).Elem()
		n := Fresh("copied", SInt)
		var sl *Term
		if isString(s.T) {
			sl = SLen(s.C[0])
		} else {
			sl = s.C[2]
		}
		st.assume(Eq(n, Ite(Le(d.C[2], sl), d.C[2], sl)))
		for _, l := range leaves(el) {
			srt := heapSort(2, l.sort)
			key := elemKey(el) + l.path
			h := st.get(key, srt)
			_, rs := splitArr(srt)
			row := Fresh("copyrow", rs)
			j := BVar("j", SInt)
			drow := Select(h, d.C[0])
			var src *Term
			if isString(s.T) {
				src = SAt(s.C[0], Sub(j, d.C[1]))
			} else {
				src = Select(Select(h, s.C[0]), Add(s.C[1], Sub(j, d.C[1])))
			}
			inR := And(Le(d.C[1], j), Lt(j, Add(d.C[1], n)))
			st.assume(Quant(true, []*Term{j}, Eq(Select(row, j), Ite(inR, src, Select(drow, j))), Select(row, j)))
			x.writeRow(st, key, srt, d.C[0], row)
		}
		return intV(n)
	case "delete":
		m := under(args[0].T).(*types.Map)
		ks := mapKeySort(m)
		srt := ArrS(SInt, ArrS(ks, SBool))
		ref := args[0].C[0]
		x.writeRow(st, mapBase(m)+"?", srt, ref, Store(Select(st.get(mapBase(m)+"?", srt), ref), args[1].C[0], TFalse))
		x.havocKey(st, mapBase(m)+"#n", ArrS(SInt, SInt))
		return []Outcome{{st, nil}}
	case "print", "println":
		return []Outcome{{st, nil}}
	case "panic":
		x.oblige(st, "panic", "explicit panic is unreachable", pos, TFalse)
		return nil
	case "recover":
		return one(zeroVal(types.NewInterfaceType(nil, nil)))
	case "min", "max":
		if isIntT(args[0].T) {
			r := args[0].C[0]
			for _, a := range args[1:] {
				if b.Name() == "min" {
					r = Ite(Le(r, a.C[0]), r, a.C[0])
				} else {
					r = Ite(Le(a.C[0], r), r, a.C[0])
				}
			}
			return one(Val{T: args[0].T, C: []*Term{r}})
		}
	case "ssa:wrapnilchk":
		x.oblige(st, "nil", "method value receiver is non-nil", pos, Ne(args[0].C[0], I(0)))
		return one(args[0])
	}
	unsupported("builtin %s", b.Name())
	return nil
}

// appendV models append exactly: in place when the capacity suffices, else a
// fresh array with the same prefix.
func (x *Ex) appendV(st *State, s, t Val, T types.Type, pos token.Pos) Val {
	el := under(T).(*types.Slice).Elem()
	var n *Term
	str := t.T != nil && isString(t.T)
	if str {
		n = SLen(t.C[0])
	} else {
		n = t.C[2]
	}
	newLen := Add(s.C[2], n)
	fresh := Add(st.alloc, I(1))
	inPlace := Le(newLen, s.C[3])
	if v, ok := st.known(inPlace); ok {
		inPlace = BoolT(v)
	}
	// appending nothing keeps the slice
	arr := Ite(inPlace, s.C[0], fresh)
	st.alloc = fresh
	ncap := Fresh("cap", SInt)
	st.assume(Le(newLen, ncap))
	cp := Ite(inPlace, s.C[3], ncap)
	off := Ite(inPlace, s.C[1], I(0))
	cnt, isConst := n.IsInt()
	for _, l := range leaves(el) {
		srt := heapSort(2, l.sort)
		key := elemKey(el) + l.path
		h := st.get(key, srt)
		_, rs := splitArr(srt)
		old := Select(h, s.C[0])
		if isConst && cnt <= 4 && !str {
			// the fresh array keeps the old offset: contents are then one store away
			off = s.C[1]
			row := old
			for k := int64(0); k < cnt; k++ {
				row = Store(row, Add(s.C[1], s.C[2], I(k)), Select(Select(h, t.C[0]), Add(t.C[1], I(k))))
			}
			x.writeRowAlloc(st, key, srt, arr, s.C[0], fresh, row)
			continue
		}
		row := Fresh("approw", rs)
		j := BVar("j", SInt)
		off = s.C[1]
		end := Add(s.C[1], s.C[2])
		var src *Term
		if str {
			src = SAt(t.C[0], Sub(j, end))
		} else {
			src = Select(Select(h, t.C[0]), Add(t.C[1], Sub(j, end)))
		}
		inR := And(Le(end, j), Lt(j, Add(end, n)))
		st.assume(Quant(true, []*Term{j}, Eq(Select(row, j), Ite(inR, src, Select(old, j))), Select(row, j)))
		x.writeRowAlloc(st, key, srt, arr, s.C[0], fresh, row)
	}
	return Val{T: T, C: []*Term{arr, off, newLen, cp}}
}

// writeRowAlloc writes row at arr, where arr is either the old array or fresh;
// the recorders see both.
func (x *Ex) writeRowAlloc(st *State, key string, srt Sort, arr, old, fresh, row *Term) {
	h := st.get(key, srt)
	for _, r := range x.recs {
		r.note(key, srt, fresh)
		if arr != fresh {
			r.note(key, srt, old)
		}
	}
	st.heap[key] = Store(h, arr, row)
}

var _ = fmt.Sprint
