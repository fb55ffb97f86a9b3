package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

type FnResult struct {
	Key     string
	Obs     []*Oblig
	Cands   int
	Kept    int
	Missing bool
	Unsup   string
	Inlined []string
	Trusted []string
	Used    []string
	Exec    time.Duration
	Solve   time.Duration
	Returns int
	x       *Ex
}

var engineMu sync.Mutex

func newEx(p *Program, specs *Specs, prop, key string, con *Contract) *Ex {
	return &Ex{prog: p, specs: specs, prop: prop, fnKey: key, con: con, trusted: map[string]bool{}, inlined: map[string]bool{}, used: map[string]bool{}}
}

// verifyFunc generates and solves the obligations of one contract.
func verifyFunc(p *Program, specs *Specs, prop, key string) *FnResult {
	return genFunc(p, specs, prop, key).finish()
}

func genFunc(p *Program, specs *Specs, prop, key string) *FnResult {
	r := &FnResult{Key: key}
	con := specs.Contracts[key]
	fn := p.fns[key]
	if fn == nil || len(fn.Blocks) == 0 {
		r.Missing = true
		return r
	}
	x := newEx(p, specs, prop, key, con)
	t0 := time.Now()
	engineMu.Lock()
	t0 = time.Now()
	func() {
		defer engineMu.Unlock()
		defer func() {
			if e := recover(); e != nil {
				if u, ok := e.(unsup); ok {
					r.Unsup = u.msg
					return
				}
				buf := make([]byte, 6000)
				n := runtime.Stack(buf, false)
				r.Unsup = fmt.Sprintf("engine: %v\n%s", e, buf[:n])
			}
		}()
		x.top = fn
		x.execTop(fn, con)
	}()
	r.Exec = time.Since(t0)
	r.Obs = x.obs
	r.Returns = len(x.retPCs)
	for k := range x.inlined {
		r.Inlined = append(r.Inlined, k)
	}
	for k := range x.trusted {
		r.Trusted = append(r.Trusted, k)
	}
	for k := range x.used {
		r.Used = append(r.Used, k)
	}
	sort.Strings(r.Inlined)
	sort.Strings(r.Trusted)
	sort.Strings(r.Used)
	r.x = x
	return r
}

// finish decides the obligations generated by genFunc.
func (r *FnResult) finish() *FnResult {
	x := r.x
	if x == nil || r.Unsup != "" {
		return r
	}
	t1 := time.Now()
	x.solve()
	r.Obs = nil
	for _, o := range append(append([]*Oblig{}, x.obs...), x.covers...) {
		if o.Cand == nil {
			r.Obs = append(r.Obs, o)
		}
	}
	r.Cands = len(x.cands)
	for _, c := range x.cands {
		if c.Alive {
			r.Kept++
		}
	}
	r.Solve += time.Since(t1)
	if os.Getenv("VCANDS") != "" {
		for _, c := range x.cands {
			fmt.Printf("   cand %v loop%d %s\n", c.Alive, c.Loop, c.Desc)
		}
	}
	return r
}

func (x *Ex) execTop(fn fnType, con *Contract) {
	st := &State{heap: map[string]*Term{}, alloc: Sym("alloc0", SInt), epoch: ""}
	st.assume(Le(I(0), st.alloc))
	sig := fn.Signature
	_ = sig
	var args []Val
	for i, prm := range fn.Params {
		n := prm.Name()
		if con != nil && i < len(con.Params) {
			n = con.Params[i]
		}
		v := Val{T: prm.Type()}
		for _, l := range leaves(prm.Type()) {
			v.C = append(v.C, Sym(fmt.Sprintf("p:%d:%s%s", i, n, l.path), l.sort))
		}
		x.facts(st, v)
		args = append(args, v)
	}
	if len(con.Params) != len(args) {
		unsupported("contract of %s has %d parameters, the function has %d", con.Key, len(con.Params), len(args))
	}
	x.names = bindNames(con, sig, args)
	entry := st.snapshot()
	x.entry = entry
	ctx := &Ctx{x: x, st: st, old: st, names: x.names, where: con.File}
	for _, r := range con.Requires {
		if r.active(x.prop) {
			st.assume(ctx.boolean(r.Expr))
		}
	}
	entry.heap = cloneHeap(st.heap)
	if len(con.Reads) > 0 {
		for _, b := range x.checkReads(con, fn, ctx) {
			x.obs = append(x.obs, &Oblig{Fn: x.fnKey, Kind: "reads", Desc: "the result also depends on " + b, PC: st.pc, Goal: TFalse})
		}
	}
	outs := x.run(fn, args, nil, st, con, x.names)
	for _, o := range outs {
		if o.st.dead() {
			continue
		}
		x.retPCs = append(x.retPCs, o.st.pc)
		nm := map[string]Val{}
		for k, v := range x.names {
			nm[k] = v
		}
		x.bindResults(con, nm, fixTypes(o.res, sig))
		c := &Ctx{x: x, st: o.st, old: entry, names: nm, where: con.File}
		for _, u := range con.Sets {
			g := ghostSet(u.Expr)
			srt := x.ghostSort(g)
			o.st.get("ghost:"+g, srt)
			o.st.heap["ghost:"+g] = Fresh("set:"+g, srt)
			o.st.assume(c.boolean(u.Expr))
		}
		for _, u := range con.Uses {
			if u.active(x.prop) {
				x.useLemma(o.st, c, u)
			}
		}
		for _, e := range con.Ensures {
			if !e.active(x.prop) {
				continue
			}
			g := c.boolean(e.Expr)
			x.obs = append(x.obs, &Oblig{Fn: x.fnKey, Kind: "ensures", Desc: e.Src, Pos: fmt.Sprintf("%s:%d", e.File, e.Line), PC: o.st.pc, Goal: g})
		}
		for _, e := range ownedSlices(con) {
			x.obs = append(x.obs, &Oblig{Fn: x.fnKey, Kind: "frame", Desc: exprKey(e) + " keeps its array or gets a fresh one", PC: o.st.pc, Goal: ownedNow(c, e)})
		}
		x.frame(o.st, entry, con)
	}
}

func fixTypes(rs []Val, sig *types.Signature) []Val {
	out := append([]Val{}, rs...)
	for i := range out {
		if i < sig.Results().Len() {
			out[i].T = sig.Results().At(i).Type()
		}
	}
	return out
}

func cloneHeap(h map[string]*Term) map[string]*Term {
	n := make(map[string]*Term, len(h))
	for k, v := range h {
		n[k] = v
	}
	return n
}

// useLemma assumes an instance of a lemma that is verified on its own.
func (x *Ex) useLemma(st *State, c *Ctx, u *Clause) {
	e := u.Expr
	cond := TTrue
	if e.Kind == "bin" && e.Name == "==>" {
		cond = c.boolean(e.Args[0])
		e = e.Args[1]
	}
	if e.Kind != "call" {
		unsupported("use %s", u.Src)
	}
	l := x.specs.Lemmas[e.Name]
	if l == nil {
		unsupported("no lemma %s", e.Name)
	}
	x.used["lemma "+l.Name] = true
	nm := map[string]Val{}
	for i, p := range l.Params {
		v := c.eval(e.Args[i])
		nm[p.Name] = v
	}
	d := &Ctx{x: x, st: c.st, old: c.old, names: nm, where: l.File}
	var pre, post []*Term
	for _, r := range l.Requires {
		pre = append(pre, d.boolean(r.Expr))
	}
	for _, r := range l.Ensures {
		post = append(post, d.boolean(r.Expr))
	}
	st.assume(Implies(cond, Implies(And(pre...), And(post...))))
}

// frame: everything the contract does not list is unchanged.
func (x *Ex) frame(st *State, entry *State, con *Contract) {
	if con.Opts["noframe"] != "" {
		return
	}
	ctx := &Ctx{x: x, st: entry, old: entry, names: x.names, where: con.File}
	ms := x.modifies(con, ctx)
	if ms.all {
		return
	}
	var ks []string
	for k := range st.heap {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if strings.HasPrefix(k, "iter") {
			continue
		}
		N := st.heap[k]
		H := entry.get(k, N.Sort)
		if N == H {
			continue
		}
		if _, ok := ms.whole[k]; ok {
			continue
		}
		if strings.HasPrefix(k, "ghost:") {
			x.obs = append(x.obs, &Oblig{Fn: x.fnKey, Kind: "frame", Desc: k, PC: st.pc, Goal: Eq(N, H)})
			continue
		}
		r := Sym("framer", SInt)
		cond := []*Term{oldRef(r, Sym("alloc0", SInt))}
		if strings.HasPrefix(k, "elem:") {
			cond = append(cond, Ne(r, I(0))) // the nil slice has no elements
		}
		for _, l := range ms.locs {
			if l.key == k {
				cond = append(cond, Ne(r, l.idx[0]))
			}
		}
		for _, l := range ms.rows {
			if l.key == k {
				cond = append(cond, Ne(r, l.idx[0]))
			}
		}
		goal := Implies(And(cond...), frameEq(N, H, r))
		x.obs = append(x.obs, &Oblig{Fn: x.fnKey, Kind: "frame", Desc: k, PC: st.pc, Goal: goal})
	}
}

func frameEq(N, H, r *Term) *Term { return Eq(Select(N, r), Select(H, r)) }

// ---- solving

func pcTerms(pc *PC) []*Term {
	var out []*Term
	for p := pc; p != nil; p = p.up {
		out = append(out, p.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

type solveCtx struct {
	m, memo map[*Term]*Term
}

func (x *Ex) prep(sc *solveCtx, o *Oblig, goal *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range pcTerms(o.PC) {
		s := Subst(t, sc.m, sc.memo)
		if s == TTrue || seen[s] {
			continue
		}
		seen[s] = true
		out = append(out, s)
	}
	g := Subst(goal, sc.m, sc.memo)
	out = append(out, Not(g))
	return slice1(out)
}

// splitGoal breaks a goal into conjuncts proved separately.
func splitGoal(g *Term) []*Term {
	switch g.Op {
	case "and":
		var out []*Term
		for _, a := range g.Args {
			out = append(out, splitGoal(a)...)
		}
		return out
	case "=>":
		parts := splitGoal(g.Args[1])
		if len(parts) == 1 {
			return []*Term{g}
		}
		var out []*Term
		for _, p := range parts {
			out = append(out, Implies(g.Args[0], p))
		}
		return out
	case "forall":
		parts := splitGoal(g.Args[0])
		if len(parts) == 1 {
			return []*Term{g}
		}
		var out []*Term
		for _, p := range parts {
			out = append(out, Quant(true, g.Vars, p, g.Pats...))
		}
		return out
	}
	return []*Term{g}
}

// refuteAll proves the goal (last element, negated) part by part.
func refuteAll(q []*Term, effort int) solverRes {
	parts := splitGoal(Not(q[len(q)-1]))
	if len(parts) == 1 {
		return refute(q, effort)
	}
	if len(parts) > 24 {
		if r := refute(q, min(effort, 0)); r.status == "unsat" || len(parts) > 80 {
			return r
		}
	}
	var worst solverRes
	worst.status = "unsat"
	worst.solver = "simplifier"
	for i, p := range parts {
		if p == TTrue {
			continue
		}
		r := refute(append(append([]*Term{}, q[:len(q)-1]...), Not(p)), effort)
		r.dur += worst.dur
		worst = r
		if r.status != "unsat" {
			if effort != half {
				if r := refute(q, 0); r.status == "unsat" {
					return r
				}
			}
			worst.out = fmt.Sprintf("conjunct %d of %d: %s\n%s", i+1, len(parts), p, r.out)
			return worst
		}
		// a proved conjunct may be used for the next ones
	}
	return worst
}

// slice1 drops facts that share no symbol with the goal (transitively), which
// only weakens the hypotheses.
func slice1(as []*Term) []*Term { return as }

func (x *Ex) substCtx() *solveCtx {
	sc := &solveCtx{m: map[*Term]*Term{}, memo: map[*Term]*Term{}}
	for _, c := range x.cands {
		sc.m[c.Act] = BoolT(c.Alive)
	}
	return sc
}

func par(n int, f func(i int)) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, 10)
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int) {
			defer wg.Done()
			f(i)
			<-sem
		}(i)
	}
	wg.Wait()
}

func (x *Ex) solve() {
	byCand := map[*Cand][]*Oblig{}
	for _, o := range x.obs {
		if o.Cand != nil {
			byCand[o.Cand] = append(byCand[o.Cand], o)
		}
	}
	// Houdini: drop candidates until the remaining set is inductive
	if hints.on && !x.noHints {
		for _, c := range x.cands {
			if hints.drop[candKey(x.fnKey, c)] {
				c.Alive = false
			}
		}
	}
	proved := map[*Oblig][]*Term{}
	for phase := 0; phase < 2; phase++ {
		for round := 0; round < 60; round++ {
			sc := x.substCtx()
			var todo []*Oblig
			var qs [][]*Term
			for _, c := range x.cands {
				if !c.Alive {
					continue
				}
				for _, o := range byCand[c] {
					if phase == 0 && o.Kind != "loop-init" {
						continue
					}
					q := x.prep(sc, o, o.Goal)
					if old, ok := proved[o]; ok && sameTerms(old, q) {
						continue
					}
					todo = append(todo, o)
					qs = append(qs, q)
				}
			}
			if len(todo) == 0 {
				break
			}
			oks := make([]bool, len(todo))
			par(len(todo), func(i int) {
				if !todo[i].Cand.Alive {
					return
				}
				eff := 0
				if todo[i].Cand.Firm {
					eff = half
				}
				if todo[i].Cand.Most {
					eff = 1
				}
				res := refuteAll(qs[i], eff)
				oks[i] = res.status == "unsat"
				if !oks[i] {
					if os.Getenv("VCANDS") != "" {
						fmt.Printf("   drop %s %s: %s %s\n", todo[i].Kind, todo[i].Desc, res.status, strings.SplitN(res.out, "\n", 2)[0])
						if os.Getenv("VDUMP") != "" {
							dumpQuery(todo[i], qs[i])
						}
					}
					todo[i].Cand.Alive = false
				}
			})
			dropped := 0
			for i, o := range todo {
				if oks[i] {
					proved[o] = qs[i]
				}
				if !o.Cand.Alive {
					dropped++
				}
			}
			if dropped == 0 {
				break
			}
		}
	}
	if hints.rec {
		hints.Lock()
		for _, c := range x.cands {
			if !c.Alive {
				hints.newD[candKey(x.fnKey, c)] = true
			}
		}
		hints.Unlock()
	}
	// the obligations proper
	sc := x.substCtx()
	var todo []*Oblig
	var qs [][]*Term
	loops := map[int][]*Oblig{}
	for _, o := range x.obs {
		if o.Cand != nil {
			continue
		}
		if o.LoopID != 0 {
			loops[o.LoopID] = append(loops[o.LoopID], o)
			continue
		}
		if o.Goal == TTrue {
			o.OK = true
			o.Res = solverRes{status: "unsat", solver: "simplifier"}
			continue
		}
		todo = append(todo, o)
		qs = append(qs, x.prep(sc, o, o.Goal))
	}
	par(len(todo), func(i int) {
		todo[i].Res = refuteAll(qs[i], 1)
		todo[i].OK = todo[i].Res.status == "unsat"
		if !todo[i].OK && os.Getenv("VDUMP") != "" {
			dumpQuery(todo[i], qs[i])
		}
	})
	// one measure per loop decreases on every back edge
	var ids []int
	for id := range loops {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		os_ := loops[id]
		n := len(os_[0].Alts)
		for k := 0; k < n; k++ {
			good := true
			res := make([]solverRes, len(os_))
			var qq [][]*Term
			for _, o := range os_ {
				if k >= len(o.Alts) || o.Alts[k] == TFalse {
					good = false
					break
				}
				qq = append(qq, x.prep(sc, o, o.Alts[k]))
			}
			if !good {
				continue
			}
			par(len(os_), func(i int) {
				if good {
					res[i] = refute(qq[i], 0)
					if res[i].status != "unsat" {
						good = false
					}
				}
			})
			if good {
				for i, o := range os_ {
					o.OK = true
					o.Res = res[i]
				}
				break
			}
		}
		if os_[0].OK {
			continue
		}
		// or no back edge can be taken
		for _, o := range os_ {
			o.Res = refute(x.prep(sc, o, TFalse), 0)
			if o.OK = o.Res.status == "unsat"; !o.OK {
				for _, o := range os_ {
					o.OK = false
				}
				break
			}
		}
	}
	// vacuity: some return must be reachable under the contract's assumptions
	if len(x.retPCs) > 0 && x.con != nil {
		o := &Oblig{Fn: x.fnKey, Kind: "cover", Desc: "some return is reachable under the preconditions", Cover: true}
		for i := len(x.retPCs) - 1; i >= 0; i-- {
			po := &Oblig{PC: x.retPCs[i]}
			q := x.prep(sc, po, TFalse)
			res := runSolverQuick(q)
			o.Res = res
			if res.status != "unsat" {
				o.OK = true
				o.Res.status = "reachable (" + res.status + ")"
				break
			}
		}
		x.covers = []*Oblig{o}
	}
}

// again retries with all candidates restored.
func (r *FnResult) again() {
	for _, c := range r.x.cands {
		c.Alive = true
	}
	for _, o := range r.x.obs {
		o.OK = false
	}
	r.x.noHints = true
	r.finish()
}

func runSolverQuick(q []*Term) solverRes {
	for _, t := range q {
		if t == TFalse {
			return solverRes{status: "unsat", solver: "simplifier"}
		}
	}
	r := runSolver(bg, "z3-new", []string{"-in", "-t:1500"}, script(q, false, false), 1500*time.Millisecond)
	theStats.add(r)
	return r
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var dumpN int
var dumpMu sync.Mutex

func dumpQuery(o *Oblig, q []*Term) {
	dumpMu.Lock()
	dumpN++
	n := dumpN
	dumpMu.Unlock()
	os.MkdirAll("/tmp/vq", 0755)
	os.WriteFile(fmt.Sprintf("/tmp/vq/q%03d.smt2", n), []byte("; "+strings.ReplaceAll(o.Name()+" "+o.Pos, "\n", " ")+"\n"+script(q, false, false)), 0644)
	var b strings.Builder
	b.WriteString(o.Name() + " " + o.Pos + "\n")
	for _, t := range q {
		b.WriteString("  " + t.String() + "\n")
	}
	os.WriteFile(fmt.Sprintf("/tmp/vq/q%03d.txt", n), []byte(b.String()), 0644)
}

// verifyLemma checks a lemma; an inductive use of itself needs a smaller measure.
func verifyLemma(p *Program, specs *Specs, prop, name string) *FnResult {
	return genLemma(p, specs, prop, name).finish()
}

func genLemma(p *Program, specs *Specs, prop, name string) *FnResult {
	l := specs.Lemmas[name]
	r := &FnResult{Key: "lemma " + name}
	x := newEx(p, specs, prop, "lemma "+name, nil)
	engineMu.Lock()
	func() {
		defer engineMu.Unlock()
		defer func() {
			if e := recover(); e != nil {
				if u, ok := e.(unsup); ok {
					r.Unsup = u.msg
					return
				}
				panic(e)
			}
		}()
		st := &State{heap: map[string]*Term{}, alloc: Sym("alloc0", SInt), epoch: ""}
		st.assume(Le(I(0), st.alloc))
		nm := map[string]Val{}
		ctx := &Ctx{x: x, st: st, old: st, names: nm, where: l.File}
		for _, prm := range l.Params {
			T := ctx.specType(prm.Type)
			v := Val{T: T}
			for _, lf := range leaves(T) {
				v.C = append(v.C, Sym("p:"+prm.Name+lf.path, lf.sort))
			}
			if prm.Type != "ref" && prm.Type != "int" {
				x.facts(st, v)
			}
			nm[prm.Name] = v
		}
		x.names = nm
		x.entry = st.snapshot()
		for _, q := range l.Requires {
			st.assume(ctx.boolean(q.Expr))
		}
		x.retPCs = append(x.retPCs, st.pc)
		var ms []*Term
		for _, d := range l.Decr {
			ms = append(ms, ctx.term(d.Expr))
		}
		for _, u := range l.Uses {
			e := u.Expr
			cond := TTrue
			if e.Kind == "bin" && e.Name == "==>" {
				cond = ctx.boolean(e.Args[0])
				e = e.Args[1]
			}
			if e.Kind == "call" && specs.Lemmas[e.Name] == l {
				nn := map[string]Val{}
				for i, prm := range l.Params {
					nn[prm.Name] = ctx.eval(e.Args[i])
				}
				c2 := &Ctx{x: x, st: st, old: st, names: nn, where: l.File}
				if len(ms) == 0 {
					unsupported("inductive lemma %s without decreases", name)
				}
				v := c2.term(l.Decr[0].Expr)
				x.obs = append(x.obs, &Oblig{Fn: x.fnKey, Kind: "terminates", Desc: "induction on a smaller measure", PC: st.pc, Goal: Implies(cond, And(Lt(v, ms[0]), Le(I(0), v)))})
			}
			x.useLemma(st, ctx, u)
		}
		for _, e := range l.Ensures {
			x.obs = append(x.obs, &Oblig{Fn: x.fnKey, Kind: "lemma", Desc: e.Src, Pos: fmt.Sprintf("%s:%d", l.File, l.Line), PC: st.pc, Goal: ctx.boolean(e.Expr)})
		}
	}()
	r.Obs = x.obs
	r.x = x
	return r
}

// ---- command line

func main() {
	cmd := "check"
	if len(os.Args) > 1 {
		cmd = os.Args[1]
	}
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	repo := fs.String("repo", "/repo", "repository")
	verif := fs.String("verif", "/verif", "verification directory")
	tier := fs.String("tier", "quick", "tier")
	verbose := fs.Bool("v", false, "list every obligation")
	spec := fs.String("spec", "", "contract directory")
	fs.Parse(os.Args[2:])
	if *spec == "" {
		*spec = filepath.Join(*verif, "contracts")
	}
	t0 := time.Now()
	p, err := loadProgram(*repo)
	if err != nil {
		fmt.Println("cannot load the repository:", err)
		os.Exit(2)
	}
	specs := newSpecs()
	if err := specs.loadDir(*spec); err != nil {
		fmt.Println("contracts:", err)
		os.Exit(2)
	}
	p.x = newEx(p, specs, *prop, "", nil)
	axiomEx = p.x
	if *tier == "thorough" {
		fullTimeout = 60 * time.Second
	}
	loadT := time.Since(t0)
	switch cmd {
	case "fns":
		for _, k := range p.sortedFns() {
			c := " "
			if specs.Contracts[k] != nil {
				c = "*"
			}
			fmt.Println(c, k)
		}
	case "fn":
		fmt.Println("load", loadT)
		for _, k := range fs.Args() {
			var r *FnResult
			if strings.HasPrefix(k, "lemma:") {
				r = verifyLemma(p, specs, *prop, k[6:])
			} else {
				if specs.Contracts[k] == nil {
					fmt.Println("no contract for", k)
					continue
				}
				r = verifyFunc(p, specs, *prop, k)
			}
			printResult(r, *verbose)
		}
	case "record", "check":
		hintFile := filepath.Join(*spec, "hints", *prop+".txt")
		if cmd == "record" {
			hints.rec = true
			// old hints stay useful while recording new ones unless VFRESH is set
			if os.Getenv("VFRESH") == "" {
				loadHints(hintFile)
			}
			defer hints.save(hintFile)
			os.MkdirAll(filepath.Dir(hintFile), 0755)
			check(p, specs, *prop, *tier, *verif, *repo, t0)
			return
		}
		if os.Getenv("VNOHINT") == "" {
			loadHints(hintFile)
		}
		os.Exit(check(p, specs, *prop, *tier, *verif, *repo, t0))
	}
}

func printResult(r *FnResult, verbose bool) {
	ok, bad := 0, 0
	for _, o := range r.Obs {
		if o.OK {
			ok++
		} else {
			bad++
		}
	}
	st := "OK"
	if r.Missing {
		st = "MISSING"
	} else if r.Unsup != "" {
		st = "UNSUPPORTED " + r.Unsup
	} else if bad > 0 {
		st = "FAILED"
	}
	fmt.Printf("%s: %s  %d/%d obligations, candidates %d/%d, exec %.1fs solve %.1fs, %d returns\n", r.Key, st, ok, ok+bad, r.Kept, r.Cands, r.Exec.Seconds(), r.Solve.Seconds(), r.Returns)
	for _, o := range r.Obs {
		if !o.OK || verbose {
			m := "  ok  "
			if !o.OK {
				m = "  FAIL"
			}
			fmt.Printf("%s %s: %s [%s] %s %s %.2fs\n", m, o.Kind, o.Desc, o.Pos, o.Res.status, o.Res.solver, o.Res.dur.Seconds())
			if !o.OK && strings.HasPrefix(o.Res.out, "conjunct") {
				fmt.Println("        " + strings.SplitN(o.Res.out, "\n", 2)[0])
			}
		}
	}
	if verbose {
		fmt.Println("   inlined:", strings.Join(r.Inlined, ", "))
		fmt.Println("   trusted:", strings.Join(r.Trusted, "; "))
		fmt.Println("   contracts used:", strings.Join(r.Used, ", "))
	}
}

var _ = json.Marshal
