package main

// Symbolic execution of SSA functions, cut at loop heads, producing proof
// obligations.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Oblig struct {
	Fn     string // contract function being verified
	Kind   string
	Desc   string
	Pos    string
	PC     *PC
	Goal   *Term
	Cand   *Cand // loop-candidate obligation (Houdini)
	Alts   []*Term
	Res    solverRes
	OK     bool
	Cover  bool // vacuity guard: must not be refutable
	LoopID int
}

func (o *Oblig) Name() string { return o.Fn + " / " + o.Kind + ": " + o.Desc }

type Cand struct {
	ID    int
	Loop  int
	Desc  string
	Act   *Term
	Alive bool
	Most  bool // marked firm: every solver gets a try
	Firm  bool // written without placeholders: worth more effort before it is dropped
}

type Outcome struct {
	st  *State
	res []Val
}

type Ex struct {
	prog        *Program
	specs       *Specs
	prop        string
	fnKey       string
	con         *Contract
	top         *ssa.Function
	obs         []*Oblig
	cands       []*Cand
	covers      []*Oblig
	noHints     bool
	dry         int
	recs        []*recorder
	depth       int
	stack       []*ssa.Function
	trusted     map[string]bool // assumptions used
	inlined     map[string]bool
	used        map[string]bool // contracts used
	entry       *State
	names       map[string]Val
	loopN       int
	retPCs      []*PC
	steps       int
	measure     []*Term // entry values of decreases
	recDone     bool
	inlineStmts int
}

type Frame struct {
	fn    *ssa.Function
	con   *Contract
	names map[string]Val // contract names (entry values)
	loops *loopInfo
	rets  []Outcome
	entry *State
	recov bool
}

func (x *Ex) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.prog.fset.Position(p)
	f := q.Filename
	f = strings.TrimPrefix(f, x.prog.root+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (x *Ex) oblige(st *State, kind, desc string, pos token.Pos, goal *Term) {
	if x.dry > 0 {
		st.assume(goal)
		return
	}
	if goal == TTrue {
		// still counted: discharged by the simplifier
		x.obs = append(x.obs, &Oblig{Fn: x.fnKey, Kind: kind, Desc: desc, Pos: x.pos(pos), PC: st.pc, Goal: goal})
		return
	}
	if v, ok := st.known(goal); ok && v {
		x.obs = append(x.obs, &Oblig{Fn: x.fnKey, Kind: kind, Desc: desc, Pos: x.pos(pos), PC: st.pc, Goal: TTrue})
		return
	}
	x.obs = append(x.obs, &Oblig{Fn: x.fnKey, Kind: kind, Desc: desc, Pos: x.pos(pos), PC: st.pc, Goal: goal})
	st.assume(goal)
}

// ---- values

func (x *Ex) val(st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return Val{T: v.Type(), C: []*Term{x.fnID(v)}, Fn: &FnVal{Fn: v}}
	case *ssa.Global:
		return Val{T: v.Type(), C: []*Term{Sym("&"+v.Pkg.Pkg.Name()+"."+v.Name(), SInt)}, Addr: x.globalAddr(v)}
	case *ssa.Builtin:
		return Val{T: v.Type()}
	}
	if r, ok := st.env[v]; ok {
		return r
	}
	unsupported("undefined SSA value %s in %s", v.Name(), v.Parent())
	return Val{}
}

func (x *Ex) fnID(f *ssa.Function) *Term {
	return Sym("fn:"+f.String(), SInt)
}

func (x *Ex) globalAddr(g *ssa.Global) *Addr {
	el := under(g.Type()).(*types.Pointer).Elem()
	return &Addr{Key: "glob:" + g.Pkg.Pkg.Name() + "." + g.Name(), Idx: []*Term{I(0)}, T: el}
}

func (x *Ex) constVal(c *ssa.Const) Val {
	T := c.Type()
	if c.Value == nil {
		return zeroVal(T)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Val{T: T, C: []*Term{BoolT(constant.BoolVal(c.Value))}}
	case constant.String:
		return Val{T: T, C: []*Term{StrLit(constant.StringVal(c.Value))}}
	case constant.Int:
		if isString(T) {
			unsupported("int const of string type")
		}
		return Val{T: T, C: []*Term{IBig(c.Value.ExactString())}}
	case constant.Float:
		if isIntT(T) {
			return Val{T: T, C: []*Term{IBig(constant.ToInt(c.Value).ExactString())}}
		}
		return Val{T: T, C: []*Term{App("float:"+c.Value.ExactString(), SInt)}}
	}
	unsupported("constant %s", c)
	return Val{}
}

func (x *Ex) load(st *State, p Val, pos token.Pos, what string) Val {
	elem := under(p.T).(*types.Pointer).Elem()
	if p.Addr == nil {
		x.oblige(st, "nil", what, pos, Ne(p.C[0], I(0)))
	}
	if p.Addr != nil && strings.HasPrefix(p.Addr.Key, "glob:") {
		if v, ok := x.prog.globalConst(st, p.Addr.Key, elem); ok {
			return v
		}
	}
	r := Val{T: elem}
	for _, l := range ptrLocs(p) {
		r.C = append(r.C, st.read(l))
	}
	x.facts(st, r)
	x.typeInvs(st, r)
	return r
}

func (x *Ex) storeTo(st *State, p Val, v Val, pos token.Pos, what string) {
	if p.Addr == nil {
		x.oblige(st, "nil", what, pos, Ne(p.C[0], I(0)))
	}
	ls := ptrLocs(p)
	if len(ls) != len(v.C) {
		unsupported("store of %s (%d components into %d)", v.T, len(v.C), len(ls))
	}
	for i, l := range ls {
		x.write(st, l, v.C[i])
	}
	if v.Fn != nil && len(ls) == 1 {
		x.prog.fnByTerm[v.C[0]] = v.Fn
	}
	if v.Addr != nil {
		unsupported("storing an interior pointer")
	}
}

// typeInvs lets the contracts state facts about all values of a type (none by default).
func (x *Ex) typeInvs(st *State, v Val) {}

// ---- function execution

func (x *Ex) newFrame(fn *ssa.Function) *Frame {
	return &Frame{fn: fn, loops: loopsOf(fn)}
}

const maxDepth = 40

// run executes fn from state st with arguments; the caller's env is not kept.
func (x *Ex) run(fn *ssa.Function, args []Val, bind []Val, st *State, con *Contract, names map[string]Val) []Outcome {
	if len(fn.Blocks) == 0 {
		unsupported("no body for %s", fn)
	}
	if x.depth > maxDepth {
		unsupported("inlining too deep at %s", fn)
	}
	x.depth++
	x.stack = append(x.stack, fn)
	defer func() { x.depth--; x.stack = x.stack[:len(x.stack)-1] }()
	fr := x.newFrame(fn)
	fr.con = con
	fr.names = names
	st.env = map[ssa.Value]Val{}
	st.defers = nil
	for i, p := range fn.Params {
		st.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		st.env[f] = bind[i]
	}
	fr.entry = st.snapshot()
	_, backs := x.region(fr, fn.Blocks[0], []*State{st}, nil, nil)
	if len(backs) > 0 {
		unsupported("irreducible control flow in %s", fn)
	}
	return fr.rets
}

type edgeState struct {
	to *ssa.BasicBlock
	st *State
}

func (x *Ex) splitCap(fr *Frame) int {
	if x.con != nil && x.con.Split >= 0 {
		return x.con.Split
	}
	return 24
}

// region executes the blocks of a region in reverse postorder.  header is the
// loop header being executed (nil for a function body).
func (x *Ex) region(fr *Frame, start *ssa.BasicBlock, sts []*State, in map[*ssa.BasicBlock]bool, header *ssa.BasicBlock) (exits []edgeState, backs []*State) {
	pending := map[*ssa.BasicBlock][]*State{start: sts}
	first := true
	route := func(es []edgeState) {
		for _, e := range es {
			switch {
			case header != nil && e.to == header:
				backs = append(backs, e.st)
			case in != nil && !in[e.to]:
				exits = append(exits, e)
			default:
				pending[e.to] = append(pending[e.to], e.st)
			}
		}
	}
	for _, b := range fr.loops.rpo {
		if in != nil && !in[b] {
			continue
		}
		cur := pending[b]
		if len(cur) == 0 {
			continue
		}
		delete(pending, b)
		isHead := fr.loops.body[b] != nil && !(first && b == header)
		if b == header {
			first = false
		}
		if isHead {
			st := x.merge(cur)
			if st == nil {
				continue
			}
			route(x.loop(fr, b, st))
			continue
		}
		cur = x.mergeCheap(cur)
		if len(cur) > x.splitCap(fr) {
			if m := x.merge(cur); m != nil {
				cur = []*State{m}
			}
		}
		for _, st := range cur {
			if st.dead() {
				continue
			}
			route(x.block(fr, b, 0, st))
		}
	}
	for b := range pending {
		unsupported("block order problem in %s at %s", fr.fn, b)
	}
	return
}

// block executes instructions i.. of b and returns the outgoing edges.
func (x *Ex) block(fr *Frame, b *ssa.BasicBlock, i int, st *State) []edgeState {
	for ; i < len(b.Instrs); i++ {
		x.steps++
		if x.steps > 400000 {
			unsupported("too many symbolic steps")
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			c := x.val(st, in.Cond).C[0]
			var out []edgeState
			t, k := st.known(c)
			if !k || t {
				s := st
				if !k {
					s = st.clone()
					s.assume(c)
				}
				x.edge(b, b.Succs[0], s)
				out = append(out, edgeState{b.Succs[0], s})
			}
			if !k || !t {
				s := st
				if !k {
					s.assume(Not(c))
				}
				x.edge(b, b.Succs[1], s)
				out = append(out, edgeState{b.Succs[1], s})
			}
			return out
		case *ssa.Jump:
			x.edge(b, b.Succs[0], st)
			return []edgeState{{b.Succs[0], st}}
		case *ssa.Return:
			var rs []Val
			for _, r := range in.Results {
				rs = append(rs, x.val(st, r))
			}
			fr.rets = append(fr.rets, Outcome{st, rs})
			return nil
		case *ssa.Panic:
			if x.con != nil && x.con.MayPanic {
				return nil
			}
			x.oblige(st, "panic", "explicit panic is unreachable in "+shortFn(fr.fn), in.Pos(), TFalse)
			return nil
		case *ssa.RunDefers:
			ds := st.defers
			st.defers = nil
			states := []*State{st}
			for k := len(ds) - 1; k >= 0; k-- {
				var next []*State
				for _, s := range states {
					env := s.env
					for _, o := range x.callWith(s, ds[k].call, ds[k].fn, ds[k].args, in.Pos()) {
						o.st.env = cloneEnv(env)
						next = append(next, o.st)
					}
				}
				states = next
			}
			if len(states) == 1 {
				st = states[0]
				continue
			}
			var out []edgeState
			for _, s := range states {
				out = append(out, x.block(fr, b, i+1, s)...)
			}
			return out
		case *ssa.Call:
			env := st.env
			outs := x.mergeCheapOutcomes(x.call(st, &in.Call, in.Pos()))
			if len(outs) > 12 {
				outs = x.mergeOutcomes(outs)
			}
			if len(outs) == 0 {
				return nil
			}
			bind := func(o Outcome) *State {
				o.st.env = cloneEnv(env)
				o.st.env[in] = packResults(in.Type(), o.res)
				return o.st
			}
			if len(outs) == 1 {
				d := st.defers
				st = bind(outs[0])
				st.defers = d
				if st.dead() {
					return nil
				}
				continue
			}
			var out []edgeState
			d := st.defers
			for _, o := range outs {
				s := bind(o)
				s.defers = append([]deferred{}, d...)
				if s.dead() {
					continue
				}
				out = append(out, x.block(fr, b, i+1, s)...)
			}
			return out
		default:
			x.instr(fr, st, b.Instrs[i])
			if st.dead() {
				return nil
			}
		}
	}
	unsupported("block without terminator")
	return nil
}

func cloneEnv(e map[ssa.Value]Val) map[ssa.Value]Val {
	n := make(map[ssa.Value]Val, len(e)+1)
	for k, v := range e {
		n[k] = v
	}
	return n
}

func packResults(T types.Type, rs []Val) Val {
	if len(rs) == 1 {
		return rs[0]
	}
	v := Val{T: T, Tup: rs}
	return v
}

// edge evaluates the phis of the successor.
func (x *Ex) edge(from, to *ssa.BasicBlock, st *State) {
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	var phis []*ssa.Phi
	var vals []Val
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		v := x.val(st, p.Edges[idx])
		v.T = p.Type()
		vals = append(vals, v)
	}
	for i, p := range phis {
		st.env[p] = vals[i]
	}
}

// merge joins states that reach the same block.
func (x *Ex) merge(sts []*State) *State {
	var live []*State
	for _, s := range sts {
		if !s.dead() {
			live = append(live, s)
		}
	}
	if len(live) == 0 {
		return nil
	}
	r := live[0]
	for _, s := range live[1:] {
		r = x.merge2(r, s)
	}
	return r
}

func (x *Ex) merge2(a, b *State) *State {
	// common prefix of the path conditions
	pa, pb := a.pc, b.pc
	var sa, sb []*Term
	for pa != pb {
		na, nb := 0, 0
		if pa != nil {
			na = pa.n
		}
		if pb != nil {
			nb = pb.n
		}
		if na >= nb {
			sa = append(sa, pa.t)
			pa = pa.up
		} else {
			sb = append(sb, pb.t)
			pb = pb.up
		}
	}
	g := Fresh("br", SBool)
	// a distinguishing literal, if there is one, replaces the fresh guard
	inB := map[*Term]bool{}
	for _, t := range sb {
		inB[t] = true
	}
	for i := len(sa) - 1; i >= 0; i-- {
		if inB[Not(sa[i])] {
			g = sa[i]
			break
		}
	}
	m := a.clone()
	m.pc = pa
	rev := func(s []*Term) []*Term {
		o := make([]*Term, len(s))
		for i := range s {
			o[len(s)-1-i] = s[i]
		}
		return o
	}
	ra, rb := rev(sa), rev(sb)
	// shared facts stay unconditional
	inA := map[*Term]bool{}
	for _, t := range ra {
		inA[t] = true
	}
	for _, t := range ra {
		if inB[t] {
			m.assume(t)
		}
	}
	for _, t := range ra {
		if !inB[t] {
			m.assume(Implies(g, t))
		}
	}
	for _, t := range rb {
		if !inA[t] {
			m.assume(Implies(Not(g), t))
		}
	}
	keys := map[string]bool{}
	for k := range a.heap {
		keys[k] = true
	}
	for k := range b.heap {
		keys[k] = true
	}
	if a.epoch != b.epoch {
		m.epoch = a.epoch
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		ha, ok1 := a.heap[k]
		hb, ok2 := b.heap[k]
		if !ok1 {
			ha = a.get(k, hb.Sort)
		}
		if !ok2 {
			hb = b.get(k, ha.Sort)
		}
		m.heap[k] = mergeArr(g, ha, hb)
	}
	m.alloc = Ite(g, a.alloc, b.alloc)
	var diff []ssa.Value
	for k, va := range a.env {
		vb, ok := b.env[k]
		if !ok {
			delete(m.env, k)
			continue
		}
		if !sameVal(va, vb) {
			diff = append(diff, k)
		}
	}
	sort.Slice(diff, func(i, j int) bool {
		if diff[i].Name() != diff[j].Name() {
			return diff[i].Name() < diff[j].Name()
		}
		return diff[i].Pos() < diff[j].Pos()
	})
	for _, k := range diff {
		va, vb := a.env[k], b.env[k]
		if mv, ok := mergeVal(g, va, vb); ok {
			m.env[k] = mv
		} else {
			delete(m.env, k)
		}
	}
	if len(a.defers) != len(b.defers) {
		unsupported("merging states with different defers")
	}
	return m
}

// cheap: merging a and b loses nothing the path split would help with, since
// the heaps agree and only integers and booleans differ.
func cheap(a, b *State) bool {
	if a.alloc != b.alloc || len(a.defers) != len(b.defers) || a.epoch != b.epoch {
		return false
	}
	for k, v := range a.heap {
		if w, ok := b.heap[k]; ok && v != w {
			return false
		}
	}
	for i := range a.defers {
		if a.defers[i].call != b.defers[i].call || !cheapVal(a.defers[i].fn, b.defers[i].fn) || len(a.defers[i].args) != len(b.defers[i].args) {
			return false
		}
		for j := range a.defers[i].args {
			if !sameVal(a.defers[i].args[j], b.defers[i].args[j]) {
				return false
			}
		}
	}
	return true
}

func sameVal(a, b Val) bool {
	if len(a.C) != len(b.C) || len(a.Tup) != len(b.Tup) || a.Addr != b.Addr || a.Fn != b.Fn || a.Iter != b.Iter {
		return false
	}
	for i := range a.C {
		if a.C[i] != b.C[i] {
			return false
		}
	}
	for i := range a.Tup {
		if !sameVal(a.Tup[i], b.Tup[i]) {
			return false
		}
	}
	return true
}

func cheapVal(a, b Val) bool {
	if sameVal(a, b) {
		return true
	}
	if a.Addr != nil || b.Addr != nil || a.Fn != nil || b.Fn != nil || a.Iter != nil || b.Iter != nil || len(a.Tup) != len(b.Tup) || len(a.C) != len(b.C) {
		return false
	}
	if len(a.Tup) > 0 {
		for i := range a.Tup {
			if !cheapVal(a.Tup[i], b.Tup[i]) {
				return false
			}
		}
		return true
	}
	if a.T == nil {
		return false
	}
	t, ok := under(a.T).(*types.Basic)
	return ok && t.Info()&(types.IsInteger|types.IsBoolean) != 0
}

func (x *Ex) nomerge() bool { return x.con != nil && x.con.Opts["nomerge"] != "" }

func (x *Ex) mergeCheap(sts []*State) []*State {
	if len(sts) < 2 || x.nomerge() {
		return sts
	}
	var out []*State
next:
	for _, s := range sts {
		if s.dead() {
			continue
		}
		for i, o := range out {
			if !cheap(o, s) {
				continue
			}
			ok := true
			for k, v := range o.env {
				if w, in := s.env[k]; in && !cheapVal(v, w) {
					ok = false
					break
				}
			}
			if ok {
				out[i] = x.merge2(o, s)
				continue next
			}
		}
		out = append(out, s)
	}
	return out
}

func (x *Ex) mergeCheapOutcomes(os []Outcome) []Outcome {
	if len(os) < 2 || x.nomerge() {
		return os
	}
	var out []Outcome
next:
	for _, o := range os {
		if o.st.dead() {
			continue
		}
		for i, p := range out {
			if !cheap(p.st, o.st) || len(p.res) != len(o.res) {
				continue
			}
			ok := true
			for j := range p.res {
				if !cheapVal(p.res[j], o.res[j]) {
					ok = false
				}
			}
			if ok {
				out[i] = x.mergeOutcomes([]Outcome{p, o})[0]
				continue next
			}
		}
		out = append(out, o)
	}
	return out
}

// mergeArr is Ite(g, a, b); two chains of stores on one base are merged store by
// store, which keeps the base visible.
func mergeArr(g, a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.Sort[0] != '(' {
		return Ite(g, a, b)
	}
	chain := func(t *Term) (bases []*Term, refs []*Term) {
		for {
			bases = append(bases, t)
			if t.Op != "store" || len(refs) > 16 {
				return
			}
			refs = append(refs, t.Args[1])
			t = t.Args[0]
		}
	}
	ba, ra := chain(a)
	bb, rb := chain(b)
	for i, p := range ba {
		for j, q := range bb {
			if p != q {
				continue
			}
			base := p
			seen := map[*Term]bool{}
			r := base
			// oldest stores first
			var refs []*Term
			for k := i - 1; k >= 0; k-- {
				refs = append(refs, ra[k])
			}
			for k := j - 1; k >= 0; k-- {
				refs = append(refs, rb[k])
			}
			for _, ref := range refs {
				if seen[ref] {
					continue
				}
				seen[ref] = true
				r = Store(r, ref, mergeArr(g, Select(a, ref), Select(b, ref)))
			}
			return r
		}
	}
	return Ite(g, a, b)
}

func mergeVal(g *Term, a, b Val) (Val, bool) {
	if len(a.Tup) > 0 || len(b.Tup) > 0 {
		if len(a.Tup) != len(b.Tup) {
			return a, false
		}
		r := a
		r.Tup = make([]Val, len(a.Tup))
		for i := range a.Tup {
			v, ok := mergeVal(g, a.Tup[i], b.Tup[i])
			if !ok {
				return a, false
			}
			r.Tup[i] = v
		}
		return r, true
	}
	same := len(a.C) == len(b.C)
	if !same {
		return a, false
	}
	if (a.Addr != nil) != (b.Addr != nil) {
		return a, false
	}
	if a.Addr != nil {
		if a.Addr.Key != b.Addr.Key || len(a.Addr.Idx) != len(b.Addr.Idx) {
			return a, false
		}
		r := a
		ad := *a.Addr
		ad.Idx = nil
		for i := range a.Addr.Idx {
			ad.Idx = append(ad.Idx, Ite(g, a.Addr.Idx[i], b.Addr.Idx[i]))
		}
		r.Addr = &ad
		return r, true
	}
	if (a.Iter != nil) != (b.Iter != nil) || (a.Iter != nil && a.Iter.id != b.Iter.id) {
		return a, false
	}
	r := a
	r.C = make([]*Term, len(a.C))
	for i := range a.C {
		if a.C[i].Sort != b.C[i].Sort {
			return a, false
		}
		r.C[i] = Ite(g, a.C[i], b.C[i])
	}
	if a.Fn != b.Fn {
		r.Fn = nil
		if a.Fn != nil && b.Fn != nil && a.Fn.Fn == b.Fn.Fn && len(a.Fn.Bind) == 0 {
			r.Fn = a.Fn
		}
	}
	return r, true
}

func (x *Ex) mergeOutcomes(os []Outcome) []Outcome {
	// results travel through the env of a pseudo value
	if len(os) < 2 {
		return os
	}
	acc := os[0]
	for _, o := range os[1:] {
		a, b := acc.st, o.st
		ea, eb := map[ssa.Value]Val{}, map[ssa.Value]Val{}
		keys := make([]ssa.Value, len(acc.res))
		for i := range acc.res {
			keys[i] = &ssa.Const{}
			ea[keys[i]], eb[keys[i]] = acc.res[i], o.res[i]
		}
		a.env, b.env = ea, eb
		a.defers, b.defers = nil, nil
		m := x.merge2(a, b)
		var rs []Val
		for i := range keys {
			v, ok := m.env[keys[i]]
			if !ok {
				unsupported("merging call results")
			}
			rs = append(rs, v)
		}
		acc = Outcome{m, rs}
	}
	return []Outcome{acc}
}

func shortFn(f *ssa.Function) string {
	return fnKey(f)
}

// fnKey is the contract key of a function: pkg.Name or pkg.(*T).Name.
func fnKey(f *ssa.Function) string {
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Parent() != nil {
		return fnKey(f.Parent()) + strings.TrimPrefix(f.Name(), f.Parent().Name())
	}
	pkg := ""
	if f.Pkg != nil {
		pkg = pkgLabel(f.Pkg.Pkg)
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pkg = pkgLabel(f.Object().Pkg())
	}
	if recv := f.Signature.Recv(); recv != nil {
		t := recv.Type()
		star := ""
		if p, ok := t.(*types.Pointer); ok {
			star = "*"
			t = p.Elem()
		}
		n := types.TypeString(t, func(*types.Package) string { return "" })
		if i := strings.IndexByte(n, '['); i > 0 {
			n = n[:i]
		}
		if star != "" {
			return pkg + ".(*" + n + ")." + f.Name()
		}
		return pkg + ".(" + n + ")." + f.Name()
	}
	return pkg + "." + f.Name()
}

// pkgLabel: the last path element (the repository's packages are told apart by it).
func pkgLabel(p *types.Package) string {
	path := p.Path()
	if i := strings.LastIndexByte(path, '/'); i >= 0 {
		path = path[i+1:]
	}
	return path
}

// ---- loops

type loopInfo struct {
	rpo   []*ssa.BasicBlock
	body  map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> natural loop
	depth map[*ssa.BasicBlock]int
}

var loopCache = map[*ssa.Function]*loopInfo{}

func loopsOf(fn *ssa.Function) *loopInfo {
	if l, ok := loopCache[fn]; ok {
		return l
	}
	li := &loopInfo{body: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	seen := map[*ssa.BasicBlock]bool{}
	on := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	type be struct{ from, to *ssa.BasicBlock }
	var backs []be
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		on[b] = true
		for _, s := range b.Succs {
			if on[s] {
				backs = append(backs, be{b, s})
				continue
			}
			if !seen[s] {
				dfs(s)
			}
		}
		on[b] = false
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.rpo = append(li.rpo, post[i])
	}
	for _, e := range backs {
		if !e.to.Dominates(e.from) {
			continue // irreducible: reported at execution
		}
		m := li.body[e.to]
		if m == nil {
			m = map[*ssa.BasicBlock]bool{e.to: true}
			li.body[e.to] = m
		}
		var work []*ssa.BasicBlock
		if !m[e.from] {
			m[e.from] = true
			work = append(work, e.from)
		}
		for len(work) > 0 {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			for _, p := range b.Preds {
				if !m[p] && seen[p] {
					m[p] = true
					work = append(work, p)
				}
			}
		}
	}
	// order: a loop's blocks must come before the blocks after the loop; RPO by
	// DFS guarantees topological order of forward edges.
	loopCache[fn] = li
	return li
}

func headerPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

func (x *Ex) havocLoop(st *State, h *ssa.BasicBlock, w *recorder, mark int) *State {
	n := st.clone()
	for _, p := range headerPhis(h) {
		v := freshVal("phi:"+p.Comment+p.Name(), p.Type())
		old := st.env[p]
		if old.Addr != nil {
			unsupported("loop-carried interior pointer")
		}
		if _, ok := under(p.Type()).(*types.Signature); ok {
			v.Fn = nil
		}
		n.env[p] = v
	}
	allocPre := st.alloc
	n.alloc = Fresh("alloc", SInt)
	n.assume(Le(allocPre, n.alloc))
	for _, k := range w.keys() {
		ws := w.w[k]
		H := st.get(k, ws.sort)
		stable := []*Term{}
		isNew, all := false, ws.all
		var refs []*Term
		for r := range ws.refs {
			refs = append(refs, r)
		}
		sort.Slice(refs, func(i, j int) bool { return refs[i].ID < refs[j].ID })
		for _, r := range refs {
			switch {
			case r == allocMarker:
				isNew = true
			case stableTerm(r, mark, map[*Term]bool{}):
				stable = append(stable, r)
			case isAllocTerm(r):
				isNew = true
			default:
				all = true
			}
		}
		_, vs := splitArr(ws.sort)
		if !all && !isNew {
			for _, r := range stable {
				H = Store(H, r, Fresh("hv:"+k, vs))
			}
			n.heap[k] = H
			continue
		}
		N := Fresh("H~"+k, ws.sort)
		n.heap[k] = N
		if !all {
			r := BVar("r", SInt)
			cond := []*Term{oldRef(r, allocPre)}
			for _, s := range stable {
				cond = append(cond, Ne(r, s))
			}
			n.assume(Quant(true, []*Term{r}, Implies(And(cond...), Eq(Select(N, r), Select(H, r))), Select(N, r)))
		}
	}
	for _, p := range headerPhis(h) {
		x.facts(n, n.env[p])
	}
	return n
}

// stableTerm: built only from symbols that existed at loop entry.
func stableTerm(t *Term, mark int, seen map[*Term]bool) bool {
	if seen[t] {
		return true
	}
	seen[t] = true
	if t.Op == "sym" && t.ID > mark && !strings.HasPrefix(t.Name, "H:") && !strings.HasPrefix(t.Name, "&") {
		return false
	}
	for _, a := range t.Args {
		if !stableTerm(a, mark, seen) {
			return false
		}
	}
	return true
}

// isAllocTerm: a reference allocated inside the loop (alloc!k + c, c >= 1), or a part of one.
func isAllocTerm(t *Term) bool {
	if t.Op == "+" && len(t.Args) == 2 && t.Args[0].Op == "sym" && strings.HasPrefix(t.Args[0].Name, "alloc") && t.Args[1].Op == "int" && t.Args[1].Name[0] != '-' {
		return true
	}
	if t.Op == "ite" {
		return isAllocTerm(t.Args[1]) && isAllocTerm(t.Args[2])
	}
	if t.Op == "app" && strings.HasPrefix(t.Name, "sub:") {
		return isAllocTerm(t.Args[0])
	}
	return false
}

func termMark() int {
	termMu.Lock()
	defer termMu.Unlock()
	return termSeq
}

func (x *Ex) loop(fr *Frame, h *ssa.BasicBlock, st *State) []edgeState {
	body := fr.loops.body[h]
	mark := termMark()
	total := &recorder{w: map[string]*wset{}}
	// discover what the body writes
	x.dry++
	for iter := 0; ; iter++ {
		if iter > 6 {
			unsupported("loop write set does not stabilise")
		}
		rec := &recorder{w: map[string]*wset{}}
		x.recs = append(x.recs, rec)
		hs := x.havocLoop(st, h, total, mark)
		saved := fr.rets
		nc := len(x.cands)
		x.region(fr, h, []*State{hs}, body, h)
		fr.rets = saved
		x.cands = x.cands[:nc]
		x.recs = x.recs[:len(x.recs)-1]
		grown := false
		for k, w := range rec.w {
			t := total.w[k]
			if t == nil {
				t = &wset{sort: w.sort, refs: map[*Term]bool{}}
				total.w[k] = t
				grown = true
			}
			if w.all && !t.all {
				t.all = true
				grown = true
			}
			for r := range w.refs {
				if !stableTerm(r, mark, map[*Term]bool{}) {
					// classify instead of accumulating iteration-local names
					if isAllocTerm(r) {
						if !t.refs[allocMarker] {
							t.refs[allocMarker] = true
							grown = true
						}
						continue
					}
					if !t.all {
						t.all = true
						grown = true
					}
					continue
				}
				if !t.refs[r] {
					t.refs[r] = true
					grown = true
				}
			}
		}
		if !grown {
			break
		}
	}
	x.dry--
	for _, r := range x.recs {
		for k, w := range total.w {
			for ref := range w.refs {
				r.note(k, w.sort, ref)
			}
			if w.all {
				r.note(k, w.sort, nil)
			}
		}
	}
	hs := x.havocLoop(st, h, total, mark)
	x.loopN++
	lid := x.loopN
	lc := &loopCtx{x: x, fr: fr, h: h, body: body, entry: st, head: hs, id: lid, writes: total, mark: mark}
	var cs []*candInst
	if x.dry == 0 {
		cs = lc.candidates()
		for _, c := range cs {
			goal := c.eval(st)
			if goal == nil {
				continue
			}
			hv := c.eval(hs)
			if hv == nil || hv == TTrue {
				continue
			}
			c.cand = &Cand{ID: len(x.cands) + 1, Loop: lid, Desc: c.desc, Alive: true, Firm: c.firm, Most: c.most}
			c.cand.Act = Sym(fmt.Sprintf("cand!%s!%d", x.fnKey, c.cand.ID), SBool)
			x.cands = append(x.cands, c.cand)
			x.obs = append(x.obs, &Oblig{Fn: x.fnKey, Kind: "loop-init", Desc: c.desc, Pos: x.pos(firstPos(h)), PC: st.pc, Goal: goal, Cand: c.cand})
			hs.assume(Implies(c.cand.Act, hv))
		}
	}
	// measures at the head
	var ms []measureInst
	if x.dry == 0 && !(x.con != nil && x.con.NoTerm) {
		ms = lc.measures(hs)
	}
	start := hs.clone()
	exits, backs := x.region(fr, h, []*State{start}, body, h)
	if x.dry == 0 {
		for _, b := range backs {
			if b.dead() {
				continue
			}
			for _, c := range cs {
				if c.cand == nil {
					continue
				}
				goal := c.eval(b)
				if goal == nil {
					goal = TFalse
				}
				if goal == TTrue {
					continue
				}
				x.obs = append(x.obs, &Oblig{Fn: x.fnKey, Kind: "loop-pres", Desc: c.desc, Pos: x.pos(firstPos(h)), PC: b.pc, Goal: goal, Cand: c.cand})
			}
			if !(x.con != nil && x.con.NoTerm) {
				var alts []*Term
				for _, m := range ms {
					v := m.eval(b)
					if v == nil || m.v == nil {
						alts = append(alts, TFalse)
						continue
					}
					alts = append(alts, And(Lt(v, m.v), Le(I(0), m.v)))
				}
				if _, isRange := lc.mapRange(); isRange {
					continue // iteration over a map is finite
				}
				x.obs = append(x.obs, &Oblig{Fn: x.fnKey, Kind: "terminates", Desc: fmt.Sprintf("loop %d in %s makes progress", lc.ordinal(), shortFn(fr.fn)), Pos: x.pos(firstPos(h)), PC: b.pc, Goal: TFalse, Alts: alts, LoopID: lid})
			}
		}
	}
	return exits
}

// oldRef: the object r (or the object r is part of) existed when alloc was the
// allocation counter.
func oldRef(r, alloc *Term) *Term {
	return And(Le(r, alloc), Le(rootOf(r), alloc))
}

func rootOf(r *Term) *Term { return App("root", SInt, r) }

var allocMarker = Add(Sym("alloc!marker", SInt), I(1))

func firstPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

var debug = os.Getenv("VDBG") != ""
