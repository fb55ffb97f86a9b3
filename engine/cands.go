package main

// Candidate loop invariants (Houdini): templates from the contracts with
// metavariables over the SSA values live at the loop head, plus generic ones.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopCtx struct {
	x      *Ex
	fr     *Frame
	h      *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	entry  *State
	head   *State
	id     int
	writes *recorder
	mark   int
}

type candInst struct {
	desc string
	firm bool
	most bool
	ev   func(st *State) *Term
	cand *Cand
}

func (c *candInst) eval(st *State) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsup); ok {
				if debug && !strings.Contains(fmt.Sprint(r), "undefined SSA") {
					fmt.Printf("    candidate %s not applicable: %v\n", c.desc, r)
				}
				t = nil
				return
			}
			panic(r)
		}
	}()
	return c.ev(st)
}

type measureInst struct {
	desc string
	ev   func(st *State) *Term
	v    *Term
}

func (m measureInst) eval(st *State) (t *Term) {
	c := candInst{desc: m.desc, ev: m.ev}
	return c.eval(st)
}

func (lc *loopCtx) ordinal() int {
	n := 0
	for _, b := range lc.fr.loops.rpo {
		if lc.fr.loops.body[b] != nil {
			n++
			if b == lc.h {
				return n
			}
		}
	}
	return n
}

func (lc *loopCtx) mapRange() (*ssa.Next, bool) {
	for b := range lc.body {
		for _, in := range b.Instrs {
			if n, ok := in.(*ssa.Next); ok && !n.IsString {
				if v, ok := lc.head.env[n.Iter]; ok && v.Iter != nil {
					// the range of this loop (not of an inner one): Next in the header
					if b == lc.h {
						return n, true
					}
				}
			}
		}
	}
	return nil, false
}

// liveValues: header phis, then values defined outside the loop and used inside.
func (lc *loopCtx) liveValues() []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	for _, p := range headerPhis(lc.h) {
		out = append(out, p)
		seen[p] = true
	}
	add := func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		if _, ok := lc.head.env[v]; !ok {
			return
		}
		seen[v] = true
		out = append(out, v)
	}
	for _, p := range lc.fr.fn.Params {
		add(p)
	}
	for _, p := range lc.fr.fn.FreeVars {
		add(p)
	}
	for _, b := range lc.fr.loops.rpo {
		if !lc.body[b] {
			continue
		}
		for _, in := range b.Instrs {
			var ops []*ssa.Value
			ops = in.Operands(ops)
			for _, o := range ops {
				if o != nil && *o != nil {
					add(*o)
				}
			}
		}
	}
	// values defined before the loop that are used after it
	for _, b := range lc.fr.loops.rpo {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok {
				add(a)
			}
		}
	}
	return out
}

type binding struct {
	names []string
	desc  []string
	ev    []func(st *State) Val
}

func (lc *loopCtx) bindings(meta []SVar, ctxWhere string) []binding {
	out := []binding{{}}
	for _, m := range meta {
		var next []binding
		opts := lc.options(m.Type)
		for _, b := range out {
			for _, o := range opts {
				nb := binding{append(append([]string{}, b.names...), m.Name), append(append([]string{}, b.desc...), m.Name+"="+o.desc), append(append([]func(*State) Val{}, b.ev...), o.ev)}
				next = append(next, nb)
			}
		}
		out = next
		if len(out) > 300 {
			out = out[:300]
		}
	}
	return out
}

type option struct {
	desc string
	ev   func(st *State) Val
}

func envVal(v ssa.Value) func(st *State) Val {
	return func(st *State) Val {
		r, ok := st.env[v]
		if !ok {
			unsupported("undefined SSA value %s", v.Name())
		}
		if r.T == nil {
			r.T = v.Type()
		}
		return r
	}
}

func vname(v ssa.Value) string {
	if p, ok := v.(*ssa.Phi); ok && p.Comment != "" {
		return p.Comment
	}
	return v.Name()
}

// options lists the values a placeholder of a kind may stand for, under names that tell them apart.
func (lc *loopCtx) options(T string) []option {
	out := lc.allOptions(T)
	n := map[string]int{}
	for i := range out {
		d := out[i].desc
		n[d]++
		if n[d] > 1 {
			out[i].desc += strings.Repeat("'", n[d]-1)
		}
	}
	return out
}

func (lc *loopCtx) allOptions(T string) []option {
	var out []option
	switch T {
	case "count":
		for _, p := range headerPhis(lc.h) {
			if isIntT(p.Type()) {
				f := envVal(p)
				out = append(out, option{vname(p), f})
				out = append(out, option{vname(p) + "+1", func(st *State) Val { return vInt(Add(f(st).C[0], I(1))) }})
			}
		}
		return out
	case "phi":
		for _, p := range headerPhis(lc.h) {
			if isIntT(p.Type()) {
				out = append(out, option{vname(p), envVal(p)})
			}
		}
		return out
	case "intval":
		for _, v := range lc.liveValues() {
			if isIntT(v.Type()) {
				out = append(out, option{vname(v), envVal(v)})
			}
		}
		return out
	case "strval":
		for _, v := range lc.liveValues() {
			if isString(v.Type()) {
				out = append(out, option{vname(v), envVal(v)})
			}
		}
		return out
	case "iter":
		for _, v := range sortedEnv(lc.head.env) {
			w := lc.head.env[v]
			if w.Iter != nil {
				out = append(out, option{v.Name(), envVal(v)})
			}
		}
		return out
	case "mapiter":
		if n, ok := lc.mapRange(); ok {
			out = append(out, option{n.Iter.Name(), envVal(n.Iter)})
			return out
		}
		for _, v := range sortedEnv(lc.head.env) { // those of the loops around
			if w := lc.head.env[v]; w.Iter != nil && w.Iter.x.T != nil {
				if _, ok := under(w.Iter.x.T).(*types.Map); ok {
					out = append(out, option{v.Name(), envVal(v)})
				}
			}
		}
		return out
	}
	if strings.HasPrefix(T, "phi ") { // a variable of this type that the loop itself changes
		if want := lc.x.prog.parseType(T[4:]); want != nil {
			for _, p := range headerPhis(lc.h) {
				if types.Identical(p.Type(), want) {
					out = append(out, option{vname(p), envVal(p)})
				}
			}
		}
		return out
	}
	want := lc.x.prog.parseType(T)
	if want == nil {
		return nil
	}
	for _, v := range lc.liveValues() {
		if w, ok := lc.head.env[v]; ok && w.Addr == nil && types.Identical(v.Type(), want) {
			out = append(out, option{vname(v), envVal(v)})
		}
	}
	return out
}

func (lc *loopCtx) candidates() []*candInst {
	var out []*candInst
	seen := map[string]bool{}
	firm, most := false, false
	add := func(desc string, ev func(st *State) *Term) {
		if seen[desc] {
			return
		}
		seen[desc] = true
		out = append(out, &candInst{desc: desc, ev: ev, firm: firm, most: most})
	}
	x := lc.x
	fromContract := func(con *Contract, names map[string]Val, entry *State, withReq bool) {
		clauses := con.Invs
		for _, cl := range clauses {
			if !cl.active(x.prop) {
				continue
			}
			cl := cl
			for _, b := range lc.bindings(cl.Meta, con.File) {
				b := b
				d := cl.Src
				firm = len(b.desc) == 0 || cl.Firm
				most = cl.Firm
				if len(b.desc) > 0 {
					d += " {" + strings.Join(b.desc, ", ") + "}"
				}
				add(d, func(st *State) *Term {
					nm := map[string]Val{}
					for k, v := range names {
						nm[k] = v
					}
					for i, n := range b.names {
						nm[n] = b.ev[i](st)
					}
					ctx := &Ctx{x: x, st: st, old: entry, ent: lc.entry, names: nm, where: con.File}
					return ctx.boolean(cl.Expr)
				})
			}
		}
		firm, most = false, false
		if withReq {
			for _, cl := range con.Requires {
				if !cl.active(x.prop) {
					continue
				}
				for _, e := range conjuncts(cl.Expr) {
					e := e
					add(cl.Src+" <"+exprKey(e)+">", func(st *State) *Term {
						ctx := &Ctx{x: x, st: st, old: entry, names: names, where: con.File}
						return ctx.boolean(e)
					})
				}
			}
		}
	}
	var ms *modSet
	if x.con != nil {
		fromContract(x.con, x.names, x.entry, true)
		for _, d := range x.con.Decr {
			if len(d.Meta) > 0 {
				continue
			}
			d := d
			ictx := &Ctx{x: x, st: lc.entry, old: x.entry, names: x.names, where: x.con.File}
			m0 := ictx.term(d.Expr)
			add(d.Src+" is no larger than at loop entry", func(st *State) *Term {
				ctx := &Ctx{x: x, st: st, old: x.entry, names: x.names, where: x.con.File}
				return Le(ctx.term(d.Expr), m0)
			})
		}
		ectx := &Ctx{x: x, st: x.entry, old: x.entry, names: x.names, where: x.con.File}
		ms = x.modifies(x.con, ectx)
		for _, e := range ownedSlices(x.con) {
			e := e
			add(exprKey(e)+" keeps its array or gets a fresh one", func(st *State) *Term {
				return ownedNow(&Ctx{x: x, st: st, old: x.entry, names: x.names, where: x.con.File}, e)
			})
		}
	}
	if lc.fr.con != nil && lc.fr.con != x.con && lc.fr.names != nil {
		fromContract(lc.fr.con, lc.fr.names, lc.fr.entry, false)
	}
	// generic integer candidates
	var ints []*ssa.Phi
	for _, p := range headerPhis(lc.h) {
		p := p
		if isIntT(p.Type()) {
			ints = append(ints, p)
			init := lc.entry.env[p].C[0]
			add(fmt.Sprintf("%s >= initial", vname(p)), func(st *State) *Term { return Le(init, st.env[p].C[0]) })
			add(fmt.Sprintf("%s <= initial", vname(p)), func(st *State) *Term { return Le(st.env[p].C[0], init) })
			if _, c := init.IsInt(); !c {
				add(fmt.Sprintf("%s >= 0", vname(p)), func(st *State) *Term { return Le(I(0), st.env[p].C[0]) })
			}
		}
		if _, ok := under(p.Type()).(*types.Slice); ok {
			pre := lc.entry.alloc
			add(fmt.Sprintf("%s owns its array", vname(p)), func(st *State) *Term {
				v := st.env[p]
				return Or(Lt(pre, v.C[0]), Eq(v.C[3], I(0)))
			})
			add(fmt.Sprintf("%s is allocated since entry", vname(p)), func(st *State) *Term {
				v := st.env[p]
				return Or(Lt(x.entry.alloc, v.C[0]), Eq(v.C[3], I(0)))
			})
			add(fmt.Sprintf("%s offset 0", vname(p)), func(st *State) *Term { return Eq(st.env[p].C[1], I(0)) })
		}
		if _, ok := under(p.Type()).(*types.Pointer); ok {
			add(fmt.Sprintf("%s non-nil", vname(p)), func(st *State) *Term { return Ne(st.env[p].C[0], I(0)) })
		}
	}
	for i, p := range ints {
		for j, q := range ints {
			if i != j {
				p, q := p, q
				add(fmt.Sprintf("%s <= %s", vname(p), vname(q)), func(st *State) *Term { return Le(st.env[p].C[0], st.env[q].C[0]) })
			}
		}
	}
	for _, cmp := range lc.comparisons() {
		cmp := cmp
		add(fmt.Sprintf("%s+%d <= bound", vname(cmp.phi), cmp.c), func(st *State) *Term {
			return lc.under(st, st.env[cmp.phi].C[0], cmp.c, cmp.bound)
		})
		add(fmt.Sprintf("%s+%d <= bound'", vname(cmp.phi), cmp.c-1), func(st *State) *Term {
			return lc.under(st, st.env[cmp.phi].C[0], cmp.c-1, cmp.bound)
		})
		add(fmt.Sprintf("%s+%d >= bound", vname(cmp.phi), cmp.c), func(st *State) *Term {
			return Le(lc.pure(st, cmp.bound), Add(st.env[cmp.phi].C[0], I(cmp.c)))
		})
	}
	// old objects keep their contents in components written through fresh objects only
	for _, k := range lc.writes.keys() {
		w := lc.writes.w[k]
		k := k
		if strings.HasPrefix(k, "iter") || strings.HasPrefix(k, "ghost:") {
			continue
		}
		H := lc.entry.get(k, w.sort)
		pre := lc.entry.alloc
		if w.all {
			add("frame: objects older than the loop keep "+k, func(st *State) *Term {
				r := BVar("r", SInt)
				N := st.get(k, w.sort)
				if N == H {
					return TTrue
				}
				return Quant(true, []*Term{r}, Implies(oldRef(r, pre), Eq(Select(N, r), Select(H, r))), Select(N, r))
			})
			E := x.entry.get(k, w.sort)
			var except []*Term
			if ms != nil && !ms.all {
				for _, l := range append(append([]loc{}, ms.locs...), ms.rows...) {
					if l.key == k {
						except = append(except, l.idx[0])
					}
				}
			}
			if len(except) > 0 {
				ea := x.entry.alloc
				add("frame: objects older than the call that may not be modified keep "+k, func(st *State) *Term {
					r := BVar("r", SInt)
					N := st.get(k, w.sort)
					if N == E {
						return TTrue
					}
					cond := []*Term{oldRef(r, ea)}
					for _, e := range except {
						cond = append(cond, Ne(r, e))
					}
					return Quant(true, []*Term{r}, Implies(And(cond...), Eq(Select(N, r), Select(E, r))), Select(N, r))
				})
			}
			if E != H {
				ea := x.entry.alloc
				add("frame: objects older than the call keep "+k, func(st *State) *Term {
					r := BVar("r", SInt)
					N := st.get(k, w.sort)
					if N == E {
						return TTrue
					}
					return Quant(true, []*Term{r}, Implies(oldRef(r, ea), Eq(Select(N, r), Select(E, r))), Select(N, r))
				})
			}
		}
	}
	return out
}

// under says that n + c is at most the bound; that a length read inside the loop is not negative is
// known where it is read, and assumed here.
func (lc *loopCtx) under(st *State, n *Term, c int64, bound ssa.Value) *Term {
	b := lc.pure(st, bound)
	le := Le(Add(n, I(c)), b)
	if k, ok := bound.(*ssa.Call); ok && lc.body[k.Block()] {
		if f, ok := k.Call.Value.(*ssa.Builtin); ok && f.Name() == "len" {
			return Implies(Le(I(0), b), le)
		}
	}
	return le
}

type comparison struct {
	phi   *ssa.Phi
	c     int64
	bound ssa.Value
	op    token.Token
}

// comparisons finds  phi + c  <op>  bound  tests inside the loop.
func (lc *loopCtx) comparisons() []comparison {
	var out []comparison
	for _, b := range lc.fr.loops.rpo {
		if !lc.body[b] {
			continue
		}
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
			default:
				continue
			}
			if !isIntT(bo.X.Type()) {
				continue
			}
			if p, c, ok := lc.phiPlus(bo.X); ok {
				out = append(out, comparison{p, c, bo.Y, bo.Op})
			}
			if p, c, ok := lc.phiPlus(bo.Y); ok {
				out = append(out, comparison{p, c, bo.X, bo.Op})
			}
		}
	}
	return out
}

func (lc *loopCtx) phiPlus(v ssa.Value) (*ssa.Phi, int64, bool) {
	c := int64(0)
	for d := 0; d < 4; d++ {
		switch w := v.(type) {
		case *ssa.Phi:
			if w.Block() == lc.h {
				return w, c, true
			}
			return nil, 0, false
		case *ssa.BinOp:
			k, ok := w.Y.(*ssa.Const)
			if !ok || k.Value == nil {
				return nil, 0, false
			}
			if w.Op == token.ADD {
				c += k.Int64()
			} else if w.Op == token.SUB {
				c -= k.Int64()
			} else {
				return nil, 0, false
			}
			v = w.X
		default:
			return nil, 0, false
		}
	}
	return nil, 0, false
}

// pure evaluates a side-effect free value in the given state.
func (lc *loopCtx) pure(st *State, v ssa.Value) *Term {
	t := st.clone()
	lc.x.dry++
	defer func() { lc.x.dry-- }()
	lc.pureInto(t, v, 0)
	return lc.x.val(t, v).C[0]
}

func (lc *loopCtx) pureInto(st *State, v ssa.Value, d int) {
	if d > 12 {
		unsupported("undefined SSA (deep)")
	}
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return
	}
	in, ok := v.(ssa.Instruction)
	if !ok || in.Block() == nil || !lc.body[in.Block()] || in.Parent() != lc.fr.fn {
		return // defined outside the loop
	}
	if p, ok := v.(*ssa.Phi); ok {
		if p.Block() == lc.h {
			return
		}
		unsupported("undefined SSA (inner phi)")
	}
	var ops []*ssa.Value
	for _, o := range in.Operands(ops) {
		if o != nil && *o != nil {
			lc.pureInto(st, *o, d+1)
		}
	}
	switch w := in.(type) {
	case *ssa.UnOp, *ssa.BinOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Field, *ssa.Convert, *ssa.ChangeType, *ssa.Extract, *ssa.TypeAssert:
		lc.x.instr(lc.fr, st, in)
	case *ssa.Call:
		b, ok := w.Call.Value.(*ssa.Builtin)
		if !ok || (b.Name() != "len" && b.Name() != "cap") {
			unsupported("undefined SSA (call)")
		}
		var args []Val
		for _, a := range w.Call.Args {
			args = append(args, lc.x.val(st, a))
		}
		o := lc.x.builtin(st, b, &w.Call, args, w.Pos())
		st.env[w] = o[0].res[0]
	default:
		unsupported("undefined SSA (%T)", in)
	}
}

func (lc *loopCtx) measures(hs *State) []measureInst {
	var out []measureInst
	x := lc.x
	add := func(desc string, ev func(st *State) *Term) {
		m := measureInst{desc: desc, ev: ev}
		m.v = m.eval(hs)
		if m.v != nil {
			out = append(out, m)
		}
	}
	for _, cmp := range lc.comparisons() {
		cmp := cmp
		add("bound - phi", func(st *State) *Term {
			return Sub(lc.pure(st, cmp.bound), st.env[cmp.phi].C[0])
		})
		add("phi - bound", func(st *State) *Term {
			return Sub(st.env[cmp.phi].C[0], lc.pure(st, cmp.bound))
		})
	}
	// difference of two compared phis (binary search)
	ph := headerPhis(lc.h)
	for _, p := range ph {
		for _, q := range ph {
			if p != q && isIntT(p.Type()) && isIntT(q.Type()) {
				p, q := p, q
				add("phi - phi", func(st *State) *Term { return Sub(st.env[p].C[0], st.env[q].C[0]) })
			}
		}
	}
	for _, v := range sortedEnv(lc.head.env) {
		w := lc.head.env[v]
		if w.Iter != nil && w.Iter.str {
			v := v
			add("string range", func(st *State) *Term {
				it := st.env[v].Iter
				if it == nil {
					unsupported("undefined SSA iterator")
				}
				return Sub(SLen(it.x.C[0]), st.read(loc{"iter.pos", []*Term{it.id}, SInt, nil}))
			})
		}
	}
	fromCon := func(con *Contract, names map[string]Val, entry *State) {
		for _, d := range con.Decr {
			d := d
			for _, b := range lc.bindings(d.Meta, con.File) {
				b := b
				add(d.Src, func(st *State) *Term {
					nm := map[string]Val{}
					for k, v := range names {
						nm[k] = v
					}
					for i, n := range b.names {
						nm[n] = b.ev[i](st)
					}
					ctx := &Ctx{x: x, st: st, old: entry, names: nm, where: con.File}
					return ctx.term(d.Expr)
				})
			}
		}
	}
	if x.con != nil {
		fromCon(x.con, x.names, x.entry)
	}
	if lc.fr.con != nil && lc.fr.con != x.con && lc.fr.names != nil {
		fromCon(lc.fr.con, lc.fr.names, lc.fr.entry)
	}
	return out
}

func sortedEnv(e map[ssa.Value]Val) []ssa.Value {
	var out []ssa.Value
	for k := range e {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].Name() != out[j].Name() {
			return out[i].Name() < out[j].Name()
		}
		return out[i].Pos() < out[j].Pos()
	})
	return out
}

func conjuncts(e *SExpr) []*SExpr {
	if e.Kind == "bin" && e.Name == "&&" {
		return append(conjuncts(e.Args[0]), conjuncts(e.Args[1])...)
	}
	return []*SExpr{e}
}
