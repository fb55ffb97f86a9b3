package main

// Axioms added to each query: part-of-object references, byte strings, the
// definitions of recursive specification functions, ensures of pure functions
// and the axioms of the contract files.

import (
	"sort"
	"strings"
	"sync"
)

var axiomMu sync.Mutex
var axiomEx *Ex // specs and program of this run
var recFuel = 2
var useAxioms []*Term

func subTerms(ts []*Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		f(t)
		for _, a := range t.Args {
			w(a)
		}
		for _, a := range t.Pats {
			w(a)
		}
	}
	for _, t := range ts {
		w(t)
	}
}

func axiomsFor(asserts []*Term) []*Term {
	axiomMu.Lock()
	defer axiomMu.Unlock()
	var out []*Term
	done := map[*Term]bool{}
	all := append([]*Term{}, asserts...)
	frontier := all
	fuel := map[*Term]int{}
	rounds := recFuel + 1
	subs := map[string]bool{}
	axDone := map[string]bool{}
	for round := 0; round < rounds; round++ {
		var apps, open []*Term // applications with closed arguments, and those below a quantifier
		subTerms(frontier, func(t *Term) {
			if t.Op != "app" {
				return
			}
			if strings.HasPrefix(t.Name, "sub:") {
				subs[t.Name] = true
			}
			if t.Bound && strings.HasPrefix(t.Name, "rec:") && !done[t] && round < recFuel && !recDefs[t.Name].m.Opaque {
				done[t] = true
				open = append(open, t)
			}
			if t.Bound || done[t] {
				return
			}
			apps = append(apps, t)
		})
		sort.Slice(apps, func(i, j int) bool { return apps[i].ID < apps[j].ID })
		var added []*Term
		add := func(t *Term) {
			if t == TTrue {
				return
			}
			added = append(added, t)
		}
		sort.Slice(open, func(i, j int) bool { return open[i].ID < open[j].ID })
		for _, t := range open {
			if q := openRec(axiomEx, t); q != nil && !done[q] {
				done[q] = true
				add(q)
			}
		}
		for _, t := range apps {
			switch {
			case strings.HasPrefix(t.Name, "rec:"):
				if round >= recFuel {
					continue
				}
				done[t] = true
				if recDefs[t.Name].m.Opaque {
					continue
				}
				fuel[t] = round
				add(unfoldRec(axiomEx, t))
			case strings.HasPrefix(t.Name, "fn:"):
				done[t] = true
				for _, e := range pureEnsures(t) {
					add(e)
				}
			case t.Name == "bytes2str":
				done[t] = true
				row, off, n := t.Args[0], t.Args[1], t.Args[2]
				add(Implies(Le(I(0), n), Eq(SLen(t), n)))
				j := BVar("j", SInt)
				at := mk("sat", "", SInt, t, j)
				add(Quant(true, []*Term{j}, Implies(And(Le(I(0), j), Lt(j, n)), Eq(at, Select(row, Add(off, j)))), at))
			case t.Name == "str2bytes":
				done[t] = true
				j := BVar("j", SInt)
				at := Select(t, j)
				s := t.Args[0]
				add(Quant(true, []*Term{j}, Implies(And(Le(I(0), j), Lt(j, SLen(s))), Eq(at, SAt(s, j))), at))
			case t.Name == "rune2str":
				done[t] = true
				c := t.Args[0]
				add(Implies(And(Le(I(0), c), Lt(c, I(128))), And(Eq(SLen(t), I(1)), Eq(mk("sat", "", SInt, t, I(0)), c))))
				add(And(Le(I(1), SLen(t)), Le(SLen(t), I(4))))
			case t.Name == "runecount":
				done[t] = true
				add(And(Le(I(0), t), Le(t, SLen(t.Args[0])), Implies(Lt(I(0), SLen(t.Args[0])), Lt(I(0), t))))
			}
		}
		// axioms of the contract files that mention a used symbol
		if axiomEx != nil {
			names := map[string]bool{}
			subTerms(frontier, func(t *Term) {
				if t.Op == "app" {
					names[t.Name] = true
				}
			})
			for _, a := range axiomTerms() {
				if axDone[a.name] {
					continue
				}
				for _, n := range a.syms {
					if names[n] {
						axDone[a.name] = true
						add(a.t)
						break
					}
				}
			}
		}
		if len(added) == 0 {
			break
		}
		out = append(out, added...)
		frontier = added
	}
	subTerms(out, func(t *Term) {
		if t.Op == "app" && strings.HasPrefix(t.Name, "sub:") {
			subs[t.Name] = true
		}
	})
	var ns []string
	for n := range subs {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		r := BVar("r", SInt)
		t := App(n, SInt, r)
		k := typeTagStr("kind:" + n)
		out = append(out, Quant(true, []*Term{r}, And(Lt(t, I(0)), Eq(App("un"+n, SInt, t), r), Eq(App("subkind", SInt, t), k), Eq(rootOf(t), rootOf(r))), t))
	}
	hasRoot := len(ns) > 0
	subTerms(asserts, func(t *Term) {
		if t.Op == "app" && t.Name == "root" {
			hasRoot = true
		}
	})
	if hasRoot {
		r := BVar("r", SInt)
		out = append(out, Quant(true, []*Term{r}, And(Implies(Le(I(0), r), Eq(rootOf(r), r)), Le(I(0), rootOf(r))), rootOf(r)))
	}
	return out
}

// openRec is the definitional equation of an application below a quantifier, when
// each of its arguments is a bound variable or closed.
func openRec(x *Ex, t *Term) *Term {
	var vars []*Term
	has := map[*Term]bool{}
	for _, a := range t.Args {
		if !a.Bound {
			continue
		}
		if a.Op != "bvar" {
			return nil
		}
		if !has[a] {
			has[a] = true
			vars = append(vars, a)
		}
	}
	return Quant(true, vars, unfoldRec(x, t), t)
}

func typeTagStr(k string) *Term {
	n, ok := tagOf[k]
	if !ok {
		n = int64(len(tagOf) + 1)
		tagOf[k] = n
	}
	return I(n)
}

// pureEnsures instantiates the postconditions of a pure function at a ground application.
var pureMemo = map[string][]*Term{}

func pureEnsures(t *Term) []*Term {
	// fn:KEY:i:j
	parts := strings.Split(t.Name, ":")
	key := strings.Join(parts[1:len(parts)-2], ":")
	if axiomEx == nil {
		return nil
	}
	con := axiomEx.specs.Contracts[key]
	if con == nil || len(con.Reads) > 0 {
		return nil
	}
	sig := axiomEx.prog.sigOf(key)
	if sig == nil {
		return nil
	}
	var out []*Term
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(unsup); ok {
					return
				}
				panic(r)
			}
		}()
		names := map[string]Val{}
		n := 0
		var vals []Val
		if sig.Recv() != nil {
			k := len(leaves(sig.Recv().Type()))
			vals = append(vals, Val{T: sig.Recv().Type(), C: t.Args[n : n+k]})
			n += k
		}
		for i := 0; i < sig.Params().Len(); i++ {
			T := sig.Params().At(i).Type()
			k := len(leaves(T))
			vals = append(vals, Val{T: T, C: t.Args[n : n+k]})
			n += k
		}
		for i, p := range con.Params {
			names[p] = vals[i]
		}
		rn := resultNames(con, sig.Results().Len())
		for i := 0; i < sig.Results().Len(); i++ {
			T := sig.Results().At(i).Type()
			v := Val{T: T}
			for j, l := range leaves(T) {
				v.C = append(v.C, pureApp(key, i, j, l.sort, t.Args))
			}
			names[rn[i]] = v
		}
		st := &State{heap: map[string]*Term{}, epoch: "pure", alloc: Sym("purealloc", SInt)}
		ctx := &Ctx{x: axiomEx, st: st, old: st, names: names, where: con.File}
		var pre []*Term
		for _, r := range con.Requires {
			pre = append(pre, ctx.boolean(r.Expr))
		}
		for _, e := range con.Ensures {
			if e.active(axiomEx.prop) {
				out = append(out, Implies(And(pre...), ctx.boolean(e.Expr)))
			}
		}
	}()
	return out
}

type axTerm struct {
	name string
	t    *Term
	syms []string
}

var axTerms []axTerm
var axBuilt bool

func axiomTerms() []axTerm {
	if axBuilt {
		return axTerms
	}
	axBuilt = true
	for _, a := range axiomEx.specs.Axioms {
		st := &State{heap: map[string]*Term{}, epoch: "ax", alloc: Sym("axalloc", SInt)}
		ctx := &Ctx{x: axiomEx, st: st, old: st, names: map[string]Val{}, where: a.Name}
		t := ctx.boolean(a.Expr)
		at := axTerm{name: a.Name, t: t}
		subTerms([]*Term{t}, func(s *Term) {
			if s.Op == "app" {
				at.syms = append(at.syms, s.Name)
			}
		})
		axTerms = append(axTerms, at)
	}
	return axTerms
}
