package main

import (
	"os"
	"strings"
	"time"
)

// Goals about composed texts. Texts are concatenations in normal form, and what a
// generator writes is a long one whose parts depend on branches and loops. The
// solvers do not reason about associativity well, so such a goal is first split
// on the conditions its parts depend on, and equated texts are replaced by each
// other, until both sides are the same concatenation; arithmetic that is left (a
// branch that cannot be taken, the end of a loop) goes to the solvers.

type textProver struct {
	until  time.Time
	leaves int
	calls  int
	solver string
}

func textual(t *Term) bool {
	seen := map[*Term]bool{}
	var w func(t *Term) bool
	w = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.Op == "scat" {
			return true
		}
		for _, a := range t.Args {
			if a.Sort == SStr && w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

func isTextGoal(g *Term) bool {
	switch g.Op {
	case "=":
		return g.Args[0].Sort == SStr && (textual(g.Args[0]) || textual(g.Args[1]))
	case "scontains", "sprefix":
		return true
	}
	return false
}

// refuteText tries to prove the negated goal at the end of the assertions.
func refuteText(asserts []*Term) (solverRes, bool) {
	if len(asserts) == 0 || os.Getenv("VNOTEXT") != "" {
		return solverRes{}, false
	}
	g := asserts[len(asserts)-1]
	if g.Op != "not" {
		return solverRes{}, false
	}
	g = g.Args[0]
	hyps := append([]*Term{}, asserts[:len(asserts)-1]...)
	for g.Op == "=>" {
		hyps = append(hyps, g.Args[0])
		g = g.Args[1]
	}
	if !isTextGoal(g) {
		return solverRes{}, false
	}
	t0 := time.Now()
	p := &textProver{until: t0.Add(8 * time.Second * time.Duration(slower)), leaves: 160, solver: "simplifier"}
	if !p.prove(hyps, g, 0, 0, nil) {
		return solverRes{}, false
	}
	return solverRes{status: "unsat", solver: "text+" + p.solver, dur: time.Since(t0)}, true
}

// simplify flattens the hypotheses, uses the atoms among them in the others, and
// replaces texts by what they are equated with; nil means the hypotheses contradict.
func (p *textProver) simplify(hyps []*Term, g *Term) ([]*Term, *Term, bool) {
	used := map[*Term]bool{}
	for n := 0; n < 60; n++ {
		var flat []*Term
		has := map[*Term]bool{}
		var add func(t *Term)
		add = func(t *Term) {
			if t.Op == "and" {
				for _, a := range t.Args {
					add(a)
				}
				return
			}
			if t != TTrue && !has[t] {
				has[t] = true
				flat = append(flat, t)
			}
		}
		for _, h := range hyps {
			add(h)
		}
		if has[TFalse] {
			return nil, nil, true
		}
		hyps = flat
		m := map[*Term]*Term{}
		for _, h := range hyps {
			if used[h] {
				continue
			}
			switch h.Op {
			case "=>", "or", "forall", "exists", "ite":
				continue
			case "=":
				if h.Args[0].Sort == SStr || h.Args[0].Sort == SInt && h.Args[0].Op == "sym" && h.Args[1].Op == "sym" {
					continue
				}
			}
			used[h] = true
			if h.Op == "not" {
				switch h.Args[0].Op {
				case "=>", "or", "forall", "exists", "ite", "and":
					continue
				}
				m[h.Args[0]] = TFalse
			} else {
				m[h] = TTrue
			}
		}
		if len(m) > 0 {
			memo := map[*Term]*Term{}
			ch := false
			for i, h := range hyps {
				if _, own := m[h]; own || h.Op == "not" && m[h.Args[0]] != nil {
					continue
				}
				if x := Subst(h, m, memo); x != h {
					hyps[i], ch = x, true
				}
			}
			if x := Subst(g, m, memo); x != g {
				g, ch = x, true
			}
			if ch {
				continue
			}
		}
		for i, h := range hyps {
			if h.Op == "=" && h.Args[0].Sort == SStr && h.Args[0].Op == "scat" && h.Args[1].Op == "scat" {
				hyps[i] = cancelEnds(h)
			}
		}
		var from, to *Term
		at := -1
		for i, h := range hyps {
			if h.Op == "=" && h.Args[0].Sort == SInt {
				for k := 0; k < 2 && from == nil; k++ {
					if l, r := h.Args[k], h.Args[1-k]; l.Op == "sym" && r.Op == "sym" && strings.HasPrefix(l.Name, "r:") {
						from, to, at = l, r, i
					}
				}
				if from != nil {
					break
				}
				continue
			}
			if h.Op != "=" || h.Args[0].Sort != SStr || used[h] {
				continue
			}
			for k := 0; k < 2 && from == nil; k++ {
				l, r := h.Args[k], h.Args[1-k]
				if l.Op == "app" && strings.HasPrefix(l.Name, "rec:") && !occurs(r, map[*Term]bool{l: true}) {
					from, to, at = l, r, i
					used[h] = true
				}
			}
			if from != nil {
				break
			}
			for k := 0; k < 2 && from == nil; k++ {
				l, r := h.Args[k], h.Args[1-k]
				if (l.Op == "sym" || l.Op == "select" && r.Op != "sym") && !occurs(r, map[*Term]bool{l: true}) {
					from, to, at = l, r, i
				}
			}
			if from != nil {
				break
			}
		}
		if from == nil {
			return hyps, g, false
		}
		sm, memo := map[*Term]*Term{from: to}, map[*Term]*Term{}
		var out []*Term
		for i, h := range hyps {
			if i != at {
				out = append(out, Subst(h, sm, memo))
			} else if from.Op == "app" { // for what is unfolded later
				out = append(out, h)
			}
		}
		hyps, g = out, Subst(g, sm, memo)
	}
	return hyps, g, false
}

func (p *textProver) solve(hyps []*Term, d time.Duration, quant bool) bool {
	if p.calls > 120 || time.Now().After(p.until) || stopped.Load() {
		return false
	}
	p.calls++
	q := &query{asserts: hyps, given: hyps}
	c := "Z"
	if quant && hasQuant(hyps) {
		c = "E"
	}
	r := q.run(solverCtx, c, d*time.Duration(slower))
	if r.status == "unsat" {
		p.solver = r.solver
	}
	return r.status == "unsat"
}

func noQuant(hyps []*Term) []*Term {
	var out []*Term
	for _, h := range hyps {
		if !hasQuant([]*Term{h}) && !usesStr([]*Term{h}) {
			out = append(out, h)
		}
	}
	return out
}

func recApps(t *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t] || t.Sort != SStr && t.Sort != SBool {
			return
		}
		seen[t] = true
		if t.Op == "app" && t.Sort == SStr && strings.HasPrefix(t.Name, "rec:") && !recDefs[t.Name].m.Opaque {
			out = append(out, t)
			return
		}
		for _, a := range t.Args {
			w(a)
		}
	}
	w(t)
	return out
}

// condIn is the condition of a choice between texts (or of what they are read from) in t.
func condIn(t *Term) *Term {
	seen := map[*Term]bool{}
	var w func(t *Term) *Term
	w = func(t *Term) *Term {
		if seen[t] {
			return nil
		}
		seen[t] = true
		if t.Op == "ite" && !t.Bound {
			return t.Args[0]
		}

		for _, a := range t.Args {
			if c := w(a); c != nil {
				return c
			}
		}
		return nil
	}
	return w(t)
}

func firstAtom(c *Term) *Term {
	switch c.Op {
	case "not", "and", "or", "=>":
		return firstAtom(c.Args[0])
	}
	return c
}

func (p *textProver) prove(hyps []*Term, g *Term, depth, unfolds int, dead map[[2]*Term]bool) bool {
	if depth > 24 || p.leaves <= 0 || time.Now().After(p.until) {
		if os.Getenv("VTEXT") != "" {
			println("text leaf: gave up", depth, p.leaves, g.String())
		}
		return false
	}
	if dead == nil {
		dead = map[[2]*Term]bool{}
	}
	hyps, g, contra := p.simplify(append([]*Term{}, hyps...), g)
	if contra || g == TTrue {
		return true
	}
	for g.Op == "=>" {
		hyps = append(hyps, g.Args[0])
		g = g.Args[1]
	}
	if g.Op == "and" {
		for _, a := range g.Args {
			if !p.prove(hyps, a, depth+1, unfolds, dead) {
				return false
			}
		}
		return true
	}
	if t := selectStore(g); t != nil {
		st := t.Args[0]
		same := Eq(st.Args[1], t.Args[1])
		to := st.Args[2]
		if p.solve(append(noQuant(hyps), same), time.Second, false) {
			to = Select(st.Args[0], t.Args[1])
		} else if !p.solve(append(noQuant(hyps), Not(same)), time.Second, false) {
			return false
		}
		return p.prove(hyps, Subst(g, map[*Term]*Term{t: to}, map[*Term]*Term{}), depth, unfolds, dead)
	}
	// a choice in the goal
	if c := condIn(g); c != nil {
		c = firstAtom(c)
		if c.Op == "true" || c.Op == "false" {
			return false
		}
		return p.split(hyps, g, c, depth, unfolds, dead)
	}
	// a text of the goal that is defined under a condition
	syms := map[*Term]bool{}
	subTerms([]*Term{g}, func(t *Term) {
		if t.Sort == SStr && (t.Op == "sym" || t.Op == "select") {
			syms[t] = true
		}
	})
	for _, h := range hyps {
		if h.Op != "=>" {
			continue
		}
		c, e := h.Args[0], h.Args[1]
		for e.Op == "=>" {
			e = e.Args[1]
		}
		var es []*Term
		if e.Op == "and" {
			es = e.Args
		} else {
			es = []*Term{e}
		}
		for _, e := range es {
			if e.Op == "=" && (e.Args[0].Sort == SStr && (syms[e.Args[0]] || syms[e.Args[1]]) || strings.HasPrefix(string(e.Args[0].Sort), "(Array") && arrayOf(syms, e)) {
				return p.split(hyps, g, firstAtom(c), depth, unfolds, dead)
			}
		}
	}
	// the definition of a recursive text whose smaller case is in the goal as well
	if unfolds < 8 {
		apps := recApps(g)
		eqs := map[*Term]*Term{}
		for _, h := range hyps {
			if h.Op == "=" && h.Args[0].Sort == SStr {
				for k := 0; k < 2; k++ {
					if l := h.Args[k]; l.Op == "app" && strings.HasPrefix(l.Name, "rec:") && eqs[h.Args[1-k]] == nil && eqs[l] == nil {
						eqs[l] = h.Args[1-k]
						break
					}
				}
			}
		}
		for _, a := range apps {
			axiomMu.Lock()
			eq := unfoldRec(axiomEx, a)
			axiomMu.Unlock()
			if eq.Op != "=" {
				continue
			}
			body := eq.Args[1]
			if body == a {
				body = eq.Args[0]
			}
			inner := recApps(body)
			ok := body.Op == "str" || body.Op != "ite" && len(inner) == 0
			for _, b := range inner {
				for n := 0; n < 10 && eqs[b] != nil; n++ {
					b = eqs[b]
				}
				for _, c := range apps {
					ok = ok || b == c
				}
			}
			if ok {
				m := map[*Term]*Term{a: body}
				return p.prove(hyps, Subst(g, m, map[*Term]*Term{}), depth+1, unfolds+1, dead)
			}
		}
	}
	// two applications of the same function whose arguments are equal
	if g.Op == "=" || g.Op == "scontains" || g.Op == "sprefix" {
		l, r := leafApps(g.Args[0]), leafApps(g.Args[1])
		for _, a := range l {
			for _, b := range r {
				if a == b || a.Name != b.Name || len(a.Args) != len(b.Args) || dead[[2]*Term{a, b}] {
					continue
				}
				var ne []*Term
				for i := range a.Args {
					if a.Args[i] != b.Args[i] {
						ne = append(ne, Eq(a.Args[i], b.Args[i]))
					}
				}
				if p.solve(append(noQuant(hyps), Not(And(ne...))), 1500*time.Millisecond, false) ||
					p.solve(append(append([]*Term{}, hyps...), Not(And(ne...))), 1500*time.Millisecond, true) {
					return p.prove(hyps, Subst(g, map[*Term]*Term{a: b}, map[*Term]*Term{}), depth+1, unfolds, dead)
				}
				dead[[2]*Term{a, b}] = true
			}
		}
	}
	p.leaves--
	// what is left is a branch that is not taken, or for the solvers
	if p.solve(noQuant(hyps), time.Second, false) {
		return true
	}
	ok := p.solve(append(append([]*Term{}, hyps...), Not(g)), 2*time.Second, true)
	if !ok && os.Getenv("VTEXT") != "" {
		println("text leaf:", g.String())
	}
	return ok
}

func arrayOf(syms map[*Term]bool, e *Term) bool {
	for s := range syms {
		if s.Op == "select" && (s.Args[0] == e.Args[0] || s.Args[0] == e.Args[1]) {
			return true
		}
	}
	return false
}

func leafApps(t *Term) []*Term {
	var out []*Term
	for _, a := range catParts(t) {
		if a.Op == "app" || a.Op == "ssub" {
			out = append(out, a)
		}
	}
	return out
}

func (p *textProver) split(hyps []*Term, g, c *Term, depth, unfolds int, dead map[[2]*Term]bool) bool {
	return p.prove(append(append([]*Term{}, hyps...), c), Subst(g, map[*Term]*Term{c: TTrue}, map[*Term]*Term{}), depth+1, unfolds, nil) &&
		p.prove(append(append([]*Term{}, hyps...), Not(c)), Subst(g, map[*Term]*Term{c: TFalse}, map[*Term]*Term{}), depth+1, unfolds, nil)
}

// cancelEnds drops the parts both sides of an equation of texts begin or end with.
func cancelEnds(h *Term) *Term {
	a, b := catParts(h.Args[0]), catParts(h.Args[1])
	for len(a) > 0 && len(b) > 0 && a[0] == b[0] {
		a, b = a[1:], b[1:]
	}
	for len(a) > 0 && len(b) > 0 && a[len(a)-1] == b[len(b)-1] {
		a, b = a[:len(a)-1], b[:len(b)-1]
	}
	return Eq(Cat(a...), Cat(b...))
}

// selectStore is a text read from a component that was written at another place,
// when the two places are not told apart by their form.
func selectStore(t *Term) *Term {
	var out *Term
	subTerms([]*Term{t}, func(t *Term) {
		if out == nil && t.Op == "select" && !t.Bound && t.Sort == SStr && t.Args[0].Op == "store" {
			out = t
		}
	})
	return out
}
