package main

// SMT-LIB printing and the solver portfolio.

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type printer struct {
	theory bool // strings as the SMT-LIB theory (else uninterpreted)
	b      strings.Builder
	decl   map[string]string // symbol -> declaration
	sorts  map[string]bool
	names  map[*Term]string
	refs   map[*Term]int
	lits   map[*Term]int
	litL   []*Term
	nT     int
	strT   []*Term // ground string terms seen (for axioms)
}

func quoteSym(s string) string {
	return "|" + strings.NewReplacer("|", "!", "\\", "/").Replace(s) + "|"
}

func (p *printer) sortS(s Sort) string {
	str := string(s)
	if p.theory {
		str = strings.ReplaceAll(str, "Str", "String")
		str = strings.ReplaceAll(str, "Stringing", "String")
	}
	return str
}

func smtString(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 32 && c < 127 && c != '"' && c != '\\' {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, "\\u{%x}", c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (p *printer) count(t *Term) {
	p.refs[t]++
	if p.refs[t] > 1 {
		return
	}
	for _, a := range t.Args {
		p.count(a)
	}
	for _, a := range t.Pats {
		p.count(a)
	}
	switch t.Op {
	case "sym":
		p.decl[quoteSym(t.Name)] = fmt.Sprintf("(declare-const %s %s)\n", quoteSym(t.Name), p.sortS(t.Sort))
	case "app":
		var as []string
		for _, a := range t.Args {
			as = append(as, p.sortS(a.Sort))
		}
		p.decl[quoteSym(t.Name)] = fmt.Sprintf("(declare-fun %s (%s) %s)\n", quoteSym(t.Name), strings.Join(as, " "), p.sortS(t.Sort))
	case "str":
		p.lits[t] = len(p.litL) + 1
		p.litL = append(p.litL, t)
	}
	if !t.Bound && (t.Sort == SStr || t.Op == "sat") {
		p.strT = append(p.strT, t)
	}
}

func (p *printer) expr(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	var s string
	bin := func(op string) string {
		var b strings.Builder
		b.WriteString("(" + op)
		for _, a := range t.Args {
			b.WriteByte(' ')
			b.WriteString(p.expr(a))
		}
		b.WriteByte(')')
		return b.String()
	}
	switch t.Op {
	case "sym", "bvar":
		return quoteSym(t.Name)
	case "true", "false":
		return t.Op
	case "int":
		if t.Name[0] == '-' {
			return "(- " + t.Name[1:] + ")"
		}
		return t.Name
	case "str":
		if p.theory {
			return smtString(t.Name)
		}
		return fmt.Sprintf("lit_%d", p.lits[t])
	case "app":
		if len(t.Args) == 0 {
			s = quoteSym(t.Name)
		} else {
			s = bin(quoteSym(t.Name))
		}
	case "constarr":
		s = "((as const " + p.sortS(t.Sort) + ") " + p.expr(t.Args[0]) + ")"
	case "scat":
		if p.theory {
			s = bin("str.++")
		} else {
			s = p.expr(t.Args[0])
			for _, a := range t.Args[1:] {
				s = "(scat " + s + " " + p.expr(a) + ")"
			}
		}
	case "slen":
		if p.theory {
			s = bin("str.len")
		} else {
			s = bin("slen")
		}
	case "ssub":
		if p.theory {
			s = fmt.Sprintf("(str.substr %s %s (- %s %s))", p.expr(t.Args[0]), p.expr(t.Args[1]), p.expr(t.Args[2]), p.expr(t.Args[1]))
		} else {
			s = bin("ssub")
		}
	case "sat":
		if p.theory {
			s = fmt.Sprintf("(str.to_code (str.at %s %s))", p.expr(t.Args[0]), p.expr(t.Args[1]))
		} else {
			s = bin("sat")
		}
	case "slt":
		if p.theory {
			s = bin("str.<")
		} else {
			s = bin("slt")
		}
	case "scontains":
		if p.theory {
			s = bin("str.contains")
		} else {
			s = bin("scontains")
		}
	case "sprefix":
		if p.theory {
			s = fmt.Sprintf("(str.prefixof %s %s)", p.expr(t.Args[1]), p.expr(t.Args[0]))
		} else {
			s = bin("sprefix")
		}
	case "ssuffix":
		if p.theory {
			s = fmt.Sprintf("(str.suffixof %s %s)", p.expr(t.Args[1]), p.expr(t.Args[0]))
		} else {
			s = bin("ssuffix")
		}
	case "forall", "exists":
		var b strings.Builder
		b.WriteString("(" + t.Op + " (")
		for _, v := range t.Vars {
			fmt.Fprintf(&b, "(%s %s)", quoteSym(v.Name), p.sortS(v.Sort))
		}
		b.WriteString(") ")
		if len(t.Pats) > 0 {
			b.WriteString("(! " + p.expr(t.Args[0]) + " :pattern (")
			for i, x := range t.Pats {
				if i > 0 {
					b.WriteByte(' ')
				}
				b.WriteString(p.expr(x))
			}
			b.WriteString("))")
		} else {
			b.WriteString(p.expr(t.Args[0]))
		}
		b.WriteString(")")
		s = b.String()
	default:
		s = bin(t.Op)
	}
	if !t.Bound && p.refs[t] > 1 && len(t.Args) > 0 {
		p.nT++
		n := fmt.Sprintf("t!%d", p.nT)
		fmt.Fprintf(&p.b, "(define-fun %s () %s %s)\n", n, p.sortS(t.Sort), s)
		p.names[t] = n
		return n
	}
	return s
}

// script prints a query: the conjunction of asserts must be shown unsat.
func script(asserts []*Term, theory bool, cvc bool) string {
	p := &printer{theory: theory, decl: map[string]string{}, names: map[*Term]string{}, refs: map[*Term]int{}, lits: map[*Term]int{}}
	asserts = append(append([]*Term{}, axiomsFor(asserts)...), asserts...)
	for _, a := range asserts {
		p.count(a)
	}
	var ax []*Term
	if !theory {
		ax = absStrAxioms(p)
	} else {
		ax = thyStrAxioms(p)
	}
	for _, a := range ax {
		p.count(a)
	}
	asserts = append(asserts, ax...)
	var out strings.Builder
	if cvc {
		out.WriteString("(set-logic ALL)\n")
	}
	if !theory {
		out.WriteString("(declare-sort Str 0)\n(declare-fun scat (Str Str) Str)\n(declare-fun slen (Str) Int)\n(declare-fun ssub (Str Int Int) Str)\n(declare-fun sat (Str Int) Int)\n(declare-fun slt (Str Str) Bool)\n(declare-fun scontains (Str Str) Bool)\n(declare-fun sprefix (Str Str) Bool)\n(declare-fun ssuffix (Str Str) Bool)\n")
		ls := p.litL
		for _, l := range ls {
			fmt.Fprintf(&out, "(declare-const lit_%d Str)\n(assert (= (slen lit_%d) %d))\n", p.lits[l], p.lits[l], len(l.Name))
			if len(l.Name) <= 12 {
				for i := 0; i < len(l.Name); i++ {
					fmt.Fprintf(&out, "(assert (= (sat lit_%d %d) %d))\n", p.lits[l], i, l.Name[i])
				}
			}
		}
		if len(ls) > 1 {
			out.WriteString("(assert (distinct")
			for _, l := range ls {
				fmt.Fprintf(&out, " lit_%d", p.lits[l])
			}
			out.WriteString("))\n")
		}
		out.WriteString("(assert (forall ((s Str)) (! (>= (slen s) 0) :pattern ((slen s)))))\n")
		out.WriteString("(assert (forall ((s Str)(i Int)) (! (and (<= 0 (sat s i)) (<= (sat s i) 255)) :pattern ((sat s i)))))\n")
		for _, l := range p.litL {
			if l.Name == "" {
				fmt.Fprintf(&out, "(assert (forall ((s Str)) (! (=> (= (slen s) 0) (= s lit_%d)) :pattern ((slen s)))))\n", p.lits[l])
			}
		}
	}
	var ds []string
	for _, d := range p.decl {
		ds = append(ds, d)
	}
	sort.Strings(ds)
	for _, d := range ds {
		out.WriteString(d)
	}
	for _, a := range asserts {
		s := p.expr(a)
		p.b.WriteString("(assert " + s + ")\n")
	}
	out.WriteString(p.b.String())
	out.WriteString("(check-sat)\n")
	return out.String()
}

// absStrAxioms instantiates facts about the ground string terms of the query.
func absStrAxioms(p *printer) []*Term {
	var ax []*Term
	for _, t := range p.strT {
		switch t.Op {
		case "scat":
			var l []*Term
			for _, a := range t.Args {
				l = append(l, SLen(a))
			}
			ax = append(ax, mk("=", "", SBool, mk("slen", "", SInt, t), Add(l...)))
			// associativity is by normal form
		case "ssub":
			s, a, b := t.Args[0], t.Args[1], t.Args[2]
			ok := And(Le(I(0), a), Le(a, b), Le(b, SLen(s)))
			ax = append(ax, Implies(ok, mk("=", "", SBool, mk("slen", "", SInt, t), Sub(b, a))))
			ax = append(ax, Implies(And(Eq(a, I(0)), Eq(b, SLen(s))), Eq(t, s)))
			j := BVar("j", SInt)
			at := mk("sat", "", SInt, t, j)
			ax = append(ax, Quant(true, []*Term{j}, Implies(And(ok, Le(I(0), j), Lt(j, Sub(b, a))), mk("=", "", SBool, at, mk("sat", "", SInt, s, Add(a, j)))), at))
		}
	}
	return ax
}

func thyStrAxioms(p *printer) []*Term {
	var ax []*Term
	for _, t := range p.strT {
		if t.Op == "sat" {
			ax = append(ax, Implies(And(Le(I(0), t.Args[1]), Lt(t.Args[1], SLen(t.Args[0]))), And(Le(I(0), t), Le(t, I(255)))))
		}
	}
	return ax
}

type solverRes struct {
	status string // unsat, sat, unknown, error
	solver string
	dur    time.Duration
	out    string
}

var solverSem = make(chan struct{}, 8)

func runSolver(ctx context.Context, name string, args []string, input string, timeout time.Duration) solverRes {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	if ctx.Err() != nil {
		return solverRes{status: "unknown", solver: name, out: "cancelled"}
	}
	c, cancel := context.WithTimeout(ctx, timeout+500*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(c, name, args...)
	cmd.Stdin = strings.NewReader(input)
	var ob bytes.Buffer
	cmd.Stdout = &ob
	cmd.Stderr = &ob
	t0 := time.Now()
	_ = cmd.Run()
	r := solverRes{solver: name, dur: time.Since(t0), out: ob.String()}
	first := strings.TrimSpace(ob.String())
	for strings.HasPrefix(first, "WARNING") {
		if i := strings.IndexByte(first, '\n'); i >= 0 {
			first = strings.TrimSpace(first[i+1:])
		} else {
			first = ""
		}
	}
	if strings.Contains(ob.String(), "(error") || strings.Contains(ob.String(), "rror:") {
		r.status = "error"
		if os.Getenv("VDBG") != "" {
			fmt.Fprintln(os.Stderr, "SOLVER ERROR", name, first[:min(len(first), 400)])
			os.WriteFile("/tmp/err.smt2", []byte(input), 0644)
		}
		// cvc5 reports errors for unsupported features: treat as unknown
		return r
	}
	switch {
	case strings.HasPrefix(first, "unsat"):
		r.status = "unsat"
	case strings.HasPrefix(first, "sat"):
		r.status = "sat"
	default:
		r.status = "unknown"
	}
	return r
}

type stats struct {
	sync.Mutex
	queries  int
	byTime   map[string]time.Duration
	byCount  map[string]int
	slowest  time.Duration
	slowName string
}

var theStats = &stats{byTime: map[string]time.Duration{}, byCount: map[string]int{}}

func (s *stats) add(r solverRes) {
	s.Lock()
	s.queries++
	s.byTime[r.solver] += r.dur
	s.Unlock()
}

func usesStr(ts []*Term) bool {
	seen := map[*Term]bool{}
	var w func(t *Term) bool
	w = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		switch t.Op {
		case "scat", "slen", "ssub", "sat", "slt", "scontains", "sprefix", "ssuffix":
			return true
		}
		for _, a := range t.Args {
			if w(a) {
				return true
			}
		}
		return false
	}
	for _, t := range ts {
		if w(t) {
			return true
		}
	}
	return false
}

func hasQuant(ts []*Term) bool {
	seen := map[*Term]bool{}
	var w func(t *Term) bool
	w = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.Op == "forall" || t.Op == "exists" {
			return true
		}
		for _, a := range t.Args {
			if w(a) {
				return true
			}
		}
		return false
	}
	for _, t := range ts {
		if w(t) {
			return true
		}
	}
	return false
}

// valid decides whether the conjunction of asserts is unsatisfiable.
// effort: 0 = one short attempt (Houdini), 1 = the full portfolio.
const half = -1

func refute(asserts []*Term, effort int) solverRes {
	for _, a := range asserts {
		if a == TFalse {
			return solverRes{status: "unsat", solver: "simplifier"}
		}
	}
	ctx := solverCtx
	if stopped.Load() {
		return solverRes{status: "unknown", solver: "none", out: "a failing input is known"}
	}
	if !deadline.IsZero() && time.Now().After(deadline) {
		return solverRes{status: "unknown", solver: "none", out: "time budget of the check used up"}
	}
	if r, ok := refuteText(asserts); ok {
		return r
	}
	asserts = substStrings(asserts)
	q := &query{asserts: skolemGoal(asserts), given: asserts}
	if hints.on && len(hints.q) > 0 {
		if c, ok := hints.q[q.key()]; ok && configOf(c) != nil {
			if r := q.run(ctx, c, 10*time.Second*time.Duration(slower)); r.status == "unsat" {
				return r
			}
		}
	}
	quant := hasQuant(q.asserts)
	quick := 3 * time.Second
	if effort != 0 {
		quick = 5 * time.Second
	}
	quick *= time.Duration(slower)
	short := 1500 * time.Millisecond * time.Duration(slower)
	var r solverRes
	if quant {
		// E-matching only: quick to succeed and quick to give up
		if r = q.run(ctx, "E", quick); r.status == "unsat" {
			return r
		}
		if r = q.run(ctx, "C", short); r.status == "unsat" {
			return r
		}
		if effort > 0 {
			quick = 2 * time.Second
		} else if effort == half {
			quick = 6 * time.Second
		} else {
			quick = time.Second
		}
		quick *= time.Duration(slower)
	}
	if r = q.run(ctx, "Z", quick); r.status == "unsat" {
		return r
	}
	if effort == half && quant {
		if r := q.run(ctx, "U", short); r.status == "unsat" {
			return r
		}
	}
	str := usesStr(q.asserts)
	if effort <= 0 {
		if str && theoryMode {
			if r2 := q.run(ctx, "S", quick); r2.status == "unsat" {
				return r2
			}
		}
		return r
	}
	// full portfolio, in parallel
	T := fullTimeout * time.Duration(slower)
	jobs := []string{"C", "O"}
	if quant {
		jobs = append(jobs, "X", "Z", "A", "I", "U")
	}
	if str {
		jobs = append(jobs, "S", "T")
	}
	for _, j := range jobs { // printed before the goroutines share it
		if c := configOf(j); !c.rich && !c.raw {
			q.script(c.thy, c.cvc)
		}
	}
	q.key()
	cctx, cancel := context.WithCancel(ctx)
	defer cancel()
	ch := make(chan solverRes, len(jobs))
	for _, j := range jobs {
		go func(j string) { ch <- q.run(cctx, j, T) }(j)
	}
	last := r
	for range jobs {
		x := <-ch
		if x.status == "unsat" {
			return x
		}
		if x.status == "sat" {
			last = x
			if !str {
				// a model of the abstract encoding: no other solver will refute it
				return last
			}
		}
	}
	return last
}

var fullTimeout = 10 * time.Second

// slower multiplies every solver time limit (used when failures are retried).
var slower = 1

// deadline, when set, stops the search for proofs.
var deadline time.Time
var theoryMode = false

// stopSolvers ends the search for proofs: a failing input was found on the real code.
var solverCtx, stopSolvers = context.WithCancel(context.Background())
var stopped atomic.Bool

func bigOf(s string) *big.Int { n, _ := new(big.Int).SetString(s, 10); return n }

// substStrings replaces a text that is equated with a concatenation by that
// concatenation: terms are concatenations in normal form, and associativity is
// not left to the solvers.
func substStrings(q []*Term) []*Term {
	for n := 0; n < 20; n++ {
		var from, to, eq *Term
		for _, a := range q {
			if a.Op != "=" || a.Args[0].Sort != SStr {
				continue
			}
			for i := 0; i < 2 && from == nil; i++ {
				l, r := a.Args[i], a.Args[1-i]
				if r.Op == "scat" && (l.Op == "sym" || l.Op == "select") && !occurs(r, map[*Term]bool{l: true}) {
					from, to, eq = l, r, a
				}
			}
			if from != nil {
				break
			}
		}
		if from == nil {
			return q
		}
		m, memo := map[*Term]*Term{from: to}, map[*Term]*Term{}
		var out []*Term
		for _, a := range q {
			if a == eq {
				continue
			}
			out = append(out, Subst(a, m, memo))
		}
		q = out
	}
	return q
}

// skolemGoal replaces the universally quantified variables of the negated goal
// (the last assertion) by constants, and adds the instances of the universally
// quantified hypotheses at those constants.
func skolemGoal(q []*Term) []*Term {
	g := q[len(q)-1]
	if !(g.Op == "not") {
		return q
	}
	g = g.Args[0]
	out := append([]*Term{}, q[:len(q)-1]...)
	var sk []*Term
	for g.Op == "=>" || g.Op == "forall" {
		if g.Op == "=>" {
			out = append(out, g.Args[0])
			g = g.Args[1]
			continue
		}
		m := map[*Term]*Term{}
		for _, v := range g.Vars {
			c := Sym(fmt.Sprintf("sk~%d", len(sk)), v.Sort)
			m[v] = c
			sk = append(sk, c)
		}
		g = Subst(g.Args[0], m, map[*Term]*Term{})
	}
	if len(sk) == 0 {
		return q
	}
	n := 0
	var inst func(pre []*Term, t *Term, depth int)
	inst = func(pre []*Term, t *Term, depth int) {
		switch t.Op {
		case "and":
			for _, a := range t.Args {
				inst(pre, a, depth)
			}
		case "=>":
			inst(append(append([]*Term{}, pre...), t.Args[0]), t.Args[1], depth)
		case "forall":
			if len(t.Vars) != 1 || n > 150 {
				return
			}
			for _, c := range sk {
				if c.Sort != t.Vars[0].Sort {
					continue
				}
				b := Subst(t.Args[0], map[*Term]*Term{t.Vars[0]: c}, map[*Term]*Term{})
				n++
				out = append(out, Implies(And(pre...), b))
				if depth < 1 {
					inst(pre, b, depth+1)
				}
			}
		}
	}
	for _, h := range append([]*Term{}, out...) {
		inst(nil, h, 0)
	}
	return append(out, Not(g))
}
