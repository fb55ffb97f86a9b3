package main

import (
	"bufio"
	"context"
	"fmt"
	"hash/fnv"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

// Hints remember, from an earlier run, which solver configuration refuted a
// query and which loop candidates did not survive. They only order the search:
// a query still has to be refuted by a solver in this run, and a function that
// fails with hints is verified again without them.
type hintDB struct {
	sync.Mutex
	q    map[string]string // query hash -> configuration
	drop map[string]bool   // fnKey \t loop \t desc
	on   bool
	rec  bool
	hit  int
	miss int
	newQ map[string]string
	newD map[string]bool
	newK map[string]bool
}

var hints = &hintDB{q: map[string]string{}, drop: map[string]bool{}, newQ: map[string]string{}, newD: map[string]bool{}, newK: map[string]bool{}}

func loadHints(file string) {
	f, err := os.Open(file)
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	for sc.Scan() {
		l := sc.Text()
		if len(l) < 3 {
			continue
		}
		switch l[0] {
		case 'Q':
			p := strings.SplitN(l[2:], " ", 2)
			if len(p) == 2 {
				hints.q[p[0]] = p[1]
			}
		case 'D':
			hints.drop[l[2:]] = true
		}
	}
	hints.on = true
}

func (h *hintDB) save(file string) {
	var out []string
	for k, v := range h.newQ {
		out = append(out, "Q "+k+" "+v)
	}
	for k := range h.newD {
		out = append(out, "D "+k)
	}
	sort.Strings(out)
	os.WriteFile(file, []byte(strings.Join(out, "\n")+"\n"), 0644)
}

func hashStr(s string) string {
	h := fnv.New64a()
	h.Write([]byte(s))
	return fmt.Sprintf("%016x", h.Sum64())
}

func candKey(fn string, c *Cand) string {
	return strings.ReplaceAll(fmt.Sprintf("%s\t%d\t%s", fn, c.Loop, c.Desc), "\n", " ")
}

// config is one way of running a solver on a query.
type config struct {
	name string
	bin  string
	args []string
	tl   string // time limit flag
	thy  bool
	cvc  bool
	rich bool // with more instances of the hypotheses
	raw  bool // the goal as it stands, without constants for its variables
}

var configs = []config{
	{"E", "z3-new", []string{"-in", "smt.auto_config=false", "smt.mbqi=false", "smt.case_split=3"}, "-t:%d", false, false, false, false},
	{"Z", "z3-new", []string{"-in"}, "-t:%d", false, false, false, false},
	{"C", "cvc5", []string{"--lang=smt2"}, "--tlimit=%d", false, true, false, false},
	{"O", "z3", []string{"-in"}, "-t:%d", false, false, false, false},
	{"A", "z3-new", []string{"-in", "smt.auto_config=false", "smt.mbqi=false", "smt.random_seed=7", "smt.arith.solver=2"}, "-t:%d", false, false, false, false},
	{"I", "cvc5", []string{"--lang=smt2", "--enum-inst", "--no-e-matching"}, "--tlimit=%d", false, true, false, false},
	{"X", "z3-new", []string{"-in", "smt.auto_config=false", "smt.mbqi=false", "smt.case_split=3"}, "-t:%d", false, false, true, false},
	{"S", "cvc5", []string{"--strings-exp", "--lang=smt2"}, "--tlimit=%d", true, true, false, false},
	{"T", "z3-new", []string{"-in"}, "-t:%d", true, false, false, false},
	{"U", "z3-new", []string{"-in"}, "-t:%d", false, false, false, true},
}

func configOf(name string) *config {
	for i := range configs {
		if configs[i].name == name {
			return &configs[i]
		}
	}
	return nil
}

// query is one set of assertions with its printed forms, made on demand.
type query struct {
	asserts []*Term
	given   []*Term // before the variables of the goal got constants
	rawTxt  string
	txt     [4]string
	richTxt string
	hash    string
}

func (q *query) script(thy, cvc bool) string {
	i := 0
	if thy {
		i += 2
	}
	if cvc {
		i++
	}
	if q.txt[i] == "" {
		q.txt[i] = script(q.asserts, thy, cvc)
	}
	return q.txt[i]
}

func (q *query) key() string {
	if q.hash == "" {
		q.hash = hashStr(canon(q.script(false, false)))
	}
	return q.hash
}

func (q *query) run(ctx context.Context, name string, limit time.Duration) solverRes {
	c := configOf(name)
	args := append(append([]string{}, c.args...), fmt.Sprintf(c.tl, limit.Milliseconds()))
	var in string
	if c.rich {
		if q.richTxt == "" {
			q.richTxt = script(enrich(q.asserts), false, false)
		}
		in = q.richTxt
	} else if c.raw {
		if q.rawTxt == "" {
			q.rawTxt = script(q.given, false, false)
		}
		in = q.rawTxt
	} else {
		in = q.script(c.thy, c.cvc)
	}
	r := runSolver(ctx, c.bin, args, in, limit)
	theStats.add(r)
	if (name == "E" || name == "X") && r.status == "sat" {
		r.status = "unknown" // without model-based instantiation this is no model
	}
	if r.status == "unsat" && hints.rec {
		hints.Lock()
		hints.newQ[q.key()] = name
		hints.Unlock()
	}
	return r
}

var symNum = regexp.MustCompile(`[^|\s()]*!\d+`)

// canon renumbers the generated symbols in order of appearance, so that a change
// to one function does not rename those of the others.
func canon(s string) string {
	m := map[string]string{}
	return symNum.ReplaceAllStringFunc(s, func(t string) string {
		r, ok := m[t]
		if !ok {
			r = fmt.Sprintf("%s!%d", t[:strings.LastIndexByte(t, '!')], len(m))
			m[t] = r
		}
		return r
	})
}

// enrich adds instances of the hypotheses at the witnesses of existential
// hypotheses and at the indices the goal reads.
func enrich(q []*Term) []*Term {
	out := append([]*Term{}, q...)
	var terms []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if !seen[t] && len(terms) < 10 {
			seen[t] = true
			terms = append(terms, t)
		}
	}
	// witnesses
	wn := 0
	var wit func(pre []*Term, t *Term)
	wit = func(pre []*Term, t *Term) {
		switch t.Op {
		case "and":
			for _, a := range t.Args {
				wit(pre, a)
			}
		case "=>":
			wit(append(append([]*Term{}, pre...), t.Args[0]), t.Args[1])
		case "exists":
			m := map[*Term]*Term{}
			for _, v := range t.Vars {
				c := Sym(fmt.Sprintf("wit~%d", wn), v.Sort)
				wn++
				m[v] = c
				add(c)
			}
			out = append(out, Implies(And(pre...), Subst(t.Args[0], m, map[*Term]*Term{})))
		case "not":
			if t.Args[0].Op == "forall" {
				wit(pre, Quant(false, t.Args[0].Vars, Not(t.Args[0].Args[0])))
			}
		}
	}
	for _, h := range q {
		wit(nil, h)
	}
	done := map[*Term]bool{}
	var idx func(t *Term, bound map[*Term]bool)
	idx = func(t *Term, bound map[*Term]bool) {
		if done[t] {
			return
		}
		done[t] = true
		if t.Op == "forall" || t.Op == "exists" {
			return
		}
		if t.Op == "select" && t.Args[1].Sort == SInt {
			add(t.Args[1])
		}
		for _, a := range t.Args {
			idx(a, bound)
		}
	}
	idx(q[len(q)-1], nil)
	n := 0
	var inst func(pre []*Term, t *Term, depth int)
	inst = func(pre []*Term, t *Term, depth int) {
		switch t.Op {
		case "and":
			for _, a := range t.Args {
				inst(pre, a, depth)
			}
		case "=>":
			inst(append(append([]*Term{}, pre...), t.Args[0]), t.Args[1], depth)
		case "forall":
			if len(t.Vars) != 1 || n > 250 {
				return
			}
			for _, c := range terms {
				if c.Sort != t.Vars[0].Sort {
					continue
				}
				b := Subst(t.Args[0], map[*Term]*Term{t.Vars[0]: c}, map[*Term]*Term{})
				n++
				out = append(out, Implies(And(pre...), b))
				if depth < 1 {
					inst(pre, b, depth+1)
				}
			}
		}
	}
	for _, h := range append([]*Term{}, out...) {
		inst(nil, h, 0)
	}
	// the goal stays last
	g := q[len(q)-1]
	return append(out, g)
}
