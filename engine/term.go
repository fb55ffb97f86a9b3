package main

// Hash-consed SMT terms with light simplification.  Integers are mathematical;
// linear sums are kept in a normal form so that most index arithmetic is decided
// syntactically.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"
)

type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SStr  Sort = "Str"
)

func ArrS(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// elemSort returns the value sort of an array sort.
func splitArr(s Sort) (Sort, Sort) {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		panic("not an array sort: " + str)
	}
	str = str[len("(Array ") : len(str)-1]
	d := 0
	for i := 0; i < len(str); i++ {
		switch str[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return Sort(str[:i]), Sort(str[i+1:])
			}
		}
	}
	panic("bad array sort " + string(s))
}

type Term struct {
	Op    string
	Name  string
	Args  []*Term
	Sort  Sort
	ID    int
	Bound bool    // contains a bound variable free
	Vars  []*Term // quantifiers: bound variables
	Pats  []*Term
}

var (
	termMu  sync.Mutex
	terms   = map[string]*Term{}
	termSeq int
)

func mk(op, name string, s Sort, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	b.WriteString(string(s))
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.ID))
	}
	k := b.String()
	termMu.Lock()
	defer termMu.Unlock()
	if t, ok := terms[k]; ok {
		return t
	}
	termSeq++
	t := &Term{Op: op, Name: name, Args: args, Sort: s, ID: termSeq}
	if op == "bvar" {
		t.Bound = true
	}
	for _, a := range args {
		if a.Bound {
			t.Bound = true
		}
	}
	terms[k] = t
	return t
}

func Sym(name string, s Sort) *Term { return mk("sym", name, s) }

var freshN = map[string]int{}

func Fresh(base string, s Sort) *Term {
	termMu.Lock()
	freshN[base]++
	n := freshN[base]
	termMu.Unlock()
	return Sym(fmt.Sprintf("%s!%d", base, n), s)
}

var bvN int

func BVar(name string, s Sort) *Term {
	termMu.Lock()
	bvN++
	n := bvN
	termMu.Unlock()
	return mk("bvar", fmt.Sprintf("%s?%d", name, n), s)
}

func I(n int64) *Term { return mk("int", strconv.FormatInt(n, 10), SInt) }
func IBig(s string) *Term {
	return mk("int", s, SInt)
}
func StrLit(s string) *Term { return mk("str", s, SStr) }

var TTrue = mk("true", "", SBool)
var TFalse = mk("false", "", SBool)

func BoolT(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}

func App(name string, s Sort, args ...*Term) *Term { return mk("app", name, s, args...) }

func (t *Term) IsInt() (int64, bool) {
	if t.Op == "int" {
		n, err := strconv.ParseInt(t.Name, 10, 64)
		if err == nil {
			return n, true
		}
	}
	return 0, false
}

// ---- boolean

func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return TFalse
	case "false":
		return TTrue
	case "not":
		return a.Args[0]
	}
	return mk("not", "", SBool, a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		switch a.Op {
		case "true":
			return true
		case "false":
			return false
		case "and":
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[a] {
			return true
		}
		if a.Op == "not" && seen[a.Args[0]] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return TFalse
		}
	}
	switch len(out) {
	case 0:
		return TTrue
	case 1:
		return out[0]
	}
	return mk("and", "", SBool, out...)
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		switch a.Op {
		case "false":
			return true
		case "true":
			return false
		case "or":
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[a] {
			return true
		}
		if a.Op == "not" && seen[a.Args[0]] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return TTrue
		}
	}
	switch len(out) {
	case 0:
		return TFalse
	case 1:
		return out[0]
	}
	return mk("or", "", SBool, out...)
}

func Implies(a, b *Term) *Term {
	if a == TTrue {
		return b
	}
	if a == TFalse || b == TTrue || a == b {
		return TTrue
	}
	if b == TFalse {
		return Not(a)
	}
	return mk("=>", "", SBool, a, b)
}

func Iff(a, b *Term) *Term { return Eq(a, b) }

func Ite(c, a, b *Term) *Term {
	if c == TTrue || a == b {
		return a
	}
	if c == TFalse {
		return b
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("ite sort mismatch %s %s", a.Sort, b.Sort))
	}
	if a.Sort == SBool {
		if a == TTrue && b == TFalse {
			return c
		}
		if a == TFalse && b == TTrue {
			return Not(c)
		}
		if a == TTrue {
			return Or(c, b)
		}
		if b == TFalse {
			return And(c, a)
		}
		if a == TFalse {
			return And(Not(c), b)
		}
		if b == TTrue {
			return Or(Not(c), a)
		}
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	return mk("ite", "", a.Sort, c, a, b)
}

// ---- linear arithmetic

type linT struct {
	m map[*Term]*big.Int
	c *big.Int
}

func lin(t *Term) linT {
	r := linT{m: map[*Term]*big.Int{}, c: big.NewInt(0)}
	linAdd(&r, t, big.NewInt(1))
	return r
}

func linAdd(r *linT, t *Term, k *big.Int) {
	switch t.Op {
	case "int":
		n, _ := new(big.Int).SetString(t.Name, 10)
		r.c.Add(r.c, n.Mul(n, k))
		return
	case "+":
		for _, a := range t.Args {
			linAdd(r, a, k)
		}
		return
	case "*":
		if t.Args[0].Op == "int" {
			n, _ := new(big.Int).SetString(t.Args[0].Name, 10)
			linAdd(r, t.Args[1], n.Mul(n, k))
			return
		}
	}
	if x, ok := r.m[t]; ok {
		x = new(big.Int).Add(x, k)
		if x.Sign() == 0 {
			delete(r.m, t)
		} else {
			r.m[t] = x
		}
		return
	}
	if k.Sign() != 0 {
		r.m[t] = new(big.Int).Set(k)
	}
}

func (r linT) term() *Term {
	var ks []*Term
	for t := range r.m {
		ks = append(ks, t)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	var parts []*Term
	for _, t := range ks {
		k := r.m[t]
		if k.IsInt64() && k.Int64() == 1 {
			parts = append(parts, t)
		} else {
			parts = append(parts, mk("*", "", SInt, IBig(k.String()), t))
		}
	}
	if r.c.Sign() != 0 || len(parts) == 0 {
		parts = append(parts, IBig(r.c.String()))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return mk("+", "", SInt, parts...)
}

func Add(as ...*Term) *Term {
	r := linT{m: map[*Term]*big.Int{}, c: big.NewInt(0)}
	for _, a := range as {
		linAdd(&r, a, big.NewInt(1))
	}
	return r.term()
}
func Sub(a, b *Term) *Term {
	r := lin(a)
	linAdd(&r, b, big.NewInt(-1))
	return r.term()
}
func Mul(a, b *Term) *Term {
	if a.Op == "int" || b.Op == "int" {
		if b.Op == "int" {
			a, b = b, a
		}
		n, _ := new(big.Int).SetString(a.Name, 10)
		r := linT{m: map[*Term]*big.Int{}, c: big.NewInt(0)}
		linAdd(&r, b, n)
		return r.term()
	}
	return mk("*", "", SInt, a, b)
}
func Neg(a *Term) *Term { return Sub(I(0), a) }

// DivF and ModF are SMT-LIB (floor for positive divisors).
func DivF(a, b *Term) *Term {
	if x, ok := a.IsInt(); ok {
		if y, ok := b.IsInt(); ok && y > 0 {
			q := x / y
			if x%y < 0 {
				q--
			}
			return I(q)
		}
	}
	if y, ok := b.IsInt(); ok && y == 1 {
		return a
	}
	return mk("div", "", SInt, a, b)
}
func ModF(a, b *Term) *Term {
	if x, ok := a.IsInt(); ok {
		if y, ok := b.IsInt(); ok && y > 0 {
			q := x % y
			if q < 0 {
				q += y
			}
			return I(q)
		}
	}
	return mk("mod", "", SInt, a, b)
}

func (r linT) isConst() bool { return len(r.m) == 0 }

func Le(a, b *Term) *Term {
	r := lin(b)
	linAdd(&r, a, big.NewInt(-1))
	if r.isConst() {
		return BoolT(r.c.Sign() >= 0)
	}
	return cmp0(r)
}

// cmp0 builds "r >= 0" in a canonical shape (negative parts moved to the left).
func cmp0(r linT) *Term {
	l := linT{m: map[*Term]*big.Int{}, c: big.NewInt(0)}
	g := linT{m: map[*Term]*big.Int{}, c: big.NewInt(0)}
	for t, k := range r.m {
		if k.Sign() > 0 {
			g.m[t] = k
		} else {
			l.m[t] = new(big.Int).Neg(k)
		}
	}
	if r.c.Sign() > 0 {
		g.c = r.c
	} else {
		l.c = new(big.Int).Neg(r.c)
	}
	return mk("<=", "", SBool, l.term(), g.term())
}
func Lt(a, b *Term) *Term { return Le(Add(a, I(1)), b) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func Eq(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("eq sort mismatch: %s : %s  vs %s : %s", a, a.Sort, b, b.Sort))
	}
	switch a.Sort {
	case SBool:
		if a == TTrue {
			return b
		}
		if b == TTrue {
			return a
		}
		if a == TFalse {
			return Not(b)
		}
		if b == TFalse {
			return Not(a)
		}
	case SInt:
		r := lin(a)
		linAdd(&r, b, big.NewInt(-1))
		if r.isConst() {
			return BoolT(r.c.Sign() == 0)
		}
		if len(r.m) == 1 { // canonical  x = c
			for t, k := range r.m {
				if k.IsInt64() && (k.Int64() == 1 || k.Int64() == -1) {
					c := new(big.Int).Neg(r.c)
					if k.Int64() == -1 {
						c = r.c
					}
					if t.Op == "ite" { // push a constant comparison into an ite of constants
						x, y := t.Args[1], t.Args[2]
						if x.Op == "int" && y.Op == "int" {
							return Ite(t.Args[0], Eq(x, IBig(c.String())), Eq(y, IBig(c.String())))
						}
					}
					return mk("=", "", SBool, t, IBig(c.String()))
				}
			}
		}
	case SStr:
		if a.Op == "str" && b.Op == "str" {
			return BoolT(a.Name == b.Name)
		}
		// strip common prefix/suffix of concatenations
		x, y := catParts(a), catParts(b)
		if len(x) > 1 || len(y) > 1 {
			n := 0
			for len(x) > 0 && len(y) > 0 && x[0] == y[0] {
				x, y = x[1:], y[1:]
				n++
			}
			for len(x) > 0 && len(y) > 0 && x[len(x)-1] == y[len(y)-1] {
				x, y = x[:len(x)-1], y[:len(y)-1]
				n++
			}
			if n > 0 {
				return Eq(Cat(x...), Cat(y...))
			}
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("=", "", SBool, a, b)
}
func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

// ---- arrays

func Select(a, i *Term) *Term {
	for {
		switch a.Op {
		case "store":
			if a.Args[1] == i {
				return a.Args[2]
			}
			if e := Eq(a.Args[1], i); e == TFalse {
				a = a.Args[0]
				continue
			} else if e == TTrue {
				return a.Args[2]
			}
		case "constarr":
			return a.Args[0]
		case "ite":
			if a.Args[1].Op == "store" || a.Args[2].Op == "store" {
				x, y := Select(a.Args[1], i), Select(a.Args[2], i)
				return Ite(a.Args[0], x, y)
			}
		}
		break
	}
	_, v := splitArr(a.Sort)
	return mk("select", "", v, a, i)
}
func Store(a, i, v *Term) *Term {
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	_, vs := splitArr(a.Sort)
	if vs != v.Sort {
		panic(fmt.Sprintf("store sort mismatch: array %s value %s", a.Sort, v.Sort))
	}
	return mk("store", "", a.Sort, a, i, v)
}
func ConstArr(s Sort, v *Term) *Term { return mk("constarr", "", s, v) }

// ---- strings

func catParts(t *Term) []*Term {
	if t.Op == "scat" {
		return t.Args
	}
	if t.Op == "str" && t.Name == "" {
		return nil
	}
	return []*Term{t}
}

func Cat(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		for _, p := range catParts(a) {
			if p.Op == "str" && len(out) > 0 && out[len(out)-1].Op == "str" {
				out[len(out)-1] = StrLit(out[len(out)-1].Name + p.Name)
				continue
			}
			out = append(out, p)
		}
	}
	switch len(out) {
	case 0:
		return StrLit("")
	case 1:
		return out[0]
	}
	return mk("scat", "", SStr, out...)
}

func SLen(s *Term) *Term {
	switch s.Op {
	case "str":
		return I(int64(len(s.Name)))
	case "scat":
		var xs []*Term
		for _, a := range s.Args {
			xs = append(xs, SLen(a))
		}
		return Add(xs...)
	}
	return mk("slen", "", SInt, s)
}

// SSub is s[a:b].
func SSub(s, a, b *Term) *Term {
	if x, ok := a.IsInt(); ok && x == 0 && b == SLen(s) {
		return s
	}
	if s.Op == "str" {
		x, ok1 := a.IsInt()
		y, ok2 := b.IsInt()
		if ok1 && ok2 && 0 <= x && x <= y && int(y) <= len(s.Name) {
			return StrLit(s.Name[x:y])
		}
	}
	return mk("ssub", "", SStr, s, a, b)
}
func SAt(s, i *Term) *Term {
	if s.Op == "str" {
		if x, ok := i.IsInt(); ok && x >= 0 && int(x) < len(s.Name) {
			return I(int64(s.Name[x]))
		}
	}
	return mk("sat", "", SInt, s, i)
}
func SLess(a, b *Term) *Term {
	if a.Op == "str" && b.Op == "str" {
		return BoolT(a.Name < b.Name)
	}
	if a == b {
		return TFalse
	}
	return mk("slt", "", SBool, a, b)
}
func SContains(a, b *Term) *Term {
	if a.Op == "str" && b.Op == "str" {
		return BoolT(strings.Contains(a.Name, b.Name))
	}
	// syntactic: b's parts appear as a contiguous run inside a's parts
	pa, pb := catParts(a), catParts(b)
	if len(pb) == 0 {
		return TTrue
	}
	for i := 0; i+len(pb) <= len(pa); i++ {
		ok := true
		for j := range pb {
			x, y := pa[i+j], pb[j]
			if x == y {
				continue
			}
			if x.Op == "str" && y.Op == "str" {
				if len(pb) == 1 && strings.Contains(x.Name, y.Name) {
					continue
				}
				if len(pb) > 1 && j == 0 && strings.HasSuffix(x.Name, y.Name) {
					continue
				}
				if len(pb) > 1 && j == len(pb)-1 && strings.HasPrefix(x.Name, y.Name) {
					continue
				}
			}
			ok = false
			break
		}
		if ok {
			return TTrue
		}
	}
	return mk("scontains", "", SBool, a, b)
}
func SPrefix(s, p *Term) *Term {
	if s.Op == "str" && p.Op == "str" {
		return BoolT(strings.HasPrefix(s.Name, p.Name))
	}
	ps, pp := catParts(s), catParts(p)
	for i := 0; i <= len(pp); i++ {
		if i == len(pp) {
			return TTrue
		}
		if i < len(ps) && (ps[i] == pp[i] || i == len(pp)-1 && ps[i].Op == "str" && pp[i].Op == "str" && strings.HasPrefix(ps[i].Name, pp[i].Name)) {
			continue
		}
		break
	}
	return mk("sprefix", "", SBool, s, p)
}
func SSuffix(s, p *Term) *Term {
	if s.Op == "str" && p.Op == "str" {
		return BoolT(strings.HasSuffix(s.Name, p.Name))
	}
	return mk("ssuffix", "", SBool, s, p)
}

// ---- quantifiers

func Quant(forall bool, vars []*Term, body *Term, pats ...*Term) *Term {
	if body == TTrue || body == TFalse {
		return body
	}
	vars, body, pats = bareIndices(vars, body, pats)
	vars, body, pats = canonical(vars, body, pats)
	op := "exists"
	if forall {
		op = "forall"
	}
	names := ""
	for _, v := range vars {
		names += v.Name + ":" + string(v.Sort) + ";"
	}
	for _, p := range pats {
		names += "@" + strconv.Itoa(p.ID)
	}
	t := mk(op, names, SBool, body)
	if t.Vars != nil {
		return t
	}
	t.Vars = vars
	t.Pats = pats
	fv := map[*Term]bool{}
	freeBV(body, fv, map[*Term]bool{})
	for _, v := range vars {
		delete(fv, v)
	}
	t.Bound = len(fv) > 0
	return t
}

// bareIndices changes quantified index variables so that they occur bare as array
// indices (x[off+i] becomes x[i'] with i = i'-off): the solvers match on those terms.
func bareIndices(vars []*Term, body *Term, pats []*Term) ([]*Term, *Term, []*Term) {
	for n, v := range vars {
		if v.Sort != SInt {
			continue
		}
		offs := map[*Term]int{}
		bare := 0
		subTerms([]*Term{body}, func(t *Term) {
			var ix *Term
			switch t.Op {
			case "select":
				ix = t.Args[1]
			case "sat":
				ix = t.Args[1]
			default:
				return
			}
			if !ix.Bound || ix.Sort != SInt {
				return
			}
			if ix == v {
				bare++
				return
			}
			r := lin(ix)
			c, ok := r.m[v]
			if !ok || c.Cmp(big.NewInt(1)) != 0 {
				return
			}
			off := Sub(ix, v)
			if off.Bound && boundHere(off, vars, body) {
				return
			}
			if _, isC := off.IsInt(); isC {
				return // x[i+1] next to x[i]: leave
			}
			offs[off]++
		})
		best := (*Term)(nil)
		for o, k := range offs {
			if best == nil || k > offs[best] || (k == offs[best] && o.ID < best.ID) {
				best = o
			}
		}
		if best == nil || bare > offs[best] {
			continue
		}
		nv := BVar(strings.SplitN(v.Name, "?", 2)[0], SInt)
		m := map[*Term]*Term{v: Sub(nv, best)}
		memo := map[*Term]*Term{}
		body = Subst(body, m, memo)
		np := append([]*Term{}, pats...)
		for i := range np {
			np[i] = Subst(np[i], m, memo)
		}
		pats = np
		nvs := append([]*Term{}, vars...)
		nvs[n] = nv
		vars = nvs
	}
	return vars, body, pats
}

// boundHere tells whether t has a variable of the given ones, or of a quantifier inside body.
func boundHere(t *Term, vars []*Term, body *Term) bool {
	fv := map[*Term]bool{}
	freeBV(t, fv, map[*Term]bool{})
	for _, v := range vars {
		if fv[v] {
			return true
		}
	}
	found := false
	subTerms([]*Term{body}, func(t *Term) {
		if t.Op == "forall" || t.Op == "exists" {
			for _, v := range t.Vars {
				found = found || fv[v]
			}
		}
	})
	return found
}

// canonical renames bound variables by nesting depth, so that equal formulas are
// equal terms.
func canonical(vars []*Term, body *Term, pats []*Term) ([]*Term, *Term, []*Term) {
	d := qdepth(body)
	for _, p := range pats {
		if e := qdepth(p); e > d {
			d = e
		}
	}
	d++
	m := map[*Term]*Term{}
	nv := make([]*Term, len(vars))
	for i, v := range vars {
		nv[i] = mk("bvar", fmt.Sprintf("b%d_%d", d, i), v.Sort)
		if nv[i] != v {
			m[v] = nv[i]
		}
	}
	if len(m) == 0 {
		return vars, body, pats
	}
	memo := map[*Term]*Term{}
	body = Subst(body, m, memo)
	np := make([]*Term, len(pats))
	for i := range pats {
		np[i] = Subst(pats[i], m, memo)
	}
	return nv, body, np
}

var (
	qdMu sync.Mutex
	qd   = map[*Term]int{}
)

func qdepth(t *Term) int {
	qdMu.Lock()
	defer qdMu.Unlock()
	return qdepth1(t)
}

func qdepth1(t *Term) int {
	if len(t.Args) == 0 {
		return 0
	}
	if d, ok := qd[t]; ok {
		return d
	}
	m := 0
	for _, a := range t.Args {
		if d := qdepth1(a); d > m {
			m = d
		}
	}
	if t.Op == "forall" || t.Op == "exists" {
		m++
	}
	qd[t] = m
	return m
}

func freeBV(t *Term, out, seen map[*Term]bool) {
	if !t.Bound || seen[t] {
		return
	}
	seen[t] = true
	if t.Op == "bvar" {
		out[t] = true
		return
	}
	if t.Op == "forall" || t.Op == "exists" {
		in := map[*Term]bool{}
		freeBV(t.Args[0], in, map[*Term]bool{})
		for _, v := range t.Vars {
			delete(in, v)
		}
		for k := range in {
			out[k] = true
		}
		return
	}
	for _, a := range t.Args {
		freeBV(a, out, seen)
	}
}

// Subst replaces terms by terms (used to instantiate recursive definitions).
func Subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	if t.Op == "forall" || t.Op == "exists" {
		shadow := false
		for _, v := range t.Vars {
			if _, ok := m[v]; ok {
				shadow = true
			}
		}
		if shadow {
			m2 := map[*Term]*Term{}
			for k, v := range m {
				m2[k] = v
			}
			for _, v := range t.Vars {
				delete(m2, v)
			}
			b := Subst(t.Args[0], m2, map[*Term]*Term{})
			r := t
			if b != t.Args[0] {
				r = rebuild(t, []*Term{b}, m2, map[*Term]*Term{})
			}
			memo[t] = r
			return r
		}
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = Subst(a, m, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, args, m, memo)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, a []*Term, m, memo map[*Term]*Term) *Term {
	switch t.Op {
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "not":
		return Not(a[0])
	case "=>":
		return Implies(a[0], a[1])
	case "=":
		return Eq(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "+":
		return Add(a...)
	case "*":
		return Mul(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "div":
		return DivF(a[0], a[1])
	case "mod":
		return ModF(a[0], a[1])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "constarr":
		return ConstArr(t.Sort, a[0])
	case "scat":
		return Cat(a...)
	case "slen":
		return SLen(a[0])
	case "ssub":
		return SSub(a[0], a[1], a[2])
	case "sat":
		return SAt(a[0], a[1])
	case "slt":
		return SLess(a[0], a[1])
	case "scontains":
		return SContains(a[0], a[1])
	case "sprefix":
		return SPrefix(a[0], a[1])
	case "ssuffix":
		return SSuffix(a[0], a[1])
	case "forall", "exists":
		var ps []*Term
		for _, p := range t.Pats {
			ps = append(ps, Subst(p, m, memo))
		}
		return Quant(t.Op == "forall", t.Vars, a[0], ps...)
	}
	return mk(t.Op, t.Name, t.Sort, a...)
}

func (t *Term) String() string {
	var b strings.Builder
	t.show(&b, 0)
	return b.String()
}
func (t *Term) show(b *strings.Builder, d int) {
	if d > 12 || b.Len() > 4000 {
		b.WriteString("…")
		return
	}
	switch t.Op {
	case "sym", "bvar", "int":
		b.WriteString(t.Name)
		return
	case "str":
		b.WriteString(strconv.Quote(t.Name))
		return
	case "true", "false":
		b.WriteString(t.Op)
		return
	}
	b.WriteByte('(')
	if t.Op == "app" {
		b.WriteString(t.Name)
	} else {
		b.WriteString(t.Op)
	}
	if t.Op == "forall" || t.Op == "exists" {
		b.WriteString(" " + t.Name)
	}
	for _, a := range t.Args {
		b.WriteByte(' ')
		a.show(b, d+1)
	}
	b.WriteByte(')')
}
