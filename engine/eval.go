package main

// Evaluation of contract expressions to terms.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

type Ctx struct {
	base  bool // do not look for base cases of recursive functions
	x     *Ex
	st    *State
	old   *State
	ent   *State // entry of the loop an invariant belongs to
	names map[string]Val
	where string
	depth int
}

func (c *Ctx) fail(f string, a ...interface{}) {
	unsupported("contract (%s): %s", c.where, fmt.Sprintf(f, a...))
}

func (c *Ctx) typeOf(s string) types.Type {
	t := c.x.prog.parseType(s)
	if t == nil {
		c.fail("unknown type %s", s)
	}
	return t
}

func (c *Ctx) boolean(e *SExpr) *Term {
	v := c.eval(e)
	if len(v.C) != 1 || v.C[0].Sort != SBool {
		c.fail("not a boolean: %s", e.Src)
	}
	return v.C[0]
}

func (c *Ctx) term(e *SExpr) *Term {
	v := c.eval(e)
	if len(v.C) != 1 {
		c.fail("not a scalar: %s", e.Src)
	}
	return v.C[0]
}

var (
	tInt  = types.Typ[types.Int]
	tBool = types.Typ[types.Bool]
	tStr  = types.Typ[types.String]
)

func vInt(t *Term) Val  { return Val{T: tInt, C: []*Term{t}} }
func vBool(t *Term) Val { return Val{T: tBool, C: []*Term{t}} }
func vStr(t *Term) Val  { return Val{T: tStr, C: []*Term{t}} }

func (c *Ctx) with(n string, v Val) *Ctx {
	d := *c
	d.names = make(map[string]Val, len(c.names)+1)
	for k, w := range c.names {
		d.names[k] = w
	}
	d.names[n] = v
	return &d
}

func (c *Ctx) eval(e *SExpr) Val {
	switch e.Kind {
	case "int":
		return vInt(IBig(e.Name))
	case "str":
		return vStr(StrLit(e.Name))
	case "bool":
		return vBool(BoolT(e.Name == "true"))
	case "nil":
		return Val{T: types.Typ[types.UntypedNil], C: []*Term{I(0)}}
	case "id":
		if v, ok := c.names[e.Name]; ok {
			return v
		}
		if v, ok := c.x.prog.constByName(c.where, e.Name); ok {
			return v
		}
		if m, ok := c.x.specs.Macros[e.Name]; ok && len(m.Params) == 0 {
			return c.macro(m, nil)
		}
		if u, ok := c.x.specs.UFuns["$"+e.Name]; ok { // ghost variable
			s := c.x.ghostSort(e.Name)
			if heapReadHook != nil {
				heapReadHook("ghost:"+e.Name, s)
			}
			_ = u
			return Val{T: ghostType(u), C: []*Term{c.st.get("ghost:"+e.Name, s)}}
		}
		c.fail("unknown name %s", e.Name)
	case "let":
		return c.with(e.Name, c.eval(e.Args[0])).eval(e.Args[1])
	case "old":
		d := *c
		d.st = c.old
		return d.eval(e.Args[0])
	case "entry":
		if c.ent == nil {
			c.fail("entry() outside a loop invariant")
		}
		d := *c
		d.st = c.ent
		return d.eval(e.Args[0])
	case "cond":
		b := c.boolean(e.Args[0])
		p, q := c.eval(e.Args[1]), c.eval(e.Args[2])
		p, q = c.unifyNil(p, q)
		r := Val{T: p.T}
		for i := range p.C {
			r.C = append(r.C, Ite(b, p.C[i], q.C[i]))
		}
		return r
	case "un":
		if e.Name == "!" {
			return vBool(Not(c.boolean(e.Args[0])))
		}
		return vInt(Neg(c.term(e.Args[0])))
	case "bin":
		return c.bin(e)
	case "quant":
		return c.quant(e)
	case "field":
		return c.field(e)
	case "index":
		return c.index(e)
	case "slice":
		b := c.eval(e.Args[0])
		lo := I(0)
		if e.Args[1] != nil {
			lo = c.term(e.Args[1])
		}
		if isString(b.T) {
			hi := SLen(b.C[0])
			if e.Args[2] != nil {
				hi = c.term(e.Args[2])
			}
			return vStr(SSub(b.C[0], lo, hi))
		}
		hi := b.C[2]
		if e.Args[2] != nil {
			hi = c.term(e.Args[2])
		}
		return Val{T: b.T, C: []*Term{b.C[0], Add(b.C[1], lo), Sub(hi, lo), Sub(b.C[3], lo)}}
	case "is":
		v := c.eval(e.Args[0])
		T := c.typeOf(e.Name)
		return vBool(Eq(v.C[0], typeTag(T)))
	case "as":
		v := c.eval(e.Args[0])
		T := c.typeOf(e.Name)
		if isIface(v.T) {
			if isIface(T) {
				return Val{T: T, C: v.C}
			}
			return unboxVal(T, v.C[1])
		}
		return Val{T: T, C: v.C}
	case "zero":
		return zeroVal(c.typeOf(e.Name))
	case "typetag":
		return vInt(typeTag(c.typeOf(e.Name)))
	case "call":
		return c.call(e)
	}
	c.fail("expression kind %s", e.Kind)
	return Val{}
}

func ghostType(u *UFun) types.Type {
	if len(u.Args) == 0 {
		switch u.Ret {
		case "int":
			return tInt
		case "bool":
			return tBool
		case "string":
			return tStr
		}
	}
	return &ghostArr{u, 0}
}

// ghostArr is the pseudo type of an indexed ghost variable.
type ghostArr struct {
	u *UFun
	n int
}

func (g *ghostArr) Underlying() types.Type { return g }
func (g *ghostArr) String() string         { return "ghost " + g.u.Name }

func (c *Ctx) unifyNil(a, b Val) (Val, Val) {
	isN := func(v Val) bool {
		bt, ok := v.T.(*types.Basic)
		return ok && bt.Kind() == types.UntypedNil
	}
	if isN(a) && !isN(b) {
		return zeroVal(b.T), b
	}
	if isN(b) && !isN(a) {
		return a, zeroVal(a.T)
	}
	return a, b
}

func (c *Ctx) bin(e *SExpr) Val {
	switch e.Name {
	case "chain":
		return c.eval(e.Args[0])
	case "&&":
		a := c.boolean(e.Args[0])
		if a == TFalse {
			return vBool(TFalse)
		}
		return vBool(And(a, c.boolean(e.Args[1])))
	case "||":
		a := c.boolean(e.Args[0])
		if a == TTrue {
			return vBool(TTrue)
		}
		return vBool(Or(a, c.boolean(e.Args[1])))
	case "==>":
		a := c.boolean(e.Args[0])
		if a == TFalse {
			return vBool(TTrue)
		}
		return vBool(Implies(a, c.boolean(e.Args[1])))
	case "<==>":
		return vBool(Iff(c.boolean(e.Args[0]), c.boolean(e.Args[1])))
	case "in":
		k := c.eval(e.Args[0])
		m := c.eval(e.Args[1])
		if g, ok := m.T.(*ghostArr); ok {
			_ = g
			return vBool(Select(m.C[0], k.C[0]))
		}
		mt := under(m.T).(*types.Map)
		return vBool(And(Ne(m.C[0], I(0)), mapHas(c.st, mt, m.C[0], k.C[0])))
	}
	a, b := c.eval(e.Args[0]), c.eval(e.Args[1])
	switch e.Name {
	case "==", "!=":
		a, b = c.unifyNil(a, b)
		var t *Term
		if _, ok := under(a.T).(*types.Slice); ok && (e.Args[1].Kind == "nil" || e.Args[0].Kind == "nil") {
			if e.Args[1].Kind == "nil" {
				t = Eq(a.C[0], I(0))
			} else {
				t = Eq(b.C[0], I(0))
			}
		} else if isIface(a.T) && (e.Args[1].Kind == "nil") {
			t = Eq(a.C[0], I(0))
		} else if isIface(a.T) && !isIface(b.T) && len(b.C) == 1 {
			// interface against pointer
			t = And(Eq(a.C[0], typeTag(b.T)), Eq(a.C[1], b.C[0]))
		} else if len(a.C) != len(b.C) {
			c.fail("comparing %s with %s in %s", a.T, b.T, exprText(e))
		} else {
			t = eqVals(a, b)
		}
		if e.Name == "!=" {
			t = Not(t)
		}
		return vBool(t)
	}
	if len(a.C) != 1 || len(b.C) != 1 {
		c.fail("operands of %s", e.Name)
	}
	p, q := a.C[0], b.C[0]
	if p.Sort == SStr {
		switch e.Name {
		case "+":
			return vStr(Cat(p, q))
		case "<":
			return vBool(SLess(p, q))
		case ">":
			return vBool(SLess(q, p))
		case "<=":
			return vBool(Not(SLess(q, p)))
		case ">=":
			return vBool(Not(SLess(p, q)))
		}
	}
	switch e.Name {
	case "+":
		return vInt(Add(p, q))
	case "-":
		return vInt(Sub(p, q))
	case "*":
		return vInt(Mul(p, q))
	case "/":
		return vInt(DivF(p, q))
	case "%":
		return vInt(ModF(p, q))
	case "<":
		return vBool(Lt(p, q))
	case "<=":
		return vBool(Le(p, q))
	case ">":
		return vBool(Gt(p, q))
	case ">=":
		return vBool(Ge(p, q))
	}
	c.fail("operator %s", e.Name)
	return Val{}
}

func exprText(e *SExpr) string {
	if e.Src != "" {
		return e.Src
	}
	return e.Kind + " " + e.Name
}

func (c *Ctx) quant(e *SExpr) Val {
	d := c
	var vars []*Term
	var guards []*Term
	for _, v := range e.Vars {
		var T types.Type
		every := strings.HasPrefix(v.Type, "every ")
		v.Type = strings.TrimPrefix(v.Type, "every ")
		switch v.Type {
		case "int":
			T = tInt
		case "bool":
			T = tBool
		case "string":
			T = tStr
		case "ref":
			T = tInt
		default:
			T = c.typeOf(v.Type)
		}
		var comps []*Term
		for _, l := range leaves(T) {
			b := BVar(v.Name+l.path, l.sort)
			comps = append(comps, b)
			vars = append(vars, b)
		}
		if _, ok := under(T).(*types.Pointer); ok && !every {
			c.st.allocRead = true
			guards = append(guards, Ne(comps[0], I(0)), Le(comps[0], c.st.alloc))
		}
		if _, ok := under(T).(*types.Map); ok && !every {
			c.st.allocRead = true
			guards = append(guards, Lt(I(0), comps[0]), Le(comps[0], c.st.alloc))
		}
		if bt, ok := under(T).(*types.Basic); ok {
			if lo, hi, ok := intRange(bt); ok && v.Type != "int" {
				guards = append(guards, Le(IBig(lo), comps[0]), Le(comps[0], IBig(hi)))
			}
		}
		d = d.with(v.Name, Val{T: T, C: comps})
	}
	body := d.boolean(e.Args[0])
	var pats []*Term
	for _, p := range e.Pats {
		pats = append(pats, d.eval(p).C[0])
	}
	if e.Name == "forall" {
		return vBool(Quant(true, vars, Implies(And(guards...), body), pats...))
	}
	return vBool(Quant(false, vars, And(append(guards, body)...), pats...))
}

// fieldLocsOf: the locations of field name of the struct p points to.
func (c *Ctx) fieldLocsOf(p Val, name string) []loc {
	pt, ok := under(p.T).(*types.Pointer)
	if !ok {
		c.fail("field %s of %s (modifies)", name, p.T)
	}
	T := pt.Elem()
	if strings.HasPrefix(name, "$") {
		u, ok := c.x.specs.UFuns["$"+tkey(T)+"."+name[1:]]
		if !ok {
			c.fail("ghost field %s of %s", name, T)
		}
		return []loc{{tkey(T) + "." + name, []*Term{p.C[0]}, specSort(u.Ret), nil}}
	}
	st := under(T).(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Name() != name {
			continue
		}
		if isStruct(f.Type()) {
			return refLocs(f.Type(), subref(T, name, p.C[0]))
		}
		var out []loc
		for _, l := range leaves(f.Type()) {
			out = append(out, loc{tkey(T) + "." + name + l.path, []*Term{p.C[0]}, l.sort, l.typ})
		}
		return out
	}
	// promoted through embedded fields
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Embedded() && isStruct(f.Type()) && hasField(f.Type(), name) {
			return c.fieldLocsOf(Val{T: types.NewPointer(f.Type()), C: []*Term{subref(T, f.Name(), p.C[0])}}, name)
		}
	}
	c.fail("no field %s in %s", name, T)
	return nil
}

func hasField(T types.Type, n string) bool {
	st, ok := under(T).(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == n {
			return true
		}
		if st.Field(i).Embedded() && hasField(st.Field(i).Type(), n) {
			return true
		}
	}
	return false
}

func (c *Ctx) field(e *SExpr) Val {
	// package-qualified constant or variable
	if e.Args[0].Kind == "id" {
		if _, bound := c.names[e.Args[0].Name]; !bound {
			if v, ok := c.x.prog.pkgConst(e.Args[0].Name, e.Name); ok {
				return v
			}
			if v, ok := c.x.prog.pkgVar(c.st, e.Args[0].Name, e.Name); ok {
				return v
			}
		}
	}
	b := c.eval(e.Args[0])
	if _, ok := under(b.T).(*types.Pointer); ok {
		if b.Addr != nil {
			c.fail("interior pointer")
		}
		T := under(b.T).(*types.Pointer).Elem()
		if strings.HasPrefix(e.Name, "$") {
			ls := c.fieldLocsOf(b, e.Name)
			u := c.x.specs.UFuns["$"+tkey(T)+"."+e.Name[1:]]
			return Val{T: ghostType(&UFun{Ret: u.Ret}), C: []*Term{c.st.read(ls[0])}}
		}
		if !isStruct(T) {
			c.fail("field %s of %s", e.Name, b.T)
		}
		ft := fieldType(T, e.Name)
		if ft == nil {
			c.fail("no field %s in %s", e.Name, T)
		}
		r := Val{T: ft}
		for _, l := range c.fieldLocsOf(b, e.Name) {
			r.C = append(r.C, c.st.read(l))
		}
		return r
	}
	if st, ok := under(b.T).(*types.Struct); ok {
		n := 0
		for i := 0; i < st.NumFields(); i++ {
			k := len(leaves(st.Field(i).Type()))
			if st.Field(i).Name() == e.Name {
				return Val{T: st.Field(i).Type(), C: b.C[n : n+k]}
			}
			n += k
		}
	}
	if isIface(b.T) {
		switch e.Name {
		case "$tag":
			return vInt(b.C[0])
		case "$val":
			return vInt(b.C[1])
		}
	}
	if _, ok := under(b.T).(*types.Slice); ok {
		switch e.Name {
		case "$arr":
			return vInt(b.C[0])
		case "$off":
			return vInt(b.C[1])
		case "$cap":
			return vInt(b.C[3])
		}
	}
	c.fail("field %s of %s", e.Name, b.T)
	return Val{}
}

func fieldType(T types.Type, n string) types.Type {
	st := under(T).(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == n {
			return st.Field(i).Type()
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); f.Embedded() && isStruct(f.Type()) {
			if t := fieldType(f.Type(), n); t != nil {
				return t
			}
		}
	}
	return nil
}

func (c *Ctx) index(e *SExpr) Val {
	b := c.eval(e.Args[0])
	i := c.eval(e.Args[1])
	if g, ok := b.T.(*ghostArr); ok {
		t := Select(b.C[0], i.C[0])
		if g.n+1 < len(g.u.Args) {
			return Val{T: &ghostArr{g.u, g.n + 1}, C: []*Term{t}}
		}
		return Val{T: ghostType(&UFun{Ret: g.u.Ret}), C: []*Term{t}}
	}
	switch u := under(b.T).(type) {
	case *types.Slice:
		r := Val{T: u.Elem()}
		for _, l := range addrLocs(&Addr{elemKey(u.Elem()), []*Term{b.C[0], Add(b.C[1], i.C[0])}, u.Elem()}) {
			r.C = append(r.C, c.st.read(l))
		}
		return r
	case *types.Map:
		r := Val{T: u.Elem()}
		has := And(Ne(b.C[0], I(0)), mapHas(c.st, u, b.C[0], i.C[0]))
		z := zeroVal(u.Elem())
		for j, t := range mapGet(c.st, u, b.C[0], i.C[0]) {
			r.C = append(r.C, Ite(has, t, z.C[j]))
		}
		return r
	case *types.Basic:
		if isString(b.T) {
			return vInt(SAt(b.C[0], i.C[0]))
		}
	}
	c.fail("index of %s", b.T)
	return Val{}
}

func (c *Ctx) call(e *SExpr) Val {
	var args []Val
	ev := func(i int) Val {
		for len(args) <= i {
			args = append(args, c.eval(e.Args[len(args)]))
		}
		return args[i]
	}
	all := func() []Val {
		for i := range e.Args {
			ev(i)
		}
		return args
	}
	switch e.Name {
	case "len":
		v := ev(0)
		switch u := under(v.T).(type) {
		case *types.Slice:
			return vInt(v.C[2])
		case *types.Basic:
			return vInt(SLen(v.C[0]))
		case *types.Map:
			return vInt(Ite(Eq(v.C[0], I(0)), I(0), c.st.read(loc{mapBase(u) + "#n", []*Term{v.C[0]}, SInt, nil})))
		}
		c.fail("len of %s", v.T)
	case "contains":
		return vBool(SContains(ev(0).C[0], ev(1).C[0]))
	case "prefix":
		return vBool(SPrefix(ev(0).C[0], ev(1).C[0]))
	case "suffix":
		return vBool(SSuffix(ev(0).C[0], ev(1).C[0]))
	case "fresh": // allocated since the old state
		v := ev(0)
		c.st.allocRead = true
		return vBool(And(Lt(c.old.alloc, v.C[0]), Le(v.C[0], c.st.alloc)))
	case "freshelems": // backing array allocated since old, or the same array in place
		v := ev(0)
		c.st.allocRead = true
		return vBool(Or(Lt(c.old.alloc, v.C[0]), Eq(v.C[3], I(0))))
	case "allocated":
		v := ev(0)
		c.st.allocRead = true
		return vBool(Le(v.C[0], c.st.alloc))
	case "addr": // address of an embedded struct field: addr(x.F)
		f := e.Args[0]
		b := c.eval(f.Args[0])
		T := under(b.T).(*types.Pointer).Elem()
		return Val{T: types.NewPointer(fieldType(T, f.Name)), C: []*Term{subref(T, f.Name, b.C[0])}}
	case "deref":
		v := ev(0)
		r := Val{T: under(v.T).(*types.Pointer).Elem()}
		for _, l := range ptrLocs(v) {
			r.C = append(r.C, c.st.read(l))
		}
		return r
	case "str": // string(bytes)
		v := ev(0)
		el := under(v.T).(*types.Slice).Elem()
		if heapReadHook != nil {
			heapReadHook(elemKey(el), heapSort(2, SInt))
		}
		row := Select(c.st.get(elemKey(el), heapSort(2, SInt)), v.C[0])
		return vStr(App("bytes2str", SStr, row, v.C[1], v.C[2]))
	case "runestr":
		return vStr(App("rune2str", SStr, ev(0).C[0]))
	case "visited": // visited(it, k)
		it := ev(0)
		k := ev(1)
		if it.Iter == nil {
			c.fail("visited of a non-iterator")
		}
		ks := mapKeySort(under(it.Iter.x.T).(*types.Map))
		return vBool(Select(Select(c.st.get("iter.seen:"+string(ks), ArrS(SInt, ArrS(ks, SBool))), it.Iter.id), k.C[0]))
	case "rangeof":
		return ev(0).Iter.x
	case "iterpos":
		return vInt(c.st.read(loc{"iter.pos", []*Term{ev(0).Iter.id}, SInt, nil}))
	case "samerow": // the element arrays of two slice values have equal contents
	case "min", "max":
		a, b := ev(0).C[0], ev(1).C[0]
		if e.Name == "min" {
			return vInt(Ite(Le(a, b), a, b))
		}
		return vInt(Ite(Le(a, b), b, a))
	case "unchanged": // unchanged(x.f): same value as in the old state
		d := *c
		d.st = c.old
		return vBool(eqVals(ev(0), d.eval(e.Args[0])))
	}
	if m, ok := c.x.specs.Macros[e.Name]; ok {
		return c.macro(m, all())
	}
	if u, ok := c.x.specs.UFuns[e.Name]; ok {
		var ts []*Term
		for i := range e.Args {
			ts = append(ts, ev(i).C...)
		}
		var T types.Type
		switch u.Ret {
		case "int":
			T = tInt
		case "bool":
			T = tBool
		case "string":
			T = tStr
		default:
			T = c.typeOf(u.Ret)
		}
		r := Val{T: T}
		for i, l := range leaves(T) {
			n := "u:" + e.Name
			if i > 0 {
				n += fmt.Sprint(":", i)
			}
			r.C = append(r.C, App(n, l.sort, ts...))
		}
		return r
	}
	// a pure Go function
	if con, ok := c.x.specs.Contracts[e.Name]; ok && con.Pure {
		return c.pureCall(con, e.Name, 0, all())
	}
	if i := strings.LastIndexByte(e.Name, '_'); i > 0 {
		if con, ok := c.x.specs.Contracts[e.Name[:i]]; ok && con.Pure {
			n := 0
			fmt.Sscan(e.Name[i+1:], &n)
			return c.pureCall(con, e.Name[:i], n, all())
		}
	}
	for k, con := range c.x.specs.Contracts {
		if con.Opts["specname"] == e.Name && con.Pure {
			return c.pureCall(con, k, 0, all())
		}
	}
	c.fail("unknown function %s", e.Name)
	return Val{}
}

func (c *Ctx) pureCall(con *Contract, key string, res int, args []Val) Val {
	sig := c.x.prog.sigOf(key)
	if sig == nil {
		c.fail("no function %s", key)
	}
	T := sig.Results().At(res).Type()
	r := Val{T: T}
	var flat []*Term
	for _, a := range args {
		flat = append(flat, a.C...)
	}
	if len(con.Reads) > 0 {
		flat = append(flat, c.x.readVals(con, &Ctx{x: c.x, st: c.st, old: c.st, names: bindNames(con, sig, args), where: con.File})...)
	}
	for j, l := range leaves(T) {
		r.C = append(r.C, pureApp(key, res, j, l.sort, flat))
	}
	return r
}

func (c *Ctx) macro(m *Macro, args []Val) Val {
	if len(args) != len(m.Params) {
		c.fail("%s takes %d arguments", m.Name, len(m.Params))
	}
	if m.Rec && !(m.Opaque && c.x.unfolds(m.Name)) {
		return c.recApp(m, args)
	}
	if c.depth > 60 {
		c.fail("macro recursion in %s", m.Name)
	}
	d := *c
	d.depth++
	d.names = map[string]Val{}
	for i, p := range m.Params {
		v := args[i]
		if p.Type != "" {
			if b, ok := v.T.(*types.Basic); ok && b.Kind() == types.UntypedNil {
				v = zeroVal(c.typeOf(p.Type))
			}
		}
		d.names[p.Name] = v
	}
	d.where = c.where
	return d.eval(m.Body)
}

// ---- recursive specification functions

type recInfo struct {
	m      *Macro
	ptypes []types.Type
	ret    types.Type
	keys   []string
	sorts  map[string]Sort
}

var recInfos = map[string]*recInfo{}
var recDefs = map[string]*recInfo{} // by UF name

func (c *Ctx) specType(s string) types.Type {
	switch s {
	case "int", "ref":
		return tInt
	case "bool":
		return tBool
	case "string":
		return tStr
	}
	return c.typeOf(s)
}

func (c *Ctx) recInfoOf(m *Macro) *recInfo {
	if r, ok := recInfos[m.Name]; ok {
		return r
	}
	r := &recInfo{m: m, ret: c.specType(m.Ret), sorts: map[string]Sort{}}
	for _, p := range m.Params {
		r.ptypes = append(r.ptypes, c.specType(p.Type))
	}
	recInfos[m.Name] = r
	recDefs["rec:"+m.Name] = r
	// one trial evaluation discovers which heap components the body reads
	saved := heapReadHook
	keys := map[string]Sort{}
	heapReadHook = nil
	noOld(c, m.Body)
	st := &State{heap: map[string]*Term{}, epoch: "rec", alloc: Sym("recalloc", SInt), reads: keys}
	d := &Ctx{x: c.x, st: st, old: st, names: map[string]Val{}, where: c.where}
	for i, p := range m.Params {
		v := freshVal("rp", r.ptypes[i])
		d.names[p.Name] = v
	}
	d.eval(m.Body)
	heapReadHook = saved
	if st.allocRead {
		c.fail("%s depends on what is allocated", m.Name)
	}
	for k, s := range keys {
		r.keys = append(r.keys, k)
		r.sorts[k] = s
	}
	sort.Strings(r.keys)
	return r
}

func (c *Ctx) recApp(m *Macro, args []Val) Val {
	_, known := recInfos[m.Name]
	r := c.recInfoOf(m)
	_ = known
	var ts []*Term
	for i, a := range args {
		if b, ok := a.T.(*types.Basic); ok && b.Kind() == types.UntypedNil {
			a = zeroVal(r.ptypes[i])
		}
		if len(a.C) != len(leaves(r.ptypes[i])) {
			c.fail("argument %d of %s", i, m.Name)
		}
		ts = append(ts, a.C...)
	}
	for _, k := range r.keys {
		if heapReadHook != nil {
			heapReadHook(k, r.sorts[k])
		}
		ts = append(ts, c.st.get(k, r.sorts[k]))
	}
	if len(leaves(r.ret)) != 1 {
		c.fail("recursive function %s must return a scalar", m.Name)
	}
	t := App("rec:"+m.Name, leaves(r.ret)[0].sort, ts...)
	if !c.base {
		// an application whose arguments decide for a base case is that case
		for _, a := range args {
			if len(a.C) == 1 && a.C[0].Op == "int" {
				eq := unfoldRecIn(c.x, t, true)
				if v := baseOf(eq, t); v != nil {
					return Val{T: r.ret, C: []*Term{v}}
				}
				break
			}
		}
	}
	return Val{T: r.ret, C: []*Term{t}}
}

// baseOf: the side of the definitional equation eq other than t, if it is a
// string literal.
func baseOf(eq, t *Term) *Term {
	if eq.Op == "=" {
		for _, a := range eq.Args {
			if a != t && a.Op == "str" {
				return a
			}
		}
	}
	return nil
}

// unfoldRec gives the definitional equation of a recursive application.
func unfoldRec(x *Ex, t *Term) *Term { return unfoldRecIn(x, t, false) }

func unfoldRecIn(x *Ex, t *Term, base bool) *Term {
	r := recDefs[t.Name]
	st := &State{heap: map[string]*Term{}, epoch: "recu", alloc: Sym("recalloc", SInt)}
	d := &Ctx{x: x, st: st, old: st, names: map[string]Val{}, base: base}
	n := 0
	for i, p := range r.m.Params {
		k := len(leaves(r.ptypes[i]))
		d.names[p.Name] = Val{T: r.ptypes[i], C: t.Args[n : n+k]}
		n += k
	}
	for i, k := range r.keys {
		st.heap[k] = t.Args[n+i]
	}
	return Eq(t, d.eval(r.m.Body).C[0])
}

// unfolds tells whether the function under verification sees the definition of
// an opaque predicate; everywhere else it is a function of its arguments and of
// the heap components it reads, and nothing more.
func (x *Ex) unfolds(name string) bool {
	if x.con == nil {
		return false
	}
	for _, n := range strings.Fields(x.con.Opts["unfold"] + " " + x.con.Opts["unfold@"+x.prop]) {
		if n == name {
			return true
		}
	}
	return false
}

// noOld refuses old() and entry() in a definition that is a function of one state.
func noOld(c *Ctx, e *SExpr) {
	if e == nil {
		return
	}
	if e.Kind == "old" || e.Kind == "entry" || e.Kind == "call" && e.Name == "unchanged" {
		c.fail("%s in a recursive or opaque definition", e.Kind)
	}
	for _, a := range e.Args {
		noOld(c, a)
	}
}
