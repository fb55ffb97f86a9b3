package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Ex) newRef(st *State) *Term {
	r := Add(st.alloc, I(1))
	st.alloc = r
	return r
}

func (x *Ex) initZero(st *State, T types.Type, ref *Term) {
	switch u := under(T).(type) {
	case *types.Struct:
		for _, l := range refLocs(T, ref) {
			x.write(st, l, zeroTerm(l.sort))
		}
		for _, l := range x.ghostLocs(T, ref) {
			x.write(st, l, zeroTerm(l.sort))
		}
	case *types.Array:
		x.zeroRow(st, u.Elem(), ref)
	default:
		for _, l := range addrLocs(&Addr{"cell:" + tkey(T), []*Term{ref}, T}) {
			x.write(st, l, zeroTerm(l.sort))
		}
	}
}

// ghostLocs: the ghost fields of a struct and of the structs inside it.
func (x *Ex) ghostLocs(T types.Type, ref *Term) []loc {
	var out []loc
	pre := "$" + tkey(T) + "."
	for n, u := range x.specs.UFuns {
		if strings.HasPrefix(n, pre) {
			out = append(out, loc{tkey(T) + ".$" + n[len(pre):], []*Term{ref}, specSort(u.Ret), nil})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key < out[j].key })
	if s, ok := under(T).(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if f := s.Field(i); isStruct(f.Type()) {
				out = append(out, x.ghostLocs(f.Type(), subref(T, f.Name(), ref))...)
			}
		}
	}
	return out
}

func (x *Ex) zeroRow(st *State, el types.Type, arr *Term) {
	for _, l := range leaves(el) {
		srt := heapSort(2, l.sort)
		_, row := splitArr(srt)
		x.writeRow(st, elemKey(el)+l.path, srt, arr, ConstArr(row, zeroTerm(l.sort)))
	}
}

func (x *Ex) instr(fr *Frame, st *State, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		el := under(in.Type()).(*types.Pointer).Elem()
		ref := x.newRef(st)
		x.initZero(st, el, ref)
		st.env[in] = Val{T: in.Type(), C: []*Term{ref}}
	case *ssa.UnOp:
		st.env[in] = x.unop(st, in)
	case *ssa.BinOp:
		a, b := x.val(st, in.X), x.val(st, in.Y)
		st.env[in] = x.binop(st, in.Op, a, b, in.Type(), in.Pos())
	case *ssa.ChangeType:
		v := x.val(st, in.X)
		v.T = in.Type()
		st.env[in] = v
	case *ssa.ChangeInterface:
		v := x.val(st, in.X)
		v.T = in.Type()
		st.env[in] = v
	case *ssa.Convert:
		st.env[in] = x.convert(st, x.val(st, in.X), in.Type(), in.Pos())
	case *ssa.MakeInterface:
		v := x.val(st, in.X)
		if v.Addr != nil {
			unsupported("interior pointer in an interface")
		}
		v.T = in.X.Type()
		st.env[in] = Val{T: in.Type(), C: []*Term{typeTag(in.X.Type()), boxVal(st, v)}}
	case *ssa.MakeClosure:
		f := in.Fn.(*ssa.Function)
		fv := &FnVal{Fn: f}
		for _, b := range in.Bindings {
			fv.Bind = append(fv.Bind, x.val(st, b))
		}
		id := Fresh("closure", SInt)
		st.assume(Lt(I(0), id))
		x.prog.fnByTerm[id] = fv
		st.env[in] = Val{T: in.Type(), C: []*Term{id}, Fn: fv}
	case *ssa.Extract:
		t := x.val(st, in.Tuple)
		if len(t.Tup) <= in.Index {
			unsupported("extract from %s", in.Tuple)
		}
		v := t.Tup[in.Index]
		v.T = in.Type()
		st.env[in] = v
	case *ssa.Field:
		v := x.val(st, in.X)
		u := under(in.X.Type()).(*types.Struct)
		n := 0
		for i := 0; i < in.Field; i++ {
			n += len(leaves(u.Field(i).Type()))
		}
		k := len(leaves(u.Field(in.Field).Type()))
		st.env[in] = Val{T: in.Type(), C: v.C[n : n+k]}
	case *ssa.FieldAddr:
		p := x.val(st, in.X)
		pt := under(in.X.Type()).(*types.Pointer).Elem()
		u := under(pt).(*types.Struct)
		f := u.Field(in.Field)
		if p.Addr != nil {
			st.env[in] = Val{T: in.Type(), C: []*Term{I(1)}, Addr: &Addr{p.Addr.Key + "." + f.Name(), p.Addr.Idx, f.Type()}}
			return
		}
		x.oblige(st, "nil", "field "+f.Name()+" of a non-nil "+tkey(pt), in.Pos(), Ne(p.C[0], I(0)))
		if isStruct(f.Type()) {
			st.env[in] = Val{T: in.Type(), C: []*Term{subref(pt, f.Name(), p.C[0])}}
			return
		}
		st.env[in] = Val{T: in.Type(), C: []*Term{I(1)}, Addr: &Addr{tkey(pt) + "." + f.Name(), []*Term{p.C[0]}, f.Type()}}
	case *ssa.IndexAddr:
		b := x.val(st, in.X)
		i := x.val(st, in.Index).C[0]
		switch u := under(in.X.Type()).(type) {
		case *types.Slice:
			x.oblige(st, "bounds", "slice index in range", in.Pos(), And(Le(I(0), i), Lt(i, b.C[2])))
			st.env[in] = Val{T: in.Type(), C: []*Term{I(1)}, Addr: &Addr{elemKey(u.Elem()), []*Term{b.C[0], Add(b.C[1], i)}, u.Elem()}}
		case *types.Pointer:
			a := under(u.Elem()).(*types.Array)
			x.oblige(st, "bounds", "array index in range", in.Pos(), And(Le(I(0), i), Lt(i, I(a.Len()))))
			ref := b.C[0]
			if b.Addr != nil {
				if g, ok := in.X.(*ssa.Global); ok {
					x.prog.globalArray(st, g)
				} else {
					unsupported("array inside %s", b.Addr.Key)
				}
			}
			st.env[in] = Val{T: in.Type(), C: []*Term{I(1)}, Addr: &Addr{elemKey(a.Elem()), []*Term{ref, i}, a.Elem()}}
		default:
			unsupported("IndexAddr of %s", in.X.Type())
		}
	case *ssa.Index:
		b := x.val(st, in.X)
		i := x.val(st, in.Index).C[0]
		if isString(in.X.Type()) {
			x.oblige(st, "bounds", "string index in range", in.Pos(), And(Le(I(0), i), Lt(i, SLen(b.C[0]))))
			st.env[in] = Val{T: in.Type(), C: []*Term{SAt(b.C[0], i)}}
			x.facts(st, st.env[in])
			return
		}
		unsupported("Index of %s", in.X.Type())
	case *ssa.Lookup:
		st.env[in] = x.lookup(st, in)
	case *ssa.MapUpdate:
		m := x.val(st, in.Map)
		k, v := x.val(st, in.Key), x.val(st, in.Value)
		x.oblige(st, "nilmap", "assignment to a non-nil map", in.Pos(), Ne(m.C[0], I(0)))
		x.mapStore(st, in.Map.Type(), m.C[0], k, v)
	case *ssa.MakeMap:
		ref := x.newRef(st)
		mt := under(in.Type()).(*types.Map)
		x.mapInit(st, mt, ref)
		st.env[in] = Val{T: in.Type(), C: []*Term{ref}}
	case *ssa.MakeSlice:
		n := x.val(st, in.Len).C[0]
		c := x.val(st, in.Cap).C[0]
		x.oblige(st, "bounds", "make([]T) length in range", in.Pos(), And(Le(I(0), n), Le(n, c)))
		ref := x.newRef(st)
		x.zeroRow(st, under(in.Type()).(*types.Slice).Elem(), ref)
		st.env[in] = Val{T: in.Type(), C: []*Term{ref, I(0), n, c}}
	case *ssa.Slice:
		st.env[in] = x.slice(st, in)
	case *ssa.Store:
		x.storeTo(st, x.val(st, in.Addr), x.val(st, in.Val), in.Pos(), "store through a non-nil pointer")
	case *ssa.TypeAssert:
		st.env[in] = x.typeAssert(st, in)
	case *ssa.Range:
		v := x.val(st, in.X)
		ref := x.newRef(st)
		it := &iterVal{id: ref, x: v}
		v.T = in.X.Type()
		it.x.T = in.X.Type()
		if isString(in.X.Type()) {
			it.str = true
			x.write(st, loc{"iter.pos", []*Term{ref}, SInt, nil}, I(0))
		} else {
			ks := mapKeySort(under(in.X.Type()).(*types.Map))
			x.writeRow(st, "iter.seen:"+string(ks), ArrS(SInt, ArrS(ks, SBool)), ref, ConstArr(ArrS(ks, SBool), TFalse))
		}
		st.env[in] = Val{T: in.Type(), C: []*Term{ref}, Iter: it}
	case *ssa.Next:
		st.env[in] = x.next(st, in)
	case *ssa.Defer:
		d := deferred{call: &in.Call}
		if !in.Call.IsInvoke() {
			if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
				d.fn = x.val(st, in.Call.Value)
			}
		} else {
			d.fn = x.val(st, in.Call.Value)
		}
		for _, a := range in.Call.Args {
			d.args = append(d.args, x.val(st, a))
		}
		st.defers = append(append([]deferred{}, st.defers...), d)
	default:
		unsupported("instruction %T in %s", in, fr.fn)
	}
}

func (x *Ex) unop(st *State, in *ssa.UnOp) Val {
	v := x.val(st, in.X)
	switch in.Op {
	case token.MUL:
		if isStruct(in.Type()) && len(x.ghostLocs(in.Type(), I(0))) > 0 {
			unsupported("copy of a %s, which has ghost fields", tkey(in.Type()))
		}
		return x.load(st, v, in.Pos(), "load through a non-nil pointer")
	case token.NOT:
		return Val{T: in.Type(), C: []*Term{Not(v.C[0])}}
	case token.SUB:
		if isIntT(in.Type()) {
			return Val{T: in.Type(), C: []*Term{wrapInt(in.Type(), Neg(v.C[0]))}}
		}
		return Val{T: in.Type(), C: []*Term{App("fneg", SInt, v.C[0])}}
	case token.XOR:
		return Val{T: in.Type(), C: []*Term{wrapInt(in.Type(), Sub(I(-1), v.C[0]))}}
	}
	unsupported("unary %s", in.Op)
	return Val{}
}

func wrapInt(T types.Type, t *Term) *Term {
	b, ok := under(T).(*types.Basic)
	if !ok {
		return t
	}
	bits, signed := 0, false
	switch b.Kind() {
	case types.Uint8:
		bits = 8
	case types.Uint16:
		bits = 16
	case types.Uint32:
		bits = 32
	case types.Uint64, types.Uint, types.Uintptr:
		bits = 64
	case types.Int8:
		bits, signed = 8, true
	case types.Int16:
		bits, signed = 16, true
	case types.Int32:
		bits, signed = 32, true
	default:
		return t
	}
	if n := bigOrNil(t); n != nil {
		lo, hi, _ := intRange(b)
		if n.Cmp(bigOf(lo)) >= 0 && n.Cmp(bigOf(hi)) <= 0 {
			return t
		}
	}
	m := new(big.Int).Lsh(big.NewInt(1), uint(bits))
	if !signed {
		return mk("mod", "", SInt, t, IBig(m.String()))
	}
	h := new(big.Int).Rsh(m, 1)
	return Sub(mk("mod", "", SInt, Add(t, IBig(h.String())), IBig(m.String())), IBig(h.String()))
}

func bigOrNil(t *Term) *big.Int {
	if t.Op != "int" {
		return nil
	}
	return bigOf(t.Name)
}

func eqVals(a, b Val) *Term {
	var cs []*Term
	for i := range a.C {
		cs = append(cs, Eq(a.C[i], b.C[i]))
	}
	return And(cs...)
}

func (x *Ex) binop(st *State, op token.Token, a, b Val, T types.Type, pos token.Pos) Val {
	R := func(t *Term) Val { return Val{T: T, C: []*Term{t}} }
	switch op {
	case token.EQL, token.NEQ:
		var e *Term
		if a.Addr != nil || b.Addr != nil {
			if isNilConst(a) || isNilConst(b) {
				e = TFalse
			} else {
				unsupported("comparing interior pointers")
			}
		} else if _, ok := under(a.T).(*types.Slice); ok { // only comparison with nil
			if isNilConst(b) {
				e = Eq(a.C[0], I(0))
			} else {
				e = Eq(b.C[0], I(0))
			}
		} else if len(a.C) != len(b.C) {
			// interface against concrete value
			unsupported("mixed comparison %s %s", a.T, b.T)
		} else if isIface(a.T) && (b.C[0] == I(0) || a.C[0] == I(0)) {
			if b.C[0] == I(0) {
				e = Eq(a.C[0], I(0))
			} else {
				e = Eq(b.C[0], I(0))
			}
		} else {
			e = eqVals(a, b)
		}
		if op == token.NEQ {
			e = Not(e)
		}
		return R(e)
	}
	if isString(a.T) {
		switch op {
		case token.ADD:
			return R(Cat(a.C[0], b.C[0]))
		case token.LSS:
			return R(SLess(a.C[0], b.C[0]))
		case token.GTR:
			return R(SLess(b.C[0], a.C[0]))
		case token.LEQ:
			return R(Not(SLess(b.C[0], a.C[0])))
		case token.GEQ:
			return R(Not(SLess(a.C[0], b.C[0])))
		}
	}
	if bt, ok := under(a.T).(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
		p, q := a.C[0], b.C[0]
		switch op {
		case token.ADD:
			return R(wrapInt(T, Add(p, q)))
		case token.SUB:
			return R(wrapInt(T, Sub(p, q)))
		case token.MUL:
			return R(wrapInt(T, Mul(p, q)))
		case token.QUO:
			x.oblige(st, "div", "division by a non-zero value", pos, Ne(q, I(0)))
			if n, ok := q.IsInt(); ok && n > 0 {
				return R(Ite(Le(I(0), p), DivF(p, q), Neg(DivF(Neg(p), q))))
			}
			return R(App("quo", SInt, p, q))
		case token.REM:
			x.oblige(st, "div", "division by a non-zero value", pos, Ne(q, I(0)))
			if n, ok := q.IsInt(); ok && n > 0 {
				return R(Ite(Le(I(0), p), ModF(p, q), Neg(ModF(Neg(p), q))))
			}
			return R(App("rem", SInt, p, q))
		case token.LSS:
			return R(Lt(p, q))
		case token.LEQ:
			return R(Le(p, q))
		case token.GTR:
			return R(Lt(q, p))
		case token.GEQ:
			return R(Le(q, p))
		case token.OR:
			return R(bitOr(st, p, q))
		case token.AND:
			return R(bitAnd(st, p, q))
		case token.SHL:
			if n, ok := q.IsInt(); ok && n < 63 {
				return R(wrapInt(T, Mul(p, I(1<<uint(n)))))
			}
		case token.SHR:
			if n, ok := q.IsInt(); ok && n < 63 {
				return R(DivF(p, I(1<<uint(n))))
			}
		}
		return R(App("int"+op.String(), SInt, p, q))
	}
	if bt, ok := under(a.T).(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
		switch op {
		case token.AND:
			return R(And(a.C[0], b.C[0]))
		case token.OR:
			return R(Or(a.C[0], b.C[0]))
		}
	}
	// floating point: uninterpreted
	if l := leaves(T); len(l) == 1 {
		return R(App("fl"+op.String(), l[0].sort, a.C[0], b.C[0]))
	}
	unsupported("binary %s on %s", op, a.T)
	return Val{}
}

func isNilConst(v Val) bool {
	if v.Addr != nil || len(v.C) == 0 {
		return false
	}
	return v.C[0] == I(0)
}

func pow2(n int64) (int, bool) {
	for i := 0; i < 62; i++ {
		if n == 1<<uint(i) {
			return i, true
		}
	}
	return 0, false
}

func bitOr(st *State, p, q *Term) *Term {
	if p.Op == "int" {
		p, q = q, p
	}
	if n, ok := q.IsInt(); ok {
		if m, ok := p.IsInt(); ok {
			return I(m | n)
		}
		if n == 0 {
			return p
		}
		if k, ok := pow2(n); ok {
			return Add(p, Mul(I(n), Sub(I(1), ModF(DivF(p, I(1<<uint(k))), I(2)))))
		}
	}
	r := App("bor", SInt, p, q)
	bit := func(t *Term, k int64) *Term { return ModF(DivF(t, I(k)), I(2)) }
	for _, k := range []int64{1, 2} {
		st.assume(Eq(bit(r, k), Ite(Or(Eq(bit(p, k), I(1)), Eq(bit(q, k), I(1))), I(1), I(0))))
	}
	st.assume(Implies(And(Le(I(0), p), Le(I(0), q)), And(Le(p, r), Le(q, r), Le(r, Add(p, q)))))
	return r
}

func bitAnd(st *State, p, q *Term) *Term {
	if p.Op == "int" {
		p, q = q, p
	}
	if n, ok := q.IsInt(); ok {
		if m, ok := p.IsInt(); ok {
			return I(m & n)
		}
		if k, ok := pow2(n); ok {
			return Mul(I(n), ModF(DivF(p, I(1<<uint(k))), I(2)))
		}
		if _, ok := pow2(n + 1); ok {
			return ModF(p, I(n+1))
		}
	}
	r := App("band", SInt, p, q)
	st.assume(Implies(And(Le(I(0), p), Le(I(0), q)), And(Le(I(0), r), Le(r, p), Le(r, q))))
	return r
}

func (x *Ex) convert(st *State, v Val, T types.Type, pos token.Pos) Val {
	from, to := under(v.T), under(T)
	fb, fok := from.(*types.Basic)
	tb, tok := to.(*types.Basic)
	switch {
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		lo1, hi1, ok1 := intRange(fb)
		lo2, hi2, ok2 := intRange(tb)
		if !ok2 || (ok1 && bigOf(lo1).Cmp(bigOf(lo2)) >= 0 && bigOf(hi1).Cmp(bigOf(hi2)) <= 0) {
			return Val{T: T, C: v.C}
		}
		return Val{T: T, C: []*Term{wrapInt(T, v.C[0])}}
	case fok && tok && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		return Val{T: T, C: v.C}
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
		r := App("rune2str", SStr, v.C[0])
		return Val{T: T, C: []*Term{r}}
	case tok && tb.Info()&types.IsString != 0:
		if s, ok := from.(*types.Slice); ok {
			eb, ok := under(s.Elem()).(*types.Basic)
			if ok && eb.Kind() == types.Uint8 {
				row := Select(st.get(elemKey(s.Elem()), heapSort(2, SInt)), v.C[0])
				return Val{T: T, C: []*Term{App("bytes2str", SStr, row, v.C[1], v.C[2])}}
			}
			row := Select(st.get(elemKey(s.Elem()), heapSort(2, SInt)), v.C[0])
			return Val{T: T, C: []*Term{App("runes2str", SStr, row, v.C[1], v.C[2])}}
		}
	case fok && fb.Info()&types.IsString != 0:
		if s, ok := to.(*types.Slice); ok {
			ref := x.newRef(st)
			eb, ok := under(s.Elem()).(*types.Basic)
			srt := heapSort(2, SInt)
			if ok && eb.Kind() == types.Uint8 {
				x.writeRow(st, elemKey(s.Elem()), srt, ref, App("str2bytes", ArrS(SInt, SInt), v.C[0]))
				n := SLen(v.C[0])
				return Val{T: T, C: []*Term{ref, I(0), n, n}}
			}
			x.writeRow(st, elemKey(s.Elem()), srt, ref, App("str2runes", ArrS(SInt, SInt), v.C[0]))
			n := App("runecount", SInt, v.C[0])
			st.assume(And(Le(I(0), n), Le(n, SLen(v.C[0])), Eq(Eq(n, I(0)), Eq(SLen(v.C[0]), I(0)))))
			return Val{T: T, C: []*Term{ref, I(0), n, n}}
		}
	}
	if fok && tok {
		return Val{T: T, C: []*Term{App("conv:"+tkey(v.T)+":"+tkey(T), leaves(T)[0].sort, v.C[0])}}
	}
	unsupported("conversion %s to %s", v.T, T)
	return Val{}
}

// ---- maps

func mapKeySort(m *types.Map) Sort {
	l := leaves(m.Key())
	if len(l) != 1 {
		unsupported("map key %s", m.Key())
	}
	return l[0].sort
}

func mapBase(m *types.Map) string { return "map:" + tkey(m.Key()) + ":" + tkey(m.Elem()) }

func (x *Ex) mapInit(st *State, m *types.Map, ref *Term) {
	ks := mapKeySort(m)
	row := ArrS(ks, SBool)
	x.writeRow(st, mapBase(m)+"?", ArrS(SInt, row), ref, ConstArr(row, TFalse))
	x.write(st, loc{mapBase(m) + "#n", []*Term{ref}, SInt, nil}, I(0))
}

func mapHas(st *State, m *types.Map, ref, k *Term) *Term {
	ks := mapKeySort(m)
	if heapReadHook != nil {
		heapReadHook(mapBase(m)+"?", ArrS(SInt, ArrS(ks, SBool)))
	}
	return Select(Select(st.get(mapBase(m)+"?", ArrS(SInt, ArrS(ks, SBool))), ref), k)
}
func mapGet(st *State, m *types.Map, ref, k *Term) []*Term {
	ks := mapKeySort(m)
	var out []*Term
	for _, l := range leaves(m.Elem()) {
		srt := ArrS(SInt, ArrS(ks, l.sort))
		if heapReadHook != nil {
			heapReadHook(mapBase(m)+"!"+l.path, srt)
		}
		out = append(out, Select(Select(st.get(mapBase(m)+"!"+l.path, srt), ref), k))
	}
	return out
}

func (x *Ex) mapStore(st *State, T types.Type, ref *Term, k, v Val) {
	m := under(T).(*types.Map)
	ks := mapKeySort(m)
	had := mapHas(st, m, ref, k.C[0])
	srt := ArrS(SInt, ArrS(ks, SBool))
	x.writeRow(st, mapBase(m)+"?", srt, ref, Store(Select(st.get(mapBase(m)+"?", srt), ref), k.C[0], TTrue))
	for i, l := range leaves(m.Elem()) {
		s := ArrS(SInt, ArrS(ks, l.sort))
		key := mapBase(m) + "!" + l.path
		x.writeRow(st, key, s, ref, Store(Select(st.get(key, s), ref), k.C[0], v.C[i]))
	}
	nl := loc{mapBase(m) + "#n", []*Term{ref}, SInt, nil}
	n := st.read(nl)
	x.write(st, nl, Add(n, Ite(had, I(0), I(1))))
}

func (x *Ex) lookup(st *State, in *ssa.Lookup) Val {
	if isString(in.X.Type()) {
		s, i := x.val(st, in.X).C[0], x.val(st, in.Index).C[0]
		x.oblige(st, "bounds", "string index in range", in.Pos(), And(Le(I(0), i), Lt(i, SLen(s))))
		v := Val{T: in.Type(), C: []*Term{SAt(s, i)}}
		x.facts(st, v)
		return v
	}
	m := under(in.X.Type()).(*types.Map)
	mv := x.val(st, in.X)
	k := x.val(st, in.Index)
	has := mapHas(st, m, mv.C[0], k.C[0])
	has = And(Ne(mv.C[0], I(0)), has)
	got := mapGet(st, m, mv.C[0], k.C[0])
	z := zeroVal(m.Elem())
	r := Val{T: m.Elem()}
	for i := range got {
		r.C = append(r.C, Ite(has, got[i], z.C[i]))
	}
	x.facts(st, Val{T: m.Elem(), C: got})
	if _, ok := under(m.Elem()).(*types.Signature); ok {
		r.Fn = nil
	}
	if in.CommaOk {
		return Val{T: in.Type(), Tup: []Val{r, {T: types.Typ[types.Bool], C: []*Term{has}}}}
	}
	return r
}

func (x *Ex) slice(st *State, in *ssa.Slice) Val {
	v := x.val(st, in.X)
	get := func(e ssa.Value, d *Term) *Term {
		if e == nil {
			return d
		}
		return x.val(st, e).C[0]
	}
	switch u := under(in.X.Type()).(type) {
	case *types.Basic: // string
		lo := get(in.Low, I(0))
		hi := get(in.High, SLen(v.C[0]))
		x.oblige(st, "slice", "string slice bounds in range", in.Pos(), And(Le(I(0), lo), Le(lo, hi), Le(hi, SLen(v.C[0]))))
		return Val{T: in.Type(), C: []*Term{SSub(v.C[0], lo, hi)}}
	case *types.Slice:
		lo := get(in.Low, I(0))
		hi := get(in.High, v.C[2])
		mx := get(in.Max, v.C[3])
		x.oblige(st, "slice", "slice bounds in range", in.Pos(), And(Le(I(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, v.C[3])))
		return Val{T: in.Type(), C: []*Term{v.C[0], Add(v.C[1], lo), Sub(hi, lo), Sub(mx, lo)}}
	case *types.Pointer:
		a := under(u.Elem()).(*types.Array)
		n := I(a.Len())
		lo := get(in.Low, I(0))
		hi := get(in.High, n)
		x.oblige(st, "slice", "slice bounds in range", in.Pos(), And(Le(I(0), lo), Le(lo, hi), Le(hi, n)))
		if v.Addr != nil {
			unsupported("slicing a global array")
		}
		return Val{T: in.Type(), C: []*Term{v.C[0], lo, Sub(hi, lo), Sub(n, lo)}}
	}
	unsupported("slice of %s", in.X.Type())
	return Val{}
}

// implsTag: does the dynamic type with this tag implement the interface?
func (x *Ex) implsTag(tag *Term, it *types.Interface, name string) *Term {
	if n, ok := tag.IsInt(); ok {
		if n == 0 {
			return TFalse
		}
		return BoolT(types.Implements(tagTypes[n], it))
	}
	var alts []*Term
	for _, t := range x.prog.concrete {
		if types.Implements(t, it) {
			alts = append(alts, Eq(tag, typeTag(t)))
		}
	}
	var known []*Term
	for _, t := range x.prog.concrete {
		known = append(known, Ne(tag, typeTag(t)))
	}
	_ = known
	ext := And(Lt(I(1000000), tag), App("extimpl:"+name, SBool, tag))
	return And(Ne(tag, I(0)), Or(append(alts, ext)...))
}

func (x *Ex) typeAssert(st *State, in *ssa.TypeAssert) Val {
	v := x.val(st, in.X)
	T := in.AssertedType
	var ok *Term
	var r Val
	if it, isI := under(T).(*types.Interface); isI {
		ok = x.implsTag(v.C[0], it, tkey(T))
		r = Val{T: T, C: v.C}
	} else {
		ok = Eq(v.C[0], typeTag(T))
		r = unboxVal(T, v.C[1])
	}
	if in.CommaOk {
		z := zeroVal(T)
		o := Val{T: T}
		for i := range r.C {
			o.C = append(o.C, Ite(ok, r.C[i], z.C[i]))
		}
		x.factsIf(st, ok, r)
		return Val{T: in.Type(), Tup: []Val{o, {T: types.Typ[types.Bool], C: []*Term{ok}}}}
	}
	x.oblige(st, "assert", "type assertion to "+tkey(T)+" succeeds", in.Pos(), ok)
	x.facts(st, r)
	return r
}

func (x *Ex) factsIf(st *State, c *Term, v Val) {
	for _, f := range factTerms(v.T, v.C, st.alloc) {
		st.assume(Implies(c, f))
	}
}

func (x *Ex) next(st *State, in *ssa.Next) Val {
	itv := x.val(st, in.Iter)
	it := itv.Iter
	if it == nil {
		unsupported("lost iterator")
	}
	tup := in.Type().(*types.Tuple)
	if it.str {
		pl := loc{"iter.pos", []*Term{it.id}, SInt, nil}
		p := st.read(pl)
		s := it.x.C[0]
		ok := Lt(p, SLen(s))
		r := App("runeAt", SInt, s, p)
		w := App("runeW", SInt, s, p)
		st.assume(And(Le(I(0), p), Le(p, SLen(s))))
		st.assume(Implies(ok, And(Le(I(1), w), Le(w, I(4)), Le(Add(p, w), SLen(s)), Le(I(0), r), Le(r, I(1114111)))))
		st.assume(Implies(And(ok, Lt(SAt(s, p), I(128))), And(Eq(r, SAt(s, p)), Eq(w, I(1)))))
		st.assume(Implies(And(ok, Le(I(128), SAt(s, p))), Le(I(128), r)))
		x.write(st, pl, Ite(ok, Add(p, w), p))
		return Val{T: tup, Tup: []Val{{T: types.Typ[types.Bool], C: []*Term{ok}}, {T: types.Typ[types.Int], C: []*Term{p}}, {T: types.Typ[types.Rune], C: []*Term{r}}}}
	}
	m := under(it.x.T).(*types.Map)
	ks := mapKeySort(m)
	srt := ArrS(SInt, ArrS(ks, SBool))
	key := "iter.seen:" + string(ks)
	seen := Select(st.get(key, srt), it.id)
	ok := Fresh("mapnext", SBool)
	k := freshVal("mapkey", m.Key())
	has := mapHas(st, m, it.x.C[0], k.C[0])
	x.facts(st, k)
	st.assume(Implies(ok, And(Ne(it.x.C[0], I(0)), has, Not(Select(seen, k.C[0])))))
	q := BVar("k", ks)
	st.assume(Implies(Not(ok), Or(Eq(it.x.C[0], I(0)), Quant(true, []*Term{q}, Implies(mapHas(st, m, it.x.C[0], q), Select(seen, q)), Select(seen, q)))))
	got := mapGet(st, m, it.x.C[0], k.C[0])
	ev := Val{T: m.Elem(), C: got}
	x.factsIf(st, ok, ev)
	x.writeRow(st, key, srt, it.id, Ite(ok, Store(seen, k.C[0], TTrue), seen))
	if tup.Len() > 2 && tup.At(2).Type() != nil {
		ev.T = m.Elem()
	}
	return Val{T: tup, Tup: []Val{{T: types.Typ[types.Bool], C: []*Term{ok}}, k, ev}}
}

var _ = fmt.Sprint
