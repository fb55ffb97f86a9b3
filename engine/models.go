package main

// Models of standard-library functions whose meaning needs a callback or several
// components.  Each is an assumed contract and is listed in the evidence.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type extModel func(x *Ex, st *State, f *ssa.Function, args []Val, pos token.Pos) []Outcome

var externModels map[string]extModel

func init() {
	externModels = map[string]extModel{
		"sort.Search": modelSearch,
		"sort.Slice":  modelSortSlice,
	}
}

// predAt evaluates a side-effect free callback at index i under the assumption cond.
func (x *Ex) predAt(st *State, fn Val, i, cond *Term, pos token.Pos) *Term {
	s := st.clone()
	s.assume(cond)
	base := s.pc
	outs := x.callFn(s, fn.Fn.Fn, fn.Fn.Bind, []Val{{T: types.Typ[types.Int], C: []*Term{i}}}, pos)
	if len(outs) > 1 {
		outs = x.mergeOutcomes(outs)
	}
	if len(outs) != 1 {
		unsupported("callback without a single outcome")
	}
	// what the evaluation learned holds under cond
	var learned []*Term
	for p := outs[0].st.pc; p != nil && p != base; p = p.up {
		learned = append(learned, p.t)
	}
	for k := len(learned) - 1; k >= 0; k-- {
		st.assume(Implies(cond, learned[k]))
	}
	return outs[0].res[0].C[0]
}

// sort.Search(n, f): 0 <= r <= n, f(r) held if r < n, f(r-1) did not hold if r > 0.
// (The search probes exactly those points; no monotonicity is assumed.)
func modelSearch(x *Ex, st *State, f *ssa.Function, args []Val, pos token.Pos) []Outcome {
	fn := args[1]
	if fn.Fn == nil {
		return nil
	}
	x.trusted["assumed contract: sort.Search (result r in [0,n], f(r) if r<n, !f(r-1) if r>0, for a side-effect free f)"] = true
	n := args[0].C[0]
	i := Fresh("probe", SInt)
	x.predAt(st, fn, i, And(Le(I(0), i), Lt(i, n)), pos) // the callback's own obligations, at any index
	r := Fresh("r:Search", SInt)
	st.assume(Le(I(0), r))
	st.assume(Implies(Le(I(0), n), Le(r, n)))
	st.assume(Implies(Lt(n, I(0)), Eq(r, I(0))))
	x.dry++
	c1 := Lt(r, n)
	p1 := x.predAt(st, fn, r, c1, pos)
	st.assume(Implies(c1, p1))
	c2 := And(Lt(I(0), r), Le(r, n))
	p2 := x.predAt(st, fn, Sub(r, I(1)), c2, pos)
	st.assume(Implies(c2, Not(p2)))
	x.dry--
	return []Outcome{{st, []Val{{T: types.Typ[types.Int], C: []*Term{r}}}}}
}

// sort.Slice(s, less): afterwards s holds the same elements, each as often as before,
// and no element is less than an earlier one.  (The elements are related by the contract
// "model:sort.Slice"; the order comes from evaluating the callback on two arbitrary
// indices of the sorted slice.)
func modelSortSlice(x *Ex, st *State, f *ssa.Function, args []Val, pos token.Pos) []Outcome {
	fn := args[1]
	con := x.specs.Contracts["model:sort.Slice"]
	if fn.Fn == nil || con == nil || len(args[0].C) != 2 || !strings.HasPrefix(args[0].C[1].Name, "box:") {
		return nil
	}
	tag, _ := args[0].C[0].IsInt()
	T := tagTypes[tag]
	if T == nil {
		return nil
	}
	if _, ok := under(T).(*types.Slice); !ok {
		return nil
	}
	s := Val{T: T, C: args[0].C[1].Args}
	x.trusted["assumed contract: sort.Slice (the same elements, none less than an earlier one, for a side-effect free strict weak order)"] = true
	n := s.C[2]
	two := func(st *State, i, j, cond *Term) *Term {
		c := st.clone()
		c.assume(cond)
		outs := x.callFn(c, fn.Fn.Fn, fn.Fn.Bind, []Val{{T: types.Typ[types.Int], C: []*Term{i}}, {T: types.Typ[types.Int], C: []*Term{j}}}, pos)
		if len(outs) > 1 {
			outs = x.mergeOutcomes(outs)
		}
		if len(outs) != 1 {
			unsupported("callback without a single outcome")
		}
		return outs[0].res[0].C[0]
	}
	i, j := Fresh("i", SInt), Fresh("j", SInt)
	two(st, i, j, And(Le(I(0), i), Lt(i, n), Le(I(0), j), Lt(j, n))) // the callback's own obligations
	sig := types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "s", T), f.Signature.Params().At(1)), nil, false)
	outs := x.applyContract(st, con, sig, "model:sort.Slice", []Val{s, fn}, pos, nil)
	if len(outs) != 1 {
		unsupported("sort.Slice without a single outcome")
	}
	st = outs[0].st
	x.dry++
	cond := And(Le(I(0), i), Lt(i, j), Lt(j, n))
	p := two(st, j, i, cond)
	x.dry--
	vi, vj := BVar("i", SInt), BVar("j", SInt)
	st.assume(Quant(true, []*Term{vi, vj}, Subst(Implies(cond, Not(p)), map[*Term]*Term{i: vi, j: vj}, map[*Term]*Term{})))
	return outs
}
