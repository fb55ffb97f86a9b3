package main

// Layout of Go values and of the heap.
//
// Every Go value is a list of SMT components.  Heap-allocated structs are keyed
// by Int references (0 = nil, positive = allocated, negative = a struct field
// inside another object); every field component is its own array.  Slice
// elements live in two-dimensional arrays keyed by backing-array reference and
// index.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type leaf struct {
	path string
	sort Sort
	typ  types.Type // type the component group belongs to
}

type Val struct {
	T    types.Type
	C    []*Term
	Addr *Addr
	Fn   *FnVal
	Tup  []Val
	Iter *iterVal
}

type Addr struct {
	Key string
	Idx []*Term
	T   types.Type
}

type FnVal struct {
	Fn   *ssa.Function
	Bind []Val
}

type iterVal struct {
	id  *Term // iterator object
	x   Val   // ranged value (map or string)
	str bool
}

var leafCache = map[types.Type][]leaf{}

func under(t types.Type) types.Type { return t.Underlying() }

func leaves(t types.Type) []leaf {
	if l, ok := leafCache[t]; ok {
		return l
	}
	var out []leaf
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			out = []leaf{{"", SBool, t}}
		case u.Info()&types.IsString != 0:
			out = []leaf{{"", SStr, t}}
		default:
			out = []leaf{{"", SInt, t}}
		}
	case *types.Slice:
		out = []leaf{{"#arr", SInt, t}, {"#off", SInt, t}, {"#len", SInt, t}, {"#cap", SInt, t}}
	case *types.Interface:
		out = []leaf{{"#tag", SInt, t}, {"#val", SInt, t}}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leaves(u.Field(i).Type()) {
				out = append(out, leaf{"." + u.Field(i).Name() + l.path, l.sort, l.typ})
			}
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			for _, l := range leaves(u.At(i).Type()) {
				out = append(out, leaf{fmt.Sprintf("%%%d%s", i, l.path), l.sort, l.typ})
			}
		}
	default: // pointer, map, chan, func, array, type parameter
		out = []leaf{{"", SInt, t}}
	}
	leafCache[t] = out
	return out
}

func isStruct(t types.Type) bool { _, ok := under(t).(*types.Struct); return ok }
func isIface(t types.Type) bool  { _, ok := under(t).(*types.Interface); return ok }
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isIntT(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func tkey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// heapSort is the sort of the heap component with n index positions.
func heapSort(n int, s Sort) Sort {
	for i := 0; i < n; i++ {
		s = ArrS(SInt, s)
	}
	return s
}

type loc struct {
	key  string
	idx  []*Term
	sort Sort
	typ  types.Type
}

func subref(T types.Type, field string, ref *Term) *Term {
	return App("sub:"+tkey(T)+"."+field, SInt, ref)
}

// refLocs lists the component locations of the struct T at ref, in leaf order.
func refLocs(T types.Type, ref *Term) []loc {
	st := under(T).(*types.Struct)
	var out []loc
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if isStruct(f.Type()) {
			out = append(out, refLocs(f.Type(), subref(T, f.Name(), ref))...)
			continue
		}
		for _, l := range leaves(f.Type()) {
			out = append(out, loc{tkey(T) + "." + f.Name() + l.path, []*Term{ref}, l.sort, l.typ})
		}
	}
	return out
}

func addrLocs(a *Addr) []loc {
	var out []loc
	for _, l := range leaves(a.T) {
		out = append(out, loc{a.Key + l.path, a.Idx, l.sort, l.typ})
	}
	return out
}

// ptrLocs lists the component locations of the pointee of a pointer value.
func ptrLocs(p Val) []loc {
	if p.Addr != nil {
		return addrLocs(p.Addr)
	}
	elem := under(p.T).(*types.Pointer).Elem()
	if isStruct(elem) {
		return refLocs(elem, p.C[0])
	}
	if _, ok := under(elem).(*types.Array); ok {
		unsupported("load/store of a whole array")
	}
	return addrLocs(&Addr{"cell:" + tkey(elem), []*Term{p.C[0]}, elem})
}

func elemKey(t types.Type) string { return "elem:" + tkey(t) }

// ---- state

type PC struct {
	t    *Term
	up   *PC
	n    int
	kind byte // 'b' branch, 'a' assumption
}

type State struct {
	heap   map[string]*Term
	hsort  map[string]Sort
	pc     *PC
	alloc  *Term
	epoch  string
	env    map[ssa.Value]Val
	defers []deferred
	ghost  map[string]Val

	reads     map[string]Sort // records the components read, when not nil
	allocRead bool            // set when a contract expression looked at alloc
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
}

func (s *State) clone() *State {
	n := *s
	n.heap = make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.env = make(map[ssa.Value]Val, len(s.env))
	for k, v := range s.env {
		n.env[k] = v
	}
	n.defers = append([]deferred{}, s.defers...)
	return &n
}

func (s *State) snapshot() *State {
	n := *s
	n.heap = make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	return &n
}

func (s *State) assume(t *Term) {
	if t == TTrue || t.Bound {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	n := 0
	if s.pc != nil {
		n = s.pc.n
	}
	s.pc = &PC{t: t, up: s.pc, n: n + 1}
}

// dead reports a syntactically contradictory path.
func (s *State) dead() bool {
	return s.pc != nil && s.pc.t == TFalse
}

// known decides a condition from literals on the path.
func (s *State) known(c *Term) (bool, bool) {
	if c == TTrue {
		return true, true
	}
	if c == TFalse {
		return false, true
	}
	nc := Not(c)
	var x, k *Term
	if c.Op == "=" && c.Args[1].Op == "int" {
		x, k = c.Args[0], c.Args[1]
	} else if c.Op == "=" && c.Args[1].Op == "str" {
		x, k = c.Args[0], c.Args[1]
	} else if c.Op == "=" && c.Args[0].Op == "str" {
		x, k = c.Args[1], c.Args[0]
	}
	n := 0
	for p := s.pc; p != nil && n < 400; p = p.up {
		n++
		if p.t == c {
			return true, true
		}
		if p.t == nc {
			return false, true
		}
		if x != nil && p.t.Op == "=" && (p.t.Args[0] == x || p.t.Args[1] == x) {
			o := p.t.Args[0]
			if o == x {
				o = p.t.Args[1]
			}
			if (o.Op == "int" || o.Op == "str") && o != k {
				return false, true
			}
		}
	}
	return false, false
}

func (s *State) get(key string, srt Sort) *Term {
	if s.reads != nil {
		s.reads[key] = srt
	}
	if t, ok := s.heap[key]; ok {
		if t.Sort != srt {
			panic(fmt.Sprintf("heap sort clash for %s: %s vs %s", key, t.Sort, srt))
		}
		return t
	}
	t := Sym("H"+s.epoch+":"+key, srt)
	s.heap[key] = t
	return t
}

func (s *State) read(l loc) *Term {
	h := s.get(l.key, heapSort(len(l.idx), l.sort))
	if heapReadHook != nil {
		heapReadHook(l.key, heapSort(len(l.idx), l.sort))
	}
	for _, i := range l.idx {
		h = Select(h, i)
	}
	return h
}

var heapReadHook func(key string, srt Sort)

// write records into the active recorders.
func (x *Ex) write(s *State, l loc, v *Term) {
	srt := heapSort(len(l.idx), l.sort)
	h := s.get(l.key, srt)
	for _, r := range x.recs {
		r.note(l.key, srt, l.idx[0])
	}
	if len(l.idx) == 1 {
		s.heap[l.key] = Store(h, l.idx[0], v)
		return
	}
	s.heap[l.key] = Store(h, l.idx[0], Store(Select(h, l.idx[0]), l.idx[1], v))
}

// writeRow replaces the whole row of a two-dimensional component.
func (x *Ex) writeRow(s *State, key string, srt Sort, arr, row *Term) {
	h := s.get(key, srt)
	for _, r := range x.recs {
		r.note(key, srt, arr)
	}
	s.heap[key] = Store(h, arr, row)
}

// havocAll replaces a whole component.
func (x *Ex) havocKey(s *State, key string, srt Sort) {
	s.get(key, srt)
	for _, r := range x.recs {
		r.note(key, srt, nil)
	}
	s.heap[key] = Fresh("H~"+key, srt)
}

type recorder struct {
	w map[string]*wset
}
type wset struct {
	sort Sort
	all  bool
	refs map[*Term]bool
}

func (r *recorder) note(key string, srt Sort, ref *Term) {
	w := r.w[key]
	if w == nil {
		w = &wset{sort: srt, refs: map[*Term]bool{}}
		r.w[key] = w
	}
	if ref == nil {
		w.all = true
	} else {
		w.refs[ref] = true
	}
}

func (r *recorder) keys() []string {
	var ks []string
	for k := range r.w {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// ---- typing facts

// nestedTypes: struct types that occur by value inside another struct; only
// pointers to those can be interior pointers (negative references).
var nestedTypes = map[string]bool{}

func (x *Ex) facts(s *State, v Val) {
	if v.Addr != nil || v.Fn != nil || v.T == nil {
		return
	}
	x.factsC(s, v.T, v.C)
}

func (x *Ex) factsC(s *State, T types.Type, c []*Term) {
	for _, f := range factTerms(T, c, s.alloc) {
		s.assume(f)
	}
}

func factTerms(T types.Type, c []*Term, alloc *Term) []*Term {
	var out []*Term
	if len(c) == 0 {
		return nil
	}
	switch u := under(T).(type) {
	case *types.Basic:
		if lo, hi, ok := intRange(u); ok && c[0].Op != "int" {
			out = append(out, Le(IBig(lo), c[0]), Le(c[0], IBig(hi)))
		}
	case *types.Slice:
		out = append(out, Le(I(0), c[0]), Le(c[0], alloc), Le(I(0), c[1]), Le(I(0), c[2]), Le(c[2], c[3]), Implies(Eq(c[0], I(0)), Eq(c[3], I(0))))
	case *types.Pointer, *types.Map, *types.Chan:
		if pt, ok := u.(*types.Pointer); ok && nestedTypes[tkey(pt.Elem())] {
			out = append(out, Le(rootOf(c[0]), alloc))
		} else {
			out = append(out, Le(I(0), c[0]))
		}
		out = append(out, Le(c[0], alloc))
	case *types.Interface:
		out = append(out, Le(I(0), c[0]), Implies(Eq(c[0], I(0)), Eq(c[1], I(0))))
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			k := len(leaves(u.Field(i).Type()))
			out = append(out, factTerms(u.Field(i).Type(), c[n:n+k], alloc)...)
			n += k
		}
	}
	return out
}

func intRange(b *types.Basic) (string, string, bool) {
	switch b.Kind() {
	case types.Uint8:
		return "0", "255", true
	case types.Uint16:
		return "0", "65535", true
	case types.Uint32:
		return "0", "4294967295", true
	case types.Uint64, types.Uint, types.Uintptr:
		return "0", "18446744073709551615", true
	case types.Int8:
		return "-128", "127", true
	case types.Int16:
		return "-32768", "32767", true
	case types.Int32:
		return "-2147483648", "2147483647", true
	}
	return "", "", false
}

func zeroTerm(s Sort) *Term {
	switch s {
	case SInt:
		return I(0)
	case SBool:
		return TFalse
	case SStr:
		return StrLit("")
	}
	_, v := splitArr(s)
	return ConstArr(s, zeroTerm(v))
}

func zeroVal(T types.Type) Val {
	v := Val{T: T}
	for _, l := range leaves(T) {
		v.C = append(v.C, zeroTerm(l.sort))
	}
	return v
}

func freshVal(base string, T types.Type) Val {
	v := Val{T: T}
	for _, l := range leaves(T) {
		v.C = append(v.C, Fresh(base+l.path, l.sort))
	}
	return v
}

// ---- type tags

var tagOf = map[string]int64{}
var tagTypes = map[int64]types.Type{}

func typeTag(t types.Type) *Term {
	k := types.TypeString(t, nil)
	n, ok := tagOf[k]
	if !ok {
		n = int64(len(tagOf) + 1)
		tagOf[k] = n
		tagTypes[n] = t
	}
	return I(n)
}

func boxVal(s *State, v Val) *Term {
	if len(v.C) == 1 && v.C[0].Sort == SInt {
		switch under(v.T).(type) {
		case *types.Pointer, *types.Map, *types.Signature, *types.Chan:
			return v.C[0]
		}
	}
	b := App("box:"+tkey(v.T), SInt, v.C...)
	for i, c := range v.C {
		s.assume(Eq(App(fmt.Sprintf("unbox:%s:%d", tkey(v.T), i), c.Sort, b), c))
	}
	return b
}

func unboxVal(T types.Type, val *Term) Val {
	r := Val{T: T}
	switch under(T).(type) {
	case *types.Pointer, *types.Map, *types.Signature, *types.Chan:
		r.C = []*Term{val}
		return r
	}
	for i, l := range leaves(T) {
		r.C = append(r.C, App(fmt.Sprintf("unbox:%s:%d", tkey(T), i), l.sort, val))
	}
	return r
}

type unsup struct{ msg string }

func unsupported(f string, a ...interface{}) {
	panic(unsup{fmt.Sprintf(f, a...)})
}

var _ = strings.TrimSpace
