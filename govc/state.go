package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// Val is a symbolic value with its Go type (nil for purely mathematical values).
type Val struct {
	T     *Term
	G     types.Type
	Alias *LVal  // pointer to a local variable (or part of one) that is not in the heap
	Fn    *FnVal // statically known function value
	Tuple []Val
}

// FnVal is a statically known function literal.
type FnVal struct {
	Lit *ast.FuncLit
	Fr  *Frame
	// method value / function
	Fun  *types.Func
	Recv *Val
}

// LVal is an assignable location.
type LVal struct {
	Kind  string // var, field, elem (heap), deref, map, arr, blank
	Obj   types.Object
	Base  *LVal
	Field string
	G     types.Type // type of location
	// elem: slice value & index; deref: pointer; map: map ref & key; arr: index
	S, I *Term
	Map  *types.Map
}

// Fact is a persistent list of assumptions.
type Fact struct {
	T    *Term
	Prev *Fact
}

// State is a symbolic program state on one path.
type State struct {
	vars  map[types.Object]Val
	boxed map[types.Object]*Term
	heaps map[string]*Term
	alloc *Term
	facts *Fact
	ghost map[string]Val
}

func (s *State) clone() *State {
	n := &State{vars: make(map[types.Object]Val, len(s.vars)), boxed: make(map[types.Object]*Term, len(s.boxed)),
		heaps: make(map[string]*Term, len(s.heaps)), alloc: s.alloc, facts: s.facts, ghost: make(map[string]Val, len(s.ghost))}
	for k, v := range s.vars {
		n.vars[k] = v
	}
	for k, v := range s.boxed {
		n.boxed[k] = v
	}
	for k, v := range s.heaps {
		n.heaps[k] = v
	}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	return n
}

func (s *State) assume(ts ...*Term) {
	for _, t := range ts {
		if t.Op == "true" {
			continue
		}
		if t.Op == "and" && t.Bound == nil {
			s.assume(t.Args...)
			continue
		}
		s.facts = &Fact{t, s.facts}
	}
}

func (s *State) infeasible() bool { return s.facts != nil && s.facts.T.Op == "false" }

// Obligation is one verification condition.
type Obligation struct {
	Name   string // stable name: function/kind[label]
	Func   string
	Kind   string
	Pos    string
	Facts  []*Term
	Goal   *Term
	Consts map[string]string
	Probe  bool // vacuity probe: must NOT be provable
	Why    string
	// result
	Status string // proved, failed, unknown, unsupported
	Solver string
	Ms     int64
	Model  string
	Size   int
	Group  string
}

// Frame is one activation (the verified function, or an inlined callee).
type Frame struct {
	fd     *FuncDecl
	pkg    *Pkg
	ret    func(*State, []Val)
	res    []types.Object // named results
	rtypes []types.Type
	parent *Frame
	call   token.Pos // call position in parent
	key    string    // inline path
	sig    *types.Signature
}

type loopCtx struct {
	brk, cont func(*State)
	label     string
	parent    *loopCtx
	isSwitch  bool
}

type writeRec struct {
	heap string
	ref  *Term
}

// X verifies one function.
type X struct {
	initMode bool // package initialisers: package variables are assignable
	eng      *Engine
	prog     *Prog
	sp       *Specs
	fd       *FuncDecl
	con      *Contract
	n        int
	consts   map[string]string
	index    map[string]int // creation index of constants
	defs     map[string]*Term
	fresh    map[string]bool // ref constants allocated after entry
	entry    *State
	obls     []*Obligation
	dry      int
	logVars  map[types.Object]bool
	logHeap  map[string][]*Term
	logOn    int
	loops    map[string]int
	mods     []modItem // allowed writes of the function
	loopMod  []*loopMods
	paths    int
	callN    map[string]int
	inl      []string
	seenObl  map[string]int
	strLits  map[string]bool
	boxObjs  map[types.Object]bool
	scanned  map[*ast.BlockStmt]bool
	depth    int
	params   []Val
	nopanic  bool
	group    string
}

type loopMods struct {
	alloc *Term
	items []modItem
	has   bool
}

type modItem struct {
	heap string
	ref  *Term
	// quantified item: set of refs {ref[vars] | cond}
	vars []BVar
	cond *Term
	// single cell (pointer deref): index
	idx *Term
	// alias lvalue
	alias *LVal
	isMap bool
	gt    types.Type
}

type unsupported struct{ msg string }

func (x *X) unsup(pos token.Pos, f string, a ...any) {
	panic(unsupported{fmt.Sprintf("%s: unsupported: %s", x.prog.pos(pos), fmt.Sprintf(f, a...))})
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '$' || r == '!' {
			return r
		}
		return '_'
	}, s)
}

// newConst creates a fresh constant.
func (x *X) newConst(prefix, sort string) *Term {
	x.n++
	nm := fmt.Sprintf("%s!%d", sanitize(prefix), x.n)
	x.consts[nm] = sort
	x.index[nm] = x.n
	return cst(nm, sort)
}

// entryConst creates a constant belonging to the entry state (index 0).
func (x *X) entryConst(name, sort string) *Term {
	if _, ok := x.consts[name]; !ok {
		x.consts[name] = sort
		x.index[name] = 0
	}
	return cst(name, sort)
}

func isAtomic(t *Term) bool { return len(t.Args) == 0 && t.Bound == nil }

// nameIt introduces a constant equal to t.
func (x *X) nameIt(st *State, prefix string, t *Term) *Term {
	if isAtomic(t) {
		return t
	}
	if len(t.Args) <= 2 && len(t.String()) < 60 && (t.Op == "+" || t.Op == "-") {
		return t
	}
	c := x.newConst(prefix, t.Sort)
	x.defs[c.Op] = t
	st.assume(app(sBool, "=", c, t))
	return c
}

func (x *X) def(t *Term) *Term {
	for isAtomic(t) {
		d, ok := x.defs[t.Op]
		if !ok {
			return t
		}
		t = d
	}
	return t
}

// ---- slices, pointers ----

func mkSlice(ref, off, ln, cp *Term) *Term { return app(sSlice, "mkslice", ref, off, ln, cp) }
func mkPtr(ref, idx *Term) *Term           { return app(sPtr, "mkptr", ref, idx) }

func (x *X) proj(sel, ctor string, i int, sort string, t *Term) *Term {
	d := x.def(t)
	if d.Op == ctor {
		return d.Args[i]
	}
	return app(sort, sel, t)
}

func (x *X) sref(t *Term) *Term { return x.proj("sref", "mkslice", 0, sInt, t) }
func (x *X) soff(t *Term) *Term { return x.proj("soff", "mkslice", 1, sInt, t) }
func (x *X) slen(t *Term) *Term { return x.proj("slen", "mkslice", 2, sInt, t) }
func (x *X) scap(t *Term) *Term { return x.proj("scap", "mkslice", 3, sInt, t) }
func (x *X) pref(t *Term) *Term { return x.proj("pref", "mkptr", 0, sInt, t) }
func (x *X) pidx(t *Term) *Term { return x.proj("pidx", "mkptr", 1, sInt, t) }

func (x *X) shift(a, off *Term) *Term {
	if n, ok := off.isNum(); ok && n == 0 {
		return a
	}
	_, v, _ := arrParts(a.Sort)
	return app(a.Sort, x.eng.shiftFn(v), a, off)
}

// field of a struct term.
func (x *X) field(t *Term, gt types.Type, f string) (*Term, types.Type) {
	st := gt.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == f {
			ft := st.Field(i).Type()
			sn := x.prog.sortOf(gt)
			d := x.def(t)
			if d.Op == "mk_"+sn {
				return d.Args[i], ft
			}
			if d.Op == "ite" {
				a, _ := x.field(d.Args[1], gt, f)
				b, _ := x.field(d.Args[2], gt, f)
				return ite(d.Args[0], a, b), ft
			}
			return app(x.prog.sortOf(ft), fieldSel(sn, f), t), ft
		}
	}
	return nil, nil
}

func (x *X) setField(t *Term, gt types.Type, f string, v *Term) *Term {
	st := gt.Underlying().(*types.Struct)
	sn := x.prog.sortOf(gt)
	args := make([]*Term, st.NumFields())
	for i := range args {
		if st.Field(i).Name() == f {
			args[i] = v
		} else {
			args[i], _ = x.field(t, gt, st.Field(i).Name())
		}
	}
	if len(args) == 0 {
		return cst("mk_"+sn, sn)
	}
	return app(sn, "mk_"+sn, args...)
}

func (x *X) zero(t types.Type) *Term {
	if isErrorType(t) {
		return num(0)
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return mkSlice(num(0), num(0), num(0), num(0))
	case *types.Pointer:
		return mkPtr(num(0), num(0))
	case *types.Struct:
		sn := x.prog.sortOf(t)
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = x.zero(u.Field(i).Type())
		}
		if len(args) == 0 {
			return cst("mk_"+sn, sn)
		}
		return app(sn, "mk_"+sn, args...)
	case *types.Interface:
		return app(sIface, "mkiface", num(0), mkPtr(num(0), num(0)))
	case *types.Array:
		return x.zeros(u.Elem())
	}
	switch x.prog.sortOf(t) {
	case sInt:
		return num(0)
	case sReal:
		return cst("0.0", sReal)
	case sBool:
		return tFalse
	case sStr:
		return x.strLit("")
	case sFn:
		return cst("fn_nil", sFn)
	}
	return cst("zero_"+x.prog.sortOf(t), x.prog.sortOf(t))
}

func (x *X) strLit(s string) *Term {
	return cst(x.eng.strLit(s), sStr)
}

// zeros is an array of zero values.
func (x *X) zeros(t types.Type) *Term {
	s := x.prog.sortOf(t)
	switch s {
	case sInt:
		return constArr(arr(sInt, s), num(0))
	case sReal:
		return constArr(arr(sInt, s), cst("0.0", sReal))
	case sBool:
		return constArr(arr(sInt, s), tFalse)
	}
	nm := "zeros_" + x.prog.typeTag(t)
	x.eng.addZeros(nm, arr(sInt, s), x.zero(t))
	return cst(nm, arr(sInt, s))
}

// heap gives the current heap for element type t.
func (x *X) heap(st *State, t types.Type) *Term {
	n := x.prog.heapName(t)
	x.eng.heapElem[n] = t
	return x.heapN(st, n, x.prog.heapSort(t), t)
}

func (x *X) heapN(st *State, n, sort string, t types.Type) *Term {
	if h, ok := st.heaps[n]; ok {
		return h
	}
	nm := n + "!e"
	if _, ok := x.consts[nm]; !ok {
		x.entryConst(nm, sort)
		if t != nil {
			if w := x.heapWF(cst(nm, sort), t, x.entry.alloc); w != nil {
				x.eng.addEntryFact(x, w)
			}
		}
	}
	return cst(nm, sort)
}

// heapWF: all references stored in allocated cells of h are allocated.
func (x *X) heapWF(h *Term, t types.Type, alloc *Term) *Term {
	r, i := cst("r", sInt), cst("i", sInt)
	e := sel(sel(h, r), i)
	w := x.wfTerms(e, t, alloc, 0)
	if len(w) == 0 {
		return nil
	}
	return forall([]BVar{{"r", sInt}, {"i", sInt}}, implies(le(r, alloc), and(w...)), []*Term{e})
}

func (x *X) arrWF(a *Term, t types.Type, alloc *Term) *Term {
	i := cst("i", sInt)
	e := sel(a, i)
	w := x.wfTerms(e, t, alloc, 0)
	if len(w) == 0 {
		return nil
	}
	return forall([]BVar{{"i", sInt}}, and(w...), []*Term{e})
}

// wfTerms are the well-formedness facts on references in a value.
func (x *X) wfTerms(v *Term, t types.Type, alloc *Term, depth int) []*Term {
	if isErrorType(t) {
		return []*Term{le(num(0), v)}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		ref, off, ln, cp := x.sref(v), x.soff(v), x.slen(v), x.scap(v)
		return []*Term{le(num(0), ref), le(ref, alloc), le(num(0), off), le(num(0), ln), le(ln, cp),
			implies(eq(ref, num(0)), eq(cp, num(0)))}
	case *types.Pointer:
		return []*Term{le(num(0), x.pref(v)), le(x.pref(v), alloc), le(num(0), x.pidx(v))}
	case *types.Map:
		return []*Term{le(num(0), v), le(v, alloc)}
	case *types.Interface:
		p := app(sPtr, "iptr", v)
		return []*Term{le(num(0), app(sInt, "itag", v)), le(app(sInt, "pref", p), alloc)}
	case *types.Basic:
		return x.rangeFacts(v, u)
	case *types.Struct:
		if depth > 2 {
			return nil
		}
		var out []*Term
		for i := 0; i < u.NumFields(); i++ {
			f, ft := x.field(v, t, u.Field(i).Name())
			out = append(out, x.wfTerms(f, ft, alloc, depth+1)...)
		}
		return out
	}
	return nil
}

func (x *X) rangeFacts(v *Term, u *types.Basic) []*Term {
	switch u.Kind() {
	case types.Uint, types.Uint64, types.Uintptr:
		return []*Term{le(num(0), v)}
	case types.Uint8:
		return []*Term{le(num(0), v), le(v, num(255))}
	case types.Uint16:
		return []*Term{le(num(0), v), le(v, num(65535))}
	case types.Uint32:
		return []*Term{le(num(0), v), le(v, num(4294967295))}
	}
	return nil
}

func (x *X) wf(st *State, v *Term, t types.Type) {
	if v == nil || t == nil {
		return
	}
	if d := x.def(v); d.Op == "mkslice" || d.Op == "mkptr" || strings.HasPrefix(d.Op, "mk_") {
		return
	}
	if _, ok := v.isNum(); ok {
		return
	}
	for _, w := range x.wfTerms(v, t, st.alloc, 0) {
		st.assume(w)
	}
}

// older reports whether ref is built only from constants created before index n.
func (x *X) older(ref *Term, n int) bool {
	syms := map[string]bool{}
	ref.symbols(syms)
	for s := range syms {
		if i, ok := x.index[s]; ok && i >= n {
			return false
		}
		if strings.HasPrefix(s, "?") { // bound variable: fine, reads older heap
			continue
		}
	}
	return true
}

// selHeap reads the array of ref in heap h, looking through known stores.
func (x *X) selHeap(h, ref *Term) *Term {
	for {
		d := x.def(h)
		if d.Op != "store" {
			if isAtomic(d) {
				return sel(d, ref)
			}
			return sel(h, ref)
		}
		if same(d.Args[1], ref) {
			return d.Args[2]
		}
		r := d.Args[1]
		if x.distinctRefs(r, ref) {
			h = d.Args[0]
			continue
		}
		return sel(h, ref)
	}
}

func (x *X) distinctRefs(a, b *Term) bool {
	fa := isAtomic(a) && x.fresh[a.Op]
	fb := isAtomic(b) && x.fresh[b.Op]
	if fa && fb {
		return a.Op != b.Op
	}
	if fa {
		return x.older(b, x.index[a.Op])
	}
	if fb {
		return x.older(a, x.index[b.Op])
	}
	return false
}

// arrOf gives the SMT array viewed through slice s.
func (x *X) arrOf(st *State, s *Term, elem types.Type) *Term {
	return x.shift(x.selHeap(x.heap(st, elem), x.sref(s)), x.soff(s))
}

func (x *X) loadElem(st *State, s, i *Term, elem types.Type) *Term {
	return x.selArr(x.arrOf(st, s, elem), i)
}

// selArr looks through named stores at syntactically equal or numerically distinct indices.
func (x *X) selArr(a, i *Term) *Term {
	o := a
	for {
		d := x.def(a)
		if d.Op == "store" {
			if same(d.Args[1], i) {
				return d.Args[2]
			}
			m, ok1 := d.Args[1].isNum()
			n, ok2 := i.isNum()
			if ok1 && ok2 && m != n {
				a = d.Args[0]
				o = a
				continue
			}
		}
		return sel(o, i)
	}
}

func (x *X) loadPtr(st *State, p *Term, elem types.Type) *Term {
	return x.selArr(x.selHeap(x.heap(st, elem), x.pref(p)), x.pidx(p))
}

func (x *X) newRef(st *State) *Term {
	r := x.newConst("ref", sInt)
	x.fresh[r.Op] = true
	st.assume(lt(st.alloc, r))
	st.alloc = r
	return r
}

// setHeap records a heap write.
func (x *X) setHeap(st *State, hn string, h *Term, ref *Term, a *Term) {
	if x.logOn > 0 {
		x.logHeap[hn] = append(x.logHeap[hn], ref)
	}
	nh := app(h.Sort, "store", h, ref, a)
	st.heaps[hn] = x.nameIt(st, hn, nh)
}

// oblige adds an obligation on the current path.
func (x *X) oblige(st *State, kind, label string, pos token.Pos, goal *Term) {
	if x.dry > 0 {
		return
	}
	if goal.Op == "true" {
		x.eng.trivial++
		x.eng.trivialBy[x.fd0()]++
		return
	}
	if goal.Op == "and" && goal.Bound == nil {
		for _, g := range goal.Args {
			x.oblige(st, kind, label, pos, g)
		}
		return
	}
	x.addObl(st, kind, label, x.prog.pos(pos), goal, false)
}

func (x *X) fd0() string {
	if x.fd != nil {
		return x.fd.Key
	}
	return x.group
}

func (x *X) addObl(st *State, kind, label, pos string, goal *Term, probe bool) {
	var fs []*Term
	for f := st.facts; f != nil; f = f.Prev {
		fs = append(fs, f.T)
	}
	for i, j := 0, len(fs)-1; i < j; i, j = i+1, j-1 {
		fs[i], fs[j] = fs[j], fs[i]
	}
	nm := x.fd0() + "/" + kind
	if label != "" {
		nm += "[" + label + "]"
	}
	x.seenObl[nm]++
	if x.seenObl[nm] > 1 {
		nm = fmt.Sprintf("%s.%d", nm, x.seenObl[nm])
	}
	x.obls = append(x.obls, &Obligation{Name: nm, Func: x.fd0(), Kind: kind, Pos: pos, Facts: fs, Goal: goal, Consts: x.consts, Probe: probe})
}

// checkWrite verifies that a write to ref in heap hn is allowed by the frame.
func (x *X) checkWrite(st *State, hn string, ref, idx *Term, pos token.Pos) {
	if x.dry > 0 {
		return
	}
	if !(isAtomic(ref) && x.fresh[ref.Op]) {
		ok := []*Term{lt(x.entry.alloc, ref)}
		ok = append(ok, modOK(x.mods, hn, ref, idx)...)
		x.oblige(st, "frame", "", pos, or(ok...))
	}
	for _, lm := range x.loopMod {
		if !lm.has {
			continue
		}
		if isAtomic(ref) && x.fresh[ref.Op] && isAtomic(lm.alloc) && x.index[ref.Op] > x.index[lm.alloc.Op] {
			continue
		}
		ok := []*Term{lt(lm.alloc, ref)}
		ok = append(ok, modOK(lm.items, hn, ref, idx)...)
		x.oblige(st, "loopframe", "", pos, or(ok...))
	}
}

func modOK(items []modItem, hn string, ref, idx *Term) []*Term {
	var ok []*Term
	for _, m := range items {
		if m.heap != hn {
			continue
		}
		t := eq(ref, m.ref)
		if m.idx != nil && idx != nil {
			t = and(t, eq(idx, m.idx))
		}
		if m.vars != nil {
			t = exists(m.vars, and(m.cond, t))
		}
		ok = append(ok, t)
	}
	return ok
}
