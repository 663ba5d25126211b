package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// SCtx evaluates specification expressions in a state.
type SCtx struct {
	x      *X
	env    map[string]Val
	st     *State
	old    *SCtx // entry state
	pre    *SCtx // state before the loop / call
	lookup func(string) (Val, bool)
	bound  int
	inDef  *Define // fuel: body of this recursive definition
	pure   bool
}

func (c *SCtx) fail(e *SExpr, f string, a ...any) {
	panic(specErr{fmt.Sprintf("%s:%d: %s", e.File, e.Line, fmt.Sprintf(f, a...))})
}

func (c *SCtx) with(name string, v Val) *SCtx {
	n := *c
	n.env = make(map[string]Val, len(c.env)+1)
	for k, w := range c.env {
		n.env[k] = w
	}
	n.env[name] = v
	if c.old == c {
		n.old = &n
	} else if c.old != nil {
		n.old = c.old.with(name, v)
	}
	if c.pre != nil {
		n.pre = c.pre.with(name, v)
	}
	return &n
}

// resolveType turns a parsed type into a sort and (if any) a Go type.
func (x *X) resolveType(t *SType) (string, types.Type) {
	switch t.Kind {
	case "name":
		switch t.Name {
		case "int":
			return sInt, types.Typ[types.Int]
		case "real":
			return sReal, types.Typ[types.Float64]
		case "bool":
			return sBool, types.Typ[types.Bool]
		case "str":
			return sStr, types.Typ[types.String]
		case "rune":
			return sInt, types.Typ[types.Rune]
		}
		if _, ok := x.sp.Datatypes[t.Name]; ok {
			return "D_" + t.Name, nil
		}
		for _, s := range x.sp.Sorts {
			if s == t.Name {
				return "U_" + s, nil
			}
		}
		if i := strings.IndexByte(t.Name, '.'); i > 0 {
			if g := x.prog.lookupType(t.Name[:i], t.Name[i+1:]); g != nil {
				return x.prog.sortOf(g), g
			}
		}
		panic(specErr{"unknown type " + t.Name})
	case "array":
		k, _ := x.resolveType(t.K)
		v, g := x.resolveType(t.V)
		if g != nil && k == sInt {
			return arr(k, v), &SeqT{g}
		}
		return arr(k, v), nil
	case "slice":
		_, g := x.resolveType(t.V)
		return sSlice, types.NewSlice(g)
	case "ptr":
		_, g := x.resolveType(t.V)
		return sPtr, types.NewPointer(g)
	case "map":
		_, k := x.resolveType(t.K)
		_, v := x.resolveType(t.V)
		return sInt, types.NewMap(k, v)
	}
	panic("bad type")
}

func (c *SCtx) boolean(e *SExpr) *Term {
	v := c.eval(e)
	if v.T == nil || v.T.Sort != sBool {
		c.fail(e, "expected a formula")
	}
	return v.T
}

func coerceReal(t *Term) *Term {
	if t.Sort == sReal {
		return t
	}
	if n, ok := t.isNum(); ok {
		return ratTerm(new(big.Rat).SetInt64(n))
	}
	return app(sReal, "to_real", t)
}

func unify(a, b Val) (Val, Val) {
	if a.T != nil && b.T != nil && a.T.Sort != b.T.Sort {
		if a.T.Sort == sReal && b.T.Sort == sInt {
			b.T = coerceReal(b.T)
		} else if b.T.Sort == sReal && a.T.Sort == sInt {
			a.T = coerceReal(a.T)
		}
	}
	return a, b
}

func isNilVal(v Val) bool {
	b, ok := v.G.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

var nilVal = Val{G: types.Typ[types.UntypedNil], T: cst("nil", "Nil")}

// eqVals is equality, handling nil and aliases.
func (x *X) eqVals(a, b Val) *Term {
	if isNilVal(a) {
		a, b = b, a
	}
	if isNilVal(b) {
		if a.Alias != nil {
			return tFalse
		}
		if isNilVal(a) {
			return tTrue
		}
		if a.Fn != nil {
			return tFalse
		}
		return x.isNil(a)
	}
	a, b = unify(a, b)
	if a.Alias != nil || b.Alias != nil {
		if a.Alias != nil && b.Alias != nil && a.Alias.Obj == b.Alias.Obj && a.Alias.Kind == "var" && b.Alias.Kind == "var" {
			return tTrue
		}
		return tFalse
	}
	return eq(a.T, b.T)
}

func (x *X) isNil(a Val) *Term {
	switch a.T.Sort {
	case sSlice:
		return eq(x.sref(a.T), num(0))
	case sPtr:
		return eq(x.pref(a.T), num(0))
	case sIface:
		if d := x.def(a.T); d.Op == "mkiface" {
			return eq(d.Args[0], num(0))
		}
		return eq(app(sInt, "itag", a.T), num(0))
	case sFn:
		return eq(a.T, cst("fn_nil", sFn))
	case sInt:
		return eq(a.T, num(0))
	}
	panic(specErr{"nil comparison on sort " + a.T.Sort})
}

func derefType(g types.Type) (types.Type, bool) {
	if g == nil {
		return nil, false
	}
	if p, ok := g.Underlying().(*types.Pointer); ok {
		return p.Elem(), true
	}
	return nil, false
}

// structGo finds the Go struct type of a value.
func (x *X) structGo(v Val) types.Type {
	if v.G != nil {
		if _, ok := v.G.Underlying().(*types.Struct); ok {
			return v.G
		}
	}
	if v.T != nil {
		if g, ok := x.prog.sortType[v.T.Sort]; ok {
			return g
		}
	}
	return nil
}

func (c *SCtx) deref(v Val, e *SExpr) Val {
	el, ok := derefType(v.G)
	if !ok {
		c.fail(e, "dereference of non-pointer")
	}
	if v.Alias != nil {
		return c.x.readLV(c.st, v.Alias)
	}
	return Val{T: c.x.loadPtr(c.st, v.T, el), G: el}
}

func (c *SCtx) eval(e *SExpr) Val {
	x := c.x
	switch e.Op {
	case "num":
		n := new(big.Int)
		n.SetString(e.Name, 10)
		return Val{T: &Term{Op: n.String(), Sort: sInt}, G: types.Typ[types.Int]}
	case "real":
		r := new(big.Rat)
		r.SetString(e.Name)
		return Val{T: ratTerm(r), G: types.Typ[types.Float64]}
	case "str":
		return Val{T: x.strLit(e.Name), G: types.Typ[types.String]}
	case "id":
		switch e.Name {
		case "true":
			return Val{T: tTrue, G: types.Typ[types.Bool]}
		case "false":
			return Val{T: tFalse, G: types.Typ[types.Bool]}
		case "nil":
			return nilVal
		}
		if v, ok := c.env[e.Name]; ok {
			return v
		}
		if c.st != nil {
			if v, ok := c.st.ghost[e.Name]; ok {
				return v
			}
		}
		if c.lookup != nil {
			if v, ok := c.lookup(e.Name); ok {
				return v
			}
		}
		if d, ok := x.sp.Declares[e.Name]; ok && len(d.Params) == 0 {
			s, g := x.resolveType(d.Ret)
			return Val{T: cst("F_"+e.Name, s), G: g}
		}
		if d, ok := x.sp.Defines[e.Name]; ok && len(d.Params) == 0 {
			return c.callDefine(e, d, nil)
		}
		if m, ok := x.sp.Macros[e.Name]; ok && len(m.Params) == 0 {
			return c.eval(m.Body)
		}
		c.fail(e, "unknown name %s", e.Name)
	case "let":
		v := c.eval(e.Args[0])
		return c.with(e.Name, v).eval(e.Args[1])
	case "not":
		return Val{T: not(c.boolean(e.Args[0])), G: types.Typ[types.Bool]}
	case "neg":
		v := c.eval(e.Args[0])
		if n, ok := v.T.isNum(); ok {
			return Val{T: num(-n), G: v.G}
		}
		return Val{T: app(v.T.Sort, "-", v.T), G: v.G}
	case "deref":
		return c.deref(c.eval(e.Args[0]), e)
	case "&&":
		return Val{T: and(c.boolean(e.Args[0]), c.boolean(e.Args[1])), G: types.Typ[types.Bool]}
	case "||":
		return Val{T: or(c.boolean(e.Args[0]), c.boolean(e.Args[1])), G: types.Typ[types.Bool]}
	case "==>":
		return Val{T: implies(c.boolean(e.Args[0]), c.boolean(e.Args[1])), G: types.Typ[types.Bool]}
	case "<==>":
		return Val{T: eq(c.boolean(e.Args[0]), c.boolean(e.Args[1])), G: types.Typ[types.Bool]}
	case "ite":
		a, b := unify(c.eval(e.Args[1]), c.eval(e.Args[2]))
		g := a.G
		if g == nil {
			g = b.G
		}
		return Val{T: ite(c.boolean(e.Args[0]), a.T, b.T), G: g}
	case "==", "!=":
		a, b := c.eval(e.Args[0]), c.eval(e.Args[1])
		a, b = unify(a, b)
		if !isNilVal(a) && !isNilVal(b) && a.Alias == nil && b.Alias == nil && a.T.Sort != b.T.Sort {
			c.fail(e, "comparison of %s and %s", a.T.Sort, b.T.Sort)
		}
		t := x.eqVals(a, b)
		if e.Op == "!=" {
			t = not(t)
		}
		return Val{T: t, G: types.Typ[types.Bool]}
	case "<", "<=", ">", ">=":
		a, b := unify(c.eval(e.Args[0]), c.eval(e.Args[1]))
		if a.T.Sort != b.T.Sort || (a.T.Sort != sInt && a.T.Sort != sReal) {
			c.fail(e, "order comparison of %s and %s", a.T.Sort, b.T.Sort)
		}
		return Val{T: cmpT(e.Op, a.T, b.T), G: types.Typ[types.Bool]}
	case "+", "-", "*", "/", "%":
		a, b := unify(c.eval(e.Args[0]), c.eval(e.Args[1]))
		if a.T.Sort != b.T.Sort || (a.T.Sort != sInt && a.T.Sort != sReal) {
			c.fail(e, "arithmetic on %s and %s", a.T.Sort, b.T.Sort)
		}
		var t *Term
		switch e.Op {
		case "+":
			t = add(a.T, b.T)
		case "-":
			t = sub(a.T, b.T)
		case "*":
			t = mul(a.T, b.T)
		case "/":
			if a.T.Sort == sReal {
				t = app(sReal, "/", a.T, b.T)
			} else {
				t = app(sInt, "div", a.T, b.T)
			}
		case "%":
			t = app(sInt, "mod", a.T, b.T)
		}
		return Val{T: t, G: a.G}
	case "field":
		return c.fieldOf(e)
	case "index":
		return c.indexOf(e)
	case "update":
		a := c.eval(e.Args[0])
		i := c.eval(e.Args[1])
		v := c.eval(e.Args[2])
		if k, vs, ok := arrParts(a.T.Sort); ok {
			if k == sReal {
				i.T = coerceReal(i.T)
			}
			if vs == sReal {
				v.T = coerceReal(v.T)
			}
			return Val{T: store(a.T, i.T, v.T), G: a.G}
		}
		c.fail(e, "update of non-array")
	case "forall", "exists":
		n := c
		var bs []BVar
		for _, v := range e.Vars {
			s, g := x.resolveType(v.Type)
			x.eng.bvar++
			nm := fmt.Sprintf("?%s%d", v.Name, x.eng.bvar)
			bs = append(bs, BVar{nm, s})
			n = n.with(v.Name, Val{T: cst(nm, s), G: g})
		}
		var pats [][]*Term
		for _, p := range e.Pats {
			var l []*Term
			for _, q := range p {
				l = append(l, n.eval(q).T)
			}
			pats = append(pats, l)
		}
		body := n.boolean(e.Args[0])
		if e.Op == "forall" {
			return Val{T: forall(bs, body, pats...), G: types.Typ[types.Bool]}
		}
		return Val{T: exists(bs, body, pats...), G: types.Typ[types.Bool]}
	case "lam":
		// lam i: int :: body  -> array constant with defining axiom
		if len(e.Vars) != 1 {
			c.fail(e, "lam takes one variable")
		}
		s, g := x.resolveType(e.Vars[0].Type)
		x.eng.bvar++
		nm := fmt.Sprintf("?%s%d", e.Vars[0].Name, x.eng.bvar)
		body := c.with(e.Vars[0].Name, Val{T: cst(nm, s), G: g}).eval(e.Args[0])
		as := arr(s, body.T.Sort)
		var el types.Type
		if body.G != nil {
			el = &SeqT{body.G}
		}
		return Val{T: x.eng.lambda(x, nm, s, body.T, as), G: el}
	case "call":
		return c.call(e)
	}
	c.fail(e, "cannot evaluate %s", e.Op)
	return Val{}
}

func (c *SCtx) fieldOf(e *SExpr) Val {
	x := c.x
	v := c.eval(e.Args[0])
	if v.T != nil && strings.HasPrefix(v.T.Sort, "D_") {
		d := x.sp.Datatypes[v.T.Sort[2:]]
		for i, f := range d.Fields {
			if f.Name == e.Name {
				s, g := x.resolveType(f.Type)
				if dd := x.def(v.T); dd.Op == "mkD_"+d.Name {
					return Val{T: dd.Args[i], G: g}
				}
				return Val{T: app(s, "D_"+d.Name+"."+f.Name, v.T), G: g}
			}
		}
		c.fail(e, "no field %s", e.Name)
	}
	if _, ok := derefType(v.G); ok {
		v = c.deref(v, e)
	}
	g := x.structGo(v)
	if g == nil {
		c.fail(e, "field %s of non-struct", e.Name)
	}
	t, ft := x.field(v.T, g, e.Name)
	if t == nil {
		// promoted through embedded fields
		st := g.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Embedded() {
				et, eg := x.field(v.T, g, st.Field(i).Name())
				ev := Val{T: et, G: eg}
				if _, ok := derefType(eg); ok {
					ev = c.deref(ev, e)
				}
				if _, ok := ev.G.Underlying().(*types.Struct); ok {
					if t2, f2 := x.field(ev.T, ev.G, e.Name); t2 != nil {
						return Val{T: t2, G: f2}
					}
				}
			}
		}
		c.fail(e, "no field %s in %s", e.Name, g)
	}
	return Val{T: t, G: ft}
}

func (c *SCtx) indexOf(e *SExpr) Val {
	x := c.x
	a := c.eval(e.Args[0])
	i := c.eval(e.Args[1])
	if a.T.Sort == sSlice {
		sl, ok := a.G.Underlying().(*types.Slice)
		if !ok {
			c.fail(e, "slice of unknown element type")
		}
		return Val{T: x.loadElem(c.st, a.T, i.T, sl.Elem()), G: sl.Elem()}
	}
	if k, _, ok := arrParts(a.T.Sort); ok {
		if k == sReal {
			i.T = coerceReal(i.T)
		}
		if k != i.T.Sort {
			c.fail(e, "index of sort %s for %s", i.T.Sort, a.T.Sort)
		}
		return Val{T: x.selArr(a.T, i.T), G: x.elemGo(a)}
	}
	if a.G != nil {
		if m, ok := a.G.Underlying().(*types.Map); ok {
			return Val{T: sel(x.selHeap(x.mapVal(c.st, m), a.T), i.T), G: m.Elem()}
		}
	}
	c.fail(e, "index of %s", a.T.Sort)
	return Val{}
}

func (x *X) elemGo(a Val) types.Type {
	if s, ok := a.G.(*SeqT); ok {
		return s.Elem
	}
	if a.G != nil {
		if s, ok := a.G.Underlying().(*types.Array); ok {
			return s.Elem()
		}
	}
	_, v, _ := arrParts(a.T.Sort)
	switch v {
	case sInt:
		return types.Typ[types.Int]
	case sReal:
		return types.Typ[types.Float64]
	case sBool:
		return types.Typ[types.Bool]
	case sStr:
		return types.Typ[types.String]
	}
	if g, ok := x.prog.sortType[v]; ok {
		return g
	}
	return nil
}

// ---- map heaps ----

func (x *X) mapTag(m *types.Map) string {
	return x.prog.typeTag(m.Key()) + "_" + x.prog.typeTag(m.Elem())
}
func (x *X) mapDom(st *State, m *types.Map) *Term {
	x.entryDom(m)
	return x.heapN(st, "MD_"+x.mapTag(m), arr(sInt, arr(x.prog.sortOf(m.Key()), sBool)), nil)
}

// entryDom declares the entry domain heap; the nil map is empty.
func (x *X) entryDom(m *types.Map) {
	dn := "MD_" + x.mapTag(m) + "!e"
	if _, ok := x.consts[dn]; ok {
		return
	}
	ks := x.prog.sortOf(m.Key())
	ds := arr(sInt, arr(ks, sBool))
	x.entryConst(dn, ds)
	i := cst("i", ks)
	e := sel(sel(cst(dn, ds), num(0)), i)
	x.eng.addEntryFact(x, forall([]BVar{{"i", ks}}, not(e), []*Term{e}))
}
func (x *X) mapVal(st *State, m *types.Map) *Term {
	n := "MV_" + x.mapTag(m)
	ks := x.prog.sortOf(m.Key())
	if _, ok := st.heaps[n]; !ok {
		if _, ok := x.consts[n+"!e"]; !ok {
			// values stored in allocated maps are allocated
			x.heapN(st, n, arr(sInt, arr(ks, x.prog.sortOf(m.Elem()))), nil)
			dn := "MD_" + x.mapTag(m)
			ds := arr(sInt, arr(ks, sBool))
			x.entryDom(m)
			r, i := cst("r", sInt), cst("i", ks)
			e := sel(sel(cst(n+"!e", arr(sInt, arr(ks, x.prog.sortOf(m.Elem())))), r), i)
			if w := x.wfTerms(e, m.Elem(), x.entry.alloc, 0); len(w) > 0 {
				x.eng.addEntryFact(x, forall([]BVar{{"r", sInt}, {"i", ks}}, implies(and(le(r, x.entry.alloc), sel(sel(cst(dn+"!e", ds), r), i)), and(w...)), []*Term{e}))
			}
		}
	}
	return x.heapN(st, n, arr(sInt, arr(ks, x.prog.sortOf(m.Elem()))), nil)
}
func (x *X) mapLen(st *State, m *types.Map) *Term {
	return x.heapN(st, "ML_"+x.mapTag(m), arr(sInt, sInt), nil)
}

func (c *SCtx) call(e *SExpr) Val {
	x := c.x
	B := types.Typ[types.Bool]
	I := types.Typ[types.Int]
	arg := func(i int) Val {
		if i >= len(e.Args) {
			c.fail(e, "%s: missing argument", e.Name)
		}
		return c.eval(e.Args[i])
	}
	switch e.Name {
	case "old":
		if c.old == nil {
			c.fail(e, "old not available")
		}
		o := *c.old
		o.env = map[string]Val{}
		for n, v := range c.old.env {
			o.env[n] = v
		}
		// ghost names of the current point keep their meaning
		if c.st != nil {
			for n, v := range c.st.ghost {
				if strings.HasPrefix(n, "$") && v.T != nil {
					o.env[n] = v
				}
			}
		}
		for n, v := range c.env {
			if strings.HasPrefix(n, "$") {
				o.env[n] = v
			}
		}
		return o.eval(e.Args[0])
	case "pre":
		if c.pre == nil {
			c.fail(e, "pre not available")
		}
		return c.pre.eval(e.Args[0])
	case "len":
		v := arg(0)
		if v.T.Sort == sSlice {
			return Val{T: x.slen(v.T), G: I}
		}
		if v.T.Sort == sStr {
			return Val{T: app(sInt, "strlen", v.T), G: I}
		}
		if v.G != nil {
			if m, ok := v.G.Underlying().(*types.Map); ok {
				return Val{T: x.selHeap(x.mapLen(c.st, m), v.T), G: I}
			}
		}
		c.fail(e, "len of %s", v.T.Sort)
	case "cap":
		return Val{T: x.scap(arg(0).T), G: I}
	case "ref":
		v := arg(0)
		switch v.T.Sort {
		case sSlice:
			return Val{T: x.sref(v.T), G: I}
		case sPtr:
			return Val{T: x.pref(v.T), G: I}
		case sInt:
			return Val{T: v.T, G: I}
		}
		c.fail(e, "ref of %s", v.T.Sort)
	case "off":
		if v := arg(0); v.T.Sort == sPtr {
			return Val{T: x.pidx(v.T), G: I}
		}
		return Val{T: x.soff(arg(0).T), G: I}
	case "seq":
		v := arg(0)
		sl, ok := v.G.Underlying().(*types.Slice)
		if !ok {
			c.fail(e, "seq of non-slice")
		}
		return Val{T: x.arrOf(c.st, v.T, sl.Elem()), G: &SeqT{sl.Elem()}}
	case "dom":
		v := arg(0)
		m := v.G.Underlying().(*types.Map)
		return Val{T: x.selHeap(x.mapDom(c.st, m), v.T)}
	case "vals":
		v := arg(0)
		m := v.G.Underlying().(*types.Map)
		var g types.Type = &SeqT{m.Elem()}
		return Val{T: x.selHeap(x.mapVal(c.st, m), v.T), G: g}
	case "fresh":
		// allocated since the reference state (old / call entry)
		v := arg(0)
		if c.old == nil {
			c.fail(e, "fresh not available")
		}
		var r *Term
		switch v.T.Sort {
		case sSlice:
			r = x.sref(v.T)
		case sPtr:
			r = x.pref(v.T)
		default:
			r = v.T
		}
		return Val{T: lt(c.old.st.alloc, r), G: B}
	case "allocated":
		v := arg(0)
		return Val{T: and(x.wfTerms(v.T, v.G, c.st.alloc, 0)...), G: B}
	case "real":
		return Val{T: coerceReal(arg(0).T), G: types.Typ[types.Float64]}
	case "apply":
		f := arg(0)
		var as []*Term
		for i := 1; i < len(e.Args); i++ {
			as = append(as, arg(i).T)
		}
		sig, ok := f.G.Underlying().(*types.Signature)
		if !ok {
			c.fail(e, "apply of non-function")
		}
		return x.applyFn(f.T, sig, as)
	case "ifaceptr":
		// ifaceptr(i, "pkg.Type"): pointer stored in interface value
		v := arg(0)
		g := x.typeByName(e.Args[1].Name)
		return Val{T: x.ifacePtr(v.T), G: types.NewPointer(g)}
	case "istype":
		v := arg(0)
		g := x.typeByName(e.Args[1].Name)
		return Val{T: eq(x.ifaceTag(v.T), num(int64(x.eng.typeID(types.NewPointer(g).String())))), G: B}
	case "global":
		// global("pkg.Name"): current value of a package variable
		return x.globalRead(c.st, e.Args[0].Name)
	case "constarr":
		v := arg(0)
		return Val{T: constArr(arr(sInt, v.T.Sort), v.T), G: &SeqT{v.G}}
	case "emptyset":
		s, _ := x.resolveType(&SType{Kind: "name", Name: e.Args[0].Name})
		return Val{T: constArr(arr(s, sBool), tFalse)}
	case "zeros":
		// zeros(s): array of zero values with the element type of slice s
		v := arg(0)
		sl := v.G.Underlying().(*types.Slice)
		return Val{T: x.zeros(sl.Elem()), G: &SeqT{sl.Elem()}}
	case "ext", "extlen", "extseq":
		// ext("path.Func", j, args...): j-th result of a library function
		full := e.Args[0].Name
		j, _ := arg(1).T.isNum()
		f := x.prog.extFunc(full)
		if f == nil {
			c.fail(e, "unknown library function %s", full)
		}
		rt := f.Type().(*types.Signature).Results().At(int(j)).Type()
		var ts []*Term
		for i := 2; i < len(e.Args); i++ {
			ts = append(ts, arg(i).T)
		}
		switch e.Name {
		case "extlen":
			return Val{T: x.extTerm(full, int(j), "len", ts, sInt), G: I}
		case "extseq":
			el := rt.Underlying().(*types.Slice).Elem()
			return Val{T: x.extTerm(full, int(j), "seq", ts, arr(sInt, x.prog.sortOf(el))), G: &SeqT{el}}
		}
		return Val{T: x.extTerm(full, int(j), "", ts, x.prog.sortOf(rt)), G: rt}
	case "alloc":
		return Val{T: c.st.alloc, G: I}
	case "nan":
		return Val{T: cst("nan", sReal), G: types.Typ[types.Float64]}
	case "ninf":
		return Val{T: cst("ninf", sReal), G: types.Typ[types.Float64]}
	}
	if d, ok := x.sp.Datatypes[e.Name]; ok {
		if len(e.Args) != len(d.Fields) {
			c.fail(e, "constructor %s takes %d arguments", e.Name, len(d.Fields))
		}
		as := make([]*Term, len(d.Fields))
		for i := range d.Fields {
			s, _ := x.resolveType(d.Fields[i].Type)
			a := arg(i)
			if s == sReal {
				a.T = coerceReal(a.T)
			}
			as[i] = a.T
		}
		return Val{T: app("D_"+d.Name, "mkD_"+d.Name, as...)}
	}
	if m, ok := x.sp.Macros[e.Name]; ok {
		if len(m.Params) != len(e.Args) {
			c.fail(e, "macro %s takes %d arguments", e.Name, len(m.Params))
		}
		n := c
		for i, p := range m.Params {
			n = n.with(p, arg(i))
		}
		return n.eval(m.Body)
	}
	if d, ok := x.sp.Defines[e.Name]; ok {
		return c.callDefine(e, d, e.Args)
	}
	if d, ok := x.sp.Declares[e.Name]; ok {
		return c.callDefine(e, d, e.Args)
	}
	// Go struct constructor: pkg_Type
	c.fail(e, "unknown function %s", e.Name)
	return Val{}
}

func (x *X) typeByName(n string) types.Type {
	i := strings.IndexByte(n, '.')
	if i < 0 {
		panic(specErr{"bad type name " + n})
	}
	g := x.prog.lookupType(n[:i], n[i+1:])
	if g == nil {
		panic(specErr{"unknown type " + n})
	}
	return g
}

func (x *X) ifacePtr(t *Term) *Term {
	if d := x.def(t); d.Op == "mkiface" {
		return d.Args[1]
	}
	return app(sPtr, "iptr", t)
}

func (x *X) ifaceTag(t *Term) *Term {
	if d := x.def(t); d.Op == "mkiface" {
		return d.Args[0]
	}
	return app(sInt, "itag", t)
}

func (x *X) applyFn(f *Term, sig *types.Signature, args []*Term) Val {
	nm := "apply"
	var sorts []string
	for i := 0; i < sig.Params().Len(); i++ {
		s := x.prog.sortOf(sig.Params().At(i).Type())
		sorts = append(sorts, s)
		nm += "_" + sanitize(s)
	}
	rt := sig.Results().At(0).Type()
	rs := x.prog.sortOf(rt)
	nm += "_" + sanitize(rs)
	x.eng.declFun(nm, append([]string{sFn}, sorts...), rs)
	return Val{T: app(rs, nm, append([]*Term{f}, args...)...), G: rt}
}

// callDefine applies a specification function.
func (c *SCtx) callDefine(e *SExpr, d *Define, args []*SExpr) Val {
	x := c.x
	if len(args) != len(d.Params) {
		c.fail(e, "%s takes %d arguments, got %d", d.Name, len(d.Params), len(args))
	}
	vals := make([]Val, len(args))
	for i, a := range args {
		v := c.eval(a)
		s, g := x.resolveType(d.Params[i].Type)
		if isNilVal(v) {
			c.fail(e, "nil argument")
		}
		if s == sReal && v.T.Sort == sInt {
			v.T = coerceReal(v.T)
		}
		if v.T.Sort != s {
			c.fail(e, "argument %d of %s: sort %s, expected %s", i, d.Name, v.T.Sort, s)
		}
		vals[i] = Val{T: v.T, G: g}
	}
	rs, rg := x.resolveType(d.Ret)
	if d.Body != nil && !d.Recursive && !d.Opaque {
		n := &SCtx{x: x, env: map[string]Val{}, inDef: c.inDef}
		for i, p := range d.Params {
			n.env[p.Name] = vals[i]
		}
		r := n.eval(d.Body)
		if rs == sReal {
			r.T = coerceReal(r.T)
		}
		if r.T.Sort != rs {
			c.fail(d.Body, "body of %s has sort %s, declared %s", d.Name, r.T.Sort, rs)
		}
		r.G = rg
		return r
	}
	nm := "F_" + d.Name
	if c.inDef == d {
		nm += "$0"
	}
	if len(vals) == 0 {
		return Val{T: cst(nm, rs), G: rg}
	}
	ts := make([]*Term, len(vals))
	for i := range vals {
		ts[i] = vals[i].T
	}
	return Val{T: app(rs, nm, ts...), G: rg}
}
