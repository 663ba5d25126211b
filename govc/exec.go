package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

const maxPaths = 4000

func (x *X) typeOf(fr *Frame, e ast.Expr) types.Type {
	if tv, ok := fr.pkg.Info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := x.obj(fr, id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func (x *X) obj(fr *Frame, id *ast.Ident) types.Object {
	if o := fr.pkg.Info.Defs[id]; o != nil {
		return o
	}
	return fr.pkg.Info.Uses[id]
}

func (x *X) constVal(tv types.TypeAndValue) (Val, bool) {
	if tv.Value == nil {
		return Val{}, false
	}
	v := tv.Value
	t := tv.Type
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			if constant.BoolVal(v) {
				return Val{T: tTrue, G: t}, true
			}
			return Val{T: tFalse, G: t}, true
		case b.Info()&types.IsInteger != 0:
			s := constant.ToInt(v).ExactString()
			if strings.HasPrefix(s, "-") {
				s = "(- " + s[1:] + ")"
			}
			return Val{T: &Term{Op: s, Sort: sInt}, G: t}, true
		case b.Info()&types.IsFloat != 0:
			r := new(big.Rat)
			if _, ok := r.SetString(constant.ToFloat(v).ExactString()); ok {
				return Val{T: ratTerm(r), G: t}, true
			}
		case b.Info()&types.IsString != 0:
			return Val{T: x.strLit(constant.StringVal(v)), G: t}, true
		}
	}
	return Val{}, false
}

// convertTo adapts a value to a destination type (assignment conversion).
func (x *X) convertTo(st *State, v Val, t types.Type) Val {
	if t == nil {
		return v
	}
	if isNilVal(v) {
		return Val{T: x.zero(t), G: t}
	}
	if isErrorType(t) {
		if v.G != nil && !isErrorType(v.G) {
			c := x.newConst("err", sInt)
			st.assume(lt(num(0), c))
			return Val{T: c, G: t}
		}
		return Val{T: v.T, G: t}
	}
	if _, ok := t.Underlying().(*types.Interface); ok && v.G != nil {
		if _, ok := v.G.Underlying().(*types.Interface); ok {
			return Val{T: v.T, G: t}
		}
		id := num(int64(x.eng.typeID(v.G.String())))
		if v.Alias == nil && v.T != nil && v.T.Sort == sPtr {
			return Val{T: app(sIface, "mkiface", id, v.T), G: t}
		}
		p := x.newConst("box", sPtr)
		return Val{T: app(sIface, "mkiface", id, p), G: t}
	}
	if v.T != nil && v.T.Sort == sInt && x.prog.sortOf(t) == sReal {
		v.T = coerceReal(v.T)
	}
	v.G = t
	return v
}

// ---- locations ----

func (x *X) readLV(st *State, lv *LVal) Val {
	switch lv.Kind {
	case "var":
		return x.readVar(st, lv.Obj)
	case "field":
		b := x.readLV(st, lv.Base)
		t, g := x.field(b.T, b.G, lv.Field)
		return Val{T: t, G: g}
	case "elem":
		return Val{T: x.loadElem(st, lv.S, lv.I, lv.G), G: lv.G}
	case "deref":
		return Val{T: x.loadPtr(st, lv.S, lv.G), G: lv.G}
	case "arr":
		b := x.readLV(st, lv.Base)
		return Val{T: x.selArr(b.T, lv.I), G: lv.G}
	case "map":
		m := x.selHeap(x.mapVal(st, lv.Map), lv.S)
		d := x.selHeap(x.mapDom(st, lv.Map), lv.S)
		return Val{T: ite(sel(d, lv.I), sel(m, lv.I), x.zero(lv.G)), G: lv.G}
	}
	panic(unsupported{"read of location " + lv.Kind})
}

func (x *X) readVar(st *State, o types.Object) Val {
	if r, ok := st.boxed[o]; ok {
		return Val{T: x.selArr(x.selHeap(x.heap(st, o.Type()), r), num(0)), G: o.Type()}
	}
	if v, ok := st.vars[o]; ok {
		return v
	}
	if v, ok := o.(*types.Var); ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
		return x.globalVar(st, v)
	}
	panic(unsupported{fmt.Sprintf("variable %s not bound", o.Name())})
}

func (x *X) writeLV(st *State, lv *LVal, v Val, pos token.Pos) {
	if lv.Kind == "blank" {
		return
	}
	v = x.convertTo(st, v, lv.G)
	switch lv.Kind {
	case "var":
		x.setVar(st, lv.Obj, v)
	case "field":
		b := x.readLV(st, lv.Base)
		x.writeLV(st, lv.Base, Val{T: x.setField(b.T, b.G, lv.Field, v.T), G: b.G}, pos)
	case "arr":
		b := x.readLV(st, lv.Base)
		x.writeLV(st, lv.Base, Val{T: store(b.T, lv.I, v.T), G: b.G}, pos)
	case "elem":
		x.noAlias(v, pos)
		hn := x.prog.heapName(lv.G)
		h := x.heap(st, lv.G)
		ref := x.sref(lv.S)
		x.checkWrite(st, hn, ref, nil, pos)
		old := x.selHeap(h, ref)
		off := x.soff(lv.S)
		val := x.nameIt(st, "v", v.T)
		na := store(old, add(off, lv.I), val)
		a := x.nameIt(st, "A", na)
		if n, ok := off.isNum(); !ok || n != 0 {
			st.assume(app(sBool, "=", x.shift(a, off), store(x.shift(old, off), lv.I, val)))
		}
		x.setHeap(st, hn, h, ref, a)
	case "deref":
		x.noAlias(v, pos)
		hn := x.prog.heapName(lv.G)
		h := x.heap(st, lv.G)
		ref := x.pref(lv.S)
		x.checkWrite(st, hn, ref, x.pidx(lv.S), pos)
		old := x.selHeap(h, ref)
		val := x.nameIt(st, "v", v.T)
		a := x.nameIt(st, "A", store(old, x.pidx(lv.S), val))
		if n, ok := x.pidx(lv.S).isNum(); !ok || n != 0 {
			o := cst("?o", sInt)
			sh := x.shift(a, o)
			st.assume(forall([]BVar{{"?o", sInt}}, app(sBool, "=", sh, store(x.shift(old, o), sub(x.pidx(lv.S), o), val)), []*Term{sh}))
		}
		x.setHeap(st, hn, h, ref, a)
	case "map":
		x.noAlias(v, pos)
		x.mapStore(st, lv.Map, lv.S, lv.I, v.T, pos)
	default:
		panic(unsupported{"write of location " + lv.Kind})
	}
}

func (x *X) noAlias(v Val, pos token.Pos) {
	if v.Alias != nil {
		x.unsup(pos, "address of unboxed local escapes")
	}
	if v.T == nil {
		x.unsup(pos, "function literal stored in heap")
	}
}

func (x *X) mapStore(st *State, m *types.Map, ref, key, val *Term, pos token.Pos) {
	tag := x.mapTag(m)
	x.checkWrite(st, "MV_"+tag, ref, nil, pos)
	hd, hv, hl := x.mapDom(st, m), x.mapVal(st, m), x.mapLen(st, m)
	d, v, l := x.selHeap(hd, ref), x.selHeap(hv, ref), x.selHeap(hl, ref)
	nd := x.nameIt(st, "dom", store(d, key, tTrue))
	nv := x.nameIt(st, "val", store(v, key, val))
	nl := x.nameIt(st, "mlen", ite(sel(d, key), l, add(l, num(1))))
	x.setHeap(st, "MD_"+tag, hd, ref, nd)
	x.setHeap(st, "MV_"+tag, hv, ref, nv)
	x.setHeap(st, "ML_"+tag, hl, ref, nl)
}

func (x *X) mapDelete(st *State, m *types.Map, ref, key *Term, pos token.Pos) {
	tag := x.mapTag(m)
	x.checkWrite(st, "MV_"+tag, ref, nil, pos)
	hd, hl := x.mapDom(st, m), x.mapLen(st, m)
	d, l := x.selHeap(hd, ref), x.selHeap(hl, ref)
	nd := x.nameIt(st, "dom", store(d, key, tFalse))
	nl := x.nameIt(st, "mlen", ite(sel(d, key), sub(l, num(1)), l))
	x.setHeap(st, "MD_"+tag, hd, ref, nd)
	x.setHeap(st, "ML_"+tag, hl, ref, nl)
}

func (x *X) setVar(st *State, o types.Object, v Val) {
	if x.logOn > 0 {
		x.logVars[o] = true
	}
	if r, ok := st.boxed[o]; ok {
		x.noAlias(v, o.Pos())
		hn := x.prog.heapName(o.Type())
		h := x.heap(st, o.Type())
		a := x.nameIt(st, "A", store(x.selHeap(h, r), num(0), v.T))
		x.setHeap(st, hn, h, r, a)
		return
	}
	if pv, ok := o.(*types.Var); ok && pv.Pkg() != nil && pv.Parent() == pv.Pkg().Scope() {
		x.noAlias(v, o.Pos())
		r := x.globalRef(pv)
		hn := x.prog.heapName(o.Type())
		h := x.heap(st, o.Type())
		if !x.initMode {
			x.checkWrite(st, hn, r, num(0), o.Pos())
		}
		x.setHeap(st, hn, h, r, x.nameIt(st, "A", store(x.selHeap(h, r), num(0), v.T)))
		return
	}
	if v.T != nil && v.Alias == nil {
		v.T = x.nameIt(st, o.Name(), v.T)
	}
	v.G = o.Type()
	st.vars[o] = v
}

// declare introduces a variable.
func (x *X) declare(st *State, o types.Object, v Val) {
	v = x.convertTo(st, v, o.Type())
	if x.boxObjs[o] {
		r := x.newRef(st)
		st.boxed[o] = r
		delete(st.vars, o)
		hn := x.prog.heapName(o.Type())
		h := x.heap(st, o.Type())
		x.noAlias(v, o.Pos())
		a := x.newConst("cell", arr(sInt, x.prog.sortOf(o.Type())))
		na := x.nameIt(st, "A", store(a, num(0), v.T))
		x.setHeap(st, hn, h, r, na)
		return
	}
	x.setVar(st, o, v)
}

// scanBoxes finds variables whose address is taken explicitly.
func (x *X) scanBoxes(pkg *Pkg, b *ast.BlockStmt) {
	if b == nil || x.scanned[b] {
		return
	}
	x.scanned[b] = true
	ast.Inspect(b, func(n ast.Node) bool {
		if u, ok := n.(*ast.UnaryExpr); ok && u.Op == token.AND {
			e := ast.Unparen(u.X)
			for {
				if s, ok := e.(*ast.SelectorExpr); ok {
					if t := pkg.Info.Types[s.X].Type; t != nil {
						if _, ok := t.Underlying().(*types.Struct); ok {
							e = ast.Unparen(s.X)
							continue
						}
					}
				}
				break
			}
			if id, ok := e.(*ast.Ident); ok {
				if o := pkg.Info.Uses[id]; o != nil {
					x.boxObjs[o] = true
				}
			}
		}
		return true
	})
}

// lvalue evaluates an assignable expression.
func (x *X) lvalue(fr *Frame, st *State, e ast.Expr, k func(*State, *LVal)) {
	e = ast.Unparen(e)
	switch n := e.(type) {
	case *ast.Ident:
		if n.Name == "_" {
			k(st, &LVal{Kind: "blank"})
			return
		}
		o := x.obj(fr, n)
		k(st, &LVal{Kind: "var", Obj: o, G: o.Type()})
	case *ast.StarExpr:
		x.eval(fr, st, n.X, func(st *State, v Val) {
			el, _ := derefType(v.G)
			if v.Alias != nil {
				k(st, v.Alias)
				return
			}
			x.nilCheck(st, v, e.Pos())
			k(st, &LVal{Kind: "deref", S: v.T, G: el})
		})
	case *ast.SelectorExpr:
		s := fr.pkg.Info.Selections[n]
		if s == nil { // package-qualified variable
			o := fr.pkg.Info.Uses[n.Sel]
			k(st, &LVal{Kind: "var", Obj: o, G: o.Type()})
			return
		}
		base := func(st *State, b *LVal) {
			t := b.G
			for i, idx := range s.Index() {
				if el, ok := derefType(t); ok && i > 0 {
					pv := x.readLV(st, b)
					x.nilCheck(st, pv, e.Pos())
					b = &LVal{Kind: "deref", S: pv.T, G: el}
					t = el
				}
				f := t.Underlying().(*types.Struct).Field(idx)
				b = &LVal{Kind: "field", Base: b, Field: f.Name(), G: f.Type()}
				t = f.Type()
			}
			k(st, b)
		}
		bt := x.typeOf(fr, n.X)
		if el, ok := derefType(bt); ok {
			x.eval(fr, st, n.X, func(st *State, v Val) {
				if v.Alias != nil {
					base(st, v.Alias)
					return
				}
				x.nilCheck(st, v, e.Pos())
				base(st, &LVal{Kind: "deref", S: v.T, G: el})
			})
			return
		}
		x.lvalue(fr, st, n.X, base)
	case *ast.IndexExpr:
		bt := x.typeOf(fr, n.X)
		switch u := bt.Underlying().(type) {
		case *types.Slice:
			x.eval(fr, st, n.X, func(st *State, s Val) {
				x.eval(fr, st, n.Index, func(st *State, i Val) {
					x.boundsCheck(st, i.T, x.slen(s.T), n.Index.Pos())
					k(st, &LVal{Kind: "elem", S: s.T, I: i.T, G: u.Elem()})
				})
			})
		case *types.Map:
			x.eval(fr, st, n.X, func(st *State, s Val) {
				x.eval(fr, st, n.Index, func(st *State, i Val) {
					i = x.convertTo(st, i, u.Key())
					x.oblige(st, "nilmap", "", e.Pos(), not(eq(s.T, num(0))))
					k(st, &LVal{Kind: "map", S: s.T, I: i.T, G: u.Elem(), Map: u})
				})
			})
		case *types.Array:
			x.lvalue(fr, st, n.X, func(st *State, b *LVal) {
				x.eval(fr, st, n.Index, func(st *State, i Val) {
					x.boundsCheck(st, i.T, num(u.Len()), n.Index.Pos())
					k(st, &LVal{Kind: "arr", Base: b, I: i.T, G: u.Elem()})
				})
			})
		default:
			x.unsup(e.Pos(), "index of %s", bt)
		}
	default:
		// an rvalue used as receiver: put it in a temporary
		x.eval(fr, st, e, func(st *State, v Val) {
			o := types.NewVar(e.Pos(), fr.pkg.Types, "tmp", v.G)
			st.vars[o] = v
			k(st, &LVal{Kind: "var", Obj: o, G: v.G})
		})
	}
}

func (x *X) nilCheck(st *State, v Val, pos token.Pos) {
	if v.Alias != nil {
		return
	}
	g := not(eq(x.pref(v.T), num(0)))
	if r := x.pref(v.T); isAtomic(r) && x.fresh[r.Op] {
		return
	}
	x.check(st, "nil", pos, g)
}

// check emits a safety obligation once per path and assumes it afterwards.
func (x *X) check(st *State, kind string, pos token.Pos, g *Term) {
	if g.Op == "true" {
		x.eng.trivial++
		x.eng.trivialBy[x.fd0()]++
		return
	}
	key := "$chk:" + g.String()
	if _, ok := st.ghost[key]; ok {
		return
	}
	goal := g
	if x.con != nil && x.con.Panics != nil && x.dry == 0 {
		switch kind {
		case "make", "index", "nil", "slice", "div0", "nilfunc", "typeassert", "shift":
			// a run-time panic is as good as an explicit one where the contract asks for a panic
			goal = implies(not(x.entryCtx().boolean(x.con.Panics)), g)
		}
	}
	x.oblige(st, kind, "", pos, goal)
	st.assume(g)
	st.ghost[key] = Val{}
}

func (x *X) boundsCheck(st *State, i, n *Term, pos token.Pos) {
	x.check(st, "index", pos, and(le(num(0), i), lt(i, n)))
}

// ---- expressions ----

func (x *X) evalList(fr *Frame, st *State, es []ast.Expr, k func(*State, []Val)) {
	if len(es) == 0 {
		k(st, nil)
		return
	}
	x.eval(fr, st, es[0], func(st *State, v Val) {
		x.evalList(fr, st, es[1:], func(st *State, vs []Val) {
			k(st, append([]Val{v}, vs...))
		})
	})
}

func (x *X) purePath(fr *Frame, e ast.Expr) bool {
	pure := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch m := n.(type) {
		case *ast.CallExpr:
			if id, ok := m.Fun.(*ast.Ident); ok && (id.Name == "len" || id.Name == "int" || id.Name == "uint" || id.Name == "float64") {
				return true
			}
			pure = false
		case *ast.IndexExpr, *ast.StarExpr, *ast.SliceExpr, *ast.FuncLit:
			pure = false
		case *ast.SelectorExpr:
			if t := x.typeOf(fr, m.X); t != nil {
				if _, ok := t.Underlying().(*types.Pointer); ok {
					pure = false
				}
			}
		case *ast.BinaryExpr:
			if m.Op == token.QUO || m.Op == token.REM || m.Op == token.SHL || m.Op == token.SHR {
				pure = false
			}
		}
		return pure
	})
	return pure
}

func (x *X) eval(fr *Frame, st *State, e ast.Expr, k func(*State, Val)) {
	if tv, ok := fr.pkg.Info.Types[e]; ok {
		if v, ok := x.constVal(tv); ok {
			k(st, v)
			return
		}
		if tv.IsNil() {
			k(st, nilVal)
			return
		}
	}
	switch n := e.(type) {
	case *ast.ParenExpr:
		x.eval(fr, st, n.X, k)
	case *ast.Ident:
		o := x.obj(fr, n)
		switch ob := o.(type) {
		case *types.Var:
			v := x.readVar(st, o)
			if v.Alias == nil && v.Fn == nil {
				x.wf(st, v.T, v.G)
			}
			k(st, v)
		case *types.Func:
			k(st, Val{Fn: &FnVal{Fun: ob}, G: o.Type()})
		default:
			x.unsup(e.Pos(), "identifier %s", n.Name)
		}
	case *ast.BasicLit:
		x.unsup(e.Pos(), "literal")
	case *ast.FuncLit:
		k(st, Val{Fn: &FnVal{Lit: n, Fr: fr}, G: x.typeOf(fr, e)})
	case *ast.SelectorExpr:
		x.evalSelector(fr, st, n, k)
	case *ast.StarExpr:
		x.eval(fr, st, n.X, func(st *State, v Val) {
			el, _ := derefType(v.G)
			if v.Alias != nil {
				k(st, x.readLV(st, v.Alias))
				return
			}
			x.nilCheck(st, v, e.Pos())
			r := x.loadPtr(st, v.T, el)
			x.wf(st, r, el)
			k(st, Val{T: r, G: el})
		})
	case *ast.UnaryExpr:
		x.evalUnary(fr, st, n, k)
	case *ast.BinaryExpr:
		x.evalBinary(fr, st, n, k)
	case *ast.IndexExpr:
		x.evalIndex(fr, st, n, k)
	case *ast.SliceExpr:
		x.evalSlice(fr, st, n, k)
	case *ast.CompositeLit:
		x.evalComposite(fr, st, n, x.typeOf(fr, e), k)
	case *ast.CallExpr:
		x.evalCall(fr, st, n, func(st *State, vs []Val) {
			switch len(vs) {
			case 0:
				k(st, Val{})
			case 1:
				k(st, vs[0])
			default:
				k(st, Val{Tuple: vs})
			}
		})
	case *ast.TypeAssertExpr:
		x.eval(fr, st, n.X, func(st *State, v Val) {
			t := x.typeOf(fr, n.Type)
			if tt, ok := x.typeOf(fr, e).(*types.Tuple); ok {
				okc := x.newConst("ok", sBool)
				r := x.newConst("ta", x.prog.sortOf(t))
				x.wf(st, r, t)
				k(st, Val{Tuple: []Val{{T: r, G: t}, {T: okc, G: tt.At(1).Type()}}})
				return
			}
			x.check(st, "typeassert", e.Pos(), eq(x.ifaceTag(v.T), num(int64(x.eng.typeID(t.String())))))
			if _, ok := t.Underlying().(*types.Pointer); ok {
				k(st, Val{T: x.ifacePtr(v.T), G: t})
				return
			}
			r := x.newConst("ta", x.prog.sortOf(t))
			x.wf(st, r, t)
			k(st, Val{T: r, G: t})
		})
	default:
		x.unsup(e.Pos(), "expression %T", e)
	}
}

func (x *X) evalSelector(fr *Frame, st *State, n *ast.SelectorExpr, k func(*State, Val)) {
	s := fr.pkg.Info.Selections[n]
	if s == nil {
		switch o := fr.pkg.Info.Uses[n.Sel].(type) {
		case *types.Var:
			k(st, x.readVar(st, o))
			return
		case *types.Func:
			k(st, Val{Fn: &FnVal{Fun: o}, G: o.Type()})
			return
		}
		x.unsup(n.Pos(), "qualified identifier %s", n.Sel.Name)
	}
	if s.Kind() == types.MethodVal {
		x.evalRecv(fr, st, n, func(st *State, recv Val, f *types.Func) {
			k(st, Val{Fn: &FnVal{Fun: f, Recv: &recv}, G: x.typeOf(fr, n)})
		})
		return
	}
	x.eval(fr, st, n.X, func(st *State, v Val) {
		r := x.walkFields(st, v, s.Index(), n.Pos())
		if r.T != nil {
			x.wf(st, r.T, r.G)
		}
		k(st, r)
	})
}

// walkFields follows a field path, dereferencing pointers.
func (x *X) walkFields(st *State, v Val, path []int, pos token.Pos) Val {
	for _, idx := range path {
		if el, ok := derefType(v.G); ok {
			if v.Alias != nil {
				v = x.readLV(st, v.Alias)
			} else {
				x.nilCheck(st, v, pos)
				v = Val{T: x.loadPtr(st, v.T, el), G: el}
			}
		}
		f := v.G.Underlying().(*types.Struct).Field(idx)
		t, g := x.field(v.T, v.G, f.Name())
		v = Val{T: t, G: g}
	}
	return v
}

func (x *X) evalUnary(fr *Frame, st *State, n *ast.UnaryExpr, k func(*State, Val)) {
	switch n.Op {
	case token.NOT:
		x.eval(fr, st, n.X, func(st *State, v Val) { k(st, Val{T: not(v.T), G: v.G}) })
	case token.SUB:
		x.eval(fr, st, n.X, func(st *State, v Val) {
			if c, ok := v.T.isNum(); ok {
				k(st, Val{T: num(-c), G: v.G})
				return
			}
			k(st, Val{T: app(v.T.Sort, "-", v.T), G: v.G})
		})
	case token.ADD:
		x.eval(fr, st, n.X, k)
	case token.AND:
		e := ast.Unparen(n.X)
		pt := x.typeOf(fr, n)
		if cl, ok := e.(*ast.CompositeLit); ok {
			ct := x.typeOf(fr, cl)
			x.evalComposite(fr, st, cl, ct, func(st *State, v Val) {
				r := x.newRef(st)
				hn := x.prog.heapName(ct)
				h := x.heap(st, ct)
				a := x.newConst("cell", arr(sInt, x.prog.sortOf(ct)))
				x.setHeap(st, hn, h, r, x.nameIt(st, "A", store(a, num(0), v.T)))
				k(st, Val{T: mkPtr(r, num(0)), G: pt})
			})
			return
		}
		x.lvalue(fr, st, e, func(st *State, lv *LVal) {
			k(st, x.addrOf(st, lv, pt, n.Pos()))
		})
	default:
		x.unsup(n.Pos(), "unary %s", n.Op)
	}
}

func (x *X) addrOf(st *State, lv *LVal, pt types.Type, pos token.Pos) Val {
	switch lv.Kind {
	case "var":
		if r, ok := st.boxed[lv.Obj]; ok {
			return Val{T: mkPtr(r, num(0)), G: pt}
		}
		if v, ok := lv.Obj.(*types.Var); ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
			return Val{T: mkPtr(x.globalRef(v), num(0)), G: pt}
		}
	case "deref":
		return Val{T: lv.S, G: pt}
	case "elem":
		return Val{T: mkPtr(x.sref(lv.S), add(x.soff(lv.S), lv.I)), G: pt}
	}
	return Val{Alias: lv, G: pt}
}

func (x *X) globalRef(v *types.Var) *Term {
	nm := "g_" + v.Pkg().Name() + "_" + v.Name()
	x.eng.global(nm)
	x.entryConst(nm, sInt)
	return cst(nm, sInt)
}

func (x *X) globalVar(st *State, v *types.Var) Val {
	r := x.globalRef(v)
	t := x.selArr(x.selHeap(x.heap(st, v.Type()), r), num(0))
	return Val{T: t, G: v.Type()}
}

func (x *X) globalRead(st *State, name string) Val {
	i := strings.IndexByte(name, '.')
	for _, p := range x.prog.Order {
		if p.Types.Name() == name[:i] {
			if v, ok := p.Types.Scope().Lookup(name[i+1:]).(*types.Var); ok {
				return x.globalVar(st, v)
			}
		}
	}
	panic(specErr{"unknown global " + name})
}

func isUnsigned(t types.Type) (int, bool) {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Uint8:
			return 8, true
		case types.Uint16:
			return 16, true
		case types.Uint32:
			return 32, true
		case types.Uint, types.Uint64, types.Uintptr:
			return 64, true
		}
	}
	return 0, false
}

func (x *X) evalBinary(fr *Frame, st *State, n *ast.BinaryExpr, k func(*State, Val)) {
	rt := x.typeOf(fr, n)
	B := types.Typ[types.Bool]
	switch n.Op {
	case token.LAND, token.LOR:
		x.eval(fr, st, n.X, func(st *State, a Val) {
			if x.purePath(fr, n.Y) {
				x.eval(fr, st, n.Y, func(st *State, b Val) {
					if n.Op == token.LAND {
						k(st, Val{T: and(a.T, b.T), G: B})
					} else {
						k(st, Val{T: or(a.T, b.T), G: B})
					}
				})
				return
			}
			c := a.T
			short := tFalse
			if n.Op == token.LOR {
				c = not(c)
				short = tTrue
			}
			x.fork(st, c, func(st *State) {
				x.eval(fr, st, n.Y, func(st *State, b Val) { k(st, Val{T: b.T, G: B}) })
			}, func(st *State) {
				k(st, Val{T: short, G: B})
			})
		})
		return
	}
	x.eval(fr, st, n.X, func(st *State, a Val) {
		x.eval(fr, st, n.Y, func(st *State, b Val) {
			k(st, x.binop(fr, st, n, n.Op, a, b, rt))
		})
	})
}

func isOneShift(fr *Frame, e ast.Expr) (ast.Expr, bool) {
	b, ok := ast.Unparen(e).(*ast.BinaryExpr)
	if !ok || b.Op != token.SHL {
		return nil, false
	}
	if tv, ok := fr.pkg.Info.Types[b.X]; ok && tv.Value != nil && constant.ToInt(tv.Value).ExactString() == "1" {
		return b.Y, true
	}
	return nil, false
}

func (x *X) binop(fr *Frame, st *State, n *ast.BinaryExpr, op token.Token, a, b Val, rt types.Type) Val {
	B := types.Typ[types.Bool]
	pos := n.Pos()
	switch op {
	case token.EQL, token.NEQ:
		if !isNilVal(a) && !isNilVal(b) && a.G != nil && b.G != nil {
			_, ia := a.G.Underlying().(*types.Interface)
			_, ib := b.G.Underlying().(*types.Interface)
			if ia != ib && !isErrorType(a.G) && !isErrorType(b.G) {
				x.unsup(pos, "mixed interface comparison")
			}
		}
		t := x.eqVals(a, b)
		if op == token.NEQ {
			t = not(t)
		}
		return Val{T: t, G: B}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		a, b = unify(a, b)
		if a.T.Sort == sStr {
			x.eng.declFun("strlt", []string{sStr, sStr}, sBool)
			lt := func(p, q *Term) *Term { return app(sBool, "strlt", p, q) }
			switch op {
			case token.LSS:
				return Val{T: lt(a.T, b.T), G: B}
			case token.GTR:
				return Val{T: lt(b.T, a.T), G: B}
			case token.LEQ:
				return Val{T: not(lt(b.T, a.T)), G: B}
			default:
				return Val{T: not(lt(a.T, b.T)), G: B}
			}
		}
		m := map[token.Token]string{token.LSS: "<", token.LEQ: "<=", token.GTR: ">", token.GEQ: ">="}
		return Val{T: cmpT(m[op], a.T, b.T), G: B}
	case token.SHL:
		x.check(st, "shift", pos, le(num(0), b.T))
		p := app(sInt, "F_pow2", b.T)
		if c, ok := b.T.isNum(); ok && c < 60 && c >= 0 {
			p = num(1 << c)
		}
		return Val{T: mul(a.T, p), G: rt}
	case token.SHR:
		x.check(st, "shift", pos, le(num(0), b.T))
		p := app(sInt, "F_pow2", b.T)
		if c, ok := b.T.isNum(); ok && c < 60 && c >= 0 {
			p = num(1 << c)
		}
		return Val{T: app(sInt, "div", a.T, p), G: rt}
	case token.AND:
		// x & (1<<k)
		if d := x.def(b.T); d.Op == "F_pow2" {
			return Val{T: ite(app(sBool, "F_bit", a.T, d.Args[0]), b.T, num(0)), G: rt}
		}
		if d := x.def(a.T); d.Op == "F_pow2" {
			return Val{T: ite(app(sBool, "F_bit", b.T, d.Args[0]), a.T, num(0)), G: rt}
		}
		if c, ok := b.T.isNum(); ok && c == 1 {
			return Val{T: app(sInt, "mod", a.T, num(2)), G: rt}
		}
		if c, ok := b.T.isNum(); ok && c > 0 && c&(c-1) == 0 {
			kk := int64(0)
			for 1<<kk != c {
				kk++
			}
			return Val{T: ite(app(sBool, "F_bit", a.T, num(kk)), b.T, num(0)), G: rt}
		}
		x.unsup(pos, "bitwise and")
	}
	a, b = unify(a, b)
	if a.T == nil || b.T == nil {
		x.unsup(pos, "operator %s", op)
	}
	var t *Term
	switch op {
	case token.ADD:
		if a.T.Sort == sStr {
			x.eng.declFun("strcat", []string{sStr, sStr}, sStr)
			return Val{T: app(sStr, "strcat", a.T, b.T), G: rt}
		}
		t = add(a.T, b.T)
	case token.SUB:
		t = sub(a.T, b.T)
		if _, ok := isUnsigned(rt); ok {
			x.check(st, "underflow", pos, le(b.T, a.T))
		}
	case token.MUL:
		t = mul(a.T, b.T)
	case token.QUO:
		if a.T.Sort == sReal {
			if x.con == nil || !x.con.AllowFDiv0 {
				x.check(st, "fdiv0", pos, not(eq(b.T, cst("0.0", sReal))))
			}
			t = app(sReal, "/", a.T, b.T)
		} else {
			x.check(st, "div0", pos, not(eq(b.T, num(0))))
			t = x.goDiv(st, a.T, b.T, rt)
		}
	case token.REM:
		x.check(st, "div0", pos, not(eq(b.T, num(0))))
		t = x.goMod(st, a.T, b.T, rt)
	default:
		x.unsup(pos, "operator %s", op)
	}
	if w, ok := isUnsigned(rt); ok && w < 32 && (op == token.ADD || op == token.MUL) {
		t = app(sInt, "mod", t, num(1<<w))
	}
	return Val{T: t, G: rt}
}

// goDiv is truncated division; exact for all dividends and positive divisors.
func (x *X) goDiv(st *State, a, b *Term, t types.Type) *Term {
	q, _ := x.divMod(st, a, b, t)
	return q
}

func (x *X) goMod(st *State, a, b *Term, t types.Type) *Term {
	_, r := x.divMod(st, a, b, t)
	return r
}

func (x *X) divMod(st *State, a, b *Term, t types.Type) (*Term, *Term) {
	if p, ok := a.isNum(); ok {
		if q, ok := b.isNum(); ok && q != 0 {
			return num(p / q), num(p % q)
		}
	}
	q, r := x.newConst("quo", sInt), x.newConst("rem", sInt)
	d, m := app(sInt, "div", a, b), app(sInt, "mod", a, b)
	pos := lt(num(0), b)
	st.assume(implies(and(pos, le(num(0), a)), and(eq(q, d), eq(r, m), eq(a, add(mul(b, q), r)), le(num(0), r), lt(r, b), le(num(0), q), le(q, a))))
	if _, ok := isUnsigned(t); !ok {
		na := app(sInt, "-", a)
		st.assume(implies(and(pos, lt(a, num(0))), and(eq(q, app(sInt, "-", app(sInt, "div", na, b))), eq(r, app(sInt, "-", app(sInt, "mod", na, b))), eq(a, add(mul(b, q), r)), lt(app(sInt, "-", b), r), le(r, num(0)))))
	}
	return q, r
}

// fork explores both outcomes of a condition.
func (x *X) fork(st *State, c *Term, yes, no func(*State)) {
	if c.Op == "true" {
		yes(st)
		return
	}
	if c.Op == "false" {
		no(st)
		return
	}
	x.paths++
	if x.paths > maxPaths {
		panic(unsupported{"too many paths"})
	}
	s2 := st.clone()
	st.assume(c)
	yes(st)
	s2.assume(not(c))
	no(s2)
}

func (x *X) evalIndex(fr *Frame, st *State, n *ast.IndexExpr, k func(*State, Val)) {
	bt := x.typeOf(fr, n.X)
	if bt == nil {
		x.unsup(n.Pos(), "generic instantiation")
	}
	if el, ok := derefType(bt); ok {
		bt = el
	}
	switch u := bt.Underlying().(type) {
	case *types.Slice:
		x.eval(fr, st, n.X, func(st *State, s Val) {
			x.eval(fr, st, n.Index, func(st *State, i Val) {
				x.boundsCheck(st, i.T, x.slen(s.T), n.Index.Pos())
				r := x.loadElem(st, s.T, i.T, u.Elem())
				x.wf(st, r, u.Elem())
				k(st, Val{T: r, G: u.Elem()})
			})
		})
	case *types.Map:
		x.eval(fr, st, n.X, func(st *State, s Val) {
			x.eval(fr, st, n.Index, func(st *State, i Val) {
				i = x.convertTo(st, i, u.Key())
				d := sel(x.selHeap(x.mapDom(st, u), s.T), i.T)
				d = and(not(eq(s.T, num(0))), d)
				v := sel(x.selHeap(x.mapVal(st, u), s.T), i.T)
				if tt, ok := x.typeOf(fr, n).(*types.Tuple); ok {
					r := x.nameIt(st, "mv", ite(d, v, x.zero(u.Elem())))
					x.wf(st, r, u.Elem())
					okv := x.nameIt(st, "ok", d)
					k(st, Val{Tuple: []Val{{T: r, G: u.Elem()}, {T: okv, G: tt.At(1).Type()}}})
					return
				}
				r := x.nameIt(st, "mv", ite(d, v, x.zero(u.Elem())))
				x.wf(st, r, u.Elem())
				k(st, Val{T: r, G: u.Elem()})
			})
		})
	case *types.Array:
		x.eval(fr, st, n.X, func(st *State, s Val) {
			x.eval(fr, st, n.Index, func(st *State, i Val) {
				x.boundsCheck(st, i.T, num(u.Len()), n.Index.Pos())
				r := x.selArr(s.T, i.T)
				x.wf(st, r, u.Elem())
				k(st, Val{T: r, G: u.Elem()})
			})
		})
	case *types.Basic: // string
		x.eval(fr, st, n.X, func(st *State, s Val) {
			x.eval(fr, st, n.Index, func(st *State, i Val) {
				x.boundsCheck(st, i.T, app(sInt, "strlen", s.T), n.Index.Pos())
				r := x.newConst("ch", sInt)
				st.assume(le(num(0), r), le(r, num(255)))
				k(st, Val{T: r, G: types.Typ[types.Uint8]})
			})
		})
	default:
		x.unsup(n.Pos(), "index of %s", bt)
	}
}

func (x *X) evalSlice(fr *Frame, st *State, n *ast.SliceExpr, k func(*State, Val)) {
	if n.Slice3 {
		x.unsup(n.Pos(), "3-index slice")
	}
	x.eval(fr, st, n.X, func(st *State, s Val) {
		lo, hi := n.Low, n.High
		ev := func(st *State, e ast.Expr, d *Term, k func(*State, *Term)) {
			if e == nil {
				k(st, d)
				return
			}
			x.eval(fr, st, e, func(st *State, v Val) { k(st, v.T) })
		}
		if s.T.Sort == sStr {
			ev(st, lo, num(0), func(st *State, l *Term) {
				ev(st, hi, app(sInt, "strlen", s.T), func(st *State, h *Term) {
					x.check(st, "slice", n.Pos(), and(le(num(0), l), le(l, h), le(h, app(sInt, "strlen", s.T))))
					r := x.newConst("substr", sStr)
					st.assume(eq(app(sInt, "strlen", r), sub(h, l)))
					k(st, Val{T: r, G: s.G})
				})
			})
			return
		}
		if s.T.Sort != sSlice {
			x.unsup(n.Pos(), "slice of %s", s.G)
		}
		ev(st, lo, num(0), func(st *State, l *Term) {
			ev(st, hi, x.slen(s.T), func(st *State, h *Term) {
				bound := x.scap(s.T)
				x.check(st, "slice", n.Pos(), and(le(num(0), l), le(l, h), le(h, bound)))
				r := mkSlice(x.sref(s.T), add(x.soff(s.T), l), sub(h, l), sub(x.scap(s.T), l))
				k(st, Val{T: x.nameIt(st, "sl", r), G: s.G})
			})
		})
	})
}

func (x *X) evalComposite(fr *Frame, st *State, n *ast.CompositeLit, t types.Type, k func(*State, Val)) {
	if el, ok := derefType(t); ok { // elided &T in composite of pointers
		x.evalComposite(fr, st, n, el, func(st *State, v Val) {
			r := x.newRef(st)
			hn := x.prog.heapName(el)
			h := x.heap(st, el)
			a := x.newConst("cell", arr(sInt, x.prog.sortOf(el)))
			x.setHeap(st, hn, h, r, x.nameIt(st, "A", store(a, num(0), v.T)))
			k(st, Val{T: mkPtr(r, num(0)), G: t})
		})
		return
	}
	evalElem := func(st *State, e ast.Expr, et types.Type, k func(*State, Val)) {
		if cl, ok := e.(*ast.CompositeLit); ok && cl.Type == nil {
			x.evalComposite(fr, st, cl, et, k)
			return
		}
		x.eval(fr, st, e, func(st *State, v Val) { k(st, x.convertTo(st, v, et)) })
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = x.zero(u.Field(i).Type())
		}
		var rec func(st *State, i int)
		rec = func(st *State, i int) {
			if i == len(n.Elts) {
				sn := x.prog.sortOf(t)
				if len(args) == 0 {
					k(st, Val{T: cst("mk_"+sn, sn), G: t})
					return
				}
				k(st, Val{T: app(sn, "mk_"+sn, append([]*Term{}, args...)...), G: t})
				return
			}
			idx := i
			e := n.Elts[i]
			if kv, ok := e.(*ast.KeyValueExpr); ok {
				nm := kv.Key.(*ast.Ident).Name
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == nm {
						idx = j
					}
				}
				e = kv.Value
			}
			evalElem(st, e, u.Field(idx).Type(), func(st *State, v Val) {
				if v.T == nil && v.Fn != nil {
					v = x.reifyFn(st, v)
				}
				x.noAlias(v, n.Pos())
				args[idx] = x.nameIt(st, "fld", v.T)
				rec(st, i+1)
			})
		}
		rec(st, 0)
	case *types.Slice:
		for _, e := range n.Elts {
			if _, ok := e.(*ast.KeyValueExpr); ok {
				x.unsup(n.Pos(), "keyed slice literal")
			}
		}
		x.evalElems(fr, st, n.Elts, u.Elem(), func(st *State, vs []Val) {
			r := x.newRef(st)
			hn := x.prog.heapName(u.Elem())
			h := x.heap(st, u.Elem())
			a := x.zeros(u.Elem())
			for i, v := range vs {
				x.noAlias(v, n.Pos())
				a = store(a, num(int64(i)), v.T)
			}
			x.setHeap(st, hn, h, r, x.nameIt(st, "A", a))
			ln := num(int64(len(vs)))
			k(st, Val{T: mkSlice(r, num(0), ln, ln), G: t})
		})
	case *types.Array:
		x.evalElems(fr, st, n.Elts, u.Elem(), func(st *State, vs []Val) {
			a := x.zeros(u.Elem())
			for i, v := range vs {
				x.noAlias(v, n.Pos())
				a = store(a, num(int64(i)), v.T)
			}
			k(st, Val{T: x.nameIt(st, "arr", a), G: t})
		})
	case *types.Map:
		r := x.newMap(st, u)
		var rec func(st *State, i int)
		rec = func(st *State, i int) {
			if i == len(n.Elts) {
				k(st, Val{T: r, G: t})
				return
			}
			kv := n.Elts[i].(*ast.KeyValueExpr)
			evalElem(st, kv.Key, u.Key(), func(st *State, kk Val) {
				evalElem(st, kv.Value, u.Elem(), func(st *State, vv Val) {
					x.noAlias(vv, n.Pos())
					x.mapStore(st, u, r, kk.T, vv.T, n.Pos())
					rec(st, i+1)
				})
			})
		}
		rec(st, 0)
	default:
		x.unsup(n.Pos(), "composite literal of %s", t)
	}
}

func (x *X) newMap(st *State, u *types.Map) *Term {
	r := x.newRef(st)
	tag := x.mapTag(u)
	hd, hl := x.mapDom(st, u), x.mapLen(st, u)
	x.mapVal(st, u)
	x.setHeap(st, "MD_"+tag, hd, r, constArr(arr(x.prog.sortOf(u.Key()), sBool), tFalse))
	x.setHeap(st, "ML_"+tag, hl, r, num(0))
	return r
}

func (x *X) evalElems(fr *Frame, st *State, es []ast.Expr, et types.Type, k func(*State, []Val)) {
	if len(es) == 0 {
		k(st, nil)
		return
	}
	one := func(st *State, v Val) {
		v = x.convertTo(st, v, et)
		if v.T != nil {
			v.T = x.nameIt(st, "el", v.T)
		}
		x.evalElems(fr, st, es[1:], et, func(st *State, vs []Val) { k(st, append([]Val{v}, vs...)) })
	}
	if cl, ok := es[0].(*ast.CompositeLit); ok && cl.Type == nil {
		x.evalComposite(fr, st, cl, et, one)
		return
	}
	x.eval(fr, st, es[0], one)
}

// reifyFn turns a known function literal without captured variables into an SMT function value.
func (x *X) reifyFn(st *State, v Val) Val {
	sig, ok := v.G.Underlying().(*types.Signature)
	if !ok || v.Fn == nil || v.Fn.Lit == nil {
		return Val{T: x.newConst("fn", sFn), G: v.G}
	}
	c := x.newConst("fn", sFn)
	st.assume(not(eq(c, cst("fn_nil", sFn))))
	if sig.Results().Len() != 1 || len(v.Fn.Lit.Body.List) != 1 {
		return Val{T: c, G: v.G}
	}
	ret, ok := v.Fn.Lit.Body.List[0].(*ast.ReturnStmt)
	if !ok || len(ret.Results) != 1 || !x.purePath(v.Fn.Fr, ret.Results[0]) {
		return Val{T: c, G: v.G}
	}
	var bs []BVar
	var args []*Term
	s2 := st.clone()
	fr := v.Fn.Fr
	for _, f := range v.Fn.Lit.Type.Params.List {
		for _, id := range f.Names {
			o := fr.pkg.Info.Defs[id]
			x.eng.bvar++
			nm := fmt.Sprintf("?%s%d", id.Name, x.eng.bvar)
			s := x.prog.sortOf(f0type(fr, f))
			bs = append(bs, BVar{nm, s})
			args = append(args, cst(nm, s))
			if o != nil {
				s2.vars[o] = Val{T: cst(nm, s), G: o.Type()}
			}
		}
	}
	x.eval(fr, s2, ret.Results[0], func(_ *State, r Val) {
		ap := x.applyFn(c, sig, args)
		st.assume(forall(bs, eq(ap.T, r.T), []*Term{ap.T}))
	})
	return Val{T: c, G: v.G}
}

func f0type(fr *Frame, f *ast.Field) types.Type { return fr.pkg.Info.Types[f.Type].Type }
