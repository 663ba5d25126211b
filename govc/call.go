package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// staticCallee resolves the called function, if static.
func staticCallee(pkg *Pkg, c *ast.CallExpr) *types.Func {
	switch f := ast.Unparen(c.Fun).(type) {
	case *ast.Ident:
		if o, ok := pkg.Info.Uses[f].(*types.Func); ok {
			return o.Origin()
		}
	case *ast.SelectorExpr:
		if s := pkg.Info.Selections[f]; s != nil {
			if o, ok := s.Obj().(*types.Func); ok {
				return o.Origin()
			}
			return nil
		}
		if o, ok := pkg.Info.Uses[f.Sel].(*types.Func); ok {
			return o.Origin()
		}
	case *ast.IndexExpr:
		return staticCallee(pkg, &ast.CallExpr{Fun: f.X})
	}
	return nil
}

// contractFor gives the contract to use at calls of f (nil: inline it).
func (x *X) contractFor(f *types.Func) *Contract {
	k := funcKey(f)
	if x.con != nil {
		for _, i := range x.con.Inline {
			if i == k {
				return nil
			}
		}
	}
	return x.sp.Contracts[k]
}

// devirt resolves a method of an interface that only one type of the repository implements.
func (x *X) devirt(f *types.Func) (*types.Named, *types.Func) {
	r := f.Type().(*types.Signature).Recv()
	if r == nil || !types.IsInterface(r.Type()) || x.contractFor(f) != nil {
		return nil, nil
	}
	return x.prog.onlyImpl(r.Type(), f.Name())
}

// number assigns static ordinals to loops and contract calls, through inlined callees.
func (x *X) number(pkg *Pkg, body ast.Node, key string, stack []*types.Func) {
	ast.Inspect(body, func(n ast.Node) bool {
		switch m := n.(type) {
		case *ast.FuncLit:
			return true
		case *ast.ForStmt, *ast.RangeStmt:
			x.loops[key+"@"+x.prog.Fset.Position(n.Pos()).String()] = x.nloops()
		case *ast.CallExpr:
			f := staticCallee(pkg, m)
			if f == nil {
				return true
			}
			if t, g := x.devirt(f); t != nil {
				f = g
			}
			if c := x.contractFor(f); c != nil {
				nm := f.Name()
				x.callN["#"+nm]++
				x.callN[key+"@"+x.prog.Fset.Position(m.Pos()).String()] = x.callN["#"+nm] - 1
				return true
			}
			if fd, ok := x.prog.ByObj[f]; ok {
				for _, s := range stack {
					if s == f {
						return true
					}
				}
				x.number(fd.Pkg, fd.Decl.Body, key+"/"+x.prog.Fset.Position(m.Pos()).String(), append(append([]*types.Func{}, stack...), f))
			}
		}
		return true
	})
}

func (x *X) nloops() int {
	n := x.callN["#loops"]
	x.callN["#loops"]++
	return n
}

// evalRecv evaluates the receiver of a method selector.
func (x *X) evalRecv(fr *Frame, st *State, n *ast.SelectorExpr, k func(*State, Val, *types.Func)) {
	s := fr.pkg.Info.Selections[n]
	f := s.Obj().(*types.Func)
	sig := f.Type().(*types.Signature)
	path := s.Index()[:len(s.Index())-1]
	rt := sig.Recv().Type()
	_, ptrRecv := rt.(*types.Pointer)
	bt := x.typeOf(fr, n.X)
	if _, isIface := rt.Underlying().(*types.Interface); isIface {
		x.eval(fr, st, n.X, func(st *State, v Val) {
			v = x.walkFields(st, v, path, n.Pos())
			k(st, v, f)
		})
		return
	}
	if ptrRecv {
		if _, ok := derefType(bt); ok && len(path) == 0 {
			x.eval(fr, st, n.X, func(st *State, v Val) { k(st, v, f) })
			return
		}
		// address of an lvalue
		if len(path) == 0 {
			x.lvalue(fr, st, n.X, func(st *State, lv *LVal) {
				k(st, x.addrOf(st, lv, rt, n.Pos()), f)
			})
			return
		}
		// embedded: walk by lvalues
		start := func(st *State, b *LVal) {
			t := b.G
			for _, idx := range path {
				if el, ok := derefType(t); ok {
					pv := x.readLV(st, b)
					x.nilCheck(st, pv, n.Pos())
					b = &LVal{Kind: "deref", S: pv.T, G: el}
					t = el
				}
				fl := t.Underlying().(*types.Struct).Field(idx)
				b = &LVal{Kind: "field", Base: b, Field: fl.Name(), G: fl.Type()}
				t = fl.Type()
			}
			if _, ok := derefType(t); ok {
				k(st, x.readLV(st, b), f)
				return
			}
			k(st, x.addrOf(st, b, rt, n.Pos()), f)
		}
		if el, ok := derefType(bt); ok {
			x.eval(fr, st, n.X, func(st *State, v Val) {
				if v.Alias != nil {
					start(st, v.Alias)
					return
				}
				x.nilCheck(st, v, n.Pos())
				start(st, &LVal{Kind: "deref", S: v.T, G: el})
			})
			return
		}
		x.lvalue(fr, st, n.X, start)
		return
	}
	x.eval(fr, st, n.X, func(st *State, v Val) {
		v = x.walkFields(st, v, path, n.Pos())
		if el, ok := derefType(v.G); ok {
			if v.Alias != nil {
				v = x.readLV(st, v.Alias)
			} else {
				x.nilCheck(st, v, n.Pos())
				v = Val{T: x.loadPtr(st, v.T, el), G: el}
			}
		}
		k(st, v, f)
	})
}

func (x *X) evalCall(fr *Frame, st *State, c *ast.CallExpr, k func(*State, []Val)) {
	fun := ast.Unparen(c.Fun)
	// conversion
	if tv, ok := fr.pkg.Info.Types[fun]; ok && tv.IsType() {
		x.eval(fr, st, c.Args[0], func(st *State, v Val) {
			k(st, []Val{x.conversion(st, v, tv.Type, c.Pos())})
		})
		return
	}
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := fr.pkg.Info.Uses[id].(*types.Builtin); ok {
			x.builtin(fr, st, c, b.Name(), k)
			return
		}
	}
	f := staticCallee(fr.pkg, c)
	if f == nil {
		x.eval(fr, st, fun, func(st *State, fv Val) {
			x.evalList(fr, st, c.Args, func(st *State, args []Val) {
				x.callValue(fr, st, c, fv, args, k)
			})
		})
		return
	}
	sig := f.Type().(*types.Signature)
	withArgs := func(st *State, recv *Val) {
		x.callArgs(fr, st, c, sig, func(st *State, args []Val) {
			if recv != nil {
				args = append([]Val{*recv}, args...)
			}
			x.callFunc(fr, st, c, f, args, k)
		})
	}
	if sig.Recv() != nil {
		se, ok := fun.(*ast.SelectorExpr)
		if !ok {
			x.unsup(c.Pos(), "method call form")
		}
		if fr.pkg.Info.Selections[se].Kind() == types.MethodExpr {
			x.unsup(c.Pos(), "method expression")
		}
		x.evalRecv(fr, st, se, func(st *State, recv Val, _ *types.Func) { withArgs(st, &recv) })
		return
	}
	if f.Pkg() != nil && x.contractFor(f) == nil {
		if m, ok := x.model(fr, f, c); ok {
			m(st, k)
			return
		}
	}
	withArgs(st, nil)
}

// callArgs evaluates arguments, packing variadics.
func (x *X) callArgs(fr *Frame, st *State, c *ast.CallExpr, sig *types.Signature, k func(*State, []Val)) {
	np := sig.Params().Len()
	if len(c.Args) == 1 && np > 1 {
		x.eval(fr, st, c.Args[0], func(st *State, v Val) {
			if v.Tuple != nil {
				for i := range v.Tuple {
					v.Tuple[i] = x.convertTo(st, v.Tuple[i], sig.Params().At(i).Type())
				}
				k(st, v.Tuple)
				return
			}
			x.pack(fr, st, c, sig, []Val{v}, k)
		})
		return
	}
	x.evalList(fr, st, c.Args, func(st *State, vs []Val) { x.pack(fr, st, c, sig, vs, k) })
}

func (x *X) pack(fr *Frame, st *State, c *ast.CallExpr, sig *types.Signature, vs []Val, k func(*State, []Val)) {
	np := sig.Params().Len()
	if sig.Variadic() && !c.Ellipsis.IsValid() {
		vt := sig.Params().At(np - 1).Type().(*types.Slice)
		rest := vs[np-1:]
		head := append([]Val{}, vs[:np-1]...)
		if len(rest) == 0 {
			head = append(head, Val{T: x.zero(vt), G: vt})
		} else {
			r := x.newRef(st)
			hn := x.prog.heapName(vt.Elem())
			h := x.heap(st, vt.Elem())
			a := x.zeros(vt.Elem())
			for i, v := range rest {
				v = x.convertTo(st, v, vt.Elem())
				x.noAlias(v, c.Pos())
				a = store(a, num(int64(i)), x.nameIt(st, "va", v.T))
			}
			x.setHeap(st, hn, h, r, x.nameIt(st, "A", a))
			n := num(int64(len(rest)))
			head = append(head, Val{T: mkSlice(r, num(0), n, n), G: vt})
		}
		vs = head
	}
	for i := range vs {
		if vs[i].T == nil && vs[i].Fn != nil {
			continue
		}
		vs[i] = x.convertTo(st, vs[i], sig.Params().At(i).Type())
	}
	k(st, vs)
}

func (x *X) conversion(st *State, v Val, t types.Type, pos token.Pos) Val {
	if isNilVal(v) {
		return x.convertTo(st, v, t)
	}
	ts := x.prog.sortOf(t)
	if v.T != nil && v.T.Sort == sInt && ts == sReal {
		return Val{T: coerceReal(v.T), G: t}
	}
	if v.T != nil && v.T.Sort == sReal && ts == sInt {
		r := x.newConst("trunc", sInt)
		st.assume(implies(cmpT(">=", v.T, cst("0.0", sReal)), eq(r, app(sInt, "to_int", v.T))))
		return Val{T: r, G: t}
	}
	if v.T != nil && v.T.Sort == sInt && ts == sInt {
		if w, ok := isUnsigned(t); ok {
			if fw, ok := isUnsigned(v.G); ok && fw <= w {
				return Val{T: v.T, G: t}
			}
			if w == 64 {
				x.check(st, "conv", pos, le(num(0), v.T))
				return Val{T: v.T, G: t}
			}
			if c, ok := v.T.isNum(); ok && c >= 0 && c < 1<<w {
				return Val{T: v.T, G: t}
			}
			return Val{T: app(sInt, "mod", v.T, num(1<<w)), G: t}
		}
		return Val{T: v.T, G: t}
	}
	if sl, ok := t.Underlying().(*types.Slice); ok && v.T != nil && v.T.Sort == sStr {
		nr := x.newRef(st)
		cp := x.newConst("cap", sInt)
		nm := "F_x_" + sanitize(sl.Elem().String()) + "s"
		x.eng.declFun(nm+"len", []string{sStr}, sInt)
		x.eng.declFun(nm+"seq", []string{sStr}, arr(sInt, x.prog.sortOf(sl.Elem())))
		l := app(sInt, nm+"len", v.T)
		st.assume(le(num(0), l), le(l, cp))
		h := x.heap(st, sl.Elem())
		x.setHeap(st, x.prog.heapName(sl.Elem()), h, nr, app(arr(sInt, x.prog.sortOf(sl.Elem())), nm+"seq", v.T))
		return Val{T: mkSlice(nr, num(0), l, cp), G: t}
	}
	if ts == sStr && v.T != nil && v.T.Sort != sStr {
		return Val{T: x.newConst("str", sStr), G: t}
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return x.convertTo(st, v, t)
	}
	v.G = t
	return v
}

// callValue calls a function value.
func (x *X) callValue(fr *Frame, st *State, c *ast.CallExpr, fv Val, args []Val, k func(*State, []Val)) {
	if fv.Fn != nil && fv.Fn.Lit != nil {
		lit := fv.Fn.Lit
		sig := fv.G.Underlying().(*types.Signature)
		i := 0
		for _, f := range lit.Type.Params.List {
			for _, id := range f.Names {
				if o := fv.Fn.Fr.pkg.Info.Defs[id]; o != nil {
					x.declare(st, o, args[i])
				}
				i++
			}
		}
		save := x.loopMod
		nf := &Frame{fd: fv.Fn.Fr.fd, pkg: fv.Fn.Fr.pkg, parent: fr, call: c.Pos(), key: fr.key + "/" + x.prog.Fset.Position(c.Pos()).String(), sig: sig}
		nf.ret = func(st *State, vs []Val) {
			s2 := x.loopMod
			x.loopMod = save
			k(st, vs)
			x.loopMod = s2
		}
		x.scanBoxes(nf.pkg, lit.Body)
		x.block(nf, st, lit.Body.List, nil, func(st *State) { nf.ret(st, nil) })
		return
	}
	if fv.Fn != nil && fv.Fn.Fun != nil {
		if fv.Fn.Recv != nil {
			args = append([]Val{*fv.Fn.Recv}, args...)
		}
		x.callFunc(fr, st, c, fv.Fn.Fun, args, k)
		return
	}
	sig, ok := fv.G.Underlying().(*types.Signature)
	if !ok || sig.Results().Len() != 1 {
		x.unsup(c.Pos(), "call of unknown function value")
	}
	x.check(st, "nilfunc", c.Pos(), not(eq(fv.T, cst("fn_nil", sFn))))
	var ts []*Term
	for i, a := range args {
		ts = append(ts, x.convertTo(st, a, sig.Params().At(i).Type()).T)
	}
	k(st, []Val{x.applyFn(fv.T, sig, ts)})
}

// callFunc calls a static function with evaluated arguments (receiver first).
func (x *X) callFunc(fr *Frame, st *State, c *ast.CallExpr, f *types.Func, args []Val, k func(*State, []Val)) {
	if con := x.contractFor(f); con != nil {
		x.callContract(fr, st, c, f, con, args, k)
		return
	}
	if t, m := x.devirt(f); t != nil {
		x.check(st, "dyntype", c.Pos(), eq(x.ifaceTag(args[0].T), num(int64(x.eng.typeID(types.NewPointer(t).String())))))
		args = append([]Val{{T: x.ifacePtr(args[0].T), G: types.NewPointer(t)}}, args[1:]...)
		x.callFunc(fr, st, c, m, args, k)
		return
	}
	fd, ok := x.prog.ByObj[f]
	if !ok {
		x.external(fr, st, c, f, args, k)
		return
	}
	for p := fr; p != nil; p = p.parent {
		if p.fd == fd {
			x.unsup(c.Pos(), "recursive call of %s without contract", fd.Key)
		}
	}
	x.depth++
	if x.depth > 60 {
		x.unsup(c.Pos(), "inlining too deep")
	}
	x.inlineCall(fr, st, c, fd, args, k)
	x.depth--
}

func (x *X) inlineCall(fr *Frame, st *State, c *ast.CallExpr, fd *FuncDecl, args []Val, k func(*State, []Val)) {
	sig := fd.Obj.Type().(*types.Signature)
	x.scanBoxes(fd.Pkg, fd.Decl.Body)
	nf := &Frame{fd: fd, pkg: fd.Pkg, parent: fr, call: c.Pos(), key: fr.key + "/" + x.prog.Fset.Position(c.Pos()).String(), sig: sig}
	save := x.loopMod
	nf.ret = func(st *State, vs []Val) {
		s2 := x.loopMod
		x.loopMod = save
		k(st, vs)
		x.loopMod = s2
	}
	i := 0
	if sig.Recv() != nil {
		if sig.Recv().Name() != "" && sig.Recv().Name() != "_" {
			x.declareParam(st, sig.Recv(), args[0])
		}
		i = 1
	}
	for j := 0; j < sig.Params().Len(); j++ {
		p := sig.Params().At(j)
		if p.Name() != "" && p.Name() != "_" {
			x.declareParam(st, p, args[i+j])
		}
	}
	x.declareResults(st, nf, sig)
	x.block(nf, st, fd.Decl.Body.List, nil, func(st *State) {
		var vals []Val
		for _, o := range nf.res {
			vals = append(vals, x.readVar(st, o))
		}
		nf.ret(st, vals)
	})
}

func (x *X) declareParam(st *State, o types.Object, v Val) {
	if v.Alias != nil || v.Fn != nil {
		st.vars[o] = v
		if x.logOn > 0 {
			x.logVars[o] = true
		}
		return
	}
	x.declare(st, o, v)
}

func (x *X) declareResults(st *State, fr *Frame, sig *types.Signature) {
	for i := 0; i < sig.Results().Len(); i++ {
		r := sig.Results().At(i)
		if r.Name() != "" && r.Name() != "_" {
			x.declare(st, r, Val{T: x.zero(r.Type()), G: r.Type()})
			fr.res = append(fr.res, r)
		}
	}
}

// callContract uses the callee's contract.
func (x *X) callContract(fr *Frame, st *State, c *ast.CallExpr, f *types.Func, con *Contract, args []Val, k func(*State, []Val)) {
	sig := f.Type().(*types.Signature)
	if len(con.Params) != len(args) {
		panic(specErr{fmt.Sprintf("contract of %s has %d parameters, call has %d", con.Key, len(con.Params), len(args))})
	}
	if x.dry == 0 {
		x.eng.noteCall(x.fd0(), con.Key)
	}
	callKey := fr.key + "@" + x.prog.Fset.Position(c.Pos()).String()
	ord := x.callN[callKey]
	hint := func(kind string, st *State, res []Val) {
		if x.dry > 0 || x.con == nil {
			return
		}
		for _, nm := range []string{fmt.Sprintf("%s:%s#%d", kind, f.Name(), ord), fmt.Sprintf("%s:%s", kind, f.Name())} {
			if h, ok := x.con.Hints[nm]; ok {
				ctx := x.codeCtx(fr, st, c.End(), nil)
				for i, r := range res {
					ctx.env[fmt.Sprintf("$r%d", i)] = r
					if i == 0 {
						ctx.env["$r"] = r
					}
				}
				for i, a := range args {
					ctx.env[fmt.Sprintf("$a%d", i)] = a
				}
				x.ghostStmts(h, ctx)
			}
		}
	}
	for i := range args {
		if args[i].T == nil && args[i].Fn != nil {
			args[i] = x.reifyFn(st, args[i])
		}
		if args[i].T != nil && args[i].Alias == nil {
			args[i].T = x.nameIt(st, "arg", args[i].T)
		}
	}
	hint("before", st, nil)
	env := map[string]Val{}
	for i, p := range con.Params {
		env[p] = args[i]
	}
	preSt := st.clone()
	pre := &SCtx{x: x, env: env, st: preSt}
	pre.old = pre
	for i, r := range con.Requires {
		l := r.Label
		if l == "" {
			l = fmt.Sprint(i)
		}
		g := pre.boolean(r.E)
		x.oblige(st, "pre-"+shortKey(con.Key), l, c.Pos(), g)
		st.assume(g)
		preSt.facts = st.facts
	}
	cont := func(st *State) {
		// effects
		items := x.modItems(con.Modifies, pre)
		na := x.newConst("alloc", sInt)
		st.assume(le(st.alloc, na))
		st.alloc = na
		for _, m := range items {
			if m.alias != nil {
				v := x.newConst("hv", x.prog.sortOf(m.gt))
				x.wf(st, v, m.gt)
				x.writeLV(st, m.alias, Val{T: v, G: m.gt}, c.Pos())
				continue
			}
			if m.vars != nil {
				x.quantWrite(st, preSt, m, c.Pos())
				continue
			}
			if !m.isMap || strings.HasPrefix(m.heap, "MV_") {
				x.checkWrite(st, m.heap, m.ref, m.idx, c.Pos())
			}
			var h *Term
			if t, ok := st.heaps[m.heap]; ok {
				h = t
			} else {
				h = cst(m.heap+"!e", x.consts[m.heap+"!e"])
			}
			_, as, _ := arrParts(h.Sort)
			var a *Term
			if m.idx != nil {
				v := x.newConst("hv", x.prog.sortOf(m.gt))
				x.wf(st, v, m.gt)
				a = x.nameIt(st, "A", store(x.selHeap(h, m.ref), m.idx, v))
			} else {
				a = x.newConst("A", as)
				if m.gt != nil {
					if w := x.arrWF(a, m.gt, st.alloc); w != nil {
						st.assume(w)
					}
				}
			}
			x.setHeap(st, m.heap, h, m.ref, a)
		}
		var res []Val
		post := &SCtx{x: x, env: map[string]Val{}, st: st, old: pre}
		for n, v := range env {
			post.env[n] = v
		}
		for i := 0; i < sig.Results().Len(); i++ {
			rt := sig.Results().At(i).Type()
			r := Val{T: x.newConst("res", x.prog.sortOf(rt)), G: rt}
			for _, w := range x.wfTerms(r.T, rt, st.alloc, 0) {
				st.assume(w)
			}
			res = append(res, r)
			if i < len(con.Results) {
				post.env[con.Results[i]] = r
			}
		}
		for _, e := range con.Ensures {
			st.assume(post.boolean(e.E))
		}
		// results stay symbolic constants; equalities in ensures let the solver see through
		hint("after", st, res)
		k(st, res)
	}
	if con.Panics != nil {
		p := pre.boolean(con.Panics)
		if x.con != nil && (x.con.Panics != nil || x.con.MayPanic) {
			x.fork(st, p, func(st *State) { x.doPanic(st, c.Pos()) }, cont)
			return
		}
		x.oblige(st, "nopanic-"+shortKey(con.Key), "", c.Pos(), not(p))
		st.assume(not(p))
	}
	cont(st)
}

// quantWrite forgets the arrays named by a quantified modifies item.
func (x *X) quantWrite(st, preSt *State, m modItem, pos token.Pos) {
	if !m.isMap || strings.HasPrefix(m.heap, "MV_") {
		s2 := st.clone()
		sub := map[string]*Term{}
		for _, v := range m.vars {
			sub[v.Name] = x.newConst("any", v.Sort)
		}
		s2.assume(m.cond.subst(sub))
		var idx *Term
		if m.idx != nil {
			idx = m.idx.subst(sub)
		}
		x.checkWrite(s2, m.heap, m.ref.subst(sub), idx, pos)
	}
	var h *Term
	if t, ok := st.heaps[m.heap]; ok {
		h = t
	} else {
		h = cst(m.heap+"!e", x.consts[m.heap+"!e"])
	}
	if x.logOn > 0 {
		x.logHeap[m.heap] = append(x.logHeap[m.heap], cst("$unknown", sInt))
	}
	nh := x.newConst(m.heap, h.Sort)
	r := cst("?r", sInt)
	keep := implies(not(exists(m.vars, and(m.cond, eq(r, m.ref)))), eq(sel(nh, r), sel(h, r)))
	st.assume(forall([]BVar{{"?r", sInt}}, keep, []*Term{sel(nh, r)}))
	if gt := x.eng.heapElem[m.heap]; gt != nil {
		if w := x.heapWF(nh, gt, st.alloc); w != nil {
			st.assume(w)
		}
	}
	st.heaps[m.heap] = nh
}

func shortKey(k string) string {
	if i := strings.LastIndexByte(k, '.'); i >= 0 {
		return k[i+1:]
	}
	return k
}

func (x *X) doPanic(st *State, pos token.Pos) {
	if x.dry > 0 {
		return
	}
	if x.con != nil && x.con.MayPanic {
		return
	}
	if x.con != nil && x.con.Panics != nil {
		x.oblige(st, "panics", "only-if", pos, x.entryCtx().boolean(x.con.Panics))
		return
	}
	x.oblige(st, "nopanic", "", pos, tFalse)
}

// modItems evaluates a modifies clause.
func (x *X) modItems(es []*SExpr, c *SCtx) []modItem {
	var out []modItem
	for _, e := range es {
		out = append(out, x.modItem(e, c)...)
	}
	return out
}

func (x *X) modItem(e *SExpr, c *SCtx) []modItem {
	if e.Op == "forall" {
		n := c
		var bs []BVar
		for _, v := range e.Vars {
			s, g := x.resolveType(v.Type)
			x.eng.bvar++
			nm := fmt.Sprintf("?%s%d", v.Name, x.eng.bvar)
			bs = append(bs, BVar{nm, s})
			n = n.with(v.Name, Val{T: cst(nm, s), G: g})
		}
		b := e.Args[0]
		cond := tTrue
		if b.Op == "==>" {
			cond = n.boolean(b.Args[0])
			b = b.Args[1]
		}
		its := x.modItem(b, n)
		for i := range its {
			its[i].vars, its[i].cond = bs, cond
		}
		return its
	}
	if e.Op == "deref" {
		v := c.eval(e.Args[0])
		el, _ := derefType(v.G)
		if v.Alias != nil {
			return []modItem{{alias: v.Alias, gt: el}}
		}
		x.heap(c.st, el)
		return []modItem{{heap: x.prog.heapName(el), ref: x.pref(v.T), idx: x.pidx(v.T), gt: el}}
	}
	v := c.eval(e)
	switch u := v.G.Underlying().(type) {
	case *types.Slice:
		x.heap(c.st, u.Elem())
		return []modItem{{heap: x.prog.heapName(u.Elem()), ref: x.sref(v.T), gt: u.Elem()}}
	case *types.Map:
		x.mapDom(c.st, u)
		x.mapVal(c.st, u)
		x.mapLen(c.st, u)
		t := x.mapTag(u)
		return []modItem{{heap: "MV_" + t, ref: v.T, isMap: true}, {heap: "MD_" + t, ref: v.T, isMap: true}, {heap: "ML_" + t, ref: v.T, isMap: true}}
	}
	panic(specErr{fmt.Sprintf("%s:%d: bad modifies item", e.File, e.Line)})
}

// ---- builtins ----

func (x *X) builtin(fr *Frame, st *State, c *ast.CallExpr, name string, k func(*State, []Val)) {
	I := types.Typ[types.Int]
	switch name {
	case "len", "cap":
		x.eval(fr, st, c.Args[0], func(st *State, v Val) {
			switch {
			case v.T.Sort == sSlice && name == "len":
				k(st, []Val{{T: x.slen(v.T), G: I}})
			case v.T.Sort == sSlice:
				k(st, []Val{{T: x.scap(v.T), G: I}})
			case v.T.Sort == sStr:
				t := app(sInt, "strlen", v.T)
				st.assume(le(num(0), t))
				k(st, []Val{{T: t, G: I}})
			default:
				if m, ok := v.G.Underlying().(*types.Map); ok {
					t := ite(eq(v.T, num(0)), num(0), x.selHeap(x.mapLen(st, m), v.T))
					t = x.nameIt(st, "mlen", t)
					st.assume(le(num(0), t))
					k(st, []Val{{T: t, G: I}})
					return
				}
				if a, ok := v.G.Underlying().(*types.Array); ok {
					k(st, []Val{{T: num(a.Len()), G: I}})
					return
				}
				x.unsup(c.Pos(), "len")
			}
		})
	case "panic":
		x.doPanic(st, c.Pos())
	case "make":
		t := x.typeOf(fr, c.Args[0])
		switch u := t.Underlying().(type) {
		case *types.Slice:
			x.evalList(fr, st, c.Args[1:], func(st *State, vs []Val) {
				ln := x.nameIt(st, "len", vs[0].T)
				cp := ln
				if len(vs) > 1 {
					cp = x.nameIt(st, "cap", vs[1].T)
					x.check(st, "make", c.Pos(), and(le(num(0), ln), le(ln, cp)))
				} else {
					x.check(st, "make", c.Pos(), le(num(0), ln))
				}
				r := x.newRef(st)
				hn := x.prog.heapName(u.Elem())
				h := x.heap(st, u.Elem())
				x.setHeap(st, hn, h, r, x.zeros(u.Elem()))
				k(st, []Val{{T: mkSlice(r, num(0), ln, cp), G: t}})
			})
		case *types.Map:
			x.evalList(fr, st, c.Args[1:], func(st *State, _ []Val) {
				k(st, []Val{{T: x.newMap(st, u), G: t}})
			})
		default:
			x.unsup(c.Pos(), "make %s", t)
		}
	case "new":
		t := x.typeOf(fr, c.Args[0])
		r := x.newRef(st)
		h := x.heap(st, t)
		a := x.newConst("cell", arr(sInt, x.prog.sortOf(t)))
		x.setHeap(st, x.prog.heapName(t), h, r, x.nameIt(st, "A", store(a, num(0), x.zero(t))))
		k(st, []Val{{T: mkPtr(r, num(0)), G: types.NewPointer(t)}})
	case "append":
		x.appendCall(fr, st, c, k)
	case "delete":
		x.evalList(fr, st, c.Args, func(st *State, vs []Val) {
			m := vs[0].G.Underlying().(*types.Map)
			key := x.convertTo(st, vs[1], m.Key())
			x.mapDelete(st, m, vs[0].T, key.T, c.Pos())
			k(st, nil)
		})
	case "clear":
		x.eval(fr, st, c.Args[0], func(st *State, v Val) {
			m, ok := v.G.Underlying().(*types.Map)
			if !ok {
				x.unsup(c.Pos(), "clear of non-map")
			}
			tag := x.mapTag(m)
			x.checkWrite(st, "MV_"+tag, v.T, nil, c.Pos())
			x.setHeap(st, "MD_"+tag, x.mapDom(st, m), v.T, constArr(arr(x.prog.sortOf(m.Key()), sBool), tFalse))
			x.setHeap(st, "ML_"+tag, x.mapLen(st, m), v.T, num(0))
			k(st, nil)
		})
	case "copy":
		x.evalList(fr, st, c.Args, func(st *State, vs []Val) {
			d, s := vs[0], vs[1]
			el := d.G.Underlying().(*types.Slice).Elem()
			if s.T.Sort != sSlice {
				x.unsup(c.Pos(), "copy from string")
			}
			n := x.newConst("ncopy", sInt)
			st.assume(eq(n, ite(le(x.slen(d.T), x.slen(s.T)), x.slen(d.T), x.slen(s.T))))
			h := x.heap(st, el)
			hn := x.prog.heapName(el)
			ref := x.sref(d.T)
			src := x.arrOf(st, s.T, el)
			old := x.selHeap(h, ref)
			x.fork(st, lt(num(0), n), func(st *State) {
				x.checkWrite(st, hn, ref, nil, c.Pos())
				a := x.newConst("A", old.Sort)
				i := cst("?i", sInt)
				v := x.shift(a, x.soff(d.T))
				st.assume(forall([]BVar{{"?i", sInt}}, eq(sel(v, i), ite(and(le(num(0), i), lt(i, n)), sel(src, i), sel(x.shift(old, x.soff(d.T)), i))), []*Term{sel(v, i)}))
				if !same(v, a) {
					st.assume(forall([]BVar{{"?i", sInt}}, implies(lt(i, x.soff(d.T)), eq(sel(a, i), sel(old, i))), []*Term{sel(a, i)}))
				}
				x.setHeap(st, hn, h, ref, a)
				k(st, []Val{{T: n, G: I}})
			}, func(st *State) { k(st, []Val{{T: n, G: I}}) })
		})
	case "min", "max":
		x.evalList(fr, st, c.Args, func(st *State, vs []Val) {
			r := vs[0]
			for _, v := range vs[1:] {
				r, v = unify(r, v)
				cnd := le(r.T, v.T)
				if name == "max" {
					cnd = le(v.T, r.T)
				}
				r = Val{T: x.nameIt(st, name, ite(cnd, r.T, v.T)), G: x.typeOf(fr, c)}
			}
			k(st, []Val{r})
		})
	default:
		x.unsup(c.Pos(), "builtin %s", name)
	}
}

func (x *X) appendCall(fr *Frame, st *State, c *ast.CallExpr, k func(*State, []Val)) {
	t := x.typeOf(fr, c)
	el := t.Underlying().(*types.Slice).Elem()
	x.eval(fr, st, c.Args[0], func(st *State, s Val) {
		s = x.convertTo(st, s, t)
		s.T = x.nameIt(st, "app", s.T)
		x.wf(st, s.T, t)
		if c.Ellipsis.IsValid() {
			x.eval(fr, st, c.Args[1], func(st *State, o Val) {
				if o.T.Sort == sStr {
					x.unsup(c.Pos(), "append string")
				}
				o = x.convertTo(st, o, t)
				o.T = x.nameIt(st, "app", o.T)
				x.appendSlice(st, s, o, t, el, c.Pos(), k)
			})
			return
		}
		x.evalElems(fr, st, c.Args[1:], el, func(st *State, vs []Val) {
			if len(vs) == 0 {
				k(st, []Val{s})
				return
			}
			ln := x.slen(s.T)
			nl := add(ln, num(int64(len(vs))))
			hn := x.prog.heapName(el)
			x.fork(st, le(nl, x.scap(s.T)), func(st *State) {
				// in place
				h := x.heap(st, el)
				ref, off := x.sref(s.T), x.soff(s.T)
				x.checkWrite(st, hn, ref, nil, c.Pos())
				old := x.selHeap(h, ref)
				a, va := old, x.shift(old, off)
				for i, v := range vs {
					x.noAlias(v, c.Pos())
					p := add(ln, num(int64(i)))
					a = store(a, add(off, p), v.T)
					va = store(va, p, v.T)
				}
				a = x.nameIt(st, "A", a)
				if sh := x.shift(a, off); !same(sh, a) {
					st.assume(eq(sh, va))
				}
				x.setHeap(st, hn, h, ref, a)
				k(st, []Val{{T: x.nameIt(st, "sl", mkSlice(ref, off, nl, x.scap(s.T))), G: t}})
			}, func(st *State) {
				h := x.heap(st, el)
				r := x.newRef(st)
				cp := x.newConst("cap", sInt)
				st.assume(le(nl, cp))
				a := x.arrOf(st, s.T, el)
				for i, v := range vs {
					x.noAlias(v, c.Pos())
					a = store(a, add(ln, num(int64(i))), v.T)
				}
				a = x.nameIt(st, "A", a)
				x.setHeap(st, hn, h, r, a)
				k(st, []Val{{T: x.nameIt(st, "sl", mkSlice(r, num(0), nl, cp)), G: t}})
			})
		})
	})
}

func (x *X) appendSlice(st *State, s, o Val, t, el types.Type, pos token.Pos, k func(*State, []Val)) {
	ln, on := x.slen(s.T), x.slen(o.T)
	hn := x.prog.heapName(el)
	src := x.arrOf(st, o.T, el)
	nl := x.nameIt(st, "len", add(ln, on))
	i := cst("?i", sInt)
	x.fork(st, le(on, num(0)), func(st *State) { k(st, []Val{s}) }, func(st *State) {
		x.fork(st, le(nl, x.scap(s.T)), func(st *State) {
			h := x.heap(st, el)
			ref, off := x.sref(s.T), x.soff(s.T)
			x.checkWrite(st, hn, ref, nil, pos)
			old := x.selHeap(h, ref)
			a := x.newConst("A", old.Sort)
			v, ov := x.shift(a, off), x.shift(old, off)
			st.assume(forall([]BVar{{"?i", sInt}}, eq(sel(v, i), ite(and(le(ln, i), lt(i, nl)), sel(src, sub(i, ln)), sel(ov, i))), []*Term{sel(v, i)}))
			if !same(v, a) {
				st.assume(forall([]BVar{{"?i", sInt}}, implies(lt(i, off), eq(sel(a, i), sel(old, i))), []*Term{sel(a, i)}))
			}
			x.setHeap(st, hn, h, ref, a)
			k(st, []Val{{T: x.nameIt(st, "sl", mkSlice(ref, off, nl, x.scap(s.T))), G: t}})
		}, func(st *State) {
			h := x.heap(st, el)
			ov := x.arrOf(st, s.T, el)
			r := x.newRef(st)
			cp := x.newConst("cap", sInt)
			st.assume(le(nl, cp))
			var a *Term
			if n, ok := ln.isNum(); ok && n == 0 {
				a = src
			} else {
				a = x.newConst("A", src.Sort)
				st.assume(forall([]BVar{{"?i", sInt}}, eq(sel(a, i), ite(le(ln, i), sel(src, sub(i, ln)), sel(ov, i))), []*Term{sel(a, i)}))
			}
			x.setHeap(st, hn, h, r, a)
			k(st, []Val{{T: x.nameIt(st, "sl", mkSlice(r, num(0), nl, cp)), G: t}})
		})
	})
}

// pureLit evaluates a predicate (function literal, method value or function) with a single path on given arguments.
func (x *X) pureLit(fr *Frame, st *State, e ast.Expr, args []Val) (*Term, bool) {
	s2 := st.clone()
	var out *Term
	n := 0
	n0 := x.n
	x.dry++
	x.eval(fr, s2, e, func(s *State, fv Val) {
		if fv.Fn == nil {
			n = 2
			return
		}
		x.callValue(fr, s, &ast.CallExpr{Fun: e, Lparen: e.Pos()}, fv, args, func(s *State, vs []Val) {
			out = vs[0].T
			n++
			// unfold names given to intermediate values
			fs := factsSince(s, st.facts)
			for i := len(fs) - 1; i >= 0; i-- {
				if f := fs[i]; f.Op == "=" && f.Bound == nil && len(f.Args) == 2 && isAtomic(f.Args[0]) && x.index[f.Args[0].Op] > n0 {
					out = out.subst(map[string]*Term{f.Args[0].Op: f.Args[1]})
				}
			}
		})
	})
	x.dry--
	if n != 1 {
		return nil, false
	}
	syms := map[string]bool{}
	out.symbols(syms)
	for s := range syms {
		if x.index[s] > n0 {
			return nil, false
		}
	}
	return out, true
}

// model gives trusted models of library functions.
func (x *X) model(fr *Frame, f *types.Func, c *ast.CallExpr) (func(*State, func(*State, []Val)), bool) {
	full := f.Pkg().Path() + "." + f.Name()
	I, B := types.Typ[types.Int], types.Typ[types.Bool]
	i := cst("?i", sInt)
	bi := []BVar{{"?i", sInt}}
	switch full {
	case "slices.Index", "slices.Contains", "slices.IndexFunc", "slices.ContainsFunc":
		return func(st *State, k func(*State, []Val)) {
			isFn := strings.HasSuffix(f.Name(), "Func")
			n := 1
			if !isFn {
				n = 2
			}
			x.evalList(fr, st, c.Args[:n], func(st *State, vs []Val) {
				s := vs[0]
				x.wf(st, s.T, s.G)
				el := s.G.Underlying().(*types.Slice).Elem()
				a := x.arrOf(st, s.T, el)
				ln := x.slen(s.T)
				pred := func(t *Term) *Term {
					if !isFn {
						return x.eqVals(Val{T: t, G: el}, x.convertTo(st, vs[1], el))
					}
					p, ok := x.pureLit(fr, st, c.Args[1], []Val{{T: t, G: el}})
					if !ok {
						x.unsup(c.Pos(), "predicate of %s", full)
					}
					return p
				}
				r := x.newConst("idx", sInt)
				st.assume(le(num(-1), r), lt(r, ln))
				st.assume(implies(le(num(0), r), pred(sel(a, r))))
				st.assume(forall(bi, implies(and(le(num(0), i), or(and(lt(r, num(0)), lt(i, ln)), lt(i, r))), not(pred(sel(a, i)))), []*Term{sel(a, i)}))
				if strings.HasPrefix(f.Name(), "Contains") {
					k(st, []Val{{T: le(num(0), r), G: B}})
				} else {
					k(st, []Val{{T: r, G: I}})
				}
			})
		}, true
	case "slices.SortFunc", "slices.SortStableFunc", "slices.Sort":
		return func(st *State, k func(*State, []Val)) {
			x.eval(fr, st, c.Args[0], func(st *State, s Val) {
				el := s.G.Underlying().(*types.Slice).Elem()
				hn := x.prog.heapName(el)
				h := x.heap(st, el)
				ref := x.sref(s.T)
				x.checkWrite(st, hn, ref, nil, c.Pos())
				old := x.arrOf(st, s.T, el)
				na := x.newConst("A", x.selHeap(h, ref).Sort)
				nv := x.shift(na, x.soff(s.T))
				p, q := x.newConst("perm", arr(sInt, sInt)), x.newConst("perminv", arr(sInt, sInt))
				ln := x.slen(s.T)
				in := and(le(num(0), i), lt(i, ln))
				rng := func(t *Term) *Term { return and(le(num(0), t), lt(t, ln)) }
				st.assume(forall(bi, implies(in, and(rng(sel(p, i)), eq(sel(nv, i), sel(old, sel(p, i))), eq(sel(q, sel(p, i)), i))), []*Term{sel(nv, i)}, []*Term{sel(p, i)}))
				st.assume(forall(bi, implies(in, and(rng(sel(q, i)), eq(sel(nv, sel(q, i)), sel(old, i)), eq(sel(p, sel(q, i)), i))), []*Term{sel(old, i)}, []*Term{sel(q, i)}))
				x.setHeap(st, hn, h, ref, na)
				k(st, nil)
			})
		}, true
	case "math.Inf":
		return func(st *State, k func(*State, []Val)) {
			x.eval(fr, st, c.Args[0], func(st *State, v Val) {
				if n, ok := v.T.isNum(); ok && n < 0 {
					k(st, []Val{{T: cst("ninf", sReal), G: types.Typ[types.Float64]}})
				} else {
					k(st, []Val{{T: cst("pinf", sReal), G: types.Typ[types.Float64]}})
				}
			})
		}, true
	case "math.NaN":
		return func(st *State, k func(*State, []Val)) {
			k(st, []Val{{T: cst("nan", sReal), G: types.Typ[types.Float64]}})
		}, true
	case "math.IsNaN":
		return func(st *State, k func(*State, []Val)) {
			x.eval(fr, st, c.Args[0], func(st *State, v Val) {
				k(st, []Val{{T: app(sBool, "F_isnan", v.T), G: B}})
			})
		}, true
	case "math/bits.OnesCount", "math/bits.OnesCount64":
		return func(st *State, k func(*State, []Val)) {
			x.eval(fr, st, c.Args[0], func(st *State, v Val) {
				k(st, []Val{{T: app(sInt, "F_popcount", v.T), G: I}})
			})
		}, true
	case "cmp.Compare":
		return func(st *State, k func(*State, []Val)) {
			x.evalList(fr, st, c.Args, func(st *State, vs []Val) {
				a, b := unify(vs[0], vs[1])
				if a.T.Sort == sStr {
					x.unsup(c.Pos(), "string compare")
				}
				k(st, []Val{{T: ite(lt(a.T, b.T), num(-1), ite(lt(b.T, a.T), num(1), num(0))), G: I}})
			})
		}, true
	}
	switch f.Pkg().Path() {
	case "fmt", "strings", "strconv", "errors", "math", "unicode/utf8", "os", "path/filepath":
		if f.Type().(*types.Signature).Recv() != nil {
			return nil, false
		}
		return func(st *State, k func(*State, []Val)) {
			x.evalList(fr, st, c.Args, func(st *State, vs []Val) {
				k(st, x.extResults(st, f, vs, c))
			})
		}, true
	}
	return nil, false
}

var impure = map[string]bool{"os": true, "path/filepath": true}

// extResults models a library function without effects: its results are unknown, but the same for the same scalar arguments.
func (x *X) extResults(st *State, f *types.Func, vs []Val, c *ast.CallExpr) []Val {
	full := f.Pkg().Path() + "." + f.Name()
	sig := f.Type().(*types.Signature)
	scalar := !impure[f.Pkg().Path()] && !c.Ellipsis.IsValid()
	var ts []*Term
	for j := range vs {
		v := vs[j]
		if v.T == nil || isNilVal(v) {
			scalar = false
			break
		}
		if j < sig.Params().Len() && !(sig.Variadic() && j == sig.Params().Len()-1) {
			v = x.convertTo(st, v, sig.Params().At(j).Type())
		}
		switch v.T.Sort {
		case sInt, sReal, sBool, sStr:
			ts = append(ts, v.T)
		default:
			scalar = false
		}
	}
	var res []Val
	for j := 0; j < sig.Results().Len(); j++ {
		rt := sig.Results().At(j).Type()
		var r *Term
		if sl, ok := rt.Underlying().(*types.Slice); ok {
			nr := x.newRef(st)
			cp := x.newConst("cap", sInt)
			l := x.newConst("len", sInt)
			st.assume(le(num(0), l), le(l, cp))
			if scalar {
				st.assume(eq(l, x.extTerm(full, j, "len", ts, sInt)))
				hn := x.prog.heapName(sl.Elem())
				h := x.heap(st, sl.Elem())
				a := x.extTerm(full, j, "seq", ts, arr(sInt, x.prog.sortOf(sl.Elem())))
				x.setHeap(st, hn, h, nr, a)
			}
			r = mkSlice(nr, num(0), l, cp)
		} else {
			srt := x.prog.sortOf(rt)
			if scalar && full != "fmt.Errorf" && full != "errors.New" {
				r = x.extTerm(full, j, "", ts, srt)
			} else {
				r = x.newConst(f.Name(), srt)
			}
			if full == "fmt.Errorf" || full == "errors.New" {
				st.assume(lt(num(0), r))
			} else if full == "unicode/utf8.RuneCountInString" {
				st.assume(le(num(0), r))
			} else {
				x.wf(st, r, rt)
			}
		}
		res = append(res, Val{T: r, G: rt})
	}
	return res
}

// extTerm is the value of a library function on scalar arguments.
func (x *X) extTerm(full string, j int, part string, ts []*Term, srt string) *Term {
	nm := fmt.Sprintf("F_x_%s_%d%s", sanitize(full), j, part)
	var sorts []string
	for _, t := range ts {
		sorts = append(sorts, t.Sort)
		nm += "_" + t.Sort
	}
	if len(ts) == 0 {
		nm += "_"
		x.eng.declFun(nm, nil, srt)
		return cst(nm, srt)
	}
	x.eng.declFun(nm, sorts, srt)
	return app(srt, nm, ts...)
}

func (x *X) external(fr *Frame, st *State, c *ast.CallExpr, f *types.Func, args []Val, k func(*State, []Val)) {
	if f.FullName() == "(error).Error" {
		// the text of an error: some string
		x.check(st, "nil", c.Pos(), not(eq(args[0].T, num(0))))
		k(st, []Val{{T: x.newConst("errtext", sStr), G: types.Typ[types.String]}})
		return
	}
	x.unsup(c.Pos(), "call of %s without contract", f.FullName())
}
