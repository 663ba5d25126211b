package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
)

func (x *X) block(fr *Frame, st *State, list []ast.Stmt, lc *loopCtx, k func(*State)) {
	if len(list) == 0 {
		k(st)
		return
	}
	x.stmt(fr, st, list[0], "", lc, func(st *State) {
		x.block(fr, st, list[1:], lc, k)
	})
}

func (x *X) stmt(fr *Frame, st *State, s ast.Stmt, label string, lc *loopCtx, k func(*State)) {
	if st.infeasible() {
		return
	}
	switch n := s.(type) {
	case *ast.EmptyStmt:
		k(st)
	case *ast.BlockStmt:
		x.block(fr, st, n.List, lc, k)
	case *ast.ExprStmt:
		if c, ok := ast.Unparen(n.X).(*ast.CallExpr); ok {
			x.evalCall(fr, st, c, func(st *State, _ []Val) { k(st) })
			return
		}
		x.eval(fr, st, n.X, func(st *State, _ Val) { k(st) })
	case *ast.LabeledStmt:
		x.stmt(fr, st, n.Stmt, n.Label.Name, lc, k)
	case *ast.DeclStmt:
		gd := n.Decl.(*ast.GenDecl)
		if gd.Tok != token.VAR {
			k(st)
			return
		}
		var rec func(st *State, i int)
		rec = func(st *State, i int) {
			if i == len(gd.Specs) {
				k(st)
				return
			}
			vs := gd.Specs[i].(*ast.ValueSpec)
			if len(vs.Values) == 0 {
				for _, id := range vs.Names {
					if o := fr.pkg.Info.Defs[id]; o != nil {
						x.declare(st, o, Val{T: x.zero(o.Type()), G: o.Type()})
					}
				}
				rec(st, i+1)
				return
			}
			x.evalRHS(fr, st, vs.Values, len(vs.Names), func(st *State, vals []Val) {
				for j, id := range vs.Names {
					if o := fr.pkg.Info.Defs[id]; o != nil {
						x.declare(st, o, vals[j])
					}
				}
				rec(st, i+1)
			})
		}
		rec(st, 0)
	case *ast.AssignStmt:
		x.assign(fr, st, n, k)
	case *ast.IncDecStmt:
		x.lvalue(fr, st, n.X, func(st *State, lv *LVal) {
			v := x.readLV(st, lv)
			one := num(1)
			if v.T.Sort == sReal {
				one = cst("1.0", sReal)
			}
			var t *Term
			if n.Tok == token.INC {
				t = add(v.T, one)
				if w, ok := isUnsigned(v.G); ok && w < 32 {
					t = app(sInt, "mod", t, num(1<<w))
				}
			} else {
				t = sub(v.T, one)
				if v.T.Sort == sReal {
					t = app(sReal, "-", v.T, one)
				}
				if _, ok := isUnsigned(v.G); ok {
					x.check(st, "underflow", n.Pos(), le(one, v.T))
				}
			}
			x.writeLV(st, lv, Val{T: t, G: v.G}, n.Pos())
			k(st)
		})
	case *ast.IfStmt:
		run := func(st *State) {
			x.eval(fr, st, n.Cond, func(st *State, c Val) {
				x.fork(st, c.T, func(st *State) {
					x.block(fr, st, n.Body.List, lc, k)
				}, func(st *State) {
					if n.Else != nil {
						x.stmt(fr, st, n.Else, "", lc, k)
					} else {
						k(st)
					}
				})
			})
		}
		if n.Init != nil {
			x.stmt(fr, st, n.Init, "", lc, run)
		} else {
			run(st)
		}
	case *ast.SwitchStmt:
		x.switchStmt(fr, st, n, label, lc, k)
	case *ast.ForStmt:
		x.forStmt(fr, st, n, label, lc, k)
	case *ast.RangeStmt:
		x.rangeStmt(fr, st, n, label, lc, k)
	case *ast.ReturnStmt:
		if len(n.Results) == 0 {
			var vals []Val
			for _, o := range fr.res {
				vals = append(vals, x.readVar(st, o))
			}
			fr.ret(st, vals)
			return
		}
		x.evalRHS(fr, st, n.Results, fr.sig.Results().Len(), func(st *State, vals []Val) {
			for i := range vals {
				t := fr.sig.Results().At(i).Type()
				if vals[i].T == nil && vals[i].Fn != nil {
					continue
				}
				vals[i] = x.convertTo(st, vals[i], t)
			}
			fr.ret(st, vals)
		})
	case *ast.BranchStmt:
		t := lc
		if n.Label != nil {
			for t != nil && t.label != n.Label.Name {
				t = t.parent
			}
		} else if n.Tok == token.CONTINUE {
			for t != nil && t.isSwitch {
				t = t.parent
			}
		}
		if t == nil {
			x.unsup(n.Pos(), "branch")
		}
		switch n.Tok {
		case token.BREAK:
			t.brk(st)
		case token.CONTINUE:
			t.cont(st)
		default:
			x.unsup(n.Pos(), "%s", n.Tok)
		}
	case *ast.DeferStmt:
		// only calls without any effect on the modelled state: when they run does not matter
		var id *ast.Ident
		switch f := ast.Unparen(n.Call.Fun).(type) {
		case *ast.SelectorExpr:
			id = f.Sel
		case *ast.Ident:
			id = f
		}
		if id != nil {
			if f, ok := fr.pkg.Info.Uses[id].(*types.Func); ok {
				if con := x.contractFor(f); con != nil && con.Trusted != "" && len(con.Modifies) == 0 && len(con.Requires) == 0 && len(con.Ensures) == 0 && con.Panics == nil {
					x.evalCall(fr, st, n.Call, func(st *State, _ []Val) { k(st) })
					return
				}
			}
		}
		x.unsup(s.Pos(), "deferred call with effects")
	default:
		x.unsup(s.Pos(), "statement %T", s)
	}
}

// evalRHS evaluates right-hand sides, spreading a multi-value call.
func (x *X) evalRHS(fr *Frame, st *State, es []ast.Expr, n int, k func(*State, []Val)) {
	if len(es) == 1 && n > 1 {
		x.eval(fr, st, es[0], func(st *State, v Val) { k(st, v.Tuple) })
		return
	}
	x.evalList(fr, st, es, k)
}

func (x *X) assign(fr *Frame, st *State, n *ast.AssignStmt, k func(*State)) {
	if n.Tok != token.ASSIGN && n.Tok != token.DEFINE {
		ops := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
			token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR}
		op, ok := ops[n.Tok]
		if !ok {
			x.unsup(n.Pos(), "assignment operator %s", n.Tok)
		}
		x.lvalue(fr, st, n.Lhs[0], func(st *State, lv *LVal) {
			x.eval(fr, st, n.Rhs[0], func(st *State, b Val) {
				a := x.readLV(st, lv)
				x.wf(st, a.T, a.G)
				be := &ast.BinaryExpr{X: n.Lhs[0], Y: n.Rhs[0], OpPos: n.TokPos, Op: op}
				x.writeLV(st, lv, x.binop(fr, st, be, op, a, b, lv.G), n.Pos())
				k(st)
			})
		})
		return
	}
	if n.Tok == token.DEFINE {
		x.evalRHS(fr, st, n.Rhs, len(n.Lhs), func(st *State, vals []Val) {
			for i, l := range n.Lhs {
				id := l.(*ast.Ident)
				if id.Name == "_" {
					continue
				}
				if o := fr.pkg.Info.Defs[id]; o != nil {
					x.declare(st, o, vals[i])
				} else {
					o := fr.pkg.Info.Uses[id]
					x.setVar(st, o, x.convertTo(st, vals[i], o.Type()))
				}
			}
			k(st)
		})
		return
	}
	var lvs func(st *State, i int, acc []*LVal)
	lvs = func(st *State, i int, acc []*LVal) {
		if i < len(n.Lhs) {
			x.lvalue(fr, st, n.Lhs[i], func(st *State, lv *LVal) {
				lvs(st, i+1, append(append([]*LVal{}, acc...), lv))
			})
			return
		}
		x.evalRHS(fr, st, n.Rhs, len(n.Lhs), func(st *State, vals []Val) {
			for i := range vals {
				if vals[i].T != nil {
					vals[i].T = x.nameIt(st, "t", vals[i].T)
				}
			}
			for i, lv := range acc {
				x.writeLV(st, lv, vals[i], n.Pos())
			}
			k(st)
		})
	}
	lvs(st, 0, nil)
}

func (x *X) switchStmt(fr *Frame, st *State, n *ast.SwitchStmt, label string, lc *loopCtx, k func(*State)) {
	run := func(st *State) {
		withTag := func(st *State, tag *Val) {
			nlc := &loopCtx{brk: k, label: label, parent: lc, isSwitch: true}
			if lc != nil {
				nlc.cont = lc.cont
			}
			var def *ast.CaseClause
			var clauses []*ast.CaseClause
			for _, c := range n.Body.List {
				cc := c.(*ast.CaseClause)
				if cc.List == nil {
					def = cc
				} else {
					clauses = append(clauses, cc)
				}
			}
			var rec func(st *State, i, j int)
			rec = func(st *State, i, j int) {
				if i == len(clauses) {
					if def != nil {
						x.block(fr, st, def.Body, nlc, k)
					} else {
						k(st)
					}
					return
				}
				if j == len(clauses[i].List) {
					rec(st, i+1, 0)
					return
				}
				x.eval(fr, st, clauses[i].List[j], func(st *State, v Val) {
					c := v.T
					if tag != nil {
						c = x.eqVals(*tag, v)
					}
					x.fork(st, c, func(st *State) {
						x.block(fr, st, clauses[i].Body, nlc, k)
					}, func(st *State) { rec(st, i, j+1) })
				})
			}
			rec(st, 0, 0)
		}
		if n.Tag == nil {
			withTag(st, nil)
			return
		}
		x.eval(fr, st, n.Tag, func(st *State, v Val) { withTag(st, &v) })
	}
	if n.Init != nil {
		x.stmt(fr, st, n.Init, "", lc, run)
	} else {
		run(st)
	}
}

// ---- loops ----

type loopDesc struct {
	node  ast.Stmt
	pos   token.Pos
	body  *ast.BlockStmt
	label string
	cond  func(st *State, k func(*State, *Term))
	bind  func(st *State, k func(*State))
	post  func(st *State, k func(*State))
	auto  func(st *State, kk *Term, modified func(types.Object) bool) []*Term
	setup func(st *State) // ghost initialisation
	heaps map[string]bool // heaps changed by the loop
	ord   int
	scope *types.Scope
}

func (x *X) forStmt(fr *Frame, st *State, n *ast.ForStmt, label string, lc *loopCtx, k func(*State)) {
	run := func(st *State) {
		d := &loopDesc{node: n, pos: n.Pos(), body: n.Body, label: label}
		d.cond = func(st *State, k func(*State, *Term)) {
			if n.Cond == nil {
				k(st, tTrue)
				return
			}
			x.eval(fr, st, n.Cond, func(st *State, v Val) { k(st, v.T) })
		}
		d.post = func(st *State, k func(*State)) {
			if n.Post == nil {
				k(st)
				return
			}
			x.stmt(fr, st, n.Post, "", nil, k)
		}
		// counting loops: variable modified only by the post statement
		if inc, ok := n.Post.(*ast.IncDecStmt); ok {
			if id, ok := inc.X.(*ast.Ident); ok {
				o := x.obj(fr, id)
				if o != nil && !x.boxObjs[o] && !assignsTo(fr, n.Body, o) {
					start := x.readVar(st, o).T
					d.auto = func(st *State, kk *Term, _ func(types.Object) bool) []*Term {
						cur := x.readVar(st, o).T
						var fs []*Term
						if inc.Tok == token.INC {
							fs = append(fs, eq(cur, add(start, kk)))
						} else {
							fs = append(fs, eq(cur, sub(start, kk)))
						}
						return fs
					}
				}
			}
		}
		x.loop(fr, st, d, lc, k)
	}
	if n.Init != nil {
		x.stmt(fr, st, n.Init, "", lc, run)
	} else {
		run(st)
	}
}

// assignsTo reports whether a body assigns to o.
func assignsTo(fr *Frame, b ast.Node, o types.Object) bool {
	found := false
	ast.Inspect(b, func(n ast.Node) bool {
		switch m := n.(type) {
		case *ast.AssignStmt:
			for _, l := range m.Lhs {
				if id, ok := ast.Unparen(l).(*ast.Ident); ok && fr.pkg.Info.Uses[id] == o {
					found = true
				}
			}
		case *ast.IncDecStmt:
			if id, ok := ast.Unparen(m.X).(*ast.Ident); ok && fr.pkg.Info.Uses[id] == o {
				found = true
			}
		case *ast.RangeStmt:
			for _, l := range []ast.Expr{m.Key, m.Value} {
				if id, ok := l.(*ast.Ident); ok && m.Tok == token.ASSIGN && fr.pkg.Info.Uses[id] == o {
					found = true
				}
			}
		}
		return !found
	})
	return found
}

func (x *X) rangeStmt(fr *Frame, st *State, n *ast.RangeStmt, label string, lc *loopCtx, k func(*State)) {
	x.eval(fr, st, n.X, func(st *State, c Val) {
		d := &loopDesc{node: n, pos: n.Pos(), body: n.Body, label: label}
		bindVar := func(st *State, e ast.Expr, v Val, k func(*State)) {
			if e == nil {
				k(st)
				return
			}
			if id, ok := e.(*ast.Ident); ok {
				if id.Name == "_" {
					k(st)
					return
				}
				if n.Tok == token.DEFINE {
					x.declare(st, fr.pkg.Info.Defs[id], v)
					k(st)
					return
				}
			}
			x.lvalue(fr, st, e, func(st *State, lv *LVal) {
				x.writeLV(st, lv, v, n.Pos())
				k(st)
			})
		}
		ord := x.loopOrd(fr, n)
		gk := fmt.Sprintf("$k%d", ord)
		I := types.Typ[types.Int]
		switch u := c.G.Underlying().(type) {
		case *types.Slice, *types.Array, *types.Basic:
			var ln *Term
			var el types.Type
			if s, ok := u.(*types.Slice); ok {
				c.T = x.nameIt(st, "rng", c.T)
				x.wf(st, c.T, c.G)
				ln, el = x.slen(c.T), s.Elem()
			} else if s, ok := u.(*types.Array); ok {
				ln, el = num(s.Len()), s.Elem()
			} else if b := u.(*types.Basic); b.Info()&types.IsInteger != 0 {
				ln = c.T
			} else {
				x.unsup(n.Pos(), "range over string")
			}
			d.cond = func(st *State, k func(*State, *Term)) { k(st, lt(st.ghost[gk].T, ln)) }
			d.bind = func(st *State, k func(*State)) {
				i := st.ghost[gk].T
				kt := types.Type(I)
				if el == nil {
					kt = c.G
				}
				bindVar(st, n.Key, Val{T: i, G: kt}, func(st *State) {
					if n.Value == nil {
						k(st)
						return
					}
					var e *Term
					if _, ok := u.(*types.Slice); ok {
						e = x.loadElem(st, c.T, i, el)
					} else {
						e = x.selArr(c.T, i)
					}
					x.wf(st, e, el)
					bindVar(st, n.Value, Val{T: e, G: el}, k)
				})
			}
			d.auto = func(st *State, kk *Term, _ func(types.Object) bool) []*Term {
				if el == nil {
					return []*Term{or(le(kk, ln), and(lt(ln, num(0)), eq(kk, num(0))))}
				}
				return []*Term{le(kk, ln)}
			}
		case *types.Map:
			c.T = x.nameIt(st, "rng", c.T)
			ks := x.prog.sortOf(u.Key())
			seenN := fmt.Sprintf("$seen%d", ord)
			keyN := fmt.Sprintf("$key%d", ord)
			d.setup = func(st *State) {
				st.ghost[seenN] = Val{T: constArr(arr(ks, sBool), tFalse)}
				if !(x.dry > 0) {
					st.ghost["$seen"] = st.ghost[seenN]
				}
			}
			d.cond = func(st *State, k func(*State, *Term)) {
				// a next key exists iff some key of the map has not been seen
				dom := x.selHeap(x.mapDom(st, u), c.T)
				seen := st.ghost[seenN].T
				more := x.newConst("more", sBool)
				key := x.newConst("key", ks)
				st.ghost[keyN] = Val{T: key, G: u.Key()}
				x.eng.bvar++
				b := fmt.Sprintf("?q%d", x.eng.bvar)
				q := cst(b, ks)
				st.assume(implies(more, and(not(eq(c.T, num(0))), sel(dom, key), not(sel(seen, key)))))
				st.assume(implies(not(more), forall([]BVar{{b, ks}}, implies(and(not(eq(c.T, num(0))), sel(dom, q)), sel(seen, q)), []*Term{sel(dom, q)}, []*Term{sel(seen, q)})))
				if d.heaps != nil && !d.heaps["MD_"+x.mapTag(u)] {
					// the map is not changed: one iteration per key
					ln := ite(eq(c.T, num(0)), num(0), x.selHeap(x.mapLen(st, u), c.T))
					kk := st.ghost[fmt.Sprintf("$k%d", ord)].T
					st.assume(implies(more, lt(kk, ln)), implies(not(more), eq(kk, ln)))
				}
				k(st, more)
			}
			d.auto = func(st *State, kk *Term, _ func(types.Object) bool) []*Term {
				if d.heaps["MD_"+x.mapTag(u)] {
					return nil
				}
				x.eng.bvar++
				b := fmt.Sprintf("?q%d", x.eng.bvar)
				q := cst(b, ks)
				dom := x.selHeap(x.mapDom(st, u), c.T)
				seen := st.ghost[seenN].T
				return []*Term{forall([]BVar{{b, ks}}, implies(sel(seen, q), sel(dom, q)), []*Term{sel(seen, q)})}
			}
			d.bind = func(st *State, k func(*State)) {
				key := st.ghost[keyN].T
				x.wf(st, key, u.Key())
				bindVar(st, n.Key, Val{T: key, G: u.Key()}, func(st *State) {
					v := sel(x.selHeap(x.mapVal(st, u), c.T), key)
					x.wf(st, v, u.Elem())
					bindVar(st, n.Value, Val{T: v, G: u.Elem()}, k)
				})
			}
			d.post = func(st *State, k func(*State)) {
				ns := x.nameIt(st, "seen", store(st.ghost[seenN].T, st.ghost[keyN].T, tTrue))
				st.ghost[seenN] = Val{T: ns}
				k(st)
			}
		default:
			x.unsup(n.Pos(), "range over %s", c.G)
		}
		x.loop(fr, st, d, lc, k)
	})
}

func (x *X) loopOrd(fr *Frame, n ast.Node) int {
	key := fr.key + "@" + x.prog.Fset.Position(n.Pos()).String()
	if o, ok := x.loops[key]; ok {
		return o
	}
	return -1
}

// loop verifies a loop by its invariants.
func (x *X) loop(fr *Frame, st *State, d *loopDesc, lc *loopCtx, k func(*State)) {
	ord := x.loopOrd(fr, d.node)
	d.ord = ord
	var ls *LoopSpec
	if x.con != nil {
		ls = x.con.Loops[ord]
	}
	if ls == nil {
		ls = &LoopSpec{}
	}
	gk := fmt.Sprintf("$k%d", ord)
	I := types.Typ[types.Int]
	st.ghost[gk] = Val{T: num(0), G: I}
	if d.setup != nil {
		d.setup(st)
	}
	preSt := st.clone()
	mkctx := func(s *State) *SCtx {
		c := x.codeCtx(fr, s, d.pos, d.body)
		c.pre = x.codeCtx(fr, preSt, d.pos, d.body)
		c.pre.env = map[string]Val{}
		for n, v := range c.env {
			c.pre.env[n] = v
		}
		c.env["$k"] = s.ghost[gk]
		if v, ok := s.ghost[fmt.Sprintf("$seen%d", ord)]; ok {
			c.env["$seen"] = v
		}
		if v, ok := s.ghost[fmt.Sprintf("$key%d", ord)]; ok {
			c.env["$key"] = v
		}
		return c
	}
	label := func(i int, c Clause) string {
		if c.Label != "" {
			return fmt.Sprintf("loop%d.%s", ord, c.Label)
		}
		return fmt.Sprintf("loop%d.%d", ord, i)
	}
	// a loop without own invariants in a dry run still executes normally
	if x.dry == 0 {
		x.ghostStmts(ls.Before, mkctx(st))
		for i, c := range ls.Inv {
			x.oblige(st, "inv-init", label(i, c), d.pos, mkctx(st).boolean(c.E))
		}
	}
	preSt = st.clone()
	n0 := x.n
	vars, heaps, allocs := x.discover(fr, st, d, lc)
	d.heaps = map[string]bool{}
	for n := range heaps {
		d.heaps[n] = true
	}
	// havoc
	x.n++
	h := st
	preHeaps := map[string]*Term{}
	for n, t := range st.heaps {
		preHeaps[n] = t
	}
	preAlloc := st.alloc
	if !isAtomic(preAlloc) {
		preAlloc = x.nameIt(st, "alloc", preAlloc)
	}
	if allocs {
		na := x.newConst("alloc", sInt)
		h.assume(le(preAlloc, na))
		h.alloc = na
	}
	var objs []types.Object
	for o := range vars {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].Pos() < objs[j].Pos() })
	modified := func(o types.Object) bool { return vars[o] }
	for _, o := range objs {
		v, ok := h.vars[o]
		if !ok {
			continue
		}
		if v.Alias != nil || v.T == nil {
			x.unsup(o.Pos(), "pointer to local reassigned in loop")
		}
		c := x.newConst(o.Name(), x.prog.sortOf(o.Type()))
		h.vars[o] = Val{T: c, G: o.Type()}
		x.wf(h, c, o.Type())
	}
	kk := x.newConst("k", sInt)
	h.assume(le(num(0), kk))
	h.ghost[gk] = Val{T: kk, G: I}
	seenN := fmt.Sprintf("$seen%d", ord)
	if s, ok := h.ghost[seenN]; ok {
		h.ghost[seenN] = Val{T: x.newConst("seen", s.T.Sort)}
	}
	// ghosts of safety checks are path facts on terms; keep (terms are immutable)
	var items []modItem
	if ls.HasModifies && x.dry == 0 {
		items = x.modItems(ls.Modifies, mkctx(preSt))
	}
	for _, hn := range sortedKeys(heaps) {
		x.havocHeap(h, hn, heaps[hn], n0, preAlloc, ls.HasModifies, items)
	}
	for _, c := range ls.Inv {
		if x.dry > 0 {
			break // ghost names are not bound in a dry run, and its facts do not matter
		}
		h.assume(mkctx(h).boolean(c.E))
	}
	if d.auto != nil {
		h.assume(d.auto(h, kk, modified)...)
	}
	if x.dry == 0 && !x.eng.noProbe {
		x.addObl(h, "probe-loophead", fmt.Sprintf("loop%d", ord), x.prog.pos(d.pos), tFalse, true)
	}
	headSt := h.clone()
	lm := &loopMods{alloc: preAlloc, items: items, has: ls.HasModifies}
	saveLM := x.loopMod
	exit := func(s *State) {
		save := x.loopMod
		x.loopMod = saveLM
		if x.dry == 0 {
			x.ghostStmts(ls.After, mkctx(s))
		}
		k(s)
		x.loopMod = save
	}
	d.cond(h, func(s *State, c *Term) {
		x.fork(s, c, func(s *State) {
			x.loopMod = append(append([]*loopMods{}, saveLM...), lm)
			endIter := func(s *State) {
				fin := func(s *State) {
					s.ghost[gk] = Val{T: add(s.ghost[gk].T, num(1)), G: I}
					if x.dry > 0 {
						return
					}
					c := mkctx(s)
					hc := mkctx(headSt)
					c.env["$head"] = Val{}
					_ = hc
					x.ghostStmts(ls.End, c)
					for i, cl := range ls.Inv {
						g := mkctx(s).boolean(cl.E)
						x.oblige(s, "inv-keep", label(i, cl), d.pos, g)
						s.assume(g)
					}
					if ls.Decreases != nil {
						a, b := mkctx(headSt).eval(ls.Decreases), mkctx(s).eval(ls.Decreases)
						x.oblige(s, "decreases", fmt.Sprintf("loop%d", ord), d.pos, and(le(num(0), a.T), lt(b.T, a.T)))
					}
				}
				if d.post != nil {
					d.post(s, fin)
				} else {
					fin(s)
				}
			}
			nlc := &loopCtx{label: d.label, parent: lc, brk: func(s *State) { exit(s) }, cont: endIter}
			body := func(s *State) {
				if x.dry == 0 && len(ls.Begin) > 0 {
					x.ghostStmts(ls.Begin, mkctx(s))
				}
				x.block(fr, s, d.body.List, nlc, endIter)
			}
			if d.bind != nil {
				d.bind(s, body)
			} else {
				body(s)
			}
			x.loopMod = saveLM
		}, func(s *State) { exit(s) })
	})
	x.loopMod = saveLM
}

// discover finds what a loop modifies by running its body without obligations until stable.
func (x *X) discover(fr *Frame, st *State, d *loopDesc, lc *loopCtx) (map[types.Object]bool, map[string][]*Term, bool) {
	vars := map[types.Object]bool{}
	heaps := map[string][]*Term{}
	allocs := false
	saveV, saveH := x.logVars, x.logHeap
	savePaths := x.paths
	defer func() {
		x.logVars, x.logHeap = saveV, saveH
		x.paths = savePaths
		if x.logOn > 0 {
			for o := range vars {
				x.logVars[o] = true
			}
			for h, rs := range heaps {
				x.logHeap[h] = append(x.logHeap[h], rs...)
			}
		}
	}()
	for round := 0; round < 6; round++ {
		s := st.clone()
		for o := range vars {
			if v, ok := s.vars[o]; ok && v.T != nil && v.Alias == nil {
				c := x.newConst(o.Name(), x.prog.sortOf(o.Type()))
				s.vars[o] = Val{T: c, G: o.Type()}
			}
		}
		for hn := range heaps {
			var srt string
			if h, ok := s.heaps[hn]; ok {
				srt = h.Sort
			} else {
				srt = x.consts[hn+"!e"]
			}
			s.heaps[hn] = x.newConst(hn, srt)
		}
		gk := fmt.Sprintf("$k%d", d.ord)
		s.ghost[gk] = Val{T: x.newConst("k", sInt), G: types.Typ[types.Int]}
		if allocs {
			s.alloc = x.newConst("alloc", sInt)
		}
		a0 := s.alloc
		roundConsts := s0consts(s, vars, heaps, gk) // before the run changes s
		n0 := x.n
		x.logVars = map[types.Object]bool{}
		x.logHeap = map[string][]*Term{}
		x.logOn++
		x.dry++
		saveRet := fr.ret
		note := func(s *State) {
			if !same(s.alloc, a0) {
				allocs = true
			}
		}
		fr.ret = func(s *State, _ []Val) { note(s) }
		end := func(s *State) {
			if d.post != nil {
				d.post(s, note)
			} else {
				note(s)
			}
		}
		outer := lc
		var stub *loopCtx
		for l := outer; l != nil; l = l.parent {
			ns := &loopCtx{label: l.label, isSwitch: l.isSwitch, brk: note, cont: note}
			if stub == nil {
				stub = ns
			} else {
				t := stub
				for t.parent != nil {
					t = t.parent
				}
				t.parent = ns
			}
		}
		nlc := &loopCtx{label: d.label, parent: stub, brk: note, cont: end}
		d.cond(s, func(s *State, c *Term) {
			if c.Op == "false" {
				return
			}
			s.assume(c)
			if d.bind != nil {
				d.bind(s, func(s *State) { x.block(fr, s, d.body.List, nlc, end) })
			} else {
				x.block(fr, s, d.body.List, nlc, end)
			}
		})
		fr.ret = saveRet
		x.dry--
		x.logOn--
		changed := false
		for o := range x.logVars {
			if !vars[o] {
				vars[o] = true
				changed = true
			}
		}
		nh := map[string][]*Term{}
		for h, rs := range x.logHeap {
			if _, ok := heaps[h]; !ok {
				changed = true
			}
			// classify: keep refs; those created in this run and fresh are loop-local allocations
			for _, r := range rs {
				if isAtomic(r) && x.fresh[r.Op] && x.index[r.Op] > n0 {
					nh[h] = append(nh[h], cst("$fresh", sInt))
				} else if x.older(r, n0+1) && !x.usesAny(r, roundConsts) {
					nh[h] = append(nh[h], r)
				} else {
					nh[h] = append(nh[h], cst("$unknown", sInt))
				}
			}
		}
		heaps = nh
		if !changed {
			break
		}
	}
	return vars, heaps, allocs
}

func s0consts(s *State, vars map[types.Object]bool, heaps map[string][]*Term, gk string) map[string]bool {
	out := map[string]bool{}
	for o := range vars {
		if v, ok := s.vars[o]; ok && v.T != nil {
			v.T.symbols(out)
		}
	}
	for h := range heaps {
		if t, ok := s.heaps[h]; ok {
			t.symbols(out)
		}
	}
	if v, ok := s.ghost[gk]; ok {
		v.T.symbols(out)
	}
	return out
}

func (x *X) usesAny(t *Term, set map[string]bool) bool {
	m := map[string]bool{}
	t.symbols(m)
	for s := range m {
		if set[s] {
			if _, ok := x.index[s]; ok {
				return true
			}
		}
	}
	return false
}

// havocHeap forgets the loop's effects on one heap, keeping what it cannot touch.
func (x *X) havocHeap(st *State, hn string, refs []*Term, n0 int, preAlloc *Term, hasMod bool, items []modItem) {
	var h *Term
	if t, ok := st.heaps[hn]; ok {
		h = t
	} else {
		h = cst(hn+"!e", x.consts[hn+"!e"])
	}
	_, asort, _ := arrParts(h.Sort)
	unknown, fresh := false, false
	var known []*Term
	seen := map[string]bool{}
	for _, r := range refs {
		switch r.Op {
		case "$unknown":
			unknown = true
		case "$fresh":
			fresh = true
		default:
			if !seen[r.String()] {
				seen[r.String()] = true
				known = append(known, r)
			}
		}
	}
	gt := x.eng.heapElem[hn]
	if !unknown && !fresh {
		for _, r := range known {
			a := x.newConst("A", asort)
			h = x.nameIt(st, hn, app(h.Sort, "store", h, r, a))
			if gt != nil {
				if w := x.arrWF(a, gt, st.alloc); w != nil {
					st.assume(w)
				}
			}
		}
		st.heaps[hn] = h
		return
	}
	nh := x.newConst(hn, h.Sort)
	r := cst("?r", sInt)
	var keep *Term
	base := le(r, preAlloc)
	var ex []*Term
	if unknown && hasMod {
		for _, m := range items {
			if m.heap != hn {
				continue
			}
			t := eq(r, m.ref)
			if m.vars != nil {
				t = exists(m.vars, and(m.cond, t))
			}
			ex = append(ex, not(t))
		}
		for _, kr := range known {
			ex = append(ex, not(eq(r, kr)))
		}
	} else if unknown {
		base = le(r, x.entry.alloc)
		for _, m := range x.mods {
			if m.heap != hn {
				continue
			}
			t := eq(r, m.ref)
			if m.vars != nil {
				t = exists(m.vars, and(m.cond, t))
			}
			ex = append(ex, not(t))
		}
	} else {
		for _, kr := range known {
			ex = append(ex, not(eq(r, kr)))
		}
	}
	keep = implies(and(append([]*Term{base}, ex...)...), eq(sel(nh, r), sel(h, r)))
	st.assume(forall([]BVar{{"?r", sInt}}, keep, []*Term{sel(nh, r)}))
	if gt != nil {
		if w := x.heapWF(nh, gt, st.alloc); w != nil {
			st.assume(w)
		}
	}
	st.heaps[hn] = nh
}
