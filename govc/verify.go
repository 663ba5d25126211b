package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
)

func (e *Engine) newX(fd *FuncDecl, con *Contract) *X {
	x := &X{eng: e, prog: e.prog, sp: e.sp, fd: fd, con: con, consts: map[string]string{}, index: map[string]int{},
		defs: map[string]*Term{}, fresh: map[string]bool{}, logVars: map[types.Object]bool{}, logHeap: map[string][]*Term{},
		loops: map[string]int{}, callN: map[string]int{}, seenObl: map[string]int{}, boxObjs: map[types.Object]bool{}, scanned: map[*ast.BlockStmt]bool{}}
	e.entryFacts[x] = nil
	return x
}

func (x *X) newState() *State {
	st := &State{vars: map[types.Object]Val{}, boxed: map[types.Object]*Term{}, heaps: map[string]*Term{}, ghost: map[string]Val{}}
	st.alloc = x.entryConst("alloc!e", sInt)
	st.assume(le(num(0), st.alloc))
	return st
}

// entryCtx evaluates in the entry state with entry parameter values.
func (x *X) entryCtx() *SCtx {
	c := &SCtx{x: x, env: map[string]Val{}, st: x.entry}
	if x.con != nil {
		for i, p := range x.con.Params {
			c.env[p] = x.params[i]
		}
	}
	c.old = c
	return c
}

// codeCtx evaluates in a state at a code position.
func (x *X) codeCtx(fr *Frame, st *State, pos token.Pos, body *ast.BlockStmt) *SCtx {
	c := &SCtx{x: x, env: map[string]Val{}, st: st}
	if x.fd != nil {
		c.old = x.entryCtx()
	}
	if body != nil {
		pos = body.Lbrace
	}
	// contract parameter names denote current values of the parameters
	var pobjs []types.Object
	if x.fd != nil {
		sig := x.fd.Obj.Type().(*types.Signature)
		if sig.Recv() != nil {
			pobjs = append(pobjs, sig.Recv())
		}
		for i := 0; i < sig.Params().Len(); i++ {
			pobjs = append(pobjs, sig.Params().At(i))
		}
	}
	c.lookup = func(name string) (Val, bool) {
		if x.con != nil {
			for i, p := range x.con.Params {
				if p == name {
					o := pobjs[i]
					if _, ok := st.boxed[o]; ok {
						return x.readVar(st, o), true
					}
					if v, ok := st.vars[o]; ok {
						return v, true
					}
					return x.params[i], true
				}
			}
		}
		p := pos
		for f := fr; f != nil; f = f.parent {
			sc := f.pkg.Types.Scope().Innermost(p)
			for sc != nil {
				o := sc.Lookup(name)
				if o != nil && o.Pos() <= p {
					if _, ok := st.boxed[o]; ok {
						return x.readVar(st, o), true
					}
					if v, ok := st.vars[o]; ok {
						return v, true
					}
				}
				sc = sc.Parent()
				if sc == f.pkg.Types.Scope() {
					break
				}
			}
			p = f.call
		}
		return x.renamed(fr, st, name)
	}
	return c
}

// renamed resolves a name that does not exist any more by unique type match among the
// contract's declared locals. Not found by default.
func (x *X) renamed(fr *Frame, st *State, name string) (Val, bool) {
	return Val{}, false
}

func stmtLabel(s *SStmt) string {
	if s.Label != "" {
		return s.Label
	}
	return fmt.Sprintf("L%d", s.Line)
}

// ghostStmts executes ghost statements: asserts become obligations, lemmas are instantiated.
func (x *X) ghostStmts(ss []*SStmt, c *SCtx) {
	for _, s := range ss {
		c = x.ghostStmt(s, c)
	}
}

func (x *X) ghostOblige(c *SCtx, kind, label string, s *SStmt, g *Term) {
	if x.dry > 0 || g.Op == "true" {
		return
	}
	if g.Op == "and" && g.Bound == nil {
		for _, a := range g.Args {
			x.ghostOblige(c, kind, label, s, a)
		}
		return
	}
	x.addObl(c.st, kind, label, fmt.Sprintf("%s:%d", s.File, s.Line), g, false)
}

func (c *SCtx) withState(st *State) *SCtx {
	n := *c
	n.st = st
	return &n
}

func factsSince(st *State, base *Fact) []*Term {
	var out []*Term
	for f := st.facts; f != base && f != nil; f = f.Prev {
		out = append(out, f.T)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (x *X) ghostStmt(s *SStmt, c *SCtx) *SCtx {
	switch s.Kind {
	case "assert":
		g := c.boolean(s.E)
		x.ghostOblige(c, "assert", stmtLabel(s), s, g)
		c.st.assume(g)
	case "assume":
		if x.eng.assumed == nil {
			x.eng.assumed = map[string]bool{}
		}
		x.eng.assumed[x.group+": "+s.Label] = true
		c.st.assume(c.boolean(s.E))
	case "assertby":
		g := c.boolean(s.E)
		s2 := c.st.clone()
		c2 := c.withState(s2)
		for _, b := range s.Body {
			c2 = x.ghostStmt(b, c2)
		}
		x.ghostOblige(c2, "assert", stmtLabel(s), s, g)
		c.st.assume(g)
	case "let":
		v := c.eval(s.E)
		if v.T != nil {
			v.T = x.nameIt(c.st, s.Name, v.T)
		}
		if x.fd != nil {
			c.st.ghost[s.Name] = v
		}
		return c.with(s.Name, v)
	case "use":
		x.useLemma(s, c)
	case "ifdef":
		// on paths where the ghost name is bound
		_, ok := c.env[s.Name]
		if !ok && c.st != nil {
			_, ok = c.st.ghost[s.Name]
		}
		body := s.Else
		if ok {
			body = s.Body
		}
		for _, b := range body {
			c = x.ghostStmt(b, c)
		}
	case "if":
		cond := c.boolean(s.Cond)
		run := func(g *Term, body []*SStmt) {
			s2 := c.st.clone()
			s2.assume(g)
			base := s2.facts
			c2 := c.withState(s2)
			for _, b := range body {
				c2 = x.ghostStmt(b, c2)
			}
			for _, f := range factsSince(s2, base) {
				if f.Op == "=" && isAtomic(f.Args[0]) && x.defs[f.Args[0].Op] != nil && same(x.defs[f.Args[0].Op], f.Args[1]) {
					c.st.assume(f) // definition of a fresh constant
					continue
				}
				c.st.assume(implies(g, f))
			}
		}
		run(cond, s.Body)
		if len(s.Else) > 0 {
			run(not(cond), s.Else)
		}
	case "obtain":
		n := c
		var bs []BVar
		cn := c
		for _, v := range s.Vars {
			srt, g := x.resolveType(v.Type)
			x.eng.bvar++
			nm := fmt.Sprintf("?%s%d", v.Name, x.eng.bvar)
			bs = append(bs, BVar{nm, srt})
			n = n.with(v.Name, Val{T: cst(nm, srt), G: g})
			nv := Val{T: x.newConst(v.Name, srt), G: g}
			cn = cn.with(v.Name, nv)
			if x.fd != nil {
				c.st.ghost[v.Name] = nv
			}
		}
		var pats [][]*Term
		for _, p := range s.Pats {
			var l []*Term
			for _, q := range p {
				l = append(l, n.eval(q).T)
			}
			pats = append(pats, l)
		}
		goal, fact := exists(bs, n.boolean(s.E), pats...), cn.boolean(s.E)
		if s.Cond != nil {
			// every sort has a value, so the names stand for something where the condition is false
			goal, fact = implies(c.boolean(s.Cond), goal), implies(c.boolean(s.Cond), fact)
		}
		x.ghostOblige(c, "obtain", stmtLabel(s), s, goal)
		c.st.assume(fact)
		return cn
	case "fix":
		s2 := c.st.clone()
		cn := c.withState(s2)
		cq := c
		var bs []BVar
		for _, v := range s.Vars {
			srt, g := x.resolveType(v.Type)
			x.eng.bvar++
			nm := fmt.Sprintf("?%s%d", v.Name, x.eng.bvar)
			bs = append(bs, BVar{nm, srt})
			cq = cq.with(v.Name, Val{T: cst(nm, srt), G: g})
			cn = cn.with(v.Name, Val{T: x.newConst(v.Name, srt), G: g})
		}
		pre := tTrue
		if s.Cond != nil {
			s2.assume(cn.boolean(s.Cond))
			pre = cq.boolean(s.Cond)
		}
		for _, b := range s.Body {
			cn = x.ghostStmt(b, cn)
		}
		x.ghostOblige(cn, "show", stmtLabel(s), s, cn.boolean(s.E))
		var pats [][]*Term
		for _, p := range s.Pats {
			var l []*Term
			for _, q := range p {
				l = append(l, cq.eval(q).T)
			}
			pats = append(pats, l)
		}
		c.st.assume(forall(bs, implies(pre, cq.boolean(s.E)), pats...))
	default:
		panic(specErr{"bad ghost statement " + s.Kind})
	}
	return c
}

// useLemma instantiates a lemma.
func (x *X) useLemma(s *SStmt, c *SCtx) {
	e := s.E
	q := c
	var bs []BVar
	for _, v := range s.Vars {
		srt, g := x.resolveType(v.Type)
		x.eng.bvar++
		nm := fmt.Sprintf("?%s%d", v.Name, x.eng.bvar)
		bs = append(bs, BVar{nm, srt})
		q = q.with(v.Name, Val{T: cst(nm, srt), G: g})
	}
	ante := tTrue
	if e.Op == "==>" {
		ante = q.boolean(e.Args[0])
		e = e.Args[1]
	}
	if e.Op != "call" {
		c.fail(e, "use expects a lemma application")
	}
	l, ok := x.sp.Lemmas[e.Name]
	if !ok {
		c.fail(e, "unknown lemma %s", e.Name)
	}
	x.eng.noteLemma(x.group, e.Name)
	if len(e.Args) != len(l.Params) {
		c.fail(e, "lemma %s takes %d arguments", l.Name, len(l.Params))
	}
	env := map[string]Val{}
	for i, a := range e.Args {
		v := q.eval(a)
		srt, g := x.resolveType(l.Params[i].Type)
		if srt == sReal && v.T.Sort == sInt {
			v.T = coerceReal(v.T)
		}
		if v.T.Sort != srt {
			c.fail(e, "lemma %s argument %d has sort %s, expected %s", l.Name, i, v.T.Sort, srt)
		}
		if len(bs) == 0 {
			v.T = x.nameIt(c.st, "la", v.T)
		}
		env[l.Params[i].Name] = Val{T: v.T, G: g}
	}
	lc := &SCtx{x: x, env: env}
	var req []*Term
	if x.group == "lemma:"+l.Name {
		// recursive use
		if l.Decreases == nil {
			c.fail(e, "recursive use of %s without decreases", l.Name)
		}
		cur := &SCtx{x: x, env: map[string]Val{}}
		for i, p := range l.Params {
			cur.env[p.Name] = x.params[i]
		}
		a, b := cur.eval(l.Decreases), lc.eval(l.Decreases)
		dec := and(le(num(0), a.T), lt(b.T, a.T))
		if l.Decreases2 != nil {
			a2, b2 := cur.eval(l.Decreases2), lc.eval(l.Decreases2)
			dec = or(dec, and(eq(a.T, b.T), le(num(0), a2.T), lt(b2.T, a2.T)))
		}
		if len(bs) == 0 {
			g := implies(ante, dec)
			x.ghostOblige(c, "decreases", stmtLabel(s), s, g)
		} else {
			req = append(req, dec)
		}
	} else if x.eng.lemmaPos[x.group] > 0 && x.eng.lemmaPos["lemma:"+l.Name] >= x.eng.lemmaPos[x.group] {
		c.fail(e, "lemma %s is used before it is stated", l.Name)
	}
	for i, r := range l.Requires {
		g := lc.boolean(r.E)
		if len(bs) == 0 {
			lab := r.Label
			if lab == "" {
				lab = fmt.Sprint(i)
			}
			x.ghostOblige(c, "lemma-pre", l.Name+"."+lab+"."+stmtLabel(s), s, implies(ante, g))
		}
		req = append(req, g)
	}
	var ens []*Term
	for _, r := range l.Ensures {
		ens = append(ens, lc.boolean(r.E))
	}
	if len(bs) == 0 {
		for _, t := range ens {
			c.st.assume(implies(ante, t))
		}
		return
	}
	var pats [][]*Term
	for _, p := range s.Pats {
		var lst []*Term
		for _, t := range p {
			lst = append(lst, q.eval(t).T)
		}
		pats = append(pats, lst)
	}
	c.st.assume(forall(bs, implies(and(append([]*Term{ante}, req...)...), and(ens...)), pats...))
}

// verifyFunc generates the obligations of one function under contract.
func (e *Engine) verifyFunc(con *Contract) (x *X) {
	fd := e.prog.Funcs[con.Key]
	x = e.newX(fd, con)
	x.group = con.Key
	defer func() {
		if r := recover(); r != nil {
			switch t := r.(type) {
			case unsupported:
				x.obls = append(x.obls, &Obligation{Name: con.Key + "/unsupported", Func: con.Key, Kind: "unsupported", Status: "unsupported", Why: t.msg, Goal: tFalse})
			case specErr:
				x.obls = append(x.obls, &Obligation{Name: con.Key + "/spec", Func: con.Key, Kind: "unsupported", Status: "unsupported", Why: t.msg, Goal: tFalse})
			default:
				if e.debug {
					panic(r)
				}
				x.obls = append(x.obls, &Obligation{Name: con.Key + "/internal", Func: con.Key, Kind: "unsupported", Status: "unsupported", Why: fmt.Sprint(r), Goal: tFalse})
			}
		}
	}()
	if fd == nil {
		panic(unsupported{"function " + con.Key + " does not exist"})
	}
	sig := fd.Obj.Type().(*types.Signature)
	x.initMode = fd.Init
	st := x.newState()
	x.entry = st
	fr := &Frame{fd: fd, pkg: fd.Pkg, key: "", sig: sig}
	x.number(fd.Pkg, fd.Decl.Body, "", []*types.Func{fd.Obj})
	x.scanBoxes(fd.Pkg, fd.Decl.Body)
	var ps []*types.Var
	if sig.Recv() != nil {
		ps = append(ps, sig.Recv())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, sig.Params().At(i))
	}
	if len(ps) != len(con.Params) {
		panic(specErr{fmt.Sprintf("contract of %s names %d parameters, function has %d", con.Key, len(con.Params), len(ps))})
	}
	if sig.Results().Len() != len(con.Results) {
		panic(specErr{fmt.Sprintf("contract of %s names %d results, function has %d", con.Key, len(con.Results), sig.Results().Len())})
	}
	for i, p := range ps {
		c := x.entryConst(sanitize(con.Params[i])+"!p", x.prog.sortOf(p.Type()))
		v := Val{T: c, G: p.Type()}
		for _, w := range x.wfTerms(c, p.Type(), st.alloc, 0) {
			st.assume(w)
		}
		x.params = append(x.params, v)
	}
	ec := x.entryCtx()
	for _, r := range con.Requires {
		st.assume(ec.boolean(r.E))
	}
	x.mods = x.modItems(con.Modifies, ec)
	x.entry = st.clone()
	st = x.entry.clone()
	x.addObl(st, "probe-entry", "", x.prog.pos(fd.Decl.Pos()), tFalse, true)
	for i, p := range ps {
		if p.Name() == "" || p.Name() == "_" {
			continue
		}
		x.declare(st, p, x.params[i])
	}
	x.declareResults(st, fr, sig)
	cc := x.codeCtx(fr, st, fd.Decl.Body.Lbrace, fd.Decl.Body)
	x.ghostStmts(con.Entry, cc)
	exits := 0
	fr.ret = func(st *State, vals []Val) {
		if x.dry > 0 {
			return
		}
		exits++
		post := &SCtx{x: x, env: map[string]Val{}, st: st, old: x.entryCtx()}
		for i, p := range con.Params {
			post.env[p] = x.params[i]
		}
		for i, r := range con.Results {
			v := vals[i]
			if v.T == nil && v.Fn != nil {
				v = x.reifyFn(st, v)
			}
			if v.T != nil && v.Alias == nil {
				v.T = x.nameIt(st, r, v.T)
			}
			post.env[r] = v
		}
		cx := x.codeCtx(fr, st, fd.Decl.Body.Rbrace, nil)
		for k, v := range post.env {
			cx.env[k] = v
		}
		x.ghostStmts(con.Exit, cx)
		if con.Panics != nil {
			x.oblige(st, "panics", "if", fd.Decl.Pos(), not(x.entryCtx().boolean(con.Panics)))
		}
		for i, en := range con.Ensures {
			l := en.Label
			if l == "" {
				l = fmt.Sprint(i)
			}
			g := post.boolean(en.E)
			x.oblige(st, "ensures", l, fd.Decl.Pos(), g)
			st.assume(g)
		}
	}
	x.block(fr, st, fd.Decl.Body.List, nil, func(st *State) {
		var vals []Val
		for _, o := range fr.res {
			vals = append(vals, x.readVar(st, o))
		}
		if len(vals) < sig.Results().Len() {
			return // unreachable end (terminating statement checked by the compiler)
		}
		fr.ret(st, vals)
	})
	for n := range con.Loops {
		if n >= x.callN["#loops"] {
			panic(specErr{fmt.Sprintf("contract of %s has a clause for loop %d, function has %d loops", con.Key, n, x.callN["#loops"])})
		}
	}
	return x
}

// verifyLemma generates the obligations of a lemma.
func (e *Engine) verifyLemma(l *Lemma) (x *X) {
	x = e.newX(nil, nil)
	x.group = "lemma:" + l.Name
	defer func() {
		if r := recover(); r != nil {
			switch t := r.(type) {
			case specErr:
				x.obls = append(x.obls, &Obligation{Name: x.group + "/spec", Func: x.group, Kind: "unsupported", Status: "unsupported", Why: t.msg, Goal: tFalse})
			default:
				panic(r)
			}
		}
	}()
	st := x.newState()
	x.entry = st
	c := &SCtx{x: x, env: map[string]Val{}, st: st}
	for _, p := range l.Params {
		s, g := x.resolveType(p.Type)
		v := Val{T: x.entryConst(p.Name+"!p", s), G: g}
		x.params = append(x.params, v)
		c.env[p.Name] = v
	}
	for _, r := range l.Requires {
		st.assume(c.boolean(r.E))
	}
	x.addObl(st, "probe-entry", "", fmt.Sprintf("%s:%d", l.File, l.Line), tFalse, true)
	for _, s := range l.Body {
		c = x.ghostStmt(s, c)
	}
	for i, en := range l.Ensures {
		lab := en.Label
		if lab == "" {
			lab = fmt.Sprint(i)
		}
		g := c.boolean(en.E)
		x.ghostOblige(c, "ensures", lab, &SStmt{File: l.File, Line: en.E.Line}, g)
		st.assume(g)
	}
	return x
}

// verifyDefine checks that a recursive definition decreases.
func (e *Engine) verifyDefine(d *Define) *X {
	x := e.newX(nil, nil)
	x.group = "define:" + d.Name
	st := x.newState()
	x.entry = st
	c := &SCtx{x: x, env: map[string]Val{}, st: st}
	for _, p := range d.Params {
		s, g := x.resolveType(p.Type)
		c.env[p.Name] = Val{T: x.entryConst(p.Name+"!p", s), G: g}
	}
	cur, curc := c.eval(d.Decreases).T, c
	var walk func(c *SCtx, e *SExpr)
	walk = func(c *SCtx, e *SExpr) {
		guard := func(t *Term, k func(*SCtx)) {
			s2 := c.st.clone()
			s2.assume(t)
			k(c.withState(s2))
		}
		switch e.Op {
		case "ite":
			walk(c, e.Args[0])
			g := c.boolean(e.Args[0])
			guard(g, func(c *SCtx) { walk(c, e.Args[1]) })
			guard(not(g), func(c *SCtx) { walk(c, e.Args[2]) })
			return
		case "&&", "==>":
			walk(c, e.Args[0])
			guard(c.boolean(e.Args[0]), func(c *SCtx) { walk(c, e.Args[1]) })
			return
		case "||":
			walk(c, e.Args[0])
			guard(not(c.boolean(e.Args[0])), func(c *SCtx) { walk(c, e.Args[1]) })
			return
		case "let":
			walk(c, e.Args[0])
			walk(c.with(e.Name, c.eval(e.Args[0])), e.Args[1])
			return
		case "call":
			if e.Name == d.Name {
				n := &SCtx{x: x, env: map[string]Val{}, st: c.st}
				for i, p := range d.Params {
					_, g := x.resolveType(p.Type)
					n.env[p.Name] = Val{T: c.eval(e.Args[i]).T, G: g}
				}
				nxt := n.eval(d.Decreases).T
				dec := and(le(num(0), cur), lt(nxt, cur))
				if d.Decreases2 != nil {
					cur2 := curc.eval(d.Decreases2).T
					dec = or(dec, and(eq(nxt, cur), le(num(0), cur2), lt(n.eval(d.Decreases2).T, cur2)))
				}
				x.ghostOblige(c, "decreases", "", &SStmt{File: d.File, Line: e.Line}, dec)
			}
		case "forall", "exists", "lam":
			for _, v := range e.Vars {
				s, g := x.resolveType(v.Type)
				c = c.with(v.Name, Val{T: x.newConst(v.Name, s), G: g})
			}
		}
		for _, a := range e.Args {
			walk(c, a)
		}
	}
	walk(c, d.Body)
	return x
}
