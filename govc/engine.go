package main

import (
	"context"
	"crypto/sha256"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Engine ties everything together.
type Engine struct {
	maxFail    int // give up after so many failed obligations (0: never)
	fails      atomic.Int64
	mu         sync.Mutex
	prog       *Prog
	sp         *Specs
	bvar       int
	trivial    int
	trivialBy  map[string]int
	strs       map[string]string
	strOrder   []string
	zerosDef   map[string][2]string // name -> sort, zero value
	funs       map[string]funDecl
	lambdas    map[string]*lambdaDef
	entryFacts map[*X][]*Term
	lemmaPos   map[string]int
	assumed    map[string]bool
	calls      map[string]map[string]bool
	lemmaUse   map[string]map[string]bool
	typeIDs    map[string]int
	heapElem   map[string]types.Type
	globals    map[string]bool
	debug      bool
	noProbe    bool
	timeout    int
	probeMs    int
	workDir    string
	keep       bool
	defAxioms  map[string][]*Term
	userAxioms []*axiomDef
	prelX      *X
}

type funDecl struct {
	args []string
	ret  string
}

type lambdaDef struct {
	name   string
	sort   string
	params []BVar
	axiom  *Term
}

type axiomDef struct {
	name string
	t    *Term
	syms map[string]bool
}

func newEngine(p *Prog, sp *Specs) *Engine {
	e := &Engine{prog: p, sp: sp, strs: map[string]string{}, zerosDef: map[string][2]string{}, funs: map[string]funDecl{},
		lambdas: map[string]*lambdaDef{}, entryFacts: map[*X][]*Term{}, lemmaPos: map[string]int{}, calls: map[string]map[string]bool{},
		lemmaUse: map[string]map[string]bool{}, typeIDs: map[string]int{}, heapElem: map[string]types.Type{}, globals: map[string]bool{},
		trivialBy: map[string]int{}, defAxioms: map[string][]*Term{}, timeout: 30}
	for i, l := range sp.LemmaOrder {
		e.lemmaPos["lemma:"+l] = i + 1
	}
	return e
}

func (e *Engine) strLit(s string) string {
	if n, ok := e.strs[s]; ok {
		return n
	}
	n := fmt.Sprintf("str_%d_%s", len(e.strOrder), sanitize(s))
	e.strs[s] = n
	e.strOrder = append(e.strOrder, n)
	return n
}
func (e *Engine) addZeros(n, s string, z *Term) { e.zerosDef[n] = [2]string{s, z.String()} }
func (e *Engine) declFun(n string, args []string, ret string) {
	e.funs[n] = funDecl{args, ret}
}
func (e *Engine) addEntryFact(x *X, t *Term) { e.entryFacts[x] = append(e.entryFacts[x], t) }
func (e *Engine) noteCall(f, g string) {
	if e.calls[f] == nil {
		e.calls[f] = map[string]bool{}
	}
	e.calls[f][g] = true
}
func (e *Engine) noteLemma(f, g string) {
	if e.lemmaUse[f] == nil {
		e.lemmaUse[f] = map[string]bool{}
	}
	e.lemmaUse[f][g] = true
}
func (e *Engine) typeID(s string) int {
	if n, ok := e.typeIDs[s]; ok {
		return n
	}
	e.typeIDs[s] = len(e.typeIDs) + 1
	return e.typeIDs[s]
}
func (e *Engine) global(n string)    { e.globals[n] = true }
func (e *Engine) pow2(t *Term) *Term { return app(sInt, "F_pow2", t) }

// lambda creates an array-valued function of the free symbols of its body.
func (e *Engine) lambda(x *X, bv, bs string, body *Term, sort string) *Term {
	free := map[string]bool{}
	body.symbols(free)
	delete(free, bv)
	var ps []BVar
	var args []*Term
	for _, s := range sortedKeys(free) {
		if srt, ok := x.consts[s]; ok {
			ps = append(ps, BVar{s, srt})
			args = append(args, cst(s, srt))
		} else if strings.HasPrefix(s, "?") {
			if srt := findBound(body, s); srt != "" {
				ps = append(ps, BVar{s, srt})
				args = append(args, cst(s, srt))
			}
		}
	}
	// canonical name by body with bound variable and parameters renamed
	m := map[string]*Term{bv: cst("?b", bs)}
	var sorts []string
	for i, p := range ps {
		m[p.Name] = cst(fmt.Sprintf("?a%d", i), p.Sort)
		sorts = append(sorts, p.Sort)
	}
	cb := body.subst(m)
	h := sha256.Sum256([]byte(cb.String() + "|" + strings.Join(sorts, ",") + bs))
	nm := fmt.Sprintf("lam_%x", h[:6])
	if _, ok := e.lambdas[nm]; !ok {
		var bvs []BVar
		var as []*Term
		for i, p := range ps {
			bvs = append(bvs, BVar{fmt.Sprintf("?a%d", i), p.Sort})
			as = append(as, cst(fmt.Sprintf("?a%d", i), p.Sort))
		}
		lt := app(sort, nm, as...)
		if len(as) == 0 {
			lt = cst(nm, sort)
		}
		s := sel(lt, cst("?b", bs))
		ax := forall(append(bvs, BVar{"?b", bs}), eq(s, cb), []*Term{s})
		e.lambdas[nm] = &lambdaDef{name: nm, sort: sort, params: bvs, axiom: ax}
	}
	if len(args) == 0 {
		return cst(nm, sort)
	}
	return app(sort, nm, args...)
}

func findBound(t *Term, name string) string {
	if len(t.Args) == 0 && t.Op == name {
		return t.Sort
	}
	for _, a := range t.Args {
		if s := findBound(a, name); s != "" {
			return s
		}
	}
	return ""
}

// prepare builds axioms of specification functions.
func (e *Engine) prepare() error {
	var err error
	func() {
		defer func() {
			if r := recover(); r != nil {
				if t, ok := r.(specErr); ok {
					err = t
					return
				}
				panic(r)
			}
		}()
		x := e.newX(nil, nil)
		e.prelX = x
		x.entry = x.newState()
		decl := func(d *Define, nm string) []string {
			var args []string
			for _, p := range d.Params {
				s, _ := x.resolveType(p.Type)
				args = append(args, s)
			}
			r, _ := x.resolveType(d.Ret)
			e.funs[nm] = funDecl{args, r}
			return args
		}
		for _, d := range e.sp.Declares {
			decl(d, "F_"+d.Name)
		}
		for _, n := range e.sp.DefOrder {
			d := e.sp.Defines[n]
			if !d.Recursive && !d.Opaque {
				continue
			}
			decl(d, "F_"+d.Name)
			c := &SCtx{x: x, env: map[string]Val{}, inDef: d}
			var bs []BVar
			var as []*Term
			for _, p := range d.Params {
				s, g := x.resolveType(p.Type)
				nm := "?" + p.Name
				bs = append(bs, BVar{nm, s})
				as = append(as, cst(nm, s))
				c.env[p.Name] = Val{T: cst(nm, s), G: g}
			}
			rs, _ := x.resolveType(d.Ret)
			body := c.eval(d.Body)
			if rs == sReal {
				body.T = coerceReal(body.T)
			}
			if body.T.Sort != rs {
				c.fail(d.Body, "body of %s has sort %s, declared %s", d.Name, body.T.Sort, rs)
			}
			f := app(rs, "F_"+d.Name, as...)
			if len(as) == 0 {
				f = cst("F_"+d.Name, rs)
			}
			if d.Opaque {
				e.defAxioms["F_"+d.Name] = nil
				continue
			}
			decl(d, "F_"+d.Name+"$0")
			f0 := app(rs, "F_"+d.Name+"$0", as...)
			e.defAxioms["F_"+d.Name] = []*Term{
				forall(bs, eq(f, body.T), []*Term{f}),
				forall(bs, eq(f, f0), []*Term{f}),
			}
		}
		for _, a := range e.sp.Axioms {
			c := &SCtx{x: x, env: map[string]Val{}}
			t := c.boolean(a.E)
			syms := map[string]bool{}
			t.symbols(syms)
			e.userAxioms = append(e.userAxioms, &axiomDef{a.Name, t, syms})
		}
	}()
	return err
}

// revealAxiom gives the definition of an opaque function as a fact on given arguments.
func (e *Engine) revealAxiom(x *X, d *Define, args []Val) *Term {
	c := &SCtx{x: x, env: map[string]Val{}}
	var ts []*Term
	for i, p := range d.Params {
		c.env[p.Name] = args[i]
		ts = append(ts, args[i].T)
	}
	rs, _ := x.resolveType(d.Ret)
	return eq(app(rs, "F_"+d.Name, ts...), c.eval(d.Body).T)
}

const smtPrelude = `(declare-sort Str 0)
(declare-sort Fn 0)
(declare-sort Opaque 0)
(declare-datatypes ((Slice 0)) (((mkslice (sref Int) (soff Int) (slen Int) (scap Int)))))
(declare-datatypes ((Ptr 0)) (((mkptr (pref Int) (pidx Int)))))
(declare-datatypes ((Iface 0)) (((mkiface (itag Int) (iptr Ptr)))))
(declare-fun strlen (Str) Int)
(declare-const fn_nil Fn)
(declare-const ninf Real)
(declare-const pinf Real)
(declare-const nan Real)
`

// smt renders an obligation as an SMT-LIB script.
func (e *Engine) smt(o *Obligation, x *X, opts string) string {
	e.mu.Lock()
	defer e.mu.Unlock()
	syms := map[string]bool{}
	facts := append([]*Term{}, e.entryFacts[x]...)
	facts = append(facts, o.Facts...)
	seen := map[string]bool{}
	var fs []*Term
	for _, f := range facts {
		s := f.String()
		if seen[s] {
			continue
		}
		seen[s] = true
		fs = append(fs, f)
		f.symbols(syms)
	}
	o.Goal.symbols(syms)
	// closure over axioms
	var axs []*Term
	done := map[string]bool{}
	for changed := true; changed; {
		changed = false
		for _, s := range sortedKeys(syms) {
			if done[s] {
				continue
			}
			done[s] = true
			for _, a := range e.defAxioms[s] {
				axs = append(axs, a)
				a.symbols(syms)
				changed = true
			}
			if l, ok := e.lambdas[s]; ok {
				axs = append(axs, l.axiom)
				l.axiom.symbols(syms)
				changed = true
			}
		}
		for _, a := range e.userAxioms {
			if done["axiom:"+a.name] {
				continue
			}
			hit := false
			for s := range a.syms {
				if strings.HasPrefix(s, "F_") && syms[s] {
					hit = true
				}
			}
			if hit {
				done["axiom:"+a.name] = true
				axs = append(axs, a.t)
				a.t.symbols(syms)
				changed = true
			}
		}
	}
	for n, z := range e.zerosDef {
		if syms[n] {
			splitSyms(z[0], syms)
			splitSyms(z[1], syms)
		}
	}
	for _, s := range sortedKeys(syms) {
		if srt, ok := o.Consts[s]; ok {
			splitSyms(srt, syms)
		}
		if f, ok := e.funs[s]; ok {
			for _, a := range f.args {
				splitSyms(a, syms)
			}
			splitSyms(f.ret, syms)
		}
		if l, ok := e.lambdas[s]; ok {
			splitSyms(l.sort, syms)
			for _, p := range l.params {
				splitSyms(p.Sort, syms)
			}
		}
	}
	var b strings.Builder
	b.WriteString(opts)
	b.WriteString("(set-logic ALL)\n")
	b.WriteString(smtPrelude)
	for _, s := range e.sp.Sorts {
		fmt.Fprintf(&b, "(declare-sort U_%s 0)\n", s)
	}
	// datatypes
	emitted := map[string]bool{}
	var emit func(name string)
	emitSort := func(s string) {
		m := map[string]bool{}
		splitSyms(s, m)
		for _, n := range sortedKeys(m) {
			emit(n)
		}
	}
	emit = func(name string) {
		if emitted[name] {
			return
		}
		if g, ok := e.prog.sortType[name]; ok {
			emitted[name] = true
			st := g.Underlying().(*types.Struct)
			var fl strings.Builder
			for i := 0; i < st.NumFields(); i++ {
				fsrt := e.prog.sortOf(st.Field(i).Type())
				emitSort(fsrt)
				fmt.Fprintf(&fl, " (%s %s)", fieldSel(name, st.Field(i).Name()), fsrt)
			}
			if st.NumFields() == 0 {
				fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((mk_%s))))\n", name, name)
			} else {
				fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((mk_%s%s))))\n", name, name, fl.String())
			}
			return
		}
		if strings.HasPrefix(name, "D_") {
			if d, ok := e.sp.Datatypes[name[2:]]; ok {
				emitted[name] = true
				var fl strings.Builder
				for _, f := range d.Fields {
					s, _ := e.prelX.resolveType(f.Type)
					emitSort(s)
					fmt.Fprintf(&fl, " (D_%s.%s %s)", d.Name, f.Name, s)
				}
				fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((mkD_%s%s))))\n", name, d.Name, fl.String())
			}
		}
	}
	for _, s := range sortedKeys(syms) {
		n := s
		if strings.HasPrefix(n, "mkD_") {
			n = n[2:]
		}
		n = strings.TrimPrefix(n, "mk_")
		if i := strings.IndexByte(n, '.'); i > 0 && (strings.HasPrefix(n, "S_") || strings.HasPrefix(n, "D_")) {
			n = n[:i]
		}
		emit(n)
	}
	// strings
	var used []string
	for _, n := range e.strOrder {
		if syms[n] {
			fmt.Fprintf(&b, "(declare-const %s Str)\n", n)
			used = append(used, n)
		}
	}
	if len(used) > 1 {
		fmt.Fprintf(&b, "(assert (distinct %s))\n", strings.Join(used, " "))
	}
	for _, s := range sortedKeys(syms) {
		if srt, ok := o.Consts[s]; ok {
			fmt.Fprintf(&b, "(declare-const %s %s)\n", s, srt)
		} else if f, ok := e.funs[s]; ok {
			fmt.Fprintf(&b, "(declare-fun %s (%s) %s)\n", s, strings.Join(f.args, " "), f.ret)
		} else if l, ok := e.lambdas[s]; ok {
			var ps []string
			for _, p := range l.params {
				ps = append(ps, p.Sort)
			}
			fmt.Fprintf(&b, "(declare-fun %s (%s) %s)\n", s, strings.Join(ps, " "), l.sort)
		} else if z, ok := e.zerosDef[s]; ok {
			fmt.Fprintf(&b, "(declare-const %s %s)\n(assert (forall ((i Int)) (! (= (select %s i) %s) :pattern ((select %s i)))))\n", s, z[0], s, z[1], s)
		} else if strings.HasPrefix(s, "zero_") {
			fmt.Fprintf(&b, "(declare-const %s %s)\n", s, s[5:])
		}
	}
	// shift functions
	for _, s := range sortedKeys(syms) {
		if strings.HasPrefix(s, "shift<") {
			srt := e.shiftSort(s)
			nm := s
			a := "(Array Int " + srt + ")"
			fmt.Fprintf(&b, "(declare-fun %s (%s Int) %s)\n", nm, a, a)
			fmt.Fprintf(&b, "(assert (forall ((a %s) (o Int) (i Int)) (! (= (select (%s a o) i) (select a (+ o i))) :pattern ((select (%s a o) i)))))\n", a, nm, nm)
		}
	}
	var gl []string
	for _, g := range sortedKeys(e.globals) {
		if syms[g] {
			gl = append(gl, g)
			fmt.Fprintf(&b, "(assert (and (< 0 %s) (<= %s alloc!e)))\n", g, g)
		}
	}
	if len(gl) > 1 {
		fmt.Fprintf(&b, "(assert (distinct %s))\n", strings.Join(gl, " "))
	}
	for _, a := range axs {
		fmt.Fprintf(&b, "(assert %s)\n", a)
	}
	for _, f := range fs {
		fmt.Fprintf(&b, "(assert %s)\n", f)
	}
	fmt.Fprintf(&b, "(assert (not %s))\n(check-sat)\n", o.Goal)
	return b.String()
}

var shiftSorts = map[string]string{}

func (e *Engine) shiftFn(srt string) string {
	n := "shift<" + sanitize(srt) + ">"
	shiftSorts[n] = srt
	return n
}

func (e *Engine) shiftSort(s string) string { return shiftSorts[s] }

// ---- solving ----

type solverCfg struct {
	name string
	opts string
	args func(file string, sec int) []string
}

var solvers = []solverCfg{
	{"z3-new", "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.random_seed 0)\n", func(f string, t int) []string { return []string{"z3-new", fmt.Sprintf("-t:%d", t), f} }},
	{"z3", "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n", func(f string, t int) []string { return []string{"z3", fmt.Sprintf("-t:%d", t), f} }},
	{"cvc5", "", func(f string, t int) []string {
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", t), f}
	}},
	{"z3-new-auto", "", func(f string, t int) []string { return []string{"z3-new", fmt.Sprintf("-t:%d", t), f} }},
}

func runSolver(ctx context.Context, s solverCfg, file string, ms int) string {
	args := s.args(file, ms)
	cctx, cancel := context.WithTimeout(ctx, time.Duration(ms)*time.Millisecond*11/10+500*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(cctx, args[0], args[1:]...)
	out, _ := cmd.Output()
	r := strings.TrimSpace(string(out))
	for _, ln := range strings.Split(r, "\n") {
		switch strings.TrimSpace(ln) {
		case "unsat", "sat", "unknown":
			return strings.TrimSpace(ln)
		}
	}
	if strings.Contains(r, "error") {
		return "error: " + r
	}
	return "timeout"
}

var semaphore = make(chan struct{}, 8)

func (e *Engine) solveOne(o *Obligation, x *X, id int) {
	if o.Status == "unsupported" {
		return
	}
	base := filepath.Join(e.workDir, fmt.Sprintf("o%05d", id))
	scripts := map[string]string{}
	write := func(s solverCfg) string {
		if f, ok := scripts[s.opts]; ok {
			return f
		}
		f := fmt.Sprintf("%s_%d.smt2", base, len(scripts))
		os.WriteFile(f, []byte(e.smt(o, x, s.opts)), 0o644)
		scripts[s.opts] = f
		return f
	}
	defer func() {
		if !e.keep && o.Status == "proved" || o.Probe {
			for _, f := range scripts {
				os.Remove(f)
			}
		}
	}()
	start := time.Now()
	run := func(s solverCfg, ms int) string {
		f := write(s)
		if fi, err := os.Stat(f); err == nil {
			o.Size = int(fi.Size())
		}
		semaphore <- struct{}{}
		defer func() { <-semaphore }()
		return runSolver(context.Background(), s, f, ms)
	}
	if o.Probe {
		r := run(solvers[0], e.probeMs)
		o.Solver = "z3-new"
		o.Ms = time.Since(start).Milliseconds()
		if r == "unsat" {
			o.Status = "vacuous"
		} else if strings.HasPrefix(r, "error") {
			o.Status = "error"
			o.Why = r
		} else {
			o.Status = "ok"
		}
		return
	}
	// stage 1: short attempts one after another; stage 2: portfolio in parallel
	var last string
	stages := []struct {
		s  int
		ms int
	}{{0, 300}, {1, 600}, {0, 1500}, {1, 2000}, {2, 4000}}
	for _, g := range stages {
		r := run(solvers[g.s], g.ms)
		if r == "unsat" {
			o.Status, o.Solver = "proved", solvers[g.s].name
			o.Ms = time.Since(start).Milliseconds()
			return
		}
		if strings.HasPrefix(r, "error") {
			last = r
		} else if r == "sat" && g.s != 0 {
			last = r
		}
	}
	type res struct {
		name, r string
	}
	ch := make(chan res, len(solvers))
	ctx, cancel := context.WithCancel(context.Background())
	for i := range solvers {
		s := solvers[i]
		f := write(s)
		go func() {
			semaphore <- struct{}{}
			defer func() { <-semaphore }()
			if ctx.Err() != nil {
				ch <- res{s.name, "cancelled"}
				return
			}
			ch <- res{s.name, runSolver(ctx, s, f, e.timeout*1000)}
		}()
	}
	detail := []string{}
	for range solvers {
		r := <-ch
		if r.r == "unsat" && o.Status == "" {
			o.Status, o.Solver = "proved", r.name
			cancel()
		}
		detail = append(detail, r.name+"="+r.r)
	}
	cancel()
	o.Ms = time.Since(start).Milliseconds()
	if o.Status == "" {
		sort.Strings(detail)
		o.Status = "failed"
		o.Why = strings.Join(detail, " ") + " " + last
	}
}

func (e *Engine) solveAll(xs []*X) {
	var wg sync.WaitGroup
	lim := make(chan struct{}, 8)
	id := 0
	for _, x := range xs {
		for _, o := range x.obls {
			id++
			wg.Add(1)
			lim <- struct{}{}
			go func(o *Obligation, x *X, id int) {
				defer wg.Done()
				defer func() { <-lim }()
				if e.maxFail > 0 && int(e.fails.Load()) >= e.maxFail {
					o.Status, o.Why = "skipped", "not tried after other failures"
					return
				}
				e.solveOne(o, x, id)
				if !o.Probe && o.Status != "proved" {
					e.fails.Add(1)
				}
			}(o, x, id)
		}
	}
	wg.Wait()
}
