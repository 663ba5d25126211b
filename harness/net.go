package main

import (
	"fmt"
	"maps"
	"math"
	"slices"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/ve"
)

// gnode is a generated network node.
type gnode struct {
	name     string
	tp       ve.NodeType
	outcomes []string
	parents  []int // indices into gnet.nodes
	table    []float64
	total    bool
}

// gnet is a generated network with the oracle's semantics.
type gnet struct {
	nodes    []gnode
	total    int
	policies map[int]*gpol // solved decisions
}

// gpol is a policy: table over given (node indices) and the decision.
type gpol struct {
	given []int
	table []float64
}

func (g *gnet) String() string {
	s := ""
	for i, n := range g.nodes {
		s += fmt.Sprintf("#%d %q type=%d outcomes=%q given=%v table=%v", i, n.name, n.tp, n.outcomes, n.parents, n.table)
		if n.total {
			s += " TOTAL"
		}
		s += "; "
	}
	return s
}

type genOpts struct {
	chance, decisions, utils [2]int // ranges
	total                    int    // percent
	exact                    bool   // dyadic numbers only
	maxJoint                 int
	maxOut                   int
	noForget                 bool
	positive                 bool
}

func rng(c *Ctx, r [2]int) int { return r[0] + c.Intn(r[1]-r[0]+1) }

var nameParts = []string{"A", "a", "Rain", "rain", "x", "Node 1", "Node 10", "ü", "yes", "no", "_", "T", "temperature", "Z-9", "0", "B", "#"}

func genOutcomes(c *Ctx, n int) []string {
	r := []string{}
	style := c.Intn(5)
	alike := []string{"yes", "Yes", "YES", "ye", "yes1", "yEs", "y", "#yes"}
	c.Shuffle(len(alike), func(i, j int) { alike[i], alike[j] = alike[j], alike[i] })
	for i := 0; i < n; i++ {
		switch {
		case style == 0 && n == 2:
			r = append(r, []string{"yes", "no"}[i])
		case style == 1 && n == 2:
			r = append(r, []string{"no", "yes"}[i])
		case style == 2:
			r = append(r, fmt.Sprintf("o%d", n-i))
		case style == 4 && i < len(alike): // names that differ by little
			r = append(r, alike[i])
		default:
			r = append(r, fmt.Sprintf("out%d", i))
		}
	}
	return r
}

func genProbRow(c *Ctx, n int, exact, positive bool) []float64 {
	r := make([]float64, n)
	if exact {
		tot := 8
		if c.Intn(2) == 0 {
			tot = 4
		}
		for tot < n {
			tot *= 2
		}
		if positive {
			for i := range r {
				r[i] = 1
			}
			tot -= n
		}
		for k := 0; k < tot; k++ {
			r[c.Intn(n)]++
		}
		sc := math.Pow(2, float64(c.Intn(5)-3))
		for i := range r {
			r[i] *= sc
		}
		return r
	}
	for {
		s := 0.0
		for i := range r {
			switch c.Intn(5) {
			case 0:
				r[i] = 0
				if positive {
					r[i] = 0.25
				}
			case 1:
				r[i] = c.Float64()
			default:
				r[i] = float64(1 + c.Intn(9))
			}
			s += r[i]
		}
		if s > 0 {
			break
		}
	}
	if c.Intn(6) == 0 { // rare outcomes, large and small weights
		sc := math.Pow(10, float64(c.Intn(24)-12))
		for i := range r {
			if c.Intn(2) == 0 {
				r[i] *= sc
			}
		}
	}
	return r
}

func (g *gnet) size(idx []int) int {
	n := 1
	for _, i := range idx {
		n *= len(g.nodes[i].outcomes)
	}
	return n
}

// genNet generates an acyclic network; node order is random.
func genNet(c *Ctx, o genOpts) *gnet {
	for {
		g := tryNet(c, o)
		n := 1
		for _, x := range g.nodes {
			if x.tp != ve.UtilityNode {
				n *= len(x.outcomes)
			}
		}
		ok := n <= o.maxJoint
		for _, x := range g.nodes {
			if len(x.table) > 6000 {
				ok = false
			}
		}
		if ok {
			return g
		}
	}
}

func tryNet(c *Ctx, o genOpts) *gnet {
	nc, nd, nu := rng(c, o.chance), rng(c, o.decisions), rng(c, o.utils)
	if nc+nd == 0 {
		nc = 1
	}
	total := nu > 0 && c.Intn(100) < o.total
	// topological sequence of chance and decision nodes
	maxPar := 3
	if c.Intn(5) == 0 { // few outcomes, many parents
		o.maxOut, maxPar = min(o.maxOut, 2), 7
	}
	kinds := []ve.NodeType{}
	for i := 0; i < nc; i++ {
		kinds = append(kinds, ve.ChanceNode)
	}
	for i := 0; i < nd; i++ {
		kinds = append(kinds, ve.DecisionNode)
	}
	pad := 0
	if c.Intn(10) == 0 { // many variables, but no larger a joint distribution
		pad = 5 + c.Intn(28)
	}
	certain := map[int]bool{}
	for i := 0; i < pad; i++ {
		kinds = append(kinds, ve.ChanceNode+100)
	}
	c.Shuffle(len(kinds), func(i, j int) { kinds[i], kinds[j] = kinds[j], kinds[i] })
	for i, k := range kinds {
		if k == ve.ChanceNode+100 {
			kinds[i], certain[i] = ve.ChanceNode, true
		}
	}
	seq := []gnode{}
	names := map[string]bool{"": true}
	name := func() string {
		n := ""
		for names[n] {
			n += nameParts[c.Intn(len(nameParts))]
		}
		names[n] = true
		return n
	}
	lastDec := -1
	for i, k := range kinds {
		out := 1 + c.Intn(o.maxOut)
		if out == 1 && c.Intn(3) > 0 {
			out = 2
		}
		if k == ve.DecisionNode && c.Intn(12) == 0 && o.maxOut > 2 {
			out = 9 + c.Intn(2)
		}
		if k == ve.ChanceNode && c.Intn(20) == 0 && o.maxOut > 2 {
			out = 5 + c.Intn(8)
			if c.Intn(3) == 0 {
				out = 20 + c.Intn(40)
			}
		}
		if certain[i] {
			out = 1
		}
		n := gnode{name: name(), tp: k, outcomes: genOutcomes(c, out)}
		np := c.Intn(min(i, maxPar) + 1)
		n.parents = append([]int{}, c.Perm(i)[:np]...)
		if k == ve.DecisionNode && o.noForget && lastDec >= 0 {
			set := map[int]bool{lastDec: true}
			for _, p := range seq[lastDec].parents {
				set[p] = true
			}
			for _, p := range n.parents {
				set[p] = true
			}
			n.parents = n.parents[:0]
			for p := range i {
				if set[p] {
					n.parents = append(n.parents, p)
				}
			}
			c.Shuffle(len(n.parents), func(i, j int) { n.parents[i], n.parents[j] = n.parents[j], n.parents[i] })
		}
		if k == ve.DecisionNode {
			lastDec = i
		}
		seq = append(seq, n)
	}
	base := len(seq)
	utilIdx := []int{}
	for i := 0; i < nu; i++ {
		n := gnode{name: name(), tp: ve.UtilityNode, outcomes: genOutcomes(c, 1)}
		np := 1 + c.Intn(min(base, maxPar))
		n.parents = append([]int{}, c.Perm(base)[:np]...)
		utilIdx = append(utilIdx, len(seq))
		seq = append(seq, n)
	}
	if total {
		n := gnode{name: name(), tp: ve.UtilityNode, total: true, outcomes: genOutcomes(c, nu)}
		for _, k := range c.Perm(nu) {
			n.parents = append(n.parents, utilIdx[k])
		}
		seq = append(seq, n)
	}
	// random order
	perm := c.Perm(len(seq))
	if c.Intn(4) == 0 {
		for i := range perm {
			perm[i] = i
		}
	}
	g := &gnet{nodes: make([]gnode, len(seq)), total: -1, policies: map[int]*gpol{}}
	for i, n := range seq {
		for k := range n.parents {
			n.parents[k] = perm[n.parents[k]]
		}
		g.nodes[perm[i]] = n
	}
	// one scale for all utilities, so that dyadic numbers stay exact
	off, sc, wsc := 0.0, 1.0, 1.0
	if c.Intn(6) == 0 {
		wsc = math.Ldexp(1, c.Intn(50)-20)
	}
	switch c.Intn(10) {
	case 0:
		sc = math.Ldexp(1, 20+c.Intn(120))
	case 1:
		sc = math.Ldexp(1, -20-c.Intn(60))
	case 2: // values that differ by very little
		sc, off = math.Ldexp(1, -26), float64(c.Intn(5)-2)
	}
	for i := range g.nodes {
		n := &g.nodes[i]
		rows := g.size(n.parents)
		if rows > 6000 {
			n.table = make([]float64, 7000)
			continue
		}
		switch {
		case n.total:
			g.total = i
			for range n.parents {
				w := float64(c.Intn(9)-2) / 2
				if !o.exact && c.Intn(2) == 0 {
					w = c.Float64() * 3
				}
				n.table = append(n.table, w*wsc)
			}
		case n.tp == ve.ChanceNode:
			for r := 0; r < rows; r++ {
				n.table = append(n.table, genProbRow(c, len(n.outcomes), o.exact, o.positive)...)
			}
		case n.tp == ve.UtilityNode:
			neg := c.Intn(2)
			small := 1 + c.Intn(4)
			if c.Intn(6) == 0 {
				neg = 2
			}
			for r := 0; r < rows; r++ {
				v := float64(c.Intn(6*small) - neg*3*small)
				if !o.exact && c.Intn(3) == 0 {
					v = c.NormFloat64() * 10
				}
				n.table = append(n.table, v*sc+off)
			}
		}
	}
	return g
}

// factorOrder is the order in which factors are passed to the constructor.
func (g *gnet) build(c *Ctx, shuffleFactors bool) *bbn.Network {
	vars, facs := g.defs(c, shuffleFactors)
	net, err := bbn.New("net", "", vars, facs)
	if err != nil {
		c.Fail("building the network failed: %v", err)
	}
	return net
}

func (g *gnet) defs(c *Ctx, shuffleFactors bool) ([]bbn.Variable, []bbn.Factor) {
	vars := []bbn.Variable{}
	facs := []bbn.Factor{}
	for _, n := range g.nodes {
		vars = append(vars, bbn.Variable{Name: n.name, NodeType: n.tp, Outcomes: slices.Clone(n.outcomes)})
		f := bbn.Factor{For: n.name, Table: slices.Clone(n.table)}
		for _, p := range n.parents {
			f.Given = append(f.Given, g.nodes[p].name)
		}
		facs = append(facs, f)
	}
	if shuffleFactors {
		c.Shuffle(len(facs), func(i, j int) { facs[i], facs[j] = facs[j], facs[i] })
	}
	return vars, facs
}

// permuted returns the same network with its nodes in another order, and new positions of the old nodes.
func (g *gnet) permuted(c *Ctx) *gnet {
	perm := c.Perm(len(g.nodes))
	h := &gnet{nodes: make([]gnode, len(g.nodes)), total: -1, policies: map[int]*gpol{}}
	for i, n := range g.nodes {
		m := n
		m.parents = nil
		for _, p := range n.parents {
			m.parents = append(m.parents, perm[p])
		}
		h.nodes[perm[i]] = m
		if n.total {
			h.total = perm[i]
		}
	}
	return h
}

// rowOf is the table row selected by assignment a.
func (g *gnet) rowOf(given []int, a []int) int {
	r := 0
	for _, p := range given {
		r = r*len(g.nodes[p].outcomes) + a[p]
	}
	return r
}

// joint enumerates all assignments of chance and decision nodes that agree with ev,
// with their weight; skip names decisions whose policy is left out.
func (g *gnet) joint(ev map[int]int, skip map[int]bool, fn func(a []int, p float64)) {
	a := make([]int, len(g.nodes))
	free := []int{}
	for i, n := range g.nodes {
		if n.tp == ve.UtilityNode {
			continue
		}
		if o, ok := ev[i]; ok {
			a[i] = o
		} else {
			free = append(free, i)
		}
	}
	var rec func(k int)
	rec = func(k int) {
		if k < len(free) {
			i := free[k]
			for o := range g.nodes[i].outcomes {
				a[i] = o
				rec(k + 1)
			}
			return
		}
		p := 1.0
		for i, n := range g.nodes {
			switch n.tp {
			case ve.ChanceNode:
				cols := len(n.outcomes)
				r := g.rowOf(n.parents, a)
				s := 0.0
				for _, x := range n.table[r*cols : (r+1)*cols] {
					s += x
				}
				if s != 0 {
					p *= n.table[r*cols+a[i]] / s
				} else {
					p = 0
				}
			case ve.DecisionNode:
				if pol, ok := g.policies[i]; ok && !skip[i] {
					p *= pol.table[g.rowOf(pol.given, a)*len(n.outcomes)+a[i]]
				}
			}
		}
		fn(a, p)
	}
	rec(0)
}

// utility of an assignment: all tables with their weights, or only the one asked for (unweighted).
func (g *gnet) utility(a []int, only int) float64 {
	u := 0.0
	for i, n := range g.nodes {
		if n.tp != ve.UtilityNode || n.total || (only >= 0 && i != only) {
			continue
		}
		v := n.table[g.rowOf(n.parents, a)]
		if only < 0 && g.total >= 0 {
			t := g.nodes[g.total]
			v *= t.table[slices.Index(t.parents, i)]
		}
		u += v
	}
	return u
}

// absUtility bounds the magnitude of the terms of utility.
func (g *gnet) absUtility(a []int, only int) float64 {
	u := 0.0
	for i, n := range g.nodes {
		if n.tp != ve.UtilityNode || n.total || (only >= 0 && i != only) {
			continue
		}
		v := math.Abs(n.table[g.rowOf(n.parents, a)])
		if only < 0 && g.total >= 0 {
			t := g.nodes[g.total]
			v *= math.Abs(t.table[slices.Index(t.parents, i)])
		}
		u += v
	}
	return u
}

func (g *gnet) indices(tp ...ve.NodeType) []int {
	r := []int{}
	for i, n := range g.nodes {
		if slices.Contains(tp, n.tp) && !n.total {
			r = append(r, i)
		}
	}
	return r
}

func (g *gnet) vvs(idx []int) []vv {
	r := []vv{}
	for _, i := range idx {
		r = append(r, vv{id: i, n: len(g.nodes[i].outcomes)})
	}
	return r
}

func (g *gnet) evNames(ev map[int]int) map[string]string {
	r := map[string]string{}
	for i, o := range ev {
		r[g.nodes[i].name] = g.nodes[i].outcomes[o]
	}
	return r
}

func (g *gnet) names(idx []int) []string {
	r := []string{}
	for _, i := range idx {
		r = append(r, g.nodes[i].name)
	}
	return r
}

// genEvidence picks evidence of positive probability by choosing a positive assignment.
func (g *gnet) genEvidence(c *Ctx, skip map[int]bool, maxEv int, among []int) map[int]int {
	var pos [][]int
	count := 0
	g.joint(nil, skip, func(a []int, p float64) {
		if p > 0 {
			count++
			if len(pos) < 50 {
				pos = append(pos, slices.Clone(a))
			} else if k := c.Intn(count); k < 50 {
				pos[k] = slices.Clone(a)
			}
		}
	})
	ev := map[int]int{}
	if len(pos) == 0 {
		return ev
	}
	a := pos[c.Intn(len(pos))]
	k := c.Intn(min(maxEv, len(among)) + 1)
	for _, i := range c.Perm(len(among))[:k] {
		ev[among[i]] = a[among[i]]
	}
	return ev
}

func skipOf(g *gnet, ev map[int]int, ignore bool) map[int]bool {
	skip := map[int]bool{}
	if ignore {
		for i := range ev {
			skip[i] = true
		}
	}
	return skip
}

// checkQuery compares SolveQuery with the oracle for one question.
func checkQuery(c *Ctx, g *gnet, net *bbn.Network, ev map[int]int, query []int, ignore bool) {
	skip := skipOf(g, ev, ignore)
	evn, q := g.evNames(ev), g.names(query)
	old := c.input
	c.input = func() string {
		return fmt.Sprintf("network %v policies %v; SolveQuery(%v, %q, ignorePolicies=%v)", g, g.polString(), evn, q, ignore)
	}
	defer func() { c.input = old }()
	vars := g.vvs(query)
	sums := make([]float64, size(vars))
	g.joint(ev, skip, func(a []int, p float64) {
		idx := 0
		for _, i := range query {
			idx = idx*len(g.nodes[i].outcomes) + a[i]
		}
		sums[idx] += p
	})
	want := fac{vars, sums}
	tot := 0.0
	for _, s := range sums {
		tot += s
	}
	res, f, err := net.SolveQuery(maps.Clone(evn), slices.Clone(q), ignore)
	if err != nil {
		c.Fail("error %v", err)
	}
	absTol = 0 // nothing is subtracted
	defer func() { absTol = 1e-9 }()
	compareSet(c, "joint factor", f, vars, want.at)
	if len(res) != len(q) {
		c.Fail("result has %d entries for %d query variables", len(res), len(q))
	}
	if tot <= 0 {
		return
	}
	for _, i := range query {
		r, ok := res[g.nodes[i].name]
		if !ok || len(r) != len(g.nodes[i].outcomes) {
			c.Fail("result for %q is %v", g.nodes[i].name, r)
		}
		m := make([]float64, len(r))
		each(vars, func(a map[int]int, flat int) { m[a[i]] += sums[flat] / tot })
		for k := range r {
			if !near(r[k], m[k]) {
				c.Fail("posterior of %q is %v, exact value is %v", g.nodes[i].name, r, m)
			}
		}
	}
}

// checkUtility compares SolveUtility with the oracle for one question.
func checkUtility(c *Ctx, g *gnet, net *bbn.Network, ev map[int]int, query []int, only int, ignore bool) {
	skip := skipOf(g, ev, ignore)
	evn, q := g.evNames(ev), g.names(query)
	un := ""
	if only >= 0 {
		un = g.nodes[only].name
	}
	old := c.input
	c.input = func() string {
		return fmt.Sprintf("network %v policies %v; SolveUtility(%v, %q, %q, ignorePolicies=%v)", g, g.polString(), evn, q, un, ignore)
	}
	defer func() { c.input = old }()
	vars := g.vvs(query)
	us, ps := make([]float64, size(vars)), make([]float64, size(vars))
	tol, ctol := make([]float64, size(vars)), 0.0
	g.joint(ev, skip, func(a []int, p float64) {
		idx := 0
		for _, i := range query {
			idx = idx*len(g.nodes[i].outcomes) + a[i]
		}
		ps[idx] += p
		us[idx] += p * g.utility(a, only)
		tol[idx] += p * g.absUtility(a, only)
	})
	absTol = 1e-11 * slices.Max(tol)
	for k := range tol {
		if ps[k] > 0 {
			ctol = math.Max(ctol, 1e-11*tol[k]/ps[k])
		}
	}
	defer func() { absTol = 1e-9 }()
	f, err := net.SolveUtility(maps.Clone(evn), slices.Clone(q), un, ignore)
	if err != nil {
		c.Fail("error %v", err)
	}
	if only >= 0 { // the single utility's own variable (one outcome) may remain
		uv := vv{id: only, n: 1}
		for _, v := range f.Variables() {
			if v.Id() == only {
				vars = append(slices.Clone(vars), uv)
				break
			}
		}
	}
	uw := fac{vars, us}
	compareSet(c, "utility factor", f, vars, uw.at)
	if only < 0 || len(vars) == len(query) {
		_, pf, err := net.SolveQuery(maps.Clone(evn), slices.Clone(q), ignore)
		if err != nil {
			c.Fail("error %v", err)
		}
		zero := false
		for _, p := range ps {
			zero = zero || p == 0
		}
		if !zero {
			nf := net.NormalizeUtility(f, pf)
			pw := fac{vars, ps}
			absTol = ctol
			compareSet(c, "conditional utility", &nf, vars, func(a map[int]int) float64 { return uw.at(a) / pw.at(a) })
		}
	}
}

func (g *gnet) polString() string {
	s := ""
	for i := range g.nodes {
		if p, ok := g.policies[i]; ok {
			s += fmt.Sprintf("#%d given %v %v; ", i, p.given, p.table)
		}
	}
	return s
}

// takePolicies solves policies in the real network and records them in the oracle.
func takePolicies(c *Ctx, g *gnet, net *bbn.Network, stepwise bool) {
	pol, err := net.SolvePolicies(stepwise)
	if err != nil {
		c.Fail("SolvePolicies(%v) failed: %v", stepwise, err)
	}
	g.policies = map[int]*gpol{}
	dec := g.indices(ve.DecisionNode)
	if len(pol) != len(dec) {
		c.Fail("SolvePolicies(%v) gave %d policies for %d decisions", stepwise, len(pol), len(dec))
	}
	for name, f := range pol {
		i := slices.IndexFunc(g.nodes, func(n gnode) bool { return n.name == name })
		if i < 0 || g.nodes[i].tp != ve.DecisionNode || f.For != name {
			c.Fail("SolvePolicies(%v): policy for %q (For %q)", stepwise, name, f.For)
		}
		p := &gpol{table: slices.Clone(f.Table)}
		for _, gn := range f.Given {
			k := slices.IndexFunc(g.nodes, func(n gnode) bool { return n.name == gn })
			if !slices.Contains(g.nodes[i].parents, k) {
				c.Fail("policy of %q depends on %q, which it does not observe", name, gn)
			}
			p.given = append(p.given, k)
		}
		if len(p.table) != g.size(p.given)*len(g.nodes[i].outcomes) {
			c.Fail("policy of %q given %v has %d values", name, f.Given, len(p.table))
		}
		for r := 0; r < g.size(p.given); r++ {
			s := 0.0
			for k := range g.nodes[i].outcomes {
				v := p.table[r*len(g.nodes[i].outcomes)+k]
				if v < 0 {
					c.Fail("policy of %q has a negative entry in row %d: %v", name, r, p.table)
				}
				s += v
			}
			if !near(s, 1) {
				c.Fail("policy of %q: row %d sums to %v: %v", name, r, s, p.table)
			}
		}
		g.policies[i] = p
	}
}

// relevant reports whether every decision influences some table (otherwise no policy can be derived).
func (g *gnet) relevant() bool {
	for _, d := range g.indices(ve.DecisionNode) {
		ok := false
		for _, n := range g.nodes {
			if n.tp != ve.DecisionNode && !n.total && slices.Contains(n.parents, d) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func sub(c *Ctx, idx []int, ev map[int]int, k int) []int {
	r := []int{}
	for _, p := range c.Perm(len(idx)) {
		if _, ok := ev[idx[p]]; !ok && len(r) < k {
			r = append(r, idx[p])
		}
	}
	return r
}

func netRows(c *Ctx) {
	g := genNet(c, genOpts{chance: [2]int{1, 4}, utils: [2]int{0, 1}, decisions: [2]int{0, 1}, maxJoint: 400, maxOut: 4})
	net := g.build(c, true)
	for i, v := range net.Variables() {
		n := g.nodes[i]
		c.input = func() string { return fmt.Sprintf("network %v; rows of the table of %q", g, n.name) }
		cols := len(n.outcomes)
		sh := g.vvs(n.parents)
		if len(n.table) == 0 {
			continue
		}
		each(sh, func(a map[int]int, flat int) {
			idx := []int{}
			for _, p := range n.parents {
				idx = append(idx, a[p])
			}
			r, ok := v.Factor.Row(idx)
			if !ok || !slices.Equal(r, n.table[flat*cols:(flat+1)*cols]) {
				c.Fail("Row(%v) = %v, %v, expected %v", idx, r, ok, n.table[flat*cols:(flat+1)*cols])
			}
			for k := range idx {
				m := slices.Clone(idx)
				m[k] = -1
				if r, ok := v.Factor.Row(m); ok {
					c.Fail("Row(%v) = %v, true although data is missing", m, r)
				}
			}
		})
		for _, l := range []int{len(n.parents) - 1, len(n.parents) + 1} {
			if l >= 0 {
				if p, _ := Panics(func() { v.Factor.Row(make([]int, l)) }); !p {
					c.Fail("Row accepts %d indices for %d parents", l, len(n.parents))
				}
			}
		}
	}
}

func netRearrange(c *Ctx) {
	o8 := genOpts{chance: [2]int{2, 6}, maxJoint: 600, maxOut: 3}
	if c.Intn(3) == 0 {
		o8 = genOpts{chance: [2]int{6, 8}, maxJoint: 600, maxOut: 2}
	}
	g := genNet(c, o8)
	net := g.build(c, true)
	all := g.indices(ve.ChanceNode)
	q := sub(c, all, nil, 1+c.Intn(len(all)))
	_, f, err := net.SolveQuery(nil, g.names(q), false)
	if err != nil {
		c.Fail("%v", err)
	}
	fv := []vv{}
	for _, v := range f.Variables() {
		fv = append(fv, vv{id: v.Id(), n: len(g.nodes[v.Id()].outcomes)})
	}
	o := fac{fv, slices.Clone(f.Data())}
	s := snap("f", f)
	req := sub(c, q, nil, 1+c.Intn(len(q)))
	names := g.names(req)
	c.input = func() string { return fmt.Sprintf("factor %v of network %v; Rearrange(%q)", o, g, names) }
	r := net.Rearrange(f, names)
	order := []vv{}
	for _, i := range req[:len(req)-1] {
		order = append(order, vv{id: i, n: len(g.nodes[i].outcomes)})
	}
	for _, v := range fv {
		if !slices.Contains(req, v.id) {
			order = append(order, v)
		}
	}
	last := req[len(req)-1]
	order = append(order, vv{id: last, n: len(g.nodes[last].outcomes)})
	compare(c, "Network.Rearrange", &r, fromFn(order, o.at))
	s.check(c, "Network.Rearrange")
	for _, i := range all {
		if !slices.Contains(q, i) {
			bad := append([]string{g.nodes[i].name}, names...)
			if c.Intn(2) == 0 {
				bad = append(slices.Clone(names), g.nodes[i].name)
			}
			c.input = func() string { return fmt.Sprintf("factor %v of network %v; Rearrange(%q)", o, g, bad) }
			if p, _ := Panics(func() { net.Rearrange(f, bad) }); !p {
				c.Fail("a variable the factor does not have is accepted")
			}
		}
	}
}

func netScaling(c *Ctx) {
	g := genNet(c, genOpts{chance: [2]int{1, 4}, utils: [2]int{0, 1}, maxJoint: 300, maxOut: 3})
	h := &gnet{nodes: slices.Clone(g.nodes), total: g.total, policies: map[int]*gpol{}}
	for i := range h.nodes {
		n := &h.nodes[i]
		n.table = slices.Clone(n.table)
		if n.tp == ve.ChanceNode {
			cols := len(n.outcomes)
			for r := 0; r < len(n.table)/cols; r++ {
				s := []float64{1, 2, 0.1, 100, 1e-6, c.Float64() + 0.01}[c.Intn(6)]
				for k := 0; k < cols; k++ {
					n.table[r*cols+k] *= s
				}
			}
		}
	}
	net := h.build(c, false)
	all := g.indices(ve.ChanceNode)
	ev := g.genEvidence(c, nil, 2, all)
	// the oracle of the unscaled network answers for the scaled one
	old := g.nodes
	checkQuery(c, g, net, ev, sub(c, all, ev, 2), false)
	_ = old
}

func checkC01(c *Ctx) {
	c.Until(func(n int) {
		o := genOpts{chance: [2]int{1, 6}, utils: [2]int{0, 2}, total: 40, maxJoint: 1500, maxOut: 3}
		if c.Intn(8) == 0 {
			o = genOpts{chance: [2]int{7, 11}, utils: [2]int{0, 1}, maxJoint: 4100, maxOut: 2}
		}
		g := genNet(c, o)
		if c.Intn(6) == 0 { // solved decisions are chance variables
			o.decisions, o.chance, o.noForget = [2]int{1, 2}, [2]int{1, 3}, true
			o.utils = [2]int{1, 2}
			g = genNet(c, o)
			if !g.relevant() {
				return
			}
		}
		c.input = func() string { return "network " + g.String() }
		c.Case(g.String())
		net := g.build(c, c.Intn(2) == 0)
		if len(g.indices(ve.DecisionNode)) > 0 {
			takePolicies(c, g, net, true)
		}
		all := g.indices(ve.ChanceNode, ve.DecisionNode)
		for k := 0; k < 3; k++ {
			ev := g.genEvidence(c, nil, 6, all)
			checkQuery(c, g, net, ev, sub(c, all, ev, c.Intn(5)), false)
		}
		if len(g.policies) == 0 {
			h := g.permuted(c)
			net2 := h.build(c, true)
			all := h.indices(ve.ChanceNode)
			ev := h.genEvidence(c, nil, 3, all)
			checkQuery(c, h, net2, ev, sub(c, all, ev, 3), false)
			if h.total < 0 && c.Intn(6) == 0 && h.train(c, net2) { // the same network with new tables
				ev := h.genEvidence(c, nil, 3, all)
				checkQuery(c, h, net2, ev, sub(c, all, ev, 3), false)
			}
		}
		veDirect(c)
	})
}

// veDirect drives ve.VE itself with factors that are not conditional tables.
func veDirect(c *Ctx) {
	vs := ve.NewVariables()
	pool := []vv{}
	n := 1 + c.Intn(5)
	for i := 0; i < n; i++ {
		out := 1 + c.Intn(3)
		id := i*3 + c.Intn(3)
		pool = append(pool, vv{vs.AddVariable(id, ve.ChanceNode, uint16(out)), id, out, ve.ChanceNode})
	}
	fs, os := []ve.Factor{}, []fac{}
	for i := 0; i < 1+c.Intn(5); i++ {
		f, o := genPositive(c, vs, genShape(c, pool, 3, 100))
		fs, os = append(fs, f), append(os, o)
	}
	// every variable in some factor
	for _, v := range pool {
		f, o := genPositive(c, vs, []vv{v})
		fs, os = append(fs, f), append(os, o)
	}
	ev, evm := []ve.Evidence{}, map[int]int{}
	q, qv := []ve.Variable{}, []vv{}
	for _, v := range pick(c, pool, len(pool)) {
		switch c.Intn(3) {
		case 0:
			evm[v.id] = c.Intn(v.n)
			ev = append(ev, ve.Evidence{Variable: v.v, Value: evm[v.id]})
		case 1:
			q, qv = append(q, v.v), append(qv, v)
		}
	}
	c.input = func() string { return fmt.Sprintf("ve.New over %v, SolveQuery(%v, %v)", os, evm, qv) }
	f := ve.New(vs, fs, nil, nil).SolveQuery(ev, q)
	sums := make([]float64, size(qv))
	each(pool, func(a map[int]int, flat int) {
		p := 1.0
		for id, o := range evm {
			if a[id] != o {
				return
			}
		}
		for _, o := range os {
			p *= o.at(a)
		}
		sums[flatOf(qv, a)] += p
	})
	compareSet(c, "solved factor", f, qv, fac{qv, sums}.at)
}

func checkC03(c *Ctx) {
	c.Until(func(n int) {
		o := genOpts{chance: [2]int{1, 5}, utils: [2]int{1, 4}, total: 50, maxJoint: 800, maxOut: 3}
		if c.Intn(5) == 0 {
			o.decisions, o.chance, o.noForget = [2]int{1, 2}, [2]int{1, 3}, true
		} else if c.Intn(6) == 0 {
			o = genOpts{chance: [2]int{5, 9}, utils: [2]int{1, 6}, total: 50, maxJoint: 1100, maxOut: 2}
		}
		g := genNet(c, o)
		if !g.relevant() {
			return
		}
		c.input = func() string { return "network " + g.String() }
		c.Case(g.String())
		net := g.build(c, c.Intn(2) == 0)
		if len(g.indices(ve.DecisionNode)) > 0 {
			takePolicies(c, g, net, c.Intn(2) == 0)
		}
		all := g.indices(ve.ChanceNode, ve.DecisionNode)
		for k := 0; k < 3; k++ {
			ev := g.genEvidence(c, nil, 5, all)
			q := sub(c, all, ev, c.Intn(4))
			checkUtility(c, g, net, ev, q, -1, false)
			us := g.indices(ve.UtilityNode)
			checkUtility(c, g, net, ev, q, us[c.Intn(len(us))], false)
		}
	})
}

// expected utility of the network under the recorded policies
func (g *gnet) eu() float64 {
	s := 0.0
	g.joint(nil, nil, func(a []int, p float64) {
		if p != 0 {
			s += p * g.utility(a, -1)
		}
	})
	return s
}

func (g *gnet) absEU() float64 {
	s := 0.0
	g.joint(nil, nil, func(a []int, p float64) {
		if p != 0 {
			s += p * g.absUtility(a, -1)
		}
	})
	return s
}

func checkC04(c *Ctx) {
	c.Until(func(n int) {
		if n%2 == 0 {
			policyDirect(c)
		}
		single := n%3 > 0
		o := genOpts{chance: [2]int{0, 4}, decisions: [2]int{1, 1}, utils: [2]int{1, 3}, total: 30, maxJoint: 600, maxOut: 3, exact: true, positive: c.Intn(2) == 0}
		if c.Intn(8) == 0 {
			o.chance, o.maxOut = [2]int{4, 6}, 2
		}
		if !single {
			o = genOpts{chance: [2]int{0, 3}, decisions: [2]int{2, 3}, utils: [2]int{1, 2}, total: 30, maxJoint: 130, maxOut: 2, exact: true, noForget: true}
		}
		g := genNet(c, o)
		if !g.relevant() {
			return
		}
		c.input = func() string { return "network " + g.String() }
		if single {
			c.Case(g.String())
			d := g.indices(ve.DecisionNode)[0]
			step := c.Intn(2) == 0
			net := g.build(c, c.Intn(2) == 0)
			singlePolicy(c, g, net, d, step, 0)
			if c.Intn(3) == 0 { // solved again, after the first policies were in place
				singlePolicy(c, g, net, d, c.Intn(2) == 0, 0)
			}
			if c.Intn(4) == 0 && g.total < 0 { // and again after the tables were trained
				if !g.train(c, net) {
					return
				}
				singlePolicy(c, g, net, d, c.Intn(2) == 0, 1e-9)
			}
			return
		}
		best, ok := g.meu(20000)
		if !ok {
			return
		}
		c.Case(g.String())
		for _, step := range []bool{true, false} {
			net := g.build(c, c.Intn(2) == 0)
			takePolicies(c, g, net, step)
			absTol = 1e-11 * g.absEU()
			if e := g.eu(); !near(e, best) {
				c.Fail("stepwise=%v: solved policies %v reach expected utility %v, the maximum is %v", step, g.polString(), e, best)
			}
			again := c.Intn(2) == 0
			takePolicies(c, g, net, again)
			if e := g.eu(); !near(e, best) {
				c.Fail("solved again with stepwise=%v: policies %v reach expected utility %v, the maximum is %v", again, g.polString(), e, best)
			}
		}
	})
}

// train replaces the tables by trained ones, in the network and in the oracle.
func (g *gnet) train(c *Ctx, net *bbn.Network) bool {
	cells := 0
	for _, nd := range g.nodes {
		cells += len(nd.table)
	}
	ss := g.genSamples(c, min(200, 6*cells), 0)
	want, ok := g.trained(ss)
	if !ok {
		return false
	}
	tr := bbn.NewTrainer(net)
	for _, s := range ss {
		tr.AddSample(s.out, s.util)
	}
	if _, err := tr.UpdateNetwork(); err != nil {
		c.Fail("%v", err)
	}
	for i := range g.nodes {
		g.nodes[i].table = want[i]
	}
	return true
}

// singlePolicy solves policies and compares the one of decision d, entry by entry. With a
// tolerance, rows in which the best options are hard to tell apart are left out.
func singlePolicy(c *Ctx, g *gnet, net *bbn.Network, d int, step bool, tol float64) {
	// expected utility of each option for each combination of observed outcomes
	g.policies = map[int]*gpol{}
	cols := len(g.nodes[d].outcomes)
	obs := g.nodes[d].parents
	eu, pr := make([]float64, g.size(obs)*cols), make([]float64, g.size(obs)*cols)
	g.joint(nil, nil, func(a []int, p float64) {
		k := g.rowOf(obs, a)*cols + a[d]
		eu[k] += p * g.utility(a, -1)
		pr[k] += p
	})
	takePolicies(c, g, net, step)
	pol := g.policies[d]
	each(g.vvs(obs), func(a map[int]int, row int) {
		if pr[row*cols] == 0 {
			return
		}
		best, cnt := math.Inf(-1), 0
		for k := 0; k < cols; k++ {
			if eu[row*cols+k] > best {
				best, cnt = eu[row*cols+k], 0
			}
			if eu[row*cols+k] == best {
				cnt++
			}
		}
		if tol > 0 {
			for k := 0; k < cols; k++ {
				if cnt > 1 || eu[row*cols+k] != best && eu[row*cols+k] > best-tol {
					return
				}
			}
		}
		pa := make([]int, len(g.nodes))
		for i, x := range a {
			pa[i] = x
		}
		pr := g.rowOf(pol.given, pa)
		for k := 0; k < cols; k++ {
			want := 0.0
			if eu[row*cols+k] == best {
				want = 1 / float64(cnt)
			}
			if got := pol.table[pr*cols+k]; !near(got, want) {
				c.Fail("stepwise=%v: policy of %q for observations %v (node index: outcome) gives option %d probability %v, expected %v; expected utilities are %v, policy given %v: %v",
					step, g.nodes[d].name, a, k, got, want, eu[row*cols:(row+1)*cols], pol.given, pol.table)
			}
		}
	})
}

// meu is the maximum expected utility over all deterministic policies.
func (g *gnet) meu(limit int) (float64, bool) {
	decs := g.indices(ve.DecisionNode)
	type slot struct{ d, row int }
	slots := []slot{}
	n := 1
	for _, d := range decs {
		for r := 0; r < g.size(g.nodes[d].parents); r++ {
			slots = append(slots, slot{d, r})
			n *= len(g.nodes[d].outcomes)
			if n > limit {
				return 0, false
			}
		}
	}
	type asg struct {
		a []int
		w float64
	}
	as := []asg{}
	save := g.policies
	g.policies = map[int]*gpol{}
	g.joint(nil, nil, func(a []int, p float64) {
		if p != 0 {
			as = append(as, asg{slices.Clone(a), p * g.utility(a, -1)})
		}
	})
	g.policies = save
	if n*len(as) > 3000000 {
		return 0, false
	}
	pos := map[slot]int{}
	for i, s := range slots {
		pos[s] = i
	}
	// per assignment: the slots it uses and the option each must choose
	type need struct{ slot, opt int }
	needs := make([][]need, len(as))
	for i, x := range as {
		for _, d := range decs {
			needs[i] = append(needs[i], need{pos[slot{d, g.rowOf(g.nodes[d].parents, x.a)}], x.a[d]})
		}
	}
	choice := make([]int, len(slots))
	best := math.Inf(-1)
	for {
		s := 0.0
		for i, x := range as {
			ok := true
			for _, nd := range needs[i] {
				if choice[nd.slot] != nd.opt {
					ok = false
					break
				}
			}
			if ok {
				s += x.w
			}
		}
		best = math.Max(best, s)
		k := len(slots) - 1
		for k >= 0 {
			choice[k]++
			if choice[k] < len(g.nodes[slots[k].d].outcomes) {
				break
			}
			choice[k] = 0
			k--
		}
		if k < 0 {
			return best, true
		}
	}
}

func policyDirect(c *Ctx) {
	vs, pool := genVars(c, 1+c.Intn(4))
	sh := genShape(c, pool, 4, 3000)
	if len(sh) == 0 {
		return
	}
	data := make([]float64, size(sh))
	mode := c.Intn(8)
	for i := range data {
		switch mode {
		case 3:
			data[i] = -math.Ldexp(1+float64(c.Intn(3)), 1000)
		case 4:
			data[i] = 5 + math.Ldexp(float64(c.Intn(3)), -40)
		case 5:
			data[i] = math.Ldexp(float64(c.Intn(5)-2), -200)
		case 6:
			data[i] = math.Ldexp(float64(c.Intn(5)-2), 900)
		case 0:
			data[i] = float64(c.Intn(3))
		case 1:
			data[i] = -float64(c.Intn(3)) - 1
		case 2:
			data[i] = 0
		default:
			data[i] = c.NormFloat64()
		}
	}
	o := fac{sh, data}
	f := vs.CreateFactor(raw(sh), slices.Clone(data))
	s := snap("f", &f)
	for _, v := range sh {
		c.input = func() string { return fmt.Sprintf("Policy of %v for %v", o, v) }
		r := vs.Policy(&f, v.v)
		compare(c, "Policy", &r, fromFn(append(without(sh, v.id), v), func(a map[int]int) float64 {
			best, cnt := math.Inf(-1), 0
			for k := 0; k < v.n; k++ {
				x := o.at(with(a, v.id, k))
				if x > best {
					best, cnt = x, 0
				}
				if x == best {
					cnt++
				}
			}
			if o.at(a) == best {
				return 1 / float64(cnt)
			}
			return 0
		}))
		s.check(c, "Policy")
	}
	c.Case("")
}

func checkC10(c *Ctx) {
	c.Until(func(n int) {
		o := genOpts{chance: [2]int{1, 4}, decisions: [2]int{1, 3}, utils: [2]int{1, 3}, total: 30, maxJoint: 400, maxOut: 3, exact: true, noForget: true}
		g := genNet(c, o)
		if !g.relevant() {
			return
		}
		c.input = func() string { return "network " + g.String() }
		c.Case(g.String())
		net := g.build(c, c.Intn(2) == 0)
		takePolicies(c, g, net, c.Intn(2) == 0)
		all := g.indices(ve.ChanceNode, ve.DecisionNode)
		for k := 0; k < 4; k++ {
			ev := map[int]int{}
			for _, i := range sub(c, all, nil, c.Intn(6)) {
				ev[i] = c.Intn(len(g.nodes[i].outcomes))
			}
			q := sub(c, all, ev, c.Intn(4))
			for _, ign := range []bool{false, true} {
				checkQuery(c, g, net, ev, q, ign)
				checkUtility(c, g, net, ev, q, -1, ign)
				us := g.indices(ve.UtilityNode)
				checkUtility(c, g, net, ev, q, us[c.Intn(len(us))], ign)
			}
		}
	})
}

func checkC11(c *Ctx) {
	c.Until(func(n int) {
		o := genOpts{chance: [2]int{1, 4}, decisions: [2]int{0, 2}, utils: [2]int{1, 2}, total: 40, maxJoint: 300, maxOut: 3, exact: true, noForget: true}
		g := genNet(c, o)
		if !g.relevant() {
			return
		}
		vars, facs := g.defs(c, true)
		net, err := bbn.New("n", "i", vars, facs)
		if err != nil {
			c.Fail("%v", err)
		}
		hist := []string{}
		c.input = func() string { return fmt.Sprintf("network %v; history %v", g, hist) }
		c.Case(g.String())
		type state struct {
			vars []bbn.Variable
			facs []bbn.Factor
		}
		take := func() state {
			s := state{}
			for _, v := range net.Variables() {
				v.Outcomes = slices.Clone(v.Outcomes)
				if v.Factor != nil {
					f := *v.Factor
					f.Given, f.Table = slices.Clone(f.Given), slices.Clone(f.Table)
					s.facs = append(s.facs, f)
				}
				s.vars = append(s.vars, v)
			}
			return s
		}
		before := take()
		same := func() {
			now := take()
			for i := range before.vars {
				a, b := before.vars[i], now.vars[i]
				if a.Name != b.Name || a.NodeType != b.NodeType || !slices.Equal(a.Outcomes, b.Outcomes) || a.Factor != b.Factor || a.Position != b.Position || a.Color != b.Color {
					c.Fail("variable %d changed from %+v to %+v", i, a, b)
				}
			}
			for i := range before.facs {
				a, b := before.facs[i], now.facs[i]
				if a.For != b.For || !slices.Equal(a.Given, b.Given) || !eqBits(a.Table, b.Table) {
					c.Fail("table of %s changed from %+v to %+v", a.For, a, b)
				}
			}
		}
		if n%3 == 0 {
			defer facHistory(c)
		}
		snaps := []snapshot{}
		type kept struct {
			what string
			live []float64
			copy []float64
		}
		outs := []kept{}
		decs := g.indices(ve.DecisionNode)
		solved := false
		for k := 0; k < 8; k++ {
			all := g.indices(ve.ChanceNode, ve.DecisionNode)
			if len(decs) > 0 && (!solved || c.Intn(4) == 0) {
				step := c.Intn(2) == 0
				hist = append(hist, fmt.Sprintf("SolvePolicies(%v)", step))
				before := g.polString()
				old := g.policies
				p, err := net.SolvePolicies(step)
				if err != nil {
					c.Fail("%v", err)
				}
				for nm, f := range p {
					outs = append(outs, kept{"policy " + nm, f.Table, slices.Clone(f.Table)})
				}
				takePolicies(c, g, net, step)
				if solved && len(decs) == 1 {
					for d, p := range g.policies {
						if q := old[d]; q == nil || !samePolicy(g, d, p, q) {
							c.Fail("repeated SolvePolicies(%v) gave %s, before %s", step, g.polString(), before)
						}
					}
				}
				solved = true
			}
			ign := c.Intn(2) == 0
			ev := map[int]int{}
			for _, i := range sub(c, all, nil, c.Intn(5)) {
				ev[i] = c.Intn(len(g.nodes[i].outcomes))
			}
			q := sub(c, all, ev, c.Intn(5))
			evn, qn := g.evNames(ev), g.names(q)
			ev2, qn2 := maps.Clone(evn), slices.Clone(qn)
			hist = append(hist, fmt.Sprintf("query %v %q %v", evn, qn, ign))
			// question with its oracle: must hold after any history
			checkQuery(c, g, net, ev, q, ign)
			res, f, err := net.SolveQuery(evn, qn, ign)
			if err != nil {
				c.Fail("%v", err)
			}
			snaps = append(snaps, snap(fmt.Sprintf("factor of step %d", k), f))
			for nm, r := range res {
				outs = append(outs, kept{"result " + nm, r, slices.Clone(r)})
			}
			if len(q) > 0 {
				m := net.Marginal(f, qn[0])
				snaps = append(snaps, snap("marginal", &m))
				nf := net.Normalize(&m)
				snaps = append(snaps, snap("normalised", &nf))
				r := net.Rearrange(f, qn)
				snaps = append(snaps, snap("rearranged", &r))
			}
			hist = append(hist, "utility")
			checkUtility(c, g, net, ev, q, -1, ign)
			u, err := net.SolveUtility(evn, qn, "", ign)
			if err != nil {
				c.Fail("%v", err)
			}
			snaps = append(snaps, snap("utility", u))
			nu := net.NormalizeUtility(u, f)
			snaps = append(snaps, snap("conditional utility", &nu))
			if !maps.Equal(evn, ev2) || !slices.Equal(qn, qn2) {
				c.Fail("arguments changed: evidence %v to %v, query %v to %v", ev2, evn, qn2, qn)
			}
			for _, s := range snaps {
				s.check(c, "a later operation")
			}
			for _, o := range outs {
				if !eqBits(o.live, o.copy) {
					c.Fail("%s changed from %v to %v", o.what, o.copy, o.live)
				}
			}
			same()
		}
	})
}

func samePolicy(g *gnet, d int, p, q *gpol) bool {
	ok := true
	cols := len(g.nodes[d].outcomes)
	each(g.vvs(g.nodes[d].parents), func(a map[int]int, row int) {
		pa := make([]int, len(g.nodes))
		for i, x := range a {
			pa[i] = x
		}
		for k := 0; k < cols; k++ {
			if !near(p.table[g.rowOf(p.given, pa)*cols+k], q.table[g.rowOf(q.given, pa)*cols+k]) {
				ok = false
			}
		}
	})
	return ok
}

func init() {
	register("C01", "random acyclic networks (1-11 chance variables, 1-12 outcomes, random variable and table order, zero weights, optional utilities, total-utility node and solved decisions), random evidence of positive probability, 0-3 query variables; brute-force joint as oracle; non-trivial: every network", checkC01)
	register("C03", "random networks with 1-4 utilities (half with a total-utility node), random evidence and query; brute-force expected utility as oracle; non-trivial: every network", checkC03)
	register("C04", "random networks with one decision (policy compared entry by entry) or 2-3 no-forgetting decisions (expected utility compared with the best of all deterministic policies), dyadic numbers so that ties are exact; ve.Policy on random tables; non-trivial: every network", checkC04)
	register("C10", "random networks with 1-3 solved decisions, evidence on chance and decision variables, with and without ignored policies; brute force with policy tables as oracle; non-trivial: every network", checkC10)
	register("C11", "random networks, histories of 8 rounds of policy/query/utility/marginal/rearrange operations; every table, argument and returned factor compared bit by bit after each round and answers compared with the oracle; non-trivial: every network", checkC11)
}

func (g *gnet) buildFrom(c *Ctx, vars []bbn.Variable, facs []bbn.Factor) *bbn.Network {
	net, err := bbn.New("net", "", vars, facs)
	if err != nil {
		c.Fail("building the network failed: %v", err)
	}
	return net
}

func posOf(vars []bbn.Variable) [][2]int {
	r := [][2]int{}
	for _, v := range vars {
		r = append(r, v.Position)
	}
	return r
}

// maxUtility is the largest magnitude of a utility value or weighted sum of them.
func (g *gnet) maxUtility() float64 {
	m, w, k := 0.0, 1.0, 0.0
	for _, n := range g.nodes {
		for _, x := range n.table {
			if n.total {
				w = math.Max(w, math.Abs(x))
			} else if n.tp == ve.UtilityNode {
				m = math.Max(m, math.Abs(x))
			}
		}
		if n.tp == ve.UtilityNode {
			k++
		}
	}
	return m * w * math.Max(k, 1)
}

// facHistory applies a random sequence of factor operations to a growing set of
// factors; none may change an operand or any earlier factor.
func facHistory(c *Ctx) {
	vs, pool := genVars(c, 1+c.Intn(4))
	fs, snaps := []*ve.Factor{}, []snapshot{}
	hist := []string{}
	c.input = func() string { return fmt.Sprintf("variables %v; operations %v", pool, hist) }
	add := func(f ve.Factor) {
		if len(f.Data()) > 500 {
			return
		}
		fs = append(fs, &f)
		snaps = append(snaps, snap(fmt.Sprint(len(fs)-1), &f))
	}
	for i := 0; i < 3; i++ {
		f, o := genFactor(c, vs, genShape(c, pool, 3, 200))
		hist = append(hist, fmt.Sprintf("%d = %v", i, o))
		add(f)
	}
	for k := 0; k < 12; k++ {
		i := c.Intn(len(fs))
		f := fs[i]
		vars := slices.Clone(f.Variables())
		op := c.Intn(11)
		if len(vars) == 0 && (op < 5 || op == 9) {
			op = 5 + c.Intn(4)
		}
		var v ve.Variable
		var o vv
		if len(vars) > 0 {
			v = vars[c.Intn(len(vars))]
			o = pool[slices.IndexFunc(pool, func(x vv) bool { return x.id == v.Id() })]
		}
		hist = append(hist, fmt.Sprintf("%d = operation %d on %d, %v", len(fs), op, i, o))
		switch op {
		case 0:
			add(vs.Restrict(f, v, c.Intn(o.n)))
		case 1:
			add(vs.SumOut(f, v))
		case 2:
			if slices.ContainsFunc(f.Data(), func(x float64) bool { return math.IsNaN(x) || math.IsInf(x, 0) }) {
				continue
			}
			add(vs.Policy(f, v))
		case 3:
			add(vs.NormalizeFor(f, v))
		case 4:
			add(vs.Marginal(f, v))
		case 5, 6:
			list := []*ve.Factor{f}
			for c.Intn(2) == 0 {
				list = append(list, fs[c.Intn(len(fs))])
			}
			u := map[int]bool{}
			n := 1
			for _, x := range list {
				for _, y := range x.Variables() {
					if !u[y.Id()] {
						u[y.Id()] = true
						n *= pool[slices.IndexFunc(pool, func(x vv) bool { return x.id == y.Id() })].n
					}
				}
			}
			if n > 500 {
				continue
			}
			keep := slices.Clone(list)
			if op == 5 {
				add(vs.Product(list...))
			} else {
				add(vs.Sum(list...))
			}
			if !slices.Equal(keep, list) {
				c.Fail("the list of operands was changed")
			}
		case 7:
			add(vs.Normalize(f))
		case 8:
			add(vs.Invert(f))
		case 9:
			c.Shuffle(len(vars), func(i, j int) { vars[i], vars[j] = vars[j], vars[i] })
			keep := slices.Clone(vars)
			add(vs.Rearrange(f, vars))
			if !slices.Equal(keep, vars) {
				c.Fail("the requested order was changed")
			}
		case 10: // solving over some of the factors
			list, in := []ve.Factor{}, map[int]ve.Variable{}
			n := 1
			for _, j := range c.Perm(len(fs))[:1+c.Intn(min(3, len(fs)))] {
				list = append(list, *fs[j])
				for _, y := range fs[j].Variables() {
					if _, ok := in[y.Id()]; !ok {
						in[y.Id()] = y
						n *= pool[slices.IndexFunc(pool, func(x vv) bool { return x.id == y.Id() })].n
					}
				}
			}
			if n > 500 || len(in) < len(pool) {
				continue
			}
			if slices.ContainsFunc(pool, func(x vv) bool { return x.tp != ve.ChanceNode }) {
				continue
			}
			ev, q := []ve.Evidence{}, []ve.Variable{}
			for _, x := range pool {
				switch c.Intn(3) {
				case 0:
					ev = append(ev, ve.Evidence{Variable: x.v, Value: c.Intn(x.n)})
				case 1:
					q = append(q, x.v)
				}
			}
			ev2, q2 := slices.Clone(ev), slices.Clone(q)
			r := ve.New(vs, list, nil, nil).SolveQuery(ev, q)
			if !slices.Equal(ev, ev2) || !slices.Equal(q, q2) {
				c.Fail("the evidence or query was changed")
			}
			add(*r)
		}
		for _, s := range snaps {
			s.check(c, "the last operation")
		}
	}
}
