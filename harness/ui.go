package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/internal/tui"
	"github.com/mlange-42/bbn/ve"
)

// report is the oracle for tui.Solve.
func (g *gnet) report(ev map[int]int, ignore bool) map[string][]float64 {
	skip := skipOf(g, ev, ignore)
	res := map[string][]float64{}
	tot, totU := 0.0, 0.0
	post := map[int][]float64{}
	us := map[int]float64{}
	for i, n := range g.nodes {
		if n.tp != ve.UtilityNode {
			post[i] = make([]float64, len(n.outcomes))
		}
	}
	g.joint(ev, skip, func(a []int, p float64) {
		if p == 0 {
			return
		}
		tot += p
		totU += p * g.utility(a, -1)
		for i := range post {
			post[i][a[i]] += p
		}
		for _, u := range g.indices(ve.UtilityNode) {
			us[u] += p * g.utility(a, u)
		}
	})
	for i, n := range g.nodes {
		switch {
		case n.total:
			r := []float64{}
			for k, p := range n.parents {
				r = append(r, us[p]/tot*n.table[k])
			}
			res[n.name] = append(r, totU/tot)
		case n.tp == ve.UtilityNode:
			res[n.name] = []float64{us[i] / tot, totU / tot}
		default:
			if o, ok := ev[i]; ok {
				r := make([]float64, len(n.outcomes))
				r[o] = 1
				res[n.name] = r
				continue
			}
			r := post[i]
			for k := range r {
				r[k] /= tot
			}
			res[n.name] = r
		}
	}
	return res
}

func checkC18(c *Ctx) {
	cli := os.Getenv("VERIF_BBN_CLI")
	c.Until(func(n int) {
		o := genOpts{chance: [2]int{1, 5}, decisions: [2]int{0, 2}, utils: [2]int{0, 4}, total: 50, maxJoint: 300, maxOut: 3, exact: true, noForget: true}
		if c.Intn(3) == 0 { // rare evidence
			o.decisions, o.exact, o.chance = [2]int{0, 0}, false, [2]int{1, 6}
		}
		g := genNet(c, o)
		decs := g.indices(ve.DecisionNode)
		if !g.relevant() || len(decs) > 0 && len(g.indices(ve.UtilityNode)) == 0 {
			return
		}
		c.input = func() string { return "network " + g.String() }
		net := g.build(c, c.Intn(2) == 0)
		takePolicies(c, g, net, true)
		all := g.indices(ve.ChanceNode, ve.DecisionNode)
		nodes := []tui.Node{}
		for _, v := range net.Variables() {
			nodes = append(nodes, tui.NewNode(v))
		}
		for k := 0; k < 3; k++ {
			ign := c.Intn(2) == 0
			ev := map[int]int{}
			for _, i := range sub(c, all, nil, c.Intn(6+5*c.Intn(2))) {
				ev[i] = c.Intn(len(g.nodes[i].outcomes))
			}
			skip := skipOf(g, ev, ign)
			tot := 0.0
			g.joint(ev, skip, func(a []int, p float64) { tot += p })
			if tot == 0 {
				continue
			}
			evn := g.evNames(ev)
			c.input = func() string {
				return fmt.Sprintf("network %v policies %v; Solve(%v, ignorePolicies=%v)", g, g.polString(), evn, ign)
			}
			c.Case(c.input())
			res, err := tui.Solve(net, evn, nodes, ign)
			if err != nil {
				c.Fail("%v", err)
			}
			compareReport(c, g, res, g.report(ev, ign), 1e-9)
			if len(evn) != len(ev) {
				c.Fail("Solve changed the evidence to %v", evn)
			}
		}
		parseEv(c)
		if cli != "" && n%40 == 0 {
			cliReport(c, cli, g, net)
		}
	})
}

func compareReport(c *Ctx, g *gnet, got, want map[string][]float64, tol float64) {
	absTol = 1e-12 + 1e-11*g.maxUtility()
	defer func() { absTol = 1e-9 }()
	if len(got) != len(want) {
		c.Fail("report has %d entries, expected %d", len(got), len(want))
	}
	for nm, w := range want {
		r, ok := got[nm]
		if !ok || len(r) != len(w) {
			c.Fail("report for %q is %v, expected %v", nm, r, w)
		}
		for k := range w {
			if !near(r[k], w[k]) && !(tol > 1e-6 && math.Abs(r[k]-w[k]) <= tol) {
				c.Fail("report for %q is %v, expected %v", nm, r, w)
			}
		}
	}
}

func parseEv(c *Ctx) {
	parts := []string{"a", "b=c", " x ", "", "ü", "Rain", "0", "a,b"}
	n := c.Intn(4)
	in := []string{}
	want := map[string]string{}
	bad := false
	for i := 0; i < n; i++ {
		k, v := parts[c.Intn(len(parts))], parts[c.Intn(len(parts))]
		s := k + "=" + v
		if c.Intn(6) == 0 {
			s = k
		}
		if strings.Count(s, "=") != 1 {
			bad = true
		} else {
			p := strings.Index(s, "=")
			want[s[:p]] = s[p+1:]
		}
		in = append(in, s)
	}
	c.input = func() string { return fmt.Sprintf("ParseEvidence(%q)", in) }
	got, err := tui.ParseEvidence(slices.Clone(in))
	if bad {
		if err == nil {
			c.Fail("malformed evidence is accepted: %v", got)
		}
		return
	}
	if err != nil {
		c.Fail("%v", err)
	}
	if len(got) != len(want) {
		c.Fail("result is %v, expected %v", got, want)
	}
	for k, v := range want {
		if got[k] != v {
			c.Fail("result is %v, expected %v", got, want)
		}
	}
}

// cliReport runs the inference command and compares the printed numbers.
func cliReport(c *Ctx, cli string, g *gnet, net *bbn.Network) {
	if g.maxUtility() > 1e6 {
		return
	}
	for i := range g.nodes { // the flag is split at commas
		if strings.ContainsAny(g.nodes[i].name, ",=\"") {
			return
		}
	}
	yml, err := bbn.ToYAML(net)
	if err != nil {
		c.Fail("%v", err)
	}
	dir := c.work
	if dir == "" {
		dir = os.TempDir()
	}
	file := filepath.Join(dir, fmt.Sprintf("cli-%d.yml", os.Getpid()))
	defer os.Remove(file)
	if err := os.WriteFile(file, yml, 0o644); err != nil {
		panic(err)
	}
	all := g.indices(ve.ChanceNode, ve.DecisionNode)
	ev := g.genEvidence(c, nil, 3, all)
	args := []string{"inference", file}
	if len(ev) > 0 {
		s := []string{}
		for i, o := range ev {
			s = append(s, g.nodes[i].name+"="+g.nodes[i].outcomes[o])
		}
		args = append(args, "-e", strings.Join(s, ","))
	}
	c.input = func() string { return fmt.Sprintf("bbn %q on\n%s", args, yml) }
	out, err := exec.Command(cli, args...).CombinedOutput()
	if err != nil {
		c.Fail("command failed: %v: %s", err, out)
	}
	lines := strings.Split(strings.TrimRight(string(out), "\n"), "\n")
	if len(lines) != 2*len(g.nodes) {
		c.Fail("expected two lines per node, got\n%s", out)
	}
	want := g.report(ev, false)
	for i, n := range g.nodes {
		l := lines[2*i+1]
		l = strings.TrimLeft(l, " ")
		if !strings.HasPrefix(l, n.name) {
			c.Fail("line %q is not for node %q", l, n.name)
		}
		f := strings.Fields(l[len(n.name):])
		w := want[n.name]
		_, isEv := ev[i]
		if isEv != (len(f) > 0 && f[len(f)-1] == "+") {
			c.Fail("evidence mark of %q is wrong in %q", n.name, l)
		}
		if isEv {
			f = f[:len(f)-1]
		}
		if len(f) != len(w) {
			c.Fail("line %q has %d numbers, expected %v", l, len(f), w)
		}
		for k := range w {
			x, err := strconv.ParseFloat(strings.TrimSuffix(f[k], "%"), 64)
			ww := w[k]
			if strings.HasSuffix(f[k], "%") {
				ww *= 100
			} else if n.tp != ve.UtilityNode {
				c.Fail("line %q is not in percent", l)
			}
			if err != nil || math.Abs(x-ww) > 0.00051 {
				c.Fail("line %q shows %s, expected %v", l, f[k], ww)
			}
		}
		head := strings.Fields(lines[2*i])
		hw := strings.Fields(strings.Join(n.outcomes, " "))
		if !slices.Equal(head, hw) {
			c.Fail("header %q of node %q, expected %q", head, n.name, n.outcomes)
		}
	}
	if c.Intn(3) == 0 {
		out, err := exec.Command(cli, "inference", file, "-e", "no-equals-sign").CombinedOutput()
		if err == nil && !bytes.Contains(bytes.ToLower(out), []byte("error")) {
			c.Fail("malformed evidence is accepted by the command: %s", out)
		}
	}
}

func checkC20(c *Ctx) {
	c.Until(func(n int) {
		g := genNet(c, genOpts{chance: [2]int{1, 5}, decisions: [2]int{0, 1}, utils: [2]int{0, 2}, total: 0, maxJoint: 500, maxOut: 4})
		if n%100 == 30 {
			g = bigTable(c, 11, 4)
		}
		net := g.build(c, c.Intn(2) == 0)
		nodes := []tui.Node{}
		byName := map[string]int{}
		for i, v := range net.Variables() {
			nodes = append(nodes, tui.NewNode(v))
			byName[v.Name] = i
		}
		if len(g.indices(ve.DecisionNode)) == 1 && g.relevant() && len(g.indices(ve.UtilityNode)) > 0 && c.Intn(2) == 0 {
			pol, err := net.SolvePolicies(true)
			if err != nil {
				c.Fail("%v", err)
			}
			for nm, f := range pol {
				i := byName[nm]
				nodes[i].Node().Factor = &f
				g.nodes[i].table = slices.Clone(f.Table)
				g.nodes[i].parents = nil
				for _, x := range f.Given {
					g.nodes[i].parents = append(g.nodes[i].parents, byName[x])
				}
			}
		}
		for i, nd := range g.nodes {
			t := tui.NewTable(nodes, i, byName)
			c.input = func() string { return fmt.Sprintf("table view of node %d of network %v", i, g) }
			c.Case(c.input())
			head := append(g.names(nd.parents), nd.outcomes...)
			cols := len(nd.outcomes)
			rows := len(nd.table) / cols
			if t.GetColumnCount() != len(head) || t.GetRowCount() != rows+1 {
				c.Fail("view is %d x %d, expected %d x %d", t.GetRowCount(), t.GetColumnCount(), rows+1, len(head))
			}
			for k, h := range head {
				if s := t.GetCell(0, k).Text; s != h {
					c.Fail("header %d is %q, expected %q", k, s, h)
				}
			}
			for r := 0; r < rows; r++ {
				x := r
				for k := len(nd.parents) - 1; k >= 0; k-- {
					p := g.nodes[nd.parents[k]]
					want := p.outcomes[x%len(p.outcomes)]
					x /= len(p.outcomes)
					if s := t.GetCell(r+1, k).Text; s != want {
						c.Fail("row %d, parent column %d shows %q, expected %q", r, k, s, want)
					}
				}
				sum := 0.0
				for k := 0; k < cols; k++ {
					sum += nd.table[r*cols+k]
				}
				for k := 0; k < cols; k++ {
					s := t.GetCell(r+1, len(nd.parents)+k).Text
					want := nd.table[r*cols+k]
					if nd.tp != ve.UtilityNode {
						if !strings.HasSuffix(s, "%") {
							c.Fail("row %d, value column %d shows %q, expected a percentage", r, k, s)
						}
						want = 100 * want / sum
					} else if strings.HasSuffix(s, "%") {
						c.Fail("row %d, value column %d shows %q, expected a plain number", r, k, s)
					}
					got, err := strconv.ParseFloat(strings.TrimSpace(strings.TrimSuffix(strings.TrimSpace(s), "%")), 64)
					if math.IsNaN(want) {
						continue
					}
					if err != nil || math.Abs(got-want) > 0.00051+1e-12*math.Abs(want) {
						c.Fail("row %d, value column %d shows %q, expected %v", r, k, s, want)
					}
				}
			}
		}
	})
}

func checkC21(c *Ctx) {
	c.Until(func(n int) {
		mk := func() tui.Bounds {
			return tui.NewBounds(c.Intn(21)-10, c.Intn(21)-10, c.Intn(8), c.Intn(8))
		}
		a, b := mk(), mk()
		c.input = func() string { return fmt.Sprintf("boxes %+v and %+v", a, b) }
		c.Case(c.input())
		for x := -13; x < 20; x++ {
			for y := -13; y < 20; y++ {
				want := x >= a.X && x < a.X+a.W && y >= a.Y && y < a.Y+a.H
				if a.Contains(x, y) != want {
					c.Fail("Contains(%d, %d) = %v", x, y, !want)
				}
			}
		}
		e, b0 := a, b
		e.Extend(&b)
		x0, y0 := min(a.X, b.X), min(a.Y, b.Y)
		want := tui.Bounds{X: x0, Y: y0, W: max(a.X+a.W, b.X+b.W) - x0, H: max(a.Y+a.H, b.Y+b.H) - y0}
		if e != want || b != b0 {
			c.Fail("extending gives %+v (argument %+v), expected %+v", e, b, want)
		}
		if n%4 == 0 {
			nodeBox(c)
		}
	})
}

func nodeBox(c *Ctx) {
	long := []string{"x", "yes", "a rather long outcome name that is cut", "ümläutüüüüüüüüüüü", "1234567890123456", "12345678901234567"}
	names := []string{"A", "A name", "A very long node name that goes on and on and on and on and on, beyond the limit", "üü", "exactly-sixteen-c"}
	v := bbn.Variable{Name: names[c.Intn(len(names))], NodeType: ve.NodeType(c.Intn(3)), Position: [2]int{c.Intn(40), c.Intn(40)}, Color: colors[c.Intn(len(colors))]}
	no := 1 + c.Intn(14)
	if c.Intn(25) == 0 {
		no = 20 + c.Intn(60)
	}
	for i := 0; i < no; i++ {
		v.Outcomes = append(v.Outcomes, fmt.Sprintf("%s%d", long[c.Intn(len(long))], i))
	}
	if c.Intn(4) == 0 {
		for i := range v.Outcomes {
			v.Outcomes[i] = fmt.Sprint(i)
		}
	}
	c.input = func() string { return fmt.Sprintf("node %+v", v) }
	nd := tui.NewNode(v)
	b := nd.Bounds()
	if b.X != v.Position[0] || b.Y != v.Position[1] {
		c.Fail("box at %d, %d", b.X, b.Y)
	}
	if b.H < len(v.Outcomes)+3 {
		c.Fail("box height %d cannot hold a title, %d outcome lines and borders", b.H, len(v.Outcomes))
	}
	for x := b.X - 2; x < b.X+b.W+2; x++ {
		for y := b.Y - 2; y < b.Y+b.H+3; y++ {
			want, wok := -1, false
			if b.Contains(x, y) && y-b.Y-2 >= 0 && y-b.Y-2 < len(v.Outcomes) {
				want, wok = y-b.Y-2, true
			}
			got, ok := nd.SelectedOutcome(x, y)
			if ok != wok || ok && got != want {
				c.Fail("click at %d, %d (box %+v) selects %d, %v, expected %d, %v", x, y, *b, got, ok, want, wok)
			}
		}
	}
	if c.Intn(2) == 0 { // the box can be moved
		b.X += 3
		b.Y += 2
		if o, ok := nd.SelectedOutcome(b.X+1, b.Y+2); !ok || o != 0 {
			c.Fail("after moving the box, a click on the first outcome selects %d, %v", o, ok)
		}
	}
	for round := 0; round < 4; round++ {
		var probs []float64
		if v.NodeType == ve.UtilityNode {
			for range v.Outcomes {
				probs = append(probs, c.NormFloat64()*math.Pow(10, float64(c.Intn(7))))
			}
			probs = append(probs, c.NormFloat64()*100)
			if c.Intn(5) == 0 {
				probs[0] = math.NaN()
			}
		} else {
			s := 0.0
			for range v.Outcomes {
				p := c.Float64()
				if c.Intn(3) == 0 {
					p = 0
				}
				probs = append(probs, p)
				s += p
			}
			for i := range probs {
				if s == 0 {
					probs[i] = math.NaN()
				} else {
					probs[i] /= s
				}
			}
			if c.Intn(4) == 0 {
				for i := range probs {
					probs[i] = 0
				}
				probs[c.Intn(len(probs))] = 1
			}
		}
		sel, st := c.Intn(2) == 0, c.Intn(len(v.Outcomes))
		ev := c.Intn(2) == 0
		c.input = func() string { return fmt.Sprintf("node %+v, Render(%v, %v, %d, %v)", v, probs, sel, st, ev) }
		runes, cols := nd.Render(probs, sel, st, ev)
		if len(runes) != b.H || len(cols) != b.H {
			c.Fail("%d lines of text and %d of colours for a box of height %d", len(runes), len(cols), b.H)
		}
		for y := range runes {
			if len(runes[y]) != b.W || len(cols[y]) != b.W {
				c.Fail("line %d has %d cells and %d colours for a box of width %d", y, len(runes[y]), len(cols[y]), b.W)
			}
			for x, r := range runes[y] {
				if r == 0 {
					c.Fail("cell %d, %d is not drawn", x, y)
				}
			}
		}
		for i, o := range v.Outcomes {
			lbl := []rune(o)
			line := string(runes[i+2][2:])
			n := min(len(lbl), 4)
			if !strings.HasPrefix(line, string(lbl[:n])) {
				c.Fail("line of outcome %d is %q", i, string(runes[i+2]))
			}
			if math.IsNaN(probs[i]) {
				continue
			}
			var num string
			if v.NodeType == ve.UtilityNode {
				num = fmt.Sprintf("%.3f", probs[i])
			} else {
				num = fmt.Sprintf("%.3f", probs[i]*100)
			}
			if utf8.RuneCountInString(num) <= 10 && !strings.Contains(string(runes[i+2]), num) {
				c.Fail("line of outcome %d is %q, expected to show %s", i, string(runes[i+2]), num)
			}
		}
	}
}

func init() {
	register("C18", "random networks with 0-2 solved decisions, 0-3 utilities and optional total-utility node, random evidence and policy mode through tui.Solve; the inference command on some of them; random evidence strings; brute force as oracle; non-trivial: every (network, evidence, mode)", checkC18)
	register("C20", "random networks, every node, every cell of the table view, solved policies shown for some decisions; non-trivial: every table", checkC20)
	register("C21", "random box pairs with every cell around them, random nodes with every click around them and random renderings; non-trivial: every box pair", checkC21)
}
