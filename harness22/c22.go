package main

import (
	"fmt"
	"maps"
	"os"
	"path/filepath"

	"github.com/gdamore/tcell/v2"
	"github.com/mlange-42/bbn/internal/tui"
	"github.com/mlange-42/bbn/ve"
)

func checkC22(c *Ctx) {
	dir := c.work
	if dir == "" {
		dir = os.TempDir()
	}
	file := filepath.Join(dir, fmt.Sprintf("tui-%d.yml", os.Getpid()))
	defer os.Remove(filepath.Join(dir, fmt.Sprintf("tui-%d-save.yml", os.Getpid())))
	c.Until(func(n int) {
		g := genNet(c, genOpts{chance: [2]int{1, 4}, decisions: [2]int{0, 1}, utils: [2]int{0, 2}, total: 30, maxJoint: 150, maxOut: 4, exact: true, noForget: true})
		if !g.relevant() || len(g.indices(ve.DecisionNode)) > 0 && len(g.indices(ve.UtilityNode)) == 0 {
			return
		}
		vars, facs := g.defs(c, false)
		x := 0
		for i := range vars {
			vars[i].Position = [2]int{x + c.Intn(4), c.Intn(12)}
			x += []int{0, 10, 35, 60}[c.Intn(4)]
		}
		net := g.buildFrom(c, vars, facs)
		hist := []string{}
		start := map[string]string{}
		all := g.indices(ve.ChanceNode, ve.DecisionNode)
		if c.Intn(2) == 0 {
			start = g.evNames(g.genEvidence(c, nil, 2, all))
		}
		ev0 := maps.Clone(start)
		c.input = func() string { return fmt.Sprintf("network %v at %v; initial evidence %v; input %v", g, posOf(vars), ev0, hist) }
		app, err := tui.VerifNew(net, start, file)
		if err != nil {
			c.Fail("%v", err)
		}
		c.Case(g.String())
		for k := 0; k < 40; k++ {
			before := maps.Clone(app.Evidence())
			sn, ss := app.Selected()
			front := app.Front()
			expect := before // evidence expected afterwards
			toggle := func(node, st int) {
				expect = maps.Clone(before)
				nd := g.nodes[node]
				if nd.tp == ve.UtilityNode {
					return
				}
				if v, ok := before[nd.name]; ok && v == nd.outcomes[st] {
					delete(expect, nd.name)
				} else {
					expect[nd.name] = nd.outcomes[st]
				}
			}
			wantN, wantS := -1, -1
			switch op := c.Intn(12); {
			case op <= 2: // click around a node
				nd := app.Nodes()[c.Intn(len(g.nodes))]
				b := nd.Bounds()
				cx, cy := b.X+c.Intn(b.W+2)-1, b.Y+c.Intn(b.H+2)-1
				right := c.Intn(4) == 0
				hist = append(hist, fmt.Sprintf("click(%d,%d,right=%v)", cx, cy, right))
				if front == "Graph" {
					for i, m := range app.Nodes() {
						if m.Bounds().Contains(cx, cy) {
							wantN = i
							line := cy - m.Bounds().Y - 2
							if !right && line >= 0 && line < len(g.nodes[i].outcomes) {
								wantS = line
								toggle(i, line)
							}
							break
						}
					}
				}
				app.Click(cx, cy, right)
			case op == 3:
				hist = append(hist, "tab")
				app.Key(tcell.KeyTAB, '\t')
				if front == "Graph" {
					wantN, wantS = (sn+1)%len(g.nodes), 0
				}
			case op == 4:
				hist = append(hist, "backtab")
				app.Key(tcell.KeyBacktab, 0)
				if front == "Graph" {
					wantN, wantS = (sn+len(g.nodes)-1)%len(g.nodes), 0
				}
			case op == 5:
				hist = append(hist, "space")
				app.Key(tcell.KeyRune, ' ')
				if front == "Graph" {
					wantN, wantS = sn, (ss+1)%len(g.nodes[sn].outcomes)
				}
			case op == 6:
				r := []rune("0123456789٣")[c.Intn(11)]
				hist = append(hist, fmt.Sprintf("digit %q", r))
				app.Key(tcell.KeyRune, r)
				if front == "Graph" {
					wantN = sn
					if d := int(r - '1'); d >= 0 && d < len(g.nodes[sn].outcomes) && d < 9 {
						wantS = d
					} else {
						wantS = ss
					}
				}
			case op <= 8:
				hist = append(hist, "enter")
				if front == "Graph" {
					toggle(sn, ss)
					wantN, wantS = sn, ss
				}
				app.Key(tcell.KeyEnter, '\r')
			case op == 9:
				r := []rune("wasd")[c.Intn(4)]
				hist = append(hist, string(r))
				app.Key(tcell.KeyRune, r)
			case op == 10:
				r := []rune("htip")[c.Intn(4)]
				hist = append(hist, string(r))
				app.Key(tcell.KeyRune, r)
			default:
				if front != "Graph" {
					hist = append(hist, "esc")
					app.Key(tcell.KeyEsc, 0)
				} else if c.Intn(6) == 0 {
					hist = append(hist, "ctrl-s")
					app.Key(tcell.KeyCtrlS, 0)
				} else {
					r := []rune("xyz!éW")[c.Intn(6)]
					hist = append(hist, string(r))
					app.Key(tcell.KeyRune, r)
				}
			}
			n2, s2 := app.Selected()
			if n2 < 0 || n2 >= len(g.nodes) {
				c.Fail("selected node is %d of %d", n2, len(g.nodes))
			}
			if s2 < 0 || s2 >= len(g.nodes[n2].outcomes) {
				c.Fail("selected outcome is %d of %d (node %d)", s2, len(g.nodes[n2].outcomes), n2)
			}
			if wantN >= 0 && n2 != wantN || wantS >= 0 && s2 != wantS {
				c.Fail("selected node %d outcome %d, expected %d %d", n2, s2, wantN, wantS)
			}
			ev := app.Evidence()
			if !maps.Equal(ev, expect) {
				c.Fail("evidence is %v, expected %v (before: %v)", ev, expect, before)
			}
			idx := map[int]int{}
			for nm, o := range ev {
				ok := false
				for i, nd := range g.nodes {
					for j, x := range nd.outcomes {
						if nd.name == nm && x == o && nd.tp != ve.UtilityNode {
							ok = true
							idx[i] = j
						}
					}
				}
				if !ok {
					c.Fail("evidence %q=%q does not exist", nm, o)
				}
			}
			if k%10 == 9 && len(g.indices(ve.DecisionNode)) == 0 {
				tot := 0.0
				g.joint(idx, nil, func(a []int, p float64) { tot += p })
				if tot > 0 {
					compareReport(c, g, app.Marginals(), g.report(idx, app.IgnorePolicies()), 1e-9)
				}
			}
		}
	})
}

func init() {
	register("C22", "random networks laid out with overlaps, random initial evidence, 40 random keyboard and mouse events each; selection and evidence compared with the oracle after every event; non-trivial: every network", checkC22)
}
