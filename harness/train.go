package main

import (
	"bytes"
	"encoding/csv"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/internal/tui"
	"github.com/mlange-42/bbn/ve"
)

type gsample struct {
	out  []int
	util []float64
}

// trained computes the tables that training must produce; ok is false when a row got no sample.
func (g *gnet) trained(samples []gsample) (tables [][]float64, ok bool) {
	ok = true
	for i, n := range g.nodes {
		if n.tp == ve.DecisionNode {
			tables = append(tables, n.table)
			continue
		}
		cols := len(n.outcomes)
		rows := g.size(n.parents)
		t := make([]float64, rows*cols)
		cnt := make([]int, rows)
		for _, s := range samples {
			miss := false
			for _, p := range n.parents {
				miss = miss || s.out[p] < 0
			}
			if n.tp == ve.UtilityNode {
				miss = miss || math.IsNaN(s.util[i])
			} else {
				miss = miss || s.out[i] < 0
			}
			if miss {
				continue
			}
			r := g.rowOf(n.parents, s.out)
			cnt[r]++
			if n.tp == ve.UtilityNode {
				t[r*cols] += s.util[i]
			} else {
				t[r*cols+s.out[i]]++
			}
		}
		for r := range cnt {
			if cnt[r] == 0 {
				ok = false
				continue
			}
			for k := 0; k < cols; k++ {
				t[r*cols+k] /= float64(cnt[r])
			}
		}
		tables = append(tables, t)
	}
	return tables, ok
}

func genTrainNet(c *Ctx) *gnet {
	return genNet(c, genOpts{chance: [2]int{1, 4}, decisions: [2]int{0, 1}, utils: [2]int{0, 2}, maxJoint: 60, maxOut: 3})
}

// bigTable is a network with one chance node that has many parents.
func bigTable(c *Ctx, parents, maxOut int) *gnet {
	g := &gnet{total: -1, policies: map[int]*gpol{}}
	n := gnode{name: "child", tp: ve.ChanceNode, outcomes: genOutcomes(c, 1+c.Intn(maxOut))}
	if c.Intn(3) == 0 {
		n.tp, n.outcomes = ve.UtilityNode, genOutcomes(c, 1)
	}
	at := c.Intn(parents + 1)
	for i := 0; i <= parents; i++ {
		if i == at {
			g.nodes = append(g.nodes, n)
			continue
		}
		out := 2
		if c.Intn(5) == 0 {
			out = 1 + c.Intn(3)
		}
		m := gnode{name: fmt.Sprintf("p%d", i), tp: ve.ChanceNode, outcomes: genOutcomes(c, out)}
		m.table = genProbRow(c, out, false, true)
		g.nodes = append(g.nodes, m)
	}
	ps := []int{}
	for i := range g.nodes {
		if i != at {
			ps = append(ps, i)
		}
	}
	c.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
	ch := &g.nodes[at]
	ch.parents = ps
	for r := 0; r < g.size(ps); r++ {
		ch.table = append(ch.table, genProbRow(c, len(ch.outcomes), false, true)...)
	}
	return g
}

// allSamples has every combination of the parents of the last node that has some.
func (g *gnet) allSamples(c *Ctx) []gsample {
	ss := g.genSamples(c, 0, 0)
	for _, n := range g.nodes {
		if len(n.parents) == 0 {
			continue
		}
		for r := 0; r < g.size(n.parents); r++ {
			for k := c.Intn(3); k >= 0; k-- {
				s := g.genSamples(c, 1, 0)[0]
				x := r
				for _, p := range n.parents {
					s.out[p] = x % len(g.nodes[p].outcomes)
					x /= len(g.nodes[p].outcomes)
				}
				ss = append(ss, s)
			}
		}
	}
	c.Shuffle(len(ss), func(i, j int) { ss[i], ss[j] = ss[j], ss[i] })
	return ss
}

func (g *gnet) genSamples(c *Ctx, n int, missing int) []gsample {
	ss := []gsample{}
	for k := 0; k < n; k++ {
		s := gsample{out: make([]int, len(g.nodes)), util: make([]float64, len(g.nodes))}
		for i, nd := range g.nodes {
			if nd.tp == ve.UtilityNode {
				s.util[i] = float64(c.Intn(20) - 5)
				if c.Intn(5) == 0 {
					s.util[i] = 0
				}
				if c.Intn(100) < missing {
					s.util[i] = math.NaN()
				}
				continue
			}
			s.out[i] = c.Intn(len(nd.outcomes))
			switch c.Intn(8) { // not a utility: the value is ignored
			case 0:
				s.util[i] = math.NaN()
			case 1:
				s.util[i] = 7
			}
			if c.Intn(100) < missing {
				s.out[i] = -1
			}
		}
		ss = append(ss, s)
	}
	return ss
}

func (g *gnet) compareTables(c *Ctx, net *bbn.Network, want [][]float64) {
	for i, v := range net.Variables() {
		if g.nodes[i].tp == ve.DecisionNode {
			if !slices.Equal(v.Factor.Table, g.nodes[i].table) {
				c.Fail("table of decision %q changed to %v", v.Name, v.Factor.Table)
			}
			continue
		}
		if len(v.Factor.Table) != len(want[i]) {
			c.Fail("table of %q has %d values, expected %d", v.Name, len(v.Factor.Table), len(want[i]))
		}
		for k, w := range want[i] {
			if !near(v.Factor.Table[k], w) {
				c.Fail("trained table of %q is %v, expected %v", v.Name, v.Factor.Table, want[i])
			}
		}
	}
}

func checkC14(c *Ctx) {
	c.Until(func(n int) {
		g := genTrainNet(c)
		cells := 0
		for _, nd := range g.nodes {
			cells += len(nd.table)
		}
		miss := []int{0, 0, 10, 40}[c.Intn(4)]
		ss := g.genSamples(c, 1+c.Intn(3*cells+5), miss)
		if n%50 == 20 { // many parents, all rows with samples
			g = bigTable(c, 3+c.Intn(6), 4)
			ss = g.allSamples(c)
		}
		if n%150 == 3 { // many samples of few combinations
			k := []int{300, 3000, 70000}[c.Intn(3)]
			for len(ss) < k {
				ss = append(ss, ss[:min(len(ss), k-len(ss))]...)
			}
		}
		if c.Intn(10) == 0 {
			sc := math.Pow(10, float64(c.Intn(24)-12))
			for _, s := range ss {
				for i := range s.util {
					s.util[i] *= sc
				}
			}
			absTol = 1e-10 * sc
		}
		c.input = func() string { return fmt.Sprintf("network %v; %d samples %v", g, len(ss), ss) }
		if len(ss) < 300 {
			c.Case(c.input())
		} else {
			c.Case("")
		}
		net := g.build(c, c.Intn(2) == 0)
		tr := bbn.NewTrainer(net)
		hasUtil := len(g.indices(ve.UtilityNode)) > 0
		for _, s := range ss {
			o, u := slices.Clone(s.out), slices.Clone(s.util)
			if !hasUtil && c.Intn(2) == 0 {
				u = nil
			}
			u2 := slices.Clone(u)
			tr.AddSample(o, u)
			if !slices.Equal(o, s.out) || !eqBits(u, u2) {
				c.Fail("AddSample changed its arguments")
			}
		}
		want, ok := g.trained(ss)
		res, err := tr.UpdateNetwork()
		if !ok {
			if err == nil {
				c.Fail("a row without samples is not reported")
			}
			return
		}
		if err != nil {
			c.Fail("%v", err)
		}
		if res != net {
			c.Fail("UpdateNetwork does not return the network")
		}
		g.compareTables(c, net, want)
		// further samples add to the earlier ones
		if c.Intn(2) == 0 {
			more := g.genSamples(c, 1+c.Intn(5), miss)
			for _, s := range more {
				tr.AddSample(s.out, s.util)
			}
			ss = append(ss, more...)
			want, _ = g.trained(ss)
			if _, err := tr.UpdateNetwork(); err != nil {
				c.Fail("%v", err)
			}
			g.compareTables(c, net, want)
		}
	})
}

func checkC19(c *Ctx) {
	dir := c.work
	if dir == "" {
		dir = os.TempDir()
	}
	file := filepath.Join(dir, fmt.Sprintf("train-%d.csv", os.Getpid()))
	defer os.Remove(file)
	c.Until(func(n int) {
		g := genTrainNet(c)
		for i := range g.nodes { // table data of decisions is not trained
			_ = i
		}
		cells := 0
		for _, nd := range g.nodes {
			cells += len(nd.table)
		}
		miss := []int{0, 10, 30}[c.Intn(3)]
		ss := g.genSamples(c, 1+c.Intn(4*cells+5), miss)
		if n%50 == 20 {
			g = bigTable(c, 3+c.Intn(6), 4)
			ss = g.allSamples(c)
		}
		noData := []string{"", "NA", "-", "-9999", "?", "NaN", "0", "-1", "3"}[c.Intn(9)]
		for i := range g.nodes { // outcomes that need quotes, or differ by little
			if c.Intn(8) == 0 && g.nodes[i].tp != ve.UtilityNode {
				o := []string{"a,b", "a;b", "a\"b", " a", "a ", "A", "a", "#a", "a b", "x\ny", "ü", "1", "1.0", "01", "NA ", "nan"}
				c.Shuffle(len(o), func(i, j int) { o[i], o[j] = o[j], o[i] })
				if len(g.nodes[i].outcomes) <= len(o) {
					g.nodes[i].outcomes = slices.Clone(o[:len(g.nodes[i].outcomes)])
				}
			}
		}
		for _, s := range ss { // a number written like the no-data value is missing
			for i := range s.util {
				if g.nodes[i].tp == ve.UtilityNode && c.Intn(12) == 0 {
					s.util[i] = []float64{0.5, -1e-7, 1e21, -0.0625, 123456789.25}[c.Intn(5)]
				}
				if strconv.FormatFloat(s.util[i], 'g', -1, 64) == noData {
					s.util[i] = math.NaN()
				}
			}
		}
		delim := []rune{',', ';', '\t', '|'}[c.Intn(4)]
		// columns in any order, with unrelated ones
		cols := c.Perm(len(g.nodes))
		header := []string{}
		for _, i := range cols {
			header = append(header, g.nodes[i].name)
		}
		extra := -1
		if c.Intn(3) == 0 {
			extra = c.Intn(len(header) + 1)
			header = slices.Insert(header, extra, "unrelated column")
		}
		rows := [][]string{}
		for _, s := range ss {
			r := []string{}
			for _, i := range cols {
				nd := g.nodes[i]
				switch {
				case nd.tp == ve.UtilityNode && math.IsNaN(s.util[i]):
					r = append(r, noData)
				case nd.tp == ve.UtilityNode:
					r = append(r, strconv.FormatFloat(s.util[i], 'g', -1, 64))
				case s.out[i] < 0:
					r = append(r, noData)
				default:
					r = append(r, nd.outcomes[s.out[i]])
				}
			}
			if extra >= 0 {
				r = slices.Insert(r, extra, "junk")
			}
			rows = append(rows, r)
		}
		bad, what := -1, ""
		want, ok := g.trained(ss)
		if c.Intn(4) == 0 && len(rows) > 0 {
			bad = c.Intn(4)
			k := c.Intn(len(cols))
			col := slices.Index(header, g.nodes[cols[k]].name)
			row := rows[c.Intn(len(rows))]
			nd := g.nodes[cols[k]]
			switch bad {
			case 0:
				what = "missing column " + header[col]
				header[col] = "gone"
			case 1:
				if nd.tp == ve.UtilityNode {
					row[col], what = []string{"twelve", "1,5", "1 2", "1.2.3", "12a", "--1", " 7", ""}[c.Intn(8)], "unparsable utility"
					if row[col] == noData {
						row[col] = "x"
					}
				} else {
					row[col], what = "no such outcome", "unknown outcome"
				}
			case 2:
				if nd.tp == ve.UtilityNode {
					what, bad = "", -1
				} else {
					what, noData = "no-data value is an outcome", nd.outcomes[c.Intn(len(nd.outcomes))]
				}
			case 3:
				if len(nd.outcomes[0]) == 0 || nd.tp == ve.UtilityNode || slices.Contains(nd.outcomes, strings.ToUpper(nd.outcomes[0])+"x") {
					what, bad = "", -1
				} else {
					row[col], what = strings.ToUpper(nd.outcomes[0])+"x", "unknown outcome"
				}
			}
		}
		var buf bytes.Buffer
		w := csv.NewWriter(&buf)
		w.Comma = delim
		w.UseCRLF = c.Intn(6) == 0
		_ = w.Write(header)
		_ = w.WriteAll(rows)
		if len(header) == 1 { // blank lines are skipped by the CSV reader: not a record
			for _, r := range rows {
				if r[0] == "" {
					return
				}
			}
		}
		if err := os.WriteFile(file, buf.Bytes(), 0o644); err != nil {
			panic(err)
		}
		c.input = func() string {
			return fmt.Sprintf("network %v; no-data %q; delimiter %q; bad %q; CSV:\n%s", g, noData, delim, what, buf.String())
		}
		c.Case(c.input())
		net := g.build(c, false)
		res, err := tui.TrainNetwork(net, net.Variables(), file, noData, delim)
		if bad >= 0 {
			if err == nil {
				c.Fail("%s is not reported", what)
			}
			return
		}
		if !ok {
			if err == nil {
				c.Fail("a table row without samples is not reported")
			}
			return
		}
		if err != nil {
			c.Fail("%v", err)
		}
		g.compareTables(c, res, want)
	})
}

func init() {
	register("C14", "random networks (joint size up to 60; now and then one table with up to 8 parents), random sample sequences with 0-40% missing values, incremental updates; relative frequencies and means recomputed by the oracle; non-trivial: every (network, samples)", checkC14)
	register("C19", "random networks and samples written as CSV with random column order, delimiters, unrelated columns and no-data values, and four kinds of malformed input; non-trivial: every file", checkC19)
}
