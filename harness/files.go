package main

import (
	"encoding/xml"
	"fmt"
	"math"
	"slices"
	"strconv"
	"strings"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/ve"
)

var colors = []string{"", "red", "blue", "green", "yellow"}
var freeColors = []string{"", "red", "Blue", "DarkSlateGray", "#ff00aa", "#FFF", " padded ", "ümläut", "0", "~", "yes", "LIGHTGRAY"}
var texts = []string{"", "net", "A longer: description", "multi\nline\n", "yes", "true", "123", "~", "- x", "  padded  ", "ümläut \"quoted\" 'x'", "a#b", "0x10", "null"}

func checkC15(c *Ctx) {
	c.Until(func(n int) {
		g := genNet(c, genOpts{chance: [2]int{1, 4}, decisions: [2]int{0, 2}, utils: [2]int{0, 2}, total: 40, maxJoint: 200, maxOut: 3})
		// awkward names
		for i := range g.nodes {
			if c.Intn(4) == 0 {
				nm := texts[c.Intn(len(texts))]
				if nm != "" && !slices.ContainsFunc(g.nodes, func(x gnode) bool { return x.name == nm }) {
					g.nodes[i].name = nm
				}
			}
			if c.Intn(5) == 0 {
				o := []string{"yes", "no", "true", "1", "0.5", "~", "null", "on", "2001-01-01", "a: b"}
				c.Shuffle(len(o), func(i, j int) { o[i], o[j] = o[j], o[i] })
				if len(g.nodes[i].outcomes) <= len(o) {
					g.nodes[i].outcomes = slices.Clone(o[:len(g.nodes[i].outcomes)])
				}
			}
			for k := range g.nodes[i].table {
				switch c.Intn(12) {
				case 0:
					g.nodes[i].table[k] = c.NormFloat64() * 1e-7
				case 1:
					g.nodes[i].table[k] = 1e21 * c.Float64()
				case 2:
					g.nodes[i].table[k] = 1.0 / 3
				}
			}
		}
		vars, facs := g.defs(c, c.Intn(2) == 0)
		for i := range vars {
			vars[i].Position = [2]int{c.Intn(200) - 20, c.Intn(100) - 10}
			if c.Intn(6) == 0 {
				vars[i].Position = [2]int{c.Intn(2000000) - 1000000, c.Intn(3) * 70000}
			}
			vars[i].Color = freeColors[c.Intn(len(freeColors))]
		}
		name, info := texts[c.Intn(len(texts))], texts[c.Intn(len(texts))]
		net, err := bbn.New(name, info, vars, facs)
		c.input = func() string { return fmt.Sprintf("name %q info %q network %v variables %+v", name, info, g, vars) }
		c.Case(c.input())
		if err != nil {
			c.Fail("%v", err)
		}
		yml, err := bbn.ToYAML(net)
		if err != nil {
			c.Fail("ToYAML: %v", err)
		}
		back, err := bbn.FromYAML(yml)
		if err != nil {
			c.Fail("FromYAML: %v of\n%s", err, yml)
		}
		if back.Name() != name || back.Info() != info {
			c.Fail("name and description are %q %q after the round trip, expected %q %q", back.Name(), back.Info(), name, info)
		}
		if len(back.Variables()) != len(vars) || back.TotalUtilityIndex() != g.total {
			c.Fail("%d variables and total-utility position %d after the round trip, expected %d and %d", len(back.Variables()), back.TotalUtilityIndex(), len(vars), g.total)
		}
		for i, v := range back.Variables() {
			w := vars[i]
			nd := g.nodes[i]
			if v.Name != w.Name || v.NodeType != w.NodeType || !slices.Equal(v.Outcomes, w.Outcomes) || v.Position != w.Position || v.Color != w.Color {
				c.Fail("variable %d after the round trip is %+v, expected %+v", i, v, w)
			}
			if v.Factor == nil {
				c.Fail("variable %d has no table after the round trip", i)
			}
			if v.Factor.For != w.Name || !slices.Equal(v.Factor.Given, g.names(nd.parents)) || !slices.Equal(v.Factor.Table, nd.table) {
				c.Fail("table of %q after the round trip is %+v, expected given %v table %v", w.Name, v.Factor, g.names(nd.parents), nd.table)
			}
		}
		// saving does not change the network, and saving the copy gives the same text
		y2, err := bbn.ToYAML(back)
		if err != nil || string(y2) != string(yml) {
			c.Fail("saving the loaded network again gives\n%s\ninstead of\n%s", y2, yml)
		}
		if n%5 == 0 {
			yamlReading(c)
		}
		if n%400 == 7 {
			yamlLarge(c)
		}
	})
}

// yamlLarge saves and loads a network with one big table.
func yamlLarge(c *Ctx) {
	k, outs := 11+c.Intn(3), 1+c.Intn(2)
	if c.Intn(3) == 0 {
		k, outs = c.Intn(2), 200+c.Intn(1000)
	}
	vars, facs := []bbn.Variable{}, []bbn.Factor{}
	given := []string{}
	rows := 1
	for i := 0; i < k; i++ {
		given = append(given, fmt.Sprintf("p%d", i))
		vars = append(vars, bbn.Variable{Name: given[i], Outcomes: []string{"a", "b"}})
		facs = append(facs, bbn.Factor{For: given[i], Table: []float64{1, 2}})
		rows *= 2
	}
	on := []string{}
	for i := 0; i < outs; i++ {
		on = append(on, fmt.Sprintf("o%d", i))
	}
	table := make([]float64, rows*outs)
	for i := range table {
		table[i] = float64(c.Intn(1000)) / 16
	}
	vars = append(vars, bbn.Variable{Name: "big", Outcomes: on})
	facs = append(facs, bbn.Factor{For: "big", Given: given, Table: table})
	c.input = func() string { return fmt.Sprintf("a variable with %d two-valued parents and %d outcomes", k, outs) }
	c.Case(c.input())
	net, err := bbn.New("large", "", vars, facs)
	if err != nil {
		c.Fail("%v", err)
	}
	yml, err := bbn.ToYAML(net)
	if err != nil {
		c.Fail("ToYAML: %v", err)
	}
	back, err := bbn.FromYAML(yml)
	if err != nil {
		c.Fail("FromYAML: %v", err)
	}
	f := back.Variables()[k].Factor
	if !slices.Equal(f.Given, given) || !slices.Equal(f.Table, table) || !slices.Equal(back.Variables()[k].Outcomes, on) {
		c.Fail("the table has %d entries, %d parents and %d outcomes after the round trip, or other values; expected %d, %d, %d", len(f.Table), len(f.Given), len(back.Variables()[k].Outcomes), len(table), len(given), len(on))
	}
}

// yamlLogic reads an operator with an argument of either sign.
func yamlLogic(c *Ctx) {
	k := 1 + c.Intn(5)
	op, v := []string{"count-is", "count-less", "count-greater"}[c.Intn(3)], c.Intn(k+6)-3
	doc := "name: x\nvariables:\n"
	given := []string{}
	for i := 0; i < k; i++ {
		given = append(given, fmt.Sprintf("P%d", i))
		doc += fmt.Sprintf("- variable: P%d\n  outcomes: [t, f]\n  table: [[1, 1]]\n", i)
	}
	doc += fmt.Sprintf("- variable: Q\n  given: [%s]\n  outcomes: [t, f]\n  logic: %s %d\n", strings.Join(given, ", "), op, v)
	want := []float64{}
	for r := 0; r < 1<<k; r++ {
		cnt := 0
		for i := 0; i < k; i++ {
			if r&(1<<i) == 0 {
				cnt++
			}
		}
		if op == "count-is" && cnt == v || op == "count-less" && cnt < v || op == "count-greater" && cnt > v {
			want = append(want, 1, 0)
		} else {
			want = append(want, 0, 1)
		}
	}
	c.input = func() string { return "YAML:\n" + doc }
	c.Case(doc)
	net, err := bbn.FromYAML([]byte(doc))
	if err != nil {
		c.Fail("%v", err)
	}
	if got := net.Variables()[k].Factor.Table; !slices.Equal(got, want) {
		c.Fail("logic table is %v, expected %v", got, want)
	}
}

func yamlReading(c *Ctx) {
	yamlLogic(c)
	rows, cols := 1+c.Intn(4), 1+c.Intn(4)
	vals := []float64{}
	txt := "["
	for r := 0; r < rows; r++ {
		if r > 0 {
			txt += ", "
		}
		txt += "["
		for k := 0; k < cols; k++ {
			v := float64(c.Intn(100)) / 8
			vals = append(vals, v)
			if k > 0 {
				txt += ", "
			}
			txt += strconv.FormatFloat(v, 'g', -1, 64)
		}
		txt += "]"
	}
	txt += "]"
	pos := []string{}
	for k := 0; k < rows; k++ {
		pos = append(pos, fmt.Sprintf("p%d", k))
	}
	outs := []string{}
	for k := 0; k < cols; k++ {
		outs = append(outs, fmt.Sprintf("q%d", k))
	}
	doc := func(extra string) string {
		one := strings.Repeat("[1], ", rows)
		_ = one
		return fmt.Sprintf("name: x\nvariables:\n- variable: P\n  outcomes: [%s]\n  table: [[%s]]\n- variable: Q\n  given: [P]\n  outcomes: [%s]\n%s",
			strings.Join(pos, ", "), strings.TrimSuffix(strings.Repeat("1, ", rows), ", "), strings.Join(outs, ", "), extra)
	}
	good := doc("  table: " + txt + "\n")
	c.input = func() string { return "YAML:\n" + good }
	net, err := bbn.FromYAML([]byte(good))
	if err != nil {
		c.Fail("%v", err)
	}
	if !slices.Equal(net.Variables()[1].Factor.Table, vals) {
		c.Fail("table is %v, expected %v", net.Variables()[1].Factor.Table, vals)
	}
	tpName := []string{"", "nature", "decision", "utility"}[c.Intn(4)]
	tp := map[string]ve.NodeType{"": ve.ChanceNode, "nature": ve.ChanceNode, "decision": ve.DecisionNode, "utility": ve.UtilityNode}[tpName]
	good = doc("  table: " + txt + "\n  type: \"" + tpName + "\"\n")
	net, err = bbn.FromYAML([]byte(good))
	if err != nil {
		c.Fail("%v", err)
	}
	if net.Variables()[1].NodeType != tp {
		c.Fail("type %q is read as %v", tpName, net.Variables()[1].NodeType)
	}
	for _, bad := range []string{
		"  table: " + txt + "\n  logic: not\n", "  logic: no-such-thing\n", "  logic: \"\"\n  table: " + txt + "\n  type: chance-ish\n",
		"  table: " + txt + "\n  type: " + []string{"Decision", "NATURE", "Utility", "chance", "util", "decisions", "\" decision\""}[c.Intn(7)] + "\n",
		"  logic: count-is\n", "  logic: count-is x\n", "  logic: and\n", "  logic: not 1\n", "  table: " + txt + "\n  unknown-field: 1\n",
	} {
		d := doc(bad)
		c.input = func() string { return "YAML:\n" + d }
		if _, err := bbn.FromYAML([]byte(d)); err == nil {
			c.Fail("malformed definition is accepted")
		}
	}
	// logic operators are looked up case-insensitively and get their arguments in order
	l := fmt.Sprintf("name: x\nvariables:\n- variable: P\n  outcomes: [a, b, c]\n  table: [[1, 1, 1]]\n- variable: Q\n  given: [P]\n  outcomes: [t, f]\n  logic: %s 1 3\n", []string{"outcome-is", "Outcome-Is", "OUTCOME-IS"}[c.Intn(3)])
	c.input = func() string { return "YAML:\n" + l }
	net, err = bbn.FromYAML([]byte(l))
	if err != nil {
		c.Fail("%v", err)
	}
	if !slices.Equal(net.Variables()[1].Factor.Table, []float64{0, 1, 1, 0, 0, 1}) {
		c.Fail("logic table is %v", net.Variables()[1].Factor.Table)
	}
}

func esc(s string) string {
	b := strings.Builder{}
	_ = xml.EscapeText(&b, []byte(s))
	return b.String()
}

func checkC16(c *Ctx) {
	c.Until(func(n int) {
		g := genNet(c, genOpts{chance: [2]int{1, 4}, decisions: [2]int{0, 2}, utils: [2]int{0, 2}, total: 30, maxJoint: 200, maxOut: 3})
		kind := c.Intn(9) // 0..5: malformed, otherwise fine
		what := ""
		victim := c.Intn(len(g.nodes))
		nd := &g.nodes[victim]
		if kind == 1 && (len(nd.table) == 0 || len(nd.outcomes) < 2) || kind == 2 && len(nd.table) == 0 {
			kind = 8
		}
		defs := []string{}
		vars := ""
		pos := make([][2]int, len(g.nodes))
		for i, x := range g.nodes {
			tp := map[ve.NodeType]string{ve.ChanceNode: "nature", ve.DecisionNode: "decision", ve.UtilityNode: "utility"}[x.tp]
			if x.tp == ve.ChanceNode && c.Intn(6) == 0 {
				tp = ""
			}
			px, py := c.Intn(900)-50, c.Intn(900)-50
			prop := ""
			switch c.Intn(4) {
			case 0:
				px, py = 0, 0
			case 1:
				prop = fmt.Sprintf("<PROPERTY>position = (%d, %d)</PROPERTY>", px, py)
			case 2:
				prop = fmt.Sprintf("<PROPERTY>weight = 3</PROPERTY><PROPERTY> position=( %d ,%d ) </PROPERTY>", px, py)
			case 3:
				prop = fmt.Sprintf("<PROPERTY>something else</PROPERTY><PROPERTY>position = (%d,%d)</PROPERTY>", px, py)
			}
			pos[i] = [2]int{px / 2, py / 12}
			table := x.table
			bad := func() string { return "" }
			if i == victim {
				switch kind {
				case 0:
					what = "variable without definition"
				case 1:
					what = "table length"
					table = table[:len(table)-1]
				case 2:
					what = "unparsable number"
					bad = func() string {
						return " " + []string{"1,5", "abc", "1.2.3", "0.5x", "--1", "½", "1e", "()", "0.5,", "0.5;", "50%", "(0.5)", "1/2", "+-1", "0.5.5", ",5", "1d0", "\"1\"", "$1", "-"}[c.Intn(20)] + strings.Repeat(" 1", len(x.outcomes)-1)
					}
				case 3:
					what = "malformed position"
					prop = "<PROPERTY>position = " + []string{"(1)", "(1, 2, 3)", "(a, 2)", "(1, b)", "(1.5, 2)", "", "(,)", "(1 2)", "(1,)", "( , 2)", "(1, 2"}[c.Intn(10)] + "</PROPERTY>"
				case 4:
					what = "unknown type"
					tp = []string{"chance", "Nature", "x", "UTILITY", "decision ", "nature,decision"}[c.Intn(6)]
				}
			}
			vars += fmt.Sprintf("<VARIABLE TYPE=\"%s\">\n<NAME>%s</NAME>\n", tp, esc(x.name))
			for _, o := range x.outcomes {
				vars += "<OUTCOME>" + esc(o) + "</OUTCOME>\n"
			}
			vars += prop + "</VARIABLE>\n"
			if !(i == victim && kind == 0) {
				d := "<DEFINITION><FOR>" + esc(x.name) + "</FOR>\n"
				for _, p := range x.parents {
					d += "<GIVEN>" + esc(g.nodes[p].name) + "</GIVEN>\n"
				}
				t := []string{}
				for _, v := range table {
					t = append(t, strconv.FormatFloat(v, 'g', -1, 64))
				}
				d += "<TABLE>" + strings.Join(t, []string{" ", "\n", "  \t", "\r\n", "   "}[c.Intn(5)]) + bad() + "</TABLE>\n</DEFINITION>\n"
				defs = append(defs, d)
			}
		}
		if kind == 0 { // nobody else may refer to the undefined variable's definition; parents stay declared
			_ = kind
		}
		c.Shuffle(len(defs), func(i, j int) { defs[i], defs[j] = defs[j], defs[i] })
		doc := "<?xml version=\"1.0\"?>\n<BIF VERSION=\"0.3\">\n<NETWORK>\n<NAME>the net</NAME>\n" + vars + strings.Join(defs, "") + "</NETWORK>\n</BIF>\n"
		c.input = func() string { return fmt.Sprintf("%s; XML:\n%s", what, doc) }
		c.Case(doc)
		net, err := bbn.FromBIFXML([]byte(doc))
		if what != "" {
			if err == nil {
				c.Fail("%s is accepted", what)
			}
			return
		}
		if err != nil {
			c.Fail("%v", err)
		}
		if net.Name() != "the net" || len(net.Variables()) != len(g.nodes) || net.TotalUtilityIndex() != g.total {
			c.Fail("name %q, %d variables, total-utility position %d; expected %d variables, %d", net.Name(), len(net.Variables()), net.TotalUtilityIndex(), len(g.nodes), g.total)
		}
		for i, v := range net.Variables() {
			x := g.nodes[i]
			if v.Name != x.name || v.NodeType != x.tp || !slices.Equal(v.Outcomes, x.outcomes) || v.Position != pos[i] {
				c.Fail("variable %d is %+v, expected %+v at %v", i, v, x, pos[i])
			}
			if v.Factor == nil || v.Factor.For != x.name || !slices.Equal(v.Factor.Given, g.names(x.parents)) || !slices.Equal(v.Factor.Table, x.table) {
				c.Fail("table of %q is %+v, expected given %v table %v", x.name, v.Factor, g.names(x.parents), x.table)
			}
		}
	})
}

// unlike is a string that is none of those given, though perhaps close to one.
func unlike(c *Ctx, of []string, other string) string {
	for {
		o := of[c.Intn(len(of))]
		s := []string{other, strings.ToUpper(o), strings.ToLower(o), o + " ", " " + o, o + o, o[:max(0, len(o)-1)], "0", "1"}[c.Intn(9)]
		if s != "" && !slices.Contains(of, s) {
			return s
		}
	}
}

func checkC17(c *Ctx) {
	c.Until(func(n int) {
		g := genNet(c, genOpts{chance: [2]int{1, 4}, decisions: [2]int{0, 1}, utils: [2]int{0, 3}, total: 50, maxJoint: 100, maxOut: 3})
		vars, facs := g.defs(c, false)
		for i := range vars {
			vars[i].Position = [2]int{c.Intn(10), c.Intn(10)}
			vars[i].Color = freeColors[c.Intn(len(freeColors))]
		}
		if n%4 == 0 {
			messyNew(c)
		}
		kind := c.Intn(12)
		what := ""
		utils := g.indices(ve.UtilityNode)
		plain := g.indices(ve.ChanceNode, ve.DecisionNode)
		switch kind {
		case 0:
			what = "duplicate variable name"
			k := c.Intn(len(vars))
			v := vars[k]
			v.NodeType = []ve.NodeType{ve.ChanceNode, ve.DecisionNode, v.NodeType}[c.Intn(3)]
			at := c.Intn(len(vars) + 1)
			vars = slices.Insert(vars, at, v)
		case 1:
			what = "unknown parent"
			k := c.Intn(len(facs))
			facs[k].Given = slices.Insert(slices.Clone(facs[k].Given), c.Intn(len(facs[k].Given)+1), "no such variable")
		case 2:
			if len(utils) > 0 {
				what = "utility without parents"
				facs[utils[c.Intn(len(utils))]].Given = nil
			}
		case 3:
			if len(utils) > 1 {
				what = "utility with utility and other parents"
				u := utils[0]
				facs[u].Given = []string{g.nodes[plain[0]].name, g.nodes[utils[1]].name}
				c.Shuffle(2, func(i, j int) { facs[u].Given[i], facs[u].Given[j] = facs[u].Given[j], facs[u].Given[i] })
			}
		case 4:
			if g.total >= 0 {
				what = "several total-utility nodes"
				at := c.Intn(len(vars) + 1)
				vars = slices.Insert(vars, at, bbn.Variable{Name: "second total", NodeType: ve.UtilityNode, Outcomes: []string{"u"}})
				facs = append(facs, bbn.Factor{For: "second total", Given: []string{g.nodes[utils[0]].name}, Table: []float64{1}})
			}
		case 5:
			if g.total >= 0 {
				what = "total-utility outcomes do not match the parents"
				vars[g.total].Outcomes = append(slices.Clone(vars[g.total].Outcomes), "surplus")
				if c.Intn(2) == 0 && len(vars[g.total].Outcomes) > 2 {
					vars[g.total].Outcomes = vars[g.total].Outcomes[:len(vars[g.total].Outcomes)-2]
				}
			}
		case 6:
			if len(utils) > 0 {
				what = "utility without a table"
				u := utils[c.Intn(len(utils))]
				facs = slices.Delete(facs, u, u+1)
			}
		}
		c.input = func() string { return fmt.Sprintf("%s: variables %+v factors %+v", what, vars, facs) }
		c.Case(c.input())
		if what == "" {
			c.Shuffle(len(facs), func(i, j int) { facs[i], facs[j] = facs[j], facs[i] })
		}
		f0 := slices.Clone(facs)
		net, err := bbn.New("nm", "inf", vars, facs)
		if what != "" {
			if err == nil {
				c.Fail("no error is reported")
			}
			if net != nil {
				c.Fail("a network is returned along with the error")
			}
			return
		}
		if err != nil {
			c.Fail("%v", err)
		}
		if net.Name() != "nm" || net.Info() != "inf" || net.TotalUtilityIndex() != g.total || len(net.Variables()) != len(g.nodes) {
			c.Fail("name %q info %q total %d variables %d", net.Name(), net.Info(), net.TotalUtilityIndex(), len(net.Variables()))
		}
		for i, v := range net.Variables() {
			x := g.nodes[i]
			if v.Name != x.name || v.NodeType != x.tp || !slices.Equal(v.Outcomes, x.outcomes) || v.Position != vars[i].Position || v.Color != vars[i].Color {
				c.Fail("variable %d is %+v, expected %+v", i, v, x)
			}
			if v.Factor == nil || v.Factor.For != x.name || !slices.Equal(v.Factor.Given, g.names(x.parents)) || !slices.Equal(v.Factor.Table, x.table) {
				c.Fail("table of %q is %+v, expected given %v table %v", x.name, v.Factor, g.names(x.parents), x.table)
			}
		}
		for i := range facs {
			if facs[i].For != f0[i].For || !slices.Equal(facs[i].Table, f0[i].Table) {
				c.Fail("the order or contents of the tables passed in changed")
			}
		}
		// unknown names in questions
		ch := g.indices(ve.ChanceNode)
		if len(g.indices(ve.DecisionNode)) > 0 || len(ch) == 0 {
			return
		}
		k0 := ch[c.Intn(len(ch))]
		nm := g.nodes[k0].name
		odd := unlike(c, g.nodes[k0].outcomes, "no such outcome")
		oddVar := unlike(c, g.names(c.Perm(len(g.nodes))), "no such variable")
		for what, f := range map[string]func() error{
			"query for an unknown variable": func() error {
				_, _, err := net.SolveQuery(nil, []string{oddVar}, c.Intn(2) == 0)
				return err
			},
			"unknown evidence variable": func() error {
				_, _, err := net.SolveQuery(map[string]string{oddVar: "x"}, nil, c.Intn(2) == 0)
				return err
			},
			"unknown evidence outcome": func() error {
				_, _, err := net.SolveQuery(map[string]string{nm: odd}, nil, c.Intn(2) == 0)
				return err
			},
			"one unknown name in a query": func() error {
				q := append(g.names(ch), oddVar)
				c.Shuffle(len(q), func(i, j int) { q[i], q[j] = q[j], q[i] })
				_, _, err := net.SolveQuery(nil, q, c.Intn(2) == 0)
				return err
			},
			"one unknown name in the evidence": func() error {
				ev := map[string]string{oddVar: "x"}
				for _, i := range ch {
					ev[g.nodes[i].name] = g.nodes[i].outcomes[0]
				}
				_, _, err := net.SolveQuery(ev, nil, c.Intn(2) == 0)
				return err
			},
			"outcome of another variable": func() error {
				for _, i := range ch {
					for _, j := range ch {
						for _, o := range g.nodes[j].outcomes {
							if !slices.Contains(g.nodes[i].outcomes, o) {
								_, _, err := net.SolveQuery(map[string]string{g.nodes[i].name: o}, nil, c.Intn(2) == 0)
								return err
							}
						}
					}
				}
				return fmt.Errorf("none")
			},
			"unknown utility variable": func() error { _, err := net.SolveUtility(nil, nil, oddVar, false); return err },
			"utility: unknown evidence": func() error {
				_, err := net.SolveUtility(map[string]string{nm: odd}, nil, "", false)
				return err
			},
			"utility: unknown query": func() error { _, err := net.SolveUtility(nil, []string{oddVar}, "", false); return err },
			"ToEvidence: unknown variable": func() error {
				_, _, _ = net.SolveQuery(nil, nil, false)
				_, err := net.ToEvidence(oddVar, "x")
				return err
			},
			"ToEvidence: unknown outcome": func() error {
				_, _, _ = net.SolveQuery(nil, nil, false)
				_, err := net.ToEvidence(nm, odd)
				return err
			},
		} {
			if f() == nil {
				c.Fail("%s is not reported (variable %q, evidence %q = %q)", what, oddVar, nm, odd)
			}
		}
		_ = math.Pi
	})
}

func init() {
	register("C15", "random networks with awkward names, outcomes, texts, colours, negative positions and extreme numbers, saved and loaded; hand-written YAML for reading and for malformed definitions; non-trivial: every network", checkC15)
	register("C16", "random networks rendered as BIF-XML with shuffled definitions, mixed position properties and white space, and five kinds of malformed documents; non-trivial: every document", checkC16)
	register("C17", "random networks and seven kinds of invalid definitions; unknown names in questions; non-trivial: every definition list", checkC17)
}

// messyNew builds networks from arbitrary definitions: it must not crash, and the
// invalid ones must be reported.
func messyNew(c *Ctx) {
	names := []string{"A", "B", "C", "D", "a", "A "}[:1+c.Intn(6)]
	vars, facs := []bbn.Variable{}, []bbn.Factor{}
	seen, dup := map[string]ve.NodeType{}, false
	for i := 0; i < c.Intn(6); i++ {
		v := bbn.Variable{Name: names[c.Intn(len(names))], NodeType: ve.NodeType(c.Intn(3))}
		for k := 0; k < 1+c.Intn(3); k++ {
			v.Outcomes = append(v.Outcomes, fmt.Sprint("o", k))
		}
		if _, ok := seen[v.Name]; ok && c.Intn(3) > 0 {
			continue
		}
		_, ok := seen[v.Name]
		dup = dup || ok
		seen[v.Name] = v.NodeType
		vars = append(vars, v)
	}
	defined := map[string]int{}
	for _, v := range vars {
		if _, ok := defined[v.Name]; ok || c.Intn(8) == 0 {
			continue
		}
		f := bbn.Factor{For: v.Name, Table: []float64{1}}
		for _, k := range c.Perm(len(names))[:c.Intn(len(names)+1)] {
			if (names[k] != v.Name || c.Intn(9) == 0) && (len(seen) == 0 || c.Intn(4) == 0 || hasKey(seen, names[k])) {
				f.Given = append(f.Given, names[k])
			}
		}
		defined[v.Name] = len(facs)
		facs = append(facs, f)
	}
	bad := ""
	totals, total := 0, -1
	if dup {
		bad = "duplicate variable name"
	}
	for i, v := range vars {
		k, ok := defined[v.Name]
		if !ok {
			if v.NodeType == ve.UtilityNode {
				bad = "utility without a table"
			}
			continue
		}
		us, os := 0, 0
		for _, p := range facs[k].Given {
			tp, ok := seen[p]
			if !ok {
				bad = "unknown parent"
			} else if tp == ve.UtilityNode {
				us++
			} else {
				os++
			}
		}
		if v.NodeType == ve.UtilityNode {
			switch {
			case us > 0 && os > 0:
				bad = "mixed parents"
			case us+os == 0:
				bad = "utility without parents"
			case us > 0:
				totals++
				total = i
				if len(v.Outcomes) != us {
					bad = "total-utility outcomes"
				}
			}
		}
	}
	if totals > 1 {
		bad = "several total-utility nodes"
	}
	c.input = func() string { return fmt.Sprintf("New(%+v, %+v): %s", vars, facs, bad) }
	net, err := bbn.New("n", "", slices.Clone(vars), slices.Clone(facs))
	if bad != "" {
		if err == nil || net != nil {
			c.Fail("no error is reported")
		}
		return
	}
	if err != nil {
		c.Fail("%v", err)
	}
	if net.TotalUtilityIndex() != total || len(net.Variables()) != len(vars) {
		c.Fail("total-utility position %d, %d variables, expected %d, %d", net.TotalUtilityIndex(), len(net.Variables()), total, len(vars))
	}
	for i, v := range net.Variables() {
		k, ok := defined[v.Name]
		if v.Name != vars[i].Name || ok != (v.Factor != nil) || ok && (v.Factor.For != v.Name || !slices.Equal(v.Factor.Given, facs[k].Given)) {
			c.Fail("variable %d is %+v with table %+v", i, v, v.Factor)
		}
	}
}

func hasKey(m map[string]ve.NodeType, k string) bool { _, ok := m[k]; return ok }
