package main

import (
	"fmt"
	"math/bits"
	"slices"

	"github.com/mlange-42/bbn/logic"
)

type boolOp struct {
	name  string
	ctor  func() logic.Factor
	n     int
	truth func(a []bool) float64 // probability of outcome 0 (true)
}

func b2f(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

func half(known bool, v float64) float64 {
	if known {
		return v
	}
	return 0.5
}

var boolOps = []boolOp{
	{"not", logic.Not, 1, func(a []bool) float64 { return b2f(!a[0]) }},
	{"and", logic.And, 2, func(a []bool) float64 { return b2f(a[0] && a[1]) }},
	{"not-and", logic.NotAnd, 2, func(a []bool) float64 { return b2f(!a[0] && a[1]) }},
	{"and-not", logic.AndNot, 2, func(a []bool) float64 { return b2f(a[0] && !a[1]) }},
	{"not-and-not", logic.NotAndNot, 2, func(a []bool) float64 { return b2f(!a[0] && !a[1]) }},
	{"or", logic.Or, 2, func(a []bool) float64 { return b2f(a[0] || a[1]) }},
	{"not-or", logic.NotOr, 2, func(a []bool) float64 { return b2f(!a[0] || a[1]) }},
	{"or-not", logic.OrNot, 2, func(a []bool) float64 { return b2f(a[0] || !a[1]) }},
	{"not-or-not", logic.NotOrNot, 2, func(a []bool) float64 { return b2f(!a[0] || !a[1]) }},
	{"xor", logic.XOr, 2, func(a []bool) float64 { return b2f(a[0] != a[1]) }},
	{"cond", logic.Cond, 2, func(a []bool) float64 { return b2f(!a[0] || a[1]) }},
	{"not-cond", logic.NotCond, 2, func(a []bool) float64 { return b2f(a[0] || a[1]) }},
	{"cond-not", logic.CondNot, 2, func(a []bool) float64 { return b2f(!a[0] || !a[1]) }},
	{"not-cond-not", logic.NotCondNot, 2, func(a []bool) float64 { return b2f(a[0] || !a[1]) }},
	{"bicond", logic.BiCond, 2, func(a []bool) float64 { return b2f(a[0] == a[1]) }},
	{"if-then", logic.IfThen, 1, func(a []bool) float64 { return half(a[0], 1) }},
	{"if-not-then", logic.IfNotThen, 1, func(a []bool) float64 { return half(!a[0], 1) }},
	{"if-then-not", logic.IfThenNot, 1, func(a []bool) float64 { return half(a[0], 0) }},
	{"if-not-then-not", logic.IfNotThenNot, 1, func(a []bool) float64 { return half(!a[0], 0) }},
	{"equals", logic.Equals, 1, func(a []bool) float64 { return b2f(a[0]) }},
	{"equals-not", logic.EqualsNot, 1, func(a []bool) float64 { return b2f(!a[0]) }},
}

// parentsOf: outcome of each parent in a row, last parent fastest; outcome 0 is true.
func parentsOf(row, n int) []bool {
	r := make([]bool, n)
	for i := range r {
		r[i] = row>>(n-1-i)&1 == 0
	}
	return r
}

func checkC12(c *Ctx) {
	c.Until(func(n int) {
		op := boolOps[n%len(boolOps)]
		byName, ok := logic.Get(op.name)
		c.input = func() string { return fmt.Sprintf("operator %s", op.name) }
		if !ok {
			c.Fail("operator not found by name")
		}
		if n >= len(boolOps)*20 {
			panic(stop{})
		}
		for src, f := range map[string]logic.Factor{"name": byName, "constructor": op.ctor()} {
			want := []float64{}
			for r := 0; r < 1<<op.n; r++ {
				p := op.truth(parentsOf(r, op.n))
				want = append(want, p, 1-p)
			}
			for round := 0; round < 3; round++ {
				if err := f.SetArgs(); err != nil {
					c.Fail("SetArgs() by %s: %v", src, err)
				}
				t, err := f.Table(op.n)
				if err != nil || !slices.Equal(t, want) {
					c.Fail("table by %s in round %d is %v (%v), expected %v", src, round, t, err, want)
				}
				for i := range t {
					t[i] = 17 // the caller's own copy
				}
				_ = append(t, 3)
			}
			for g := 0; g <= 6; g++ {
				c.Case(fmt.Sprint(op.name, src, g))
				t, err := f.Table(g)
				if g != op.n && err == nil {
					c.Fail("%d parents by %s: accepted, table %v", g, src, t)
				}
			}
			for k := 1; k < 4; k++ {
				if err := f.SetArgs(make([]int, k)...); err == nil {
					c.Fail("%d arguments by %s: accepted", k, src)
				}
			}
			t, err := f.Table(op.n)
			if err != nil || !slices.Equal(t, want) {
				c.Fail("table by %s after rejected arguments is %v (%v), expected %v", src, t, err, want)
			}
		}
	})
	if _, ok := logic.Get("no-such-operator"); ok {
		c.FailKey("", "unknown operator name is accepted")
	}
}

// detTable compares with a deterministic table: column given by fn.
func detTable(c *Ctx, what string, t []float64, err error, rows, cols int, fn func(row int) int) {
	if err != nil {
		c.Fail("%s: %v", what, err)
	}
	if len(t) != rows*cols {
		c.Fail("%s: table has %d values, expected %d x %d", what, len(t), rows, cols)
	}
	for r := 0; r < rows; r++ {
		k := fn(r)
		for j := 0; j < cols; j++ {
			want := b2f(j == k)
			if t[r*cols+j] != want {
				key := ""
				if k < 0 { // outcome-greater, row equal to the index: documented finding
					key = "outcome-greater:row=index"
					if j == 0 && t[r*cols] == 1 && t[r*cols+1] == 0 || j == 1 && t[r*cols] == 1 {
						c.FailKey(key, "%s: row %d (outcome equal to the index) counts as greater", what, r)
						break
					}
					want = b2f(j == 1)
					if t[r*cols+j] == want {
						continue
					}
					key = ""
				}
				c.FailKey(key, "%s: row %d is %v, expected probability one at outcome %d", what, r, t[r*cols:(r+1)*cols], k)
				panic(stop{})
			}
		}
	}
}

func tf(b bool) int {
	if b {
		return 0
	}
	return 1
}

func checkC13(c *Ctx) {
	c.Until(func(n int) {
		g := c.Intn(9)
		if n < 13 {
			g = n
		}
		// fixed-size operators
		for _, nm := range []string{"count-true", "count-false", "bits"} {
			if nm == "bits" && g > 9 {
				continue
			}
			ctor := map[string]func() logic.Factor{"count-true": logic.CountTrue, "count-false": logic.CountFalse, "bits": logic.Bits}[nm]
			f, _ := logic.Get(nm)
			if c.Intn(2) == 0 {
				f = ctor()
			}
			c.input = func() string { return fmt.Sprintf("%s with %d parents", nm, g) }
			c.Case(c.input())
			if err := f.SetArgs(); err != nil {
				c.Fail("SetArgs(): %v", err)
			}
			for k := 1; k < 3; k++ {
				if err := f.SetArgs(make([]int, k)...); err == nil {
					c.Fail("%d arguments accepted", k)
				}
			}
			t, err := f.Table(g)
			rows, cols := 1<<g, g+1
			if nm == "bits" {
				cols = 1 << g
			}
			detTable(c, "table", t, err, rows, cols, func(r int) int {
				switch nm {
				case "count-true":
					return g - bits.OnesCount(uint(r))
				case "count-false":
					return bits.OnesCount(uint(r))
				}
				v := 0
				for _, p := range parentsOf(r, g) {
					v *= 2
					if p {
						v++
					}
				}
				return v
			})
			if len(t) > 0 {
				t[0] = 9
			}
		}
		// counts
		for _, nm := range []string{"count-is", "count-less", "count-greater"} {
			ctor := map[string]func(int) logic.Factor{"count-is": logic.CountIs, "count-less": logic.CountLess, "count-greater": logic.CountGreater}[nm]
			v := c.Intn(g+3) - 1
			f, _ := logic.Get(nm)
			via := "name"
			if c.Intn(2) == 0 {
				f, via = ctor(v), "constructor"
			}
			c.input = func() string { return fmt.Sprintf("%s %d (by %s) with %d parents", nm, v, via, g) }
			c.Case(c.input())
			if via == "name" || c.Intn(2) == 0 {
				_ = f.SetArgs(c.Intn(5))
				_ = f.SetArgs(c.Intn(5), 2)
				_ = f.SetArgs()
				if err := f.SetArgs(v); err != nil {
					c.Fail("SetArgs: %v", err)
				}
			}
			t, err := f.Table(g)
			detTable(c, "table", t, err, 1<<g, 2, func(r int) int {
				cnt := g - bits.OnesCount(uint(r))
				switch nm {
				case "count-is":
					return tf(cnt == v)
				case "count-less":
					return tf(cnt < v)
				}
				return tf(cnt > v)
			})
			for _, k := range []int{0, 2, 3} {
				if err := f.SetArgs(make([]int, k)...); err == nil {
					c.Fail("%d arguments accepted", k)
				}
			}
		}
		// parent index
		for _, nm := range []string{"given", "given-not", "given-excl"} {
			if g == 0 {
				continue
			}
			ctor := map[string]func(int) logic.Factor{"given": logic.Given, "given-not": logic.GivenNot, "given-excl": logic.GivenExcl}[nm]
			v := c.Intn(g)
			f, _ := logic.Get(nm)
			via := "name"
			if c.Intn(2) == 0 {
				f, via = ctor(v), "constructor"
			}
			c.input = func() string { return fmt.Sprintf("%s %d (by %s) with %d parents", nm, v, via, g) }
			c.Case(c.input())
			if via == "name" || c.Intn(2) == 0 {
				_ = f.SetArgs(c.Intn(5))
				if err := f.SetArgs(v); err != nil {
					c.Fail("SetArgs: %v", err)
				}
			}
			t, err := f.Table(g)
			detTable(c, "table", t, err, 1<<g, 2, func(r int) int {
				p := parentsOf(r, g)
				switch nm {
				case "given":
					return tf(p[v])
				case "given-not":
					return tf(!p[v])
				}
				for i := range p {
					if p[i] != (i == v) {
						return 1
					}
				}
				return 0
			})
			for _, k := range []int{0, 2, 3} {
				if err := f.SetArgs(make([]int, k)...); err == nil {
					c.Fail("%d arguments accepted", k)
				}
			}
			for _, bad := range []int{-1, g, g + 1, 63, 64, 70} {
				if bad >= g || bad < 0 {
					f := ctor(bad)
					c.input = func() string { return fmt.Sprintf("%s %d (no such parent) with %d parents", nm, bad, g) }
					if t, err := f.Table(g); err == nil {
						c.Fail("accepted: %v", t)
					}
				}
			}
		}
		// outcomes
		for _, nm := range []string{"outcome-is", "outcome-is-not", "outcome-less", "outcome-greater", "outcome-either"} {
			l := 1 + c.Intn(9)
			if c.Intn(25) == 0 {
				l = 120 + c.Intn(400)
			}
			v := c.Intn(l)
			idx := []int{v}
			f, _ := logic.Get(nm)
			via := "name"
			if c.Intn(2) == 0 {
				via = "constructor"
				switch nm {
				case "outcome-is":
					f = logic.OutcomeIs(v, l)
				case "outcome-is-not":
					f = logic.OutcomeIsNot(v, l)
				case "outcome-less":
					f = logic.OutcomeLess(v, l)
				case "outcome-greater":
					f = logic.OutcomeGreater(v, l)
				case "outcome-either":
					idx = c.Perm(l)[:1+c.Intn(l)]
					f = logic.OutcomeEither(slices.Clone(idx), l)
				}
			} else {
				if nm == "outcome-either" {
					idx = c.Perm(l)[:1+c.Intn(l)]
					if err := f.SetArgs(0, 1, 2, 3, 4); err != nil {
						c.Fail("SetArgs: %v", err)
					}
				} else {
					_ = f.SetArgs(c.Intn(2), 2)
				}
				args := append(slices.Clone(idx), l)
				if err := f.SetArgs(args...); err != nil {
					c.Fail("SetArgs(%v): %v", args, err)
				}
			}
			c.input = func() string { return fmt.Sprintf("%s %v of %d outcomes (by %s)", nm, idx, l, via) }
			c.Case(c.input())
			for round := 0; round < 2; round++ {
				t, err := f.Table(1)
				detTable(c, "table", t, err, l, 2, func(r int) int {
					switch nm {
					case "outcome-is":
						return tf(r == v)
					case "outcome-is-not":
						return tf(r != v)
					case "outcome-less":
						return tf(r < v)
					case "outcome-either":
						return tf(slices.Contains(idx, r))
					}
					if r == v {
						return -1
					}
					return tf(r > v)
				})
				for i := range t {
					t[i] = 5
				}
			}
			for _, g := range []int{0, 2, 3} {
				if t, err := f.Table(g); err == nil {
					c.Fail("%d parents accepted: %v", g, t)
				}
			}
			bad := []int{0, 1, 3}
			if nm == "outcome-either" {
				bad = []int{0, 1}
			}
			for _, k := range bad {
				if err := f.SetArgs(make([]int, k)...); err == nil {
					c.Fail("%d arguments accepted", k)
				}
			}
		}
	})
}

func init() {
	register("C12", "every Boolean operator by name and by constructor, every number of parents 0-6 and of arguments 0-3, tables overwritten between calls; all distinct cases are run", checkC12)
	register("C13", "counting, index, outcome and bits operators by name and constructor, 0-12 parents, random valid arguments and argument histories, wrong counts; every row of every table; non-trivial: every (operator, arguments, size)", checkC13)
}
