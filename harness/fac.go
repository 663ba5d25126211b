package main

import (
	"fmt"
	"math"
	"slices"

	"github.com/mlange-42/bbn/ve"
)

// vv is a ve variable together with what was asked for when it was created.
type vv struct {
	v  ve.Variable
	id int
	n  int
	tp ve.NodeType
}

func (v vv) String() string { return fmt.Sprintf("v%d(%d)", v.id, v.n) }

// fac is the oracle's view of a factor: ids and sizes in order, and the values in row-major order.
type fac struct {
	vars []vv
	data []float64
}

func (f fac) String() string { return fmt.Sprintf("%v%v", f.vars, f.data) }

func size(vars []vv) int {
	n := 1
	for _, v := range vars {
		n *= v.n
	}
	return n
}

// each calls fn for every combination of outcomes, last variable fastest.
func each(vars []vv, fn func(a map[int]int, flat int)) {
	n := size(vars)
	for flat := 0; flat < n; flat++ {
		a := map[int]int{}
		r := flat
		for i := len(vars) - 1; i >= 0; i-- {
			a[vars[i].id] = r % vars[i].n
			r /= vars[i].n
		}
		fn(a, flat)
	}
}

func flatOf(vars []vv, a map[int]int) int {
	idx := 0
	for _, v := range vars {
		idx = idx*v.n + a[v.id]
	}
	return idx
}

func (f fac) at(a map[int]int) float64 { return f.data[flatOf(f.vars, a)] }

// compare checks a real factor against an expected table.
func compare(c *Ctx, what string, got *ve.Factor, want fac) {
	gv := got.Variables()
	if len(gv) != len(want.vars) {
		c.Fail("%s: has %d variables, expected %v", what, len(gv), want.vars)
	}
	for i := range gv {
		if gv[i].Id() != want.vars[i].id {
			c.Fail("%s: variable %d has id %d, expected %v", what, i, gv[i].Id(), want.vars)
		}
	}
	if len(got.Data()) != size(want.vars) {
		c.Fail("%s: has %d values, expected %d", what, len(got.Data()), size(want.vars))
	}
	each(want.vars, func(a map[int]int, flat int) {
		if !near(got.Data()[flat], want.data[flat]) {
			c.Fail("%s: value at %v (position %d) is %v, expected %v", what, a, flat, got.Data()[flat], want.data[flat])
		}
	})
}

// compareSet is compare without regard for the order of the variables.
func compareSet(c *Ctx, what string, got *ve.Factor, vars []vv, want func(a map[int]int) float64) {
	gv := got.Variables()
	ord := []vv{}
	for i := range gv {
		k := slices.IndexFunc(vars, func(v vv) bool { return v.id == gv[i].Id() })
		if k < 0 || slices.ContainsFunc(ord, func(v vv) bool { return v.id == gv[i].Id() }) {
			c.Fail("%s: unexpected variable id %d; expected exactly %v", what, gv[i].Id(), vars)
		}
		ord = append(ord, vars[k])
	}
	if len(ord) != len(vars) {
		c.Fail("%s: variables %v, expected exactly %v", what, ord, vars)
	}
	if len(got.Data()) != size(ord) {
		c.Fail("%s: has %d values, expected %d", what, len(got.Data()), size(ord))
	}
	each(ord, func(a map[int]int, flat int) {
		if w := want(a); !near(got.Data()[flat], w) {
			c.Fail("%s: value at %v (position %d) is %v, expected %v", what, a, flat, got.Data()[flat], w)
		}
	})
}

type snapshot struct {
	what string
	f    *ve.Factor
	id   int
	data []float64
	vars []ve.Variable
}

func snap(what string, f *ve.Factor) snapshot {
	return snapshot{what, f, f.Id(), slices.Clone(f.Data()), slices.Clone(f.Variables())}
}

func eqBits(a, b []float64) bool {
	return slices.EqualFunc(a, b, func(x, y float64) bool { return math.Float64bits(x) == math.Float64bits(y) })
}

func (s snapshot) check(c *Ctx, op string) {
	if s.f.Id() != s.id || !eqBits(s.f.Data(), s.data) || !slices.Equal(s.f.Variables(), s.vars) {
		c.Fail("%s changed its operand %s: was %v %v, is %v %v", op, s.what, s.vars, s.data, s.f.Variables(), s.f.Data())
	}
}

// genVars makes a pool of variables.
func genVars(c *Ctx, n int) (*ve.Variables, []vv) {
	vs := ve.NewVariables()
	pool := []vv{}
	perm := c.Perm(n + 3)
	for i := 0; i < n; i++ {
		out := 1 + c.Intn(3)
		switch c.Intn(14) {
		case 0:
			out = 4 + c.Intn(3)
		case 1:
			out = 9 + c.Intn(4)
		}
		if n == 1 && c.Intn(25) == 0 {
			out = 250 + c.Intn(20)
		}
		if n == 1 && c.Intn(60) == 0 {
			out = 32760 + c.Intn(20)
		}
		id := i
		if c.Intn(3) == 0 {
			id = 1000 + perm[i]
		}
		tp := ve.NodeType(c.Intn(3))
		pool = append(pool, vv{vs.AddVariable(id, tp, uint16(out)), id, out, tp})
	}
	return vs, pool
}

func pick(c *Ctx, pool []vv, k int) []vv {
	p := c.Perm(len(pool))
	r := []vv{}
	for _, i := range p[:k] {
		r = append(r, pool[i])
	}
	return r
}

func raw(vars []vv) []ve.Variable {
	r := make([]ve.Variable, len(vars))
	for i, v := range vars {
		r[i] = v.v
	}
	return r
}

func genValue(c *Ctx) float64 {
	switch c.Intn(10) {
	case 0:
		return 0
	case 1:
		return -float64(1 + c.Intn(9))
	case 2:
		return c.Float64()
	case 3:
		return float64(c.Intn(1000)) * 1e3
	}
	return float64(1 + c.Intn(7))
}

func genFactor(c *Ctx, vs *ve.Variables, vars []vv) (ve.Factor, fac) {
	data := make([]float64, size(vars))
	for i := range data {
		data[i] = genValue(c)
	}
	scaleData(c, data)
	f := fac{vars, slices.Clone(data)}
	return vs.CreateFactor(raw(vars), data), f
}

// genPositive is genFactor without negative values, so that longer computations lose no digits to cancellation.
func genPositive(c *Ctx, vs *ve.Variables, vars []vv) (ve.Factor, fac) {
	data := make([]float64, size(vars))
	for i := range data {
		data[i] = math.Abs(genValue(c))
	}
	scaleData(c, data)
	f := fac{vars, slices.Clone(data)}
	return vs.CreateFactor(raw(vars), data), f
}

// scaleData sometimes makes all values, or some, very large or very small.
func scaleData(c *Ctx, data []float64) {
	if c.Intn(8) > 0 {
		return
	}
	sc := math.Pow(10, float64(c.Intn(40)-20))
	all := c.Intn(2) == 0
	for i := range data {
		if all || c.Intn(3) == 0 {
			data[i] *= sc
		}
	}
}

// tolFor sets the absolute tolerance for sums over the values of the operands.
func tolFor(os ...fac) {
	s := 0.0
	for _, o := range os {
		for _, x := range o.data {
			s = math.Max(s, math.Abs(x))
		}
	}
	absTol = 1e-12 * s
}

// genShape picks distinct variables whose table stays small.
func genShape(c *Ctx, pool []vv, maxVars, maxSize int) []vv {
	for {
		k := c.Intn(min(maxVars, len(pool)) + 1)
		s := pick(c, pool, k)
		if size(s) <= maxSize {
			return s
		}
	}
}

// genTable is a shape, mostly small, now and then with many thousand cells.
func genTable(c *Ctx, n int) (*ve.Variables, []vv, []vv) {
	if n%300 != 40 {
		vs, pool := genVars(c, 1+c.Intn(7))
		return vs, pool, genShape(c, pool, 7, 3000)
	}
	vs, pool := ve.NewVariables(), []vv{}
	dims := [][]int{{2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2}, {17, 17, 17}, {70, 70}, {3, 3, 3, 3, 3, 3, 3, 3}, {5, 1, 4, 9, 30}}[c.Intn(5)]
	for i, d := range dims {
		pool = append(pool, vv{vs.AddVariable(i, ve.ChanceNode, uint16(d)), i, d, ve.ChanceNode})
	}
	return vs, pool, pick(c, pool, len(pool))
}

func without(vars []vv, id int) []vv {
	r := []vv{}
	for _, v := range vars {
		if v.id != id {
			r = append(r, v)
		}
	}
	return r
}

func with(a map[int]int, id, o int) map[int]int {
	b := map[int]int{}
	for k, v := range a {
		b[k] = v
	}
	b[id] = o
	return b
}

func fromFn(vars []vv, fn func(a map[int]int) float64) fac {
	f := fac{vars, make([]float64, size(vars))}
	each(vars, func(a map[int]int, flat int) { f.data[flat] = fn(a) })
	return f
}

func init() {
	register("C05", "random table shapes (0-7 variables, 1-12 outcomes, sometimes >250 or >32000), every position and combination of each; non-trivial: at least two cells", checkC05)
	register("C06", "2-4 (also 0, 1) random factors over a shared pool, random variable orders; every cell of product and sum; non-trivial: two operands with at least one variable", checkC06)
	register("C07", "random factors, each variable summed out / marginalised; every cell; non-trivial: at least two variables", checkC07)
	register("C08", "random factors, each variable and each outcome incl. out-of-range; every cell; non-trivial: at least two variables", checkC08)
	register("C09", "random factors, random permutations and, through a solved network, random name lists; non-trivial: at least two variables", checkC09)
	register("C02", "random factors with zero rows, each variable; whole-table normalisation; row scaling in random networks; non-trivial: at least two variables", checkC02)
}

func checkC05(c *Ctx) {
	c.Until(func(n int) {
		vs, pool := genVars(c, 1+c.Intn(7))
		shape := genShape(c, pool, 7, 40000)
		if n < 60 {
			shape = pool[:min(len(pool), 3)]
			if size(shape) > 40000 {
				return
			}
		}
		f, o := genFactor(c, vs, shape)
		c.input = func() string { return fmt.Sprintf("factor over %v", shape) }
		sig := ""
		if size(shape) > 1 {
			sig = fmt.Sprint(shape)
		}
		c.Case(sig)
		seen := map[int]bool{}
		each(shape, func(a map[int]int, flat int) {
			idx := make([]int, len(shape))
			for i, v := range shape {
				idx[i] = a[v.id]
			}
			keep := slices.Clone(idx)
			got := f.Index(idx)
			if got != flat {
				c.Fail("Index(%v) = %d, mixed-radix value is %d", idx, got, flat)
			}
			if seen[got] {
				c.Fail("Index(%v) = %d is not unique", idx, got)
			}
			seen[got] = true
			g2, ok := f.IndexWithNoData(idx)
			if !ok || g2 != flat {
				c.Fail("IndexWithNoData(%v) = %d, %v, expected %d, true", idx, g2, ok, flat)
			}
			back := make([]int, len(shape))
			for i := range back {
				back[i] = c.Intn(5)
			}
			f.Outcomes(flat, back)
			if !slices.Equal(back, idx) {
				c.Fail("Outcomes(%d) = %v, expected %v", flat, back, idx)
			}
			if v := f.Get(idx); v != o.data[flat] {
				c.Fail("Get(%v) = %v, expected %v", idx, v, o.data[flat])
			}
			if !slices.Equal(keep, idx) {
				c.Fail("an index operation changed its argument %v to %v", keep, idx)
			}
			if len(shape) > 0 {
				last := shape[len(shape)-1]
				row := idx[:len(idx)-1]
				start := flat - idx[len(idx)-1]
				ri, ln := f.RowIndex(row)
				if ri != start || ln != last.n {
					c.Fail("RowIndex(%v) = %d, %d, expected %d, %d", row, ri, ln, start, last.n)
				}
				r := f.Row(row)
				if len(r) != last.n || r[idx[len(idx)-1]] != o.data[flat] {
					c.Fail("Row(%v) = %v, expected %v", row, r, o.data[start:start+last.n])
				}
			}
		})
		// writes touch exactly one position
		if size(shape) > 0 {
			for k := 0; k < 3; k++ {
				flat := c.Intn(size(shape))
				idx := make([]int, len(shape))
				f.Outcomes(flat, idx)
				val := 5000 + c.Float64()
				f.Set(idx, val)
				o.data[flat] = val
				if !eqBits(f.Data(), o.data) {
					c.Fail("Set(%v) gave %v, expected %v", idx, f.Data(), o.data)
				}
			}
		}
		// missing data and wrong lengths
		for i := range shape {
			idx := make([]int, len(shape))
			for j, v := range shape {
				idx[j] = c.Intn(v.n)
			}
			idx[i] = -1
			if g, ok := f.IndexWithNoData(idx); ok {
				c.Fail("IndexWithNoData(%v) = %d, true although data is missing", idx, g)
			}
		}
		for _, d := range []int{-1, 1, 2} {
			l := len(shape) + d
			if l >= 0 {
				idx := make([]int, l)
				for name, op := range map[string]func(){
					"Index": func() { f.Index(idx) }, "IndexWithNoData": func() { f.IndexWithNoData(idx) },
					"Outcomes": func() { f.Outcomes(0, idx) }, "Get": func() { f.Get(idx) }, "Set": func() { f.Set(idx, 1) },
				} {
					if p, _ := Panics(op); !p {
						c.Fail("%s accepts %d indices for %d variables", name, l, len(shape))
					}
				}
			}
			if l-1 >= 0 {
				idx := make([]int, l-1)
				if p, _ := Panics(func() { f.RowIndex(idx) }); !p {
					c.Fail("RowIndex accepts %d indices for %d variables", l-1, len(shape))
				}
				if p, _ := Panics(func() { f.Row(idx) }); !p {
					c.Fail("Row accepts %d indices for %d variables", l-1, len(shape))
				}
			}
		}
		if n%40 == 7 {
			bigShape(c)
		}
		// rows of network tables
		if n%3 == 0 {
			netRows(c)
		}
	})
}

// bigShape samples positions of tables with more than 65536 cells.
func bigShape(c *Ctx) {
	vs := ve.NewVariables()
	shape := []vv{}
	dims := [][]int{{257, 300}, {300, 257}, {70, 40, 60}, {3, 200, 150}, {2, 3, 181, 190}, {65535, 2}, {2, 65535}}[c.Intn(7)]
	for i, n := range dims {
		shape = append(shape, vv{vs.AddVariable(i, ve.ChanceNode, uint16(n)), i, n, ve.ChanceNode})
	}
	f := vs.CreateFactor(raw(shape), nil)
	c.input = func() string { return fmt.Sprintf("factor over %v", shape) }
	c.Case(c.input())
	for k := 0; k < 60; k++ {
		idx := make([]int, len(shape))
		flat := 0
		for i, v := range shape {
			idx[i] = c.Intn(v.n)
			if c.Intn(3) == 0 {
				idx[i] = v.n - 1
			}
			flat = flat*v.n + idx[i]
		}
		if got := f.Index(idx); got != flat {
			c.Fail("Index(%v) = %d, mixed-radix value is %d", idx, got, flat)
		}
		if got, ok := f.IndexWithNoData(idx); got != flat || !ok {
			c.Fail("IndexWithNoData(%v) = %d, %v, mixed-radix value is %d", idx, got, ok, flat)
		}
		back := make([]int, len(shape))
		f.Outcomes(flat, back)
		if !slices.Equal(back, idx) {
			c.Fail("Outcomes(%d) = %v, expected %v", flat, back, idx)
		}
		last := len(idx) - 1
		if ri, ln := f.RowIndex(idx[:last]); ri != flat-idx[last] || ln != shape[last].n {
			c.Fail("RowIndex(%v) = %d, %d, expected %d, %d", idx[:last], ri, ln, flat-idx[last], shape[last].n)
		}
		val := c.Float64()
		f.Set(idx, val)
		if f.Data()[flat] != val || f.Get(idx) != val {
			c.Fail("Set(%v) does not write position %d", idx, flat)
		}
	}
}

func checkC06(c *Ctx) {
	c.Until(func(n int) {
		vs, pool := genVars(c, 1+c.Intn(7))
		k := c.Intn(5)
		if k == 0 && c.Intn(4) > 0 {
			k = 2
		}
		fs, os, snaps := []ve.Factor{}, []fac{}, []snapshot{}
		union := []vv{}
		ids := map[int]bool{}
		nt := 0
		for i := 0; i < k; i++ {
			sh := genShape(c, pool, 6, 600)
			f, o := genFactor(c, vs, sh)
			fs, os = append(fs, f), append(os, o)
			if len(sh) > 0 {
				nt++
			}
			for _, v := range sh {
				if !ids[v.id] {
					ids[v.id] = true
					union = append(union, v)
				}
			}
		}
		if size(union) > 5000 {
			return
		}
		c.input = func() string { return fmt.Sprintf("factors %v", os) }
		sig := ""
		if nt > 1 {
			sig = c.input()
		}
		c.Case(sig)
		ptr := []*ve.Factor{}
		for i := range fs {
			ptr = append(ptr, &fs[i])
			if c.Intn(12) == 0 { // the same factor twice
				ptr = append(ptr, &fs[i])
				os = slices.Insert(os, len(ptr)-1, os[len(ptr)-2])
			}
			snaps = append(snaps, snap(fmt.Sprint(i), &fs[i]))
		}
		keep := slices.Clone(ptr)
		p := vs.Product(ptr...)
		absTol = 0
		compareSet(c, "product", &p, union, func(a map[int]int) float64 {
			r := 1.0
			for _, o := range os {
				r *= o.at(a)
			}
			return r
		})
		s := vs.Sum(ptr...)
		tolFor(os...)
		compareSet(c, "sum", &s, union, func(a map[int]int) float64 {
			r := 0.0
			for _, o := range os {
				r += o.at(a)
			}
			return r
		})
		if !slices.Equal(keep, ptr) {
			c.Fail("product or sum changed the list of operands")
		}
		// results are independent of the operands
		for i := range p.Data() {
			p.Data()[i] = -77
		}
		for i := range s.Data() {
			s.Data()[i] = -78
		}
		for _, sn := range snaps {
			sn.check(c, "product/sum (or writing its result)")
		}
	})
}

func checkC07(c *Ctx) {
	c.Until(func(n int) {
		vs, pool, sh := genTable(c, n)
		f, o := genFactor(c, vs, sh)
		c.input = func() string { return fmt.Sprintf("factor %v", o) }
		sig := ""
		if len(sh) > 1 {
			sig = c.input()
		}
		c.Case(sig)
		s := snap("f", &f)
		tolFor(o)
		for _, v := range sh {
			r := vs.SumOut(&f, v.v)
			compare(c, fmt.Sprintf("SumOut(%v)", v), &r, fromFn(without(sh, v.id), func(a map[int]int) float64 {
				sum := 0.0
				for k := 0; k < v.n; k++ {
					sum += o.at(with(a, v.id, k))
				}
				return sum
			}))
			m := vs.Marginal(&f, v.v)
			want := fac{[]vv{v}, make([]float64, v.n)}
			each(sh, func(a map[int]int, flat int) { want.data[a[v.id]] += o.data[flat] })
			compare(c, fmt.Sprintf("Marginal(%v)", v), &m, want)
			s.check(c, "SumOut/Marginal")
			for i := range r.Data() {
				r.Data()[i] = 1e6
			}
			for i := range m.Data() {
				m.Data()[i] = 1e6
			}
			s.check(c, "writing the result of SumOut/Marginal")
		}
		for _, v := range pool {
			if !slices.ContainsFunc(sh, func(x vv) bool { return x.id == v.id }) {
				if p, _ := Panics(func() { vs.SumOut(&f, v.v) }); !p {
					c.Fail("SumOut of %v, which is not in the factor, is accepted", v)
				}
				if p, _ := Panics(func() { vs.Marginal(&f, v.v) }); !p {
					c.Fail("Marginal of %v, which is not in the factor, is accepted", v)
				}
			}
		}
	})
}

func checkC08(c *Ctx) {
	c.Until(func(n int) {
		vs, pool, sh := genTable(c, n)
		f, o := genFactor(c, vs, sh)
		c.input = func() string { return fmt.Sprintf("factor %v", o) }
		sig := ""
		if len(sh) > 1 {
			sig = c.input()
		}
		c.Case(sig)
		s := snap("f", &f)
		for _, v := range pool {
			in := slices.ContainsFunc(sh, func(x vv) bool { return x.id == v.id })
			step := 1
			if v.n > 40 {
				step = v.n / 7
			}
			for k := 0; in && k < v.n; k += step {
				absTol = 0
				r := vs.Restrict(&f, v.v, k)
				compare(c, fmt.Sprintf("Restrict(%v = %d)", v, k), &r, fromFn(without(sh, v.id), func(a map[int]int) float64 { return o.at(with(a, v.id, k)) }))
				s.check(c, "Restrict")
				for i := range r.Data() {
					r.Data()[i] = 1e6
				}
				s.check(c, "writing the result of Restrict")
			}
			for _, k := range []int{-1, -2, v.n, v.n + 1, v.n + 65536} {
				if p, _ := Panics(func() { vs.Restrict(&f, v.v, k) }); !p {
					c.Fail("Restrict(%v = %d) is accepted", v, k)
				}
			}
			if !in {
				if p, _ := Panics(func() { vs.Restrict(&f, v.v, 0) }); !p {
					c.Fail("Restrict of %v, which is not in the factor, is accepted", v)
				}
			}
		}
	})
}

func checkC09(c *Ctx) {
	c.Until(func(n int) {
		vs, pool, sh := genTable(c, n)
		f, o := genFactor(c, vs, sh)
		c.input = func() string { return fmt.Sprintf("factor %v", o) }
		sig := ""
		if len(sh) > 1 {
			sig = c.input()
		}
		c.Case(sig)
		s := snap("f", &f)
		for k := 0; k < 4; k++ {
			p := pick(c, sh, len(sh))
			if k == 0 {
				p = sh
			}
			order := raw(p)
			absTol = 0
			r := vs.Rearrange(&f, order)
			compare(c, fmt.Sprintf("Rearrange(%v)", p), &r, fromFn(p, o.at))
			if !slices.Equal(order, raw(p)) {
				c.Fail("Rearrange changed its argument")
			}
			for i := range r.Data() {
				r.Data()[i] = 1e6
			}
			s.check(c, "Rearrange (or writing its result)")
		}
		for _, v := range pool {
			if len(sh) > 0 && !slices.ContainsFunc(sh, func(x vv) bool { return x.id == v.id }) {
				p := slices.Clone(sh)
				p[c.Intn(len(p))] = v
				if q, _ := Panics(func() { vs.Rearrange(&f, raw(p)) }); !q {
					c.Fail("Rearrange(%v) is accepted for variables %v", p, sh)
				}
			}
		}
		if n%4 == 0 {
			netRearrange(c)
		}
	})
}

func checkC02(c *Ctx) {
	c.Until(func(n int) {
		vs, pool := genVars(c, 1+c.Intn(6))
		sh := genShape(c, pool, 6, 2000)
		_, o := genFactor(c, vs, sh)
		for i := range o.data {
			o.data[i] = math.Abs(o.data[i])
			if c.Intn(4) == 0 {
				o.data[i] = 0
			}
		}
		if c.Intn(15) == 0 {
			for i := range o.data {
				o.data[i] *= 1e-12
			}
		}
		if len(sh) > 0 && c.Intn(3) == 0 { // a zero row
			last := sh[len(sh)-1].n
			r := c.Intn(len(o.data) / last)
			for k := 0; k < last; k++ {
				o.data[r*last+k] = 0
			}
		}
		f := vs.CreateFactor(raw(sh), slices.Clone(o.data))
		c.input = func() string { return fmt.Sprintf("factor %v", o) }
		sig := ""
		if len(sh) > 1 {
			sig = c.input()
		}
		c.Case(sig)
		s := snap("f", &f)
		for _, v := range sh {
			absTol = 0
			r := vs.NormalizeFor(&f, v.v)
			rest := without(sh, v.id)
			compare(c, fmt.Sprintf("NormalizeFor(%v)", v), &r, fromFn(append(slices.Clone(rest), v), func(a map[int]int) float64 {
				sum := 0.0
				for k := 0; k < v.n; k++ {
					sum += o.at(with(a, v.id, k))
				}
				if sum == 0 {
					return o.at(a)
				}
				return o.at(a) / sum
			}))
			s.check(c, "NormalizeFor")
		}
		total := 0.0
		for _, x := range o.data {
			total += x
		}
		if total != 0 {
			absTol = 0
			r := vs.Normalize(&f)
			compare(c, "Normalize", &r, fromFn(sh, func(a map[int]int) float64 { return o.at(a) / total }))
			s.check(c, "Normalize")
		}
		for _, v := range pool {
			if !slices.ContainsFunc(sh, func(x vv) bool { return x.id == v.id }) {
				if p, _ := Panics(func() { vs.NormalizeFor(&f, v.v) }); !p {
					c.Fail("NormalizeFor of %v, which is not in the factor, is accepted", v)
				}
			}
		}
		if n%3 == 0 {
			netScaling(c)
		}
	})
}
