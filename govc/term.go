package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync/atomic"
)

// Term is an SMT-LIB term. Leaves have no Args. Quantifiers have Bound set.
type Term struct {
	Op    string
	Args  []*Term
	Sort  string
	Bound []BVar
	Pats  [][]*Term
	str   atomic.Pointer[string]
}

// BVar is a bound variable of a quantifier.
type BVar struct{ Name, Sort string }

const (
	sInt   = "Int"
	sReal  = "Real"
	sBool  = "Bool"
	sStr   = "Str"
	sSlice = "Slice"
	sPtr   = "Ptr"
	sIface = "Iface"
	sFn    = "Fn"
)

func arr(k, v string) string { return "(Array " + k + " " + v + ")" }

// arrParts splits "(Array K V)".
func arrParts(s string) (string, string, bool) {
	if !strings.HasPrefix(s, "(Array ") {
		return "", "", false
	}
	in := s[7 : len(s)-1]
	depth := 0
	for i, c := range in {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return in[:i], in[i+1:], true
			}
		}
	}
	return "", "", false
}

func (t *Term) String() string {
	if p := t.str.Load(); p != nil {
		return *p
	}
	var b strings.Builder
	t.write(&b)
	r := b.String()
	t.str.Store(&r)
	return r
}

func (t *Term) write(b *strings.Builder) {
	if t.Bound != nil {
		b.WriteString("(" + t.Op + " (")
		for i, v := range t.Bound {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString("(" + v.Name + " " + v.Sort + ")")
		}
		b.WriteString(") ")
		if len(t.Pats) > 0 {
			b.WriteString("(! ")
		}
		b.WriteString(t.Args[0].String())
		if len(t.Pats) > 0 {
			for _, p := range t.Pats {
				b.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						b.WriteByte(' ')
					}
					b.WriteString(x.String())
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		}
		b.WriteString(")")
		return
	}
	if len(t.Args) == 0 {
		b.WriteString(t.Op)
		return
	}
	b.WriteString("(" + t.Op)
	for _, a := range t.Args {
		b.WriteByte(' ')
		b.WriteString(a.String())
	}
	b.WriteByte(')')
}

func app(sort, op string, args ...*Term) *Term { return &Term{Op: op, Args: args, Sort: sort} }
func cst(name, sort string) *Term              { return &Term{Op: name, Sort: sort} }

var (
	tTrue  = cst("true", sBool)
	tFalse = cst("false", sBool)
)

func num(n int64) *Term {
	if n < 0 {
		return &Term{Op: fmt.Sprintf("(- %d)", -n), Sort: sInt}
	}
	return &Term{Op: fmt.Sprintf("%d", n), Sort: sInt}
}

func ratTerm(r *big.Rat) *Term {
	neg := r.Sign() < 0
	a := new(big.Rat).Abs(r)
	s := a.Num().String() + ".0"
	if !a.IsInt() {
		s = "(/ " + a.Num().String() + ".0 " + a.Denom().String() + ".0)"
	}
	if neg {
		s = "(- " + s + ")"
	}
	return &Term{Op: s, Sort: sReal}
}

func (t *Term) isNum() (int64, bool) {
	if t.Sort != sInt || len(t.Args) > 0 {
		return 0, false
	}
	s := t.Op
	neg := false
	if strings.HasPrefix(s, "(- ") {
		neg = true
		s = s[3 : len(s)-1]
	}
	var n int64
	if len(s) == 0 || len(s) > 17 {
		return 0, false
	}
	for _, c := range s {
		if c < '0' || c > '9' {
			return 0, false
		}
		n = n*10 + int64(c-'0')
	}
	if neg {
		n = -n
	}
	return n, true
}

func same(a, b *Term) bool { return a == b || a.String() == b.String() }

func and(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		if t.Op == "and" && t.Bound == nil {
			out = append(out, t.Args...)
			continue
		}
		if t.Op == "true" {
			continue
		}
		if t.Op == "false" {
			return tFalse
		}
		out = append(out, t)
	}
	switch len(out) {
	case 0:
		return tTrue
	case 1:
		return out[0]
	}
	return app(sBool, "and", out...)
}

func or(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		if t.Op == "false" {
			continue
		}
		if t.Op == "true" {
			return tTrue
		}
		out = append(out, t)
	}
	switch len(out) {
	case 0:
		return tFalse
	case 1:
		return out[0]
	}
	return app(sBool, "or", out...)
}

func not(t *Term) *Term {
	switch t.Op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return t.Args[0]
	}
	return app(sBool, "not", t)
}

func implies(a, b *Term) *Term {
	if a.Op == "true" {
		return b
	}
	if a.Op == "false" || b.Op == "true" {
		return tTrue
	}
	return app(sBool, "=>", a, b)
}

func eq(a, b *Term) *Term {
	if same(a, b) {
		return tTrue
	}
	if x, ok := a.isNum(); ok {
		if y, ok := b.isNum(); ok && x != y {
			return tFalse
		}
	}
	return app(sBool, "=", a, b)
}

func ite(c, a, b *Term) *Term {
	if c.Op == "true" || same(a, b) {
		return a
	}
	if c.Op == "false" {
		return b
	}
	return app(a.Sort, "ite", c, a, b)
}

func cmpT(op string, a, b *Term) *Term {
	if x, ok := a.isNum(); ok {
		if y, ok := b.isNum(); ok {
			r := false
			switch op {
			case "<":
				r = x < y
			case "<=":
				r = x <= y
			case ">":
				r = x > y
			case ">=":
				r = x >= y
			}
			if r {
				return tTrue
			}
			return tFalse
		}
	}
	return app(sBool, op, a, b)
}

func le(a, b *Term) *Term { return cmpT("<=", a, b) }
func lt(a, b *Term) *Term { return cmpT("<", a, b) }

func add(a, b *Term) *Term {
	if x, ok := a.isNum(); ok {
		if y, ok := b.isNum(); ok {
			return num(x + y)
		}
		if x == 0 {
			return b
		}
	}
	if y, ok := b.isNum(); ok {
		if y == 0 {
			return a
		}
		// (x + c1) + c2
		if a.Op == "+" && len(a.Args) == 2 {
			if c, ok := a.Args[1].isNum(); ok {
				return add(a.Args[0], num(c+y))
			}
		}
	}
	return app(a.Sort, "+", a, b)
}

func sub(a, b *Term) *Term {
	if y, ok := b.isNum(); ok {
		if y == 0 {
			return a
		}
		return add(a, num(-y))
	}
	if same(a, b) && a.Sort == sInt {
		return num(0)
	}
	return app(a.Sort, "-", a, b)
}

func mul(a, b *Term) *Term {
	if x, ok := a.isNum(); ok {
		if y, ok := b.isNum(); ok {
			return num(x * y)
		}
		if x == 1 {
			return b
		}
		if x == 0 {
			return a
		}
	}
	if y, ok := b.isNum(); ok {
		if y == 1 {
			return a
		}
		if y == 0 {
			return b
		}
	}
	return app(a.Sort, "*", a, b)
}

func sel(a, i *Term) *Term {
	_, v, ok := arrParts(a.Sort)
	if !ok {
		panic("sel on " + a.Sort + ": " + a.String())
	}
	if a.Op == "store" && same(a.Args[1], i) {
		return a.Args[2]
	}
	return app(v, "select", a, i)
}

func store(a, i, v *Term) *Term { return app(a.Sort, "store", a, i, v) }

func constArr(sort string, v *Term) *Term {
	return &Term{Op: "((as const " + sort + ") " + v.String() + ")", Sort: sort}
}

func forall(bs []BVar, body *Term, pats ...[]*Term) *Term {
	if body.Op == "true" {
		return tTrue
	}
	if len(bs) == 0 {
		return body
	}
	return &Term{Op: "forall", Bound: bs, Args: []*Term{body}, Sort: sBool, Pats: pats}
}

func exists(bs []BVar, body *Term, pats ...[]*Term) *Term {
	if len(bs) == 0 {
		return body
	}
	return &Term{Op: "exists", Bound: bs, Args: []*Term{body}, Sort: sBool, Pats: pats}
}

// symbols collects all identifiers used in a term (including those inside literal text).
func (t *Term) symbols(out map[string]bool) {
	splitSyms(t.Op, out)
	for _, a := range t.Args {
		a.symbols(out)
	}
	for _, p := range t.Pats {
		for _, x := range p {
			x.symbols(out)
		}
	}
	for _, b := range t.Bound {
		splitSyms(b.Sort, out)
	}
}

func splitSyms(s string, out map[string]bool) {
	if !strings.ContainsAny(s, "() ") {
		out[s] = true
		return
	}
	for _, w := range strings.FieldsFunc(s, func(r rune) bool { return r == '(' || r == ')' || r == ' ' }) {
		out[w] = true
	}
}

// subst replaces constants by name.
func (t *Term) subst(m map[string]*Term) *Term {
	if len(t.Args) == 0 && t.Bound == nil {
		if r, ok := m[t.Op]; ok {
			return r
		}
		return t
	}
	if t.Bound != nil {
		mm := map[string]*Term{}
		for k, v := range m {
			mm[k] = v
		}
		for _, b := range t.Bound {
			delete(mm, b.Name)
		}
		m = mm
	}
	n := &Term{Op: t.Op, Sort: t.Sort, Bound: t.Bound}
	n.Args = make([]*Term, len(t.Args))
	for i, a := range t.Args {
		n.Args[i] = a.subst(m)
	}
	for _, p := range t.Pats {
		var q []*Term
		for _, x := range p {
			q = append(q, x.subst(m))
		}
		n.Pats = append(n.Pats, q)
	}
	return n
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
