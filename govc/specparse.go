package main

import (
	"fmt"
	"strings"
	"unicode"
)

// SExpr is a parsed specification expression.
type SExpr struct {
	Op   string // "id","num","real","str","call","field","index","update","forall","exists","lam","ite","let","unary:x", or binary operator
	Name string
	Args []*SExpr
	Vars []SVar
	Pats [][]*SExpr
	Line int
	File string
}

// SVar is a typed variable.
type SVar struct {
	Name string
	Type *SType
}

// SType is a parsed type.
type SType struct {
	Kind string // name, array, slice, ptr, map
	Name string
	K, V *SType
}

// SStmt is a ghost statement.
type SStmt struct {
	Kind  string // assert, use, if, let, obtain, fix
	E     *SExpr
	Name  string
	Vars  []SVar
	Pats  [][]*SExpr
	Cond  *SExpr
	Body  []*SStmt
	Else  []*SStmt
	Label string
	Line  int
	File  string
}

// Clause is a labelled formula.
type Clause struct {
	Label string
	E     *SExpr
}

// LoopSpec is the contract of one loop.
type LoopSpec struct {
	Inv                                   []Clause
	Modifies                              []*SExpr
	HasModifies                           bool
	Before, Begin, End, After, Exit, Body []*SStmt
	Decreases                             *SExpr
}

// Contract of a Go function.
type Contract struct {
	Key        string
	Params     []string
	Results    []string
	Requires   []Clause
	Ensures    []Clause
	Panics     *SExpr
	Modifies   []*SExpr
	Loops      map[int]*LoopSpec
	Entry      []*SStmt
	Exit       []*SStmt
	Trusted    string
	Props      []string
	Modular    []string // properties under which the callees' contracts are taken as decided elsewhere
	Decreases  *SExpr
	MayPanic   bool
	AllowFDiv0 bool
	Hints      map[string][]*SStmt // before call hints: "call:Name#n"
	Locals     []SLocal
	Inline     []string
	File       string
	Line       int
	Iface      bool
}

// SLocal declares a local variable used in invariants, for matching after renames.
type SLocal struct {
	Name string
	Type string
}

// Define is a specification function.
type Define struct {
	Name       string
	Params     []SVar
	Ret        *SType
	Body       *SExpr
	Decreases  *SExpr
	Decreases2 *SExpr
	Recursive  bool
	Opaque     bool
	File       string
	Line       int
}

// Macro is expanded in the state where it is used.
type Macro struct {
	Name   string
	Params []string
	Body   *SExpr
}

// Axiom is a trusted formula.
type Axiom struct {
	Name string
	E    *SExpr
	Why  string
}

// Lemma is a proved formula.
type Lemma struct {
	Name       string
	Params     []SVar
	Requires   []Clause
	Ensures    []Clause
	Decreases  *SExpr
	Decreases2 *SExpr
	Body       []*SStmt
	File       string
	Line       int
	Trusted    string
	Props      []string
}

// Datatype is a record.
type Datatype struct {
	Name   string
	Fields []SVar
}

// Specs is everything read from contract files.
type Specs struct {
	Datatypes  map[string]*Datatype
	DTOrder    []string
	Defines    map[string]*Define
	DefOrder   []string
	Declares   map[string]*Define
	Macros     map[string]*Macro
	Axioms     []*Axiom
	Lemmas     map[string]*Lemma
	LemmaOrder []string
	Contracts  map[string]*Contract
	ConOrder   []string
	Sorts      []string
}

type tok struct {
	kind string // id num real str op eof
	text string
	line int
}

type sparser struct {
	toks []tok
	p    int
	file string
	sp   *Specs
}

type specErr struct{ msg string }

func (e specErr) Error() string { return e.msg }

func lexSpec(file, src string) []tok {
	var out []tok
	line := 1
	i := 0
	ops := []string{"<==>", "==>", "::", ":=", "==", "!=", "<=", ">=", "&&", "||", "..", "<<", ">>"}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "//"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case unicode.IsLetter(rune(c)) || c == '_' || c == '$':
			j := i
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j])) || src[j] == '_' || src[j] == '$' || src[j] == '\'') {
				j++
			}
			out = append(out, tok{"id", src[i:j], line})
			i = j
		case unicode.IsDigit(rune(c)):
			j := i
			k := "num"
			for j < len(src) && (unicode.IsDigit(rune(src[j])) || (src[j] == '.' && j+1 < len(src) && unicode.IsDigit(rune(src[j+1])))) {
				if src[j] == '.' {
					k = "real"
				}
				j++
			}
			out = append(out, tok{k, src[i:j], line})
			i = j
		case c == '"':
			j := i + 1
			for src[j] != '"' {
				j++
			}
			out = append(out, tok{"str", src[i+1 : j], line})
			i = j + 1
		default:
			found := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					out = append(out, tok{"op", o, line})
					i += len(o)
					found = true
					break
				}
			}
			if !found {
				out = append(out, tok{"op", string(c), line})
				i++
			}
		}
	}
	return append(out, tok{"eof", "", line})
}

func newSpecs() *Specs {
	return &Specs{Datatypes: map[string]*Datatype{}, Defines: map[string]*Define{}, Declares: map[string]*Define{},
		Macros: map[string]*Macro{}, Lemmas: map[string]*Lemma{}, Contracts: map[string]*Contract{}}
}

func (sp *Specs) parseFile(file, src string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				err = e
				return
			}
			panic(r)
		}
	}()
	p := &sparser{toks: lexSpec(file, src), file: file, sp: sp}
	for !p.at("eof", "") {
		p.decl()
	}
	return nil
}

func (p *sparser) peek() tok { return p.toks[p.p] }
func (p *sparser) next() tok {
	t := p.toks[p.p]
	p.p++
	return t
}
func (p *sparser) at(kind, text string) bool {
	t := p.peek()
	return t.kind == kind && (text == "" || t.text == text)
}
func (p *sparser) op(s string) bool { return p.at("op", s) }
func (p *sparser) kw(s string) bool { return p.at("id", s) }
func (p *sparser) acceptOp(s string) bool {
	if p.op(s) {
		p.p++
		return true
	}
	return false
}
func (p *sparser) acceptKw(s string) bool {
	if p.kw(s) {
		p.p++
		return true
	}
	return false
}
func (p *sparser) fail(f string, a ...any) {
	panic(specErr{fmt.Sprintf("%s:%d: %s (at %q)", p.file, p.peek().line, fmt.Sprintf(f, a...), p.peek().text)})
}
func (p *sparser) expect(s string) {
	if !p.acceptOp(s) {
		p.fail("expected %q", s)
	}
}
func (p *sparser) ident() string {
	if !p.at("id", "") {
		p.fail("expected identifier")
	}
	return p.next().text
}

func (p *sparser) typ() *SType {
	if p.acceptOp("[") {
		if p.acceptOp("]") {
			return &SType{Kind: "slice", V: p.typ()}
		}
		k := p.typ()
		p.expect("]")
		return &SType{Kind: "array", K: k, V: p.typ()}
	}
	if p.acceptOp("*") {
		return &SType{Kind: "ptr", V: p.typ()}
	}
	n := p.ident()
	if n == "map" {
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return &SType{Kind: "map", K: k, V: p.typ()}
	}
	if p.acceptOp(".") {
		n += "." + p.ident()
	}
	return &SType{Kind: "name", Name: n}
}

func (p *sparser) vars(end string) []SVar {
	var vs []SVar
	for !p.op(end) {
		names := []string{p.ident()}
		for p.acceptOp(",") {
			names = append(names, p.ident())
		}
		p.expect(":")
		t := p.typ()
		for _, n := range names {
			vs = append(vs, SVar{n, t})
		}
		if !p.acceptOp(",") {
			break
		}
	}
	return vs
}

func (p *sparser) names(end string) []string {
	var vs []string
	for !p.op(end) {
		vs = append(vs, p.ident())
		if !p.acceptOp(",") {
			break
		}
	}
	return vs
}

func (p *sparser) decl() {
	sp := p.sp
	line := p.peek().line
	switch k := p.ident(); k {
	case "sort":
		sp.Sorts = append(sp.Sorts, p.ident())
		p.expect(";")
	case "datatype":
		d := &Datatype{Name: p.ident()}
		p.expect("{")
		d.Fields = p.vars("}")
		p.expect("}")
		sp.Datatypes[d.Name] = d
		sp.DTOrder = append(sp.DTOrder, d.Name)
	case "declare":
		d := &Define{Name: p.ident(), File: p.file, Line: line}
		p.expect("(")
		d.Params = p.vars(")")
		p.expect(")")
		p.expect(":")
		d.Ret = p.typ()
		p.expect(";")
		sp.Declares[d.Name] = d
	case "define", "opaque":
		d := &Define{Name: p.ident(), Opaque: k == "opaque", File: p.file, Line: line}
		p.expect("(")
		d.Params = p.vars(")")
		p.expect(")")
		p.expect(":")
		d.Ret = p.typ()
		if p.acceptKw("decreases") {
			d.Decreases = p.expr()
			if p.acceptOp(",") {
				d.Decreases2 = p.expr()
			}
			d.Recursive = true
		}
		p.expect("=")
		d.Body = p.expr()
		p.expect(";")
		if sp.Defines[d.Name] != nil {
			p.fail("duplicate define %s", d.Name)
		}
		sp.Defines[d.Name] = d
		sp.DefOrder = append(sp.DefOrder, d.Name)
	case "macro":
		m := &Macro{Name: p.ident()}
		p.expect("(")
		m.Params = p.names(")")
		p.expect(")")
		p.expect("=")
		m.Body = p.expr()
		p.expect(";")
		sp.Macros[m.Name] = m
	case "axiom":
		a := &Axiom{Name: p.ident()}
		if p.at("str", "") {
			a.Why = p.next().text
		}
		p.expect("=")
		a.E = p.expr()
		p.expect(";")
		sp.Axioms = append(sp.Axioms, a)
	case "lemma":
		l := &Lemma{Name: p.ident(), File: p.file, Line: line}
		p.expect("(")
		l.Params = p.vars(")")
		p.expect(")")
		for {
			if p.acceptKw("requires") {
				l.Requires = append(l.Requires, p.clause())
			} else if p.acceptKw("ensures") {
				l.Ensures = append(l.Ensures, p.clause())
			} else if p.acceptKw("decreases") {
				l.Decreases = p.expr()
				if p.acceptOp(",") {
					l.Decreases2 = p.expr()
				}
				p.expect(";")
			} else if p.acceptKw("trusted") {
				l.Trusted = p.next().text
				p.expect(";")
			} else if p.acceptKw("property") {
				for !p.op(";") {
					l.Props = append(l.Props, p.next().text)
				}
				p.expect(";")
			} else {
				break
			}
		}
		if p.op("{") {
			l.Body = p.block()
		} else if l.Trusted == "" {
			p.fail("lemma without body")
		}
		if sp.Lemmas[l.Name] != nil {
			p.fail("duplicate lemma %s", l.Name)
		}
		sp.Lemmas[l.Name] = l
		sp.LemmaOrder = append(sp.LemmaOrder, l.Name)
	case "func", "iface":
		c := &Contract{Loops: map[int]*LoopSpec{}, Hints: map[string][]*SStmt{}, File: p.file, Line: line, Iface: k == "iface"}
		c.Key = p.ident()
		for p.acceptOp(".") {
			c.Key += "." + p.ident()
		}
		p.expect("(")
		c.Params = p.names(")")
		p.expect(")")
		if p.acceptKw("returns") {
			p.expect("(")
			c.Results = p.names(")")
			p.expect(")")
		}
		p.funcClauses(c)
		if sp.Contracts[c.Key] != nil {
			p.fail("duplicate contract %s", c.Key)
		}
		sp.Contracts[c.Key] = c
		sp.ConOrder = append(sp.ConOrder, c.Key)
	default:
		p.fail("unknown declaration %q", k)
	}
}

func (p *sparser) clause() Clause {
	c := Clause{}
	if p.acceptOp("@") {
		if p.at("str", "") {
			c.Label = p.next().text
		} else {
			c.Label = p.ident()
		}
	}
	c.E = p.expr()
	p.expect(";")
	return c
}

func (p *sparser) exprList() []*SExpr {
	var out []*SExpr
	for {
		out = append(out, p.expr())
		if !p.acceptOp(",") {
			break
		}
	}
	p.expect(";")
	return out
}

func (p *sparser) funcClauses(c *Contract) {
	for {
		switch {
		case p.acceptKw("requires"):
			c.Requires = append(c.Requires, p.clause())
		case p.acceptKw("ensures"):
			c.Ensures = append(c.Ensures, p.clause())
		case p.acceptKw("panics"):
			c.Panics = p.expr()
			p.expect(";")
		case p.acceptKw("maypanic"):
			c.MayPanic = true
			p.expect(";")
		case p.acceptKw("allowfdiv0"):
			c.AllowFDiv0 = true
			p.expect(";")
		case p.acceptKw("modifies"):
			c.Modifies = append(c.Modifies, p.exprList()...)
		case p.acceptKw("decreases"):
			c.Decreases = p.expr()
			p.expect(";")
		case p.acceptKw("trusted"):
			c.Trusted = p.next().text
			p.expect(";")
		case p.acceptKw("property"):
			for !p.op(";") {
				c.Props = append(c.Props, p.next().text)
			}
			p.expect(";")
		case p.acceptKw("modular"):
			for !p.op(";") {
				c.Modular = append(c.Modular, p.next().text)
			}
			p.expect(";")
		case p.acceptKw("inline"):
			for !p.op(";") {
				s := p.ident()
				for p.acceptOp(".") {
					s += "." + p.ident()
				}
				c.Inline = append(c.Inline, s)
			}
			p.expect(";")
		case p.acceptKw("entry"):
			c.Entry = append(c.Entry, p.block()...)
		case p.acceptKw("exit"):
			c.Exit = append(c.Exit, p.block()...)
		case p.acceptKw("aftercall"):
			n := "after:" + p.ident()
			for p.acceptOp(".") {
				n += "." + p.ident()
			}
			if p.acceptOp("#") {
				n += "#" + p.next().text
			}
			c.Hints[n] = p.block()
		case p.acceptKw("beforecall"):
			n := "before:" + p.ident()
			for p.acceptOp(".") {
				n += "." + p.ident()
			}
			if p.acceptOp("#") {
				n += "#" + p.next().text
			}
			c.Hints[n] = p.block()
		case p.acceptKw("loop"):
			n := 0
			fmt.Sscanf(p.next().text, "%d", &n)
			l := &LoopSpec{}
			c.Loops[n] = l
			p.expect("{")
			for !p.acceptOp("}") {
				switch {
				case p.acceptKw("invariant"):
					l.Inv = append(l.Inv, p.clause())
				case p.acceptKw("modifies"):
					l.HasModifies = true
					if p.acceptOp(";") {
						break
					}
					l.Modifies = append(l.Modifies, p.exprList()...)
				case p.acceptKw("decreases"):
					l.Decreases = p.expr()
					p.expect(";")
				case p.acceptKw("before"):
					l.Before = append(l.Before, p.block()...)
				case p.acceptKw("begin"):
					l.Begin = append(l.Begin, p.block()...)
				case p.acceptKw("end"):
					l.End = append(l.End, p.block()...)
				case p.acceptKw("after"):
					l.After = append(l.After, p.block()...)
				default:
					p.fail("bad loop clause")
				}
			}
		default:
			return
		}
	}
}

func (p *sparser) block() []*SStmt {
	p.expect("{")
	var out []*SStmt
	for !p.acceptOp("}") {
		out = append(out, p.stmt())
	}
	return out
}

func (p *sparser) stmt() *SStmt {
	s := &SStmt{Line: p.peek().line, File: p.file}
	switch {
	case p.acceptKw("assert"):
		s.Kind = "assert"
		if p.acceptOp("@") {
			s.Label = p.ident()
		}
		s.E = p.expr()
		if p.acceptKw("by") {
			s.Body = p.block()
			s.Kind = "assertby"
			p.acceptOp(";")
			return s
		}
		p.expect(";")
	case p.acceptKw("assume"):
		s.Kind = "assume"
		s.Label = p.next().text
		s.E = p.expr()
		p.expect(";")
	case p.acceptKw("use"):
		s.Kind = "use"
		if p.acceptKw("forall") {
			s.Vars = p.vars("::")
			s.Pats = p.pats()
			p.expect("::")
		}
		s.E = p.expr()
		p.expect(";")
	case p.acceptKw("ifdef"):
		s.Kind = "ifdef"
		s.Name = p.ident()
		s.Body = p.block()
		if p.acceptKw("else") {
			s.Else = p.block()
		}
	case p.acceptKw("if"):
		s.Kind = "if"
		s.Cond = p.expr()
		s.Body = p.block()
		if p.acceptKw("else") {
			if p.kw("if") {
				s.Else = []*SStmt{p.stmt()}
			} else {
				s.Else = p.block()
			}
		}
	case p.acceptKw("let"):
		s.Kind = "let"
		s.Name = p.ident()
		p.expect("=")
		s.E = p.expr()
		p.expect(";")
	case p.acceptKw("obtain"):
		s.Kind = "obtain"
		s.Vars = p.vars("::")
		s.Pats = p.pats()
		if p.acceptOp("|") {
			s.Cond = p.expr()
		}
		p.expect("::")
		s.E = p.expr()
		p.expect(";")
	case p.acceptKw("fix"):
		s.Kind = "fix"
		s.Vars = p.vars("|")
		s.Pats = p.pats()
		if p.acceptOp("|") {
			s.Cond = p.expr()
		}
		s.Body = p.block()
		if !p.acceptKw("show") {
			p.fail("expected show")
		}
		s.E = p.expr()
		p.expect(";")
	default:
		p.fail("bad statement")
	}
	return s
}

func (p *sparser) pats() [][]*SExpr {
	var out [][]*SExpr
	for p.op("{") {
		p.next()
		var l []*SExpr
		for {
			l = append(l, p.expr())
			if !p.acceptOp(",") {
				break
			}
		}
		p.expect("}")
		out = append(out, l)
	}
	return out
}

func (p *sparser) mk(op string, args ...*SExpr) *SExpr {
	return &SExpr{Op: op, Args: args, Line: p.peek().line, File: p.file}
}

func (p *sparser) expr() *SExpr {
	if p.kw("forall") || p.kw("exists") || p.kw("lam") {
		op := p.next().text
		e := p.mk(op)
		e.Vars = p.vars("::")
		e.Pats = p.pats()
		p.expect("::")
		e.Args = []*SExpr{p.expr()}
		return e
	}
	if p.acceptKw("let") {
		e := p.mk("let")
		e.Name = p.ident()
		p.expect("=")
		a := p.expr()
		if !p.acceptKw("in") {
			p.fail("expected in")
		}
		e.Args = []*SExpr{a, p.expr()}
		return e
	}
	c := p.iff()
	if p.acceptOp("?") {
		a := p.expr()
		p.expect(":")
		b := p.expr()
		return p.mk("ite", c, a, b)
	}
	return c
}

func (p *sparser) iff() *SExpr {
	a := p.imp()
	for p.acceptOp("<==>") {
		a = p.mk("<==>", a, p.imp())
	}
	return a
}

func (p *sparser) imp() *SExpr {
	a := p.or()
	if p.acceptOp("==>") {
		if p.kw("forall") || p.kw("exists") || p.kw("let") {
			return p.mk("==>", a, p.expr())
		}
		return p.mk("==>", a, p.imp())
	}
	return a
}

func (p *sparser) or() *SExpr {
	a := p.and()
	for p.acceptOp("||") {
		a = p.mk("||", a, p.and())
	}
	return a
}

func (p *sparser) and() *SExpr {
	a := p.cmp()
	for p.acceptOp("&&") {
		if p.kw("forall") || p.kw("exists") || p.kw("let") {
			return p.mk("&&", a, p.expr())
		}
		a = p.mk("&&", a, p.cmp())
	}
	return a
}

func (p *sparser) cmp() *SExpr {
	a := p.sum()
	var res *SExpr
	for {
		op := ""
		for _, o := range []string{"==", "!=", "<=", ">=", "<", ">"} {
			if p.op(o) {
				op = o
			}
		}
		if p.kw("in") && res == nil && p.inOK() {
			op = "in"
		}
		if op == "" {
			break
		}
		p.next()
		b := p.sum()
		c := p.mk(op, a, b)
		if res == nil {
			res = c
		} else {
			res = p.mk("&&", res, c)
		}
		a = b
	}
	if res == nil {
		return a
	}
	return res
}

func (p *sparser) inOK() bool { return false }

func (p *sparser) sum() *SExpr {
	a := p.term()
	for p.op("+") || p.op("-") {
		o := p.next().text
		a = p.mk(o, a, p.term())
	}
	return a
}

func (p *sparser) term() *SExpr {
	a := p.unary()
	for p.op("*") || p.op("/") || p.op("%") {
		o := p.next().text
		a = p.mk(o, a, p.unary())
	}
	return a
}

func (p *sparser) unary() *SExpr {
	if p.acceptOp("!") {
		return p.mk("not", p.unary())
	}
	if p.acceptOp("-") {
		return p.mk("neg", p.unary())
	}
	if p.acceptOp("*") {
		return p.mk("deref", p.unary())
	}
	return p.postfix()
}

func (p *sparser) postfix() *SExpr {
	e := p.primary()
	for {
		switch {
		case p.op("(") && e.Op == "id":
			p.next()
			c := p.mk("call")
			c.Name = e.Name
			for !p.op(")") {
				c.Args = append(c.Args, p.expr())
				if !p.acceptOp(",") {
					break
				}
			}
			p.expect(")")
			e = c
		case p.op("."):
			p.next()
			f := p.mk("field", e)
			f.Name = p.ident()
			e = f
		case p.op("["):
			p.next()
			i := p.expr()
			if p.acceptOp(":=") {
				v := p.expr()
				p.expect("]")
				e = p.mk("update", e, i, v)
			} else {
				p.expect("]")
				e = p.mk("index", e, i)
			}
		default:
			return e
		}
	}
}

func (p *sparser) primary() *SExpr {
	t := p.peek()
	switch {
	case t.kind == "num" || t.kind == "real" || t.kind == "str":
		p.next()
		e := p.mk(t.kind)
		e.Name = t.text
		return e
	case t.kind == "id":
		p.next()
		e := p.mk("id")
		e.Name = t.text
		return e
	case p.op("("):
		p.next()
		e := p.expr()
		p.expect(")")
		return e
	}
	p.fail("unexpected token in expression")
	return nil
}
