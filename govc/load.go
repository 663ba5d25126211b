package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// Pkg is a type-checked source package of the repository under verification.
type Pkg struct {
	Path, Short string
	Types       *types.Package
	Info        *types.Info
	Files       []*ast.File
}

// Prog holds all packages loaded from source, and the functions found in them.
type Prog struct {
	Fset  *token.FileSet
	Pkgs  map[string]*Pkg // by import path
	Order []*Pkg
	Funcs map[string]*FuncDecl // by key, e.g. ve.factorVariables.Index, ve.New
	ByObj map[*types.Func]*FuncDecl
	// structs by SMT sort name
	sortType map[string]types.Type
	// source text for evidence
	Dir string
}

// FuncDecl is a function of the repository.
type FuncDecl struct {
	Key  string
	Obj  *types.Func
	Decl *ast.FuncDecl
	Pkg  *Pkg
	Init bool // the package's variable initialisers
}

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Standard   bool
	Module     *struct{ Main bool }
	Name       string
}

// loadProg type-checks the packages of the module in dir from source.
func loadProg(dir string, patterns ...string) (*Prog, error) {
	args := append([]string{"list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Standard,Module,Name"}, patterns...)
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("go list: %v: %s", err, errb.String())
	}
	p := &Prog{Fset: token.NewFileSet(), Pkgs: map[string]*Pkg{}, Funcs: map[string]*FuncDecl{},
		ByObj: map[*types.Func]*FuncDecl{}, sortType: map[string]types.Type{}, Dir: dir}
	exports := map[string]string{}
	var mine []listPkg
	dec := json.NewDecoder(&out)
	for {
		var lp listPkg
		if err := dec.Decode(&lp); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		exports[lp.ImportPath] = lp.Export
		if lp.Module != nil && lp.Module.Main {
			mine = append(mine, lp)
		}
	}
	gc := importer.ForCompiler(p.Fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	imp := importerFunc(func(path string) (*types.Package, error) {
		if q, ok := p.Pkgs[path]; ok {
			return q.Types, nil
		}
		return gc.Import(path)
	})
	for _, lp := range mine {
		pkg := &Pkg{Path: lp.ImportPath, Short: lp.Name}
		for _, f := range lp.GoFiles {
			af, err := parser.ParseFile(p.Fset, filepath.Join(lp.Dir, f), nil, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			pkg.Files = append(pkg.Files, af)
		}
		pkg.Info = &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{},
		}
		conf := types.Config{Importer: imp}
		tp, err := conf.Check(lp.ImportPath, p.Fset, pkg.Files, pkg.Info)
		if err != nil {
			return nil, err
		}
		pkg.Types = tp
		p.Pkgs[lp.ImportPath] = pkg
		p.Order = append(p.Order, pkg)
		for _, af := range pkg.Files {
			for _, d := range af.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				obj := pkg.Info.Defs[fd.Name].(*types.Func)
				k := funcKey(obj)
				if lp.Name == "main" {
					k = filepath.Base(lp.ImportPath) + "!" + k
				}
				f := &FuncDecl{Key: k, Obj: obj, Decl: fd, Pkg: pkg}
				p.Funcs[k] = f
				p.ByObj[obj] = f
			}
		}
		p.addInit(pkg)
	}
	return p, nil
}

// addInit presents the package's variable initialisers, in initialisation order, as function pkg.init!.
func (p *Prog) addInit(pkg *Pkg) {
	ids := map[types.Object]*ast.Ident{}
	for id, o := range pkg.Info.Defs {
		if v, ok := o.(*types.Var); ok && v.Parent() == pkg.Types.Scope() {
			ids[o] = id
		}
	}
	body := &ast.BlockStmt{}
	for _, in := range pkg.Info.InitOrder {
		a := &ast.AssignStmt{Tok: token.ASSIGN, TokPos: in.Rhs.Pos(), Rhs: []ast.Expr{in.Rhs}}
		for _, v := range in.Lhs {
			id := ids[v]
			if id == nil {
				id = ast.NewIdent("_")
			}
			a.Lhs = append(a.Lhs, id)
		}
		body.List = append(body.List, a)
		if body.Lbrace == token.NoPos {
			body.Lbrace = in.Rhs.Pos()
		}
		body.Rbrace = in.Rhs.End()
	}
	if len(body.List) == 0 {
		return
	}
	obj := types.NewFunc(body.Lbrace, pkg.Types, "init", types.NewSignatureType(nil, nil, nil, nil, nil, false))
	k := pkg.Types.Name() + ".init"
	if p.Funcs[k] != nil {
		return
	}
	fd := &ast.FuncDecl{Name: ast.NewIdent("init"), Type: &ast.FuncType{Func: body.Lbrace, Params: &ast.FieldList{}}, Body: body}
	p.Funcs[k] = &FuncDecl{Key: k, Obj: obj, Decl: fd, Pkg: pkg, Init: true}
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(p string) (*types.Package, error) { return f(p) }

// funcKey names a function: pkg.Func or pkg.Type.Method.
func funcKey(o *types.Func) string {
	pk := ""
	if o.Pkg() != nil {
		pk = o.Pkg().Name()
	}
	sig := o.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return pk + "." + n.Obj().Name() + "." + o.Name()
		}
		return pk + ".?." + o.Name()
	}
	return pk + "." + o.Name()
}

func (p *Prog) pos(n token.Pos) string {
	ps := p.Fset.Position(n)
	rel := strings.TrimPrefix(ps.Filename, p.Dir+"/")
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

// lookupType finds a named type pkg.Name in loaded packages.
func (p *Prog) lookupType(pkg, name string) types.Type {
	for _, q := range p.Order {
		if q.Types.Name() == pkg {
			if o := q.Types.Scope().Lookup(name); o != nil {
				if tn, ok := o.(*types.TypeName); ok {
					return tn.Type()
				}
			}
		}
	}
	return nil
}

// ---- Go types to SMT sorts ----

// SeqT is the type of a mathematical sequence view of a Go slice (an SMT array).
type SeqT struct{ Elem types.Type }

// Underlying implements types.Type.
func (s *SeqT) Underlying() types.Type { return s }
func (s *SeqT) String() string         { return "seq(" + s.Elem.String() + ")" }

func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// sortOf gives the SMT sort for a Go type.
func (p *Prog) sortOf(t types.Type) string {
	if s, ok := t.(*SeqT); ok {
		return arr(sInt, p.sortOf(s.Elem))
	}
	if isErrorType(t) {
		return sInt
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		i := u.Info()
		switch {
		case i&types.IsBoolean != 0:
			return sBool
		case i&types.IsInteger != 0:
			return sInt
		case i&types.IsFloat != 0:
			return sReal
		case i&types.IsString != 0:
			return sStr
		}
		if u.Kind() == types.UntypedNil {
			return sPtr
		}
	case *types.Slice:
		return sSlice
	case *types.Pointer:
		return sPtr
	case *types.Map:
		return sInt
	case *types.Interface:
		return sIface
	case *types.Signature:
		return sFn
	case *types.Array:
		return arr(sInt, p.sortOf(u.Elem()))
	case *types.Struct:
		n := p.structName(t)
		if n == "" {
			return ""
		}
		p.sortType[n] = t
		return n
	}
	return "Opaque"
}

func (p *Prog) structName(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		s := n.Obj().Name()
		if n.Obj().Pkg() != nil {
			q := n.Obj().Pkg().Name()
			if pp := n.Obj().Pkg().Path(); strings.HasPrefix(pp, "internal/") || strings.Contains(pp, "/internal/") && !strings.Contains(pp, "mlange-42/bbn") {
				q = strings.NewReplacer("/", "_", ".", "_", "-", "_").Replace(pp)
			}
			s = q + "_" + s
		}
		return "S_" + s
	}
	if a, ok := t.(*types.Alias); ok {
		return p.structName(types.Unalias(a))
	}
	st := t.Underlying().(*types.Struct)
	var b strings.Builder
	b.WriteString("S_anon")
	for i := 0; i < st.NumFields(); i++ {
		b.WriteString("_" + st.Field(i).Name())
	}
	return b.String()
}

// heapName of the heap storing elements of Go type t. Types with equal sorts but
// different Go types never alias, except through defined types over the same
// underlying type, which share the heap.
func (p *Prog) heapName(t types.Type) string { return "H_" + p.typeTag(t) }

func (p *Prog) typeTag(t types.Type) string {
	t = types.Unalias(t)
	if isErrorType(t) {
		return "error"
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Name()
	case *types.Slice:
		return "sl_" + p.typeTag(u.Elem())
	case *types.Pointer:
		return "p_" + p.typeTag(u.Elem())
	case *types.Map:
		return "m_" + p.typeTag(u.Key()) + "_" + p.typeTag(u.Elem())
	case *types.Struct:
		return p.structName(t)
	case *types.Interface:
		return "iface"
	case *types.Signature:
		return "fn"
	case *types.Array:
		return fmt.Sprintf("arr%d_%s", u.Len(), p.typeTag(u.Elem()))
	}
	return "opaque"
}

func (p *Prog) heapSort(t types.Type) string { return arr(sInt, arr(sInt, p.sortOf(t))) }

// field accessor name of a struct sort.
func fieldSel(sortName, field string) string { return sortName + "." + field }

func (p *Prog) structFields(t types.Type) *types.Struct {
	return t.Underlying().(*types.Struct)
}

// extFunc finds a library function imported by some loaded package.
func (p *Prog) extFunc(full string) *types.Func {
	i := strings.LastIndexByte(full, '.')
	if i < 0 {
		return nil
	}
	for _, pk := range p.Order {
		for _, im := range pk.Types.Imports() {
			if im.Path() == full[:i] {
				if f, ok := im.Scope().Lookup(full[i+1:]).(*types.Func); ok {
					return f
				}
			}
		}
	}
	return nil
}

// onlyImpl finds the single type of the repository whose pointer implements an interface.
func (p *Prog) onlyImpl(t types.Type, name string) (*types.Named, *types.Func) {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil, nil
	}
	var found *types.Named
	for _, pk := range p.Order {
		for _, n := range pk.Types.Scope().Names() {
			tn, ok := pk.Types.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || types.IsInterface(nt) {
				continue
			}
			if types.Implements(nt, it) {
				return nil, nil
			}
			if types.Implements(types.NewPointer(nt), it) {
				if found != nil {
					return nil, nil
				}
				found = nt
			}
		}
	}
	if found == nil {
		return nil, nil
	}
	o, _, _ := types.LookupFieldOrMethod(types.NewPointer(found), true, found.Obj().Pkg(), name)
	m, _ := o.(*types.Func)
	if m == nil {
		return nil, nil
	}
	return found, m
}
