// Command govc is a deductive verifier for a subset of Go: it generates verification
// conditions from the type-checked source of the repository and from contract files,
// and discharges them with SMT solvers.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type outObl struct {
	Name   string `json:"name"`
	Kind   string `json:"kind"`
	Pos    string `json:"pos"`
	Status string `json:"status"`
	Solver string `json:"solver,omitempty"`
	Ms     int64  `json:"ms"`
	Why    string `json:"why,omitempty"`
	Script string `json:"script,omitempty"`
}

type outFn struct {
	Name        string   `json:"name"`
	Obligations int      `json:"obligations"`
	Trivial     int      `json:"trivial"`
	Discharged  int      `json:"discharged"`
	Ms          int64    `json:"ms"`
	Calls       []string `json:"calls,omitempty"`
}

type outT struct {
	Props       []string       `json:"props"`
	Functions   []*outFn       `json:"functions"`
	Lemmas      []*outFn       `json:"lemmas"`
	Definitions int            `json:"definitions"`
	Obligations int            `json:"obligations"`
	Discharged  int            `json:"discharged"`
	Trivial     int            `json:"trivial"`
	Probes      int            `json:"probes"`
	ProbesOK    int            `json:"probes_ok"`
	BySolver    map[string]int `json:"by_solver"`
	SolverMs    int64          `json:"solver_ms"`
	Failed      []*outObl      `json:"failed"`
	Trusted     []string       `json:"trusted"`
	Assumed     []string       `json:"assumed"` // contracts of callees, decided by the checks of the properties named
	Axioms      []string       `json:"axioms"`
	Slow        []*outObl      `json:"slow"`
	Wall        float64        `json:"wall_s"`
	Error       string         `json:"error,omitempty"`
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	cdir := flag.String("contracts", "/verif/contracts", "contract files")
	props := flag.String("props", "", "properties (comma separated)")
	only := flag.String("only", "", "functions or lemma:NAME (comma separated; no closure)")
	all := flag.Bool("all", false, "everything")
	maxFail := flag.Int("maxfail", 0, "stop trying after so many failures")
	probe := flag.Int("probe", 400, "solver timeout of vacuity probes (ms)")
	timeout := flag.Int("timeout", 30, "solver timeout (final stage)")
	jsonOut := flag.String("json", "", "write result")
	keep := flag.Bool("keep", false, "keep scripts")
	verbose := flag.Bool("v", false, "verbose")
	debug := flag.Bool("debug", false, "panic on internal errors")
	work := flag.String("work", "", "script directory")
	gen := flag.Bool("gen", false, "generate only")
	obl := flag.String("obl", "", "only obligations whose name contains this")
	noprobe := flag.Bool("noprobe", false, "no vacuity probes")
	flag.Parse()
	start := time.Now()
	tmp := ""
	out := &outT{BySolver: map[string]int{}}
	finish := func(code int) {
		out.Wall = time.Since(start).Seconds()
		if *jsonOut != "" {
			b, _ := json.MarshalIndent(out, "", " ")
			os.WriteFile(*jsonOut, b, 0o644)
		}
		if tmp != "" && !*keep {
			os.RemoveAll(tmp)
		}
		os.Exit(code)
	}
	die := func(err error) {
		fmt.Fprintln(os.Stderr, "govc:", err)
		out.Error = err.Error()
		finish(3)
	}
	prog, err := loadProg(*repo, "./...")
	if err != nil {
		die(err)
	}
	sp := newSpecs()
	files, _ := filepath.Glob(filepath.Join(*cdir, "*.gvc"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			die(err)
		}
		if err := sp.parseFile(filepath.Base(f), string(b)); err != nil {
			die(err)
		}
	}
	e := newEngine(prog, sp)
	e.timeout = *timeout
	e.probeMs = *probe
	e.maxFail = *maxFail
	e.debug = *debug
	e.keep = *keep
	e.noProbe = *noprobe
	if err := e.prepare(); err != nil {
		die(err)
	}
	if *work != "" {
		e.workDir = *work
		os.MkdirAll(*work, 0o755)
	} else {
		d, err := os.MkdirTemp("", "govc")
		if err != nil {
			die(err)
		}
		e.workDir = d
		tmp = d
	}
	want := map[string]bool{}
	for _, p := range strings.Split(*props, ",") {
		if p != "" {
			want[p] = true
			out.Props = append(out.Props, p)
		}
	}
	var queue []string
	done := map[string]bool{}
	push := func(k string) {
		if !done[k] {
			done[k] = true
			queue = append(queue, k)
		}
	}
	closure := *only == ""
	modular := map[string]bool{}
	var mods []string
	assumed := map[string]bool{}
	if *only != "" {
		for _, k := range strings.Split(*only, ",") {
			push(k)
		}
	} else {
		for _, k := range sp.ConOrder {
			c := sp.Contracts[k]
			hit := *all
			for _, p := range c.Props {
				if want[p] {
					hit = true
				}
			}
			mod := false
			for _, p := range c.Modular {
				if want[p] {
					mod = true
				}
			}
			if hit {
				push(k)
			} else if mod {
				mods = append(mods, k)
			}
		}
		if *all {
			for _, l := range sp.LemmaOrder {
				push("lemma:" + l)
			}
		}
		for _, l := range sp.LemmaOrder {
			for _, p := range sp.Lemmas[l].Props {
				if want[p] {
					push("lemma:" + l)
				}
			}
		}
	}
	trusted := map[string]bool{}
	var xs []*X
	for len(queue) > 0 || len(mods) > 0 {
		if len(queue) == 0 {
			k := mods[0]
			mods = mods[1:]
			if !done[k] {
				modular[k] = true
				push(k)
			}
			continue
		}
		k := queue[0]
		queue = queue[1:]
		if strings.HasPrefix(k, "define:") {
			d := sp.Defines[k[7:]]
			if d == nil {
				die(fmt.Errorf("no definition %s", k))
			}
			if d.Decreases != nil && selfRec(d, d.Body) {
				xs = append(xs, e.verifyDefine(d))
			}
			continue
		}
		if strings.HasPrefix(k, "lemma:") {
			l := sp.Lemmas[k[6:]]
			if l == nil {
				die(fmt.Errorf("no lemma %s", k))
			}
			if l.Trusted != "" {
				trusted[k+": "+l.Trusted] = true
				continue
			}
			xs = append(xs, e.verifyLemma(l))
		} else {
			c := sp.Contracts[k]
			if c == nil {
				die(fmt.Errorf("no contract %s", k))
			}
			if c.Trusted != "" {
				trusted[k+": "+c.Trusted] = true
				continue
			}
			if c.Iface {
				continue
			}
			xs = append(xs, e.verifyFunc(c))
		}
		if closure {
			for _, g := range sortedKeys(e.calls[k]) {
				if modular[k] {
					assumed[g] = true
				} else {
					push(g)
				}
			}
			for _, g := range sortedKeys(e.lemmaUse[k]) {
				push("lemma:" + g)
			}
			syms := map[string]bool{}
			for _, o := range xs[len(xs)-1].obls {
				for _, f := range o.Facts {
					f.symbols(syms)
				}
				o.Goal.symbols(syms)
			}
			for s := range syms {
				if strings.HasPrefix(s, "F_") {
					n := strings.TrimSuffix(s[2:], "$0")
					if _, ok := sp.Defines[n]; ok {
						push("define:" + n)
						for _, m := range e.defDeps(n) {
							push("define:" + m)
						}
					}
				}
			}
		}
	}
	if *obl != "" {
		for _, x := range xs {
			var keepO []*Obligation
			for _, o := range x.obls {
				if strings.Contains(o.Name, *obl) {
					keepO = append(keepO, o)
				}
			}
			x.obls = keepO
		}
	}
	if *gen {
		for _, x := range xs {
			for _, o := range x.obls {
				fmt.Println(o.Name, o.Pos, o.Status, o.Why)
				if *verbose {
					fmt.Println("    ", o.Goal)
				}
				if !o.Probe {
					out.Obligations++
				}
			}
			switch of := (&outFn{Name: x.group}); {
			case strings.HasPrefix(x.group, "define:"):
				out.Definitions++
			case strings.HasPrefix(x.group, "lemma:"):
				out.Lemmas = append(out.Lemmas, of)
			default:
				out.Functions = append(out.Functions, of)
			}
		}
		out.Trusted = sortedKeys(trusted)
		for _, g := range sortedKeys(assumed) {
			if c := sp.Contracts[g]; !done[g] && c != nil && !c.Iface {
				out.Assumed = append(out.Assumed, g)
			}
		}
		finish(0)
	}
	e.solveAll(xs)
	// a probe that cannot be reached is fine when another path reaches the same place
	for _, x := range xs {
		live := map[string]bool{}
		for _, o := range x.obls {
			if o.Probe && o.Status == "ok" {
				live[probeBase(o.Name)] = true
			}
		}
		for _, o := range x.obls {
			if o.Probe && o.Status == "vacuous" && live[probeBase(o.Name)] {
				o.Status, o.Why = "ok", "dead path"
			}
		}
	}
	usedAx := map[string]bool{}
	var slow []*outObl
	for _, x := range xs {
		of := &outFn{Name: x.group, Trivial: e.trivialBy[x.group]}
		for g := range e.calls[x.group] {
			of.Calls = append(of.Calls, g)
		}
		sort.Strings(of.Calls)
		for _, o := range x.obls {
			if o.Probe {
				out.Probes++
				if o.Status == "ok" {
					out.ProbesOK++
				}
			} else {
				out.Obligations++
				of.Obligations++
			}
			out.SolverMs += o.Ms
			of.Ms += o.Ms
			oo := &outObl{Name: o.Name, Kind: o.Kind, Pos: o.Pos, Status: o.Status, Solver: o.Solver, Ms: o.Ms, Why: o.Why}
			switch {
			case o.Status == "proved":
				out.Discharged++
				of.Discharged++
				out.BySolver[o.Solver]++
				slow = append(slow, oo)
			case o.Probe && o.Status == "ok":
			default:
				out.Failed = append(out.Failed, oo)
			}
			if *verbose {
				fmt.Printf("%-10s %6dms %-8s %s (%s)\n", o.Status, o.Ms, o.Solver, o.Name, o.Pos)
			}
		}
		for _, a := range e.axiomsUsed(x) {
			usedAx[a] = true
		}
		out.Trivial += of.Trivial
		switch {
		case strings.HasPrefix(x.group, "define:"):
			out.Definitions++
		case strings.HasPrefix(x.group, "lemma:"):
			out.Lemmas = append(out.Lemmas, of)
		default:
			out.Functions = append(out.Functions, of)
		}
	}
	sort.Slice(slow, func(i, j int) bool { return slow[i].Ms > slow[j].Ms })
	if len(slow) > 8 {
		slow = slow[:8]
	}
	out.Slow = slow
	for a := range e.assumed {
		trusted[a] = true
	}
	out.Trusted = sortedKeys(trusted)
	for _, g := range sortedKeys(assumed) {
		if c := sp.Contracts[g]; !done[g] && c != nil && !c.Iface {
			out.Assumed = append(out.Assumed, g)
		}
	}
	out.Axioms = sortedKeys(usedAx)
	for _, f := range out.Failed {
		fmt.Printf("FAILED %s (%s) %s %s\n", f.Name, f.Pos, f.Status, f.Why)
	}
	fmt.Printf("functions %d lemmas %d obligations %d discharged %d trivial %d probes %d/%d solver %.1fs wall %.1fs\n",
		len(out.Functions), len(out.Lemmas), out.Obligations, out.Discharged, out.Trivial, out.ProbesOK, out.Probes, float64(out.SolverMs)/1000, time.Since(start).Seconds())
	if len(out.Failed) > 0 {
		finish(1)
	}
	finish(0)
}

// probeBase is the name of a probe without the number of the path.
func probeBase(n string) string {
	if i := strings.LastIndexByte(n, ']'); i >= 0 {
		return n[:i+1]
	}
	return n
}

func selfRec(d *Define, e *SExpr) bool {
	if e.Op == "call" && e.Name == d.Name {
		return true
	}
	for _, a := range e.Args {
		if selfRec(d, a) {
			return true
		}
	}
	return false
}

// defDeps lists definitions a definition's axioms mention, transitively.
func (e *Engine) defDeps(n string) []string {
	seen := map[string]bool{}
	var walk func(n string)
	walk = func(n string) {
		for _, a := range e.defAxioms["F_"+n] {
			s := map[string]bool{}
			a.symbols(s)
			for k := range s {
				if strings.HasPrefix(k, "F_") {
					m := strings.TrimSuffix(k[2:], "$0")
					if _, ok := e.sp.Defines[m]; ok && !seen[m] {
						seen[m] = true
						walk(m)
					}
				}
			}
		}
	}
	walk(n)
	return sortedKeys(seen)
}

func (e *Engine) axiomsUsed(x *X) []string {
	syms := map[string]bool{}
	for _, o := range x.obls {
		for _, f := range o.Facts {
			f.symbols(syms)
		}
		if o.Goal != nil {
			o.Goal.symbols(syms)
		}
	}
	var out []string
	for i, a := range e.userAxioms {
		for s := range a.syms {
			if strings.HasPrefix(s, "F_") && syms[s] {
				w := e.sp.Axioms[i].Why
				out = append(out, "axiom "+a.name+": "+w)
				break
			}
		}
	}
	return out
}
