// Concrete replay and bounded stand-in for the deductive checks: runs the real
// packages of /repo against brute-force oracles, over generated inputs.
// Built as a virtual package of /repo's module through go build -overlay.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// Failure is one failing input.
type Failure struct {
	Key   string `json:"key"` // class of the failure, matched against the known findings
	Input string `json:"input"`
	Msg   string `json:"msg"`
}

// Result is written as JSON.
type Result struct {
	Property    string    `json:"property"`
	Seed        int64     `json:"seed"`
	Evaluations int       `json:"evaluations"`
	Distinct    int       `json:"distinct_nontrivial"`
	Rule        string    `json:"rule"`
	Samples     []string  `json:"samples"`
	Failures    []Failure `json:"failures"`
	WallS       float64   `json:"wall_s"`
}

// Ctx is the state of one run.
type Ctx struct {
	*rand.Rand
	res      Result
	seen     map[string]bool
	deadline time.Time
	max      int
	keys     map[string]int
	maxCases int
	input    func() string
	work     string
	started  atomic.Int64 // start of the current case, in Unix seconds
	outFile  string
}

type stop struct{}

// Fail records a failing input and gives up on the current case.
func (c *Ctx) Fail(format string, args ...any) {
	c.FailKey("", format, args...)
	panic(stop{})
}

// FailKey records a failing input of a named class and goes on.
func (c *Ctx) FailKey(key, format string, args ...any) {
	c.keys[key]++
	if c.keys[key] > 3 {
		return
	}
	in := ""
	if c.input != nil {
		in = c.input()
	}
	if len(in) > 8000 {
		in = in[:8000] + "..."
	}
	c.res.Failures = append(c.res.Failures, Failure{Key: key, Input: in, Msg: fmt.Sprintf(format, args...)})
}

// Case counts a case; sig identifies it among the distinct non-trivial ones ("" for trivial).
func (c *Ctx) Case(sig string) {
	c.res.Evaluations++
	if sig == "" {
		return
	}
	if len(c.seen) < 2000000 && !c.seen[sig] {
		c.seen[sig] = true
		c.res.Distinct++
		if len(c.res.Samples) < 5 && c.Intn(10) == 0 {
			s := sig
			if len(s) > 600 {
				s = s[:600] + "..."
			}
			c.res.Samples = append(c.res.Samples, s)
		}
	}
}

// Run runs one case, turning a panic into a failure.
func (c *Ctx) Run(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); ok {
				return
			}
			st := string(debug.Stack())
			lines := strings.Split(st, "\n")
			keep := []string{}
			for _, l := range lines {
				if strings.Contains(l, "/repo/") && !strings.Contains(l, "verifharness") {
					keep = append(keep, strings.TrimSpace(l))
				}
			}
			c.FailKey("", "unexpected panic: %v at %s", r, strings.Join(keep, " < "))
		}
	}()
	f()
}

// Until runs cases until the time or case budget is spent or enough failures were found.
func (c *Ctx) Until(f func(n int)) {
	for n := 0; n < c.maxCases && time.Now().Before(c.deadline); n++ {
		if c.keys[""] >= 3 {
			return
		}
		c.started.Store(time.Now().Unix())
		absTol = 1e-9
		c.Run(func() { f(n) })
		c.started.Store(0)
	}
}

// watch ends the run with a failure when a single case does not come to an end.
func (c *Ctx) watch() {
	for {
		time.Sleep(2 * time.Second)
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		t := c.started.Load()
		why := ""
		if t != 0 && time.Now().Unix()-t > 100 {
			why = "no result after 100 s"
		} else if m.HeapAlloc > 5<<30 {
			why = "more than 5 GB of memory in use"
		}
		if why == "" {
			continue
		}
		c.FailKey("", "%s", why)
		c.write()
		os.Exit(1)
	}
}

func (c *Ctx) write() {
	js, _ := json.MarshalIndent(c.res, "", " ")
	if c.outFile != "" {
		if err := os.WriteFile(c.outFile, js, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	fmt.Printf("%s evaluations=%d distinct=%d failures=%d wall=%.1fs\n", c.res.Property, c.res.Evaluations, c.res.Distinct, len(c.res.Failures), c.res.WallS)
	for _, f := range c.res.Failures {
		fmt.Printf("  FAIL [%s] %s\n    input: %s\n", f.Key, f.Msg, f.Input)
	}
}

// Panics reports whether f panics.
func Panics(f func()) (r bool, v any) {
	defer func() {
		if x := recover(); x != nil {
			if s, ok := x.(stop); ok {
				panic(s)
			}
			r, v = true, x
		}
	}()
	f()
	return false, nil
}

// absTol is the absolute tolerance of near; cases set it to the scale of their numbers.
var absTol = 1e-9

func near(a, b float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	if a == b {
		return true
	}
	d := math.Abs(a - b)
	return d <= absTol || d <= 1e-9*math.Max(math.Abs(a), math.Abs(b))
}

var checks = map[string]struct {
	f    func(c *Ctx)
	rule string
}{}

func register(id, rule string, f func(c *Ctx)) {
	checks[id] = struct {
		f    func(c *Ctx)
		rule string
	}{f, rule}
}

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	secs := flag.Float64("secs", 10, "time budget")
	cases := flag.Int("cases", 1<<30, "case budget")
	out := flag.String("out", "", "result file")
	work := flag.String("work", "", "scratch directory")
	flag.Parse()

	ids := []string{*prop}
	if *prop == "all" {
		ids = ids[:0]
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	code := 0
	for _, id := range ids {
		ck, ok := checks[id]
		if !ok {
			fmt.Fprintln(os.Stderr, "no harness for", id)
			os.Exit(3)
		}
		start := time.Now()
		c := &Ctx{
			Rand: rand.New(rand.NewSource(*seed)), seen: map[string]bool{}, keys: map[string]int{},
			deadline: start.Add(time.Duration(*secs * float64(time.Second))), maxCases: *cases, work: *work, outFile: *out,
		}
		go c.watch()
		c.res.Property, c.res.Seed, c.res.Rule = id, *seed, ck.rule
		c.res.Samples = []string{}
		c.res.Failures = []Failure{}
		c.Run(func() { ck.f(c) })
		c.res.WallS = time.Since(start).Seconds()
		c.write()
		if len(c.res.Failures) > 0 {
			code = 1
		}
	}
	os.Exit(code)
}
