// Package hx is the small explorer core shared by every check: it runs
// enumerated cases (each with a stable identifier, so that one can be replayed
// alone), turns panics and log.Fatal calls of the code under test into
// failures of the case that caused them, re-runs failures, counts what was
// covered, and writes one result file that run.py turns into evidence.
package hx

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

// Prop is one property's check.
type Prop struct {
	// Rule says how cases are made and what makes one non-trivial.
	Rule        string
	Assumptions []string
	// Workers is the number of cases run side by side (default: all CPUs).
	// Checks which use process-wide state (render.NumCores, ...) use 1.
	Workers int
	// CaseTimeout is how long one case may take before it counts as a hang.
	CaseTimeout time.Duration
	Run         func(c *C)
}

// C is the context of one run of one property's check.
type C struct {
	Tier  string
	Tmp   string // scratch directory, removed at the end
	prop  string
	only  string
	jobs  chan job
	wg    sync.WaitGroup
	stop  int32
	dl    time.Time
	capd  int32
	mu    sync.Mutex
	seen  map[string]bool
	infl  map[string]time.Time
	jrnl  *os.File
	res   Result
	outs  map[uint64]bool
	sts   map[uint64]bool
	extra map[string]int64
	to    time.Duration
	shI   uint64
	shN   uint64
}

type job struct {
	id string
	f  func(t *T)
}

// Violation is one failing case.
type Violation struct {
	Case  string   `json:"case"`
	Msgs  []string `json:"msgs"`
	Again int      `json:"reproduced_of_5"`
}

// Result is what a run reports to run.py.
type Result struct {
	Property    string           `json:"property"`
	Cases       int64            `json:"cases"`
	Evals       int64            `json:"evaluations"`
	Nontrivial  int64            `json:"distinct_nontrivial"`
	States      int64            `json:"states"`
	Transitions int64            `json:"transitions"`
	Traces      int64            `json:"traces"`
	Outcomes    int64            `json:"distinct_outcomes"`
	StateSet    []string         `json:"states_set"`
	OutcomeSet  []string         `json:"distinct_outcomes_set"`
	Rule        string           `json:"rule"`
	Assumptions []string         `json:"assumptions"`
	Samples     []string         `json:"samples"`
	Exhaustive  bool             `json:"exhaustive"`
	Violations  []Violation      `json:"violations"`
	Extra       map[string]int64 `json:"extra"`
	Done        bool             `json:"done"`
}

// T is the context of one case.
type T struct {
	C    *C
	ID   string
	Tmp  string // made on demand by Dir
	msgs []string
	ev   int64
	nt   int64
	tr   int64
	tv   int64
	dry  bool
	n    int
}

// Fail records that the property is broken in this case.
func (t *T) Fail(format string, args ...interface{}) {
	t.n++
	if len(t.msgs) < 4 {
		m := fmt.Sprintf(format, args...)
		if len(m) > 600 {
			m = m[:600] + "..."
		}
		t.msgs = append(t.msgs, m)
	}
}

// Msgs returns what failed so far.
func (t *T) Msgs() []string { return t.msgs }

// Failed says whether this case failed already.
func (t *T) Failed() bool { return t.n > 0 }

// Beat says that the case is alive; a case without a beat is a hang.
func (t *T) Beat() {
	if t.C == nil {
		return
	}
	t.C.mu.Lock()
	if _, ok := t.C.infl[t.ID]; ok {
		t.C.infl[t.ID] = time.Now()
	}
	t.C.mu.Unlock()
}

// Eval counts one evaluation; nontrivial by the property's rule.
func (t *T) Eval(nontrivial bool) {
	t.ev++
	if t.ev%64 == 0 {
		t.Beat()
	}
	if nontrivial {
		t.nt++
	}
}

// Evals counts n evaluations, nt of them non-trivial.
func (t *T) Evals(n, nt int64) { t.ev += n; t.nt += nt }

// Trans counts n transitions (operations executed on the implementation).
func (t *T) Trans(n int) { t.tr += int64(n) }

// Trace counts one model trace replayed on the implementation.
func (t *T) Trace() { t.tv++; t.Beat() }

// State records a model state by its canonical form.
func (t *T) State(key string) {
	if t.dry {
		return
	}
	h := hash(key)
	t.C.mu.Lock()
	t.C.sts[h] = true
	t.C.mu.Unlock()
}

// StateHash is State for callers which hash the state themselves.
func (t *T) StateHash(h uint64) {
	if t.dry {
		return
	}
	t.C.mu.Lock()
	t.C.sts[h] = true
	t.C.mu.Unlock()
}

// Outcome records an observed outcome, so that vacuous exploration shows.
func (t *T) Outcome(key string) {
	if t.dry {
		return
	}
	h := hash(key)
	t.C.mu.Lock()
	if len(t.C.outs) < 1<<20 {
		t.C.outs[h] = true
	}
	t.C.mu.Unlock()
}

// Extra adds to a named count in the evidence.
func (t *T) Extra(name string, n int64) {
	if t.dry {
		return
	}
	t.C.mu.Lock()
	t.C.extra[name] += n
	t.C.mu.Unlock()
}

// Sample writes out an actual case for the evidence (the first few are kept).
func (t *T) Sample(format string, args ...interface{}) {
	if t.dry {
		return
	}
	t.C.mu.Lock()
	if len(t.C.res.Samples) < 12 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 700 {
			s = s[:700] + "..."
		}
		t.C.res.Samples = append(t.C.res.Samples, s)
	}
	t.C.mu.Unlock()
}

// Dir returns a fresh scratch directory for this case.
func (t *T) Dir() string {
	d, err := os.MkdirTemp(t.C.Tmp, "case")
	if err != nil {
		panic(HarnessError{err.Error()})
	}
	t.Tmp = d
	return d
}

// HarnessError is a failure of the check itself, not of the code under test.
type HarnessError struct{ Msg string }

func (e HarnessError) Error() string { return "harness: " + e.Msg }

func hash(s string) uint64 {
	h := fnv.New64a()
	io.WriteString(h, s)
	return h.Sum64()
}

// Thorough says whether the thorough tier was asked for.
func (c *C) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func (c *C) Pick(q, t int) int {
	if c.Thorough() {
		return t
	}
	return q
}

// Over says that the time budget is used up; cases not started are skipped.
func (c *C) Over() bool {
	if time.Now().After(c.dl) {
		atomic.StoreInt32(&c.capd, 1)
		return true
	}
	return atomic.LoadInt32(&c.stop) != 0
}

// Case schedules one case.
func (c *C) Case(id string, f func(t *T)) {
	if c.only != "" && id != c.only {
		return
	}
	if c.only == "" && c.shN > 1 && hash(id)%c.shN != c.shI {
		return
	}
	if c.Over() {
		return
	}
	c.mu.Lock()
	if c.seen[id] {
		c.mu.Unlock()
		fmt.Fprintf(os.Stderr, "harness: duplicate case id %s\n", id)
		os.Exit(77)
	}
	c.seen[id] = true
	c.mu.Unlock()
	c.wg.Add(1)
	c.jobs <- job{id, f}
}

// Case ids can be tested before building expensive shared input.
func (c *C) Wants(prefix string) bool {
	return c.only == "" || strings.HasPrefix(c.only, prefix)
}

// fatalPanic is what a log.Fatal of the code under test becomes.
type fatalPanic struct{ msg string }

func (f fatalPanic) Error() string { return "log.Fatal: " + f.msg }

type fatalWriter struct{}

func (fatalWriter) Write(b []byte) (int, error) {
	pcs := make([]uintptr, 32)
	n := runtime.Callers(2, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if strings.HasPrefix(f.Function, "log.Fatal") ||
			strings.HasPrefix(f.Function, "log.(*Logger).Fatal") {
			panic(fatalPanic{strings.TrimSpace(string(b))})
		}
		if !more {
			break
		}
	}
	return len(b), nil
}

// Try runs f and returns what it panicked or log.Fatal-ed with, or nil.
func Try(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(HarnessError); ok {
				panic(h)
			}
			err = fmt.Errorf("%v", r)
		}
	}()
	f()
	return nil
}

func (c *C) runCase(j job, dry bool) *T {
	t := &T{C: c, ID: j.id, dry: dry}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if h, ok := r.(HarnessError); ok {
					fmt.Fprintf(os.Stderr, "case %s: %s\n", j.id, h.Error())
					os.Exit(77)
				}
				st := string(debug.Stack())
				t.Fail("panic: %v\n%s", r, trimStack(st))
			}
		}()
		j.f(t)
	}()
	if t.Tmp != "" {
		os.RemoveAll(t.Tmp)
	}
	return t
}

func trimStack(s string) string {
	out := []string{}
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "/repo/") && strings.Contains(l, ".go:") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 4 {
			break
		}
	}
	return strings.Join(out, " < ")
}

func (c *C) work() {
	for j := range c.jobs {
		c.mu.Lock()
		c.infl[j.id] = time.Now()
		fmt.Fprintf(c.jrnl, "S %s\n", j.id)
		c.mu.Unlock()

		t := c.runCase(j, false)
		again := 0
		if t.n > 0 {
			for i := 0; i < 5; i++ {
				if c.runCase(j, true).n > 0 {
					again++
				}
			}
		}
		c.mu.Lock()
		delete(c.infl, j.id)
		fmt.Fprintf(c.jrnl, "E %s\n", j.id)
		c.res.Cases++
		c.res.Evals += t.ev
		c.res.Nontrivial += t.nt
		c.res.Transitions += t.tr
		c.res.Traces += t.tv
		if t.n > 0 {
			c.res.Violations = append(c.res.Violations,
				Violation{j.id, t.msgs, again})
			if len(c.res.Violations) >= 25 {
				atomic.StoreInt32(&c.stop, 1)
			}
		}
		c.mu.Unlock()
		c.wg.Done()
	}
}

var (
	prop   = flag.String("prop", "", "property")
	tier   = flag.String("tier", "quick", "tier")
	only   = flag.String("case", "", "run this case only")
	out    = flag.String("out", "", "result file")
	budget = flag.Float64("budget", 300, "seconds")
	list   = flag.Bool("list", false, "list properties")
	shard  = flag.String("shard", "", "i/n: run only the cases whose hash is i mod n")
)

// TB is the testing.T of a binary started with MainT (synctest needs one).
var TB *testing.T

// MainT is Main run as the body of a test, so that synctest can be used.
func MainT(props map[string]Prop) {
	flag.Parse()
	testing.Main(func(_, _ string) (bool, error) { return true, nil },
		[]testing.InternalTest{{Name: "check", F: func(t *testing.T) {
			TB = t
			Main(props)
		}}}, nil, nil)
}

// Main is the entry point of every check binary.
func Main(props map[string]Prop) {
	if !flag.Parsed() {
		flag.Parse()
	}
	if *list {
		ids := []string{}
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	}
	var shI, shN uint64
	if *shard != "" {
		if _, err := fmt.Sscanf(*shard, "%d/%d", &shI, &shN); err != nil {
			fmt.Fprintln(os.Stderr, "bad -shard")
			os.Exit(77)
		}
	}
	p, ok := props[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(77)
	}
	log.SetFlags(0)
	log.SetOutput(fatalWriter{})

	tmp, err := os.MkdirTemp(filepath.Dir(*out), "scratch")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(77)
	}
	jr, err := os.Create(*out + ".journal")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(77)
	}
	c := &C{
		Tier: *tier, Tmp: tmp, prop: *prop, only: *only,
		jobs: make(chan job), dl: time.Now().Add(time.Duration(*budget * float64(time.Second))),
		seen: map[string]bool{}, infl: map[string]time.Time{}, jrnl: jr,
		outs: map[uint64]bool{}, sts: map[uint64]bool{}, extra: map[string]int64{},
		to: p.CaseTimeout, shI: shI, shN: shN,
	}
	if c.to == 0 {
		c.to = 120 * time.Second
	}
	n := p.Workers
	if n == 0 {
		n = runtime.NumCPU()
	}
	for i := 0; i < n; i++ {
		go c.work()
	}
	go func() { // hang watchdog
		for {
			time.Sleep(time.Second)
			c.mu.Lock()
			for id, t0 := range c.infl {
				if time.Since(t0) > c.to {
					fmt.Fprintf(c.jrnl, "H %s\n", id)
					fmt.Fprintf(os.Stderr, "case %s does not finish\n", id)
					buf := make([]byte, 1<<16)
					buf = buf[:runtime.Stack(buf, true)]
					os.Stderr.Write(buf)
					os.Exit(4)
				}
			}
			c.mu.Unlock()
		}
	}()
	p.Run(c)
	c.wg.Wait()
	c.mu.Lock()
	defer c.mu.Unlock()
	r := &c.res
	r.Property, r.Rule, r.Assumptions = *prop, p.Rule, p.Assumptions
	r.Outcomes, r.States = int64(len(c.outs)), int64(len(c.sts))
	r.Extra = c.extra
	if c.shN > 1 {
		for h := range c.outs {
			if len(r.OutcomeSet) < 1<<17 {
				r.OutcomeSet = append(r.OutcomeSet, fmt.Sprintf("%x", h))
			}
		}
		for h := range c.sts {
			r.StateSet = append(r.StateSet, fmt.Sprintf("%x", h))
		}
	}
	r.Exhaustive = atomic.LoadInt32(&c.capd) == 0 && atomic.LoadInt32(&c.stop) == 0
	r.Done = true
	if *only != "" && r.Cases == 0 {
		fmt.Fprintln(os.Stderr, "no such case:", *only)
		os.RemoveAll(tmp)
		os.Exit(77)
	}
	b, _ := json.MarshalIndent(r, "", " ")
	if err := os.WriteFile(*out, b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(77)
	}
	os.RemoveAll(tmp)
}
