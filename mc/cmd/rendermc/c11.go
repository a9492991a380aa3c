package main

import (
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"os/exec"
	"sort"
	"strings"

	"github.com/phil-mansfield/gotetra/render"
	"github.com/phil-mansfield/gotetra/render/density"
	"verif/mc/hx"
	"verif/mc/rx"
)

const ruleC11 = "every interleaving of the renderer's real workers at deposit granularity with at most the stated number of preemptions, for each scenario (workers, files, regions, quantity, segment size, subsampling), each executed on the real code under the controlled scheduler; plus a free-running pass of the same scenarios under the race detector. States are (deposits done, who runs) prefixes"

// scenario is one concurrent render.
type scenario struct {
	name    string
	workers int
	n, cls  int // nodes, cells on a side
	pts     int
	skip    int
	q       density.Quantity
	regs    []reg
	bound   int // preemptions
	devs    int // deviations of any kind from running each worker to its end
}

const c11L = 64.0

func scenarios(c *hx.C) []scenario {
	whole := reg{[3]span{{0, 4}, {0, 4}, {0, 4}}, 3, 4, 1}
	part := reg{[3]span{{0, 1}, {3, 2}, {0, 1}}, 3, 4, 2}
	proj := reg{[3]span{{3, 3}, {0, 4}, {1, 2}}, 0, 4, 1}
	fine := reg{[3]span{{6, 4}, {0, 8}, {7, 2}}, 3, 8, 3}
	D, V, G := density.Density, density.Velocity, density.VelocityDivergence
	ss := []scenario{
		{"two", 2, 6, 3, 1, 1, D, []reg{whole}, 0, 1},
		{"two-part", 2, 6, 3, 1, 1, D, []reg{part}, 1, 2},
		{"two-vel", 2, 6, 3, 1, 1, V, []reg{part}, 1, 2},
		{"three", 3, 6, 3, 1, 1, D, []reg{proj}, 0, 1},
		{"three-part", 3, 6, 3, 1, 1, V, []reg{part}, 1, 1},
		{"boxes", 3, 6, 3, 1, 1, D, []reg{part, proj}, 0, 1},
		{"skip", 2, 12, 3, 1, 2, D, []reg{part}, 1, 2},
		{"five", 5, 6, 3, 1, 1, G, []reg{fine}, 0, 1},
	}
	// One file's worth, so that deeper bounds can be finished.
	ss = append(ss,
		scenario{"one-file", 2, 2, 1, 1, 1, D, []reg{whole}, 2, 9},
		scenario{"one-file-vel", 2, 2, 1, 1, 1, V, []reg{whole}, 2, 9},
		scenario{"one-file-three", 3, 2, 1, 1, 1, D, []reg{proj}, 2, 3},
		scenario{"one-file-four", 4, 2, 1, 1, 1, V, []reg{proj, fine}, 1, 2},
		scenario{"one-file-odd", 3, 3, 1, 1, 1, D, []reg{{[3]span{{0, 2}, {0, 4}, {3, 2}}, 3, 4, 1}}, 1, 3},
		scenario{"idle", 9, 2, 1, 2, 1, D, []reg{whole, proj}, 1, 2},
	)
	if c.Thorough() {
		for i := range ss {
			switch {
			case ss[i].name == "one-file" || ss[i].name == "one-file-odd":
				ss[i].bound++
			case ss[i].cls == 1 && ss[i].workers < 9:
				ss[i].devs++
			case ss[i].cls == 3:
				ss[i].bound++
			}
		}
	}
	return ss
}

func (s scenario) files(dir string) ([]string, *rx.Sheet) {
	def := sheetDef{n: s.n, cells: s.cls, L: c11L, f: shift(-0.25, 0.75, -0.5)}
	if s.cls == 1 {
		// One file: a lattice filling 0.4 of the box, across its boundary.
		def.blob = func(int) (lo, hi [3]float64) {
			for d := 0; d < 3; d++ {
				lo[d], hi[d] = -0.15, 0.25
			}
			return lo, hi
		}
	}
	sh := def.sheet()
	return sh.Write(dir), sh
}

// execute renders the scenario once under the scheduler.
func (s scenario) execute(t *hx.T, files []string, prefix []int) (sc *rx.Sched, boxes []*rx.RecBox) {
	rx.Bubble(func() {
		sc = rx.NewSched(prefix)
		bs := []render.Box{}
		boxes = nil
		for _, r := range s.regs {
			b := &rx.RecBox{Box: r.box(c11L, s.q), R: &rx.Rec{Point: sc.Point}}
			boxes = append(boxes, b)
			bs = append(bs, b)
		}
		done := make(chan bool)
		go func() {
			defer close(done)
			renderAll(t, files, bs, s.q, s.workers, s.skip)
		}()
		sc.Drive(done)
	})
	return sc, boxes
}

func (s scenario) check(t *hx.T, files []string, boxes []*rx.RecBox, sc *rx.Sched, sh *rx.Sheet) bool {
	for i, b := range boxes {
		what := fmt.Sprintf("scenario %s region %d schedule %v", s.name, i, deviations(sc.Trace))
		if !b.R.Compare(t, what, b) {
			return false
		}
		if b.CellSpan() == [3]int{4, 4, 4} && b.Cells() == 4 {
			seg := s.n / s.cls / s.skip
			want := len(files) * 6 * seg * seg * seg * b.Points()
			if len(b.R.Deps) != want {
				t.Fail("%s: %d samples deposited, %d tetrahedra hold %d", what, len(b.R.Deps), want/b.Points(), want)
				return false
			}
		}
	}
	return true
}

func deviations(tr []rx.Choice) []string {
	out := []string{}
	for i, c := range tr {
		if c.Took != 0 {
			out = append(out, fmt.Sprintf("@%d:%d", i, c.Took))
		}
	}
	return out
}

func took(tr []rx.Choice) []int {
	out := []int{}
	for _, c := range tr {
		out = append(out, c.Took)
	}
	return out
}

// within says whether one more deviation at position n stays in the bounds.
func (s scenario) within(tr []rx.Choice, n int) bool {
	pre, dev := b2i(tr[n].Running), 1
	for i := 0; i < n; i++ {
		if tr[i].Took != 0 {
			dev++
			pre += b2i(tr[i].Running)
		}
	}
	return pre <= s.bound && dev <= s.devs
}

func runC11(c *hx.C) {
	for _, s := range scenarios(c) {
		s := s
		// Cases are split by where the first deviation from running each worker
		// to its end is made; -1 is no deviation.
		for first := -1; first < 12; first++ {
			first := first
			c.Case(fmt.Sprintf("schedules/%s/%d", s.name, first), func(t *hx.T) { explore(t, c, s, first) })
		}
		c.Case("once/"+s.name, func(t *hx.T) { everyTetra(t, s) })
	}
	if bin := os.Getenv("VERIF_RACE_BIN"); bin != "" {
		for w := 1; w <= c.Pick(4, 8); w++ {
			w := w
			c.Case(fmt.Sprintf("race/workers%d", w), func(t *hx.T) {
				out, err := exec.Command(bin, t.Dir(), fmt.Sprint(w), fmt.Sprint(c.Pick(1, 6))).CombinedOutput()
				t.Eval(w > 1)
				s := string(out)
				if i := strings.Index(s, "DATA RACE"); i >= 0 {
					t.Fail("unsynchronised access with %d workers: %s", w, s[i:min(len(s), i+900)])
				} else if strings.Contains(s, "HARNESS") {
					panic(hx.HarnessError{Msg: s})
				} else if err != nil {
					t.Fail("free-running render with %d workers: %v: %s", w, err, s[:min(len(s), 500)])
				}
				t.Extra("race_detector_passes", 1)
			})
		}
	}
}

func explore(t *hx.T, c *hx.C, s scenario, first int) {
	files, sh := s.files(t.Dir())
	base, boxes := s.execute(t, files, nil)
	if t.Failed() || !s.check(t, files, boxes, base, sh) {
		return
	}
	n := len(base.Trace)
	if first < 0 {
		t.Eval(false)
		t.Trace()
		t.Sample("scenario %s: %d workers, %d files, %d regions, %d scheduling points, at most %d preemptions and %d deviations",
			s.name, s.workers, len(files), len(s.regs), n, s.bound, s.devs)
		return
	}
	// Positions first, first+12, ... of the default execution.
	for p := first; p < n; p += 12 {
		for alt := 1; alt < base.Trace[p].Enabled; alt++ {
			pre := make([]int, p+1)
			copy(pre, took(base.Trace)[:p])
			pre[p] = alt
			if s.within(base.Trace, p) {
				if !dfs(t, c, s, files, sh, pre) {
					return
				}
			}
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// dfs executes prefix (then the default choices), checks the outcome, and goes
// on with every later deviation within the preemption bound.
func dfs(t *hx.T, c *hx.C, s scenario, files []string, sh *rx.Sheet, prefix []int) bool {
	if c.Over() {
		return false
	}
	sc, boxes := s.execute(t, files, prefix)
	if sc.Bad != "" {
		t.Extra("diverged", 1)
		return true
	}
	t.Eval(true)
	t.Trace()
	t.Trans(len(sc.Trace))
	tk := took(sc.Trace)
	h := fnv.New64a()
	h.Write([]byte(s.name))
	for i, k := range tk {
		h.Write([]byte{byte(k)})
		if i >= len(prefix)-1 {
			t.StateHash(h.Sum64())
		}
	}
	if t.Failed() || !s.check(t, files, boxes, sc, sh) {
		return false
	}
	t.Outcome(fmt.Sprint(deviations(sc.Trace)))
	for p := len(prefix); p < len(sc.Trace); p++ {
		for alt := 1; alt < sc.Trace[p].Enabled; alt++ {
			if !s.within(sc.Trace, p) {
				continue
			}
			pre := make([]int, p+1)
			copy(pre, tk[:p])
			pre[p] = alt
			if !dfs(t, c, s, files, sh, pre) {
				return false
			}
		}
	}
	return true
}

// everyTetra requires that with one sample per tetrahedron, each tetrahedron of
// a lattice holds exactly one of the samples deposited into a whole-box grid,
// for every worker count.
func everyTetra(t *hx.T, s scenario) {
	files, sh := s.files(t.Dir())
	for _, w := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 24, 33, 65} {
		s.workers = w
		s.regs = []reg{{[3]span{{0, 4}, {0, 4}, {0, 4}}, 3, 4, 1}}
		_, boxes := s.execute(t, files, nil)
		seg := sh.Seg()
		seen := map[string]int{}
		// Lattice coordinates of each sample.
		o, d := [3]float64{}, 0.0
		if s.cls == 1 {
			o, d = [3]float64{-0.15 * c11L, -0.15 * c11L, -0.15 * c11L}, 0.4*c11L/float64(seg)
		} else {
			d = c11L / float64(s.n)
			o = [3]float64{-0.25 * d, 0.75 * d, -0.5 * d}
		}
		step := d * float64(s.skip)
		for _, dep := range boxes[0].R.Deps {
			c, f := [3]int{}, [3]float64{}
			for k := 0; k < 3; k++ {
				x := rx.Mod(dep.X[k]*c11L/4-o[k], c11L) / step
				c[k] = int(math.Floor(x))
				f[k] = x - float64(c[k])
			}
			ax := []int{0, 1, 2}
			sort.Slice(ax, func(i, j int) bool { return f[ax[i]] > f[ax[j]] })
			seen[fmt.Sprint(c, ax)]++
		}
		want := len(files) * 6 * (seg / s.skip) * (seg / s.skip) * (seg / s.skip)
		t.Eval(w > 1)
		if len(boxes[0].R.Deps) != want || len(seen) != want {
			t.Fail("scenario %s with %d workers: %d samples in %d different tetrahedra, the sheet has %d", s.name, w, len(boxes[0].R.Deps), len(seen), want)
			return
		}
		t.Trace()
	}
}
