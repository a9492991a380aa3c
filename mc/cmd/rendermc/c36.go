package main

import (
	"fmt"
	"math"
	"runtime"
	"strings"

	"github.com/phil-mansfield/gotetra/render"
	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/geom"
	"verif/mc/hx"
	"verif/mc/rx"
)

const ruleC36 = "every ordered list of up to three regions from an alphabet of regions with their own extent, projection and particle count, and every history of renders and subsampling requests up to a bound, over sheets of one-pixel files; a state is (list or history so far, subsampling, renders done)"

// reg is one region of the alphabet: in pixels of its own grid.
type reg struct {
	s    [3]span
	axis int
	px   int
	pts  int
}

func runC36(c *hx.C) {
	alpha := []reg{
		{[3]span{{0, 4}, {0, 4}, {0, 4}}, 3, 4, 1},
		{[3]span{{3, 2}, {2, 3}, {1, 1}}, 3, 4, 3},
		{[3]span{{2, 3}, {0, 4}, {3, 3}}, 1, 4, 2},
		{[3]span{{1, 1}, {1, 1}, {1, 1}}, 3, 4, 5},
		{[3]span{{0, 4}, {3, 2}, {0, 2}}, 0, 4, 1},
		{[3]span{{5, 5}, {6, 4}, {0, 8}}, 3, 8, 2},
		{[3]span{{0, 2}, {1, 2}, {1, 1}}, 2, 2, 4},
	}
	if c.Thorough() {
		alpha = append(alpha, reg{[3]span{{3, 4}, {3, 1}, {0, 3}}, 2, 4, 7},
			reg{[3]span{{7, 2}, {7, 8}, {7, 3}}, 1, 8, 1})
	}
	n := len(alpha)
	for _, q := range []density.Quantity{density.Density, density.Velocity} {
		for a := 0; a < n; a++ {
			for b := -1; b < n; b++ {
				q, a, b := q, a, b
				c.Case(fmt.Sprintf("lists/q%d/%d/%d", int(q), a, b), func(t *hx.T) {
					first := []int{a}
					if b >= 0 {
						first = append(first, b)
						for d := 0; d < n; d++ {
							together(t, alpha, []int{a, b, d}, q, c)
						}
					}
					together(t, alpha, first, q, c)
				})
			}
		}
	}
	// The quantities made from those: sums as for them, and the operator applied
	// to their averages.
	wide := append(append([]reg{}, alpha...), reg{[3]span{{5, 5}, {6, 6}, {0, 8}}, 3, 8, 2}, reg{[3]span{{0, 8}, {3, 7}, {2, 5}}, 3, 8, 3},
		reg{[3]span{{4, 8}, {1, 8}, {0, 8}}, 0, 8, 1})
	for _, q := range []density.Quantity{density.DensityGradient, density.VelocityDivergence, density.VelocityCurl} {
		for a := range wide {
			q, a := q, a
			c.Case(fmt.Sprintf("derived/q%d/%d", int(q), a), func(t *hx.T) {
				together(t, wide, []int{a}, q, c)
				for b := range wide {
					together(t, wide, []int{a, b}, q, c)
					if c.Thorough() {
						for d := range wide {
							together(t, wide, []int{a, b, d}, q, c)
						}
					}
				}
			})
		}
	}
	// Many regions at once, equal ones among them.
	for _, q := range []density.Quantity{density.Density, density.Velocity} {
		for a := 0; a < n; a++ {
			q, a := q, a
			c.Case(fmt.Sprintf("many/q%d/%d", int(q), a), func(t *hx.T) {
				for step := 1; step < n; step += c.Pick(2, 1) {
					list := []int{}
					for i := 0; i < 5*n; i++ {
						list = append(list, (a+i*step+i/n)%n)
						if i != 4 && i != n && i != 2*n && i != 5*n-1 {
							continue
						}
						together(t, alpha, list, q, c)
					}
					// Runs of one region and then the next: the largest come late.
					list = list[:0]
					for i := 0; i < n; i++ {
						for k := 0; k < 1+(i+step)*7%9; k++ {
							list = append(list, (a+i*step)%n)
						}
					}
					together(t, alpha, list, q, c)
				}
			})
		}
	}
	// Many files, with one and with many regions.
	for cells := 3; cells <= c.Pick(4, 6); cells++ {
		for a := 0; a < n; a++ {
			for _, q := range []density.Quantity{density.Density, density.Velocity} {
				cells, a, q := cells, a, q
				c.Case(fmt.Sprintf("files/%d/%d/q%d", cells, a, int(q)), func(t *hx.T) {
					def, exp := c36sheetOf(1, cells)
					files := def.sheet().Write(t.Dir())
					for _, l := range []int{1, n} {
						list, boxes := []int{}, []render.Box{}
						for i := 0; i < l; i++ {
							list = append(list, (a+i*(1+a%2))%n)
							boxes = append(boxes, alpha[list[i]].box(def.L, q))
						}
						renderAll(t, files, boxes, q, 1+a%4, 1)
						for i, b := range boxes {
							t.Eval(true)
							t.Trans(len(files))
							if t.Failed() || !checkBoxOf(t, fmt.Sprintf("%d files, regions %v, region %d, quantity %d", len(files), list, i, int(q)), b, alpha[list[i]], q, cells, 1, 1, exp) {
								return
							}
						}
						t.Trace()
						t.State(fmt.Sprint("files", cells, list, q))
					}
				})
			}
		}
	}
	// Regions of different sizes over files larger than some of them.
	for a := range stepRegs {
		for pat := 0; pat < len(patterns); pat += c.Pick(3, 1) {
			a, pat := a, pat
			c.Case(fmt.Sprintf("wide/%s/%d", patterns[pat].name, a), func(t *hx.T) {
				sh, cubes := stepSheet(3, 1, 1+a%2, pat, 2)
				files := sh.Write(t.Dir())
				for b := range stepRegs {
					for d := range stepRegs {
						for _, list := range [][]int{{a, b}, {a, b, d}} {
							q := []density.Quantity{density.Density, density.Velocity}[(a+b+d)%2]
							if len(list) == 2 && d > 1 {
								continue
							}
							if !stepRun(t, "files of several pixels", files, cubes, list, q, 1+(b+d)%3, 1) {
								return
							}
						}
					}
				}
				t.Trace()
				t.State(fmt.Sprint("wide", a, pat))
			})
		}
	}
	// Histories of one manager.
	ops := []string{"R", "S1", "S2", "S4", "S8", "S3", "S0", "S-2"}
	depth := c.Pick(3, 4)
	for _, seg := range []int{1, 4} {
		for _, o := range ops {
			seg, o := seg, o
			c.Case(fmt.Sprintf("history/seg%d/%s", seg, o), func(t *hx.T) {
				hx.Seqs(len(ops), depth-1, func(h []int) {
					hist := []string{o}
					for _, i := range h {
						hist = append(hist, ops[i])
					}
					subsampleHistory(t, alpha, seg, hist)
				})
			})
		}
	}
}

// sheets of one-pixel files (in 2 pixels, so also in 4 and 8).
func c36sheet(seg int) (sheetDef, func(px int) (map[[3]int]float64, map[[3]int][3]float64)) {
	return c36sheetOf(seg, 2)
}

// c36sheetOf is the same with cells^3 files.
func c36sheetOf(seg, cells int) (sheetDef, func(px int) (map[[3]int]float64, map[[3]int][3]float64)) {
	const L = 64.0
	where := func(i int) [3]int { return [3]int{(i * 3) % 8, (i*i + 2) % 8, (i/2*5 + 1) % 8} }
	def := sheetDef{n: cells * seg, cells: cells, L: L, blob: func(idx int) (lo, hi [3]float64) {
		p := where(idx)
		for d := 0; d < 3; d++ {
			lo[d], hi[d] = (float64(p[d])+0.2)/8, (float64(p[d])+0.8)/8
		}
		return lo, hi
	}}
	return def, func(px int) (map[[3]int]float64, map[[3]int][3]float64) {
		num := map[[3]int]float64{}
		vel := map[[3]int][3]float64{}
		m := math.Pow(float64(px)/float64(cells), 3)
		for i := 0; i < cells*cells*cells; i++ {
			p := where(i)
			for d := range p {
				p[d] = p[d] * px / 8
			}
			num[p] += m
			v := vel[p]
			a, b, cc := i%cells, i/cells%cells, i/cells/cells
			v[0] += float64(a + 1)
			v[1] += float64(-b - 2)
			v[2] += float64(4*cc + 3)
			vel[p] = v
		}
		return num, vel
	}
}

func (r reg) box(L float64, q density.Quantity) render.Box {
	return render.NewBox(L, r.pts, r.px, q, domain(r.s, r.axis).config(L/float64(r.px)))
}

func checkBox(t *hx.T, what string, b render.Box, r reg, q density.Quantity, seg, renders, skips int, expect func(px int) (map[[3]int]float64, map[[3]int][3]float64)) bool {
	return checkBoxOf(t, what, b, r, q, 2, renders, skips, expect)
}

// checkBoxOf is the same for cells^3 files.
func checkBoxOf(t *hx.T, what string, b render.Box, r reg, q density.Quantity, cells, renders, skips int, expect func(px int) (map[[3]int]float64, map[[3]int][3]float64)) bool {
	num, vel := expect(r.px)
	rec := &rx.Rec{}
	for p, m := range num {
		rec.Deps = append(rec.Deps, rx.Deposit{P: p, V: m * float64(renders)})
	}
	s, v, cnt := rx.Vals(b)
	if !q.RequiresVelocity() {
		want, _, _ := rec.Expect(b)
		for i := range want {
			if i >= len(s) || !hx.Near(s[i], want[i], 1, 1e-6) {
				t.Fail("%s: value %d is %g, want %g", what, i, s[i], want[i])
				return false
			}
		}
		return q == density.Density || finalized(t, what, b, q, [3][]float64{want})
	}
	// Velocities: sums over samples, and their number.
	vr := &rx.Rec{}
	per := float64(6*r.pts) * float64(skips)
	nfiles := map[[3]int]float64{}
	for p, m := range num {
		nfiles[p] = math.Round(m / math.Pow(float64(r.px)/float64(cells), 3))
		vr.Deps = append(vr.Deps, rx.Deposit{P: p, V: per, W: vel[p]})
	}
	_, want, _ := vr.Expect(b)
	nr := &rx.Rec{}
	for p, m := range nfiles {
		nr.Deps = append(nr.Deps, rx.Deposit{P: p, V: 1, W: [3]float64{m * per}})
	}
	_, wn, _ := nr.Expect(b)
	for i := range want {
		for k := 0; k < 3; k++ {
			if !hx.Near(v[i][k], want[i][k], math.Abs(want[i][k])+1, 1e-4) {
				t.Fail("%s: component %d of value %d is %g, want %g", what, k, i, v[i][k], want[i][k])
				return false
			}
		}
		if float64(cnt[i]) != wn[i][0] {
			t.Fail("%s: value %d counts %d samples, want %g", what, i, cnt[i], wn[i][0])
			return false
		}
	}
	mean := [3][]float64{}
	for k := range mean {
		mean[k] = make([]float64, len(want))
		for i := range want {
			if wn[i][0] > 0 {
				mean[k][i] = want[i][k] / wn[i][0]
			}
		}
	}
	return finalized(t, what, b, q, mean)
}

// finalized compares what is written for a box with the operator of its quantity
// applied to the mean field f.
func finalized(t *hx.T, what string, b render.Box, q density.Quantity, f [3][]float64) bool {
	w := b.CellSpan()
	if q != density.Velocity && (w[0] < 5 || w[1] < 5 || w[2] < 5) {
		return true // too narrow for the stencil
	}
	n := len(f[0])
	d := func(k, axis int) []float64 {
		in, out := make([]float32, n), make([]float32, n)
		for i := range in {
			in[i] = float32(f[k][i])
		}
		g := geom.NewGridLocation(b.CellOrigin(), w, b.CellWidth()*float64(b.Cells()), b.Cells())
		g.Deriv(in, out, axis, &geom.DerivOptions{Periodic: true, Op: geom.None, Order: 4})
		r := make([]float64, n)
		for i := range r {
			r[i] = float64(out[i])
		}
		return r
	}
	add := func(a, b []float64, sign float64) []float64 {
		for i := range a {
			a[i] += sign * b[i]
		}
		return a
	}
	var want [][]float64
	switch q {
	case density.Velocity:
		want = f[:]
	case density.DensityGradient:
		want = [][]float64{d(0, 0), d(0, 1), d(0, 2)}
	case density.VelocityDivergence:
		want = [][]float64{add(add(d(0, 0), d(1, 1), 1), d(2, 2), 1)}
	case density.VelocityCurl:
		want = [][]float64{add(d(2, 1), d(1, 2), -1), add(d(0, 2), d(2, 0), -1), add(d(1, 0), d(0, 1), -1)}
	}
	var got [][]float32
	if s, ok := b.Vals().FinalizedScalarBuffer(); ok {
		got = [][]float32{s}
	} else if x, y, z, ok := b.Vals().FinalizedVectorBuffer(); ok {
		got = [][]float32{x, y, z}
	}
	if len(got) != len(want) {
		t.Fail("%s: %d components, want %d", what, len(got), len(want))
		return false
	}
	for k := range want {
		top := 0.0
		for _, x := range want[k] {
			top = math.Max(top, math.Abs(x))
		}
		for i := range want[k] {
			if len(got[k]) != n || !hx.Near(float64(got[k][i]), want[k][i], top+1e-3, 1e-4) {
				t.Fail("%s: component %d of pixel %d is written as %g, want %g", what, k, i, got[k][i], want[k][i])
				return false
			}
		}
	}
	return true
}

var c36files = map[string][]string{}

func filesFor(t *hx.T, seg int) ([]string, sheetDef, func(px int) (map[[3]int]float64, map[[3]int][3]float64)) {
	def, exp := c36sheet(seg)
	k := fmt.Sprint(seg, t.ID)
	if f, ok := c36files[k]; ok && t.Tmp != "" {
		return f, def, exp
	}
	c36files[k] = def.sheet().Write(t.Dir())
	if len(t.ID)%2 == 0 {
		c36files[k] = def.sheet().WriteApart(t.Dir(), len(t.ID)/2)
	}
	return c36files[k], def, exp
}

func together(t *hx.T, alpha []reg, list []int, q density.Quantity, c *hx.C) {
	seg := 1 + (list[0]+len(list))%2
	files, def, exp := filesFor(t, seg)
	boxes := []render.Box{}
	for _, i := range list {
		boxes = append(boxes, alpha[i].box(def.L, q))
	}
	renderAll(t, files, boxes, q, 1+(list[0]+list[len(list)-1])%4, 1)
	for i, b := range boxes {
		t.Eval(len(list) > 1)
		t.Trans(len(files))
		if t.Failed() || !checkBox(t, fmt.Sprintf("regions %v, region %d, quantity %d, %d nodes", list, i, int(q), seg), b, alpha[list[i]], q, seg, 1, seg*seg*seg, exp) {
			return
		}
	}
	t.Trace()
	t.State(fmt.Sprint(list, q))
	t.Outcome(fmt.Sprint(list))
	if len(list) == 3 && list[2] == 0 {
		t.Sample("regions %v rendered together, quantity %d", list, int(q))
	}
}

func subsampleHistory(t *hx.T, alpha []reg, seg int, h []string) {
	files, def, exp := filesFor(t, seg)
	list := []reg{alpha[1], alpha[2]}
	boxes := []render.Box{list[0].box(def.L, density.Density), list[1].box(def.L, density.Density)}
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(0))
	render.NumCores = 2
	man, err := render.NewManager(files, boxes, false, density.Density)
	if err != nil {
		t.Fail("%v", err)
		return
	}
	done := 0
	for i, op := range h {
		t.Trans(1)
		if op == "R" {
			if err := man.RenderDensity(); err != nil {
				t.Fail("%v: %v", h, err)
				return
			}
			done++
		} else {
			n := 0
			fmt.Sscanf(op, "S%d", &n)
			valid := n > 0 && n&(n-1) == 0 && seg%n == 0
			err := hx.Try(func() { man.Subsample(n) })
			if (err == nil) != valid {
				t.Fail("history %s over segments of %d: Subsample(%d) refused: %v, want %v", strings.Join(h[:i+1], " "), seg, n, err != nil, !valid)
				return
			}
			if !valid {
				h = h[:i+1]
				break // the program has ended
			}
		}
		t.State(fmt.Sprint(seg, h[:i+1]))
	}
	t.Eval(done > 0)
	t.Trace()
	for i, b := range boxes {
		if !checkBox(t, fmt.Sprintf("history %s, region %d", strings.Join(h, " "), i), b, list[i], density.Density, seg, done, 0, exp) {
			return
		}
	}
	t.Outcome(fmt.Sprint(done))
}
