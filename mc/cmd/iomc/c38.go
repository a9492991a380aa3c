package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"

	"verif/mc/hx"
	"verif/mc/rx"
)

const ruleC38 = "every combination of sheet pattern, shift, cells, file split, particle order, format, units, subsampling, thread count and region of the alphabet: the built program converts the snapshot, renders the sheets and histograms the grid it rendered, each judged against the snapshot alone; non-trivial when the snapshot or the sheet is in more than one file"

// chain is a snapshot whose sheet is laid out along pixel faces: along each
// axis pixel p holds the Lagrangian intervals n[p], so that every cube is inside
// one pixel and every grid value is known without sampling.
type chain struct {
	c      conv1
	counts [3][]int
	shift  [3]int
	flip   int // axis along which the sheet is reversed, -1 for none
	sub    int
	pts    int
	th     string
}

func (x chain) pixels() int { return len(x.counts[0]) }

func (x chain) String() string {
	return fmt.Sprintf("%s, intervals per pixel %v shifted by %v, reversed axis %d; %d threads, %d points, subsampling %d", x.c, x.counts, x.shift, x.flip, len(x.th), x.pts, x.sub)
}

// node is where the sheet's node i along axis d is, in pixels.
func (x chain) node(d, i int) float64 {
	m := x.pixels()
	if d == x.flip {
		i = x.c.n - i
	}
	p := 0
	for i > x.counts[d][p] {
		i -= x.counts[d][p]
		p++
	}
	at := float64(p+x.shift[d]) + float64(i)/float64(x.counts[d][p])
	if at >= float64(m) {
		at -= float64(m)
	}
	return at
}

// has is how many intervals pixel p along axis d holds.
func (x chain) has(d, p int) int {
	m := x.pixels()
	return x.counts[d][((p-x.shift[d])%m+m)%m]
}

// window is a block of pixels, cut out with a quarter of a pixel to spare.
type window struct {
	o, w [3]int
	axis int
}

func (w window) text(name string, pix float64, all bool) string {
	s := fmt.Sprintf("[Box %q]\n", name)
	for d, k := range []string{"X", "Y", "Z"} {
		o, n := (float64(w.o[d])+0.25)*pix, (float64(w.w[d])-0.5)*pix
		if all {
			o, n = float64(w.o[d])*pix, float64(w.w[d])*pix
		}
		s += fmt.Sprintf("%s = %g\n%sWidth = %g\n", k, o, k, n)
	}
	if w.axis >= 0 {
		s += "ProjectionAxis = " + string("XYZ"[w.axis]) + "\n"
	}
	return s
}

func (x chain) judge(t *hx.T, dir string, wins []window) {
	m, N := x.pixels(), x.c.n
	L := x.c.box * x.c.xu
	pix := L / float64(m)
	x.c.pos = func(i, j, k int) (p [3]float64) {
		for d, l := range [3]int{i, j, k} {
			p[d] = x.node(d, l) * x.c.box / float64(m)
		}
		return p
	}
	v := [3]float64{120, -35, 7.5}
	ramp := x.c.perm%2 == 0
	x.c.vel = func(i, j, k int) [3]float64 {
		if ramp {
			return [3]float64{float64(i)*40 - 100, float64(j)*-15 + 7, float64(k)*3 + 0.5}
		}
		return v
	}
	// reach is the range of velocity component d in pixel p along that axis.
	reach := func(d, p int) (lo, hi float64) {
		lo, hi = math.Inf(1), math.Inf(-1)
		for i := 0; i < N; i++ {
			a, b := x.node(d, i), x.node(d, (i+1)%N)
			if d == x.flip {
				a, b = b, a
			}
			if int(math.Floor(a+1e-9))%m != p%m {
				continue
			}
			for _, l := range []int{i, (i + 1) % N} {
				u := x.c.vel(l, l, l)[d]
				lo, hi = math.Min(lo, u), math.Max(hi, u)
			}
		}
		return lo, hi
	}
	r, sheets := x.c.run(dir)
	t.Beat()
	if r.Code != 0 || r.Hung || len(sheets) != x.c.cells*x.c.cells*x.c.cells {
		t.Fail("%s: conversion: %s, %d files", x, r, len(sheets))
		return
	}
	must(os.RemoveAll(filepath.Join(dir, "sheets")))
	must(os.Rename(filepath.Join(dir, "out"), filepath.Join(dir, "sheets")))
	mkdirs(dir, "out")
	wins = append([]window{{w: [3]int{m, m, m}, axis: -1}}, wins...)
	bounds := ""
	for i, w := range wins {
		bounds += w.text(fmt.Sprint("w", i), pix, i == 0)
	}
	write(dir, "b.cfg", bounds)
	render := func(q string) map[string]string {
		clear(filepath.Join(dir, "out"))
		write(dir, "r.cfg", fmt.Sprintf("[Render]\nQuantity = %s\nInput = sheets\nOutput = out\nTotalPixels = %d\nParticles = %d\nSubsampleLength = %d\n", q, m, x.pts, x.sub))
		r := rx.CLI(dir, "-Threads", x.th, "-Render", "r.cfg", "b.cfg")
		t.Beat()
		out := tree(filepath.Join(dir, "out"))
		if r.Code != 0 || r.Hung || len(out) != len(wins) {
			t.Fail("%s: rendering %s: %s, %v", x, q, r, sortedKeys(out))
			return nil
		}
		return out
	}
	for _, q := range []string{"Density", "Velocity"} {
		out := render(q)
		if out == nil {
			return
		}
		if q == "Density" {
			must(os.WriteFile(filepath.Join(dir, "grid.gtet"), []byte(out["w0.gtet"]), 0644))
		}
		for i, w := range wins {
			g, ok := parseGrid(out[fmt.Sprintf("w%d.gtet", i)])
			t.Eval(x.c.cells > 1 || x.c.split > 0)
			what := fmt.Sprintf("%s: %s of pixels %v by %v along axis %d", x, q, w.o, w.w, w.axis)
			span, deep := w.w, 1
			if w.axis >= 0 {
				deep, span[w.axis] = w.w[w.axis], 1
			}
			n := span[0] * span[1] * span[2]
			if !ok || g.pixSpan != [3]int64{int64(w.w[0]), int64(w.w[1]), int64(w.w[2])} || len(g.vals) != n*map[string]int{"Density": 1, "Velocity": 3}[q] {
				t.Fail("%s: the grid spans %v with %d values", what, g.pixSpan, len(g.vals))
				continue
			}
			unit := math.Pow(float64(m)/float64(N), 3)
			for k := 0; k < n; k++ {
				p := [3]int{k % span[0], k / span[0] % span[1], k / span[0] / span[1]}
				if q == "Velocity" {
					for d := 0; d < 3; d++ {
						lo, hi := math.Inf(1), math.Inf(-1)
						for l := 0; l < w.w[d]; l++ {
							if d == w.axis || l == p[d] {
								a, b := reach(d, w.o[d]+l)
								lo, hi = math.Min(lo, a), math.Max(hi, b)
							}
						}
						f := math.Sqrt(x.c.time) * x.c.vu
						if u := float64(g.vals[d*n+k]) / f; !(u >= lo-1e-3 && u <= hi+1e-3) {
							t.Fail("%s: component %d of pixel %v is %g, but its particles have %g to %g", what, d, p, u*f, lo*f, hi*f)
							return
						}
					}
					continue
				}
				want := 0.0
				for l := 0; l < deep; l++ {
					at := p
					if w.axis >= 0 {
						at[w.axis] = l
					}
					c := unit
					for d := 0; d < 3; d++ {
						c *= float64(x.has(d, w.o[d]+at[d]))
					}
					want += c / float64(deep)
				}
				// Samples on a face may be rounded across it: a few.
				cubes := float64(x.sub * x.sub * x.sub)
				tol := 1e-5*want + 3.5*unit*cubes/float64(6*x.pts*deep)
				if hx.Off(float64(g.vals[k]), want, tol) {
					t.Fail("%s: pixel %v is %g, but the snapshot's particles make it %g", what, p, g.vals[k], want)
					return
				}
			}
		}
	}
	// The histogram of the rendered grid: bin k holds the samples of the pixels
	// with k+1 times the mass of one cube.
	unit := math.Pow(float64(m)/float64(N), 3)
	top := 1
	for d := 0; d < 3; d++ {
		b := 0
		for _, n := range x.counts[d] {
			b = max(b, n)
		}
		top *= b
	}
	clear(filepath.Join(dir, "out"))
	write(dir, "h.cfg", fmt.Sprintf("[TetraHist]\nQuantity = Density\nHistMin = %.12g\nHistMax = %.12g\nHistBins = %d\nHistScale = Linear\nParticles = %d\nInput = sheets\nOutput = out\nGridFile = grid.gtet\nSubsampleLength = %d\n", unit/2, unit*(float64(top)+0.5), top, x.pts, x.sub))
	hb := window{w: [3]int{m, m, m}, axis: -1}.text("w0", pix, true)
	for i, w := range wins[1:] {
		w.axis = -1
		hb += w.text(fmt.Sprint("w", i+1), pix, true)
	}
	write(dir, "hb.cfg", hb)
	r = rx.CLI(dir, "-Threads", x.th, "-TetraHist", "h.cfg", "hb.cfg")
	t.Beat()
	out := tree(filepath.Join(dir, "out"))
	if r.Code != 0 || r.Hung || len(out) != len(wins) {
		t.Fail("%s: histogram: %s, %v", x, r, sortedKeys(out))
		return
	}
	for i, w := range wins {
		want := make([]int, top)
		s := x.sub * x.sub * x.sub
		for k := 0; k < w.w[0]*w.w[1]*w.w[2]; k++ {
			n := 1
			for d, p := range [3]int{k % w.w[0], k / w.w[0] % w.w[1], k / w.w[0] / w.w[1]} {
				n *= x.has(d, w.o[d]+p)
			}
			want[n-1] += n / s * 6 * x.pts
		}
		got := []int{}
		for _, l := range strings.Split(out[fmt.Sprintf("w%d.txt", i)], "\n") {
			if strings.HasPrefix(l, "#") || strings.TrimSpace(l) == "" {
				continue
			}
			var c float64
			var n int
			fmt.Sscan(l, &c, &n)
			got = append(got, n)
		}
		t.Eval(true)
		bad := len(got) != len(want)
		for k := range want {
			bad = bad || got[k] < want[k]-8 || got[k] > want[k]+8
		}
		if bad {
			t.Fail("%s: histogram of pixels %v by %v has %v samples, but the snapshot's particles make them %v", x, w.o, w.w, got, want)
			return
		}
	}
	t.Outcome(fmt.Sprint(x.c.cells, x.counts, x.shift, x.sub))
}

func runC38(c *hx.C) {
	small := [3][]int{{1, 2, 1, 1, 2, 1}, {2, 1, 1, 1, 1, 2}, {1, 1, 2, 2, 1, 1}}
	wide := [3][]int{{1, 1, 2, 1, 3, 1, 2, 1}, {2, 1, 1, 2, 1, 1, 1, 3}, {1, 2, 2, 1, 2, 1, 2, 1}}
	even := [3][]int{{2, 4, 2, 2, 4, 2}, {4, 2, 2, 2, 2, 4}, {2, 2, 4, 4, 2, 2}}
	wins := func(m int) []window {
		return []window{{[3]int{1, 0, 2}, [3]int{2, m, 1}, -1}, {[3]int{m - 1, 1, 0}, [3]int{3, 2, 3}, -1},
			{[3]int{0, 2, 1}, [3]int{m, 2, 3}, 0}, {[3]int{2, m - 2, 3}, [3]int{3, 4, 2}, 1}, {[3]int{0, 0, m - 1}, [3]int{2, 2, 2}, 2}}
	}
	var all []chain
	add := func(n, cells int, counts [3][]int, f func(*chain)) {
		x := chain{c: base(n, cells), counts: counts, flip: -1, sub: 1, pts: 4, th: "2"}
		x.c.split, x.c.perm = 3, 2
		if f != nil {
			f(&x)
		}
		all = append(all, x)
	}
	// Every cut of the sheet, in place and across the faces.
	shifts := [][3]int{{}, {1, 2, 3}, {5, 0, 1}}
	for _, s := range shifts {
		s := s
		for _, cells := range []int{4, 8} {
			add(8, cells, small, func(x *chain) { x.shift = s })
		}
		for _, cells := range []int{4, 6} {
			add(12, cells, wide, func(x *chain) { x.shift = s })
		}
		for _, cells := range []int{4, 8} {
			add(16, cells, even, func(x *chain) { x.shift, x.sub = s, 2 })
		}
		for d := 0; d < 3; d++ {
			d := d
			add(8, 4, small, func(x *chain) { x.shift, x.flip = s, d })
		}
	}
	// Every file split, particle order and layout of the snapshot.
	for split := 0; split < 7; split++ {
		for perm := 0; perm < 5; perm++ {
			split, perm := split, perm
			add(8, 4, small, func(x *chain) { x.c.split, x.c.perm, x.shift = split, perm, [3]int{split % 6, perm, 1} })
		}
	}
	for k := 0; k < 16; k++ {
		k := k
		add(8, 4, small, func(x *chain) {
			x.c.ib = 64 >> (k & 1)
			x.c.x64, x.c.v64, x.c.arepo = k&2 > 0, k&4 > 0, k&8 > 0
			x.c.xu, x.c.vu, x.c.mu = []float64{1, 0.5, 1, 0.001}[k%4], []float64{1, 2, 0.5}[k%3], 3
			x.c.time = []float64{1, 0.25}[k/2%2]
		})
	}
	for _, th := range []string{"1", "3", "8", "70"} {
		for _, pts := range []int{1, 2, 9} {
			th, pts := th, pts
			add(8, 4, small, func(x *chain) { x.th, x.pts, x.shift = th, pts, [3]int{3, 5, 4} })
		}
	}
	if c.Thorough() {
		for a := 0; a < 6; a++ {
			for b := 0; b < 6; b++ {
				for d := -1; d < 3; d++ {
					a, b, d := a, b, d
					add(8, 4+4*(a%2), small, func(x *chain) { x.shift, x.flip = [3]int{a, b, (a + b) % 6}, d })
					add(16, 4, even, func(x *chain) { x.shift, x.flip, x.sub = [3]int{a, b, (a + b) % 6}, d, 1+b%2 })
				}
			}
		}
		add(12, 12, wide, nil)
		add(12, 12, wide, func(x *chain) { x.shift, x.flip = [3]int{3, 5, 7}, 1 })
	}
	per := 4
	for i := 0; i < len(all); i += per {
		part := all[i:min(i+per, len(all))]
		c.Case(fmt.Sprintf("chain/%d", i/per), func(t *hx.T) {
			for _, x := range part {
				x.judge(t, t.Dir(), wins(x.pixels()))
			}
		})
	}
}
