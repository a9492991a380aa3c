package main

import (
	"fmt"
	"math"

	"github.com/phil-mansfield/gotetra/math/interpolate"
	"verif/mc/hx"
)

const ruleC25 = "every sequence of queries over an alphabet crossing every cache transition (same and new row, same and new plane, each axis out of range) up to the stated length, each answer against nested one-dimensional splines; every combination of axes with a unit value at each node in turn; non-trivial when the sequence has more than one query"

// grid is a table over two or three axes (the third may be a single plane).
type grid struct {
	ax   []axis
	vals []float64
}

// at evaluates nested natural splines, the last axis first.
func (g *grid) at(q []float64) float64 {
	vals := g.vals
	for d := len(g.ax) - 1; d >= 0; d-- {
		stride := 1
		for e := 0; e < d; e++ {
			stride *= len(g.ax[e].xs)
		}
		n := len(g.ax[d].xs)
		next := make([]float64, stride)
		for i := range next {
			line := make([]float64, n)
			for k := range line {
				line[k] = vals[i+k*stride]
			}
			next[i] = newNatural(g.ax[d].xs, line).deriv(q[d], 0)
		}
		vals = next
	}
	return vals[0]
}

func (g *grid) out(q []float64) bool {
	for d, a := range g.ax {
		if lo, hi := a.lohi(); q[d] < lo || q[d] > hi {
			return true
		}
	}
	return false
}

func (g *grid) unif() bool {
	for _, a := range g.ax {
		if !a.unif {
			return false
		}
	}
	return true
}

// build makes the interpolator; it also gives back the evaluation of many
// points and a check that the tables are as they were.
func (g *grid) build(variant int) (eval func(q []float64) float64, all func(qs [][]float64, out ...[]float64) []float64, intact func() bool) {
	vals := clone(g.vals)
	axs := [][]float64{}
	for _, a := range g.ax {
		axs = append(axs, clone(a.xs))
	}
	intact = func() bool {
		for d, a := range g.ax {
			if !same(axs[d], a.xs) {
				return false
			}
		}
		return same(vals, g.vals)
	}
	cols := func(qs [][]float64) [3][]float64 {
		c := [3][]float64{}
		for _, q := range qs {
			for d := range q {
				c[d] = append(c[d], q[d])
			}
		}
		return c
	}
	a, b := g.ax[0], g.ax[1]
	if len(g.ax) == 2 {
		var f interpolate.BiInterpolator
		switch {
		case g.unif() && variant%2 == 0:
			f = interpolate.NewUniformBiCubic(a.x0, a.dx, len(a.xs), b.x0, b.dx, len(b.xs), vals)
		case g.unif():
			f = interpolate.NewUniformBiCubicInterpolator(a.x0, a.dx, len(a.xs), b.x0, b.dx, len(b.xs), vals)
		case variant%2 == 0:
			f = interpolate.NewBiCubic(axs[0], axs[1], vals)
		default:
			f = interpolate.NewBiCubicInterpolator(axs[0], axs[1], vals)
		}
		return func(q []float64) float64 { return f.Eval(q[0], q[1]) },
			func(qs [][]float64, out ...[]float64) []float64 {
				c := cols(qs)
				return f.EvalAll(c[0], c[1], out...)
			}, intact
	}
	var f interpolate.TriInterpolator
	c := g.ax[2]
	switch {
	case g.unif() && variant%2 == 0:
		f = interpolate.NewUniformTriCubic(a.x0, a.dx, len(a.xs), b.x0, b.dx, len(b.xs), c.x0, c.dx, len(c.xs), vals)
	case g.unif():
		f = interpolate.NewUniformTriCubicInterpolator(a.x0, a.dx, len(a.xs), b.x0, b.dx, len(b.xs), c.x0, c.dx, len(c.xs), vals)
	case variant%2 == 0:
		f = interpolate.NewTriCubic(axs[0], axs[1], axs[2], vals)
	default:
		f = interpolate.NewTriCubicInterpolator(axs[0], axs[1], axs[2], vals)
	}
	return func(q []float64) float64 { return f.Eval(q[0], q[1], q[2]) },
		func(qs [][]float64, out ...[]float64) []float64 {
			c := cols(qs)
			return f.EvalAll(c[0], c[1], c[2], out...)
		}, intact
}

func (g *grid) String() string { return fmt.Sprintf("cubic over %v, values %v", g.ax, g.vals) }

func runC25(c *hx.C) {
	shapes := [][]int{{2, 2}, {2, 3}, {3, 2}, {4, 3}, {3, 5}, {2, 2, 2}, {2, 3, 4}, {4, 2, 3}, {3, 4, 2}}
	for _, s := range shapes {
		for i := range axes(s[0]) {
			s, i := s, i
			c.Case(fmt.Sprintf("static/%v/%d", s, i), func(t *hx.T) {
				hx.Product([]int{9, 9}[:len(s)-1], func(k []int) {
					g := &grid{ax: []axis{axes(s[0])[i]}}
					for d := 1; d < len(s); d++ {
						// The third axis takes a few of its kinds with each pair.
						if d == 2 && (k[1]+k[0]+i)%3 != 0 {
							return
						}
						g.ax = append(g.ax, axes(s[d])[k[d-1]])
					}
					cubicStatic(t, g)
				})
			})
		}
	}
	for _, s := range [][]int{{3, 4}, {4, 2}, {2, 3}, {3, 4, 2}, {2, 3, 4}, {4, 2, 3}} {
		for i := 0; i < 9; i++ {
			if len(s) == 3 && !c.Thorough() && i%4 != 0 {
				continue
			}
			s, i := s, i
			depth := c.Pick(3, 4)
			if len(s) == 2 {
				depth = c.Pick(4, 5)
			}
			c.Case(fmt.Sprintf("history/%v/%d", s, i), func(t *hx.T) { cubicHistories(t, s, i, depth) })
		}
	}
}

func cubicStatic(t *hx.T, g *grid) {
	if t.Failed() {
		return
	}
	n := 1
	for _, a := range g.ax {
		n *= len(a.xs)
	}
	tol := 0.0
	qs := [][]float64{{}}
	for _, a := range g.ax {
		tol += 1e4 * a.tol()
		next := [][]float64{}
		for _, q := range qs {
			for _, x := range a.points(false) {
				next = append(next, append(clone(q), x))
			}
		}
		qs = next
	}
	for basis := 0; basis <= n; basis++ {
		if basis < n && n > 12 && basis%5 != 2 {
			continue
		}
		g.vals = make([]float64, n)
		for i := range g.vals {
			if i == basis {
				g.vals[i] = 1
			}
			if basis == n {
				nx := len(g.ax[0].xs)
				x, y := g.ax[0].xs[i%nx], g.ax[1].xs[i/nx%len(g.ax[1].xs)]
				g.vals[i] = 1 + 2*x - 3*y + 0.5*x*y
				if len(g.ax) == 3 {
					z := g.ax[2].xs[i/nx/len(g.ax[1].xs)]
					g.vals[i] += 0.25*z - x*z + 0.125*x*y*z
				}
			}
		}
		scale := 0.0
		for _, v := range g.vals {
			scale = math.Max(scale, math.Abs(v))
		}
		var eval func(q []float64) float64
		var all func([][]float64, ...[]float64) []float64
		var intact func() bool
		if err := hx.Try(func() { eval, all, intact = g.build(basis) }); err != nil {
			t.Fail("%v: %v", g, err)
			return
		}
		want := make([]float64, len(qs))
		for i, q := range qs {
			if want[i] = g.at(q); basis == n {
				x, y := q[0], q[1]
				exact := 1 + 2*x - 3*y + 0.5*x*y
				if len(q) == 3 {
					z := q[2]
					exact += 0.25*z - x*z + 0.125*x*y*z
				}
				if hx.Off(want[i], exact, tol*scale) {
					panic(hx.HarnessError{Msg: "nested splines do not reproduce a multilinear function"})
				}
			}
			var got float64
			err := hx.Try(func() { got = eval(q) })
			t.Eval(true)
			if err != nil || hx.Off(got, want[i], tol*scale) {
				t.Fail("%v: %g at %v, want %g (%v)", g, got, q, want[i], err)
				return
			}
		}
		out := make([]float64, len(qs))
		r1 := all(qs)
		r2 := all(qs, out)
		for i := range qs {
			if hx.Off(r1[i], want[i], tol*scale) || r1[i] != r2[i] || out[i] != r2[i] {
				t.Fail("%v: EvalAll gives %g and %g at %v, want %g", g, r1[i], out[i], qs[i], want[i])
				return
			}
		}
		if !intact() {
			t.Fail("%v: the tables were modified", g)
			return
		}
	}
	t.Sample("%v", g.ax)
}

// cubicHistories runs every sequence of queries on one interpolator.
func cubicHistories(t *hx.T, s []int, kind, depth int) {
	g := &grid{}
	n := 1
	for d, k := range s {
		g.ax = append(g.ax, axes(k)[(kind+2*d)%9])
		if kind == 0 {
			g.ax[d] = axes(k)[d%3] // all uniform
		}
		n *= k
	}
	g.vals = make([]float64, n)
	for i := range g.vals {
		g.vals[i] = math.Sin(float64(3*i*i+i)) + 0.25*float64(i%4)
	}
	// Along each axis: the first node (what the caches start from), a point
	// inside, another one where room permits, and one past each end.
	qs := [][]float64{{}}
	for d, a := range g.ax {
		lo, hi := a.lohi()
		m := len(a.xs)
		inside := a.xs[m-1] + 0.375*(a.xs[m-2]-a.xs[m-1])
		pts := []float64{a.xs[0], inside, hi + 1}
		if d == 0 {
			pts = []float64{inside, lo - 1}
		} else if len(s) == 2 {
			pts = append(pts, lo-1, a.xs[m-1])
		}
		next := [][]float64{}
		for _, q := range qs {
			for _, x := range pts {
				next = append(next, append(clone(q), x))
			}
		}
		qs = next
	}
	want := make([]float64, len(qs))
	for i, q := range qs {
		if !g.out(q) {
			want[i] = g.at(q)
		}
	}
	tol := 0.0
	for _, a := range g.ax {
		tol += 1e4 * a.tol() * 10
	}
	for l := 1; l <= depth; l++ {
		hx.Seqs(len(qs), l, func(h []int) {
			if t.Failed() {
				return
			}
			eval, _, intact := g.build(h[0])
			key := ""
			for step, i := range h {
				got := 0.0
				err := hx.Try(func() { got = eval(qs[i]) })
				t.Trans(1)
				if bad := g.out(qs[i]); bad && err == nil || !bad && (err != nil || hx.Off(got, want[i], tol)) {
					w := fmt.Sprint(want[i])
					if bad {
						w = "a refusal"
					}
					t.Fail("%v: queries %v: number %d gives %g (%v), want %s", g, pick(qs, h), step, got, err, w)
					return
				}
				// What a cache can hold: the last row and plane asked for and
				// the last ones answered.
				key = fmt.Sprint(qs[i][1:], g.out(qs[i]))
				t.State(fmt.Sprint(s, kind, key))
			}
			t.Trace()
			t.Eval(l > 1)
			if !intact() {
				t.Fail("%v: queries %v modify the tables", g, pick(qs, h))
			}
		})
	}
	t.Sample("%v: %d queries to depth %d", g.ax, len(qs), depth)
}

func pick(qs [][]float64, h []int) [][]float64 {
	out := [][]float64{}
	for _, i := range h {
		out = append(out, qs[i])
	}
	return out
}
