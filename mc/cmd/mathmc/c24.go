package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/phil-mansfield/gotetra/math/interpolate"
	"verif/mc/hx"
)

const ruleC24 = "every pattern of gaps between up to five (six) knots, in both directions, with a unit value at each knot in turn, straight lines and a cubic; values and derivatives at every knot, beside it and inside every interval, integrals between every pair of these; every sequence of re-initialisations to length 3; non-trivial when the table decreases or is unevenly spaced"

// natural is an independent natural cubic spline.
type natural struct{ x, y, m []float64 }

// newNatural solves for the second derivatives by dense elimination on the
// table put in increasing order.
func newNatural(xs, ys []float64) *natural {
	n := len(xs)
	ord := make([]int, n)
	for i := range ord {
		ord[i] = i
	}
	sort.Slice(ord, func(a, b int) bool { return xs[ord[a]] < xs[ord[b]] })
	s := &natural{}
	for _, i := range ord {
		s.x, s.y = append(s.x, xs[i]), append(s.y, ys[i])
	}
	a := make([][]float64, n)
	for i := range a {
		a[i] = make([]float64, n+1)
		if i == 0 || i == n-1 {
			a[i][i] = 1
			continue
		}
		// Continuity of the first derivative at knot i.
		h0, h1 := s.x[i]-s.x[i-1], s.x[i+1]-s.x[i]
		a[i][i-1], a[i][i], a[i][i+1] = h0, 2*(h0+h1), h1
		a[i][n] = 6 * ((s.y[i+1]-s.y[i])/h1 - (s.y[i]-s.y[i-1])/h0)
	}
	s.m = dense(a)
	return s
}

// dense solves the augmented system by Gauss-Jordan elimination with pivoting.
func dense(a [][]float64) []float64 {
	n := len(a)
	for c := 0; c < n; c++ {
		p := c
		for r := c; r < n; r++ {
			if math.Abs(a[r][c]) > math.Abs(a[p][c]) {
				p = r
			}
		}
		a[c], a[p] = a[p], a[c]
		for r := 0; r < n; r++ {
			if r == c || a[r][c] == 0 {
				continue
			}
			f := a[r][c] / a[c][c]
			for k := c; k <= n; k++ {
				a[r][k] -= f * a[c][k]
			}
		}
	}
	out := make([]float64, n)
	for i := range out {
		out[i] = a[i][n] / a[i][i]
	}
	return out
}

func (s *natural) interval(x float64) int {
	for i := 0; i+2 < len(s.x); i++ {
		if x <= s.x[i+1] {
			return i
		}
	}
	return len(s.x) - 2
}

// deriv gives the derivative of order o from the textbook symmetric form.
func (s *natural) deriv(x float64, o int) float64 {
	i := s.interval(x)
	h := s.x[i+1] - s.x[i]
	u, v := s.x[i+1]-x, x-s.x[i]
	m0, m1, y0, y1 := s.m[i], s.m[i+1], s.y[i], s.y[i+1]
	switch o {
	case 0:
		return (m0*u*u*u+m1*v*v*v)/(6*h) + (y0/h-m0*h/6)*u + (y1/h-m1*h/6)*v
	case 1:
		return (m1*v*v-m0*u*u)/(2*h) + (y1-y0)/h - (m1-m0)*h/6
	case 2:
		return (m0*u + m1*v) / h
	case 3:
		return (m1 - m0) / h
	}
	return 0
}

// integ integrates with a rule exact for cubics, piece by piece.
func (s *natural) integ(lo, hi float64) float64 {
	if lo > hi {
		return -s.integ(hi, lo)
	}
	cuts := []float64{lo}
	for _, k := range s.x {
		if k > lo && k < hi {
			cuts = append(cuts, k)
		}
	}
	cuts = append(cuts, hi)
	sum := 0.0
	for i := 0; i+1 < len(cuts); i++ {
		a, b := cuts[i], cuts[i+1]
		sum += (b - a) / 6 * (s.deriv(a, 0) + 4*s.deriv((a+b)/2, 0) + s.deriv(b, 0))
	}
	return sum
}

func datasets(xs []float64) [][]float64 {
	n := len(xs)
	out := [][]float64{}
	for b := 0; b < n; b++ {
		ys := make([]float64, n)
		ys[b] = 1
		out = append(out, ys)
	}
	l, k := make([]float64, n), make([]float64, n)
	for i, x := range xs {
		l[i], k[i] = 4-3*x, x*x*x-2*x*x+0.5
	}
	return append(out, l, k)
}

func runC24(c *hx.C) {
	gaps := []float64{1, 0.25, 6}
	for n := 2; n <= c.Pick(5, 7); n++ {
		for _, start := range []float64{0, -7.3} {
			hx.Seqs(len(gaps), n-1, func(s []int) {
				xs := []float64{start}
				for _, g := range s {
					xs = append(xs, xs[len(xs)-1]+gaps[g])
				}
				c.Case(fmt.Sprintf("%d/%v/%g", n, s, start), func(t *hx.T) {
					splineCase(t, xs)
					splineCase(t, table(xs...).reversed().xs)
				})
			})
		}
	}
	for _, n := range append([]int{6, 7, 9, 16, 33}, []int{12, 40}[:c.Pick(0, 2)]...) {
		for i, a := range axes(n) {
			a := a
			c.Case(fmt.Sprintf("long/%d/%d", n, i), func(t *hx.T) { splineCase(t, a.xs) })
		}
	}
	for n := 2; n <= 5; n++ {
		n := n
		c.Case(fmt.Sprintf("reinit/%d", n), func(t *hx.T) { splineReinit(t, n, c.Pick(3, 4)) })
	}
	c.Case("refused", splineRefused)
}

func splineCase(t *hx.T, xs []float64) {
	n := len(xs)
	ax := table(xs...)
	lo, hi := ax.lohi()
	qs := ax.points(true)
	odd := !ax.incr()
	for i := 2; i < n; i++ {
		odd = odd || math.Abs((xs[i]-xs[i-1])-(xs[i-1]-xs[i-2])) > 1e-9
	}
	for k, ys := range datasets(xs) {
		if n > 7 && k < n && k%5 != 0 && k != n-1 {
			continue
		}
		ref := newNatural(xs, ys)
		x0, y0 := clone(xs), clone(ys)
		what := fmt.Sprintf("spline through x = %v, y = %v", xs, ys)
		var sp *interpolate.Spline
		t.Eval(odd)
		if err := hx.Try(func() { sp = interpolate.NewSpline(x0, y0) }); err != nil {
			t.Fail("%s: refused (%v)", what, err)
			return
		}
		// The largest value of each derivative sets the scale of rounding.
		var scale [4]float64
		for o := range scale {
			for _, x := range qs {
				scale[o] = math.Max(scale[o], math.Abs(ref.deriv(x, o)))
			}
			scale[o] += 1e-9 * scale[0]
		}
		for i, x := range xs {
			got := 0.0
			if err := hx.Try(func() { got = sp.Eval(x) }); err != nil || hx.Off(got, ys[i], 1e-12*scale[0]) {
				t.Fail("%s: %g at knot %g (%v)", what, got, x, err)
				return
			}
		}
		for _, x := range qs {
			knot := false
			for _, kx := range xs {
				knot = knot || math.Abs(x-kx) < 1e-12
			}
			got := 0.0
			err := hx.Try(func() { got = sp.Eval(x) })
			t.Eval(odd)
			if err != nil || hx.Off(got, ref.deriv(x, 0), 1e-10*scale[0]) {
				t.Fail("%s: %g at %g, want %g (%v)", what, got, x, ref.deriv(x, 0), err)
				return
			}
			for o := 0; o <= 4; o++ {
				if knot && o == 3 && n > 2 {
					continue // jumps there
				}
				want, tol := 0.0, 0.0
				if o < 4 {
					want, tol = ref.deriv(x, o), 1e-9*scale[o]
				}
				err := hx.Try(func() { got = sp.Deriv(x, o) })
				t.Eval(odd)
				if err != nil || hx.Off(got, want, tol) {
					t.Fail("%s: derivative of order %d is %g at %g, want %g (%v)", what, o, got, x, want, err)
					return
				}
			}
		}
		for i, p := range qs {
			for j, q := range qs {
				if k > 0 && k < n && (i+j)%3 != 0 || n > 7 && (i*3+j)%23 != 0 {
					continue // every pair for one unit value, line and cubic
				}
				want, got := ref.integ(p, q), 0.0
				err := hx.Try(func() { got = sp.Integrate(p, q) })
				t.Eval(odd)
				if err != nil || hx.Off(got, want, 1e-10*scale[0]*(hi-lo)) {
					t.Fail("%s: integral from %g to %g is %g, want %g (%v)", what, p, q, got, want, err)
					return
				}
			}
		}
		r := sp.EvalAll(qs)
		out := make([]float64, len(qs))
		r2 := sp.EvalAll(qs, out)
		for i, q := range qs {
			if v := sp.Eval(q); v != r[i] || v != out[i] || v != r2[i] {
				t.Fail("%s: EvalAll gives %g and %g at %g, Eval %g", what, r[i], out[i], q, v)
				return
			}
		}
		if !same(x0, xs) || !same(y0, ys) {
			t.Fail("%s: the table was modified", what)
		}
	}
	t.Sample("%v", xs)
}

// splineReinit re-initialises one spline along every sequence of tables.
func splineReinit(t *hx.T, n, depth int) {
	tabs := []tab{}
	for i, a := range axes(n) {
		if i == 1 || i >= 4 {
			ds := datasets(a.xs)
			tabs = append(tabs, tab{a.xs, ds[i%n]})
			if i == 4 {
				tabs = append(tabs, tab{a.xs, ds[n+1]})
			}
		}
	}
	fp := func(sp *interpolate.Spline, xs []float64) []float64 {
		out := []float64{}
		qs := table(xs...).points(false)
		for _, q := range qs {
			out = append(out, sp.Eval(q), sp.Integrate(qs[0], q))
			for o := 0; o < 4; o++ {
				out = append(out, sp.Deriv(q, o))
			}
		}
		return out
	}
	fresh := [][]float64{}
	for _, b := range tabs {
		fresh = append(fresh, fp(interpolate.NewSpline(b.xs, b.ys), b.xs))
	}
	for l := 1; l <= depth; l++ {
		splineHistories(t, n, l, tabs, fresh, fp)
	}
}

type tab struct{ xs, ys []float64 }

func splineHistories(t *hx.T, n, l int, tabs []tab, fresh [][]float64, fp func(*interpolate.Spline, []float64) []float64) {
	hx.Seqs(len(tabs), l, func(s []int) {
		if t.Failed() {
			return
		}
		b := tabs[s[0]]
		x0, y0 := clone(b.xs), clone(b.ys)
		sp := interpolate.NewSpline(x0, y0)
		for _, i := range s[1:] {
			sp.Init(tabs[i].xs, tabs[i].ys)
		}
		last := s[len(s)-1]
		t.Eval(len(s) > 1)
		if it := interpolate.NewSplineInterpolator(x0, y0); len(s) == 1 {
			qs := table(x0...).points(false)
			if got := it.EvalAll(qs); !same(got, sp.EvalAll(qs)) || it.Eval(qs[1]) != sp.Eval(qs[1]) {
				t.Fail("the interpolator of spline %v differs from the spline", s)
			}
		}
		if got := fp(sp, tabs[last].xs); !same(got, fresh[last]) {
			t.Fail("spline given tables %v in turn differs from a fresh one: %v, want %v", s, got, fresh[last])
		}
		if !same(x0, b.xs) || !same(y0, b.ys) {
			t.Fail("re-initialising a spline wrote to its first table (%v)", s)
		}
		for _, bad := range []int{n - 1, n + 1} {
			xs := make([]float64, bad)
			for i := range xs {
				xs[i] = float64(i)
			}
			if hx.Try(func() { sp.Init(xs, xs) }) == nil {
				t.Fail("a spline of %d points accepts a table of %d", n, bad)
			}
		}
	})
}

func splineRefused(t *hx.T) {
	// Every order of up to four distinct coordinates but the sorted ones.
	for n := 3; n <= 5; n++ {
		hx.Perms(n, func(p []int) {
			up, down := true, true
			xs := make([]float64, n)
			for i := range p {
				xs[i] = float64(p[i])
				if i > 0 {
					up, down = up && p[i] > p[i-1], down && p[i] < p[i-1]
				}
			}
			err := hx.Try(func() { interpolate.NewSpline(xs, make([]float64, n)) })
			t.Eval(true)
			if (err == nil) != (up || down) {
				t.Fail("table with x = %v: %v", xs, err)
			}
		})
	}
	for _, m := range [][2]int{{0, 0}, {1, 1}, {2, 3}, {3, 2}, {0, 2}} {
		t.Eval(true)
		xs, ys := make([]float64, m[0]), make([]float64, m[1])
		for i := range xs {
			xs[i] = float64(i)
		}
		if hx.Try(func() { interpolate.NewSpline(xs, ys) }) == nil {
			t.Fail("table with %d x values and %d y values accepted", m[0], m[1])
		}
	}
	for _, xs := range [][]float64{{0, 1}, {0, 1, 5}, {5, 1, 0}, {1, 0}} {
		lo, hi := table(xs...).lohi()
		sp := interpolate.NewSpline(xs, xs)
		for _, q := range []float64{lo - 0.5, hi + 0.5, lo - 100, hi + 100} {
			t.Eval(true)
			if hx.Try(func() { sp.Eval(q) }) == nil || hx.Try(func() { sp.Deriv(q, 1) }) == nil || hx.Try(func() { sp.Integrate(q, lo) }) == nil || hx.Try(func() { sp.Integrate(hi, q) }) == nil {
				t.Fail("spline over %v used at %g, outside its range", xs, q)
			}
		}
	}
}
