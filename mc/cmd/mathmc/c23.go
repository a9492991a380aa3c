package main

import (
	"fmt"
	"math"

	"github.com/phil-mansfield/gotetra/math/interpolate"
	"verif/mc/hx"
)

const ruleC23 = "every combination of axes (kind, direction, length), a unit value at each node in turn and multilinear functions, at every node, beside it by one ulp and inside every cell, and every pair of successive queries out-of-range ones included; non-trivial when an axis decreases or is not uniform"

// axis is a coordinate table.
type axis struct {
	xs     []float64
	unif   bool
	x0, dx float64
}

func (a axis) String() string {
	if a.unif {
		return fmt.Sprintf("%d from %g by %g", len(a.xs), a.x0, a.dx)
	}
	return fmt.Sprint(a.xs)
}

func uniform(x0, dx float64, n int) axis {
	a := axis{unif: true, x0: x0, dx: dx}
	for i := 0; i < n; i++ {
		a.xs = append(a.xs, x0+float64(i)*dx)
	}
	return a
}

func table(xs ...float64) axis { return axis{xs: xs} }

func (a axis) reversed() axis {
	b := axis{}
	for i := len(a.xs) - 1; i >= 0; i-- {
		b.xs = append(b.xs, a.xs[i])
	}
	return b
}

// plain reports an increasing axis.
func (a axis) incr() bool { return a.xs[0] < a.xs[len(a.xs)-1] }

func (a axis) lohi() (float64, float64) {
	l, h := a.xs[0], a.xs[len(a.xs)-1]
	return math.Min(l, h), math.Max(l, h)
}

// points are the queries along one axis; fine ones are added when asked for.
func (a axis) points(fine bool) []float64 {
	lo, hi := a.lohi()
	out := []float64{}
	add := func(x float64) {
		if x >= lo && x <= hi {
			out = append(out, x)
		}
	}
	for i, x := range a.xs {
		add(x)
		if fine {
			add(math.Nextafter(x, lo-1))
			add(math.Nextafter(x, hi+1))
		}
		if i > 0 {
			fs := []float64{0.375}
			if fine {
				fs = []float64{0.125, 0.5, 0.8}
			}
			for _, f := range fs {
				add(x + (a.xs[i-1]-x)*f)
			}
		}
	}
	return out
}

// weights are the hat functions of the axis at x.
func (a axis) weights(x float64) []float64 {
	w := make([]float64, len(a.xs))
	for i := 0; i+1 < len(a.xs); i++ {
		l, h := a.xs[i], a.xs[i+1]
		if (x-l)*(x-h) <= 0 {
			f := (x - l) / (h - l)
			w[i], w[i+1] = 1-f, f
			return w
		}
	}
	panic(hx.HarnessError{Msg: "query outside its axis"})
}

// ulps is how far the implementation may be from the weights: a table whose
// coordinates are large against their spacing loses digits.
func (a axis) tol() float64 {
	m, d := 0.0, math.Inf(1)
	for i, x := range a.xs {
		m = math.Max(m, math.Abs(x))
		if i > 0 {
			d = math.Min(d, math.Abs(x-a.xs[i-1]))
		}
	}
	return 1e-14 * (8 + m/d)
}

func axes(n int) []axis {
	skew, late := []float64{0, 1, 1.25, 7, 7.5, 20, 21}, []float64{-100, -3, -2.5, -2, -1.75, 0.5, 0.75}
	for i := 7; i < n; i++ {
		skew = append(skew, skew[i-1]+[]float64{0.25, 3, 0.5, 11, 1}[i%5])
		late = append(late, late[i-1]+[]float64{0.5, 0.5, 2, 0.125}[i%4])
	}
	skew, late = skew[:n], late[:n]
	out := []axis{uniform(0, 1, n), uniform(-3.5, 0.1, n), uniform(2, -0.3, n), table(uniform(10, 2, n).xs...), table(skew...), table(late...)}
	return append(out, out[3].reversed(), out[4].reversed(), out[5].reversed())
}

func runC23(c *hx.C) {
	for _, n := range append([]int{2, 3, 4, 5, 6, 7, 8, 16, 33, 100}, []int{17, 64, 65, 200}[:c.Pick(0, 4)]...) {
		for i, a := range axes(n) {
			a := a
			c.Case(fmt.Sprintf("1d/%d/%d", n, i), func(t *hx.T) { linear1(t, a) })
		}
	}
	c.Case("refused", linearRefused)
	for _, s := range [][2]int{{7, 2}, {2, 7}, {5, 6}, {9, 4}} {
		for i, a := range axes(s[0]) {
			a, s := a, s
			c.Case(fmt.Sprintf("2d/%d-%d/%d", s[0], s[1], i), func(t *hx.T) {
				for _, b := range axes(s[1]) {
					linear2(t, a, b)
				}
			})
		}
	}
	for nx := 2; nx <= c.Pick(3, 4); nx++ {
		for ny := 2; ny <= c.Pick(3, 4); ny++ {
			for i, a := range axes(nx) {
				a, ny := a, ny
				c.Case(fmt.Sprintf("2d/%d-%d/%d", nx, ny, i), func(t *hx.T) {
					for _, b := range axes(ny) {
						linear2(t, a, b)
					}
				})
			}
		}
	}
	for _, s := range [][3]int{{2, 3, 4}, {4, 2, 3}, {3, 4, 2}, {2, 2, 2}, {5, 3, 2}, {3, 3, 5}}[:c.Pick(5, 6)] {
		for i, a := range axes(s[0]) {
			a, s := a, s
			c.Case(fmt.Sprintf("3d/%d%d%d/%d", s[0], s[1], s[2], i), func(t *hx.T) {
				for _, b := range axes(s[1]) {
					for _, d := range axes(s[2]) {
						if d.unif == (a.unif && b.unif) || !d.unif {
							linear3(t, a, b, d)
						}
					}
				}
			})
		}
	}
}

func clone(xs []float64) []float64 { return append([]float64{}, xs...) }

func same(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Float64bits(a[i]) != math.Float64bits(b[i]) {
			return false
		}
	}
	return true
}

func linear1(t *hx.T, a axis) {
	n := len(a.xs)
	lo, hi := a.lohi()
	qs := a.points(true)
	for basis := 0; basis <= n; basis++ {
		vals := make([]float64, n)
		for i := range vals {
			if i == basis {
				vals[i] = 1
			}
			if basis == n {
				vals[i] = 3 - 2*a.xs[i]
			}
		}
		xs0, vals0 := clone(a.xs), clone(vals)
		builds := map[string]func() interpolate.Interpolator{"table": func() interpolate.Interpolator { return interpolate.NewLinear(xs0, vals0) },
			"table by interface": func() interpolate.Interpolator { return interpolate.NewLinearInterpolator(xs0, vals0) }}
		if a.unif {
			builds["uniform"] = func() interpolate.Interpolator { return interpolate.NewUniformLinear(a.x0, a.dx, vals0) }
			builds["uniform by interface"] = func() interpolate.Interpolator {
				return interpolate.NewUniformLinearInterpolator(a.x0, a.dx, vals0)
			}
		}
		for kind, build := range builds {
			var f interpolate.Interpolator
			if err := hx.Try(func() { f = build() }); err != nil {
				t.Fail("%s %v: %v", kind, a, err)
				return
			}
			what := fmt.Sprintf("linear %s, x = %v, values %v", kind, a, vals)
			one := func(x float64) bool {
				want, scale := 0.0, 0.0
				if x >= lo && x <= hi {
					for i, w := range a.weights(x) {
						want += w * vals[i]
						scale = math.Max(scale, math.Abs(vals[i]))
					}
				}
				var got float64
				err := hx.Try(func() { got = f.Eval(x) })
				t.Eval(!a.unif || !a.incr())
				if x < lo || x > hi {
					if err == nil && (x < lo-1e-9 || x > hi+1e-9) {
						t.Fail("%s: gives %g at %g, outside its range", what, got, x)
						return false
					}
					return true
				}
				if err != nil || hx.Off(got, want, a.tol()*scale) {
					t.Fail("%s: %g at %g, want %g (%v)", what, got, x, want, err)
					return false
				}
				return true
			}
			seq := append([]float64{lo - 1, hi + 1, math.Inf(-1), math.Inf(1)}, qs...)
			for i, p := range seq {
				if n > 8 && i > 0 && i%(n/3) != 0 {
					continue // long tables: pairs starting from some of the points
				}
				for _, q := range seq {
					if basis < n && basis != n/2 && p != seq[0] {
						continue // all pairs for one unit value and the line
					}
					if !one(p) || !one(q) {
						return
					}
				}
			}
			out := make([]float64, len(qs))
			q0 := clone(qs)
			r1, r2 := f.EvalAll(qs), f.EvalAll(qs, out)
			if !same(r1, out) || !same(r2, out) || !same(q0, qs) || &r2[0] != &out[0] {
				t.Fail("%s: EvalAll gives %v and %v in an output of its own", what, r1, out)
			}
			for i, q := range qs {
				if g := f.Eval(q); g != r1[i] {
					t.Fail("%s: EvalAll gives %g at %g, Eval %g", what, r1[i], q, g)
				}
			}
			if !same(xs0, a.xs) || !same(vals0, vals) {
				t.Fail("%s: the table was modified", what)
				return
			}
		}
	}
	t.Sample("1d %v", a)
}

func linear2(t *hx.T, a, b axis) {
	nx, ny := len(a.xs), len(b.xs)
	fs := []interpolate.BiInterpolator{}
	tabs := [][]float64{}
	for basis := 0; basis <= nx*ny; basis++ {
		vals := make([]float64, nx*ny)
		if basis < nx*ny {
			vals[basis] = 1
		}
		for i := range vals {
			if basis == nx*ny {
				x, y := a.xs[i%nx], b.xs[i/nx]
				vals[i] = 1 + 2*x - 3*y + 0.5*x*y
			}
		}
		var f interpolate.BiInterpolator = interpolate.NewBiLinear(a.xs, b.xs, vals)
		if a.unif && b.unif {
			if f = interpolate.NewUniformBiLinear(a.x0, a.dx, nx, b.x0, b.dx, ny, vals); basis%2 == 1 {
				f = interpolate.NewUniformBiLinearInterpolator(a.x0, a.dx, nx, b.x0, b.dx, ny, vals)
			}
		} else if basis%2 == 1 {
			f = interpolate.NewBiLinearInterpolator(a.xs, b.xs, vals)
		}
		fs, tabs = append(fs, f), append(tabs, clone(vals))
	}
	px, py := a.points(true), b.points(true)
	tol := 4 * (a.tol() + b.tol())
	for _, x := range px {
		wx := a.weights(x)
		for _, y := range py {
			wy := b.weights(y)
			for k, f := range fs {
				want, scale := 0.0, 0.0
				for i, v := range tabs[k] {
					want += v * wx[i%nx] * wy[i/nx]
					scale = math.Max(scale, math.Abs(v))
				}
				var got float64
				err := hx.Try(func() { got = f.Eval(x, y) })
				t.Eval(!(a.unif && b.unif && a.incr() && b.incr()))
				if err != nil || hx.Off(got, want, tol*scale) {
					t.Fail("bilinear x = %v, y = %v, values %v: %g at (%g, %g), want %g (%v)", a, b, tabs[k], got, x, y, want, err)
					return
				}
			}
		}
	}
	f := fs[nx*ny]
	alo, ahi := a.lohi()
	blo, bhi := b.lohi()
	for _, q := range [][2]float64{{alo - 1, blo}, {ahi + 1, blo}, {alo, blo - 1}, {ahi, bhi + 1}, {ahi + 1, bhi + 1}} {
		t.Eval(true)
		if hx.Try(func() { f.Eval(q[0], q[1]) }) == nil {
			t.Fail("bilinear x = %v, y = %v: evaluates at (%g, %g), outside its range", a, b, q[0], q[1])
		}
	}
	qx, qy := []float64{}, []float64{}
	for i := 0; i < 12; i++ {
		qx, qy = append(qx, px[i*5%len(px)]), append(qy, py[i*7%len(py)])
	}
	out := make([]float64, len(qx))
	r1, r2 := f.EvalAll(qx, qy), f.EvalAll(qx, qy, out)
	for i := range qx {
		if v := f.Eval(qx[i], qy[i]); v != r1[i] || v != out[i] || v != r2[i] {
			t.Fail("bilinear x = %v, y = %v: EvalAll gives %g and %g, Eval %g", a, b, r1[i], out[i], v)
		}
	}
}

func linear3(t *hx.T, a, b, c axis) {
	nx, ny, nz := len(a.xs), len(b.xs), len(c.xs)
	n := nx * ny * nz
	fs := []interpolate.TriInterpolator{}
	tabs := [][]float64{}
	for basis := 0; basis <= n; basis++ {
		vals := make([]float64, n)
		if basis < n {
			vals[basis] = 1
		}
		for i := range vals {
			if basis == n {
				x, y, z := a.xs[i%nx], b.xs[i/nx%ny], c.xs[i/nx/ny]
				vals[i] = 1 + 2*x - 3*y + 0.5*z*y - 0.25*x*z + x*y*z
			}
		}
		var f interpolate.TriInterpolator
		if a.unif && b.unif && c.unif {
			if f = interpolate.NewUniformTriLinear(a.x0, a.dx, nx, b.x0, b.dx, ny, c.x0, c.dx, nz, vals); basis%2 == 1 {
				f = interpolate.NewUniformTriLinearInterpolator(a.x0, a.dx, nx, b.x0, b.dx, ny, c.x0, c.dx, nz, vals)
			}
		} else if f = interpolate.NewTriLinear(a.xs, b.xs, c.xs, vals); basis%2 == 1 {
			f = interpolate.NewTriLinearInterpolator(a.xs, b.xs, c.xs, vals)
		}
		fs, tabs = append(fs, f), append(tabs, clone(vals))
	}
	px, py, pz := a.points(false), b.points(false), c.points(false)
	tol := 4 * (a.tol() + b.tol() + c.tol())
	for _, x := range px {
		wx := a.weights(x)
		for _, y := range py {
			wy := b.weights(y)
			for _, z := range pz {
				wz := c.weights(z)
				for k, f := range fs {
					want, scale := 0.0, 1.0
					if k < n {
						want = wx[k%nx] * wy[k/nx%ny] * wz[k/nx/ny]
					} else {
						for i, v := range tabs[k] {
							want += v * wx[i%nx] * wy[i/nx%ny] * wz[i/nx/ny]
							scale = math.Max(scale, math.Abs(v))
						}
					}
					var got float64
					err := hx.Try(func() { got = f.Eval(x, y, z) })
					t.Eval(!(a.unif && b.unif && c.unif && a.incr() && b.incr() && c.incr()))
					if err != nil || hx.Off(got, want, tol*scale) {
						t.Fail("trilinear x = %v, y = %v, z = %v, values %v: %g at (%g, %g, %g), want %g (%v)", a, b, c, tabs[k], got, x, y, z, want, err)
						return
					}
				}
			}
		}
	}
	f := fs[n]
	lo, hi := [3]float64{}, [3]float64{}
	for d, s := range []axis{a, b, c} {
		lo[d], hi[d] = s.lohi()
	}
	for d := 0; d < 3; d++ {
		for _, e := range []float64{lo[d] - 1, hi[d] + 1} {
			q := lo
			q[d] = e
			t.Eval(true)
			if hx.Try(func() { f.Eval(q[0], q[1], q[2]) }) == nil {
				t.Fail("trilinear x = %v, y = %v, z = %v: evaluates at %v, outside its range", a, b, c, q)
			}
		}
	}
	qs := [3][]float64{}
	for i := 0; i < 12; i++ {
		qs[0], qs[1], qs[2] = append(qs[0], px[i*5%len(px)]), append(qs[1], py[i*7%len(py)]), append(qs[2], pz[i*3%len(pz)])
	}
	out := make([]float64, 12)
	r1, r2 := f.EvalAll(qs[0], qs[1], qs[2]), f.EvalAll(qs[0], qs[1], qs[2], out)
	for i := range out {
		if v := f.Eval(qs[0][i], qs[1][i], qs[2][i]); v != r1[i] || v != out[i] || v != r2[i] {
			t.Fail("trilinear x = %v, y = %v, z = %v: EvalAll gives %g and %g, Eval %g", a, b, c, r1[i], out[i], v)
		}
	}
}

// linearRefused: tables whose sizes do not fit their values.
func linearRefused(t *hx.T) {
	for nx := 2; nx <= 4; nx++ {
		for ny := 2; ny <= 4; ny++ {
			for nz := 1; nz <= 3; nz++ {
				x, y, z := uniform(0, 1, nx), uniform(2, 1, ny), uniform(0, 3, nz+1)
				for n := 1; n <= 48; n++ {
					vals := make([]float64, n)
					fits := map[string]struct {
						f  func()
						ok bool
					}{
						"bilinear":           {func() { interpolate.NewBiLinear(x.xs, y.xs, vals) }, n == nx*ny},
						"uniform bilinear":   {func() { interpolate.NewUniformBiLinear(0, 1, nx, 2, 1, ny, vals) }, n == nx*ny},
						"trilinear":          {func() { interpolate.NewTriLinear(x.xs, y.xs, z.xs, vals) }, n == nx*ny*(nz+1)},
						"uniform trilinear":  {func() { interpolate.NewUniformTriLinear(0, 1, nx, 2, 1, ny, 0, 3, nz+1, vals) }, n == nx*ny*(nz+1)},
						"bicubic":            {func() { interpolate.NewBiCubic(x.xs, y.xs, vals) }, n == nx*ny},
						"uniform bicubic":    {func() { interpolate.NewUniformBiCubic(0, 1, nx, 2, 1, ny, vals) }, n == nx*ny},
						"tricubic":           {func() { interpolate.NewTriCubic(x.xs, y.xs, z.xs, vals) }, n == nx*ny*(nz+1)},
						"uniform tricubic":   {func() { interpolate.NewUniformTriCubic(0, 1, nx, 2, 1, ny, 0, 3, nz+1, vals) }, n == nx*ny*(nz+1)},
						"linear":             {func() { interpolate.NewLinear(x.xs, vals) }, n == nx},
						"linear (interface)": {func() { interpolate.NewLinearInterpolator(x.xs, vals) }, n == nx},
					}
					for what, c := range fits {
						t.Eval(!c.ok)
						if err := hx.Try(c.f); (err == nil) != c.ok {
							t.Fail("%s table of %d, %d, %d with %d values: %v", what, nx, ny, nz+1, n, err)
						}
					}
				}
			}
		}
	}
}
