package main

import (
	"fmt"
	"math"
	"math/bits"

	"github.com/phil-mansfield/gotetra/cosmo"
	"github.com/phil-mansfield/gotetra/math/calc"
	"github.com/phil-mansfield/gotetra/math/rand"
	"verif/mc/hx"
)

const ruleC30 = "every sequence of draws and restarts on two sequences up to the stated length against the published construction, and every dimension and power of two up to the stated one for the stratification; non-trivial when a restart or a second sequence takes part"

const ruleC31 = "every order, every pattern of spacings up to the stated length in both directions, every monomial up to the order; non-trivial when the spacing varies"

const ruleC32 = "every combination of Hubble constant, densities and redshift of a lattice; non-trivial when the redshift is not zero"

// sobolDims are the primitive polynomials and initial numbers of Sobol's
// construction as tabulated in Numerical Recipes: degree, inner coefficients
// from the highest, initial odd numbers.
var sobolDims = []struct {
	a []uint64
	m []uint64
}{
	{[]uint64{}, []uint64{1}},
	{[]uint64{1}, []uint64{1, 1}},
	{[]uint64{0, 1}, []uint64{1, 3, 7}},
	{[]uint64{1, 0}, []uint64{1, 3, 3}},
	{[]uint64{0, 0, 1}, []uint64{1, 1, 3, 13}},
	{[]uint64{1, 0, 0}, []uint64{1, 1, 5, 9}},
}

const sobolBits = 30

// sobolDirections gives the direction numbers of each dimension.
func sobolDirections() (v [6][sobolBits]uint64) {
	for d, s := range sobolDims {
		m := append([]uint64{}, s.m...)
		deg := len(s.a) + 1
		for k := deg; k < sobolBits; k++ {
			x := m[k-deg] ^ m[k-deg]<<deg
			for i, c := range s.a {
				x ^= c * (m[k-1-i] << (i + 1))
			}
			m = append(m, x)
		}
		for k := range v[d] {
			v[d][k] = m[k] << (sobolBits - 1 - k)
		}
	}
	return v
}

// sobol gives the points of the sequence in Gray code order, without the origin.
func sobol(n int) [][6]float64 {
	const unit = sobolBits
	v := sobolDirections()
	out := make([][6]float64, n)
	for i := range out {
		g := uint64(i+1) ^ uint64(i+1)>>1
		for d := range out[i] {
			x := uint64(0)
			for k := 0; g>>k > 0; k++ {
				if g>>k&1 == 1 {
					x ^= v[d][k]
				}
			}
			out[i][d] = float64(x) / (1 << unit)
		}
	}
	return out
}

func runC30(c *hx.C) {
	top := c.Pick(13, 18)
	for dim := 1; dim <= 6; dim++ {
		dim := dim
		c.Case(fmt.Sprintf("points/%d", dim), func(t *hx.T) { sobolPoints(t, dim, top) })
	}
	for dim := 1; dim <= 6; dim++ {
		dim := dim
		c.Case(fmt.Sprintf("long/%d", dim), func(t *hx.T) { sobolLong(t, dim, 1<<c.Pick(20, 30)-1) })
	}
	for _, dims := range [][2]int{{1, 1}, {2, 2}, {2, 6}, {6, 3}} {
		for first := 0; first < 6; first++ {
			dims, first := dims, first
			c.Case(fmt.Sprintf("history/%v/%d", dims, first), func(t *hx.T) { sobolHistories(t, dims, first, c.Pick(5, 7)) })
		}
	}
	c.Case("refused", func(t *hx.T) {
		for d := 7; d <= 9; d++ {
			t.Eval(true)
			t.Trans(1)
			s := rand.NewSobolSequence()
			if hx.Try(func() { s.Next(d) }) == nil {
				t.Fail("points of dimension %d given out", d)
			}
		}
		t.Trace()
		t.State("refused")
	})
}

func sobolPoints(t *hx.T, dim, top int) {
	n := 1 << top
	want := sobol(n)
	s := rand.NewSobolSequence()
	pts := [][]float64{make([]float64, dim)} // the origin comes first
	buf := make([]float64, dim)
	for i := 0; i < n; i++ {
		p := buf
		if i%3 == 0 {
			p = s.Next(dim)
		} else {
			s.NextAt(buf)
		}
		t.Trans(1)
		for d, x := range p {
			if !(x >= 0 && x < 1) || len(p) != dim {
				t.Fail("dimension %d: point %d is %v", dim, i, p)
				return
			}
			if x != want[i][d] {
				t.Fail("dimension %d: coordinate %d of point %d is %v, want %v", dim, d, i, x, want[i][d])
				return
			}
		}
		pts = append(pts, clone(p))
	}
	// Every aligned block of 2^k points, the origin included, has one point in
	// each of the 2^k intervals of each coordinate, and two in each elementary
	// box of twice that size of the first two.
	for k := 0; k <= top; k++ {
		size := 1 << k
		for lo := 0; lo+size <= n; lo += size {
			if k < 4 && lo > 4096 {
				break
			}
			t.Eval(k > 0)
			for d := 0; d < dim; d++ {
				seen := make([]bool, size)
				for _, p := range pts[lo : lo+size] {
					b := int(p[d] * float64(size))
					if seen[b] {
						t.Fail("dimension %d: points %d to %d have two in interval %d of %d of coordinate %d", dim, lo, lo+size, b, size, d)
						return
					}
					seen[b] = true
				}
			}
			// The polynomials of the first two have degrees one and two, so
			// boxes hold two points.
			for e := 0; dim > 1 && e < k; e++ {
				seen := make([]int, size/2)
				for _, p := range pts[lo : lo+size] {
					b := int(p[0]*float64(int(1)<<e))<<(k-1-e) | int(p[1]*float64(int(1)<<(k-1-e)))
					if seen[b]++; seen[b] > 2 {
						t.Fail("dimension %d: points %d to %d have three in a box of 2^-%d by 2^-%d", dim, lo, lo+size, e, k-1-e)
						return
					}
				}
			}
		}
	}
	t.Trace()
	t.State(fmt.Sprint(dim))
}

// sobolLong follows one sequence as far as n points.
func sobolLong(t *hx.T, dim, n int) {
	v := sobolDirections()
	s := rand.NewSobolSequence()
	buf := make([]float64, dim)
	var x [6]uint64
	for i := 0; i < n; i++ {
		if i%(1<<18) == 0 {
			t.Beat()
		}
		s.NextAt(buf)
		k := bits.TrailingZeros32(^uint32(i)) // the bit that changes
		for d := range buf {
			x[d] ^= v[d][k]
			if buf[d] != float64(x[d])/(1<<sobolBits) {
				t.Fail("dimension %d: coordinate %d of point %d is %v, want %v", dim, d, i, buf[d], float64(x[d])/(1<<sobolBits))
				return
			}
		}
	}
	t.Trans(n)
	t.Eval(true)
	t.Trace()
	t.State(fmt.Sprint("long", dim))
}

func sobolHistories(t *hx.T, dims [2]int, first, depth int) {
	want := sobol(depth)
	names := []string{"Next", "NextAt", "Init"}
	for l := 0; l < depth; l++ {
		hx.Seqs(6, l, func(rest []int) {
			if t.Failed() {
				return
			}
			seqs := [2]*rand.SobolSequence{rand.NewSobolSequence(), new(rand.SobolSequence)}
			seqs[1].Init()
			pos, used := [2]int{}, [2]bool{}
			for step, o := range append([]int{first}, rest...) {
				w := o % 2
				s := seqs[w]
				used[w] = true
				t.Trans(1)
				var p []float64
				switch o / 2 {
				case 0:
					p = s.Next(dims[w])
				case 1:
					p = make([]float64, dims[w])
					s.NextAt(p)
				case 2:
					s.Init()
					pos[w], used[0], used[1] = 0, true, true
				}
				t.State(fmt.Sprint(dims, pos))
				if p == nil {
					continue
				}
				for d := range p {
					if len(p) != dims[w] || p[d] != want[pos[w]][d] {
						h := []string{}
						for _, o := range append([]int{first}, rest...) {
							h = append(h, fmt.Sprintf("%d: %s", o%2, names[o/2]))
						}
						t.Fail("sequences of dimensions %v: %v: step %d gives %v, want %v", dims, h, step, p, want[pos[w]][:dims[w]])
						return
					}
				}
				pos[w]++
			}
			t.Eval(used[0] && used[1])
			t.Trace()
		})
	}
}

func runC31(c *hx.C) {
	gaps := []float64{1, 0.5, 3}
	for _, order := range []int{2, 4} {
		for n := order + 1; n <= c.Pick(7, 9); n++ {
			for _, dir := range []float64{1, -1} {
				order, n, dir := order, n, dir
				c.Case(fmt.Sprintf("%d/%d/%g", order, n, dir), func(t *hx.T) {
					hx.Seqs(len(gaps), n-1, func(s []int) {
						for _, start := range []float64{0, -5.25} {
							xs := []float64{start}
							uneven := false
							for i, g := range s {
								xs = append(xs, xs[i]+dir*gaps[g])
								uneven = uneven || s[i] != s[0]
							}
							derivOne(t, xs, order, uneven)
						}
					})
				})
			}
		}
		for _, n := range []int{10, 25, 101} {
			order, n := order, n
			c.Case(fmt.Sprintf("long/%d/%d", order, n), func(t *hx.T) {
				for _, dx := range []float64{1, 0.125, -2, 3} {
					derivOne(t, uniform(-3, dx, n).xs, order, false)
				}
			})
		}
	}
	c.Case("refused", func(t *hx.T) {
		try := func(n, m, o, order int) error {
			return hx.Try(func() {
				xs := uniform(0, 1, 9).xs[:n]
				calc.Deriv(xs, make([]float64, m, 9), order, calc.Out(make([]float64, o, 9)))
			})
		}
		for n := 1; n <= 8; n++ {
			for m := 1; m <= 8; m++ {
				for o := 1; o <= 8; o++ {
					for _, order := range []int{2, 4} {
						t.Eval(true)
						if err := try(n, m, o, order); (err == nil) != (n == m && n == o && n > order) {
							t.Fail("order %d over %d values of x, %d of y and an output of %d: %v", order, n, m, o, err)
						}
					}
				}
			}
		}
		for _, order := range []int{-4, -2, -1, 1, 3, 5, 6, 8} {
			t.Eval(true)
			if try(9, 9, 9, order) == nil {
				t.Fail("order %d accepted", order)
			}
		}
	})
}

func derivOne(t *hx.T, xs []float64, order int, uneven bool) {
	if t.Failed() {
		return
	}
	n := len(xs)
	mid := xs[n/2]
	tab := func(e int) (ys, ds []float64) {
		for _, x := range xs {
			ys = append(ys, math.Pow(x-mid, float64(e)))
			if e == 0 {
				ds = append(ds, 0)
			} else {
				ds = append(ds, float64(e)*math.Pow(x-mid, float64(e-1)))
			}
		}
		return
	}
	step := math.Inf(1)
	for i := 1; i < n; i++ {
		step = math.Min(step, math.Abs(xs[i]-xs[i-1]))
	}
	for e := 0; e <= order; e++ {
		ys, ds := tab(e)
		x0, y0 := clone(xs), clone(ys)
		out := make([]float64, n)
		for i := range out {
			out[i] = math.NaN()
		}
		var got, got2 []float64
		err := hx.Try(func() {
			got = calc.Deriv(x0, y0, order)
			got2 = calc.Deriv(x0, y0, order, calc.Out(out))
		})
		t.Eval(uneven)
		if err != nil || len(got) != n || !same(got, out) || !same(got2, out) || &got2[0] != &out[0] {
			t.Fail("order %d, x = %v, y = (x - %g)^%d: %v, written to a given slice %v (%v)", order, xs, mid, e, got, out, err)
			return
		}
		for i := range got {
			if hx.Off(got[i], ds[i], 1e-9*(1+norm(ys)/step)) {
				t.Fail("order %d, x = %v, y = (x - %g)^%d: %g at point %d, want %g", order, xs, mid, e, got[i], i, ds[i])
				return
			}
		}
		if !same(x0, xs) || !same(y0, ys) {
			t.Fail("order %d, x = %v, y = %v: the inputs became %v and %v", order, xs, ys, x0, y0)
			return
		}
	}
}

func runC32(c *hx.C) {
	c.Case("constants", func(t *hx.T) {
		for _, k := range []struct {
			name      string
			got, want float64
		}{{"G", cosmo.GMks, 6.6743e-11}, {"Mpc", cosmo.MpcMks, 3.0856776e22}, {"solar mass", cosmo.MSunMks, 1.98841e30}, {"speed of light", cosmo.CMks, 2.99792458e8}} {
			t.Eval(true)
			if hx.Off(k.got/k.want, 1, 2e-3) {
				t.Fail("%s is %g, want %g", k.name, k.got, k.want)
			}
		}
	})
	zs := []float64{0, 1e-3, 0.1, 0.5, 1, 2.5, 10, 49, 1000, -0.5, -0.9}
	oms := []float64{0.01, 0.1, 0.25, 0.27, 0.3, 0.5, 0.99, 1}
	for _, h0 := range []float64{10, 50, 67.4, 70, 100, 250} {
		h0 := h0
		c.Case(fmt.Sprintf("lattice/%g", h0), func(t *hx.T) {
			type res struct{ h, c, a float64 }
			all := map[[3]float64]res{}
			for pass := 0; pass < 2; pass++ {
				for _, om := range oms {
					for _, ol := range []float64{1 - om, 0, 0.7, 1.2} {
						for i := range zs {
							z := zs[i]
							if pass == 1 {
								z = zs[len(zs)-1-i]
							}
							r := res{cosmo.HubbleFrac(om, ol, z), cosmo.RhoCritical(h0, om, ol, z), cosmo.RhoAverage(h0, om, ol, z)}
							k := [3]float64{om, ol, z}
							if old, ok := all[k]; ok && old != r {
								t.Fail("H0 = %g, OmegaM = %g, OmegaL = %g, z = %g: %v, before %v", h0, om, ol, z, r, old)
							}
							all[k] = r
							t.Eval(z != 0)
							what := fmt.Sprintf("H0 = %g, OmegaM = %g, OmegaL = %g, z = %g", h0, om, ol, z)
							e2 := om*(1+z)*(1+z)*(1+z) + ol
							if hx.Off(r.h*r.h/e2, 1, 1e-12) || r.h < 0 {
								t.Fail("%s: H/H0 is %g, want %g", what, r.h, math.Sqrt(e2))
							}
							// 3 H^2 / (8 pi G) with H in 1/s, in solar masses
							// over h per (Mpc/h)^3.
							hs := 100e3 / cosmo.MpcMks * math.Sqrt(e2)
							want := 3 * hs * hs / (8 * math.Pi * cosmo.GMks) * cosmo.MpcMks * cosmo.MpcMks * cosmo.MpcMks / cosmo.MSunMks
							if hx.Off(r.c/want, 1, 1e-10) || hx.Off(r.c/(2.77536627e11*e2), 1, 3e-3) {
								t.Fail("%s: critical density %g, want %g", what, r.c, want)
							}
							if a0 := om * cosmo.RhoCritical(h0, om, ol, 0) * (1 + z) * (1 + z) * (1 + z); hx.Off(r.a/a0, 1, 1e-10) {
								t.Fail("%s: mean density %g, want %g", what, r.a, a0)
							}
							if t.Failed() {
								return
							}
						}
					}
				}
			}
		})
	}
}
