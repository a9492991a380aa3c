package main

import (
	"fmt"
	"math"

	"github.com/phil-mansfield/gotetra/math/interpolate"
	"verif/mc/hx"
)

const ruleC26 = "every kernel of the alphabet on every unit signal of every length from the kernel's width up, every signal over three values for the shortest ones, under each boundary rule, wide kernels on signals of up to 1000 samples, and every sequence of two (three) convolutions; non-trivial when the window reaches past an end"

const ruleC27 = "every width and order within the bounds and widths up to 101 for the lowest orders, each kernel measured by its response to unit signals and to every monomial up to its order, alone and after every other kernel; non-trivial when the kernel has more than one tap"

// kern is a kernel with its taps worked out independently, taps[j] being the
// weight of the sample j-center places further on.
type kern struct {
	name  string
	build func() *interpolate.Kernel
	taps  []float64
	order int     // degree reproduced
	deriv int     // derivative taken
	dx    float64 // spacing
	tol   float64
}

// fit gives the weights of the derivative of order d at the centre of the
// least-squares polynomial of degree m through w unit-spaced samples, from
// discrete orthogonal polynomials (no normal equations).
func fit(w, m, d int) []float64 {
	n := w / 2
	// ps[k] are orthonormal polynomials as coefficient lists, vs[k] their samples.
	ps, vs := [][]float64{}, [][]float64{}
	for k := 0; k <= m; k++ {
		p := make([]float64, m+1)
		v := make([]float64, w)
		if k == 0 {
			p[0] = 1
			for i := range v {
				v[i] = 1
			}
		} else { // x times the one before
			for e := m; e > 0; e-- {
				p[e] = ps[k-1][e-1]
			}
			for i := range v {
				v[i] = float64(i-n) * vs[k-1][i]
			}
		}
		for pass := 0; pass < 2; pass++ {
			for j := range ps {
				dot := 0.0
				for i := range v {
					dot += v[i] * vs[j][i]
				}
				for i := range v {
					v[i] -= dot * vs[j][i]
				}
				for e := range p {
					p[e] -= dot * ps[j][e]
				}
			}
		}
		norm := 0.0
		for _, x := range v {
			norm += x * x
		}
		norm = math.Sqrt(norm)
		for i := range v {
			v[i] /= norm
		}
		for e := range p {
			p[e] /= norm
		}
		ps, vs = append(ps, p), append(vs, v)
	}
	fact := 1.0
	for i := 2; i <= d; i++ {
		fact *= float64(i)
	}
	out := make([]float64, w)
	for k := range ps {
		for i := range out {
			out[i] += ps[k][d] * fact * vs[k][i]
		}
	}
	return out
}

func tophat(w int) kern {
	k := kern{name: fmt.Sprintf("tophat of width %d", w), build: func() *interpolate.Kernel { return interpolate.NewTophatKernel(w) }, tol: 1e-14, dx: 1, order: 1}
	for i := 0; i < w; i++ {
		k.taps = append(k.taps, 1/float64(w))
	}
	return k
}

func gaussian(w int, sigma, dx float64) kern {
	k := kern{name: fmt.Sprintf("Gaussian of width %d, sigma %g, spacing %g", w, sigma, dx), build: func() *interpolate.Kernel { return interpolate.NewGaussianKernel(w, sigma, dx) }, tol: 1e-14, dx: dx, order: 1}
	sum := 0.0
	for i := 0; i < w; i++ {
		x := float64(i-w/2) * dx / sigma
		k.taps = append(k.taps, math.Exp(-x*x/2))
		sum += k.taps[i]
	}
	for i := range k.taps {
		k.taps[i] /= sum
	}
	return k
}

func savgol(m, w int) kern {
	return kern{name: fmt.Sprintf("Savitzky-Golay of order %d, width %d", m, w), build: func() *interpolate.Kernel { return interpolate.NewSavGolKernel(m, w) }, taps: fit(w, m, 0), order: m, dx: 1, tol: savTol(m, w)}
}

func savgolDeriv(dx float64, d, m, w int) kern {
	k := kern{name: fmt.Sprintf("derivative %d of Savitzky-Golay of order %d, width %d, spacing %g", d, m, w, dx), build: func() *interpolate.Kernel { return interpolate.NewSavGolDerivKernel(dx, d, m, w) }, taps: fit(w, m, d), order: m, deriv: d, dx: dx, tol: savTol(m, w)}
	for i := range k.taps {
		k.taps[i] /= math.Pow(dx, float64(d))
	}
	return k
}

// savTol allows for the conditioning of the normal equations, which square
// that of the fit.
func savTol(m, w int) float64 {
	return 1e-13 * math.Pow(4, float64(m))
}

func (k kern) maxTap() float64 {
	m := 0.0
	for _, c := range k.taps {
		m = math.Max(m, math.Abs(c))
	}
	return m
}

var bounds = []struct {
	name string
	b    interpolate.BoundaryCondition
}{{"periodic", interpolate.Periodic}, {"reflection", interpolate.Reflection}, {"zeros", interpolate.ZeroPad}, {"extension", interpolate.Extension}}

// beyond is the signal continued past its ends.
func beyond(xs []float64, b interpolate.BoundaryCondition, i int) float64 {
	n := len(xs)
	switch b {
	case interpolate.Periodic:
		return xs[((i%n)+n)%n]
	case interpolate.Reflection:
		if i < 0 {
			i = -i
		}
		if i >= n {
			i = 2*(n-1) - i
		}
		return xs[i]
	case interpolate.ZeroPad:
		if i < 0 || i >= n {
			return 0
		}
		return xs[i]
	}
	return xs[min(max(i, 0), n-1)]
}

func (k kern) convolve(xs []float64, b interpolate.BoundaryCondition) []float64 {
	out := make([]float64, len(xs))
	for i := range xs {
		for j, c := range k.taps {
			out[i] += c * beyond(xs, b, i+j-len(k.taps)/2)
		}
	}
	return out
}

func kernels() []kern {
	return []kern{tophat(1), tophat(3), tophat(5), tophat(7), gaussian(3, 1, 1), gaussian(5, 0.5, 0.25), gaussian(7, 2, 1), savgol(2, 5), savgol(3, 7), savgol(4, 9),
		savgolDeriv(1, 1, 2, 3), savgolDeriv(0.5, 1, 3, 5), savgolDeriv(2, 2, 4, 7), savgolDeriv(0.1, 1, 4, 9)}
}

func runC26(c *hx.C) {
	ks := kernels()
	for _, k := range ks {
		for _, b := range bounds {
			k, b := k, b
			c.Case("unit/"+k.name+"/"+b.name, func(t *hx.T) {
				real := k.build()
				w := len(k.taps)
				for n := w; n <= 2*w+c.Pick(4, 12); n++ {
					for p := 0; p <= n; p++ {
						xs := make([]float64, n)
						for i := range xs {
							if i == p {
								xs[i] = 1
							} else if p == n {
								xs[i] = math.Sin(float64(i*i)) + 0.2*float64(i)
							}
						}
						convolveOne(t, k, real, xs, b.b, b.name)
					}
				}
			})
			if w := len(k.taps); w <= 7 {
				c.Case("all/"+k.name+"/"+b.name, func(t *hx.T) {
					real := k.build()
					for n := w; n <= w+2 && n <= c.Pick(7, 9); n++ {
						hx.Seqs(3, n, func(s []int) {
							xs := make([]float64, n)
							for i, v := range s {
								xs[i] = []float64{0, 1, -2.5}[v]
							}
							convolveOne(t, k, real, xs, b.b, b.name)
						})
					}
				})
			}
		}
	}
	// Wide kernels and long signals.
	for _, k := range []kern{tophat(15), tophat(33), gaussian(31, 4, 1), gaussian(65, 3, 0.25), savgol(3, 21), savgolDeriv(0.5, 1, 2, 33), tophat(1), tophat(3), savgol(2, 5)} {
		for _, b := range bounds {
			k, b := k, b
			c.Case("long/"+k.name+"/"+b.name, func(t *hx.T) {
				real := k.build()
				w := len(k.taps)
				for _, n := range []int{w, w + 1, 65, 128, 257, c.Pick(1000, 1025)} {
					if n < w {
						continue
					}
					for _, p := range []int{0, 1, w / 2, n / 2, n - 2, n - 1, n} {
						t.Beat()
						xs := make([]float64, n)
						for i := range xs {
							if i == p {
								xs[i] = 1
							} else if p == n {
								xs[i] = math.Sin(float64(i*i)) + 0.02*float64(i)
							}
						}
						convolveOne(t, k, real, xs, b.b, b.name)
					}
				}
			})
		}
	}
	// Kernels and rules one after the other.
	type op struct{ k, b int }
	ops := []op{}
	for i := range ks {
		if i%2 == 1 {
			for b := range bounds {
				ops = append(ops, op{i, b})
			}
		}
	}
	signals := [][]float64{}
	for _, n := range []int{9, 12} {
		xs := make([]float64, n)
		for i := range xs {
			xs[i] = math.Cos(float64(i*i+3*i)) + 0.1*float64(i)
		}
		signals = append(signals, xs)
	}
	for first := range ops {
		first := first
		c.Case(fmt.Sprintf("history/%d", first), func(t *hx.T) {
			for l := 1; l < c.Pick(2, 3); l++ {
				hx.Seqs(len(ops), l, func(s []int) {
					real := map[int]*interpolate.Kernel{}
					for i, o := range append([]int{first}, s...) {
						k := ops[o].k
						if real[k] == nil {
							real[k] = ks[k].build()
						}
						convolveOne(t, ks[k], real[k], signals[i%2], bounds[ops[o].b].b, bounds[ops[o].b].name)
					}
				})
			}
		})
	}
	for _, b := range bounds {
		b := b
		c.Case("lookup/"+b.name, func(t *hx.T) { lookups(t, b.b, b.name) })
	}
}

func convolveOne(t *hx.T, k kern, real *interpolate.Kernel, xs []float64, b interpolate.BoundaryCondition, rule string) {
	if t.Failed() {
		return
	}
	want := k.convolve(xs, b)
	in := clone(xs)
	var got []float64
	out := make([]float64, len(xs)+2)
	for i := range out {
		out[i] = math.NaN()
	}
	err := hx.Try(func() {
		got = real.Convolve(in, b)
		real.ConvolveAt(in, b, out[:len(xs)])
	})
	t.Eval(len(k.taps) > 1)
	if err != nil || len(got) != len(xs) {
		t.Fail("%s, %s, signal %v: %v (%v)", k.name, rule, xs, got, err)
		return
	}
	scale := 0.0
	for _, x := range xs {
		scale = math.Max(scale, math.Abs(x))
	}
	for i := range want {
		if hx.Off(got[i], want[i], k.tol*k.maxTap()*float64(len(k.taps))*scale) || math.Float64bits(got[i]) != math.Float64bits(out[i]) {
			t.Fail("%s, %s, signal %v: sample %d is %g (%g when written to a given slice), want %g", k.name, rule, xs, i, got[i], out[i], want[i])
			return
		}
	}
	if !same(in, xs) {
		t.Fail("%s, %s: signal %v became %v", k.name, rule, xs, in)
	}
	for _, x := range out[len(xs):] {
		if !math.IsNaN(x) {
			t.Fail("%s, %s: writes past the signal", k.name, rule)
		}
	}
}

// lookups reads the continuation of signals one value at a time, as far as a
// whole signal beyond either end (one less for the mirror about an end sample).
func lookups(t *hx.T, b interpolate.BoundaryCondition, rule string) {
	for n := 2; n <= 8; n++ {
		xs := make([]float64, n)
		for i := range xs {
			xs[i] = float64(i + 1)
		}
		far := n
		if b == interpolate.Reflection {
			far = n - 1
		}
		repeats, plain := true, true
		got := []float64{}
		for i := -far; i < n+far; i++ {
			v := math.NaN()
			err := hx.Try(func() { v = b.Get(xs, i) })
			got = append(got, v)
			t.Eval(i < 0 || i >= n)
			if err != nil {
				t.Fail("%s: value %d of %d samples: %v", rule, i, n, err)
				return
			}
			plain = plain && v == beyond(xs, b, i)
			j := i // the mirror that repeats the end sample
			if j < 0 {
				j = -1 - j
			}
			if j >= n {
				j = 2*n - 1 - j
			}
			repeats = repeats && v == xs[j]
		}
		if !plain && !(repeats && b == interpolate.Reflection) {
			t.Fail("%s: %v continues as %v from %d", rule, xs, got, -far)
			return
		}
	}
	t.Sample("%s", rule)
}

func runC27(c *hx.C) {
	maxW := c.Pick(13, 25)
	for w := 1; w <= maxW; w += 2 {
		w := w
		c.Case(fmt.Sprintf("average/%d", w), func(t *hx.T) {
			taps(t, tophat(w))
			for _, s := range []float64{0.1, 0.5, 1, 3, 100} {
				for _, dx := range []float64{0.25, 1, 10} {
					taps(t, gaussian(w, s, dx))
				}
			}
		})
		// Higher orders are beyond what double precision leaves of the
		// normal equations.
		for m := 0; m < w && m <= c.Pick(6, 7); m++ {
			m := m
			c.Case(fmt.Sprintf("fit/%d/%d", w, m), func(t *hx.T) {
				taps(t, savgol(m, w))
				for d := 0; d <= m; d++ {
					for _, dx := range []float64{1, 0.5, 3} {
						taps(t, savgolDeriv(dx, d, m, w))
					}
				}
			})
		}
	}
	for _, w := range []int{31, 33, 51, 65, 101} {
		w := w
		c.Case(fmt.Sprintf("wide/%d", w), func(t *hx.T) {
			taps(t, tophat(w))
			for _, s := range []float64{0.5, 3, 100} {
				taps(t, gaussian(w, s, 0.25))
			}
			for m := 0; m <= 3; m++ {
				taps(t, savgol(m, w))
				for d := 0; d <= m; d++ {
					taps(t, savgolDeriv(0.5, d, m, w))
				}
			}
		})
	}
	ks := kernels()
	for i := range ks {
		i := i
		c.Case(fmt.Sprintf("after/%d", i), func(t *hx.T) {
			for l := 1; l <= c.Pick(2, 3); l++ {
				hx.Seqs(len(ks), l, func(s []int) {
					if t.Failed() {
						return
					}
					ks[i].build()
					last := (*interpolate.Kernel)(nil)
					all := []*interpolate.Kernel{}
					for _, j := range s {
						last = ks[j].build()
						all = append(all, last)
					}
					for a, j := range s {
						tapsOf(t, ks[j], all[a])
					}
				})
			}
		})
	}
	c.Case("refused", func(t *hx.T) {
		for w := -3; w <= 8; w++ {
			for m := 0; m <= 8; m++ {
				even := w%2 == 0 || w < 1
				for name, bad := range map[string]bool{"tophat": even, "gaussian": even, "savgol": even || m >= w} {
					t.Eval(true)
					err := hx.Try(func() {
						switch name {
						case "tophat":
							interpolate.NewTophatKernel(w)
						case "gaussian":
							interpolate.NewGaussianKernel(w, 1, 1)
						default:
							interpolate.NewSavGolKernel(m, w)
						}
					})
					if (err != nil) != bad {
						t.Fail("%s of width %d and order %d: %v", name, w, m, err)
					}
				}
				for d := 0; d <= 8; d++ {
					t.Eval(true)
					err := hx.Try(func() { interpolate.NewSavGolDerivKernel(1, d, m, w) })
					if bad := even || m >= w || d > m; (err != nil) != bad {
						t.Fail("derivative %d of savgol of width %d and order %d: %v", d, w, m, err)
					}
				}
			}
		}
	})
}

func taps(t *hx.T, k kern) {
	if t.Failed() {
		return
	}
	var real *interpolate.Kernel
	if err := hx.Try(func() { real = k.build() }); err != nil {
		t.Fail("%s: %v", k.name, err)
		return
	}
	tapsOf(t, k, real)
	t.Sample("%s", k.name)
}

// tapsOf measures a kernel: its taps, and what it does to monomials.
func tapsOf(t *hx.T, k kern, real *interpolate.Kernel) {
	w := len(k.taps)
	n := 3 * w
	got := make([]float64, w)
	xs := make([]float64, n)
	// The response to a unit sample is the kernel reversed about it.
	p := n / 2
	xs[p] = 1
	r := real.Convolve(xs, interpolate.ZeroPad)
	for j := range got {
		got[j] = r[p-j+w/2]
	}
	t.Eval(w > 1)
	for i, x := range r {
		if (i < p-w/2 || i > p+w/2) && x != 0 {
			t.Fail("%s: a unit sample reaches %d places", k.name, i-p)
		}
	}
	sum := 0.0
	mt := k.maxTap()
	for j, g := range got {
		sum += g
		if hx.Off(g, k.taps[j], k.tol*mt) {
			t.Fail("%s: taps %v, want %v", k.name, got, k.taps)
			return
		}
		if k.deriv == 0 && k.order <= 1 && g < -k.tol && k.name[0] != 'S' {
			t.Fail("%s: negative tap in %v", k.name, got)
		}
		sign := 1.0
		if k.deriv%2 == 1 {
			sign = -1
		}
		if hx.Off(g, sign*got[w-1-j], k.tol*mt) {
			t.Fail("%s: taps %v are not symmetric", k.name, got)
			return
		}
	}
	if k.deriv == 0 && hx.Off(sum, 1, k.tol*float64(w)*math.Max(1, mt)) {
		t.Fail("%s: taps %v sum to %v", k.name, got, sum)
	}
	// Monomials about the middle sample.
	for e := 0; e <= k.order; e++ {
		want := 0.0
		if e == k.deriv {
			want = 1
			for i := 2; i <= e; i++ {
				want *= float64(i)
			}
		}
		big := 0.0
		for i := range xs {
			xs[i] = math.Pow(float64(i-p)*k.dx, float64(e))
			if i >= p-w/2 && i <= p+w/2 {
				big = math.Max(big, math.Abs(xs[i]))
			}
		}
		r := real.Convolve(xs, interpolate.Extension)
		t.Eval(w > 1)
		if hx.Off(r[p], want, k.tol*mt*big*float64(w)) {
			t.Fail("%s: takes x^%d to %g, want %g", k.name, e, r[p], want)
			return
		}
	}
}
