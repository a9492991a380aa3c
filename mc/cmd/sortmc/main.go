// Command sortmc decides C21 (sorting) and C22 (order statistics).
package main

import (
	"fmt"
	"math"
	gosort "sort"

	"github.com/phil-mansfield/gotetra/math/sort"
	"verif/mc/hx"
)

// Value alphabets: rank -> value, strictly increasing.
var alphabets = []struct {
	name string
	val  func(r, n int) float64
}{
	{"int", func(r, n int) float64 { return float64(r) - 2 }},
	{"wide", func(r, n int) float64 {
		if r == 0 {
			return math.Inf(-1)
		} else if r == n-1 {
			return math.Inf(1)
		}
		return math.Ldexp(1, 40*(r-3)) - 1e-9
	}},
}

const guard = -12345.5

// embed copies xs into the middle of a larger array of guards, with spare
// capacity behind the returned slice.
func embed(xs []float64) (in, all []float64) {
	all = make([]float64, len(xs)+6)
	for i := range all {
		all[i] = guard
	}
	in = all[3 : 3+len(xs)]
	copy(in, xs)
	return in, all
}

func guardsOK(all []float64) bool {
	n := len(all)
	for i := 0; i < 3; i++ {
		if all[i] != guard || all[n-1-i] != guard {
			return false
		}
	}
	return true
}

func same(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sorted(xs []float64) []float64 {
	ys := append([]float64{}, xs...)
	gosort.Float64s(ys)
	return ys
}

func checkSort(t *hx.T, xs []float64) {
	want := sorted(xs)
	for k, f := range []func([]float64) []float64{sort.Quick, sort.Shell} {
		name := []string{"Quick", "Shell"}[k]
		in, all := embed(xs)
		out := f(in)
		if !same(in, want) {
			t.Fail("%s(%v) left %v", name, xs, in)
		}
		if len(out) != len(in) || (len(in) > 0 && &out[0] != &in[0]) {
			t.Fail("%s(%v) does not return the slice it sorted", name, xs)
		}
		if !guardsOK(all) {
			t.Fail("%s(%v) wrote outside the slice", name, xs)
		}
	}
	in, all := embed(xs)
	out := sort.Reverse(in)
	for i := range xs {
		if in[i] != xs[len(xs)-1-i] {
			t.Fail("Reverse(%v) left %v", xs, in)
			break
		}
	}
	if !guardsOK(all) || len(out) != len(in) || (len(in) > 0 && &out[0] != &in[0]) {
		t.Fail("Reverse(%v) touched more than its slice", xs)
	}
}

// runs calls f with every array of length n that is constant on at most
// k+1 runs with values from 0..v-1 (every choice of break points).
func runs(n, k, v int, f func(xs []float64)) {
	xs := make([]float64, n)
	var rec func(start, left int)
	rec = func(start, left int) {
		for val := 0; val < v; val++ {
			if start > 0 && xs[start-1] == float64(val) {
				continue
			}
			for i := start; i < n; i++ {
				xs[i] = float64(val)
			}
			f(xs)
			if left > 0 {
				for s := start + 1; s < n; s++ {
					rec(s, left-1)
					for i := start; i < n; i++ {
						xs[i] = float64(val)
					}
				}
			}
		}
	}
	rec(0, k)
}

// near calls f with sorted/reversed/rotated/organ-pipe arrays of length n and
// every array one swap away from them.
func near(n int, f func(xs []float64)) {
	bases := [][]float64{}
	asc := make([]float64, n)
	for i := range asc {
		asc[i] = float64(i)
	}
	bases = append(bases, asc)
	desc := make([]float64, n)
	for i := range desc {
		desc[i] = float64(n - i)
	}
	pipe := make([]float64, n)
	saw := make([]float64, n)
	for i := range pipe {
		pipe[i] = float64(min(i, n-1-i))
		saw[i] = float64((i * 7) % 5)
	}
	bases = append(bases, desc, pipe, saw)
	for r := 1; r < n; r++ {
		bases = append(bases, append(append([]float64{}, asc[r:]...), asc[:r]...))
	}
	for bi, b := range bases {
		xs := append([]float64{}, b...)
		f(xs)
		if bi >= 4 && bi%5 != 0 {
			continue
		}
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				xs[i], xs[j] = xs[j], xs[i]
				f(xs)
				xs[i], xs[j] = xs[j], xs[i]
			}
		}
	}
}

// long calls f with structured arrays of length n: rising, falling, organ pipes,
// saws, few values, blocks, and lattices of every small stride.
func long(n int, f func(xs []float64)) {
	fill := func(g func(i int) int) {
		xs := make([]float64, n)
		for i := range xs {
			xs[i] = float64(g(i)) - 3
		}
		f(xs)
	}
	fill(func(i int) int { return i })
	fill(func(i int) int { return n - i })
	fill(func(i int) int { return min(i, n-1-i) })
	fill(func(i int) int { return max(i, n-1-i) })
	fill(func(i int) int { return i ^ 1 })
	fill(func(i int) int { return i ^ 64 })
	fill(func(i int) int { return i / 32 % 2 })
	fill(func(i int) int { return 7 })
	fill(func(i int) int { return (i + n - 1) % n }) // one element to carry all the way
	fill(func(i int) int { return (i + 1) % n })
	for _, m := range []int{2, 3, 5, 37, 128} {
		fill(func(i int) int { return i % m })
		fill(func(i int) int { return (n - i) * m / n })
	}
	for _, m := range []int{3, 7, 11, 29, 61, 97, 211, 401, 613, 1237} {
		fill(func(i int) int { return i * m % n })
		fill(func(i int) int { return (i*i + i*m) % (n + 1) })
		fill(func(i int) int { return i * m % 1013 })
	}
}

func interesting(xs []float64) bool {
	return len(xs) > 1 && !gosort.Float64sAreSorted(xs)
}

// each schedules the shared input space with body applied to every array.
func each(c *hx.C, maxN, runN int, body func(t *hx.T, xs []float64)) {
	for n := 0; n <= maxN; n++ {
		for ai := range alphabets {
			a := alphabets[ai]
			n := n
			// One case per leading element, so that large n runs in parallel.
			for lead := 0; lead < max(n, 1); lead++ {
				lead := lead
				c.Case(fmt.Sprintf("orders/n%d/%s/lead%d", n, a.name, lead), func(t *hx.T) {
					xs := make([]float64, n)
					hx.WeakOrders(n, func(r []int) {
						if n > 0 && r[0] != lead {
							return
						}
						for i := range r {
							xs[i] = a.val(r[i], n)
						}
						if t.Failed() {
							return
						}
						t.Eval(interesting(xs))
						body(t, append([]float64{}, xs...))
						if n == maxN && lead == 2 && r[1] == 1 {
							t.Sample("%v", xs)
						}
					})
				})
			}
		}
	}
	for _, n := range []int{9, 12, 13, 14, 23, 24, 25, 26, 27, 39, 40, 41, 49, 50, 51, 64, 75, 100} {
		n := n
		c.Case(fmt.Sprintf("runs/n%d", n), func(t *hx.T) {
			k := runN
			if n > 30 {
				k = runN - 1
			}
			if n > 60 {
				k = runN - 2
			}
			runs(n, k, 3, func(xs []float64) {
				if t.Failed() {
					return
				}
				t.Eval(interesting(xs))
				body(t, append([]float64{}, xs...))
			})
		})
		c.Case(fmt.Sprintf("near/n%d", n), func(t *hx.T) {
			near(n, func(xs []float64) {
				if t.Failed() {
					return
				}
				t.Eval(interesting(xs))
				body(t, append([]float64{}, xs...))
			})
		})
	}
}

func eachLong(c *hx.C, body func(t *hx.T, xs []float64)) {
	ns := []int{101, 127, 128, 129, 255, 256, 257, 511, 513, 999, 1000, 1001, 1024, 1025, 2049}
	for _, n := range append(ns, c.Pick(4097, 10007), c.Pick(5000, 70001)) {
		n := n
		c.Case(fmt.Sprintf("long/n%d", n), func(t *hx.T) {
			long(n, func(xs []float64) {
				if t.Failed() {
					return
				}
				t.Beat()
				t.Eval(interesting(xs))
				body(t, xs)
			})
		})
	}
}

func runC21(c *hx.C) {
	eachLong(c, checkSort)
	each(c, c.Pick(7, 8), c.Pick(3, 4), checkSort)
	if c.Thorough() {
		// every 0/1 pattern just above the small-slice threshold
		for hi := 0; hi < 256; hi++ {
			hi := hi
			c.Case(fmt.Sprintf("bits25/%d", hi), func(t *hx.T) {
				xs := make([]float64, 25)
				for lo := 0; lo < 1<<17; lo++ {
					m := hi<<17 | lo
					for i := range xs {
						xs[i] = float64(m >> uint(i) & 1)
					}
					ones := 0
					for _, x := range xs {
						ones += int(x)
					}
					ys := sort.Quick(append([]float64{}, xs...))
					t.Eval(interesting(xs))
					for i := range ys {
						want := 0.0
						if i >= 25-ones {
							want = 1
						}
						if ys[i] != want {
							t.Fail("Quick(%v) left %v", xs, ys)
							return
						}
					}
				}
			})
		}
	}
}

func checkRank(t *hx.T, xs []float64) {
	if len(xs) == 0 {
		if hx.Try(func() { sort.Median(xs) }) == nil {
			t.Fail("Median of nothing is given a value")
		}
		return
	}
	n := len(xs)
	s := sorted(xs)
	orig := append([]float64{}, xs...)
	ranks := []int{}
	if n <= 16 {
		for k := 1; k <= n; k++ {
			ranks = append(ranks, k)
		}
	} else {
		for k := 1; k <= n; k += 1 + n/7 {
			ranks = append(ranks, k)
		}
		ranks = append(ranks, 2, n/2, n/2+1, n-1, n)
	}
	for _, k := range ranks {
		want := s[n-k]
		if got := sort.NthLargest(xs, k); got != want {
			t.Fail("NthLargest(%v, %d) = %g, want %g", orig, k, got, want)
		}
		if !same(xs, orig) {
			t.Fail("NthLargest(%v, %d) changed its input to %v", orig, k, xs)
			copy(xs, orig)
		}
		buf, all := embed(make([]float64, n))
		if got := sort.NthLargest(xs, k, buf); got != want {
			t.Fail("NthLargest(%v, %d, buf) = %g, want %g", orig, k, got, want)
		}
		if !same(xs, orig) || !guardsOK(all) {
			t.Fail("NthLargest(%v, %d, buf) changed more than the buffer", orig, k)
			copy(xs, orig)
		}
		if !same(sorted(buf), s) {
			t.Fail("NthLargest(%v, %d, buf) left %v in the buffer", orig, k, buf)
		}
	}
	lo, hi := s[(n-1)/2], s[n/2]
	med := sort.Median(xs)
	okMed := med == lo || med == hi || med == (lo+hi)/2
	if n%2 == 1 {
		okMed = med == lo
	}
	if !okMed {
		t.Fail("Median(%v) = %g, middle values %g, %g", orig, med, lo, hi)
	}
	if m2 := sort.Median(xs, make([]float64, n)); m2 != med {
		t.Fail("Median(%v) = %g without a buffer and %g with one", orig, med, m2)
	}
	if !same(xs, orig) {
		t.Fail("Median changed its input")
	}
	prev := math.Inf(-1)
	for i := 0; i <= 16; i++ {
		p := float64(i) / 16
		v := sort.Percentile(xs, p)
		if v < prev {
			t.Fail("Percentile(%v, %g) = %g after %g at a lower percentile",
				orig, p, v, prev)
		}
		prev = v
		if i == 0 && v != s[0] || i == 16 && v != s[n-1] {
			t.Fail("Percentile(%v, %g) = %g", orig, p, v)
		}
		// within one rank of p*n
		r := p * float64(n)
		a, b := int(math.Floor(r))-1, int(math.Ceil(r))
		if a < 0 {
			a = 0
		}
		if b > n-1 {
			b = n - 1
		}
		if v < s[a] || v > s[b] {
			t.Fail("Percentile(%v, %g) = %g", orig, p, v)
		}
		if w := sort.Percentile(xs, p, make([]float64, n)); w != v {
			t.Fail("Percentile(%v, %g) depends on the buffer", orig, p)
		}
	}
	if !same(xs, orig) {
		t.Fail("Percentile changed its input")
	}
}

func runC22(c *hx.C) {
	eachLong(c, checkRank)
	each(c, c.Pick(6, 7), c.Pick(2, 3), checkRank)
	c.Case("refusals", func(t *hx.T) {
		t.Evals(4, 4)
		for i, f := range []func(){
			func() { sort.Percentile([]float64{1, 2, 3}, -0.01) },
			func() { sort.Percentile([]float64{1, 2, 3}, 1.01) },
			func() { sort.Percentile(nil, 0.5) },
			func() { sort.NthLargest(nil, 1) },
		} {
			if hx.Try(f) == nil {
				t.Fail("ill-formed call %d is accepted", i)
			}
		}
	})
}

func main() {
	hx.Main(map[string]hx.Prop{
		"C21": {
			Rule: "every weak ordering of up to maxN elements under two value alphabets (one with infinities), every array of at most k+1 constant runs over 3 values, and every array one swap from sorted/reversed/rotated/organ-pipe bases, at lengths around the internal thresholds, and structured arrays of lengths up to thousands; non-trivial when the input is not already sorted",
			Run:  runC21,
		},
		"C22": {
			Rule: "the same input families, with every rank n (a grid of ranks above length 16), the median and 17 percentiles of each, with and without buffer; non-trivial when the input is not already sorted",
			Run:  runC22,
		},
	})
}
