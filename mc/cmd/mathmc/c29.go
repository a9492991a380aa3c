package main

import (
	"fmt"
	"math"
	gorand "math/rand"

	"github.com/phil-mansfield/gotetra/math/rand"
	"verif/mc/hx"
)

const ruleC29 = "every sequence of single, bulk, ranged and integer draws on two generators up to the stated length, for every pair of kinds, against independent recurrences; every bound pair of the alphabet for the seeds that give the extreme draws; non-trivial when both generators or both single and bulk draws are used"

// stream is an unbounded list of unit draws made by an independent recurrence.
type stream struct {
	draws []float64
	more  func() float64
}

func (s *stream) at(i int) float64 {
	for len(s.draws) <= i {
		s.draws = append(s.draws, s.more())
	}
	return s.draws[i]
}

var kinds = []struct {
	name string
	gt   rand.GeneratorType
}{{"xorshift", rand.Xorshift}, {"golang", rand.Golang}, {"tausworthe", rand.Tausworthe}}

func newStream(gt rand.GeneratorType, seed uint64) *stream {
	switch gt {
	case rand.Golang:
		return &stream{more: gorand.New(gorand.NewSource(int64(seed))).Float64}
	case rand.Xorshift:
		// Marsaglia's 128-bit xorshift as the list of its words, the seed last.
		ws := []uint32{123456789, 362436069, 521288629, uint32(seed)}
		return &stream{more: func() float64 {
			for {
				n := len(ws)
				t := ws[n-4]
				t ^= t << 11
				t ^= t >> 8
				w := ws[n-1]
				ws = append(ws, w^(w>>19)^t)
				if v := ws[n]; v != 0 { // draws of exactly one are left out
					return float64(math.MaxUint32-v) / float64(math.MaxUint32)
				}
			}
		}}
	}
	// x(n) = x(n-2444) - x(n-4187) mod 1, started from 9689 numbers each the
	// sum of 15 uniform draws of halving range, mod 1.
	const size, a, b = 9689, 2444, 4187
	src := gorand.New(gorand.NewSource(int64(seed)))
	start := make([]float64, size)
	f := 1.0
	for d := 0; d < 15; d++ {
		for i := range start {
			u := src.Float64()
			if f != 1 {
				u *= f
			}
			start[i] += u
		}
		f /= 2
	}
	past := []float64{} // start[k] is the number k places before the first
	for i := b; i > 0; i-- {
		x := start[i]
		if x >= 1 {
			x--
		}
		past = append(past, x)
	}
	return &stream{more: func() float64 {
		n := len(past)
		x := past[n-a] - past[n-b]
		if x < 0 {
			x++
		}
		past = append(past, x)
		return x
	}}
}

var streams = map[string]*stream{}

// seedFor is the xorshift seed whose first word is v.
func seedFor(v uint32) uint64 {
	t := uint32(123456789)
	t ^= t << 11
	t ^= t >> 8
	w := v ^ t
	// Undo w ^ (w >> 19).
	w ^= w >> 19
	return uint64(w)
}

type rop struct {
	name  string
	n     int // draws used
	do    func(g *rand.Generator) []float64
	want  func(u []float64) []float64
	exact bool
}

func rangeOp(low, high float64) rop {
	return rop{name: fmt.Sprintf("Uniform(%g, %g)", low, high), n: 1, do: func(g *rand.Generator) []float64 { return []float64{g.Uniform(low, high)} },
		want: func(u []float64) []float64 { return []float64{low + u[0]*(high-low)} }}
}

func bulkOp(low, high float64, n int) rop {
	return rop{name: fmt.Sprintf("%d of UniformAt(%g, %g)", n, low, high), n: n, do: func(g *rand.Generator) []float64 {
		out := make([]float64, n)
		g.UniformAt(low, high, out)
		return out
	}, want: func(u []float64) []float64 {
		out := []float64{}
		for _, x := range u {
			out = append(out, low+x*(high-low))
		}
		return out
	}}
}

func intOp(low, high int) rop {
	return rop{name: fmt.Sprintf("UniformInt(%d, %d)", low, high), n: 1, do: func(g *rand.Generator) []float64 { return []float64{float64(g.UniformInt(low, high))} },
		want: func(u []float64) []float64 { return []float64{math.Floor(float64(low) + u[0]*float64(high-low))} }}
}

func runC29(c *hx.C) {
	seeds := []uint64{0, 1, 42, 1 << 31, 1<<32 - 1, 1 << 40, 1<<63 - 1, math.MaxUint64}
	for _, k := range kinds {
		k := k
		for _, seed := range seeds {
			seed := seed
			c.Case(fmt.Sprintf("long/%s/%d", k.name, seed), func(t *hx.T) { longDraws(t, k.name, k.gt, seed, c.Pick(25000, 200000)) })
		}
	}
	ops := []rop{rangeOp(0, 1), rangeOp(-2, 6), intOp(-3, 14), bulkOp(0, 1, 2), bulkOp(3, 4.5, 3), bulkOp(0, 1, 0)}
	// First words of zero are skipped: in the first draw and within bulk draws.
	zero := seedFor(0)
	for i, k1 := range kinds {
		for j, k2 := range kinds {
			slow := k1.gt == rand.Tausworthe || k2.gt == rand.Tausworthe
			depth := c.Pick(4, 5)
			if slow {
				depth = c.Pick(2, 3)
			}
			pairs := [][2]uint64{{7, 7}, {7, 8}}
			if i == 0 || j == 0 {
				pairs = append(pairs, [2]uint64{zero, zero}, [2]uint64{zero, 3})
			}
			for _, p := range pairs {
				k1, k2, p := k1, k2, p
				for first := 0; first < 2*len(ops); first++ {
					first := first
					c.Case(fmt.Sprintf("history/%s-%s/%v/%d", k1.name, k2.name, p, first), func(t *hx.T) {
						twoGenerators(t, k1.gt, k2.gt, p, ops, first, depth)
					})
				}
			}
		}
	}
	for _, k := range kinds {
		k := k
		c.Case("bounds/"+k.name, func(t *hx.T) { ranges(t, k.gt) })
	}
	c.Case("kinds", func(t *hx.T) {
		for gt := 0; gt < 256; gt++ {
			t.Eval(true)
			if err := hx.Try(func() { rand.New(rand.GeneratorType(gt), 1) }); (err != nil) != (gt > 2) {
				t.Fail("generator type %d: %v", gt, err)
			}
		}
		for _, k := range kinds {
			g := rand.NewTimeSeed(k.gt)
			for i := 0; i < 1000; i++ {
				t.Eval(true)
				if x := g.Uniform(0, 1); !(x >= 0 && x < 1) {
					t.Fail("%s seeded by the time draws %g", k.name, x)
				}
			}
		}
		t.Trace()
		t.State("kinds")
		t.Trans(1)
	})
}

// longDraws compares single draws and bulk draws of several sizes over a
// stretch that wraps every buffer.
func longDraws(t *hx.T, name string, gt rand.GeneratorType, seed uint64, n int) {
	s := newStream(gt, seed)
	one := rand.New(gt, seed)
	for i := 0; i < n; i++ {
		t.Trans(1)
		if x := one.Uniform(0, 1); x != s.at(i) || x < 0 || x >= 1 {
			t.Fail("%s, seed %d: draw %d is %g, want %g", name, seed, i, x, s.at(i))
			return
		}
	}
	for _, size := range []int{1, 2, 3, 1000, 9688, 9689, 9690, n} {
		g := rand.New(gt, seed)
		for i := 0; i < n; i += size {
			buf := make([]float64, min(size, n-i))
			g.UniformAt(0, 1, buf)
			t.Trans(1)
			for j, x := range buf {
				if x != s.at(i+j) {
					t.Fail("%s, seed %d, drawn by %d: draw %d is %g, want %g", name, seed, size, i+j, x, s.at(i+j))
					return
				}
			}
		}
		t.Eval(true)
		t.Trace()
		t.State(fmt.Sprint(name, seed, size))
	}
}

func twoGenerators(t *hx.T, k1, k2 rand.GeneratorType, seeds [2]uint64, ops []rop, first, depth int) {
	ks := [2]rand.GeneratorType{k1, k2}
	ss := [2]*stream{newStream(k1, seeds[0]), newStream(k2, seeds[1])}
	for l := 0; l < depth; l++ {
		hx.Seqs(2*len(ops), l, func(rest []int) {
			if t.Failed() {
				return
			}
			seq := append([]int{first}, rest...)
			gs := [2]*rand.Generator{}
			for i := range gs {
				gs[i] = rand.New(ks[i], seeds[i])
			}
			pos := [2]int{}
			used := [2]bool{}
			for step, o := range seq {
				w, op := o%2, ops[o/2]
				used[w] = true
				us := []float64{}
				for i := 0; i < op.n; i++ {
					us = append(us, ss[w].at(pos[w]+i))
				}
				pos[w] += op.n
				got, want := op.do(gs[w]), op.want(us)
				t.Trans(1)
				t.State(fmt.Sprint(k1, k2, seeds, pos))
				for i := range want {
					if len(got) != len(want) || hx.Off(got[i], want[i], 1e-12) {
						names := []string{}
						for _, o := range seq {
							names = append(names, fmt.Sprintf("%d: %s", o%2, ops[o/2].name))
						}
						t.Fail("generators of type %d (seed %d) and %d (seed %d): %v: step %d gives %v, want %v", k1, seeds[0], k2, seeds[1], names, step, got, want)
						return
					}
				}
			}
			t.Eval(used[0] && used[1])
			t.Trace()
		})
	}
}

// ranges draws within every pair of bounds.
func ranges(t *hx.T, gt rand.GeneratorType) {
	seeds := []uint64{5}
	n := 3000
	if gt == rand.Xorshift {
		n = 400
		// The extreme first draws and the ones next to them.
		for _, v := range []uint32{0, 1, 2, 3, 255, 1 << 16, 1 << 30, 1 << 31, math.MaxUint32, math.MaxUint32 - 1, math.MaxUint32 - 2} {
			seeds = append(seeds, seedFor(v))
			g := rand.New(gt, seedFor(v))
			if x, want := g.Uniform(0, 1), 1-float64(v)/math.MaxUint32; v > 0 && hx.Off(x, want, 1e-15) {
				t.Fail("xorshift, seed %d: the first draw is %g, want %g", seedFor(v), x, want)
			}
		}
	}
	up := func(x float64) float64 { return math.Nextafter(x, math.Inf(1)) }
	lows := []float64{-1e300, -1e17, -3, -1, -0.1, 0, 1e-300, 0.1, 1, 3, 1e6, 1e17, 1e300}
	type pair struct{ lo, hi float64 }
	ps := []pair{}
	for i, l := range lows {
		for _, h := range lows[i+1:] {
			ps = append(ps, pair{l, h})
		}
		ps = append(ps, pair{l, up(l)}, pair{l, up(up(up(l)))})
	}
	ints := [][2]int{}
	is := []int{-1 << 52, -1 << 40, -1 << 24, -100, -2, -1, 0, 1, 2, 3, 10, 1 << 16, 1 << 24, 1 << 31, 1 << 40, 1 << 51, 1<<53 + 1, 1 << 60}
	for i, l := range is {
		for _, h := range is[i+1:] {
			if h-l < 1<<53 {
				ints = append(ints, [2]int{l, h})
			}
		}
		ints = append(ints, [2]int{l, l + 1}, [2]int{l, l + 2}, [2]int{l, l + 7})
	}
	for _, seed := range seeds {
		for _, p := range ps {
			g := rand.New(gt, seed)
			m := min(n, 20)
			if seed == 5 && gt != rand.Tausworthe {
				m = n
			}
			buf := make([]float64, m)
			g.UniformAt(p.lo, p.hi, buf)
			h := rand.New(gt, seed)
			for i := 0; i < m; i++ {
				x := h.Uniform(p.lo, p.hi)
				t.Eval(true)
				if !(x >= p.lo && x < p.hi) || buf[i] != x {
					t.Fail("generator type %d, seed %d: draw %d from [%v, %v) is %v alone and %v in bulk", gt, seed, i, p.lo, p.hi, x, buf[i])
					return
				}
			}
		}
		g := rand.New(gt, seed)
		for _, p := range ints {
			if gt == rand.Xorshift {
				g = rand.New(gt, seed)
			}
			hit := map[int]bool{}
			for i := 0; i < n; i++ {
				x := g.UniformInt(p[0], p[1])
				t.Eval(true)
				hit[x] = true
				if x < p[0] || x >= p[1] {
					t.Fail("generator type %d, seed %d: draw %d from [%d, %d) is %d", gt, seed, i, p[0], p[1], x)
					return
				}
			}
			if p[1]-p[0] <= 7 && len(hit) != p[1]-p[0] {
				t.Fail("generator type %d, seed %d: %d draws from [%d, %d) reach only %d values", gt, seed, n, p[0], p[1], len(hit))
				return
			}
		}
		t.Trace()
		t.State(fmt.Sprint(gt, seed))
		t.Trans(len(ps) + len(ints))
	}
}
