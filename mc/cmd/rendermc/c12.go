package main

import (
	"fmt"
	"math"

	"github.com/phil-mansfield/gotetra/render"
	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/geom"
	"verif/mc/hx"
	"verif/mc/rx"
)

const ruleC12 = "every pair of blocks (origin, width along each axis, partner axes sharing a pixel, missing each other on one axis or equal) in periodic grids of up to 6 (9) pixels, first, middle and last places of up to 1000; every region of an enumerated set over sheets of one-pixel files, and over files straddling a pixel face; non-trivial when the blocks are not equal"

func runC12(c *hx.C) {
	for n := 1; n <= c.Pick(6, 9); n++ {
		n := n
		for axis := 0; axis < 3; axis++ {
			axis := axis
			c.Case(fmt.Sprintf("blocks/n%d/axis%d", n, axis), func(t *hx.T) { pairs(t, n, axis) })
			c.Case(fmt.Sprintf("unbounded/n%d/axis%d", n, axis), func(t *hx.T) { unboundedPairs(t, n, axis) })
		}
	}
	for _, n := range []int{64, 100, 257, 1000} {
		n := n
		for axis := 0; axis < 3; axis++ {
			axis := axis
			c.Case(fmt.Sprintf("blocks/wide%d/axis%d", n, axis), func(t *hx.T) { widePairs(t, n, axis) })
		}
	}
	c.Case("blocks/3d", func(t *hx.T) { pairs3(t, c.Pick(2, 3)) })
	for _, px := range []int{2, 3, 4, 5} {
		for _, L := range []float64{64, 100} {
			for axis := 0; axis < 3; axis++ {
				for o := 0; o < px; o++ {
					px, L, axis, o := px, L, axis, o
					c.Case(fmt.Sprintf("files/P%d/L%g/axis%d/o%d", px, L, axis, o), func(t *hx.T) { fileCull(t, c, px, L, axis, o) })
				}
			}
		}
	}
	for _, px := range []int{4, 5, 8} {
		for axis := 0; axis < 3; axis++ {
			px, axis := px, axis
			c.Case(fmt.Sprintf("straddle/P%d/axis%d", px, axis), func(t *hx.T) { straddle(t, c, px, axis) })
		}
	}
}

// shares is the brute-force answer.
func shares(a, b span, n int) bool {
	for i := 0; i < a.w; i++ {
		for j := 0; j < b.w; j++ {
			if rx.Mod(float64(a.o+i-b.o-j), float64(n)) == 0 {
				return true
			}
		}
	}
	return false
}

func cb(s [3]span) *geom.CellBounds {
	return &geom.CellBounds{Origin: [3]int{s[0].o, s[1].o, s[2].o}, Width: [3]int{s[0].w, s[1].w, s[2].w}}
}

func pairs(t *hx.T, n, axis int) {
	partners := [][2]span{{{0, 1}, {0, 1}}, {{n - 1, n}, {0, 1}}, {{0, 1}, {1 % n, 1}}, {{0, n}, {0, n}}, {{n - 1, min(2, n)}, {0, 1}}}
	for ao := 0; ao < n; ao++ {
		for aw := 1; aw <= n; aw++ {
			for bo := 0; bo < n; bo++ {
				for bw := 1; bw <= n; bw++ {
					for i, p := range partners {
						for _, q := range []int{0, i} {
							var a, b [3]span
							a[axis], b[axis] = span{ao, aw}, span{bo, bw}
							u, v := (axis+1)%3, (axis+2)%3
							a[u], b[u] = p[0], p[1]
							a[v], b[v] = partners[q][0], partners[q][1]
							want := shares(a[0], b[0], n) && shares(a[1], b[1], n) && shares(a[2], b[2], n)
							ca, cbb := cb(a), cb(b)
							ga, gb := ca.Intersect(cbb, n), cbb.Intersect(ca, n)
							t.Eval(a != b)
							if ga != want || gb != want {
								t.Fail("blocks %v and %v in a box of %d pixels: Intersect %v, reversed %v, want %v", a, b, n, ga, gb, want)
								return
							}
							if *ca != *cb(a) || *cbb != *cb(b) {
								t.Fail("Intersect changes its operands")
							}
						}
					}
				}
			}
		}
	}
	t.Sample("all pairs of blocks along axis %d of %d pixels", axis, n)
}

// widePairs takes the first, middle and last places and widths of many pixels.
func widePairs(t *hx.T, n, axis int) {
	at := []int{0, 1, 2, 31, 63, n/2 - 1, n / 2, n/2 + 1, n - 33, n - 2, n - 1}
	for _, ao := range at {
		for _, aw := range append(at[1:], n) {
			for _, bo := range at {
				for _, bw := range append(at[1:], n) {
					for i := 0; i < 3; i++ {
						var a, b [3]span
						for d := range a {
							a[d], b[d] = span{n - 1, 2}, span{[]int{0, n - 1, n / 2}[(i+d)%2], 1}
						}
						if i == 2 {
							b[(axis+1)%3] = span{n / 2, n / 4}
						}
						a[axis], b[axis] = span{ao, aw}, span{bo, bw}
						want := true
						for d := range a {
							// Blocks of a ring meet where one holds the start of the other.
							want = want && (mod(b[d].o-a[d].o, n) < a[d].w || mod(a[d].o-b[d].o, n) < b[d].w)
						}
						t.Eval(a != b)
						if g, h := cb(a).Intersect(cb(b), n), cb(b).Intersect(cb(a), n); g != want || h != want {
							t.Fail("blocks %v and %v in a box of %d pixels: Intersect %v, reversed %v, want %v", a, b, n, g, h, want)
							return
						}
					}
				}
			}
		}
	}
}

func mod(a, n int) int { return ((a % n) + n) % n }

func pairs3(t *hx.T, n int) {
	all := []span{}
	for o := 0; o < n; o++ {
		for w := 1; w <= n; w++ {
			all = append(all, span{o, w})
		}
	}
	blocks := [][3]span{}
	for _, x := range all {
		for _, y := range all {
			for _, z := range all {
				blocks = append(blocks, [3]span{x, y, z})
			}
		}
	}
	for _, a := range blocks {
		for _, b := range blocks {
			want := shares(a[0], b[0], n) && shares(a[1], b[1], n) && shares(a[2], b[2], n)
			t.Eval(a != b)
			if got := cb(a).Intersect(cb(b), n); got != want {
				t.Fail("blocks %v and %v in a box of %d pixels: Intersect %v, want %v", a, b, n, got, want)
				return
			}
		}
	}
}

func unboundedPairs(t *hx.T, n, axis int) {
	over := func(a, b span) bool { return a.o < b.o+b.w && b.o < a.o+a.w }
	partners := [][2]span{{{0, 1}, {0, 1}}, {{0, 1}, {1, 1}}, {{5, 2}, {-3, 20}}, {{2, 1}, {0, 2}}}
	for ao := -n; ao <= n; ao++ {
		for aw := 1; aw <= n; aw++ {
			for bo := -n; bo <= n; bo++ {
				for bw := 1; bw <= n; bw++ {
					for i, p := range partners {
						for _, q := range []int{0, i} {
							var a, b [3]span
							a[axis], b[axis] = span{ao, aw}, span{bo, bw}
							u, v := (axis+1)%3, (axis+2)%3
							a[u], b[u] = p[0], p[1]
							a[v], b[v] = partners[q][0], partners[q][1]
							want := over(a[0], b[0]) && over(a[1], b[1]) && over(a[2], b[2])
							t.Eval(a != b)
							if g, h := cb(a).IntersectUnbounded(cb(b)), cb(b).IntersectUnbounded(cb(a)); g != want || h != want {
								t.Fail("blocks %v and %v: IntersectUnbounded %v, reversed %v, want %v", a, b, g, h, want)
								return
							}
						}
					}
				}
			}
		}
	}
}

// condensed is a sheet each of whose files lies inside one pixel; where says
// which. It returns the sheet and how many files are in each pixel.
func condensed(L float64, px, cells, n, pat int) (sheetDef, map[[3]int]int, func(idx int) [3]int) {
	where := func(i int) [3]int {
		if pat == 0 { // every pixel in turn
			return [3]int{i % px, i / px % px, i / px / px % px}
		}
		return [3]int{(i*3 + pat*(px-1) + i/px) % px, (i*i + pat + i/3) % px, (i + (i*i+pat)/2) % px}
	}
	num := map[[3]int]int{}
	for i := 0; i < cells*cells*cells; i++ {
		num[where(i)]++
	}
	return sheetDef{n: n, cells: cells, L: L, blob: func(idx int) (lo, hi [3]float64) {
		p := where(idx)
		for d := 0; d < 3; d++ {
			lo[d] = (float64(p[d]) + 0.2) / float64(px)
			hi[d] = (float64(p[d]) + 0.8) / float64(px)
		}
		return lo, hi
	}}, num, where
}

// exactGrid compares a rendered box with a sheet of one-pixel files, each
// holding mass unit, times times.
func exactGrid(t *hx.T, what string, b render.Box, px int, num map[[3]int]float64) bool {
	blk := rx.Block{O: b.CellOrigin(), W: b.CellSpan()}
	rec := &rx.Rec{}
	for p, m := range num {
		rec.Deps = append(rec.Deps, rx.Deposit{P: p, V: m})
	}
	want, _, _ := rec.Expect(b)
	got, _, _ := rx.Vals(b)
	if len(want) != len(got) {
		t.Fail("%s: %d values, want %d", what, len(got), len(want))
		return false
	}
	for i := range got {
		if !hx.Near(got[i], want[i], 1, 1e-7) {
			t.Fail("%s: region %v of %d pixels: value %d is %g, want %g", what, blk, px, i, got[i], want[i])
			return false
		}
	}
	return true
}

func fileCull(t *hx.T, c *hx.C, px int, L float64, axis, o int) {
	cells := min(px, 3)
	for pat := 0; pat < c.Pick(2, 4); pat++ {
		for _, seg := range []int{1, 2} {
			if seg == 2 && !c.Thorough() && pat != 1 {
				continue
			}
			def, cnt, _ := condensed(L, px, cells, cells*seg, pat+1)
			files := def.sheet().Write(t.Dir())
			if pat == 1 {
				files = def.sheet().WriteApart(t.Dir(), o+1)
			}
			mass := math.Pow(float64(px)/float64(cells), 3)
			num := map[[3]int]float64{}
			for p, n := range cnt {
				num[p] = mass * float64(n)
			}
			boxes := []render.Box{}
			for w := 1; w <= px; w++ {
				for _, p := range []span{{0, px}, {px - 1, min(2, px)}, {1 % px, 1}} {
					s := [3]span{p, p, p}
					s[axis] = span{o, w}
					ax := 3
					if (w+o)%2 == 0 {
						ax = (w + p.o) % 3
					}
					boxes = append(boxes, render.NewBox(L, 1+w%3, px, density.Density, domain(s, ax).config(L/float64(px))))
				}
			}
			// Each region alone: a file needed only by it must not be dropped.
			for i, b := range boxes {
				renderAll(t, files, []render.Box{b}, density.Density, 1+i%3, 1)
				t.Eval(b.CellSpan() != [3]int{px, px, px})
				if t.Failed() || !exactGrid(t, fmt.Sprintf("%d one-pixel files", len(files)), b, px, num) {
					return
				}
			}
		}
	}
}

// straddle renders one-cube files whose cube reaches from the middle of one
// pixel to the middle of the next: each side holds half of its mass.
func straddle(t *hx.T, c *hx.C, px, axis int) {
	L := 100.0
	for at := 0; at < px; at++ {
		def := sheetDef{n: 1, cells: 1, L: L, blob: func(idx int) (lo, hi [3]float64) {
			for d := 0; d < 3; d++ {
				lo[d] = (float64((at+d)%px) + 0.2) / float64(px)
				hi[d] = (float64((at+d)%px) + 0.8) / float64(px)
			}
			lo[axis] = (float64(at) + 0.5) / float64(px)
			hi[axis] = (float64(at) + 1.5) / float64(px)
			return lo, hi
		}}
		files := def.sheet().Write(t.Dir())
		mass := math.Pow(float64(px), 3)
		for o := 0; o < px; o++ {
			for w := 1; w <= px; w++ {
				for pi, part := range []span{{0, px}, {at, 3}, {at + px - 1, px - 1}} {
					part.o %= px
					s := [3]span{part, part, part}
					s[axis] = span{o, w}
					want := 0.0
					full := true
					for d := 0; d < 3; d++ {
						if d != axis && !shares(s[d], span{(at + d) % px, 1}, px) {
							full = false
						}
					}
					if full {
						for side := 0; side < 2; side++ {
							if shares(s[axis], span{at + side, 1}, px) {
								want += mass / 2
							}
						}
					}
					ax := 3
					if (o+w+pi)%3 == 0 {
						ax = (o + pi) % 3
					}
					b := render.NewBox(L, 400, px, density.Density, domain(s, ax).config(L/float64(px)))
					rx.Bubble(func() { renderAll(t, files, []render.Box{b}, density.Density, 2, 1) })
					v, _, _ := rx.Vals(b)
					got := sum(v)
					if k, ok := b.ProjectionAxis(); ok {
						got *= float64(b.CellSpan()[k])
					}
					t.Eval(want == mass/2)
					// 2400 samples: a fifth of the mass is twenty deviations.
					if hx.Off(got, want, mass/5) || (want != mass/2 && hx.Off(got, want, 1e-6*mass)) {
						t.Fail("a cube across the face of pixels %d and %d of axis %d (%d pixels), region %v: total %g, want about %g",
							at, (at+1)%px, axis, px, s, got, want)
						return
					}
					t.Outcome(fmt.Sprint(want, ax))
				}
			}
		}
	}
}
