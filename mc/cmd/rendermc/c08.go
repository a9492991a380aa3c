package main

import (
	"fmt"
	"math"

	"github.com/phil-mansfield/gotetra/render"
	"github.com/phil-mansfield/gotetra/render/density"
	"verif/mc/hx"
	"verif/mc/rx"
)

const ruleC08 = "every combination of sheet (lattice at several offsets, folded, compressed, scattered, one-point and per-file blob sheets), sheet size, pixel count, particles per tetrahedron, power-of-two subsampling dividing the segment, worker count, whole-box origin and projection axis of the alphabet, rendered in full; and every sub-region of an enumerated set over blob sheets; a render is non-trivial when some tetrahedron crosses a pixel face or the periodic boundary"

type sheetDef struct {
	name     string
	n, cells int
	L        float64
	f        func(q [3]float64, L, d float64) [3]float64 // Lagrangian -> Eulerian
	blob     func(idx int) (lo, hi [3]float64)           // per-file boxes, in units of L
}

func (s sheetDef) sheet() *rx.Sheet {
	sh := &rx.Sheet{N: s.n, Cells: s.cells, L: s.L}
	seg := s.n / s.cells
	d := s.L / float64(s.n)
	sh.X = func(a, b, c, i, j, k int) [3]float64 {
		if s.blob != nil {
			lo, hi := s.blob(a + b*s.cells + c*s.cells*s.cells)
			n := [3]int{i, j, k}
			out := [3]float64{}
			for m := range out {
				out[m] = (lo[m] + (hi[m]-lo[m])*float64(n[m])/float64(seg)) * s.L
			}
			return out
		}
		q := [3]float64{float64(a*seg+i) * d, float64(b*seg+j) * d, float64(c*seg+k) * d}
		return s.f(q, s.L, d)
	}
	sh.V = func(a, b, c, i, j, k int) [3]float32 {
		return [3]float32{float32(a + 1), float32(-b - 2), float32(4*c + 3)}
	}
	return sh
}

func shift(ox, oy, oz float64) func(q [3]float64, L, d float64) [3]float64 {
	return func(q [3]float64, L, d float64) [3]float64 {
		return [3]float64{q[0] + ox*d, q[1] + oy*d, q[2] + oz*d}
	}
}

// tri is a triangle wave of period L and height 1.
func tri(x, L float64) float64 {
	u := rx.Mod(x/L, 1)
	if u < 0.25 {
		return 4 * u
	} else if u < 0.75 {
		return 2 - 4*u
	}
	return 4*u - 4
}

// scatter displaces lattice points by a fixed pattern of quarter spacings which
// has the period of the lattice.
func scatter(q [3]float64, L, d float64) [3]float64 {
	n := int(math.Round(L / d))
	id := [3]int{}
	for k := range id {
		id[k] = int(math.Round(q[k]/d)) % n
	}
	h := uint32(id[0]*73856093 ^ id[1]*19349663 ^ id[2]*83492791)
	out := q
	for k := range out {
		h = h*1664525 + 1013904223
		out[k] += d * (float64(h>>28) - 7.5) / 16
	}
	return out
}

func fold(q [3]float64, L, d float64) [3]float64 {
	return [3]float64{q[0] + 0.375*L*tri(q[1], L)/2 + 1.25*d*tri(q[0], L/2), q[1] - 0.5*d*tri(q[2], L), q[2] + 0.25*d}
}

func squeeze(q [3]float64, L, d float64) [3]float64 {
	return [3]float64{q[0] - L/8*tri(q[0], L), q[1] - L/8*tri(q[1], L) - 0.3125*d, q[2]}
}

func point(px, py, pz float64) func(q [3]float64, L, d float64) [3]float64 {
	return func(q [3]float64, L, d float64) [3]float64 {
		return [3]float64{px * L, py * L, pz * L}
	}
}

var lattices = []sheetDef{
	{name: "lattice", f: shift(0, 0, 0)},
	{name: "half", f: shift(0.5, 0.5, 0.5)},
	{name: "seam", f: shift(-0.25, 0.75, -0.5)},
	{name: "far", f: shift(2.3125, -1.6875, 3.4375)},
	{name: "scatter", f: scatter},
	{name: "fold", f: fold},
	{name: "squeeze", f: squeeze},
	{name: "point", f: point(0.7, 0.3, 0.999)},
	{name: "corner", f: point(0, 0, 0)},
}

type size struct{ n, cells int }

// spansOK says whether every segment spans less than half the box.
func spansOK(sh *rx.Sheet) bool {
	for idx := 0; idx < sh.Cells*sh.Cells*sh.Cells; idx++ {
		sg := sh.Segment(idx)
		for d := 0; d < 3; d++ {
			if float64(sg.Hd.Width[d]) >= 0.499*sh.L {
				return false
			}
		}
	}
	return true
}

func runC08(c *hx.C) {
	sizes := []size{{3, 3}, {6, 3}, {4, 4}, {12, 3}}
	pixels := []int{1, 2, 3, 5, 8}
	widths := []float64{64, 100}
	work := []int{1, 2, 3, 5}
	if c.Thorough() {
		sizes = []size{{3, 3}, {4, 4}, {6, 3}, {8, 4}, {12, 3}, {24, 3}}
		pixels = []int{1, 2, 3, 4, 5, 7, 8, 12, 20}
		widths = []float64{64, 100, 1000.1}
		work = []int{1, 2, 3, 4, 7}
	}
	for _, sz := range sizes {
		for li, lt := range lattices {
			for wi, L := range widths {
				if !c.Thorough() && sz.n == 12 && (li+wi)%2 == 1 {
					continue
				}
				def := lt
				def.n, def.cells, def.L = sz.n, sz.cells, L
				id := fmt.Sprintf("whole/%s/N%d/C%d/L%g", lt.name, sz.n, sz.cells, L)
				c.Case(id, func(t *hx.T) {
					sh := def.sheet()
					if !spansOK(sh) {
						return
					}
					files := sh.Write(t.Dir())
					for pi, px := range pixels {
						for skip := 1; sh.Seg()%skip == 0; skip *= 2 {
							if !c.Thorough() && sh.Seg() > 2 && (skip < 4 || pi%2 == 1) {
								continue
							}
							// Every worker count appears with every pixel count and
							// every particle count over the whole set of sheets.
							w := work[(pi+len(lt.name))%len(work)]
							if c.Thorough() {
								for k := 0; k < 2; k++ {
									w := work[(pi+len(lt.name)+2*k)%len(work)]
									whole(t, def, files, px, 1+(pi+w)%3, w, skip)
								}
								continue
							}
							whole(t, def, files, px, 1+(pi+sz.n)%3, w, skip)
						}
					}
				})
			}
		}
	}
	// Large instances.
	for i, b := range []struct{ n, cells, px, pts, work, skip int }{
		{6, 6, 33, 2, 8, 1}, {10, 5, 17, 1, 16, 2}, {7, 7, 4, 1, 9, 1}, {3, 3, 4, 700, 2, 1},
		{4, 4, 64, 3, 4, 1}, {16, 4, 6, 2, 3, 4}, {32, 4, 3, 1, 5, 8}, {36, 3, 5, 1, 6, 4},
	} {
		for li, lt := range lattices {
			if !c.Thorough() && (li+i)%4 != 0 {
				continue
			}
			def, b := lt, b
			def.n, def.cells, def.L = b.n, b.cells, widths[(i+li)%len(widths)]
			c.Case(fmt.Sprintf("large/%d/%s", i, lt.name), func(t *hx.T) {
				sh := def.sheet()
				if !spansOK(sh) {
					return
				}
				whole(t, def, sh.Write(t.Dir()), b.px, b.pts, b.work, b.skip)
			})
		}
	}
	// Blob sheets: every region holds each file's mass entirely or not at all.
	for _, L := range widths {
		for _, cells := range []int{1, 2} {
			for _, n := range []int{cells, 2 * cells, 4 * cells} {
				for _, px := range []int{4, 5, 8} {
					L, cells, n, px := L, cells, n, px
					id := fmt.Sprintf("blobs/L%g/C%d/N%d/P%d", L, cells, n, px)
					c.Case(id, func(t *hx.T) { blobs(t, c, L, cells, n, px) })
				}
			}
		}
	}
}

func whole(t *hx.T, def sheetDef, files []string, px, pts, workers, skip int) {
	regs := []region{}
	W := [3]float64{float64(px), float64(px), float64(px)}
	for _, o := range [][3]float64{{0, 0, 0}, {float64(px / 2), 0, float64(px - 1)},
		{0.5, float64(px) - 0.5, 0.25}} {
		for axis := 0; axis < 4; axis++ {
			regs = append(regs, region{o, W, axis})
		}
	}
	for _, q := range []density.Quantity{density.Density, density.DensityGradient} {
		boxes := []render.Box{}
		for _, r := range regs {
			if q == density.DensityGradient && r.axis != 3 {
				continue
			}
			boxes = append(boxes, render.NewBox(def.L, pts, px, q, r.config(def.L/float64(px))))
		}
		rx.Bubble(func() { renderAll(t, files, boxes, q, workers, skip) })
		for i, b := range boxes {
			s, _, _ := rx.Vals(b)
			mean := sum(s) / float64(len(s))
			t.Eval(px > 1)
			if !hx.Near(mean, 1, 1, 1e-7) {
				t.Fail("box %d of %d (%v), %d pixels, %d particles, %d workers, skip %d: mean density %.9g",
					i, len(boxes), b.CellOrigin(), px, pts, workers, skip, mean)
			}
			for j, x := range s {
				if x < 0 || math.IsNaN(x) || math.IsInf(x, 0) {
					t.Fail("pixel %d holds %g", j, x)
					break
				}
			}
			t.Outcome(fmt.Sprintf("%.4g", s))
		}
		if q == density.Density {
			t.Sample("sheet %s N=%d cells=%d L=%g, %d pixels, %d particles, %d workers, skip %d: %d whole-box renders with mean 1",
				def.name, def.n, def.cells, def.L, px, pts, workers, skip, len(boxes))
		}
	}
}

// blobs puts every file's mass strictly inside a pixel block, some of them
// reaching across the periodic boundary.
func blobs(t *hx.T, c *hx.C, L float64, cells, n, px int) {
	type blk struct {
		o    [3]int
		size [3]int
	}
	nf := cells * cells * cells
	for pat := 0; pat < 4; pat++ {
		where := make([]blk, nf)
		for i := range where {
			where[i].o = [3]int{(i*3 + pat*(px-1)) % px, (i + pat + pat/2*(px-2)) % px, (i*i + (3-pat)*(px-1)) % px}
			where[i].size = [3]int{1 + (pat+i)%2, 1 + pat%2, 1 + (i/2+pat/2)%2}
		}
		def := sheetDef{n: n, cells: cells, L: L, blob: func(idx int) (lo, hi [3]float64) {
			for d := 0; d < 3; d++ {
				lo[d] = (float64(where[idx].o[d]) + 0.2) / float64(px)
				hi[d] = (float64(where[idx].o[d]+where[idx].size[d]) - 0.2) / float64(px)
			}
			return lo, hi
		}}
		sh := def.sheet()
		if !spansOK(sh) {
			continue
		}
		files := sh.Write(t.Dir())
		// Every origin and width along each axis, against partner slabs.
		partners := []struct{ x, w float64 }{{0, float64(px)}, {float64(px) - 0.5, float64(px / 2)}, {1.5, 1}}
		regs := []region{}
		for axis := 0; axis < 3; axis++ {
			for o := 0; o < px; o++ {
				for w := 1; w <= px; w++ {
					for _, p := range partners {
						r := region{axis: 3}
						if (o+w)%2 == 0 {
							r.axis = (o + axis) % 3
						}
						for d := 0; d < 3; d++ {
							r.x[d], r.w[d] = p.x, p.w
						}
						r.x[axis], r.w[axis] = float64(o)+0.5, float64(w)-1
						if r.w[axis] == 0 {
							r.w[axis] = 0.25
						}
						regs = append(regs, r)
					}
				}
			}
		}
		mass := math.Pow(float64(px)/float64(cells), 3)
		for lo := 0; lo < len(regs); lo += 24 {
			hi := min(lo+24, len(regs))
			boxes := []render.Box{}
			for _, r := range regs[lo:hi] {
				boxes = append(boxes, render.NewBox(L, 1+lo/24%3, px, density.Density, r.config(L/float64(px))))
			}
			// Every power of two which divides the segment, in turn.
			skip := 1 << (lo / 24 % 4)
			for n/cells%skip != 0 {
				skip >>= 1
			}
			rx.Bubble(func() { renderAll(t, files, boxes, density.Density, 1+lo/24%4, skip) })
			for bi, b := range boxes {
				r := regs[lo+bi]
				blkk := r.block(px)
				want := 0.0
				inside := 0
				partial := false
				for _, w := range where {
					all, any := true, false
					for x := 0; x < w.size[0]; x++ {
						for y := 0; y < w.size[1]; y++ {
							for z := 0; z < w.size[2]; z++ {
								_, ok := blkk.Has([3]int{w.o[0] + x, w.o[1] + y, w.o[2] + z}, px)
								all, any = all && ok, any || ok
							}
						}
					}
					if all {
						want += mass
						inside++
					} else if any {
						partial = true
					}
				}
				s, _, _ := rx.Vals(b)
				got := sum(s)
				if ax, ok := b.ProjectionAxis(); ok {
					got *= float64(blkk.W[ax])
				}
				t.Eval(inside > 0 || partial)
				if partial {
					// part of a blob: bounds only
					if got < want-1e-6 || got > mass*float64(nf)+1e-6 {
						t.Fail("region %v: total %g outside [%g, %g]", r, got, want, mass*float64(nf))
					}
				} else if !hx.Near(got, want, want, 1e-7) {
					t.Fail("region %v (block %v), skip %d: total mass %g, files inside hold %g", r, blkk, skip, got, want)
				}
				t.Outcome(fmt.Sprint(inside, partial))
			}
		}
	}
}
