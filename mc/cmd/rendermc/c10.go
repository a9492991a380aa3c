package main

import (
	"fmt"

	"github.com/phil-mansfield/gotetra/render"
	"github.com/phil-mansfield/gotetra/render/density"
	"verif/mc/hx"
	"verif/mc/rx"
)

const ruleC10 = "every origin and width on a quarter-pixel lattice (pixel faces and whole-box widths included) along each axis, with partner axes, pixel counts (first, middle and last places only for hundreds of pixels), projection axes and quantities; non-trivial when the request is not aligned with pixel faces or reaches across the boundary"

var quantities = []density.Quantity{density.Density, density.DensityGradient,
	density.Velocity, density.VelocityDivergence, density.VelocityCurl}

func runC10(c *hx.C) {
	pcs := []int{1, 2, 3, 5, 6}
	widths := []float64{0, 100, 62.5}
	if c.Thorough() {
		pcs = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 11}
		widths = []float64{0, 100, 62.5, 0.3, 1000.1, 7}
	}
	for _, px := range []int{64, 100, 257, c.Pick(500, 4096)} {
		for _, L := range []float64{0, 62.5, 1000.1} {
			for axis := 0; axis < 3; axis++ {
				px, L, axis := px, L, axis
				c.Case(fmt.Sprintf("large/P%d/L%g/axis%d", px, L, axis), func(t *hx.T) { largeBlocks(t, px, L, axis) })
			}
		}
	}
	for _, px := range pcs {
		for _, L := range widths {
			for axis := 0; axis < 3; axis++ {
				px, L, axis := px, L, axis
				c.Case(fmt.Sprintf("block/P%d/L%g/axis%d", px, L, axis), func(t *hx.T) { blocks(t, px, L, axis) })
			}
		}
	}
}

func blocks(t *hx.T, px int, L float64, axis int) {
	exact := L == 0
	if exact {
		L = 8 * float64(px)
	}
	cw := L / float64(px)
	n := 0
	for o := 0; o < 4*px; o++ {
		for w := 1; w <= 4*px; w++ {
			for pi, p := range [][2]float64{{0, float64(px)}, {float64(px) - 0.25, 0.25}, {0.5, float64(px) - 0.25}} {
				n++
				r := region{axis: n % 4}
				for d := 0; d < 3; d++ {
					r.x[d], r.w[d] = p[0], p[1]
				}
				r.x[axis], r.w[axis] = float64(o)/4, float64(w)/4
				q := quantities[n%5]
				if pi == 0 {
					q = density.Density
				}
				pts := 1 + n%7
				b := render.NewBox(L, pts, px, q, r.config(cw))
				block(t, b, r, L, px, pts, q, exact)
				t.Eval(o%4 != 0 || w%4 != 0 || o+w > 4*px)
				if t.Failed() {
					return
				}
				if n%997 == 1 {
					t.Sample("request %v of %d pixels, quantity %v: block %v+%v", r, px, int(q), b.CellOrigin(), b.CellSpan())
				}
				t.Outcome(fmt.Sprint(b.CellOrigin(), b.CellSpan()))
			}
		}
	}
}

// largeBlocks takes the first, middle and last places of many pixels.
func largeBlocks(t *hx.T, px int, L float64, axis int) {
	exact := L == 0
	if exact {
		L = 8 * float64(px)
	}
	cw := L / float64(px)
	at := []float64{0, 0.25, 0.75, 1, 33, 63.5, float64(px)/2 - 0.25, float64(px) / 2, float64(px) - 1.5, float64(px) - 1, float64(px) - 0.25}
	n := 0
	for _, o := range at {
		for _, w := range append(at[1:], float64(px)) {
			for _, p := range [][2]float64{{float64(px) - 0.25, 0.25}, {0.5, 1.25}, {float64(px) - 1, 2}} {
				n++
				r := region{axis: n % 4}
				for d := 0; d < 3; d++ {
					r.x[d], r.w[d] = p[0], p[1]
				}
				r.x[axis], r.w[axis] = o, w
				q := quantities[n%5]
				b := render.NewBox(L, 1+n%700, px, q, r.config(cw))
				block(t, b, r, L, px, 1+n%700, q, exact)
				t.Eval(true)
				if t.Failed() {
					return
				}
			}
		}
	}
}

func block(t *hx.T, b render.Box, r region, L float64, px, pts int, q density.Quantity, exact bool) {
	eps := 0.0
	if !exact {
		eps = 1e-9
	}
	o, w := b.CellOrigin(), b.CellSpan()
	for d := 0; d < 3; d++ {
		lo, hi := float64(o[d]), float64(o[d]+w[d])
		if o[d] < 0 || o[d] >= px || w[d] < 1 || w[d] > px {
			t.Fail("request %v of %d pixels (L=%g): block origin %v span %v", r, px, L, o, w)
			return
		}
		if lo > r.x[d]+eps || lo <= r.x[d]-1-eps {
			t.Fail("request %v (L=%g): block origin %v does not start in the request's first pixel", r, L, o)
		}
		if w[d] < px && hi < r.x[d]+r.w[d]-eps {
			t.Fail("request %v (L=%g): block %v+%v misses the end of the request", r, L, o, w)
		}
		if hi > r.x[d]+r.w[d]+1+eps {
			t.Fail("request %v (L=%g): block %v+%v is too wide", r, L, o, w)
		}
	}
	if b.Cells() != px || b.Points() != pts || hx.Off(b.CellWidth()*float64(px), L, 1e-9*L) {
		t.Fail("request %v: Cells %d, Points %d, CellWidth %g for %d pixels, %d points, width %g",
			r, b.Cells(), b.Points(), b.CellWidth(), px, pts, L)
	}
	axis, proj := b.ProjectionAxis()
	canProject := q == density.Density || q == density.Velocity
	if proj != (canProject && r.axis != 3) || (proj && axis != r.axis) {
		t.Fail("request %v, quantity %d: ProjectionAxis %d %v", r, int(q), axis, proj)
		return
	}
	n := 1
	for d := 0; d < 3; d++ {
		if !proj || d != axis {
			n *= w[d]
		}
	}
	s, v, num := rx.Vals(b)
	if b.Vals().Length() != n || (s != nil && len(s) != n) || (v != nil && len(v) != n) || (num != nil && len(num) != n) {
		t.Fail("request %v: block %v+%v (projected: %v) has %d values, want %d", r, o, w, proj, b.Vals().Length(), n)
	}
	if b.Vals().Quantity() != q {
		t.Fail("request %v: quantity %d became %d", r, int(q), int(b.Vals().Quantity()))
	}
}
