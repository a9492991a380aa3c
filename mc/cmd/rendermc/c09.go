package main

import (
	"fmt"
	"math"

	"github.com/phil-mansfield/gotetra/render"
	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
	"verif/mc/hx"
	"verif/mc/rx"
)

const ruleC09 = "every (domain origin, domain width, segment origin, segment width) along each axis of each pixel count of the alphabet, with partner axes that select each deposit strategy, for 3D boxes and each projection, scalar, weighted and vector buffers; quarter-pixel points incl. pixel faces; non-trivial when some but not all points are inside the domain"

// span is a block of pixels along one axis.
type span struct{ o, w int }

// header makes a sheet header whose bounds are inside the given pixel block,
// touching its lower face if face is set.
func header(L float64, cells int, s [3]span, face bool) *io.SheetHeader {
	hd := &io.SheetHeader{}
	hd.TotalWidth = L
	hd.SegmentWidth, hd.GridWidth, hd.CountWidth, hd.Cells = 1, 2, 2, 1
	cw := L / float64(cells)
	for d := range s {
		lo, w := float64(s[d].o)+0.125, float64(s[d].w)-0.25
		if face {
			lo, w = float64(s[d].o), float64(s[d].w)-0.125
		}
		hd.Origin[d] = float32(lo * cw)
		hd.Width[d] = float32(w * cw)
	}
	return hd
}

func domain(s [3]span, axis int) region {
	r := region{axis: axis}
	for d := range s {
		r.x[d], r.w[d] = float64(s[d].o)+0.25, float64(s[d].w)-0.5
	}
	return r
}

func runC09(c *hx.C) {
	pcs := []int{1, 2, 3, 4, 5, 6}
	if c.Thorough() {
		pcs = []int{1, 2, 3, 4, 5, 6, 7, 8, 9}
	}
	for _, px := range pcs {
		for _, exact := range []bool{true, false} {
			for axis := 0; axis < 3; axis++ {
				for do := 0; do < px; do++ {
					px, exact, axis, do := px, exact, axis, do
					c.Case(fmt.Sprintf("deposit/P%d/exact=%v/axis%d/o%d", px, exact, axis, do), func(t *hx.T) {
						deposits(t, px, exact, axis, do)
					})
				}
			}
		}
	}
	for _, px := range []int{17, 40, 130, c.Pick(257, 1030)} {
		for axis := 0; axis < 3; axis++ {
			px, axis := px, axis
			c.Case(fmt.Sprintf("large/P%d/axis%d", px, axis), func(t *hx.T) { largeDeposits(t, px, axis) })
		}
	}
	for _, L := range []float64{100, 62.5, 1000.1, 0.3, 500, 125} {
		L := L
		c.Case(fmt.Sprintf("faces/L%g", L), func(t *hx.T) { faces(t, L, c.Pick(40, 64)) })
	}
}

func maxSeg(px int) int {
	// The segment spans less than half the box: (w - 1/8) pixels < px / 2.
	w := (px + 1) / 2
	if w < 1 {
		w = 1
	}
	return w
}

func deposits(t *hx.T, px int, exact bool, axis, do int) {
	L := float64(px) * 4
	if !exact {
		L = 100.7
	}
	m := maxSeg(px)
	mod := func(x int) int { return (x%px + px) % px }
	partners := [][2]span{ // domain, segment
		{{0, px}, {mod(1), 1}},
		{{mod(2), 1}, {mod(1), m}},
		{{mod(-1), min(2, px)}, {mod(-1), m}},
		{{mod(1), min(2, px)}, {mod(-1), m}},
		{{mod(-1), px}, {0, m}},
	}
	for dw := 1; dw <= px; dw++ {
		for so := 0; so < px; so++ {
			for sw := 1; sw <= m; sw++ {
				for pi, p := range partners {
					var dom, seg [3]span
					for d := 0; d < 3; d++ {
						dom[d], seg[d] = p[0], p[1]
					}
					dom[axis], seg[axis] = span{do, dw}, span{so, sw}
					for proj := 0; proj < 4; proj++ {
						deposit(t, L, px, dom, seg, proj, axis, exact, pi)
						if t.Failed() {
							return
						}
					}
				}
			}
		}
	}
}

// largeDeposits covers wide grids at the ends and in the middle of each range.
func largeDeposits(t *hx.T, px, axis int) {
	m := maxSeg(px)
	partners := [][2]span{ // domain, segment
		{{px - 1, 2}, {px - 1, 2}},
		{{px / 2, 3}, {px/2 + 1, 1}},
		{{0, 1}, {px - 2, 3}},
	}
	if px < 50 {
		partners = append(partners, [2]span{{0, px}, {px - 2, 3}}, [2]span{{px / 3, px / 2}, {px / 2, 2}})
	}
	n := 0
	for _, do := range []int{0, 1, px / 2, px - 1} {
		for _, dw := range []int{1, 3, px / 2, px - 1, px} {
			for _, so := range []int{0, px / 3, px - 2, px - 1} {
				for _, sw := range []int{1, 5, m} {
					for pi, p := range partners {
						var dom, seg [3]span
						for d := 0; d < 3; d++ {
							dom[d], seg[d] = p[0], p[1]
						}
						dom[axis], seg[axis] = span{do, dw}, span{so, sw}
						L := float64(px) * 4
						if n++; n%2 == 0 {
							L = 100.7
						}
						deposit(t, L, px, dom, seg, []int{3, axis, (axis + 1) % 3}[n%3], axis, n%2 == 1, pi)
						if t.Failed() {
							return
						}
						t.Beat()
					}
				}
			}
		}
	}
}

func deposit(t *hx.T, L float64, px int, dom, seg [3]span, proj, axis int, exact bool, pi int) {
	cw := L / float64(px)
	face := exact && (pi+dom[axis].w)%2 == 0
	hd := header(L, px, seg, face)
	// The points of the segment, in pixels.
	pts := [][3]float64{}
	along := []float64{}
	for q := 0; q < 4*seg[axis].w; q++ {
		if q%4 == 0 && !(exact && (q > 0 || face)) {
			continue
		}
		along = append(along, float64(seg[axis].o)+float64(q)/4)
	}
	u, v := (axis+1)%3, (axis+2)%3
	for i, a := range along {
		for k := 0; k < 2*seg[u].w; k++ {
			pt := [3]float64{}
			pt[axis] = a
			pt[u] = float64(seg[u].o) + float64(k)/2 + 0.25
			pt[v] = float64(seg[v].o) + float64((k+i)%(2*seg[v].w))/2 + 0.25
			pts = append(pts, pt)
		}
	}
	n := len(pts)
	pos := func() []geom.Vec {
		vs := make([]geom.Vec, n)
		for i := range vs {
			for d := 0; d < 3; d++ {
				vs[i][d] = float32(rx.Mod(pts[i][d]*cw, L))
			}
		}
		return vs
	}
	rec := &rx.Rec{}
	for i, p := range pts {
		d := rx.Deposit{V: 1}
		for k := 0; k < 3; k++ {
			d.P[k] = int(math.Floor(p[k])) % px
		}
		d.W = [3]float64{float64(i + 1), float64(-2*i - 3), float64(i*i + 5)}
		rec.Deps = append(rec.Deps, d)
	}
	inside := 0
	blk := rx.Block{}
	for d := range dom {
		blk.O[d], blk.W[d] = dom[d].o, dom[d].w
	}
	for _, d := range rec.Deps {
		if _, ok := blk.Has(d.P, px); ok {
			inside++
		}
	}
	what := fmt.Sprintf("L=%g pixels=%d domain %v segment %v axis %q", L, px, dom, seg, axisName[proj])
	r := domain(dom, proj)
	cfg := r.config(cw)
	var grid3 []float64
	for kind := 0; kind < 3; kind++ {
		q := density.Density
		if kind == 2 {
			q = density.Velocity
		}
		box := render.NewBox(L, n, px, q, cfg)
		if box.CellOrigin() != blk.O || box.CellSpan() != blk.W {
			t.Fail("%s: block %v %v", what, box.CellOrigin(), box.CellSpan())
			return
		}
		over := box.Overlap(hd)
		g := geom.NewGridLocation(blk.O, blk.W, L, px)
		buf := density.NewBuffer(q, over.BufferSize(), n, g)
		vs := pos()
		over.ScaleVecs(vs, hd.CellBounds(px))
		w := density.Buffer(density.NilBuffer)
		switch kind {
		case 1: // scalar weights, split over two workers
			ws := make([]float64, n)
			for i := range ws {
				ws[i] = rec.Deps[i].W[2]
			}
			w = density.WrapperDensityBuffer(ws)
			over.Interpolate(buf, vs, nil, 1, w, 0, n, 2)
			over.Interpolate(buf, vs, nil, 1, w, 1, n, 2)
		case 2:
			w = density.NewBuffer(density.Velocity, n, 0, g)
			wv, _ := w.VectorBuffer()
			for i := range wv {
				wv[i] = rec.Deps[i].W
			}
			over.Interpolate(buf, vs, nil, 1, w, 0, n, 1)
		default:
			over.Interpolate(buf, vs, nil, 1, w, 0, n, 1)
		}
		// Added twice, so that overwriting shows.
		over.Add(buf, box.Vals())
		over.Add(buf, box.Vals())
		es, ev, en := rec.Expect(box)
		if kind == 1 {
			for i := range ev {
				es[i] = ev[i][2]
				if proj != 3 {
					es[i] /= float64(blk.W[proj])
				}
			}
		}
		for i := range es {
			es[i] *= 2
			en[i] *= 2
			for k := range ev[i] {
				ev[i][k] *= 2
			}
		}
		s, v, num := rx.Vals(box)
		t.Eval(inside > 0 && inside < n)
		if !rx.CompareGrids(t, fmt.Sprintf("%s kind %d", what, kind), s, v, num, es, ev, en) {
			return
		}
		// The projection is the mean of the 3D grid.
		if kind == 0 && proj != 3 {
			b3 := render.NewBox(L, n, px, q, domain(dom, 3).config(cw))
			o3 := b3.Overlap(hd)
			bf := density.NewBuffer(q, o3.BufferSize(), n, g)
			vs := pos()
			o3.ScaleVecs(vs, hd.CellBounds(px))
			o3.Interpolate(bf, vs, nil, 1, density.NilBuffer, 0, n, 1)
			o3.Add(bf, b3.Vals())
			grid3, _, _ = rx.Vals(b3)
			mean := make([]float64, len(s))
			str := [3]int{1, blk.W[0], blk.W[0] * blk.W[1]}
			for i, x := range grid3 {
				c := [3]int{i % blk.W[0], i / str[1] % blk.W[1], i / str[2]}
				j, m := 0, 1
				for d := 0; d < 3; d++ {
					if d != proj {
						j += c[d] * m
						m *= blk.W[d]
					}
				}
				mean[j] += 2 * x / float64(blk.W[proj])
			}
			rx.CompareGrids(t, what+": against the mean of the 3D grid", s, nil, nil, mean, nil, nil)
		}
		if kind == 0 && inside > 0 && pi == 1 {
			t.Sample("%s: %d points, %d inside", what, n, inside)
		}
		t.Outcome(fmt.Sprint(inside, over.BufferSize() == len(s), kind))
	}
}

// faces puts segments exactly on (and one float below and above) every pixel
// face of boxes whose widths are not exact, and requires that scaling neither
// tears a segment apart nor moves it.
func faces(t *hx.T, L float64, maxPx int) {
	for px := 1; px <= maxPx; px++ {
		cw := L / float64(px)
		for f := 0; f < px; f++ {
			for ulp := -1; ulp <= 1; ulp++ {
				hd := header(L, px, [3]span{}, false)
				lo := float32(float64(f) * cw)
				if ulp < 0 {
					lo = math.Nextafter32(lo, -1)
				} else if ulp > 0 {
					lo = math.Nextafter32(lo, float32(L))
				}
				if lo < 0 || float64(lo) >= L {
					continue
				}
				w := float32(0.3 * cw)
				if float64(w) > 0.3*L {
					w = float32(0.3 * L)
				}
				for d := 0; d < 3; d++ {
					hd.Origin[d], hd.Width[d] = lo, w
				}
				for dom := 0; dom < 2; dom++ {
					r := region{axis: 3}
					for d := 0; d < 3; d++ {
						r.x[d], r.w[d] = float64((f+d)%px)+0.25, 0.5
						if dom == 1 {
							r.x[d], r.w[d] = 0, float64(px)
						}
					}
					box := render.NewBox(L, 1, px, density.Density, r.config(cw))
					over := box.Overlap(hd)
					vs := []geom.Vec{}
					for _, x := range []float32{lo, math.Nextafter32(lo, float32(L)), lo + w/2, lo + w} {
						m := float32(rx.Mod(float64(x), L))
						vs = append(vs, geom.Vec{m, m, m})
					}
					raw := append([]geom.Vec{}, vs...)
					over.ScaleVecs(vs, hd.CellBounds(px))
					t.Eval(ulp != 0)
					for d := 0; d < 3; d++ {
						for i := range vs {
							want := float64(raw[i][d]-raw[0][d]) / cw
							if raw[i][d] < raw[0][d] {
								want += float64(px)
							}
							got := float64(vs[i][d] - vs[0][d])
							if hx.Off(got, want, 1e-3) {
								t.Fail("L=%g, %d pixels: a segment starting at %v (face %d%+d ulp) holds points %g pixels apart, scaled to %v and %v",
									L, px, lo, f, ulp, want, vs[0][d], vs[i][d])
								return
							}
						}
					}
				}
			}
		}
	}
}
