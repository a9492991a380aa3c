package main

import (
	"fmt"
	"math"

	"verif/mc/hx"
	"verif/mc/rx"
)

const ruleC02 = "every deformed lattice (amplitude, shift across the faces, reversed and collapsed axes) with every velocity field of the alphabet, converted by the program; every file's boxes against its own nodes; non-trivial when the segment crosses a face of the simulation or its velocities exclude those of the first particle"

func runC02(c *hx.C) {
	const L = 100.0
	type shape struct {
		name string
		f    func(u [3]float64) [3]float64 // of Lagrangian coordinates in [0,1)
	}
	wave := func(x float64) float64 { return math.Sin(2 * math.Pi * x) }
	shapes := []shape{
		{"lattice", func(u [3]float64) [3]float64 { return u }},
		{"sheared", func(u [3]float64) [3]float64 {
			return [3]float64{u[0] + 0.06*wave(u[1]), u[1] + 0.05*wave(u[2]+0.3), u[2] + 0.04*wave(u[0])}
		}},
		{"folded", func(u [3]float64) [3]float64 {
			return [3]float64{u[0] + 0.17*wave(u[0]), u[1] - 0.2*wave(u[1]+0.1), u[2] + 0.15*wave(2*u[2])/2}
		}},
		{"point", func(u [3]float64) [3]float64 { return [3]float64{} }},
		{"plane", func(u [3]float64) [3]float64 {
			return [3]float64{0, u[1] * 0.1 * math.Round(math.Cos(2*math.Pi*u[1])), u[2]}
		}},
		{"blobs", func(u [3]float64) [3]float64 {
			return [3]float64{math.Floor(u[0]*4) / 4, math.Floor(u[1]*4)/4 + 0.01*u[0], math.Floor(u[2]*2) / 2}
		}},
	}
	vels := []func(x, y, z int) [3]float64{
		func(x, y, z int) [3]float64 { return [3]float64{float64(x), -float64(y), float64(z) - 3} },
		func(x, y, z int) [3]float64 {
			if x+y+z == 0 {
				return [3]float64{-1e4, 1e4, 0}
			}
			return [3]float64{float64(x*y) + 1, -float64(z + x), 7}
		},
		func(x, y, z int) [3]float64 {
			return [3]float64{100 - float64((x*5+y*3+z*7)%11), -100.125 - float64((x*3+z)%5), float64((x+2*y+3*z)%7) * 0.1}
		},
		func(x, y, z int) [3]float64 { return [3]float64{-5, 0, 1e-3} },
	}
	ncs := [][2]int{{8, 4}, {6, 3}, {4, 4}, {4, 1}, {6, 2}, {8, 1}}
	shifts := [][3]float64{{0, 0, 0}, {0.97, 0, 0}, {0, 0.9, 0.55}, {-0.03, -0.01, -0.07}, {0.123, 0.456, 0.789}, {0.9999999, 1e-9, -1e-8}}
	if c.Thorough() {
		ncs = append(ncs, [2]int{16, 8}, [2]int{16, 4}, [2]int{12, 6}, [2]int{12, 3}, [2]int{10, 5}, [2]int{5, 5})
		for i := 0; i < 18; i++ {
			shifts = append(shifts, [3]float64{float64(i) / 18, float64(i*5%18)/18 + 0.01, float64(i*7%18)/18 - 0.02})
		}
	}
	boxes := []float64{L, 0.75, 1000.1}
	items := []conv1{}
	for _, nc := range ncs {
		for _, s := range shapes {
			for vi := range vels {
				for si, sh := range shifts {
					x := base(nc[0], nc[1])
					s, sh := s, sh
					x.box = boxes[(si+vi)%len(boxes)]
					x.perm, x.split = si%5, vi
					n := float64(nc[0])
					box := x.box
					x.pos = func(i, j, k int) [3]float64 {
						p := s.f([3]float64{float64(i) / n, float64(j) / n, float64(k) / n})
						for d := range p {
							p[d] = rx.Mod((p[d]+sh[d])*box, box)
						}
						return p
					}
					x.vel = vels[vi]
					items = append(items, x)
				}
			}
		}
	}
	chunked(c, "boxes", items, 16, func(t *hx.T, cs []conv1) {
		dir := t.Dir()
		for _, x := range cs {
			r, files := x.run(dir)
			if r.Code != 0 {
				t.Fail("%s: %s", x, r)
				continue
			}
			for name, b := range files {
				judgeBoxes(t, x, name, b)
			}
			t.Sample("%s: %d files", x, len(files))
		}
	})
}

// judgeBoxes compares a sheet's bounding boxes with its nodes.
func judgeBoxes(t *hx.T, x conv1, name, b string) {
	h, xs, vs, ok := parseSheet(b)
	if !ok {
		t.Fail("%s: %s is no sheet file", x, name)
		return
	}
	w := h.TotalWidth
	tol := 1e-6 * w
	crosses, outside := false, false
	p0, v0 := x.particle(0, 0, 0)
	_ = p0
	for d := 0; d < 3; d++ {
		o, s := float64(h.Origin[d]), float64(h.Width[d])
		if !(o >= 0 && o < w) || !(s >= 0 && s <= w*(1+1e-6)) {
			t.Fail("%s: %s has a box from %v of width %v", x, name, h.Origin, h.Width)
			return
		}
		crosses = crosses || o+s > w
		// Offsets from the origin, counting rounding below it as zero.
		lo, hi := math.Inf(1), math.Inf(-1)
		span := minSpan(xs, d, w)
		for i := range xs {
			r := rx.Mod(float64(xs[i][d])-o, w)
			if w-r <= tol {
				r -= w
			}
			if !(r <= s+tol) {
				t.Fail("%s: %s: node %d at %v is outside the box %v+%v", x, name, i, xs[i], h.Origin, h.Width)
				return
			}
			lo, hi = math.Min(lo, r), math.Max(hi, r)
		}
		if span < w*0.4999 && (hx.Off(lo, 0, tol) || hx.Off(hi, s, tol)) {
			t.Fail("%s: %s: box %v+%v is not tight: on axis %d the nodes span %g to %g of it", x, name, h.Origin, h.Width, d, lo, hi)
			return
		}
		vlo, vhi := vs[0][d], vs[0][d]
		for i := range vs {
			vlo, vhi = min(vlo, vs[i][d]), max(vhi, vs[i][d])
		}
		outside = outside || v0[d] < float64(vlo) || v0[d] > float64(vhi)
		if h.VelocityOrigin[d] != vlo || h.VelocityWidth[d] != vhi-vlo {
			t.Fail("%s: %s: velocity box %v+%v, but component %d spans [%g, %g]", x, name, h.VelocityOrigin, h.VelocityWidth, d, vlo, vhi)
			return
		}
	}
	t.Eval(crosses || outside)
	t.Outcome(fmt.Sprint(crosses, outside))
}

// minSpan is the width of the smallest periodic interval holding all nodes.
func minSpan(xs [][3]float32, d int, w float64) float64 {
	best := math.Inf(1)
	for i := range xs {
		hi := 0.0
		for j := range xs {
			hi = math.Max(hi, rx.Mod(float64(xs[j][d])-float64(xs[i][d]), w))
		}
		best = math.Min(best, hi)
	}
	return best
}
