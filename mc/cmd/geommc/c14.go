package main

import (
	"fmt"
	"math"

	"github.com/phil-mansfield/gotetra/math/rand"
	"github.com/phil-mansfield/gotetra/render/geom"
	"verif/mc/hx"
)

const ruleC14 = "every ordered set of four corners from small lattices (degenerate and both orientations included), at several offsets and scales, with every query point of a finer lattice; every sequence of operations up to a bound on one reused object; every sample of a unit-cube lattice; non-trivial when the tetrahedron has volume"

func fdet(a, b, c [3]float64) float64 {
	return a[0]*(b[1]*c[2]-b[2]*c[1]) - a[1]*(b[0]*c[2]-b[2]*c[0]) + a[2]*(b[0]*c[1]-b[1]*c[0])
}

func fsub(a, b geom.Vec) [3]float64 {
	return [3]float64{float64(a[0]) - float64(b[0]), float64(a[1]) - float64(b[1]), float64(a[2]) - float64(b[2])}
}

func vol6(c [4]geom.Vec) float64 {
	return fdet(fsub(c[1], c[0]), fsub(c[2], c[0]), fsub(c[3], c[0]))
}

// bary gives exact-enough barycentric coordinates of p.
func bary(c [4]geom.Vec, p geom.Vec) [4]float64 {
	full := vol6(c)
	out := [4]float64{}
	for a := range out {
		q := c
		q[a] = p
		out[a] = vol6(q) / full
	}
	return out
}

func runC14(c *hx.C) {
	n := 2
	lat := []geom.Vec{}
	for i := 0; i < n*n*n; i++ {
		lat = append(lat, geom.Vec{float32(i % n), float32(i / n % n), float32(i / n / n)})
	}
	// Points beyond the unit cube make thin and obtuse ones.
	lat = append(lat, geom.Vec{2, 1, 0}, geom.Vec{-1, 2, 3}, geom.Vec{0.5, 0.25, 1.5})
	if c.Thorough() {
		lat = append(lat, geom.Vec{3, 3, 1}, geom.Vec{-2, 0, -1}, geom.Vec{0.125, 4, 2})
	}
	type frame struct {
		off   geom.Vec
		scale float32
	}
	frames := []frame{{geom.Vec{}, 1}, {geom.Vec{16, -8, 32}, 4}, {geom.Vec{0.1, 0.2, 0.3}, 0.7}}
	for fi, f := range frames {
		pts := []geom.Vec{}
		for _, p := range lat {
			q := geom.Vec{}
			for d := range q {
				q[d] = p[d]*f.scale + f.off[d]
			}
			pts = append(pts, q)
		}
		for a := range pts {
			for b := range pts {
				fi, a, b, f, pts := fi, a, b, f, pts
				c.Case(fmt.Sprintf("shapes/frame%d/%d-%d", fi, a, b), func(t *hx.T) {
					reused := &geom.Tetra{}
					for cc := range pts {
						for d := range pts {
							shape(t, reused, [4]geom.Vec{pts[a], pts[b], pts[cc], pts[d]}, f.off, f.scale)
						}
					}
				})
			}
		}
	}
	depth := c.Pick(3, 4)
	for o := range tetOps {
		o := o
		c.Case("history/"+tetOps[o], func(t *hx.T) {
			hx.Seqs(len(tetOps), depth-1, func(h []int) { tetHistory(t, append([]int{o}, h...)) })
		})
	}
	for _, cw := range []float64{1, 0.5, 0.7, 3, 0.1} {
		cw := cw
		c.Case(fmt.Sprintf("cells/width%g", cw), func(t *hx.T) { cellEdges(t, cw) })
	}
	c.Case("unit", func(t *hx.T) { unitFold(t, c.Pick(24, 40)) })
	c.Case("random", func(t *hx.T) { randomSample(t) })
}

func shape(t *hx.T, tet *geom.Tetra, c [4]geom.Vec, off geom.Vec, scale float32) {
	tet.Init(&c[0], &c[1], &c[2], &c[3])
	v6 := vol6(c)
	s3 := math.Pow(float64(scale)*4, 3)
	t.Eval(v6 != 0)
	want := math.Abs(v6) / 6
	if got := tet.Volume(); hx.Off(got, want, 1e-5*want+2e-6*s3) {
		t.Fail("volume of %v is %g, want %g", c, got, want)
	}
	b := tet.Barycenter()
	for d := 0; d < 3; d++ {
		m, sc := 0.0, 0.0
		for k := range c {
			m += float64(c[k][d]) / 4
			sc += math.Abs(float64(c[k][d]))
		}
		if hx.Off(float64(b[d]), m, 1e-6*sc) {
			t.Fail("barycentre of %v is %v", c, *b)
			break
		}
	}
	// Cell bounds: the smallest block with every corner.
	for _, cw := range []float64{1, 0.5, 0.7, 3} {
		cb := tet.CellBounds(cw)
		at := &geom.CellBounds{}
		tet.CellBoundsAt(cw, at)
		if *cb != *at {
			t.Fail("CellBounds of %v is %v, CellBoundsAt %v", c, *cb, *at)
		}
		for d := 0; d < 3; d++ {
			lo, hi := math.Inf(1), math.Inf(-1)
			for k := range c {
				x := float64(c[k][d]) / cw
				lo, hi = math.Min(lo, x), math.Max(hi, x)
			}
			o, e := int(math.Floor(lo)), int(math.Floor(hi))
			if cb.Origin[d] != o || cb.Origin[d]+cb.Width[d]-1 != e {
				t.Fail("cells of width %g around %v: axis %d is %d+%d, the corners are in %d..%d", cw, c, d, cb.Origin[d], cb.Width[d], o, e)
				return
			}
		}
	}
	// Containment on a lattice which is finer than the corners'.
	if math.Abs(v6) > 1e-3*math.Pow(float64(scale), 3) {
		for i := -2; i <= 5; i++ {
			for j := -2; j <= 5; j++ {
				for k := -2; k <= 5; k++ {
					p := geom.Vec{off[0] + scale*(float32(i)*0.5-0.1), off[1] + scale*(float32(j)*0.5+0.15), off[2] + scale*(float32(k)*0.5-0.05)}
					w := bary(c, p)
					lo := math.Inf(1)
					for _, x := range w {
						lo = math.Min(lo, x)
					}
					if math.Abs(lo) < 2e-3 {
						continue // on the surface, or nearly
					}
					if got := tet.Contains(&p); got != (lo > 0) {
						t.Fail("%v contains %v: %v; barycentric coordinates %v", c, p, got, w)
						return
					}
				}
			}
		}
	}
	// Sampling is affine in the unit coordinates, for every buffer length.
	unit := []geom.Vec{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {0.25, 0.25, 0.25}, {0.5, 0.125, 0.25}, {0.125, 0.5, 0.0625}}
	out := make([]geom.Vec, len(unit))
	out64 := make([][3]float64, len(unit))
	tet.DistributeTetra(unit, out)
	tet.DistributeTetra64(unit, out64)
	for i, u := range unit {
		w := [4]float64{float64(u[0]), float64(u[1]), float64(u[2]), 1 - float64(u[0]) - float64(u[1]) - float64(u[2])}
		for d := 0; d < 3; d++ {
			x, sc := 0.0, 0.0
			for k := range c {
				x += w[k] * float64(c[k][d])
				sc += math.Abs(float64(c[k][d]))
			}
			if hx.Off(float64(out[i][d]), x, 2e-6*sc) || hx.Off(out64[i][d], x, 2e-6*sc) {
				t.Fail("sample %v of %v is %v and %v, want component %d to be %g", u, c, out[i], out64[i], d, x)
				return
			}
		}
	}
	t.Outcome(fmt.Sprintf("%.3g", v6))
}

var tetOps = []string{"A", "B", "vol", "in", "bary", "dist", "dist64", "cells", "cube"}

var tetA = [4]geom.Vec{{0, 0, 0}, {2, 0, 0}, {0, 3, 1}, {1, 1, 4}}
var tetB = [4]geom.Vec{{5, 5, 5}, {5, 6, 9}, {7, 5, 4}, {4, 4, 4}}

// tetHistory compares every answer of a reused object with that of a new one.
func tetHistory(t *hx.T, h []int) {
	tet := &geom.Tetra{}
	cur := tetA
	tet.Init(&cur[0], &cur[1], &cur[2], &cur[3])
	run := func(x *geom.Tetra, op string) string {
		p, q := geom.Vec{0.8, 0.9, 1.2}, geom.Vec{5.2, 5.0, 5.6}
		u := []geom.Vec{{0.1, 0.2, 0.3}, {0.5, 0.4, 0.05}}
		switch op {
		case "vol":
			return fmt.Sprint(x.Volume())
		case "in":
			return fmt.Sprint(x.Contains(&p), x.Contains(&q))
		case "bary":
			return fmt.Sprint(*x.Barycenter())
		case "dist":
			o := make([]geom.Vec, 2)
			x.DistributeTetra(u, o)
			return fmt.Sprint(o)
		case "dist64":
			o := make([][3]float64, 2)
			x.DistributeTetra64(u, o)
			return fmt.Sprint(o)
		case "cells":
			return fmt.Sprint(*x.CellBounds(0.75))
		case "cube":
			o := make([]geom.Vec, 2)
			x.Distribute([]float64{0.9, 0.3}, []float64{0.4, 0.8}, []float64{0.7, 0.95}, o)
			return fmt.Sprint(o)
		}
		return ""
	}
	for i, k := range h {
		op := tetOps[k]
		t.Trans(1)
		if op == "A" || op == "B" {
			cur = tetA
			if op == "B" {
				cur = tetB
			}
			tet.Init(&cur[0], &cur[1], &cur[2], &cur[3])
			continue
		}
		got := run(tet, op)
		want := run(geom.NewTetra(&cur[0], &cur[1], &cur[2], &cur[3]), op)
		t.Eval(i > 0)
		if got != want {
			t.Fail("after %v, %s gives %s, a new tetrahedron %s", names(h[:i]), op, got, want)
			return
		}
	}
	t.Trace()
	t.State(fmt.Sprint(names(h)))
	if tet.Corners != cur {
		t.Fail("after %v the corners are %v", names(h), tet.Corners)
	}
}

func names(h []int) []string {
	out := []string{}
	for _, k := range h {
		out = append(out, tetOps[k])
	}
	return out
}

// unitFold: the map from the unit cube to the unit tetrahedron lands inside it
// and preserves measure (all moments up to the third of the uniform
// distribution on the tetrahedron).
func unitFold(t *hx.T, n int) {
	for _, off := range [][3]float64{{0.2, 0.35, 0.15}, {0.7, 0.45, 0.9}} {
		mom := map[[3]int]float64{}
		var pts []geom.Vec
		xs, ys, zs := []float64{}, []float64{}, []float64{}
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				for k := 0; k < n; k++ {
					x, y, z := (float64(i)+off[0])/float64(n), (float64(j)+off[1])/float64(n), (float64(k)+off[2])/float64(n)
					pts = append(pts, geom.Vec{float32(x), float32(y), float32(z)})
					xs, ys, zs = append(xs, x), append(ys, y), append(zs, z)
				}
			}
		}
		raw := append([]geom.Vec{}, pts...)
		geom.DistributeUnit(pts)
		for i, p := range pts {
			s, u, v := float64(p[0]), float64(p[1]), float64(p[2])
			w := 1 - s - u - v
			t.Eval(raw[i] != p)
			if math.Min(math.Min(s, u), math.Min(v, w)) < -1e-6 {
				t.Fail("unit point %v goes to %v, outside the unit tetrahedron", raw[i], p)
				return
			}
			for a := 0; a <= 3; a++ {
				for b := 0; a+b <= 3; b++ {
					for c := 0; a+b+c <= 3; c++ {
						mom[[3]int{a, b, c}] += math.Pow(s, float64(a)) * math.Pow(u, float64(b)) * math.Pow(v, float64(c)) / float64(len(pts))
					}
				}
			}
		}
		fact := []float64{1, 1, 2, 6, 24, 120, 720}
		for k, got := range mom {
			want := 6 * fact[k[0]] * fact[k[1]] * fact[k[2]] / fact[k[0]+k[1]+k[2]+3]
			if hx.Off(got, want, 1.2/float64(n*n)+0.5*math.Abs(want)/float64(n)) {
				t.Fail("moment %v of the folded unit cube is %g, of the unit tetrahedron %g", k, got, want)
			}
		}
		// Distribute is the same fold followed by the affine map.
		for _, c := range [][4]geom.Vec{tetA, tetB} {
			tet := geom.NewTetra(&c[0], &c[1], &c[2], &c[3])
			a, b := make([]geom.Vec, len(pts)), make([]geom.Vec, len(pts))
			tet.Distribute(xs, ys, zs, a)
			tet.DistributeTetra(pts, b)
			for i := range a {
				for d := 0; d < 3; d++ {
					if hx.Off(float64(a[i][d]), float64(b[i][d]), 1e-4) {
						t.Fail("unit point %v: Distribute gives %v, DistributeUnit and DistributeTetra %v", raw[i], a[i], b[i])
						return
					}
				}
			}
		}
	}
}

func randomSample(t *hx.T) {
	for _, gt := range []rand.GeneratorType{rand.Xorshift, rand.Tausworthe, rand.Golang} {
		for seed := uint64(1); seed < 5; seed++ {
			gen := rand.New(gt, seed)
			for _, c := range [][4]geom.Vec{tetA, tetB, {tetB[1], tetB[0], tetB[2], tetB[3]}} {
				tet := geom.NewTetra(&c[0], &c[1], &c[2], &c[3])
				for n := 1; n < 70; n += 4 {
					out := make([]geom.Vec, n)
					tet.RandomSample(gen, make([]float64, 3*n), out)
					for _, p := range out {
						w := bary(c, p)
						t.Eval(true)
						for _, x := range w {
							if x < -1e-5 {
								t.Fail("sample %v of %v has barycentric coordinates %v", p, c, w)
								return
							}
						}
					}
				}
				for _, n := range []int{0, 1, 2, 4, 7} {
					if hx.Try(func() { tet.RandomSample(gen, make([]float64, n), make([]geom.Vec, 2)) }) == nil {
						t.Fail("a buffer of %d numbers is accepted for two points", n)
					}
				}
			}
		}
	}
}

// cellEdges: corners on and next to cell faces, on one axis at a time.
func cellEdges(t *hx.T, cw float64) {
	vals := []float32{}
	for _, k := range []float64{-3, -2, -1, -0.4, 0, 0.3, 1, 2, 3, 7, 20} {
		x := float32(k * cw)
		vals = append(vals, x, math.Nextafter32(x, 1e9), math.Nextafter32(x, -1e9))
	}
	for d := 0; d < 3; d++ {
		for _, a := range vals {
			for _, b := range vals {
				for _, m := range []float32{a, b, (a + b) / 2} {
					for r := 0; r < 4; r++ {
						xs := [4]float32{}
						xs[r], xs[(r+1)%4], xs[(r+2)%4], xs[(r+3)%4] = a, b, m, m
						c := [4]geom.Vec{}
						for k := range c {
							c[k] = geom.Vec{float32(k), 1, 2}
							c[k][d] = xs[k]
						}
						t.Eval(a != b)
						cb := geom.NewTetra(&c[0], &c[1], &c[2], &c[3]).CellBounds(cw)
						lo, hi := math.Min(float64(a), float64(b)), math.Max(float64(a), float64(b))
						o, e := int(math.Floor(lo/cw)), int(math.Floor(hi/cw))
						if cb.Origin[d] != o || cb.Origin[d]+cb.Width[d]-1 != e {
							t.Fail("cells of width %g around %v: axis %d is %d+%d, the corners are in %d..%d", cw, c, d, cb.Origin[d], cb.Width[d], o, e)
							return
						}
					}
				}
			}
		}
	}
}
