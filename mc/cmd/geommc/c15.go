package main

import (
	"fmt"
	"math"

	"github.com/phil-mansfield/gotetra/render/geom"
	"verif/mc/hx"
)

const ruleC15 = "every pair of components from an alphabet with box faces, half widths and float neighbours, on each axis with partner components, for every operation in its three forms and every aliasing of output and operands; non-trivial when a periodic wrap is needed"

func alphabet(w float32, thorough bool) []float32 {
	up := func(x float32) float32 { return math.Nextafter32(x, float32(math.Inf(1))) }
	dn := func(x float32) float32 { return math.Nextafter32(x, float32(math.Inf(-1))) }
	a := []float32{0, up(0), w * 1e-9, w / 8, w / 4, w / 2, dn(w / 2), up(w / 2), w * 0.75, w * 0.9, dn(w), dn(dn(w)), w, w * 0.50001, w * 0.504, w * 0.002}
	if thorough {
		a = append(a, w/3, w/7, w*0.6, w*1e-4, w*0.999, w*0.3, w*0.1)
	}
	return a
}

func runC15(c *hx.C) {
	for _, w := range []float64{1, 64, 100, 62.5, 0.3, 1000.1} {
		w := w
		w32 := float32(w)
		alpha := alphabet(w32, c.Thorough())
		for axis := 0; axis < 3; axis++ {
			axis := axis
			c.Case(fmt.Sprintf("wrap/w%g/axis%d", w, axis), func(t *hx.T) {
				xs := append([]float32{}, alpha...)
				for _, a := range alpha {
					xs = append(xs, -a, a+w32)
				}
				xs = append(xs, w32, -w32)
				for _, x := range xs {
					if x < -w32 || x >= 2*w32 {
						continue
					}
					wrapOne(t, x, axis, w)
				}
			})
			for i := range alpha {
				i := i
				c.Case(fmt.Sprintf("pairs/w%g/axis%d/a%d", w, axis, i), func(t *hx.T) {
					for j := range alpha {
						for k := 0; k < len(alpha); k += 1 {
							v1, v2 := geom.Vec{}, geom.Vec{}
							v1[axis], v2[axis] = alpha[i], alpha[j]
							v1[(axis+1)%3], v2[(axis+1)%3] = alpha[k], alpha[(k*5+3)%len(alpha)]
							v1[(axis+2)%3], v2[(axis+2)%3] = alpha[(k*3+1)%len(alpha)], alpha[(k+j)%len(alpha)]
							vecOps(t, v1, v2, w)
							for d := 0; d < 3; d++ {
								v1[d] = -v1[d]
								v2[d] -= w32 / 3
							}
							algebra(t, v1, v2)
						}
					}
				})
			}
		}
	}
	// Points that left the box by up to half of it on either side, or by a whole
	// period on one.
	for _, w := range []float64{1, 64, 62.5, 0.3} {
		w := w
		w32 := float32(w)
		c.Case(fmt.Sprintf("images/w%g", w), func(t *hx.T) {
			alpha := alphabet(w32, c.Thorough())
			for _, a := range alpha {
				for _, b := range alpha {
					for _, s := range [][2]float32{{1, 0}, {-1, 0}, {0, 1}, {0, -1}, {0.5, -0.5}, {-0.5, 0.5}} {
						x, y := a+s[0]*w32, b+s[1]*w32
						if hx.Off(float64(x-y), 0, 2*w) {
							continue
						}
						vecOps(t, geom.Vec{x, b, a}, geom.Vec{y, a, b}, w)
						vecOps(t, geom.Vec{b, x, a}, geom.Vec{a, y, b}, w)
						vecOps(t, geom.Vec{a, b, x}, geom.Vec{b, a, y}, w)
					}
				}
			}
		})
	}
	c.Case("small-integers", func(t *hx.T) {
		n := []float32{-2, -1, 0, 1, 3}
		hx.Product([]int{5, 5, 5, 5, 5, 5}, func(s []int) {
			algebra(t, geom.Vec{n[s[0]], n[s[1]], n[s[2]]}, geom.Vec{n[s[3]], n[s[4]], n[s[5]]})
		})
	})
}

func wrapOne(t *hx.T, x float32, axis int, w float64) {
	w32 := float32(w)
	v := geom.Vec{w32 / 4, w32 / 4, w32 / 4}
	v[axis] = x
	in := v
	m := v.Mod(w)
	t.Eval(x < 0 || x >= w32)
	if v != in {
		t.Fail("Mod changes its receiver: %v", in)
	}
	for d := 0; d < 3; d++ {
		if m[d] < 0 || m[d] >= w32 {
			t.Fail("Mod of %v in a box of %v is %v, outside [0, width)", in, w32, *m)
			return
		}
		// Equivalent up to rounding to the box's precision.
		diff := (float64(m[d]) - float64(in[d])) / float64(w32)
		if hx.Off(diff, math.Round(diff), 1.2e-7) {
			t.Fail("Mod of %v in a box of %v is %v, not the same point", in, w32, *m)
			return
		}
		if in[d] >= 0 && in[d] < w32 && m[d] != in[d] {
			t.Fail("Mod moves %v, which is inside the box, to %v", in, *m)
			return
		}
	}
	self := in
	if r := self.ModSelf(w); r != &self || self != *m {
		t.Fail("ModSelf of %v gives %v, Mod %v", in, self, *m)
	}
	out := geom.Vec{9, 9, 9}
	src := in
	if r := src.ModAt(w, &out); r != &out || out != *m || src != in {
		t.Fail("ModAt of %v gives %v, Mod %v", in, out, *m)
	}
	t.Outcome(fmt.Sprint(*m))
}

// vecOps: periodic subtraction of points of the box.
func vecOps(t *hx.T, v1, v2 geom.Vec, w float64) {
	w32 := float64(float32(w))
	a, b := v1, v2
	r := a.Sub(&b, w)
	wrapped := false
	for d := 0; d < 3; d++ {
		exact := float64(v1[d]) - float64(v2[d])
		want := exact - w32*math.Round(exact/w32)
		if want != exact {
			wrapped = true
		}
		got := float64(r[d])
		if hx.Off(got, 0, w32/2*(1+2e-7)) {
			t.Fail("%v minus %v in a box of %g is %v: longer than half the box", v1, v2, w, *r)
			return
		}
		if e := math.Abs(got - want); !(e <= 2e-7*w32) && hx.Off(e, w32, 2e-7*w32) {
			t.Fail("%v minus %v in a box of %g is %v, want component %d to be %g", v1, v2, w, *r, d, want)
			return
		}
	}
	t.Eval(wrapped)
	if a != v1 || b != v2 {
		t.Fail("Sub changes its operands %v %v", v1, v2)
	}
	forms(t, "Sub", v1, v2, *r,
		func(a, b *geom.Vec) *geom.Vec { return a.SubSelf(b, w) },
		func(a, b, out *geom.Vec) *geom.Vec { return a.SubAt(b, w, out) })
	t.Outcome(fmt.Sprint(*r))
}

// forms checks the in-place and explicit-output forms of a binary operation.
func forms(t *hx.T, name string, v1, v2, want geom.Vec, self func(a, b *geom.Vec) *geom.Vec, at func(a, b, out *geom.Vec) *geom.Vec) {
	a, b := v1, v2
	if r := self(&a, &b); r != &a || a != want || b != v2 {
		t.Fail("%sSelf(%v, %v) gives %v and leaves %v; %s gives %v", name, v1, v2, a, b, name, want)
	}
	a, b = v1, v2
	out := geom.Vec{7, 8, 9}
	if r := at(&a, &b, &out); r != &out || out != want || a != v1 || b != v2 {
		t.Fail("%sAt(%v, %v) gives %v and leaves %v %v; %s gives %v", name, v1, v2, out, a, b, name, want)
	}
	a, b = v1, v2
	if r := at(&a, &b, &b); r != &b || b != want || a != v1 {
		t.Fail("%sAt(%v, %v) with the argument as output gives %v; %s gives %v", name, v1, v2, b, name, want)
	}
	a, b = v1, v2
	if r := at(&a, &b, &a); r != &a || a != want || b != v2 {
		t.Fail("%sAt(%v, %v) with the receiver as output gives %v; %s gives %v", name, v1, v2, a, name, want)
	}
}

func algebra(t *hx.T, v1, v2 geom.Vec) {
	a, b := v1, v2
	f := func(v geom.Vec) [3]float64 { return [3]float64{float64(v[0]), float64(v[1]), float64(v[2])} }
	x, y := f(v1), f(v2)
	n1 := math.Abs(x[0]) + math.Abs(x[1]) + math.Abs(x[2])
	n2 := math.Abs(y[0]) + math.Abs(y[1]) + math.Abs(y[2])
	near := func(got, want, scale float64) bool { return math.Abs(got-want) <= 1e-6*scale+1e-37 }
	t.Eval(n1 > 0 && n2 > 0)

	add := a.Add(&b)
	for d := 0; d < 3; d++ {
		if !near(float64(add[d]), x[d]+y[d], math.Abs(x[d])+math.Abs(y[d])) {
			t.Fail("%v + %v = %v", v1, v2, *add)
		}
	}
	forms(t, "Add", v1, v2, *add, (*geom.Vec).AddSelf, func(a, b, out *geom.Vec) *geom.Vec { return a.AddAt(b, out) })

	dot := a.Dot(&b)
	if !near(dot, x[0]*y[0]+x[1]*y[1]+x[2]*y[2], n1*n2) {
		t.Fail("%v . %v = %g", v1, v2, dot)
	}
	if nn := a.Norm(); !near(nn, math.Sqrt(x[0]*x[0]+x[1]*x[1]+x[2]*x[2]), n1) {
		t.Fail("norm of %v = %g", v1, nn)
	}

	cr := a.Cross(&b)
	want := [3]float64{x[1]*y[2] - x[2]*y[1], x[2]*y[0] - x[0]*y[2], x[0]*y[1] - x[1]*y[0]}
	for d := 0; d < 3; d++ {
		if !near(float64(cr[d]), want[d], n1*n2) {
			t.Fail("%v x %v = %v, want %v", v1, v2, *cr, want)
			break
		}
	}
	forms(t, "Cross", v1, v2, *cr, (*geom.Vec).CrossSelf, func(a, b, out *geom.Vec) *geom.Vec { return a.CrossAt(b, out) })

	for _, k := range []float64{0, 1, -2.5, 1e-3} {
		s := a.Scale(k)
		for d := 0; d < 3; d++ {
			if !near(float64(s[d]), x[d]*k, math.Abs(x[d]*k)) {
				t.Fail("%g * %v = %v", k, v1, *s)
			}
		}
		forms(t, "Scale", v1, v2, *s,
			func(a, b *geom.Vec) *geom.Vec { return a.ScaleSelf(k) },
			func(a, b, out *geom.Vec) *geom.Vec { return a.ScaleAt(k, out) })
	}
	if a != v1 || b != v2 {
		t.Fail("operands %v %v became %v %v", v1, v2, a, b)
	}
}
