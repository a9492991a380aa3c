package main

import (
	"fmt"

	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/geom"
	"verif/mc/hx"
)

const ruleC17 = "every sequence of deposits, clears, re-slices, grid changes, readings and vector assignments up to a bound, on every kind of buffer; the finalized values after the last step are compared with a plain array model; non-trivial when two kinds of step are in the sequence"

var bufOps = []string{"depA", "depB", "many", "clear", "small", "large", "late", "read"}

type grid17 struct {
	g  grid16
	gl *geom.GridLocation
}

func newGrid17(w int, whole bool) grid17 {
	g := grid16{[3]int{w, w, w}, true, 0}
	if whole {
		g.whole = w
	}
	return grid17{g, g.loc()}
}

// bufModel is the plain model: the whole backing array and the window.
type bufModel struct {
	sum    [][3]float64
	num    []int
	lo, hi int
	g      grid17
}

func runC17(c *hx.C) {
	depth := c.Pick(4, 5)
	for q := density.Density; q < density.EndQuantity; q++ {
		for o := range bufOps {
			for o2 := range bufOps {
				for _, whole := range []bool{true, false} {
					q, o, o2, whole := q, o, o2, whole
					c.Case(fmt.Sprintf("history/%d/%s-%s/whole%v", q, bufOps[o], bufOps[o2], whole), func(t *hx.T) {
						hx.Seqs(len(bufOps), depth-2, func(h []int) {
							if !t.Failed() {
								bufHistory(t, q, append([]int{o, o2}, h...), whole)
							}
						})
					})
				}
			}
		}
	}
	c.Case("kinds", kinds)
	for n := 0; n < 70; n++ {
		n := n
		c.Case(fmt.Sprintf("lengths/%d", n), func(t *hx.T) { lengths(t, n) })
	}
}

func scalarQ(q density.Quantity) bool {
	return q == density.Density || q == density.DensityGradient
}

func bufHistory(t *hx.T, q density.Quantity, h []int, whole bool) {
	small, large := newGrid17(5, whole), newGrid17(6, whole)
	n := 260
	buf := density.NewBuffer(q, n, 8, small.gl)
	m := &bufModel{make([][3]float64, n), make([]int, n), 0, n, small}
	resize := func(lo int, g grid17) bool {
		v := g.gl.Volume
		if m.lo+lo+v > n {
			return false
		}
		buf.Slice(lo, lo+v)
		buf.SetGridLocation(g.gl)
		m.lo, m.hi, m.g = m.lo+lo, m.lo+lo+v, g
		return true
	}
	resize(0, small)
	dep := func(i int, v [3]float64) {
		if s, ok := buf.ScalarBuffer(); ok {
			s[i] += v[0]
			m.sum[m.lo+i][0] += v[0]
		} else {
			vs, _ := buf.VectorBuffer()
			num, ok := buf.CountBuffer()
			if !ok {
				t.Fail("quantity %d: no counts", q)
				return
			}
			for d := range v {
				vs[i][d] += v[d]
				m.sum[m.lo+i][d] += v[d]
			}
			num[i]++
			m.num[m.lo+i]++
		}
	}
	kindsSeen := map[int]bool{}
	names := []string{}
	for _, k := range h {
		names = append(names, bufOps[k])
		kindsSeen[k] = true
		t.Trans(1)
		switch bufOps[k] {
		case "depA":
			dep(0, [3]float64{1.5, -2, 3})
		case "depB":
			dep(m.hi-m.lo-1, [3]float64{-0.5, 4, 0.25})
		case "many":
			for i := 0; i < 40; i++ {
				dep((i*i*3+7)%(m.hi-m.lo), [3]float64{float64(i%7) - 3, float64(i % 5), float64(i%3) + 0.5})
			}
		case "clear":
			buf.Clear()
			for i := m.lo; i < m.hi; i++ {
				m.sum[i], m.num[i] = [3]float64{}, 0
			}
		case "small":
			resize(0, small)
		case "large":
			resize(0, large)
		case "late":
			resize(11, m.g)
		case "read":
			buf.FinalizedScalarBuffer()
			buf.FinalizedVectorBuffer()
			buf.CountBuffer()
			buf.Length()
		}
	}
	t.Eval(len(kindsSeen) > 1)
	t.Trace()
	t.State(fmt.Sprint(q, whole, m.lo, m.hi, m.num, m.sum))
	compare(t, fmt.Sprintf("quantity %d, whole %v, after %v", q, whole, names), q, buf, m)
}

func compare(t *hx.T, what string, q density.Quantity, buf density.Buffer, m *bufModel) {
	n := m.hi - m.lo
	if buf.Length() != n {
		t.Fail("%s: length %d, want %d", what, buf.Length(), n)
		return
	}
	if buf.Quantity() != q {
		t.Fail("%s: quantity %d", what, buf.Quantity())
	}
	comp := func(k int) []float64 {
		out := make([]float64, n)
		for i := range out {
			out[i] = m.sum[m.lo+i][k]
			if !scalarQ(q) {
				if c := m.num[m.lo+i]; c > 0 {
					out[i] /= float64(c)
				} else {
					out[i] = 0
				}
			}
		}
		return out
	}
	d := func(k, axis int) []float64 { return m.g.g.ref(comp(k), axis, 4) }
	var want [][]float64
	switch q {
	case density.Density:
		want = [][]float64{comp(0)}
	case density.DensityGradient:
		want = [][]float64{d(0, 0), d(0, 1), d(0, 2)}
	case density.Velocity:
		want = [][]float64{comp(0), comp(1), comp(2)}
	case density.VelocityDivergence:
		a, b, c := d(0, 0), d(1, 1), d(2, 2)
		for i := range a {
			a[i] += b[i] + c[i]
		}
		want = [][]float64{a}
	case density.VelocityCurl:
		for k := 0; k < 3; k++ {
			a, b := d((k+2)%3, (k+1)%3), d((k+1)%3, (k+2)%3)
			for i := range a {
				a[i] -= b[i]
			}
			want = append(want, a)
		}
	}
	var got [][]float32
	s, sok := buf.FinalizedScalarBuffer()
	xs, ys, zs, vok := buf.FinalizedVectorBuffer()
	if sok {
		got = [][]float32{s}
	}
	if vok {
		got = append(got, xs, ys, zs)
	}
	if len(got) != len(want) {
		t.Fail("%s: %d finalized components, want %d", what, len(got), len(want))
		return
	}
	for k := range want {
		if len(got[k]) != n {
			t.Fail("%s: %d finalized values, want %d", what, len(got[k]), n)
			return
		}
		for i := range want[k] {
			if hx.Off(float64(got[k][i]), want[k][i], 2e-4) {
				t.Fail("%s: component %d at %d is %g, want %g", what, k, i, got[k][i], want[k][i])
				return
			}
		}
	}
	if num, ok := buf.CountBuffer(); ok {
		for i := range num {
			if num[i] != m.num[m.lo+i] {
				t.Fail("%s: %d samples at %d, want %d", what, num[i], i, m.num[m.lo+i])
				return
			}
		}
	} else if !scalarQ(q) {
		t.Fail("%s: no counts", what)
	}
}

// lengths: buffers of every small length, with no, one or two samples a pixel.
func lengths(t *hx.T, n int) {
	for _, q := range []density.Quantity{density.Density, density.Velocity} {
		buf := density.NewBuffer(q, n, 8, nil)
		m := &bufModel{make([][3]float64, n), make([]int, n), 0, n, grid17{}}
		for i := 0; i < n; i++ {
			for k := 0; k < i%3; k++ {
				v := [3]float64{float64(i - 3), float64(k) + 0.5, -float64(i * k)}
				for d := range v {
					m.sum[i][d] += v[d]
				}
				m.num[i]++
				if q == density.Density {
					s, _ := buf.ScalarBuffer()
					s[i] += v[0]
				} else {
					vs, _ := buf.VectorBuffer()
					num, _ := buf.CountBuffer()
					for d := range v {
						vs[i][d] += v[d]
					}
					num[i]++
				}
			}
		}
		t.Eval(n > 0)
		compare(t, fmt.Sprintf("quantity %d, length %d", q, n), q, buf, m)
	}
}

func kinds(t *hx.T) {
	names := map[string]bool{}
	for q := density.Density; q < density.EndQuantity; q++ {
		t.Eval(true)
		s := q.String()
		if r, ok := density.QuantityFromString(s); !ok || r != q || names[s] {
			t.Fail("quantity %d is called %s, which is quantity %d", q, s, r)
		}
		names[s] = true
		if q.RequiresVelocity() != !scalarQ(q) {
			t.Fail("%s requires velocities: %v", s, q.RequiresVelocity())
		}
		if q.CanProject() != (q == density.Density || q == density.Velocity) {
			t.Fail("%s can be projected: %v", s, q.CanProject())
		}
		g := newGrid17(5, true)
		b := density.NewBuffer(q, 125, 8, g.gl)
		if b.Quantity() != q || b.Length() != 125 {
			t.Fail("a new buffer of %s is of %d, length %d", s, b.Quantity(), b.Length())
		}
		_, sok := b.FinalizedScalarBuffer()
		_, _, _, vok := b.FinalizedVectorBuffer()
		scalar := q == density.Density || q == density.VelocityDivergence
		if sok != scalar || vok == scalar {
			t.Fail("%s is a scalar: %v, a vector: %v", s, sok, vok)
		}
		// Sample vectors are converted component by component.
		vecs := []geom.Vec{{1, -2, 3}, {0.5, 4, -7}, {9, 8, 6}}
		if b.SetVectors(vecs) != !scalarQ(q) {
			t.Fail("%s takes vectors: %v", s, scalarQ(q))
		}
		if vs, ok := b.VectorBuffer(); ok {
			for i := range vecs {
				for d := range vecs[i] {
					if vs[i][d] != float64(vecs[i][d]) {
						t.Fail("%s: vector %v is set as %v", s, vecs[i], vs[i])
					}
				}
			}
		} else if !scalarQ(q) {
			t.Fail("%s has no vectors", s)
		}
	}
	for _, s := range []string{"", "density", "Velocit", "Density ", "VelocityVelocity"} {
		if q, ok := density.QuantityFromString(s); ok {
			t.Fail("%q is quantity %d", s, q)
		}
	}
	b := density.WrapperDensityBuffer([]float64{1, 2})
	b.Slice(1, 2)
	if v, ok := b.FinalizedScalarBuffer(); !ok || len(v) != 1 || v[0] != 2 || b.Quantity() != density.Density {
		t.Fail("a wrapped density buffer gives %v", v)
	}
	for _, q := range []density.Quantity{-1, density.EndQuantity} {
		if hx.Try(func() { density.NewBuffer(q, 1, 1, nil) }) == nil {
			t.Fail("quantity %d is accepted", q)
		}
	}
}
