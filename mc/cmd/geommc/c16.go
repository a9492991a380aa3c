package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/phil-mansfield/gotetra/render/geom"
	"verif/mc/hx"
)

const ruleC16 = "every grid shape, axis, order, boundary and mode with every delta field (a dozen for grids of over 1000 cells) (which decides all fields, the operators being linear) and every monomial up to the order; every sequence of calls up to a bound sharing one options object; every index of every grid and origin; non-trivial when the axis is not the first, or an edge is crossed"

type grid16 struct {
	w        [3]int
	periodic bool
	whole    int // the axes which span the box are those of width whole; 0: none
}

func (g grid16) loc() *geom.GridLocation {
	cells := g.whole
	if cells == 0 {
		cells = 97
	}
	return geom.NewGridLocation([3]int{3, 5, 7}, g.w, 12.5*float64(cells)/10, cells)
}

const dx16 = 1.25

func (g grid16) wraps(axis int) bool { return g.periodic && g.whole == g.w[axis] }

// refused says whether the stencil does not fit.
func (g grid16) refused(axis, order int) bool {
	if order == 2 {
		return g.w[axis] < 3
	}
	if g.wraps(axis) {
		return g.w[axis] < 4
	}
	return g.w[axis] < 5
}

// ref differentiates f at a position along one axis.
func (g grid16) ref(f []float64, axis, order int) []float64 {
	step := []int{1, g.w[0], g.w[0] * g.w[1]}[axis]
	n := g.w[axis]
	out := make([]float64, len(f))
	for i := range f {
		p := i / step % n
		row := i - p*step
		at := func(k int) float64 { return f[row+((k%n)+n)%n*step] }
		h := order / 2
		first := p - h // leftmost point of the stencil
		if !g.wraps(axis) {
			if first < 0 {
				first = 0
			}
			if first+order >= n {
				first = n - 1 - order
			}
		}
		// Lagrange: derivative at p of the polynomial through order+1 points.
		s := 0.0
		for j := 0; j <= order; j++ {
			xj := float64(first + j - p)
			cj := 0.0
			for m := 0; m <= order; m++ {
				if m == j {
					continue
				}
				term := 1 / (xj - float64(first+m-p))
				for k := 0; k <= order; k++ {
					if k != j && k != m {
						xk := float64(first + k - p)
						term *= (0 - xk) / (xj - xk)
					}
				}
				cj += term
			}
			s += cj * at(first+j)
		}
		out[i] = s / dx16
	}
	return out
}

func runC16(c *hx.C) {
	shapes := [][3]int{{5, 5, 5}, {6, 5, 7}, {7, 6, 5}, {3, 4, 5}, {5, 3, 4}, {4, 5, 3}, {1, 6, 2}, {6, 1, 1}, {2, 2, 6}, {8, 8, 8}, {4, 4, 4}, {3, 3, 3}}
	if c.Thorough() {
		shapes = append(shapes, [3]int{9, 10, 11}, [3]int{12, 5, 3}, [3]int{3, 12, 5}, [3]int{5, 3, 12}, [3]int{1, 1, 9}, [3]int{10, 10, 10})
	}
	for _, w := range shapes {
		for _, per := range []bool{false, true} {
			wholes := map[int]bool{0: true, w[0]: true, w[1]: true, w[2]: true}
			for whole := range wholes {
				for axis := 0; axis < 3; axis++ {
					for _, order := range []int{2, 4} {
						g := grid16{w, per, whole}
						axis, order := axis, order
						c.Case(fmt.Sprintf("deriv/%v/periodic%v/cells%d/axis%d/order%d", w, per, whole, axis, order), func(t *hx.T) {
							derivCase(t, g, axis, order)
						})
					}
				}
			}
		}
	}
	for _, w := range [][3]int{{5, 6, 7}, {7, 5, 6}, {6, 6, 6}} {
		for _, per := range []bool{false, true} {
			for _, whole := range []int{0, 6} {
				for _, order := range []int{2, 4} {
					for op := geom.Add; op <= geom.None; op++ {
						g := grid16{w, per, whole}
						order, op := order, op
						c.Case(fmt.Sprintf("ops/%v/periodic%v/cells%d/order%d/mode%d", w, per, whole, order, op), func(t *hx.T) {
							opsCase(t, g, order, op)
						})
					}
				}
			}
		}
	}
	for _, w := range [][3]int{{65, 5, 6}, {5, 65, 6}, {6, 5, 65}, {129, 1, 4}, {4, 129, 1}, {1, 4, 129}, {17, 20, 33}} {
		for _, whole := range []int{0, 65, 129, 33} {
			for axis := 0; axis < 3; axis++ {
				for _, order := range []int{2, 4} {
					g := grid16{w, true, whole}
					axis, order := axis, order
					c.Case(fmt.Sprintf("long/%v/cells%d/axis%d/order%d", w, whole, axis, order), func(t *hx.T) {
						derivCase(t, g, axis, order)
					})
				}
			}
		}
	}
	depth := c.Pick(3, 4)
	for a := range derivCalls {
		for b := range derivCalls {
			a, b := a, b
			c.Case(fmt.Sprintf("history/%s-%s", derivCalls[a], derivCalls[b]), func(t *hx.T) {
				hx.Seqs(len(derivCalls), depth-2, func(h []int) { derivHistory(t, append([]int{a, b}, h...)) })
			})
		}
	}
	c.Case("refused", func(t *hx.T) {
		g := grid16{[3]int{6, 6, 6}, false, 0}
		f := make([]float32, 216)
		o := make([]float32, 216)
		for _, axis := range []int{-1, 3, 4} {
			t.Eval(true)
			if hx.Try(func() { g.loc().Deriv(f, o, axis, nil) }) == nil {
				t.Fail("axis %d is accepted", axis)
			}
		}
		for _, order := range []int{-2, 0, 1, 3, 5, 6} {
			t.Eval(true)
			if hx.Try(func() { g.loc().Deriv(f, o, 0, &geom.DerivOptions{Op: geom.None, Order: order}) }) == nil {
				t.Fail("order %d is accepted", order)
			}
		}
	})
	for _, o := range [][3]int{{0, 0, 0}, {3, 5, 7}, {-4, 0, 2}, {1, -1, -9}} {
		for _, w := range [][3]int{{1, 1, 1}, {2, 3, 4}, {4, 3, 2}, {5, 5, 5}, {1, 7, 2}, {64, 3, 2}, {33, 40, 65}} {
			o, w := o, w
			c.Case(fmt.Sprintf("index/%v/%v", o, w), func(t *hx.T) { indexCase(t, o, w) })
		}
	}
}

func derivCase(t *hx.T, g grid16, axis, order int) {
	n := g.w[0] * g.w[1] * g.w[2]
	// A stencil which does not fit is refused, and nothing is written.
	if g.refused(axis, order) {
		f, o := make([]float32, n), make([]float32, n)
		for i := range f {
			f[i], o[i] = float32(i*i%7), 42
		}
		t.Eval(true)
		if hx.Try(func() {
			g.loc().Deriv(f, o, axis, &geom.DerivOptions{Periodic: g.periodic, Op: geom.None, Order: order})
		}) == nil {
			t.Fail("grid %v axis %d order %d: the stencil does not fit, the call is accepted", g, axis, order)
		}
		return
	}
	fields := [][]float64{}
	every := 1
	if n > 1000 {
		every = n / 12
	}
	for i := 0; i < n; i += every {
		f := make([]float64, n)
		f[i] = 1
		fields = append(fields, f)
	}
	for p := 0; p <= order; p++ {
		f := make([]float64, n)
		for i := range f {
			x := []int{i % g.w[0], i / g.w[0] % g.w[1], i / (g.w[0] * g.w[1])}
			f[i] = math.Pow(float64(x[axis]), float64(p)) * float64(1+x[(axis+1)%3]+2*x[(axis+2)%3])
		}
		fields = append(fields, f)
	}
	for k, f := range fields {
		in := make([]float32, n)
		for i := range f {
			in[i] = float32(f[i])
		}
		want := g.ref(f, axis, order)
		for op := geom.Add; op <= geom.None; op++ {
			out := make([]float32, n)
			for i := range out {
				out[i] = float32(i%5) - 2
			}
			src := append([]float32{}, in...)
			opt := &geom.DerivOptions{Periodic: g.periodic, Op: op, Order: order}
			g.loc().Deriv(src, out, axis, opt)
			t.Eval(axis > 0 || !g.wraps(axis))
			sc := 0.0
			for i := range f {
				sc = math.Max(sc, math.Abs(f[i]))
			}
			for i := range out {
				w := want[i]
				if op == geom.Add {
					w = float64(i%5) - 2 + w
				} else if op == geom.Subtract {
					w = float64(i%5) - 2 - w
				}
				if hx.Off(float64(out[i]), w, 1e-5*(sc+2)) {
					t.Fail("grid %v axis %d order %d mode %d field %d: derivative at index %d is %g, want %g", g, axis, order, op, k, i, out[i], w)
					return
				}
				if src[i] != in[i] {
					t.Fail("grid %v axis %d order %d: the field is changed", g, axis, order)
					return
				}
			}
			if *opt != (geom.DerivOptions{Periodic: g.periodic, Op: op, Order: order}) {
				t.Fail("the options are changed to %v", *opt)
				return
			}
		}
		t.Outcome(fmt.Sprint(want))
	}
}

// The vector operators on fields with one delta in one component, and on a
// field with all components.
func opsCase(t *hx.T, g grid16, order int, op geom.DerivOp) {
	n := g.w[0] * g.w[1] * g.w[2]
	for comp := 0; comp < 4; comp++ {
		step := 1
		if comp < 3 {
			step = 7
		}
		for at := comp % 3; at < n; at += step * 3 {
			f := [3][]float64{}
			in := [3][]float32{}
			for k := range f {
				f[k], in[k] = make([]float64, n), make([]float32, n)
				if k == comp {
					f[k][at] = 1
				} else if comp == 3 {
					for i := range f[k] {
						f[k][i] = float64((i*(k+3)+at*k)%11) - 4
					}
				}
				for i := range f[k] {
					in[k][i] = float32(f[k][i])
				}
			}
			d := func(k, axis int) []float64 { return g.ref(f[k], axis, order) }
			var curl, grad [3][]float64
			div := make([]float64, n)
			for k := 0; k < 3; k++ {
				a, b := d((k+2)%3, (k+1)%3), d((k+1)%3, (k+2)%3)
				curl[k] = make([]float64, n)
				dk := d(k, k)
				for i := range div {
					curl[k][i] = a[i] - b[i]
					div[i] += dk[i]
				}
				grad[k] = d(0, k)
			}
			opt := &geom.DerivOptions{Periodic: g.periodic, Op: op, Order: order}
			run := func(name string, want [][]float64, f func(out [3][]float32, opt *geom.DerivOptions)) bool {
				out := [3][]float32{}
				for k := range out {
					out[k] = make([]float32, n)
					for i := range out[k] {
						out[k][i] = float32((i+k)%5) - 2
					}
				}
				f(out, opt)
				t.Eval(op != geom.None || comp != 0)
				for k := range want {
					for i, w := range want[k] {
						base := float64((i+k)%5) - 2
						switch op {
						case geom.Add:
							w = base + w
						case geom.Subtract:
							w = base - w
						}
						if hx.Off(float64(out[k][i]), w, 2e-4) {
							t.Fail("%s on grid %v order %d mode %d: component %d at %d is %g, want %g", name, g, order, op, k, i, out[k][i], w)
							return false
						}
					}
				}
				if *opt != (geom.DerivOptions{Periodic: g.periodic, Op: op, Order: order}) {
					t.Fail("%s changes the options to %v", name, *opt)
					return false
				}
				for k := range in {
					for i := range in[k] {
						if in[k][i] != float32(f0(comp, k, at, i)) {
							t.Fail("%s changes its input", name)
							return false
						}
					}
				}
				return true
			}
			loc := g.loc()
			if !run("Gradient", grad[:], func(o [3][]float32, opt *geom.DerivOptions) { loc.Gradient(in[0], o, opt) }) ||
				!run("Divergence", [][]float64{div}, func(o [3][]float32, opt *geom.DerivOptions) { loc.Divergence(in, o[0], opt) }) ||
				!run("Curl", curl[:], func(o [3][]float32, opt *geom.DerivOptions) { loc.Curl(in, o, opt) }) {
				return
			}
		}
	}
}

func f0(comp, k, at, i int) float64 {
	if k == comp {
		if i == at {
			return 1
		}
		return 0
	}
	if comp == 3 {
		return float64((i*(k+3)+at*k)%11) - 4
	}
	return 0
}

var derivCalls = []string{"deriv0", "deriv2", "grad", "div", "curl", "deriv0/nil", "grad/nil", "div/nil", "curl/nil"}

// derivHistory: every call gives what it gives alone, whatever ran before.
func derivHistory(t *hx.T, h []int) {
	g := grid16{[3]int{5, 6, 7}, true, 6}
	n := 5 * 6 * 7
	var in [3][]float32
	for k := range in {
		in[k] = make([]float32, n)
		for i := range in[k] {
			in[k][i] = float32((i*(k+2)*7+i*i)%13) - 5
		}
	}
	def := *geom.DerivOptionsDefault
	defer func() { *geom.DerivOptionsDefault = def }()
	call := func(name string, opt *geom.DerivOptions) string {
		out := [3][]float32{}
		for k := range out {
			out[k] = make([]float32, n)
			for i := range out[k] {
				out[k][i] = float32(i % 3)
			}
		}
		loc := g.loc()
		switch strings.TrimSuffix(name, "/nil") {
		case "deriv0":
			loc.Deriv(in[0], out[0], 0, opt)
		case "deriv2":
			loc.Deriv(in[0], out[0], 2, opt)
		case "grad":
			loc.Gradient(in[0], out, opt)
		case "div":
			loc.Divergence(in, out[0], opt)
		case "curl":
			loc.Curl(in, out, opt)
		}
		return fmt.Sprint(out)
	}
	for _, op := range []geom.DerivOp{geom.None, geom.Add} {
		shared := &geom.DerivOptions{Periodic: true, Op: op, Order: 2}
		for i, k := range h {
			name := derivCalls[k]
			var got, want string
			if strings.HasSuffix(name, "/nil") {
				got = call(name, nil)
				own := def
				want = call(strings.TrimSuffix(name, "/nil"), &own)
			} else {
				got = call(name, shared)
				want = call(name, &geom.DerivOptions{Periodic: true, Op: op, Order: 2})
			}
			t.Trans(1)
			t.Eval(i > 0)
			if got != want {
				names := []string{}
				for _, j := range h[:i+1] {
					names = append(names, derivCalls[j])
				}
				t.Fail("mode %d: the last of the calls %v does not give what it gives alone", op, names)
				return
			}
		}
		t.Trace()
		t.State(fmt.Sprint(op, h))
		if *shared != (geom.DerivOptions{Periodic: true, Op: op, Order: 2}) || *geom.DerivOptionsDefault != def {
			t.Fail("options are changed: %v, default %v", *shared, *geom.DerivOptionsDefault)
			return
		}
	}
}

func indexCase(t *hx.T, o, w [3]int) {
	g := geom.NewGrid(o, w)
	seen := map[int]bool{}
	if g.Volume != w[0]*w[1]*w[2] {
		t.Fail("grid of width %v has volume %d", w, g.Volume)
	}
	for z := o[2] - 2; z <= o[2]+w[2]+1; z++ {
		for y := o[1] - 2; y <= o[1]+w[1]+1; y++ {
			for x := o[0] - 2; x <= o[0]+w[0]+1; x++ {
				in := x >= o[0] && x < o[0]+w[0] && y >= o[1] && y < o[1]+w[1] && z >= o[2] && z < o[2]+w[2]
				idx, ok := g.IdxCheck(x, y, z)
				t.Eval(!in || o != [3]int{})
				if ok != in || g.BoundsCheck(x, y, z) != in {
					t.Fail("origin %v width %v: (%d, %d, %d) inside is %v, want %v", o, w, x, y, z, ok, in)
					return
				}
				if !in {
					continue
				}
				if want := (x - o[0]) + w[0]*((y-o[1])+w[1]*(z-o[2])); idx != want || g.Idx(x, y, z) != idx || seen[idx] {
					t.Fail("origin %v width %v: index of (%d, %d, %d) is %d", o, w, x, y, z, idx)
					return
				}
				seen[idx] = true
				if a, b, c := g.Coords(idx); a != x || b != y || c != z {
					t.Fail("origin %v width %v: index %d is (%d, %d, %d), its coordinates are (%d, %d, %d)", o, w, idx, x, y, z, a, b, c)
					return
				}
			}
		}
	}
}
