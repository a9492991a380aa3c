package main

import (
	"fmt"
	"math"

	"github.com/phil-mansfield/gotetra/math/interpolate"
	"github.com/phil-mansfield/gotetra/math/mat"
	"verif/mc/hx"
)

const ruleC28 = "every integer matrix over the stated entries up to 3x3, the 4x4 ones over two entries and every row order of larger ones, rotations of structured systems up to 40x40 (65x65), in both precisions, with every unit right-hand side, and every sequence of factorisations sharing storage; every pair of shapes for products; non-trivial when the factorisation must exchange rows or the matrix is singular"

// real is the linear algebra of one precision, in double precision terms.
type linalg struct {
	name string
	eps  float64
	// det, solve, inverse and the matrix forms; err is what they panic with.
	det     func(a []float64, n int) (float64, error)
	solve   func(a, b []float64, n int) ([]float64, error)
	solveM  func(a, b []float64, n int) ([]float64, error)
	inverse func(a []float64, n int) ([]float64, error)
	mult    func(a, b []float64, h, m, w int) ([]float64, error)
	// shared factors a sequence of matrices in one storage, and uses the last.
	shared func(as [][]float64, b []float64, n int) (x, x2, inv, bx []float64, det float64, err error)
}

func f32s(xs []float64) []float32 {
	out := make([]float32, len(xs))
	for i, x := range xs {
		out[i] = float32(x)
	}
	return out
}

func f64s(xs []float32) []float64 {
	out := make([]float64, len(xs))
	for i, x := range xs {
		out[i] = float64(x)
	}
	return out
}

// kept panics when an input that is no output changed.
func kept(what string, a, b []float64) {
	if !same(a, b) {
		panic(fmt.Sprintf("%s changed from %v to %v", what, b, a))
	}
}

func kept32(what string, a []float32, b []float64) { kept(what, f64s(a), b) }

var double = linalg{
	name: "double", eps: 1e-15,
	det: func(a []float64, n int) (d float64, err error) {
		err = hx.Try(func() {
			m := clone(a)
			d = mat.NewMatrix(m, n, n).Determinant()
			kept("the matrix", m, a)
		})
		return
	},
	solve: func(a, b []float64, n int) (x []float64, err error) {
		err = hx.Try(func() {
			m, v := clone(a), clone(b)
			x = mat.NewMatrix(m, n, n).SolveVector(v)
			kept("the matrix", m, a)
			kept("the right-hand side", v, b)
		})
		return
	},
	solveM: func(a, b []float64, n int) (x []float64, err error) {
		err = hx.Try(func() {
			m, v := clone(a), clone(b)
			x = mat.NewMatrix(m, n, n).SolveMatrix(mat.NewMatrix(v, n, n)).Vals
			kept("the matrix", m, a)
			kept("the right-hand side", v, b)
		})
		return
	},
	inverse: func(a []float64, n int) (x []float64, err error) {
		err = hx.Try(func() {
			m := clone(a)
			x = mat.NewMatrix(m, n, n).Invert().Vals
			kept("the matrix", m, a)
		})
		return
	},
	mult: func(a, b []float64, h, m, w int) (x []float64, err error) {
		err = hx.Try(func() {
			p, q := clone(a), clone(b)
			r := mat.NewMatrix(p, m, h).Mult(mat.NewMatrix(q, w, m))
			kept("the left factor", p, a)
			kept("the right factor", q, b)
			o := mat.NewMatrix(make([]float64, h*w), w, h)
			for i := range o.Vals {
				o.Vals[i] = 7 // left from before
			}
			mat.NewMatrix(p, m, h).MultAt(mat.NewMatrix(q, w, m), o)
			if x = r.Vals; r.Width != w || r.Height != h || !same(x, o.Vals) {
				panic(fmt.Sprintf("product of %d by %d is %v, %v when written to a given matrix", r.Height, r.Width, x, o.Vals))
			}
		})
		return
	},
	shared: func(as [][]float64, b []float64, n int) (x, x2, inv, bx []float64, det float64, err error) {
		err = hx.Try(func() {
			lu := mat.NewLUFactors(n)
			for _, a := range as {
				mat.NewMatrix(clone(a), n, n).LUFactorsAt(lu)
			}
			v := clone(b)
			x = lu.SolveVector(v, make([]float64, n))
			kept("the right-hand side", v, b)
			x2 = lu.SolveVector(v, v)
			inv = lu.InvertAt(mat.NewMatrix(make([]float64, n*n), n, n)).Vals
			sq := square(b, n)
			bm := mat.NewMatrix(clone(sq), n, n)
			bx = lu.SolveMatrix(bm, mat.NewMatrix(make([]float64, n*n), n, n)).Vals
			kept("the right-hand side", bm.Vals, sq)
			if y := lu.SolveMatrix(bm, bm).Vals; !same(y, bx) {
				panic(fmt.Sprintf("solving in place gives %v, otherwise %v", y, bx))
			}
			det = lu.Determinant()
		})
		return
	},
}

var single = linalg{
	name: "single", eps: 6e-7,
	det: func(a []float64, n int) (d float64, err error) {
		err = hx.Try(func() {
			m := f32s(a)
			d = float64(mat.NewMatrix32(m, n, n).Determinant())
			kept32("the matrix", m, a)
		})
		return
	},
	solve: func(a, b []float64, n int) (x []float64, err error) {
		err = hx.Try(func() {
			m, v := f32s(a), f32s(b)
			x = f64s(mat.NewMatrix32(m, n, n).SolveVector(v))
			kept32("the matrix", m, a)
			kept32("the right-hand side", v, b)
		})
		return
	},
	solveM: func(a, b []float64, n int) (x []float64, err error) {
		err = hx.Try(func() {
			m, v := f32s(a), f32s(b)
			x = f64s(mat.NewMatrix32(m, n, n).SolveMatrix(mat.NewMatrix32(v, n, n)).Vals)
			kept32("the matrix", m, a)
			kept32("the right-hand side", v, b)
		})
		return
	},
	inverse: func(a []float64, n int) (x []float64, err error) {
		err = hx.Try(func() {
			m := f32s(a)
			x = f64s(mat.NewMatrix32(m, n, n).Invert().Vals)
			kept32("the matrix", m, a)
		})
		return
	},
	mult: func(a, b []float64, h, m, w int) (x []float64, err error) {
		err = hx.Try(func() {
			p, q := f32s(a), f32s(b)
			r := mat.NewMatrix32(p, m, h).Mult(mat.NewMatrix32(q, w, m))
			kept32("the left factor", p, a)
			kept32("the right factor", q, b)
			o := mat.NewMatrix32(make([]float32, h*w), w, h)
			for i := range o.Vals {
				o.Vals[i] = 7
			}
			mat.NewMatrix32(p, m, h).MultAt(mat.NewMatrix32(q, w, m), o)
			if x = f64s(r.Vals); r.Width != w || r.Height != h || !same(x, f64s(o.Vals)) {
				panic(fmt.Sprintf("product of %d by %d is %v, %v when written to a given matrix", r.Height, r.Width, x, o.Vals))
			}
		})
		return
	},
	shared: func(as [][]float64, b []float64, n int) (x, x2, inv, bx []float64, det float64, err error) {
		err = hx.Try(func() {
			lu := mat.NewLUFactors32(n)
			for _, a := range as {
				mat.NewMatrix32(f32s(a), n, n).LUFactorsAt(lu)
			}
			v := f32s(b)
			x = f64s(lu.SolveVector(v, make([]float32, n)))
			kept32("the right-hand side", v, b)
			x2 = f64s(lu.SolveVector(v, v))
			inv = f64s(lu.InvertAt(mat.NewMatrix32(make([]float32, n*n), n, n)).Vals)
			sq := square(b, n)
			bm := mat.NewMatrix32(f32s(sq), n, n)
			bx = f64s(lu.SolveMatrix(bm, mat.NewMatrix32(make([]float32, n*n), n, n)).Vals)
			kept32("the right-hand side", bm.Vals, sq)
			if y := f64s(lu.SolveMatrix(bm, bm).Vals); !same(y, bx) {
				panic(fmt.Sprintf("solving in place gives %v, otherwise %v", y, bx))
			}
			det = float64(lu.Determinant())
		})
		return
	},
}

// square is a matrix whose columns are rotations of b with a slope.
func square(b []float64, n int) []float64 {
	out := make([]float64, n*n)
	for i := range out {
		out[i] = b[(i/n+i%n)%n] + float64(i%n)
	}
	return out
}

// exact gives the determinant of an integer matrix by expansion, and the
// size of the terms that make it up.
func exact(a []float64, n int) (det int64, size float64) {
	hx.Perms(n, func(p []int) {
		sign, prod := int64(1), int64(1)
		for i := range p {
			prod *= int64(a[i*n+p[i]])
			for j := 0; j < i; j++ {
				if p[j] > p[i] {
					sign = -sign
				}
			}
		}
		det += sign * prod
		size += math.Abs(float64(prod))
	})
	return
}

func norm(a []float64) float64 {
	m := 0.0
	for _, x := range a {
		m = math.Max(m, math.Abs(x))
	}
	return m
}

// residual checks a x = b, one column, to backward error.
func residual(a []float64, n int, x func(i int) float64, b func(i int) float64, eps float64) error {
	mx := 0.0
	for i := 0; i < n; i++ {
		mx = math.Max(mx, math.Abs(x(i)))
	}
	for i := 0; i < n; i++ {
		sum := 0.0
		for k := 0; k < n; k++ {
			sum += a[i*n+k] * x(k)
		}
		if hx.Off(sum, b(i), 200*eps*(norm(a)*mx*float64(n)+math.Abs(b(i)))) {
			return fmt.Errorf("row %d of A x is %g, want %g", i, sum, b(i))
		}
	}
	return nil
}

// swaps says whether elimination with the usual scaled pivoting exchanges rows.
func swaps(a []float64, n int) bool {
	big := 0.0
	row := 0
	for i := 0; i < n; i++ {
		m := 0.0
		for j := 0; j < n; j++ {
			m = math.Max(m, math.Abs(a[i*n+j]))
		}
		if v := math.Abs(a[i*n]); m > 0 && v/m > big {
			big, row = v/m, i
		}
	}
	return row != 0
}

func system(t *hx.T, la linalg, a []float64, n int) {
	if t.Failed() {
		return
	}
	det, size := exact(a, n)
	t.Eval(det == 0 || swaps(a, n))
	what := fmt.Sprintf("%s precision, %d by %d %v", la.name, n, n, a)
	got, err := la.det(a, n)
	if det == 0 {
		// Singular matrices may be refused; to rounding their determinant is zero.
		if err == nil && hx.Off(got, 0, 100*la.eps*(size+1)) {
			t.Fail("%s: singular, but its determinant is %g", what, got)
		}
		return
	}
	if err != nil || hx.Off(got, float64(det), 100*la.eps*(size+1)) {
		t.Fail("%s: determinant %g, want %d (%v)", what, got, det, err)
		return
	}
	ks := []int{}
	for k := 0; k <= n; k++ {
		ks = append(ks, k)
	}
	if err := answers(la, a, n, ks); err != nil {
		t.Fail("%s: %v", what, err)
	}
}

// answers checks the solutions for the given right-hand sides, the inverse and
// the solution for a matrix.
func answers(la linalg, a []float64, n int, ks []int) error {
	for _, k := range ks {
		b := make([]float64, n)
		for i := range b {
			if i == k || k == n {
				b[i] = 1 + float64(i)*float64(1+k-i)
			}
		}
		x, err := la.solve(a, b, n)
		if err == nil {
			err = residual(a, n, func(i int) float64 { return x[i] }, func(i int) float64 { return b[i] }, la.eps)
		}
		if err != nil {
			return fmt.Errorf("solution for %v is %v: %v", b, x, err)
		}
	}
	inv, err := la.inverse(a, n)
	for j := 0; j < n && err == nil; j++ {
		err = residual(a, n, func(i int) float64 { return inv[i*n+j] }, func(i int) float64 {
			if i == j {
				return 1
			}
			return 0
		}, la.eps)
	}
	if err != nil {
		return fmt.Errorf("inverse %v: %v", inv, err)
	}
	b := make([]float64, n*n)
	for i := range b {
		b[i] = float64(i*i%7 - 3)
	}
	x, err := la.solveM(a, b, n)
	for j := 0; j < n && err == nil; j++ {
		err = residual(a, n, func(i int) float64 { return x[i*n+j] }, func(i int) float64 { return b[i*n+j] }, la.eps)
	}
	if err != nil {
		return fmt.Errorf("solution for the matrix %v is %v: %v", b, x, err)
	}
	return nil
}

func runC28(c *hx.C) {
	for _, la := range []linalg{double, single} {
		la := la
		c.Case(la.name+"/1", func(t *hx.T) {
			for _, v := range []float64{-3, 0, 1, 2, 1024} {
				system(t, la, []float64{v}, 1)
			}
		})
		enum := func(id string, n int, vals []float64) {
			// The first row makes a case.
			hx.Seqs(len(vals), n, func(s []int) {
				first := make([]float64, n)
				for i, v := range s {
					first[i] = vals[v]
				}
				c.Case(fmt.Sprintf("%s/%s/%v", la.name, id, first), func(t *hx.T) {
					hx.Seqs(len(vals), n*n-n, func(r []int) {
						a := clone(first)
						for _, v := range r {
							a = append(a, vals[v])
						}
						system(t, la, a, n)
					})
				})
			})
		}
		enum("2", 2, []float64{-2, -1, 0, 1, 2, 3, 5})
		if enum("3", 3, []float64{0, 1, -2}); c.Thorough() {
			enum("3b", 3, []float64{0, 1, -2, 5})
		}
		if enum("4", 4, []float64{1, 0}); c.Thorough() {
			enum("4b", 4, []float64{1, -2})
		}
		for n := 4; n <= c.Pick(5, 6); n++ {
			n := n
			for kind := 0; kind < 4; kind++ {
				kind := kind
				c.Case(fmt.Sprintf("%s/orders/%d/%d", la.name, n, kind), func(t *hx.T) {
					hx.Perms(n, func(p []int) {
						a := make([]float64, n*n)
						for i := range p {
							for j := 0; j < n; j++ {
								v := 0.0
								switch {
								case kind == 0 && j == i: // row orders of the identity
									v = 1
								case kind == 1 && j >= i: // of a triangle
									v = float64(1 + (i+2*j)%3)
								case kind == 2: // of a full matrix, dominant on the diagonal
									if v = float64((i*j+i+2*j)%4 - 1); i == j {
										v = 9
									}
								case kind == 3: // singular: the last row a sum of others
									if v = float64((i*i+j*j*j)%5 - 2); i == n-1 {
										v = float64((j*j*j)%5-2) + float64((1+j*j*j)%5-2)
									}
								}
								a[p[i]*n+j] = v
							}
						}
						system(t, la, a, n)
					})
				})
			}
		}
		for _, n := range []int{7, 8, 9, 12, 16, 17, 33, c.Pick(40, 65)} {
			n := n
			c.Case(fmt.Sprintf("%s/large/%d", la.name, n), func(t *hx.T) { largeSystems(t, la, n, c.Pick(3, 1)) })
		}
		c.Case(la.name+"/shared", func(t *hx.T) { sharedLU(t, la, c.Pick(2, 3)) })
		c.Case(la.name+"/products", func(t *hx.T) { products(t, la) })
	}
	c.Case("vectors", vectors)
	c.Case("transposes", func(t *hx.T) {
		shapes := [][2]int{{1, 16000003}, {16000003, 1}}
		for _, n := range []int{6, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 100, 129, 256, 257, 1000, 1025} {
			for _, m := range []int{1, 2, 3, 8, 16, 33, 64, 127, 300} {
				shapes = append(shapes, [2]int{n, m}, [2]int{m, n})
			}
		}
		if c.Thorough() {
			shapes = append(shapes, [2]int{2, 16000001}, [2]int{16000001, 2}, [2]int{1, 50000017}, [2]int{50000017, 1})
		}
		for _, s := range shapes {
			transpose(t, s[0], s[1])
		}
	})
	c.Case("tridiagonal", func(t *hx.T) { tridiag(t, c.Pick(4, 5)) })
	c.Case("shapes", shapesRefused)
}

// largeSystems solves systems whose determinant is known from their factors:
// every rotation (one in skip for large ones) and the reversal of their rows.
func largeSystems(t *hx.T, la linalg, n, skip int) {
	if n <= 12 {
		skip = 1
	}
	for kind := 0; kind < 3; kind++ {
		a, det := make([]float64, n*n), 1.0
		switch kind {
		case 0: // dominant on the diagonal, upper triangle
			for i := 0; i < n; i++ {
				d := []float64{2, 1, -1, 0.5}[i%4]
				det *= d
				for j := i; j < n; j++ {
					a[i*n+j] = d
					if j > i {
						a[i*n+j] = d / 4 * float64((i+3*j)%3-1)
					}
				}
			}
		case 1: // a product of banded triangles
			l, u := make([]float64, n*n), make([]float64, n*n)
			for i := 0; i < n; i++ {
				l[i*n+i], u[i*n+i] = 1, []float64{2, -1, 1, 0.5}[i%4]
				det *= u[i*n+i]
				if i > 0 {
					l[i*n+i-1] = 0.25 * float64(i%3-1)
				}
				if i > 2 {
					l[i*n+i-3] = -0.125
				}
				if i+1 < n {
					u[i*n+i+1] = 0.25
				}
				if i+5 < n {
					u[i*n+i+5] = 0.25 * float64(i%2)
				}
			}
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					for k := 0; k < n; k++ {
						a[i*n+j] += l[i*n+k] * u[k*n+j]
					}
				}
			}
		case 2: // one plus a dyad: (1 + s) as determinant
			s := 0.0
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					a[i*n+j] = float64(i%3-1) * float64(j%4-1) / 256
				}
				s += a[i*n+i]
				a[i*n+i]++
			}
			det = 1 + s
		}
		for rot := 0; rot <= n; rot += skip {
			rows := make([]int, n)
			sign := 1.0
			for i := range rows {
				rows[i] = (i + rot) % n
				if rot == n {
					rows[i] = n - 1 - i
				}
				for j := 0; j < i; j++ {
					if rows[j] > rows[i] {
						sign = -sign
					}
				}
			}
			m := make([]float64, n*n)
			for i, r := range rows {
				copy(m[r*n:(r+1)*n], a[i*n:(i+1)*n])
			}
			if t.Failed() {
				return
			}
			t.Beat()
			t.Eval(rot > 0)
			what := fmt.Sprintf("%s precision, %d by %d system %d, rows moved by %d", la.name, n, n, kind, rot)
			if got, err := la.det(m, n); err != nil || hx.Off(got, sign*det, 1000*la.eps*float64(n)*math.Abs(det)) {
				t.Fail("%s: determinant %g, want %g (%v)", what, got, sign*det, err)
			}
			if err := answers(la, m, n, []int{0, n / 2, n - 1, n}); err != nil {
				t.Fail("%s: %v", what, err)
			}
		}
	}
}

// sharedLU factors every sequence of matrices in one storage.
func sharedLU(t *hx.T, la linalg, depth int) {
	for n := 2; n <= 4; n++ {
		ms := [][]float64{}
		hx.Perms(n, func(p []int) {
			if len(ms) >= 12 {
				return
			}
			a := make([]float64, n*n)
			for i := range p {
				for j := 0; j < n; j++ {
					if a[p[i]*n+j] = float64((i*j+i+2*j+len(ms))%4 - 1); i == j {
						a[p[i]*n+j] = 9
					}
				}
			}
			ms = append(ms, a)
		})
		b := []float64{3, -1, 2, 5}[:n]
		for l := 1; l <= depth; l++ {
			hx.Seqs(len(ms), l, func(s []int) {
				if t.Failed() {
					return
				}
				as := [][]float64{}
				for _, i := range s {
					as = append(as, ms[i])
				}
				a := as[l-1]
				what := fmt.Sprintf("%s precision, %v factored in turn in the same storage", la.name, as)
				x, x2, inv, bx, det, err := la.shared(as, b, n)
				t.Eval(true)
				if err == nil {
					err = residual(a, n, func(i int) float64 { return x[i] }, func(i int) float64 { return b[i] }, la.eps)
				}
				sq := square(b, n)
				for j := 0; j < n && err == nil; j++ {
					if err = residual(a, n, func(i int) float64 { return bx[i*n+j] }, func(i int) float64 { return sq[i*n+j] }, la.eps); err == nil {
						err = residual(a, n, func(i int) float64 { return inv[i*n+j] }, func(i int) float64 {
							if i == j {
								return 1
							}
							return 0
						}, la.eps)
					}
				}
				if err == nil && !same(x, x2) {
					err = fmt.Errorf("solving in place gives %v, otherwise %v", x2, x)
				}
				if want, size := exact(a, n); err == nil && hx.Off(det, float64(want), 100*la.eps*size) {
					err = fmt.Errorf("determinant %g, want %d", det, want)
				}
				if err != nil {
					t.Fail("%s: %v", what, err)
				}
			})
		}
	}
}

// products multiplies matrices of every pair of shapes: unit entries in turn.
func products(t *hx.T, la linalg) {
	sizes := []int{1, 2, 3, 4, 17, 40}
	for _, h := range sizes {
		for _, m := range sizes {
			for _, w := range sizes {
				t.Beat()
				for k := 0; k <= h*m; k++ {
					if h*m > 16 && k%(h*m/5) != 0 && k < h*m-1 {
						continue
					}
					a, b := make([]float64, h*m), make([]float64, m*w)
					for i := range a {
						if i == k || k == h*m {
							a[i] = 1 + float64(i%5)
						}
					}
					for i := range b {
						b[i] = float64(3*i - 4)
					}
					got, err := la.mult(a, b, h, m, w)
					t.Eval(h != w)
					for i := 0; i < h && err == nil; i++ {
						for j := 0; j < w; j++ {
							want := 0.0
							for l := 0; l < m; l++ {
								want += a[i*m+l] * b[l*w+j]
							}
							if len(got) != h*w || got[i*w+j] != want {
								err = fmt.Errorf("entry %d, %d of %v, want %g", i, j, got, want)
							}
						}
					}
					if err != nil {
						t.Fail("%s precision, %d by %d %v times %d by %d %v: %v", la.name, h, m, a, m, w, b, err)
						return
					}
				}
			}
		}
	}
}

func vectors(t *hx.T) {
	for h := 1; h <= 5; h++ {
		for w := 1; w <= 5; w++ {
			for k := 0; k <= h*w; k++ {
				a := make([]float64, h*w)
				for i := range a {
					if i == k || k == h*w {
						a[i] = float64(i + 2)
					}
				}
				m := mat.NewMatrix(clone(a), w, h)
				v, u := []float64{2, -1, 3, 5, 7}[:w], []float64{-3, 1, 4, 2, 6}[:h]
				mv, um := make([]float64, h), make([]float64, w)
				for i := range mv {
					mv[i] = 9
				}
				for i := range um {
					um[i] = 9
				}
				err := hx.Try(func() {
					mat.MultVec(m, v, mv)
					mat.VecMult(u, m, um)
				})
				tr := m.Transpose()
				t.Eval(h != w)
				ok := err == nil && tr.Width == h && tr.Height == w
				wv, wu := make([]float64, h), make([]float64, w)
				for i := 0; i < h; i++ {
					for j := 0; j < w; j++ {
						wv[i] += a[i*w+j] * v[j]
						wu[j] += a[i*w+j] * u[i]
						ok = ok && tr.Vals[j*h+i] == a[i*w+j]
					}
				}
				out := mat.NewMatrix(make([]float64, h*w), h, w)
				m.TransposeAt(out)
				if !ok || !same(mv, wv) || !same(um, wu) || !same(out.Vals, tr.Vals) || !same(m.Vals, a) {
					t.Fail("%d by %d %v: times %v is %v, %v times it is %v, its transpose %v (%v)", h, w, a, v, mv, u, um, tr, err)
					return
				}
			}
		}
	}
}

// transpose compares every element of the transpose of a w by h matrix, both the
// new matrix and the one written to.
func transpose(t *hx.T, w, h int) {
	vals := make([]float64, w*h)
	for i := range vals {
		vals[i] = float64(i)
	}
	m := mat.NewMatrix(vals, w, h)
	t.Eval(w != h)
	tr := m.Transpose()
	if w*h < 1<<20 {
		out := mat.NewMatrix(make([]float64, w*h), h, w)
		m.TransposeAt(out)
		if !same(out.Vals, tr.Vals) {
			t.Fail("%d by %d: Transpose and TransposeAt differ", w, h)
		}
	}
	if tr.Width != h || tr.Height != w || len(tr.Vals) != w*h {
		t.Fail("the transpose of %d by %d is %d by %d", w, h, tr.Width, tr.Height)
		return
	}
	for i := 0; i < h; i++ {
		for j := 0; j < w; j++ {
			if tr.Vals[j*h+i] != float64(i*w+j) || vals[i*w+j] != float64(i*w+j) {
				t.Fail("%d by %d: element (%d, %d) is %g after transposing, want %d", w, h, i, j, tr.Vals[j*h+i], i*w+j)
				return
			}
		}
	}
}

// tridiag solves every tridiagonal system over the entries; mismatched lengths are refused.
func tridiag(t *hx.T, top int) {
	hx.Product([]int{3, 3, 3, 3, 3}, func(s []int) {
		v := [5][]float64{}
		for i := range v {
			v[i] = []float64{1, 1, 1}[:s[i]+1]
		}
		b := []float64{3, 3, 3}[:s[1]+1]
		ok := s[1] == s[0] && s[2] == s[0] && s[3] == s[0] && s[4] == s[0]
		t.Eval(!ok)
		if err := hx.Try(func() { interpolate.TriDiagAt(v[0], b, v[2], v[3], make([]float64, s[4]+1)) }); (err == nil) != ok {
			t.Fail("tridiagonal system of lengths %v: %v", s, err)
		}
	})
	for _, n := range []int{10, 33, 65, 128, 1001} {
		for kind := 0; kind < 4; kind++ {
			as, bs, cs, rs := make([]float64, n), make([]float64, n), make([]float64, n), make([]float64, n)
			for i := range as {
				as[i], bs[i], cs[i] = float64((i+kind)%3-1), []float64{3, -4, 2.5, -3}[(i*kind+i/7)%4], float64((i/2+kind)%3-1)/2
				if rs[i] = float64(i*i%11 - 5); kind == 3 {
					rs[i] = float64((i + 1) / n) // a unit at the end
				}
			}
			solveTri(t, as, bs, cs, rs)
		}
	}
	off, dia := []float64{0, 1, -2}, []float64{3, -4}
	for n := 1; n <= top; n++ {
		dims := []int{}
		for i := 0; i < n; i++ {
			dims = append(dims, len(dia))
		}
		for i := 0; i < 2*(n-1); i++ {
			dims = append(dims, len(off))
		}
		hx.Product(dims, func(s []int) {
			if t.Failed() {
				return
			}
			as, bs, cs := make([]float64, n), make([]float64, n), make([]float64, n)
			// The unused corners must not matter.
			as[0], cs[n-1] = 17, 19
			for i := 0; i < n; i++ {
				if bs[i] = dia[s[i]]; i > 0 {
					as[i], cs[i-1] = off[s[n+2*i-2]], off[s[n+2*i-1]]
				}
			}
			// Only systems that elimination without exchanges solves safely.
			p := bs[0]
			for i := 1; i < n; i++ {
				p = bs[i] - as[i]*cs[i-1]/p
				if math.Abs(p) < 0.2 {
					return
				}
			}
			solveTri(t, as, bs, cs, []float64{1, -2, 4, 3, 5}[:n])
		})
	}
}

func solveTri(t *hx.T, as, bs, cs, rs []float64) {
	n := len(as)
	r0, a0, b0, c0 := clone(rs), clone(as), clone(bs), clone(cs)
	var x []float64
	out := make([]float64, n)
	err := hx.Try(func() {
		x = interpolate.TriDiag(as, bs, cs, rs)
		interpolate.TriDiagAt(as, bs, cs, rs, out)
	})
	t.Eval(n > 1)
	ok := err == nil && same(x, out) && same(rs, r0) && same(as, a0) && same(bs, b0) && same(cs, c0)
	for i := 0; i < n && ok; i++ {
		sum := bs[i] * x[i]
		if i > 0 {
			sum += as[i] * x[i-1]
		}
		if i < n-1 {
			sum += cs[i] * x[i+1]
		}
		ok = !hx.Off(sum, rs[i], 1e-10*(1+norm(x)))
	}
	if !ok {
		t.Fail("tridiagonal %v, %v, %v, right-hand side %v: %v, in place %v (%v)", as, bs, cs, rs, x, out, err)
	}
}

func shapesRefused(t *hx.T) {
	for w := 0; w <= 3; w++ {
		for h := 0; h <= 3; h++ {
			for n := 0; n <= 9; n++ {
				t.Eval(true)
				ok := w > 0 && h > 0 && w*h == n
				if e := hx.Try(func() { mat.NewMatrix(make([]float64, n), w, h) }); (e == nil) != ok {
					t.Fail("%d values as %d by %d: %v", n, h, w, e)
				}
				if e := hx.Try(func() { mat.NewMatrix32(make([]float32, n), w, h) }); (e == nil) != ok {
					t.Fail("%d single values as %d by %d: %v", n, h, w, e)
				}
			}
			for w2 := 1; w2 <= 3 && w > 0 && h > 0; w2++ {
				for h2 := 1; h2 <= 3; h2++ {
					t.Eval(true)
					a, b := mat.NewMatrix(make([]float64, w*h), w, h), mat.NewMatrix(make([]float64, w2*h2), w2, h2)
					if e := hx.Try(func() { a.Mult(b) }); (e == nil) != (w == h2) {
						t.Fail("%d by %d times %d by %d: %v", h, w, h2, w2, e)
					}
					for i := 0; i < w && i < h; i++ {
						a.Vals[i*w+i] = 1
					}
					if e := hx.Try(func() { a.SolveVector(make([]float64, w2)) }); (e == nil) != (w == h && w2 == w) {
						t.Fail("solve %d by %d for %d values: %v", h, w, w2, e)
					}
					if e := hx.Try(func() { a.SolveMatrix(b) }); (e == nil) != (w == h && w2 == w && h2 == w) {
						t.Fail("solve %d by %d for %d by %d: %v", h, w, h2, w2, e)
					}
					a32, b32 := mat.NewMatrix32(f32s(a.Vals), w, h), mat.NewMatrix32(make([]float32, w2*h2), w2, h2)
					v, u := make([]float64, w2), make([]float64, h2)
					diag := func(n int) []float64 {
						d := make([]float64, n*n)
						for i := 0; i < n; i++ {
							d[i*n+i] = 1
						}
						return d
					}
					sq, sq32 := mat.NewMatrix(diag(w), w, w), mat.NewMatrix32(f32s(diag(w)), w, w)
					for what, f := range map[string]struct {
						f  func()
						ok bool
					}{
						"matrix times vector":           {func() { mat.MultVec(a, v, u) }, w2 == w && h2 == h},
						"vector times matrix":           {func() { mat.VecMult(v, a, u) }, w2 == h && h2 == w},
						"product in single precision":   {func() { a32.Mult(b32) }, w == h2},
						"vector in single precision":    {func() { a32.SolveVector(f32s(v)) }, w == h && w2 == w},
						"matrices in single precision":  {func() { a32.SolveMatrix(b32) }, w == h && w2 == w && h2 == w},
						"factors of another size":       {func() { a.LUFactorsAt(mat.NewLUFactors(w2)) }, w == h && w2 == w},
						"factors of another size, 32":   {func() { a32.LUFactorsAt(mat.NewLUFactors32(w2)) }, w == h && w2 == w},
						"solution of another length":    {func() { sq.LU().SolveVector(v, u) }, w2 == w && h2 == w},
						"solution of another length 32": {func() { sq32.LU().SolveVector(f32s(v), f32s(u)) }, w2 == w && h2 == w},
						"inverse of another shape":      {func() { sq.LU().InvertAt(b) }, w2 == w && h2 == w},
						"inverse of another shape, 32":  {func() { sq32.LU().InvertAt(b32) }, w2 == w && h2 == w},
						"solution of another shape":     {func() { sq.LU().SolveMatrix(sq, b) }, w2 == w && h2 == w},
						"solution of another shape, 32": {func() { sq32.LU().SolveMatrix(sq32, b32) }, w2 == w && h2 == w},
					} {
						t.Eval(true)
						if e := hx.Try(f.f); (e == nil) != f.ok {
							t.Fail("%s, %d by %d with %d by %d: %v", what, h, w, h2, w2, e)
						}
					}
				}
			}
		}
	}
}
