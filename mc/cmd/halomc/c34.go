package main

import (
	"fmt"
	"math"

	"github.com/phil-mansfield/gotetra/render/halo"
	"verif/mc/hx"
)

const ruleC34 = "every grid size, placement of one object on a lattice with faces and their float neighbours, and sequence of up to the stated number of objects; every sphere of a lattice of centres and radii; every pair on a lattice in each axis, lattices of up to the stated number of objects spread or crowded, every sequence of three (four) objects on a line or at corners with every radius of the alphabet, and every sequence of searches; non-trivial when a boundary is crossed or a pair is found"

const big = 8.0 // the box of the finder's lattice

func runC34(c *hx.C) {
	for _, cells := range []int{1, 2, 3, 4, 7} {
		for _, w := range []float64{8, 10, 62.5, 0.7} {
			cells, w := cells, w
			c.Case(fmt.Sprintf("grid/%d/%g", cells, w), func(t *hx.T) { gridCheck(t, cells, w, c.Pick(4, 5)) })
		}
	}
	// Wide grids, where rounding at the last face matters.
	c.Case("grid/wide", func(t *hx.T) { gridWide(t, c.Pick(60, 140)) })
	// Catalogues of many objects, spread over the box and crowded into one cell.
	for _, cells := range []int{1, 3, 8, 40} {
		cells := cells
		c.Case(fmt.Sprintf("grid/many/%d", cells), func(t *hx.T) { gridMany(t, cells, c.Pick(20000, 200000)) })
	}
	for cells := 1; cells <= c.Pick(6, 9); cells++ {
		cells := cells
		c.Case(fmt.Sprintf("bounds/%d", cells), func(t *hx.T) { boundsCheck(t, cells) })
	}
	for _, cells := range []int{1, 2, 3, 4, 8, 16} {
		for axis := 0; axis < 3; axis++ {
			cells, axis := cells, axis
			c.Case(fmt.Sprintf("pairs/%d/%d", cells, axis), func(t *hx.T) { pairCheck(t, cells, axis, c.Thorough()) })
			c.Case(fmt.Sprintf("line/%d/%d", cells, axis), func(t *hx.T) { lineCheck(t, cells, axis, c.Pick(3, 4)) })
		}
		c.Case(fmt.Sprintf("corners/%d", cells), func(t *hx.T) { cornerCheck(t, cells, c.Pick(3, 4)) })
		c.Case(fmt.Sprintf("searches/%d", cells), func(t *hx.T) { searchHistories(t, cells, c.Pick(3, 4)) })
	}
	for _, side := range []int{2, 3, 4, 5, 7, c.Pick(11, 14)} {
		side := side
		c.Case(fmt.Sprintf("many/%d", side), func(t *hx.T) { manyCheck(t, side) })
	}
	for _, n := range []int{0, 1, 2} {
		n := n
		c.Case(fmt.Sprintf("few/%d", n), func(t *hx.T) {
			for _, cells := range []int{1, 2, 5} {
				xs, rs := make([]float64, n), make([]float64, n)
				for _, r := range []float64{0, 1, 7} {
					for i := range rs {
						rs[i] = r
					}
					find(t, cells, big, xs, xs, xs, rs, []float64{1})
				}
			}
		})
	}
}

// within says which cells of an axis a position may be filed under: one, or the
// two sides of a face when it is as close as rounding.
func within(x, w float64, cells int) [2]int {
	u := math.Mod(x, w)
	if u < 0 {
		u += w
	}
	q := u / w * float64(cells)
	lo, hi := int(math.Floor(q-1e-12)), int(math.Floor(q+1e-12))
	if exact(w, cells) && u == x && x >= 0 && x < w {
		lo, hi = int(math.Floor(q)), int(math.Floor(q))
	}
	return [2]int{(lo + cells) % cells, (hi + cells) % cells}
}

// exact says whether the faces of the grid are exact numbers.
func exact(w float64, cells int) bool {
	cw := w / float64(cells)
	return cw*float64(cells) == w && cells&(cells-1) == 0
}

func inCell(p [3]float64, w float64, cells, idx int) bool {
	c := [3]int{idx % cells, idx / cells % cells, idx / cells / cells}
	for k := range c {
		if v := within(p[k], w, cells); v[0] != c[k] && v[1] != c[k] {
			return false
		}
	}
	return true
}

func checkGrid(t *hx.T, cells int, w float64, ps [][3]float64) {
	show := fmt.Sprint(len(ps), " objects")
	if len(ps) < 30 {
		show = fmt.Sprint(ps)
	}
	xs, ys, zs := make([]float64, len(ps)), make([]float64, len(ps)), make([]float64, len(ps))
	for i, p := range ps {
		xs[i], ys[i], zs[i] = p[0], p[1], p[2]
	}
	var g *halo.Grid
	if err := hx.Try(func() {
		g = halo.NewGrid(cells, w, len(ps))
		g.Insert(xs, ys, zs)
	}); err != nil {
		t.Fail("%d cells of a box of %v: filing %v: %v", cells, w, show, err)
		return
	}
	for i, p := range ps {
		if xs[i] != p[0] || ys[i] != p[1] || zs[i] != p[2] {
			t.Fail("%d cells of a box of %v: filing changes object %d of %v", cells, w, i, show)
		}
	}
	if g.TotalCells() != cells*cells*cells {
		t.Fail("%d cells a side are %d altogether", cells, g.TotalCells())
	}
	if n := g.AverageLength(); n != len(ps)/(cells*cells*cells) {
		t.Fail("%d objects in %d^3 cells: %d on average", len(ps), cells, n)
	}
	seen, most := make([]int, len(ps)), 0
	buf := make([]int, 0, len(ps))
	for idx := 0; idx < cells*cells*cells; idx++ {
		l := g.ReadIndexes(idx, buf)
		if g.Length(idx) != len(l) {
			t.Fail("%d cells of a box of %v: %v: cell %d has length %d and lists %d", cells, w, show, idx, g.Length(idx), len(l))
		}
		if len(l) > most {
			most = len(l)
		}
		for _, j := range l {
			if j < 0 || j >= len(ps) {
				t.Fail("%d cells of a box of %v: %v: cell %d lists %d", cells, w, show, idx, j)
				return
			}
			seen[j]++
			if !inCell(ps[j], w, cells, idx) {
				t.Fail("%d cells of a box of %v: object %v is filed under cell %d", cells, w, ps[j], idx)
			}
		}
		buf = l
	}
	for j, n := range seen {
		if n != 1 {
			t.Fail("%d cells of a box of %v: object %v is filed %d times", cells, w, ps[j], n)
		}
	}
	if g.MaxLength() != most {
		t.Fail("%d cells of a box of %v: %v: the longest list is %d, not %d", cells, w, show, most, g.MaxLength())
	}
}

func lattice(cells int, w float64) []float64 {
	xs := []float64{-1e-20, -w / 3, -w / 2 * 1.01, w * 1.3, w + w/float64(3*cells)}
	for i := 0; i <= cells; i++ {
		f := w * float64(i) / float64(cells)
		xs = append(xs, f, math.Nextafter(f, -1), math.Nextafter(f, 2*w))
		if i < cells {
			xs = append(xs, w*(float64(i)+0.37)/float64(cells))
		}
	}
	return xs
}

func gridCheck(t *hx.T, cells int, w float64, top int) {
	al := lattice(cells, w)
	hx.Product([]int{len(al), len(al), len(al)}, func(s []int) {
		if t.Failed() {
			return
		}
		p := [3]float64{al[s[0]], al[s[1]], al[s[2]]}
		t.Eval(p[0] >= w || p[0] < 0)
		checkGrid(t, cells, w, [][3]float64{p})
	})
	cw := w / float64(cells)
	ends := []float64{cw / 2, w - cw/2, w}
	pts := [][3]float64{}
	hx.Product([]int{3, 2, 2}, func(s []int) { pts = append(pts, [3]float64{ends[s[0]], ends[s[1]], ends[2-s[2]]}) })
	for l := 0; l <= top; l++ {
		hx.Seqs(len(pts), l, func(s []int) {
			if t.Failed() {
				return
			}
			ps := make([][3]float64, l)
			for i := range s {
				ps[i] = pts[s[i]]
			}
			t.Eval(l > 1)
			checkGrid(t, cells, w, ps)
		})
	}
}

// gridMany files ever more objects, up to top of them.
func gridMany(t *hx.T, cells, top int) {
	for n := 1; n <= top; n = n*3 + 1 {
		for layout := 0; layout < 3; layout++ {
			t.Beat()
			ps := make([][3]float64, n)
			for i := range ps {
				for k, m := range []int{7, 11, 13} {
					f := (float64(i*m%cells) + 0.3) / float64(cells) // spread
					if layout == 1 || layout == 2 && i%2 == 0 {
						f = 0.4 / float64(cells) // in one cell
					}
					ps[i][k] = f * big
				}
				if layout == 0 && cells > 1 {
					ps[i][2] = (float64(i/cells%cells) + 0.6) / float64(cells) * big
				}
			}
			t.Eval(n > 1)
			checkGrid(t, cells, big, ps)
			if t.Failed() {
				return
			}
		}
	}
}

// gridWide files objects next to every face of grids of every size.
func gridWide(t *hx.T, top int) {
	for cells := 1; cells <= top; cells++ {
		t.Beat()
		for _, w := range []float64{1, 62.5, 100, 250, 0.1} {
			ps := [][3]float64{}
			for i := 0; i <= cells; i++ {
				f := w * float64(i) / float64(cells)
				for _, x := range []float64{f, math.Nextafter(f, -1), math.Nextafter(f, 2*w), w / float64(cells) * float64(i)} {
					k := len(ps) % 3
					p := [3]float64{w / 2.01, w / 2.01, w / 2.01}
					p[k] = x
					ps = append(ps, p)
					if i == cells || i == 0 {
						ps = append(ps, [3]float64{x, x, x})
					}
				}
			}
			t.Eval(true)
			checkGrid(t, cells, w, ps)
			if t.Failed() {
				return
			}
		}
	}
}

func boundsCheck(t *hx.T, cells int) {
	for _, cw := range []float64{1, 0.5, 3} {
		w := cw * float64(cells)
		for axis := 0; axis < 3; axis++ {
			for i := 0; i < 4*cells; i++ {
				for j := 0; j <= 5*cells; j++ {
					for _, other := range [][2]float64{{w / 2, cw / 8}, {0, cw}} {
						pos := [3]float64{other[0], other[0], other[0]}
						pos[axis] = cw * float64(i) / 4
						r := cw * float64(j) / 4
						oneBounds(t, cells, cw, pos, r)
						// The other axes, whose own extents differ.
						if t.Failed() {
							return
						}
					}
				}
			}
		}
	}
}

func oneBounds(t *hx.T, cells int, cw float64, pos [3]float64, r float64) {
	w := cw * float64(cells)
	b := &halo.Bounds{}
	b.Origin, b.Span = [3]int{7, 8, 9}, [3]int{3, 2, 1}
	b.SphereBounds(pos, r, cw, w)
	at := fmt.Sprintf("%d cells of %v, centre %v, radius %v", cells, cw, pos, r)
	for k := 0; k < 3; k++ {
		lo, hi := int(math.Floor((pos[k]-r)/cw)), int(math.Floor((pos[k]+r)/cw))
		n := hi - lo + 1
		if n > cells {
			n = cells
		}
		t.Eval(lo < 0 || hi >= cells)
		if b.Span[k] != n {
			t.Fail("%s: spans %d cells along axis %d, want %d", at, b.Span[k], k, n)
			return
		}
		if b.Origin[k] < 0 || b.Origin[k] >= cells {
			t.Fail("%s: starts at cell %d along axis %d", at, b.Origin[k], k)
			return
		}
		hit := make([]bool, cells)
		for v := lo; v <= hi; v++ {
			hit[((v%cells)+cells)%cells] = true
		}
		for v := 0; v < 2*cells; v++ {
			if in := b.Inside(v, cells, k); in != hit[v%cells] {
				t.Fail("%s: cell %d along axis %d inside: %v", at, v, k, in)
				return
			}
			var q [3]int
			for d := range q {
				q[d] = b.Origin[d]
			}
			q[k] = v
			x, y, z := b.ConvertIndices(q[0], q[1], q[2], cells)
			got := [3]int{x, y, z}
			var want [3]int
			want[k] = ((v-b.Origin[k])%cells + cells) % cells
			if got != want {
				t.Fail("%s (from %v): cells %v become %v, want %v", at, b.Origin, q, got, want)
				return
			}
			if hit[v%cells] != (got[k] < b.Span[k]) {
				t.Fail("%s: cell %d along axis %d is number %d of %d", at, v, k, got[k], b.Span[k])
				return
			}
		}
	}
}

// find runs the finder with each multiplier in turn, on one object, against all
// pairs.
func find(t *hx.T, cells int, w float64, xs, ys, zs, rs []float64, mults []float64) (found int) {
	cp := func(x []float64) []float64 { return append([]float64{}, x...) }
	ox, oy, oz, or := cp(xs), cp(ys), cp(zs), cp(rs)
	at := func(step int) string {
		return fmt.Sprintf("%d cells of a box of %v: x %v y %v z %v radii %v times %v: search %d", cells, w, ox, oy, oz, or, mults, step)
	}
	g := halo.NewGrid(cells, w, len(xs))
	var sf *halo.SubhaloFinder
	if err := hx.Try(func() { g.Insert(xs, ys, zs); sf = halo.NewSubhaloFinder(g) }); err != nil {
		t.Fail("%s: %v", at(0), err)
		return
	}
	far := func(a, b float64) float64 {
		d := math.Abs(a - b)
		if w-d < d {
			d = w - d
		}
		return d
	}
	for step, m := range mults {
		if err := hx.Try(func() { sf.FindSubhalos(xs, ys, zs, rs, m) }); err != nil {
			t.Fail("%s: %v", at(step), err)
			return
		}
		for i := range rs {
			if xs[i] != ox[i] || ys[i] != oy[i] || zs[i] != oz[i] || rs[i] != or[i] {
				t.Fail("%s: the arrays become %v %v %v %v", at(step), xs, ys, zs, rs)
				return
			}
		}
		for i := range rs {
			t.Eval(true)
			all, hosts, subs := sf.Intersects(i), sf.Hosts(i), sf.Subhalos(i)
			s, e := sf.StartEnd(i)
			if e-s != len(all) || sf.IntersectCount(i) != len(all) || sf.HostCount(i) != len(hosts) || sf.SubhaloCount(i) != len(subs) || len(hosts)+len(subs) != len(all) {
				t.Fail("%s: object %d: %v, hosts %v, subhalos %v, counted as %d %d %d", at(step), i, all, hosts, subs, sf.IntersectCount(i), sf.HostCount(i), sf.SubhaloCount(i))
				return
			}
			n := 0
			for j := range rs {
				if j == i {
					continue
				}
				dx, dy, dz := far(xs[i], xs[j]), far(ys[i], ys[j]), far(zs[i], zs[j])
				d2, r := dx*dx+dy*dy+dz*dz, (rs[i]+rs[j])*m
				in := n < len(all) && all[n] == j
				if math.Abs(d2-r*r) < 1e-9 && d2 != r*r {
					if in {
						n++
					}
					continue
				}
				if (d2 <= r*r) != in {
					t.Fail("%s: object %d meets %v, but %d is %v away and %v wide", at(step), i, all, j, math.Sqrt(d2), r)
					return
				}
				if in {
					found++
					l, k := hosts, n
					if j > i {
						l, k = subs, n-len(hosts)
					}
					if k < 0 || k >= len(l) || l[k] != j {
						t.Fail("%s: object %d: hosts %v, subhalos %v, %d is misplaced", at(step), i, hosts, subs, j)
						return
					}
					n++
				}
			}
			if n != len(all) {
				t.Fail("%s: object %d meets %v", at(step), i, all)
				return
			}
		}
	}
	return found
}

var finderRadii = []float64{0, 0.25, 0.5, 1, 2, 3.5, 4, 5, 9}

func pairCheck(t *hx.T, cells, axis int, thorough bool) {
	others := [][2]float64{{0, 0}, {0, 7.5}, {4, 3}, {8, 0}, {2, 6}}
	n := len(others)
	if !thorough {
		n = 4
	}
	steps := 16
	for a := 0; a <= steps; a++ {
		for b := 0; b <= steps; b++ {
			hx.Product([]int{n, n, len(finderRadii), len(finderRadii)}, func(s []int) {
				if t.Failed() || (s[2]+s[3]+a+b)%3 != 0 && !thorough {
					return
				}
				var p [3][]float64
				p[axis] = []float64{float64(a) / 2, float64(b) / 2}
				p[(axis+1)%3] = others[s[0]][:]
				p[(axis+2)%3] = others[s[1]][:]
				rs := []float64{finderRadii[s[2]], finderRadii[s[3]]}
				find(t, cells, big, p[0], p[1], p[2], rs, []float64{1})
			})
		}
		t.Beat()
	}
}

func lineCheck(t *hx.T, cells, axis, n int) {
	xs := []float64{0, 0.5, 2, 3.75, 4, 6, 8}
	rs := []float64{0.25, 1, 2.5}
	if n > 3 {
		xs = []float64{0, 0.5, 3.75, 6, 8}
		rs = []float64{0.5, 2}
	}
	k := len(xs) * len(rs)
	hx.Seqs(k, n, func(s []int) {
		if t.Failed() {
			return
		}
		var p [3][]float64
		for d := range p {
			p[d] = make([]float64, n)
			for i := range p[d] {
				p[d][i] = 7.75
			}
		}
		r := make([]float64, n)
		for i, o := range s {
			p[axis][i], r[i] = xs[o%len(xs)], rs[o/len(xs)]
		}
		find(t, cells, big, p[0], p[1], p[2], r, []float64{1})
	})
}

func cornerCheck(t *hx.T, cells, n int) {
	rs := []float64{0.5, 0.9, 4}
	if n > 3 {
		rs = rs[1:]
	}
	hx.Seqs(8*len(rs), n, func(s []int) {
		if t.Failed() {
			return
		}
		xs, ys, zs, r := make([]float64, n), make([]float64, n), make([]float64, n), make([]float64, n)
		at := []float64{0.5, 7.5}
		for i, o := range s {
			xs[i], ys[i], zs[i], r[i] = at[o&1], at[o>>1&1], at[o>>2&1], rs[o/8]
		}
		find(t, cells, big, xs, ys, zs, r, []float64{1})
	})
}

// manyCheck fills the box with side^3 objects: spread over it, crowded into one
// corner of it, or at a single point.
func manyCheck(t *hx.T, side int) {
	n := side * side * side
	for _, cells := range []int{1, 3, 8, 17} {
		for layout := 0; layout < 3; layout++ {
			for _, reach := range []float64{0.5, 1.2} {
				if t.Failed() {
					return
				}
				t.Beat()
				step := [3]float64{big / float64(side), big / float64(cells) / float64(side) / 2, 0}[layout]
				var p [3][]float64
				rs := make([]float64, n)
				for i := 0; i < n; i++ {
					v := i * 7 % n // 7 objects on in the lattice for one in the list
					if n%7 == 0 {
						v = i
					}
					for k, d := 0, 1; k < 3; k, d = k+1, d*side {
						p[k] = append(p[k], math.Mod(big-step/3+step*float64(v/d%side), big))
					}
					rs[i] = reach * (step + 0.01) / 2 * (0.8 + 0.2*float64(i%3))
				}
				find(t, cells, big, p[0], p[1], p[2], rs, []float64{1, 0.5})
			}
		}
	}
}

// searchHistories repeats searches on one finder with every sequence of
// multipliers: none may depend on the ones before.
func searchHistories(t *hx.T, cells, n int) {
	mults := []float64{1, 0, 3, 0.1, 0.5, 1.7}
	xs := []float64{0.5, 7.7, 1.1, 4.2, 4.3, 8}
	ys := []float64{0.1, 7.9, 0.3, 4.0, 3.9, 0}
	zs := []float64{3.1, 3.2, 3.3, 6.0, 0.2, 3}
	rs := []float64{0.7, 0.4, 1.3, 0.35, 1.9, 0.1}
	for l := 1; l <= n; l++ {
		hx.Seqs(len(mults), l, func(s []int) {
			if t.Failed() {
				return
			}
			ms := make([]float64, l)
			for i, o := range s {
				ms[i] = mults[o]
			}
			t.Trans(l)
			t.Trace()
			t.State(fmt.Sprint(cells, s))
			find(t, cells, big, xs, ys, zs, append([]float64{}, rs...), ms)
		})
	}
}
