package main

import (
	"fmt"
	"math"

	"github.com/phil-mansfield/gotetra/render"
	"github.com/phil-mansfield/gotetra/render/density"
	"verif/mc/hx"
	"verif/mc/rx"
)

const ruleC37 = "affine/*: every segment width, subsampling and number of files of the alphabet under sheared reorientations of the sheet (all 48 signed permutations of the axes), regions, quantities and worker counts, every recorded sample decoded back to the cube and the velocity it came from; steps/*: every threshold of every step pattern of the alphabet, which puts each node of a segment in one of up to four pixels, for every region, projection, quantity, subsampling and worker count, every pixel of the real grid bounded by the cubes that lie in it and the cubes that reach it; non-trivial when some pixel is reached by only part of a segment"

const c37L = 64.0

func runC37(c *hx.C) {
	type size struct{ seg, skip, cls int }
	sizes := []size{{1, 1, 1}, {2, 1, 1}, {3, 1, 1}, {4, 1, 1}, {4, 2, 1}, {8, 2, 1}, {8, 4, 1}, {5, 1, 1}, {6, 2, 1}, {2, 1, 2}, {3, 1, 2}, {4, 2, 2}, {2, 2, 2}, {7, 1, 1}, {8, 1, 1}, {2, 1, 3}}
	if c.Thorough() {
		sizes = append(sizes, size{8, 8, 1}, size{12, 4, 1}, size{16, 2, 1}, size{4, 1, 2}, size{6, 2, 2}, size{4, 4, 3}, size{9, 1, 1}, size{10, 2, 1}, size{12, 1, 1}, size{16, 1, 1}, size{24, 8, 1}, size{5, 1, 2}, size{8, 1, 2}, size{3, 1, 3}, size{2, 1, 4})
	}
	for _, s := range sizes {
		for o := 0; o < 6; o++ {
			s, o := s, o
			c.Case(fmt.Sprintf("affine/seg%d/skip%d/files%d/%d", s.seg, s.skip, s.cls, o), func(t *hx.T) {
				for sg := 0; sg < 8; sg++ {
					affine(t, c, s.seg, s.skip, s.cls, o*8+sg)
				}
			})
		}
	}
	for i, s := range []size{{20, 1, 1}, {26, 1, 1}, {40, 2, 1}, {64, 8, 1}} {
		for pat := range patterns {
			s, pat := s, pat
			if (i+pat)%3 > 0 && !c.Thorough() {
				continue
			}
			c.Case(fmt.Sprintf("wide/seg%d/skip%d/%s", s.seg, s.skip, patterns[pat].name), func(t *hx.T) { wideSteps(t, s.seg, s.skip, pat) })
		}
	}
	for o := 0; o < c.Pick(4, 24); o++ {
		o := o
		c.Case(fmt.Sprintf("spread/%d", o), func(t *hx.T) { rx.Bubble(func() { spread(t, o) }) })
	}
	for _, s := range sizes {
		for pat := range patterns {
			s, pat := s, pat
			if s.seg/s.skip == 1 && pat > 0 {
				continue
			}
			c.Case(fmt.Sprintf("steps/seg%d/skip%d/files%d/%s", s.seg, s.skip, s.cls, patterns[pat].name), func(t *hx.T) {
				steps(t, c, s.seg, s.skip, s.cls, pat)
			})
		}
	}
}

// wideSteps are sheets of one file of many nodes.
func wideSteps(t *hx.T, seg, skip, pat int) {
	w := seg / skip
	for _, h := range []int{w / 3, w/2 + 1, w - 2} {
		t.Beat()
		sh, cubes := stepSheet(seg, skip, 1, pat, h*patterns[pat].top(w)/w)
		files := sh.Write(t.Dir())
		for i, q := range []density.Quantity{density.Density, density.Velocity} {
			if !stepRun(t, fmt.Sprintf("%d nodes, threshold %d", seg, h), files, cubes, []int{i, 6 - 2*i}, q, 1+(h+pat)%6, skip) {
				return
			}
		}
	}
	t.Trace()
	t.State(fmt.Sprint("wide", seg, skip, pat))
}

var perms3 = [6][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}

// A frame says where a file puts its unit cube and how fast it moves there.
type frame struct {
	center [3]float64
	m      [3][3]float64 // unit cube -> position
	v0     [3]float64
	a      [3][3]float64 // unit cube -> velocity
}

func newFrame(o int, center [3]float64, size, f float64) frame {
	fr := frame{center: center}
	p, sg := perms3[o/8%6], o%8
	for k := 0; k < 3; k++ {
		s := size
		if sg>>k&1 == 1 {
			s = -s
		}
		fr.m[k][p[k]] = s
	}
	// Shear along one axis.
	for k := 0; k < 3; k++ {
		fr.m[k][p[(k+1)%3]] += 0.25 * fr.m[k][p[k]]
	}
	fr.a = [3][3]float64{{1, -2, 0.5}, {3, 0.25, -1}, {-0.5, 4, 2}}
	for i := range fr.a {
		fr.v0[i] = 10 * f * float64(i+1)
		for j := range fr.a[i] {
			fr.a[i][j] *= 1 + f
		}
	}
	return fr
}

func apply(m [3][3]float64, v [3]float64) (r [3]float64) {
	for i := range r {
		for j := range v {
			r[i] += m[i][j] * v[j]
		}
	}
	return r
}

func inverse(m [3][3]float64) (r [3][3]float64) {
	det := 0.0
	for i := 0; i < 3; i++ {
		det += m[0][i] * (m[1][(i+1)%3]*m[2][(i+2)%3] - m[1][(i+2)%3]*m[2][(i+1)%3])
	}
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			a, b, c, d := (j+1)%3, (j+2)%3, (i+1)%3, (i+2)%3
			r[i][j] = (m[a][c]*m[b][d] - m[a][d]*m[b][c]) / det
		}
	}
	return r
}

func affine(t *hx.T, c *hx.C, seg, skip, cls, o int) {
	frames := make([]frame, cls*cls*cls)
	for i := range frames {
		at := [3]int{i % cls, i / cls % cls, i / cls / cls}
		ctr := [3]float64{}
		for d := range ctr {
			ctr[d] = c37L * (0.05 + float64(at[d])/float64(cls))
		}
		size := c37L * 0.3
		if cls > 1 {
			size = c37L * 0.6 / float64(cls)
		}
		frames[i] = newFrame((o+i*7)%48, ctr, size, float64(i+1))
	}
	unit := func(i, j, k int) [3]float64 {
		w := float64(seg)
		return [3]float64{float64(i)/w - 0.5, float64(j)/w - 0.5, float64(k)/w - 0.5}
	}
	sh := &rx.Sheet{N: seg * cls, Cells: cls, L: c37L}
	sh.X = func(a, b, cc, i, j, k int) [3]float64 {
		f := frames[a+cls*(b+cls*cc)]
		x := apply(f.m, unit(i, j, k))
		for d := range x {
			x[d] += f.center[d]
		}
		return x
	}
	sh.V = func(a, b, cc, i, j, k int) (v [3]float32) {
		f := frames[a+cls*(b+cls*cc)]
		x := apply(f.a, unit(i, j, k))
		for d := range x {
			v[d] = float32(x[d] + f.v0[d])
		}
		return v
	}
	files := sh.Write(t.Dir())
	inv := make([][3][3]float64, len(frames))
	for i := range inv {
		inv[i] = inverse(frames[i].m)
	}
	regs := []reg{
		{[3]span{{0, 4}, {0, 4}, {0, 4}}, 3, 4, 2},
		{[3]span{{6, 5}, {0, 8}, {7, 6}}, 3, 8, 3},
		{[3]span{{3, 2}, {3, 2}, {3, 2}}, 3, 4, 1},
		{[3]span{{0, 8}, {0, 8}, {0, 8}}, 1, 8, 1},
	}
	cubes := seg / skip
	for ri, r := range regs {
		q := density.Velocity
		if (o+ri)%4 == 3 {
			q = density.Density
		}
		if (o+ri)%9 == 4 {
			q = density.VelocityCurl
		}
		b := &rx.RecBox{Box: r.box(c37L, q), R: &rx.Rec{}}
		workers := 1 + (o+ri)%5
		what := fmt.Sprintf("reorientation %d, region %v (%d pixels), %d workers, quantity %d", o, r.s, r.px, workers, int(q))
		renderAll(t, files, []render.Box{b}, q, workers, skip)
		if t.Failed() {
			return
		}
		cw := c37L / float64(r.px)
		count, maybe := map[[4]int]int{}, map[[4]int]int{}
		for _, d := range b.R.Deps {
			home, cube, best := -1, [3]int{}, 0.0
			var un [3]float64
			for fi, f := range frames {
				x := [3]float64{}
				for k := range x {
					x[k] = rx.Mod(d.X[k]*cw-f.center[k]+c37L/2, c37L) - c37L/2
				}
				u := apply(inv[fi], x)
				out := 0.0
				for k := range u {
					out = math.Max(out, math.Abs(u[k])-0.5)
				}
				if home < 0 || out < best {
					home, best, un = fi, out, u
				}
			}
			if best > 1e-4 {
				t.Fail("%s: a sample is deposited at %v pixels, where there is no sheet", what, d.X)
				return
			}
			// A sample within rounding of a face may belong to either cube.
			at := map[[4]int]bool{}
			for e := 0; e < 8; e++ {
				for k := range cube {
					off := 1e-4 * float64(2*(e>>k&1)-1)
					cube[k] = min(max(int(math.Floor((un[k]+0.5)*float64(cubes)+off)), 0), cubes-1)
				}
				at[[4]int{home, cube[0], cube[1], cube[2]}] = true
			}
			for cu := range at {
				maybe[cu]++
				if len(at) == 1 {
					count[cu]++
				}
			}
			if q.RequiresVelocity() {
				f := frames[home]
				v := apply(f.a, un)
				for k := range v {
					if !hx.Near(d.W[k], v[k]+f.v0[k], 20, 1e-4) {
						t.Fail("%s: a sample of file %d, cube %v at %v of the segment has velocity component %d %g, the sheet moves at %g there",
							what, home, cube, un, k, d.W[k], v[k]+f.v0[k])
						return
					}
				}
			}
		}
		// How many samples of each cube must be there: all of them if the whole
		// cube lies in the region.
		blk := rx.Block{O: b.CellOrigin(), W: b.CellSpan()}
		for fi, f := range frames {
			for i := 0; i < cubes*cubes*cubes; i++ {
				cu := [3]int{i % cubes, i / cubes % cubes, i / cubes / cubes}
				lo, hi := [3]float64{}, [3]float64{}
				for e := 0; e < 8; e++ {
					x := apply(f.m, unit(skip*(cu[0]+e&1), skip*(cu[1]+e>>1&1), skip*(cu[2]+e>>2)))
					for k := range x {
						x[k] = (x[k] + f.center[k]) / cw
						if e == 0 {
							lo[k], hi[k] = x[k], x[k]
						}
						lo[k], hi[k] = math.Min(lo[k], x[k]), math.Max(hi[k], x[k])
					}
				}
				inside := true
				for k := range lo {
					if blk.W[k] == r.px {
						continue
					}
					from := rx.Mod(lo[k]-0.01-float64(blk.O[k]), float64(r.px))
					if from+hi[k]-lo[k]+0.02 > float64(blk.W[k]) {
						inside = false
					}
				}
				n, most := count[[4]int{fi, cu[0], cu[1], cu[2]}], maybe[[4]int{fi, cu[0], cu[1], cu[2]}]
				want := 6 * r.pts
				if n > want || inside && most < want {
					t.Fail("%s: %d to %d samples lie in cube %v of file %d, want %d", what, n, most, cu, fi, want)
					return
				}
				t.Eval(cubes > 1)
			}
		}
		t.Trans(len(b.R.Deps))
		t.Trace()
		t.State(fmt.Sprint(seg, skip, cls, o, ri))
	}
}

// spread requires that the samples of a cube fill it: their mean is its centre,
// and within one tetrahedron they vary, averaged over the six orientations, by
// 1/24 of the cube's side squared along each axis. Several thousand samples of 64
// independent sets of 48 are each used by every orientation; the bounds are more
// than seven standard deviations away.
func spread(t *hx.T, o int) {
	const seg, pts = 6, 48
	fr := newFrame(o*13%48, [3]float64{0.05 * c37L, 0.4 * c37L, 0.9 * c37L}, 0.3*c37L, 1)
	sh := &rx.Sheet{N: seg, Cells: 1, L: c37L, X: func(a, b, cc, i, j, k int) [3]float64 {
		x := apply(fr.m, [3]float64{float64(i)/seg - 0.5, float64(j)/seg - 0.5, float64(k)/seg - 0.5})
		for d := range x {
			x[d] += fr.center[d]
		}
		return x
	}}
	files := sh.Write(t.Dir())
	r := reg{[3]span{{0, 8}, {0, 8}, {0, 8}}, 3, 8, pts}
	b := &rx.RecBox{Box: r.box(c37L, density.Density), R: &rx.Rec{}}
	renderAll(t, files, []render.Box{b}, density.Density, 1, 1)
	inv := inverse(fr.m)
	mean, within, groups := [3]float64{}, [3]float64{}, 0
	for g := 0; g+pts <= len(b.R.Deps); g += pts {
		s, s2 := [3]float64{}, [3]float64{}
		for _, d := range b.R.Deps[g : g+pts] {
			x := [3]float64{}
			for k := range x {
				x[k] = rx.Mod(d.X[k]*c37L/8-fr.center[k]+c37L/2, c37L) - c37L/2
			}
			u := apply(inv, x)
			for k := range u {
				f := (u[k] + 0.5) * seg
				mean[k] += f - math.Floor(f)
				s[k] += f
				s2[k] += f * f
			}
		}
		groups++
		for k := range s {
			within[k] += (s2[k] - s[k]*s[k]/pts) / (pts - 1)
		}
	}
	t.Eval(true)
	t.Trace()
	t.State(fmt.Sprint("spread", o))
	for k := range mean {
		m, v := mean[k]/float64(groups*pts), 24*within[k]/float64(groups)
		if groups != 6*seg*seg*seg {
			t.Fail("%d groups of samples, want %d", groups, 6*seg*seg*seg)
		}
		if hx.Off(m, 0.5, 0.03) || hx.Off(v, 1, 0.17) {
			t.Fail("reorientation %d: along axis %d of their cubes the samples lie at %g on average, and vary within a tetrahedron by %g of what fills it", o, k, m, v)
		}
		t.Sample("mean %.4f variance %.4f", m, v)
	}
}

// patterns of steps: the pixel offset of a node (i, j, k) of a segment w cubes
// wide (all in units of the subsampling), for threshold h.
var patterns = []struct {
	name string
	top  func(w int) int
	f    func(w, h, i, j, k int) [3]int
}{
	{"x", func(w int) int { return w }, func(w, h, i, j, k int) [3]int { return [3]int{step(i, h), 0, 0} }},
	{"y", func(w int) int { return w }, func(w, h, i, j, k int) [3]int { return [3]int{0, step(j, h), 0} }},
	{"z", func(w int) int { return w }, func(w, h, i, j, k int) [3]int { return [3]int{0, 0, step(k, h)} }},
	{"cycle", func(w int) int { return w }, func(w, h, i, j, k int) [3]int { return [3]int{step(j, h), step(k, w-h), step(i, h)} }},
	{"corner", func(w int) int { return w }, func(w, h, i, j, k int) [3]int {
		s := step(i, h) * step(j, h) * step(k, h)
		return [3]int{s, 2 * s, s}
	}},
	{"edge", func(w int) int { return w }, func(w, h, i, j, k int) [3]int {
		s := (1 - step(i, h)) * step(k, w-h)
		return [3]int{0, 2 * step(j, h), s}
	}},
	{"diagonal", func(w int) int { return 3 * w }, func(w, h, i, j, k int) [3]int {
		return [3]int{step(i+j+k, h), step(i+j+k, h+2), step(i+j+k, h-2)}
	}},
	{"order", func(w int) int { return w * (w + 1) }, func(w, h, i, j, k int) [3]int {
		return [3]int{0, step(k*(w+1)+j, h), step(j*(w+1)+i, h)}
	}},
	{"bands", func(w int) int { return w }, func(w, h, i, j, k int) [3]int {
		return [3]int{step(i, h) + step(i, w-1), step(j, h) - step(j, w-1), step(k, h) - 2*step(k, w-1)}
	}},
}

func step(i, h int) int {
	if i >= h {
		return 1
	}
	return 0
}

// cubeAt is where one cube lies: the pixels of its corners.
type cubeAt struct {
	lo, hi   [3]int // in unwrapped pixels
	vlo, vhi [3]float64
}

// stepRegs are regions of sheets of eight pixels, also in coarser pixels.
var stepRegs = []reg{
	{[3]span{{0, 8}, {0, 8}, {0, 8}}, 3, 8, 1},
	{[3]span{{0, 3}, {6, 4}, {1, 2}}, 3, 8, 2},
	{[3]span{{7, 8}, {7, 3}, {6, 5}}, 2, 8, 1},
	{[3]span{{1, 1}, {0, 2}, {0, 7}}, 0, 8, 3},
	{[3]span{{7, 2}, {7, 2}, {7, 2}}, 1, 8, 1},
	{[3]span{{0, 4}, {3, 2}, {1, 3}}, 3, 4, 2},
	{[3]span{{1, 2}, {0, 2}, {1, 1}}, 2, 2, 4},
}

func steps(t *hx.T, c *hx.C, seg, skip, cls, pat int) {
	w := seg / skip
	top := patterns[pat].top(w)
	inc := 1
	if n := c.Pick(8, 40); top > n {
		inc = top / n
	}
	for h := 1; h <= max(top, 1); h += inc {
		sh, cubes := stepSheet(seg, skip, cls, pat, h)
		files := sh.Write(t.Dir())
		// Each region alone, then all of them in one run, from any of them on.
		run := func(first, n int, q density.Quantity) bool {
			list := []int{}
			for i := 0; i < n; i++ {
				list = append(list, (first+i)%len(stepRegs))
			}
			return stepRun(t, fmt.Sprintf("threshold %d", h), files, cubes, list, q, 1+(h+first+int(q)+pat)%6, skip)
		}
		for _, q := range []density.Quantity{density.Density, density.Velocity} {
			for ri := range stepRegs {
				if !run(ri, 1, q) {
					return
				}
			}
			if !run(h+pat, len(stepRegs), q) || !run(h+pat+3, 2+h%3, q) {
				return
			}
		}
		t.Trace()
		t.State(fmt.Sprint(seg, skip, cls, pat, h))
	}
}

// stepRun renders a list of regions of a step sheet together.
func stepRun(t *hx.T, what string, files []string, cubes []cubeAt, list []int, q density.Quantity, workers, skip int) bool {
	boxes := []render.Box{}
	for _, i := range list {
		boxes = append(boxes, stepRegs[i].box(c37L, q))
	}
	renderAll(t, files, boxes, q, workers, skip)
	for i, b := range boxes {
		r := stepRegs[list[i]]
		if t.Failed() || !bounded(t, fmt.Sprintf("%s, regions %v, region %d (%v of %d pixels along %d), %d workers, quantity %d", what, list, i, r.s, r.px, r.axis, workers, int(q)), b, r, q, cubes) {
			return false
		}
		t.Eval(len(cubes) > 1)
	}
	return true
}

// stepSheet is a sheet of the given pattern, with where its cubes lie.
func stepSheet(seg, skip, cls, pat, h int) (*rx.Sheet, []cubeAt) {
	const px = 8
	w, cw := seg/skip, c37L/px
	pixel := func(fi, i, j, k int) (p [3]int) {
		p = patterns[pat].f(w, h, i, j, k)
		base := [3]int{fi * 5 % px, (fi/2*3 + 7) % px, (7*fi + h) % px}
		for d := range p {
			p[d] += base[d]
		}
		return p
	}
	vel := func(fi int, p [3]int) [3]float64 {
		return [3]float64{float64(p[0]*3 - p[1] + fi), float64(p[1]*p[1] - 2*p[2] - fi), float64(p[2]*5 + p[0] - 3)}
	}
	sh := &rx.Sheet{N: seg * cls, Cells: cls, L: c37L}
	sh.X = func(a, b, cc, i, j, k int) (x [3]float64) {
		// Nodes left out by subsampling are put far from where their neighbours
		// are, in another pixel of the same segment.
		p := pixel(a+cls*(b+cls*cc), i/skip, j/skip, k/skip)
		n := [3]int{i, j, k}
		for d := range x {
			if i%skip != 0 || j%skip != 0 || k%skip != 0 {
				p[d] += (i + j + k + d) % 2
			}
			x[d] = (float64(p[d]) + 0.3 + 0.4*float64(n[d])/float64(seg)) * cw
		}
		return x
	}
	sh.V = func(a, b, cc, i, j, k int) (v [3]float32) {
		fi := a + cls*(b+cls*cc)
		x := vel(fi, pixel(fi, i/skip, j/skip, k/skip))
		for d := range v {
			v[d] = float32(x[d])
			if i%skip != 0 || j%skip != 0 || k%skip != 0 {
				v[d] += 500
			}
		}
		return v
	}
	cubes := []cubeAt{}
	for fi := 0; fi < cls*cls*cls; fi++ {
		for i := 0; i < w*w*w; i++ {
			var cu cubeAt
			for e := 0; e < 8; e++ {
				p := pixel(fi, i%w+e&1, i/w%w+e>>1&1, i/w/w+e>>2)
				v := vel(fi, p)
				if e == 0 {
					cu = cubeAt{p, p, v, v}
				}
				for d := range p {
					cu.lo[d], cu.hi[d] = min(cu.lo[d], p[d]), max(cu.hi[d], p[d])
					cu.vlo[d], cu.vhi[d] = math.Min(cu.vlo[d], v[d]), math.Max(cu.vhi[d], v[d])
				}
			}
			cubes = append(cubes, cu)
		}
	}
	return sh, cubes
}

// bounded compares a grid with the cubes that lie in each pixel, or reach it.
func bounded(t *hx.T, what string, b render.Box, r reg, q density.Quantity, cubes []cubeAt) bool {
	blk := rx.Block{O: b.CellOrigin(), W: b.CellSpan()}
	dims, nv := []int{}, 1
	for d := 0; d < 3; d++ {
		if d != r.axis {
			dims = append(dims, d)
			nv *= blk.W[d]
		}
	}
	type bound struct {
		pure, part, pixels int
		vlo, vhi           [3]float64
	}
	want := make([]bound, nv)
	for _, cu := range cubes {
		// Pixels of eight to the box, in pixels of this region.
		for d := range cu.lo {
			cu.lo[d], cu.hi[d] = (cu.lo[d]+8)*r.px/8, (cu.hi[d]+8)*r.px/8
		}
		hit := map[int]bool{}
		all, only := true, -1
		for x := cu.lo[0]; x <= cu.hi[0]; x++ {
			for y := cu.lo[1]; y <= cu.hi[1]; y++ {
				for z := cu.lo[2]; z <= cu.hi[2]; z++ {
					rel, ok := blk.Has([3]int{x, y, z}, r.px)
					if !ok {
						all = false
						continue
					}
					idx, str := 0, 1
					for _, d := range dims {
						idx += rel[d] * str
						str *= blk.W[d]
					}
					hit[idx] = true
					only = idx
				}
			}
		}
		for idx := range hit {
			w := &want[idx]
			if all && len(hit) == 1 && only == idx {
				w.pure++
			} else {
				w.part++
			}
			if w.pure+w.part == 1 {
				w.vlo, w.vhi = cu.vlo, cu.vhi
			}
			for d := range w.vlo {
				w.vlo[d], w.vhi[d] = math.Min(w.vlo[d], cu.vlo[d]), math.Max(w.vhi[d], cu.vhi[d])
			}
		}
	}
	s, v, cnt := rx.Vals(b)
	m := math.Pow(float64(r.px), 3) / float64(len(cubes))
	if r.axis < 3 {
		m /= float64(blk.W[r.axis])
	}
	for i, w := range want {
		if !q.RequiresVelocity() {
			if len(s) != nv {
				t.Fail("%s: %d values for %d pixels", what, len(s), nv)
				return false
			}
			lo, hi := m*float64(w.pure), m*float64(w.pure+w.part)
			if tol := 1e-6 * (hi + 1e-3); math.IsNaN(s[i]) || s[i] < lo-tol || s[i] > hi+tol {
				t.Fail("%s: pixel %d holds %g; %d cubes (%g) lie in it and %d more reach it", what, i, s[i], w.pure, lo, w.part)
				return false
			}
			continue
		}
		if len(v) != nv || len(cnt) != nv {
			t.Fail("%s: %d values for %d pixels", what, len(v), nv)
			return false
		}
		if n := 6 * r.pts; cnt[i] < n*w.pure || cnt[i] > n*(w.pure+w.part) {
			t.Fail("%s: pixel %d counts %d samples; %d cubes of %d samples lie in it and %d more reach it", what, i, cnt[i], w.pure, n, w.part)
			return false
		}
	}
	if !q.RequiresVelocity() {
		return true
	}
	x, y, z, ok := b.Vals().FinalizedVectorBuffer()
	if !ok || len(x) != nv {
		t.Fail("%s: no velocity grid", what)
		return false
	}
	for i, w := range want {
		if cnt[i] == 0 {
			continue
		}
		for d, g := range []float32{x[i], y[i], z[i]} {
			tol := 1e-4 * (1 + math.Abs(w.vlo[d]) + math.Abs(w.vhi[d]))
			if f := float64(g); math.IsNaN(f) || f < w.vlo[d]-tol || f > w.vhi[d]+tol {
				t.Fail("%s: pixel %d moves at %g along axis %d, its cubes at %g to %g", what, i, g, d, w.vlo[d], w.vhi[d])
				return false
			}
		}
	}
	return true
}
