package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
	"verif/mc/hx"
	"verif/mc/rx"
)

const ruleC01 = "every combination of particle count, cells, file split and particle order, and of ID width, float widths, units, box width and scale factor, converted by the program; every (particles, cells) pair that must be refused; every permutation, split and capacity for the particle buffer; non-trivial when particles are out of order or in several files"

// conv is one conversion.
type conv1 struct {
	n, cells   int
	split      int // how the particles are split over files
	perm       int // their order
	ib         int
	x64, v64   bool
	arepo      bool
	xu, vu, mu float64
	box, time  float64
	pos        func(x, y, z int) [3]float64 // nil: scattered
	vel        func(x, y, z int) [3]float64
}

func (c conv1) String() string {
	return fmt.Sprintf("%d^3 particles, %d cells, split %d, order %d, %d-bit IDs, doubles %v %v, units %g %g %g, box %g, a %g",
		c.n, c.cells, c.split, c.perm, c.ib, c.x64, c.v64, c.xu, c.vu, c.mu, c.box, c.time)
}

func base(n, cells int) conv1 {
	return conv1{n: n, cells: cells, ib: 64, xu: 1, vu: 1, mu: 1, box: 100, time: 1}
}

// particle gives what the particle at a Lagrangian position holds.
func (c conv1) particle(x, y, z int) (pos, vel [3]float64) {
	if c.pos != nil {
		pos = c.pos(x, y, z)
	} else {
		id := x + y*c.n + z*c.n*c.n
		cs := coords(c.box)
		for d := range pos {
			if (id+d)%3 == 0 {
				pos[d] = cs[(id/3+d)%len(cs)]
			} else {
				pos[d] = (float64((id*7+d*3)%(3*c.n*c.n*c.n)) + 0.25) / float64(3*c.n*c.n*c.n) * c.box
			}
		}
	}
	if c.vel != nil {
		vel = c.vel(x, y, z)
	} else {
		vel = [3]float64{float64(x)*31 - 40, float64(y)*17 + float64(z), -float64(z)*5 + float64(x)*0.25}
	}
	return pos, vel
}

// order gives the sequence in which particles are stored.
func order(total, kind int) []int {
	out := make([]int, total)
	for i := range out {
		switch kind {
		case 0:
			out[i] = i
		case 1:
			out[i] = total - 1 - i
		case 2: // a stride coprime to the count
			s := 3
			for gcd(s, total) != 1 {
				s++
			}
			out[i] = (i*s + 1) % total
		case 3: // neighbours swapped
			out[i] = i ^ 1
			if out[i] >= total {
				out[i] = i
			}
		case 4: // rotated by half
			out[i] = (i + total/2) % total
		}
	}
	return out
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// sizes gives how many particles each file has.
func sizes(total, kind int) []int {
	switch kind {
	case 0:
		return []int{total}
	case 1:
		return []int{1, total - 1}
	case 2:
		return []int{total / 2, 0, total - total/2}
	case 3: // growing, so that buffers are reused for longer files
		a, b := total/6, total/3
		return []int{a, b, total - a - b}
	case 5, 6: // many files
		out := make([]int, []int{12, 30}[kind-5])
		for i := range out {
			out[i] = total*(i+1)/len(out) - total*i/len(out)
		}
		return out
	default:
		b, a := total/6, total/3
		return []int{total - a - b, a, b}
	}
}

// write writes the snapshot's files.
func (c conv1) write(dir string) {
	total := c.n * c.n * c.n
	ord := order(total, c.perm)
	k := 0
	for f, size := range sizes(total, c.split) {
		s := &snapshot{order: binary.LittleEndian, idBits: c.ib, x64: c.x64, v64: c.v64, box: c.box, time: c.time, mass: 0.375,
			z: 1/c.time - 1, om: 0.27, ol: 0.73, h: 0.7, total: uint32(total)}
		for i := 0; i < size; i++ {
			p := ord[k]
			k++
			x, v := c.particle(p%c.n, p/c.n%c.n, p/c.n/c.n)
			s.ids, s.xs, s.vs = append(s.ids, uint64(p+1)), append(s.xs, x), append(s.vs, v)
		}
		b, _ := s.bytes()
		must(os.WriteFile(filepath.Join(dir, fmt.Sprintf("snap.%d", f)), b, 0644))
	}
}

func (c conv1) config(in, out string) string {
	format := "LGadget-2"
	if c.arepo {
		format = "Arepo-type-2"
	}
	return fmt.Sprintf("[ConvertSnapshot]\nInput = %s\nOutput = %s\nInputFormat = %s\nCells = %d\nGadget2IDSize = %d\nXUnits = %g\nVUnits = %g\nMUnits = %g\n",
		in, out, format, c.cells, c.ib, c.xu, c.vu, c.mu)
}

// run converts in a fresh directory and gives the files written.
func (c conv1) run(dir string) (rx.Result, map[string]string) {
	mkdirs(dir, "in")
	must(os.RemoveAll(filepath.Join(dir, "out")))
	clear(filepath.Join(dir, "in"))
	c.write(filepath.Join(dir, "in"))
	write(dir, "c.cfg", c.config("in", "out"))
	r := rx.CLI(dir, "-Threads", "2", "-ConvertSnapshot", "c.cfg")
	return r, tree(filepath.Join(dir, "out"))
}

// parseSheet decodes a sheet file by its documented layout.
func parseSheet(b string) (h io.SheetHeader, xs, vs [][3]float32, ok bool) {
	rd := bytes.NewReader([]byte(b))
	get := func(x interface{}) { ok = ok && binary.Read(rd, binary.LittleEndian, x) == nil }
	ok = true
	var flag, size int32
	get(&flag)
	get(&size)
	for _, p := range []*float64{&h.Cosmo.Z, &h.Cosmo.OmegaM, &h.Cosmo.OmegaL, &h.Cosmo.H100} {
		get(p)
	}
	for _, p := range []*int64{&h.Count, &h.CountWidth, &h.SegmentWidth, &h.GridWidth, &h.GridCount, &h.Idx, &h.Cells} {
		get(p)
	}
	get(&h.Mass)
	get(&h.TotalWidth)
	for _, p := range []*geom.Vec{&h.Origin, &h.Width, &h.VelocityOrigin, &h.VelocityWidth} {
		get((*[3]float32)(p))
	}
	if !ok || flag != 0 || size != 152 || h.GridCount < 0 || int64(rd.Len()) != 24*h.GridCount {
		return h, nil, nil, false
	}
	xs, vs = make([][3]float32, h.GridCount), make([][3]float32, h.GridCount)
	get(xs)
	get(vs)
	return h, xs, vs, ok
}

// judge compares what conversion wrote with the snapshot.
func (c conv1) judge(t *hx.T, r rx.Result, files map[string]string) bool {
	if r.Code != 0 || r.Hung {
		t.Fail("%s: %s", c, r)
		return false
	}
	if len(files) != c.cells*c.cells*c.cells {
		t.Fail("%s: %d files written, want %d", c, len(files), c.cells*c.cells*c.cells)
		return false
	}
	seen := map[int64]bool{}
	names := []string{}
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	width := c.box * c.xu
	seg := c.n / c.cells
	g := seg + 1
	rootA := math.Sqrt(c.time)
	for _, name := range names {
		h, xs, vs, ok := parseSheet(files[name])
		if !ok {
			t.Fail("%s: %s is no sheet file", c, name)
			return false
		}
		want := io.SheetHeader{Cosmo: io.CosmologyHeader{Z: 1/c.time - 1, OmegaM: 0.27, OmegaL: 0.73, H100: 0.7},
			Count: int64(c.n * c.n * c.n), CountWidth: int64(c.n), SegmentWidth: int64(seg), GridWidth: int64(g), GridCount: int64(g * g * g),
			Idx: h.Idx, Cells: int64(c.cells), Mass: h.Mass, TotalWidth: h.TotalWidth,
			Origin: h.Origin, Width: h.Width, VelocityOrigin: h.VelocityOrigin, VelocityWidth: h.VelocityWidth}
		if h != want {
			t.Fail("%s: header of %s is %+v, want %+v", c, name, h, want)
			return false
		}
		if !hx.Rel(h.Mass, 0.375*c.mu, 1e-12) || !hx.Rel(h.TotalWidth, width, 1e-12) {
			t.Fail("%s: header of %s has mass %g and box width %g, want %g and %g", c, name, h.Mass, h.TotalWidth, 0.375*c.mu, width)
			return false
		}
		if seen[h.Idx] || h.Idx < 0 || h.Idx >= int64(len(files)) {
			t.Fail("%s: index %d of %s is used twice or out of range", c, h.Idx, name)
			return false
		}
		seen[h.Idx] = true
		o := [3]int{int(h.Idx) % c.cells * seg, int(h.Idx) / c.cells % c.cells * seg, int(h.Idx) / c.cells / c.cells * seg}
		for i := range xs {
			x, y, z := (o[0]+i%g)%c.n, (o[1]+i/g%g)%c.n, (o[2]+i/g/g)%c.n
			p, v := c.particle(x, y, z)
			for d := range p {
				if !c.x64 {
					p[d] = float64(float32(p[d]))
				}
				if !c.v64 {
					v[d] = float64(float32(v[d]))
				}
				got := float64(xs[i][d])
				exact := c.xu == 1 && p[d] >= 0 && p[d] < c.box && float64(float32(p[d])) < c.box
				if exact && xs[i][d] != float32(p[d]) || !exact && !periodicNear(got, p[d]*c.xu, width, 1e-6*width) {
					t.Fail("%s: %s node %d (Lagrangian %d %d %d) is at %v, but that particle is at %v times the unit", c, name, i, x, y, z, xs[i], p)
					return false
				}
				if !(got >= 0 && got < width) {
					t.Fail("%s: %s node %d is at %v, outside the box of width %g", c, name, i, xs[i], width)
					return false
				}
				if want := v[d] * rootA * c.vu; !hx.Rel(float64(vs[i][d]), want, 1e-6) {
					t.Fail("%s: %s node %d (Lagrangian %d %d %d) has velocity %v, want component %d to be %g", c, name, i, x, y, z, vs[i], d, want)
					return false
				}
			}
		}
	}
	return true
}

func periodicNear(a, b, w, tol float64) bool {
	d := rx.Mod(a-b, w)
	return math.Min(d, w-d) <= tol
}

// chunked makes one case of each group of items.
func chunked(c *hx.C, name string, items []conv1, n int, f func(t *hx.T, cs []conv1)) {
	for i := 0; i*n < len(items); i++ {
		cs := items[i*n : min((i+1)*n, len(items))]
		c.Case(fmt.Sprintf("%s/%d", name, i), func(t *hx.T) { f(t, cs) })
	}
}

func runC01(c *hx.C) {
	items := []conv1{}
	ns := []int{1, 2, 3, 4, 6}
	if c.Thorough() {
		ns = append(ns, 5, 8, 9)
	}
	for _, n := range ns {
		for cells := 1; cells <= n; cells++ {
			if n%cells != 0 {
				continue
			}
			for split := 0; split < 5; split++ {
				if n == 1 && split > 0 {
					continue
				}
				for perm := 0; perm < 5; perm++ {
					x := base(n, cells)
					x.split, x.perm = split, perm
					items = append(items, x)
				}
			}
		}
	}
	units := [][3]float64{{1, 1, 1}, {1e-3, 1, 1e10}, {2.5, 0.5, 3}}
	for _, ib := range []int{32, 64} {
		for k := 0; k < 4; k++ {
			for _, u := range units {
				for _, box := range []float64{100, 62500, 1000.1} {
					for _, tm := range []float64{1, 0.25} {
						for _, nc := range [][2]int{{2, 1}, {4, 2}}[c.Pick(1, 0):] {
							x := base(nc[0], nc[1])
							x.ib, x.x64, x.v64, x.xu, x.vu, x.mu, x.box, x.time = ib, k&1 == 1, k&2 == 2, u[0], u[1], u[2], box, tm
							x.split, x.perm = 3, 2
							items = append(items, x)
						}
					}
				}
			}
		}
	}
	// Many files, and the other variant of the format.
	for _, nc := range [][2]int{{2, 2}, {3, 1}, {4, 2}, {18, 2}} {
		for split := 4; split < 7; split++ {
			x := base(nc[0], nc[1])
			x.split, x.perm, x.arepo = split, 2+split%2, split != 5
			items = append(items, x)
		}
	}
	// Around the buffer's capacity, and with two-digit cell indices.
	for _, nc := range [][2]int{{16, 4}, {17, 1}, {18, 3}, {11, 11}, {12, 12}, {12, 4}, {10, 10}, {42, 2}} {
		x := base(nc[0], nc[1])
		x.split, x.perm = 4, 2
		items = append(items, x)
	}
	if c.Thorough() {
		for _, nc := range [][2]int{{16, 16}, {24, 12}, {22, 11}, {32, 2}, {26, 13}, {17, 17}} {
			x := base(nc[0], nc[1])
			x.split, x.perm = 3, 2
			items = append(items, x)
		}
	}
	chunked(c, "convert", items, 8, func(t *hx.T, cs []conv1) {
		dir := t.Dir()
		for _, x := range cs {
			r, files := x.run(dir)
			t.Eval(x.perm != 0 || x.split != 0)
			x.judge(t, r, files)
			t.Outcome(fmt.Sprint(x.n, x.cells, len(files)))
			t.Sample("%s", x)
		}
	})
	refuse := []conv1{}
	for n := 1; n <= c.Pick(6, 9); n++ {
		for cells := 1; cells <= n+3; cells++ {
			if n%cells != 0 {
				refuse = append(refuse, base(n, cells))
			}
		}
	}
	chunked(c, "refuse", refuse, 8, func(t *hx.T, cs []conv1) {
		dir := t.Dir()
		for _, x := range cs {
			r, files := x.run(dir)
			t.Eval(true)
			if r.Code == 0 || r.Hung {
				t.Fail("%d^3 particles in %d cells are converted to %d files, dropping particles", x.n, x.cells, len(files))
			}
		}
	})
	c.Case("incomplete", incomplete)
	c.Case("iterated", iterated)
	for n := 1; n <= c.Pick(6, 7); n++ {
		for cp := 1; cp <= n+1; cp++ {
			n, cp := n, cp
			c.Case(fmt.Sprintf("buffer/%d/%d", n, cp), func(t *hx.T) { bufferPerms(t, n, cp) })
		}
	}
}

// incomplete converts snapshots that lack some of their files.
func incomplete(t *hx.T) {
	for split := 1; split < 5; split++ {
		x := base(4, 2)
		x.split = split
		for f := 0; f < 3; f++ {
			dir := filepath.Join(t.Dir(), fmt.Sprint(split, "-", f))
			mkdirs(dir, "in")
			x.write(filepath.Join(dir, "in"))
			sz := sizes(64, split)
			if f >= len(sz) || sz[f] == 0 {
				continue
			}
			must(os.Remove(filepath.Join(dir, "in", fmt.Sprintf("snap.%d", f))))
			write(dir, "c.cfg", x.config("in", "out"))
			r := rx.CLI(dir, "-ConvertSnapshot", "c.cfg")
			t.Eval(true)
			if r.Code == 0 || r.Hung {
				t.Fail("a snapshot whose file with %d of its 64 particles is missing is converted", sz[f])
			}
		}
	}
}

// iterated converts series of snapshots.
func iterated(t *hx.T) {
	for _, present := range []int{1, 2, 4, 12} {
		for start := 0; start < 3; start++ {
			for end := -2; end < present+1; end++ {
				if present > 4 && end >= 0 && end < present-2 {
					continue
				}
				dir := filepath.Join(t.Dir(), fmt.Sprint(present, "-", start, "-", end+2))
				xs := map[int]conv1{}
				for i := 0; i < present; i++ {
					x := base(2+i%3, 1)
					x.perm, x.box = i%3, 100+float64(i)
					mkdirs(dir, fmt.Sprintf("snap_%03d", i))
					x.write(filepath.Join(dir, fmt.Sprintf("snap_%03d", i)))
					xs[i] = x
				}
				cfg := strings.Replace(base(2, 1).config("x", "y"), "Input = x\nOutput = y\n", "IteratedInput = snap_%03d\nIteratedOutput = sheet_%03d\n", 1)
				cfg += fmt.Sprintf("IterationStart = %d\n", start)
				if end > -2 {
					cfg += fmt.Sprintf("IterationEnd = %d\n", end)
				}
				write(dir, "c.cfg", cfg)
				r := rx.CLI(dir, "-ConvertSnapshot", "c.cfg")
				t.Eval(end < 0)
				what := fmt.Sprintf("%d snapshots converted from %d to %d (-1: no end)", present, start, max(end, -1))
				last := end
				if end < 0 {
					last = present - 1
				}
				if end >= present && end >= start && r.Code == 0 {
					t.Fail("%s: succeeds though snapshot %d does not exist", what, end)
				}
				if end < present && start <= last && r.Code != 0 {
					t.Fail("%s: %s", what, r)
				}
				for i := 0; i < present+1; i++ {
					files := tree(filepath.Join(dir, fmt.Sprintf("sheet_%03d", i)))
					if i < start || i > last || i >= present {
						if len(files) > 0 {
							t.Fail("%s: snapshot %d is converted too", what, i)
						}
						continue
					}
					xs[i].judge(t, rx.Result{}, files)
				}
			}
		}
	}
}

// bufferPerms appends every permutation of n particles in every split.
func bufferPerms(t *hx.T, n, cp int) {
	hx.Perms(n, func(p []int) {
		for cut := 0; cut <= n; cut++ {
			xs, vs := make([]geom.Vec, n), make([]geom.Vec, n)
			b := io.NewParticleBuffer(xs, vs, cp)
			px, pv, ids := []geom.Vec{}, []geom.Vec{}, []int64{}
			for _, i := range p {
				px = append(px, geom.Vec{float32(i) + 1, float32(i) * 2, -float32(i) - 1})
				pv = append(pv, geom.Vec{float32(i) - 7, float32(i)*3 + 1, 5})
				ids = append(ids, int64(i)+1)
			}
			b.Append(px[:cut], pv[:cut], ids[:cut])
			// The caller reuses its buffers.
			qx, qv, qi := append([]geom.Vec{}, px[cut:]...), append([]geom.Vec{}, pv[cut:]...), append([]int64{}, ids[cut:]...)
			for i := range px {
				px[i], pv[i], ids[i] = geom.Vec{-1, -1, -1}, geom.Vec{-1, -1, -1}, 1
			}
			b.Append(qx, qv, qi)
			b.Flush()
			t.Eval(cut > 0 && cut < n)
			for i := range xs {
				if xs[i] != (geom.Vec{float32(i) + 1, float32(i) * 2, -float32(i) - 1}) || vs[i] != (geom.Vec{float32(i) - 7, float32(i)*3 + 1, 5}) {
					t.Fail("particles %v appended %d and %d at a time with capacity %d: slot %d holds %v, %v", p, cut, n-cut, cp, i, xs[i], vs[i])
					return
				}
			}
		}
	})
	t.Sample("%d particles, capacity %d", n, cp)
}
