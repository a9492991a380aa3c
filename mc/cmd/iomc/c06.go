package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"path/filepath"

	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
	"verif/mc/hx"
)

const ruleC06 = "every quantity, projection axis and span of the alphabet written and read back, and every history of writes and reads up to a bound over two paths; a state is what each path holds"

// grid is a finished buffer, its header fields and the values it must have.
type grid struct {
	q    density.Quantity
	axis int // 3: none
	span [3]int
	salt int
}

func (g grid) n() int {
	n := 1
	for d, s := range g.span {
		if d != g.axis {
			n *= s
		}
	}
	return n
}

func (g grid) vector() bool { return g.q != density.Density && g.q != density.VelocityDivergence }

func (g grid) buffer() density.Buffer {
	loc := geom.NewGridLocation([3]int{1, 2, 3}, g.span, 12, 12)
	b := density.NewBuffer(g.q, g.n(), 4, loc)
	if s, ok := b.ScalarBuffer(); ok {
		for i := range s {
			s[i] = g.val(i, 0)
		}
	} else {
		v, _ := b.VectorBuffer()
		num, _ := b.CountBuffer()
		for i := range v {
			for d := range v[i] {
				v[i][d] = g.val(i, d)
			}
			num[i] = i % 4
		}
	}
	return b
}

func (g grid) val(i, d int) float64 {
	return float64((i*13+d*7+g.salt*5)%31)*0.37 + float64(g.salt) - 3
}

// values are the finalized components.
func (g grid) values() [][]float32 {
	b := g.buffer()
	if s, ok := b.FinalizedScalarBuffer(); ok {
		return [][]float32{s}
	}
	x, y, z, ok := b.FinalizedVectorBuffer()
	if !ok {
		panic(hx.HarnessError{Msg: "buffer is neither scalar nor vector"})
	}
	return [][]float32{x, y, z}
}

func (g grid) info() (io.CosmoInfo, io.RenderInfo, io.LocationInfo) {
	c := io.CosmoInfo{Redshift: 1.5, ScaleFactor: 0.4, OmegaM: 0.27, OmegaL: 0.73, Hubble: 70,
		RhoMean: 1e11 / 3, RhoCritical: 2e11 / 7, BoxWidth: 62.5 + float64(g.salt)}
	axis := int64(-1)
	if g.axis < 3 {
		axis = int64(g.axis)
	}
	r := io.RenderInfo{Particles: 25, TotalPixels: 500 + int64(g.salt), SubsampleLength: 4, MinProjectionDepth: 3, ProjectionAxis: axis}
	l := io.LocationInfo{PixelWidth: 0.125}
	for d := 0; d < 3; d++ {
		l.PixelSpan[d] = int64(g.span[d])
		l.PixelOrigin[d] = int64(100*d + g.salt)
		l.Origin[d] = float64(l.PixelOrigin[d]) / 8
		l.Span[d] = float64(g.span[d]) / 8
	}
	return c, r, l
}

// file is the documented layout.
func (g grid) file() []byte {
	w := &bytes.Buffer{}
	put := func(x interface{}) { must(binary.Write(w, binary.LittleEndian, x)) }
	c, r, l := g.info()
	put(uint64(0x7ffffffffffffffe))
	vec := int64(0)
	if g.vector() {
		vec = 1
	}
	put([]int64{344, int64(g.q), vec})
	put([]float64{c.Redshift, c.ScaleFactor, c.OmegaM, c.OmegaL, c.Hubble, c.RhoMean, c.RhoCritical, c.BoxWidth})
	put([]int64{r.Particles, r.TotalPixels, r.SubsampleLength, r.MinProjectionDepth, r.ProjectionAxis})
	put([]float64{l.Origin[0], l.Origin[1], l.Origin[2], l.Span[0], l.Span[1], l.Span[2]})
	put([]int64{l.PixelOrigin[0], l.PixelOrigin[1], l.PixelOrigin[2], l.PixelSpan[0], l.PixelSpan[1], l.PixelSpan[2]})
	put(l.PixelWidth)
	put([104]byte{})
	for _, v := range g.values() {
		put(v)
	}
	return w.Bytes()
}

func runC06(c *hx.C) {
	spans := [][3]int{{5, 5, 5}, {5, 6, 7}, {7, 5, 6}, {6, 7, 5}, {8, 5, 5}}
	spans = append(spans, [3]int{40, 30, 20}, [3]int{9, 65, 33}, [3]int{5, 7, 129}, [3]int{43, 40, 41})
	small := [][3]int{{1, 1, 1}, {2, 3, 4}, {4, 2, 3}, {1, 5, 2}, {3, 1, 1}, {6, 5, 4}}
	if c.Thorough() {
		spans = append(spans, [3]int{11, 9, 10}, [3]int{12, 5, 8}, [3]int{16, 16, 16})
		for i := 1; i <= 5; i++ {
			for j := 1; j <= 5; j++ {
				for k := 1; k <= 5; k++ {
					s := [3]int{i, j, k}
					if s != [3]int{5, 5, 5} && s != [3]int{1, 1, 1} && s != [3]int{2, 3, 4} && s != [3]int{4, 2, 3} && s != [3]int{1, 5, 2} && s != [3]int{3, 1, 1} {
						small = append(small, s)
					}
				}
			}
		}
	}
	kinds := []grid{}
	for q := density.Density; q < density.EndQuantity; q++ {
		for _, s := range spans {
			kinds = append(kinds, grid{q, 3, s, int(q)})
		}
		if q == density.Density || q == density.Velocity {
			for _, s := range append(append([][3]int{}, small...), spans...) {
				for axis := 0; axis < 4; axis++ {
					if axis == 3 && s[0]+s[1]+s[2] > 14 {
						continue
					}
					kinds = append(kinds, grid{q, axis, s, axis})
				}
			}
		}
	}
	seen := map[grid]bool{}
	for _, g := range kinds {
		if seen[g] {
			continue
		}
		seen[g] = true
		g := g
		c.Case(fmt.Sprintf("grid/q%d/%v/axis%d/%d", g.q, g.span, g.axis, g.salt), func(t *hx.T) {
			p := filepath.Join(t.Dir(), "g.gtet")
			writeGrid(t, p, g)
			readGrid(t, p, g)
			t.Eval(g.vector() || g.axis < 3)
			t.Outcome(fmt.Sprint(g))
			t.Sample("quantity %d, span %v, projection axis %d", g.q, g.span, g.axis)
		})
	}
	few := []grid{{density.Density, 3, [3]int{2, 3, 4}, 0}, {density.Velocity, 3, [3]int{3, 2, 2}, 1}, {density.Density, 1, [3]int{2, 3, 4}, 2}, {density.VelocityCurl, 3, [3]int{5, 5, 5}, 3}, {density.VelocityDivergence, 3, [3]int{5, 6, 5}, 4}}
	nops := len(few)*2 + 3
	depth := c.Pick(4, 5)
	for a := 0; a < nops; a++ {
		a := a
		c.Case(fmt.Sprintf("history/%d", a), func(t *hx.T) {
			dir := t.Dir()
			hx.Seqs(nops, depth-1, func(h []int) {
				if !t.Failed() {
					gridHistory(t, dir, few, append([]int{a}, h...))
				}
			})
		})
	}
	c.Case("infos", infos)
}

func writeGrid(t *hx.T, p string, g grid) {
	cos, ren, loc := g.info()
	b := g.buffer()
	f, err := os.Create(p)
	must(err)
	io.WriteBuffer(b, cos, ren, loc, f)
	must(f.Close())
	got, err := os.ReadFile(p)
	must(err)
	if want := g.file(); !bytes.Equal(got, want) {
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		t.Fail("grid %+v is written as %d bytes, want %d; first difference at byte %d", g, len(got), len(want), i)
	}
}

func readGrid(t *hx.T, p string, g grid) {
	n := openFiles()
	hd, err := io.ReadGridHeader(p)
	if err != nil {
		t.Fail("header of %+v: %v", g, err)
		return
	}
	cos, ren, loc := g.info()
	vec := int64(0)
	if g.vector() {
		vec = 1
	}
	want := io.GridHeader{EndiannessVersion: 0x7ffffffffffffffe, Type: io.TypeInfo{HeaderSize: 344, GridType: int64(g.q), IsVectorGrid: vec},
		Cosmo: cos, Render: ren, Loc: loc}
	if *hd != want {
		t.Fail("header of %+v reads back as %+v", g, *hd)
		return
	}
	vals, err := io.ReadGrid(p)
	if g.vector() {
		if err == nil {
			t.Fail("vector grid %+v is read as a scalar grid", g)
		}
	} else {
		w := g.values()[0]
		if err != nil || len(vals) != len(w) {
			t.Fail("grid %+v reads back with %d values, want %d (error %v)", g, len(vals), len(w), err)
			return
		}
		for i := range w {
			if vals[i] != float64(w[i]) {
				t.Fail("grid %+v: value %d reads back as %g, was %g", g, i, vals[i], w[i])
				return
			}
		}
	}
	if m := openFiles(); m > n {
		t.Fail("reading a grid leaves a file open")
	}
}

func gridHistory(t *hx.T, dir string, few []grid, h []int) {
	path := []string{filepath.Join(dir, "p"), filepath.Join(dir, "q")}
	has := []int{-1, -1}
	for _, p := range path {
		os.Remove(p)
	}
	for i, k := range h {
		t.Trans(1)
		switch {
		case k < 2*len(few):
			writeGrid(t, path[k%2], few[k/2])
			has[k%2] = k / 2
		case k == 2*len(few)+2:
			must(os.WriteFile(path[0], bytes.Repeat([]byte{3}, 500), 0644))
			os.Remove(path[0])
			has[0] = -1
		default:
			w := k - 2*len(few)
			t.Eval(i > 0)
			if has[w] >= 0 {
				readGrid(t, path[w], few[has[w]])
			} else {
				if _, err := io.ReadGrid(path[w]); err == nil {
					t.Fail("a missing file is read as a grid")
				}
				if _, err := io.ReadGridHeader(path[w]); err == nil {
					t.Fail("a missing file is read as a grid header")
				}
			}
		}
		t.State(fmt.Sprint(has, h[:i+1]))
		if t.Failed() {
			t.Fail("history %v", h)
			return
		}
	}
	for w, k := range has {
		if k >= 0 {
			readGrid(t, path[w], few[k])
		}
	}
	t.Trace()
}

// infos: the constructors of the header's parts.
func infos(t *hx.T) {
	for _, o := range [][3]int{{0, 0, 0}, {1, 2, 3}, {99, 0, 7}} {
		for _, s := range [][3]int{{1, 1, 1}, {4, 5, 6}, {100, 1, 3}} {
			for _, w := range []float64{1, 0.125, 0.3, 2.5} {
				l := io.NewLocationInfo(o, s, w)
				t.Eval(true)
				for d := 0; d < 3; d++ {
					if l.PixelOrigin[d] != int64(o[d]) || l.PixelSpan[d] != int64(s[d]) || l.PixelWidth != w ||
						hx.Off(l.Origin[d], float64(o[d])*w, 1e-12) || hx.Off(l.Span[d], float64(s[d])*w, 1e-12) {
						t.Fail("location of origin %v span %v width %g is %+v", o, s, w, l)
					}
				}
			}
		}
	}
	for _, p := range []int{1, 5, 25} {
		for _, c := range []int{10, 500, 4096} {
			for _, k := range []int{1, 2, 8} {
				for a, s := range []string{"X", "Y", "Z", ""} {
					r := io.NewRenderInfo(p, c, k, s)
					t.Eval(true)
					axis := int64(a)
					if a == 3 {
						axis = -1
					}
					if r.Particles != int64(p) || r.TotalPixels != int64(c) || r.SubsampleLength != int64(k) || r.ProjectionAxis != axis {
						t.Fail("render info of %d particles, %d pixels, subsampling %d, axis %q is %+v", p, c, k, s, r)
					}
				}
			}
		}
	}
	depths(t)
	for _, z := range []float64{0, 0.5, 3} {
		ci := io.NewCosmoInfo(70, 0.3, 0.7, z, 125)
		t.Eval(true)
		if ci.Redshift != z || hx.Off(ci.ScaleFactor, 1/(1+z), 1e-12) || ci.OmegaM != 0.3 || ci.OmegaL != 0.7 || ci.Hubble != 70 || ci.BoxWidth != 125 {
			t.Fail("cosmology of redshift %g is %+v", z, ci)
		}
	}
}

// depths: the depth suggested for projections keeps the samples of a projected
// pixel at one number, which no setting changes. A sheet of C particles a side
// puts particles*6*(C/subsampling)^3 samples in pixels^3 pixels, so the depth is
// proportional to pixels^3 * subsampling^3 / particles, up to the next whole one.
func depths(t *hx.T) {
	type set struct{ p, c, k int }
	var all []set
	for _, p := range []int{1, 2, 5, 25, 100, 1000} {
		for _, c := range []int{1, 10, 500, 1000, 2000, 4096, 5000, 10000, 20000} {
			for _, k := range []int{1, 2, 4, 8} {
				all = append(all, set{p, c, k})
			}
		}
	}
	// Each suggestion, n, says that the exact depth is in (n-1, n]: all of
	// them have to agree on one constant of proportion.
	lo, hi := 0.0, math.Inf(1)
	var los, his set
	for _, a := range all {
		n := float64(io.NewRenderInfo(a.p, a.c, a.k, "").MinProjectionDepth)
		t.Eval(true)
		if n < 1 {
			t.Fail("%d particles, %d pixels, subsampling %d: a projection depth of %g is suggested", a.p, a.c, a.k, n)
		}
		unit := math.Pow(float64(a.c)*float64(a.k), 3) / float64(a.p)
		if v := (n - 1) / unit * (1 - 1e-12); v > lo {
			lo, los = v, a
		}
		if v := n / unit * (1 + 1e-12); v < hi {
			hi, his = v, a
		}
	}
	if lo > hi {
		t.Fail("the projection depths suggested for %d particles, %d pixels, subsampling %d and for %d particles, %d pixels, subsampling %d are not in proportion to the pixels over the samples: %d and %d",
			los.p, los.c, los.k, his.p, his.c, his.k,
			io.NewRenderInfo(los.p, los.c, los.k, "").MinProjectionDepth, io.NewRenderInfo(his.p, his.c, his.k, "").MinProjectionDepth)
	}
}
