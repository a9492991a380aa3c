// Command histmc decides C18: the tetrahedron histograms of render.HistManager.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"

	"github.com/phil-mansfield/gotetra/render"
	"github.com/phil-mansfield/gotetra/render/io"
	"verif/mc/hx"
	"verif/mc/rx"
)

func main() {
	hx.Main(map[string]hx.Prop{
		"C18": {Rule: ruleC18, Run: runC18, Workers: 1, Assumptions: []string{
			"tetrahedra span less than half the box",
			"samples of a tetrahedron lie in the convex hull of its corners (C14); where a hull crosses a pixel or region face, its samples may count on either side",
		}},
	})
}

const ruleC18 = "every region of a lattice of windows (wrapping ones included) over files collapsed to one point, where counts are exact; every value list and bin layout; every worker count, subsampling length and file order over one-pixel files; every history of subsampling and histogram calls up to a bound; lattice sheets with two-sided bounds; each of 64 regions cutting a sheet, reflected and moved across the faces of the box in every way, with its share to within seven standard deviations; non-trivial when something is counted and something is not. A state is a manager's subsampling length with the histograms it holds"

const L = 8.0

func must(err error) {
	if err != nil {
		panic(hx.HarnessError{Msg: err.Error()})
	}
}

// field is a density grid over part of the box.
type field struct {
	o, n [3]int // pixel origin and span
	pw   float64
	val  func(i, j, k int) float64 // relative pixel
}

func (f field) write(p string) {
	w := &bytes.Buffer{}
	put := func(x interface{}) { must(binary.Write(w, binary.LittleEndian, x)) }
	put(uint64(0x7ffffffffffffffe))
	put([]int64{344, 0, 0})
	put([]float64{0.5, 1 / 1.5, 0.25, 0.75, 50, 1, 1, L})
	put([]int64{4, int64(L / f.pw), 1, 1, -1})
	for _, v := range [][3]int{f.o, f.n} {
		for d := range v {
			put(float64(v[d]) * f.pw)
		}
	}
	for _, v := range [][3]int{f.o, f.n} {
		for d := range v {
			put(int64(v[d]))
		}
	}
	put(f.pw)
	put([104]byte{})
	for k := 0; k < f.n[2]; k++ {
		for j := 0; j < f.n[1]; j++ {
			for i := 0; i < f.n[0]; i++ {
				put(float32(f.val(i, j, k)))
			}
		}
	}
	must(os.WriteFile(p, w.Bytes(), 0644))
}

// at gives the value of the pixel holding x.
func (f field) at(x [3]float64) (float64, bool) {
	idx := [3]int{}
	for d := range x {
		r := rx.Mod(x[d]-float64(f.o[d])*f.pw, L)
		idx[d] = int(math.Floor(r / f.pw))
		if idx[d] >= f.n[d] {
			return 0, false
		}
	}
	return float64(float32(f.val(idx[0], idx[1], idx[2]))), true
}

// bin is the bin a value falls in, or -1.
func bin(in *render.HistInfo, x float64) int {
	if math.IsNaN(x) {
		return -1
	}
	lo, hi := in.Min, in.Max
	if in.Scale == "Log" || in.Scale == "log" {
		if x <= 0 {
			return -1
		}
		lo, hi, x = math.Log(lo), math.Log(hi), math.Log(x)
	}
	if x < lo || x >= hi {
		return -1
	}
	return int(math.Floor((x - lo) / (hi - lo) * float64(in.Bins)))
}

func inside(b *render.HistBox, x [3]float64) bool {
	for d := range x {
		if rx.Mod(x[d]-b.Origin[d], L) >= b.Span[d] {
			return false
		}
	}
	return true
}

func newBox(o, s [3]float64, bins int) render.HistBox {
	return render.NewHistBox(&io.BoxConfig{X: o[0], Y: o[1], Z: o[2], XWidth: s[0], YWidth: s[1], ZWidth: s[2]}, bins)
}

var lock sync.Mutex

// manager makes a manager with the given number of workers.
func manager(files []string, boxes []render.HistBox, pts, workers int, grid string) *render.HistManager {
	lock.Lock()
	defer lock.Unlock()
	render.NumCores = workers
	m, err := render.NewHistManager(files, boxes, pts, "Density", grid)
	if err != nil {
		panic(fmt.Sprintf("NewHistManager: %v", err))
	}
	return m
}

func centers(t *hx.T, what string, in *render.HistInfo, b *render.HistBox) {
	if len(b.Centers) != in.Bins || len(b.Counts) != in.Bins {
		t.Fail("%s: %d centres and %d counts for %d bins", what, len(b.Centers), len(b.Counts), in.Bins)
		return
	}
	for i, c := range b.Centers {
		f := (float64(i) + 0.5) / float64(in.Bins)
		want := in.Min + (in.Max-in.Min)*f
		if in.Scale == "Log" {
			want = in.Min * math.Pow(in.Max/in.Min, f)
		}
		if !hx.Near(c, want, math.Abs(in.Min)+math.Abs(in.Max), 1e-10) {
			t.Fail("%s: centre of bin %d is %g, want %g", what, i, c, want)
		}
	}
}

// sparse lists the bins that are not empty.
func sparse(c []int) string {
	s := ""
	for i, n := range c {
		if n != 0 {
			s += fmt.Sprintf(" %d:%d", i, n)
		}
	}
	return "{" + s + " }"
}

// compare checks the counts of one region.
func compare(t *hx.T, what string, in *render.HistInfo, b *render.HistBox, want []int) bool {
	centers(t, what, in, b)
	for i := range want {
		if i >= len(b.Counts) || b.Counts[i] != want[i] {
			t.Fail("%s: region %v+%v counts %v, want %v", what, b.Origin, b.Span, sparse(b.Counts), sparse(want))
			return false
		}
	}
	return true
}

// points is a sheet whose files are each collapsed to one point.
func points(n int, at func(a, b, c int) [3]float64) *rx.Sheet {
	return &rx.Sheet{N: n, Cells: 2, L: L, X: func(a, b, c, i, j, k int) [3]float64 { return at(a, b, c) }}
}

func each2(f func(a, b, c int)) {
	for c := 0; c < 2; c++ {
		for b := 0; b < 2; b++ {
			for a := 0; a < 2; a++ {
				f(a, b, c)
			}
		}
	}
}

func pixelGrid(pw float64) field {
	n := int(L / pw)
	return field{n: [3]int{n, n, n}, pw: pw, val: func(i, j, k int) float64 { return float64(i+n*j+n*n*k) + 0.5 }}
}

func runC18(c *hx.C) {
	coord := []float64{0, 0.5, 1, 2.5, 4, 5.75, 7.5, 7.9375}
	origins := []float64{0, 0.5, 1, 2.5, 4, 7.5}
	spans := []float64{0.5, 1, 1.5, 4, 7.5, 8}
	if c.Thorough() {
		origins, spans = nil, nil
		for x := 0.0; x < L; x += 0.5 {
			origins, spans = append(origins, x), append(spans, x+0.5)
		}
	}
	for d := 0; d < 3; d++ {
		for i, x := range coord {
			for _, y := range coord[i:] {
				d, x, y := d, x, y
				c.Case(fmt.Sprintf("window/%d/%g/%g", d, x, y), func(t *hx.T) { windows(t, d, x, y, origins, spans) })
			}
		}
	}
	c.Case("fields", fields)
	for d := 0; d < 3; d++ {
		d := d
		c.Case(fmt.Sprintf("ends/%d", d), func(t *hx.T) { ends(t, d, c.Pick(400, 1000)) })
	}
	c.Case("bins", bins)
	for _, n := range []int{2, 4, 8} {
		for _, cells := range []int{1, 2} {
			for workers := 1; workers <= c.Pick(6, 12); workers++ {
				n, cells, workers := n, cells, workers
				c.Case(fmt.Sprintf("workers/%d/%d/%d", n, cells, workers), func(t *hx.T) { workersCase(t, n, cells, workers, 1, 5) })
			}
		}
	}
	// Large instances.
	for i, b := range [][4]int{{16, 1, 3, 1}, {32, 2, 5, 1}, {10, 5, 4, 2}, {6, 6, 7, 1}, {4, 2, 33, 3}, {8, 1, 64, 2}, {2, 1, 2, 300}, {4, 4, 2, 1100}} {
		b := b
		c.Case(fmt.Sprintf("large/%d", i), func(t *hx.T) { workersCase(t, b[0], b[1], b[2], b[3]) })
	}
	for workers := 1; workers <= 3; workers++ {
		workers := workers
		depth := c.Pick(4, 5)
		c.Case(fmt.Sprintf("history/%d", workers), func(t *hx.T) { histories(t, workers, depth) })
	}
	for _, n := range []int{2, 4, 6} {
		for s := 0; s < c.Pick(6, 12); s++ {
			n, s := n, s
			c.Case(fmt.Sprintf("lattice/%d/shift%d", n, s), func(t *hx.T) { lattice(t, n, float64(s)*8/6+0.01) })
		}
	}
	if bin := os.Getenv("VERIF_RACE_BIN"); bin != "" {
		for w := 2; w <= c.Pick(4, 8); w++ {
			w := w
			c.Case(fmt.Sprintf("race/workers%d", w), func(t *hx.T) {
				for _, cs := range []string{"workers/4/1/%d", "workers/4/2/%d"} {
					cmd := exec.Command(bin, "-prop", "C18", "-budget", "100", "-out", filepath.Join(t.Dir(), "r.json"), "-case", fmt.Sprintf(cs, w))
					cmd.Env = append(os.Environ(), "VERIF_RACE_BIN=")
					out, err := cmd.CombinedOutput()
					s := string(out)
					t.Eval(true)
					if i := strings.Index(s, "DATA RACE"); i >= 0 {
						t.Fail("unsynchronised access with %d workers: %s", w, s[i:min(len(s), i+900)])
					} else if strings.Contains(s, "harness") {
						panic(hx.HarnessError{Msg: s})
					} else if err != nil {
						t.Fail("free-running histogram with %d workers: %v: %s", w, err, s[:min(len(s), 500)])
					}
					t.Extra("race_detector_passes", 1)
				}
			})
		}
	}
	for axes := 0; axes < 8; axes++ {
		axes := axes
		c.Case(fmt.Sprintf("boundary/%d", axes), func(t *hx.T) { boundary(t, axes) })
	}
	for flip := 0; flip < 8; flip++ {
		flip := flip
		c.Case(fmt.Sprintf("shares/%d", flip), func(t *hx.T) { shares(t, flip, c.Pick(1, 0)) })
	}
	for _, skip := range []int{3, 5, 6, 0, -2, 4} {
		skip := skip
		c.Case(fmt.Sprintf("refuse/%d", skip), func(t *hx.T) {
			dir := t.Dir()
			files := points(4, func(a, b, c int) [3]float64 { return [3]float64{1, 1, 1} }).Write(dir)
			g := filepath.Join(dir, "g")
			pixelGrid(1).write(g)
			m := manager(files, []render.HistBox{newBox([3]float64{}, [3]float64{8, 8, 8}, 4)}, 2, 1, g)
			err := hx.Try(func() { m.Subsample(skip) })
			t.Eval(true)
			t.Trace()
			if err == nil {
				t.Fail("subsampling length %d is accepted for segments of width 2", skip)
			}
		})
	}
}

// boundary puts a sheet across the faces of the box on some axes.
func boundary(t *hx.T, axes int) {
	dir := t.Dir()
	g := filepath.Join(dir, "g")
	f := field{n: [3]int{8, 8, 8}, pw: 1, val: func(i, j, k int) float64 { return 2.5 }}
	f.write(g)
	in := &render.HistInfo{Min: 0, Max: 4, Bins: 4, Scale: "Linear"}
	for si, off := range []float64{-0.02, -0.3, -0.5, -0.9, -0.98} {
		sub := filepath.Join(dir, fmt.Sprint(si))
		must(os.MkdirAll(sub, 0755))
		lo := [3]float64{}
		for d := range lo {
			lo[d] = 3 + off
			if axes>>d&1 == 1 {
				lo[d] = off
			}
		}
		sh := &rx.Sheet{N: 2, Cells: 1, L: L, X: func(a, b, c, i, j, k int) [3]float64 {
			u := [3]float64{float64(i) / 2, float64(2-j) / 2, float64(k) / 2}
			return [3]float64{lo[0] + u[0], lo[1] + 0.5*u[1] + 0.5*u[0], lo[2] + u[2]}
		}}
		files := sh.Write(sub)
		boxes, sure := []render.HistBox{}, []bool{}
		hx.Product([]int{3, 3, 3}, func(w []int) {
			o, s, in := [3]float64{}, [3]float64{}, true
			for d := range o {
				switch w[d] {
				case 0: // just around the sheet
					o[d], s[d] = rx.Mod(lo[d]-0.01, L), 1.02
				case 1: // all but the sheet
					o[d], s[d] = rx.Mod(lo[d]+1.01, L), L-1.02
					in = false
				case 2:
					o[d], s[d] = rx.Mod(lo[d]+4, L), L
				}
			}
			boxes, sure = append(boxes, newBox(o, s, 4)), append(sure, in)
		})
		for _, skip := range []int{1, 2} {
			m := manager(files, boxes, 9, 2, g)
			m.Subsample(skip)
			t.Trans(2)
			t.Trace()
			if err := m.Hist(in); err != nil {
				t.Fail("Hist: %v", err)
			}
			for i := range boxes {
				want := make([]int, 4)
				if sure[i] {
					want[2] = 54 * (2 / skip) * (2 / skip) * (2 / skip)
				}
				t.Eval(axes > 0 && sure[i])
				t.State(fmt.Sprint(skip, sure[i], axes))
				if !compare(t, fmt.Sprintf("sheet from %v of width 1, subsampling %d", lo, skip), in, &boxes[i], want) {
					return
				}
			}
		}
	}
	t.Sample("axes %03b: 27 regions", axes)
}

// shares cuts a sheet, which runs up or down each axis, into 64 regions: each
// gets about its share of the samples.
func shares(t *hx.T, flip, seams int) {
	dir := t.Dir()
	g := filepath.Join(dir, "g")
	f := field{n: [3]int{8, 8, 8}, pw: 1, val: func(i, j, k int) float64 { return 2.5 }}
	f.write(g)
	in := &render.HistInfo{Min: 0, Max: 4, Bins: 4, Scale: "Linear"}
	const pts = 800
	for seam := 0; seam < 8; seam++ {
		if seams == 1 && seam != 0 && seam != 7 && seam != flip {
			continue
		}
		t.Beat()
		sub := filepath.Join(dir, fmt.Sprint(seam))
		must(os.MkdirAll(sub, 0755))
		lo := [3]float64{}
		for d := range lo {
			lo[d] = 3 + 0.5*float64(d)
			if seam>>d&1 == 1 {
				lo[d] = []float64{7.25, 7.75, 6.5}[d] // across the face of the box
			}
		}
		const side = 2.0
		sh := &rx.Sheet{N: 2, Cells: 1, L: L, X: func(a, b, c, i, j, k int) [3]float64 {
			x := [3]float64{}
			for d, n := range [3]int{i, j, k} {
				u := float64(n) / 2
				if flip>>d&1 == 1 {
					u = 1 - u
				}
				x[d] = lo[d] + side*u
			}
			return x
		}}
		files := sh.Write(sub)
		boxes, share := []render.HistBox{}, []float64{}
		hx.Product([]int{4, 4, 4}, func(w []int) {
			o, s, p := [3]float64{}, [3]float64{}, 1.0
			for d := range o {
				o[d] = rx.Mod(lo[d]+[]float64{-1, 0.5, 1.5, -2}[w[d]], L)
				s[d] = []float64{1.5, 1, 1.5, 1.75}[w[d]]
				p *= []float64{0.25, 0.5, 0.25, 0}[w[d]]
			}
			boxes, share = append(boxes, newBox(o, s, 4)), append(share, p)
		})
		for _, skip := range []int{1, 2} {
			m := manager(files, boxes, pts, 2, g)
			m.Subsample(skip)
			t.Trans(2)
			t.Trace()
			if err := m.Hist(in); err != nil {
				t.Fail("Hist: %v", err)
			}
			per := 2 / skip
			for i := range boxes {
				t.Eval(share[i] > 0)
				want := share[i] * float64(6*pts*per*per*per)
				t.State(fmt.Sprint(flip, seam, skip, i))
				// The samples are random: seven standard deviations.
				slack := 7 * math.Sqrt(want)
				for b, n := range boxes[i].Counts {
					if x := float64(n); b == 2 && math.Abs(x-want) > slack || b != 2 && n != 0 {
						t.Fail("sheet from %v of width %g (reflection %03b), subsampling %d, region %v+%v, which holds %g of it: counts %v, want about %.0f in bin 2", lo, side, flip, skip, boxes[i].Origin, boxes[i].Span, share[i], boxes[i].Counts, want)
						return
					}
				}
			}
		}
	}
	t.Sample("reflection %03b: 64 regions", flip)
}

func windows(t *hx.T, d int, x, y float64, origins, spans []float64) {
	dir := t.Dir()
	at := func(a, b, c int) [3]float64 {
		v := [3]float64{1 + 0.5*float64(a), 2 + 0.25*float64(b), 3 + 0.5*float64(c)}
		v[d] = []float64{x, y}[[]int{a, b, c}[d]]
		return v
	}
	files := points(2, at).Write(dir)
	g := filepath.Join(dir, "g")
	f := pixelGrid(1)
	f.write(g)
	boxes := []render.HistBox{}
	in := &render.HistInfo{Min: 0, Max: 512, Bins: 512, Scale: "Linear"}
	for _, o := range origins {
		for _, s := range spans {
			bo, bs := [3]float64{0.5, 0, 6}, [3]float64{7.5, 8, 7}
			bo[d], bs[d] = o, s
			boxes = append(boxes, newBox(bo, bs, in.Bins))
		}
	}
	m := manager(files, boxes, 1, 1, g)
	t.Trans(1)
	t.Trace()
	if err := m.Hist(in); err != nil {
		t.Fail("Hist: %v", err)
	}
	for i := range boxes {
		want, n := make([]int, in.Bins), 0
		each2(func(a, b, c int) {
			p := at(a, b, c)
			v, _ := f.at(p)
			if inside(&boxes[i], p) {
				want[bin(in, v)] += 6
				n++
			}
		})
		t.Eval(n > 0 && n < 8)
		t.State(fmt.Sprint(want))
		if !compare(t, fmt.Sprintf("points at %g and %g on axis %d", x, y, d), in, &boxes[i], want) {
			return
		}
		t.Outcome(fmt.Sprint(n))
	}
	t.Sample("axis %d: points at %g and %g, %d regions", d, x, y, len(boxes))
}

// fields enumerates where the density grid lies.
func fields(t *hx.T) {
	dir := t.Dir()
	at := func(a, b, c int) [3]float64 {
		return [3]float64{0.25 + 7.5*float64(a), 1.5 + 5*float64(b), 0.75 + 3*float64(c)}
	}
	files := points(2, at).Write(dir)
	g := filepath.Join(dir, "g")
	in := &render.HistInfo{Min: 0, Max: 600, Bins: 600, Scale: "Linear"}
	for _, pw := range []float64{1, 0.5} {
		n := int(L / pw)
		for _, o := range [][3]int{{0, 0, 0}, {1, 2, 3}, {7, 6, 5}, {0, 7, 0}, {n - 1, n - 1, n - 1}} {
			for _, w := range [][3]int{{1, 1, 1}, {2, 3, 4}, {4, 2, 8}, {8, 8, 3}, {8, 8, 8}, {5, 8, 6}} {
				f := field{o: o, n: w, pw: pw}
				f.val = func(i, j, k int) float64 { return float64(i+w[0]*j+w[0]*w[1]*k) + 0.5 }
				f.write(g)
				boxes := []render.HistBox{newBox([3]float64{}, [3]float64{8, 8, 8}, in.Bins), newBox([3]float64{6, 6, 0}, [3]float64{4, 4, 8}, in.Bins)}
				m := manager(files, boxes, 2, 2, g)
				t.Trans(1)
				t.Trace()
				if err := m.Hist(in); err != nil {
					t.Fail("Hist: %v", err)
				}
				for i := range boxes {
					want, n := make([]int, in.Bins), 0
					each2(func(a, b, c int) {
						v, ok := f.at(at(a, b, c))
						if ok && inside(&boxes[i], at(a, b, c)) {
							want[bin(in, v)] += 12
							n++
						}
					})
					t.Eval(n > 0 && n < 8)
					t.State(fmt.Sprint(want))
					compare(t, fmt.Sprintf("grid of %v pixels of %g at %v", w, pw, o), in, &boxes[i], want)
				}
			}
		}
	}
	t.Sample("grids of five origins, six spans, two pixel widths")
}

// ends puts every sample on the upper end of a grid, or as close to it as single
// precision allows, for every pixel count whose rounded end is past the point: it
// must be taken as in the last pixel or as outside.
func ends(t *hx.T, d, top int) {
	dir := t.Dir()
	g := filepath.Join(dir, "g")
	for cells := 3; cells <= top; cells++ {
		pw := L / float64(cells)
		for n := 1; n < cells; n++ {
			end := float64(n) * pw
			x := float32(end)
			if float64(x) >= end {
				x = math.Nextafter32(x, 0)
			}
			if int(float64(x)/pw) < n && (cells%57 != 0 || n%23 != 0) {
				continue
			}
			f := field{n: [3]int{1, 1, 1}, pw: pw}
			f.n[d] = n
			f.val = func(i, j, k int) float64 { return float64(i+j+k) + 0.5 }
			f.write(g)
			p := [3]float64{pw / 2, pw / 2, pw / 2}
			p[d] = float64(x)
			clear(filepath.Join(dir, "in"))
			files := points(2, func(a, b, c int) [3]float64 { return p }).Write(filepath.Join(dir, "in"))
			in := &render.HistInfo{Min: 0, Max: 1024, Bins: 1024, Scale: "Linear"}
			boxes := []render.HistBox{newBox([3]float64{}, [3]float64{L, L, L}, in.Bins)}
			m := manager(files, boxes, 2, 1, g)
			t.Trans(1)
			what := fmt.Sprintf("grid of %d of %d pixels along axis %d, points at %v", n, cells, d, p)
			var err error
			if p := hx.Try(func() { err = m.Hist(in) }); p != nil || err != nil {
				t.Fail("%s: %v %v", what, p, err)
				return
			}
			t.Eval(int(float64(x)/pw) >= n)
			t.State(fmt.Sprint(cells, n))
			for i, k := range boxes[0].Counts {
				if k != 0 && i != n-1 {
					t.Fail("%s: %d samples in pixel %d", what, k, i)
					return
				}
			}
		}
	}
}

func clear(dir string) {
	must(os.RemoveAll(dir))
	must(os.MkdirAll(dir, 0777))
}

// bins enumerates value lists and bin layouts.
func bins(t *hx.T) {
	dir := t.Dir()
	at := func(a, b, c int) [3]float64 {
		return [3]float64{0.5 + float64(a), 0.5 + float64(b), 0.5 + float64(c)}
	}
	files := points(2, at).Write(dir)
	g := filepath.Join(dir, "g")
	lists := [][8]float64{
		{0, 1, 2, 3, 4, 5, 6, 7},
		{-1, -2, -0.5, 0, 0.25, 0.5, 8, 9},
		{1, 1, 1, 1, 1, 1, 1, 1},
		{2, 2, 5, 5, 5, 1e9, -1e9, 3},
		{0.5, 1.5, 15, 150, 1500, 15000, 3, 30},
		{math.NaN(), math.Inf(1), math.Inf(-1), 2, 0, -3, 5.5, 1e-30},
		{8.097, 8.07, -0.0031, 1600.22, 1599, 16995, 0.01135, 3},
		{999, 1001, 9.99, 10.01, 99, 101, 1.001, 0.999},
	}
	infos := []*render.HistInfo{
		{Min: 0, Max: 8, Bins: 8, Scale: "Linear"}, {Min: 0, Max: 8, Bins: 1, Scale: "Linear"}, {Min: -2, Max: 6, Bins: 4, Scale: "Linear"},
		{Min: -4, Max: -1, Bins: 3, Scale: "Linear"}, {Min: 2, Max: 6, Bins: 16, Scale: "Linear"}, {Min: 100, Max: 200, Bins: 5, Scale: "Linear"},
		{Min: 1, Max: 1000, Bins: 3, Scale: "Log"}, {Min: 0.11, Max: 900, Bins: 7, Scale: "Log"}, {Min: 0.7, Max: 7.7, Bins: 2, Scale: "Log"},
		{Min: 1e-4, Max: 1e-2, Bins: 10, Scale: "Log"}, {Min: 0.3, Max: 3e9, Bins: 1, Scale: "Log"},
		{Min: -0.0037, Max: 8.1, Bins: 1000, Scale: "Linear"}, {Min: -3.0041, Max: 1600.3, Bins: 12345, Scale: "Linear"}, {Min: 0.0113, Max: 17000, Bins: 777, Scale: "Log"},
	}
	for _, l := range lists {
		for _, in := range infos {
			f := field{n: [3]int{2, 2, 2}, pw: 1, val: func(i, j, k int) float64 { return l[i+2*j+4*k] }}
			if in.Scale == "Log" && in.Min == 1 && l[1] == 1 {
				continue // a value on a logarithmic edge
			}
			f.write(g)
			boxes := []render.HistBox{newBox([3]float64{}, [3]float64{8, 8, 8}, 3)}
			m := manager(files, boxes, 1, 1, g)
			t.Trans(1)
			t.Trace()
			if err := m.Hist(in); err != nil {
				t.Fail("Hist: %v", err)
			}
			want, n := make([]int, in.Bins), 0
			each2(func(a, b, c int) {
				if v, ok := f.at(at(a, b, c)); ok && bin(in, v) >= 0 {
					want[bin(in, v)] += 6
					n++
				}
			})
			t.Eval(n > 0 && n < 8)
			t.State(fmt.Sprint(want))
			compare(t, fmt.Sprintf("values %v in %d %s bins of [%g, %g)", l, in.Bins, in.Scale, in.Min, in.Max), in, &boxes[0], want)
		}
	}
	t.Sample("%d value lists, %d layouts", len(lists), len(infos))
}

// onePixel is a sheet whose files have volume but each lie in one pixel.
func onePixel(n, cells int, shift float64) (*rx.Sheet, func(a, b, c int) [3]float64) {
	w := float64(n / cells)
	corner := func(a, b, c int) [3]float64 {
		return [3]float64{shift + 2*float64(a), shift/2 + 2 + 3*float64(b), shift + 5 + float64(c)}
	}
	return &rx.Sheet{N: n, Cells: cells, L: L, X: func(a, b, c, i, j, k int) [3]float64 {
		o := corner(a, b, c)
		// Shear and overlap, all of it well inside the pixel.
		u := [3]float64{float64(i) / w, float64(j) / w, float64(k) / w}
		return [3]float64{o[0] + 0.2 + 0.3*u[0] + 0.2*u[1], o[1] + 0.8 - 0.5*u[1], o[2] + 0.3 + 0.2*u[2] + 0.2*math.Abs(u[0]-0.5)}
	}}, corner
}

func workersCase(t *hx.T, n, cells, workers int, counts ...int) {
	dir := t.Dir()
	in := &render.HistInfo{Min: 0, Max: 512, Bins: 512, Scale: "Linear"}
	g := filepath.Join(dir, "g")
	f := pixelGrid(1)
	f.write(g)
	for si, shift := range []float64{0, 6} {
		sub := filepath.Join(dir, fmt.Sprint(si))
		must(os.MkdirAll(sub, 0755))
		sh, corner := onePixel(n, cells, shift)
		files := sh.Write(sub)
		for _, order := range []int{0, 1} {
			if order == 1 {
				for i, j := 0, len(files)-1; i < j; i, j = i+1, j-1 {
					files[i], files[j] = files[j], files[i]
				}
			}
			for skip := 1; skip <= n/cells; skip *= 2 {
				for _, pts := range counts {
					regs := [][2][3]float64{{{0, 0, 0}, {8, 8, 8}}, {{6, 2, 5}, {3, 3, 4}}, {{0, 0, 0}, {8, 4, 8}}, {{7, 7, 7}, {8, 8, 8}}, {{0, 0, 0}, {8, 8, 8}}, {{4, 6, 3}, {1, 1, 1}}}
					boxes := []render.HistBox{}
					for i := range regs {
						r := regs[(i+order)%len(regs)]
						boxes = append(boxes, newBox(r[0], r[1], in.Bins))
					}
					m := manager(files, boxes, pts, workers, g)
					m.Subsample(skip)
					t.Trans(2)
					t.Trace()
					if err := m.Hist(in); err != nil {
						t.Fail("Hist: %v", err)
					}
					per := n / cells / skip
					for i := range boxes {
						want, k := make([]int, in.Bins), 0
						for idx := 0; idx < cells*cells*cells; idx++ {
							p := corner(idx%cells, idx/cells%cells, idx/cells/cells)
							for d := range p {
								p[d] = rx.Mod(p[d]+0.5, L)
							}
							if v, _ := f.at(p); inside(&boxes[i], p) {
								want[bin(in, v)] += 6 * pts * per * per * per
								k++
							}
						}
						t.Eval(k > 0)
						t.State(fmt.Sprint(skip, i, want))
						if !compare(t, fmt.Sprintf("%d^3 particles in %d^3 files, %d workers, subsampling %d, %d points, order %d", n, cells, workers, skip, pts, order), in, &boxes[i], want) {
							return
						}
					}
				}
			}
		}
	}
	t.Sample("n %d, cells %d, workers %d", n, cells, workers)
}

// histories replays every sequence of operations on one manager.
func histories(t *hx.T, workers, depth int) {
	dir := t.Dir()
	sh, corner := onePixel(4, 1, 6)
	files := sh.Write(dir)
	g := filepath.Join(dir, "g")
	f := pixelGrid(1)
	f.write(g)
	infos := []*render.HistInfo{{Min: 0, Max: 512, Bins: 512, Scale: "Linear"}, {Min: 1, Max: 600, Bins: 9, Scale: "Log"}, {Min: 600, Max: 900, Bins: 3, Scale: "Linear"}}
	p := corner(0, 0, 0)
	for d := range p {
		p[d] = rx.Mod(p[d]+0.5, L)
	}
	v, _ := f.at(p)
	hx.Seqs(6, depth, func(h []int) {
		boxes := []render.HistBox{newBox([3]float64{}, [3]float64{8, 8, 8}, 512), newBox([3]float64{6, 5, 3}, [3]float64{1, 1, 1}, 4), newBox([3]float64{1, 0, 0}, [3]float64{4, 8, 8}, 4)}
		m := manager(files, boxes, 2, workers, g)
		skip := 1
		for _, op := range h {
			t.Trans(1)
			if op < 3 {
				skip = 1 << op
				m.Subsample(skip)
				continue
			}
			in := infos[op-3]
			if err := m.Hist(in); err != nil {
				t.Fail("%v: %v", h, err)
			}
			for i := range boxes {
				want := make([]int, in.Bins)
				if b := bin(in, v); b >= 0 && inside(&boxes[i], p) {
					want[b] = 12 * (4 / skip) * (4 / skip) * (4 / skip)
				}
				t.State(fmt.Sprint(skip, op, i))
				t.Eval(inside(&boxes[i], p))
				compare(t, fmt.Sprintf("history %v", h), in, &boxes[i], want)
			}
		}
		t.Trace()
	})
	t.Sample("all histories to depth %d, %d workers", depth, workers)
}

// lattice bounds the counts of a sheet filling the box: samples surely in, and
// possibly in.
func lattice(t *hx.T, n int, shift float64) {
	dir := t.Dir()
	h := L / float64(n)
	sh := &rx.Sheet{N: n, Cells: 2, L: L, X: func(a, b, c, i, j, k int) [3]float64 {
		s := n / 2
		return [3]float64{(float64(a*s+i))*h + shift, float64(b*s+j)*h + shift/3, float64(c*s+k)*h - shift}
	}}
	if n == 2 {
		// A cube as wide as half the box is outside the domain: squeeze it.
		sh.X = func(a, b, c, i, j, k int) [3]float64 {
			return [3]float64{float64(a)*4 + 3.5*float64(i) + shift, float64(b)*4 + 3.5*float64(j) + shift/3, float64(c)*4 + 3.5*float64(k) - shift}
		}
	}
	files := sh.Write(dir)
	g := filepath.Join(dir, "g")
	in := &render.HistInfo{Min: 0, Max: 8, Bins: 8, Scale: "Linear"}
	f := field{n: [3]int{8, 8, 8}, pw: 1, val: func(i, j, k int) float64 { return float64((i+2*j+4*k)%8) + 0.5 }}
	f.write(g)
	regs := [][2][3]float64{{{0, 0, 0}, {8, 8, 8}}, {{3, 5, 7}, {8, 8, 8}}, {{0, 0, 0}, {4, 4, 4}}, {{6, 6, 6}, {4, 4, 4}}, {{7, 2, 1}, {1.5, 0.5, 6}}, {{1, 1, 1}, {6, 6, 6}}, {{5, 0, 3}, {7.5, 8, 1}}}
	for skip := 1; skip <= n/2 && (n/2)%skip == 0; skip *= 2 {
		if float64(skip)*h >= L/2 && n != 2 {
			break
		}
		boxes := []render.HistBox{}
		for _, r := range regs {
			boxes = append(boxes, newBox(r[0], r[1], in.Bins))
		}
		const pts = 7
		m := manager(files, boxes, pts, 3, g)
		m.Subsample(skip)
		t.Trans(2)
		t.Trace()
		if err := m.Hist(in); err != nil {
			t.Fail("Hist: %v", err)
		}
		per := n / 2 / skip
		for bi := range boxes {
			b := &boxes[bi]
			lo, hi, total, sure := make([]int, 8), make([]int, 8), 0, 0
			for idx := 0; idx < 8; idx++ {
				for c := 0; c < per*per*per; c++ {
					x := [3]int{c % per * skip, c / per % per * skip, c / per / per * skip}
					o := sh.X(idx%2, idx/2%2, idx/4, x[0], x[1], x[2])
					e := sh.X(idx%2, idx/2%2, idx/4, x[0]+skip, x[1]+skip, x[2]+skip)
					in3, out := cover(o, e, b)
					if out {
						continue
					}
					total += 6 * pts
					if in3 {
						sure += 6 * pts
					}
					vals := map[int]bool{}
					for i := math.Floor(o[0] - 1e-4); i < e[0]+1e-4; i++ {
						for j := math.Floor(o[1] - 1e-4); j < e[1]+1e-4; j++ {
							for k := math.Floor(o[2] - 1e-4); k < e[2]+1e-4; k++ {
								v, _ := f.at([3]float64{rx.Mod(i+0.5, L), rx.Mod(j+0.5, L), rx.Mod(k+0.5, L)})
								vals[int(v)] = true
							}
						}
					}
					for v := range vals {
						hi[v] += 6 * pts
						if len(vals) == 1 && in3 {
							lo[v] += 6 * pts
						}
					}
				}
			}
			sum := 0
			what := fmt.Sprintf("lattice of %d^3 shifted by %g, subsampling %d, region %v+%v", n, shift, skip, b.Origin, b.Span)
			for i, k := range b.Counts {
				sum += k
				if k < lo[i] || k > hi[i] {
					t.Fail("%s: bin %d has %d samples, but %d are surely and %d possibly there", what, i, k, lo[i], hi[i])
				}
			}
			t.Eval(sum > 0)
			t.State(fmt.Sprint(skip, bi, sure, total))
			if sum < sure || sum > total {
				t.Fail("%s: %d samples counted, but %d are surely and %d possibly inside", what, sum, sure, total)
			}
			centers(t, what, in, b)
			t.Outcome(fmt.Sprint(bi, sure == total))
		}
	}
	t.Sample("lattice %d shift %g", n, shift)
}

// cover says whether the block [o, e] lies wholly inside, or wholly outside, b.
func cover(o, e [3]float64, b *render.HistBox) (in, out bool) {
	in = true
	for d := range o {
		if b.Span[d] >= L {
			continue
		}
		a := rx.Mod(o[d]-b.Origin[d], L)
		w := e[d] - o[d]
		if !(a > 1e-4 && a+w < b.Span[d]-1e-4) {
			in = false
		}
		if a > b.Span[d]+1e-4 && a+w < L-1e-4 {
			out = true
		}
	}
	return in, out
}
