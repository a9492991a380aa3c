package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
	"verif/mc/hx"
	"verif/mc/rx"
)

const ruleC05 = "every cut of a sheet, Gadget and grid file (each byte from 0 to the whole file) read by every reader, converted, rendered and histogrammed by the program; every byte at which a writer starts failing, and every size limit on the program's outputs; a full device, directories and missing paths in place of files; non-trivial when the fault removes or rejects something"

type badWriter struct{ left int }

func (w *badWriter) Write(b []byte) (int, error) {
	if len(b) <= w.left {
		w.left -= len(b)
		return len(b), nil
	}
	n := w.left
	w.left = 0
	return n, fmt.Errorf("no space left")
}

func poison(n int) []geom.Vec {
	v := make([]geom.Vec, n)
	for i := range v {
		v[i] = geom.Vec{-77, -78, -79}
	}
	return v
}

func eqVecs(a, b []geom.Vec) bool {
	for i := range b {
		if a[i] != b[i] {
			return false
		}
	}
	return len(a) == len(b)
}

func runC05(c *hx.C) {
	orders := []binary.ByteOrder{binary.LittleEndian, binary.BigEndian}
	for _, o := range orders {
		for gw := 2; gw <= c.Pick(4, 6); gw++ {
			o, gw := o, gw
			c.Case(fmt.Sprintf("cut/sheet/%s/%d", orderName(o), gw), func(t *hx.T) { cutSheet(t, o, gw) })
		}
		for _, ib := range []int{32, 64} {
			for k := 0; k < 4; k++ {
				for _, n := range []int{1, 8, 27}[:c.Pick(2, 3)] {
					o, ib, k, n := o, ib, k, n
					c.Case(fmt.Sprintf("cut/gadget/%s/ids%d/%d/n%d", orderName(o), ib, k, n), func(t *hx.T) {
						cutGadget(t, makeSnap(o, ib, k&1 == 1, k&2 == 2, n, 3, 100, 0.25))
					})
				}
			}
		}
	}
	gs := []grid{}
	for q := density.Density; q < density.EndQuantity; q++ {
		for _, axis := range []int{0, 1, 2, 3} {
			sp := [3]int{2, 3, 4}
			if q != density.Density && q != density.Velocity {
				if axis < 3 {
					continue
				}
				sp = [3]int{5, 5, 6}
			}
			gs = append(gs, grid{q, axis, sp, 1})
		}
	}
	for _, g := range gs {
		g := g
		c.Case(fmt.Sprintf("cut/grid/q%d/axis%d", g.q, g.axis), func(t *hx.T) { cutGrid(t, g) })
		c.Case(fmt.Sprintf("writer/q%d/axis%d", g.q, g.axis), func(t *hx.T) {
			cos, ren, loc := g.info()
			full := &bytes.Buffer{}
			buf := g.buffer()
			io.WriteBuffer(buf, cos, ren, loc, full)
			for k := 0; k <= full.Len(); k++ {
				err := hx.Try(func() { io.WriteBuffer(buf, cos, ren, loc, &badWriter{k}) })
				t.Eval(k < full.Len())
				if (err != nil) != (k < full.Len()) {
					t.Fail("quantity %d: writing to a device with room for %d of %d bytes gave %v", g.q, k, full.Len(), err)
				}
			}
			t.Sample("q%d: %d bytes", g.q, full.Len())
		})
	}
	c.Case("cut/python", cutPython)

	for _, hdr := range []string{"convert/32", "convert/64"} {
		for file := 0; file < 2; file++ {
			for part := 0; part < 4; part++ {
				hdr, file, part := hdr, file, part
				c.Case(fmt.Sprintf("cli/cut/%s/%d/part%d", hdr, file, part), func(t *hx.T) {
					cutConvert(t, strings.HasSuffix(hdr, "64"), file, part, c.Thorough())
				})
			}
		}
	}
	for _, q := range []string{"Density", "Velocity"} {
		for _, file := range []int{0, 3, 7} {
			for part := 0; part < 2; part++ {
				q, file, part := q, file, part
				c.Case(fmt.Sprintf("cli/cut/render/%s/%d/part%d", q, file, part), func(t *hx.T) {
					cutRender(t, q, file, part, c.Thorough())
				})
			}
		}
	}
	for part := 0; part < 4; part++ {
		part := part
		c.Case(fmt.Sprintf("cli/cut/hist/part%d", part), func(t *hx.T) { cutHist(t, part, c.Thorough()) })
		c.Case(fmt.Sprintf("cli/limit/part%d", part), func(t *hx.T) { limits(t, part) })
	}
	c.Case("cli/paths", badPaths)
}

func cutSheet(t *hx.T, o binary.ByteOrder, gw int) {
	sg := sheetOf(gw, 1)
	all := rx.SheetBytes(&sg.Hd, sg.Xs, sg.Vs, o)
	p := filepath.Join(t.Dir(), "s")
	n := len(sg.Xs)
	ends := [3]int{160, 160 + 12*n, 160 + 24*n}
	if ends[2] != len(all) {
		panic(hx.HarnessError{Msg: "layout"})
	}
	for cut := 0; cut <= len(all); cut++ {
		must(os.WriteFile(p, all[:cut], 0644))
		for what := 0; what < 3; what++ {
			hd := io.SheetHeader{}
			vecs := poison(n)
			err := hx.Try(func() {
				var e error
				switch what {
				case 0:
					e = io.ReadSheetHeaderAt(p, &hd)
				case 1:
					e = io.ReadSheetPositionsAt(p, vecs)
				case 2:
					e = io.ReadSheetVelocitiesAt(p, vecs)
				}
				if e != nil {
					panic(e)
				}
			})
			t.Eval(cut < ends[what])
			if err != nil && cut == len(all) {
				t.Fail("intact sheet: reading %s gave %v", []string{"header", "positions", "velocities"}[what], err)
			}
			if err != nil {
				continue
			}
			ok := false
			switch what {
			case 0:
				ok = hd == sg.Hd
			case 1:
				ok = eqVecs(vecs, sg.Xs)
			case 2:
				ok = eqVecs(vecs, sg.Vs)
			}
			if cut < ends[what] {
				t.Fail("%s endian sheet of %d bytes cut to %d: reading the %s gave no error", orderName(o), len(all), cut, []string{"header", "positions", "velocities"}[what])
			} else if !ok {
				t.Fail("%s endian sheet of %d bytes cut to %d: reading the %s gave wrong data", orderName(o), len(all), cut, []string{"header", "positions", "velocities"}[what])
			}
		}
	}
	t.Sample("sheet width %d %s: %d cuts", gw, orderName(o), len(all)+1)
}

func cutGadget(t *hx.T, s *snapshot) {
	all, ends := s.bytes()
	p := filepath.Join(t.Dir(), "g")
	var hd0 io.CatalogHeader
	var xs0, vs0 []geom.Vec
	var ids0 []int64
	for cut := len(all); cut >= 0; cut-- {
		must(os.WriteFile(p, all[:cut], 0644))
		var hd, hd2 *io.CatalogHeader
		var xs, vs []geom.Vec
		var ids []int64
		err := hx.Try(func() { hd = io.ReadGadgetHeader(p, s.order, "LGadget-2") })
		err2 := hx.Try(func() { hd2, xs, vs, ids = io.ReadGadget(p, s.order, s.idBits, "LGadget-2") })
		t.Eval(cut < ends[3])
		if cut == len(all) {
			if err != nil || err2 != nil {
				t.Fail("intact snapshot: %v %v", err, err2)
				return
			}
			hd0, xs0, vs0, ids0 = *hd2, xs, vs, ids
			judgeSnap(t, s, hd2, xs, vs, ids)
			continue
		}
		what := fmt.Sprintf("%s endian snapshot of %d bytes cut to %d", orderName(s.order), len(all), cut)
		// The last four bytes of a block are only its closing record mark.
		if err == nil && cut < ends[0]-4 {
			t.Fail("%s: reading the header gave no error", what)
		} else if err == nil && *hd != hd0 {
			t.Fail("%s: reading the header gave wrong data", what)
		}
		if err2 == nil && cut < ends[3] {
			t.Fail("%s: reading it all gave no error", what)
		} else if err2 == nil && (*hd2 != hd0 || !eqVecs(xs, xs0) || !eqVecs(vs, vs0) || fmt.Sprint(ids) != fmt.Sprint(ids0)) {
			t.Fail("%s: reading it all gave wrong data", what)
		}
		// Straight into buffers, as conversion does.
		xs, vs = poison(len(s.ids)), poison(len(s.ids))
		ids = make([]int64, len(s.ids))
		err = hx.Try(func() { io.ReadGadgetParticlesAt(p, s.order, xs, vs, ids, s.idBits, "LGadget-2") })
		if err == nil && cut < ends[3] {
			t.Fail("%s: reading the particles gave no error", what)
		} else if err == nil && (!eqVecs(xs, xs0) || !eqVecs(vs, vs0) || fmt.Sprint(ids) != fmt.Sprint(ids0)) {
			t.Fail("%s: reading the particles gave wrong data", what)
		}
	}
	t.Sample("snapshot of %d particles, %s: %d cuts", len(s.ids), orderName(s.order), len(all)+1)
}

func cutGrid(t *hx.T, g grid) {
	all := g.file()
	p := filepath.Join(t.Dir(), "g")
	var hd0 *io.GridHeader
	var vals0 []float64
	for cut := len(all); cut >= 0; cut-- {
		must(os.WriteFile(p, all[:cut], 0644))
		var hd *io.GridHeader
		var vals []float64
		err := hx.Try(func() {
			var e error
			if hd, e = io.ReadGridHeader(p); e != nil {
				panic(e)
			}
		})
		err2 := hx.Try(func() {
			var e error
			if vals, e = io.ReadGrid(p); e != nil {
				panic(e)
			}
		})
		t.Eval(cut < len(all))
		if cut == len(all) {
			if err != nil || (err2 != nil) != g.vector() {
				t.Fail("intact grid: %v %v", err, err2)
				return
			}
			hd0, vals0 = hd, vals
			continue
		}
		if err == nil && (cut < 344 || *hd != *hd0) {
			t.Fail("grid of %d bytes cut to %d: reading the header gave no error", len(all), cut)
		}
		if err2 == nil {
			t.Fail("grid of %d bytes cut to %d: reading the values gave no error but %d of %d values", len(all), cut, len(vals), len(vals0))
		}
	}
	t.Sample("grid q%d axis %d: %d cuts", g.q, g.axis, len(all)+1)
}

// cutPython has the Python readers read cut files.
func cutPython(t *hx.T) {
	dir := t.Dir()
	type item struct {
		what      string
		cut, full int
	}
	items, reqs := []item{}, []string{}
	add := func(kind, what string, all []byte) {
		for cut := 0; cut < len(all); cut++ {
			p := filepath.Join(dir, fmt.Sprint(len(items)))
			must(os.WriteFile(p, all[:cut], 0644))
			items, reqs = append(items, item{what, cut, len(all)}), append(reqs, kind+" "+p)
		}
	}
	add("grid", "scalar grid", grid{density.Density, 3, [3]int{2, 2, 3}, 1}.file())
	add("grid", "vector grid", grid{density.Velocity, 3, [3]int{2, 2, 1}, 1}.file())
	sg := sheetOf(2, 1)
	add("sheet", "sheet", rx.SheetBytes(&sg.Hd, sg.Xs, sg.Vs, binary.LittleEndian))
	for i, o := range python(t, reqs) {
		t.Eval(true)
		if o.Error == "" {
			t.Fail("%s of %d bytes cut to %d: the Python reader gave no error", items[i].what, items[i].full, items[i].cut)
		}
	}
}

// snapDir writes a snapshot of 8 particles in two files.
func snapDir(dir string, wide bool) [][]byte {
	ib := 32
	if wide {
		ib = 64
	}
	out := [][]byte{}
	for f := 0; f < 2; f++ {
		s := makeSnap(binary.LittleEndian, ib, false, f == 1 && wide, 4, 0, 100, 0.25)
		s.total = 8
		s.mass = 0.5
		for i := range s.ids {
			id := (i*2+f*3)%8 + 1
			s.ids[i] = uint64(id)
			for d := range s.xs[i] {
				s.xs[i][d] = float64((id*7+d*11)%40) + 0.5
			}
		}
		b, _ := s.bytes()
		must(os.WriteFile(filepath.Join(dir, fmt.Sprintf("snap.%d", f)), b, 0644))
		out = append(out, b)
	}
	return out
}

func mkdirs(dir string, names ...string) {
	for _, n := range names {
		must(os.MkdirAll(filepath.Join(dir, n), 0755))
	}
}

func write(dir, name, text string) {
	must(os.WriteFile(filepath.Join(dir, name), []byte(text), 0644))
}

// tree gives every file under dir with its contents.
func tree(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && i.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			out[strings.TrimPrefix(p, dir+"/")] = string(b)
		}
		return nil
	})
	return out
}

func clear(dir string) {
	fs, err := os.ReadDir(dir)
	must(err)
	for _, f := range fs {
		must(os.RemoveAll(filepath.Join(dir, f.Name())))
	}
}

// sameOutputs compares two sets of output files: byte for byte, or, for grids,
// header and values to a rounding of the sample positions.
func sameOutputs(got, want map[string]string) bool {
	if len(got) != len(want) {
		return false
	}
	for k, w := range want {
		g, ok := got[k]
		if !ok || len(g) != len(w) {
			return false
		}
		if !strings.HasSuffix(k, ".gtet") {
			if g != w {
				return false
			}
			continue
		}
		if g[:344] != w[:344] {
			return false
		}
		for i := 344; i+4 <= len(w); i += 4 {
			a := math.Float32frombits(binary.LittleEndian.Uint32([]byte(g[i:])))
			b := math.Float32frombits(binary.LittleEndian.Uint32([]byte(w[i:])))
			if !(math.Abs(float64(a-b)) <= 1e-4*(1+math.Abs(float64(b)))) {
				return false
			}
		}
	}
	return true
}

const convertCfg = "[ConvertSnapshot]\nInput = in\nOutput = out\nInputFormat = LGadget-2\nCells = 1\nGadget2IDSize = %d\n"

// step thins the cuts that are not near the end of a block when not thorough.
func cutsOf(n int, marks []int, part, parts int, all bool) []int {
	out, k := []int{}, 0
	for cut := 0; cut < n; cut++ {
		near := cut < 2 || cut >= n-8
		for _, m := range marks {
			near = near || (cut >= m-4 && cut <= m+4)
		}
		if near || all || cut%4 == 1 {
			if k%parts == part {
				out = append(out, cut)
			}
			k++
		}
	}
	return out
}

func cutConvert(t *hx.T, wide bool, file, part int, all bool) {
	dir := t.Dir()
	mkdirs(dir, "in", "out")
	bs := snapDir(filepath.Join(dir, "in"), wide)
	ib := 32
	if wide {
		ib = 64
	}
	write(dir, "c.cfg", fmt.Sprintf(convertCfg, ib))
	r := rx.CLI(dir, "-ConvertSnapshot", "c.cfg", "-Threads", "2")
	want := tree(filepath.Join(dir, "out"))
	if r.Code != 0 || len(want) != 1 {
		t.Fail("conversion of an intact snapshot: %s", r)
		return
	}
	cutRuns(t, dir, filepath.Join("in", fmt.Sprintf("snap.%d", file)), bs[file], []int{4, 260, 264, 268, 316, 320, 324}, part, 4, all, want,
		"-ConvertSnapshot", "c.cfg")
}

// cutRuns runs the program on every cut of one input.
func cutRuns(t *hx.T, dir, input string, whole []byte, marks []int, part, parts int, all bool, want map[string]string, args ...string) {
	out := filepath.Join(dir, "out")
	args = append([]string{"-Threads", "2"}, args...)
	for _, cut := range cutsOf(len(whole), marks, part, parts, all) {
		clear(out)
		must(os.WriteFile(filepath.Join(dir, input), whole[:cut], 0644))
		r := rx.CLI(dir, args...)
		t.Eval(true)
		t.Beat()
		if r.Hung {
			t.Fail("%v with %s cut to %d of %d bytes: does not end", args, input, cut, len(whole))
		} else if r.Code == 0 && !sameOutputs(tree(out), want) {
			t.Fail("%v with %s cut to %d of %d bytes: succeeds with other output than for the whole file", args, input, cut, len(whole))
		}
		t.Outcome(fmt.Sprint(args[2], r.Code))
	}
	must(os.WriteFile(filepath.Join(dir, input), whole, 0644))
	t.Sample("%v: %s of %d bytes", args, input, len(whole))
}

// blobs is a sheet whose 8 files each lie inside one pixel of a 10^3 grid.
func blobs() *rx.Sheet {
	return &rx.Sheet{N: 2, Cells: 2, L: 10,
		X: func(a, b, c, i, j, k int) [3]float64 {
			return [3]float64{1.3 + float64(a)*2 + 0.3*float64(i), 2.3 + float64(b) + 0.3*float64(j), 1.3 + float64(c) + 0.3*float64(k)}
		},
		V: func(a, b, c, i, j, k int) [3]float32 {
			return [3]float32{float32(a) + 1, -float32(b) - 2, float32(c) * 8}
		},
	}
}

const renderCfg = "[Render]\nQuantity = %s\nInput = in\nOutput = out\nTotalPixels = 10\nParticles = 4\n"
const boundsCfg = "[Box \"b\"]\nX = 1\nY = 1\nZ = 1\nXWidth = 3\nYWidth = 4\nZWidth = 3\n"

func cutRender(t *hx.T, q string, file, part int, all bool) {
	dir := t.Dir()
	mkdirs(dir, "in", "out")
	files := blobs().Write(filepath.Join(dir, "in"))
	whole, err := os.ReadFile(files[file])
	must(err)
	write(dir, "r.cfg", fmt.Sprintf(renderCfg, q))
	write(dir, "b.cfg", boundsCfg)
	r := rx.CLI(dir, "-Threads", "2", "-Render", "r.cfg", "b.cfg")
	want := tree(filepath.Join(dir, "out"))
	if r.Code != 0 || len(want) != 1 {
		t.Fail("rendering intact sheets: %s", r)
		return
	}
	cutRuns(t, dir, filepath.Join("in", filepath.Base(files[file])), whole, []int{4, 8, 160, 256}, part, 2, all, want, "-Render", "r.cfg", "b.cfg")
}

const histCfg = "[TetraHist]\nQuantity = Density\nHistMin = 120\nHistMax = 240\nHistBins = 60\nHistScale = Linear\nParticles = 4\nInput = in\nOutput = out\nGridFile = grid.gtet\n"

// histGrid is a density grid over the whole box, one pixel per unit.
func histGrid() []byte {
	g := grid{density.Density, 3, [3]int{10, 10, 10}, 0}
	w := &bytes.Buffer{}
	cos, ren, _ := g.info()
	cos.BoxWidth = 10
	loc := io.LocationInfo{PixelWidth: 1}
	for d := 0; d < 3; d++ {
		loc.Span[d], loc.PixelSpan[d] = 10, 10
	}
	b := density.NewBuffer(density.Density, 1000, 4, geom.NewGridLocation([3]int{}, [3]int{10, 10, 10}, 10, 10))
	s, _ := b.ScalarBuffer()
	for i := range s {
		s[i] = float64(i) + 0.5
	}
	io.WriteBuffer(b, cos, ren, loc, w)
	return w.Bytes()
}

func histSetup(dir string) (files []string, grid []byte) {
	mkdirs(dir, "in", "out")
	files = blobs().Write(filepath.Join(dir, "in"))
	grid = histGrid()
	must(os.WriteFile(filepath.Join(dir, "grid.gtet"), grid, 0644))
	write(dir, "h.cfg", histCfg)
	write(dir, "b.cfg", "[Box \"b\"]\nX = 0.5\nY = 0.5\nZ = 0.5\nXWidth = 8\nYWidth = 8\nZWidth = 8\n")
	return files, grid
}

func cutHist(t *hx.T, part int, all bool) {
	dir := t.Dir()
	files, grid := histSetup(dir)
	r := rx.CLI(dir, "-Threads", "2", "-TetraHist", "h.cfg", "b.cfg")
	want := tree(filepath.Join(dir, "out"))
	if r.Code != 0 || len(want) != 1 {
		t.Fail("histogram of intact sheets: %s", r)
		return
	}
	for _, file := range []int{0, 3, 7} {
		whole, err := os.ReadFile(files[file])
		must(err)
		cutRuns(t, dir, filepath.Join("in", filepath.Base(files[file])), whole, []int{8, 160, 256}, part, 4, all, want, "-TetraHist", "h.cfg", "b.cfg")
	}
	// The values only repeat; cut the grid's header and a sample of its values.
	cuts := []byte(nil)
	cuts = append(cuts, grid...)
	out := filepath.Join(dir, "out")
	for i, cut := range append(cutsOf(344, []int{8, 344}, part, 4, all), 344+part, 348+part, 2000+part, 4340+part) {
		clear(out)
		must(os.WriteFile(filepath.Join(dir, "grid.gtet"), cuts[:cut], 0644))
		r := rx.CLI(dir, "-Threads", "2", "-TetraHist", "h.cfg", "b.cfg")
		t.Eval(i >= 0)
		if r.Code == 0 {
			t.Fail("histogram with its grid cut to %d of %d bytes succeeds", cut, len(cuts))
		}
	}
}

// limits runs the program with its output files limited to every size.
func limits(t *hx.T, part int) {
	dir := t.Dir()
	histSetup(dir)
	mkdirs(dir, "snap")
	snapDir(filepath.Join(dir, "snap"), true)
	write(dir, "c.cfg", strings.Replace(fmt.Sprintf(convertCfg, 64), "in\n", "snap\n", 1))
	write(dir, "r.cfg", fmt.Sprintf(renderCfg, "Density"))
	write(dir, "v.cfg", fmt.Sprintf(renderCfg, "Velocity"))
	out := filepath.Join(dir, "out")
	for _, args := range [][]string{{"-ConvertSnapshot", "c.cfg"}, {"-Render", "r.cfg", "b.cfg"}, {"-Render", "v.cfg", "b.cfg"}, {"-TetraHist", "h.cfg", "b.cfg"}} {
		clear(out)
		args := append([]string{"-Threads", "2"}, args...)
		if args[2] == "-Render" {
			write(dir, "b.cfg", "[Box \"b\"]\nX = 1\nY = 1\nZ = 1\nXWidth = 2\nYWidth = 2\nZWidth = 2\n")
		}
		r := rx.CLI(dir, args...)
		want := tree(out)
		if r.Code != 0 || len(want) != 1 {
			t.Fail("%v on good input: %s", args, r)
			return
		}
		n := 0
		for _, w := range want {
			n = len(w)
		}
		for i, size := range append(cutsOf(n, []int{160, 344}, part, 4, false), n) {
			clear(out)
			r := rx.CLILimit(dir, int64(size), args...)
			t.Eval(size < n)
			t.Beat()
			if r.Hung {
				t.Fail("%v with %d of %d output bytes allowed: does not end", args, size, n)
			} else if r.Code == 0 && size < n {
				t.Fail("%v with %d of %d output bytes allowed: reports success", args, size, n)
			} else if size == n && r.Code != 0 {
				t.Fail("%v with all its output bytes allowed: %s", args, r)
			}
			if i == 0 {
				t.Sample("%v: %d bytes", args, n)
			}
		}
	}
}

// badPaths replaces inputs and outputs by things that cannot be read or written.
func badPaths(t *hx.T) {
	for _, m := range []struct {
		name string
		args []string
		outs []string
	}{
		{"convert", []string{"-ConvertSnapshot", "c.cfg"}, []string{"sheet000.dat"}},
		{"render", []string{"-Render", "r.cfg", "b.cfg"}, []string{"b.gtet"}},
		{"hist", []string{"-TetraHist", "h.cfg", "b.cfg"}, []string{"b.txt"}},
	} {
		type fault struct {
			what string
			do   func(dir string)
		}
		in := "in"
		if m.name == "convert" {
			in = "snap"
		}
		faults := []fault{
			{"no fault", func(dir string) {}},
			{"no input directory", func(dir string) { must(os.RemoveAll(filepath.Join(dir, in))) }},
			{"an empty input directory", func(dir string) { clear(filepath.Join(dir, in)) }},
			{"a file as input directory", func(dir string) { must(os.RemoveAll(filepath.Join(dir, in))); write(dir, in, "x") }},
			{"a directory among the inputs", func(dir string) { mkdirs(dir, in+"/aaa") }},
			{"a last directory among the inputs", func(dir string) { mkdirs(dir, in+"/zzz") }},
			{"an empty file among the inputs", func(dir string) { write(dir, in+"/aaa", "") }},
			{"a last empty file among the inputs", func(dir string) { write(dir, in+"/zzz", "") }},
			{"a text file among the inputs", func(dir string) { write(dir, in+"/zzz", strings.Repeat("text ", 200)) }},
			{"a dangling link among the inputs", func(dir string) { must(os.Symlink("nowhere", filepath.Join(dir, in, "zzz"))) }},
			{"a file as output directory", func(dir string) { must(os.RemoveAll(filepath.Join(dir, "out"))); write(dir, "out", "x") }},
			{"a dangling link as output directory", func(dir string) {
				must(os.RemoveAll(filepath.Join(dir, "out")))
				must(os.Symlink("nowhere/else", filepath.Join(dir, "out")))
			}},
			{"a full device as output", func(dir string) {
				for _, o := range m.outs {
					must(os.Symlink("/dev/full", filepath.Join(dir, "out", o)))
				}
			}},
			{"a directory as output", func(dir string) {
				for _, o := range m.outs {
					mkdirs(dir, "out/"+o)
				}
			}},
			{"a missing configuration", func(dir string) { must(os.Remove(filepath.Join(dir, m.args[1]))) }},
			{"an empty configuration", func(dir string) { write(dir, m.args[1], "") }},
		}
		if len(m.args) > 2 {
			faults = append(faults, fault{"a missing bounds file", func(dir string) { must(os.Remove(filepath.Join(dir, "b.cfg"))) }},
				fault{"no output directory", func(dir string) { must(os.RemoveAll(filepath.Join(dir, "out"))) }})
		}
		if m.name == "hist" {
			faults = append(faults, fault{"no grid file", func(dir string) { must(os.Remove(filepath.Join(dir, "grid.gtet"))) }},
				fault{"an empty grid file", func(dir string) { write(dir, "grid.gtet", "") }})
		}
		for _, f := range faults {
			dir := filepath.Join(t.Dir(), m.name, strings.ReplaceAll(f.what, " ", "_"))
			mkdirs(dir, "snap")
			histSetup(dir)
			snapDir(filepath.Join(dir, "snap"), true)
			write(dir, "c.cfg", strings.Replace(fmt.Sprintf(convertCfg, 64), "in\n", "snap\n", 1))
			write(dir, "r.cfg", fmt.Sprintf(renderCfg, "Density"))
			f.do(dir)
			r := rx.CLI(dir, append([]string{"-Threads", "2"}, m.args...)...)
			t.Eval(f.what != "no fault")
			if r.Hung {
				t.Fail("%s with %s: does not end", m.name, f.what)
			} else if (r.Code == 0) != (f.what == "no fault") {
				t.Fail("%s with %s: %s", m.name, f.what, r)
			}
			t.Outcome(m.name + f.what)
		}
	}
}
