package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/io"
	"verif/mc/hx"
	"verif/mc/rx"
)

const ruleC07 = "every quantity, span, projection axis and header value of the alphabet written by the Go writer and read by the Python readers; every sheet width; non-trivial when the grid is a vector grid, a projection or not a cube"

type pyArray struct {
	Shape []int
	Vals  []float64
}

func (a pyArray) is(shape []int, vals []float64) bool {
	if fmt.Sprint(a.Shape) != fmt.Sprint(shape) || len(a.Vals) != len(vals) {
		return false
	}
	for i := range vals {
		if a.Vals[i] != vals[i] {
			return false
		}
	}
	return true
}

type pyOut struct {
	Error, Printed, Text     string
	Type, Cosmo, Render, Loc map[string]json.RawMessage
	Top, Sheet               map[string]json.RawMessage
	Grid                     pyArray
}

// python reads files with the shipped readers.
func python(t *hx.T, reqs []string) []pyOut {
	py := "/opt/veriftools/pyvenv/bin/python3"
	if _, err := os.Stat(py); err != nil {
		py = "python3-vt"
	}
	cmd := exec.Command(py, "-B", filepath.Join(os.Getenv("VERIF_HOME"), "mc/cmd/iomc/dump.py"), filepath.Join(os.Getenv("VERIF_REPO"), "python"))
	cmd.Stdin = strings.NewReader(strings.Join(reqs, "\n") + "\n")
	cmd.Env = append(os.Environ(), "OPENBLAS_NUM_THREADS=1", "OMP_NUM_THREADS=1")
	var errs strings.Builder
	cmd.Stderr = &errs
	b, err := cmd.Output()
	t.Beat()
	if err != nil {
		panic(hx.HarnessError{Msg: err.Error() + errs.String()})
	}
	outs := []pyOut{}
	for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		o := pyOut{}
		must(json.Unmarshal([]byte(l), &o))
		outs = append(outs, o)
	}
	if len(outs) != len(reqs) {
		panic(hx.HarnessError{Msg: fmt.Sprintf("%d answers for %d files", len(outs), len(reqs))})
	}
	return outs
}

func runC07(c *hx.C) {
	spans := [][3]int{{1, 1, 1}, {2, 3, 4}, {4, 2, 3}, {3, 4, 2}, {1, 5, 2}, {6, 1, 1}, {5, 5, 5}, {5, 6, 7}}
	if c.Thorough() {
		for i := 1; i <= 4; i++ {
			for j := 1; j <= 4; j++ {
				for k := 1; k <= 4; k++ {
					s := [3]int{i, j, k}
					if s != spans[0] && s != spans[1] && s != spans[2] && s != spans[3] {
						spans = append(spans, s)
					}
				}
			}
		}
		spans = append(spans, [3]int{16, 9, 12}, [3]int{20, 20, 20})
	}
	for q := density.Density; q < density.EndQuantity; q++ {
		for axis := 0; axis < 4; axis++ {
			q, axis := q, axis
			if !(q == density.Density || q == density.Velocity) && axis < 3 {
				continue
			}
			c.Case(fmt.Sprintf("grids/q%d/axis%d", q, axis), func(t *hx.T) {
				dir := t.Dir()
				gs, reqs := []grid{}, []string{}
				for _, s := range spans {
					if !(q == density.Density || q == density.Velocity) && (s[0] < 5 || s[1] < 5 || s[2] < 5) {
						continue
					}
					for salt := 0; salt < 3; salt++ {
						g := grid{q, axis, s, salt}
						p := filepath.Join(dir, fmt.Sprintf("g%d.gtet", len(gs)))
						must(os.WriteFile(p, written(g), 0644))
						gs, reqs = append(gs, g), append(reqs, "grid "+p)
					}
				}
				for i, o := range python(t, reqs) {
					judgeGrid(t, gs[i], o)
				}
			})
		}
	}
	for _, q := range []density.Quantity{density.Density, density.Velocity} {
		q := q
		c.Case(fmt.Sprintf("large/q%d", q), func(t *hx.T) {
			dir := t.Dir()
			gs, reqs := []grid{}, []string{}
			for axis, s := range [][3]int{{40, 33, 20}, {65, 130, 7}, {101, 3, 70}, {43, 40, 42}} {
				for _, a := range []int{axis, 3} {
					g := grid{q, a, s, axis}
					p := filepath.Join(dir, fmt.Sprintf("g%d.gtet", len(gs)))
					must(os.WriteFile(p, written(g), 0644))
					gs, reqs = append(gs, g), append(reqs, "grid "+p)
				}
			}
			for i, o := range python(t, reqs) {
				judgeGrid(t, gs[i], o)
			}
		})
	}
	c.Case("script", scriptCheck)
	c.Case("version1", versionOne)
	c.Case("cuts", pythonCuts)
	c.Case("sheets", func(t *hx.T) {
		dir := t.Dir()
		sgs, reqs := []*rx.Segment{}, []string{}
		for gw := 2; gw < 8; gw++ {
			for salt := 0; salt < 4; salt++ {
				sg := sheetOf(gw, salt)
				p := filepath.Join(dir, fmt.Sprintf("s%d.dat", len(sgs)))
				io.WriteSheet(p, &sg.Hd, sg.Xs, sg.Vs)
				sgs, reqs = append(sgs, sg), append(reqs, "sheet "+p)
			}
		}
		for i, o := range python(t, reqs) {
			judgeSheet(t, sgs[i], o)
		}
	})
}

// written is what the Go writer makes of a grid.
func written(g grid) []byte {
	var b bytes.Buffer
	cos, ren, loc := g.info()
	io.WriteBuffer(g.buffer(), cos, ren, loc, &b)
	return b.Bytes()
}

var spokenNames = []string{"Density", "Density Gradient", "Velocity", "Velocity Divergence", "Velocity Curl"}

// scriptCheck runs gotetra.py on files and looks up every value in what it
// prints.
func scriptCheck(t *hx.T) {
	dir := t.Dir()
	gs, reqs := []grid{}, []string{}
	for q := density.Density; q < density.EndQuantity; q++ {
		for axis := 0; axis < 4; axis++ {
			g := grid{q, axis, [3]int{5, 7, 6}, int(q) + axis}
			if axis < 3 && q != density.Density && q != density.Velocity {
				continue
			}
			p := filepath.Join(dir, fmt.Sprintf("g%d.gtet", len(gs)))
			must(os.WriteFile(p, written(g), 0644))
			gs, reqs = append(gs, g), append(reqs, "script "+p)
		}
	}
	for i, o := range python(t, reqs) {
		g := gs[i]
		t.Eval(true)
		if o.Error != "" {
			t.Fail("gotetra.py on %+v: %s", g, o.Error)
			return
		}
		said := map[string]string{}
		for _, l := range strings.Split(o.Text, "\n") {
			if k, v, ok := strings.Cut(l, "="); ok {
				k = strings.TrimSpace(k)
				if _, again := said[k]; again {
					t.Fail("gotetra.py on %+v prints %s twice", g, k)
				}
				said[k] = strings.Trim(strings.TrimSpace(v), "[]")
			}
		}
		cos, ren, loc := g.info()
		want := map[string][]float64{"header_size": {344},
			"redshift": {cos.Redshift}, "scale_factor": {cos.ScaleFactor}, "omega_m": {cos.OmegaM}, "omega_l": {cos.OmegaL}, "h0": {cos.Hubble},
			"rho_mean": {cos.RhoMean}, "rho_critical": {cos.RhoCritical}, "box_width": {cos.BoxWidth},
			"particles": {float64(ren.Particles)}, "total_pixels": {float64(ren.TotalPixels)}, "subsample_length": {float64(ren.SubsampleLength)},
			"min_projection_depth": {float64(ren.MinProjectionDepth)}, "pixel_width": {loc.PixelWidth}, "origin": loc.Origin[:], "span": loc.Span[:],
			"pixel_origin": {}, "pixel_span": {}}
		for d := 0; d < 3; d++ {
			want["pixel_origin"] = append(want["pixel_origin"], float64(loc.PixelOrigin[d]))
			want["pixel_span"] = append(want["pixel_span"], float64(loc.PixelSpan[d]))
		}
		for k, w := range want {
			vs := strings.Split(said[k], ",")
			for j := range w {
				x := math.NaN()
				if j < len(vs) {
					if y, err := strconv.ParseFloat(strings.TrimSpace(vs[j]), 64); err == nil {
						x = y
					}
				}
				if len(vs) != len(w) || hx.Off(x, w[j], 6e-4*math.Abs(w[j])) {
					t.Fail("gotetra.py on %+v prints %s as %q, want %v", g, k, said[k], w)
				}
			}
		}
		axis := []string{"X", "Y", "Z", "None"}[g.axis]
		vec := "False"
		if g.vector() {
			vec = "True"
		}
		for k, w := range map[string]string{"endianness_flag": "Little Endian", "grid_type": spokenNames[g.q], "is_vector_grid": vec, "projection_axis": axis} {
			if said[k] != w {
				t.Fail("gotetra.py on %+v prints %s as %q, want %q", g, k, said[k], w)
			}
		}
	}
}

// versionOne reads files of the format before the velocity information.
func versionOne(t *hx.T) {
	dir := t.Dir()
	gs, reqs := []grid{}, []string{}
	for q := density.Density; q < density.EndQuantity; q++ {
		for _, axis := range []int{0, 1, 2, 3} {
			if axis < 3 && q != density.Density && q != density.Velocity {
				continue
			}
			g := grid{q, axis, [3]int{5, 7, 6}, axis}
			b := written(g)
			for i := 0; i < 8; i++ {
				b[i] = 0xff
			}
			binary.LittleEndian.PutUint64(b[8:], 240)
			b = append(b[:240:240], b[344:]...)
			p := filepath.Join(dir, fmt.Sprintf("g%d.gtet", len(gs)))
			must(os.WriteFile(p, b, 0644))
			gs, reqs = append(gs, g), append(reqs, "grid "+p)
		}
	}
	for i, o := range python(t, reqs) {
		judgeGridAs(t, gs[i], o, 1, 240)
	}
}

// pythonCuts cuts files at every byte: no reader may return anything.
func pythonCuts(t *hx.T) {
	dir := t.Dir()
	files, kinds := [][]byte{}, []string{}
	for _, g := range []grid{{density.Density, 3, [3]int{2, 3, 1}, 0}, {density.Velocity, 1, [3]int{2, 3, 2}, 0}} {
		files, kinds = append(files, written(g)), append(kinds, "grid ")
	}
	sg := sheetOf(2, 1)
	files, kinds = append(files, rx.SheetBytes(&sg.Hd, sg.Xs, sg.Vs, binary.LittleEndian)), append(kinds, "sheet ")
	reqs, lens := []string{}, []int{}
	for i, b := range files {
		for l := 0; l < len(b); l++ {
			p := filepath.Join(dir, fmt.Sprintf("%d-%d", i, l))
			must(os.WriteFile(p, b[:l], 0644))
			reqs, lens = append(reqs, kinds[i]+p), append(lens, len(b))
		}
		p := filepath.Join(dir, fmt.Sprintf("%d-whole", i))
		must(os.WriteFile(p, b, 0644))
		reqs, lens = append(reqs, kinds[i]+p), append(lens, -1)
	}
	for i, o := range python(t, reqs) {
		t.Eval(true)
		if (o.Error == "") != (lens[i] < 0) {
			t.Fail("%s of %d bytes: error %q", filepath.Base(reqs[i]), lens[i], o.Error)
		}
	}
}

// num gives a JSON number or flat array.
func num(t *hx.T, m map[string]json.RawMessage, key string) []float64 {
	r, ok := m[key]
	if !ok {
		return nil
	}
	x := 0.0
	if json.Unmarshal(r, &x) == nil {
		return []float64{x}
	}
	b := false
	if json.Unmarshal(r, &b) == nil {
		if b {
			return []float64{1}
		}
		return []float64{0}
	}
	a := pyArray{}
	if json.Unmarshal(r, &a) == nil {
		return a.Vals
	}
	return nil
}

func wantNum(t *hx.T, what string, m map[string]json.RawMessage, key string, want ...float64) {
	got := num(t, m, key)
	if len(got) != len(want) {
		t.Fail("%s: %s is %v, want %v", what, key, got, want)
		return
	}
	for i := range want {
		if got[i] != want[i] {
			t.Fail("%s: %s is %v, want %v", what, key, got, want)
			return
		}
	}
}

func judgeGrid(t *hx.T, g grid, o pyOut) { judgeGridAs(t, g, o, 2, 344) }

func judgeGridAs(t *hx.T, g grid, o pyOut, version, header float64) {
	what := fmt.Sprintf("quantity %d, span %v, axis %d", g.q, g.span, g.axis)
	t.Eval(g.vector() || g.axis < 3 || g.span[0] != g.span[1] || g.span[1] != g.span[2])
	if o.Error != "" {
		t.Fail("%s: %s", what, o.Error)
		return
	}
	if o.Printed != "" {
		t.Fail("%s: the reader complains: %s", what, o.Printed)
	}
	cos, ren, loc := g.info()
	vec := 0.0
	if g.vector() {
		vec = 1
	}
	wantNum(t, what, o.Type, "endianness_flag", -1)
	wantNum(t, what, o.Type, "header_size", header)
	wantNum(t, what, o.Type, "grid_type", float64(g.q))
	wantNum(t, what, o.Type, "is_vector_grid", vec)
	for k, v := range map[string]float64{"redshift": cos.Redshift, "scale_factor": cos.ScaleFactor, "omega_m": cos.OmegaM, "omega_l": cos.OmegaL,
		"h0": cos.Hubble, "rho_mean": cos.RhoMean, "rho_critical": cos.RhoCritical, "box_width": cos.BoxWidth} {
		wantNum(t, what, o.Cosmo, k, v)
	}
	for k, v := range map[string]int64{"particles": ren.Particles, "total_pixels": ren.TotalPixels, "subsample_length": ren.SubsampleLength,
		"min_projection_depth": ren.MinProjectionDepth, "projection_axis": ren.ProjectionAxis} {
		wantNum(t, what, o.Render, k, float64(v))
	}
	iv := func(v io.IntVector) []float64 { return []float64{float64(v[0]), float64(v[1]), float64(v[2])} }
	wantNum(t, what, o.Loc, "origin", loc.Origin[:]...)
	wantNum(t, what, o.Loc, "span", loc.Span[:]...)
	wantNum(t, what, o.Loc, "pixel_origin", iv(loc.PixelOrigin)...)
	wantNum(t, what, o.Loc, "pixel_span", iv(loc.PixelSpan)...)
	wantNum(t, what, o.Loc, "pixel_width", loc.PixelWidth)
	wantNum(t, what, o.Top, "dim", iv(loc.PixelSpan)...)
	wantNum(t, what, o.Top, "pw", loc.PixelWidth)
	wantNum(t, what, o.Top, "axis", float64(ren.ProjectionAxis))
	wantNum(t, what, o.Top, "version", version)
	if o.Text == "" {
		t.Fail("%s: the header prints as nothing", what)
	}
	// The values, last index fastest.
	shape := []int{}
	if g.vector() {
		shape = append(shape, 3)
	}
	for d := 2; d >= 0; d-- {
		if d != g.axis {
			shape = append(shape, g.span[d])
		}
	}
	vals := []float64{}
	for _, v := range g.values() {
		for _, x := range v {
			vals = append(vals, float64(x))
		}
	}
	if !o.Grid.is(shape, vals) {
		t.Fail("%s: the grid has shape %v, want %v; or other values", what, o.Grid.Shape, shape)
	}
	t.Outcome(what)
	t.Sample("%s", what)
}

func judgeSheet(t *hx.T, sg *rx.Segment, o pyOut) {
	h := sg.Hd
	what := fmt.Sprintf("sheet of width %d", h.GridWidth)
	t.Eval(true)
	if o.Error != "" {
		t.Fail("%s: %s", what, o.Error)
		return
	}
	for k, v := range map[string]float64{"z": h.Cosmo.Z, "omega_m": h.Cosmo.OmegaM, "h100": h.Cosmo.H100, "count": float64(h.Count),
		"count_width": float64(h.CountWidth), "x_width": float64(h.SegmentWidth), "xn_width": float64(h.GridWidth), "file_idx": float64(h.Idx),
		"omega_l": h.Cosmo.OmegaL, "scale": 1 / (1 + h.Cosmo.Z), "file_cells": float64(h.Cells), "box_width": h.TotalWidth} {
		wantNum(t, what, o.Sheet, k, v)
	}
	fv := func(v [3]float32) []float64 { return []float64{float64(v[0]), float64(v[1]), float64(v[2])} }
	wantNum(t, what, o.Sheet, "x_origin", fv(h.Origin)...)
	wantNum(t, what, o.Sheet, "x_span", fv(h.Width)...)
	wantNum(t, what, o.Sheet, "v_origin", fv(h.VelocityOrigin)...)
	wantNum(t, what, o.Sheet, "v_span", fv(h.VelocityWidth)...)
	g := int(h.GridWidth)
	for name, vecs := range map[string][][3]float32{"x": conv(sg, false), "v": conv(sg, true)} {
		all, inner := []float64{}, []float64{}
		for i, v := range vecs {
			all = append(all, fv(v)...)
			if i%g < g-1 && i/g%g < g-1 && i/g/g < g-1 {
				inner = append(inner, fv(v)...)
			}
		}
		for key, want := range map[string][]float64{name + "n": all, name: inner} {
			a := pyArray{}
			json.Unmarshal(o.Sheet[key], &a)
			w := int(math.Round(math.Cbrt(float64(len(want) / 3))))
			if !a.is([]int{w, w, w, 3}, want) {
				t.Fail("%s: array %s has shape %v, want %d^3 vectors; or other values", what, key, a.Shape, w)
			}
		}
	}
}

func conv(sg *rx.Segment, vel bool) [][3]float32 {
	out := [][3]float32{}
	src := sg.Xs
	if vel {
		src = sg.Vs
	}
	for _, v := range src {
		out = append(out, [3]float32(v))
	}
	return out
}
