package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
	"verif/mc/hx"
	"verif/mc/rx"
)

const ruleC04 = "every history of writes, foreign-order files, junk files, reads and refused reads up to a bound over two paths and three sheets; every grid width, header value alphabet and byte order in one round trip; a state is what each path holds"

func sheetOf(gw int, salt int) *rx.Segment {
	sg := &rx.Segment{}
	h := &sg.Hd
	h.Cosmo = io.CosmologyHeader{Z: 0.5 + float64(salt), OmegaM: 0.25, OmegaL: 0.75, H100: 0.7}
	h.SegmentWidth, h.GridWidth = int64(gw-1), int64(gw)
	h.GridCount = int64(gw * gw * gw)
	h.Cells = int64(2 + salt)
	h.CountWidth = h.SegmentWidth * h.Cells
	h.Count = h.CountWidth * h.CountWidth * h.CountWidth
	h.Idx = int64(salt)
	h.Mass, h.TotalWidth = 1e10/3*float64(salt+1), 62.5
	h.Origin, h.Width = geom.Vec{1.5, float32(salt), 62.25}, geom.Vec{4, 5.5, 0.125}
	h.VelocityOrigin, h.VelocityWidth = geom.Vec{-300.25, -1, float32(-salt)}, geom.Vec{600, 2, 1e-3}
	for i := 0; i < gw*gw*gw; i++ {
		f := float32(i*7+salt*1000) + 0.1
		sg.Xs = append(sg.Xs, geom.Vec{f, f / 3, 60 - f/100})
		sg.Vs = append(sg.Vs, geom.Vec{-f, f * 1e-3, float32(math.Sqrt(float64(f)))})
	}
	return sg
}

var sheetOps = []string{"A.P", "B.P", "C.P", "bigB.P", "junk.P", "A.Q", "B.Q", "read.P", "read.Q", "bad.P", "bad.Q"}

func runC04(c *hx.C) {
	depth := c.Pick(4, 5)
	for a := range sheetOps {
		for b := range sheetOps {
			a, b := a, b
			c.Case(fmt.Sprintf("history/%s-%s", sheetOps[a], sheetOps[b]), func(t *hx.T) {
				dir := t.Dir()
				hx.Seqs(len(sheetOps), depth-2, func(h []int) {
					if !t.Failed() {
						sheetHistory(t, dir, append([]int{a, b}, h...))
					}
				})
			})
		}
	}
	widths := []int{}
	for gw := 2; gw <= c.Pick(9, 20); gw++ {
		widths = append(widths, gw)
	}
	for _, gw := range append(widths, 33, c.Pick(42, 65)) {
		gw := gw
		c.Case(fmt.Sprintf("width/%d", gw), func(t *hx.T) {
			dir := t.Dir()
			for salt := 0; salt < 3; salt++ {
				sg := sheetOf(gw, salt)
				vals := []float32{0, float32(math.Copysign(0, -1)), 1e-45, -3.4e38, 3.4e38, float32(math.Inf(1)), 1.17e-38, 0.1}
				for i := range vals {
					sg.Xs[i][i%3] = vals[(i+salt)%len(vals)]
					sg.Vs[len(sg.Vs)-1-i][(i+1)%3] = vals[(i+salt)%len(vals)]
				}
				sg.Hd.Origin = geom.Vec{vals[salt], vals[salt+1], vals[salt+2]}
				sg.Hd.Idx = int64(salt) * (1 << 40)
				p := filepath.Join(dir, "sheet")
				writeSheet(t, p, sg)
				readSheet(t, p, sg)
				must(os.WriteFile(p, rx.SheetBytes(&sg.Hd, sg.Xs, sg.Vs, binary.BigEndian), 0644))
				readSheet(t, p, sg)
				t.Eval(true)
			}
		})
	}
	c.Case("refused", func(t *hx.T) {
		dir := t.Dir()
		p := filepath.Join(dir, "sheet")
		for _, bad := range []func(sg *rx.Segment){
			func(sg *rx.Segment) { sg.Xs = sg.Xs[1:] },
			func(sg *rx.Segment) { sg.Vs = sg.Vs[1:] },
			func(sg *rx.Segment) { sg.Xs = append(sg.Xs, geom.Vec{}) },
			func(sg *rx.Segment) { sg.Hd.GridCount++ },
			func(sg *rx.Segment) { sg.Hd.GridWidth++ },
		} {
			sg := sheetOf(3, 1)
			bad(sg)
			t.Eval(true)
			if hx.Try(func() { io.WriteSheet(p, &sg.Hd, sg.Xs, sg.Vs) }) == nil {
				t.Fail("a sheet of width %d, count %d with %d positions and %d velocities is written", sg.Hd.GridWidth, sg.Hd.GridCount, len(sg.Xs), len(sg.Vs))
			}
		}
	})
}

func writeSheet(t *hx.T, p string, sg *rx.Segment) {
	xs, vs := append([]geom.Vec{}, sg.Xs...), append([]geom.Vec{}, sg.Vs...)
	hd := sg.Hd
	n := openFiles()
	io.WriteSheet(p, &hd, xs, vs)
	if m := openFiles(); m > n {
		t.Fail("WriteSheet leaves a file open")
	}
	got, err := os.ReadFile(p)
	must(err)
	if !bytes.Equal(got, rx.SheetBytes(&sg.Hd, sg.Xs, sg.Vs, binary.LittleEndian)) {
		t.Fail("a sheet of width %d is not written in the documented layout (%d bytes)", sg.Hd.GridWidth, len(got))
	}
	if hd != sg.Hd || !same(xs, sg.Xs) || !same(vs, sg.Vs) {
		t.Fail("WriteSheet changes its arguments")
	}
}

func same(a, b []geom.Vec) bool {
	for i := range a {
		for d := range a[i] {
			if math.Float32bits(a[i][d]) != math.Float32bits(b[i][d]) {
				return false
			}
		}
	}
	return len(a) == len(b)
}

func readSheet(t *hx.T, p string, sg *rx.Segment) {
	n := openFiles()
	hd := io.SheetHeader{Count: 99, Mass: -7}
	xs, vs := make([]geom.Vec, len(sg.Xs)), make([]geom.Vec, len(sg.Vs))
	for i := range xs {
		xs[i], vs[i] = geom.Vec{-5, -5, -5}, geom.Vec{-6, -6, -6}
	}
	if err := io.ReadSheetHeaderAt(p, &hd); err != nil || hd != sg.Hd {
		t.Fail("the header reads back as %+v (error %v), was %+v", hd, err, sg.Hd)
		return
	}
	if err := io.ReadSheetVelocitiesAt(p, vs); err != nil || !same(vs, sg.Vs) {
		t.Fail("velocities of a sheet of width %d do not read back (error %v)", sg.Hd.GridWidth, err)
		return
	}
	if err := io.ReadSheetPositionsAt(p, xs); err != nil || !same(xs, sg.Xs) {
		t.Fail("positions of a sheet of width %d do not read back (error %v)", sg.Hd.GridWidth, err)
		return
	}
	if m := openFiles(); m > n {
		t.Fail("reading leaves a file open")
	}
}

// failRead: no reader may report success.
func failRead(t *hx.T, p string, n int, header bool) {
	fds := openFiles()
	var err error
	hd := io.SheetHeader{}
	if r := hx.Try(func() { err = io.ReadSheetHeaderAt(p, &hd) }); header && r == nil && err == nil {
		t.Fail("the header of an unreadable sheet is read as %+v", hd)
	}
	err = nil
	if r := hx.Try(func() { err = io.ReadSheetPositionsAt(p, make([]geom.Vec, n)) }); r == nil && err == nil {
		t.Fail("%d positions of a sheet which has none, or another number, are read without an error", n)
	}
	err = nil
	if r := hx.Try(func() { err = io.ReadSheetVelocitiesAt(p, make([]geom.Vec, n)) }); r == nil && err == nil {
		t.Fail("%d velocities of a sheet which has none, or another number, are read without an error", n)
	}
	if m := openFiles(); m > fds {
		t.Fail("a refused read leaves a file open")
	}
}

func sheetHistory(t *hx.T, dir string, h []int) {
	kinds := map[string]*rx.Segment{"A": sheetOf(2, 0), "B": sheetOf(3, 1), "C": sheetOf(2, 2)}
	path := map[string]string{"P": filepath.Join(dir, "p"), "Q": filepath.Join(dir, "q")}
	has := map[string]string{}
	for _, p := range path {
		os.Remove(p)
	}
	names := []string{}
	for i, k := range h {
		op, where, _ := strings.Cut(sheetOps[k], ".")
		names = append(names, sheetOps[k])
		p := path[where]
		t.Trans(1)
		switch op {
		case "A", "B", "C":
			writeSheet(t, p, kinds[op])
			has[where] = op
		case "bigB":
			sg := kinds["B"]
			must(os.WriteFile(p, rx.SheetBytes(&sg.Hd, sg.Xs, sg.Vs, binary.BigEndian), 0644))
			has[where] = "B"
		case "junk":
			b := bytes.Repeat([]byte{0, 0, 0, 0, 77}, 400)
			must(os.WriteFile(p, b, 0644))
			has[where] = ""
		case "read":
			t.Eval(i > 1)
			if sg := kinds[has[where]]; sg != nil {
				readSheet(t, p, sg)
			} else {
				failRead(t, p, 8, true)
			}
		case "bad":
			t.Eval(true)
			failRead(t, p, 9, kinds[has[where]] == nil)
		}
		t.State(fmt.Sprint(has["P"], "/", has["Q"], h[:i+1]))
		if t.Failed() {
			t.Fail("history %v", names)
			return
		}
	}
	// Whatever happened, both paths hold what was written last.
	for w, k := range has {
		if kinds[k] != nil {
			readSheet(t, path[w], kinds[k])
		}
	}
	t.Trace()
}
