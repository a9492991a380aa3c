// Package rx holds what the rendering checks share: a generator of small phase
// sheets written byte by byte, a pixel-grid reference model, recording wrappers
// around the renderer's exported Box and Overlap interfaces, and a controlled
// scheduler for its worker goroutines.
package rx

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"path/filepath"

	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
	"verif/mc/hx"
)

// Sheet describes a phase sheet: N particles and Cells segments on a side, in
// a box of width L. X gives the unwrapped position of node (i,j,k) of segment
// (a,b,c), with 0 <= i,j,k <= N/Cells.
type Sheet struct {
	N, Cells int
	L        float64
	X        func(a, b, c, i, j, k int) [3]float64
	V        func(a, b, c, i, j, k int) [3]float32
}

// Seg is the number of cubes on a side of a segment.
func (s *Sheet) Seg() int { return s.N / s.Cells }

// Mod wraps x into [0, w).
func Mod(x, w float64) float64 {
	m := math.Mod(x, w)
	if m < 0 {
		m += w
	}
	if m >= w {
		m = 0
	}
	return m
}

// Segment is one file's worth of sheet.
type Segment struct {
	Hd     io.SheetHeader
	Xs, Vs []geom.Vec
	Un     [][3]float64 // unwrapped positions
	Idx    int
}

// Segment builds segment idx (x fastest).
func (s *Sheet) Segment(idx int) *Segment {
	a, b, c := idx%s.Cells, idx/s.Cells%s.Cells, idx/s.Cells/s.Cells
	w := s.Seg()
	g := w + 1
	sg := &Segment{Idx: idx}
	lo := [3]float64{math.Inf(1), math.Inf(1), math.Inf(1)}
	hi := [3]float64{math.Inf(-1), math.Inf(-1), math.Inf(-1)}
	vlo, vhi := lo, hi
	for k := 0; k < g; k++ {
		for j := 0; j < g; j++ {
			for i := 0; i < g; i++ {
				u := s.X(a, b, c, i, j, k)
				v := [3]float32{}
				if s.V != nil {
					v = s.V(a, b, c, i, j, k)
				}
				x := geom.Vec{}
				for d := 0; d < 3; d++ {
					lo[d], hi[d] = math.Min(lo[d], u[d]), math.Max(hi[d], u[d])
					vlo[d] = math.Min(vlo[d], float64(v[d]))
					vhi[d] = math.Max(vhi[d], float64(v[d]))
					x[d] = float32(Mod(u[d], s.L))
					if float64(x[d]) >= s.L {
						x[d] = 0
					}
				}
				sg.Un = append(sg.Un, u)
				sg.Xs = append(sg.Xs, x)
				sg.Vs = append(sg.Vs, geom.Vec(v))
			}
		}
	}
	h := &sg.Hd
	h.Cosmo = io.CosmologyHeader{Z: 0.5, OmegaM: 0.25, OmegaL: 0.75, H100: 0.5}
	h.CountWidth = int64(s.N)
	h.Count = h.CountWidth * h.CountWidth * h.CountWidth
	h.SegmentWidth, h.GridWidth = int64(w), int64(g)
	h.GridCount = int64(g * g * g)
	h.Idx, h.Cells = int64(idx), int64(s.Cells)
	h.Mass, h.TotalWidth = 3, s.L
	for d := 0; d < 3; d++ {
		h.Origin[d] = float32(Mod(lo[d], s.L))
		if float64(h.Origin[d]) >= s.L {
			h.Origin[d] = 0
		}
		h.Width[d] = float32(hi[d] - lo[d])
		h.VelocityOrigin[d] = float32(vlo[d])
		h.VelocityWidth[d] = float32(vhi[d] - vlo[d])
	}
	return sg
}

// SheetBytes is the documented layout of a sheet file.
func SheetBytes(h *io.SheetHeader, xs, vs []geom.Vec, order binary.ByteOrder) []byte {
	w := &bytes.Buffer{}
	flag := int32(0)
	if order == binary.BigEndian {
		flag = -1
	}
	put := func(x interface{}) {
		if err := binary.Write(w, order, x); err != nil {
			panic(hx.HarnessError{Msg: err.Error()})
		}
	}
	put(flag)
	put(int32(152))
	for _, x := range []float64{h.Cosmo.Z, h.Cosmo.OmegaM, h.Cosmo.OmegaL, h.Cosmo.H100} {
		put(x)
	}
	for _, x := range []int64{h.Count, h.CountWidth, h.SegmentWidth, h.GridWidth,
		h.GridCount, h.Idx, h.Cells} {
		put(x)
	}
	put(h.Mass)
	put(h.TotalWidth)
	for _, v := range []geom.Vec{h.Origin, h.Width, h.VelocityOrigin, h.VelocityWidth} {
		put([3]float32(v))
	}
	for _, v := range xs {
		put([3]float32(v))
	}
	for _, v := range vs {
		put([3]float32(v))
	}
	return w.Bytes()
}

// Write writes every segment of the sheet into dir.
func (s *Sheet) Write(dir string) []string {
	files := []string{}
	for idx := 0; idx < s.Cells*s.Cells*s.Cells; idx++ {
		sg := s.Segment(idx)
		f := filepath.Join(dir, fmt.Sprintf("sheet%04d.dat", idx))
		err := os.WriteFile(f, SheetBytes(&sg.Hd, sg.Xs, sg.Vs, binary.LittleEndian), 0644)
		if err != nil {
			panic(hx.HarnessError{Msg: err.Error()})
		}
		files = append(files, f)
	}
	return files
}

// WriteApart writes every segment into a folder of its own, all under the same
// name, and lists them from the given one on.
func (s *Sheet) WriteApart(dir string, first int) []string {
	files := s.Write(dir)
	for i, f := range files {
		sub := filepath.Join(dir, fmt.Sprintf("part%d", i))
		files[i] = filepath.Join(sub, "sheet.dat")
		err := os.MkdirAll(sub, 0755)
		if err == nil {
			err = os.Rename(f, files[i])
		}
		if err != nil {
			panic(hx.HarnessError{Msg: err.Error()})
		}
	}
	first %= len(files)
	return append(append([]string{}, files[first:]...), files[:first]...)
}

// PixelBlock is the pixel bounding block of a segment, from unwrapped positions.
func (sg *Segment) PixelBlock(cells int) (o, w [3]int) {
	cw := sg.Hd.TotalWidth / float64(cells)
	for d := 0; d < 3; d++ {
		lo, hi := math.Inf(1), math.Inf(-1)
		for _, u := range sg.Un {
			lo, hi = math.Min(lo, u[d]), math.Max(hi, u[d])
		}
		o[d] = int(math.Floor(lo / cw))
		w[d] = int(math.Floor(hi/cw)) + 1 - o[d]
	}
	return o, w
}
