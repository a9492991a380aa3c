package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"path/filepath"

	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
	"verif/mc/hx"
)

const ruleC03 = "every combination of byte order, ID width, position and velocity float width, particle count, box width and scale factor, with the coordinate alphabet rotated through every particle and component; every sequence of reads up to a bound into the same buffers; non-trivial when a coordinate is wrapped or a block is not 32-bit little endian"

func orderName(o binary.ByteOrder) string {
	if o == binary.LittleEndian {
		return "little"
	}
	return "big"
}

func coords(box float64) []float64 {
	f := float64(float32(box))
	up := func(x float64) float64 { return float64(math.Nextafter32(float32(x), float32(math.Inf(1)))) }
	dn := func(x float64) float64 { return float64(math.Nextafter32(float32(x), float32(math.Inf(-1)))) }
	return []float64{0, f / 2, dn(f), f, up(f), dn(dn(f)), -1e-30, -1e-9 * f, up(0), f * 0.1, -f * 0.3, f * 1.25, box, dn(0), f / 3,
		math.Nextafter(box, 0), math.Nextafter(box, 1e9), -box * 1e-12, box * 0.7123456789}
}

func makeSnap(order binary.ByteOrder, idBits int, x64, v64 bool, n, rot int, box, time float64) *snapshot {
	s := &snapshot{order: order, idBits: idBits, x64: x64, v64: v64, box: box, time: time, mass: 0.0625 + float64(rot),
		z: 1/time - 1, om: 0.27, ol: 0.73, h: 0.7, total: uint32(n * 3), hi: uint32(rot % 3)}
	cs := coords(box)
	for i := 0; i < n; i++ {
		id := uint64(n-i) + uint64(rot)*3
		if i%5 == 3 {
			id += 3000000000
		}
		if idBits == 64 && i%7 == 1 {
			id += 1 << 40
		}
		s.ids = append(s.ids, id)
		x, v := [3]float64{}, [3]float64{}
		for d := range x {
			x[d] = cs[(i*5+d*7+rot)%len(cs)]
			v[d] = float64((i*17+d*29+rot*3)%401)*1.7 - 300.1
		}
		s.xs, s.vs = append(s.xs, x), append(s.vs, v)
	}
	return s
}

func runC03(c *hx.C) {
	orders := []binary.ByteOrder{binary.LittleEndian, binary.BigEndian}
	ns := []int{1, 2, 8, 27}
	boxes := []float64{100, 62.5, 1000.1, 0.7}
	times := []float64{1, 0.25, 0.3333}
	if c.Thorough() {
		ns = append(ns, 0, 3, 64, 341, 1000)
		boxes = append(boxes, 1, 250.05, 12345.678)
		times = append(times, 0.0123, 0.9)
	}
	for _, o := range orders {
		for _, ib := range []int{32, 64} {
			for _, x64 := range []bool{false, true} {
				for _, v64 := range []bool{false, true} {
					for _, n := range ns {
						o, ib, x64, v64, n := o, ib, x64, v64, n
						c.Case(fmt.Sprintf("file/%s/ids%d/x64%v/v64%v/n%d", orderName(o), ib, x64, v64, n), func(t *hx.T) {
							dir := t.Dir()
							for _, box := range boxes {
								for _, tm := range times {
									rots := len(coords(box))
									if tm != 1 {
										rots = 2
									}
									for rot := 0; rot < rots; rot++ {
										s := makeSnap(o, ib, x64, v64, n, rot, box, tm)
										b, _ := s.bytes()
										p := filepath.Join(dir, "snap")
										must(os.WriteFile(p, b, 0644))
										h, xs, vs, ids := io.ReadGadget(p, o, ib, "LGadget-2")
										judgeSnap(t, s, h, xs, vs, ids)
										if t.Failed() {
											return
										}
									}
								}
							}
						})
					}
				}
			}
		}
	}
	// Many particles, and runs of files of different lengths.
	c.Case("large", func(t *hx.T) {
		p := filepath.Join(t.Dir(), "snap")
		for w := 0; w < 16; w++ {
			for i, n := range []int{65, 1025, c.Pick(70000, 300000), 100} {
				if t.Failed() {
					return
				}
				t.Beat()
				s := makeSnap(orders[w&1], []int{32, 64}[w>>1&1], w&4 != 0, w&8 != 0, n, i, 62.5, 0.25)
				b, _ := s.bytes()
				must(os.WriteFile(p, b, 0644))
				h, xs, vs, ids := io.ReadGadget(p, s.order, s.idBits, "LGadget-2")
				judgeSnap(t, s, h, xs, vs, ids)
			}
		}
	})
	// Sequences of reads into shared buffers of one size.
	kinds := []*snapshot{}
	for i, o := range orders {
		for j, ib := range []int{32, 64} {
			for k := 0; k < 2; k++ {
				kinds = append(kinds, makeSnap(o, ib, k == 1, (k+i)%2 == 1, 6, i*4+j*2+k, 100, 0.25))
			}
		}
	}
	for a := range kinds {
		a := a
		c.Case(fmt.Sprintf("sequence/%d", a), func(t *hx.T) {
			dir := t.Dir()
			for i, s := range kinds {
				b, _ := s.bytes()
				must(os.WriteFile(filepath.Join(dir, fmt.Sprint(i)), b, 0644))
			}
			hx.Seqs(len(kinds), c.Pick(2, 3), func(h []int) {
				xs, vs, ids := make([]geom.Vec, 6), make([]geom.Vec, 6), make([]int64, 6)
				for _, k := range append([]int{a}, h...) {
					s := kinds[k]
					p := filepath.Join(dir, fmt.Sprint(k))
					hd := io.ReadGadgetHeader(p, s.order, "LGadget-2")
					io.ReadGadgetParticlesAt(p, s.order, xs, vs, ids, s.idBits, "LGadget-2")
					t.Trans(1)
					if !t.Failed() {
						judgeSnap(t, s, hd, xs, vs, ids)
					}
				}
			})
		})
	}
	c.Case("refused", func(t *hx.T) {
		dir := t.Dir()
		p := filepath.Join(dir, "snap")
		s := makeSnap(binary.LittleEndian, 64, false, false, 5, 0, 100, 1)
		b, _ := s.bytes()
		must(os.WriteFile(p, b, 0644))
		for _, n := range [][3]int{{4, 5, 5}, {5, 4, 5}, {5, 5, 4}, {6, 5, 5}, {5, 6, 5}, {5, 5, 6}, {0, 0, 0}} {
			t.Eval(true)
			if hx.Try(func() {
				io.ReadGadgetParticlesAt(p, binary.LittleEndian, make([]geom.Vec, n[0]), make([]geom.Vec, n[1]), make([]int64, n[2]), 64, "LGadget-2")
			}) == nil {
				t.Fail("buffers of lengths %v are accepted for 5 particles", n)
			}
		}
		for _, ib := range []int{0, 8, 16, 128} {
			t.Eval(true)
			if hx.Try(func() { io.ReadGadget(p, binary.LittleEndian, ib, "LGadget-2") }) == nil {
				t.Fail("IDs of %d bits are accepted", ib)
			}
		}
	})
}

func judgeSnap(t *hx.T, s *snapshot, h *io.CatalogHeader, xs, vs []geom.Vec, ids []int64) {
	n := len(s.ids)
	what := fmt.Sprintf("%s endian, %d-bit IDs, wide positions %v, wide velocities %v, %d particles, box %g, scale factor %g", orderName(s.order), s.idBits, s.x64, s.v64, n, s.box, s.time)
	if h.Count != int64(n) || h.TotalCount != int64(s.total)+int64(s.hi)<<32 || h.TotalWidth != s.box || h.Mass != s.mass ||
		h.Cosmo != (io.CosmologyHeader{Z: s.z, OmegaM: s.om, OmegaL: s.ol, H100: s.h}) {
		t.Fail("%s: header is %+v", what, *h)
		return
	}
	if len(xs) != n || len(vs) != n || len(ids) != n {
		t.Fail("%s: %d positions, %d velocities, %d IDs", what, len(xs), len(vs), len(ids))
		return
	}
	rootA := math.Sqrt(s.time)
	wrapped := false
	for i := range s.ids {
		if uint64(ids[i]) != s.ids[i] {
			t.Fail("%s: particle %d has ID %d, want %d", what, i, ids[i], s.ids[i])
			return
		}
		for d := 0; d < 3; d++ {
			x := s.xs[i][d]
			if !s.x64 {
				x = float64(float32(x))
			}
			got := float64(xs[i][d])
			if x < 0 || x >= s.box {
				wrapped = true
			}
			if got < 0 || got >= s.box {
				t.Fail("%s: coordinate %.17g is read as %.17g, outside [0, %g)", what, x, got, s.box)
				return
			}
			e := math.Abs(got-x) / s.box
			if e = math.Abs(e - math.Round(e)); !(e <= 1.3e-7) {
				t.Fail("%s: coordinate %.17g is read as %.17g", what, x, got)
				return
			}
			v := s.vs[i][d]
			if hx.Off(float64(vs[i][d]), v*rootA, 4e-7*math.Abs(v)) {
				t.Fail("%s: velocity %g is read as %g, want %g", what, v, vs[i][d], v*rootA)
				return
			}
		}
	}
	t.Eval(wrapped || s.idBits == 64 || s.x64 || s.v64 || s.order == binary.BigEndian)
	t.Outcome(fmt.Sprint(xs, vs, ids))
	t.Sample("%s", what)
}
