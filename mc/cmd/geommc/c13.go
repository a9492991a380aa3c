package main

import (
	"fmt"
	"sort"

	"github.com/phil-mansfield/gotetra/render/geom"
	"verif/mc/hx"
)

const ruleC13 = "every cube position of every grid width and step of the alphabet with all six orientations, the first, middle and last ones of wide grids; every generic sub-cell point of the cube; every node and orientation of the centred form; a case is non-trivial when the cube is not at the origin or the step is not one"

type iv [3]int64

func (a iv) sub(b iv) iv { return iv{a[0] - b[0], a[1] - b[1], a[2] - b[2]} }

func det(a, b, c iv) int64 {
	return a[0]*(b[1]*c[2]-b[2]*c[1]) - a[1]*(b[0]*c[2]-b[2]*c[0]) + a[2]*(b[0]*c[1]-b[1]*c[0])
}

func runC13(c *hx.C) {
	for gw := int64(2); gw <= int64(c.Pick(9, 18)); gw++ {
		gw := gw
		for skip := int64(1); skip < gw; skip++ {
			skip := skip
			c.Case(fmt.Sprintf("cubes/width%d/step%d", gw, skip), func(t *hx.T) { cubes(t, gw, skip) })
		}
	}
	// Including grids of more nodes than 32 bits count.
	for _, gw := range []int64{31, 33, 64, 65, 100, 128, 129, 256, 257, 513, 1025, 1291, 1626, 2049, 4097, 100000} {
		gw := gw
		c.Case(fmt.Sprintf("wide/%d", gw), func(t *hx.T) { wideCubes(t, gw) })
	}
	for gw := int64(1); gw <= int64(c.Pick(6, 10)); gw++ {
		gw := gw
		c.Case(fmt.Sprintf("centred/width%d", gw), func(t *hx.T) { centred(t, gw) })
	}
	c.Case("refused", func(t *hx.T) {
		for _, dir := range []int{-1, 6, 7, 100} {
			t.Eval(true)
			if hx.Try(func() { geom.NewTetraIdxs(0, 4, 1, dir) }) == nil {
				t.Fail("orientation %d is accepted", dir)
			}
		}
	})
}

func node(i, gw int64) iv { return iv{i % gw, i / gw % gw, i / gw / gw} }

func cubes(t *hx.T, gw, skip int64) {
	at := []int64{}
	for x := int64(0); x+skip < gw; x++ {
		at = append(at, x)
	}
	cubesAt(t, gw, skip, [3][]int64{at, at, at})
}

// wideCubes takes the first, middle and last places of wide grids.
func wideCubes(t *hx.T, gw int64) {
	for _, skip := range []int64{1, 2, 7, 64, gw / 2, gw - 1} {
		if skip < 1 || skip >= gw {
			continue
		}
		at := []int64{}
		for _, x := range []int64{0, 1, 62, 127, gw / 2, gw - 2 - skip, gw - 1 - skip} {
			if x >= 0 && x+skip < gw && (len(at) == 0 || at[len(at)-1] < x) {
				at = append(at, x)
			}
		}
		cubesAt(t, gw, skip, [3][]int64{at, at, at})
		// Every place along each axis.
		all := []int64{}
		for x := int64(0); x+skip < gw && gw < 300; x++ {
			all = append(all, x)
		}
		few := []int64{at[0], at[len(at)-1]}
		for d := 0; d < 3 && skip < 3; d++ {
			l := [3][]int64{few, few, few}
			l[d] = all
			cubesAt(t, gw, skip, l)
		}
	}
}

func cubesAt(t *hx.T, gw, skip int64, at [3][]int64) {
	reused := &geom.TetraIdxs{}
	for _, z := range at[2] {
		for _, y := range at[1] {
			for _, x := range at[0] {
				base := iv{x, y, z}
				idx := x + y*gw + z*gw*gw
				tets := [][4]iv{}
				for dir := 0; dir < geom.TetraDirCount; dir++ {
					reused.Init(idx, gw, skip, dir)
					fresh := geom.NewTetraIdxs(idx, gw, skip, dir)
					if *fresh != *reused {
						t.Fail("width %d step %d cube %v orientation %d: a reused index set gives %v, a new one %v", gw, skip, base, dir, *reused, *fresh)
						return
					}
					if skip == 1 {
						cart := &geom.TetraIdxs{}
						cart.InitCartesian(x, y, z, gw, dir)
						if *cart != *fresh {
							t.Fail("width %d cube %v orientation %d: InitCartesian gives %v, Init %v", gw, base, dir, *cart, *fresh)
							return
						}
					}
					tet := [4]iv{}
					for i := range tet {
						if fresh[i] < 0 || fresh[i] >= gw*gw*gw {
							t.Fail("width %d step %d cube %v orientation %d: index %d is outside the grid", gw, skip, base, dir, fresh[i])
							return
						}
						r := node(fresh[i], gw).sub(base)
						for d := range r {
							if r[d] != 0 && r[d] != skip {
								t.Fail("width %d step %d cube %v orientation %d: corner %v is no corner of the cube", gw, skip, base, dir, r)
								return
							}
							r[d] /= skip
						}
						tet[i] = r
					}
					tets = append(tets, tet)
				}
				t.Eval(idx != 0 || skip != 1)
				t.Outcome(fmt.Sprint(tets))
				if !tiles(t, fmt.Sprintf("width %d step %d cube %v", gw, skip, base), tets) {
					return
				}
			}
		}
	}
	t.Sample("grid width %d, step %d: six tetrahedra of every cube", gw, skip)
}

// tiles checks six tetrahedra of the unit cube.
func tiles(t *hx.T, what string, tets [][4]iv) bool {
	for _, k := range tets {
		if v := det(k[1].sub(k[0]), k[2].sub(k[0]), k[3].sub(k[0])); v != 1 && v != -1 {
			t.Fail("%s: tetrahedron %v has %d sixths of the cube's volume", what, k, v)
			return false
		}
	}
	// Points of a generic lattice, none on any plane through corners.
	const m = 5
	for i := int64(0); i < m; i++ {
		for j := int64(0); j < m; j++ {
			for k := int64(0); k < m; k++ {
				// coordinates in units of 1/ (m*97)
				p := iv{i*97 + 13, j*97 + 41, k*97 + 71}
				in := 0
				for _, tt := range tets {
					q := [4]iv{}
					for a := range tt {
						for d := range q[a] {
							q[a][d] = tt[a][d] * m * 97
						}
					}
					full := det(q[1].sub(q[0]), q[2].sub(q[0]), q[3].sub(q[0]))
					ok := true
					for a := 0; a < 4; a++ {
						r := q
						r[a] = p
						v := det(r[1].sub(r[0]), r[2].sub(r[0]), r[3].sub(r[0]))
						if (v > 0) != (full > 0) || v == 0 {
							ok = false
						}
					}
					if ok {
						in++
					}
				}
				if in != 1 {
					t.Fail("%s: point %v/485 is in %d of the six tetrahedra %v", what, p, in, tets)
					return false
				}
			}
		}
	}
	// Opposite faces have the same diagonal.
	for d := 0; d < 3; d++ {
		diag := [2]map[string]bool{{}, {}}
		for _, k := range tets {
			for side := int64(0); side < 2; side++ {
				on := []string{}
				var pts []iv
				for _, p := range k {
					if p[d] == side {
						q := p
						q[d] = 0
						pts = append(pts, q)
					}
				}
				if len(pts) != 3 {
					continue
				}
				for a := 0; a < 3; a++ {
					for b := a + 1; b < 3; b++ {
						dd := pts[a].sub(pts[b])
						n := 0
						for _, x := range dd {
							if x != 0 {
								n++
							}
						}
						if n == 2 {
							on = []string{fmt.Sprint(pts[a]), fmt.Sprint(pts[b])}
						}
					}
				}
				sort.Strings(on)
				diag[side][fmt.Sprint(on)] = true
			}
		}
		if len(diag[0]) != 1 || len(diag[1]) != 1 || fmt.Sprint(diag[0]) != fmt.Sprint(diag[1]) {
			t.Fail("%s: opposite faces on axis %d are split along %v and %v", what, d, diag[0], diag[1])
			return false
		}
	}
	return true
}

// centred: the eight octant tetrahedra around a node.
func centred(t *hx.T, gw int64) {
	for skip := int64(1); skip <= gw; skip++ {
		for idx := int64(0); idx < gw*gw*gw; idx++ {
			p := node(idx, gw)
			octants := map[string]bool{}
			for dir := 0; dir < geom.TetraCenteredCount; dir++ {
				ti := &geom.TetraIdxs{}
				_, ok := ti.InitCentered(idx, gw, skip, dir)
				// The octant's signs, from an interior node of a grid so wide
				// that nothing is cut off.
				wide := int64(1000)
				mid := int64(500*1000*1000 + 500*1000 + 500)
				ref := &geom.TetraIdxs{}
				if _, rok := ref.InitCentered(mid, wide, skip, dir); !rok {
					t.Fail("width 1000, node (500, 500, 500), step %d, octant %d is refused", skip, dir)
					return
				}
				want := true
				s := iv{}
				for k := 0; k < 3; k++ {
					off := node(ref[k], wide).sub(iv{500, 500, 500})
					for d := range off {
						s[d] += off[d]
						if x := p[d] + off[d]; x < 0 || x >= gw {
							want = false
						}
					}
				}
				for d := range s {
					if s[d] != skip && s[d] != -skip {
						t.Fail("octant %d, step %d: legs add up to %v", dir, skip, s)
						return
					}
				}
				octants[fmt.Sprint(s)] = true
				t.Eval(!want)
				if ok != want {
					t.Fail("width %d node %v step %d octant %d: ok is %v, want %v", gw, p, skip, dir, ok, want)
					return
				}
				if !ok {
					continue
				}
				for k := 0; k < 4; k++ {
					off := node(ref[k], wide).sub(iv{500, 500, 500})
					if q := node(ti[k], gw); q.sub(p) != off {
						t.Fail("width %d node %v step %d octant %d: corner %v, want offset %v", gw, p, skip, dir, q, off)
						return
					}
				}
			}
			if len(octants) != 8 {
				t.Fail("%d different octants", len(octants))
				return
			}
		}
	}
}
