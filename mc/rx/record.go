package rx

import (
	"bytes"
	"fmt"
	"math"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"testing"
	"testing/synctest"

	"github.com/phil-mansfield/gotetra/render"
	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/geom"
	"github.com/phil-mansfield/gotetra/render/io"
	"verif/mc/hx"
)

// Block is a periodic block of pixels.
type Block struct{ O, W [3]int }

// Has says where pixel g (global, any image) lies in the block.
func (b Block) Has(g [3]int, cells int) (rel [3]int, ok bool) {
	for d := 0; d < 3; d++ {
		r := (g[d] - b.O[d]) % cells
		if r < 0 {
			r += cells
		}
		if r >= b.W[d] {
			return rel, false
		}
		rel[d] = r
	}
	return rel, true
}

// Deposit is one recorded sample.
type Deposit struct {
	P [3]int     // global pixel
	X [3]float64 // global position in pixels
	V float64
	W [3]float64
}

// Rec collects what the renderer deposited into one box.
type Rec struct {
	mu    sync.Mutex
	Deps  []Deposit
	Calls int
	// Point, if set, is called before every deposit, in the worker, with a key
	// made of what is to be deposited.
	Point func(key string)
}

// RecBox wraps a Box so that everything it deposits is recorded.
type RecBox struct {
	render.Box
	R *Rec
}

func (b *RecBox) Overlap(hd *io.SheetHeader) render.Overlap {
	return &recOverlap{b.Box.Overlap(hd), b.R, b.Box.Cells()}
}

type recOverlap struct {
	render.Overlap
	r     *Rec
	cells int
}

func floorInt(x float32) int { return int(math.Floor(float64(x))) }

func (o *recOverlap) Interpolate(
	buf density.Buffer, xs, vs []geom.Vec, ptVal float64, weights density.Buffer,
	low, high, jump int,
) {
	cb := o.Overlap.BufferCellBounds()
	wv, isVec := weights.VectorBuffer()
	deps := make([]Deposit, 0, high-low)
	for i := low; i < high; i += jump {
		d := Deposit{V: ptVal}
		for k := 0; k < 3; k++ {
			g := (floorInt(xs[i][k]) + cb.Origin[k]) % o.cells
			if g < 0 {
				g += o.cells
			}
			d.P[k] = g
			d.X[k] = float64(xs[i][k]) + float64(cb.Origin[k])
		}
		if isVec && len(wv) > i {
			d.W = wv[i]
		}
		deps = append(deps, d)
	}
	// What this worker is about to deposit is written down before it can be
	// interrupted: if another worker changes it meanwhile, the grid will differ.
	o.r.mu.Lock()
	o.r.Deps = append(o.r.Deps, deps...)
	o.r.Calls++
	o.r.mu.Unlock()
	if o.r.Point != nil {
		o.r.Point(fmt.Sprint(cb.Origin, xs[low], ptVal))
	}
	o.Overlap.Interpolate(buf, xs, vs, ptVal, weights, low, high, jump)
}

// Expect is the reference grid of a box for the recorded deposits.
func (r *Rec) Expect(b render.Box) (scalar []float64, vec [][3]float64, num []int) {
	blk := Block{b.CellOrigin(), b.CellSpan()}
	axis, proj := b.ProjectionAxis()
	dims := []int{0, 1, 2}
	if proj {
		dims = []int{}
		for d := 0; d < 3; d++ {
			if d != axis {
				dims = append(dims, d)
			}
		}
	}
	n := 1
	for _, d := range dims {
		n *= blk.W[d]
	}
	scalar, vec, num = make([]float64, n), make([][3]float64, n), make([]int, n)
	for _, dep := range r.Deps {
		rel, ok := blk.Has(dep.P, b.Cells())
		if !ok {
			continue
		}
		idx, str := 0, 1
		for _, d := range dims {
			idx += rel[d] * str
			str *= blk.W[d]
		}
		v := dep.V
		if proj {
			v /= float64(blk.W[axis])
		}
		scalar[idx] += v
		num[idx]++
		for k := 0; k < 3; k++ {
			// Vectors are averaged over their count when finalized.
			vec[idx][k] += dep.V * dep.W[k]
		}
	}
	return scalar, vec, num
}

// Vals copies the contents of a box.
func Vals(b render.Box) (scalar []float64, vec [][3]float64, num []int) {
	if s, ok := b.Vals().ScalarBuffer(); ok {
		scalar = append([]float64{}, s...)
	}
	if v, ok := b.Vals().VectorBuffer(); ok {
		vec = append([][3]float64{}, v...)
	}
	if n, ok := b.Vals().CountBuffer(); ok {
		num = append([]int{}, n...)
	}
	return scalar, vec, num
}

// Compare checks the contents of b against the recorded deposits, from repeats
// equal renders.
func (r *Rec) Compare(t *hx.T, what string, b render.Box) bool {
	es, ev, en := r.Expect(b)
	s, v, n := Vals(b)
	return CompareGrids(t, what, s, v, n, es, ev, en)
}

// CompareGrids compares a grid with the expected one.
func CompareGrids(
	t *hx.T, what string, s []float64, v [][3]float64, n []int,
	es []float64, ev [][3]float64, en []int,
) bool {
	const tol = 1e-9
	if s != nil {
		if len(s) != len(es) {
			t.Fail("%s: %d grid values for %d pixels", what, len(s), len(es))
			return false
		}
		for i := range s {
			if !hx.Near(s[i], es[i], es[i], tol) {
				t.Fail("%s: pixel %d holds %g, its samples sum to %g", what, i, s[i], es[i])
				return false
			}
		}
	}
	if v != nil {
		if len(v) != len(ev) {
			t.Fail("%s: %d grid vectors for %d pixels", what, len(v), len(ev))
			return false
		}
		for i := range v {
			for k := 0; k < 3; k++ {
				if !hx.Near(v[i][k], ev[i][k], ev[i][k], tol) {
					t.Fail("%s: pixel %d component %d holds %g, its samples sum to %g",
						what, i, k, v[i][k], ev[i][k])
					return false
				}
			}
		}
	}
	if n != nil {
		for i := range n {
			if n[i] != en[i] {
				t.Fail("%s: pixel %d counts %d samples, %d landed in it", what, i, n[i], en[i])
				return false
			}
		}
	}
	return true
}

// Bubble runs f where time stands still (so that the renderer's time seeds are
// the same in every execution). A panic in f is passed on.
func Bubble(f func()) {
	var pan interface{}
	synctest.Test(hx.TB, func(*testing.T) {
		defer func() { pan = recover() }()
		f()
	})
	if pan != nil {
		panic(pan)
	}
}

// gid is the current goroutine's number.
func gid() int {
	b := make([]byte, 64)
	b = b[:runtime.Stack(b, false)]
	b = bytes.TrimPrefix(b, []byte("goroutine "))
	if i := bytes.IndexByte(b, ' '); i >= 0 {
		b = b[:i]
	}
	n, err := strconv.Atoi(string(b))
	if err != nil {
		panic(hx.HarnessError{Msg: "goroutine number: " + err.Error()})
	}
	return n
}

// Choice is one scheduling decision: how many workers could run, which one of
// them (in canonical order) did, and whether that took the processor away from
// a worker that could have gone on.
type Choice struct {
	Enabled int
	Took    int
	Running bool // alternative 0 is the worker that ran last
}

// Sched lets exactly one of the renderer's workers run at a time, between the
// calls they make to Point. It runs inside a synctest bubble: every other
// goroutine being durably blocked is what says that the running worker has
// reached its next point or is done.
type Sched struct {
	mu     sync.Mutex
	parked map[int]chan bool
	keys   map[int]string
	order  map[int]int // goroutine -> rank
	last   int
	Prefix []int
	Trace  []Choice
	Bad    string
}

func NewSched(prefix []int) *Sched {
	return &Sched{parked: map[int]chan bool{}, keys: map[int]string{},
		order: map[int]int{}, last: -1, Prefix: prefix}
}

// Point parks the calling worker until it is chosen.
func (s *Sched) Point(key string) {
	g := gid()
	ch := make(chan bool)
	s.mu.Lock()
	s.parked[g], s.keys[g] = ch, key
	s.mu.Unlock()
	<-ch
}

// Drive runs until done is closed, releasing parked workers one at a time. It
// must run in its own goroutine of the bubble.
func (s *Sched) Drive(done chan bool) {
	for {
		synctest.Wait()
		s.mu.Lock()
		if len(s.parked) == 0 {
			s.mu.Unlock()
			select {
			case <-done:
				return
			default:
				// Nobody is at a point and the render is not over: the
				// workers are all gone or deadlocked (synctest then panics).
				<-done
				return
			}
		}
		// Workers seen for the first time are numbered by what they are about
		// to deposit, which does not depend on who arrived first.
		fresh := []int{}
		for g := range s.parked {
			if _, ok := s.order[g]; !ok {
				fresh = append(fresh, g)
			}
		}
		sort.Slice(fresh, func(i, j int) bool { return s.keys[fresh[i]] < s.keys[fresh[j]] })
		for _, g := range fresh {
			s.order[g] = len(s.order)
		}
		// Canonical order: the worker that ran last first, if it can go on.
		ids := []int{}
		if _, ok := s.parked[s.last]; ok {
			ids = append(ids, s.last)
		}
		byRank := make([]int, 0)
		for g := range s.parked {
			if g != s.last {
				byRank = append(byRank, g)
			}
		}
		sort.Slice(byRank, func(i, j int) bool { return s.order[byRank[i]] < s.order[byRank[j]] })
		running := len(ids) == 1
		ids = append(ids, byRank...)
		c := 0
		if len(s.Trace) < len(s.Prefix) {
			c = s.Prefix[len(s.Trace)]
			if c >= len(ids) {
				s.Bad = fmt.Sprintf("choice %d of %d at point %d: the execution diverged",
					c, len(ids), len(s.Trace))
				c = 0
			}
		}
		s.Trace = append(s.Trace, Choice{len(ids), c, running})
		g := ids[c]
		ch := s.parked[g]
		delete(s.parked, g)
		s.last = g
		s.mu.Unlock()
		ch <- true
	}
}
