// Command rendermc decides C08 (mass conservation), C09 (deposits), C10 (pixel
// blocks), C11 (schedules), C12 (culling), C36 (several regions) and C37 (cubes).
package main

import (
	"fmt"
	"math"
	"runtime"

	"github.com/phil-mansfield/gotetra/render"
	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/io"
	"verif/mc/hx"
	"verif/mc/rx"
)

func main() {
	hx.MainT(map[string]hx.Prop{
		"C08": {Rule: ruleC08, Workers: 1, Run: runC08, Assumptions: []string{
			"every sheet segment spans less than half the simulation box (the documented domain of the segment bounding box)",
		}},
		"C09": {Rule: ruleC09, Run: runC09},
		"C10": {Rule: ruleC10, Run: runC10},
		"C11": {Rule: ruleC11, Workers: 1, Run: runC11},
		"C12": {Rule: ruleC12, Workers: 1, Run: runC12},
		"C36": {Rule: ruleC36, Workers: 1, Run: runC36},
		"C37": {Rule: ruleC37, Workers: 1, Run: runC37},
	})
}

var axisName = []string{"X", "Y", "Z", ""}

// region is a box request in units of pixels.
type region struct {
	x, w [3]float64
	axis int // 3: not projected
}

func (r region) config(cw float64) *io.BoxConfig {
	return &io.BoxConfig{
		X: r.x[0] * cw, Y: r.x[1] * cw, Z: r.x[2] * cw,
		XWidth: r.w[0] * cw, YWidth: r.w[1] * cw, ZWidth: r.w[2] * cw,
		ProjectionAxis: axisName[r.axis], Name: "b",
	}
}

func (r region) String() string {
	return fmt.Sprintf("[%v+%v %s]", r.x, r.w, axisName[r.axis])
}

// block is the pixel block that a request should get, for requests whose faces
// are inside pixels (or which span the whole box).
func (r region) block(cells int) rx.Block {
	b := rx.Block{}
	for d := 0; d < 3; d++ {
		b.O[d] = int(math.Floor(r.x[d]))
		b.W[d] = int(math.Floor(r.x[d]+r.w[d])) + 1 - b.O[d]
		if b.W[d] > cells {
			b.W[d] = cells
		}
	}
	return b
}

func newBox(L float64, pts, cells int, q density.Quantity, r region) *rx.RecBox {
	b := render.NewBox(L, pts, cells, q, r.config(L/float64(cells)))
	return &rx.RecBox{Box: b, R: &rx.Rec{}}
}

// renderAll renders every box with the given number of workers and skip.
func renderAll(t *hx.T, files []string, boxes []render.Box, q density.Quantity,
	workers, skip int) (man *render.Manager) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(0))
	render.NumCores = workers
	man, err := render.NewManager(files, boxes, workers%2 == 0, q)
	if err != nil {
		t.Fail("NewManager: %v", err)
		return nil
	}
	if skip != 1 {
		man.Subsample(skip)
	}
	if err := man.RenderDensity(); err != nil {
		t.Fail("RenderDensity: %v", err)
		return nil
	}
	return man
}

func sum(xs []float64) float64 {
	s := 0.0
	for _, x := range xs {
		s += x
	}
	return s
}
