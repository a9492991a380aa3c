// Command racemc is built with the race detector: it renders freely (no
// scheduler) with the given number of workers and checks the sums.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"

	"github.com/phil-mansfield/gotetra/render"
	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/io"
	"verif/mc/hx"
	"verif/mc/rx"
)

func die(format string, args ...interface{}) {
	fmt.Printf(format+"\n", args...)
	os.Exit(1)
}

func main() {
	dir := os.Args[1]
	workers, _ := strconv.Atoi(os.Args[2])
	rounds, _ := strconv.Atoi(os.Args[3])
	const L = 64.0
	sh := &rx.Sheet{N: 12, Cells: 3, L: L}
	sh.X = func(a, b, c, i, j, k int) [3]float64 {
		f := L / 12
		return [3]float64{float64(a*4+i)*f - 1, float64(b*4+j)*f + 2, float64(c*4+k)*f - 3}
	}
	sh.V = func(a, b, c, i, j, k int) [3]float32 {
		return [3]float32{float32(a*4 + i), float32(b*4 + j), float32(c*4 + k)}
	}
	if err := os.MkdirAll(dir, 0755); err != nil {
		die("HARNESS %v", err)
	}
	files := sh.Write(filepath.Clean(dir))
	render.NumCores = workers
	for r := 0; r < rounds; r++ {
		for q := density.Density; q < density.EndQuantity; q++ {
			boxes, recs := []render.Box{}, []*rx.RecBox{}
			for i, pts := range []int{3, 10, 1} {
				cfg := &io.BoxConfig{Name: "b",
					X: 60 - float64(i)*20, Y: float64(i), Z: 63,
					XWidth: 20 + float64(i)*10, YWidth: 5 + float64(i)*25, ZWidth: 9}
				if i == 1 {
					cfg.ProjectionAxis = "Y"
				}
				b := &rx.RecBox{Box: render.NewBox(L, pts, 8, q, cfg), R: &rx.Rec{}}
				boxes, recs = append(boxes, b), append(recs, b)
			}
			man, err := render.NewManager(files, boxes, false, q)
			if err != nil {
				die("%v", err)
			}
			if r%2 == 1 {
				man.Subsample(2)
			}
			if err := man.RenderDensity(); err != nil {
				die("%v", err)
			}
			t := &hx.T{}
			for i, b := range recs {
				if !b.R.Compare(t, fmt.Sprintf("quantity %d region %d workers %d", int(q), i, workers), b) {
					die("%v", t.Msgs())
				}
				if len(b.R.Deps) == 0 {
					die("HARNESS nothing was deposited")
				}
			}
		}
	}
	fmt.Println("ok")
}
