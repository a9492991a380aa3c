package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"gopkg.in/gcfg.v1"

	"github.com/phil-mansfield/gotetra/render/density"
	"github.com/phil-mansfield/gotetra/render/io"
	"verif/mc/hx"
	"verif/mc/rx"
)

const ruleC19 = "every value of the boundary alphabet in every field of every configuration kind, every box and ball of the lattice handed over directly and as a file, every documented key on its own and every unknown key or section; non-trivial when the value must be refused or the ball wraps"

func runC19(c *hx.C) {
	c.Case("names", quantityNames)
	c.Case("fields", validFields)
	c.Case("keys", configKeys)
	for _, w := range []float64{100, 62.5, 0.3} {
		w := w
		c.Case(fmt.Sprintf("boxes/%g", w), func(t *hx.T) { boxLattice(t, w) })
		for d := 0; d < 3; d++ {
			d := d
			c.Case(fmt.Sprintf("balls/%g/%d", w, d), func(t *hx.T) { ballLattice(t, w, d, c.Thorough()) })
		}
	}
	c.Case("files", boundsFiles)
}

var nan, inf = math.NaN(), math.Inf(1)

func quantityNames(t *hx.T) {
	type q struct {
		name      string
		vel, proj bool
	}
	want := []q{{"Density", false, true}, {"DensityGradient", false, false}, {"Velocity", true, true}, {"VelocityDivergence", true, false}, {"VelocityCurl", true, false}}
	if int(density.EndQuantity) != len(want) {
		t.Fail("there are %d quantities, not the %d documented ones", density.EndQuantity, len(want))
		return
	}
	seen := map[density.Quantity]bool{}
	for _, w := range want {
		v, ok := density.QuantityFromString(w.name)
		t.Eval(false)
		con := io.RenderConfig{Quantity: w.name}
		if !ok || !con.ValidQuantity() {
			t.Fail("quantity %q is refused", w.name)
			continue
		}
		if v.String() != w.name || seen[v] || v < 0 || v >= density.EndQuantity {
			t.Fail("quantity %q maps to %d and back to %q", w.name, int(v), v.String())
		}
		seen[v] = true
		if v.RequiresVelocity() != w.vel || v.CanProject() != w.proj {
			t.Fail("quantity %s: needs velocities %v, projects %v", w.name, v.RequiresVelocity(), v.CanProject())
		}
	}
	for _, w := range want {
		for _, bad := range []string{"", w.name + "s", " " + w.name, w.name[:len(w.name)-1], w.name + w.name, "Mass", "0", "EndQuantity"} {
			_, ok := density.QuantityFromString(bad)
			con, th := io.RenderConfig{Quantity: bad}, io.TetraHistConfig{Quantity: bad}
			t.Eval(true)
			if ok || con.ValidQuantity() || th.ValidQuantity() {
				t.Fail("quantity %q is accepted", bad)
			}
		}
	}
	for q := density.Quantity(-2); q < density.EndQuantity+3; q++ {
		if q >= 0 && q < density.EndQuantity {
			continue
		}
		for i, f := range []func(){func() { _ = q.String() }, func() { q.CanProject() }, func() { q.RequiresVelocity() }} {
			t.Eval(true)
			if hx.Try(f) == nil {
				t.Fail("quantity number %d is accepted by method %d", int(q), i)
			}
		}
	}
}

func pow2(n int) bool { return n > 0 && n&(n-1) == 0 }

func validFields(t *hx.T) {
	check := func(what string, got, want bool) {
		t.Eval(!want)
		if got != want {
			t.Fail("%s: accepted %v", what, got)
		}
	}
	for n := -70; n <= 1030; n++ {
		cv := io.ConvertSnapshotConfig{Cells: n, Gadget2IDSize: n, IterationStart: n, IterationEnd: n}
		check(fmt.Sprintf("Cells = %d", n), cv.ValidCells(), n > 0)
		check(fmt.Sprintf("Gadget2IDSize = %d", n), cv.ValidGadget2IDSize(), n == 32 || n == 64)
		check(fmt.Sprintf("IterationStart = %d", n), cv.ValidIterationStart(), n >= 0)
		check(fmt.Sprintf("IterationEnd = %d", n), cv.ValidIterationEnd(), n >= 0)
		re := io.RenderConfig{TotalPixels: n, Particles: n, ImagePixels: n, ProjectionDepth: n, SubsampleLength: n}
		check(fmt.Sprintf("TotalPixels = %d", n), re.ValidTotalPixels(), n > 0)
		check(fmt.Sprintf("Particles = %d", n), re.ValidParticles(), n > 0)
		check(fmt.Sprintf("ImagePixels = %d", n), re.ValidImagePixels(), n > 0)
		check(fmt.Sprintf("ProjectionDepth = %d", n), re.ValidProjectionDepth(), n > 0)
		check(fmt.Sprintf("SubsampleLength = %d", n), re.ValidSubsampleLength(), pow2(n))
		th := io.TetraHistConfig{HistBins: n, SubsampleLength: n}
		check(fmt.Sprintf("HistBins = %d", n), th.ValidHistBins(), n > 0)
		check(fmt.Sprintf("TetraHist SubsampleLength = %d", n), th.ValidSubsampleLength(), pow2(n))
	}
	for _, s := range []string{"", "a", "path/to/x", "."} {
		sh := io.SharedConfig{Input: s, Output: s, LogFile: s, ProfileFile: s}
		cv := io.ConvertSnapshotConfig{SharedConfig: sh, InputFormat: s, IteratedInput: s, IteratedOutput: s}
		re := io.RenderConfig{SharedConfig: sh}
		th := io.TetraHistConfig{SharedConfig: sh, GridFile: s}
		for i, ok := range []bool{sh.ValidInput(), sh.ValidOutput(), sh.ValidLogFile(), sh.ValidProfileFile(),
			cv.ValidInput(), cv.ValidOutput(), cv.ValidInputFormat(), cv.ValidIteratedInput(), cv.ValidIteratedOutput(), cv.ValidLogFile(), cv.ValidProfileFile(),
			re.ValidInput(), re.ValidOutput(), re.ValidLogFile(), re.ValidProfileFile(),
			th.ValidInput(), th.ValidOutput(), th.ValidGridFile(), th.ValidLogFile(), th.ValidProfileFile()} {
			check(fmt.Sprintf("path check %d of %q", i, s), ok, s != "")
		}
	}
	// One path that is set does not stand for another.
	for i := 0; i < 4; i++ {
		s := [4]string{}
		s[i] = "x"
		sh := io.SharedConfig{Input: s[0], Output: s[1], LogFile: s[2], ProfileFile: s[3]}
		th := io.TetraHistConfig{SharedConfig: sh}
		for j, ok := range []bool{sh.ValidInput(), sh.ValidOutput(), sh.ValidLogFile(), sh.ValidProfileFile(), th.ValidInput(), th.ValidOutput()} {
			check(fmt.Sprintf("path check %d with only path %d", j, i), ok, j%4 == i)
		}
		cv := io.ConvertSnapshotConfig{InputFormat: s[0], IteratedInput: s[1], IteratedOutput: s[2]}
		for j, ok := range []bool{cv.ValidInputFormat(), cv.ValidIteratedInput(), cv.ValidIteratedOutput()} {
			check(fmt.Sprintf("conversion text %d with only text %d", j, i), ok, j == i)
		}
	}
	for _, sc := range []string{"Log", "Linear", "", "Cubic", "Logarithmic", "LogLinear"} {
		for _, lo := range []float64{-10, -1e-9, 0, 1e-9, 1, 2, nan} {
			for _, hi := range []float64{-20, -1, 0, 1e-9, 2e-9, 1, 2, 3, nan} {
				con := io.TetraHistConfig{HistScale: sc, HistMin: lo, HistMax: hi}
				scale := sc == "Log" || sc == "Linear"
				ok := scale && lo < hi && (sc == "Linear" || lo > 0)
				check(fmt.Sprintf("HistScale %q", sc), con.ValidHistScale(), scale)
				check(fmt.Sprintf("histogram from %g to %g with scale %q", lo, hi, sc), con.ValidHistMin() && con.ValidHistMax(), ok)
			}
		}
	}
	for _, q := range []string{"Density", "Velocity", "DensityGradient", "VelocityDivergence", "VelocityCurl", ""} {
		con := io.TetraHistConfig{Quantity: q}
		check(fmt.Sprintf("TetraHist Quantity %q", q), con.ValidQuantity(), q == "Density")
	}
}

// configKeys sets every documented key on its own.
func configKeys(t *hx.T) {
	p := filepath.Join(t.Dir(), "c")
	kinds := []struct {
		section, keys string
		fresh         func() interface{}
	}{
		{"ConvertSnapshot", "Input:s Output:s InputFormat:s Cells:i Gadget2IDSize:i ProfileFile:s LogFile:s IteratedInput:s IteratedOutput:s IterationStart:i IterationEnd:i XUnits:f VUnits:f MUnits:f", func() interface{} { return io.DefaultConvertSnapshotWrapper() }},
		{"Render", "Quantity:s Input:s Output:s TotalPixels:i ImagePixels:i Particles:i SubsampleLength:i PrependName:s AppendName:s ProfileFile:s LogFile:s AutoParticles:b ProjectionDepth:i", func() interface{} { return io.DefaultRenderWrapper() }},
		{"TetraHist", "Quantity:s HistMin:f HistMax:f HistBins:i HistScale:s Particles:i Input:s Output:s GridFile:s SubsampleLength:i PrependName:s AppendName:s ProfileFile:s LogFile:s", func() interface{} { return io.DefaultTetraHistWrapper() }},
	}
	field := func(w interface{}, section, key string) reflect.Value {
		return reflect.ValueOf(w).Elem().FieldByName(section).FieldByName(key)
	}
	vals := map[string][]string{"s": {"a", "x/y_%03d"}, "i": {"7", "-3"}, "f": {"2.5", "1e10", "-1e-3"}, "b": {"true", "false"}}
	defaults := map[string]string{"Gadget2IDSize": "64", "IterationStart": "0", "IterationEnd": "-1", "XUnits": "1", "VUnits": "1", "MUnits": "1", "SubsampleLength": "1"}
	for _, k := range kinds {
		keys := strings.Fields(k.keys)
		for _, kt := range keys {
			key, typ := kt[:len(kt)-2], kt[len(kt)-1:]
			for _, v := range vals[typ] {
				must(os.WriteFile(p, []byte(fmt.Sprintf("[%s]\n%s = %s\n", k.section, key, v)), 0644))
				w := k.fresh()
				err := gcfg.ReadFileInto(w, p)
				t.Eval(false)
				if err != nil {
					t.Fail("[%s] %s = %s is refused: %v", k.section, key, v, err)
					continue
				}
				for _, other := range keys {
					o := other[:len(other)-2]
					f := field(w, k.section, o)
					got := fmt.Sprint(f.Interface())
					want := map[string]string{"s": "", "i": "0", "f": "0", "b": "false"}[other[len(other)-1:]]
					if d, ok := defaults[o]; ok {
						want = d
					}
					if o == key {
						want = v
						if typ == "f" {
							var x float64
							fmt.Sscan(v, &x)
							want = fmt.Sprint(x)
						}
					}
					if got != want {
						t.Fail("[%s] %s = %s: %s is %q, want %q", k.section, key, v, o, got, want)
					}
				}
			}
		}
		for _, bad := range []string{"Unknown = 1\n", "Cells\n", "[Other]\nX = 1\n", "Input = \"a\n", "= 3\n", "junk junk\n"} {
			if bad == "Cells\n" && k.section == "ConvertSnapshot" {
				continue
			}
			must(os.WriteFile(p, []byte("["+k.section+"]\n"+bad), 0644))
			t.Eval(true)
			if err := gcfg.ReadFileInto(k.fresh(), p); err == nil {
				t.Fail("[%s] with the line %q is accepted", k.section, bad)
			}
		}
	}
}

func boxLattice(t *hx.T, w float64) {
	pos := []float64{-w, -0.25 * w, -1e-300, 0, math.Nextafter(0, 1), 0.25 * w, 0.75 * w, math.Nextafter(w, 0), w, math.Nextafter(w, inf), 2 * w, inf, -inf, nan}
	wid := []float64{-w, -1e-300, 0, math.SmallestNonzeroFloat64, 0.1 * w, 0.6 * w, w, nan, -inf}
	axes := []string{"", "X", "Y", "Z", "W", "XY", "1", "XX"}
	one := func(x, ww [3]float64, ax string) {
		b := io.BoxConfig{X: x[0], Y: x[1], Z: x[2], XWidth: ww[0], YWidth: ww[1], ZWidth: ww[2], ProjectionAxis: ax}
		ok := len(ax) <= 1 && strings.Contains("XYZ", ax)
		for d := 0; d < 3; d++ {
			ok = ok && x[d] >= 0 && x[d] < w && ww[d] > 0
		}
		for rep := 0; rep < 2; rep++ {
			err := b.CheckInit("nm", w)
			t.Eval(!ok)
			what := fmt.Sprintf("box at %v of widths %v, axis %q, in a simulation of width %g (check %d)", x, ww, ax, w, rep+1)
			if (err == nil) != ok {
				t.Fail("%s: error %v", what, err)
				return
			}
			if ok && b != (io.BoxConfig{X: x[0], Y: x[1], Z: x[2], XWidth: ww[0], YWidth: ww[1], ZWidth: ww[2], ProjectionAxis: ax, Name: "nm"}) {
				t.Fail("%s: became %+v", what, b)
				return
			}
			if ok && b.IsProjection() != (ax != "") {
				t.Fail("%s: projection %v", what, b.IsProjection())
			}
		}
	}
	mid, fine := 0.5*w, 0.1*w
	for d := 0; d < 3; d++ {
		for _, p := range pos {
			for _, q := range wid {
				for _, ax := range axes {
					x, ww := [3]float64{mid, mid, mid}, [3]float64{fine, fine, fine}
					x[d], ww[(d+1)%3] = p, q
					one(x, ww, ax)
					x[d], ww[(d+1)%3], ww[d] = p, fine, q
					one(x, ww, ax)
				}
			}
		}
	}
	for _, p := range pos {
		for _, q := range pos {
			one([3]float64{p, q, mid}, [3]float64{fine, fine, fine}, "X")
			one([3]float64{p, mid, q}, [3]float64{fine, fine, fine}, "")
			one([3]float64{mid, p, q}, [3]float64{fine, fine, fine}, "")
		}
	}
	// Spelling of an accepted axis does not change its meaning.
	for _, ax := range []string{"x", "y", "z", " X", "Z ", " y "} {
		b := io.BoxConfig{X: mid, Y: mid, Z: mid, XWidth: fine, YWidth: fine, ZWidth: fine, ProjectionAxis: ax}
		t.Eval(true)
		if err := b.CheckInit("nm", w); err == nil && b.ProjectionAxis != strings.ToUpper(strings.TrimSpace(ax)) {
			t.Fail("projection axis %q becomes %q", ax, b.ProjectionAxis)
		}
	}
}

func ballLattice(t *hx.T, w float64, d int, thorough bool) {
	pos := []float64{-w, -1e-300, 0, math.Nextafter(0, 1), 1e-20 * w, 0.125 * w, 0.25 * w, 0.5 * w, 0.875 * w, math.Nextafter(w, 0), w, 2 * w, inf, -inf, nan}
	rad := []float64{-w, -0.1 * w, -1e-300, 0, 1e-20 * w, 0.0625 * w, 0.125 * w, 0.25 * w, 0.3 * w, 0.5 * w, 0.75 * w, 1.5 * w, 3 * w, nan, -inf}
	mul := []float64{0, 0.5, 1, 2, 3, -1, -1e-300, nan}
	if thorough {
		for i := 1; i < 40; i++ {
			pos = append(pos, float64(i)*w/40)
			rad = append(rad, float64(i)*w/80)
		}
	}
	for _, p := range pos {
		for _, r := range rad {
			for _, m := range mul {
				x := [3]float64{0.5 * w, 0.25 * w, 0.75 * w}
				x[d] = p
				ball := io.BallConfig{X: x[0], Y: x[1], Z: x[2], Radius: r, RadiusMultiplier: m}
				ok := r > 0 && p >= 0 && p < w && !(m < 0) && m == m
				err := ball.CheckInit("nm", w)
				what := fmt.Sprintf("ball at %v of radius %g times %g in a simulation of width %g", x, r, m, w)
				if (err == nil) != ok {
					t.Eval(!ok)
					// A ball no box of the simulation can enclose may be refused.
					if err != nil && 2*r*math.Max(m, 1) > w {
						continue
					}
					t.Fail("%s: error %v", what, err)
					continue
				}
				t.Eval(!ok || p < r)
				if !ok {
					continue
				}
				if ball.CheckInit("nm", w) != nil {
					t.Fail("%s: refused when checked twice", what)
				}
				if m == 0 {
					m = 1
				}
				b := ball.Box(w)
				o, wd := [3]float64{b.X, b.Y, b.Z}, [3]float64{b.XWidth, b.YWidth, b.ZWidth}
				for k := 0; k < 3; k++ {
					if !(o[k] >= 0 && o[k] < w) {
						t.Fail("%s: box origin %v is outside the simulation", what, o)
						break
					}
					full := 2*r*m >= w
					if full && wd[k] >= w {
						continue // covers everything from any origin
					}
					if !hx.Near(wd[k], 2*r*m, 1e-14*w, 1e-14) || !periodicNear(o[k], x[k]-r*m, w, 1e-14*w+1e-14*r*m) {
						t.Fail("%s: box at %v of widths %v", what, o, wd)
						break
					}
				}
				if err := b.CheckInit(b.Name, w); err != nil || b.Name != "nm" {
					t.Fail("%s: its box %+v is refused: %v", what, *b, err)
				}
				if b.ProjectionAxis != "" {
					t.Fail("%s: its box is a projection along %q", what, b.ProjectionAxis)
				}
			}
		}
	}
}

func boundsFiles(t *hx.T) {
	p := filepath.Join(t.Dir(), "b")
	const w = 100.0
	read := func(text string) ([]io.BoxConfig, error) {
		must(os.WriteFile(p, []byte(text), 0644))
		var out []io.BoxConfig
		var err error
		if e := hx.Try(func() { out, err = io.ReadBoundsConfig(p, w) }); e != nil {
			err = e
		}
		return out, err
	}
	box := func(name string, k int, ax string) string {
		s := fmt.Sprintf("[Box \"%s\"]\nX = %d\nY = %d\nZ = %d.5\nXWidth = %d\nYWidth = 2.25\nZWidth = 1e1\n", name, k, k+1, k+2, k+3)
		if ax != "" {
			s += "ProjectionAxis = " + ax + "\n"
		}
		return s
	}
	wantBox := func(name string, k int, ax string) io.BoxConfig {
		return io.BoxConfig{X: float64(k), Y: float64(k + 1), Z: float64(k) + 2.5, XWidth: float64(k + 3), YWidth: 2.25, ZWidth: 10, ProjectionAxis: ax, Name: name}
	}
	ball := func(name string, k int, ax string) string {
		s := fmt.Sprintf("[Ball \"%s\"]\nX = %d\nY = %d\nZ = 50\nRadius = 2\nRadiusMultiplier = 1.5\n", name, k, k+1)
		if ax != "" {
			s += "ProjectionAxis = " + ax + "\n"
		}
		return s
	}
	wantBall := func(name string, k int, ax string) io.BoxConfig {
		return io.BoxConfig{X: rx.Mod(float64(k)-3, w), Y: rx.Mod(float64(k)-2, w), Z: 47, XWidth: 6, YWidth: 6, ZWidth: 6, ProjectionAxis: ax, Name: name}
	}
	axes := []string{"", "X", "Y", "Z"}
	// Every list of up to three regions, each a box or a ball.
	names := []string{"a", "b c", "halo_1"}
	for n := 0; n <= 3; n++ {
		hx.Seqs(8, n, func(seq []int) {
			if len(seq) != n {
				return
			}
			text, want := "", map[string]io.BoxConfig{}
			for i, k := range seq {
				if k < 4 {
					text += box(names[i], 7*i, axes[k])
					want[names[i]] = wantBox(names[i], 7*i, axes[k])
				} else {
					text += ball(names[i], 7*i, axes[k-4])
					want[names[i]] = wantBall(names[i], 7*i, axes[k-4])
				}
			}
			got, err := read(text)
			t.Eval(n > 1)
			if err != nil {
				t.Fail("bounds file %q is refused: %v", text, err)
				return
			}
			if len(got) != n {
				t.Fail("bounds file %q gives %d regions", text, len(got))
				return
			}
			for _, g := range got {
				if g != want[g.Name] {
					t.Fail("bounds file %q: region %+v, want %+v", text, g, want[g.Name])
				}
				delete(want, g.Name)
			}
		})
	}
	good := box("a", 1, "") + ball("b", 2, "")
	bad := []string{"[Box \"c\"]\n", "[Ball \"c\"]\n", "[Box \"c\"]\nX = 1\nY = 1\nZ = 1\nXWidth = 1\nYWidth = 1\n",
		strings.Replace(box("c", 1, ""), "X = 1", "X = 100", 1), strings.Replace(box("c", 1, ""), "Y = 2", "Y = -2", 1), strings.Replace(box("c", 1, ""), "YWidth = 2.25", "YWidth = -1", 1),
		box("c", 1, "V"), ball("c", 1, "V"), strings.Replace(ball("c", 1, ""), "Radius = 2", "Radius = 0", 1), strings.Replace(ball("c", 1, ""), "Radius = 2", "Radius = -2", 1),
		strings.Replace(ball("c", 1, ""), "RadiusMultiplier = 1.5", "RadiusMultiplier = -1.5", 1), strings.Replace(ball("c", 1, ""), "X = 1", "X = 100.5", 1),
		box("c", 1, "") + "Depth = 3\n", "[Cube \"c\"]\nX = 1\n", "[Box \"c\"\nX = 1\n", "X = 1\n", "[Box \"c\"]\nX = one\n", "[Render]\nParticles = 1\n"}
	for _, b := range bad {
		for _, text := range []string{b, good + b, b + good} {
			if text == "X = 1\n"+good || text == good+"X = 1\n" {
				continue
			}
			_, err := read(text)
			t.Eval(true)
			if err == nil {
				t.Fail("bounds file %q is accepted", text)
			}
		}
	}
	t.Eval(true)
	if _, err := io.ReadBoundsConfig(filepath.Join(t.Dir(), "none"), w); err == nil {
		t.Fail("a bounds file that does not exist is accepted")
	}
}
