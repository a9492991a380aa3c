package main

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"verif/mc/hx"
	"verif/mc/rx"
)

const ruleC20 = "every subset of the mode flags, every printed example with every optional line uncommented on its own and all together, every required key left out and every bad value, and every combination of quantity, projection, pixel and particle setting, subsampling and region list of the alphabet run by the built program, and every run from every state of an output directory that histories of runs lead to (a state is which run wrote each file last); non-trivial when the run must be refused or the header needs a value that is not in the configuration"

func runC20(c *hx.C) {
	for i := 0; i < 4; i++ {
		i := i
		c.Case(fmt.Sprintf("modes/%d", i), func(t *hx.T) { modeSubsets(t, i) })
	}
	c.Case("examples/text", exampleText)
	for i := 0; i < 8; i++ {
		i := i
		c.Case(fmt.Sprintf("examples/run/%d", i), func(t *hx.T) { exampleRuns(t, i, 8) })
	}
	c.Case("refuse/convert", refuseConvert)
	c.Case("refuse/render", refuseRender)
	c.Case("refuse/hist", refuseHist)
	for _, q := range []string{"Density", "DensityGradient", "Velocity", "VelocityDivergence", "VelocityCurl"} {
		for sub := 1; sub <= 2; sub *= 2 {
			q, sub := q, sub
			c.Case(fmt.Sprintf("labels/%s/%d", q, sub), func(t *hx.T) { labels(t, q, sub, c.Thorough()) })
		}
	}
	c.Case("derived", func(t *hx.T) { derived(t, c.Thorough()) })
	c.Case("names", outputNames)
	c.Case("hist", histOutputs)
	for i := 0; i < c.Pick(4, 8); i++ {
		i := i
		c.Case(fmt.Sprintf("reruns/%d", i), func(t *hx.T) { reruns(t, i, c.Pick(4, 8), c.Pick(3, 99)) })
	}
}

// setup20 puts a complete, working set of inputs for every mode in dir.
func setup20(dir string) {
	mkdirs(dir, "snap")
	histSetup(dir)
	snapDir(filepath.Join(dir, "snap"), true)
	write(dir, "c.cfg", strings.Replace(fmt.Sprintf(convertCfg, 64), "in\n", "snap\n", 1))
	write(dir, "r.cfg", fmt.Sprintf(renderCfg, "Density"))
}

func modeSubsets(t *hx.T, part int) {
	flags := [][]string{{"-Render", "r.cfg"}, {"-ConvertSnapshot", "c.cfg"}, {"-TetraHist", "h.cfg"}, {"-ExampleConfig", "Render"}}
	dir := t.Dir()
	setup20(dir)
	for mask := 0; mask < 16; mask++ {
		if mask%4 != part {
			continue
		}
		for rev := 0; rev < 2; rev++ {
			for _, threads := range [][]string{nil, {"-Threads", "2"}} {
				args, n := append([]string{}, threads...), 0
				for j := range flags {
					k := j
					if rev == 1 {
						k = 3 - j
					}
					if mask>>k&1 == 1 {
						args = append(args, flags[k]...)
						n++
					}
				}
				if mask != 2 && mask != 8 {
					args = append(args, "b.cfg")
				}
				clear(filepath.Join(dir, "out"))
				r := rx.CLI(dir, args...)
				out := tree(filepath.Join(dir, "out"))
				t.Eval(n != 1)
				what := "gotetra " + strings.Join(args, " ")
				if n != 1 {
					if r.Code == 0 || r.Hung || len(out) > 0 || r.Err == "" {
						t.Fail("%s: %s, %d files written", what, r, len(out))
					}
					continue
				}
				want := map[int]string{1: "b.gtet", 2: "sheet000.dat sheet001.dat sheet010.dat sheet011.dat sheet100.dat sheet101.dat sheet110.dat sheet111.dat", 4: "b.txt", 8: ""}[mask]
				if mask == 2 {
					for k := range out {
						want = k[:0] + want
					}
				}
				if r.Code != 0 || r.Hung {
					t.Fail("%s: %s", what, r)
				} else if got := strings.Join(sortedKeys(out), " "); mask != 2 && got != want || mask == 2 && !allSheets(out) {
					t.Fail("%s: wrote %q", what, got)
				} else if (mask == 8) != (r.Out != "") {
					t.Fail("%s: printed %q", what, r.Out)
				}
			}
		}
	}
	for _, args := range [][]string{{"-Bogus", "r.cfg"}, {"-Render"}, {"-Threads", "x", "-Render", "r.cfg", "b.cfg"}, {"r.cfg"}, {"-Render", "r.cfg"}, {"-TetraHist", "h.cfg"}, {"-ExampleConfig", "Nothing"}, {"-ExampleConfig", "render"},
		{"-Threads", "0", "-Render", "r.cfg", "b.cfg"}, {"-Threads", "-1", "-Render", "r.cfg", "b.cfg"}, {"-Threads", "0", "-TetraHist", "h.cfg", "b.cfg"}, {"-Threads", "-3", "-TetraHist", "h.cfg", "b.cfg"},
		{"-Render", "c.cfg", "b.cfg"}, {"-Render", "h.cfg", "b.cfg"}, {"-Render", "b.cfg", "b.cfg"}, {"-ConvertSnapshot", "r.cfg"}, {"-TetraHist", "r.cfg", "b.cfg"}, {"-Render", "r.cfg", "r.cfg"}, {"-TetraHist", "h.cfg", "c.cfg"}} {
		if part != 0 {
			break
		}
		clear(filepath.Join(dir, "out"))
		r := rx.CLI(dir, args...)
		t.Eval(true)
		if out := tree(filepath.Join(dir, "out")); r.Code == 0 || r.Hung || len(out) > 0 || r.Err == "" {
			t.Fail("gotetra %s: %s, wrote %v", strings.Join(args, " "), r, sortedKeys(out))
		}
	}
}

func allSheets(out map[string]string) bool {
	for _, b := range out {
		if _, _, _, ok := parseSheet(b); !ok {
			return false
		}
	}
	return len(out) > 0
}

func sortedKeys(m map[string]string) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var optionLine = regexp.MustCompile(`^# ([A-Za-z0-9]+) += (.*)$`)

// example is one printed example file.
type example struct {
	kind    string
	lines   []string
	options []int // lines that set an option once uncommented
}

func getExample(t *hx.T, dir, kind string) (example, bool) {
	r := rx.CLI(dir, "-ExampleConfig", kind)
	if r.Code != 0 || !strings.Contains(r.Out, "["+map[string]string{"Box": "Box \"", "Ball": "Ball \""}[kind]) {
		t.Fail("-ExampleConfig %s: %s", kind, r)
		return example{}, false
	}
	e := example{kind: kind, lines: strings.Split(r.Out, "\n")}
	for i, l := range e.lines {
		if optionLine.MatchString(l) {
			e.options = append(e.options, i)
		}
	}
	return e, true
}

// text fills in the paths and uncomments the given options.
func (e example) text(paths map[string]string, on ...int) string {
	lines := append([]string{}, e.lines...)
	for _, i := range on {
		lines[i] = lines[i][2:]
	}
	for i, l := range lines {
		if k := strings.TrimSpace(strings.SplitN(l, "=", 2)[0]); strings.Contains(l, "=") && paths[k] != "" {
			lines[i] = k + " = " + paths[k]
		}
	}
	return strings.Join(lines, "\n")
}

var examplePaths = map[string]string{"Input": "in", "Output": "out", "GridFile": "grid.gtet", "IteratedInput": "snap_%03d", "IteratedOutput": "out_%03d",
	"ProfileFile": "prof.out", "LogFile": "log.out"}

// exampleText has the program print every example.
func exampleText(t *hx.T) {
	documented := map[string]string{
		"ConvertSnapshot": "Input Output InputFormat Cells", "Render": "Quantity Input Output TotalPixels Particles",
		"TetraHist": "Quantity HistMin HistMax HistBins HistScale Particles Input Output GridFile", "Box": "X Y Z XWidth YWidth ZWidth", "Ball": "X Y Z Radius"}
	for kind, keys := range documented {
		e, ok := getExample(t, t.Dir(), kind)
		t.Eval(false)
		if !ok {
			continue
		}
		for _, k := range strings.Fields(keys) {
			if !regexp.MustCompile(`(?m)^` + k + ` *= *\S`).MatchString(strings.Join(e.lines, "\n")) {
				t.Fail("the %s example does not set %s", kind, k)
			}
		}
	}
}

// exampleRuns runs every mode from the printed examples.
func exampleRuns(t *hx.T, part, parts int) {
	dir := t.Dir()
	n := 0
	box, ok1 := getExample(t, dir, "Box")
	ball, ok2 := getExample(t, dir, "Ball")
	if !ok1 || !ok2 {
		return
	}
	for _, kind := range []string{"Render", "TetraHist", "ConvertSnapshot"} {
		e, ok := getExample(t, dir, kind)
		if !ok {
			return
		}
		type run struct{ main, box, ball []int }
		runs := []run{{}, {main: e.options}}
		iterated := []int{}
		for _, o := range e.options {
			if strings.HasPrefix(e.lines[o], "# Iterated") {
				iterated = append(iterated, o) // only valid together
				continue
			}
			runs = append(runs, run{main: []int{o}})
		}
		if len(iterated) > 0 {
			runs = append(runs, run{main: iterated})
		}
		if kind != "ConvertSnapshot" {
			runs = append(runs, run{nil, box.options, ball.options})
			for _, o := range box.options {
				runs = append(runs, run{box: []int{o}})
			}
			for _, o := range ball.options {
				runs = append(runs, run{ball: []int{o}})
			}
		}
		for _, x := range runs {
			if n++; n%parts != part {
				continue
			}
			d := filepath.Join(dir, fmt.Sprint(n))
			mkdirs(d, "in", "out", "out_000")
			args := []string{"-" + kind, "m.cfg"}
			text := e.text(examplePaths, x.main...)
			if kind == "ConvertSnapshot" {
				cv := base(8, 8)
				cv.write(filepath.Join(d, "in"))
				mkdirs(d, "snap_000")
				cv.write(filepath.Join(d, "snap_000"))
				text = regexp.MustCompile(`(?m)^IterationEnd *=.*$`).ReplaceAllString(text, "IterationEnd = 0")
			} else {
				// A small volume around each example region.
				sh := &rx.Sheet{N: 8, Cells: 2, L: 125, X: func(a, b, c, i, j, k int) [3]float64 {
					return [3]float64{float64(a)*62.5 + float64(i)*11, float64(b)*62.5 + float64(j)*11, float64(c)*62.5 + float64(k)*11}
				}}
				sh.Write(filepath.Join(d, "in"))
				must(os.WriteFile(filepath.Join(d, "grid.gtet"), histGrid(), 0644))
				write(d, "box.cfg", box.text(nil, x.box...))
				write(d, "ball.cfg", ball.text(nil, x.ball...))
				args = append(args, "box.cfg", "ball.cfg")
			}
			write(d, "m.cfg", text)
			r := rx.CLI(d, args...)
			t.Eval(len(x.main)+len(x.box)+len(x.ball) > 0)
			what := fmt.Sprintf("the %s example", kind)
			for _, o := range x.main {
				what += ", " + e.lines[o]
			}
			for _, o := range x.box {
				what += ", box " + box.lines[o]
			}
			for _, o := range x.ball {
				what += ", ball " + ball.lines[o]
			}
			outs := tree(filepath.Join(d, "out"))
			for k, v := range tree(filepath.Join(d, "out_000")) {
				outs[k] = v
			}
			// The files for profiling and debugging are written where asked
			// and nowhere else, whatever the mode.
			for _, file := range [][2]string{{"ProfileFile", "prof.out"}, {"LogFile", "log.out"}} {
				asked := false
				for _, o := range x.main {
					asked = asked || strings.HasPrefix(e.lines[o], "# "+file[0])
				}
				buf, err := os.ReadFile(filepath.Join(d, file[1]))
				switch {
				case asked != (err == nil):
					t.Fail("%s: %s asked for: %v, there: %v", what, file[0], asked, err == nil)
				case asked && file[0] == "LogFile" && len(buf) == 0:
					t.Fail("%s: nothing in the log", what)
				case asked && file[0] == "ProfileFile" && !gzipped(buf):
					t.Fail("%s: a profile of %d bytes", what, len(buf))
				}
			}
			if want := map[string]int{"Render": 2, "TetraHist": 2, "ConvertSnapshot": 512}[kind]; r.Code != 0 || r.Hung || len(outs) != want {
				t.Fail("%s: %s, %d outputs", what, r, len(outs))
			}
			must(os.RemoveAll(d))
		}
	}
}

// gzipped returns true if buf is a whole, non-empty gzip file, which is what
// Go writes profiles as.
func gzipped(buf []byte) bool {
	rd, err := gzip.NewReader(bytes.NewReader(buf))
	if err != nil {
		return false
	}
	all, err := io.ReadAll(rd)
	return err == nil && len(all) > 0
}

// edit returns text with the line setting key replaced.
func edit(text, key, line string) string {
	re := regexp.MustCompile(`(?m)^` + key + ` *=.*\n`)
	if line != "" {
		line += "\n"
	}
	if !re.MatchString(text) {
		return text + line
	}
	return re.ReplaceAllLiteralString(text, line)
}

// refuse runs a mode with every edit of its configuration.
func refuse(t *hx.T, flag, cfg, text string, edits []string, args ...string) {
	dir := t.Dir()
	setup20(dir)
	out := filepath.Join(dir, "out")
	run := func(what, text string, ok bool) {
		clear(out)
		write(dir, cfg, text)
		r := rx.CLI(dir, append([]string{"-Threads", "2", flag, cfg}, args...)...)
		t.Eval(!ok)
		if r.Hung || (r.Code == 0) != ok {
			t.Fail("%s %s: %s", flag, what, r)
		} else if n := len(tree(out)); !ok && n > 0 || ok && n == 0 {
			t.Fail("%s %s: wrote %d files", flag, what, n)
		} else if !ok && r.Err == "" {
			t.Fail("%s %s: refused without a message", flag, what)
		}
	}
	run("unchanged", text, true)
	for _, e := range edits {
		ok := strings.HasPrefix(e, "+")
		e = strings.TrimPrefix(e, "+")
		x := text
		for _, one := range strings.Split(e, "; ") {
			k := strings.TrimSpace(strings.SplitN(one, "=", 2)[0])
			if strings.HasSuffix(one, "=") {
				one = ""
			}
			x = edit(x, k, one)
		}
		run("with "+e, x, ok)
	}
	run("without its section line", strings.SplitN(text, "\n", 2)[1], false)
}

func refuseConvert(t *hx.T) {
	text := strings.Replace(fmt.Sprintf(convertCfg, 64), "in\n", "snap\n", 1)
	text = edit(text, "Gadget2IDSize", "Gadget2IDSize = 64")
	refuse(t, "-ConvertSnapshot", "c.cfg", text, []string{
		"Input =", "Output =", "Input = none", "Cells =", "Cells = 0", "Cells = -2", "Cells = x", "InputFormat =", "InputFormat = Tipsy", "Gadget2IDSize = 16", "Gadget2IDSize = 0",
		"IteratedInput = snap%d", "IteratedOutput = out%d", "Unknown = 1", "+XUnits = 2", "+Gadget2IDSize = 64", "IteratedInput = none%d; IteratedOutput = out%d"})
}

func refuseRender(t *hx.T) {
	refuse(t, "-Render", "r.cfg", fmt.Sprintf(renderCfg, "Density"), []string{
		"Input =", "Output =", "Input = none", "Output = none", "Quantity =", "Quantity = Mass", "Quantity = DensityCurl", "TotalPixels =", "TotalPixels = 0", "TotalPixels = -4", "Particles =", "Particles = 0", "Particles = -1",
		"SubsampleLength = 0", "SubsampleLength = -1", "SubsampleLength = 3", "SubsampleLength = 2", "SubsampleLength = 4", "+SubsampleLength = 1", "Unknown = 2",
		"+TotalPixels =; ImagePixels = 4", "+Particles =; ProjectionDepth = 2", "+Particles =; AutoParticles = true", "+TotalPixels = 0; ImagePixels = 4", "+PrependName = a; AppendName = b",
		"TotalPixels =; Particles =", "Particles =; ProjectionDepth = -2", "Particles =; AutoParticles = false", "TotalPixels =; ImagePixels = -3"}, "b.cfg")
}

func refuseHist(t *hx.T) {
	refuse(t, "-TetraHist", "h.cfg", histCfg, []string{
		"Input =", "Output =", "Input = none", "Output = none", "Quantity =", "Quantity = Mass", "Quantity = Velocity", "Quantity = DensityGradient", "HistMin = 300", "HistMin = 240", "HistScale =", "HistScale = Cubic", "HistScale = Log; HistMin = 0", "HistScale = Log; HistMin = -3",
		"+HistScale = Log", "HistBins =", "HistBins = 0", "HistBins = -2", "Particles =", "Particles = 0", "Particles = -2", "GridFile =", "GridFile = none", "SubsampleLength = 0", "SubsampleLength = 3", "SubsampleLength = 2", "+SubsampleLength = 1", "Unknown = 2", "+PrependName = a; AppendName = b"}, "b.cfg")
}

// gridFile is a parsed output file.
type gridFile struct {
	q, vec                 int64
	cosmo                  [8]float64
	particles, pixels, sub int64
	depth, axis            int64
	origin, span           [3]float64
	pixOrigin, pixSpan     [3]int64
	pixWidth               float64
	vals                   []float32
}

func parseGrid(b string) (g gridFile, ok bool) {
	if len(b) < 344 || (len(b)-344)%4 != 0 {
		return g, false
	}
	i := func(k int) int64 { return int64(binary.LittleEndian.Uint64([]byte(b[8*k:]))) }
	f := func(k int) float64 { return math.Float64frombits(uint64(i(k))) }
	g.q, g.vec = i(2), i(3)
	for k := range g.cosmo {
		g.cosmo[k] = f(4 + k)
	}
	g.particles, g.pixels, g.sub, g.depth, g.axis = i(12), i(13), i(14), i(15), i(16)
	for d := 0; d < 3; d++ {
		g.origin[d], g.span[d], g.pixOrigin[d], g.pixSpan[d] = f(17+d), f(20+d), i(23+d), i(26+d)
	}
	g.pixWidth = f(29)
	for k := 344; k < len(b); k += 4 {
		g.vals = append(g.vals, math.Float32frombits(binary.LittleEndian.Uint32([]byte(b[k:]))))
	}
	return g, true
}

// region is one requested box or ball, with a name of its own.
type region struct {
	name  string
	ball  bool
	o, w  [3]float64
	axis  string
	holds bool // all of the sheet's mass
}

func (r region) text() string {
	s := ""
	if r.ball {
		s = fmt.Sprintf("[Ball %q]\nX = %g\nY = %g\nZ = %g\nRadius = %g\n", r.name, r.o[0]+r.w[0]/2, r.o[1]+r.w[0]/2, r.o[2]+r.w[0]/2, r.w[0]/2)
	} else {
		s = fmt.Sprintf("[Box %q]\nX = %g\nY = %g\nZ = %g\nXWidth = %g\nYWidth = %g\nZWidth = %g\n", r.name, r.o[0], r.o[1], r.o[2], r.w[0], r.w[1], r.w[2])
	}
	if r.axis != "" {
		s += "ProjectionAxis = " + r.axis + "\n"
	}
	return s
}

type setting struct {
	lines        string
	particles    int64 // 0: the program's choice
	total, image int64
}

// judgeLabel compares one output with what was asked for and with itself.
func judgeLabel(t *hx.T, what, q string, sub int, st setting, rg region, b string, L float64, tetras int) {
	qs := map[string][3]int64{"Density": {0, 0, 1}, "DensityGradient": {1, 1, 0}, "Velocity": {2, 1, 1}, "VelocityDivergence": {3, 0, 0}, "VelocityCurl": {4, 1, 0}}[q]
	g, ok := parseGrid(b)
	if !ok {
		t.Fail("%s: the output is no grid file", what)
		return
	}
	bad := func(f string, a ...interface{}) { t.Fail("%s: %s", what, fmt.Sprintf(f, a...)) }
	if g.q != qs[0] || g.vec != qs[1] {
		bad("quantity %d, vector %d in the header", g.q, g.vec)
	}
	axis := int64(-1)
	if rg.axis != "" && qs[2] == 1 {
		axis = int64(rg.axis[0] - 'X')
	}
	if g.axis != axis {
		bad("projection axis %d in the header, want %d", g.axis, axis)
		return
	}
	n, depth := int64(1), int64(1)
	for d := int64(0); d < 3; d++ {
		if d != axis {
			n *= g.pixSpan[d]
		} else {
			depth = g.pixSpan[d]
		}
	}
	if qs[1] == 1 {
		n *= 3
	}
	if int64(len(g.vals)) != n {
		bad("%d values for a span of %v", len(g.vals), g.pixSpan)
		return
	}
	if g.sub != int64(sub) {
		bad("subsampling length %d in the header", g.sub)
	}
	if g.pixels <= 0 || !hx.Rel(float64(g.pixels)*g.pixWidth, L, 1e-12) {
		bad("the header has %d pixels of width %g in a simulation of width %g", g.pixels, g.pixWidth, L)
		return
	}
	longest := math.Max(rg.w[0], math.Max(rg.w[1], rg.w[2]))
	if st.image > 0 && math.Abs(float64(g.pixels)-L/longest*float64(st.image)) > 0.51 || st.image == 0 && g.pixels != st.total {
		bad("the header has %d pixels", g.pixels)
	}
	if st.particles > 0 && g.particles != st.particles {
		bad("the header has %d particles", g.particles)
	}
	if g.particles <= 0 {
		bad("the header has %d particles", g.particles)
		return
	}
	for d := 0; d < 3; d++ {
		lo, hi := float64(g.pixOrigin[d])*g.pixWidth, float64(g.pixOrigin[d]+g.pixSpan[d])*g.pixWidth
		e := 1e-9 * L
		if lo > rg.o[d]+e || lo < rg.o[d]-g.pixWidth-e || hi < rg.o[d]+rg.w[d]-e && g.pixSpan[d] < g.pixels || hi > rg.o[d]+rg.w[d]+g.pixWidth+e || g.pixSpan[d] > g.pixels {
			bad("pixels %d to %d of width %g along axis %d", g.pixOrigin[d], g.pixOrigin[d]+g.pixSpan[d], g.pixWidth, d)
		}
		if !hx.Rel(g.origin[d], lo, 1e-12) || !hx.Rel(g.span[d], float64(g.pixSpan[d])*g.pixWidth, 1e-12) {
			bad("origin %v and span %v in the header", g.origin, g.span)
		}
	}
	// H(z)^2 = H0^2 (om (1+z)^3 + ol) with z = 0.5, om = 1/4, ol = 3/4, h = 1/2.
	for k, w := range map[int]float64{0: 0.5, 1: 1 / 1.5, 2: 0.25, 3: 0.75, 4: 50, 7: L} {
		if !hx.Rel(g.cosmo[k], w, 1e-12) {
			bad("cosmology field %d is %g, want %g", k, g.cosmo[k], w)
		}
	}
	if !hx.Rel(g.cosmo[5]/g.cosmo[6], 0.25*3.375/(0.25*3.375+0.75), 1e-9) {
		bad("mean density %g and critical density %g", g.cosmo[5], g.cosmo[6])
	}
	if q != "Density" {
		return
	}
	// Each of the samples adds the same amount.
	unit := math.Pow(float64(g.pixels), 3) / float64(tetras) / float64(g.particles) / float64(depth)
	sum, gcd := 0.0, int64(0)
	for _, v := range g.vals {
		k := float64(v) / unit
		if hx.Off(k, math.Round(k), 1e-3*math.Max(1, k*1e-3)) {
			bad("a pixel has %g samples, if each tetrahedron has the %d of the header", k, g.particles)
			return
		}
		gcd = igcd(gcd, int64(math.Round(k)))
		sum += k
	}
	want := 0.0
	if rg.holds {
		want = float64(tetras) * float64(g.particles)
	}
	if hx.Off(sum, want, 0.1) {
		bad("%g samples in the region, want %g", sum, want)
	}
	if rg.holds && gcd != 1 {
		bad("pixels hold multiples of %d samples, if each tetrahedron has the %d of the header", gcd, g.particles)
	}
}

func igcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// labels renders a sheet that fits into a small volume with every setting.
func labels(t *hx.T, q string, sub int, thorough bool) {
	const L = 10.0
	dir := t.Dir()
	mkdirs(dir, "in", "out")
	sh := &rx.Sheet{N: 4, Cells: 2, L: L,
		X: func(a, b, c, i, j, k int) [3]float64 {
			return [3]float64{3.03 + 0.05*float64(2*a+i)*0.9, 5.03 + 0.05*float64(2*b+j)*0.9, 7.03 + 0.05*float64(2*c+k)*0.9}
		},
		V: func(a, b, c, i, j, k int) [3]float32 { return [3]float32{float32(a), 2, float32(i)} },
	}
	sh.Write(filepath.Join(dir, "in"))
	tetras := 6 * 64 / (sub * sub * sub)
	settings := []setting{
		{"TotalPixels = 200\nParticles = 3\n", 3, 200, 0},
		{"TotalPixels = 150\nParticles = 7\n", 7, 150, 0},
		{"ImagePixels = 10\nParticles = 5\n", 5, 0, 10},
		{"ImagePixels = 8\nParticles = 2\n", 2, 0, 8},
		{"TotalPixels = 500\nAutoParticles = true\n", 0, 500, 0},
		{"TotalPixels = 600\nProjectionDepth = 3\n", 0, 600, 0},
		{"ImagePixels = 12\nAutoParticles = true\n", 0, 0, 12},
		{"ImagePixels = 16\nProjectionDepth = 2\n", 0, 0, 16},
		{"TotalPixels = 500\nParticles = 11\nAutoParticles = true\n", 0, 500, 0},
		{"TotalPixels = 500\nParticles = 11\nAutoParticles = false\n", 11, 500, 0},
	}
	lists := [][]region{}
	hold := func(name, axis string) region {
		return region{name, false, [3]float64{3.007, 5.007, 7.007}, [3]float64{0.28, 0.3, 0.285}, axis, true}
	}
	small := func(name, axis string) region {
		return region{name, false, [3]float64{1.005, 2.505, 9.955}, [3]float64{0.36, 0.35, 0.4}, axis, false}
	}
	ball := region{"ball", true, [3]float64{2.996, 4.996, 6.996}, [3]float64{0.3, 0.3, 0.3}, "", true}
	for _, ax := range []string{"", "X", "Y", "Z"} {
		lists = append(lists, []region{hold("a", ax)}, []region{hold("a", ax), small("b", "")}, []region{small("a", ""), hold("b", ax), ball})
		if thorough {
			for _, ax2 := range []string{"", "X", "Y", "Z"} {
				lists = append(lists, []region{hold("a", ax), small("b", ax2), hold("c", ax2)})
			}
		}
	}
	pball := ball
	pball.name, pball.axis = "pball", "Y"
	lists = append(lists, []region{pball, hold("a", "X")})
	// Many regions, no two alike.
	many := []region{}
	for i := 0; i < 45; i++ {
		r := small(fmt.Sprintf("r%d", i), []string{"", "X", "Y", "Z"}[i*i%7%4])
		if i%11 == 5 {
			r = hold(r.name, r.axis)
		} else {
			r.o[0] += 0.02 * float64(i)
			r.w[1] += 0.03 * float64(i%5)
		}
		many = append(many, r)
	}
	lists = append(lists, many)
	for _, st := range settings {
		for li, rs := range lists {
			if len(rs) > 4 && !thorough && sub > 1 {
				continue
			}
			clear(filepath.Join(dir, "out"))
			cfg := "[Render]\nQuantity = " + q + "\nInput = in\nOutput = out\n" + st.lines
			if sub > 1 {
				cfg += fmt.Sprintf("SubsampleLength = %d\n", sub)
			}
			write(dir, "r.cfg", cfg)
			args := []string{"-Threads", fmt.Sprint(1 + li%3), "-Render", "r.cfg"}
			// Odd lists have one file for each region.
			all := ""
			for i, r := range rs {
				if li%2 == 1 {
					write(dir, fmt.Sprintf("b%d.cfg", i), r.text())
					args = append(args, fmt.Sprintf("b%d.cfg", i))
				}
				all += r.text()
			}
			if li%2 == 0 {
				write(dir, "b.cfg", all)
				args = append(args, "b.cfg")
			}
			r := rx.CLI(dir, args...)
			out := tree(filepath.Join(dir, "out"))
			t.Eval(st.particles == 0 || st.image > 0 || len(rs) > 1)
			what := fmt.Sprintf("%s, subsampling %d, %s, %d regions", q, sub, strings.ReplaceAll(strings.TrimSpace(st.lines), "\n", ", "), len(rs))
			names := []string{}
			for _, x := range rs {
				names = append(names, x.name+".gtet")
			}
			sort.Strings(names)
			if r.Code != 0 || r.Hung || strings.Join(sortedKeys(out), " ") != strings.Join(names, " ") {
				t.Fail("%s: %s, outputs %v", what, r, sortedKeys(out))
				continue
			}
			for _, x := range rs {
				judgeLabel(t, fmt.Sprintf("%s, region %s axis %q", what, x.name, x.axis), q, sub, st, x, out[x.name+".gtet"], L, tetras)
			}
			t.Outcome(what)
		}
	}
	t.Sample("%s subsampling %d: %d settings, %d region lists", q, sub, len(settings), len(lists))
}

// outputNames runs every combination of prefix, suffix and region names.
func outputNames(t *hx.T) {
	dir := t.Dir()
	histSetup(dir)
	bounds := func(names []string) string {
		s := ""
		for _, n := range names {
			s += strings.Replace(boundsCfg, `"b"`, `"`+n+`"`, 1)
		}
		return s
	}
	for _, m := range []struct{ flag, cfg, ext string }{{"-Render", fmt.Sprintf(renderCfg, "Density"), ".gtet"}, {"-TetraHist", histCfg, ".txt"}} {
		for _, pre := range []string{"", "pre_", "a.b"} {
			for _, app := range []string{"", "_app", ".x"} {
				for _, files := range [][][]string{{{"halo_1"}}, {{"a", "b c"}}, {{"a"}, {"b"}}, {{"a", "b"}, {"c", "d.e"}}, {{"x%d"}}} {
					clear(filepath.Join(dir, "out"))
					cfg := m.cfg
					if pre != "" {
						cfg += "PrependName = " + pre + "\n"
					}
					if app != "" {
						cfg += "AppendName = " + app + "\n"
					}
					write(dir, "m.cfg", cfg)
					args, want := []string{"-Threads", "2", m.flag, "m.cfg"}, []string{}
					for i, f := range files {
						write(dir, fmt.Sprintf("b%d.cfg", i), bounds(f))
						args = append(args, fmt.Sprintf("b%d.cfg", i))
						for _, n := range f {
							want = append(want, pre+n+app+m.ext)
						}
					}
					sort.Strings(want)
					r := rx.CLI(dir, args...)
					t.Eval(len(want) > 1)
					if got := sortedKeys(tree(filepath.Join(dir, "out"))); r.Code != 0 || fmt.Sprint(got) != fmt.Sprint(want) {
						t.Fail("%s with prefix %q, suffix %q and regions %v: %s, wrote %q", m.flag, pre, app, files, r, got)
					}
				}
			}
		}
		// Two regions of one name have no two outputs.
		write(dir, "m.cfg", m.cfg)
		write(dir, "b0.cfg", bounds([]string{"a"}))
		write(dir, "b1.cfg", bounds([]string{"b", "a"}))
		write(dir, "b2.cfg", bounds([]string{"a"})+"[Ball \"a\"]\nX = 5\nY = 5\nZ = 5\nRadius = 1\n")
		for _, args := range [][]string{{"b0.cfg", "b1.cfg"}, {"b2.cfg"}, {"b0.cfg", "b0.cfg"}} {
			clear(filepath.Join(dir, "out"))
			r := rx.CLI(dir, append([]string{m.flag, "m.cfg"}, args...)...)
			t.Eval(true)
			if r.Code == 0 || r.Hung {
				t.Fail("%s with two regions of one name (%v): succeeds and writes %q, losing one of them", m.flag, args, sortedKeys(tree(filepath.Join(dir, "out"))))
			}
		}
	}
}

// histOutputs runs histograms whose every count is known.
func histOutputs(t *hx.T) {
	dir := t.Dir()
	files, _ := histSetup(dir)
	_ = files
	// The blobs' pixels of histGrid.
	at := map[float64]int{}
	for a := 0; a < 2; a++ {
		for b := 0; b < 2; b++ {
			for c := 0; c < 2; c++ {
				at[float64((1+2*a)+10*(2+b)+100*(1+c))+0.5]++
			}
		}
	}
	for _, sc := range []string{"Linear", "Log"} {
		for _, bins := range []int{1, 3, 60} {
			for _, lim := range [][2]float64{{100, 300}, {120, 240}, {121.2, 131.7}, {300, 400}} {
				for _, pts := range []int{1, 4, 9} {
					for _, th := range []string{"1", "2", "5"} {
						clear(filepath.Join(dir, "out"))
						write(dir, "h.cfg", fmt.Sprintf("[TetraHist]\nQuantity = Density\nHistMin = %g\nHistMax = %g\nHistBins = %d\nHistScale = %s\nParticles = %d\nInput = in\nOutput = out\nGridFile = grid.gtet\n", lim[0], lim[1], bins, sc, pts))
						r := rx.CLI(dir, "-Threads", th, "-TetraHist", "h.cfg", "b.cfg")
						out := tree(filepath.Join(dir, "out"))
						t.Eval(true)
						what := fmt.Sprintf("histogram with %d %s bins from %g to %g, %d particles, %s threads", bins, sc, lim[0], lim[1], pts, th)
						if r.Code != 0 || len(out) != 1 {
							t.Fail("%s: %s", what, r)
							continue
						}
						f, inv := func(x float64) float64 { return x }, func(x float64) float64 { return x }
						if sc == "Log" {
							f, inv = math.Log10, func(x float64) float64 { return math.Pow(10, x) }
						}
						lo, dx := f(lim[0]), (f(lim[1])-f(lim[0]))/float64(bins)
						counts := make([]int, bins)
						for v, n := range at {
							if i := int(math.Floor((f(v) - lo) / dx)); i >= 0 && i < bins {
								counts[i] += n * 6 * pts
							}
						}
						i := 0
						for _, l := range strings.Split(out["b.txt"], "\n") {
							if strings.HasPrefix(l, "#") || strings.TrimSpace(l) == "" {
								continue
							}
							var c float64
							var n int
							if _, err := fmt.Sscan(l, &c, &n); err != nil || i >= bins {
								t.Fail("%s: line %q", what, l)
								break
							}
							if w := inv(lo + (float64(i)+0.5)*dx); !hx.Rel(c, w, 1e-3) || n != counts[i] {
								t.Fail("%s: bin %d is %q, want centre %.4g and count %d", what, i, l, w, counts[i])
								break
							}
							i++
						}
						if i != bins {
							t.Fail("%s: %d bins", what, i)
						}
					}
				}
			}
		}
	}
}

// derived runs settings which leave the number of particles to the program: the
// number recorded is positive, falls with the projection depth, grows with the
// number of pixels and the subsampling length, and is the region's own whatever
// regions are rendered along with it.
func derived(t *hx.T, thorough bool) {
	const L = 10.0
	dir := t.Dir()
	mkdirs(dir, "in", "out")
	sh := &rx.Sheet{N: 4, Cells: 2, L: L, X: func(a, b, c, i, j, k int) [3]float64 {
		return [3]float64{3.03 + 0.045*float64(2*a+i), 5.03 + 0.045*float64(2*b+j), 7.03 + 0.045*float64(2*c+k)}
	}}
	sh.Write(filepath.Join(dir, "in"))
	rg := func(name, axis string, w [3]float64) region {
		return region{name, false, [3]float64{3.007, 5.007, 7.007}, w, axis, false}
	}
	run := func(lines string, sub int, rs ...region) map[string]gridFile {
		clear(filepath.Join(dir, "out"))
		write(dir, "r.cfg", fmt.Sprintf("[Render]\nQuantity = Density\nInput = in\nOutput = out\nSubsampleLength = %d\n%s", sub, lines))
		args := []string{"-Render", "r.cfg"}
		for i, r := range rs {
			write(dir, fmt.Sprintf("b%d.cfg", i), r.text())
			args = append(args, fmt.Sprintf("b%d.cfg", i))
		}
		r := rx.CLI(dir, args...)
		out, gs := tree(filepath.Join(dir, "out")), map[string]gridFile{}
		for _, x := range rs {
			g, ok := parseGrid(out[x.name+".gtet"])
			if r.Code != 0 || !ok || g.particles < 1 {
				t.Fail("%s, subsampling %d, %d regions: %s, outputs %v with %d particles", strings.TrimSpace(lines), sub, len(rs), r, sortedKeys(out), g.particles)
			}
			gs[x.name] = g
		}
		return gs
	}
	depths, pixels := []int{1, 2, 3, 7, 40}, []int{60, 300, 500, 800}
	if thorough {
		depths, pixels = []int{1, 2, 3, 4, 5, 6, 7, 8, 16, 40, 100, 1000}, []int{20, 60, 100, 200, 300, 400, 500, 600, 700, 800, 900, 1000}
	}
	var table [2][][]int64
	// The exact number behind n particles is in (n-1, n], and is proportional to
	// pixels^3 * subsampling^3 / depth: samples per pixel and depth are fixed.
	propLo, propHi := 0.0, math.Inf(1)
	var propWhat [2]string
	for s := range table {
		for pi, px := range pixels {
			table[s] = append(table[s], nil)
			for di, d := range depths {
				n := run(fmt.Sprintf("TotalPixels = %d\nProjectionDepth = %d\n", px, d), s+1, rg("a", "", [3]float64{0.1, 0.1, 0.1}))["a"].particles
				table[s][pi] = append(table[s][pi], n)
				t.Eval(true)
				what := fmt.Sprintf("%d pixels, depth %d, subsampling %d: %d particles", px, d, s+1, n)
				unit := math.Pow(float64(px)*float64(s+1), 3) / float64(d)
				if v := (float64(n) - 1) / unit * (1 - 1e-12); v > propLo {
					propLo, propWhat[0] = v, what
				}
				if v := float64(n) / unit * (1 + 1e-12); v < propHi {
					propHi, propWhat[1] = v, what
				}
				if propLo > propHi {
					t.Fail("the numbers of particles chosen are not in proportion to the pixels per depth: %s; %s", propWhat[0], propWhat[1])
				}
				if di > 0 && n > table[s][pi][di-1] {
					t.Fail("%s, but %d at depth %d", what, table[s][pi][di-1], depths[di-1])
				}
				if pi > 0 && n < table[s][pi-1][di] {
					t.Fail("%s, but %d with %d pixels", what, table[s][pi-1][di], pixels[pi-1])
				}
				if s > 0 && n < table[0][pi][di] {
					t.Fail("%s, but %d without subsampling", what, table[0][pi][di])
				}
				t.Outcome(what)
			}
		}
	}
	w := [3]float64{0.28, 0.3, 0.2}
	all := []region{rg("a", "", w), rg("x", "X", w), rg("y", "Y", w), rg("z", "Z", w), rg("zz", "Z", [3]float64{0.2, 0.2, 0.6})}
	for _, lines := range []string{"TotalPixels = 600\nAutoParticles = true\n", "ImagePixels = 15\nAutoParticles = true\n", "TotalPixels = 600\nProjectionDepth = 2\n"} {
		alone := map[string]gridFile{}
		for _, r := range all {
			alone[r.name] = run(lines, 1, r)[r.name]
		}
		for i, a := range all {
			for j, b := range all {
				if i == j {
					continue
				}
				t.Eval(true)
				for name, g := range run(lines, 1, a, b) {
					if g.particles != alone[name].particles || g.pixels != alone[name].pixels || g.axis != alone[name].axis || g.pixSpan != alone[name].pixSpan {
						t.Fail("%s: region %s has %d particles and %d pixels when rendered with %s and %s, %d and %d on its own", strings.TrimSpace(lines), name, g.particles, g.pixels, a.name, b.name, alone[name].particles, alone[name].pixels)
					}
				}
			}
		}
	}
	t.Sample("%d depths, %d pixel numbers, %d regions in pairs", len(depths), len(pixels), len(all))
}
