package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif/mc/hx"
	"verif/mc/rx"
)

// step is one run of the program, and the files it writes on its own.
type step struct {
	name string
	args []string
	own  map[string]string
	bad  bool // must be refused
}

// reruns explores the histories of runs that share an output directory. The
// state is which run wrote each file last; every run from every state (every
// state there is, or those of histories below a length) has to replace exactly
// the files it names, whatever longer or shorter file was there, leave the
// others and its inputs alone, and write what it writes into an empty directory.
func reruns(t *hx.T, part, parts, depth int) {
	dir := t.Dir()
	setup20(dir)
	box := func(name string, w float64) string {
		return fmt.Sprintf("[Box %q]\nX = 1\nY = 1\nZ = 1\nXWidth = %g\nYWidth = %g\nZWidth = %g\n", name, w, w, w)
	}
	write(dir, "big.cfg", box("b", 5))
	write(dir, "small.cfg", box("b", 2))
	write(dir, "two.cfg", box("b", 3)+box("c", 4))
	write(dir, "one.cfg", box("c", 2))
	write(dir, "v.cfg", fmt.Sprintf(renderCfg, "Velocity"))
	write(dir, "no.cfg", fmt.Sprintf(renderCfg, "Nothing"))
	write(dir, "p.cfg", fmt.Sprintf(renderCfg, "Density")+"PrependName = p_\n")
	write(dir, "h3.cfg", strings.Replace(histCfg, "HistBins = 60", "HistBins = 3", 1))
	write(dir, "c2.cfg", strings.Replace(strings.Replace(fmt.Sprintf(convertCfg, 64), "in\n", "snap\n", 1), "Cells = 1", "Cells = 2", 1))
	steps := []*step{
		{name: "render a large region", args: []string{"-Render", "r.cfg", "big.cfg"}},
		{name: "render a small region", args: []string{"-Render", "r.cfg", "small.cfg"}},
		{name: "render velocities", args: []string{"-Render", "v.cfg", "small.cfg"}},
		{name: "render two regions", args: []string{"-Render", "r.cfg", "two.cfg"}},
		{name: "render another region", args: []string{"-Render", "r.cfg", "one.cfg"}},
		{name: "render with a prefix", args: []string{"-Render", "p.cfg", "two.cfg"}},
		{name: "histogram of 60 bins", args: []string{"-TetraHist", "h.cfg", "b.cfg"}},
		{name: "histogram of 3 bins", args: []string{"-TetraHist", "h3.cfg", "b.cfg"}},
		{name: "convert to one segment", args: []string{"-ConvertSnapshot", "c.cfg"}},
		{name: "convert to eight segments", args: []string{"-ConvertSnapshot", "c2.cfg"}},
		{name: "render nothing known", args: []string{"-Render", "no.cfg", "big.cfg"}, bad: true},
	}
	out := filepath.Join(dir, "out")
	inputs := func() map[string]string {
		m := tree(dir)
		for k := range m {
			if strings.HasPrefix(k, "out"+string(filepath.Separator)) {
				delete(m, k)
			}
		}
		return m
	}
	before := inputs()
	run := func(what string, s *step) {
		r := rx.CLI(dir, append([]string{"-Threads", "2"}, s.args...)...)
		t.Trans(1)
		t.Beat()
		if (r.Code != 0) != s.bad || r.Hung {
			t.Fail("%s: %s: %s", what, s.name, r)
		}
	}
	for _, s := range steps {
		clear(out)
		run("in an empty directory", s)
		s.own = tree(out)
		if s.bad != (len(s.own) == 0) {
			t.Fail("%s in an empty directory: wrote %v", s.name, sortedKeys(s.own))
			return
		}
	}
	// A state is the run each file is from; its files are known.
	key := func(m map[string]int) string {
		var ks []string
		for k, s := range m {
			ks = append(ks, fmt.Sprintf("%s=%d", k, s))
		}
		sort.Strings(ks)
		return strings.Join(ks, " ")
	}
	after := func(m map[string]int, si int) map[string]int {
		out := map[string]int{}
		for k, v := range m {
			out[k] = v
		}
		for k := range steps[si].own {
			out[k] = si
		}
		return out
	}
	// The states reached, in order, with a shortest history of each: the rule
	// that every run below is held to gives them.
	first := map[string]int{}
	hists := map[string][]string{"": {"nothing"}}
	states, depthOf := []map[string]int{first}, map[string]int{}
	for i := 0; i < len(states); i++ {
		k := key(states[i])
		if depthOf[k]+1 >= depth {
			continue
		}
		for si, s := range steps {
			n := after(states[i], si)
			if nk := key(n); hists[nk] == nil {
				hists[nk], depthOf[nk] = append(append([]string{}, hists[k]...), s.name), depthOf[k]+1
				states = append(states, n)
			}
		}
	}
	for i, m := range states {
		if i%parts != part {
			continue
		}
		k := key(m)
		t.State(k)
		for si, s := range steps {
			clear(out)
			for f, by := range m {
				must(os.WriteFile(filepath.Join(out, f), []byte(steps[by].own[f]), 0644))
			}
			what := strings.Join(hists[k], ", ")
			run("after "+what, s)
			n := after(m, si)
			want := map[string]string{}
			for f, by := range n {
				want[f] = steps[by].own[f]
			}
			got := tree(out)
			t.Eval(len(m) > 0 && len(s.own) > 0)
			if !sameOutputs(got, want) {
				t.Fail("after %s: %s leaves %v, which are not the files of the last run to write each", what, s.name, differing(got, want))
				return
			}
		}
	}
	if now := inputs(); fmt.Sprint(now) != fmt.Sprint(before) {
		t.Fail("the runs changed their inputs: %v", differing(now, before))
	}
	t.Sample("%d states of the output directory", len(states))
}

// differing lists the files that differ.
func differing(got, want map[string]string) (out []string) {
	all := map[string]bool{}
	for k := range got {
		all[k] = true
	}
	for k := range want {
		all[k] = true
	}
	for k := range all {
		g, ok := got[k]
		w, wok := want[k]
		if !sameOutputs(map[string]string{k: g}, map[string]string{k: w}) || ok != wok {
			out = append(out, fmt.Sprintf("%s of %d bytes for %d", k, len(g), len(w)))
		}
	}
	sort.Strings(out)
	return out
}
