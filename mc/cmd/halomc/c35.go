package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/phil-mansfield/gotetra/render/halo"
	"github.com/phil-mansfield/gotetra/render/io"
	"verif/mc/hx"
)

const ruleC35 = "every row count up to the stated one, every single column and pair of columns, every ordering of the masses for the largest n and for the sorted reader (structured orderings of up to hundreds of rows), every cut of the binary file and every count in it; non-trivial when more than one row is read"

const columns = 62

var catCosmo = &io.CosmologyHeader{H100: 0.7, OmegaM: 0.27, OmegaL: 0.73, Z: 0.5}

// derived columns: flag -> column, definition.
var derived = map[halo.Val]struct{ col, def int }{
	halo.RadVir: {10, 0}, halo.Rad200b: {36, 2}, halo.Rad200c: {37, 1}, halo.Rad500c: {38, 3}, halo.Rad2500c: {39, 4},
}

// catalogue is a table whose every value is different and has digits that a
// float32 does not keep.
func catalogue(rows int, mass []int) [][]float64 {
	tab := make([][]float64, rows)
	for i := range tab {
		tab[i] = make([]float64, columns)
		for j := range tab[i] {
			tab[i][j] = float64(j*100+i*7+1) * (1 + 1e-9*float64(i+j))
			if j%3 == 1 {
				tab[i][j] = -tab[i][j] / 3
			}
		}
		tab[i][1] = float64(90000000001 - 1000*int64(i))
		for _, j := range []int{10, 11, 35, 36, 37, 38, 39} {
			m := i + 1
			if mass != nil {
				m = mass[i] + 1
			}
			tab[i][j] = float64(m*(j+1)) * 1.2345678901e11
		}
		tab[i][11] /= 1e8
	}
	return tab
}

func writeText(path string, tab [][]float64) {
	var b bytes.Buffer
	fmt.Fprintln(&b, "# a catalogue")
	for _, row := range tab {
		s := make([]string, len(row))
		for j, x := range row {
			s[j] = fmt.Sprintf("%.17g", x)
		}
		fmt.Fprintln(&b, strings.Join(s, " "))
	}
	must(os.WriteFile(path, b.Bytes(), 0644))
}

func must(err error) {
	if err != nil {
		panic(hx.HarnessError{Msg: err.Error()})
	}
}

func fds() int {
	d, err := os.ReadDir("/proc/self/fd")
	must(err)
	return len(d)
}

func runC35(c *hx.C) {
	top := c.Pick(5, 8)
	for n := 0; n <= top; n++ {
		n := n
		c.Case(fmt.Sprintf("columns/%d", n), func(t *hx.T) { columnCheck(t, n) })
	}
	for _, n := range []int{1000, c.Pick(5000, 70000)} {
		n := n
		c.Case(fmt.Sprintf("columns/%d", n), func(t *hx.T) { columnCheck(t, n) })
	}
	for n := 0; n <= c.Pick(5, 6); n++ {
		n := n
		every := func(f func([]int)) { hx.WeakOrders(n, f) }
		ks := []int{}
		for k := 0; k <= n+2; k++ {
			ks = append(ks, k)
		}
		c.Case(fmt.Sprintf("largest/%d", n), func(t *hx.T) { largestCheck(t, n, ks, every) })
		c.Case(fmt.Sprintf("sorted/%d", n), func(t *hx.T) { sortedCheck(t, n, every) })
	}
	for _, n := range []int{13, 100, c.Pick(300, 1500)} {
		n := n
		some := func(f func([]int)) { longOrders(n, c.Pick(1, 3), f) }
		ks := []int{0, 1, 2, 3, 7, n / 2, n - 2, n - 1, n, n + 1}
		if n == 13 || c.Thorough() {
			ks = append(ks, 11, 12, 13, 64, 65, 128)
		}
		c.Case(fmt.Sprintf("largest/%d", n), func(t *hx.T) { largestCheck(t, n, ks, some) })
		c.Case(fmt.Sprintf("sorted/%d", n), func(t *hx.T) { sortedCheck(t, n, some) })
	}
	for n := 0; n <= 3; n++ {
		n := n
		c.Case(fmt.Sprintf("cuts/%d", n), func(t *hx.T) { cutCheck(t, n) })
	}
	for n := 1; n <= 3; n++ {
		n := n
		c.Case(fmt.Sprintf("full/%d", n), func(t *hx.T) { fullCheck(t, n) })
	}
	c.Case("refused", refusedCheck)
	c.Case("descriptors", descriptorCheck)
}

// wantVals is what reading the flags should give.
func wantVals(tab [][]float64, flags []halo.Val) [][]float64 {
	out := make([][]float64, len(flags))
	for i, f := range flags {
		out[i] = make([]float64, len(tab))
		d, der := derived[f]
		for r := range tab {
			switch {
			case der:
				out[i][r] = defs[d.def].radius(catCosmo, tab[r][d.col])
			case f == halo.RVir || f == halo.Rs || f == halo.RsKylpin:
				out[i][r] = tab[r][int(f)] / 1000
			default:
				out[i][r] = tab[r][int(f)]
			}
		}
	}
	return out
}

func sameVals(flags []halo.Val, got, want [][]float64) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d columns, want %d", len(got), len(want))
	}
	for i := range want {
		if len(got[i]) != len(want[i]) {
			return fmt.Sprintf("column %d has %d rows, want %d", i, len(got[i]), len(want[i]))
		}
		tol := 0.0
		if _, ok := derived[flags[i]]; ok {
			tol = 1e-11
		}
		if flags[i] == halo.RVir || flags[i] == halo.Rs || flags[i] == halo.RsKylpin {
			tol = 1e-14
		}
		for r := range want[i] {
			if hx.Off(got[i][r], want[i][r], tol*math.Abs(want[i][r])) {
				return fmt.Sprintf("column %d (%d), row %d is %v, want %v", i, int(flags[i]), r, got[i][r], want[i][r])
			}
		}
	}
	return ""
}

func sameIDs(got []int, tab [][]float64) bool {
	if len(got) != len(tab) {
		return false
	}
	for r := range tab {
		if got[r] != int(tab[r][1]) {
			return false
		}
	}
	return true
}

type reader struct {
	name string
	f    func(string, *io.CosmologyHeader, ...halo.Val) ([]int, [][]float64, error)
	file string
}

func readers(dir string) []reader {
	return []reader{
		{"text", halo.ReadRockstarVals, filepath.Join(dir, "cat.txt")},
		{"binary", halo.ReadBinaryRockstarVals, filepath.Join(dir, "cat.bin")},
	}
}

func layout(tab [][]float64) []byte {
	var b bytes.Buffer
	binary.Write(&b, binary.LittleEndian, int64(len(tab)))
	for j := 0; j < columns; j++ {
		for r := range tab {
			binary.Write(&b, binary.LittleEndian, tab[r][j])
		}
	}
	return b.Bytes()
}

func columnCheck(t *hx.T, n int) {
	dir := t.Dir()
	rs := readers(dir)
	tab := catalogue(n, nil)
	writeText(rs[0].file, tab)
	if err := halo.RockstarConvert(rs[0].file, rs[1].file); err != nil {
		t.Fail("%d rows: converting: %v", n, err)
		return
	}
	if bs, err := os.ReadFile(rs[1].file); err != nil || !bytes.Equal(bs, layout(tab)) {
		t.Fail("%d rows: the binary file is not the count and the columns (%v)", n, err)
		return
	}
	all := []halo.Val{}
	for j := 0; j < columns; j++ {
		all = append(all, halo.Val(j))
	}
	all = append(all, halo.RadVir, halo.Rad200b, halo.Rad200c, halo.Rad500c, halo.Rad2500c)
	try := func(rd reader, flags ...halo.Val) bool {
		t.Eval(n > 1)
		hd := *catCosmo
		ids, vals, err := rd.f(rd.file, &hd, flags...)
		if err != nil {
			t.Fail("%d rows, %s: flags %v: %v", n, rd.name, flags, err)
			return false
		}
		if !sameIDs(ids, tab) {
			t.Fail("%d rows, %s: flags %v: IDs %v", n, rd.name, flags, ids)
		}
		if s := sameVals(flags, vals, wantVals(tab, flags)); s != "" {
			t.Fail("%d rows, %s: flags %v: %s", n, rd.name, flags, s)
		}
		if hd != *catCosmo {
			t.Fail("%d rows, %s: flags %v: the header becomes %+v", n, rd.name, flags, hd)
		}
		return !t.Failed()
	}
	for k, rd := range rs {
		if n > 1000 {
			_ = try(rd) && try(rd, all[2]) && try(rd, halo.RVir, all[columns-1], halo.Rad200c)
			continue
		}
		ok := try(rd) && try(rd, all...)
		for i := len(all) - 1; ok && i >= 0; i-- {
			ok = try(rd, all[i])
			if n > 100 || k == 0 && n > 2 {
				ok = ok && try(rd, all[i], all[len(all)-1-i])
				continue
			}
			for j := range all {
				ok = ok && try(rd, all[i], all[j])
			}
		}
		for i := range all { // runs of columns, and the same column three times
			if !ok || n > 100 {
				break
			}
			ok = try(rd, all[i], all[i], all[i]) && try(rd, all[:i]...)
		}
	}
}

// longOrders gives orderings of many masses: rising, falling, up and down, equal,
// in groups of equals, and every step through them.
func longOrders(n, steps int, f func([]int)) {
	ord := make([]int, n)
	for kind := 0; kind < 7+3*steps; kind++ {
		for i := range ord {
			switch kind {
			case 0:
				ord[i] = i
			case 1:
				ord[i] = n - 1 - i
			case 2:
				ord[i] = i
				if i > n/2 {
					ord[i] = n - i
				}
			case 3:
				ord[i] = 4
			case 4:
				ord[i] = i / 3
			case 5:
				ord[i] = (n - i) % 5
			case 6:
				ord[i] = i ^ 1 // neighbours out of order
			default:
				ord[i] = i * []int{7, 29, 61, 3, 211, 97, 401, 17, 53}[kind-7] % 1009 % n
			}
		}
		f(ord)
	}
}

// largestCheck keeps the n most massive of every ordering of the masses.
func largestCheck(t *hx.T, n int, ks []int, orders func(func([]int))) {
	dir := t.Dir()
	rd := readers(dir)
	orders(func(ord []int) {
		if t.Failed() {
			return
		}
		t.Beat()
		tab := catalogue(n, ord)
		writeText(rd[0].file, tab)
		for _, k := range ks {
			t.Eval(k > 1)
			if err := halo.RockstarConvertTopN(rd[0].file, rd[1].file, k); err != nil {
				t.Fail("the largest %d of masses %v: %v", k, ord, err)
				return
			}
			want := k
			if k > n {
				want = n
			}
			got, err := os.ReadFile(rd[1].file)
			must(err)
			if len(got) != 8+8*columns*want || int(binary.LittleEndian.Uint64(got)) != want {
				t.Fail("the largest %d of masses %v: a file of %d bytes", k, ord, len(got))
				return
			}
			ids, vals, err := halo.ReadBinaryRockstarVals(rd[1].file, catCosmo, halo.M200b)
			if err != nil || len(ids) != want || len(vals) != 1 || len(vals[0]) != want {
				t.Fail("the largest %d of masses %v: reading back %v, %v, %v", k, ord, ids, vals, err)
				return
			}
			used, least := make([]bool, n), math.Inf(1)
			sub := make([][]float64, want)
			for r, id := range ids {
				i := int(90000000001-int64(id)) / 1000
				if i < 0 || i >= n || used[i] {
					t.Fail("the largest %d of masses %v: IDs %v", k, ord, ids)
					return
				}
				used[i] = true
				sub[r] = tab[i]
				least = math.Min(least, tab[i][36])
			}
			for i := range tab {
				if !used[i] && tab[i][36] > least {
					t.Fail("the largest %d of masses %v: row %d is left out", k, ord, i)
				}
			}
			if !bytes.Equal(got, layout(sub)) {
				t.Fail("the largest %d of masses %v: rows are mixed", k, ord)
			}
		}
	})
}

// sortedCheck reads catalogues sorted by size.
func sortedCheck(t *hx.T, n int, orders func(func([]int))) {
	file := filepath.Join(t.Dir(), "cat.txt")
	orders(func(ord []int) {
		if t.Failed() {
			return
		}
		t.Beat()
		tab := catalogue(n, ord)
		writeText(file, tab)
		for _, d := range defs {
			t.Eval(n > 1)
			hd := *catCosmo
			ids, xs, ys, zs, ms, rs, err := halo.ReadRockstar(file, d.r, &hd)
			if err != nil || len(ids) != n || len(xs) != n || len(ys) != n || len(zs) != n || len(ms) != n || len(rs) != n || hd != *catCosmo {
				t.Fail("%s of %v: %d IDs, %v", d.name, ord, len(ids), err)
				return
			}
			used := make([]bool, n)
			for r := range ids {
				i := int(90000000001-int64(ids[r])) / 1000
				if i < 0 || i >= n || used[i] {
					t.Fail("%s of %v: IDs %v", d.name, ord, ids)
					return
				}
				used[i] = true
				row := tab[i]
				m, rad := row[d.col], 0.0
				if d.mass {
					rad = d.radius(catCosmo, m)
				} else {
					rad = row[d.col] / 1000
					m = d.mass_(catCosmo, rad)
				}
				if xs[r] != row[17] || ys[r] != row[18] || zs[r] != row[19] || hx.Off(ms[r], m, 1e-11*m) || hx.Off(rs[r], rad, 1e-11*rad) {
					t.Fail("%s of %v: object %d is at %v %v %v with mass %v and radius %v, want %v %v and %v", d.name, ord, ids[r], xs[r], ys[r], zs[r], ms[r], rs[r], row[17:20], m, rad)
				}
				if r > 0 && rs[r] > rs[r-1] {
					t.Fail("%s of %v: radii %v are not in order", d.name, ord, rs)
				}
			}
		}
	})
}

// cutCheck cuts a binary catalogue at every byte and puts every small or extreme
// count into it.
func cutCheck(t *hx.T, n int) {
	file := filepath.Join(t.Dir(), "cat.bin")
	whole := layout(catalogue(n, nil))
	flagSets := [][]halo.Val{{}, {halo.Scale}, {halo.M200b, halo.X}, {halo.AccRateTdyn}, {halo.Rad2500c, halo.DescID}}
	refused := func(what string, flags []halo.Val) {
		t.Eval(true)
		var ids []int
		var vals [][]float64
		var err error
		if p := hx.Try(func() { ids, vals, err = halo.ReadBinaryRockstarVals(file, catCosmo, flags...) }); p != nil {
			t.Fail("%s: flags %v: %v", what, flags, p)
		} else if err == nil {
			t.Fail("%s: flags %v: read as %v %v", what, flags, ids, vals)
		}
	}
	for l := 0; l < len(whole) && !t.Failed(); l++ {
		must(os.WriteFile(file, whole[:l], 0644))
		for _, f := range flagSets {
			refused(fmt.Sprintf("%d of %d bytes of %d rows", l, len(whole), n), f)
		}
	}
	counts := []int64{-1, -2, math.MinInt64, math.MaxInt64, 1 << 40, 1 << 60, 1 << 61, 1<<61 + int64(n), 1<<53 + int64(n), int64(n) | 1<<62, int64(n) | -1<<63, 256, int64(n) << 56}
	for k := int64(0); k < 12; k++ {
		counts = append(counts, k)
	}
	for _, k := range counts {
		if k == int64(n) || t.Failed() {
			continue
		}
		b := append([]byte{}, whole...)
		binary.LittleEndian.PutUint64(b, uint64(k))
		must(os.WriteFile(file, b, 0644))
		for _, f := range flagSets {
			refused(fmt.Sprintf("%d rows with the count %d", n, k), f)
		}
	}
}

// fullCheck converts catalogues of n rows on a disk that fills after each number
// of bytes: every one that is too small is an error.
func fullCheck(t *hx.T, n int) {
	dir := t.Dir()
	txt := filepath.Join(dir, "cat.txt")
	writeText(txt, catalogue(n, nil))
	for k := 0; k <= n; k++ { // 0 converts everything
		self, err := os.Executable()
		must(err)
		out, err := exec.Command(self, "-limited", txt, filepath.Join(dir, fmt.Sprint("out", k)), fmt.Sprint(k)).CombinedOutput()
		rows := k
		if k == 0 {
			rows = n
		}
		if want := 9 + 8*columns*rows; err != nil || len(out) < want+1 {
			t.Fail("%d rows, the largest %d: %v: %s", n, k, err, out)
			return
		} else {
			for l, c := range string(out[:want]) {
				t.Eval(true)
				if ok := c == 'y'; ok != (l == want-1) {
					t.Fail("%d rows, the largest %d (0: all): with room for %d bytes of %d the conversion succeeds: %v", n, k, l, want-1, ok)
					return
				}
			}
		}
	}
}

// limitedChild converts args[0] to args[1], with room for 0, 1, 2, ... bytes, and
// prints whether each succeeds.
func limitedChild(args []string) {
	signal.Ignore(syscall.SIGXFSZ)
	var k int
	fmt.Sscan(args[2], &k)
	var old syscall.Rlimit
	must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
	said := []byte{}
	for l := uint64(0); ; l++ {
		lim := syscall.Rlimit{Cur: l, Max: old.Max}
		must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim))
		var err error
		p := hx.Try(func() {
			if k == 0 {
				err = halo.RockstarConvert(args[0], args[1])
			} else {
				err = halo.RockstarConvertTopN(args[0], args[1], k)
			}
		})
		must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old))
		c := byte('n')
		if p != nil {
			c = 'p'
		} else if err == nil {
			c = 'y'
		}
		said = append(said, c)
		// The last: a file that is whole.
		if fi, e := os.Stat(args[1]); e == nil && fi.Size() < int64(l) || l > 4000 {
			break
		}
	}
	fmt.Printf("%s\n", said)
}

func refusedCheck(t *hx.T) {
	dir := t.Dir()
	rds := readers(dir)
	for n := 0; n <= 2; n++ {
		tab := catalogue(n, nil)
		writeText(rds[0].file, tab)
		if err := halo.RockstarConvert(rds[0].file, rds[1].file); err != nil {
			t.Fail("converting %d rows: %v", n, err)
			return
		}
		for _, v := range []halo.Val{-1, -2, -100, columns, halo.Rad2500c + 1, 100, 1 << 40} {
			for _, flags := range [][]halo.Val{{v}, {halo.X, v}, {v, halo.X}} {
				for _, rd := range rds {
					if rd.name == "text" && n == 0 {
						continue // a table without rows has no columns to miss
					}
					t.Eval(true)
					var vals [][]float64
					var err error
					if p := hx.Try(func() { _, vals, err = rd.f(rd.file, catCosmo, flags...) }); p != nil {
						t.Fail("%d rows, %s: column %d: %v", n, rd.name, int(v), p)
					} else if err == nil {
						t.Fail("%d rows, %s: column %d is read as %v", n, rd.name, int(v), vals)
					}
				}
			}
		}
	}
	// Paths that cannot be used.
	none := filepath.Join(dir, "none", "x")
	for _, f := range []func() error{
		func() error { return halo.RockstarConvert(none, rds[1].file) },
		func() error { return halo.RockstarConvert(rds[0].file, none) },
		func() error { return halo.RockstarConvert(rds[0].file, "/dev/full") },
		func() error { return halo.RockstarConvertTopN(none, rds[1].file, 1) },
		func() error { return halo.RockstarConvertTopN(rds[0].file, none, 1) },
		func() error { return halo.RockstarConvertTopN(rds[0].file, "/dev/full", 1) },
		func() error { _, _, err := halo.ReadBinaryRockstarVals(none, catCosmo); return err },
		func() error { _, _, err := halo.ReadRockstarVals(none, catCosmo, halo.X); return err },
		func() error { _, _, _, _, _, _, err := halo.ReadRockstar(none, halo.RVirial, catCosmo); return err },
	} {
		t.Eval(true)
		var err error
		if p := hx.Try(func() { err = f() }); p != nil || err == nil {
			t.Fail("an unusable path gives %v, %v", p, err)
		}
	}
}

// descriptorCheck repeats every operation: none may keep files open.
func descriptorCheck(t *hx.T) {
	rds := readers(t.Dir())
	writeText(rds[0].file, catalogue(3, nil))
	ops := []func(){
		func() { halo.RockstarConvert(rds[0].file, rds[1].file) },
		func() { halo.RockstarConvertTopN(rds[0].file, rds[1].file, 2) },
		func() { halo.ReadBinaryRockstarVals(rds[1].file, catCosmo, halo.X) },
		func() { hx.Try(func() { halo.ReadBinaryRockstarVals(rds[1].file, catCosmo, halo.Val(99)) }) },
		func() { halo.ReadRockstarVals(rds[0].file, catCosmo, halo.X) },
		func() { halo.ReadRockstar(rds[0].file, halo.R200m, catCosmo) },
	}
	for _, op := range ops {
		op()
	}
	for i, op := range ops {
		t.Eval(true)
		before := fds()
		for k := 0; k < 20; k++ {
			op()
		}
		if after := fds(); after >= before+15 {
			t.Fail("operation %d leaves %d files open in 20 calls", i, after-before)
		}
	}
}
