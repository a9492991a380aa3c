// Package table stands in for github.com/phil-mansfield/table, which is not
// available offline. Only ReadTable is needed: it reads whitespace-separated
// columns, skipping blank lines and '#' comments.
package table

import (
	"fmt"
	"os"
	"strconv"
	"strings"
)

// ReadTable returns the given columns of a text table.
func ReadTable(file string, colIdxs []int, _ interface{}) ([][]float64, error) {
	bs, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	cols := make([][]float64, len(colIdxs))
	for n, line := range strings.Split(string(bs), "\n") {
		if i := strings.IndexByte(line, '#'); i >= 0 {
			line = line[:i]
		}
		toks := strings.Fields(line)
		if len(toks) == 0 {
			continue
		}
		for i, c := range colIdxs {
			if c < 0 || c >= len(toks) {
				return nil, fmt.Errorf("%s:%d: no column %d", file, n+1, c)
			}
			x, err := strconv.ParseFloat(toks[c], 64)
			if err != nil {
				return nil, err
			}
			cols[i] = append(cols[i], x)
		}
	}
	return cols, nil
}
