// Command geommc decides C13 (tiling), C14 (tetrahedra), C15 (vectors),
// C16 (grid derivatives) and C17 (buffers).
package main

import (
	"verif/mc/hx"
)

func main() {
	hx.Main(map[string]hx.Prop{
		"C13": {Rule: ruleC13, Run: runC13},
		"C14": {Rule: ruleC14, Run: runC14, Assumptions: []string{
			"points on the surface of a tetrahedron may be judged either way (the implementation works to a relative tolerance of 5e-5)",
		}},
		"C15": {Rule: ruleC15, Run: runC15},
		"C16": {Rule: ruleC16, Workers: 1, Run: runC16},
		"C17": {Rule: ruleC17, Run: runC17},
	})
}
