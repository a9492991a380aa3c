// Command mathmc decides the numerical properties: C23 to C25 (interpolation),
// C26 and C27 (kernels), C28 (linear algebra), C29 and C30 (random numbers),
// C31 (derivatives of tables) and C32 (cosmology).
package main

import (
	"verif/mc/hx"
)

func main() {
	hx.Main(map[string]hx.Prop{
		"C23": {Rule: ruleC23, Run: runC23},
		"C24": {Rule: ruleC24, Run: runC24},
		"C25": {Rule: ruleC25, Run: runC25},
		"C26": {Rule: ruleC26, Run: runC26},
		"C27": {Rule: ruleC27, Run: runC27},
		"C28": {Rule: ruleC28, Run: runC28},
		"C29": {Rule: ruleC29, Run: runC29},
		"C30": {Rule: ruleC30, Run: runC30},
		"C31": {Rule: ruleC31, Run: runC31},
		"C32": {Rule: ruleC32, Run: runC32},
	})
}
