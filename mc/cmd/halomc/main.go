// Command halomc decides the halo properties: C33 (radius definitions), C34
// (cell lists and the subhalo finder) and C35 (catalogues).
package main

import (
	"os"

	"verif/mc/hx"
)

func main() {
	if len(os.Args) == 5 && os.Args[1] == "-limited" {
		limitedChild(os.Args[2:])
		return
	}
	hx.Main(map[string]hx.Prop{
		"C33": {Rule: ruleC33, Run: runC33},
		"C34": {Rule: ruleC34, Run: runC34},
		"C35": {Rule: ruleC35, Run: runC35},
	})
}
