// Command iomc decides C03 (Gadget files), C04 (sheet files), C05 (faults),
// C06 (grid files) and C07 (Python readers).
package main

import (
	"os"

	"verif/mc/hx"
)

func main() {
	hx.Main(map[string]hx.Prop{
		"C01": {Rule: ruleC01, Run: runC01, Assumptions: []string{
			"particle IDs are 1 to N^3, each once",
		}},
		"C02": {Rule: ruleC02, Run: runC02, Assumptions: []string{
			"faces are judged to a millionth of the box, the precision of the header's single-precision fields",
		}},
		"C03": {Rule: ruleC03, Run: runC03, Assumptions: []string{
			"snapshots have fewer than 2^32 particles of type 1 and none of type 0",
		}},
		"C04": {Rule: ruleC04, Run: runC04, Workers: 1, Assumptions: []string{
			"the endianness flag is 0 for little and -1 for big endian, as every file in existence has it (the comment in io.go has them the other way round)",
		}},
		"C05": {Rule: ruleC05, Run: runC05, Assumptions: []string{
			"faults are cuts at every byte, failing writers, full devices and unusable paths; torn blocks inside a file are C04's and C06's layout checks",
		}},
		"C06": {Rule: ruleC06, Run: runC06, Workers: 1},
		"C07": {Rule: ruleC07, Run: runC07},
		"C20": {Rule: ruleC20, Run: runC20, Assumptions: []string{
			"the number of particles chosen by AutoParticles and ProjectionDepth is only compared with the number used",
		}},
		"C38": {Rule: ruleC38, Run: runC38, Assumptions: []string{
			"samples within a rounding of a pixel's face may be counted on its other side",
		}},
		"C19": {Rule: ruleC19, Run: runC19, Assumptions: []string{
			"spellings of quantity names and axes that differ in case or blanks are not judged, nor are boxes wider than the simulation",
		}},
	})
}

func must(err error) {
	if err != nil {
		panic(hx.HarnessError{Msg: err.Error()})
	}
}

// openFiles is the number of descriptors this process has open.
func openFiles() int {
	fs, err := os.ReadDir("/proc/self/fd")
	must(err)
	return len(fs)
}
