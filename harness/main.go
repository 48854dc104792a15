// Command vh runs the runtime-monitoring checks of /verif against the code in /repo.
package main

import (
	"fmt"
	"os"
	"strconv"

	"verifharness/core"
	_ "verifharness/gen"
	"verifharness/gen/scratch"
	_ "verifharness/props"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: vh run ID | replay ID CASE SEED TIER | list")
		os.Exit(2)
	}
	for _, id := range scratch.IDs {
		core.Get(id).Custom = scratch.Run
	}
	core.Get("C18").Custom = scratch.CLI
	switch os.Args[1] {
	case "list":
		for _, id := range core.IDs() {
			fmt.Println(id)
		}
	case "run":
		seed, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
		if err != nil {
			seed = 1
		}
		tier := os.Getenv("VERIF_TIER")
		if tier != "thorough" {
			tier = "quick"
		}
		self, _ := os.Executable()
		vd := os.Getenv("VERIF_DIR")
		if vd == "" {
			vd = "/verif"
		}
		os.Exit(core.RunProp(os.Args[2], vd, self, seed, tier))
	case "worker":
		a := os.Args[2:]
		n := func(s string) int { v, _ := strconv.Atoi(s); return v }
		seed, _ := strconv.ParseUint(a[1], 10, 64)
		core.Worker(core.Get(a[0]), seed, a[2], n(a[3]), n(a[4]), n(a[5]), n(a[6]), a[7])
	case "replay":
		a := os.Args[2:]
		seed, _ := strconv.ParseUint(a[2], 10, 64)
		os.Exit(core.Replay(a[0], a[1], seed, a[3]))
	default:
		os.Exit(2)
	}
}
