// vharness decides the properties of /verif/properties.jsonl by generated-input
// search. See /verif/DESIGN.md.
package main

import (
	"fmt"
	"os"
	"path/filepath"

	_ "time/tzdata"

	_ "vharness/checks"
	"vharness/prop"
)

func root() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	self, err := os.Executable()
	if err != nil {
		return "/verif"
	}
	return filepath.Dir(filepath.Dir(self))
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vharness run ID | list | replay FILE")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		prop.WorkerMain(os.Args[2:])
	case "replay":
		prop.ReplayMain(os.Args[2:])
	case "list":
		for _, p := range prop.Parts("") {
			fmt.Printf("%s\t%s\t%v\t%d\t%d\t%s\n", p.Prop, p.Name, p.Race, p.Quick, p.Thorough, p.Rule)
		}
	case "run":
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		os.Exit(prop.RunMain(os.Args[2], tier, root()))
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}
