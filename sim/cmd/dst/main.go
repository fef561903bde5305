// Command dst runs the simulation checks.
//
//	dst check  -prop P01 -tier quick -seed 1 -verif /verif
//	dst worker -prop P01 -base 1 -from 0 -stride 8 -n 1000 -out FILE
//	dst replay FILE
//	dst one    -prop P01 -base 1 -index 17     (trace of one run)
package main

import (
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: dst check|worker|replay|one|list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		cmdCheck(os.Args[2:])
	case "worker":
		cmdWorker(os.Args[2:])
	case "replay":
		cmdReplay(os.Args[2:])
	case "one":
		cmdOne(os.Args[2:])
	case "selftest":
		cmdSelftest(os.Args[2:])
	case "list":
		cmdList()
	default:
		os.Exit(2)
	}
}
