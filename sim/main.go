package main

import (
	"os"
)

func main() {
	raceEnv()
	if len(os.Args) > 1 {
		switch os.Args[1] {
		case "one":
			cmdOne(os.Args[2:])
			return
		case "worker":
			cmdWorker(os.Args[2:])
			return
		case "check":
			cmdCheck(os.Args[2:])
			return
		case "replay":
			cmdReplay(os.Args[2:])
			return
		case "selftest":
			cmdSelftest(os.Args[2:])
			return
		}
	}
	os.Stderr.WriteString("usage: sim check|replay|one|worker|selftest\n")
	os.Exit(3)
}
