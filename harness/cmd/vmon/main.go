package main

import (
	"fmt"
	"os"
	"strconv"

	"verif/harness/mon"
	_ "verif/harness/props"
)

func main() {
	a := os.Args[1:]
	if len(a) == 0 {
		usage()
	}
	switch a[0] {
	case "run": // run ROOT ID TIER SEED
		seed, err := strconv.ParseUint(a[4], 10, 64)
		if err != nil {
			seed = 1
		}
		os.Exit(mon.Main(a[1], a[2], a[3], seed))
	case "worker":
		seed, _ := strconv.ParseUint(a[3], 10, 64)
		sh, _ := strconv.Atoi(a[4])
		n, _ := strconv.Atoi(a[5])
		os.Exit(mon.Worker(a[1], a[2], seed, sh, n, a[6], a[7], a[8]))
	case "replay":
		os.Exit(mon.Replay(a[1]))
	case "one": // one ID KIND TEXT
		os.Exit(mon.One(a[1], a[2], []byte(a[3]), "-"))
	default:
		usage()
	}
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: vmon run ROOT ID TIER SEED | replay FILE | one ID KIND TEXT")
	os.Exit(3)
}
