package main

import (
	"fmt"
	"os"
)

var dbgRoots = os.Getenv("SA_ROOTS") != ""

var dbgL = os.Getenv("SA_LOOPS") != ""

func dbg(f string, a ...interface{}) {
	if dbgL {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
