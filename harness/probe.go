package main

import (
	"fmt"
	"os"
)

var probes = map[string]func(args []string) int{}

func runProbe(name string, args []string) int {
	f := probes[name]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown probe", name)
		return 2
	}
	return f(args)
}
