package main

import (
	"os"
	"runtime/pprof"
)

// profile writes a CPU profile when VERIF_PROF names a file.
func profile() func() {
	n := os.Getenv("VERIF_PROF")
	if n == "" {
		return func() {}
	}
	f, err := os.Create(n)
	if err != nil {
		return func() {}
	}
	_ = pprof.StartCPUProfile(f)
	return func() { pprof.StopCPUProfile(); f.Close() }
}
