package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"time"
)

var _ = sort.Strings

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: checker PROPERTY [dir]")
		os.Exit(2)
	}
	dir := "/repo"
	if d := os.Getenv("VERIF_REPO"); d != "" {
		dir = d
	}
	if f := os.Getenv("CHKPROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if os.Args[1] == "debug" {
		t0 := time.Now()
		p, err := loadProgram(dir)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		fmt.Println("load", time.Since(t0))
		debugMain(p, os.Args[2:])
		return
	}
	tier := "quick"
	if os.Getenv("VERIF_TIER") == "thorough" {
		tier = "thorough"
	}
	os.Exit(runCheck(dir, os.Args[1], tier))
}
