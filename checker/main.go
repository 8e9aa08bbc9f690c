package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"time"
)

type checkFn func(p *Program, r *Report)

var checks = map[string]checkFn{}

func main() {
	start := time.Now()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(3 << 30)
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	if len(os.Args) < 2 {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(ids)
		return
	}
	if f := os.Getenv("VERIF_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	rc := 0
	for _, id := range os.Args[1:] {
		rc = max(rc, runCheck(id, repo, verif, tier, start))
	}
	pprof.StopCPUProfile()
	os.Exit(rc)
}

func runCheck(id, repo, verif, tier string, start time.Time) (rc int) {
	f := checks[id]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		return 2
	}
	p, err := loadProgram(repo)
	r := newReport(id, p)
	if err != nil {
		r.fail("load", "program", "-", "the program cannot be loaded: %v", err)
		return r.finish(verif, tier, start)
	}
	defer func() {
		if e := recover(); e != nil {
			r.fail("internal", "checker", "-", "the analysis failed: %v", e)
			if os.Getenv("VERIF_DEBUG") != "" {
				debug.PrintStack()
			}
			rc = r.finish(verif, tier, start)
		}
	}()
	curReport = r
	f(p, r)
	return r.finish(verif, tier, start)
}
