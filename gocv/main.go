package main

import (
	"flag"
	"fmt"
	"os"
	"regexp"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

func main() {
	if len(os.Args) > 1 {
		switch os.Args[1] {
		case "replay":
			replayMain(os.Args[2:])
			return
		case "native":
			nativeMain(os.Args[2:])
			return
		case "worker":
			workerMain(os.Args[2:])
			return
		case "check":
			checkMain(os.Args[2:])
			return
		}
	}
	repo := flag.String("repo", "/repo", "")
	con := flag.String("contracts", "/verif/contracts", "")
	pat := flag.String("f", ".", "functions")
	trace := flag.Bool("trace", false, "")
	quiet := flag.Bool("q", false, "")
	to := flag.Duration("t", 300*time.Second, "")
	hintFile := flag.String("hints", "/verif/contracts/hints.json", "loop invariants found before")
	noHints := flag.Bool("nohints", false, "search for all the loop invariants")
	writeHints := flag.Bool("write-hints", false, "remember the loop invariants of verified functions")
	flag.Parse()
	if f := os.Getenv("GOCV_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	P, err := Load(*repo, *con)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Println("loaded", time.Since(t0))
	for _, m := range P.Missing {
		fmt.Println("missing:", m)
	}
	NewExec(P).computeDeps()
	re := regexp.MustCompile(*pat)
	if !*noHints {
		P.LoadHints(*hintFile)
	}
	found := map[string]map[string]bool{}
	var cs []*Contract
	for _, c := range P.ByName {
		if !c.Assumed && re.MatchString(FuncName(c.Fn)) {
			cs = append(cs, c)
		}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].Target < cs[j].Target })
	type job struct {
		c *Contract
		l *SpecFn
	}
	var js []job
	for _, sf := range P.SpecFns {
		if sf.Lemma && re.MatchString(sf.Name) {
			js = append(js, job{l: sf})
		}
	}
	for _, c := range cs {
		js = append(js, job{c: c})
	}
	for _, j := range js {
		o := Options{Timeout: *to, Trace: *trace, Bin: "z3-new", QueryMS: 3000}
		var r *Result
		if j.l != nil {
			r = P.VerifyLemma(j.l, o)
		} else {
			r = P.Verify(j.c, o)
		}
		np := 0
		for _, o := range r.Obls {
			if o.Status == "proved" {
				np++
			}
		}
		st := "ok"
		if np < len(r.Obls) || r.Err != "" {
			st = "FAIL"
		}
		if st == "ok" {
			for k, x := range r.Hints {
				found[k] = x
			}
		}
		if r.Misses > 0 {
			st += "*"
		}
		fmt.Printf("%-4s %-45s %d/%d obligations, %d paths, %d steps, %dms (solver %dms, %d queries) %s\n", st, r.Func, np, len(r.Obls), r.Paths, r.Steps, r.Millis, r.Solver, r.Queries, r.Err)
		if os.Getenv("GOCV_STATS") != "" {
			fmt.Println("   ", r.Stats)
		}
		if *quiet {
			continue
		}
		for _, o := range r.Obls {
			if o.Status != "proved" {
				fmt.Printf("   %s %s at %s %s\n      %s\n", o.Status, o.ID(), o.Pos, o.Desc, strings.ReplaceAll(o.Detail, "\n", "\n      "))
			}
		}
	}
	if *writeHints && len(found) > 0 {
		P.LoadHints(*hintFile)
		if err := P.SaveHints(*hintFile, found); err != nil {
			fmt.Println(err)
		}
	}
}
