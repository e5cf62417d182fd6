package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// workItem is a function or a lemma that a worker verifies.
type workItem struct {
	Name  string `json:"name"`
	Lemma bool   `json:"lemma"`
}

// workerMain reads names from the standard input and writes results.
func workerMain(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	con := fs.String("contracts", "/verif/contracts", "")
	hints := fs.String("hints", "/verif/contracts/hints.json", "")
	tags := fs.String("tags", "", "")
	to := fs.Duration("t", 240*time.Second, "")
	fs.Parse(args)
	out := json.NewEncoder(os.Stdout)
	type hello struct {
		Ready   bool
		Err     string
		Items   []workItem
		Missing []string
		Assumed []string
	}
	P, err := Load(*repo, *con)
	if err != nil {
		out.Encode(hello{Err: err.Error()})
		return
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("%v", r)
			}
		}()
		NewExec(P).computeDeps()
		err = P.checkLemmaOrder()
	}()
	if err != nil {
		out.Encode(hello{Err: err.Error()})
		return
	}
	P.LoadHints(*hints)
	h := hello{Ready: true, Missing: P.Missing}
	lem := map[string]*SpecFn{}
	cts := map[string]*Contract{}
	for _, sf := range P.SpecFns {
		if sf.Lemma {
			lem[sf.Name] = sf
			h.Items = append(h.Items, workItem{sf.Name, true})
		}
	}
	for _, c := range P.ByName {
		if c.Assumed {
			h.Assumed = append(h.Assumed, FuncName(c.Fn))
			continue
		}
		cts[FuncName(c.Fn)] = c
		h.Items = append(h.Items, workItem{FuncName(c.Fn), false})
	}
	sort.Slice(h.Items, func(i, j int) bool { return h.Items[i].Name < h.Items[j].Name })
	out.Encode(h)
	want := map[string]bool{"": true}
	for _, t := range strings.Split(*tags, ",") {
		want[t] = true
	}
	o := Options{Timeout: *to, Bin: "z3-new", QueryMS: 4000, Tags: func(t string) bool {
		if i := strings.LastIndexByte(t, '.'); i >= 0 {
			return want["*"] || want[t[:i]] && want[t[i:]]
		}
		return want["*"] || want[t]
	}}
	sc := bufio.NewScanner(os.Stdin)
	for sc.Scan() {
		n := sc.Text()
		var r *Result
		if sf := lem[n]; sf != nil {
			r = P.VerifyLemma(sf, o)
		} else if c := cts[n]; c != nil {
			r = P.Verify(c, o)
		} else {
			r = &Result{Func: n, Err: "no such function"}
		}
		r.Hints = nil
		out.Encode(r)
	}
}

type worker struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func startWorker(bin string, args []string) (*worker, error) {
	w := &worker{}
	w.cmd = exec.Command(bin, append([]string{"worker"}, args...)...)
	w.cmd.Stderr = io.Discard
	var err error
	if w.in, err = w.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	o, err := w.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	w.out = bufio.NewReaderSize(o, 1<<20)
	return w, w.cmd.Start()
}

func (w *worker) read(v interface{}) error {
	l, err := w.out.ReadBytes('\n')
	if err != nil {
		return err
	}
	return json.Unmarshal(l, v)
}

func (w *worker) close() {
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
}

type helloMsg struct {
	Ready   bool
	Err     string
	Items   []workItem
	Missing []string
	Assumed []string
}

// proofRun is the result of the verification of a set of functions.
type proofRun struct {
	results []*Result
	failed  []string // the failed obligations
	details []string
	missing []string
	assumed []string
	loadErr string
	wall    time.Duration
}

func matchAny(pats []*regexp.Regexp, n string) bool {
	for _, p := range pats {
		if p.MatchString(n) {
			return true
		}
	}
	return false
}

// runProofs verifies the functions of a property with several workers.
func runProofs(p *Prop, n int, deadline time.Time, perFn time.Duration, onFail func()) *proofRun {
	t0 := time.Now()
	r := &proofRun{}
	self, _ := os.Executable()
	var pats []*regexp.Regexp
	for _, f := range p.Funcs {
		pats = append(pats, regexp.MustCompile("^(?:"+f+")$"))
	}
	times := loadTimes()
	var mu sync.Mutex
	var queue []workItem
	queued := false
	var wg sync.WaitGroup
	fail := func(id, detail string) {
		r.failed = append(r.failed, id)
		r.details = append(r.details, detail)
		onFail()
	}
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				w, err := startWorker(self, []string{"-tags", strings.Join(p.Tags, ","), "-t", perFn.String()})
				if err != nil {
					mu.Lock()
					fail("worker", err.Error())
					mu.Unlock()
					return
				}
				kill := time.AfterFunc(time.Until(deadline), func() { w.cmd.Process.Kill() })
				var h helloMsg
				if err := w.read(&h); err != nil || h.Err != "" {
					mu.Lock()
					if r.loadErr == "" {
						r.loadErr = h.Err
						if err != nil {
							r.loadErr = "the worker ended: " + err.Error()
						}
						fail("contracts/do not fit the code", r.loadErr)
					}
					mu.Unlock()
					kill.Stop()
					w.close()
					return
				}
				mu.Lock()
				if !queued {
					queued = true
					for _, m := range h.Missing {
						r.missing = append(r.missing, m)
					}
					sort.Strings(h.Assumed)
					r.assumed = h.Assumed
					for _, it := range h.Items {
						if it.Lemma || matchAny(pats, it.Name) {
							queue = append(queue, it)
						}
					}
					sort.SliceStable(queue, func(i, j int) bool { return times[queue[i].Name] > times[queue[j].Name] })
				}
				mu.Unlock()
				again := false
				for {
					mu.Lock()
					if len(queue) == 0 {
						mu.Unlock()
						break
					}
					it := queue[0]
					queue = queue[1:]
					mu.Unlock()
					fmt.Fprintln(w.in, it.Name)
					var res Result
					err := w.read(&res)
					mu.Lock()
					if err != nil {
						r.results = append(r.results, &Result{Func: it.Name, Err: "the verifier ended: " + err.Error()})
						fail(it.Name+"/safety/undecided", "the verifier ended before the obligations of the function were decided")
						again = time.Now().Before(deadline)
						mu.Unlock()
						break
					}
					r.results = append(r.results, &res)
					if res.Err != "" {
						fail(it.Name+"/safety/undecided", res.Err)
					}
					if res.Err == "" && !it.Lemma && (len(res.Obls) == 0 || res.Paths == 0) {
						fail(it.Name+"/safety/vacuous", fmt.Sprintf("%d obligations on %d paths", len(res.Obls), res.Paths))
					}
					for _, o := range res.Obls {
						if o.Status != "proved" {
							fail(o.ID(), fmt.Sprintf("%s at %s %s %s\n%s", o.Status, o.Pos, o.Kind, o.Desc, o.Detail))
						}
					}
					mu.Unlock()
				}
				kill.Stop()
				w.close()
				if !again {
					return
				}
			}
		}()
	}
	wg.Wait()
	if !queued && r.loadErr == "" {
		fail("contracts", "nothing was verified")
	}
	r.wall = time.Since(t0)
	sort.Slice(r.results, func(i, j int) bool { return r.results[i].Func < r.results[j].Func })
	return r
}

func loadTimes() map[string]int64 {
	m := map[string]int64{}
	b, err := os.ReadFile("/verif/contracts/times.json")
	if err == nil {
		json.Unmarshal(b, &m)
	}
	return m
}

// nativeReport is what the replay program reports.
type nativeReport struct {
	Found   bool              `json:"found"`
	What    string            `json:"what"`
	Replay  map[string]string `json:"replay"`
	Evals   int               `json:"evals"`
	Nontriv int               `json:"nontrivial"`
	Samples []string          `json:"samples"`
	Err     string            `json:"err"`
}

// buildNative builds the replay program with the code of the repository and the specifications.
func buildNative(dir string) (string, error) {
	ov := map[string]string{}
	add := func(root, prefix, dst string) error {
		return filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if fi.IsDir() || !strings.HasSuffix(p, ".go") {
				return nil
			}
			rel, _ := filepath.Rel(root, p)
			b := filepath.Base(rel)
			if prefix != "" && b != "lang.go" && !strings.HasPrefix(b, "spec") {
				return nil
			}
			ov[filepath.Join(dst, filepath.Dir(rel), prefix+b)] = p
			return nil
		})
	}
	if err := add("/verif/contracts", "zz_verif_", "/repo"); err != nil {
		return "", err
	}
	if err := add("/verif/native", "", "/repo/zz_verif_native"); err != nil {
		return "", err
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	of := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(of, b, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(dir, "native")
	cmd := exec.Command("go", "build", "-overlay", of, "-o", bin, "./zz_verif_native")
	cmd.Dir = "/repo"
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%v: %s", err, out)
	}
	return bin, nil
}

// runNative runs the replay program with some seeds, until one of them finds a difference.
func runNative(bin string, p *Prop, procs int, seed int, d time.Duration, stop <-chan struct{}) nativeReport {
	var mu sync.Mutex
	var all nativeReport
	var wg sync.WaitGroup
	done := make(chan struct{})
	var once sync.Once
	for i := 0; i < procs; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			cmd := exec.Command(bin, "-checks", strings.Join(p.Native, ","), "-seed", fmt.Sprint(seed*1000+i), "-time", d.String())
			cmd.Env = append(os.Environ(), "GOMEMLIMIT=1500MiB", "GOMAXPROCS=2")
			o, err := cmd.StdoutPipe()
			if err != nil {
				return
			}
			var eb strings.Builder
			cmd.Stderr = &eb
			if cmd.Start() != nil {
				return
			}
			fin := make(chan struct{})
			go func() {
				select {
				case <-fin:
				case <-done:
					cmd.Process.Kill()
				case <-stop:
					cmd.Process.Kill()
				case <-time.After(d + 30*time.Second):
					cmd.Process.Kill()
				}
			}()
			var rep nativeReport
			b, _ := io.ReadAll(o)
			err = cmd.Wait()
			close(fin)
			for _, l := range strings.Split(string(b), "\n") {
				if strings.HasPrefix(l, "{") {
					json.Unmarshal([]byte(l), &rep)
				}
			}
			mu.Lock()
			defer mu.Unlock()
			all.Evals += rep.Evals
			all.Nontriv += rep.Nontriv
			if len(all.Samples) < 3 {
				all.Samples = append(all.Samples, rep.Samples...)
			}
			if rep.Err != "" {
				all.Err = rep.Err
			}
			if rep.Found && !all.Found {
				all.Found = true
				all.What = rep.What
				all.Replay = rep.Replay
				once.Do(func() { close(done) })
			}
			if err != nil && !rep.Found && all.Err == "" {
				x := eb.String()
				if len(x) > 2000 {
					x = x[:2000]
				}
				all.Err = fmt.Sprintf("%v %s", err, x)
			}
		}(i)
	}
	wg.Wait()
	return all
}

func checkMain(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	id := fs.String("prop", "", "")
	cfg := fs.String("config", "/verif/props.json", "")
	saveTimes := fs.Bool("save-times", false, "")
	fs.Parse(args)
	t0 := time.Now()
	ps, err := loadProps(*cfg)
	if err != nil || ps[*id] == nil {
		fmt.Println("no such property", *id, err)
		os.Exit(3)
	}
	p := ps[*id]
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	quickNative, longNative, perFn, total := 8*time.Second, 100*time.Second, 200*time.Second, 560*time.Second
	if tier == "thorough" {
		quickNative, longNative, perFn, total = 120*time.Second, 300*time.Second, 600*time.Second, 1800*time.Second
	}
	nprocs := 5
	quickNative *= 2
	deadline := t0.Add(total)
	tmp, err := os.MkdirTemp("", "gocv-check")
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	defer os.RemoveAll(tmp)
	os.MkdirAll("/verif/evidence", 0o755)

	// the replay program: a short comparison at first, a long one when a proof fails
	var nat nativeReport
	natDone := make(chan struct{})
	stopProofs := make(chan struct{})
	failed := make(chan struct{})
	var failOnce sync.Once
	var buildErr error
	go func() {
		defer close(natDone)
		if len(p.Native) == 0 {
			return
		}
		var bin string
		bin, buildErr = buildNative(tmp)
		if buildErr != nil {
			return
		}
		nat = runNative(bin, p, nprocs, seed, quickNative, nil)
		if nat.Found {
			return
		}
		select {
		case <-failed:
			x := runNative(bin, p, runtime.NumCPU(), seed+7, longNative, nil)
			x.Evals += nat.Evals
			x.Nontriv += nat.Nontriv
			if len(x.Samples) == 0 {
				x.Samples = nat.Samples
			}
			nat = x
		case <-stopProofs:
		}
	}()
	pr := runProofs(p, runtime.NumCPU(), deadline, perFn, func() { failOnce.Do(func() { close(failed) }) })
	if len(pr.failed) == 0 {
		close(stopProofs)
	}
	<-natDone
	if buildErr != nil && len(pr.failed) == 0 {
		pr.failed = append(pr.failed, "replay/does not build")
		pr.details = append(pr.details, buildErr.Error())
	}
	if nat.Err != "" && !nat.Found && len(pr.failed) == 0 {
		pr.failed = append(pr.failed, "replay/ended")
		pr.details = append(pr.details, nat.Err)
	}

	violated := len(pr.failed) > 0 || nat.Found
	writeEvidence(p, tier, seed, pr, nat, time.Since(t0), violated)
	if *saveTimes {
		m := loadTimes()
		for _, r := range pr.results {
			m[r.Func] = r.Millis
		}
		b, _ := json.MarshalIndent(m, "", " ")
		os.WriteFile("/verif/contracts/times.json", append(b, '\n'), 0o644)
	}
	np, no := 0, 0
	for _, r := range pr.results {
		no += len(r.Obls)
		for _, o := range r.Obls {
			if o.Status == "proved" {
				np++
			}
		}
	}
	fmt.Printf("%s: %d of %d obligations of %d functions discharged in %.1fs; %d inputs compared\n", p.ID, np, no, len(pr.results), pr.wall.Seconds(), nat.Evals)
	if !violated {
		return
	}
	for i, f := range pr.failed {
		if i == 10 {
			break
		}
		fmt.Println("FAILED OBLIGATION:", f)
		fmt.Println("  " + strings.ReplaceAll(strings.SplitN(pr.details[i]+"\n", "\n", 2)[0], "\n", "\n  "))
	}
	path := filepath.Join("/verif/evidence", p.ID+".replay.json")
	rep := map[string]interface{}{
		"property":           p.ID,
		"failed_obligations": pr.failed,
		"verifier_output":    pr.details,
	}
	line := fmt.Sprintf("VIOLATION property=%s replay=%s", p.ID, path)
	if nat.Found {
		rep["input"] = nat.Replay
		rep["what"] = nat.What
		rep["how"] = "/verif/replay.sh " + path
		fmt.Println("FAILING INPUT:", nat.What)
	} else {
		line += " no-failing-input-found"
	}
	b, _ := json.MarshalIndent(rep, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
	fmt.Println(line)
	os.RemoveAll(tmp)
	os.Exit(1)
}

func writeEvidence(p *Prop, tier string, seed int, pr *proofRun, nat nativeReport, wall time.Duration, violated bool) {
	no, np := 0, 0
	var solver int64
	queries := 0
	by := map[string]int{}
	var fns []map[string]interface{}
	ext := map[string]bool{}
	for _, r := range pr.results {
		n := 0
		for _, o := range r.Obls {
			no++
			if o.Status == "proved" {
				np++
				n++
				by[o.By]++
			}
		}
		solver += r.Solver
		queries += r.Queries
		for _, x := range r.Exts {
			ext[x] = true
		}
		fns = append(fns, map[string]interface{}{"function": r.Func, "obligations": len(r.Obls), "discharged": n, "paths": r.Paths, "ms": r.Millis, "solver_ms": r.Solver, "queries": r.Queries})
	}
	var exts []string
	for x := range ext {
		exts = append(exts, x)
	}
	sort.Strings(exts)
	trusted := []string{
		"gocv, the verification condition generator in /verif/gocv (go/ssa front end, symbolic execution, simplifier)",
		"z3 (z3-new) as the deciding back end",
		"the axioms of the prelude in /verif/gocv/smt.go (sequences, texts, input)",
		"golang.org/x/tools/go/ssa and the Go compiler",
	}
	for _, x := range exts {
		trusted = append(trusted, "modelled external function: "+x)
	}
	for _, x := range pr.assumed {
		trusted = append(trusted, "assumed contract of a function of the repository: "+x)
	}
	cov := map[string]interface{}{
		"obligations":                no,
		"discharged":                 np,
		"checker_cmd":                "/verif/bin/gocv check -prop " + p.ID,
		"trusted_base":               trusted,
		"functions_under_contract":   fns,
		"discharged_by":              by,
		"solver_ms":                  solver,
		"solver_queries":             queries,
		"failed":                     pr.failed,
		"contracts_without_function": pr.missing,
		"bounded_comparison": map[string]interface{}{
			"explanation": "the specification functions are executed and compared with the real code on generated inputs; this part is bounded and not counted as proved",
			"inputs":      nat.Evals, "nontrivial": nat.Nontriv, "samples": nat.Samples, "checks": p.Native, "only_bounded": p.Bounded,
		},
	}
	cov["evaluations"] = nat.Evals
	cov["distinct_nontrivial"] = nat.Nontriv
	cov["rule"] = "inputs are made by a grammar with random layouts, comments and mutations from VERIF_SEED; non-trivial are those on which the compared aspect is present (accepted files with content, or as each comparison says)"
	cov["samples"] = append([]string{}, nat.Samples...)
	v := 0
	if violated {
		v = 1
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level, "coverage": cov,
		"assumptions": append([]string{
			"machine integers are treated as mathematical integers (sizes and offsets do not overflow)",
			"the stack and the heap do not run out",
			"a reader that ended stays ended; the input is what the reader delivers, decoded by bufio.Reader.ReadRune",
			"specification functions are well-founded (they consume input)",
			"string(rune) is injective on the runes that a reader delivers",
		}, p.Assume...),
		"wall_s": wall.Seconds(), "violations": v,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join("/verif/evidence", p.ID+".json"), append(b, '\n'), 0o644)
}

// replayMain builds the replay program and runs a recorded input.
func replayMain(args []string) {
	tmp, err := os.MkdirTemp("", "gocv-replay")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	defer os.RemoveAll(tmp)
	bin, err := buildNative(tmp)
	if err != nil {
		fmt.Println(err)
		os.RemoveAll(tmp)
		os.Exit(2)
	}
	cmd := exec.Command(bin, "-replay", args[0])
	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
	err = cmd.Run()
	os.RemoveAll(tmp)
	if err != nil {
		os.Exit(1)
	}
}

// nativeMain builds the replay program into a file.
func nativeMain(args []string) {
	tmp, err := os.MkdirTemp("", "gocv-native")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	defer os.RemoveAll(tmp)
	bin, err := buildNative(tmp)
	if err == nil {
		err = exec.Command("cp", bin, args[0]).Run()
	}
	if err != nil {
		fmt.Println(err)
		os.RemoveAll(tmp)
		os.Exit(2)
	}
}
