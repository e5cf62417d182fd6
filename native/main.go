// Program native executes the specification functions and compares them with the real code on generated
// inputs. It gives failing inputs to failed obligations, and the bounded part of the checks.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
)

// Case is one input of a check.
type Case struct {
	Input   string
	Seed    int64
	R       *rand.Rand
	Nontriv bool
}

// check compares the real code with the specification; it returns what differs.
type check struct {
	name string
	f    func(c *Case) string
	kind string // what inputs it gets: "tok", "proto"
}

var checks []check

func addCheck(name, kind string, f func(c *Case) string) {
	checks = append(checks, check{name, f, kind})
}

type report struct {
	Found   bool              `json:"found"`
	What    string            `json:"what"`
	Replay  map[string]string `json:"replay"`
	Evals   int               `json:"evals"`
	Nontriv int               `json:"nontrivial"`
	Samples []string          `json:"samples"`
	Err     string            `json:"err"`
}

// setInput gives the input to the specification.
func setInput(s string) {
	meta.Input = meta.Input[:0]
	for _, r := range s {
		meta.Input = append(meta.Input, r)
	}
	meta.InputErr = io.EOF
	meta.InputFilename = ""
}

// runOne runs a check on a case, in its own goroutine with a time limit.
func runOne(ck check, input string, seed int64) (what string, nontriv bool) {
	type res struct {
		what string
		nt   bool
	}
	ch := make(chan res, 1)
	go func() {
		c := &Case{Input: input, Seed: seed, R: rand.New(rand.NewSource(seed))}
		defer func() {
			if r := recover(); r != nil {
				if se, ok := r.(specError); ok {
					ch <- res{"", false}
					fmt.Fprintln(os.Stderr, "specification:", string(se))
					return
				}
				st := string(debug.Stack())
				if i := strings.Index(st, "panic("); i >= 0 {
					st = st[i:]
				}
				if len(st) > 1500 {
					st = st[:1500]
				}
				ch <- res{fmt.Sprintf("panic: %v\n%s", r, st), true}
			}
		}()
		setInput(input)
		w := ck.f(c)
		ch <- res{w, c.Nontriv}
	}()
	t := time.NewTimer(15 * time.Second)
	defer t.Stop()
	tick := time.NewTicker(100 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case r := <-ch:
			return r.what, r.nt
		case <-t.C:
			return "does not end within 15 seconds", true
		case <-tick.C:
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 1500<<20 {
				return "uses more than 1.5 GB of memory", true
			}
		}
	}
}

type specError string

func main() {
	names := flag.String("checks", "", "")
	seed := flag.Int64("seed", 1, "")
	dur := flag.Duration("time", 5*time.Second, "")
	child := flag.String("child", "", "the file that gets the current case")
	replay := flag.String("replay", "", "")
	show := flag.Bool("show", false, "print some inputs")
	flag.Parse()
	log.SetOutput(io.Discard)
	debug.SetMaxStack(200 << 20)

	if *show {
		g := newGen(rand.New(rand.NewSource(*seed)))
		for i := 0; i < 5; i++ {
			fmt.Printf("-----\n%s\n", g.input("proto"))
		}
		return
	}
	if *replay != "" {
		os.Exit(doReplay(*replay))
	}
	if *child == "" {
		supervise()
		return
	}
	cur, err := os.OpenFile(*child, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o600)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var cks []check
	for _, n := range strings.Split(*names, ",") {
		ok := false
		for _, c := range checks {
			if c.name == n {
				cks = append(cks, c)
				ok = true
			}
		}
		if !ok {
			fmt.Println("no check", n)
			os.Exit(2)
		}
	}
	rep := report{}
	rnd := rand.New(rand.NewSource(*seed))
	g := newGen(rnd)
	end := time.Now().Add(*dur)
	for i := 0; time.Now().Before(end); i++ {
		ck := cks[i%len(cks)]
		in := g.input(ck.kind)
		cs := rnd.Int63()
		b, _ := json.Marshal(map[string]string{"check": ck.name, "input": strconv.QuoteToASCII(in), "seed": fmt.Sprint(cs)})
		cur.WriteAt(append(b, '\n'), 0)
		what, nt := runOne(ck, in, cs)
		rep.Evals++
		if nt {
			rep.Nontriv++
			if len(rep.Samples) < 2 && len(in) < 300 && i > 3 {
				rep.Samples = append(rep.Samples, ck.name+": "+strconv.Quote(in))
			}
		}
		if what != "" {
			in, what = shrink(ck, in, cs, what)
			rep.Found = true
			rep.What = fmt.Sprintf("%s on input %s: %s", ck.name, strconv.Quote(in), what)
			rep.Replay = map[string]string{"check": ck.name, "input": strconv.QuoteToASCII(in), "seed": fmt.Sprint(cs)}
			break
		}
	}
	b, _ := json.Marshal(rep)
	fmt.Println(string(b))
}

// supervise runs a child, and reports its current case when it crashes.
func supervise() {
	f, err := os.CreateTemp("", "gocv-native")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	name := f.Name()
	f.Close()
	defer os.Remove(name)
	self, _ := os.Executable()
	var out, eb bytes.Buffer
	cmd := exec.Command(self, append(os.Args[1:], "-child", name)...)
	cmd.Stdout = &out
	cmd.Stderr = &eb
	err = cmd.Run()
	if i := bytes.LastIndex(append([]byte("\n"), out.Bytes()...), []byte("\n{")); i >= 0 {
		os.Stdout.Write(out.Bytes())
		return
	}
	rep := report{Err: fmt.Sprint(err)}
	b, _ := os.ReadFile(name)
	if i := bytes.IndexByte(b, '\n'); i > 0 && err != nil {
		var m map[string]string
		if json.Unmarshal(b[:i], &m) == nil {
			x := eb.String()
			if len(x) > 600 {
				x = x[:600]
			}
			rep.Found = true
			rep.Replay = m
			rep.What = fmt.Sprintf("%s on input %s: the program ends with %v: %s", m["check"], m["input"], err, x)
		}
	}
	if !rep.Found {
		rep.Err += " " + out.String() + eb.String()
	}
	jb, _ := json.Marshal(rep)
	fmt.Println(string(jb))
}

// shrink makes the failing input smaller.
func shrink(ck check, in string, seed int64, what string) (string, string) {
	if strings.Contains(what, "does not end") || strings.Contains(what, "of memory") {
		return in, what
	}
	end := time.Now().Add(3 * time.Second)
	for n := len(in) / 2; n >= 1; {
		changed := false
		for i := 0; i+n <= len(in); {
			if time.Now().After(end) {
				return in, what
			}
			x := in[:i] + in[i+n:]
			if w, _ := runOne(ck, x, seed); w != "" && !strings.Contains(w, "does not end") {
				in, what = x, w
				changed = true
			} else {
				i += n
			}
		}
		if !changed || n > len(in) {
			n /= 2
		}
	}
	return in, what
}

func doReplay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var m struct {
		Input map[string]string `json:"input"`
	}
	if err := json.Unmarshal(b, &m); err != nil {
		fmt.Println(err)
		return 2
	}
	if m.Input == nil {
		fmt.Println("no failing input is recorded")
		return 2
	}
	in, err := strconv.Unquote(m.Input["input"])
	if err != nil {
		fmt.Println(err)
		return 2
	}
	seed, _ := strconv.ParseInt(m.Input["seed"], 10, 64)
	for _, c := range checks {
		if c.name == m.Input["check"] {
			what, _ := runOne(c, in, seed)
			if what == "" {
				fmt.Println("no difference")
				return 0
			}
			fmt.Printf("%s on input %q: %s\n", c.name, in, what)
			return 1
		}
	}
	fmt.Println("no check", m.Input["check"])
	return 2
}
