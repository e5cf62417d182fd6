package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver drives one SMT solver process.
type Solver struct {
	ctx      *Ctx
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	declared map[string]bool
	defined  map[int]string
	strs     map[string]string
	Queries  int
	Time     time.Duration
	timeout  int // ms
	log      io.Writer
	bin      string
	cache    map[string]string
	wantVals []string
	vals     []bool
	cat      string // what the queries are for
	cats     map[string]*catStat
}

type catStat struct {
	n, unsat int
	t        time.Duration
}

func quoteSym(s string) string {
	if strings.ContainsAny(s, "|\\") {
		s = strings.NewReplacer("|", "!", "\\", "!").Replace(s)
	}
	return "|" + s + "|"
}

const smtPrelude = `(set-option :print-success false)
(set-option :smt.mbqi false)
(set-option :auto_config false)
(set-option :smt.qi.eager_threshold 100)
(declare-sort Str 0)(declare-sort Node 0)
(declare-sort SeqI 0)(declare-sort SeqS 0)(declare-sort SeqB 0)(declare-sort SeqN 0)
(declare-sort ArrI 0)(declare-sort ArrS 0)(declare-sort ArrB 0)(declare-sort MapI 0)(declare-sort MapS 0)
(declare-fun |strlen| (Str) Int)(declare-fun |rlen| (Str) Int)(declare-fun |strid| (Str) Int)
(declare-fun |cat| (Str Str) Str)(declare-fun |str| (Int Int) Str)(declare-fun |chr| (Int) Str)
(declare-fun |at| (Int) Int)(declare-fun |rat| (Str Int) Int)(declare-fun |chrid| (Str) Int)
(declare-fun |fwd| (Int Int) SeqI)(declare-fun |rev| (Int Int) SeqI)
(declare-fun |emptySeqI| () SeqI)(declare-fun |emptySeqS| () SeqS)(declare-fun |emptySeqN| () SeqN)(declare-fun |emptySeqB| () SeqB)
(declare-fun |selInt| (ArrI Int) Int)(declare-fun |selStr| (ArrS Int) Str)
(declare-fun |seqI| (ArrI Int Int) SeqI)(declare-fun |seqS| (ArrS Int Int) SeqS)
(declare-fun |nthI| (SeqI Int) Int)(declare-fun |nthS| (SeqS Int) Str)
(declare-fun |takeI| (SeqI Int) SeqI)(declare-fun |takeS| (SeqS Int) SeqS)
(declare-fun |snocI| (SeqI Int) SeqI)(declare-fun |snocS| (SeqS Str) SeqS)(declare-fun |snocN| (SeqN Node) SeqN)(declare-fun |snocB| (SeqB Bool) SeqB)
(declare-fun |initI| (SeqI) SeqI)(declare-fun |lastI| (SeqI) Int)
(declare-fun |initS| (SeqS) SeqS)(declare-fun |lastS| (SeqS) Str)
(declare-fun |lenI| (SeqI) Int)(declare-fun |lenS| (SeqS) Int)
(declare-fun |concatI| (SeqI SeqI) SeqI)(declare-fun |concatS| (SeqS SeqS) SeqS)(declare-fun |concatN| (SeqN SeqN) SeqN)(declare-fun |concatB| (SeqB SeqB) SeqB)
; input
(declare-fun |N| () Int)(declare-fun |isSpace| (Int) Bool)(declare-fun |rerrTag| () Int)(declare-fun |runeLen| (Int) Int)
(declare-fun |mgetI| (MapI Int) Int)(declare-fun |mputMapI| (MapI Int Int) MapI)(declare-fun |mhasI| (MapI Int) Bool)
(assert (forall ((k Int)) (! (and (>= (at k) (- 1)) (<= (at k) 1114111)) :pattern ((at k)))))
(assert (forall ((k Int)) (! (=> (>= k 0) (= (>= (at k) 0) (< k N))) :pattern ((at k)))))
(assert (forall ((r Int)) (! (<= (runeLen r) 4) :pattern ((runeLen r)))))
(assert (forall ((k Int)) (! (=> (and (<= 0 k) (< k N)) (>= (runeLen (at k)) 1)) :pattern ((runeLen (at k))))))
(assert (not (isSpace (- 1))))
(assert (not (isSpace 0)))
(assert (> rerrTag 0))
(assert (forall ((m MapI) (k Int) (x Int) (j Int)) (! (= (mgetI (mputMapI m k x) j) (ite (= j k) x (mgetI m j))) :pattern ((mgetI (mputMapI m k x) j)))))
(assert (forall ((m MapI) (k Int) (x Int)) (! (=> (and (not (= x 0)) (= (mgetI m k) x)) (= (mputMapI m k x) m)) :pattern ((mputMapI m k x)))))
(assert (forall ((m MapI) (k Int) (x Int) (j Int)) (! (= (mhasI (mputMapI m k x) j) (or (= j k) (mhasI m j))) :pattern ((mhasI (mputMapI m k x) j)))))
; strings
(declare-fun |emptyStr| () Str)
(assert (forall ((a Int) (b Int)) (! (=> (<= b a) (= (str a b) emptyStr)) :pattern ((str a b)))))
(assert (forall ((s Str)) (! (and (>= (strlen s) 0) (>= (strlen s) (rlen s)) (>= (rlen s) 0)) :pattern ((strlen s)))))
(assert (forall ((s Str)) (! (and (>= (strlen s) (rlen s)) (>= (rlen s) 0) (=> (= (strlen s) 0) (= (rlen s) 0))) :pattern ((rlen s)))))
(assert (forall ((a Int) (b Int)) (! (=> (<= a b) (= (rlen (str a b)) (- b a))) :pattern ((str a b)))))
(assert (forall ((r Int)) (! (= (chrid (chr r)) r) :pattern ((chr r)))))
(assert (forall ((a Int)) (! (= (chr (at a)) (str a (+ a 1))) :pattern ((chr (at a))))))
(assert (forall ((a Int) (b Int) (r Int)) (! (=> (and (<= a b) (= r (at b))) (= (cat (str a b) (chr r)) (str a (+ b 1)))) :pattern ((cat (str a b) (chr r)) (at b)))))
(assert (forall ((a Int) (b Int) (d Int) (e Int)) (! (=> (and (<= a b) (= b d) (<= d e)) (= (cat (str a b) (str d e)) (str a e))) :pattern ((cat (str a b) (str d e))))))
(assert (forall ((a Int) (b Int) (i Int)) (! (=> (and (<= 0 i) (< i (- b a))) (= (rat (str a b) i) (at (+ a i)))) :pattern ((rat (str a b) i)))))
(assert (forall ((x Str) (a Int) (b Int) (r Int)) (! (=> (and (<= a b) (= r (at b))) (= (cat (cat x (str a b)) (chr r)) (cat x (str a (+ b 1))))) :pattern ((cat (cat x (str a b)) (chr r))))))
(assert (forall ((x Str) (a Int) (b Int) (d Int) (e Int)) (! (=> (and (<= a b) (= b d) (<= d e)) (= (cat (cat x (str a b)) (str d e)) (cat x (str a e)))) :pattern ((cat (cat x (str a b)) (str d e))))))
(declare-fun |sinit| (Str) Str)
(assert (forall ((x Str) (y Str) (z Str)) (! (= (cat x (cat y z)) (cat (cat x y) z)) :pattern ((cat x (cat y z))))))
(assert (forall ((x Str) (r Int)) (! (= (sinit (cat x (chr r))) x) :pattern ((cat x (chr r))))))
(assert (forall ((a Int) (b Int)) (! (=> (< a b) (= (sinit (str a b)) (str a (- b 1)))) :pattern ((sinit (str a b))))))
(assert (forall ((x Str) (a Int) (b Int)) (! (=> (< a b) (= (sinit (cat x (str a b))) (cat x (str a (- b 1))))) :pattern ((sinit (cat x (str a b)))))))
; sequences
(assert (forall ((m ArrI) (o Int) (n Int)) (! (=> (<= n 0) (= (seqI m o n) emptySeqI)) :pattern ((seqI m o n)))))
(assert (forall ((m ArrI) (o Int) (n Int)) (! (=> (>= n 0) (= (lenI (seqI m o n)) n)) :pattern ((lenI (seqI m o n))))))
(assert (forall ((m ArrI) (o Int) (n Int) (i Int)) (! (=> (and (<= o i) (< i (+ o n))) (= (nthI (seqI m o n) (- i o)) (selInt m i))) :pattern ((seqI m o n) (selInt m i)))))
(assert (forall ((m ArrI) (o Int) (n Int) (k Int)) (! (=> (and (<= 0 k) (<= k n)) (= (seqI m o k) (takeI (seqI m o n) k))) :pattern ((seqI m o n) (seqI m o k)))))
(assert (forall ((s SeqI) (x Int)) (! (and (= (initI (snocI s x)) s) (= (lastI (snocI s x)) x)) :pattern ((snocI s x)))))
(assert (forall ((s SeqI) (x Int)) (! (= (lenI (snocI s x)) (+ (lenI s) 1)) :pattern ((lenI (snocI s x))))))
(assert (forall ((a Int) (b Int)) (! (=> (>= a b) (= (fwd a b) emptySeqI)) :pattern ((fwd a b)))))
(assert (forall ((a Int) (b Int)) (! (=> (>= a b) (= (rev a b) emptySeqI)) :pattern ((rev a b)))))
(assert (forall ((a Int) (b Int) (i Int)) (! (=> (and (<= 0 i) (< i (- b a))) (= (nthI (fwd a b) i) (at (+ a i)))) :pattern ((nthI (fwd a b) i)))))
(assert (forall ((a Int) (b Int) (i Int)) (! (=> (and (<= 0 i) (< i (- b a))) (= (nthI (rev a b) i) (at (- b (+ i 1))))) :pattern ((nthI (rev a b) i)))))
(assert (forall ((a Int) (b Int) (j Int)) (! (=> (and (<= 0 j) (<= j (- b a))) (= (takeI (fwd a b) j) (fwd a (+ a j)))) :pattern ((takeI (fwd a b) j)))))
(assert (forall ((a Int) (b Int) (j Int)) (! (=> (and (<= 0 j) (<= j (- b a))) (= (takeI (rev a b) j) (rev (- b j) b))) :pattern ((takeI (rev a b) j)))))
(assert (forall ((a Int) (b Int)) (! (=> (<= a b) (= (lenI (fwd a b)) (- b a))) :pattern ((lenI (fwd a b))))))
(assert (forall ((a Int) (b Int)) (! (=> (<= a b) (= (lenI (rev a b)) (- b a))) :pattern ((lenI (rev a b))))))
(assert (forall ((a Int) (b Int) (x Int)) (! (=> (and (<= a b) (= x (at b))) (= (snocI (fwd a b) x) (fwd a (+ b 1)))) :pattern ((snocI (fwd a b) x)))))
(assert (forall ((a Int) (b Int) (x Int)) (! (=> (and (<= a b) (= x (at (- a 1)))) (= (snocI (rev a b) x) (rev (- a 1) b))) :pattern ((snocI (rev a b) x)))))
(assert (= (lenI emptySeqI) 0))
(assert (forall ((s SeqI) (x Int) (k Int)) (! (=> (and (<= 0 k) (<= k (lenI s))) (= (takeI (snocI s x) k) (takeI s k))) :pattern ((takeI (snocI s x) k)))))
(assert (forall ((s SeqI) (k Int)) (! (=> (= k (lenI s)) (= (takeI s k) s)) :pattern ((takeI s k)))))
(assert (forall ((s SeqI) (k Int)) (! (=> (and (<= 0 k) (<= k (lenI s))) (= (lenI (takeI s k)) k)) :pattern ((takeI s k)))))
(assert (forall ((a SeqN) (b SeqN) (x Node)) (! (= (concatN a (snocN b x)) (snocN (concatN a b) x)) :pattern ((concatN a (snocN b x))))))
(assert (forall ((a SeqN)) (! (= (concatN a emptySeqN) a) :pattern ((concatN a emptySeqN)))))
(assert (forall ((m ArrS) (o Int) (n Int)) (! (=> (<= n 0) (= (seqS m o n) emptySeqS)) :pattern ((seqS m o n)))))
(assert (forall ((m ArrS) (o Int) (n Int) (k Int)) (! (=> (and (<= 0 k) (<= k n)) (= (seqS m o k) (takeS (seqS m o n) k))) :pattern ((seqS m o n) (seqS m o k)))))
`

var preludeDeclared = []string{"strlen", "rlen", "strid", "cat", "str", "chr", "at", "rat", "chrid", "fwd", "rev", "emptySeqI", "emptySeqS", "emptySeqN", "emptySeqB", "selInt", "selStr", "seqI", "seqS", "nthI", "nthS", "takeI", "takeS", "snocI", "snocS", "snocN", "snocB", "initI", "lastI", "initS", "lastS", "lenI", "lenS", "concatI", "concatS", "concatN", "concatB", "N", "isSpace", "rerrTag", "runeLen", "mgetI", "mhasI", "mputMapI"}

func NewSolver(ctx *Ctx, bin string, timeoutMS int) (*Solver, error) {
	s := &Solver{ctx: ctx, timeout: timeoutMS, bin: bin, cache: map[string]string{}, cats: map[string]*catStat{}}
	if f := os.Getenv("GOCV_SMTLOG"); f != "" {
		w, _ := os.Create(f)
		s.log = w
	}
	return s, s.start()
}

func (s *Solver) start() error {
	s.declared = map[string]bool{}
	s.defined = map[int]string{}
	s.strs = map[string]string{}
	var args []string
	prelude := smtPrelude
	if strings.Contains(s.bin, "cvc5") {
		args = []string{"--incremental", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", s.timeout)}
		prelude = "(set-logic ALL)\n" + strings.Join(strings.Split(prelude, "\n")[4:], "\n")
	} else {
		args = []string{"-in", "-smt2", fmt.Sprintf("-t:%d", s.timeout)}
	}
	cmd := exec.Command(s.bin, args...)
	in, err := cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return err
	}
	cmd.Stderr = cmd.Stdout
	if err := cmd.Start(); err != nil {
		return err
	}
	s.cmd, s.in, s.out = cmd, in, bufio.NewReaderSize(out, 1<<16)
	for _, n := range preludeDeclared {
		s.declared[n] = true
	}
	s.send(prelude)
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(x string) {
	if s.log != nil {
		io.WriteString(s.log, x)
	}
	io.WriteString(s.in, x)
}

func suffixed(t *Term) string {
	switch t.name {
	case "snoc", "concat", "take":
		srt := t.sort
		return t.name + string(srt[len(srt)-1:])
	case "upd":
		return "upd" + string(t.sort)
	case "mput":
		return "mput" + string(t.sort)
	}
	return t.name
}

// expr returns the SMT expression naming the term, emitting definitions to b.
func (s *Solver) expr(t *Term, b *strings.Builder) string {
	if n, ok := s.defined[t.id]; ok {
		return n
	}
	var r string
	compound := true
	switch t.op {
	case OpTrue:
		return "true"
	case OpFalse:
		return "false"
	case OpInt:
		if t.k < 0 {
			return fmt.Sprintf("(- %d)", -t.k)
		}
		return strconv.FormatInt(t.k, 10)
	case OpStrC:
		n := "s!" + strconv.Itoa(t.id)
		fmt.Fprintf(b, "(declare-fun |%s| () Str)\n(assert (= (strid |%s|) %d))\n(assert (= (strlen |%s|) %d))\n(assert (= (rlen |%s|) %d))\n", n, n, t.id, n, len(t.name), n, len([]rune(t.name)))
		if t.name == "" {
			fmt.Fprintf(b, "(assert (= emptyStr |%s|))\n", n)
		}
		if rs := []rune(t.name); len(rs) == 1 {
			fmt.Fprintf(b, "(assert (= (chr %d) |%s|))\n", rs[0], n)
		} else if len(rs) > 1 && len(rs) <= 3 {
			e := fmt.Sprintf("(chr %d)", rs[0])
			for _, x := range rs[1:] {
				e = fmt.Sprintf("(cat %s (chr %d))", e, x)
			}
			fmt.Fprintf(b, "(assert (= %s |%s|))\n", e, n)
		}
		r = "|" + n + "|"
		compound = false
	case OpVar:
		r = quoteSym(t.name)
		if !s.declared[t.name] {
			s.declared[t.name] = true
			fmt.Fprintf(b, "(declare-fun %s () %s)\n", r, t.sort)
		}
		compound = false
	case OpApp:
		var as []string
		for _, a := range t.args {
			as = append(as, s.expr(a, b))
		}
		nm := suffixed(t)
		if !s.declared[nm] {
			s.declared[nm] = true
			var ss []string
			for _, a := range t.args {
				ss = append(ss, string(a.sort))
			}
			fmt.Fprintf(b, "(declare-fun %s (%s) %s)\n", quoteSym(nm), strings.Join(ss, " "), t.sort)
			if strings.HasPrefix(nm, "val!") && len(as) == 1 {
				// no node at the nil reference
				if !s.declared["nilnode"] {
					s.declared["nilnode"] = true
					fmt.Fprintf(b, "(declare-fun |nilnode| () %s)\n", t.sort)
				}
				fmt.Fprintf(b, "(assert (= (%s 0) |nilnode|))\n", quoteSym(nm))
			}
			if strings.HasPrefix(nm, "mapval!") && len(as) == 1 {
				vn := "val!" + nm[len("mapval!"):]
				s.expr(s.ctx.rawApp(vn, SNode, s.ctx.Int(1)), b)
				fmt.Fprintf(b, "(assert (= (%s emptySeqI) emptySeqN))\n", quoteSym(nm))
				fmt.Fprintf(b, "(assert (forall ((s SeqI) (x Int)) (! (= (%[1]s (snocI s x)) (snocN (%[1]s s) (%[2]s x))) :pattern ((%[1]s (snocI s x))))))\n", quoteSym(nm), quoteSym(vn))
				fmt.Fprintf(b, "(assert (forall ((m ArrI) (o Int) (n Int) (k Int)) (! (=> (and (= n (+ k 1)) (>= k 0)) (= (%[1]s (seqI m o n)) (snocN (%[1]s (seqI m o k)) (%[2]s (selInt m (+ o k)))))) :pattern ((%[1]s (seqI m o k)) (%[1]s (seqI m o n))))))\n", quoteSym(nm), quoteSym(vn))
			}
		}
		if len(as) == 0 {
			r = quoteSym(nm)
			compound = false
		} else {
			r = "(" + quoteSym(nm) + " " + strings.Join(as, " ") + ")"
		}
	case OpLin:
		var as []string
		for i, a := range t.args {
			e := s.expr(a, b)
			switch {
			case t.co[i] == 1:
			case t.co[i] < 0:
				e = fmt.Sprintf("(* (- %d) %s)", -t.co[i], e)
			default:
				e = fmt.Sprintf("(* %d %s)", t.co[i], e)
			}
			as = append(as, e)
		}
		if t.k < 0 {
			as = append(as, fmt.Sprintf("(- %d)", -t.k))
		} else if t.k > 0 {
			as = append(as, strconv.FormatInt(t.k, 10))
		}
		if len(as) == 1 {
			r = as[0]
		} else {
			r = "(+ " + strings.Join(as, " ") + ")"
		}
	case OpEq0:
		r = "(= " + s.expr(t.args[0], b) + " 0)"
	case OpGe0:
		r = "(>= " + s.expr(t.args[0], b) + " 0)"
	default:
		var as []string
		for _, a := range t.args {
			as = append(as, s.expr(a, b))
		}
		nm := map[Op]string{OpIte: "ite", OpEq: "=", OpNot: "not", OpAnd: "and", OpOr: "or"}[t.op]
		r = "(" + nm + " " + strings.Join(as, " ") + ")"
	}
	if compound {
		n := "t!" + strconv.Itoa(t.id)
		fmt.Fprintf(b, "(define-fun |%s| () %s %s)\n", n, t.sort, r)
		r = "|" + n + "|"
	}
	s.defined[t.id] = r
	return r
}

// CheckModel looks for a model of the facts in which some goal is false, and tells which are false in it.
// The result is "unsat" if all the goals follow.
func (s *Solver) CheckModel(fs, goals []*Term) (string, []bool) {
	if s.log != nil || strings.Contains(s.bin, "cvc5") {
		return s.Check(append(append([]*Term(nil), fs...), s.ctx.Not(s.ctx.And(goals...)))), nil
	}
	var b strings.Builder
	var gs []string
	for _, g := range goals {
		gs = append(gs, s.expr(g, &b))
	}
	s.wantVals = gs
	defer func() { s.wantVals = nil }()
	s.send(b.String())
	s.vals = nil
	r := s.Check(append(append([]*Term(nil), fs...), s.ctx.Not(s.ctx.And(goals...))))
	if r == "unsat" || len(s.vals) != len(goals) {
		return r, nil
	}
	return r, s.vals
}

// Check checks the satisfiability of the conjunction.
func (s *Solver) Check(fs []*Term) string {
	ids := make([]int, 0, len(fs))
	for _, f := range fs {
		if f == s.ctx.False {
			return "unsat"
		}
		ids = append(ids, f.id)
	}
	key := fmt.Sprint(ids)
	if r, ok := s.cache[key]; ok && (s.wantVals == nil || r == "unsat") {
		return r
	}
	t0 := time.Now()
	r := ""
	if os.Getenv("GOCV_QT") != "" {
		defer func() { fmt.Println("QT", s.cat, len(fs), time.Since(t0).Milliseconds(), r) }()
	}
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if s.cats != nil {
			k := s.cats[s.cat]
			if k == nil {
				k = &catStat{}
				s.cats[s.cat] = k
			}
			k.n++
			k.t += d
			if r == "unsat" {
				k.unsat++
			}
		}
	}()
	s.Queries++
	var b strings.Builder
	var es []string
	for _, f := range fs {
		es = append(es, s.expr(f, &b))
	}
	b.WriteString("(push)\n")
	for _, e := range es {
		b.WriteString("(assert " + e + ")\n")
	}
	b.WriteString("(check-sat)\n")
	if s.wantVals == nil {
		b.WriteString("(pop)\n")
	} else {
		b.WriteString("(echo \"done\")\n")
	}
	s.send(b.String())
	type res struct {
		l   string
		err error
	}
	ch := make(chan res, 1)
	go func() {
		l, err := s.out.ReadString('\n')
		ch <- res{l, err}
	}()
	select {
	case x := <-ch:
		r = strings.TrimSpace(x.l)
		if x.err != nil {
			r = "unknown"
			s.Close()
			s.start()
		}
	case <-time.After(time.Duration(s.timeout)*time.Millisecond*2 + 5*time.Second):
		r = "unknown"
		s.Close()
		<-ch
		s.start()
	}
	if s.wantVals != nil {
		if l, err := s.out.ReadString('\n'); err != nil || strings.TrimSpace(l) != "done" {
			s.Close()
			s.start()
		} else if r == "sat" || r == "unknown" {
			s.send("(get-value (" + strings.Join(s.wantVals, " ") + "))\n(pop)\n(echo \"done\")\n")
			var out strings.Builder
			for {
				l, err := s.out.ReadString('\n')
				if err != nil {
					s.Close()
					s.start()
					break
				}
				if strings.TrimSpace(l) == "done" {
					break
				}
				out.WriteString(l)
			}
			// ((g v) (g v) ...)
			o := out.String()
			if !strings.Contains(o, "error") {
				for _, f := range strings.FieldsFunc(o, func(r rune) bool { return r == '(' || r == ')' || r == '\n' }) {
					f = strings.TrimSpace(f)
					switch {
					case strings.HasSuffix(f, " true"):
						s.vals = append(s.vals, true)
					case strings.HasSuffix(f, " false"):
						s.vals = append(s.vals, false)
					}
				}
			}
		} else {
			s.send("(pop)\n")
		}
	}
	switch r {
	case "sat", "unsat", "unknown", "timeout":
	default:
		if strings.HasPrefix(r, "(error") {
			panic("solver: " + r)
		}
		r = "unknown"
	}
	s.cache[key] = r
	s.cache[key] = r
	return r
}
