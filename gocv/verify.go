package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

type tpos = token.Pos

// Result of verifying one function.
type Result struct {
	Func    string
	Obls    []*Obligation
	Paths   int
	Steps   int
	Millis  int64
	Solver  int64
	Queries int
	Err     string
	Vacuous bool
	Exts    []string
	Stats   string
	Hints   map[string]map[string]bool
	Misses  int // loops whose invariants had to be searched
}

type Options struct {
	Tags    func(tag string) bool
	Timeout time.Duration
	Trace   bool
	Bin     string
	QueryMS int
}

// Verify checks one function against its contract: with few unfoldings first, then with more of them.
func (P *Program) Verify(ct *Contract, o Options) *Result {
	if P.Hints["bulk:"+FuncName(ct.Fn)] != nil || os.Getenv("GOCV_BULK") != "" {
		res := P.verifyOnce(ct, o, true)
		res.bulk()
		return res
	}
	o1 := o
	o1.Timeout = o.Timeout / 3
	res := P.verifyOnce(ct, o1, false)
	if res.good() || noBulk {
		return res
	}
	o1.Timeout = o.Timeout - time.Duration(res.Millis)*time.Millisecond
	r2 := P.verifyOnce(ct, o1, true)
	r2.Millis += res.Millis
	r2.Solver += res.Solver
	r2.Queries += res.Queries
	if r2.good() {
		r2.bulk()
		r2.Misses++
	}
	return r2
}

func (r *Result) good() bool {
	if r.Err != "" {
		return false
	}
	for _, o := range r.Obls {
		if o.Status != "proved" {
			return false
		}
	}
	return true
}

// bulk notes that the function needs the unfoldings in bulk.
func (r *Result) bulk() {
	if r.Hints == nil {
		r.Hints = map[string]map[string]bool{}
	}
	r.Hints["bulk:"+r.Func] = map[string]bool{"": true}
}

func (P *Program) verifyOnce(ct *Contract, o Options, bulk bool) (res *Result) {
	t0 := time.Now()
	E := NewExec(P)
	E.root = ct.Fn
	E.contract = ct
	E.abstract = ct != nil && (ct.Abstract || !ct.Concrete && hasPrefixAny(FuncName(ct.Fn), "parser.", "protoparser.", "interpret"))
	E.wantTags = o.Tags
	E.trace = o.Trace
	E.deadline = t0.Add(o.Timeout)
	E.recScc = P.sccs()
	E.prune = true
	E.bulkOK = bulk
	res = &Result{Func: FuncName(ct.Fn)}
	sv, err := NewSolver(E.C, o.Bin, o.QueryMS)
	if err != nil {
		res.Err = err.Error()
		return
	}
	E.solver = sv
	defer func() {
		res.Millis = time.Since(t0).Milliseconds()
		res.Solver = sv.Time.Milliseconds()
		res.Queries = sv.Queries
		res.Steps = E.steps
		res.Obls = E.oblOrder
		res.Hints = E.newHints
		res.Misses = E.hintMiss
		for x := range E.externals {
			res.Exts = append(res.Exts, x)
		}
		sort.Strings(res.Exts)
		for k, x := range sv.cats {
			res.Stats += fmt.Sprintf("[%s: %d queries, %d unsat, %v] ", k, x.n, x.unsat, x.t.Round(time.Millisecond))
		}
		sv.Close()
	}()
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case unsupported:
				res.Err = "unsupported: " + r.msg
			case budgetExceeded:
				res.Err = "time budget exceeded"
			default:
				res.Err = fmt.Sprintf("internal error: %v", r)
				if os.Getenv("GOCV_STACK") != "" {
					debug.PrintStack()
				}
			}
		}
	}()
	E.verify(res)
	return
}

func (E *Exec) verify(res *Result) {
	c := E.C
	ct := E.contract
	s := E.newState()
	pts, rts := paramTypes(ct.Fn)
	for i, p := range ct.Fn.Params {
		var v Vec
		for _, l := range Leaves(pts[i]) {
			v = append(v, c.Var("in."+p.Name()+l.Path, l.Sort))
		}
		s.knownVec(v, pts[i])
		E.params = append(E.params, v)
	}
	var vals []SV
	for i, t := range pts {
		vals = append(vals, SVec{s.asVec(E.params[i]), t})
	}
	for _, t := range rts {
		vals = append(vals, SVec{E.zeroVec(t), t})
	}
	type stop struct{}
	evalPre := func(st *State, vals []SV, h *contractHook) {
		ev := &Eval{E: E, St: st, Pkg: ct.Pkg, Env: contractEnv(ct, vals), hook: h}
		sig := ct.Pkg.TypesInfo.Defs[ct.Decl.Name].(*types.Func).Type().(*types.Signature)
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stop); !ok {
					panic(r)
				}
			}
		}()
		ev.stmts(ct.Decl.Body.List, nil, sig)
	}
	evalPre(s, vals, &contractHook{
		requires: func(tag string, t *Term, _ tpos) { s.Assume(t) },
		modifies: func(l []modLoc) {
			for _, m := range l {
				if m.ref != nil {
					m.ref = s.Simp(m.ref)
				}
				E.rootMods = append(E.rootMods, m)
			}
		},
		post:    func(*Eval) { panic(stop{}) },
		measure: func(ts []*Term) { E.measure = ts },
	})
	if s.Dead || E.solver.Check(s.FactSlice()) == "unsat" {
		res.Vacuous = true
		res.Err = "the precondition is contradictory"
		return
	}
	E.entry = s.Clone()
	args := make([]Val, len(E.params))
	copy(args, E.params)
	E.pushFrame(s, FuncVal{Fn: ct.Fn}, args, nil)
	s.jumped = true
	out := &outcome{}
	E.explore([]*State{s}, nil, out)
	res.Paths = len(out.rets)
	reach := len(out.rets) == 0
	for _, r := range out.rets {
		if !reach && !r.Dead && E.solver.Check(r.FactSlice()) != "unsat" {
			reach = true
		}
		E.checkReturn(r, pts, rts)
	}
	if !reach {
		res.Vacuous = true
		res.Err = "no return is reachable"
	}
}

// checkLemmaOrder makes sure that lemmas only use lemmas before them.
func (P *Program) checkLemmaOrder() error {
	for _, sf := range P.SpecFns {
		if !sf.Lemma || sf.Decl.Body == nil {
			continue
		}
		var err error
		ast.Inspect(sf.Decl.Body, func(n ast.Node) bool {
			id, ok := n.(*ast.Ident)
			if !ok {
				return true
			}
			f, ok := sf.Pkg.TypesInfo.Uses[id].(*types.Func)
			if !ok || P.SpecFns[f] == nil || !P.SpecFns[f].Lemma || f == sf.Obj && sf.Induction != "" {
				return true
			}
			a, b := P.Fset.Position(f.Pos()), P.Fset.Position(sf.Decl.Pos())
			if f.Pkg() == sf.Obj.Pkg() && (a.Filename != b.Filename || a.Offset >= b.Offset) {
				err = fmt.Errorf("lemma %s uses %s, which is not before it", sf.Name, f.Name())
			}
			return true
		})
		if err != nil {
			return err
		}
	}
	return nil
}

func (E *Exec) checkReturn(r *State, pts, rts []types.Type) {
	E.tick()
	if time.Now().After(E.deadline) {
		panic(budgetExceeded{})
	}
	ct := E.contract
	c := E.C
	r.sealAll()
	var vals []SV
	for i, t := range pts {
		vals = append(vals, SVec{r.asVec(E.params[i]), t})
	}
	var rv Vec
	if vs, ok := r.result.([]Val); ok {
		for _, v := range vs {
			rv = append(rv, r.asVec(v)...)
		}
	} else {
		rv = r.asVec(r.result)
	}
	for _, t := range rts {
		n := len(Leaves(t))
		vals = append(vals, SVec{rv[:n], t})
		rv = rv[n:]
	}
	pre := r.Clone()
	pre.Heap = E.entry.Heap
	pre.Alloc = E.entry.Alloc
	pre.Stamp = E.entry.Stamp
	ev := &Eval{E: E, St: pre, Pkg: ct.Pkg, Env: contractEnv(ct, vals), reveals: true, uses: true, preAlloc: E.Alloc0}
	ev.hook = &contractHook{
		requires: func(string, *Term, tpos) {},
		modifies: func([]modLoc) {},
		post:     func(e *Eval) { e.St = r },
		ensures: func(tag string, t *Term, p tpos) {
			E.oblige(r, tag, "postcondition", p, t, "")
		},
		fresh: func(v SV, cond *Term, p tpos) {
			x := v.(SVec)
			ref := x.T[0]
			if _, ok := x.Typ.Underlying().(*types.Interface); ok {
				ref = x.T[1]
			}
			E.oblige(r, "", "fresh result", p, c.Or(c.Not(cond), c.Eq(ref, c.Int(0)), c.Gt(ref, E.Alloc0)), "")
			for _, arr := range r.heldArrays(x) {
				E.oblige(r, "", "fresh slice of a result", p, c.Or(c.Not(cond), c.Eq(ref, c.Int(0)), c.Eq(arr, c.Int(0)), c.Gt(arr, E.Alloc0)), "")
			}
		},
	}
	ev.stmts(ct.Decl.Body.List, nil, ct.Pkg.TypesInfo.Defs[ct.Decl.Name].(*types.Func).Type().(*types.Signature))
}

// sccs numbers the recursive groups of functions with 1, 2, ...; 0 means not recursive.
func (P *Program) sccs() map[*ssa.Function]int {
	P.sccOnce.Do(func() {
		idx := map[*ssa.Function]int{}
		low := map[*ssa.Function]int{}
		on := map[*ssa.Function]bool{}
		var st []*ssa.Function
		n, grp := 0, 0
		P.scc = map[*ssa.Function]int{}
		callees := func(f *ssa.Function) []*ssa.Function {
			var r []*ssa.Function
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						switch x := (*op).(type) {
						case *ssa.Function:
							r = append(r, x)
						case *ssa.MakeClosure:
							r = append(r, x.Fn.(*ssa.Function))
						}
					}
				}
			}
			return append(r, f.AnonFuncs...)
		}
		var visit func(f *ssa.Function)
		visit = func(f *ssa.Function) {
			n++
			idx[f], low[f] = n, n
			st = append(st, f)
			on[f] = true
			for _, g := range callees(f) {
				if g.Blocks == nil {
					continue
				}
				if idx[g] == 0 {
					visit(g)
					low[f] = min(low[f], low[g])
				} else if on[g] {
					low[f] = min(low[f], idx[g])
				}
			}
			if low[f] == idx[f] {
				var comp []*ssa.Function
				for {
					g := st[len(st)-1]
					st = st[:len(st)-1]
					on[g] = false
					comp = append(comp, g)
					if g == f {
						break
					}
				}
				rec := len(comp) > 1
				for _, g := range callees(f) {
					if g == f {
						rec = true
					}
				}
				if rec {
					grp++
					for _, g := range comp {
						P.scc[g] = grp
					}
				}
			}
		}
		for _, f := range P.sortedFuncs() {
			if idx[f] == 0 {
				visit(f)
			}
		}
	})
	return P.scc
}

// VerifyLemma proves a lemma about specification functions, by induction when it names a parameter.
func (P *Program) VerifyLemma(sf *SpecFn, o Options) (res *Result) {
	t0 := time.Now()
	E := NewExec(P)
	E.deadline = t0.Add(o.Timeout)
	E.trace = o.Trace
	E.bulkOK = !noBulk
	E.lemma = sf
	E.rootName = sf.Name
	res = &Result{Func: sf.Name}
	sv, err := NewSolver(E.C, o.Bin, o.QueryMS)
	if err != nil {
		res.Err = err.Error()
		return
	}
	E.solver = sv
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case unsupported:
				res.Err = "unsupported: " + r.msg
			default:
				res.Err = fmt.Sprintf("internal error: %v", r)
				if os.Getenv("GOCV_STACK") != "" {
					debug.PrintStack()
				}
			}
		}
		res.Millis = time.Since(t0).Milliseconds()
		res.Solver = sv.Time.Milliseconds()
		res.Queries = sv.Queries
		res.Obls = E.oblOrder
		res.Hints = E.newHints
		res.Misses = E.hintMiss
		sv.Close()
	}()
	c := E.C
	s := E.newState()
	mk := func(dec string) *Eval {
		ev := &Eval{E: E, St: s, Pkg: sf.Pkg, Env: map[types.Object]SV{}, uses: true}
		sig := sf.sig()
		for i := 0; i < sig.Params().Len(); i++ {
			p := sig.Params().At(i)
			var ts []*Term
			for _, l := range P.specLeaves(p.Type()) {
				t := c.Var("in."+p.Name()+l.Path, l.Sort)
				if p.Name() == dec {
					t = c.AddK(t, -1)
				}
				ts = append(ts, t)
			}
			ev.Env[p], _ = ev.unflatten(ts, p.Type())
		}
		return ev
	}
	sig := sf.sig()
	body := func(ev *Eval) *Term {
		r := ev.stmts(sf.Decl.Body.List, []types.Type{types.Typ[types.Bool]}, sig)
		return r[0].(SVec).T[0]
	}
	if sf.Induction != "" {
		ind := mk(sf.Induction)
		ind.uses = false
		s.Assume(c.Or(c.Ge(c.Int(0), c.Var("in."+sf.Induction, SInt)), body(ind)))
	}
	g := body(mk(""))
	E.oblige(s, "", "lemma", sf.Decl.Pos(), g, "")
	return
}
