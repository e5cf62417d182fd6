package main

import (
	"os"
	"strings"
)

var debugProve = os.Getenv("GOCV_PROVE") != ""

// prove decides a goal in a state: by simplification, unfolding of the specification functions, case splits and the solver.
func (E *Exec) prove(s *State, g *Term) (bool, string) { return E.proveLim(s, g, 200) }

func (E *Exec) proveLim(s *State, g *Term, limit int) (bool, string) {
	key := [2]int{0, g.id}
	if s.Facts != nil {
		key[0] = s.Facts.f.id*1000 + s.Facts.n
	}
	by := "simplifier"
	p := &prover{E: E, by: &by, limit: limit}
	n := s.Clone()
	p.orient(n)
	ok := p.prove(n, g, 0, 3)
	if os.Getenv("GOCV_STATS") != "" {
		E.stats["prove."+by]++
	}
	_ = key
	return ok, by
}

type prover struct {
	E     *Exec
	by    *string
	calls int
	limit int
}

// orient rewrites specification applications by the equations among the facts, older to newer.
func (p *prover) orient(s *State) {
	E := p.E
	isLeaf := func(t *Term) bool {
		if t.op != OpApp {
			return false
		}
		_, ok := E.leafOf[t.name]
		return ok
	}
	add := func(a, b *Term) {
		a, b = s.Simp(a), s.Simp(b)
		if a == b {
			return
		}
		if isLeaf(a) && isLeaf(b) && a.name == b.name {
			if a.id > b.id {
				a, b = b, a
			}
			if _, ok := s.subst[a.id]; !ok && !occursVar(a, b, map[int]bool{}) {
				s.subst[a.id] = b
				s.memo = map[int]*Term{}
			}
		}
	}
	for f := s.Facts; f != nil; f = f.prev {
		switch f.f.op {
		case OpEq:
			add(f.f.args[0], f.f.args[1])
		case OpEq0:
			l := toLin(f.f.args[0])
			if len(l.ts) == 2 && l.k == 0 && l.co[0] == -l.co[1] {
				add(l.ts[0], l.ts[1])
			}
		}
	}
	s.memo = map[int]*Term{}
}

func (p *prover) solve(s *State, g *Term, depth, fuel int) bool {
	E := p.E
	if p.limit == 200 {
		defer E.setCat("solve-obl-" + itoa(depth))()
	} else {
		defer E.setCat("solve-cand-" + itoa(depth))()
	}
	facts := E.relevant(s, g)
	if few := E.near(facts, []*Term{g}, 2); len(few) < len(facts)*3/4 {
		if E.solver.Check(append(few, E.C.Not(g))) == "unsat" {
			*p.by = E.solver.bin
			return true
		}
		if depth == 0 && fuel == 3 {
			return false
		}
	}
	r := E.solver.Check(append(facts, E.C.Not(g)))
	if r == "unsat" {
		*p.by = E.solver.bin
		return true
	}
	return false
}

// relevant are the facts, simplified.
func (E *Exec) relevant(s *State, g *Term) []*Term {
	return s.FactSlice()
}

func (p *prover) prove(s *State, g *Term, depth, fuel int) bool {
	E := p.E
	c := E.C
	if s.Dead {
		return true
	}
	g = s.Simp(g)
	if g == c.True {
		return true
	}
	if g == c.False {
		return p.solve(s, g, depth, fuel)
	}
	if g.op == OpAnd {
		for _, a := range g.args {
			if !p.prove(s, a, depth, fuel) {
				return false
			}
		}
		return true
	}
	p.calls++
	if p.calls > p.limit {
		return false
	}
	if g.op == OpOr {
		// prove the last disjunct under the negation of the others
		n := s.Clone()
		var main *Term
		var size int
		for _, a := range g.args {
			if sz := weight(a); main == nil || sz >= size {
				main, size = a, sz
			}
		}
		simple := true
		for _, a := range g.args {
			if a != main {
				n.Assume(c.Not(a))
			}
		}
		if simple {
			p.orient(n)
			g2 := n.Simp(main)
			if n.Dead {
				return true
			}
			if g2.op != OpOr {
				return p.prove(n, g2, depth, fuel)
			}
			s, g = n, g2
		}
	}
	if depth == 0 && fuel == 3 {
		if p.solve(s, g, depth, fuel) {
			return true
		}
		if p.cong(s, g, 10, false) || p.cong(s, g, 4, true) {
			return true
		}
		for lv := 1; lv <= 3 && E.bulkOK && (lv < 3 || p.limit >= 150); lv++ {
			if lv > 1 && p.bulk(s, g, lv, true) {
				return true
			}
			if p.bulk(s, g, lv, false) {
				return true
			}
		}
		for lv := 4; lv <= 6 && E.bulkOK && p.limit == 200; lv++ {
			if p.bulk(s, g, lv, true) {
				return true
			}
		}
	}
	// boolean equality and conditionals: split
	if g.op == OpIte {
		return p.split(s, g, g.args[0], depth, fuel)
	}
	if g.op == OpEq && g.args[0].sort == SBool {
		return p.split(s, g, pickBool(g), depth, fuel)
	}
	if cnd := firstIte(g); cnd != nil && depth < 14 {
		return p.split(s, g, cnd, depth, fuel)
	}
	if !(depth == 0 && fuel == 3) && p.solve(s, g, depth, fuel) {
		return true
	}
	if fuel > 0 {
		ng := p.unfold(s, g)
		if ng != g {
			if p.prove(s, ng, depth, fuel-1) {
				return true
			}
		}
		// unfold in the facts
		if fuel == 3 || fuel == 2 {
			n := s.Clone()
			if p.unfoldFacts(n, g) {
				if n.Dead {
					return true
				}
				p.orient(n)
				return p.prove(n, g, depth, fuel-2)
			}
		}
	}
	if debugProve {
		println("unproved:", g.str(6))
		if fl := os.Getenv("GOCV_FACTS"); fl != "" && depth == 0 || fl == "all" {
			for f := s.Facts; f != nil; f = f.prev {
				println("  fact", f.n, f.f.str(6))
			}
		}
	}
	return false
}

// bulk asks the solver with the definitions of the specification functions that the facts and the goal mention, to a depth.
// With goal only those that the goal mentions are unfolded.
func (p *prover) bulk(s *State, g *Term, levels int, goal bool) bool {
	E := p.E
	ev := &Eval{E: E, St: s}
	seen := map[int]bool{}
	facts := E.relevant(s, g)
	work := []*Term{E.C.Not(g)}
	if !goal {
		work = append(work, facts...)
	}
	out := append([]*Term{}, facts...)
	n := 0
	for l := 0; l < levels; l++ {
		var next []*Term
		for _, f := range work {
			for _, a := range leavesOf(E, f) {
				if seen[a.id] || n > 80*min(levels, 3) {
					continue
				}
				seen[a.id] = true
				d := ev.unfold(a)
				if d == nil || weight(d) > 600 {
					if debugProve && d != nil {
						println("heavy", a.str(3), weight(d))
					}
					continue
				}
				n++
				if debugProve {
					println("   leaf", l, a.str(4))
				}
				eq := E.C.Eq(a, d)
				out = append(out, eq)
				next = append(next, d)
				if goal {
					next = append(next, a.args...)
				}
			}
		}
		if len(next) == 0 && l > 0 {
			return false
		}
		work = next
	}
	out = append(out, E.C.Not(g))
	defer E.setCat("bulk")()
	r := E.solver.Check(out)
	if r == "unsat" {
		*p.by = E.solver.bin
		return true
	}
	if debugProve {
		println("bulk", levels, n, len(out), r)
	}
	return false
}

func pickBool(g *Term) *Term {
	a, b := g.args[0], g.args[1]
	if weight(a) <= weight(b) {
		return a
	}
	return b
}

func (p *prover) split(s *State, g, cond *Term, depth, fuel int) bool {
	c := p.E.C
	for cond.op == OpAnd || cond.op == OpOr || cond.op == OpNot {
		cond = cond.args[0]
	}
	if cond.op == OpIte {
		cond = cond.args[0]
		return p.split(s, g, cond, depth, fuel)
	}
	if cond.op == OpEq && cond.args[0].sort == SBool {
		return p.split(s, g, pickBool(cond), depth, fuel)
	}
	a, b := s.Clone(), s.Clone()
	a.Assume(cond)
	b.Assume(c.Not(cond))
	if depth > 3 {
		if !a.Dead && p.E.infeasible(a) {
			a.Dead = true
		}
		if !b.Dead && p.E.infeasible(b) {
			b.Dead = true
		}
	}
	if !a.Dead && !p.prove(a, g, depth+1, fuel) {
		return false
	}
	return b.Dead || p.prove(b, g, depth+1, fuel)
}

func weight(t *Term) int {
	seen := map[int]bool{}
	var w func(t *Term) int
	w = func(t *Term) int {
		if seen[t.id] {
			return 0
		}
		seen[t.id] = true
		n := 1
		for _, a := range t.args {
			n += w(a)
		}
		return n
	}
	return w(t)
}

// firstIte finds the condition of a conditional inside a term.
func firstIte(t *Term) *Term {
	seen := map[int]bool{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if seen[t.id] {
			return nil
		}
		seen[t.id] = true
		if t.op == OpIte {
			if c := f(t.args[0]); c != nil {
				return c
			}
			return t.args[0]
		}
		for _, a := range t.args {
			if c := f(a); c != nil {
				return c
			}
		}
		return nil
	}
	return f(t)
}

// unfold replaces the outermost specification applications of a goal by their definitions.
func (p *prover) unfold(s *State, g *Term) *Term {
	E := p.E
	c := E.C
	ev := &Eval{E: E, St: s}
	memo := map[int]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := memo[t.id]; ok {
			return r
		}
		var r *Term
		if t.op == OpApp {
			if E.unfoldable(t) {
				r = ev.unfold(t)
				if r == nil {
					r = t
				}
				memo[t.id] = r
				return r
			}
		}
		if len(t.args) == 0 {
			r = t
		} else {
			as := make([]*Term, len(t.args))
			for i, a := range t.args {
				as[i] = f(a)
			}
			if t.op == OpIte {
				r = c.Ite(as[0], as[1], as[2])
			} else {
				r = c.Rebuild(t, as)
			}
		}
		memo[t.id] = r
		return r
	}
	return s.Simp(f(g))
}

// unfoldFacts adds the unfolded form of the facts that mention specification applications.
func (p *prover) unfoldFacts(s *State, g *Term) bool {
	E := p.E
	var todo []*Term
	n := 0
	for f := s.Facts; f != nil; f = f.prev {
		if mentionsLeaf(E, f.f) {
			todo = append(todo, f.f)
			n++
			if n > 40 {
				break
			}
		}
	}
	changed := false
	for _, f := range todo {
		// without the fact itself the definition is what is learnt
		for _, a := range leavesOf(E, f) {
			ev := &Eval{E: E, St: s}
			d := ev.unfold(a)
			if d == nil || weight(d) > 400 {
				continue
			}
			v := f
			_ = v
			// a == definition, with a's value from the facts
			var eq *Term
			if av := s.Simp(a); av.sort == SBool {
				if av == E.C.True {
					eq = d
				} else if av == E.C.False {
					eq = E.C.Not(d)
				} else {
					eq = E.C.Eq(a, d)
				}
			} else {
				eq = E.C.Eq(av, d)
			}
			before := s.Facts
			s.Assume(eq)
			if s.Facts != before {
				changed = true
			}
			if s.Dead {
				return true
			}
		}
	}
	return changed
}

func mentionsLeaf(E *Exec, t *Term) bool { return len(leavesOf(E, t)) > 0 }

func leavesOf(E *Exec, t *Term) []*Term {
	var out []*Term
	seen := map[int]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == OpApp {
			if E.unfoldable(t) {
				out = append(out, t)
				return
			}
		}
		for _, a := range t.args {
			f(a)
		}
	}
	f(t)
	return out
}

// infeasible asks the solver whether a path can be taken. The answer no is only used to prune.
func (E *Exec) infeasible(s *State) bool {
	if s.Dead {
		return true
	}
	if !E.prune || E.quick > 0 || E.muted > 0 && len(s.Trail) < 40 {
		return false
	}
	defer E.setCat("infeasible")()
	return E.solver.Check(s.FactSlice()) == "unsat"
}

func hasPrefixAny(s string, ps ...string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

func (E *Exec) setCat(c string) func() {
	if E.solver == nil {
		return func() {}
	}
	o := E.solver.cat
	E.solver.cat = c
	if o != "" && E.catDeep {
		E.solver.cat = o + "/" + c
	}
	return func() { E.solver.cat = o }
}

// unfoldable: the term is an application of a specification function whose definition is of use: above the lexer,
// the definitions of the tokens are not.
func (E *Exec) unfoldable(t *Term) bool {
	lr, ok := E.leafOf[t.name]
	if !ok || !E.abstract {
		return ok
	}
	pkg := shortPkg(lr.sf.Pkg.Types)
	return pkg != "scanner" && (pkg != "lexer" || E.contract.Abstract)
}

var noBulk = os.Getenv("GOCV_NOBULK") != ""
