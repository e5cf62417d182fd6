package main

import (
	"sort"
	"strconv"
	"strings"
)

// A congruence closure over the facts of a path. It only chooses which definitions of specification functions
// to hand to the solver (those that the goal really mentions, on the branches that the path takes);
// the solver decides.

type egraph struct {
	E      *Exec
	par    map[int]int
	val    map[int]*Term // constant of a class
	mem    map[int][]*Term
	terms  []*Term
	have   map[int]bool
	dirty  bool
	broken bool
	base   map[int]bool
}

func newEgraph(E *Exec) *egraph {
	g := &egraph{E: E, par: map[int]int{}, val: map[int]*Term{}, mem: map[int][]*Term{}, have: map[int]bool{}, base: map[int]bool{}}
	g.add(E.C.True)
	g.add(E.C.False)
	return g
}

func (g *egraph) add(t *Term) {
	if g.have[t.id] {
		return
	}
	g.have[t.id] = true
	for _, a := range t.args {
		g.add(a)
	}
	g.par[t.id] = t.id
	g.mem[t.id] = []*Term{t}
	if t.op == OpInt || t.op == OpStrC || t.op == OpTrue || t.op == OpFalse {
		g.val[t.id] = t
	}
	g.terms = append(g.terms, t)
	g.dirty = true
}

func (g *egraph) find(id int) int {
	for g.par[id] != id {
		g.par[id] = g.par[g.par[id]]
		id = g.par[id]
	}
	return id
}

func (g *egraph) union(a, b *Term) {
	g.add(a)
	g.add(b)
	x, y := g.find(a.id), g.find(b.id)
	if x == y {
		return
	}
	if len(g.mem[x]) < len(g.mem[y]) {
		x, y = y, x
	}
	g.par[y] = x
	g.mem[x] = append(g.mem[x], g.mem[y]...)
	delete(g.mem, y)
	if v := g.val[y]; v != nil {
		if w := g.val[x]; w != nil && w != v {
			g.broken = true
		}
		g.val[x] = v
	}
	g.dirty = true
}

func (g *egraph) valOf(t *Term) *Term {
	if !g.have[t.id] {
		return nil
	}
	return g.val[g.find(t.id)]
}

func (g *egraph) assume(f *Term) {
	g.add(f)
	g.union(f, g.E.C.True)
}

func (g *egraph) close() {
	c := g.E.C
	for rounds := 0; g.dirty && rounds < 30 && !g.broken; rounds++ {
		g.dirty = false
		sig := map[string]*Term{}
		for i := 0; i < len(g.terms); i++ {
			t := g.terms[i]
			v := g.valOf(t)
			switch t.op {
			case OpNot:
				a := t.args[0]
				if v != nil {
					g.union(a, c.Not(v))
				} else if w := g.valOf(a); w != nil {
					g.union(t, c.Not(w))
				}
				continue
			case OpAnd, OpOr:
				unit, other := c.True, c.False
				if t.op == OpOr {
					unit, other = other, unit
				}
				if v == unit {
					for _, a := range t.args {
						g.union(a, unit)
					}
				}
				var open []*Term
				dec := false
				for _, a := range t.args {
					switch g.valOf(a) {
					case other:
						dec = true
					case unit:
					default:
						open = append(open, a)
					}
				}
				switch {
				case dec:
					g.union(t, other)
				case len(open) == 0:
					g.union(t, unit)
				case len(open) == 1 && v == other:
					g.union(open[0], other)
				case len(open) == 1:
					g.union(t, open[0])
				default:
					// a and b is the opposite of not a or not b
					var ls []int
					for _, a := range open {
						neg := 0
						if t.op == OpOr {
							neg = 1
						}
						for a.op == OpNot {
							a, neg = a.args[0], 1-neg
						}
						ls = append(ls, 2*g.find(a.id)+neg)
					}
					sort.Ints(ls)
					b := []byte{byte(OpAnd)}
					for _, x := range ls {
						b = append(b, ' ')
						b = strconv.AppendInt(b, int64(x), 10)
					}
					o := sig[string(b)]
					switch {
					case o == nil:
						sig[string(b)] = t
					case o.op == t.op:
						g.union(o, t)
					default:
						if w := g.valOf(o); w != nil {
							g.union(t, c.Not(w))
						} else if v != nil {
							g.union(o, c.Not(v))
						}
					}
				}
				continue
			case OpIte:
				switch g.valOf(t.args[0]) {
				case c.True:
					g.union(t, t.args[1])
				case c.False:
					g.union(t, t.args[2])
				default:
					if g.find(t.args[1].id) == g.find(t.args[2].id) {
						g.union(t, t.args[1])
					}
				}
			case OpEq:
				a, b := t.args[0], t.args[1]
				if v == c.True {
					g.union(a, b)
				} else if g.find(a.id) == g.find(b.id) {
					g.union(t, c.True)
				} else if x, y := g.valOf(a), g.valOf(b); x != nil && y != nil && x != y {
					g.union(t, c.False)
				} else if v == c.False && a.sort == SBool {
					if x != nil {
						g.union(b, c.Not(x))
					} else if y != nil {
						g.union(a, c.Not(y))
					}
				}
				continue
			case OpEq0, OpGe0:
				l := toLin(t.args[0])
				k, open := l.k, -1
				for j, a := range l.ts {
					if x := g.valOf(a); x != nil && x.op == OpInt {
						k += l.co[j] * x.k
					} else if open == -1 {
						open = j
					} else {
						open = -2
					}
				}
				if open == -1 {
					ok := k == 0 || t.op == OpGe0 && k > 0
					g.union(t, c.Bool(ok))
					continue
				}
				{
					sum := map[int]int64{}
					k := l.k
					for j, a := range l.ts {
						if x := g.valOf(a); x != nil && x.op == OpInt {
							k += l.co[j] * x.k
						} else {
							sum[g.find(a.id)] += l.co[j]
						}
					}
					var ids []int
					for id, co := range sum {
						if co != 0 {
							ids = append(ids, id)
						}
					}
					sort.Ints(ids)
					if len(ids) == 0 {
						g.union(t, c.Bool(k == 0 || t.op == OpGe0 && k > 0))
						continue
					}
					sg := int64(1)
					if t.op == OpEq0 && sum[ids[0]] < 0 {
						sg = -1
					}
					b := []byte{byte(t.op)}
					b = strconv.AppendInt(b, sg*k, 10)
					for _, id := range ids {
						b = append(b, ' ')
						b = strconv.AppendInt(b, int64(id), 10)
						b = append(b, '*')
						b = strconv.AppendInt(b, sg*sum[id], 10)
					}
					if o := sig[string(b)]; o != nil {
						g.union(o, t)
					} else {
						sig[string(b)] = t
					}
				}
				if t.op == OpGe0 {
					continue
				}
				if v == c.True {
					if open >= 0 && (l.co[open] == 1 || l.co[open] == -1) {
						g.union(l.ts[open], c.Int(-k*l.co[open]))
					} else if len(l.ts) == 2 && l.k == 0 && l.co[0] == -l.co[1] {
						g.union(l.ts[0], l.ts[1])
					}
				} else if v == nil && len(l.ts) == 2 && l.k == 0 && l.co[0] == -l.co[1] && g.find(l.ts[0].id) == g.find(l.ts[1].id) {
					g.union(t, c.True)
				}
				continue
			}
			if len(t.args) == 0 {
				continue
			}
			if t.op == OpApp && len(t.args) == 1 && strings.HasPrefix(t.name, "val!") && g.valOf(t.args[0]) == c.Int(0) {
				g.union(t, c.NilNode())
			}
			b := make([]byte, 0, 64)
			b = append(b, byte(t.op))
			b = append(b, t.name...)
			if t.op == OpLin {
				type m struct {
					id int
					co int64
				}
				sum := map[int]int64{}
				k := t.k
				for j, a := range t.args {
					if x := g.valOf(a); x != nil && x.op == OpInt {
						k += t.co[j] * x.k
					} else {
						sum[g.find(a.id)] += t.co[j]
					}
				}
				var ms []m
				for id, co := range sum {
					if co != 0 {
						ms = append(ms, m{id, co})
					}
				}
				sort.Slice(ms, func(i, j int) bool { return ms[i].id < ms[j].id })
				if len(ms) == 0 {
					g.union(t, c.Int(k))
					continue
				}
				b = strconv.AppendInt(b, k, 10)
				for _, m := range ms {
					b = append(b, ' ')
					b = strconv.AppendInt(b, int64(m.id), 10)
					b = append(b, '*')
					b = strconv.AppendInt(b, m.co, 10)
				}
			} else {
				for _, a := range t.args {
					b = append(b, ' ')
					b = strconv.AppendInt(b, int64(g.find(a.id)), 10)
				}
			}
			if o := sig[string(b)]; o != nil {
				g.union(o, t)
			} else {
				sig[string(b)] = t
			}
		}
	}
}

// reach lists the unfoldable terms that t mentions on the branches that are taken.
func (g *egraph) reach(roots []*Term, done map[int]bool, deep bool) []*Term {
	c := g.E.C
	var out []*Term
	seen := map[int]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.sort == SBool || t.sort == SInt {
			if v := g.valOf(t); v != nil && t != roots[0] {
				return
			}
		}
		if t.op == OpIte {
			switch g.valOf(t.args[0]) {
			case c.True:
				f(t.args[1])
				return
			case c.False:
				f(t.args[2])
				return
			}
		}
		if t.op == OpApp && g.E.unfoldable(t) {
			var alt []*Term
			if g.have[t.id] {
				for _, m := range g.mem[g.find(t.id)] {
					if m != t && m.op == OpApp && g.base[m.id] && g.E.unfoldable(m) {
						alt = append(alt, m)
					}
				}
			}
			known := false
			if g.have[t.id] && t.sort == SInt && !deep {
				for _, m := range g.mem[g.find(t.id)] {
					known = known || g.base[m.id] && !(m.op == OpApp && g.E.unfoldable(m))
				}
			}
			if known {
				return
			}
			if !deep {
				best := t
				for _, m := range alt {
					if !done[m.id] && (done[best.id] || m.id > best.id || !g.base[best.id]) {
						best = m
					}
				}
				out = append(out, best)
				return
			}
			if len(alt) == 0 || g.base[t.id] {
				out = append(out, t)
			}
			out = append(out, alt...)
		}
		for _, a := range t.args {
			f(a)
		}
	}
	for _, t := range roots {
		f(t)
	}
	return out
}

// cong asks the solver with the definitions of the specification functions that the goal needs on this path.
func (p *prover) cong(s *State, goal *Term, levels int, deep bool) bool {
	E := p.E
	facts := E.relevant(s, goal)
	g := newEgraph(E)
	for _, f := range facts {
		g.assume(f)
	}
	g.add(goal)
	for _, t := range g.terms {
		g.base[t.id] = true
	}
	g.close()
	defer E.setCat("cong")()
	done := map[int]bool{}
	out := append([]*Term{}, facts...)
	roots := []*Term{goal}
	n := 0
	checked := false
	for l := 0; l < levels; l++ {
		grew := false
		var next, todo, bools []*Term
		for _, a := range g.reach(roots, done, deep) {
			if !done[a.id] {
				todo = append(todo, a)
				if a.sort == SBool {
					bools = append(bools, a)
				}
			}
		}
		// the conditions first: they decide which other terms are needed
		if !deep && len(bools) > 0 {
			todo = bools
		}
		for _, a := range todo {
			if done[a.id] || n > 120 {
				continue
			}
			done[a.id] = true
			d := E.define(a)
			if d == nil || weight(d) > 1500 {
				if debugProve {
					println("   cong heavy", d != nil, a.str(4))
				}
				continue
			}
			n++
			grew = true
			if debugProve {
				println("   cong", l, a.str(4))
			}
			out = append(out, E.C.Eq(a, d))
			g.union(a, d)
			next = append(next, d)
		}
		if l == 1 && !deep {
			// where the cursor is after the calls on the path
			nt := len(g.terms)
			for i := 0; i < nt; i++ {
				a := g.terms[i]
				if !g.base[a.id] || done[a.id] || a.sort != SInt || a.op != OpApp || !E.unfoldable(a) {
					continue
				}
				cur := false
				for _, m := range g.mem[g.find(a.id)] {
					cur = cur || m.op == OpApp && strings.HasPrefix(m.name, "abs:")
				}
				if !cur {
					continue
				}
				d := E.define(a)
				if d == nil || weight(d) > 80 || len(leavesOf(E, d)) > 1 {
					continue
				}
				done[a.id] = true
				n++
				grew = true
				if debugProve {
					println("   cong cur", l, a.str(4))
				}
				out = append(out, E.C.Eq(a, d))
				g.union(a, d)
			}
		}
		roots = append(roots, next...)
		if grew {
			g.close()
			checked = false
		} else if l == 0 && !deep {
			continue
		}
		last := !grew || l == levels-1
		sure := g.broken || g.valOf(goal) == E.C.True
		if sure || last && !checked || l > 0 && (deep || len(bools) == 0) && !checked {
			checked = true
			r := E.solver.Check(append(out[:len(out):len(out)], E.C.Not(goal)))
			if debugProve {
				println("cong", deep, l, n, len(out), r, g.broken, g.valOf(goal) == E.C.True)
			}
			if r == "unsat" {
				*p.by = E.solver.bin
				return true
			}
			if sure {
				break
			}
		}
		if last {
			break
		}
	}
	return false
}
