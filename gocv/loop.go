package main

import (
	"fmt"
	"os"
	"go/ast"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	pure   bool // the header has no effects
}

type loopCtx struct {
	info    *loopInfo
	frameID int
}

// loopsOf finds the natural loops of a function by header.
func (E *Exec) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	if m, ok := E.loops[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			li := m[h]
			if li == nil {
				li = &loopInfo{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
				m[h] = li
			}
			var add func(x *ssa.BasicBlock)
			add = func(x *ssa.BasicBlock) {
				if li.blocks[x] {
					return
				}
				li.blocks[x] = true
				for _, p := range x.Preds {
					add(p)
				}
			}
			add(b)
		}
	}
	for _, li := range m {
		li.pure = true
		for _, in := range li.header.Instrs {
			switch in := in.(type) {
			case *ssa.Phi, *ssa.BinOp, *ssa.If, *ssa.Jump, *ssa.DebugRef, *ssa.Field, *ssa.Extract:
			case *ssa.UnOp:
				if in.Op == token.ARROW {
					li.pure = false
				}
			case *ssa.Call:
				if b, ok := in.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" && b.Name() != "cap" {
					li.pure = false
				}
			default:
				li.pure = false
			}
		}
	}
	E.loops[fn] = m
	return m
}

// headerVals runs a pure header and gives its condition and the operands of its comparison.
func (E *Exec) headerVals(s *State, li *loopInfo) (cond, x, y *Term) {
	if !li.pure {
		return
	}
	last, ok := li.header.Instrs[len(li.header.Instrs)-1].(*ssa.If)
	if !ok {
		return
	}
	n := s.Clone()
	n.jumped = false
	E.muted++
	defer func() { E.muted-- }()
	f := n.Top()
	for f.Idx < len(li.header.Instrs)-1 {
		if _, done := E.step(n); done {
			return
		}
	}
	if cv, ok := n.val(f, last.Cond).(Vec); ok {
		cond = n.Simp(cv[0])
	}
	if b, ok := last.Cond.(*ssa.BinOp); ok {
		switch b.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ:
			xv, ok1 := n.val(f, b.X).(Vec)
			yv, ok2 := n.val(f, b.Y).(Vec)
			if ok1 && ok2 && len(xv) == 1 && len(yv) == 1 && xv[0].sort == SInt && yv[0].sort == SInt {
				x, y = xv[0], yv[0]
			}
		}
	}
	return
}

const maxUnroll = 24

// unrollable: the next iteration is decided now.
func (E *Exec) unrollable(s *State, li *loopInfo) bool {
	if !li.pure {
		return false
	}
	f := s.Top()
	al := f.Loops[li.header]
	if al == nil {
		al = &activeLoop{}
		f.Loops[li.header] = al
	}
	if al.uses >= maxUnroll {
		return false
	}
	cond, _, _ := E.headerVals(s, li)
	if cond == nil || !(cond == E.C.True || cond == E.C.False) {
		return false
	}
	if cond == E.C.True {
		al.uses++
	} else {
		al.uses = 0
	}
	return true
}

type cand struct {
	desc string
	tag  string
	tmpl bool
	pos  token.Pos
	eval func(s *State) *Term
}

// cutLoop verifies a loop by invariants and returns the states after it.
func (E *Exec) cutLoop(s *State, li *loopInfo) []*State {
	c := E.C
	s.sealAll()
	f0 := s.Top()
	fid := f0.ID
	lc := &loopCtx{info: li, frameID: fid}
	marker, evMark := c.n, E.evCtr
	var phis []*ssa.Phi
	for _, in := range li.header.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			phis = append(phis, ph)
		}
	}
	entry := s.Clone()
	entry.jumped = false

	var mods []modLoc
	seen := map[string]bool{}
	modKey := func(m modLoc) string {
		if m.ref == nil {
			return m.key + "@any"
		}
		return m.key + "@" + itoa(m.ref.id)
	}
	cands := E.candidates(entry, li, phis)
	dropped := make([]bool, len(cands))
	var hinted map[string]bool
	leave := func(out *outcome) []*State {
		for _, x := range out.exits {
			if nf := x.Top(); nf.ID == fid {
				delete(nf.Loops, li.header)
			}
		}
		return out.exits
	}

	makeHead := func() *State {
		h := s.Clone()
		h.havoc(mods)
		f := h.Top()
		for _, ph := range phis {
			if _, ok := f.Regs[ph].(Vec); !ok {
				continue // function values and interior pointers are kept and compared below
			}
			nv := h.freshVec(ph.Comment, ph.Type())
			f.Regs[ph] = nv
			h.knownVec(nv, ph.Type())
		}
		for i, cd := range cands {
			if !dropped[i] {
				h.Assume(cd.eval(h))
			}
		}
		return h
	}

	run := func(h *State) *outcome {
		out := &outcome{}
		st := h.Clone()
		st.jumped = false
		// the header is entered without being treated as a back edge
		E.explore([]*State{st}, lc, out)
		for _, b := range out.backs {
			b.sealAll()
			b.jumped = false
		}
		return out
	}

	// newMods adds the locations that an iteration modifies.
	newMods := func(h *State, out *outcome) bool {
		changed := false
		add := func(m modLoc) {
			if k := modKey(m); !seen[k] && !seen[m.key+"@any"] {
				seen[k] = true
				mods = append(mods, m)
				changed = true
			}
		}
		for _, b := range append(append([]*State(nil), out.backs...), out.exits...) {
			for ev := b.Heap; ev != nil && ev != h.Heap; ev = ev.prev {
				if ev.zero {
					continue
				}
				var ms []modLoc
				if ev.frame {
					ms = ev.mods
				} else {
					ms = []modLoc{{ev.key, ev.ref}}
				}
				for _, m := range ms {
					if m.ref == nil {
						add(m)
						continue
					}
					if c.loStamp(m.ref) > h.Stamp {
						continue // allocated in the loop
					}
					for _, r := range flattenIte(b.Simp(m.ref)) {
						if r.isInt() || c.loStamp(r) > h.Stamp {
							continue
						}
						mm := modLoc{m.key, r}
						if !E.invariantTerm(r, h, marker, evMark) {
							mm.ref = nil
							if seen[modKey(mm)] || E.onlyFresh(b, r, h) {
								continue
							}
						}
						if mm.ref == nil && debugProve {
							fmt.Println("any", m.key, r.str(9), c.loStamp(r), c.hiStamp(r), h.Stamp)
						}
						add(mm)
					}
				}
			}
		}
		if changed {
			// locations that every iteration restores
			for _, nc := range E.memCandidates(entry, mods, cands) {
				if hinted != nil && !hinted[normDesc(nc.desc)] {
					continue
				}
				cands = append(cands, nc)
				dropped = append(dropped, false)
			}
		}
		return changed
	}
	entryChecked := 0
	checkEntry := func() {
		un := E.setCat("cand-entry")
		defer un()
		for ; entryChecked < len(cands); entryChecked++ {
			if !E.holdsCand(entry, cands[entryChecked]) {
				dropped[entryChecked] = true
			}
		}
	}
	proved := map[[2]int]bool{}
	// dropFailing drops the candidates that an iteration does not keep.
	dropFailing := func(out *outcome) bool {
		changed := false
		proved = map[[2]int]bool{}
		for bi, b := range out.backs {
			// all at once
			un := E.setCat("cand-batch")
			if E.batch(b, cands, dropped, hinted == nil, func(i int) { proved[[2]int{bi, i}] = true }) {
				changed = true
			}
			un()
		}
		for i, cd := range cands {
			if dropped[i] {
				continue
			}
			for bi, b := range out.backs {
				if proved[[2]int{bi, i}] {
					continue
				}
				cat := "cand-back"
				if cd.tmpl {
					cat = "cand-back-tmpl"
				}
				un := E.setCat(cat)
				q0 := E.solver.Queries
				ok := E.holdsCand(b, cd)
				un()
				if d := E.solver.Queries - q0; d > 3 && debugProve {
					fmt.Println("costly", d, ok, cd.desc)
				}
				if !ok {
					dropped[i] = true
					changed = true
					break
				}
				proved[[2]int{bi, i}] = true
			}
		}
		return changed
	}
	key := E.loopKey(entry, li)
	all := cands
	if hs, ok := E.P.Hints[key]; ok && !E.noHints {
		hinted = hs
		cands = nil
		for _, cd := range all {
			if hinted[normDesc(cd.desc)] {
				cands = append(cands, cd)
			}
		}
		dropped = make([]bool, len(cands))
	}
	var h *State
	var out *outcome
	if hinted != nil {
		// the invariants are known from before: they are only checked
		E.muted++
		E.quick++
		for r := 0; r < 20; r++ {
			h = makeHead()
			if h.Dead {
				break
			}
			out = run(h)
			if !newMods(h, out) {
				break
			}
		}
		E.quick--
		E.muted--
		if E.quick > 0 {
			if h.Dead {
				return nil
			}
			return leave(out)
		}
		checkEntry()
		h = makeHead()
		ok := !h.Dead
		if ok {
			snap := E.snapObls()
			out = run(h)
			ok = !newMods(h, out) && !dropFailing(out)
			if !ok {
				E.restoreObls(snap)
			}
		}
		if !ok {
			// search for invariants
			E.hintMiss++
			hinted = nil
			cands = append(all, E.memCandidates(entry, mods, all)...)
			dropped = make([]bool, len(cands))
			entryChecked = 0
			out = nil
		}
	}
	if hinted == nil {
		E.muted++
		rounds := 0
		for {
			rounds++
			if rounds > 60 {
				E.muted--
				bail("no fixed point for the loop at %s", E.posStr(li.header.Instrs[0].Pos()))
			}
			checkEntry()
			h = makeHead()
			if h.Dead {
				break // the entry cannot be reached: obliged below
			}
			out = run(h)
			if newMods(h, out) {
				continue
			}
			if !dropFailing(out) {
				break
			}
		}
		E.muted--
		h = makeHead()
		if h.Dead {
			// only if the entry cannot be reached
			E.oblige(entry.Clone(), "", "loop invariant", f0.Fn.Pos(), c.False, "the loop cannot be reached")
			return nil
		}
		out = run(h)
		if newMods(h, out) {
			bail("the modified locations of the loop at %s are not stable", E.posStr(li.header.Instrs[0].Pos()))
		}
		if E.muted == 0 {
			proved = map[[2]int]bool{}
			for bi, b := range out.backs {
				E.batch(b, cands, dropped, false, func(i int) { proved[[2]int{bi, i}] = true })
			}
			m := E.newHints[key]
			if m == nil {
				m = map[string]bool{}
				E.newHints[key] = m
			}
			for i, cd := range cands {
				if !dropped[i] {
					m[normDesc(cd.desc)] = true
				}
			}
		}
	} else if E.muted == 0 {
		E.newHints[key] = hinted
	}
	for _, ph := range phis {
		for _, b := range out.backs {
			if _, ok := b.Top().Regs[ph].(Vec); !ok {
				if valKey(b.Top().Regs[ph]) != valKey(entry.Top().Regs[ph]) {
					bail("a function value or interior pointer changes in a loop")
				}
			}
		}
	}
	// the invariants
	pos := li.header.Instrs[len(li.header.Instrs)-1].Pos()
	for _, ph := range phis {
		if ph.Pos().IsValid() {
			pos = ph.Pos()
			break
		}
	}
	if !pos.IsValid() {
		pos = f0.Fn.Pos()
	}
	for i, cd := range cands {
		if dropped[i] {
			continue
		}
		E.proved(cd.tag, "loop invariant", pos, "holds at entry: "+cd.desc)
		for bi, b := range out.backs {
			if proved[[2]int{bi, i}] {
				E.proved(cd.tag, "loop invariant", pos, "is preserved: "+cd.desc)
				continue
			}
			E.oblige(b, cd.tag, "loop invariant", pos, cd.eval(b), "is preserved: "+cd.desc)
		}
	}
	if E.muted == 0 && E.trace {
		for i, cd := range cands {
			fmt.Printf("    loop %s: %v %s\n", E.posStr(pos), !dropped[i], cd.desc)
		}
		for _, m := range mods {
			r := "any"
			if m.ref != nil {
				r = m.ref.str(4)
			}
			fmt.Printf("    mod %s %s\n", m.key, r)
		}
	}
	E.loopMeasure(h, entry, out, li, phis, pos)
	return leave(out)
}

var normRe = regexp.MustCompile(`H<\d+>|!\d+`)

// normDesc makes the description of a candidate independent of counters.
func normDesc(d string) string { return normRe.ReplaceAllString(d, "_") }

// loopKey names a loop.
func (E *Exec) loopKey(s *State, li *loopInfo) string {
	k := ""
	for _, f := range s.Frames {
		k += FuncName(f.Fn) + "/"
	}
	n := 0
	for h := range E.loopsOf(s.Top().Fn) {
		if h.Index < li.header.Index {
			n++
		}
	}
	return k + itoa(n)
}

func (E *Exec) snapObls() map[string]Obligation {
	m := map[string]Obligation{}
	for k, o := range E.obls {
		m[k] = *o
	}
	m["$n"] = Obligation{Millis: int64(len(E.oblOrder))}
	return m
}

func (E *Exec) restoreObls(m map[string]Obligation) {
	E.oblOrder = E.oblOrder[:m["$n"].Millis]
	for k := range E.obls {
		if o, ok := m[k]; ok {
			*E.obls[k] = o
		} else {
			delete(E.obls, k)
		}
	}
}

// batch decides many candidates with few queries. Generated candidates that a possible model refutes are dropped.
func (E *Exec) batch(b *State, cands []cand, dropped []bool, drop bool, proved func(i int)) bool {
	if b.Dead {
		for i := range cands {
			proved(i)
		}
		return false
	}
	c := E.C
	changed := false
	var idx []int
	var gs []*Term
	for i, cd := range cands {
		if dropped[i] {
			continue
		}
		g := b.Simp(cd.eval(b))
		switch g {
		case c.True:
			proved(i)
		case c.False:
			if !cd.tmpl && drop {
				dropped[i] = true
				changed = true
			}
		default:
			if !cd.tmpl || g.op != OpEq && firstIte(g) == nil {
				idx = append(idx, i)
				gs = append(gs, g)
			}
		}
	}
	fs := b.FactSlice()
	var check func(idx []int, gs []*Term)
	check = func(idx []int, gs []*Term) {
		for len(gs) > 0 {
			restore := E.setCat("cand-model")
			r, vals := E.solver.CheckModel(fs, gs)
			restore()
			if r == "unsat" {
				for _, i := range idx {
					proved(i)
				}
				return
			}
			if len(gs) == 1 {
				return
			}
			var ni []int
			var ng []*Term
			for k, i := range idx {
				if vals == nil || vals[k] {
					ni = append(ni, i)
					ng = append(ng, gs[k])
					continue
				}
				if dc := os.Getenv("GOCV_CAND"); dc != "" && strings.Contains(cands[i].desc, dc) {
					fmt.Println("cand dropped by model", cands[i].desc, gs[k])
				}
				if drop && !cands[i].tmpl && !strings.HasPrefix(cands[i].desc, "precondition") {
					dropped[i] = true
					changed = true
				}
			}
			if len(ni) == len(idx) {
				h := len(idx) / 2
				check(idx[:h], gs[:h])
				check(idx[h:], gs[h:])
				return
			}
			idx, gs = ni, ng
		}
	}
	done := map[int]bool{}
	proved0 := proved
	proved = func(i int) { done[i] = true; proved0(i) }
	check(idx, gs)
	// the rest by bisection
	var ri []int
	var rg []*Term
	for k, i := range idx {
		if !done[i] && !dropped[i] && !cands[i].tmpl {
			ri = append(ri, i)
			rg = append(rg, gs[k])
		}
	}
	var bis func(idx []int, gs []*Term)
	bis = func(idx []int, gs []*Term) {
		if len(gs) < 2 {
			return
		}
		if E.solver.Check(append(append([]*Term(nil), fs...), c.Not(c.And(gs...)))) == "unsat" {
			for _, i := range idx {
				proved(i)
			}
			return
		}
		h := len(idx) / 2
		bis(idx[:h], gs[:h])
		bis(idx[h:], gs[h:])
	}
	bis(ri, rg)
	return changed
}

// holdsCand decides a candidate: the generated ones with less effort.
func (E *Exec) holdsCand(s *State, cd cand) bool {
	g := cd.eval(s)
	if cd.tmpl || strings.HasPrefix(cd.desc, "precondition") {
		return E.holds(s, g)
	}
	if s.Dead {
		return true
	}
	g = s.Simp(g)
	if g == E.C.True {
		return true
	}
	if g == E.C.False {
		return false
	}
	defer E.setCat("cand-one")()
	fs := s.FactSlice()
	if dc := os.Getenv("GOCV_CAND"); dc != "" && strings.Contains(cd.desc, dc) {
		fmt.Println("cand", cd.desc, g)
		fmt.Println("   near", len(E.near(fs, []*Term{g}, 3)), "of", len(fs), E.solver.Check(append(E.near(fs, []*Term{g}, 3), E.C.Not(g))), E.solver.Check(append(fs, E.C.Not(g))))
	}
	return E.solver.Check(append(E.near(fs, []*Term{g}, 3), E.C.Not(g))) == "unsat"
}

func flattenIte(t *Term) []*Term {
	if t.op == OpIte {
		return append(flattenIte(t.args[1]), flattenIte(t.args[2])...)
	}
	return []*Term{t}
}

// invariantTerm: the term denotes the same reference in all iterations.
func (E *Exec) invariantTerm(t *Term, h *State, marker, evMark int) bool {
	seen := map[int]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if seen[t.id] {
			return true
		}
		seen[t.id] = true
		if t.op == OpVar && t.id > marker {
			return false
		}
		if t.op == OpApp && len(t.args) == 0 && t.id > marker {
			return false
		}
		if t.op == OpApp && strings.HasPrefix(t.name, "H<") {
			id, _ := strconv.Atoi(t.name[2:strings.IndexByte(t.name, '>')])
			if id > evMark {
				return false
			}
		}
		for _, a := range t.args {
			if !f(a) {
				return false
			}
		}
		return true
	}
	return f(t)
}

// onlyFresh: the reference surely was allocated during the loop.
func (E *Exec) onlyFresh(b *State, ref *Term, h *State) bool {
	// allocated after the level before the loop
	g := b.Simp(E.C.Gt(ref, h.Heap.alloc))
	if g == E.C.True || g == E.C.False || b.Dead {
		return g != E.C.False
	}
	defer E.setCat("cand-back")()
	return E.solver.Check(append(b.FactSlice(), E.C.Not(g))) == "unsat"
}

// holds decides a formula without recording an obligation.
func (E *Exec) holds(s *State, g *Term) bool {
	if s.Dead {
		return true
	}
	g = s.Simp(g)
	if g == E.C.True {
		return true
	}
	if g == E.C.False {
		return false
	}
	ok, _ := E.proveLim(s, g, holdsLim)
	return ok
}

// candidates for loop invariants.
func (E *Exec) candidates(entry *State, li *loopInfo, phis []*ssa.Phi) []cand {
	c := E.C
	var out []cand
	add := func(desc string, eval func(s *State) *Term) {
		out = append(out, cand{desc: desc, eval: eval})
	}
	depth := len(entry.Frames) - 1
	get := func(s *State, ph ssa.Value) Vec {
		v, _ := s.Frames[depth].Regs[ph].(Vec)
		return v
	}
	_, _, y0 := E.headerVals(entry, li)
	x0c, _, _ := E.headerVals(entry, li)
	_ = x0c
	for _, ph := range phis {
		ph := ph
		v0 := get(entry, ph)
		if v0 == nil {
			continue
		}
		name := ph.Comment
		ls := Leaves(ph.Type())
		for i, l := range ls {
			i := i
			e := v0[i]
			add(name+l.Path+" is unchanged", func(s *State) *Term { return c.Eq(get(s, ph)[i], e) })
			if l.Kind == 'a' {
				al := entry.Alloc
				add(name+" is the same slice or a new one", func(s *State) *Term {
					v := get(s, ph)
					return c.Or(c.And(c.Eq(v[i], e), c.Eq(v[i+3], v0[i+3])), c.Gt(v[i], al))
				})
				add(name+" is not shared", func(s *State) *Term {
					v := get(s, ph)
					return c.Ge(c.Add(v[i+1], v[i+2]), s.Lookup("$prot", v[i], SInt))
				})
				if nilEdge(ph) {
					add(name+" is nil or unchanged", func(s *State) *Term {
						v := get(s, ph)
						same, zero := []*Term{}, []*Term{}
						for j := i; j < i+4; j++ {
							same = append(same, c.Eq(v[j], v0[j]))
							zero = append(zero, c.Eq(v[j], c.Int(0)))
						}
						return c.Or(c.And(zero...), c.And(same...))
					})
				}
				add(name+" starts at 0", func(s *State) *Term { return c.Eq(get(s, ph)[i+1], c.Int(0)) })
				add(name+" is empty or new", func(s *State) *Term {
					v := get(s, ph)
					return c.Or(c.Eq(v[i], c.Int(0)), c.Gt(v[i], E.Alloc0))
				})
			}
			if l.Sort == SInt && !l.Ptr && l.Kind == 0 {
				add(name+" does not decrease", func(s *State) *Term { return c.Ge(get(s, ph)[i], e) })
				add(name+" does not increase", func(s *State) *Term { return c.Ge(e, get(s, ph)[i]) })
				add(name+" is at least -1", func(s *State) *Term { return c.Ge(get(s, ph)[i], c.Int(-1)) })
				if y0 != nil {
					y := y0
					add(name+" stays below the bound", func(s *State) *Term { return c.Lt(get(s, ph)[i], y) })
					add(name+" stays within the bound", func(s *State) *Term { return c.Ge(y, get(s, ph)[i]) })
				}
			}
			if l.Kind == 'p' || l.Kind == 'r' {
				add(name+" is new or nil", func(s *State) *Term {
					v := get(s, ph)
					return c.Or(c.Eq(v[i], c.Int(0)), c.Gt(v[i], E.Alloc0))
				})
			}
		}
	}
	// the precondition of the function
	if E.contract != nil && len(entry.Frames) > 0 {
		for _, k := range E.requireConjuncts(entry) {
			k := k
			out = append(out, cand{desc: "precondition " + itoa(k.i), pos: k.pos, eval: func(s *State) *Term {
				cs := E.requireConjuncts(s)
				if k.i < len(cs) {
					return cs[k.i].t
				}
				return c.True
			}})
		}
	}
	out = append(out, E.templates(entry, li, phis)...)
	return out
}

type reqConj struct {
	i   int
	t   *Term
	pos token.Pos
}

func (E *Exec) requireConjuncts(s *State) []reqConj {
	if r, ok := s.reqMemo[s.Heap]; ok {
		return r
	}
	var out []reqConj
	pts, rts := paramTypes(E.contract.Fn)
	var vals []SV
	for i, t := range pts {
		vals = append(vals, SVec{s.asVec(E.params[i]), t})
	}
	for _, t := range rts {
		vals = append(vals, SVec{E.zeroVec(t), t})
	}
	ev := &Eval{E: E, St: s, Pkg: E.contract.Pkg, Env: contractEnv(E.contract, vals)}
	type stop struct{}
	ev.hook = &contractHook{
		requires: func(tag string, t *Term, p token.Pos) {
			out = append(out, reqConj{len(out), t, p})
		},
		modifies: func([]modLoc) {},
		post:     func(*Eval) { panic(stop{}) },
		ensures:  nil,
		fresh:    nil,
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stop); !ok {
					panic(r)
				}
			}
		}()
		ev.stmts(E.contract.Decl.Body.List, nil, E.contract.Pkg.TypesInfo.Defs[E.contract.Decl.Name].(*types.Func).Type().(*types.Signature))
	}()
	return out
}

func conjuncts(t *Term) []*Term {
	if t.op == OpAnd {
		var r []*Term
		for _, a := range t.args {
			r = append(r, conjuncts(a)...)
		}
		return r
	}
	return []*Term{t}
}

// memCandidates: modified locations that keep their value.
func (E *Exec) memCandidates(entry *State, mods []modLoc, have []cand) []cand {
	c := E.C
	var out []cand
	known := map[string]bool{}
	for _, cd := range have {
		known[cd.desc] = true
	}
	for _, m := range mods {
		if m.ref == nil || m.key == "$prot" || m.key == "$sealed" {
			continue
		}
		srt, ok := E.keySort(m.key)
		if !ok {
			continue
		}
		m := m
		d := "location " + m.key + " of " + m.ref.str(3)
		if known[d+" is unchanged"] {
			continue
		}
		e := entry.Lookup(m.key, m.ref, srt)
		out = append(out, cand{desc: d + " is unchanged", eval: func(s *State) *Term { return c.Eq(s.Lookup(m.key, m.ref, srt), e) }})
		if srt == SInt {
			out = append(out, cand{desc: d + " does not decrease", eval: func(s *State) *Term { return c.Ge(s.Lookup(m.key, m.ref, srt), e) }})
		}
	}
	return out
}

// keySort is the sort of a heap key that was used.
func (E *Exec) keySort(key string) (Sort, bool) {
	s, ok := E.keySorts[key]
	return s, ok
}

// templates are the loop contracts of the function under verification and of the package.
func (E *Exec) templates(entry *State, li *loopInfo, phis []*ssa.Phi) []cand {
	var out []cand
	for _, ct := range E.loopContracts(entry) {
		for _, b := range E.bindTemplate(entry, ct, phis) {
			b := b
			n := len(E.evalTemplate(entry, entry, ct, b).inv)
			// the conjuncts are evaluated together
			var last *State
			var lastHeap *heapEv
			var lastEval tmplEval
			for i := 0; i < n; i++ {
				i := i
				out = append(out, cand{desc: fmt.Sprintf("%s %d%s", ct.Name, i, bindDesc(b)), tmpl: true, eval: func(s *State) *Term {
					if last != s || lastHeap != s.Heap || i == 0 {
						lastEval = E.evalTemplate(s, entry, ct, b)
						last, lastHeap = s, s.Heap
					}
					r := lastEval
					if i < len(r.inv) {
						return r.inv[i]
					}
					return E.C.True
				}})
			}
		}
	}
	return out
}

// bindDesc names the values that a template is bound to.
func bindDesc(b []tmplArg) string {
	r := ""
	for _, a := range b {
		switch x := a.phi.(type) {
		case nil:
			if len(a.fixed) > 0 {
				r += " " + a.fixed[0].str(2)
			}
		case *ssa.Phi:
			r += " " + x.Comment
		case *ssa.Alloc:
			r += " " + x.Comment
		default:
			r += " " + x.Name()
		}
	}
	return r
}

func (E *Exec) loopContracts(s *State) []*Contract {
	var r []*Contract
	seen := map[string]bool{}
	add := func(n string) {
		if seen[n] {
			return
		}
		seen[n] = true
		r = append(r, E.P.LoopInvs[n]...)
	}
	add(FuncName(E.root))
	for _, f := range s.Frames {
		add(FuncName(f.Fn))
	}
	for _, f := range s.Frames {
		g := f.Fn
		if g.Pkg != nil {
			add(shortPkg(g.Pkg.Pkg) + ".ANY")
		}
	}
	return r
}

// tmplArg is where a template parameter gets its value from.
type tmplArg struct {
	phi   ssa.Value
	frame int
	cell  bool // the value of the cell
	iter  bool // the number of characters that an iteration over a string has seen
	fixed Vec
	typ   types.Type
}

func (E *Exec) bindTemplate(entry *State, ct *Contract, phis []*ssa.Phi) [][]tmplArg {
	depth := len(entry.Frames) - 1
	pts, _ := paramTypes(E.root)
	combos := [][]tmplArg{nil}
	same := map[string]int{} // parameters of a type
	for _, fl := range ct.Decl.Type.Params.List {
		same[ct.Pkg.TypesInfo.TypeOf(fl.Type).String()] += len(fl.Names)
	}
	for _, fl := range ct.Decl.Type.Params.List {
		t := ct.Pkg.TypesInfo.TypeOf(fl.Type)
		for range fl.Names {
			var opts []tmplArg
			for _, ph := range phis {
				if types.Identical(ph.Type(), t) {
					if _, ok := entry.Top().Regs[ph].(Vec); ok {
						opts = append(opts, tmplArg{phi: ph, frame: depth, typ: t})
					}
				}
			}
			for i, pt := range pts {
				if types.Identical(pt, t) {
					if v, ok := E.params[i].(Vec); ok {
						opts = append(opts, tmplArg{fixed: v, typ: t})
					}
				}
			}
			if depth > 0 {
				for _, p := range entry.Top().Fn.Params {
					if types.Identical(p.Type(), t) {
						if v, ok := entry.Top().Regs[p].(Vec); ok {
							dup := false
							for _, o := range opts {
								if o.fixed != nil && valKey(o.fixed) == valKey(v) {
									dup = true
								}
							}
							if !dup {
								opts = append(opts, tmplArg{fixed: v, typ: t})
							}
						}
					}
				}
			}
			// local variables in memory and other values that are live
			var more []tmplArg
			for v := range entry.Top().Regs {
				switch a := v.(type) {
				case *ssa.Alloc:
					if pt := a.Type().Underlying().(*types.Pointer).Elem(); types.Identical(pt, t) {
						if _, isS := pt.Underlying().(*types.Struct); !isS {
							more = append(more, tmplArg{phi: a, frame: depth, cell: true, typ: t})
						}
					} else if types.Identical(a.Type(), t) {
						more = append(more, tmplArg{phi: a, frame: depth, typ: t})
					}
				case *ssa.FreeVar:
					if pt, ok := a.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), t) {
						more = append(more, tmplArg{phi: a, frame: depth, cell: true, typ: t})
					}
				}
			}
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Int {
				for v, x := range entry.Top().Regs {
					if _, ok := x.(*IterVal); ok {
						more = append(more, tmplArg{phi: v, frame: depth, iter: true, typ: t})
					}
				}
			}
			sort.Slice(more, func(i, j int) bool { return more[i].phi.Name() < more[j].phi.Name() })
			opts = append(opts, more...)
			_, isSlice := t.Underlying().(*types.Slice)
			if len(opts) == 0 || isSlice && opts[0].phi == nil {
				// any live value
				var live []tmplArg
				for v, x := range entry.Top().Regs {
					if _, ok := x.(Vec); ok && v.Type() != nil && types.Identical(v.Type(), t) {
						if _, isCall := v.(*ssa.Const); isCall {
							continue
						}
						live = append(live, tmplArg{phi: v, frame: depth, typ: t})
					}
				}
				sort.Slice(live, func(i, j int) bool { return live[i].phi.Name() < live[j].phi.Name() })
				opts = append(live, opts...)
			}
			var nc [][]tmplArg
			for _, cb := range combos {
				for _, o := range opts {
					if o.phi != nil && !o.cell && !o.iter && bound(cb, o) && same[t.String()] <= len(opts) {
						continue // two parameters are two variables
					}
					nc = append(nc, append(append([]tmplArg(nil), cb...), o))
				}
			}
			combos = nc
			if len(combos) > 48 {
				combos = combos[:48]
			}
		}
	}
	return combos
}

func bound(b []tmplArg, o tmplArg) bool {
	for _, a := range b {
		if a.phi == o.phi && a.frame == o.frame {
			return true
		}
	}
	return false
}

func (a tmplArg) value(s *State) Vec {
	if a.fixed != nil {
		return a.fixed
	}
	v := s.Frames[a.frame].Regs[a.phi]
	if a.iter {
		return Vec{s.Lookup("iter", v.(*IterVal).Cell, SInt)}
	}
	if a.cell {
		return s.load(s.addr(v, a.typ))
	}
	return s.asVec(v)
}

type tmplEval struct {
	inv     []*Term
	pos     []token.Pos
	measure []*Term
}

func (E *Exec) evalTemplate(s, entry *State, ct *Contract, b []tmplArg) tmplEval {
	var r tmplEval
	mk := func(st *State) *Eval {
		var vals []SV
		for _, a := range b {
			vals = append(vals, SVec{a.value(st), a.typ})
		}
		ev := &Eval{E: E, St: st, Pkg: ct.Pkg, Env: contractEnv(ct, vals), uses: true, preAlloc: E.Alloc0}
		return ev
	}
	ev := mk(s)
	ee := mk(entry.Clone())
	ev.entry = ee
	ee.entry = ee
	ev.hook = &contractHook{
		requires: func(tag string, t *Term, p token.Pos) {
			r.inv = append(r.inv, t)
			r.pos = append(r.pos, p)
		},
		measure: func(ts []*Term) { r.measure = append(r.measure, ts...) },
	}
	ee.hook = ev.hook
	// locals of the template before entry() are evaluated in both
	for i, st := range ct.Decl.Body.List {
		ev.stmts(ct.Decl.Body.List[i:i+1], nil, ct.Pkg.TypesInfo.Defs[ct.Decl.Name].(*types.Func).Type().(*types.Signature))
		if as, ok := st.(*ast.AssignStmt); ok {
			nee := *ee
			nh := *ev.hook
			nee.hook = &nh
			nee.stmts([]ast.Stmt{as}, nil, nil)
		}
	}
	return r
}

// loopMeasure obliges that the loop ends.
func (E *Exec) loopMeasure(h, entry *State, out *outcome, li *loopInfo, phis []*ssa.Phi, pos token.Pos) {
	if E.muted > 0 {
		return
	}
	if E.wantTags != nil && !E.wantTags("C01") {
		return
	}
	c := E.C
	if len(out.backs) == 0 {
		return
	}
	o := E.obl("C01", "loop terminates", pos, "")
	type meas struct{ f func(s *State) *Term }
	var ms []meas
	for _, ct := range E.loopContracts(entry) {
		for _, b := range E.bindTemplate(entry, ct, phis) {
			b, ct := b, ct
			n := len(E.evalTemplate(entry, entry, ct, b).measure)
			for i := 0; i < n; i++ {
				i := i
				ms = append(ms, meas{func(s *State) *Term {
					m := E.evalTemplate(s, entry, ct, b).measure
					if i < len(m) {
						return m[i]
					}
					return c.Int(0)
				}})
			}
		}
	}
	depth := len(h.Frames) - 1
	for _, ph := range phis {
		if b, ok := ph.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			ph := ph
			ms = append(ms, meas{func(s *State) *Term { return s.asVec(s.Frames[depth].Regs[ph])[0] }})
		}
	}
	if _, x, y := E.headerVals(h, li); x != nil {
		_ = y
		ms = append(ms, meas{func(s *State) *Term { _, x, y := E.headerVals(s, li); return c.Sub(y, x) }})
		ms = append(ms, meas{func(s *State) *Term { _, x, y := E.headerVals(s, li); return c.Sub(x, y) }})
	}
	// iterators over strings
	for _, in := range li.header.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			if it, ok := h.Frames[depth].Regs[nx.Iter].(*IterVal); ok {
				ms = append(ms, meas{func(s *State) *Term {
					return c.Sub(c.App("rlen", SInt, it.Str), s.Lookup("iter", it.Cell, SInt))
				}})
			}
		}
	}
	for _, m := range ms {
		mh := m.f(h)
		ok := true
		for _, b := range out.backs {
			mb := m.f(b)
			if !E.holds(b, c.And(c.Lt(mb, mh), c.Ge(mh, c.Int(0)))) {
				ok = false
				break
			}
		}
		if ok {
			if o.By == "" {
				o.By = "simplifier"
			}
			return
		}
	}
	if o.Status == "proved" {
		o.Status = "failed"
		o.Detail = fmt.Sprintf("no measure decreases on every iteration (%d tried)", len(ms))
	}
}

// nilEdge: some edge of the phi brings nil.
func nilEdge(ph *ssa.Phi) bool {
	for _, e := range ph.Edges {
		if k, ok := e.(*ssa.Const); ok && k.Value == nil {
			return true
		}
	}
	return false
}

var holdsLim = 150

func init() {
	if x, err := strconv.Atoi(os.Getenv("GOCV_HOLDS")); err == nil {
		holdsLim = x
	}
}
