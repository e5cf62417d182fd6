package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a register value: Vec, Addr, FuncVal or *IterVal.
type Val interface{}

// Vec is a flattened Go value.
type Vec []*Term

// Addr is an interior pointer: a field of an object or an element of an array.
type Addr struct {
	Ref *Term
	Idx *Term // element index, or nil
	Key string
	Typ types.Type
}

// FuncVal is a known function value.
type FuncVal struct {
	Fn   *ssa.Function
	Free []Val
}

// IterVal is an iterator over a string.
type IterVal struct {
	Str  *Term
	Cell *Term // heap cell of the rune index
}

// Frame is an activation.
type Frame struct {
	Fn     *ssa.Function
	Regs   map[ssa.Value]Val
	Block  *ssa.BasicBlock
	Prev   *ssa.BasicBlock
	Idx    int
	Defers []deferred
	Ret    ssa.Value // the call instruction of the caller that gets the result, or nil
	RunDef bool
	Loops  map[*ssa.BasicBlock]*activeLoop
	ID     int
}

type deferred struct {
	fn   FuncVal
	blt  *ssa.Builtin
	args []Val
	call *ssa.Defer
}

type activeLoop struct {
	ctx  *loopCtx
	n    int // order of activation
	uses int // unrolled iterations
}

type sealRef struct {
	ref *Term
	typ types.Type // pointer type
}

type heapEv struct {
	prev  *heapEv
	n     int
	frame bool
	zero  bool // allocation of ref, with zero content
	// store
	key string
	ref *Term
	val *Term
	// frame (call or loop)
	id    int
	stamp int
	alloc *Term // allocation level before
	mods  []modLoc
}

type modLoc struct {
	key string // heap key, exact
	ref *Term  // nil: every object
}

// State is a symbolic state.
type State struct {
	E       *Exec
	Frames  []*Frame
	Heap    *heapEv
	Alloc   *Term // allocation level
	Stamp   int
	Facts   *factList
	lits    map[int]bool
	subst   map[int]*Term
	lo      map[int]int64 // lower bounds of linear shapes
	memo    map[int]*Term
	noted   map[int]bool
	Dead    bool
	Trail   []string
	toSeal  []sealRef
	jumped  bool // just arrived at Block of the top frame
	result  Val
	retPos  token.Pos
	reqMemo map[*heapEv][]reqConj
}

type factList struct {
	prev *factList
	f    *Term
	n    int
}

func (s *State) Clone() *State {
	n := *s
	n.Frames = make([]*Frame, len(s.Frames))
	for i, f := range s.Frames {
		g := *f
		g.Regs = make(map[ssa.Value]Val, len(f.Regs))
		for k, v := range f.Regs {
			g.Regs[k] = v
		}
		g.Defers = append([]deferred(nil), f.Defers...)
		g.Loops = map[*ssa.BasicBlock]*activeLoop{}
		for k, v := range f.Loops {
			w := *v
			g.Loops[k] = &w
		}
		n.Frames[i] = &g
	}
	n.lits = cloneMap(s.lits)
	n.subst = cloneMap(s.subst)
	n.lo = cloneMap(s.lo)
	n.noted = cloneMap(s.noted)
	n.toSeal = append([]sealRef(nil), s.toSeal...)
	n.memo = s.memo // replaced when a fact is added
	n.Trail = append([]string(nil), s.Trail...)
	return &n
}

func cloneMap[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m)+4)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (s *State) Top() *Frame { return s.Frames[len(s.Frames)-1] }

// ---- facts

// Simp simplifies a term under the facts of the state.
func (s *State) Simp(t *Term) *Term {
	if r, ok := s.memo[t.id]; ok {
		return r
	}
	if s.E.busy[t.id] {
		return t // a cycle of equations
	}
	s.E.busy[t.id] = true
	r := s.simp1(t)
	delete(s.E.busy, t.id)
	s.memo[t.id] = r
	return r
}

func (s *State) simp1(t *Term) *Term {
	c := s.E.C
	for i := 0; i < 50; i++ {
		if i > 0 && s.E.busy[t.id] {
			return t
		}
		n := s.simpStep(c, t)
		if n == t {
			return t
		}
		if r, ok := s.memo[n.id]; ok {
			return r
		}
		t = n
	}
	return t
}

func (s *State) simpStep(c *Ctx, t *Term) *Term {
	if r, ok := s.subst[t.id]; ok {
		return r
	}
	if t.sort == SBool {
		if v, ok := s.lits[t.id]; ok {
			return c.Bool(v)
		}
	}
	if len(t.args) > 0 {
		if t.op == OpIte {
			cond := s.Simp(t.args[0])
			if cond == c.True {
				return s.Simp(t.args[1])
			}
			if cond == c.False {
				return s.Simp(t.args[2])
			}
			t = c.Ite(cond, s.Simp(t.args[1]), s.Simp(t.args[2]))
		} else {
			args := make([]*Term, len(t.args))
			for i, a := range t.args {
				args[i] = s.Simp(a)
			}
			t = c.Rebuild(t, args)
		}
		if r, ok := s.subst[t.id]; ok {
			return r
		}
		if t.sort == SBool {
			if v, ok := s.lits[t.id]; ok {
				return c.Bool(v)
			}
		}
	}
	switch t.op {
	case OpGe0:
		sh, k := c.shape(t.args[0])
		if lo, ok := s.lo[sh.id]; ok && lo+k >= 0 {
			return c.True
		}
		nsh, nk := c.shape(c.Sub(c.Int(0), t.args[0]))
		// -t >= lo + nk ; t>=0 is false when -t > 0
		if lo, ok := s.lo[nsh.id]; ok && lo+nk > 0 {
			return c.False
		}
	case OpEq0:
		sh, k := c.shape(t.args[0])
		if lo, ok := s.lo[sh.id]; ok && lo+k > 0 {
			return c.False
		}
		nsh, nk := c.shape(c.Sub(c.Int(0), t.args[0]))
		if lo2, ok := s.lo[nsh.id]; ok {
			if lo2+nk > 0 {
				return c.False
			}
			if lo, ok := s.lo[sh.id]; ok && lo+k == 0 && lo2+nk == 0 {
				return c.True
			}
		}
	}
	return t
}

// shape splits a linear term into the part without constant and the constant.
func (c *Ctx) shape(t *Term) (*Term, int64) {
	l := toLin(t)
	k := l.k
	l.k = 0
	return c.fromLin(l), k
}

// substitutable terms: fresh constants and applications of havoc functions.
func (s *State) orientable(t *Term) int {
	switch t.op {
	case OpVar:
		if s.E.C.isAlloc[t.id] != 0 {
			return 0
		}
		return 3
	case OpApp:
		if len(t.name) > 1 && t.name[0] == 'H' && t.name[1] == '<' {
			return 2
		}
		if len(t.name) > 4 && t.name[:4] == "val!" {
			return 1
		}
		if len(t.name) > 7 && t.name[:7] == "mapval!" {
			return 1
		}
	}
	return 0
}

func occurs(x, t *Term) bool {
	if x == t {
		return true
	}
	if t.id < x.id && x.op != OpVar {
		return false
	}
	for _, a := range t.args {
		if occurs(x, a) {
			return true
		}
	}
	return false
}

func occursVar(x, t *Term, seen map[int]bool) bool {
	if x == t {
		return true
	}
	if t.id < x.id || seen[t.id] {
		return false
	}
	seen[t.id] = true
	for _, a := range t.args {
		if occursVar(x, a, seen) {
			return true
		}
	}
	return false
}

// Assume adds a fact.
func (s *State) Assume(f *Term) {
	if s.Dead {
		return
	}
	c := s.E.C
	f = s.Simp(f)
	switch f.op {
	case OpTrue:
		return
	case OpFalse:
		s.Dead = true
		return
	case OpAnd:
		for _, a := range f.args {
			s.Assume(a)
		}
		return
	}
	n := 0
	if s.Facts != nil {
		n = s.Facts.n
	}
	s.Facts = &factList{s.Facts, f, n + 1}
	s.learn(f)
	s.memo = map[int]*Term{}
	if f.op == OpGe0 {
		// both bounds: an equality
		_, k := c.shape(f.args[0])
		nsh, _ := c.shape(c.Sub(c.Int(0), f.args[0]))
		if lo, ok := s.lo[nsh.id]; ok && lo == k {
			if e := c.Eq(f.args[0], c.Int(0)); e.op == OpEq0 && !s.lits[e.id] {
				s.Facts = &factList{s.Facts, e, s.Facts.n + 1}
				s.learn(e)
			}
		}
	}
}

func (s *State) learn(f *Term) {
	c := s.E.C
	s.lits[f.id] = true
	n := c.Not(f)
	s.lits[n.id] = false
	switch f.op {
	case OpEq:
		a, b := f.args[0], f.args[1]
		oa, ob := s.orientable(a), s.orientable(b)
		if ob > oa {
			a, b, oa, ob = b, a, ob, oa
		} else if oa == ob && oa > 0 && a.id < b.id {
			a, b = b, a // rewrite the newer to the older
		}
		if oa > 0 && !occursVar(a, b, map[int]bool{}) {
			s.subst[a.id] = b
		} else if oa == 0 && a.sort == SStr && b.isStr() {
			s.subst[a.id] = b
		} else if oa == 0 && a.sort == SStr && a.isStr() {
			s.subst[b.id] = a
		}
	case OpEq0:
		l := toLin(f.args[0])
		sh, k := c.shape(f.args[0])
		s.setLo(sh, -k)
		nsh, nk := c.shape(c.Sub(c.Int(0), f.args[0]))
		s.setLo(nsh, -nk)
		if len(l.ts) == 1 && l.co[0] == 1 {
			s.subst[l.ts[0].id] = c.Int(-l.k)
			return
		}
		best, bi := 0, -1
		for i, t := range l.ts {
			if l.co[i] != 1 && l.co[i] != -1 {
				continue
			}
			o := s.orientable(t)
			if o > best || o == best && o > 0 {
				// must not occur in the other monomials
				ok := true
				for j, u := range l.ts {
					if j != i && occursVar(t, u, map[int]bool{}) {
						ok = false
					}
				}
				if ok {
					best, bi = o, i
				}
			}
		}
		if bi >= 0 {
			t := l.ts[bi]
			// t = -(rest)/co
			r := linAdd(l, lin{ts: []*Term{t}, co: []int64{l.co[bi]}}, -1)
			r = linAdd(lin{}, r, -l.co[bi])
			s.subst[t.id] = c.fromLin(r)
		}
	case OpGe0:
		sh, k := c.shape(f.args[0])
		s.setLo(sh, -k)
	case OpNot:
		if g := f.args[0]; g.op == OpEq0 {
			// sharpen bounds: x != k with x >= k gives x >= k+1
			sh, k := c.shape(g.args[0])
			if lo, ok := s.lo[sh.id]; ok && lo == -k {
				s.setLo(sh, lo+1)
			}
			nsh, nk := c.shape(c.Sub(c.Int(0), g.args[0]))
			if lo, ok := s.lo[nsh.id]; ok && lo == -nk {
				s.setLo(nsh, lo+1)
			}
		}
	}
}

func (s *State) setLo(sh *Term, v int64) {
	if o, ok := s.lo[sh.id]; !ok || v > o {
		s.lo[sh.id] = v
	}
}

func (s *State) FactSlice() []*Term {
	var r []*Term
	for f := s.Facts; f != nil; f = f.prev {
		r = append(r, f.f)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// ---- heap

func (s *State) pushStore(key string, ref, val *Term) {
	n := 0
	if s.Heap != nil {
		n = s.Heap.n
	}
	s.E.keySorts[key] = val.sort
	s.Heap = &heapEv{prev: s.Heap, n: n + 1, key: key, ref: ref, val: val}
}

// NewAlloc returns a fresh reference to a zero object.
func (s *State) NewAlloc() *Term {
	c := s.E.C
	s.E.stampCtr++
	a := c.Fresh("new", SInt)
	c.isAlloc[a.id] = s.E.stampCtr
	c.stampLo[a.id] = s.E.stampCtr
	c.stampHi[a.id] = s.E.stampCtr
	s.Assume(c.Gt(a, s.Alloc))
	s.Alloc = a
	s.Stamp = s.E.stampCtr
	n := 0
	if s.Heap != nil {
		n = s.Heap.n
	}
	s.Heap = &heapEv{prev: s.Heap, n: n + 1, zero: true, ref: a}
	return a
}

func (c *Ctx) stamps(t *Term) (lo, hi int, ok bool) {
	if t.isInt() {
		return -1, -1, t.k == 0
	}
	if t.op == OpIte {
		l1, h1, ok1 := c.stamps(t.args[1])
		l2, h2, ok2 := c.stamps(t.args[2])
		if ok1 && ok2 {
			return min(l1, l2), max(h1, h2), true
		}
		return 0, 0, false
	}
	h, ok1 := c.stampHi[t.id]
	l, ok2 := c.stampLo[t.id]
	if !ok1 {
		h = 1 << 60
	}
	if !ok2 {
		l = -1
	}
	return l, h, ok1 || ok2
}

// distinct tells whether two references are known to differ.
func (c *Ctx) distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.op == OpIte {
		return c.distinct(a.args[1], b) && c.distinct(a.args[2], b)
	}
	if b.op == OpIte {
		return c.distinct(a, b.args[1]) && c.distinct(a, b.args[2])
	}
	la, ha, oka := c.stamps(a)
	lb, hb, okb := c.stamps(b)
	if !oka || !okb {
		return false
	}
	return ha < lb || hb < la
}

func (c *Ctx) hiStamp(t *Term) int {
	if _, h, ok := c.stamps(t); ok {
		return h
	}
	return 1 << 60
}
func (c *Ctx) loStamp(t *Term) int {
	if l, _, ok := c.stamps(t); ok {
		return l
	}
	return -1
}

// noteRef records that a reference was allocated before a moment.
func (s *State) noteRef(t *Term, stamp int, alloc *Term) {
	c := s.E.C
	switch t.op {
	case OpVar, OpApp:
	default:
		return
	}
	if _, ok := c.isAlloc[t.id]; ok {
		return
	}
	if o, ok := c.stampHi[t.id]; !ok || stamp < o {
		c.stampHi[t.id] = stamp
	}
	if s.noted[t.id] {
		return
	}
	s.noted[t.id] = true
	s.Assume(c.And(c.Ge(t, c.Int(0)), c.Ge(alloc, t)))
}

// noteLoaded notes the references of a loaded value from the moment of the heap events they come from.
func (s *State) noteLoaded(t *Term) {
	switch {
	case t.op == OpIte:
		s.noteLoaded(t.args[1])
		s.noteLoaded(t.args[2])
	case t.op == OpApp && strings.HasPrefix(t.name, "F0:"):
		s.noteRef(t, 0, s.E.Alloc0)
	case t.op == OpApp && strings.HasPrefix(t.name, "H<"):
		id, _ := strconv.Atoi(t.name[2:strings.IndexByte(t.name, '>')])
		if ea, ok := s.E.evAlloc[id]; ok {
			s.noteRef(t, ea.stamp, ea.alloc)
		}
	case t.op == OpApp && t.name == "selInt":
		s.noteRef(t, s.Stamp, s.Alloc)
	}
}

type evAlloc struct {
	stamp int
	alloc *Term
}

// Lookup reads a heap location.
func (s *State) Lookup(key string, ref *Term, srt Sort) *Term {
	s.E.keySorts[key] = srt
	if r := s.Simp(ref); key == "$prot" && r.isInt() {
		return s.E.C.Int(0) // the nil slice has no elements
	}
	if s.E.abstract && hiddenKey(key) {
		bail("the hidden state is read: %s", key)
	}
	return s.Simp(s.lookup(s.Heap, key, s.Simp(ref), srt))
}

func (s *State) lookup(h *heapEv, key string, ref *Term, srt Sort) *Term {
	c := s.E.C
	for h != nil {
		if h.zero {
			hr := h.ref
			if key == lexState {
				h = h.prev
				continue
			}
			if hr == ref {
				return s.E.zeroTerm(srt)
			}
			if !c.distinct(hr, ref) {
				eq := s.Simp(c.Eq(hr, ref))
				if eq == c.True {
					return s.E.zeroTerm(srt)
				}
				if eq != c.False {
					return c.Ite(eq, s.E.zeroTerm(srt), s.lookup(h.prev, key, ref, srt))
				}
			}
			h = h.prev
			continue
		}
		if !h.frame {
			if h.key == key {
				hr := s.Simp(h.ref)
				if hr == ref {
					return h.val
				}
				if !c.distinct(hr, ref) {
					eq := s.Simp(c.Eq(hr, ref))
					if eq == c.True {
						return h.val
					}
					if eq != c.False {
						return c.Ite(eq, h.val, s.lookup(h.prev, key, ref, srt))
					}
				}
			}
			h = h.prev
			continue
		}
		H := func() *Term { return c.rawApp(hname(h.id, key), srt, ref) }
		if key != lexState && c.loStamp(ref) > h.stamp {
			return H()
		}
		var conds []*Term
		hit := false
		for _, m := range h.mods {
			if m.key != key {
				continue
			}
			if m.ref == nil {
				hit = true
				break
			}
			mr := s.Simp(m.ref)
			if mr == ref {
				hit = true
				break
			}
			if c.distinct(mr, ref) {
				continue
			}
			conds = append(conds, s.Simp(c.Eq(mr, ref)))
		}
		if hit {
			return H()
		}
		if key != lexState && c.hiStamp(ref) > h.stamp {
			conds = append(conds, s.Simp(c.Gt(ref, h.alloc)))
		}
		cond := s.Simp(c.Or(conds...))
		if cond == c.True {
			return H()
		}
		if cond != c.False {
			return c.Ite(cond, H(), s.lookup(h.prev, key, ref, srt))
		}
		h = h.prev
	}
	return c.rawApp("F0:"+key, srt, ref)
}

func itoa(i int) string { return strconv.Itoa(i) }

func hname(id int, key string) string {
	return "H<" + itoa(id) + ">" + key
}
