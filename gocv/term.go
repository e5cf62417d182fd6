package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Sort is an SMT sort.
type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SStr  Sort = "Str"
	SNode Sort = "Node"
	SSeqI Sort = "SeqI"
	SSeqS Sort = "SeqS"
	SSeqB Sort = "SeqB"
	SSeqN Sort = "SeqN"
	SArrI Sort = "ArrI"
	SArrS Sort = "ArrS"
	SArrB Sort = "ArrB"
	SMapI Sort = "MapI" // int -> int
	SMapS Sort = "MapS" // string -> int
)

type Op uint8

const (
	OpTrue Op = iota
	OpFalse
	OpInt
	OpStrC
	OpVar
	OpApp
	OpLin // k + sum co[i]*args[i]
	OpIte
	OpEq  // equality of two non-int terms (or bools)
	OpEq0 // lin == 0
	OpGe0 // lin >= 0
	OpNot
	OpAnd
	OpOr
)

// Term is a hash-consed term.
type Term struct {
	id   int
	op   Op
	name string
	args []*Term
	k    int64
	co   []int64
	sort Sort
}

// Ctx owns terms. One per verification job.
type Ctx struct {
	atomMemo map[int][]int
	tab   map[string]*Term
	n     int
	True  *Term
	False *Term
	fresh int

	stampLo map[int]int
	stampHi map[int]int
	appd    map[int]*appendInfo // ArrVal var id -> how it was built
	isAlloc map[int]int         // alloc level vars
	mayNil  map[int]bool
}

type appendInfo struct {
	base   *Term // previous array value
	off    *Term
	ln     *Term // prefix length kept
	xs     []*Term
	src    *Term // sequence appended (concat), if xs == nil
	srcLen *Term
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, stampLo: map[int]int{}, stampHi: map[int]int{}, appd: map[int]*appendInfo{}, isAlloc: map[int]int{}, mayNil: map[int]bool{}}
	c.True = c.mk(&Term{op: OpTrue, sort: SBool})
	c.False = c.mk(&Term{op: OpFalse, sort: SBool})
	return c
}

func (c *Ctx) mk(t *Term) *Term {
	var b strings.Builder
	b.WriteByte(byte('a' + t.op))
	b.WriteString(string(t.sort))
	if t.name != "" || t.op == OpStrC {
		b.WriteByte('|')
		b.WriteString(t.name)
	}
	if t.op == OpInt || t.op == OpLin {
		b.WriteByte('#')
		b.WriteString(strconv.FormatInt(t.k, 10))
	}
	for i, a := range t.args {
		b.WriteByte(',')
		if t.co != nil {
			b.WriteString(strconv.FormatInt(t.co[i], 10))
			b.WriteByte('*')
		}
		b.WriteString(strconv.Itoa(a.id))
	}
	key := b.String()
	if o, ok := c.tab[key]; ok {
		return o
	}
	c.n++
	t.id = c.n
	c.tab[key] = t
	return t
}

func (c *Ctx) Int(k int64) *Term             { return c.mk(&Term{op: OpInt, k: k, sort: SInt}) }
func (c *Ctx) StrC(s string) *Term           { return c.mk(&Term{op: OpStrC, name: s, sort: SStr}) }
func (c *Ctx) Var(name string, s Sort) *Term { return c.mk(&Term{op: OpVar, name: name, sort: s}) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *Ctx) Fresh(hint string, s Sort) *Term {
	c.fresh++
	return c.Var(fmt.Sprintf("%s!%d", hint, c.fresh), s)
}
func (c *Ctx) rawApp(name string, s Sort, args ...*Term) *Term {
	return c.mk(&Term{op: OpApp, name: name, sort: s, args: args})
}

func (t *Term) isInt() bool { return t.op == OpInt }
func (t *Term) isStr() bool { return t.op == OpStrC }

// ---- linear arithmetic

type lin struct {
	k  int64
	ts []*Term
	co []int64
}

func toLin(t *Term) lin {
	switch t.op {
	case OpInt:
		return lin{k: t.k}
	case OpLin:
		return lin{k: t.k, ts: t.args, co: t.co}
	}
	return lin{ts: []*Term{t}, co: []int64{1}}
}

func linAdd(a, b lin, m int64) lin {
	r := lin{k: a.k + m*b.k}
	i, j := 0, 0
	for i < len(a.ts) || j < len(b.ts) {
		switch {
		case j >= len(b.ts) || i < len(a.ts) && a.ts[i].id < b.ts[j].id:
			r.ts = append(r.ts, a.ts[i])
			r.co = append(r.co, a.co[i])
			i++
		case i >= len(a.ts) || b.ts[j].id < a.ts[i].id:
			r.ts = append(r.ts, b.ts[j])
			r.co = append(r.co, m*b.co[j])
			j++
		default:
			if s := a.co[i] + m*b.co[j]; s != 0 {
				r.ts = append(r.ts, a.ts[i])
				r.co = append(r.co, s)
			}
			i++
			j++
		}
	}
	return r
}

func (c *Ctx) fromLin(l lin) *Term {
	if len(l.ts) == 0 {
		return c.Int(l.k)
	}
	if len(l.ts) == 1 && l.k == 0 && l.co[0] == 1 {
		return l.ts[0]
	}
	return c.mk(&Term{op: OpLin, sort: SInt, k: l.k, args: l.ts, co: l.co})
}

func (c *Ctx) Add(a, b *Term) *Term { return c.fromLin(linAdd(toLin(a), toLin(b), 1)) }
func (c *Ctx) Sub(a, b *Term) *Term { return c.fromLin(linAdd(toLin(a), toLin(b), -1)) }
func (c *Ctx) AddK(a *Term, k int64) *Term {
	return c.fromLin(linAdd(toLin(a), lin{k: k}, 1))
}
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.op == OpInt {
		return c.fromLin(linAdd(lin{}, toLin(b), a.k))
	}
	if b.op == OpInt {
		return c.fromLin(linAdd(lin{}, toLin(a), b.k))
	}
	return c.rawApp("mul", SInt, a, b)
}

func (c *Ctx) eq0(l lin) *Term {
	if len(l.ts) == 0 {
		return c.Bool(l.k == 0)
	}
	if l.co[0] < 0 {
		l = linAdd(lin{}, l, -1)
	}
	if len(l.ts) == 1 && l.co[0] != 1 && l.k%l.co[0] == 0 {
		l = lin{k: l.k / l.co[0], ts: l.ts, co: []int64{1}}
	}
	// ite(c,a,b) == const with constant branches
	if len(l.ts) == 1 && l.co[0] == 1 && l.ts[0].op == OpIte {
		it := l.ts[0]
		a := c.eq0(linAdd(toLin(it.args[1]), lin{k: l.k}, 1))
		b := c.eq0(linAdd(toLin(it.args[2]), lin{k: l.k}, 1))
		if a.op <= OpFalse || b.op <= OpFalse {
			return c.Ite(it.args[0], a, b)
		}
	}
	return c.mk(&Term{op: OpEq0, sort: SBool, args: []*Term{c.fromLin(l)}})
}

func (c *Ctx) ge0(l lin) *Term {
	if len(l.ts) == 0 {
		return c.Bool(l.k >= 0)
	}
	if len(l.ts) == 1 && l.co[0] == 1 && l.ts[0].op == OpIte {
		it := l.ts[0]
		a := c.ge0(linAdd(toLin(it.args[1]), lin{k: l.k}, 1))
		b := c.ge0(linAdd(toLin(it.args[2]), lin{k: l.k}, 1))
		if a.op <= OpFalse && b.op <= OpFalse {
			return c.Ite(it.args[0], a, b)
		}
	}
	if len(l.ts) == 1 && (l.co[0] > 1 || l.co[0] < -1) {
		m := l.co[0]
		if m < 0 {
			m = -m
		}
		k := l.k / m
		if l.k%m != 0 && l.k < 0 {
			k--
		}
		l = lin{k: k, ts: l.ts, co: []int64{l.co[0] / m}}
	}
	return c.mk(&Term{op: OpGe0, sort: SBool, args: []*Term{c.fromLin(l)}})
}

func (c *Ctx) Ge(a, b *Term) *Term { return c.ge0(linAdd(toLin(a), toLin(b), -1)) }
func (c *Ctx) Le(a, b *Term) *Term { return c.Ge(b, a) }
func (c *Ctx) Gt(a, b *Term) *Term { return c.Ge(a, c.AddK(b, 1)) }
func (c *Ctx) Lt(a, b *Term) *Term { return c.Gt(b, a) }

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq of different sorts: %v:%s %v:%s", a, a.sort, b, b.sort))
	}
	switch a.sort {
	case SInt:
		return c.eq0(linAdd(toLin(a), toLin(b), -1))
	case SBool:
		if a == c.True {
			return b
		}
		if b == c.True {
			return a
		}
		if a == c.False {
			return c.Not(b)
		}
		if b == c.False {
			return c.Not(a)
		}
		if a.op == OpNot && b.op == OpNot {
			return c.Eq(a.args[0], b.args[0])
		}
		if c.Not(a) == b {
			return c.False
		}
	case SStr:
		if a.op == OpStrC && b.op == OpStrC {
			return c.False
		}
		if a.op == OpApp && b.op == OpApp && a.name == "chr" && b.name == "chr" {
			return c.Eq(a.args[0], b.args[0])
		}
		if r := c.eqStrConst(a, b); r != nil {
			return r
		}
		if r := c.eqStrConst(b, a); r != nil {
			return r
		}
	}
	if a.op == OpApp && b.op == OpApp && a.name == b.name && (strings.HasPrefix(a.name, "mk!") || a.name == "snoc") && len(a.args) == len(b.args) {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, c.Eq(a.args[i], b.args[i]))
		}
		return c.And(cs...)
	}
	if a.op == OpIte && b.op == OpIte && a.args[0] == b.args[0] {
		return c.Ite(a.args[0], c.Eq(a.args[1], b.args[1]), c.Eq(a.args[2], b.args[2]))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OpEq, sort: SBool, args: []*Term{a, b}})
}

func (c *Ctx) eqStrConst(a, b *Term) *Term {
	if b.op != OpStrC {
		return nil
	}
	if a.op == OpIte {
		x, y := c.Eq(a.args[1], b), c.Eq(a.args[2], b)
		if x.op <= OpFalse || y.op <= OpFalse {
			return c.Ite(a.args[0], x, y)
		}
	}
	if a.op == OpApp && a.name == "chr" {
		rs := []rune(b.name)
		if len(rs) != 1 {
			return c.False
		}
		return c.Eq(a.args[0], c.Int(int64(rs[0])))
	}
	return nil
}

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case OpTrue:
		return c.False
	case OpFalse:
		return c.True
	case OpNot:
		return a.args[0]
	case OpGe0: // not(l>=0) = -l-1>=0
		l := linAdd(lin{k: -1}, toLin(a.args[0]), -1)
		return c.ge0(l)
	case OpAnd:
		var xs []*Term
		for _, x := range a.args {
			xs = append(xs, c.Not(x))
		}
		return c.Or(xs...)
	case OpOr:
		var xs []*Term
		for _, x := range a.args {
			xs = append(xs, c.Not(x))
		}
		return c.And(xs...)
	case OpIte:
		return c.Ite(a.args[0], c.Not(a.args[1]), c.Not(a.args[2]))
	}
	return c.mk(&Term{op: OpNot, sort: SBool, args: []*Term{a}})
}

func (c *Ctx) And(xs ...*Term) *Term { return c.nary(OpAnd, xs) }
func (c *Ctx) Or(xs ...*Term) *Term  { return c.nary(OpOr, xs) }
func (c *Ctx) Implies(a, b *Term) *Term {
	return c.Or(c.Not(a), b)
}

func (c *Ctx) nary(op Op, xs []*Term) *Term {
	unit, zero := c.True, c.False
	if op == OpOr {
		unit, zero = zero, unit
	}
	seen := map[int]bool{}
	var out []*Term
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit || seen[x.id] {
			return true
		}
		if x == zero {
			return false
		}
		if x.op == op {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if n := c.Not(x); seen[n.id] {
			return false
		}
		seen[x.id] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk(&Term{op: op, sort: SBool, args: out})
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond == c.True || a == b {
		return a
	}
	if cond == c.False {
		return b
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite of different sorts %s %s", a.sort, b.sort))
	}
	if cond.op == OpNot {
		return c.Ite(cond.args[0], b, a)
	}
	if a.sort == SBool {
		if a == c.True && b == c.False {
			return cond
		}
		if a == c.False && b == c.True {
			return c.Not(cond)
		}
		if a == c.True {
			return c.Or(cond, b)
		}
		if a == c.False {
			return c.And(c.Not(cond), b)
		}
		if b == c.True {
			return c.Or(c.Not(cond), a)
		}
		if b == c.False {
			return c.And(cond, a)
		}
	}
	if a.op == OpIte && a.args[0] == cond {
		a = a.args[1]
	}
	if b.op == OpIte && b.args[0] == cond {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return c.mk(&Term{op: OpIte, sort: a.sort, args: []*Term{cond, a, b}})
}

// App builds an application with background simplifications.
func (c *Ctx) App(name string, s Sort, args ...*Term) *Term {
	switch name {
	case "cat":
		return c.Cat(args[0], args[1])
	case "str":
		if args[0] == args[1] {
			return c.StrC("")
		}
	case "chr":
		if args[0].isInt() {
			return c.StrC(string(rune(args[0].k)))
		}
	case "seqI", "seqS", "seqB":
		return c.SeqOf(args[0], args[1], args[2])
	case "take":
		return c.Take(args[0], args[1])
	case "concat":
		return c.Concat(args[0], args[1])
	case "sel":
		return c.Sel(args[0], args[1])
	case "strlen":
		if args[0].isStr() {
			return c.Int(int64(len(args[0].name)))
		}
	case "rlen":
		if args[0].isStr() {
			return c.Int(int64(len([]rune(args[0].name))))
		}
		if args[0].op == OpApp && args[0].name == "str" {
			// str(a,b) is only ever built for a <= b
			break
		}
	case "lenI", "lenS":
		switch q := args[0]; {
		case isEmptySeq(q):
			return c.Int(0)
		case q.op == OpApp && (q.name == "seqI" || q.name == "seqS"):
			return q.args[2]
		case isApp(q, "snoc"):
			return c.AddK(c.App(name, SInt, q.args[0]), 1)
		}
	case "hasPrefix":
		if args[0].isStr() && args[1].isStr() {
			return c.Bool(strings.HasPrefix(args[0].name, args[1].name))
		}
	case "bitand":
		if args[0].isInt() && args[1].isInt() {
			return c.Int(args[0].k & args[1].k)
		}
	case "bitor":
		if args[0].isInt() && args[1].isInt() {
			return c.Int(args[0].k | args[1].k)
		}
	case "mgetI", "mgetS":
		return c.MGet(args[0], args[1])
	case "mhasI", "mhasS":
		return c.MHas(args[0], args[1])
	}
	if name == "ext:strings.Join#0.0" {
		if q := args[0]; isEmptySeq(q) {
			return c.StrC("")
		} else if isApp(q, "snoc") {
			// the elements up to the last, a separator and the last
			rest := c.App(name, s, q.args[0], args[1])
			return c.Ite(c.Eq(c.App("lenS", SInt, q.args[0]), c.Int(0)), q.args[1], c.Cat(c.Cat(rest, args[1]), q.args[1]))
		} else if q.op == OpIte {
			return c.Ite(q.args[0], c.App(name, s, q.args[1], args[1]), c.App(name, s, q.args[2], args[1]))
		}
	}
	if strings.HasPrefix(name, "mapval!") {
		return c.MapVal(name[len("mapval!"):], args[0])
	}
	if strings.HasPrefix(name, "val!") {
		return c.Val(name[len("val!"):], args[0])
	}
	return c.rawApp(name, s, args...)
}

// ---- strings

func (c *Ctx) Cat(a, b *Term) *Term {
	if a.isStr() && a.name == "" {
		return b
	}
	if b.isStr() && b.name == "" {
		return a
	}
	if b.op == OpApp && b.name == "cat" {
		return c.Cat(c.Cat(a, b.args[0]), b.args[1])
	}
	if b.op == OpIte {
		// keep the left factor outside
		return c.Ite(b.args[0], c.Cat(a, b.args[1]), c.Cat(a, b.args[2]))
	}
	if a.op == OpIte {
		return c.Ite(a.args[0], c.Cat(a.args[1], b), c.Cat(a.args[2], b))
	}
	if a.op == OpApp && a.name == "cat" && !isApp(a.args[1], "chr") {
		if m := c.catMerge(a.args[1], b); m != nil {
			return c.Cat(a.args[0], m)
		}
	}
	if m := c.catMerge(a, b); m != nil {
		return m
	}
	return c.rawApp("cat", SStr, a, b)
}

func isApp(t *Term, n string) bool { return t.op == OpApp && t.name == n }

func (c *Ctx) catMerge(a, b *Term) *Term {
	if a.isStr() && b.isStr() {
		return c.StrC(a.name + b.name)
	}
	rng := func(t *Term) (*Term, *Term, bool) {
		if isApp(t, "str") {
			return t.args[0], t.args[1], true
		}
		if isApp(t, "chr") && isApp(t.args[0], "at") {
			return t.args[0].args[0], c.AddK(t.args[0].args[0], 1), true
		}
		return nil, nil, false
	}
	a0, a1, ok := rng(a)
	if !ok {
		return nil
	}
	b0, b1, ok := rng(b)
	if !ok || a1 != b0 {
		return nil
	}
	return c.rawApp("str", SStr, a0, b1)
}

// ---- array values and sequences

func seqSort(arr Sort) Sort {
	switch arr {
	case SArrI:
		return SSeqI
	case SArrS:
		return SSeqS
	}
	return SSeqB
}
func elemSortOfArr(arr Sort) Sort {
	switch arr {
	case SArrI:
		return SInt
	case SArrS:
		return SStr
	}
	return SBool
}
func arrSort(e Sort) Sort {
	switch e {
	case SInt:
		return SArrI
	case SStr:
		return SArrS
	case SBool:
		return SArrB
	}
	panic("arrSort " + string(e))
}
func elemSortOfSeq(s Sort) Sort {
	switch s {
	case SSeqI:
		return SInt
	case SSeqS:
		return SStr
	case SSeqB:
		return SBool
	}
	return SNode
}
func seqSortOfElem(s Sort) Sort {
	switch s {
	case SInt:
		return SSeqI
	case SStr:
		return SSeqS
	case SBool:
		return SSeqB
	}
	return SSeqN
}

func (c *Ctx) Empty(s Sort) *Term { return c.rawApp("empty"+string(s), s) }
func (c *Ctx) Snoc(s, x *Term) *Term {
	// fwd(a,b) . at(b) = fwd(a,b+1); rev(a,b) . at(a-1) = rev(a-1,b)
	if isApp(s, "fwd") && isApp(x, "at") && x.args[0] == s.args[1] {
		return c.rawApp("fwd", SSeqI, s.args[0], c.AddK(s.args[1], 1))
	}
	if isApp(s, "rev") && isApp(x, "at") && c.AddK(x.args[0], 1) == s.args[0] {
		return c.rawApp("rev", SSeqI, x.args[0], s.args[1])
	}
	return c.rawApp("snoc", s.sort, s, x)
}

func isEmptySeq(s *Term) bool { return s.op == OpApp && strings.HasPrefix(s.name, "empty") }

func (c *Ctx) Concat(a, b *Term) *Term {
	if isEmptySeq(b) {
		return a
	}
	if isEmptySeq(a) {
		return b
	}
	if isApp(b, "snoc") {
		return c.Snoc(c.Concat(a, b.args[0]), b.args[1])
	}
	if isApp(b, "concat") {
		return c.Concat(c.Concat(a, b.args[0]), b.args[1])
	}
	if b.op == OpIte {
		return c.Ite(b.args[0], c.Concat(a, b.args[1]), c.Concat(a, b.args[2]))
	}
	return c.rawApp("concat", a.sort, a, b)
}

func (c *Ctx) SeqOf(m, off, ln *Term) *Term {
	ss := seqSort(m.sort)
	if ln.isInt() && ln.k <= 0 {
		return c.Empty(ss)
	}
	if m.op == OpIte {
		return c.Ite(m.args[0], c.SeqOf(m.args[1], off, ln), c.SeqOf(m.args[2], off, ln))
	}
	if ln.op == OpIte {
		return c.Ite(ln.args[0], c.SeqOf(m, off, ln.args[1]), c.SeqOf(m, off, ln.args[2]))
	}
	if ai := c.appd[m.id]; ai != nil && ai.off == off {
		d := c.Sub(ln, ai.ln)
		if ai.xs != nil {
			if d.isInt() && d.k >= 0 && d.k <= int64(len(ai.xs)) {
				s := c.Empty(ss)
				if !(ai.ln.isInt() && ai.ln.k == 0) {
					s = c.SeqOf(ai.base, off, ai.ln)
				}
				for _, x := range ai.xs[:d.k] {
					s = c.Snoc(s, x)
				}
				return s
			}
		} else {
			if d.isInt() && d.k == 0 {
				return c.SeqOf(ai.base, off, ai.ln)
			}
			if d == ai.srcLen {
				s := c.Empty(ss)
				if !(ai.ln.isInt() && ai.ln.k == 0) {
					s = c.SeqOf(ai.base, off, ai.ln)
				}
				return c.Concat(s, ai.src)
			}
		}
	}
	if isApp(m, "upd") {
		// element update m = upd(base, idx, x)
		rel := c.Sub(m.args[1], off)
		if c.Sub(ln, rel).isInt() {
			d := c.Sub(ln, rel).k
			if d <= 0 {
				return c.SeqOf(m.args[0], off, ln)
			}
			if d == 1 {
				return c.Snoc(c.SeqOf(m.args[0], off, c.AddK(ln, -1)), m.args[2])
			}
		}
		// concrete small sequences
		if ln.isInt() && ln.k <= 64 {
			s := c.Empty(ss)
			for i := int64(0); i < ln.k; i++ {
				s = c.Snoc(s, c.Sel(m, c.AddK(off, i)))
			}
			return s
		}
	}
	return c.rawApp(map[Sort]string{SArrI: "seqI", SArrS: "seqS", SArrB: "seqB"}[m.sort], ss, m, off, ln)
}

func (c *Ctx) Take(s, n *Term) *Term {
	if n.isInt() && n.k == 0 {
		return c.Empty(s.sort)
	}
	return c.rawApp("take", s.sort, s, n)
}

func (c *Ctx) Sel(m, i *Term) *Term {
	es := elemSortOfArr(m.sort)
	if m.op == OpIte {
		return c.Ite(m.args[0], c.Sel(m.args[1], i), c.Sel(m.args[2], i))
	}
	if i.op == OpIte {
		return c.Ite(i.args[0], c.Sel(m, i.args[1]), c.Sel(m, i.args[2]))
	}
	if isApp(m, "upd") {
		return c.Ite(c.Eq(i, m.args[1]), m.args[2], c.Sel(m.args[0], i))
	}
	if strings.HasPrefix(m.name, "zero") && m.op == OpApp && len(m.args) == 0 {
		switch es {
		case SInt:
			return c.Int(0)
		case SStr:
			return c.StrC("")
		case SBool:
			return c.False
		}
	}
	if ai := c.appd[m.id]; ai != nil && ai.xs != nil {
		r := c.Sel(ai.base, i)
		for j, x := range ai.xs {
			r = c.Ite(c.Eq(i, c.AddK(c.Add(ai.off, ai.ln), int64(j))), x, r)
		}
		return r
	}
	return c.rawApp("sel"+string(es), es, m, i)
}

// Upd is an element update.
func (c *Ctx) Upd(m, i, x *Term) *Term {
	if isApp(m, "upd") && m.args[1] == i {
		m = m.args[0]
	}
	return c.rawApp("upd", m.sort, m, i, x)
}

// MapVal maps the abstraction function of the aspect a over a sequence of references.
func (c *Ctx) MapVal(a string, s *Term) *Term {
	switch {
	case isEmptySeq(s):
		return c.Empty(SSeqN)
	case isApp(s, "snoc"):
		return c.Snoc(c.MapVal(a, s.args[0]), c.Val(a, s.args[1]))
	case isApp(s, "concat"):
		return c.Concat(c.MapVal(a, s.args[0]), c.MapVal(a, s.args[1]))
	case s.op == OpIte:
		return c.Ite(s.args[0], c.MapVal(a, s.args[1]), c.MapVal(a, s.args[2]))
	case isApp(s, "seqI") && s.args[2].isInt() && s.args[2].k <= 2:
		q := c.Empty(SSeqN)
		for i := int64(0); i < s.args[2].k; i++ {
			q = c.Snoc(q, c.Val(a, c.Sel(s.args[0], c.AddK(s.args[1], i))))
		}
		return q
	}
	return c.rawApp("mapval!"+a, SSeqN, s)
}

func (c *Ctx) NilNode() *Term { return c.rawApp("nilnode", SNode) }
func (c *Ctx) Val(a string, r *Term) *Term {
	if r.isInt() && r.k == 0 {
		return c.NilNode()
	}
	if r.op == OpIte {
		return c.Ite(r.args[0], c.Val(a, r.args[1]), c.Val(a, r.args[2]))
	}
	return c.rawApp("val!"+a, SNode, r)
}

// ---- maps (value level): mempty, mput(m,k,v)

func (c *Ctx) MGet(m, k *Term) *Term {
	switch {
	case isApp(m, "mput"):
		return c.Ite(c.Eq(m.args[1], k), m.args[2], c.MGet(m.args[0], k))
	case isApp(m, "mempty"+string(m.sort)):
		return c.Int(0)
	case m.op == OpIte:
		return c.Ite(m.args[0], c.MGet(m.args[1], k), c.MGet(m.args[2], k))
	}
	n := "mgetI"
	if m.sort == SMapS {
		n = "mgetS"
	}
	return c.rawApp(n, SInt, m, k)
}
func (c *Ctx) MHas(m, k *Term) *Term {
	switch {
	case isApp(m, "mput"):
		return c.Or(c.Eq(m.args[1], k), c.MHas(m.args[0], k))
	case isApp(m, "mempty"+string(m.sort)):
		return c.False
	case m.op == OpIte:
		return c.Ite(m.args[0], c.MHas(m.args[1], k), c.MHas(m.args[2], k))
	}
	n := "mhasI"
	if m.sort == SMapS {
		n = "mhasS"
	}
	return c.rawApp(n, SBool, m, k)
}

// Rebuild rebuilds a term of the same head with new arguments (simplifying).
func (c *Ctx) Rebuild(t *Term, args []*Term) *Term {
	same := true
	for i := range args {
		if args[i] != t.args[i] {
			same = false
			break
		}
	}
	if same {
		return t
	}
	switch t.op {
	case OpApp:
		switch {
		case t.name == "snoc":
			return c.Snoc(args[0], args[1])
		case t.name == "upd":
			return c.Upd(args[0], args[1], args[2])
		case strings.HasPrefix(t.name, "sel") && (t.name == "selInt" || t.name == "selStr" || t.name == "selBool"):
			return c.Sel(args[0], args[1])
		}
		return c.App(t.name, t.sort, args...)
	case OpLin:
		l := lin{k: t.k}
		for i, a := range args {
			l = linAdd(l, toLin(a), t.co[i])
		}
		return c.fromLin(l)
	case OpIte:
		return c.Ite(args[0], args[1], args[2])
	case OpEq:
		return c.Eq(args[0], args[1])
	case OpEq0:
		return c.eq0(toLin(args[0]))
	case OpGe0:
		return c.ge0(toLin(args[0]))
	case OpNot:
		return c.Not(args[0])
	case OpAnd:
		return c.And(args...)
	case OpOr:
		return c.Or(args...)
	}
	return t
}

func (t *Term) String() string {
	return t.str(6)
}
func (t *Term) str(d int) string {
	if d == 0 {
		return "…"
	}
	switch t.op {
	case OpTrue:
		return "true"
	case OpFalse:
		return "false"
	case OpInt:
		return strconv.FormatInt(t.k, 10)
	case OpStrC:
		return strconv.Quote(t.name)
	case OpVar:
		return t.name
	case OpLin:
		var b []string
		for i, a := range t.args {
			switch t.co[i] {
			case 1:
				b = append(b, a.str(d-1))
			default:
				b = append(b, fmt.Sprintf("%d*%s", t.co[i], a.str(d-1)))
			}
		}
		if t.k != 0 {
			b = append(b, strconv.FormatInt(t.k, 10))
		}
		return "(" + strings.Join(b, " + ") + ")"
	}
	nm := t.name
	switch t.op {
	case OpIte:
		nm = "ite"
	case OpEq:
		nm = "="
	case OpEq0:
		nm = "=0"
	case OpGe0:
		nm = ">=0"
	case OpNot:
		nm = "not"
	case OpAnd:
		nm = "and"
	case OpOr:
		nm = "or"
	}
	var b []string
	for _, a := range t.args {
		b = append(b, a.str(d-1))
	}
	return nm + "(" + strings.Join(b, ", ") + ")"
}

// someNil: the reference may be nil although it is a new object otherwise.
func (c *Ctx) someNil(t *Term) bool {
	if t.op == OpIte {
		return c.someNil(t.args[1]) || c.someNil(t.args[2])
	}
	if t.isInt() {
		return t.k == 0
	}
	return c.mayNil[t.id]
}
