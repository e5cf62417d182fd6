package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Obligation is a verification condition.
type Obligation struct {
	Fn     string
	Tag    string
	Kind   string
	Pos    string
	Desc   string
	Status string // proved, failed, undecided
	By     string
	Millis int64
	Detail string
}

func (o *Obligation) ID() string {
	t := o.Tag
	if t == "" {
		t = "safety"
	}
	return o.Fn + "/" + t + "/" + o.Kind
}

// Exec verifies functions.
type Exec struct {
	P        *Program
	C        *Ctx
	Alloc0   *Term
	leafOf   map[string]leafRef
	generic  map[*SpecFn]*genericDef
	evAlloc  map[int]evAlloc
	evCtr    int
	stampCtr int
	muted    int
	solver   *Solver

	root      *ssa.Function
	rootName  string
	contract  *Contract
	abstract  bool // the state of the lexer is hidden
	sawKeep   bool
	rootMods  []modLoc
	entry     *State // state at the entry of the function under verification
	params    []Val
	measure   []*Term
	obls      map[string]*Obligation
	oblOrder  []*Obligation
	funcs     []FuncVal
	funcIDs   map[string]int
	steps     int
	deadline  time.Time
	globals   map[*types.Var]*globalInfo
	inRec     map[*ssa.Function]bool
	loopSeq   int
	wantTags  func(tag string) bool
	trace     bool
	loops     map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
	paths     int
	frameCtr  int
	failFast  bool
	recScc    map[*ssa.Function]int
	ufMemo    map[string]*Term
	stats     map[string]int
	externals map[string]bool
	keySorts  map[string]Sort
	prune     bool
	catDeep   bool
	pureFns   map[*ssa.Function]bool
	quick     int // invariants are assumed without a check
	bulkOK bool
	lemma  *SpecFn // the lemma that is being proved
	noHints   bool
	hintMiss  int
	newHints  map[string]map[string]bool
	busy      map[int]bool
}

func NewExec(P *Program) *Exec {
	E := &Exec{P: P, C: NewCtx(), leafOf: map[string]leafRef{}, evAlloc: map[int]evAlloc{}, obls: map[string]*Obligation{}, funcIDs: map[string]int{}, globals: map[*types.Var]*globalInfo{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}, stats: map[string]int{}, externals: map[string]bool{}, keySorts: map[string]Sort{}, pureFns: map[*ssa.Function]bool{}, busy: map[int]bool{}, newHints: map[string]map[string]bool{}}
	E.Alloc0 = E.C.Var("alloc0", SInt)
	E.C.isAlloc[E.Alloc0.id] = 1
	return E
}

func (E *Exec) newState() *State {
	s := &State{E: E, Alloc: E.Alloc0, lits: map[int]bool{}, subst: map[int]*Term{}, lo: map[int]int64{}, memo: map[int]*Term{}, noted: map[int]bool{}}
	s.Assume(E.C.Ge(E.Alloc0, E.C.Int(0)))
	n := E.C.App("N", SInt)
	s.Assume(E.C.Ge(n, E.C.Int(0)))
	return s
}

func (E *Exec) zeroTerm(s Sort) *Term {
	c := E.C
	switch s {
	case SInt:
		return c.Int(0)
	case SBool:
		return c.False
	case SStr:
		return c.StrC("")
	case SMapI, SMapS:
		return c.rawApp("mempty"+string(s), s)
	case SArrI, SArrS, SArrB:
		return c.rawApp("zero"+string(s), s)
	case SNode:
		return c.NilNode()
	}
	return c.Empty(s)
}

func (E *Exec) zeroVec(t types.Type) Vec {
	var v Vec
	for _, l := range Leaves(t) {
		v = append(v, E.zeroTerm(l.Sort))
	}
	return v
}

// ---- obligations

func (E *Exec) posStr(p token.Pos) string {
	ps := E.P.Fset.Position(p)
	f := ps.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+len("/repo/"):]
	} else {
		f = f[strings.LastIndex(f, "/")+1:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// oblige proves a goal in a state and records it.
func (E *Exec) oblige(s *State, tag, kind string, pos token.Pos, goal *Term, desc string) bool {
	if s.Dead {
		return true
	}
	g := s.Simp(goal)
	if E.muted > 0 {
		s.Assume(g)
		return true
	}
	if E.wantTags != nil && !E.wantTags(tag) {
		s.Assume(g)
		return true
	}
	o := E.obl(tag, kind, pos, desc)
	t0 := time.Now()
	ok, by := true, "simplifier"
	if g != E.C.True {
		ok, by = E.prove(s, g)
	}
	o.Millis += time.Since(t0).Milliseconds()
	if ok {
		if o.By == "" || by != "simplifier" {
			o.By = by
		}
	} else if o.Status == "proved" {
		o.Status = "failed"
		o.By = by
		o.Detail = fmt.Sprintf("goal: %s\npath: %s", g.str(8), strings.Join(s.Trail, " "))
		if E.trace {
			o.Detail += "\nfacts:"
			for _, f := range s.FactSlice() {
				o.Detail += "\n  " + f.str(9)
			}
		}
	}
	s.Assume(g)
	return ok
}

// proved records an obligation that was decided already.
func (E *Exec) proved(tag, kind string, pos token.Pos, desc string) {
	if E.muted > 0 || E.wantTags != nil && !E.wantTags(tag) {
		return
	}
	o := E.obl(tag, kind, pos, desc)
	o.By = E.solver.bin
}

func (E *Exec) obl(tag, kind string, pos token.Pos, desc string) *Obligation {
	ps := ""
	if pos.IsValid() {
		ps = E.posStr(pos)
	}
	k := tag + "|" + kind + "|" + ps + "|" + desc
	o := E.obls[k]
	if o == nil {
		fn := E.rootName
		if E.root != nil {
			fn = FuncName(E.root)
		}
		o = &Obligation{Fn: fn, Tag: tag, Kind: kind, Pos: ps, Desc: desc, Status: "proved"}
		E.obls[k] = o
		E.oblOrder = append(E.oblOrder, o)
	}
	return o
}

func (E *Exec) fail(tag, kind string, pos token.Pos, desc, detail string) {
	if E.muted > 0 {
		return
	}
	o := E.obl(tag, kind, pos, desc)
	o.Status = "undecided"
	o.Detail = detail
}

// ---- values

func (s *State) val(f *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return s.E.constVal(v)
	case *ssa.Global:
		return Addr{Ref: s.E.C.Int(0), Key: "global:" + shortPkg(v.Pkg.Pkg) + "." + v.Name(), Typ: v.Type().Underlying().(*types.Pointer).Elem()}
	case *ssa.Function:
		return FuncVal{Fn: v}
	case *ssa.Builtin:
		return v
	}
	r, ok := f.Regs[v]
	if !ok {
		bail("no value of %s in %s", v.Name(), f.Fn)
	}
	return r
}

func (s *State) vec(f *Frame, v ssa.Value) Vec {
	return s.asVec(s.val(f, v))
}

func (s *State) asVec(x Val) Vec {
	switch x := x.(type) {
	case Vec:
		return x
	case FuncVal:
		return Vec{s.E.C.Int(int64(s.E.funcID(x)))}
	case Addr:
		if x.Idx == nil && x.Key == objKey(x.Typ) {
			return Vec{x.Ref}
		}
		bail("an interior pointer is used as a value")
	}
	bail("unsupported value %T", x)
	return nil
}

func (E *Exec) funcID(f FuncVal) int {
	var b strings.Builder
	b.WriteString(f.Fn.String())
	for _, v := range f.Free {
		fmt.Fprintf(&b, "|%s", valKey(v))
	}
	if id, ok := E.funcIDs[b.String()]; ok {
		return id
	}
	E.funcs = append(E.funcs, f)
	id := len(E.funcs)
	E.funcIDs[b.String()] = id
	return id
}

func valKey(v Val) string {
	switch v := v.(type) {
	case Vec:
		var b strings.Builder
		for _, t := range v {
			fmt.Fprintf(&b, ",%d", t.id)
		}
		return b.String()
	case Addr:
		i := 0
		if v.Idx != nil {
			i = v.Idx.id
		}
		return fmt.Sprintf("&%d.%d.%s", v.Ref.id, i, v.Key)
	case FuncVal:
		r := v.Fn.String()
		for _, x := range v.Free {
			r += valKey(x)
		}
		return r
	}
	return fmt.Sprintf("%T", v)
}

func (E *Exec) constVal(v *ssa.Const) Val {
	c := E.C
	if v.Value == nil {
		return E.zeroVec(v.Type())
	}
	switch v.Value.Kind() {
	case constant.Bool:
		return Vec{c.Bool(constant.BoolVal(v.Value))}
	case constant.String:
		return Vec{c.StrC(constant.StringVal(v.Value))}
	case constant.Int:
		n, ok := constant.Int64Val(v.Value)
		if !ok {
			bail("constant %s is too large", v.Value)
		}
		return Vec{c.Int(n)}
	}
	bail("unsupported constant %s", v.Value)
	return nil
}

// addr resolves a pointer value to a location of the element type.
func (s *State) addr(v Val, el types.Type) Addr {
	switch v := v.(type) {
	case Addr:
		return v
	case Vec:
		return Addr{Ref: v[0], Key: objKey(el), Typ: el}
	}
	bail("not a pointer: %T", v)
	return Addr{}
}

func (s *State) load(a Addr) Vec {
	c := s.E.C
	if strings.HasPrefix(a.Key, "global:") {
		if v := s.E.constGlobalKey(s, a.Key); v != nil {
			return v
		}
	}
	var r Vec
	for _, l := range Leaves(a.Typ) {
		var t *Term
		if a.Idx != nil {
			base, rest := splitMemKey(a.Key)
			m := s.Lookup(base+rest+l.Path, a.Ref, arrSort(l.Sort))
			t = s.Simp(c.Sel(m, a.Idx))
		} else {
			t = s.Lookup(a.Key+l.Path, a.Ref, l.Sort)
		}
		r = append(r, t)
	}
	s.noteVec(r, a.Typ)
	for i := range r {
		r[i] = s.Simp(r[i])
	}
	if a.Idx != nil && s.E.P.isNodeElem(a.Typ) {
		// the nodes in slices are held: every store into one and every append sees to it
		if ref := r[len(r)-1]; ref.op == OpApp {
			held := []*Term{c.Eq(ref, c.Int(0)), s.Lookup("$sealed", ref, SBool)}
			for _, sr := range s.toSeal {
				held = append(held, c.Eq(ref, sr.ref))
			}
			s.Assume(c.Or(held...))
		}
	}
	return r
}

func (s *State) noteVec(r Vec, t types.Type) {
	c := s.E.C
	ls := Leaves(t)
	for i, l := range ls {
		if l.Ptr {
			s.noteLoaded(r[i])
		}
		if l.Kind == 'a' {
			s.sliceFacts(r[i : i+4])
		}
		if l.Kind == 't' && (r[i].op == OpVar || r[i].op == OpApp) {
			s.Assume(c.Ge(r[i], c.Int(0)))
		}
	}
}

func (s *State) sliceFacts(v Vec) {
	c := s.E.C
	if s.noted[-v[2].id] && s.noted[-v[3].id] {
		return
	}
	s.noted[-v[2].id] = true
	s.noted[-v[3].id] = true
	s.Assume(c.And(c.Ge(v[1], c.Int(0)), c.Ge(v[2], c.Int(0)), c.Ge(v[3], v[2])))
	s.Assume(c.Or(c.Not(c.Eq(v[0], c.Int(0))), c.Eq(v[3], c.Int(0))))
}

func splitMemKey(k string) (string, string) { return k, "" }

// nilCheck obliges that a reference is not nil.
func (s *State) nilCheck(ref *Term, pos token.Pos) {
	c := s.E.C
	if ref.isInt() && ref.k == 0 {
		s.E.oblige(s, "", "nil dereference", pos, c.False, "")
		return
	}
	if c.loStamp(ref) > 0 && !c.someNil(ref) {
		return
	}
	s.E.oblige(s, "", "nil dereference", pos, c.Not(c.Eq(ref, c.Int(0))), "")
}

// canWrite checks the frame: the location is fresh or in the modifies clause.
func (s *State) canWrite(key string, ref *Term, pos token.Pos) {
	E := s.E
	c := E.C
	ref = s.Simp(ref)
	if c.loStamp(ref) > 0 {
		return
	}
	var ds []*Term
	for _, m := range E.rootMods {
		if m.key != key {
			continue
		}
		if m.ref == nil {
			return
		}
		if s.Simp(m.ref) == ref {
			return
		}
		ds = append(ds, c.Eq(ref, m.ref))
	}
	if E.contract == nil {
		return
	}
	if key == "$prot" || key == "$sealed" {
		return
	}
	ds = append(ds, c.Gt(ref, E.Alloc0))
	if hasPrefixAny(key, "mem:") {
		ds = append(ds, c.Eq(ref, c.Int(0))) // the nil slice has no elements
	}
	E.oblige(s, "", "frame", pos, c.Or(ds...), "writes "+key+" outside of the modifies clause")
}

func (s *State) isNodeKey(key string) (string, bool) {
	i := strings.LastIndexByte(key, '.')
	for i > 0 {
		if _, ok := s.E.P.NodeTypes[key[:i]]; ok {
			return key[:i], true
		}
		i = strings.LastIndexByte(key[:i], '.')
	}
	return "", false
}

func (s *State) store(a Addr, v Vec, pos token.Pos) {
	E := s.E
	c := E.C
	if len(Leaves(a.Typ)) == 0 {
		return
	}
	if strings.HasPrefix(a.Key, "global:") {
		E.oblige(s, "", "frame", pos, c.False, "writes the global "+a.Key)
		return
	}
	if E.abstract && hasPrefixAny(a.Key, "lexer.Lexer.", "scanner.Scanner.") {
		s.pushStore(lexState, c.Int(1), c.Fresh("lexState", SInt))
	}
	first := true
	for i, l := range Leaves(a.Typ) {
		key := a.Key + l.Path
		if E.abstract && hiddenKey(key) {
			bail("the hidden state is written: %s", key)
		}
		s.canWrite(key, a.Ref, pos)
		if a.Idx != nil {
			if first && E.protected(a.Typ) {
				E.oblige(s, "", "shared element", pos, c.Ge(a.Idx, s.Lookup("$prot", a.Ref, SInt)), "writes an element of a slice that a syntax tree holds")
			}
			m := s.Lookup(key, a.Ref, arrSort(l.Sort))
			s.pushStore(key, a.Ref, c.Upd(m, a.Idx, v[i]))
		} else {
			if first {
				if _, ok := s.isNodeKey(key); ok {
					E.oblige(s, "", "shared node", pos, c.Not(s.Lookup("$sealed", a.Ref, SBool)), "changes a syntax tree node that is already held")
				}
			}
			s.pushStore(key, a.Ref, v[i])
		}
		first = false
	}
	if a.Idx == nil {
		if _, ok := s.isNodeKey(a.Key); !ok {
			return // a variable: it holds nothing for others
		}
	}
	s.noteSeal(v, a.Typ)
}

// protected: elements of slices that nodes hold.
func (E *Exec) protected(el types.Type) bool {
	if E.P.isNodeElem(el) {
		return true
	}
	b, ok := el.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// noteSeal remembers the nodes that are held after a store.
func (s *State) noteSeal(v Vec, t types.Type) {
	P := s.E.P
	if P.nodeTypeOf(t) != nil {
		if !v[0].isInt() {
			s.toSeal = append(s.toSeal, sealRef{v[0], t})
		}
		return
	}
	if it, ok := t.Underlying().(*types.Interface); ok {
		_ = it
		if v[0].isInt() && v[0].k != 0 {
			dt := P.typeOfID(v[0].k)
			if dt != nil && P.nodeTypeOf(dt) != nil {
				s.toSeal = append(s.toSeal, sealRef{v[1], dt})
			}
		} else if !v[0].isInt() && P.isNodeElem(t) && !v[1].isInt() {
			s.toSeal = append(s.toSeal, sealRef{v[1], nil})
		}
	}
}

// sealAll fixes the abstract values of the held nodes.
func (s *State) sealAll() {
	if len(s.toSeal) == 0 {
		return
	}
	E := s.E
	c := E.C
	todo := s.toSeal
	s.toSeal = nil
	for _, sr := range todo {
		ref := s.Simp(sr.ref)
		if ref.isInt() {
			continue
		}
		// also right when the node is sealed already: it has not changed since
		if sealed := s.Lookup("$sealed", ref, SBool); s.Simp(c.Or(c.Eq(ref, c.Int(0)), sealed)) == c.True {
			continue
		}
		if sr.typ == nil { // of unknown type: it must not change from now on
			s.pushStore("$sealed", ref, c.True)
			continue
		}
		nt := E.P.nodeTypeOf(sr.typ)
		ev := &Eval{E: E, St: s}
		n := ev.nodeOfRef(ref, nt)
		n.IsNil = c.False
		for _, a := range allAspects {
			s.Assume(c.Or(c.Eq(ref, c.Int(0)), c.Eq(c.rawApp("val!"+string(a), SNode, ref), ev.pack(n, byte(a)))))
			if ref.op != OpVar || c.mayNil[ref.id] {
				s.Assume(c.Or(c.Not(c.Eq(ref, c.Int(0))), c.Eq(c.rawApp("val!"+string(a), SNode, ref), c.NilNode())))
			}
		}
		s.pushStore("$sealed", ref, c.True)
		for i := 0; i < nt.St.NumFields(); i++ {
			f := nt.St.Field(i)
			if _, ok := f.Type().Underlying().(*types.Slice); !ok {
				continue
			}
			k := objKey(nt.Typ) + "." + f.Name()
			arr := s.Lookup(k+".arr", ref, SInt)
			if arr.isInt() {
				continue
			}
			s.noteLoaded(arr)
			arr = s.Simp(arr)
			if arr.isInt() {
				continue
			}
			end := c.Add(s.Lookup(k+".off", ref, SInt), s.Lookup(k+".len", ref, SInt))
			p := s.Lookup("$prot", arr, SInt)
			s.pushStore("$prot", arr, s.Simp(c.Ite(c.Ge(p, end), p, end)))
		}
	}
}

func (P *Program) typeOfID(id int64) types.Type { return P.typeByID[id] }

// ---- global variables

type globalInfo struct {
	known bool
	val   constant.Value
	elems []*ssa.MapUpdate
}

// globalInit finds the content of a global variable that only the package initialiser writes.
func (E *Exec) globalInit(g *types.Var) *globalInfo {
	if gi, ok := E.globals[g]; ok {
		return gi
	}
	gi := &globalInfo{}
	E.globals[g] = gi
	sp := E.P.SSAPkg[g.Pkg().Path()]
	if sp == nil {
		return gi
	}
	gv := sp.Var(g.Name())
	if gv == nil {
		return gi
	}
	var init ssa.Value
	stores := 0
	ok := true
	for _, f := range E.P.everyFunc() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(gv) {
						continue
					}
					switch in := in.(type) {
					case *ssa.Store:
						if in.Addr == ssa.Value(gv) && f.Name() == "init" && f.Synthetic != "" {
							stores++
							init = in.Val
						} else {
							ok = false
						}
					case *ssa.UnOp:
						if _, m := g.Type().Underlying().(*types.Map); m {
							for _, r := range *in.Referrers() {
								switch r.(type) {
								case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
								default:
									ok = false
								}
							}
						}
					default:
						ok = false
					}
				}
			}
		}
	}
	if !ok || stores != 1 {
		return gi
	}
	switch v := init.(type) {
	case *ssa.Const:
		if v.Value != nil {
			gi.known, gi.val = true, v.Value
		}
	case *ssa.MakeMap:
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.MapUpdate:
				if _, ok := r.Key.(*ssa.Const); !ok {
					return gi
				}
				gi.elems = append(gi.elems, r)
			case *ssa.Store, *ssa.DebugRef:
			default:
				return gi
			}
		}
		gi.known = true
	}
	return gi
}

func (P *Program) everyFunc() []*ssa.Function {
	if P.allFns == nil {
		var add func(f *ssa.Function)
		add = func(f *ssa.Function) {
			P.allFns = append(P.allFns, f)
			for _, a := range f.AnonFuncs {
				add(a)
			}
		}
		for _, f := range P.AllFuncs {
			add(f)
		}
		for _, sp := range P.SSAPkg {
			if f := sp.Func("init"); f != nil {
				add(f)
			}
		}
	}
	return P.allFns
}

func (E *Exec) constGlobalKey(s *State, key string) Vec {
	if key == "global:io.EOF" {
		return Vec{E.C.Var("ioEOF.tag", SInt), E.C.Var("ioEOF.ref", SInt)}
	}
	for _, sp := range E.P.SSAPkg {
		p := "global:" + shortPkg(sp.Pkg) + "."
		if strings.HasPrefix(key, p) {
			if v, ok := sp.Pkg.Scope().Lookup(key[len(p):]).(*types.Var); ok {
				return E.constGlobal(s, v)
			}
		}
	}
	return nil
}

func (E *Exec) constGlobal(s *State, g *types.Var) Vec {
	c := E.C
	if g.Pkg().Path() == "io" && g.Name() == "EOF" {
		return Vec{c.Var("ioEOF.tag", SInt), c.Var("ioEOF.ref", SInt)}
	}
	gi := E.globalInit(g)
	if !gi.known {
		return nil
	}
	if gi.val != nil {
		return E.constVal(ssa.NewConst(gi.val, g.Type())).(Vec)
	}
	// a map: a constant reference below every allocation
	ref := c.Var("gmap:"+shortPkg(g.Pkg())+"."+g.Name(), SInt)
	s.noteRef(ref, 0, E.Alloc0)
	s.Assume(c.Gt(ref, c.Int(0)))
	return Vec{ref}
}

// constMap is the content of a global map that is never changed.
func (E *Exec) constMap(ref *Term, srt Sort) *Term {
	if ref.op != OpVar || !strings.HasPrefix(ref.name, "gmap:") {
		return nil
	}
	c := E.C
	for g, gi := range E.globals {
		if !gi.known || gi.val != nil || "gmap:"+shortPkg(g.Pkg())+"."+g.Name() != ref.name {
			continue
		}
		m := E.zeroTerm(srt)
		for _, u := range gi.elems {
			k := E.constVal(u.Key.(*ssa.Const)).(Vec)[0]
			v := c.Int(0)
			if cv, ok := u.Value.(*ssa.Const); ok {
				if x := E.constVal(cv).(Vec); len(x) == 1 && x[0].sort == SInt {
					v = x[0]
				}
			}
			m = c.rawApp("mput", srt, m, k, v)
		}
		return m
	}
	return nil
}

// ---- pure external functions

// pureApp is the value of an external function without effects, or nil when it is not known.
func (E *Exec) pureApp(name string, args Vec, res *types.Tuple) Vec {
	c := E.C
	switch name {
	case "strings.HasPrefix":
		return Vec{c.App("hasPrefix", SBool, args...)}
	case "unicode.IsSpace":
		return Vec{c.App("isSpace", SBool, args...)}
	case "unicode/utf8.RuneLen":
		return Vec{c.App("runeLen", SInt, args...)}
	case "unicode/utf8.DecodeRuneInString":
		return Vec{c.Ite(c.Eq(c.App("rlen", SInt, args[0]), c.Int(0)), c.Int(0xFFFD), c.App("rat", SInt, args[0], c.Int(0))), c.App("decodedSize", SInt, args[0])}
	case "unicode/utf8.DecodeLastRuneInString":
		n := c.App("rlen", SInt, args[0])
		return Vec{c.Ite(c.Eq(n, c.Int(0)), c.Int(0xFFFD), c.App("rat", SInt, args[0], c.AddK(n, -1))), c.App("decodedLastSize", SInt, args[0])}
	case "strings.TrimPrefix", "strings.TrimSuffix", "strings.Split", "strings.Join", "strings.HasSuffix", "strings.Contains", "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.ToUpper", "strings.ToLower", "strings.Repeat", "strings.ReplaceAll", "strings.EqualFold", "strings.Index", "strings.Count", "unicode.IsUpper", "unicode.IsLetter", "unicode.IsDigit", "strconv.Itoa", "path/filepath.Base", "unicode/utf8.RuneCountInString":
		var out Vec
		for i := 0; i < res.Len(); i++ {
			t := res.At(i).Type()
			if sl, ok := t.Underlying().(*types.Slice); ok {
				out = append(out, c.App("ext:"+name+"#"+itoa(i), seqSortOfElem(Leaves(sl.Elem())[0].Sort), args...))
				continue
			}
			for j, l := range Leaves(t) {
				out = append(out, c.App("ext:"+name+"#"+itoa(i)+"."+itoa(j), l.Sort, args...))
			}
		}
		return out
	}
	return nil
}

// sortedFuncs lists the functions of the repository by name.
func (P *Program) sortedFuncs() []*ssa.Function {
	var r []*ssa.Function
	for _, f := range P.AllFuncs {
		r = append(r, f)
	}
	sort.Slice(r, func(i, j int) bool { return FuncName(r[i]) < FuncName(r[j]) })
	return r
}
