package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/packages"
)

// SV is a specification value.
type SV interface{}

type SVec struct {
	T   Vec
	Typ types.Type
}
type SNodeV struct {
	NT    *NodeType
	IsNil *Term
	L     []*Term
}
type SPack struct{ T [4]*Term }
type SSeqNV struct{ T [4]*Term }
type SSeqV struct{ T *Term }
type SStruct struct {
	Typ types.Type
	F   []SV
}
type STuple []SV
type SFunc struct{ F *SpecFn }
type SNil struct{}

// specLeaf is a leaf of a specification value.
type specLeaf struct {
	Path    string
	Sort    Sort
	Aspects string
}

func (P *Program) specLeaves(t types.Type) []specLeaf {
	if nt := P.nodeTypeOf(t); nt != nil {
		r := []specLeaf{{"isnil", SBool, ""}}
		for _, l := range nt.Leaves {
			r = append(r, specLeaf{l.Path, l.Sort, l.Aspects})
		}
		return r
	}
	if P.isNodeElem(t) {
		var r []specLeaf
		for _, a := range allAspects {
			r = append(r, specLeaf{"@" + string(a), SNode, string(a)})
		}
		return r
	}
	if sl, ok := t.Underlying().(*types.Slice); ok {
		if P.isNodeElem(sl.Elem()) {
			var r []specLeaf
			for _, a := range allAspects {
				r = append(r, specLeaf{"@" + string(a), SSeqN, string(a)})
			}
			return r
		}
		return []specLeaf{{"", seqSortOfElem(Leaves(sl.Elem())[0].Sort), ""}}
	}
	if st, ok := t.Underlying().(*types.Struct); ok && !isIntMap(t) {
		var r []specLeaf
		for i := 0; i < st.NumFields(); i++ {
			for _, l := range P.specLeaves(st.Field(i).Type()) {
				r = append(r, specLeaf{"." + st.Field(i).Name() + l.Path, l.Sort, l.Aspects})
			}
		}
		return r
	}
	var r []specLeaf
	for _, l := range Leaves(t) {
		r = append(r, specLeaf{l.Path, l.Sort, ""})
	}
	return r
}

func aspIdx(a byte) int { return strings.IndexByte(allAspects, a) }

// Eval evaluates specification expressions in a state.
type Eval struct {
	E    *Exec
	St   *State // current state
	Pkg  *packages.Package
	Env  map[types.Object]SV
	hook *contractHook
	pc   []*Term
	// the evaluator of the entry state of a loop
	entry *Eval
	// opaque functions that are unfolded when called directly
	unfoldOnce map[*SpecFn]bool
	reveals    bool  // the reveal statements take effect
	uses       bool  // the use statements take effect
	preAlloc   *Term // the allocation level before the call
	depth      int
}

type contractHook struct {
	requires func(tag string, t *Term, pos token.Pos)
	ensures  func(tag string, t *Term, pos token.Pos)
	modifies func(locs []modLoc)
	post     func(ev *Eval)
	measure  func(ts []*Term)
	fresh    func(v SV, cond *Term, pos token.Pos)
}

func (ev *Eval) fork() *Eval {
	n := *ev
	n.Env = make(map[types.Object]SV, len(ev.Env))
	for k, v := range ev.Env {
		n.Env[k] = v
	}
	return &n
}

func (ev *Eval) C() *Ctx { return ev.E.C }

func (ev *Eval) typeOf(e ast.Expr) types.Type { return ev.Pkg.TypesInfo.TypeOf(e) }

func (ev *Eval) bail(n ast.Node, f string, a ...interface{}) {
	bail("%s: %s", ev.E.P.Fset.Position(n.Pos()), fmt.Sprintf(f, a...))
}

// flatten turns a value into the spec leaves of the type.
func (ev *Eval) flatten(v SV, t types.Type) []*Term {
	P := ev.E.P
	if nt := P.nodeTypeOf(t); nt != nil {
		n := ev.toNode(v, nt)
		return append([]*Term{n.IsNil}, n.L...)
	}
	if P.isNodeElem(t) {
		p := ev.toPack(v)
		return p.T[:]
	}
	if sl, ok := t.Underlying().(*types.Slice); ok {
		if P.isNodeElem(sl.Elem()) {
			s := ev.toSeqN(v)
			return s.T[:]
		}
		return []*Term{ev.toSeq(v, sl.Elem())}
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		switch v := v.(type) {
		case SStruct:
			var r []*Term
			for i := 0; i < st.NumFields(); i++ {
				r = append(r, ev.flatten(v.F[i], st.Field(i).Type())...)
			}
			return r
		case SVec:
			return v.T
		}
	}
	switch v := v.(type) {
	case SVec:
		return v.T
	case SNil:
		var r []*Term
		for range Leaves(t) {
			r = append(r, ev.C().Int(0))
		}
		return r
	}
	bail("cannot flatten %T as %s", v, t)
	return nil
}

// unflatten is the inverse.
func (ev *Eval) unflatten(ts []*Term, t types.Type) (SV, []*Term) {
	P := ev.E.P
	if nt := P.nodeTypeOf(t); nt != nil {
		n := len(nt.Leaves)
		return &SNodeV{NT: nt, IsNil: ts[0], L: ts[1 : n+1]}, ts[n+1:]
	}
	if P.isNodeElem(t) {
		var p SPack
		copy(p.T[:], ts[:4])
		return p, ts[4:]
	}
	if sl, ok := t.Underlying().(*types.Slice); ok {
		if P.isNodeElem(sl.Elem()) {
			var p SSeqNV
			copy(p.T[:], ts[:4])
			return p, ts[4:]
		}
		return SSeqV{ts[0]}, ts[1:]
	}
	if st, ok := t.Underlying().(*types.Struct); ok && !isIntMap(t) {
		s := SStruct{Typ: t}
		plain := true
		var all Vec
		for i := 0; i < st.NumFields(); i++ {
			var f SV
			f, ts = ev.unflatten(ts, st.Field(i).Type())
			s.F = append(s.F, f)
			if x, ok := f.(SVec); ok {
				all = append(all, x.T...)
			} else {
				plain = false
			}
		}
		if plain {
			return SVec{all, t}, ts
		}
		return s, ts
	}
	n := len(Leaves(t))
	return SVec{Vec(ts[:n]), t}, ts[n:]
}

// real pointer to expanded node
func (ev *Eval) nodeOfRef(ref *Term, nt *NodeType) *SNodeV {
	c := ev.C()
	n := &SNodeV{NT: nt, IsNil: c.Eq(ref, c.Int(0))}
	for _, l := range nt.Leaves {
		f := nt.St.Field(l.Field)
		key := objKey(nt.Typ) + "." + f.Name()
		switch l.Kind {
		case 'n':
			r := ev.St.Lookup(key, ref, SInt)
			n.L = append(n.L, c.Val(string(l.Asp), r))
		case 's', 'q':
			el := f.Type().Underlying().(*types.Slice).Elem()
			arr := ev.St.Lookup(key+".arr", ref, SInt)
			off := ev.St.Lookup(key+".off", ref, SInt)
			ln := ev.St.Lookup(key+".len", ref, SInt)
			if l.Kind == 's' {
				n.L = append(n.L, c.MapVal(string(l.Asp), ev.seqOf(el, arr, off, ln)))
			} else {
				n.L = append(n.L, ev.seqOf(el, arr, off, ln))
			}
		default:
			n.L = append(n.L, ev.St.Lookup(key+l.Sub, ref, l.Sort))
		}
	}
	return n
}

// seqOf is the content of a slice with single-leaf elements (or the references of interface elements).
func (ev *Eval) seqOf(el types.Type, arr, off, ln *Term) *Term {
	ls := Leaves(el)
	l := ls[0]
	if len(ls) == 2 && ls[1].Kind == 'r' {
		l = ls[1]
	} else if len(ls) != 1 {
		bail("seqOf %s", el)
	}
	m := ev.St.Lookup(memKey(el)+l.Path, arr, arrSort(l.Sort))
	return ev.C().SeqOf(m, off, ln)
}

func (ev *Eval) toNode(v SV, nt *NodeType) *SNodeV {
	c := ev.C()
	switch v := v.(type) {
	case *SNodeV:
		return v
	case SNil:
		n := &SNodeV{NT: nt, IsNil: c.True}
		for _, l := range nt.Leaves {
			n.L = append(n.L, ev.zeroLeaf(l.Sort))
		}
		return n
	case SVec:
		return ev.nodeOfRef(v.T[0], nt)
	}
	bail("not a node: %T", v)
	return nil
}

func (ev *Eval) zeroLeaf(s Sort) *Term {
	c := ev.C()
	switch s {
	case SInt:
		return c.Int(0)
	case SBool:
		return c.False
	case SStr:
		return c.StrC("")
	case SNode:
		return c.NilNode()
	}
	return c.Empty(s)
}

func (ev *Eval) pack(n *SNodeV, a byte) *Term {
	c := ev.C()
	var as []*Term
	for i, l := range n.NT.Leaves {
		if strings.IndexByte(l.Aspects, a) >= 0 {
			as = append(as, n.L[i])
		}
	}
	return c.Ite(n.IsNil, c.NilNode(), c.rawApp("mk!"+n.NT.Name+"!"+string(a), SNode, as...))
}

func (ev *Eval) toPack(v SV) SPack {
	var p SPack
	c := ev.C()
	switch v := v.(type) {
	case SPack:
		return v
	case *SNodeV:
		for i := range allAspects {
			p.T[i] = ev.pack(v, allAspects[i])
		}
		return p
	case SNil:
		for i := range allAspects {
			p.T[i] = c.NilNode()
		}
		return p
	case SVec:
		r := v.T[len(v.T)-1]
		for i := range allAspects {
			p.T[i] = c.Val(allAspects[i:i+1], r)
		}
		return p
	}
	bail("not a node value: %T", v)
	return p
}

func (ev *Eval) toSeqN(v SV) SSeqNV {
	var p SSeqNV
	c := ev.C()
	switch v := v.(type) {
	case SSeqNV:
		return v
	case SNil:
		for i := range allAspects {
			p.T[i] = c.Empty(SSeqN)
		}
		return p
	case SVec:
		el := v.Typ.Underlying().(*types.Slice).Elem()
		s := ev.seqOf(el, v.T[0], v.T[1], v.T[2])
		for i := range allAspects {
			p.T[i] = c.MapVal(allAspects[i:i+1], s)
		}
		return p
	}
	bail("not a node sequence: %T", v)
	return p
}

func (ev *Eval) toSeq(v SV, el types.Type) *Term {
	switch v := v.(type) {
	case SSeqV:
		return v.T
	case SNil:
		return ev.C().Empty(seqSortOfElem(Leaves(el)[0].Sort))
	case SVec:
		if len(v.T) == 4 {
			return ev.seqOf(v.Typ.Underlying().(*types.Slice).Elem(), v.T[0], v.T[1], v.T[2])
		}
	}
	bail("not a sequence: %T", v)
	return nil
}

// ---- statements

// body evaluates a function body to its results.
func (ev *Eval) body(fd *ast.FuncDecl, pkg *packages.Package, args []SV) []SV {
	n := &Eval{E: ev.E, St: ev.St, Pkg: pkg, Env: map[types.Object]SV{}, depth: ev.depth + 1, hook: ev.hook, pc: ev.pc, unfoldOnce: ev.unfoldOnce, reveals: ev.reveals, preAlloc: ev.preAlloc}
	if n.depth > 60 {
		bail("specification recursion too deep at %s", fd.Name.Name)
	}
	i := 0
	for _, f := range fd.Type.Params.List {
		for _, nm := range f.Names {
			if o := pkg.TypesInfo.Defs[nm]; o != nil {
				n.Env[o] = args[i]
			}
			i++
		}
	}
	var rts []types.Type
	sig := pkg.TypesInfo.Defs[fd.Name].(*types.Func).Type().(*types.Signature)
	for j := 0; j < sig.Results().Len(); j++ {
		rts = append(rts, sig.Results().At(j).Type())
		if r := sig.Results().At(j); r.Name() != "" && r.Name() != "_" {
			n.Env[r] = n.zero(r.Type())
		}
	}
	return n.stmts(fd.Body.List, rts, sig)
}

func (ev *Eval) stmts(list []ast.Stmt, rts []types.Type, sig *types.Signature) []SV {
	for i, st := range list {
		rest := list[i+1:]
		switch st := st.(type) {
		case *ast.ReturnStmt:
			var out []SV
			if len(st.Results) == 0 {
				for j := 0; j < sig.Results().Len(); j++ {
					out = append(out, ev.Env[sig.Results().At(j)])
				}
				return out
			}
			if len(st.Results) == 1 && len(rts) > 1 {
				return ev.expr(st.Results[0]).(STuple)
			}
			for _, r := range st.Results {
				out = append(out, ev.expr(r))
			}
			return out
		case *ast.IfStmt:
			if st.Init != nil {
				ev.simple(st.Init)
			}
			cond := ev.boolean(st.Cond)
			var els []ast.Stmt
			if st.Else != nil {
				if b, ok := st.Else.(*ast.BlockStmt); ok {
					els = b.List
				} else {
					els = []ast.Stmt{st.Else}
				}
			}
			if !hasReturn(st) {
				ev.ifMerge(cond, st.Body.List, els, rts, sig)
				continue
			}
			return ev.branch(cond, append(append([]ast.Stmt(nil), st.Body.List...), rest...), append(append([]ast.Stmt(nil), els...), rest...), rts, sig)
		case *ast.SwitchStmt:
			if st.Init != nil {
				ev.simple(st.Init)
			}
			return ev.switchStmt(st, 0, rest, rts, sig)
		case *ast.BlockStmt:
			return ev.stmts(append(append([]ast.Stmt(nil), st.List...), rest...), rts, sig)
		default:
			ev.simple(st)
		}
	}
	return nil
}

func (ev *Eval) branch(cond *Term, a, b []ast.Stmt, rts []types.Type, sig *types.Signature) []SV {
	c := ev.C()
	if cond == c.True {
		return ev.stmts(a, rts, sig)
	}
	if cond == c.False {
		return ev.stmts(b, rts, sig)
	}
	e1, e2 := ev.fork(), ev.fork()
	sa, sb := ev.St.Clone(), ev.St.Clone()
	sa.Assume(cond)
	sb.Assume(c.Not(cond))
	if sa.Dead {
		return ev.stmts(b, rts, sig)
	}
	if sb.Dead {
		return ev.stmts(a, rts, sig)
	}
	e1.St, e2.St = sa, sb
	e1.pc = append(append([]*Term(nil), ev.pc...), cond)
	e2.pc = append(append([]*Term(nil), ev.pc...), c.Not(cond))
	r1 := e1.stmts(a, rts, sig)
	r2 := e2.stmts(b, rts, sig)
	return ev.merge(cond, r1, r2, rts)
}

func hasReturn(n ast.Node) bool {
	r := false
	ast.Inspect(n, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.ReturnStmt, *ast.BranchStmt:
			r = true
		}
		return !r
	})
	return r
}

// ifMerge evaluates an if statement without return and merges the variables.
func (ev *Eval) ifMerge(cond *Term, a, b []ast.Stmt, rts []types.Type, sig *types.Signature) {
	c := ev.C()
	if cond == c.True {
		ev.stmts(a, rts, sig)
		return
	}
	if cond == c.False {
		ev.stmts(b, rts, sig)
		return
	}
	e1, e2 := ev.fork(), ev.fork()
	e1.St, e2.St = ev.St.Clone(), ev.St.Clone()
	e1.St.Assume(cond)
	e2.St.Assume(c.Not(cond))
	e1.pc = append(append([]*Term(nil), ev.pc...), cond)
	e2.pc = append(append([]*Term(nil), ev.pc...), c.Not(cond))
	if e1.St.Dead {
		ev.stmts(b, rts, sig)
		return
	}
	if e2.St.Dead {
		ev.stmts(a, rts, sig)
		return
	}
	e1.stmts(a, rts, sig)
	e2.stmts(b, rts, sig)
	for o, v := range ev.Env {
		x, y := e1.Env[o], e2.Env[o]
		if svEqual(x, y) {
			if !svEqual(x, v) {
				ev.Env[o] = x
			}
			continue
		}
		t := o.Type()
		fx, fy := ev.flatten(x, t), ev.flatten(y, t)
		m := make([]*Term, len(fx))
		for j := range fx {
			m[j] = c.Ite(cond, fx[j], fy[j])
		}
		ev.Env[o], _ = ev.unflatten(m, t)
	}
}

func svEqual(a, b SV) bool {
	switch x := a.(type) {
	case SVec:
		y, ok := b.(SVec)
		if !ok || len(x.T) != len(y.T) {
			return false
		}
		for i := range x.T {
			if x.T[i] != y.T[i] {
				return false
			}
		}
		return true
	case *SNodeV:
		y, ok := b.(*SNodeV)
		return ok && x == y
	case SPack:
		y, ok := b.(SPack)
		return ok && x == y
	case SSeqNV:
		y, ok := b.(SSeqNV)
		return ok && x == y
	case SSeqV:
		y, ok := b.(SSeqV)
		return ok && x == y
	case SNil:
		_, ok := b.(SNil)
		return ok
	case SFunc:
		y, ok := b.(SFunc)
		return ok && x == y
	}
	return false
}

func (ev *Eval) merge(cond *Term, r1, r2 []SV, rts []types.Type) []SV {
	var out []SV
	for i, t := range rts {
		a, b := ev.flatten(r1[i], t), ev.flatten(r2[i], t)
		m := make([]*Term, len(a))
		for j := range a {
			m[j] = ev.C().Ite(cond, a[j], b[j])
		}
		v, _ := ev.unflatten(m, t)
		out = append(out, v)
	}
	return out
}

func (ev *Eval) switchStmt(st *ast.SwitchStmt, i int, rest []ast.Stmt, rts []types.Type, sig *types.Signature) []SV {
	var def *ast.CaseClause
	for ; i < len(st.Body.List); i++ {
		cc := st.Body.List[i].(*ast.CaseClause)
		if cc.List == nil {
			continue
		}
		var conds []*Term
		for _, x := range cc.List {
			if st.Tag == nil {
				conds = append(conds, ev.boolean(x))
			} else {
				conds = append(conds, ev.equal(ev.expr(st.Tag), ev.expr(x), ev.typeOf(st.Tag), x))
			}
		}
		cond := ev.St.Simp(ev.C().Or(conds...))
		c := ev.C()
		if cond == c.False {
			continue
		}
		body := append(append([]ast.Stmt(nil), cc.Body...), rest...)
		if cond == c.True {
			return ev.stmts(body, rts, sig)
		}
		e1, e2 := ev.fork(), ev.fork()
		e1.St, e2.St = ev.St.Clone(), ev.St.Clone()
		e1.St.Assume(cond)
		e2.St.Assume(c.Not(cond))
		e1.pc = append(append([]*Term(nil), ev.pc...), cond)
		e2.pc = append(append([]*Term(nil), ev.pc...), c.Not(cond))
		if e1.St.Dead {
			continue
		}
		if e2.St.Dead {
			return ev.stmts(body, rts, sig)
		}
		r1 := e1.stmts(body, rts, sig)
		r2 := e2.switchStmt(st, i+1, rest, rts, sig)
		return ev.merge(cond, r1, r2, rts)
	}
	for _, s := range st.Body.List {
		if cc := s.(*ast.CaseClause); cc.List == nil {
			def = cc
		}
	}
	if def != nil {
		return ev.stmts(append(append([]ast.Stmt(nil), def.Body...), rest...), rts, sig)
	}
	return ev.stmts(rest, rts, sig)
}

func (ev *Eval) define(lhs ast.Expr, v SV) {
	switch l := lhs.(type) {
	case *ast.Ident:
		if l.Name == "_" {
			return
		}
		o := ev.Pkg.TypesInfo.Defs[l]
		if o == nil {
			o = ev.Pkg.TypesInfo.Uses[l]
		}
		if v == (SNil{}) {
			if _, ok := o.Type().Underlying().(*types.Basic); !ok {
				v = ev.zero(o.Type())
			}
		}
		ev.Env[o] = v
	case *ast.SelectorExpr:
		id, ok := l.X.(*ast.Ident)
		if !ok {
			ev.bail(lhs, "unsupported assignment")
		}
		o := ev.Pkg.TypesInfo.Uses[id]
		switch n := ev.Env[o].(type) {
		case *SNodeV:
			ev.Env[o] = ev.setField(n, l.Sel.Name, v)
			return
		case SStruct:
			st := n.Typ.Underlying().(*types.Struct)
			m := SStruct{Typ: n.Typ, F: append([]SV(nil), n.F...)}
			for i := range m.F {
				if st.Field(i).Name() == l.Sel.Name {
					m.F[i] = v
				}
			}
			ev.Env[o] = m
			return
		case SVec:
			if st, ok := n.Typ.Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == l.Sel.Name {
						a, b := fieldRange(n.Typ, i)
						m := append(Vec(nil), n.T...)
						copy(m[a:b], ev.flatten(v, st.Field(i).Type()))
						ev.Env[o] = SVec{m, n.Typ}
						return
					}
				}
			}
		}
		ev.bail(lhs, "unsupported assignment to a field of %T", ev.Env[o])
	default:
		ev.bail(lhs, "unsupported assignment")
	}
}

func (ev *Eval) setField(n *SNodeV, name string, v SV) *SNodeV {
	m := &SNodeV{NT: n.NT, IsNil: n.IsNil, L: append([]*Term(nil), n.L...)}
	found := false
	for i := 0; i < n.NT.St.NumFields(); i++ {
		f := n.NT.St.Field(i)
		if f.Name() != name {
			continue
		}
		found = true
		var sc []*Term
		k := 0
		for j, l := range n.NT.Leaves {
			if l.Field != i {
				continue
			}
			switch l.Kind {
			case 'n':
				m.L[j] = ev.toPack(v).T[aspIdx(l.Asp)]
			case 's':
				m.L[j] = ev.toSeqN(v).T[aspIdx(l.Asp)]
			case 'q':
				m.L[j] = ev.toSeq(v, f.Type().Underlying().(*types.Slice).Elem())
			default:
				if sc == nil {
					sc = ev.flatten(v, f.Type())
				}
				m.L[j] = sc[k]
				k++
			}
		}
	}
	if !found {
		bail("no field %s", name)
	}
	return m
}

func (ev *Eval) simple(st ast.Stmt) {
	switch st := st.(type) {
	case *ast.AssignStmt:
		if len(st.Rhs) == 1 && len(st.Lhs) > 1 {
			t, ok := ev.expr(st.Rhs[0]).(STuple)
			if !ok {
				ev.bail(st, "not a tuple")
			}
			for i, l := range st.Lhs {
				ev.define(l, t[i])
			}
			return
		}
		if st.Tok != token.ASSIGN && st.Tok != token.DEFINE {
			if st.Tok == token.ADD_ASSIGN {
				v := ev.binary(token.ADD, ev.expr(st.Lhs[0]), ev.expr(st.Rhs[0]), ev.typeOf(st.Lhs[0]), st)
				ev.define(st.Lhs[0], v)
				return
			}
			ev.bail(st, "unsupported assignment operator")
		}
		var vs []SV
		for _, r := range st.Rhs {
			vs = append(vs, ev.expr(r))
		}
		for i, l := range st.Lhs {
			ev.define(l, vs[i])
		}
	case *ast.DeclStmt:
		gd := st.Decl.(*ast.GenDecl)
		for _, s := range gd.Specs {
			vs, ok := s.(*ast.ValueSpec)
			if !ok {
				continue
			}
			for i, n := range vs.Names {
				o := ev.Pkg.TypesInfo.Defs[n]
				if len(vs.Values) > 0 {
					ev.Env[o] = ev.expr(vs.Values[i])
				} else {
					ev.Env[o] = ev.zero(o.Type())
				}
			}
		}
	case *ast.ExprStmt:
		ev.expr(st.X)
	case *ast.EmptyStmt:
	default:
		ev.bail(st, "unsupported statement %T", st)
	}
}

func (ev *Eval) zero(t types.Type) SV {
	if ev.E.P.nodeTypeOf(t) != nil || ev.E.P.isNodeElem(t) {
		return SNil{}
	}
	if _, ok := t.Underlying().(*types.Slice); ok {
		return SNil{}
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		var ts []*Term
		_ = st
		for _, l := range ev.E.P.specLeaves(t) {
			ts = append(ts, ev.zeroLeaf(l.Sort))
		}
		v, _ := ev.unflatten(ts, t)
		return v
	}
	var v Vec
	for _, l := range Leaves(t) {
		v = append(v, ev.zeroLeaf(l.Sort))
	}
	return SVec{v, t}
}

// ---- expressions

func (ev *Eval) boolean(e ast.Expr) *Term {
	v := ev.expr(e)
	sv, ok := v.(SVec)
	if !ok || len(sv.T) != 1 || sv.T[0].sort != SBool {
		ev.bail(e, "not a boolean: %T", v)
	}
	return ev.St.Simp(sv.T[0])
}

func (ev *Eval) term(e ast.Expr) *Term {
	v := ev.expr(e)
	sv, ok := v.(SVec)
	if !ok || len(sv.T) != 1 {
		ev.bail(e, "not a scalar: %T", v)
	}
	return sv.T[0]
}

func (ev *Eval) constVal(tv types.TypeAndValue) SV {
	c := ev.C()
	switch tv.Value.Kind() {
	case constant.Bool:
		return SVec{Vec{c.Bool(constant.BoolVal(tv.Value))}, tv.Type}
	case constant.String:
		return SVec{Vec{c.StrC(constant.StringVal(tv.Value))}, tv.Type}
	case constant.Int:
		n, _ := constant.Int64Val(tv.Value)
		return SVec{Vec{c.Int(n)}, tv.Type}
	}
	bail("unsupported constant %s", tv.Value)
	return nil
}

func (ev *Eval) expr(e ast.Expr) SV {
	if tv, ok := ev.Pkg.TypesInfo.Types[e]; ok && tv.Value != nil {
		return ev.constVal(tv)
	}
	c := ev.C()
	switch e := e.(type) {
	case *ast.ParenExpr:
		return ev.expr(e.X)
	case *ast.Ident:
		if e.Name == "nil" {
			return SNil{}
		}
		o := ev.Pkg.TypesInfo.Uses[e]
		if v, ok := ev.Env[o]; ok {
			return v
		}
		if f, ok := o.(*types.Func); ok {
			if sf := ev.E.P.SpecFns[f]; sf != nil {
				return SFunc{sf}
			}
		}
		if v, ok := o.(*types.Var); ok && v.Parent() == v.Pkg().Scope() {
			return ev.global(v)
		}
		ev.bail(e, "unknown identifier %s", e.Name)
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if _, ok := ev.Pkg.TypesInfo.Uses[id].(*types.PkgName); ok {
				switch o := ev.Pkg.TypesInfo.Uses[e.Sel].(type) {
				case *types.Var:
					return ev.global(o)
				case *types.Func:
					if sf := ev.E.P.SpecFns[o]; sf != nil {
						return SFunc{sf}
					}
				}
				ev.bail(e, "unsupported selector")
			}
		}
		sel := ev.Pkg.TypesInfo.Selections[e]
		if sel == nil || sel.Kind() != types.FieldVal {
			ev.bail(e, "unsupported selector %s", e.Sel.Name)
		}
		return ev.selectPath(ev.expr(e.X), sel.Recv(), sel.Index(), e)
	case *ast.StarExpr:
		v := ev.expr(e.X).(SVec)
		pt := v.Typ.Underlying().(*types.Pointer)
		return ev.loadObj(v.T[0], objKey(pt.Elem()), pt.Elem())
	case *ast.UnaryExpr:
		switch e.Op {
		case token.NOT:
			return SVec{Vec{c.Not(ev.term(e.X))}, ev.typeOf(e)}
		case token.SUB:
			return SVec{Vec{c.Sub(c.Int(0), ev.term(e.X))}, ev.typeOf(e)}
		case token.AND:
			if cl, ok := e.X.(*ast.CompositeLit); ok {
				return ev.composite(cl)
			}
		}
		ev.bail(e, "unsupported unary operator %s", e.Op)
	case *ast.BinaryExpr:
		switch e.Op {
		case token.LAND:
			a := ev.boolean(e.X)
			if a == c.False {
				return SVec{Vec{c.False}, ev.typeOf(e)}
			}
			return SVec{Vec{c.And(a, ev.under(a, e.Y))}, ev.typeOf(e)}
		case token.LOR:
			a := ev.boolean(e.X)
			if a == c.True {
				return SVec{Vec{c.True}, ev.typeOf(e)}
			}
			return SVec{Vec{c.Or(a, ev.under(c.Not(a), e.Y))}, ev.typeOf(e)}
		case token.EQL, token.NEQ:
			t := ev.typeOf(e.X)
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.UntypedNil {
				t = ev.typeOf(e.Y)
			}
			r := ev.equal(ev.expr(e.X), ev.expr(e.Y), t, e)
			if e.Op == token.NEQ {
				r = c.Not(r)
			}
			return SVec{Vec{r}, ev.typeOf(e)}
		}
		return ev.binary(e.Op, ev.expr(e.X), ev.expr(e.Y), ev.typeOf(e), e)
	case *ast.CompositeLit:
		return ev.composite(e)
	case *ast.SliceExpr:
		v := ev.expr(e.X)
		if sv, ok := v.(SVec); ok && len(sv.T) == 1 && sv.T[0].sort == SStr {
			lo := c.Int(0)
			if e.Low != nil {
				lo = ev.term(e.Low)
			}
			hi := c.App("strlen", SInt, sv.T[0])
			if e.High != nil {
				hi = ev.term(e.High)
			}
			return SVec{Vec{c.App("substr", SStr, sv.T[0], lo, hi)}, sv.Typ}
		}
		if sv, ok := v.(SVec); ok && len(sv.T) == 4 && e.Max == nil {
			lo, hi := c.Int(0), sv.T[2]
			if e.Low != nil {
				lo = ev.term(e.Low)
			}
			if e.High != nil {
				hi = ev.term(e.High)
			}
			return SVec{Vec{sv.T[0], c.Add(sv.T[1], lo), c.Sub(hi, lo), c.Sub(sv.T[3], lo)}, sv.Typ}
		}
		ev.bail(e, "unsupported slice expression")
	case *ast.IndexExpr:
		if m, ok := ev.typeOf(e.X).Underlying().(*types.Map); ok {
			mv := ev.expr(e.X).(SVec)
			key, srt := mapKey(m)
			mm := ev.St.Lookup(key, mv.T[0], srt)
			return SVec{Vec{c.MGet(mm, ev.term(e.Index))}, m.Elem()}
		}
		ev.bail(e, "unsupported index expression")
	case *ast.CallExpr:
		return ev.call(e)
	}
	ev.bail(e, "unsupported expression %T", e)
	return nil
}

func (ev *Eval) under(cond *Term, y ast.Expr) *Term {
	if cond == ev.C().True {
		return ev.boolean(y)
	}
	st := ev.St
	ev.St = st.Clone()
	ev.St.Assume(cond)
	r := ev.boolean(y)
	ev.St = st
	return r
}

func (ev *Eval) global(v *types.Var) SV {
	c := ev.C()
	if x := ev.E.constGlobal(ev.St, v); x != nil {
		return SVec{x, v.Type()}
	}
	var ts Vec
	for _, l := range Leaves(v.Type()) {
		ts = append(ts, ev.St.Lookup("global:"+shortPkg(v.Pkg())+"."+v.Name()+l.Path, c.Int(0), l.Sort))
	}
	return SVec{ts, v.Type()}
}

func (ev *Eval) loadObj(ref *Term, key string, t types.Type) SV {
	var ts Vec
	for _, l := range Leaves(t) {
		ts = append(ts, ev.St.Lookup(key+l.Path, ref, l.Sort))
	}
	ev.St.noteVec(ts, t)
	return SVec{ts, t}
}

func (ev *Eval) selectPath(v SV, recv types.Type, idx []int, at ast.Expr) SV {
	t := recv
	for _, i := range idx {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			st := p.Elem().Underlying().(*types.Struct)
			f := st.Field(i)
			switch x := v.(type) {
			case SVec:
				v = ev.loadObj(x.T[0], objKey(p.Elem())+"."+f.Name(), f.Type())
			case *SNodeV:
				v = ev.nodeField(x, i)
			case SNil:
				ev.bail(at, "field of nil")
			default:
				ev.bail(at, "field of %T", v)
			}
			t = f.Type()
			continue
		}
		st := t.Underlying().(*types.Struct)
		f := st.Field(i)
		switch x := v.(type) {
		case SVec:
			a, b := fieldRange(t, i)
			v = SVec{x.T[a:b], f.Type()}
		case SStruct:
			v = x.F[i]
		default:
			ev.bail(at, "field of %T", v)
		}
		t = f.Type()
	}
	return v
}

func (ev *Eval) nodeField(n *SNodeV, i int) SV {
	f := n.NT.St.Field(i)
	var p [4]*Term
	var sc Vec
	kind := byte(0)
	for j, l := range n.NT.Leaves {
		if l.Field != i {
			continue
		}
		kind = l.Kind
		switch l.Kind {
		case 'n', 's':
			p[aspIdx(l.Asp)] = n.L[j]
		default:
			sc = append(sc, n.L[j])
		}
	}
	switch kind {
	case 'n':
		return SPack{p}
	case 's':
		return SSeqNV{p}
	case 'q':
		return SSeqV{sc[0]}
	}
	return SVec{sc, f.Type()}
}

func (ev *Eval) composite(cl *ast.CompositeLit) SV {
	t := ev.typeOf(cl)
	pt := t
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
		pt = p
	} else {
		pt = types.NewPointer(t)
	}
	c := ev.C()
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if nt := ev.E.P.nodeTypeOf(pt); nt != nil {
			n := ev.toNode(SNil{}, nt)
			n.IsNil = c.False
			for _, el := range cl.Elts {
				kv := el.(*ast.KeyValueExpr)
				n = ev.setField(n, kv.Key.(*ast.Ident).Name, ev.expr(kv.Value))
			}
			return n
		}
		var fs []SV
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, ev.zero(u.Field(i).Type()))
		}
		for i, el := range cl.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == kv.Key.(*ast.Ident).Name {
						fs[j] = ev.expr(kv.Value)
					}
				}
			} else {
				fs[i] = ev.expr(el)
			}
		}
		var ts []*Term
		for i := 0; i < u.NumFields(); i++ {
			ts = append(ts, ev.flatten(fs[i], u.Field(i).Type())...)
		}
		v, _ := ev.unflatten(ts, t)
		return v
	case *types.Slice:
		var v SV = SNil{}
		for _, el := range cl.Elts {
			v = ev.appendOne(v, ev.expr(el), t)
		}
		return v
	}
	ev.bail(cl, "unsupported composite literal")
	return nil
}

func (ev *Eval) appendOne(s, x SV, t types.Type) SV {
	c := ev.C()
	el := t.Underlying().(*types.Slice).Elem()
	if ev.E.P.isNodeElem(el) {
		sq := ev.toSeqN(s)
		p := ev.toPack(x)
		for i := range sq.T {
			sq.T[i] = c.Snoc(sq.T[i], p.T[i])
		}
		return sq
	}
	return SSeqV{c.Snoc(ev.toSeq(s, el), x.(SVec).T[0])}
}

func (ev *Eval) binary(op token.Token, a, b SV, t types.Type, n ast.Node) SV {
	c := ev.C()
	x, ok1 := a.(SVec)
	y, ok2 := b.(SVec)
	if !ok1 || !ok2 || len(x.T) != 1 || len(y.T) != 1 {
		ev.bail(n, "unsupported operands of %s", op)
	}
	p, q := x.T[0], y.T[0]
	var r *Term
	switch op {
	case token.ADD:
		if p.sort == SStr {
			r = c.Cat(p, q)
		} else {
			r = c.Add(p, q)
		}
	case token.SUB:
		r = c.Sub(p, q)
	case token.MUL:
		r = c.Mul(p, q)
	case token.AND:
		r = c.App("bitand", SInt, p, q)
	case token.OR:
		r = c.App("bitor", SInt, p, q)
	case token.LSS:
		r = c.Lt(p, q)
	case token.LEQ:
		r = c.Le(p, q)
	case token.GTR:
		r = c.Gt(p, q)
	case token.GEQ:
		r = c.Ge(p, q)
	default:
		ev.bail(n, "unsupported operator %s", op)
	}
	return SVec{Vec{r}, t}
}

func (ev *Eval) equal(a, b SV, t types.Type, n ast.Node) *Term {
	c := ev.C()
	if _, ok := a.(SNil); ok {
		a, b = b, a
	}
	if _, ok := b.(SNil); ok {
		switch x := a.(type) {
		case SNil:
			return c.True
		case SVec: // pointer, interface, slice, map
			return c.Eq(x.T[0], c.Int(0))
		case *SNodeV:
			return x.IsNil
		}
		ev.bail(n, "comparison of %T with nil", a)
	}
	x, ok1 := a.(SVec)
	y, ok2 := b.(SVec)
	if ok1 && ok2 && len(x.T) == len(y.T) {
		var cs []*Term
		for i := range x.T {
			cs = append(cs, c.Eq(x.T[i], y.T[i]))
		}
		return c.And(cs...)
	}
	ev.bail(n, "unsupported comparison of %T and %T", a, b)
	return nil
}
