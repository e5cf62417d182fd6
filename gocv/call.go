package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// specBuiltin names a function of the specification language, or "".
func (ev *Eval) calleeObj(e *ast.CallExpr) types.Object {
	f := ast.Unparen(e.Fun)
	if ix, ok := f.(*ast.IndexExpr); ok {
		f = ix.X
	}
	switch f := f.(type) {
	case *ast.Ident:
		return ev.Pkg.TypesInfo.Uses[f]
	case *ast.SelectorExpr:
		return ev.Pkg.TypesInfo.Uses[f.Sel]
	}
	return nil
}

func (ev *Eval) boolV(t *Term) SV { return SVec{Vec{t}, types.Typ[types.Bool]} }
func (ev *Eval) intV(t *Term) SV  { return SVec{Vec{t}, types.Typ[types.Int]} }
func (ev *Eval) strV(t *Term) SV  { return SVec{Vec{t}, types.Typ[types.String]} }

func (ev *Eval) pathCond() *Term { return ev.C().And(ev.pc...) }

func (ev *Eval) call(e *ast.CallExpr) SV {
	c := ev.C()
	// conversions
	if tv := ev.Pkg.TypesInfo.Types[e.Fun]; tv.IsType() {
		return ev.conv(ev.expr(e.Args[0]), ev.typeOf(e.Args[0]), tv.Type, e)
	}
	obj := ev.calleeObj(e)
	if b, ok := obj.(*types.Builtin); ok {
		return ev.builtin(b.Name(), e)
	}
	f, ok := obj.(*types.Func)
	if !ok {
		if v, ok := obj.(*types.Var); ok {
			if sf, ok := ev.Env[v].(SFunc); ok {
				return ev.applyArgs(sf.F, e)
			}
		}
		ev.bail(e, "unsupported call")
	}
	sf := ev.E.P.SpecFns[f]
	if sf == nil {
		return ev.external(f, e)
	}
	if sf.Intrinsic == "" {
		return ev.applyArgs(sf, e)
	}
	switch sf.Intrinsic {
	case "requires", "invariant":
		for _, a := range e.Args {
			ev.split(a, func(tag string, t *Term) {
				ev.hook.requires(tag, c.Implies(ev.pathCond(), t), a.Pos())
			})
		}
		return STuple{}
	case "ensures":
		tag := ev.term(e.Args[0]).name
		for _, a := range e.Args[1:] {
			if ev.hook.ensures == nil {
				break
			}
			ev.ensure(tag, a)
		}
		return STuple{}
	case "modifies":
		var locs []modLoc
		for _, a := range e.Args {
			locs = append(locs, ev.locs(a)...)
		}
		ev.hook.modifies(locs)
		return STuple{}
	case "post":
		ev.hook.post(ev)
		return STuple{}
	case "loop":
		return STuple{}
	case "measure", "decreases":
		var ts []*Term
		for _, a := range e.Args {
			ts = append(ts, ev.term(a))
		}
		if ev.hook.measure != nil {
			ev.hook.measure(ts)
		}
		return STuple{}
	case "entry":
		if ev.entry == nil {
			ev.bail(e, "entry outside of a loop template")
		}
		return ev.entry.expr(e.Args[0])
	case "fresh":
		for _, a := range e.Args {
			if ev.E.abstract {
				// raw texts are not used
				if sl, ok := ev.typeOf(a).Underlying().(*types.Slice); ok && memKey(sl.Elem()) == "mem:rune" {
					continue
				}
			}
			if ev.hook.fresh != nil {
				ev.hook.fresh(ev.expr(a), c.And(ev.pc...), a.Pos())
			}
		}
		return STuple{}
	case "same":
		x, y := ev.expr(e.Args[0]), ev.expr(e.Args[1])
		return ev.boolV(ev.sameAll(x, y, ev.typeOf(e.Args[0]), ev.typeOf(e.Args[1]), e))
	case "samePos", "sameText", "sameLead", "sameInline":
		x, y := ev.expr(e.Args[0]), ev.expr(e.Args[1])
		a := map[string]byte{"samePos": 'P', "sameText": 'S', "sameLead": 'L', "sameInline": 'I'}[sf.Intrinsic]
		return ev.boolV(ev.same(x, y, ev.typeOf(e.Args[0]), ev.typeOf(e.Args[1]), a, e))
	case "implies":
		a := ev.boolean(e.Args[0])
		if a == c.False {
			return ev.boolV(c.True)
		}
		return ev.boolV(c.Or(c.Not(a), ev.under(a, e.Args[1])))
	case "isnil":
		v := ev.expr(e.Args[0]).(SVec)
		return ev.boolV(c.Eq(v.T[0], c.Int(0)))
	case "isType": // isType(iface, (*T)(nil))
		v := ev.expr(e.Args[0]).(SVec)
		t := ev.typeOf(e.Args[1])
		return ev.boolV(c.Eq(v.T[0], c.Int(ev.E.P.TypeID(t))))
	case "ghost":
		v := ev.expr(e.Args[0]).(SVec)
		n := ev.term(e.Args[1]).name
		return ev.intV(ev.St.Lookup("ghost:"+n, v.T[len(v.T)-1], SInt))
	case "owned":
		return ev.boolV(ev.owned(ev.expr(e.Args[0])))
	case "distinctArrays":
		var ts []*Term
		for _, a := range e.Args {
			ts = append(ts, ev.expr(a).(SVec).T[0])
		}
		var cs []*Term
		for i := range ts {
			for j := i + 1; j < len(ts); j++ {
				cs = append(cs, c.Or(c.Eq(ts[i], c.Int(0)), c.Not(c.Eq(ts[i], ts[j]))))
			}
		}
		return ev.boolV(c.And(cs...))
	case "lenOf":
		v := ev.expr(e.Args[0]).(SVec)
		return ev.intV(v.T[2])
	case "use":
		if ev.uses && ev.depth == 0 {
			for _, a := range e.Args {
				ev.St.Assume(c.Implies(c.And(ev.pathCond(), ev.smaller(a)), ev.boolean(a)))
			}
		}
		return STuple{}
	case "arrKept":
		x, y := ev.expr(e.Args[0]).(SVec), ev.expr(e.Args[1]).(SVec)
		lvl := ev.preAlloc
		if lvl == nil && ev.entry != nil {
			lvl = ev.E.Alloc0
		}
		if lvl == nil {
			ev.bail(e, "ArrKept outside of a postcondition")
		}
		return ev.boolV(c.Or(c.Eq(x.T[0], y.T[0]), c.Eq(x.T[0], c.Int(0)), c.Gt(x.T[0], lvl)))
	case "rerr":
		return SVec{Vec{c.App("rerrTag", SInt), c.App("rerrRef", SInt)}, ev.typeOf(e)}
	case "mapContent":
		v := ev.expr(e.Args[0]).(SVec)
		k, srt := mapKey(v.Typ.Underlying().(*types.Map))
		return SVec{Vec{ev.St.Lookup(k, v.T[0], srt)}, ev.typeOf(e)}
	case "mapGet":
		return ev.intV(c.MGet(ev.term(e.Args[0]), ev.term(e.Args[1])))
	case "mapPut":
		m := ev.term(e.Args[0])
		return SVec{Vec{c.rawApp("mput", m.sort, m, ev.term(e.Args[1]), ev.term(e.Args[2]))}, ev.typeOf(e)}
	case "unseq": // a slice of the same sequence content, as a specification value
		t := ev.typeOf(e)
		if _, ok := t.Underlying().(*types.Slice); ok {
			return SSeqV{ev.toSeq(ev.expr(e.Args[0]), t.Underlying().(*types.Slice).Elem())}
		}
		return ev.expr(e.Args[0])
	case "appendNodes":
		p, q := ev.toSeqN(ev.expr(e.Args[0])), ev.toSeqN(ev.expr(e.Args[1]))
		for i := range p.T {
			p.T[i] = c.Concat(p.T[i], q.T[i])
		}
		return p
	case "builderText":
		v := ev.expr(e.Args[0]).(SVec)
		return ev.strV(ev.St.Lookup("ghost:builder", v.T[0], SStr))
	case "replaced":
		q := c.App("emptySeqS", SSeqS)
		for _, a := range e.Args[1:] {
			q = c.App("snoc", SSeqS, q, ev.term(a))
		}
		return ev.strV(c.App("replaced", SStr, q, ev.term(e.Args[0])))
	case "reveal":
		if ev.reveals {
			if ev.unfoldOnce == nil {
				ev.unfoldOnce = map[*SpecFn]bool{}
			}
			for _, a := range e.Args {
				ev.unfoldOnce[ev.expr(a).(SFunc).F] = true
			}
		}
		return STuple{}
	}
	// term level functions
	var args []*Term
	for _, a := range e.Args {
		args = append(args, ev.term(a))
	}
	srt := map[string]Sort{"at": SInt, "N": SInt, "rerrTag": SInt, "rerrRef": SInt, "str": SStr, "chr": SStr, "fwd": SSeqI, "rev": SSeqI, "strlen": SInt, "rlen": SInt, "rat": SInt, "hasPrefix": SBool, "isSpace": SBool, "filename": SStr, "unchr": SInt, "runeLen": SInt}[sf.Intrinsic]
	if srt == "" {
		ev.bail(e, "unknown intrinsic %s", sf.Intrinsic)
	}
	r := c.App(sf.Intrinsic, srt, args...)
	if srt == SSeqI {
		return SSeqV{r}
	}
	return SVec{Vec{r}, ev.typeOf(e)}
}

func (ev *Eval) ensure(tag string, a ast.Expr) {
	c := ev.C()
	if b, ok := ast.Unparen(a).(*ast.BinaryExpr); ok && b.Op == token.LAND {
		ev.ensure(tag, b.X)
		ev.ensure(tag, b.Y)
		return
	}
	if call, ok := ast.Unparen(a).(*ast.CallExpr); ok {
		if f, ok := ev.calleeObj(call).(*types.Func); ok {
			if sf := ev.E.P.SpecFns[f]; sf != nil {
				switch sf.Intrinsic {
				case "same":
					tx, ty := ev.typeOf(call.Args[0]), ev.typeOf(call.Args[1])
					x, y := ev.expr(call.Args[0]), ev.expr(call.Args[1])
					if ev.hasAspects(tx) {
						for _, as := range allAspects {
							ev.hook.ensures(tag+"."+string(as), c.Implies(ev.pathCond(), ev.same(x, y, tx, ty, byte(as), call)), a.Pos())
						}
						return
					}
					ev.hook.ensures(tag, c.Implies(ev.pathCond(), ev.sameAll(x, y, tx, ty, call)), a.Pos())
					return
				case "implies":
					g := ev.boolean(call.Args[0])
					if g == c.False {
						return
					}
					n := *ev
					n.pc = append(append([]*Term(nil), ev.pc...), g)
					n.St = ev.St.Clone()
					n.St.Assume(g)
					if !n.St.Dead {
						n.ensure(tag, call.Args[1])
					}
					return
				}
			}
		}
	}
	ev.split(a, func(as string, t *Term) {
		ev.hook.ensures(tag+as, c.Implies(ev.pathCond(), t), a.Pos())
	})
}

// split evaluates the conjuncts of a formula one by one. How many there are only depends on the text.
// An equality of nodes is a conjunct for each aspect, with a tag.
func (ev *Eval) split(e ast.Expr, f func(tag string, t *Term)) {
	e = ast.Unparen(e)
	switch e := e.(type) {
	case *ast.BinaryExpr:
		if e.Op == token.LAND {
			ev.split(e.X, f)
			ev.split(e.Y, f)
			return
		}
	case *ast.CallExpr:
		fn, ok := ev.calleeObj(e).(*types.Func)
		if !ok {
			break
		}
		sf := ev.E.P.SpecFns[fn]
		if sf != nil && sf.Intrinsic == "same" && ev.hasAspects(ev.typeOf(e.Args[0])) {
			tx, ty := ev.typeOf(e.Args[0]), ev.typeOf(e.Args[1])
			x, y := ev.expr(e.Args[0]), ev.expr(e.Args[1])
			for _, as := range allAspects {
				f("."+string(as), ev.same(x, y, tx, ty, byte(as), e))
			}
			return
		}
		if sf == nil || sf.Intrinsic != "" || sf.Opaque || sf.Abstract != "" && ev.E.abstract || sf.Decl.Body == nil || len(sf.Decl.Body.List) != 1 {
			break
		}
		ret, ok := sf.Decl.Body.List[0].(*ast.ReturnStmt)
		if !ok || len(ret.Results) != 1 {
			break
		}
		if b, ok := ast.Unparen(ret.Results[0]).(*ast.BinaryExpr); !ok || b.Op != token.LAND {
			break
		}
		n := *ev
		n.Pkg = sf.Pkg
		n.Env = map[types.Object]SV{}
		n.depth++
		i := 0
		for _, fl := range sf.Decl.Type.Params.List {
			for _, nm := range fl.Names {
				if o := sf.Pkg.TypesInfo.Defs[nm]; o != nil {
					n.Env[o] = ev.expr(e.Args[i])
				}
				i++
			}
		}
		n.split(ret.Results[0], f)
		return
	}
	f("", ev.boolean(e))
}

func (ev *Eval) hasAspects(t types.Type) bool {
	P := ev.E.P
	if P.isNodeElem(t) {
		return true
	}
	if sl, ok := t.Underlying().(*types.Slice); ok {
		return P.isNodeElem(sl.Elem())
	}
	return false
}

func (ev *Eval) sameAll(x, y SV, tx, ty types.Type, n ast.Node) *Term {
	c := ev.C()
	if !ev.hasAspects(tx) {
		return ev.same(x, y, tx, ty, 0, n)
	}
	var cs []*Term
	for _, a := range allAspects {
		cs = append(cs, ev.same(x, y, tx, ty, byte(a), n))
	}
	return c.And(cs...)
}

// same compares two values in an aspect.
func (ev *Eval) same(x, y SV, tx, ty types.Type, a byte, n ast.Node) *Term {
	c := ev.C()
	P := ev.E.P
	t := tx
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		t = ty
	}
	if nt := P.nodeTypeOf(t); nt != nil {
		// a packed value on either side
		px, okx := x.(SPack)
		py, oky := y.(SPack)
		if okx || oky {
			if !okx {
				px = ev.packOf(x, nt)
			}
			if !oky {
				py = ev.packOf(y, nt)
			}
			return c.Eq(px.T[aspIdx(a)], py.T[aspIdx(a)])
		}
		nx, ny := ev.toNode(x, nt), ev.toNode(y, nt)
		eq := []*Term{c.Eq(nx.IsNil, ny.IsNil)}
		for i, l := range nt.Leaves {
			if strings.IndexByte(l.Aspects, a) >= 0 {
				eq = append(eq, c.Or(nx.IsNil, c.Eq(nx.L[i], ny.L[i])))
			}
		}
		return c.And(eq...)
	}
	if P.isNodeElem(t) {
		return c.Eq(ev.toPack(x).T[aspIdx(a)], ev.toPack(y).T[aspIdx(a)])
	}
	if sl, ok := t.Underlying().(*types.Slice); ok {
		if P.isNodeElem(sl.Elem()) {
			return c.Eq(ev.toSeqN(x).T[aspIdx(a)], ev.toSeqN(y).T[aspIdx(a)])
		}
		return c.Eq(ev.toSeq(x, sl.Elem()), ev.toSeq(y, sl.Elem()))
	}
	fx, fy := ev.flatten(x, t), ev.flatten(y, t)
	var cs []*Term
	for i := range fx {
		cs = append(cs, c.Eq(fx[i], fy[i]))
	}
	return c.And(cs...)
}

// packOf gives the packed value of a node: of a real pointer by its abstraction.
func (ev *Eval) packOf(x SV, nt *NodeType) SPack {
	switch x := x.(type) {
	case SVec:
		// a real pointer: by its fields, which is also right when it is not sealed yet
		n := ev.nodeOfRef(x.T[0], nt)
		v := ev.toPack(x)
		c := ev.C()
		sealed := ev.St.Simp(ev.St.Lookup("$sealed", x.T[0], SBool))
		if sealed == c.True {
			return v
		}
		return ev.toPack(n)
	}
	return ev.toPack(x)
}

// owned: a fresh object is not shared yet; the elements beyond the length of a slice are not.
func (ev *Eval) owned(v SV) *Term {
	c := ev.C()
	x, ok := v.(SVec)
	if !ok {
		bail("owned of %T", v)
	}
	switch x.Typ.Underlying().(type) {
	case *types.Slice:
		return c.Ge(x.T[2], ev.St.Lookup("$prot", x.T[0], SInt))
	case *types.Pointer:
		return c.Not(ev.St.Lookup("$sealed", x.T[0], SBool))
	}
	bail("owned of %s", x.Typ)
	return nil
}

// locs are the heap locations denoted by a modifies argument.
func (ev *Eval) locs(a ast.Expr) []modLoc {
	a = ast.Unparen(a)
	switch a := a.(type) {
	case *ast.SelectorExpr:
		sel := ev.Pkg.TypesInfo.Selections[a]
		if sel == nil {
			break
		}
		// base object
		v := ev.expr(a.X)
		t := sel.Recv()
		key := ""
		var ref *Term
		for _, i := range sel.Index() {
			if p, ok := t.Underlying().(*types.Pointer); ok {
				if key != "" {
					v = ev.loadObj(ref, key, t)
				}
				ref = v.(SVec).T[0]
				key = objKey(p.Elem())
				t = p.Elem()
			}
			if key == "" {
				ev.bail(a, "not a location")
			}
			f := t.Underlying().(*types.Struct).Field(i)
			key += "." + f.Name()
			t = f.Type()
		}
		var r []modLoc
		for _, l := range Leaves(t) {
			r = append(r, modLoc{key + l.Path, ref})
		}
		return r
	case *ast.StarExpr:
		v := ev.expr(a.X).(SVec)
		el := v.Typ.Underlying().(*types.Pointer).Elem()
		var r []modLoc
		for _, l := range Leaves(el) {
			r = append(r, modLoc{objKey(el) + l.Path, v.T[0]})
		}
		return r
	case *ast.CallExpr:
		if f, ok := ev.calleeObj(a).(*types.Func); ok {
			sf := ev.E.P.SpecFns[f]
			if sf != nil && sf.Intrinsic == "locs" {
				var r []modLoc
				for _, x := range a.Args {
					r = append(r, ev.locs(x)...)
				}
				return r
			}
			if sf != nil && sf.Abstract == "state" && ev.E.abstract {
				return []modLoc{{lexState, nil}}
			}
			if sf != nil && sf.Abstract == "none" && ev.E.abstract {
				// hidden locations that get the values they had: sawKeep tells that the contract proves so
				return []modLoc{{lexKept, nil}}
			}
			if sf != nil && sf.Intrinsic == "" && len(sf.Decl.Body.List) == 1 {
				if ret, ok := sf.Decl.Body.List[0].(*ast.ReturnStmt); ok && len(ret.Results) == 1 {
					n := &Eval{E: ev.E, St: ev.St, Pkg: sf.Pkg, Env: map[types.Object]SV{}, depth: ev.depth + 1}
					i := 0
					for _, f := range sf.Decl.Type.Params.List {
						for _, nm := range f.Names {
							if o := sf.Pkg.TypesInfo.Defs[nm]; o != nil {
								n.Env[o] = ev.expr(a.Args[i])
							}
							i++
						}
					}
					return n.locs(ret.Results[0])
				}
			}
			if sf != nil && sf.Intrinsic == "elems" { // elems(slice): the elements of its array
				v := ev.expr(a.Args[0]).(SVec)
				el := v.Typ.Underlying().(*types.Slice).Elem()
				var r []modLoc
				for _, l := range Leaves(el) {
					r = append(r, modLoc{memKey(el) + l.Path, v.T[0]})
				}
				if !ev.E.protected(el) {
					return r
				}
				return append(r, modLoc{"$prot", v.T[0]})
			}
			if sf != nil && sf.Intrinsic == "mapOf" {
				v := ev.expr(a.Args[0]).(SVec)
				k, _ := mapKey(v.Typ.Underlying().(*types.Map))
				return []modLoc{{k, v.T[0]}}
			}
			if sf != nil && sf.Intrinsic == "ghost" {
				v := ev.expr(a.Args[0]).(SVec)
				return []modLoc{{"ghost:" + ev.term(a.Args[1]).name, v.T[len(v.T)-1]}}
			}
			if sf != nil && sf.Intrinsic == "anyObject" { // anyObject((*T)(nil)): every field of every object of the type
				el := ev.typeOf(a.Args[0]).Underlying().(*types.Pointer).Elem()
				var r []modLoc
				for _, l := range Leaves(el) {
					r = append(r, modLoc{objKey(el) + l.Path, nil})
				}
				return r
			}
		}
	}
	ev.bail(a, "unsupported location")
	return nil
}

func mapKey(m *types.Map) (string, Sort) {
	srt := SMapI
	if b, ok := m.Key().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		srt = SMapS
	}
	return "map:" + typeStr(m), srt
}

func (ev *Eval) conv(v SV, from, to types.Type, n ast.Node) SV {
	c := ev.C()
	if tb, ok := to.Underlying().(*types.Basic); ok && tb.Info()&types.IsString != 0 {
		if fb, ok := from.Underlying().(*types.Basic); ok && fb.Info()&types.IsInteger != 0 {
			return SVec{Vec{c.App("chr", SStr, v.(SVec).T[0])}, to}
		}
	}
	if ev.E.P.isNodeElem(to) || ev.E.P.isNodeElem(from) {
		return v
	}
	switch v := v.(type) {
	case SVec:
		if len(v.T) == len(Leaves(to)) {
			return SVec{v.T, to}
		}
	case SNil:
		return v
	case SSeqV, SSeqNV, SStruct:
		return v
	}
	ev.bail(n, "unsupported conversion to %s", to)
	return nil
}

func (ev *Eval) builtin(name string, e *ast.CallExpr) SV {
	c := ev.C()
	switch name {
	case "append":
		v := ev.expr(e.Args[0])
		t := ev.typeOf(e.Args[0])
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.UntypedNil {
			t = ev.typeOf(e)
		}
		el := t.Underlying().(*types.Slice).Elem()
		if e.Ellipsis.IsValid() {
			if ev.E.P.isNodeElem(el) {
				a, b := ev.toSeqN(v), ev.toSeqN(ev.expr(e.Args[1]))
				for i := range a.T {
					a.T[i] = c.Concat(a.T[i], b.T[i])
				}
				return a
			}
			return SSeqV{c.Concat(ev.toSeq(v, el), ev.toSeq(ev.expr(e.Args[1]), el))}
		}
		for _, x := range e.Args[1:] {
			v = ev.appendOne(v, ev.expr(x), t)
		}
		return v
	case "len":
		v := ev.expr(e.Args[0])
		switch x := v.(type) {
		case SVec:
			if len(x.T) == 4 {
				return ev.intV(x.T[2])
			}
			if len(x.T) == 1 && x.T[0].sort == SStr {
				return ev.intV(c.App("strlen", SInt, x.T[0]))
			}
		case SSeqV:
			if x.T.sort == SSeqI {
				return ev.intV(c.App("lenI", SInt, x.T))
			}
		}
	case "cap":
		if x, ok := ev.expr(e.Args[0]).(SVec); ok && len(x.T) == 4 {
			return ev.intV(x.T[3])
		}
	}
	ev.bail(e, "unsupported builtin %s", name)
	return nil
}

// external pure functions become uninterpreted functions.
func (ev *Eval) external(f *types.Func, e *ast.CallExpr) SV {
	sig := f.Type().(*types.Signature)
	if sig.Recv() != nil {
		ev.bail(e, "unsupported method call %s", f.Name())
	}
	if f.Pkg() == nil {
		ev.bail(e, "unsupported call")
	}
	var args Vec
	for i, a := range e.Args {
		v := ev.expr(a)
		pt := sig.Params().At(i).Type()
		if sl, ok := pt.Underlying().(*types.Slice); ok {
			args = append(args, ev.toSeq(v, sl.Elem()))
			continue
		}
		args = append(args, ev.flatten(v, pt)...)
	}
	rs := ev.E.pureApp(f.Pkg().Path()+"."+f.Name(), args, sig.Results())
	if rs == nil {
		ev.bail(e, "unsupported external function %s.%s", f.Pkg().Path(), f.Name())
	}
	var out STuple
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		n := len(Leaves(t))
		if sl, ok := t.Underlying().(*types.Slice); ok {
			_ = sl
			out = append(out, SSeqV{rs[0]})
			rs = rs[1:]
			continue
		}
		out = append(out, SVec{rs[:n], t})
		rs = rs[n:]
	}
	if len(out) == 1 {
		return out[0]
	}
	return out
}

func (ev *Eval) applyArgs(sf *SpecFn, e *ast.CallExpr) SV {
	var args []SV
	sig := sf.Obj.Type().(*types.Signature)
	if len(e.Args) == 1 && sig.Params().Len() > 1 {
		args = ev.expr(e.Args[0]).(STuple)
	} else {
		for _, a := range e.Args {
			args = append(args, ev.expr(a))
		}
	}
	return ev.apply(sf, args)
}

func (sf *SpecFn) sig() *types.Signature { return sf.Obj.Type().(*types.Signature) }

// shape computes the leaves of the parameters and results.
func (sf *SpecFn) shape(P *Program) {
	if sf.leafs != nil {
		return
	}
	sig := sf.sig()
	for i := 0; i < sig.Params().Len(); i++ {
		for _, l := range P.specLeaves(sig.Params().At(i).Type()) {
			sf.pleafs = append(sf.pleafs, specLeaf{sig.Params().At(i).Name() + l.Path, l.Sort, l.Aspects})
		}
	}
	for i := 0; i < sig.Results().Len(); i++ {
		nm := sig.Results().At(i).Name()
		if nm == "" {
			nm = itoa(i)
		}
		for _, l := range P.specLeaves(sig.Results().At(i).Type()) {
			sf.leafs = append(sf.leafs, specLeaf{nm + ":" + l.Path, l.Sort, l.Aspects})
		}
	}
	sf.deps = make([][]bool, len(sf.leafs))
	for i := range sf.deps {
		sf.deps[i] = make([]bool, len(sf.pleafs))
	}
}

func (ev *Eval) flattenArgs(sf *SpecFn, args []SV) []*Term {
	sig := sf.sig()
	var r []*Term
	for i := 0; i < sig.Params().Len(); i++ {
		for _, t := range ev.flatten(args[i], sig.Params().At(i).Type()) {
			r = append(r, ev.St.Simp(t))
		}
	}
	return r
}

func (ev *Eval) results(sf *SpecFn, ts []*Term) SV {
	sig := sf.sig()
	var out STuple
	for i := 0; i < sig.Results().Len(); i++ {
		var v SV
		v, ts = ev.unflatten(ts, sig.Results().At(i).Type())
		out = append(out, v)
	}
	if len(out) == 1 {
		return out[0]
	}
	return out
}

func (ev *Eval) apply(sf *SpecFn, args []SV) SV {
	sf.shape(ev.E.P)
	if sf.Abstract != "" && ev.E.abstract {
		return ev.abstractApp(sf, args)
	}
	if !sf.Opaque {
		rs := ev.body(sf.Decl, sf.Pkg, args)
		if len(rs) == 1 {
			return rs[0]
		}
		return STuple(rs)
	}
	flat := ev.flattenArgs(sf, args)
	if ev.unfoldOnce[sf] {
		n := *ev
		n.unfoldOnce = nil
		rs := n.body(sf.Decl, sf.Pkg, args)
		if len(rs) == 1 {
			return rs[0]
		}
		return STuple(rs)
	}
	ts := make([]*Term, len(sf.leafs))
	for i := range sf.leafs {
		ts[i] = ev.St.Simp(ev.leafApp(sf, i, flat))
	}
	return ev.results(sf, ts)
}

// lexState is the location that stands for the state of the lexer.
const lexState = "$lex"

// lexKept stands for a part of the state of the lexer that is written and keeps its value.
const lexKept = "$lexKept"

// hiddenKey: the location is part of the state that abstract functions hide.
func hiddenKey(key string) bool {
	if key == "scanner.Scanner.Mode" {
		return false
	}
	return hasPrefixAny(key, "scanner.Scanner.", "ghost:rpos", "mem:rune", "mem:scanner.", "map:map[int]int")
}

// abstractApp is the value of a function of the hidden state: unknown, but the same as long as the state is.
func (ev *Eval) abstractApp(sf *SpecFn, args []SV) SV {
	c := ev.C()
	if sf.Abstract == "true" {
		ev.E.sawKeep = true
		return ev.boolV(c.True)
	}
	flat := append([]*Term{ev.St.Lookup(lexState, c.Int(1), SInt)}, ev.flattenArgs(sf, args)...)
	ts := make([]*Term, len(sf.leafs))
	for i, l := range sf.leafs {
		ts[i] = ev.St.Simp(c.rawApp("abs:"+sf.Name+"#"+l.Path, l.Sort, flat...))
	}
	return ev.results(sf, ts)
}

func (ev *Eval) leafApp(sf *SpecFn, i int, flat []*Term) *Term {
	var as []*Term
	for j, a := range flat {
		if sf.deps[i][j] {
			as = append(as, a)
		}
	}
	nm := sf.Name + "#" + sf.leafs[i].Path
	ev.E.leafOf[nm] = leafRef{sf, i}
	return ev.C().rawApp(nm, sf.leafs[i].Sort, as...)
}

type leafRef struct {
	sf *SpecFn
	i  int
}

// unfold gives the defining term of a leaf application under the facts of the state, or nil.
func (ev *Eval) unfold(t *Term) *Term {
	lr, ok := ev.E.leafOf[t.name]
	if !ok || t.op != OpApp {
		return nil
	}
	sf := lr.sf
	c := ev.C()
	flat := make([]*Term, len(sf.pleafs))
	k := 0
	for j, l := range sf.pleafs {
		if sf.deps[lr.i][j] {
			flat[j] = t.args[k]
			k++
		} else {
			flat[j] = c.Var("any!"+string(l.Sort), l.Sort)
		}
	}
	sig := sf.sig()
	var args []SV
	ts := flat
	for i := 0; i < sig.Params().Len(); i++ {
		var v SV
		v, ts = ev.unflatten(ts, sig.Params().At(i).Type())
		args = append(args, v)
	}
	n := &Eval{E: ev.E, St: ev.St, Pkg: sf.Pkg, Env: map[types.Object]SV{}, depth: ev.depth}
	rs := n.body(sf.Decl, sf.Pkg, args)
	var out []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, n.flatten(rs[i], sig.Results().At(i).Type())...)
	}
	return out[lr.i]
}

// define is the definition of an opaque leaf, not simplified under the facts of any path.
func (E *Exec) define(t *Term) *Term {
	lr, ok := E.leafOf[t.name]
	if !ok || t.op != OpApp {
		return nil
	}
	sf := lr.sf
	c := E.C
	if E.generic == nil {
		E.generic = map[*SpecFn]*genericDef{}
	}
	gd := E.generic[sf]
	if gd == nil {
		gd = &genericDef{memo: map[string]map[int]*Term{}}
		st := E.newState()
		ev := &Eval{E: E, St: st, Pkg: sf.Pkg, Env: map[types.Object]SV{}}
		for j, l := range sf.pleafs {
			gd.vars = append(gd.vars, c.Var("gen!"+sf.Name+"!"+itoa(j), l.Sort))
		}
		sig := sf.sig()
		var args []SV
		ts := gd.vars
		for i := 0; i < sig.Params().Len(); i++ {
			var v SV
			v, ts = ev.unflatten(ts, sig.Params().At(i).Type())
			args = append(args, v)
		}
		rs := ev.body(sf.Decl, sf.Pkg, args)
		for i := 0; i < sig.Results().Len(); i++ {
			gd.out = append(gd.out, ev.flatten(rs[i], sig.Results().At(i).Type())...)
		}
		E.generic[sf] = gd
	}
	key := ""
	k := 0
	flat := make([]*Term, len(sf.pleafs))
	for j, l := range sf.pleafs {
		if sf.deps[lr.i][j] {
			flat[j] = t.args[k]
			k++
		} else {
			flat[j] = c.Var("any!"+string(l.Sort), l.Sort)
		}
		key += itoa(flat[j].id) + ","
	}
	memo := gd.memo[key]
	if memo == nil {
		memo = map[int]*Term{}
		for j, v := range gd.vars {
			memo[v.id] = flat[j]
		}
		gd.memo[key] = memo
	}
	return c.substitute(gd.out[lr.i], memo)
}

type genericDef struct {
	vars, out []*Term
	memo      map[string]map[int]*Term
}

func (c *Ctx) substitute(t *Term, memo map[int]*Term) *Term {
	if r, ok := memo[t.id]; ok {
		return r
	}
	r := t
	if len(t.args) > 0 {
		args := make([]*Term, len(t.args))
		same := true
		for i, a := range t.args {
			args[i] = c.substitute(a, memo)
			same = same && args[i] == a
		}
		if !same {
			if t.op == OpIte {
				r = c.Ite(args[0], args[1], args[2])
			} else {
				r = c.Rebuild(t, args)
			}
		}
	}
	memo[t.id] = r
	return r
}

// computeDeps finds which parameter leaves each result leaf of the opaque functions depends on.
func (E *Exec) computeDeps() {
	var fns []*SpecFn
	for _, sf := range E.P.SpecFns {
		if sf.Opaque && sf.Intrinsic == "" {
			sf.shape(E.P)
			fns = append(fns, sf)
		}
	}
	for changed := true; changed; {
		changed = false
		for _, sf := range fns {
			st := E.newState()
			ev := &Eval{E: E, St: st, Pkg: sf.Pkg, Env: map[types.Object]SV{}}
			c := E.C
			var flat []*Term
			idx := map[int]int{}
			for j, l := range sf.pleafs {
				v := c.Var("dep!"+sf.Name+"!"+itoa(j), l.Sort)
				flat = append(flat, v)
				idx[v.id] = j
			}
			sig := sf.sig()
			var args []SV
			ts := flat
			for i := 0; i < sig.Params().Len(); i++ {
				var v SV
				v, ts = ev.unflatten(ts, sig.Params().At(i).Type())
				args = append(args, v)
			}
			rs := ev.body(sf.Decl, sf.Pkg, args)
			k := 0
			for i := 0; i < sig.Results().Len(); i++ {
				for _, t := range ev.flatten(rs[i], sig.Results().At(i).Type()) {
					seen := map[int]bool{}
					var walk func(t *Term)
					walk = func(t *Term) {
						if seen[t.id] {
							return
						}
						seen[t.id] = true
						if j, ok := idx[t.id]; ok && !sf.deps[k][j] {
							sf.deps[k][j] = true
							changed = true
						}
						for _, a := range t.args {
							walk(a)
						}
					}
					walk(t)
					k++
				}
			}
		}
	}
	E.leafOf = map[string]leafRef{}
}

// smaller is the condition under which the lemma that is being proved can be used as its own induction hypothesis:
// the parameter of the induction is positive and greater than that of the instance.
func (ev *Eval) smaller(a ast.Expr) *Term {
	c := ev.E.C
	lm := ev.E.lemma
	if lm == nil {
		return c.True
	}
	n := 0
	ast.Inspect(a, func(x ast.Node) bool {
		if id, ok := x.(*ast.Ident); ok && ev.Pkg.TypesInfo.Uses[id] == types.Object(lm.Obj) {
			n++
		}
		return true
	})
	if n == 0 {
		return c.True
	}
	call, ok := ast.Unparen(a).(*ast.CallExpr)
	if !ok || n > 1 {
		ev.bail(a, "a lemma uses itself within an expression")
	}
	id, ok := ast.Unparen(call.Fun).(*ast.Ident)
	if !ok || ev.Pkg.TypesInfo.Uses[id] != types.Object(lm.Obj) {
		ev.bail(a, "a lemma uses itself within an expression")
	}
	sig := lm.sig()
	for i := 0; i < sig.Params().Len(); i++ {
		if p := sig.Params().At(i); p.Name() == lm.Induction {
			n := ev.Env[p].(SVec).T[0]
			return c.And(c.Ge(n, c.Int(1)), c.Gt(n, ev.term(call.Args[i])))
		}
	}
	ev.bail(a, "a lemma without induction uses itself")
	return nil
}
