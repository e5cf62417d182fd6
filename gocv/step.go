package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// outcome of an exploration.
type outcome struct {
	rets  []*State // returned from the root frame; the results are in ret
	backs []*State
	exits []*State
}

type budgetExceeded struct{}

// explore runs the states to the end of the root function, or of the loop.
func (E *Exec) explore(start []*State, lc *loopCtx, out *outcome) {
	work := append([]*State(nil), start...)
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for !s.Dead {
			if s.jumped {
				s.jumped = false
				f := s.Top()
				if lc != nil && f.ID == lc.frameID {
					if f.Block == lc.info.header {
						out.backs = append(out.backs, s)
						break
					}
					if !lc.info.blocks[f.Block] {
						s.jumped = true
						out.exits = append(out.exits, s)
						break
					}
				}
				if li := E.loopsOf(f.Fn)[f.Block]; li != nil {
					if !E.unrollable(s, li) {
						work = append(work, E.cutLoop(s, li)...)
						break
					}
				}
			}
			more, done := E.step(s)
			work = append(work, more...)
			if done {
				if len(s.Frames) == 0 {
					out.rets = append(out.rets, s)
				}
				break
			}
		}
		if s.Dead {
			E.paths++
		}
	}
}

func (E *Exec) tick() {
	E.steps++
	if E.steps%256 == 0 && !E.deadline.IsZero() && time.Now().After(E.deadline) {
		panic(budgetExceeded{})
	}
}

// step executes one instruction. done: the state is finished or was replaced by more.
func (E *Exec) step(s *State) (more []*State, done bool) {
	E.tick()
	f := s.Top()
	in := f.Block.Instrs[f.Idx]
	f.Idx++
	c := E.C
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
		bail("phi at %s", f.Block)
	case *ssa.Alloc:
		el := in.Type().Underlying().(*types.Pointer).Elem()
		ref := s.NewAlloc()
		if _, ok := el.Underlying().(*types.Array); ok {
			f.Regs[in] = Vec{ref}
		} else {
			f.Regs[in] = Vec{ref}
		}
	case *ssa.BinOp:
		f.Regs[in] = E.binop(s, in, s.val(f, in.X), s.val(f, in.Y))
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			a := s.addrOf(f, in.X)
			s.checkAddr(a, in.Pos())
			if s.Dead {
				return nil, true
			}
			v := s.load(a)
			f.Regs[in] = E.maybeFunc(s, v, in.Type())
		case token.NOT:
			f.Regs[in] = Vec{c.Not(s.vec(f, in.X)[0])}
		case token.SUB:
			f.Regs[in] = Vec{c.Sub(c.Int(0), s.vec(f, in.X)[0])}
		default:
			bail("unsupported operator %s", in.Op)
		}
	case *ssa.Call:
		return E.doCall(s, f, in, in)
	case *ssa.Defer:
		d := deferred{call: in}
		cc := in.Common()
		if cc.IsInvoke() {
			bail("deferred interface call")
		}
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			d.blt = b
		} else {
			fv, ok := s.val(f, cc.Value).(FuncVal)
			if !ok {
				bail("deferred call of an unknown function")
			}
			d.fn = fv
		}
		for _, a := range cc.Args {
			d.args = append(d.args, s.val(f, a))
		}
		f.Defers = append(f.Defers, d)
	case *ssa.RunDefers:
		if n := len(f.Defers); n > 0 {
			d := f.Defers[n-1]
			f.Defers = f.Defers[:n-1]
			f.Idx--
			if d.blt != nil {
				bail("deferred builtin")
			}
			return E.callFn(s, d.fn, d.args, d.call, nil)
		}
	case *ssa.ChangeInterface, *ssa.ChangeType:
		x := *in.Operands(nil)[0]
		f.Regs[in.(ssa.Value)] = s.val(f, x)
	case *ssa.Convert:
		f.Regs[in] = E.convert(s, s.vec(f, in.X), in.X.Type(), in.Type())
	case *ssa.MakeInterface:
		xt := in.X.Type()
		tag := c.Int(E.P.TypeID(xt))
		switch xt.Underlying().(type) {
		case *types.Pointer:
			f.Regs[in] = Vec{tag, s.vec(f, in.X)[0]}
		default:
			ref := s.NewAlloc()
			v := s.vec(f, in.X)
			for i, l := range Leaves(xt) {
				s.pushStore("box:"+typeStr(xt)+l.Path, ref, v[i])
			}
			f.Regs[in] = Vec{tag, ref}
		}
	case *ssa.TypeAssert:
		return E.typeAssert(s, f, in)
	case *ssa.Extract:
		tv, ok := f.Regs[in.Tuple]
		if !ok {
			bail("no tuple")
		}
		if tt, ok := tv.([]Val); ok {
			f.Regs[in] = tt[in.Index]
			break
		}
		a, b := tupleRange(in.Tuple.Type().(*types.Tuple), in.Index)
		f.Regs[in] = E.maybeFunc(s, tv.(Vec)[a:b], in.Type())
	case *ssa.Field:
		a, b := fieldRange(in.X.Type(), in.Field)
		f.Regs[in] = s.vec(f, in.X)[a:b]
	case *ssa.FieldAddr:
		a := s.addrOf(f, in.X)
		s.checkAddr(a, in.Pos())
		st := a.Typ.Underlying().(*types.Struct)
		f.Regs[in] = Addr{Ref: a.Ref, Idx: a.Idx, Key: a.Key + "." + st.Field(in.Field).Name(), Typ: st.Field(in.Field).Type()}
	case *ssa.IndexAddr:
		idx := s.vec(f, in.Index)[0]
		switch t := in.X.Type().Underlying().(type) {
		case *types.Slice:
			v := s.vec(f, in.X)
			E.oblige(s, "", "index in range", in.Pos(), c.And(c.Ge(idx, c.Int(0)), c.Lt(idx, v[2])), "")
			f.Regs[in] = Addr{Ref: v[0], Idx: s.Simp(c.Add(v[1], idx)), Key: memKey(t.Elem()), Typ: t.Elem()}
		case *types.Pointer:
			at := t.Elem().Underlying().(*types.Array)
			v := s.vec(f, in.X)
			E.oblige(s, "", "index in range", in.Pos(), c.And(c.Ge(idx, c.Int(0)), c.Lt(idx, c.Int(at.Len()))), "")
			f.Regs[in] = Addr{Ref: v[0], Idx: idx, Key: memKey(at.Elem()), Typ: at.Elem()}
		}
	case *ssa.Index:
		v := s.vec(f, in.X)
		if v[0].sort == SStr {
			idx := s.vec(f, in.Index)[0]
			E.oblige(s, "", "index in range", in.Pos(), c.And(c.Ge(idx, c.Int(0)), c.Lt(idx, c.App("strlen", SInt, v[0]))), "")
			f.Regs[in] = Vec{c.App("strbyte", SInt, v[0], idx)}
			break
		}
		bail("unsupported index")
	case *ssa.Lookup:
		E.lookup(s, f, in)
	case *ssa.If:
		cond := s.Simp(s.vec(f, in.Cond)[0])
		if cond == c.True {
			E.jump(s, f.Block.Succs[0])
			return nil, false
		}
		if cond == c.False {
			E.jump(s, f.Block.Succs[1])
			return nil, false
		}
		at := E.posStr(in.Cond.Pos())
		f.Idx--
		if rs, ok := E.mergeBranch(s); ok {
			var r []*State
			for _, x := range rs {
				x.Trail = append(x.Trail, at+">"+itoa(x.Top().Block.Index))
				if len(rs) == 1 || !E.infeasible(x) {
					r = append(r, x)
				}
			}
			return r, true
		}
		f.Idx++
		a, b := s, s.Clone()
		a.Assume(cond)
		b.Assume(c.Not(cond))
		a.Trail = append(a.Trail, at+"+")
		b.Trail = append(b.Trail, at+"-")
		bl := f.Block
		var r []*State
		if !b.Dead && !E.infeasible(b) {
			E.jump(b, bl.Succs[1])
			r = append(r, b)
		}
		if !a.Dead && !E.infeasible(a) {
			E.jump(a, bl.Succs[0])
			r = append(r, a)
		}
		return r, true
	case *ssa.Jump:
		E.jump(s, f.Block.Succs[0])
	case *ssa.MakeClosure:
		fv := FuncVal{Fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			fv.Free = append(fv.Free, s.val(f, b))
		}
		f.Regs[in] = fv
	case *ssa.MakeMap:
		f.Regs[in] = Vec{s.NewAlloc()}
	case *ssa.MakeSlice:
		ln, cp := s.vec(f, in.Len)[0], s.vec(f, in.Cap)[0]
		E.oblige(s, "", "length in range", in.Pos(), c.And(c.Ge(ln, c.Int(0)), c.Ge(cp, ln)), "")
		f.Regs[in] = Vec{s.NewAlloc(), c.Int(0), ln, cp}
	case *ssa.MapUpdate:
		E.mapUpdate(s, f, in)
	case *ssa.Range:
		v := s.vec(f, in.X)
		if v[0].sort != SStr {
			bail("range over a map")
		}
		cell := s.NewAlloc()
		f.Regs[in] = &IterVal{Str: v[0], Cell: cell}
	case *ssa.Next:
		it := f.Regs[in.Iter].(*IterVal)
		i := s.Lookup("iter", it.Cell, SInt)
		n := c.App("rlen", SInt, it.Str)
		ok := c.Lt(i, n)
		s.Assume(c.Ge(i, c.Int(0)))
		f.Regs[in] = []Val{Vec{ok}, Vec{c.App("runeoff", SInt, it.Str, i)}, Vec{c.App("rat", SInt, it.Str, i)}}
		s.pushStore("iter", it.Cell, c.AddK(i, 1))
	case *ssa.Panic:
		E.oblige(s, "", "no panic", in.Pos(), c.False, "explicit panic")
		return nil, true
	case *ssa.Return:
		var v Val
		switch len(in.Results) {
		case 0:
			v = Vec{}
		case 1:
			v = s.val(f, in.Results[0])
		default:
			var vs []Val
			plain := true
			for _, r := range in.Results {
				x := s.val(f, r)
				if _, ok := x.(Vec); !ok {
					plain = false
				}
				vs = append(vs, x)
			}
			if plain {
				var all Vec
				for _, x := range vs {
					all = append(all, x.(Vec)...)
				}
				v = all
			} else {
				v = vs
			}
		}
		s.Frames = s.Frames[:len(s.Frames)-1]
		if len(s.Frames) == 0 {
			s.result = v
			s.retPos = in.Pos()
			return nil, true
		}
		if f.Ret != nil {
			s.Top().Regs[f.Ret] = v
		}
	case *ssa.Slice:
		E.slice(s, f, in)
	case *ssa.Store:
		a := s.addrOf(f, in.Addr)
		s.checkAddr(a, in.Pos())
		v := s.asVecT(s.val(f, in.Val), in.Val.Type())
		s.store(a, v, in.Pos())
	default:
		bail("unsupported instruction %s (%T)", in, in)
	}
	return nil, s.Dead
}

func (s *State) asVecT(v Val, t types.Type) Vec { return s.asVec(v) }

// maybeFunc turns a known function identity back into a function.
func (E *Exec) maybeFunc(s *State, v Vec, t types.Type) Val {
	if _, ok := t.Underlying().(*types.Signature); ok && len(v) == 1 {
		x := s.Simp(v[0])
		if x.isInt() && x.k > 0 {
			return E.funcs[x.k-1]
		}
	}
	return v
}

func (s *State) addrOf(f *Frame, v ssa.Value) Addr {
	el := v.Type().Underlying().(*types.Pointer).Elem()
	return s.addr(s.val(f, v), el)
}

// checkAddr obliges that a dereferenced pointer is not nil.
func (s *State) checkAddr(a Addr, pos token.Pos) {
	if strings.HasPrefix(a.Key, "global:") || a.Idx != nil {
		return
	}
	s.nilCheck(s.Simp(a.Ref), pos)
}

// jump moves to a block and evaluates its phis.
func (E *Exec) jump(s *State, to *ssa.BasicBlock) {
	f := s.Top()
	from := f.Block
	f.Prev = from
	f.Block = to
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
			break
		}
	}
	n := 0
	var vals []Val
	for _, in := range to.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			vals = append(vals, s.val(f, ph.Edges[idx]))
			n++
			continue
		}
		break
	}
	for i := 0; i < n; i++ {
		f.Regs[to.Instrs[i].(*ssa.Phi)] = vals[i]
	}
	f.Idx = n
	s.jumped = true
}

func (E *Exec) binop(s *State, in *ssa.BinOp, xv, yv Val) Val {
	c := E.C
	switch in.Op {
	case token.EQL, token.NEQ:
		r := E.equalVals(s, xv, yv, in.X, in.Y)
		if in.Op == token.NEQ {
			r = c.Not(r)
		}
		return Vec{r}
	}
	x, y := s.asVec(xv)[0], s.asVec(yv)[0]
	if x.sort == SStr {
		switch in.Op {
		case token.ADD:
			return Vec{s.Simp(c.Cat(x, y))}
		}
		bail("unsupported string operator %s", in.Op)
	}
	if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		bail("floating point")
	}
	var r *Term
	switch in.Op {
	case token.ADD:
		r = c.Add(x, y)
	case token.SUB:
		r = c.Sub(x, y)
	case token.MUL:
		r = c.Mul(x, y)
	case token.LSS:
		r = c.Lt(x, y)
	case token.LEQ:
		r = c.Le(x, y)
	case token.GTR:
		r = c.Gt(x, y)
	case token.GEQ:
		r = c.Ge(x, y)
	case token.AND:
		r = c.App("bitand", SInt, x, y)
	case token.OR:
		r = c.App("bitor", SInt, x, y)
	case token.QUO, token.REM:
		if y.isInt() && y.k != 0 {
			r = c.App("div"+in.Op.String(), SInt, x, y)
			break
		}
		fallthrough
	default:
		bail("unsupported operator %s", in.Op)
	}
	return Vec{s.Simp(r)}
}

func (E *Exec) equalVals(s *State, xv, yv Val, xe, ye ssa.Value) *Term {
	c := E.C
	isNil := func(e ssa.Value) bool {
		k, ok := e.(*ssa.Const)
		return ok && k.Value == nil
	}
	if isNil(xe) {
		xv, yv, xe, ye = yv, xv, ye, xe
	}
	if isNil(ye) {
		switch x := xv.(type) {
		case FuncVal:
			return c.False
		case Addr:
			if x.Idx != nil || x.Key != objKey(x.Typ) {
				return c.False
			}
			return c.Eq(x.Ref, c.Int(0))
		case Vec:
			return s.Simp(c.Eq(x[0], c.Int(0)))
		}
	}
	if xa, ok := xv.(Addr); ok {
		if ya, ok := yv.(Addr); ok && xa.Key == ya.Key {
			return s.Simp(c.Eq(xa.Ref, ya.Ref))
		}
	}
	x, y := s.asVec(xv), s.asVec(yv)
	if len(x) != len(y) {
		bail("comparison of different types")
	}
	if _, ok := xe.Type().Underlying().(*types.Slice); ok {
		bail("comparison of slices")
	}
	var cs []*Term
	for i := range x {
		cs = append(cs, c.Eq(x[i], y[i]))
	}
	return s.Simp(c.And(cs...))
}

func (E *Exec) convert(s *State, v Vec, from, to types.Type) Val {
	c := E.C
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 {
		switch {
		case tb.Info()&types.IsString != 0 && fb.Info()&types.IsInteger != 0:
			return Vec{s.Simp(c.App("chr", SStr, v[0]))}
		case tb.Info()&types.IsString != 0 && fb.Info()&types.IsString != 0:
			return v
		case tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsInteger != 0:
			return v
		}
	}
	if ok2 && tb.Info()&types.IsString != 0 {
		if sl, ok := from.Underlying().(*types.Slice); ok {
			ev := &Eval{E: E, St: s}
			return Vec{c.App("runes2str", SStr, ev.seqOf(sl.Elem(), v[0], v[1], v[2]))}
		}
	}
	if sl, ok := to.Underlying().(*types.Slice); ok && ok1 && fb.Info()&types.IsString != 0 {
		el := sl.Elem().Underlying().(*types.Basic)
		ref := s.NewAlloc()
		n := c.App("rlen", SInt, v[0])
		if el.Kind() == types.Uint8 {
			n = c.App("strlen", SInt, v[0])
		}
		s.Assume(c.Ge(n, c.Int(0)))
		s.pushStore(memKey(sl.Elem()), ref, c.App("runesOf", SArrI, v[0]))
		return Vec{ref, c.Int(0), n, n}
	}
	bail("unsupported conversion from %s to %s", from, to)
	return nil
}

func (E *Exec) typeAssert(s *State, f *Frame, in *ssa.TypeAssert) ([]*State, bool) {
	c := E.C
	v := s.vec(f, in.X)
	var ok *Term
	var val Vec
	if _, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		tag := s.Simp(v[0])
		if tag.isInt() {
			if tag.k == 0 {
				ok = c.False
			} else {
				ok = c.Bool(types.AssertableTo(in.AssertedType.Underlying().(*types.Interface), E.P.typeOfID(tag.k)))
			}
		} else {
			ok = c.And(c.Not(c.Eq(tag, c.Int(0))), c.rawApp("implements:"+typeStr(in.AssertedType), SBool, tag))
		}
		val = v
	} else {
		ok = s.Simp(c.Eq(v[0], c.Int(E.P.TypeID(in.AssertedType))))
		if _, isP := in.AssertedType.Underlying().(*types.Pointer); isP {
			val = Vec{v[1]}
		} else {
			for _, l := range Leaves(in.AssertedType) {
				val = append(val, s.Lookup("box:"+typeStr(in.AssertedType)+l.Path, v[1], l.Sort))
			}
		}
	}
	if !in.CommaOk {
		E.oblige(s, "", "type assertion", in.Pos(), ok, "")
		f.Regs[in] = val
		return nil, s.Dead
	}
	ok = s.Simp(ok)
	if ok == c.True {
		f.Regs[in] = append(append(Vec{}, val...), c.True)
		return nil, false
	}
	zero := E.zeroVec(in.AssertedType)
	if ok == c.False {
		f.Regs[in] = append(append(Vec{}, zero...), c.False)
		return nil, false
	}
	a, b := s, s.Clone()
	a.Assume(ok)
	b.Assume(c.Not(ok))
	var r []*State
	if !b.Dead {
		b.Top().Regs[in] = append(append(Vec{}, zero...), c.False)
		r = append(r, b)
	}
	if !a.Dead {
		a.Top().Regs[in] = append(append(Vec{}, val...), c.True)
		r = append(r, a)
	}
	return r, true
}

func (E *Exec) lookup(s *State, f *Frame, in *ssa.Lookup) {
	c := E.C
	v := s.vec(f, in.X)
	idx := s.vec(f, in.Index)[0]
	mt, ok := in.X.Type().Underlying().(*types.Map)
	if !ok { // string index
		E.oblige(s, "", "index in range", in.Pos(), c.And(c.Ge(idx, c.Int(0)), c.Lt(idx, c.App("strlen", SInt, v[0]))), "")
		f.Regs[in] = Vec{c.App("strbyte", SInt, v[0], idx)}
		return
	}
	m := E.mapTerm(s, v[0], mt)
	var val Vec
	ls := Leaves(mt.Elem())
	switch {
	case len(ls) == 0:
	case len(ls) == 1 && ls[0].Sort == SInt:
		val = Vec{s.Simp(c.MGet(m, idx))}
	case len(ls) == 1 && ls[0].Sort == SBool:
		val = Vec{s.Simp(c.Not(c.Eq(c.MGet(m, idx), c.Int(0))))}
	default:
		bail("map with values of type %s", mt.Elem())
	}
	if in.CommaOk {
		val = append(val, s.Simp(c.MHas(m, idx)))
	}
	f.Regs[in] = val
}

func (E *Exec) mapTerm(s *State, ref *Term, mt *types.Map) *Term {
	key, srt := mapKey(mt)
	if m := E.constMap(ref, srt); m != nil {
		return m
	}
	if ref.isInt() && ref.k == 0 {
		return E.zeroTerm(srt)
	}
	return s.Lookup(key, ref, srt)
}

func (E *Exec) mapUpdate(s *State, f *Frame, in *ssa.MapUpdate) {
	c := E.C
	mt := in.Map.Type().Underlying().(*types.Map)
	ref := s.vec(f, in.Map)[0]
	s.nilCheck(s.Simp(ref), in.Pos())
	key, srt := mapKey(mt)
	s.canWrite(key, ref, in.Pos())
	k := s.vec(f, in.Key)[0]
	val := s.vec(f, in.Value)
	x := c.Int(1)
	if len(val) == 1 {
		x = val[0]
		if x.sort == SBool {
			x = c.Ite(x, c.Int(1), c.Int(0))
		}
	} else if len(val) > 1 {
		bail("map with values of type %s", mt.Elem())
	}
	m := E.mapTerm(s, ref, mt)
	s.pushStore(key, s.Simp(ref), c.rawApp("mput", srt, m, k, x))
}

func (E *Exec) slice(s *State, f *Frame, in *ssa.Slice) {
	c := E.C
	lo := c.Int(0)
	if in.Low != nil {
		lo = s.vec(f, in.Low)[0]
	}
	if in.Max != nil {
		bail("full slice expression")
	}
	switch t := in.X.Type().Underlying().(type) {
	case *types.Pointer: // array
		n := t.Elem().Underlying().(*types.Array).Len()
		hi := c.Int(n)
		if in.High != nil {
			hi = s.vec(f, in.High)[0]
		}
		v := s.vec(f, in.X)
		E.oblige(s, "", "slice in range", in.Pos(), c.And(c.Ge(lo, c.Int(0)), c.Ge(hi, lo), c.Ge(c.Int(n), hi)), "")
		f.Regs[in] = Vec{v[0], lo, s.Simp(c.Sub(hi, lo)), s.Simp(c.Sub(c.Int(n), lo))}
	case *types.Slice:
		v := s.vec(f, in.X)
		hi := v[2]
		if in.High != nil {
			hi = s.vec(f, in.High)[0]
		}
		E.oblige(s, "", "slice in range", in.Pos(), c.And(c.Ge(lo, c.Int(0)), c.Ge(hi, lo), c.Ge(v[2], hi)), "")
		f.Regs[in] = Vec{v[0], s.Simp(c.Add(v[1], lo)), s.Simp(c.Sub(hi, lo)), s.Simp(c.Sub(v[3], lo))}
	case *types.Basic:
		v := s.vec(f, in.X)
		n := c.App("strlen", SInt, v[0])
		hi := n
		if in.High != nil {
			hi = s.vec(f, in.High)[0]
		}
		E.oblige(s, "", "slice in range", in.Pos(), c.And(c.Ge(lo, c.Int(0)), c.Ge(hi, lo), c.Ge(n, hi)), "")
		f.Regs[in] = Vec{s.Simp(c.App("substr", SStr, v[0], lo, hi))}
	default:
		bail("unsupported slice expression")
	}
}

// ---- calls

func (E *Exec) doCall(s *State, f *Frame, in ssa.CallInstruction, ret ssa.Value) ([]*State, bool) {
	cc := in.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		f.Regs[ret] = E.builtin(s, f, b.Name(), cc, in.Pos())
		return nil, s.Dead
	}
	var args []Val
	for _, a := range cc.Args {
		args = append(args, s.val(f, a))
	}
	if cc.IsInvoke() {
		recv := s.vec(f, cc.Value)
		tag := s.Simp(recv[0])
		if tag.isInt() && tag.k != 0 {
			t := E.P.typeOfID(tag.k)
			fn := E.P.SSA.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name())
			if fn != nil {
				var r Val = Vec{recv[1]}
				if _, isP := t.Underlying().(*types.Pointer); !isP {
					var bx Vec
					for _, l := range Leaves(t) {
						bx = append(bx, s.Lookup("box:"+typeStr(t)+l.Path, recv[1], l.Sort))
					}
					r = bx
				}
				return E.callFn(s, FuncVal{Fn: fn}, append([]Val{r}, args...), in, ret)
			}
		}
		E.oblige(s, "", "nil dereference", in.Pos(), E.C.Not(E.C.Eq(tag, E.C.Int(0))), "")
		return E.invokeUnknown(s, recv, cc.Method, args, in, ret)
	}
	fv, ok := s.val(f, cc.Value).(FuncVal)
	if !ok {
		v := s.vec(f, cc.Value)
		if x, ok := E.maybeFunc(s, v, cc.Value.Type()).(FuncVal); ok {
			fv = x
		} else {
			return E.callUnknown(s, v[0], cc.Value.Type().Underlying().(*types.Signature), args, in, ret)
		}
	}
	return E.callFn(s, fv, args, in, ret)
}

func (E *Exec) setRet(s *State, ret ssa.Value, v Val) {
	if ret != nil {
		s.Top().Regs[ret] = v
	}
}

func (E *Exec) callFn(s *State, fv FuncVal, args []Val, in ssa.CallInstruction, ret ssa.Value) ([]*State, bool) {
	fn := fv.Fn
	if ct := E.P.Contracts[fn]; ct != nil {
		plain := true
		for _, a := range args {
			if ad, ok := a.(Addr); ok && (ad.Idx != nil || ad.Key != objKey(ad.Typ)) {
				plain = false
			}
		}
		if plain {
			return E.contractCall(s, ct, args, in, ret)
		}
	}
	if fn.Blocks != nil && (fn.Pkg == nil || E.P.SSAPkg[fn.Pkg.Pkg.Path()] != nil) {
		for _, g := range s.Frames {
			if g.Fn == fn {
				E.fail("", "recursion", in.Pos(), FuncName(fn)+" is recursive and has no contract", "")
				s.Dead = true
				return nil, true
			}
		}
		if len(s.Frames) > 30 {
			bail("calls nested too deeply")
		}
		if E.pureFn(fn) && E.callPure(s, fn, args, ret) {
			return nil, s.Dead
		}
		E.pushFrame(s, fv, args, ret)
		return nil, false
	}
	return E.external(s, fn, args, in, ret)
}

func (E *Exec) pushFrame(s *State, fv FuncVal, args []Val, ret ssa.Value) *Frame {
	E.frameCtr++
	f := &Frame{Fn: fv.Fn, Regs: map[ssa.Value]Val{}, Block: fv.Fn.Blocks[0], Ret: ret, Loops: map[*ssa.BasicBlock]*activeLoop{}, ID: E.frameCtr}
	for i, p := range fv.Fn.Params {
		f.Regs[p] = args[i]
	}
	for i, p := range fv.Fn.FreeVars {
		f.Regs[p] = fv.Free[i]
	}
	s.Frames = append(s.Frames, f)
	return f
}

// contractEnv binds the parameters and results of a contract.
func contractEnv(ct *Contract, vals []SV) map[types.Object]SV {
	env := map[types.Object]SV{}
	i := 0
	for _, fl := range ct.Decl.Type.Params.List {
		for _, nm := range fl.Names {
			if o := ct.Pkg.TypesInfo.Defs[nm]; o != nil {
				env[o] = vals[i]
			}
			i++
		}
	}
	return env
}

func paramTypes(fn *ssa.Function) (ps, rs []types.Type) {
	sig := fn.Signature
	if sig.Recv() != nil {
		ps = append(ps, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, sig.Params().At(i).Type())
	}
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, sig.Results().At(i).Type())
	}
	return
}

// freshVec gives unknown values of a type.
func (s *State) freshVec(hint string, t types.Type) Vec {
	c := s.E.C
	var v Vec
	for _, l := range Leaves(t) {
		v = append(v, c.Fresh(hint, l.Sort))
	}
	return v
}

// knownVec adds the type facts of unknown values that exist at this moment.
func (s *State) knownVec(v Vec, t types.Type) {
	c := s.E.C
	for i, l := range Leaves(t) {
		if l.Ptr {
			s.noteRef(v[i], s.Stamp, s.Alloc)
		}
		if l.Kind == 'a' {
			s.sliceFacts(v[i : i+4])
		}
		if l.Kind == 't' {
			s.Assume(c.Ge(v[i], c.Int(0)))
			s.Assume(c.Or(c.Not(c.Eq(v[i], c.Int(0))), c.Eq(v[i+1], c.Int(0))))
		}
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
		s.Assume(c.Ge(v[0], c.Int(0)))
	}
}

// heldArrays are the arrays of the slices that a node holds.
func (s *State) heldArrays(v SVec) []*Term {
	pt, ok := v.Typ.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	nt := s.E.P.nodeTypeOf(pt)
	if nt == nil {
		return nil
	}
	var r []*Term
	for i := 0; i < nt.St.NumFields(); i++ {
		f := nt.St.Field(i)
		if _, ok := f.Type().Underlying().(*types.Slice); !ok {
			continue
		}
		arr := s.Lookup(objKey(nt.Typ)+"."+f.Name()+".arr", v.T[0], SInt)
		if !arr.isInt() {
			s.noteLoaded(arr)
			r = append(r, arr)
		}
	}
	return r
}

// havoc pushes a frame event: the locations change, and objects may have been allocated.
func (s *State) havoc(mods []modLoc) (preAlloc *Term, preStamp int) {
	E := s.E
	c := E.C
	preAlloc, preStamp = s.Alloc, s.Stamp
	E.evCtr++
	id := E.evCtr
	n := 0
	if s.Heap != nil {
		n = s.Heap.n
	}
	var ms []modLoc
	for _, m := range mods {
		if m.ref != nil {
			m.ref = s.Simp(m.ref)
			if m.ref.isInt() {
				continue
			}
		}
		ms = append(ms, m)
	}
	s.Heap = &heapEv{prev: s.Heap, n: n + 1, frame: true, id: id, stamp: preStamp, alloc: preAlloc, mods: ms}
	E.stampCtr++
	na := c.Fresh("alloc", SInt)
	c.isAlloc[na.id] = E.stampCtr
	s.Assume(c.Ge(na, preAlloc))
	s.Alloc = na
	s.Stamp = E.stampCtr
	E.evAlloc[id] = evAlloc{s.Stamp, na}
	return
}

func (E *Exec) contractCall(s *State, ct *Contract, args []Val, in ssa.CallInstruction, ret ssa.Value) ([]*State, bool) {
	c := E.C
	pts, rts := paramTypes(ct.Fn)
	name := FuncName(ct.Fn)
	pos := in.Pos()
	var vals []SV
	for _, t := range pts {
		if sl, ok := t.Underlying().(*types.Slice); ok {
			t = sl.Elem()
		}
		if E.P.isNodeElem(t) {
			s.sealAll()
		}
	}
	for i, a := range args {
		vals = append(vals, SVec{s.asVec(a), pts[i]})
	}
	var res []Vec
	for _, t := range rts {
		v := s.freshVec("r."+ct.Fn.Name(), t)
		res = append(res, v)
		vals = append(vals, SVec{v, t})
	}
	ev := &Eval{E: E, St: s, Pkg: ct.Pkg, Env: contractEnv(ct, vals)}
	var mods []modLoc
	posted := false
	type fr struct {
		v    SV
		cond *Term
	}
	var fresh []fr
	var preAlloc *Term
	var preStamp int
	post := func() {
		posted = true
		var changed []modLoc
		for _, m := range mods {
			if m.key == lexKept {
				s.canWriteAll(lexState, pos)
				continue
			}
			if m.ref != nil {
				s.canWrite(m.key, m.ref, pos)
			} else {
				s.canWriteAll(m.key, pos)
			}
			changed = append(changed, m)
		}
		preAlloc, preStamp = s.havoc(changed)
		ev.preAlloc = preAlloc
	}
	ev.hook = &contractHook{
		requires: func(tag string, t *Term, p token.Pos) {
			E.oblige(s, "", "precondition", pos, t, "of "+name+" ("+E.posStr(p)+")")
		},
		modifies: func(l []modLoc) { mods = append(mods, l...) },
		post:     func(*Eval) { post() },
		ensures: func(tag string, t *Term, p token.Pos) {
			s.Assume(t)
		},
		measure: func(ts []*Term) { E.checkMeasure(s, ct, ts, pos) },
		fresh: func(v SV, cond *Term, p token.Pos) {
			fresh = append(fresh, fr{v, cond})
			ref := v.(SVec).T[0]
			if _, ok := v.(SVec).Typ.Underlying().(*types.Interface); ok {
				ref = v.(SVec).T[1]
			}
			_, isSlice := v.(SVec).Typ.Underlying().(*types.Slice)
			// nil or allocated by the call
			s.Assume(c.Or(c.Not(cond), c.Eq(ref, c.Int(0)), c.Gt(ref, preAlloc)))
			if cond == c.True && ref.op == OpVar {
				if _, ok := c.stampLo[ref.id]; !ok {
					c.stampLo[ref.id] = preStamp + 1
				}
				if !isSlice {
					c.mayNil[ref.id] = true
				} else {
					c.mayNil[ref.id] = true
				}
			}
			for _, arr := range s.heldArrays(v.(SVec)) {
				s.Assume(c.Or(c.Not(cond), c.Eq(ref, c.Int(0)), c.Eq(arr, c.Int(0)), c.Gt(arr, preAlloc)))
				if _, ok := c.stampLo[arr.id]; cond == c.True && arr.op == OpApp && !ok {
					c.stampLo[arr.id] = preStamp + 1
					c.mayNil[arr.id] = true
				}
			}
		},
	}
	// the results exist after the call
	run := func() {
		ev.stmts(ct.Decl.Body.List, nil, ct.Pkg.TypesInfo.Defs[ct.Decl.Name].(*types.Func).Type().(*types.Signature))
	}
	op := ev.hook.post
	ev.hook.post = func(e *Eval) {
		op(e)
		for i, t := range rts {
			s.knownVec(res[i], t)
		}
	}
	E.sawKeep = false
	run()
	if !posted {
		ev.hook.post(ev)
	}
	if E.abstract && !E.sawKeep {
		for _, m := range mods {
			if m.key == lexState || m.key == lexKept {
				E.oblige(s, "", "frame", pos, c.False, name+" does not promise to keep the buffers of the lexer")
			}
		}
	}
	var all Vec
	for _, v := range res {
		for _, t := range v {
			all = append(all, s.Simp(t))
		}
	}
	if s.Dead {
		return nil, true
	}
	E.setRet(s, ret, all)
	return nil, false
}

// canWriteAll checks that a location of every object may change.
func (s *State) canWriteAll(key string, pos token.Pos) {
	E := s.E
	for _, m := range E.rootMods {
		if m.key == key && m.ref == nil {
			return
		}
	}
	if E.contract == nil {
		return
	}
	E.oblige(s, "", "frame", pos, E.C.False, "may write "+key+" of any object")
}

// checkMeasure obliges that recursion makes progress.
func (E *Exec) checkMeasure(s *State, ct *Contract, ts []*Term, pos token.Pos) {
	c := E.C
	if E.measure == nil || E.recScc == nil || E.recScc[ct.Fn] == 0 || E.recScc[ct.Fn] != E.recScc[E.root] {
		return
	}
	var lt *Term = c.False
	eq := c.True
	for i := range ts {
		if i >= len(E.measure) {
			break
		}
		lt = c.Or(lt, c.And(eq, c.Lt(ts[i], E.measure[i])))
		eq = c.And(eq, c.Eq(ts[i], E.measure[i]))
	}
	E.oblige(s, "C01", "decreases", pos, c.And(c.Ge(E.measure[0], c.Int(0)), lt), "the recursion through "+FuncName(ct.Fn)+" makes progress")
}

func (E *Exec) builtin(s *State, f *Frame, name string, cc *ssa.CallCommon, pos token.Pos) Val {
	c := E.C
	switch name {
	case "len", "cap":
		v := s.vec(f, cc.Args[0])
		if v[0].sort == SStr {
			return Vec{s.Simp(c.App("strlen", SInt, v[0]))}
		}
		switch cc.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			if name == "len" {
				return Vec{v[2]}
			}
			return Vec{v[3]}
		case *types.Map:
			n := c.App("mlen", SInt, E.mapTerm(s, v[0], cc.Args[0].Type().Underlying().(*types.Map)))
			s.Assume(c.Ge(n, c.Int(0)))
			return Vec{n}
		}
	case "append":
		return E.append(s, f, cc, pos)
	case "copy":
		return E.copy(s, f, cc, pos)
	case "print", "println":
		return Vec{}
	case "min", "max":
		a, b := s.vec(f, cc.Args[0])[0], s.vec(f, cc.Args[1])[0]
		if name == "max" {
			return Vec{c.Ite(c.Ge(a, b), a, b)}
		}
		return Vec{c.Ite(c.Ge(b, a), a, b)}
	case "ssa:wrapnilchk":
		return s.val(f, cc.Args[0])
	}
	bail("unsupported builtin %s", name)
	return nil
}

// append is modelled without a case split: the result lies in the same array when it has room.
func (E *Exec) append(s *State, f *Frame, cc *ssa.CallCommon, pos token.Pos) Val {
	c := E.C
	st := cc.Args[0].Type().Underlying().(*types.Slice)
	el := st.Elem()
	v := s.vec(f, cc.Args[0])
	var w Vec
	if b, ok := cc.Args[1].Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		bail("append of a string to bytes")
	}
	w = s.vec(f, cc.Args[1])
	n := s.Simp(w[2])
	if n.isInt() && n.k == 0 {
		return v
	}
	ln := s.Simp(v[2])
	fits := s.Simp(c.Ge(v[3], c.Add(ln, n)))
	fresh := s.NewAlloc()
	arr := s.Simp(c.Ite(fits, v[0], fresh))
	off := s.Simp(v[1])
	end := s.Simp(c.Add(off, ln))
	newLen := s.Simp(c.Add(ln, n))
	ncap := c.Fresh("cap", SInt)
	s.Assume(c.Ge(ncap, newLen))
	s.Assume(c.Or(c.Not(fits), c.Eq(ncap, v[3])))
	if fits != c.False {
		// the elements beyond the length change: they must not be visible elsewhere
		p := c.True
		if E.protected(el) {
			p = c.Or(c.Not(fits), c.Ge(end, s.Lookup("$prot", v[0], SInt)))
			E.oblige(s, "", "shared element", pos, p, "append writes into the array of a slice that a syntax tree holds")
		}
		if fits != c.True {
			for _, l := range Leaves(el) {
				s.canWriteIf(memKey(el)+l.Path, v[0], c.And(fits, c.Gt(n, c.Int(0))), pos)
			}
		} else {
			for _, l := range Leaves(el) {
				s.canWrite(memKey(el)+l.Path, v[0], pos)
			}
		}
	}
	for _, l := range Leaves(el) {
		key := memKey(el) + l.Path
		old := s.Lookup(key, v[0], arrSort(l.Sort))
		if v[0].isInt() {
			old = E.zeroTerm(arrSort(l.Sort))
		}
		src := s.Lookup(key, w[0], arrSort(l.Sort))
		na := c.Fresh("arr", arrSort(l.Sort))
		info := &appendInfo{base: old, off: off, ln: ln}
		if n.isInt() && n.k <= 8 {
			for i := int64(0); i < n.k; i++ {
				info.xs = append(info.xs, s.Simp(c.Sel(src, c.AddK(w[1], i))))
			}
		} else {
			info.src = c.SeqOf(src, w[1], n)
			info.srcLen = n
		}
		c.appd[na.id] = info
		s.pushStore(key, arr, na)
	}
	if !fits.isTrue() && E.protected(el) {
		// a fresh array has no shared elements: the zero event gives $prot 0
		_ = fresh
	}
	// the appended node references become held
	if n.isInt() && n.k <= 8 {
		for i := int64(0); i < n.k; i++ {
			var x Vec
			for _, l := range Leaves(el) {
				x = append(x, s.Simp(c.Sel(s.Lookup(memKey(el)+l.Path, w[0], arrSort(l.Sort)), c.AddK(w[1], i))))
			}
			s.noteSeal(x, el)
		}
	}
	return Vec{arr, off, newLen, ncap}
}

func (t *Term) isTrue() bool { return t.op == OpTrue }

func (s *State) canWriteIf(key string, ref, cond *Term, pos token.Pos) {
	E := s.E
	c := E.C
	ref = s.Simp(ref)
	if c.loStamp(ref) > 0 || E.contract == nil || ref.isInt() {
		return
	}
	ds := []*Term{c.Not(cond), c.Gt(ref, E.Alloc0)}
	for _, m := range E.rootMods {
		if m.key != key {
			continue
		}
		if m.ref == nil || s.Simp(m.ref) == ref {
			return
		}
		ds = append(ds, c.Eq(ref, m.ref))
	}
	E.oblige(s, "", "frame", pos, c.Or(ds...), "append may write an array outside of the modifies clause")
}

func (E *Exec) copy(s *State, f *Frame, cc *ssa.CallCommon, pos token.Pos) Val {
	c := E.C
	st, ok := cc.Args[0].Type().Underlying().(*types.Slice)
	if !ok {
		bail("copy of a string")
	}
	el := st.Elem()
	d, w := s.vec(f, cc.Args[0]), s.vec(f, cc.Args[1])
	if w[0].sort == SStr {
		bail("copy of a string")
	}
	// supported: copy into the start of a slice of the same length
	E.oblige(s, "", "supported copy", pos, c.And(c.Eq(d[2], w[2]), c.Eq(d[1], c.Int(0))), "copy between slices of different lengths is not modelled")
	for _, l := range Leaves(el) {
		key := memKey(el) + l.Path
		s.canWrite(key, d[0], pos)
		src := s.Lookup(key, w[0], arrSort(l.Sort))
		na := c.Fresh("arr", arrSort(l.Sort))
		c.appd[na.id] = &appendInfo{base: s.Lookup(key, d[0], arrSort(l.Sort)), off: c.Int(0), ln: c.Int(0), src: c.SeqOf(src, w[1], w[2]), srcLen: w[2]}
		s.pushStore(key, d[0], na)
	}
	return Vec{d[2]}
}

func describe(s *State) string {
	var b strings.Builder
	for _, f := range s.Frames {
		fmt.Fprintf(&b, "%s:%d ", f.Fn.Name(), f.Block.Index)
	}
	return b.String()
}
