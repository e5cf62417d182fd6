package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// If-conversion: regions of the control flow without effects are executed once, and their paths are merged by exit.

// pureBlock: the block has no effects and stays in the loops of b.
func (E *Exec) pureBlock(b, e *ssa.BasicBlock) bool {
	fn := b.Parent()
	ls := E.loopsOf(fn)
	if ls[e] != nil {
		return false
	}
	for _, li := range ls {
		if li.blocks[b] != li.blocks[e] {
			return false
		}
	}
	return E.pureInstrs(e)
}

func (E *Exec) pureInstrs(e *ssa.BasicBlock) bool {
	for _, in := range e.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.DebugRef, *ssa.Convert, *ssa.ChangeType, *ssa.Extract, *ssa.Field, *ssa.FieldAddr:
		case *ssa.BinOp:
			if in.Op == token.QUO || in.Op == token.REM {
				return false
			}
		case *ssa.UnOp:
			switch in.Op {
			case token.NOT, token.SUB:
			case token.MUL:
				if _, ok := in.Type().Underlying().(*types.Basic); !ok {
					return false
				}
			default:
				return false
			}
		case *ssa.Call:
			if in.Call.IsInvoke() {
				return false
			}
			switch f := in.Call.Value.(type) {
			case *ssa.Builtin:
				if f.Name() != "len" && f.Name() != "cap" {
					return false
				}
			case *ssa.Function:
				if !E.pureFn(f) {
					return false
				}
			default:
				return false
			}
		default:
			return false
		}
	}
	return true
}

// pureFn: a function of scalars without effects, loops and contract, that is replaced by its value.
func (E *Exec) pureFn(f *ssa.Function) bool {
	if r, ok := E.pureFns[f]; ok {
		return r
	}
	E.pureFns[f] = false // recursive functions are not pure
	r := func() bool {
		if E.P.Contracts[f] != nil || f.Blocks == nil || len(f.FreeVars) > 0 || f.Recover != nil && false {
			return false
		}
		if f.Pkg != nil && E.P.SSAPkg[f.Pkg.Pkg.Path()] == nil {
			return false
		}
		if f.Signature.Results().Len() != 1 || len(f.Blocks) > 40 {
			return false
		}
		if _, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Basic); !ok {
			return false
		}
		if len(E.loopsOf(f)) > 0 {
			return false
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Return); ok {
					continue
				}
				switch in.(type) {
				case *ssa.RunDefers, *ssa.Panic, *ssa.Defer:
					return false
				}
			}
			if len(b.Instrs) == 0 {
				return false
			}
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				cp := *b
				cp.Instrs = b.Instrs[:len(b.Instrs)-1]
				if !E.pureInstrs(&cp) {
					return false
				}
				continue
			}
			if !E.pureInstrs(b) {
				return false
			}
		}
		return true
	}()
	E.pureFns[f] = r
	return r
}

const maxRegionPaths = 96

type regionPath struct {
	s  *State
	pc *Term
}

// pathCond is what was learnt since the base state.
func (E *Exec) pathCondSince(s *State, base *factList) *Term {
	var cs []*Term
	for f := s.Facts; f != nil && f != base; f = f.prev {
		cs = append(cs, f.f)
	}
	return E.C.And(cs...)
}

// runRegion executes from an instruction until stop says so.
func (E *Exec) runRegion(s *State, stop func(n *State) bool) ([]*State, bool) {
	work := []*State{s}
	var out []*State
	for len(work) > 0 {
		n := work[len(work)-1]
		work = work[:len(work)-1]
		for {
			if n.Dead {
				break
			}
			if stop(n) {
				out = append(out, n)
				break
			}
			f := n.Top()
			if in, ok := f.Block.Instrs[f.Idx].(*ssa.If); ok {
				cond := n.Simp(n.vec(f, in.Cond)[0])
				switch cond {
				case E.C.True:
					E.jump(n, f.Block.Succs[0])
				case E.C.False:
					E.jump(n, f.Block.Succs[1])
				default:
					m := n.Clone()
					n.Assume(cond)
					m.Assume(E.C.Not(cond))
					if !m.Dead {
						E.jump(m, m.Top().Block.Succs[1])
						work = append(work, m)
					}
					if !n.Dead {
						E.jump(n, n.Top().Block.Succs[0])
					}
				}
				continue
			}
			more, done := E.step(n)
			if done || len(more) > 0 {
				return nil, false
			}
		}
		if len(out)+len(work) > maxRegionPaths {
			return nil, false
		}
	}
	return out, true
}

// callPure evaluates a call of a pure function.
func (E *Exec) callPure(s *State, fn *ssa.Function, args []Val, ret ssa.Value) bool {
	if ret == nil {
		return true
	}
	depth := len(s.Frames)
	n := s.Clone()
	E.pushFrame(n, FuncVal{Fn: fn}, args, ret)
	outs, ok := E.runRegion(n, func(x *State) bool { return len(x.Frames) == depth })
	if !ok || len(outs) == 0 {
		return false
	}
	var vs []Vec
	for _, o := range outs {
		if o.Heap != s.Heap {
			return false
		}
		v, ok := o.Top().Regs[ret].(Vec)
		if !ok {
			return false
		}
		vs = append(vs, v)
	}
	r := E.mergeVecs(s, outs, vs)
	s.Assume(E.anyPath(s, outs))
	for i := range r {
		r[i] = s.Simp(r[i])
	}
	s.Top().Regs[ret] = r
	return true
}

func (E *Exec) anyPath(s *State, outs []*State) *Term {
	var cs []*Term
	for _, o := range outs {
		cs = append(cs, E.pathCondSince(o, s.Facts))
	}
	return E.simpOr(cs)
}

// simpOr is the disjunction, without the parts that all share or that complement each other.
func (E *Exec) simpOr(cs []*Term) *Term {
	c := E.C
	// (a and b) or (a and not b) is a
	for changed := true; changed; {
		changed = false
		for i := 0; i < len(cs) && !changed; i++ {
			for j := i + 1; j < len(cs) && !changed; j++ {
				a, b := conjuncts(cs[i]), conjuncts(cs[j])
				if len(a) != len(b) {
					continue
				}
				inB := map[int]bool{}
				for _, x := range b {
					inB[x.id] = true
				}
				var common []*Term
				var diff *Term
				k := 0
				for _, x := range a {
					if inB[x.id] {
						common = append(common, x)
					} else {
						diff = x
						k++
					}
				}
				if k == 1 && inB[c.Not(diff).id] {
					cs = append(append(append([]*Term(nil), cs[:i]...), cs[i+1:j]...), cs[j+1:]...)
					cs = append(cs, c.And(common...))
					changed = true
				}
			}
		}
	}
	return c.Or(cs...)
}

func (E *Exec) mergeVecs(s *State, outs []*State, vs []Vec) Vec {
	c := E.C
	last := len(outs) - 1
	r := append(Vec(nil), vs[last]...)
	for i := range r {
		// group the paths by value
		t := vs[last][i]
		var order []*Term
		by := map[int][]*Term{}
		for k := 0; k <= last; k++ {
			v := vs[k][i]
			if by[v.id] == nil {
				order = append(order, v)
			}
			by[v.id] = append(by[v.id], E.pathCondSince(outs[k], s.Facts))
		}
		if len(order) == 1 {
			r[i] = order[0]
			continue
		}
		t = order[len(order)-1]
		for k := len(order) - 2; k >= 0; k-- {
			t = c.Ite(E.simpOr(by[order[k].id]), order[k], t)
		}
		r[i] = t
	}
	return r
}

// mergeBranch tries to merge the paths that start at a branch.
func (E *Exec) mergeBranch(s *State) ([]*State, bool) {
	f := s.Top()
	b := f.Block
	fn := b.Parent()
	region := map[*ssa.BasicBlock]bool{b: true}
	ls := E.loopsOf(fn)
	for changed := true; changed; {
		changed = false
		for _, x := range fn.Blocks {
			if region[x] || ls[x] != nil || len(x.Preds) == 0 {
				continue
			}
			ok := true
			for _, p := range x.Preds {
				if !region[p] {
					ok = false
				}
			}
			if ok && E.pureBlock(b, x) {
				region[x] = true
				changed = true
			}
		}
	}
	if len(region) == 1 {
		return nil, false
	}
	fid := f.ID
	base := s.Clone()
	base.jumped = false
	outs, ok := E.runRegion(base, func(x *State) bool {
		t := x.Top()
		return t.ID == fid && (!region[t.Block] || t.Block == b && x.jumped)
	})
	if !ok {
		return nil, false
	}
	for _, o := range outs {
		if o.Heap != s.Heap {
			return nil, false
		}
	}
	// by exit
	var order []*ssa.BasicBlock
	by := map[*ssa.BasicBlock][]*State{}
	for _, o := range outs {
		x := o.Top().Block
		if by[x] == nil {
			order = append(order, x)
		}
		by[x] = append(by[x], o)
	}
	var res []*State
	for _, x := range order {
		g := by[x]
		if len(g) == 1 {
			res = append(res, g[0])
			continue
		}
		m := s.Clone()
		mf := m.Top()
		mf.Block = x
		mf.Idx = g[0].Top().Idx
		mf.Prev = g[0].Top().Prev
		m.jumped = true
		m.Trail = append([]string(nil), g[0].Top2Trail()...)
		bad := false
		// the registers
		seen := map[ssa.Value]bool{}
		for _, o := range g {
			for r := range o.Top().Regs {
				seen[r] = true
			}
		}
		type upd struct {
			r ssa.Value
			v Val
		}
		var us []upd
		for r := range seen {
			var vs []Vec
			same, all := true, true
			var first Val
			for _, o := range g {
				v, ok := o.Top().Regs[r]
				if !ok {
					all = false
					break
				}
				if first == nil {
					first = v
				} else if same && valKey(first) != valKey(v) {
					same = false
				}
				if vv, ok := v.(Vec); ok {
					vs = append(vs, vv)
				}
			}
			if !all {
				continue
			}
			if same {
				us = append(us, upd{r, first})
				continue
			}
			if len(vs) != len(g) {
				if in, ok := r.(ssa.Instruction); ok && !in.Block().Dominates(x) {
					continue // dead
				}
				bad = true
				break
			}
			us = append(us, upd{r, E.mergeVecs(s, g, vs)})
		}
		if bad {
			res = append(res, g...)
			continue
		}
		m.Assume(E.anyPath(s, g))
		for _, u := range us {
			if vv, ok := u.v.(Vec); ok {
				n := append(Vec(nil), vv...)
				for i := range n {
					n[i] = m.Simp(n[i])
				}
				u.v = n
			}
			mf.Regs[u.r] = u.v
		}
		if !m.Dead {
			res = append(res, m)
		}
	}
	return res, true
}

func (s *State) Top2Trail() []string { return s.Trail }
