package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// external models the functions outside of the repository.
func (E *Exec) external(s *State, fn *ssa.Function, args []Val, in ssa.CallInstruction, ret ssa.Value) ([]*State, bool) {
	c := E.C
	name := fn.String()
	E.externals[name] = true
	sig := fn.Signature
	pos := in.Pos()
	results := func() Vec {
		var all Vec
		for i := 0; i < sig.Results().Len(); i++ {
			t := sig.Results().At(i).Type()
			v := s.freshVec("x."+fn.Name(), t)
			s.knownVec(v, t)
			all = append(all, v...)
		}
		return all
	}
	switch name {
	case "(*bufio.Reader).ReadRune":
		rd := s.asVec(args[0])[0]
		s.nilCheck(s.Simp(rd), pos)
		rpos := s.Lookup("ghost:rpos", rd, SInt)
		s.canWrite("ghost:rpos", rd, pos)
		s.Assume(c.Ge(rpos, c.Int(0)))
		n := c.App("N", SInt)
		a, b := s, s.Clone()
		// a rune
		a.Assume(c.Lt(rpos, n))
		at := c.App("at", SInt, rpos)
		a.Assume(c.And(c.Ge(at, c.Int(0)), c.Ge(c.Int(0x10FFFF), at)))
		sz := c.Fresh("size", SInt)
		a.pushStore("ghost:rpos", a.Simp(rd), a.Simp(c.AddK(rpos, 1)))
		a.Trail = append(a.Trail, "rune")
		// the end of the input or an error
		b.Assume(c.Ge(rpos, n))
		b.Assume(c.Eq(c.App("at", SInt, rpos), c.Int(-1)))
		et, er := c.App("rerrTag", SInt), c.App("rerrRef", SInt)
		b.noteRef(er, 0, E.Alloc0)
		b.Assume(c.Gt(et, c.Int(0)))
		b.Trail = append(b.Trail, "end")
		var out []*State
		if !b.Dead && !E.infeasible(b) {
			E.setRet(b, ret, Vec{c.Int(0), c.Int(0), et, er})
			out = append(out, b)
		}
		if !a.Dead && !E.infeasible(a) {
			E.setRet(a, ret, Vec{at, sz, c.Int(0), c.Int(0)})
			out = append(out, a)
		}
		return out, true
	case "bufio.NewReader":
		ref := s.NewAlloc()
		E.setRet(s, ret, Vec{ref})
		return nil, false
	case "fmt.Errorf", "errors.New":
		ref := s.NewAlloc()
		tag := c.Var("tag:fmt.error", SInt)
		s.Assume(c.Gt(tag, c.Int(1000000)))
		E.setRet(s, ret, Vec{tag, ref})
		return nil, false
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		E.setRet(s, ret, Vec{c.Fresh("sprintf", SStr)})
		return nil, false
	case "log.Printf", "log.Println", "log.Print":
		E.setRet(s, ret, Vec{})
		return nil, false
	case "fmt.Fprintf", "fmt.Printf", "fmt.Println", "fmt.Fprintln", "runtime.Caller":
		E.setRet(s, ret, results())
		return nil, false
	case "(*strings.Builder).WriteString", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune":
		b := s.addr(args[0], nil)
		old := s.Lookup("ghost:builder", b.Ref, SStr)
		x := s.asVec(args[1])[0]
		if x.sort == SInt {
			x = c.App("chr", SStr, x)
		}
		s.canWrite("ghost:builder", b.Ref, pos)
		s.pushStore("ghost:builder", s.Simp(b.Ref), s.Simp(c.Cat(old, x)))
		if strings.HasSuffix(name, "WriteByte") {
			E.setRet(s, ret, Vec{c.Int(0), c.Int(0)})
		} else {
			E.setRet(s, ret, Vec{c.App("strlen", SInt, x), c.Int(0), c.Int(0)})
		}
		return nil, false
	case "(*strings.Builder).String":
		b := s.addr(args[0], nil)
		E.setRet(s, ret, Vec{s.Lookup("ghost:builder", b.Ref, SStr)})
		return nil, false
	case "(*strings.Builder).Len":
		b := s.addr(args[0], nil)
		E.setRet(s, ret, Vec{c.App("strlen", SInt, s.Lookup("ghost:builder", b.Ref, SStr))})
		return nil, false
	case "strings.NewReplacer":
		w := s.asVec(args[0])
		ev := &Eval{E: E, St: s}
		ref := s.NewAlloc()
		s.pushStore("ghost:replacer", ref, ev.seqOf(types.Typ[types.String], w[0], w[1], w[2]))
		E.setRet(s, ret, Vec{ref})
		return nil, false
	case "(*strings.Replacer).Replace":
		r := s.asVec(args[0])[0]
		E.setRet(s, ret, Vec{s.Simp(c.App("replaced", SStr, s.Lookup("ghost:replacer", r, SSeqS), s.asVec(args[1])[0]))})
		return nil, false
	}
	// pure functions
	if fn.Signature.Recv() == nil && fn.Pkg != nil {
		var flat Vec
		ev := &Eval{E: E, St: s}
		for i, a := range args {
			t := sig.Params().At(i).Type()
			v := s.asVec(a)
			if sl, ok := t.Underlying().(*types.Slice); ok {
				flat = append(flat, s.Simp(ev.seqOf(sl.Elem(), v[0], v[1], v[2])))
				continue
			}
			flat = append(flat, v...)
		}
		for i := range flat {
			flat[i] = s.Simp(flat[i])
		}
		if r := E.pureApp(fn.Pkg.Pkg.Path()+"."+fn.Name(), flat, sig.Results()); r != nil {
			var all Vec
			k := 0
			for i := 0; i < sig.Results().Len(); i++ {
				t := sig.Results().At(i).Type()
				if sl, ok := t.Underlying().(*types.Slice); ok {
					q := r[k]
					k++
					l := Leaves(sl.Elem())[0]
					ref := s.NewAlloc()
					na := c.Fresh("arr", arrSort(l.Sort))
					ln := c.App("len"+map[Sort]string{SInt: "I", SStr: "S", SBool: "B"}[l.Sort], SInt, q)
					s.Assume(c.Ge(ln, c.Int(0)))
					c.appd[na.id] = &appendInfo{base: E.zeroTerm(arrSort(l.Sort)), off: c.Int(0), ln: c.Int(0), src: q, srcLen: ln}
					s.pushStore(memKey(sl.Elem())+l.Path, ref, na)
					all = append(all, ref, c.Int(0), ln, ln)
					continue
				}
				n := len(Leaves(t))
				all = append(all, r[k:k+n]...)
				k += n
			}
			for i := range all {
				all[i] = s.Simp(all[i])
			}
			E.setRet(s, ret, all)
			return nil, false
		}
	}
	E.fail("", "unmodelled call", pos, name, "the function has no model")
	s.Dead = true
	return nil, true
}

// invokeUnknown models a call of a method of an interface value of unknown dynamic type.
func (E *Exec) invokeUnknown(s *State, recv Vec, m *types.Func, args []Val, in ssa.CallInstruction, ret ssa.Value) ([]*State, bool) {
	c := E.C
	sig := m.Type().(*types.Signature)
	if s.Dead {
		return nil, true
	}
	switch m.Name() {
	case "Error", "String":
		E.setRet(s, ret, Vec{c.rawApp("method:"+m.Name(), SStr, recv[0], recv[1])})
		return nil, false
	}
	rt := sig.Recv().Type()
	if n, ok := rt.(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/parser") {
		switch n.Obj().Name() {
		case "Visitor", "Visitee":
			return E.traceCall(s, recv, m, args, in, ret)
		}
	}
	E.fail("", "unmodelled call", in.Pos(), m.FullName(), "a method of a value of unknown type")
	s.Dead = true
	return nil, true
}

// traceCall models visitor calls: the call is appended to the ghost trace, which decides the answer.
// The callee does not change the syntax tree (assumption).
func (E *Exec) traceCall(s *State, recv Vec, m *types.Func, args []Val, in ssa.CallInstruction, ret ssa.Value) ([]*State, bool) {
	c := E.C
	tr := s.Lookup("ghost:trace", c.Int(0), SSeqI)
	s.canWrite("ghost:trace", c.Int(0), in.Pos())
	var as []*Term
	if m.Name() == "Accept" {
		as = append(as, recv...)
	} else {
		for _, a := range args {
			as = append(as, s.asVec(a)...)
		}
	}
	for i := range as {
		as[i] = s.Simp(as[i])
	}
	ntr := c.rawApp("call!"+m.Name(), SSeqI, append([]*Term{tr}, as...)...)
	s.pushStore("ghost:trace", c.Int(0), ntr)
	if m.Type().(*types.Signature).Results().Len() == 1 {
		E.setRet(s, ret, Vec{c.rawApp("answer", SBool, ntr)})
	} else {
		E.setRet(s, ret, Vec{})
	}
	return nil, false
}

// callUnknown models a call of an unknown function value.
func (E *Exec) callUnknown(s *State, f *Term, sig *types.Signature, args []Val, in ssa.CallInstruction, ret ssa.Value) ([]*State, bool) {
	c := E.C
	E.oblige(s, "", "nil function", in.Pos(), c.Not(c.Eq(f, c.Int(0))), "")
	if s.Dead {
		return nil, true
	}
	// a callback that only reports: Lexer.Error
	if sig.Results().Len() == 0 && sig.Params().Len() == 2 && types.Identical(sig.Params().At(1).Type(), types.Universe.Lookup("error").Type()) {
		E.setRet(s, ret, Vec{})
		return nil, false
	}
	E.fail("", "unmodelled call", in.Pos(), "call of an unknown function value", "")
	s.Dead = true
	return nil, true
}
