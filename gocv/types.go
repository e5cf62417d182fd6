package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Leaf is a scalar component of a Go value.
type Leaf struct {
	Path string
	Sort Sort
	Ptr  bool // an object reference
	Kind byte // 'p' pointer, 'a' slice array, 'o' off, 'l' len, 'c' cap, 't' iface tag, 'r' iface ref, 'm' map, 'f' func, 0 scalar
}

var leafCache = map[string][]Leaf{}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return shortPkgName(p) })
}

func shortPkgName(p *types.Package) string {
	if strings.HasPrefix(p.Path(), modPath) {
		return shortPkg(p)
	}
	return p.Path()
}

type unsupported struct{ msg string }

func (u unsupported) Error() string { return u.msg }

func bail(f string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

// Leaves flattens a type.
func Leaves(t types.Type) []Leaf {
	if isIntMap(t) {
		return []Leaf{{"", SMapI, false, 0}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{"", SBool, false, 0}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{"", SStr, false, 0}}
		case u.Info()&types.IsInteger != 0, u.Info()&types.IsFloat != 0, u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return []Leaf{{"", SInt, false, 0}}
		}
		if u.Kind() == types.Invalid {
			return nil
		}
	case *types.Pointer:
		return []Leaf{{"", SInt, true, 'p'}}
	case *types.Map:
		return []Leaf{{"", SInt, true, 'm'}}
	case *types.Chan:
		return []Leaf{{"", SInt, true, 'p'}}
	case *types.Signature:
		return []Leaf{{"", SInt, false, 'f'}}
	case *types.Slice:
		return []Leaf{{".arr", SInt, true, 'a'}, {".off", SInt, false, 'o'}, {".len", SInt, false, 'l'}, {".cap", SInt, false, 'c'}}
	case *types.Interface:
		return []Leaf{{".tag", SInt, false, 't'}, {".ref", SInt, true, 'r'}}
	case *types.Struct:
		var r []Leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range Leaves(u.Field(i).Type()) {
				r = append(r, Leaf{"." + u.Field(i).Name() + l.Path, l.Sort, l.Ptr, l.Kind})
			}
		}
		return r
	case *types.Tuple:
		var r []Leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range Leaves(u.At(i).Type()) {
				r = append(r, Leaf{fmt.Sprintf("#%d%s", i, l.Path), l.Sort, l.Ptr, l.Kind})
			}
		}
		return r
	}
	bail("unsupported type %s", t)
	return nil
}

// fieldRange gives the leaf range of field i of a struct type.
func fieldRange(t types.Type, i int) (int, int) {
	st := t.Underlying().(*types.Struct)
	o := 0
	for j := 0; j < i; j++ {
		o += len(Leaves(st.Field(j).Type()))
	}
	return o, o + len(Leaves(st.Field(i).Type()))
}

func tupleRange(t *types.Tuple, i int) (int, int) {
	o := 0
	for j := 0; j < i; j++ {
		o += len(Leaves(t.At(j).Type()))
	}
	return o, o + len(Leaves(t.At(i).Type()))
}

// objKey is the heap key of objects of the type.
func objKey(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		if _, ok := n.Underlying().(*types.Struct); ok {
			return typeStr(n)
		}
	}
	return "cell:" + typeStr(t)
}

// memKey is the heap key of arrays with such elements.
func memKey(elem types.Type) string { return "mem:" + typeStr(elem) }

// NodeType describes a syntax tree struct type in the specification domain.
type NodeType struct {
	Name   string // parser.Import
	Typ    *types.Named
	St     *types.Struct
	Leaves []NodeLeaf
}

// NodeLeaf is a leaf of an expanded node.
type NodeLeaf struct {
	Path    string // "Meta.Pos.Offset", "EnumBody@S"
	Field   int
	Sort    Sort
	Aspects string // the aspects it belongs to
	Kind    byte   // 0 scalar, 's' node sequence, 'n' node pointer, 'q' string sequence
	Asp     byte   // aspect of a child leaf
	Sub     string // leaf path inside the field, for scalars
}

const allAspects = "SPLI"

func (P *Program) collectNodeTypes() {
	// number all types that occur in MakeInterface, and the pointer types of the module
	names := map[string]types.Type{}
	add := func(t types.Type) {
		names[types.TypeString(t, func(p *types.Package) string { return p.Path() })] = t
	}
	P.typeByID = map[int64]types.Type{}
	for f := range ssautil.AllFunctions(P.SSA) {
		if f.Pkg == nil && f.Object() == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.MakeInterface:
					add(in.X.Type())
				case *ssa.TypeAssert:
					add(in.AssertedType)
				}
			}
		}
	}
	for _, p := range P.Pkgs {
		for _, n := range p.Types.Scope().Names() {
			if tn, ok := p.Types.Scope().Lookup(n).(*types.TypeName); ok {
				if named, ok := tn.Type().(*types.Named); ok {
					if _, ok := named.Underlying().(*types.Struct); ok {
						add(types.NewPointer(named))
						add(named)
					}
				}
			}
		}
	}
	add(types.Typ[types.String])
	var ns []string
	for n := range names {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for i, n := range ns {
		P.typeIDs[n] = i + 1
		P.typeByID[int64(i+1)] = names[n]
	}

	var todo []*types.Named
	pp := P.ByPath[modPath+"/parser"]
	if pp == nil {
		return
	}
	sc := pp.Types.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || !tn.Exported() || n == "Parser" || isVerifFile(P.Fset, tn.Pos()) {
			continue
		}
		if named, ok := tn.Type().(*types.Named); ok {
			if _, ok := named.Underlying().(*types.Struct); ok {
				todo = append(todo, named)
				P.NodeTypes[typeStr(named)] = &NodeType{Name: typeStr(named), Typ: named, St: named.Underlying().(*types.Struct)}
			}
		}
	}
	for _, n := range todo {
		P.NodeTypes[typeStr(n)].Leaves = P.nodeLeaves(n)
	}
}

func (P *Program) nodeTypeOf(t types.Type) *NodeType {
	p, ok := t.(*types.Pointer)
	if !ok {
		return nil
	}
	n, ok := p.Elem().(*types.Named)
	if !ok {
		return nil
	}
	return P.NodeTypes[typeStr(n)]
}

// isNodeElem tells whether values of the type are syntax tree nodes: *T or the Visitee interface.
func (P *Program) isNodeElem(t types.Type) bool {
	if P.nodeTypeOf(t) != nil {
		return true
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Name() == "Visitee" {
		return true
	}
	return false
}

func (P *Program) nodeLeaves(n *types.Named) []NodeLeaf {
	st := n.Underlying().(*types.Struct)
	isComment := n.Obj().Name() == "Comment"
	var out []NodeLeaf
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		name := f.Name()
		switch {
		case name == "EmbeddedComments":
			continue
		case P.nodeTypeOf(f.Type()) != nil:
			asp := allAspects
			switch {
			case typeStr(f.Type()) == "*parser.Comment":
				asp = "I"
			}
			for _, a := range asp {
				out = append(out, NodeLeaf{Path: name + "@" + string(a), Field: i, Sort: SNode, Aspects: string(a), Kind: 'n', Asp: byte(a)})
			}
		default:
			if sl, ok := f.Type().Underlying().(*types.Slice); ok {
				if P.isNodeElem(sl.Elem()) {
					asp := allAspects
					if typeStr(sl.Elem()) == "*parser.Comment" {
						asp = "L"
					}
					for _, a := range asp {
						out = append(out, NodeLeaf{Path: name + "@" + string(a), Field: i, Sort: SSeqN, Aspects: string(a), Kind: 's', Asp: byte(a)})
					}
					continue
				}
				ls := Leaves(sl.Elem())
				if len(ls) != 1 {
					continue
				}
				out = append(out, NodeLeaf{Path: name, Field: i, Sort: seqSortOfElem(ls[0].Sort), Aspects: "S", Kind: 'q'})
				continue
			}
			asp := "S"
			if typeStr(f.Type()) == "meta.Meta" || n.Obj().Name() == "ProtoMeta" {
				asp = "P"
			}
			if isComment {
				asp += "LI"
			}
			for _, l := range Leaves(f.Type()) {
				out = append(out, NodeLeaf{Path: name + l.Path, Field: i, Sort: l.Sort, Aspects: asp, Sub: l.Path})
			}
		}
	}
	return out
}

// isIntMap: the type of map contents in specifications.
func isIntMap(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "IntMap" && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == "meta"
}
