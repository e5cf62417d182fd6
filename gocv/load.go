package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded code under verification together with the contracts.
type Program struct {
	Fset    *token.FileSet
	Pkgs    []*packages.Package
	SSA     *ssa.Program
	ByPath  map[string]*packages.Package
	SSAPkg  map[string]*ssa.Package
	Module  string
	RepoDir string

	Contracts map[*ssa.Function]*Contract
	ByName    map[string]*Contract
	LoopInvs  map[string][]*Contract // function name -> loop templates
	SpecFns   map[*types.Func]*SpecFn
	Info      map[*ast.File]*packages.Package
	AllFuncs  map[string]*ssa.Function
	Missing   []string // contracts without a matching function

	NodeTypes map[string]*NodeType // qualified struct name -> node type
	typeIDs   map[string]int
	typeByID  map[int64]types.Type
	allFns    []*ssa.Function
	sccOnce   sync.Once
	scc       map[*ssa.Function]int
	mu        sync.Mutex

	Hints map[string]map[string]bool // loop -> the invariants found before
}

// Contract is a contract written as a Go function.
type Contract struct {
	Name   string
	Target string
	Decl   *ast.FuncDecl
	Pkg    *packages.Package
	Fn     *ssa.Function
	// Concrete contracts are proved with the state of the lexer in view.
	Concrete bool
	// Assumed contracts are used by callers and not proved: they are reported as such.
	Assumed bool
	// Abstract contracts of the lexer are proved with the state of the scanner hidden.
	Abstract bool
}

// SpecFn is a specification function.
type SpecFn struct {
	Obj    *types.Func
	Decl   *ast.FuncDecl
	Pkg    *packages.Package
	Opaque bool
	// Abstract functions hide the state of the lexer from the packages above it: "value", "true" or "state".
	Abstract string
	// Intrinsic is the name of the built-in meaning, if any.
	Intrinsic string
	Name      string
	// Induction is the parameter of the induction that proves a lemma.
	Induction string
	Lemma     bool

	params []*types.Var
	leafs  []specLeaf // leaves of the results
	pleafs []specLeaf // leaves of the params
	deps   [][]bool   // result leaf -> param leaf dependency
}

const modPath = "github.com/yoheimuta/go-protoparser/v4"

func overlayFiles(contractsDir, repo string) (map[string][]byte, error) {
	ov := map[string][]byte{}
	err := filepath.Walk(contractsDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, err := filepath.Rel(contractsDir, p)
		if err != nil {
			return err
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		ov[filepath.Join(repo, filepath.Dir(rel), "zz_verif_"+filepath.Base(rel))] = b
		return nil
	})
	return ov, err
}

func Load(repo, contractsDir string) (*Program, error) {
	ov, err := overlayFiles(contractsDir, repo)
	if err != nil {
		return nil, err
	}
	cfg := &packages.Config{
		Mode:    packages.LoadSyntax | packages.NeedModule,
		Dir:     repo,
		Overlay: ov,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off"),
	}
	ps, err := packages.Load(cfg, ".", "./lexer/...", "./parser/...", "./interpret/...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range ps {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the code together with the contracts does not type-check:\n%s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{Fset: ps[0].Fset, Pkgs: ps, SSA: prog, ByPath: map[string]*packages.Package{}, SSAPkg: map[string]*ssa.Package{}, RepoDir: repo,
		Contracts: map[*ssa.Function]*Contract{}, ByName: map[string]*Contract{}, LoopInvs: map[string][]*Contract{}, SpecFns: map[*types.Func]*SpecFn{}, AllFuncs: map[string]*ssa.Function{}, NodeTypes: map[string]*NodeType{}, typeIDs: map[string]int{}}
	for i, p := range ps {
		P.ByPath[p.PkgPath] = p
		P.SSAPkg[p.PkgPath] = spkgs[i]
	}
	P.collectFuncs()
	if err := P.collectContracts(); err != nil {
		return nil, err
	}
	P.collectNodeTypes()
	return P, nil
}

func shortPkg(p *types.Package) string {
	if p == nil {
		return ""
	}
	s := strings.TrimPrefix(p.Path(), modPath)
	s = strings.TrimPrefix(s, "/")
	if s == "" {
		return "protoparser"
	}
	return s[strings.LastIndex(s, "/")+1:]
}

func isVerifFile(fset *token.FileSet, pos token.Pos) bool {
	return strings.HasPrefix(filepath.Base(fset.Position(pos).Filename), "zz_verif_")
}

// FuncName is the name used for contracts and reports, such as parser.Parser.ParseImport.
func FuncName(f *ssa.Function) string {
	if f.Parent() != nil {
		return FuncName(f.Parent()) + strings.TrimPrefix(f.Name(), f.Parent().Name())
	}
	pk := ""
	if f.Pkg != nil {
		pk = shortPkg(f.Pkg.Pkg)
	} else if o := f.Object(); o != nil {
		pk = shortPkg(o.Pkg())
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return pk + "." + n.Obj().Name() + "." + f.Name()
		}
	}
	return pk + "." + f.Name()
}

func (P *Program) collectFuncs() {
	for _, sp := range P.SSAPkg {
		if sp == nil {
			continue
		}
		add := func(f *ssa.Function) {
			if f == nil || f.Synthetic != "" || isVerifFile(P.Fset, f.Pos()) {
				return
			}
			P.AllFuncs[FuncName(f)] = f
		}
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				if n, ok := m.Type().(*types.Named); ok {
					for i := 0; i < n.NumMethods(); i++ {
						add(P.SSA.FuncValue(n.Method(i)))
					}
				}
			}
		}
	}
}

func (P *Program) collectContracts() error {
	for _, p := range P.Pkgs {
		for _, f := range p.Syntax {
			if !isVerifFile(P.Fset, f.Pos()) {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				n := fd.Name.Name
				obj := p.TypesInfo.Defs[fd.Name].(*types.Func)
				switch {
				case strings.HasPrefix(n, "C_"), strings.HasPrefix(n, "L_"):
					base, _, _ := strings.Cut(n[2:], "___")
					target := shortPkg(p.Types) + "." + strings.ReplaceAll(base, "__", ".")
					c := &Contract{Name: n, Target: target, Decl: fd, Pkg: p}
					if fd.Doc != nil {
						for _, l := range strings.Split(fd.Doc.Text(), "\n") {
							c.Concrete = c.Concrete || l == "concrete"
							c.Abstract = c.Abstract || l == "abstract"
							c.Assumed = c.Assumed || l == "assumed"
						}
					}
					if n[0] == 'L' {
						P.LoopInvs[target] = append(P.LoopInvs[target], c)
						continue
					}
					fn := P.AllFuncs[target]
					if fn == nil {
						P.Missing = append(P.Missing, target)
						continue
					}
					if why := matchSig(fn, obj); why != "" {
						P.Missing = append(P.Missing, target+" ("+why+")")
						continue
					}
					c.Fn = fn
					P.Contracts[fn] = c
					P.ByName[target] = c
				default:
					sf := &SpecFn{Obj: obj, Decl: fd, Pkg: p, Name: shortPkg(p.Types) + "." + n}
					if fd.Doc != nil {
						for _, l := range strings.Split(fd.Doc.Text(), "\n") {
							if strings.HasPrefix(l, "opaque") {
								sf.Opaque = true
							}
							if l == "abstract" || strings.HasPrefix(l, "abstract:") {
								sf.Abstract = "value"
								if i, ok := strings.CutPrefix(l, "abstract: "); ok {
									sf.Abstract = strings.TrimSpace(i)
								}
							}
							if i, ok := strings.CutPrefix(l, "induction: "); ok {
								sf.Induction = strings.TrimSpace(i)
							}
							if i, ok := strings.CutPrefix(l, "intrinsic: "); ok {
								sf.Intrinsic = strings.TrimSpace(i)
							}
						}
					}
					sf.Lemma = strings.HasPrefix(n, "Lemma_")
					P.SpecFns[obj] = sf
				}
			}
		}
	}
	sort.Strings(P.Missing)
	return nil
}

// matchSig checks that the contract has the parameters (receiver, params, results) of the function.
func matchSig(fn *ssa.Function, c *types.Func) string {
	var want []types.Type
	sig := fn.Signature
	if sig.Recv() != nil {
		want = append(want, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		want = append(want, sig.Params().At(i).Type())
	}
	for i := 0; i < sig.Results().Len(); i++ {
		want = append(want, sig.Results().At(i).Type())
	}
	got := c.Type().(*types.Signature).Params()
	if got.Len() != len(want) {
		return "the number of parameters and results changed"
	}
	for i, w := range want {
		if !types.Identical(w, got.At(i).Type()) {
			return fmt.Sprintf("type of parameter %d is %s and not %s", i, w, got.At(i).Type())
		}
	}
	return ""
}

// TypeID numbers the dynamic types of interface values.
func (P *Program) TypeID(t types.Type) int64 {
	k := types.TypeString(t, func(p *types.Package) string { return p.Path() })
	if id, ok := P.typeIDs[k]; ok {
		return int64(id)
	}
	panic("unnumbered type " + k)
}
