package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the resolved program under analysis: every non-test package of the
// repository, type checked, in SSA form.
type Prog struct {
	Dir     string
	Module  string
	Pkgs    []*packages.Package
	SSA     *ssa.Program
	SPkgs   []*ssa.Package
	Funcs   []*ssa.Function // every source function of the repository, closures included
	byPkg   map[string]*ssa.Package
	callers map[*ssa.Function][]ssa.CallInstruction
	tabs    map[*ssa.Global]*table
	taken   map[*ssa.Function]bool // address taken (used as a value)
	newAcc  map[*ssa.Function]bool
}

var theProg *Prog // the program under analysis

func load(dir string) (*Prog, error) {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GOWORK=off")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo |
			packages.NeedDeps | packages.NeedModule | packages.NeedExportFile,
		Dir: dir,
		Env: env,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the program does not load: %s", strings.Join(errs, "; "))
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages")
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Prog{Dir: dir, Pkgs: pkgs, SSA: prog, SPkgs: spkgs, byPkg: map[string]*ssa.Package{}}
	theProg = P
	if pkgs[0].Module != nil {
		P.Module = pkgs[0].Module.Path
	}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		P.byPkg[strings.TrimPrefix(strings.TrimPrefix(pkgs[i].PkgPath, P.Module), "/")] = sp
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		if f.Blocks != nil {
			P.Funcs = append(P.Funcs, f)
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, sp := range spkgs {
		names := []string{}
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, T := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(T)
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" && f.Pkg == sp {
							add(f)
						}
					}
				}
			}
		}
	}
	P.callers = map[*ssa.Function][]ssa.CallInstruction{}
	P.taken = map[*ssa.Function]bool{}
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee *ssa.Function
				if c, ok := in.(ssa.CallInstruction); ok {
					callee = c.Common().StaticCallee()
					if callee != nil {
						P.callers[callee] = append(P.callers[callee], c)
					}
				}
				var ops []*ssa.Value
				ops = in.Operands(ops)
				for k, op := range ops {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						if c, isCall := in.(ssa.CallInstruction); isCall && k == 0 && c.Common().Value == g && !c.Common().IsInvoke() {
							continue
						}
						if g.Synthetic != "" && g.Object() != nil {
							if o, ok := g.Object().(*types.Func); ok {
								if real := prog.FuncValue(o); real != nil {
									P.taken[real] = true
								}
							}
						}
						P.taken[g] = true
					}
				}
			}
		}
	}
	return P, nil
}

func (P *Prog) inRepo(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return P.Module != "" && (g.Pkg.Pkg.Path() == P.Module || strings.HasPrefix(g.Pkg.Pkg.Path(), P.Module+"/"))
		}
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path() == P.Module || strings.HasPrefix(o.Pkg().Path(), P.Module+"/")
	}
	return false
}

func (P *Prog) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := P.SSA.Fset.Position(p)
	r, err := filepath.Rel(P.Dir, q.Filename)
	if err != nil {
		r = q.Filename
	}
	return fmt.Sprintf("%s:%d", r, q.Line)
}

func (P *Prog) ipos(in ssa.Instruction) string {
	if in == nil {
		return "-"
	}
	if in.Pos().IsValid() {
		return P.pos(in.Pos())
	}
	b := in.Block()
	if b != nil {
		for _, o := range b.Instrs {
			if o.Pos().IsValid() {
				return P.pos(o.Pos())
			}
		}
		return P.pos(b.Parent().Pos())
	}
	return "-"
}

// fn finds a package level function, or a method written as "Type.Name".
func (P *Prog) fn(pkg, name string) *ssa.Function {
	sp := P.byPkg[pkg]
	if sp == nil {
		return nil
	}
	if i := strings.IndexByte(name, '.'); i >= 0 {
		tn, mn := name[:i], name[i+1:]
		t, ok := sp.Members[tn].(*ssa.Type)
		if !ok {
			return nil
		}
		for _, T := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
			ms := P.SSA.MethodSets.MethodSet(T)
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Name() == mn {
					f := P.SSA.MethodValue(ms.At(i))
					if f != nil && f.Synthetic == "" {
						return f
					}
					if o, ok := ms.At(i).Obj().(*types.Func); ok {
						if g := P.SSA.FuncValue(o); g != nil && g.Blocks != nil {
							return g
						}
					}
				}
			}
		}
		return nil
	}
	f, _ := sp.Members[name].(*ssa.Function)
	return f
}

func (P *Prog) typ(pkg, name string) *types.Named {
	sp := P.byPkg[pkg]
	if sp == nil {
		return nil
	}
	t, ok := sp.Members[name].(*ssa.Type)
	if !ok {
		return nil
	}
	n, _ := t.Type().(*types.Named)
	return n
}

func fname(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, "github.com/rikchilvers/gledger/", "")
	return s
}

// ours: a package of the repository.
func (P *Prog) ours(p *types.Package) bool {
	for _, x := range P.byPkg {
		if x != nil && x.Pkg == p {
			return true
		}
	}
	return false
}
