package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func opaqueNames(pats ...string) func(*ssa.Function) bool {
	return func(f *ssa.Function) bool {
		n := fname(f)
		for _, p := range pats {
			if n == p || strings.HasSuffix(n, "."+p) || strings.HasSuffix(n, ")."+p) {
				return true
			}
		}
		return false
	}
}

func opaqueFns(fs ...*ssa.Function) func(*ssa.Function) bool {
	m := map[*ssa.Function]bool{}
	for _, f := range fs {
		if f != nil {
			m[f] = true
		}
	}
	return func(f *ssa.Function) bool { return m[f] }
}

// allEvents walks events, those of completed iterations included.
func allEvents(ev []*Event, f func(e *Event, it *Iter)) {
	var walk func(ev []*Event, it *Iter)
	walk = func(ev []*Event, it *Iter) {
		for _, e := range ev {
			f(e, it)
			if e.kind == "loop" {
				for _, i := range e.loop.iters {
					walk(i.ev, i)
				}
			}
		}
	}
	walk(ev, nil)
}

func (r *Report) use(f *ssa.Function) {
	if f != nil {
		r.funcs[fname(f)] = true
	}
}

// exec analyses a function for a check and accounts for it.
func (r *Report) exec(f *ssa.Function, o Opts) []*Outcome {
	outs, in := r.P.run(f, o)
	r.use(f)
	r.paths += len(outs)
	if in.over {
		r.notes = append(r.notes, "analysis of "+fname(f)+" gave up: too many paths")
		return nil
	}
	return outs
}

// byRole finds a function by name, or else the only one satisfying pred.
func (P *Prog) byRole(pkg, name string, pred func(*ssa.Function) bool) *ssa.Function {
	if f := P.fn(pkg, name); f != nil && (pred == nil || pred(f)) {
		return f
	}
	if pred == nil {
		return nil
	}
	var found *ssa.Function
	for _, f := range P.Funcs {
		if f.Pkg != nil && f.Pkg == P.byPkg[pkg] && f.Parent() == nil && pred(f) {
			if found != nil {
				return nil
			}
			found = f
		}
	}
	return found
}

// callsTo lists the call instructions of f (closures excluded) to a function satisfying pred.
func callsTo(f *ssa.Function, pred func(*ssa.Function) bool) []ssa.CallInstruction {
	var l []ssa.CallInstruction
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && pred(g) {
					l = append(l, c)
				}
			}
		}
	}
	return l
}

func named(t types.Type) string {
	if t == nil {
		return ""
	}
	if p, ok := t.(*types.Pointer); ok {
		return "*" + typeName(p.Elem())
	}
	return typeName(t)
}

func paramTypes(f *ssa.Function) []string {
	var l []string
	for i := 0; i < f.Signature.Params().Len(); i++ {
		l = append(l, named(f.Signature.Params().At(i).Type()))
	}
	return l
}

func resultTypes(f *ssa.Function) []string {
	var l []string
	for i := 0; i < f.Signature.Results().Len(); i++ {
		l = append(l, named(f.Signature.Results().At(i).Type()))
	}
	return l
}

func structOf(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// reaches: the functions of the repository reachable through static calls, closures made and functions taken.
func (P *Prog) reaches(f *ssa.Function) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || m[f] {
			return
		}
		m[f] = true
		if f.Blocks == nil || !P.inRepo(f) && f.Synthetic == "" {
			return
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						walk(g)
					}
				}
			}
		}
	}
	walk(f)
	return m
}

func fieldName(fa *ssa.FieldAddr) string {
	return structOf(fa.X.Type()).Field(fa.Field).Name()
}
