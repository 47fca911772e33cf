package main

import (
	"go/constant"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A cut is a place where only the beginning of a text is written.
type cut struct {
	f      *ssa.Function
	in     ssa.Instruction
	verb   string
	amount bool
}

// cuts finds the format verbs with a precision that texts are written with.
func (P *Prog) cuts() []cut {
	var l []cut
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != "fmt" {
					continue
				}
				switch g.Name() {
				case "Sprintf", "Printf", "Fprintf", "Appendf":
				default:
					continue
				}
				args := c.Common().Args
				k, ok := args[len(args)-2].(*ssa.Const)
				if !ok || k.Value == nil || k.Value.Kind() != constant.String {
					continue
				}
				vals := spread(args[len(args)-1])
				fm := constant.StringVal(k.Value)
				n := 0
				for i := 0; i < len(fm); i++ {
					if fm[i] != '%' {
						continue
					}
					j := i + 1
					for j < len(fm) && strings.IndexByte("+-# 0123456789.", fm[j]) >= 0 {
						j++
					}
					if j >= len(fm) || fm[j] == '*' || fm[j] == '[' {
						break
					}
					verb := fm[i : j+1]
					i = j
					if fm[j] == '%' {
						continue
					}
					v := vals[n]
					n++
					if !strings.Contains(verb, ".") || strings.IndexByte("svqxX", fm[j]) < 0 || v == nil {
						continue
					}
					am := isAmount(v)
					if !am && !isString(v.Type()) && !hasString(P, v) {
						continue
					}
					l = append(l, cut{f, in, verb, am})
				}
			}
		}
	}
	return l
}

// spread gives the values of a variadic argument by their number.
func spread(v ssa.Value) map[int]ssa.Value {
	m := map[int]ssa.Value{}
	s, ok := v.(*ssa.Slice)
	if !ok {
		return m
	}
	a, ok := s.X.(*ssa.Alloc)
	if !ok {
		return m
	}
	for _, u := range *a.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			continue
		}
		for _, w := range *ia.Referrers() {
			st, ok := w.(*ssa.Store)
			if !ok || st.Addr != ia {
				continue
			}
			x := st.Val
			if mi, ok := x.(*ssa.MakeInterface); ok {
				x = mi.X
			}
			m[int(k.Int64())] = x
		}
	}
	return m
}

// isAmount: an amount, or the text of one.
func isAmount(v ssa.Value) bool {
	if strings.HasSuffix(named(v.Type()), "journal.Amount") {
		return true
	}
	switch x := v.(type) {
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil {
			return false
		}
		if rc := g.Signature.Recv(); rc != nil && strings.HasSuffix(named(rc.Type()), "journal.Amount") && isString(x.Type()) {
			return true
		}
		if g.Pkg != nil && (g.Pkg.Pkg.Path() == "fmt" || g.Pkg.Pkg.Path() == "strings") {
			for _, a := range x.Call.Args {
				if isString(a.Type()) && isAmount(a) {
					return true
				}
				for _, y := range spread(a) {
					if isAmount(y) {
						return true
					}
				}
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if _, ok := e.(*ssa.Phi); !ok && isAmount(e) {
				return true
			}
		}
	case *ssa.BinOp:
		return isString(x.Type()) && (isAmount(x.X) || isAmount(x.Y))
	}
	return false
}

func hasString(P *Prog, v ssa.Value) bool {
	ms := P.SSA.MethodSets.MethodSet(v.Type())
	for i := 0; i < ms.Len(); i++ {
		if n := ms.At(i).Obj().Name(); n == "String" || n == "Error" {
			return true
		}
	}
	return false
}

// whole: what the commands of these names write, they write whole.
func (r *Report) whole(P *Prog, rule string, cli *CLI, names ...string) {
	if cli == nil {
		return
	}
	l := P.cuts()
	parse := parserParse(P)
	for _, c := range cli.cmds {
		for _, n := range names {
			if c.name() != n {
				continue
			}
			f, _, _ := c.action()
			if f == nil {
				continue
			}
			re := P.reaches(f)
			var far map[*ssa.Function]bool
			if parse != nil {
				far = P.reaches(parse)
			}
			bad := false
			for _, x := range l {
				if !x.amount && re[x.f] && (!far[x.f] || x.f.Pkg == f.Pkg) {
					bad = true
					r.bad(rule, n+": whole", P.ipos(x.in), "only the beginning of a text is written (%s)", x.verb)
				}
			}
			if !bad {
				r.ok(rule, n+": whole")
			}
		}
	}
}
