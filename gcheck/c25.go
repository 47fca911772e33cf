package main

import (
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C25"] = Check{"interprocedural taint of quantities to find every addition of two amounts, and path-sensitive dataflow for the comparison of their commodities", checkC25}
}

// quantityAtoms lists the amounts (by place) whose quantities make up a number, with their signs left out.
func quantityAtoms(t *Term) map[string]bool {
	m := map[string]bool{}
	if t == nil {
		return m
	}
	_, _, as := linParts(t)
	for _, a := range as {
		if p := path(a); (a.op == "load" || a.op == "field") && strings.HasSuffix(p, ".Quantity") {
			m[strings.TrimSuffix(p, ".Quantity")] = true
		}
	}
	return m
}

// commodityFact: what the facts say about the commodities of the amounts: 1 equal, 0 different, -1 nothing.
func commodityFact(list []*Term, amounts map[string]bool) int {
	r := -1
	for _, t := range list {
		pol := 1
		if t.op == "not" {
			pol, t = 0, t.a[0]
		}
		if t.op != "eq" {
			continue
		}
		a, b := path(t.a[0]), path(t.a[1])
		if t.a[0].op == "str" || t.a[1].op == "str" {
			continue
		}
		ca, cb := strings.TrimSuffix(a, ".Commodity"), strings.TrimSuffix(b, ".Commodity")
		ma, mb := ca != a && amounts[ca], cb != b && amounts[cb]
		if ma && mb && a != b || len(amounts) == 1 && (ma || mb) {
			r = pol
		}
	}
	return r
}

// reports: something is said or the path fails.
func reports(ev []*Event, o *Outcome, complete bool) bool {
	said := false
	allEvents(ev, func(e *Event, it *Iter) {
		if e.kind == "ext" && (strings.HasPrefix(e.name, "fmt.Print") || strings.HasPrefix(e.name, "fmt.Fprint") || strings.HasPrefix(e.name, "log.")) {
			said = true
		}
	})
	if complete && !said && len(o.rets) > 0 {
		last := o.rets[len(o.rets)-1]
		if v, k := isNil(o.st.f, last); k && !v && isErrorType(last.typ) || last.op == "iface" {
			said = true
		}
	}
	return said
}

// sourcesOf names the places a number comes from.
func (q *quantities) sourcesOf(v ssa.Value, depth int, seen map[ssa.Value]bool, out map[string]bool) {
	if seen[v] || depth > 12 {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			q.sourcesOf(e, depth+1, seen, out)
		}
	case *ssa.BinOp:
		q.sourcesOf(x.X, depth+1, seen, out)
		q.sourcesOf(x.Y, depth+1, seen, out)
	case *ssa.Convert:
		q.sourcesOf(x.X, depth+1, seen, out)
	case *ssa.Extract:
		q.sourcesOf(x.Tuple, depth+1, seen, out)
	case *ssa.Lookup:
		q.sourcesOf(x.X, depth+1, seen, out)
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok {
			for _, u := range *a.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
					q.sourcesOf(s.Val, depth+1, seen, out)
				}
			}
			return
		}
		if x.Op == token.MUL {
			out[lastName(placeOf(x.X))] = true
			return
		}
		q.sourcesOf(x.X, depth+1, seen, out)
	case *ssa.Field:
		out[structOf(x.X.Type()).Field(x.Field).Name()] = true
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p != x {
				continue
			}
			for _, c := range q.P.callers[x.Parent()] {
				if i < len(c.Common().Args) {
					q.sourcesOf(c.Common().Args[i], depth+1, seen, out)
				}
			}
		}
	}
}

// places with no name of their own do not tell constructs apart
func lastName(p string) string {
	if i := strings.LastIndexByte(p, '.'); i >= 0 {
		return p[i+1:]
	}
	return "local"
}

// roleOf names where a function belongs in a way that survives moving code around.
func (P *Prog) roleOf(r *Report, f *ssa.Function) string {
	root := f
	for root.Parent() != nil {
		root = root.Parent()
	}
	if rv := f.Signature.Recv(); rv != nil && strings.HasSuffix(named(rv.Type()), "journal.Amount") {
		return fname(f)
	}
	if c := P.fn("journal", "Transaction.Close"); c != nil && P.reaches(c)[f] {
		return "closing a transaction"
	}
	var l []string
	for _, c := range P.cli(newReport(P, r.id)).cmds {
		if a, _, _ := c.action(); a != nil && P.reaches(a)[f] {
			l = append(l, c.name())
		}
	}
	sort.Strings(l)
	if len(l) > 0 && len(l) < 3 {
		return strings.Join(l, " and ")
	}
	return fname(root)
}

func checkC25(P *Prog, r *Report) {
	r.rule("compared", "wherever the quantities of two amounts are added or subtracted, their commodities are compared on that path, and a difference is printed or returned as an error", 2)
	r.rule("masked", "the commodity of a total is set only while it has none and the total is zero", 2)
	q := quantitiesOf(P)
	sites := map[*ssa.Function][]*ssa.BinOp{}
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(*ssa.BinOp); ok && (x.Op == token.ADD || x.Op == token.SUB) && q.val[x.X] && q.val[x.Y] {
					sites[f] = append(sites[f], x)
				}
			}
		}
	}
	for _, f := range P.Funcs {
		if len(sites[f]) == 0 {
			continue
		}
		// what is added on the paths of the function
		why := ""
		n := 0
		judge := func(v *Term, list []*Term, ev []*Event, o *Outcome, complete bool) {
			am := quantityAtoms(v)
			_, _, as := linParts(v)
			if len(am) == 0 || len(as) < 2 {
				return
			}
			n++
			switch commodityFact(list, am) {
			case 1:
			case 0:
				if !reports(ev, o, complete) {
					why = "amounts of different commodities are added without a word"
				}
			default:
				why = "amounts are added without comparing their commodities"
			}
		}
		var scan func(o *Outcome, ev []*Event, list []*Term, complete bool)
		scan = func(o *Outcome, ev []*Event, list []*Term, complete bool) {
			for _, e := range ev {
				switch e.kind {
				case "store":
					judge(e.args[1], list, ev, o, complete)
				case "mapset":
					judge(e.args[2], list, ev, o, complete)
				case "loop":
					for _, it := range e.loop.iters {
						for _, p := range e.loop.phis {
							judge(it.phis[p.name], it.st.f.list, it.ev, o, false)
						}
						scan(o, it.ev, it.st.f.list, false)
					}
				}
			}
		}
		for _, o := range r.exec(f, Opts{}) {
			if o.panic || o.exit {
				continue
			}
			scan(o, o.st.ev, o.st.f.list, true)
			for _, v := range o.rets {
				judge(v, o.st.f.list, o.st.ev, o, true)
			}
		}
		if n == 0 {
			why = "quantities are added without comparing the commodities they belong to"
		}
		role := P.roleOf(r, f)
		cons := map[string]*ssa.BinOp{}
		for _, s := range sites[f] {
			src := map[string]bool{}
			q.sourcesOf(s, 0, map[ssa.Value]bool{}, src)
			var l []string
			for k := range src {
				l = append(l, k)
			}
			for _, k := range l {
				if len(l) == 1 || k != "Quantity" {
					cons[role+": "+k] = s
				}
			}
		}
		for c, s := range cons {
			r.check(why == "", "compared", c, P.ipos(s), "%s", why)
		}
	}
	// ---- commodities overwritten
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || named(fa.X.Type()) != "*journal.Amount" || fieldName(fa) != "Commodity" {
					continue
				}
				if _, fresh := fa.X.(*ssa.Alloc); fresh {
					continue
				}
				if !partOfAccount(P, fa.X, 0) {
					continue
				}
				bad := P.inContexts(f, 3, st, func(o *Outcome, list []*Term, e *Event) string {
					s := at(e, o)
					a := e.args[0]
					if a.op != "faddr" {
						return "the commodity of a total is overwritten"
					}
					if a.a[0].op == "alloc" || rootOf(a.a[0]).op == "alloc" {
						return ""
					}
					cm, qu := fieldAtAddr(s, a.a[0], "Commodity"), fieldAtAddr(s, a.a[0], "Quantity")
					if e.args[1] == cm {
						return ""
					}
					f := s.f
					if v, k := f.query(eq0T(lenT(cm))); !k || !v {
						return "the commodity of a total is replaced"
					}
					if v, k := f.query(eq0T(qu)); !k || !v {
						return "a total of no commodity silently takes another"
					}
					return ""
				})
				r.check(bad == "", "masked", fname(f), P.ipos(in), "%s", bad)
			}
		}
	}
}

// partOfAccount: the amount may belong to an account.
func partOfAccount(P *Prog, v ssa.Value, d int) bool {
	if d > 4 {
		return true
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return named(x.X.Type()) != "*journal.Posting"
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p != x {
				continue
			}
			for _, c := range P.callers[x.Parent()] {
				if i < len(c.Common().Args) && partOfAccount(P, c.Common().Args[i], d+1) {
					return true
				}
			}
		}
		return false
	case *ssa.UnOp:
		// the amount of a posting is a pointer of its own
		return false
	case *ssa.Alloc, *ssa.Call:
		return false
	}
	return true
}

// fieldAtAddr reads a field of the struct at an address.
func fieldAtAddr(st *State, a *Term, name string) *Term { return fieldAt(st, a, name) }

// inContexts runs f, and where the store there is not justified by f alone, those who call it.
func (P *Prog) inContexts(f *ssa.Function, depth int, site ssa.Instruction, judge func(o *Outcome, list []*Term, e *Event) string) string {
	var opq []*ssa.Function
	for _, g := range append(climbers(P), finderOf(P)) {
		if g != nil && !P.reaches(g)[f] {
			opq = append(opq, g)
		}
	}
	outs, in := P.run(f, Opts{snapAt: func(i ssa.Instruction) bool { return i == site }, opaque: opaqueFns(opq...)})
	bad := ""
	if in.over {
		return "too many paths"
	}
	n := 0
	for _, o := range outs {
		allEvents(o.st.ev, func(e *Event, it *Iter) {
			if e.in != site {
				return
			}
			n++
			list := o.st.f.list
			if it != nil {
				list = it.st.f.list
			}
			if w := judge(o, list, e); w != "" && bad == "" {
				bad = w
			}
		})
	}
	if bad == "" && n > 0 {
		return ""
	}
	if bad == "" {
		bad = "whether the commodity of a total may be set here cannot be told"
	}
	if depth == 0 {
		return bad
	}
	var from []*ssa.Function
	seen := map[*ssa.Function]bool{}
	if f.Parent() != nil {
		from = append(from, f.Parent())
	}
	for _, c := range P.callers[f] {
		if g := c.Parent(); !seen[g] && g != f {
			seen[g] = true
			from = append(from, g)
		}
	}
	if len(from) == 0 || P.taken[f] && f.Parent() == nil {
		return bad
	}
	for _, g := range from {
		if P.inContexts(g, depth-1, site, judge) != "" {
			return bad
		}
	}
	return ""
}
