package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C16"] = Check{"order-taint analysis over SSA: what a loop over a map leaves behind, followed to a sort that decides every place or to where it is seen", checkC16}
}

// unordered follows what is in the order of a map along one path.
type unordered struct {
	P     *Prog
	r     *Report
	f     *ssa.Function
	o     *Outcome
	bad   func(construct string, pos string, f string, args ...any)
	in    *interp
	lists map[*Term]*ssa.BasicBlock // lists in the order of a map
	elems map[*Term]*Term           // what they hold
	maps  map[*LoopSum]bool
	esc   string // a list that leaves the function as it is
	found int
}

func overMap(L *LoopSum) bool {
	if L.seq == nil || L.seq.typ == nil {
		return false
	}
	if _, ok := L.seq.typ.Underlying().(*types.Map); !ok {
		return false
	}
	// the length of a list may be that of a map
	for _, it := range L.iters {
		for _, f := range it.facts {
			if f.op == "nextok" && f.a[0] == L.seq {
				return true
			}
		}
	}
	return false
}

// dep: the term depends on the order of one of the lists.
func (u *unordered) dep(t *Term) bool {
	if len(u.lists) == 0 || t == nil {
		return false
	}
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if _, ok := u.lists[t]; ok {
			return true
		}
		if t.op == "len" {
			return false
		}
		for _, a := range t.a {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

// ofLoop: the term is about the element that the loop is at.
func ofLoop(t *Term, L *LoopSum, inner map[*Term]bool) bool {
	return t != nil && t.any(func(u *Term) bool {
		if u == L.idx || inner[u] {
			return true
		}
		switch u.op {
		case "rangekey", "rangeval":
			return L.seq != nil && u.a[0] == L.seq
		}
		return false
	})
}

const (
	oKeep = iota
	oComm
	oUnknown
	oList
	oOrder
)

// update says what an iteration does to a value that outlives it.
func (u *unordered) update(L *LoopSum, it *Iter, S, V *Term, inner map[*Term]bool) int {
	switch {
	case V == nil || V == S:
		return oKeep
	case !V.contains(S):
		// what an inner loop leaves behind
		for _, l := range loopsIn(it.ev) {
			for _, p := range l.phis {
				if p.sym != V {
					continue
				}
				c := u.update(L, it, S, p.init, inner)
				for _, i := range l.iters {
					if d := u.update(L, i, V, i.phis[p.name], inner); d > c {
						c = d
					}
				}
				return c
			}
		}
		if !ofLoop(V, L, inner) {
			return oComm
		}
		for _, f := range it.facts {
			if f.contains(S) && (isBool(V) || ofLoop(f, L, inner)) {
				return oComm
			}
		}
		return oOrder
	case V.op == "append" && V.a[0] == S:
		return oList
	case isIntType(V.typ) && (V.op == "lin") && !subT(V, S).contains(S):
		return oComm
	case V.op == "append" && !emptyList(V.a[0]):
		return u.update(L, it, S, V.a[0], inner)
	case V.op == "concat":
		return oOrder
	case isBool(V):
		return oUnknown
	case V.typ != nil && isSlice(V.typ):
		return oOrder
	}
	return oUnknown
}

func isBool(t *Term) bool {
	if t.op == "true" || t.op == "false" {
		return true
	}
	if t.typ == nil {
		return false
	}
	b, ok := t.typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isSlice(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// output: a function outside the repository that shows what it is given.
func showsIt(name string) bool {
	if i := strings.LastIndexByte(name, '.'); i >= 0 {
		m := name[i+1:]
		for _, p := range []string{"Print", "Fprint", "Write", "Encode", "Log", "Fatal", "Panic"} {
			if strings.HasPrefix(m, p) {
				return true
			}
		}
	}
	return false
}

// speaks: calling the function may write something.
func (P *Prog) speaks(f *ssa.Function) bool {
	for g := range P.reaches(f) {
		if g.Pkg != nil && !P.inRepo(g) && g.Pkg.Pkg.Path() == "fmt" && showsIt("."+g.Name()) {
			return true
		}
	}
	return false
}

func (u *unordered) walk(ev []*Event, it *Iter) {
	for _, e := range ev {
		switch e.kind {
		case "loop":
			_, tainted := u.lists[e.loop.seq]
			if e.loop.seq != nil && (overMap(e.loop) || tainted) {
				u.loop(e, it)
			} else {
				for _, i := range e.loop.iters {
					u.walk(i.ev, i)
				}
			}
			// a list that this loop builds from one of those
			for _, p := range e.loop.phis {
				for _, i := range e.loop.iters {
					if v := i.phis[p.name]; v != p.sym && v != nil && u.lists[p.sym] == nil && u.dep(v) {
						u.taint(p.sym, nil, e)
					}
				}
			}
		case "ext":
			if s := u.P.sortOf(e); s != nil {
				if _, ok := u.lists[s.list]; ok {
					u.sorted(s)
					continue
				}
			}
			if showsIt(e.name) {
				st := u.o.st
				if it != nil {
					st = it.st
				}
				for _, a := range e.args {
					es, _ := u.in.elems(st, a)
					dep := u.dep(a)
					for _, x := range es {
						dep = dep || u.dep(x)
					}
					if dep {
						u.bad("shown", u.P.ipos(e.in), "what is shown here depends on a list in the order of a map")
					}
				}
			}
		case "store":
			if e.args[1].op == "append" && u.dep(e.args[1]) {
				u.taint(e.args[1], nil, e)
			}
		}
	}
}

func (u *unordered) taint(t, elem *Term, e *Event) {
	u.lists[t] = e.loop2()
	if elem != nil {
		u.elems[t] = elem
	}
}

func (e *Event) loop2() *ssa.BasicBlock {
	if e.loop != nil {
		return e.loop.head
	}
	return nil
}

// sorted: the list is put in an order here.
func (u *unordered) sorted(s *sortCall) {
	con := "sort"
	if u.P.decides(u.r, u.o, s) {
		u.found++
		delete(u.lists, s.list)
		return
	}
	u.bad(con, u.P.ipos(s.e.in), "elements in the order of a map are sorted, but by something that they may share, so those that do stay in the order of the map")
	delete(u.lists, s.list)
}

// decides: the sort leaves no two different elements their place.
func (P *Prog) decides(r *Report, o *Outcome, s *sortCall) bool {
	if s.natural {
		return true
	}
	outs, i, j := s.compare(P, r, o.st)
	if len(outs) == 0 {
		r.notes = append(r.notes, "the comparison of a sort is not followed")
		return true
	}
	total := false
	var walk func(t, parent *Term)
	isE := func(t *Term, k *Term) bool {
		if t.op == "load" {
			t = t.a[0]
		}
		return (t.op == "iaddr" || t.op == "elem") && t.a[1] == k
	}
	walk = func(t, parent *Term) {
		if isE(t, i) || isE(t, j) {
			total = total || compares(parent)
			return
		}
		if (t.op == "load" && t.a[0].op == "faddr" || t.op == "field") && compares(parent) {
			f := t
			if f.op == "load" {
				f = f.a[0]
			}
			x := f.a[0]
			if (f.s == "Name" || f.s == "Path") && (isE(x, i) || isE(x, j)) {
				total = true
			}
		}
		for _, a := range t.a {
			walk(a, t)
		}
	}
	for _, o := range outs {
		for _, x := range o.st.f.list {
			walk(x, nil)
		}
		for _, x := range o.rets {
			walk(x, nil)
		}
	}
	return total
}

func compares(t *Term) bool {
	if t == nil {
		return false
	}
	switch t.op {
	case "slt", "sle", "lt", "le", "le0", "lin", "tlt", "teq", "eq", "strlt", "strle":
		return true
	case "pure":
		return strings.HasSuffix(t.s, ".Compare") || strings.HasSuffix(t.s, ".Before") || strings.HasSuffix(t.s, ".After") || strings.HasSuffix(t.s, ".Sub")
	}
	return strings.Contains(t.op, "<") || t.s == "<" || t.s == ">" || t.s == "<=" || t.s == ">="
}

// loop judges what a loop in no particular order leaves behind.
func (u *unordered) loop(e *Event, in *Iter) {
	L := e.loop
	u.maps[L] = true
	pos := u.P.pos(L.fn.Pos())
	for _, i := range L.head.Instrs {
		if i.Pos().IsValid() {
			pos = u.P.ipos(i)
			break
		}
	}
	con := fname(L.fn)
	inner := map[*Term]bool{}
	for _, it := range L.iters {
		for _, l := range loopsIn(it.ev) {
			inner[l.idx] = true
		}
		allEvents(it.ev, func(e *Event, _ *Iter) {
			if e.res != nil && (e.kind == "call" || e.kind == "dyn" || e.kind == "invoke" || e.kind == "ext") {
				inner[e.res] = true
			}
		})
	}
	delete(inner, nil)
	for _, p := range L.phis {
		w := oKeep
		var elem *Term
		for _, it := range L.iters {
			v := it.phis[p.name]
			c := u.update(L, it, p.sym, v, inner)
			if c > w {
				w = c
			}
			if c == oList && v.op == "append" && len(v.a) > 1 {
				elem = v.a[1]
			}
		}
		switch w {
		case oOrder:
			if p.init == nil || p.phi != nil && !u.seen(p.sym, L) {
				continue
			}
			u.bad(con, pos, "what this loop over a map leaves behind depends on which element comes last")
		case oList:
			u.taint(p.sym, elem, e)
		case oUnknown:
			u.r.notes = append(u.r.notes, con+": how a loop over a map changes "+p.name+" is not known")
		}
	}
	for _, it := range L.iters {
		u.effects(L, it, it.ev, inner, con, pos)
	}
	// left before its end with something of the element it was at
	of := func(t *Term) bool {
		return t.any(func(x *Term) bool { return (x.op == "rangekey" || x.op == "rangeval") && x.a[0] == L.seq })
	}
	for _, t := range u.o.rets {
		if of(t) {
			u.bad(con, pos, "the loop over a map is left with the first element that fits, which may be another in the next run")
		}
	}
	after := false
	for _, x := range u.o.st.ev {
		if x == e {
			after = true
			continue
		}
		if !after || x.kind == "loop" || x.kind == "loopexit" {
			continue
		}
		dep := false
		for _, a := range x.args {
			es, _ := u.in.elems(u.o.st, a)
			dep = dep || of(a)
			for _, y := range es {
				dep = dep || of(y)
			}
		}
		if dep && (showsIt(x.name) || x.kind == "store") && !fresh(x) {
			u.bad(con, pos, "the loop over a map is left with the first element that fits, which may be another in the next run")
		}
	}
}

func fresh(e *Event) bool {
	return e.kind == "store" && rootOf(e.args[0]).op == "alloc"
}

// seen: something after the loop looks at what it left.
func (u *unordered) seen(s *Term, L *LoopSum) bool {
	has := func(t *Term) bool { return t != nil && t.contains(s) }
	for _, t := range u.o.rets {
		if has(t) {
			return true
		}
	}
	for _, f := range u.o.st.f.list {
		if has(f) {
			return true
		}
	}
	any := false
	var walk func(ev []*Event, st *State)
	walk = func(ev []*Event, st *State) {
		for _, e := range ev {
			for _, a := range e.args {
				es, _ := u.in.elems(st, a)
				any = any || has(a)
				for _, x := range es {
					any = any || has(x)
				}
			}
			if e.kind == "loop" && e.loop != L {
				for _, p := range e.loop.phis {
					any = any || has(p.init)
				}
				for _, i := range e.loop.iters {
					for _, f := range i.facts {
						any = any || has(f)
					}
					for _, v := range i.phis {
						any = any || has(v)
					}
					walk(i.ev, i.st)
				}
			}
		}
	}
	walk(u.o.st.ev, u.o.st)
	return any
}

func (u *unordered) effects(L *LoopSum, it *Iter, ev []*Event, inner map[*Term]bool, con, pos string) {
	P := u.P
	for _, e := range ev {
		switch e.kind {
		case "loop":
			for _, i := range e.loop.iters {
				u.effects(L, i, i.ev, inner, con, pos)
			}
		case "ext":
			if showsIt(e.name) {
				// what is allocated for this element alone
				if len(e.args) > 0 && rootOf(e.args[0]).op == "alloc" && !strings.Contains(e.name, "fmt.Print") && newIn(e.args[0], L) {
					continue
				}
				u.bad(con, P.ipos(e.in), "something is written for each element of a map, in the order of the map")
			}
		case "call":
			if e.fn != nil && P.speaks(e.fn) {
				u.bad(con, P.ipos(e.in), "something is written for each element of a map, in the order of the map")
			} else if e.fn != nil && e.fn != L.fn && len(P.modSets()[e.fn]) > 0 && !(len(e.args) > 0 && ofLoop(e.args[0], L, inner)) {
				u.r.notes = append(u.r.notes, con+": "+fname(e.fn)+" is called for each element of a map")
			}
		case "dyn":
			if e.in == nil {
				continue
			}
			if c, ok := e.in.(ssa.CallInstruction); ok {
				for _, f := range P.dynTargets(c.Common().Signature()) {
					if P.speaks(f) {
						u.r.notes = append(u.r.notes, con+": "+fname(f)+" may be called for each element of a map")
					}
				}
			}
		case "store":
			if a := e.args[0]; a.op == "iaddr" && !newIn(a, L) && ofLoop(e.args[1], L, inner) {
				u.taint(a.a[0], nil, e)
			}
		case "mapset":
			k, v := e.args[1], e.args[2]
			switch {
			case e.args[0].contains(L.seq):
			case !ofLoop(k, L, inner) && ofLoop(v, L, inner) && !(v.op == "lin" && isIntType(v.typ)):
				u.bad(con, P.ipos(e.in), "the element of a map that comes last decides what is stored")
			case ofLoop(k, L, inner) && !bareKey(k, L) && ofLoop(v, L, inner) && !(v.op == "lin" && isIntType(v.typ)):
				u.r.notes = append(u.r.notes, con+": entries of a map are stored under something else than their key")
			}
		}
	}
}

// newIn: the object is made within the loop.
func newIn(t *Term, L *LoopSum) bool {
	i, ok := rootOf(t).x.(ssa.Instruction)
	if !ok {
		return false
	}
	if i.Parent() != L.fn {
		return true
	}
	return L.head.Dominates(i.Block()) && i.Block() != L.head
}

func bareKey(k *Term, L *LoopSum) bool {
	return k.op == "rangekey" && k.a[0] == L.seq
}

func mapLoops(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if x, ok := i.(*ssa.Range); ok {
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					return true
				}
			}
		}
	}
	return false
}

func checkC16(P *Prog, r *Report) {
	r.rule("map", "a loop over a map leaves behind nothing that depends on its order: sets, sums and lists that are then sorted by what tells any two elements apart", 4)
	r.rule("address", "nothing that is shown is an address", 20)
	r.rule("chance", "the program asks no source of chance, and no two things of it that write run at once", 1)
	order, _ := P.running()
	run := map[*ssa.Function]bool{}
	for _, f := range order {
		run[f] = true
	}
	parse := parserParse(P)
	done := map[*ssa.Function]string{}
	// judge returns how a list in the order of a map leaves the function, "" if none does
	var judge func(f *ssa.Function, depth int) string
	judge = func(f *ssa.Function, depth int) string {
		if w, ok := done[f]; ok {
			return w
		}
		done[f] = ""
		r.use(f)
		outs := r.exec(f, Opts{maxSteps: 2000000, snap: false, opaque: func(g *ssa.Function) bool { return g == parse }})
		if len(outs) == 0 {
			r.notes = append(r.notes, fname(f)+": not followed")
			r.ok("map", fname(f))
			return ""
		}
		esc := ""
		for _, o := range outs {
			if o.panic {
				continue
			}
			u := &unordered{P: P, r: r, f: f, o: o, in: P.newInterp(Opts{}), lists: map[*Term]*ssa.BasicBlock{}, elems: map[*Term]*Term{}, maps: map[*LoopSum]bool{}}
			nbad := 0
			u.bad = func(con, pos, s string, args ...any) {
				if con == "shown" || con == "sort" {
					con = fname(f) + ": " + con
				}
				nbad++
				r.bad("map", con, pos, s, args...)
			}
			u.walk(o.st.ev, nil)
			for _, t := range o.rets {
				if u.dep(t) {
					esc = "returned"
				}
			}
			for l := range u.lists {
				allEvents(o.st.ev, func(e *Event, it *Iter) {
					if e.kind == "store" && e.args[1] == l && rootOf(e.args[0]).op != "alloc" && fieldAtEnd(u.in, o, e.args[0], l) {
						if esc == "" {
							esc = "stored"
						}
					}
				})
				for _, L := range loopsIn(o.st.ev) {
					for _, p := range L.phis {
						if p.sym == l && p.phi == nil && esc == "" {
							for _, it := range L.iters {
								allEvents(it.ev, func(e *Event, _ *Iter) {
									if e.kind == "store" && e.args[1] == it.phis[p.name] && rootOf(e.args[0]).op != "alloc" && fieldAtEnd(u.in, o, e.args[0], l) {
										esc = "stored"
									}
								})
							}
						}
					}
				}
			}
			if nbad == 0 {
				for range u.maps {
					r.ok("map", fname(f))
				}
			}
		}
		done[f] = esc
		return esc
	}
	var up func(f *ssa.Function, esc string, depth int, seen map[*ssa.Function]bool)
	up = func(f *ssa.Function, esc string, depth int, seen map[*ssa.Function]bool) {
		if seen[f] || depth > 5 {
			return
		}
		seen[f] = true
		n := 0
		for _, c := range P.callers[f] {
			if g := c.Parent(); run[g] {
				n++
				if e := judge(g, depth); e != "" && g != f {
					up(g, e, depth+1, seen)
				}
			}
		}
		if n == 0 && esc == "returned" && P.taken[f] {
			r.notes = append(r.notes, fname(f)+": a list in the order of a map is returned to whoever calls it")
		}
	}
	var fs []*ssa.Function
	for _, f := range order {
		if f.Blocks != nil && P.inRepo(f) && mapLoops(f) {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fname(fs[i]) < fname(fs[j]) })
	for _, f := range fs {
		if e := judge(f, 0); e != "" {
			up(f, e, 0, map[*ssa.Function]bool{})
		}
	}
	if len(fs) == 0 {
		r.ok("map", "no map is gone through")
	}
	for _, f := range order {
		addresses(P, r, f)
		chance(P, r, f)
	}
	r.ok("chance", "program")
}

// fieldAtEnd: the place still holds that value when the path ends.
func fieldAtEnd(in *interp, o *Outcome, a, v *Term) bool {
	return in.load(o.st, a, v.typ) == v
}

var fmtCalls = map[string]int{"Print": 0, "Println": 0, "Printf": 1, "Sprint": 0, "Sprintln": 0, "Sprintf": 1, "Fprint": 1, "Fprintln": 1, "Fprintf": 2, "Errorf": 1}

// addresses: what fmt is given holds no pointer that it would show as an address.
func addresses(P *Prog, r *Report, f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			c, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			g := c.Common().StaticCallee()
			if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != "fmt" {
				continue
			}
			n, ok := fmtCalls[g.Name()]
			if !ok || len(c.Common().Args) <= n {
				continue
			}
			r.use(f)
			var verbs []rune
			known := false
			if strings.HasSuffix(g.Name(), "f") {
				if k, ok := c.Common().Args[n-1].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
					known = true
					for _, v := range verbsOf(constant.StringVal(k.Value)) {
						verbs = append(verbs, rune(v))
					}
				}
			}
			as := variadic(c.Common().Args[n])
			if len(as) == 0 {
				r.ok("address", fname(f))
				continue
			}
			for k, a := range as {
				v := 'v'
				if known && k < len(verbs) {
					v = verbs[k]
				}
				if v == 'T' || a == nil {
					r.ok("address", fname(f))
					continue
				}
				bad := v == 'p' || P.showsAddress(a.Type(), 0, v, true)
				r.check(!bad, "address", fname(f), P.ipos(i), "a value of type %s is shown as an address, which differs from run to run", named(a.Type()))
			}
		}
	}
}

// variadic: the values put into the list of a variadic call.
func variadic(v ssa.Value) (l []ssa.Value) {
	s, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := s.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	at := map[int64]ssa.Value{}
	for _, ref := range *al.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil
		}
		for _, r2 := range *ia.Referrers() {
			if st, ok := r2.(*ssa.Store); ok {
				v := st.Val
				for {
					if m, ok := v.(*ssa.MakeInterface); ok {
						v = m.X
						continue
					}
					if m, ok := v.(*ssa.ChangeInterface); ok {
						v = m.X
						continue
					}
					break
				}
				at[k.Int64()] = v
			}
		}
	}
	for i := int64(0); i < int64(len(at)); i++ {
		l = append(l, at[i])
	}
	return
}

func (P *Prog) showsAddress(t types.Type, depth int, verb rune, methods bool) bool {
	if depth > 6 {
		return false
	}
	if methods && (verb == 'v' || verb == 's' || verb == 'q') {
		ms := P.SSA.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			switch ms.At(i).Obj().Name() {
			case "String", "Error", "Format", "GoString":
				return false
			}
		}
	}
	switch x := t.Underlying().(type) {
	case *types.Pointer:
		if depth > 0 {
			return true
		}
		switch x.Elem().Underlying().(type) {
		case *types.Struct, *types.Slice, *types.Array, *types.Map:
			return P.showsAddress(x.Elem(), depth+1, verb, methods)
		}
		return true
	case *types.Signature, *types.Chan:
		return true
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if P.showsAddress(x.Field(i).Type(), depth+1, verb, methods && x.Field(i).Exported()) {
				return true
			}
		}
	case *types.Slice:
		return P.showsAddress(x.Elem(), depth+1, verb, methods)
	case *types.Array:
		return P.showsAddress(x.Elem(), depth+1, verb, methods)
	case *types.Map:
		return P.showsAddress(x.Key(), depth+1, verb, methods) || P.showsAddress(x.Elem(), depth+1, verb, methods)
	case *types.Basic:
		return x.Kind() == types.UnsafePointer
	}
	return false
}

func chance(P *Prog, r *Report, f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Go:
				g := x.Call.StaticCallee()
				if g == nil {
					if m, ok := x.Call.Value.(*ssa.MakeClosure); ok {
						g, _ = m.Fn.(*ssa.Function)
					}
				}
				loop := false
				for _, s := range b.Succs {
					loop = loop || s.Dominates(b)
				}
				r.check(g == nil || !P.speaks(g), "chance", fname(f)+": go", P.ipos(i), "what writes to the output runs at the same time as the rest of the program")
				if loop {
					r.bad("chance", fname(f)+": go", P.ipos(i), "several things run at the same time, in no order")
				}
			case *ssa.Select:
				n := len(x.States)
				r.check(n < 2, "chance", fname(f)+": select", P.ipos(i), "one of %d channels is picked by chance", n)
			case *ssa.Convert:
				if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
					if t, ok := x.Type().Underlying().(*types.Basic); ok && t.Kind() == types.Uintptr {
						r.bad("chance", fname(f)+": address", P.ipos(i), "an address is used as a number")
					}
				}
			}
			c, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			g := c.Common().StaticCallee()
			if g == nil || g.Pkg == nil || P.inRepo(g) {
				continue
			}
			switch p := g.Pkg.Pkg.Path(); {
			case p == "math/rand" || p == "crypto/rand" || p == "hash/maphash" || p == "math/rand/v2",
				p == "os" && (g.Name() == "Getpid" || g.Name() == "Getppid"),
				p == "runtime" && g.Name() != "KeepAlive" && g.Name() != "GC":
				if g.Name() == "New" || g.Name() == "NewSource" {
					continue
				}
				if g.Signature.Recv() != nil && p == "math/rand" {
					r.notes = append(r.notes, fname(f)+": numbers of a generator with a seed of its own")
					continue
				}
				r.bad("chance", fname(f)+": "+p, P.ipos(i), "%s gives something else on every run", fname(g))
			}
		}
	}
}
