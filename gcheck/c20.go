package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C20"] = Check{"symbolic tracking of the position in a path while walking the account tree (path-sensitive dataflow over SSA with loop induction), and an ownership scan for the fields that name and link accounts", checkC20}
}

// rest is what remains of a path: the components of base from off on.
type rest struct{ base, off *Term }

func restOf(t *Term) rest {
	if t.op == "slice" && t.a[2] == lenT(t.a[0]) {
		return rest{t.a[0], t.a[1]}
	}
	return rest{t, mkInt(0, nil)}
}

func (a rest) next() rest     { return rest{a.base, addN(a.off, 1)} }
func (a rest) is(b rest) bool { return a.base == b.base && linEq(a.off, b.off) }
func (a rest) head(t *Term) bool {
	return t != nil && t.op == "elem" && t.a[0] == a.base && linEq(t.a[1], a.off) || isElemAt(t, a)
}

// linEq compares two numbers whatever their static types.
func linEq(a, b *Term) bool {
	d := subT(a, b)
	return d.op == "int" && d.n == 0
}

func isElemAt(t *Term, a rest) bool {
	if t == nil {
		return false
	}
	if t.op == "load" && t.a[0].op == "iaddr" {
		t = t.a[0]
	}
	if t.op != "elem" && t.op != "iaddr" {
		return false
	}
	b := restOf(t.a[0])
	return b.base == a.base && linEq(addT(b.off, t.a[1], 1, tInt), a.off)
}

type treeWalk struct {
	P      *Prog
	r      *Report
	fns    []*ssa.Function
	create map[*ssa.Function]bool // may only be called when the next account does not exist yet
	path   *ssa.Function
}

func stringSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isString(s.Elem())
}

// walkers: the functions that go from an account along the components of a path.
func (w *treeWalk) walkers(finder *ssa.Function) {
	for f := range w.P.reaches(finder) {
		if f.Parent() != nil || len(f.Params) != 2 {
			continue
		}
		if named(f.Params[0].Type()) != accountPtr || !stringSlice(f.Params[1].Type()) {
			continue
		}
		rs := f.Signature.Results()
		if rs.Len() == 0 || rs.Len() > 2 || named(rs.At(0).Type()) != accountPtr || rs.Len() == 2 && !stringSlice(rs.At(1).Type()) {
			continue
		}
		w.fns = append(w.fns, f)
	}
}

func (w *treeWalk) isWalker(f *ssa.Function) bool {
	for _, g := range w.fns {
		if f == g {
			return true
		}
	}
	return false
}

// twCtx is one path, or one iteration of a loop on it.
type twCtx struct {
	w      *treeWalk
	st     *State
	ev     []*Event
	pos    map[*Term]rest
	over   map[*Term]bool // accounts that begin a walk over nothing existing
	noFind map[*Term]rest // positions whose next account is known not to exist
	done   map[*Term]bool // accounts at the end of the path
	o      *Outcome
	why    string
}

func (c *twCtx) fail(s string) {
	if c.why == "" {
		c.why = s
	}
}

func (c *twCtx) event(t *Term) *Event {
	var found *Event
	for _, e := range c.ev {
		if e.kind == "call" && e.res != nil && t.op == "call" && e.res.n == t.n && e.res.s == t.s {
			found = e
		}
	}
	return found
}

// at resolves what remains of the path at an account (ok), or that nothing does (end).
func (c *twCtx) at(t *Term) (p rest, end, ok bool) {
	if p, ok := c.pos[t]; ok {
		return p, false, true
	}
	if c.done[t] {
		return rest{}, true, true
	}
	switch {
	case t.op == "load" && t.a[0].op == "maddr":
		m, k := t.a[0].a[0], t.a[0].a[1]
		for x, p := range c.pos {
			if path(m) == path(x)+".Children" && p.head(k) {
				if c.has(m, k) != 1 {
					c.fail("an account is used that may not exist")
					return rest{}, false, false
				}
				c.pos[t] = p.next()
				return p.next(), false, true
			}
		}
	case t.op == "call":
		if e := c.event(t); e != nil && c.w.isWalker(e.fn) {
			c.done[t] = true
			return rest{}, true, true
		}
	case t.op == "res" && t.n == 0 && t.a[0].op == "call":
		if e := c.event(t.a[0]); e != nil && c.w.isWalker(e.fn) {
			r1 := mkT("res", "", 1, e.fn.Signature.Results().At(1).Type(), t.a[0])
			p := rest{r1, mkInt(0, nil)}
			c.pos[t] = p
			c.noFind[t] = p
			return p, false, true
		}
	}
	return rest{}, false, false
}

// has: the map is known to hold the key (1), not to (0), or neither (-1).
func (c *twCtx) has(m, k *Term) int {
	for _, t := range c.st.f.list {
		pol := 1
		if t.op == "not" {
			pol, t = 0, t.a[0]
		}
		if t.op == "load" && t.a[0].op == "mhas" && path(t.a[0].a[0]) == path(m) && t.a[0].a[1] == k {
			return pol
		}
		// a missing account is nil
		if t.op == "eq" {
			for i := range t.a {
				x := t.a[1-i]
				if t.a[i].op == "nil" && x.op == "load" && x.a[0].op == "maddr" && path(x.a[0].a[0]) == path(m) && x.a[0].a[1] == k {
					return 1 - pol
				}
			}
		}
	}
	return -1
}

// free: the next account below x is known not to exist.
func (c *twCtx) free(x *Term, p rest) bool {
	if q, ok := c.noFind[x]; ok && q.is(p) {
		return true
	}
	if x.op == "alloc" {
		return true
	}
	for _, t := range c.st.f.list {
		pol := false
		if t.op == "not" {
			pol, t = true, t.a[0]
		}
		var m, k *Term
		if t.op == "load" && t.a[0].op == "mhas" && pol {
			m, k = t.a[0].a[0], t.a[0].a[1]
		}
		if t.op == "eq" && !pol {
			for i := range t.a {
				y := t.a[1-i]
				if t.a[i].op == "nil" && y.op == "load" && y.a[0].op == "maddr" {
					m, k = y.a[0].a[0], y.a[0].a[1]
				}
			}
		}
		if m != nil && path(m) == path(x)+".Children" && p.head(k) {
			return true
		}
	}
	return false
}

func (c *twCtx) empty(p rest) bool {
	if v, k := isNil(c.st.f, p.base); k && v {
		return true
	}
	v, k := c.st.f.query(le0T(subT(lenT(p.base), p.off)))
	return k && v
}

func isRootName(t *Term) bool { return t.op == "str" && (t.s == "_root_" || t.s == "_budget_root_") }

// topKnown: the facts say that the account at that place is a root or missing.
func topKnown(list []*Term, pth string) bool {
	if nilAt(list, pth, true) || nilAt(list, pth+".Parent", true) {
		return true
	}
	for _, t := range list {
		if t.op == "eq" {
			for i := range t.a {
				if isRootName(t.a[i]) && path(t.a[1-i]) == pth+".Name" {
					return true
				}
			}
		}
	}
	return false
}

// notTop: the facts say that the account at that place exists and is no root.
func notTop(list []*Term, pth string) bool {
	if nilAt(list, pth+".Parent", false) {
		return true
	}
	names := map[string]bool{}
	for _, t := range list {
		if t.op == "not" && t.a[0].op == "eq" {
			t = t.a[0]
			for i := range t.a {
				if isRootName(t.a[i]) && path(t.a[1-i]) == pth+".Name" {
					names[t.a[i].s] = true
				}
			}
		}
	}
	return nilAt(list, pth, false) && len(names) == 2
}

// made verifies an account just created below x at position p.
func (c *twCtx) made(child, x *Term, p rest, st *State) {
	get := func(n string) *Term { return fieldAt(st, child, n) }
	if n := get("Name"); n == nil || !p.head(n) {
		c.fail("a new account does not get the next component of the path as its name")
	}
	noParent, known := isNil(c.st.f, x)
	par := get("Parent")
	switch {
	case known && noParent:
	case par == nil || path(par) != path(x):
		c.fail("a new account is not linked to its parent")
	}
	if m := get("Children"); m == nil || m.op != "mkmap" {
		c.fail("a new account does not get its own children")
	}
	// its path
	pc, pt := get("PathComponents"), get("Path")
	okPath := false
	if pt != nil {
		switch {
		case pt.op == "pure" && pt.s == "strings.Join" && pt.a[0] == pc && pt.a[1].op == "str" && pt.a[1].s == ":":
			okPath = true
		case pt.op == "call":
			for _, e := range c.ev {
				if e.fn == c.w.path && e.res.n == pt.n && e.args[0] == child {
					okPath = true
					if e.snap != nil {
						q := fieldAt(e.snap, child, "Parent")
						if !(known && noParent) && (q == nil || path(q) != path(x)) {
							okPath = false
						}
					}
				}
			}
		}
	}
	if !okPath {
		c.fail("the path of a new account is not made from its ancestors")
	}
	in := c.w.P.newInterp(Opts{})
	single := false
	if es, ok := in.elems(st, pc); ok {
		single = len(es) == 1 && p.head(es[0])
		if !single {
			c.fail("the path components of a new account are not its own")
			return
		}
	}
	list := append([]*Term{}, c.st.f.list...)
	if single {
		if !topKnown(list, path(x)) {
			c.fail("the path components of a new account leave out its ancestors")
		}
		return
	}
	if pc == nil {
		c.fail("the path components of a new account are not known")
		return
	}
	if pc.op == "mkslice" {
		for _, e := range c.ev {
			if e.kind == "copy" && e.args[0] == pc && path(e.args[1]) == path(x)+".PathComponents" {
				return
			}
		}
	}
	if pc.op != "append" || len(pc.a) != 2 || !p.head(pc.a[1]) {
		c.fail("the path components of a new account do not end with its name")
		return
	}
	switch b := pc.a[0]; b.op {
	case "copyof":
		if path(b.a[0]) != path(x)+".PathComponents" {
			c.fail("the path components of a new account do not begin with those of its parent")
		}
	case "appendall":
		es, ok := in.elems(st, b.a[0])
		if !ok || len(es) != 0 || b.a[0].op == "load" {
			c.fail("the path components of a new account share memory with others")
		} else if path(b.a[1]) != path(x)+".PathComponents" {
			c.fail("the path components of a new account do not begin with those of its parent")
		}
	default:
		c.fail("the path components of a new account share memory with those of its parent")
	}
}

// events verifies what is done on the way.
func (c *twCtx) events() {
	for i, e := range c.ev {
		switch e.kind {
		case "loop":
			c.loop(e.loop)
		case "mapset":
			if e.args[0].typ == nil || e.args[0].typ.String() != "map[string]*github.com/rikchilvers/gledger/journal.Account" && typeName(e.args[0].typ) != "map[string]*journal.Account" {
				continue
			}
			child := e.args[2]
			if child.op != "alloc" {
				c.fail("an account is entered a second time")
				continue
			}
			ok := false
			for x, p := range c.pos {
				if path(e.args[0]) != path(x)+".Children" {
					continue
				}
				if !p.head(e.args[1]) {
					c.fail("an account is entered under another name")
					continue
				}
				if !c.free(x, p) {
					c.fail("an account is created although it may exist")
				}
				ok = true
				c.pos[child] = p.next()
				c.made(child, x, p, c.stateOf(i, child))
				break
			}
			if !ok {
				c.fail("an account is entered in the wrong place")
			}
		case "mapdel":
			c.fail("an account is removed")
		case "store":
			a := e.args[0]
			if a.op == "faddr" && named(a.a[0].typ) == accountPtr && a.a[0].op != "alloc" && isLink(a.s) {
				c.fail("an existing account is changed")
			}
			if a.op == "iaddr" {
				c.fail("a component of a path is overwritten")
			}
		case "call":
			if !c.w.isWalker(e.fn) {
				continue
			}
			x, r := e.args[0], restOf(e.args[1])
			p, end, ok := c.at(x)
			if !ok && x.op == "alloc" {
				// created without a parent
				for y, q := range c.pos {
					if v, k := isNil(c.st.f, y); k && v && q.next().is(r) {
						c.pos[x] = q.next()
						c.made(x, y, q, c.stateOf(i, x))
						p, ok = q.next(), true
						break
					}
				}
			}
			switch {
			case !ok || end:
				c.fail("the walk goes on from " + path(x))
			case !p.is(r):
				c.fail("the walk goes on with the wrong components")
			case c.w.create[e.fn] && !c.free(x, p):
				c.fail("accounts are created that may exist")
			}
		}
	}
}

func isLink(n string) bool {
	return n == "Name" || n == "Path" || n == "PathComponents" || n == "Parent" || n == "Children"
}

// stateOf: the state in which a new account is complete: when it is handed on, else at the end.
func (c *twCtx) stateOf(i int, child *Term) *State {
	for _, e := range c.ev[i:] {
		if e.kind == "call" && e.fn != c.w.path && e.snap != nil {
			for _, a := range e.args {
				if a == child {
					return e.snap
				}
			}
		}
	}
	return c.st
}

// loop verifies that each iteration moves on by exactly one component.
func (c *twCtx) loop(L *LoopSum) {
	var acc *PhiInfo
	for _, p := range L.phis {
		if p.sym != nil && named(p.sym.typ) == accountPtr && p.init != nil {
			acc = p
		}
	}
	if acc == nil {
		for _, it := range L.iters {
			for _, e := range it.ev {
				if e.kind == "mapset" || e.kind == "call" && c.w.isWalker(e.fn) {
					c.fail("accounts are created in a loop that does not move on")
				}
			}
		}
		return
	}
	p0, end, ok := c.at(acc.init)
	if !ok || end {
		c.fail("a loop begins at " + path(acc.init))
		return
	}
	var comp *PhiInfo
	for _, p := range L.phis {
		if p.sym != nil && p.init != nil && p.sym.typ != nil && stringSlice(p.sym.typ) && restOf(p.init).is(p0) {
			comp = p
		}
	}
	cur := rest{p0.base, addT(p0.off, L.idx, 1, tInt)}
	if comp != nil {
		cur = rest{comp.sym, mkInt(0, nil)}
	}
	// does every iteration begin where nothing exists yet?
	free := c.free(acc.init, p0)
	for _, it := range L.iters {
		if n := it.phis[acc.name]; n == nil || n.op != "alloc" {
			free = false
		}
	}
	for _, it := range L.iters {
		k := &twCtx{w: c.w, st: it.st, ev: it.ev, o: c.o, pos: map[*Term]rest{acc.sym: cur}, noFind: map[*Term]rest{}, done: map[*Term]bool{}}
		if free {
			k.noFind[acc.sym] = cur
		}
		k.events()
		next := it.phis[acc.name]
		q, e, ok := rest{}, false, false
		if next != nil {
			q, e, ok = k.at(next)
		}
		switch {
		case k.why != "":
			c.fail(k.why)
		case !ok || e:
			c.fail("a step goes to " + path(next))
		case comp != nil:
			if n := it.phis[comp.name]; n == nil || !restOf(n).is(q) {
				c.fail("a step does not leave the components below the account it goes to")
			}
		case !q.is(cur.next()):
			c.fail("a step does not go to the next component")
		}
	}
	c.pos[acc.sym] = cur
	if free {
		c.noFind[acc.sym] = cur
	}
}

// verify: every path of f ends at the account its components name.
func (w *treeWalk) verify(f *ssa.Function, report bool) bool {
	good := true
	opq := append([]*ssa.Function{w.path}, w.fns...)
	two := f.Signature.Results().Len() == 2
	for _, o := range w.r.exec(f, Opts{opaque: func(g *ssa.Function) bool {
		if g == f {
			return true
		}
		for _, h := range opq {
			if g == h {
				return true
			}
		}
		return false
	}, snap: true}) {
		if o.panic || o.exit {
			continue
		}
		acc, comps := paramT(f.Params[0], 0), paramT(f.Params[1], 1)
		start := restOf(comps)
		c := &twCtx{w: w, st: o.st, ev: o.st.ev, o: o, pos: map[*Term]rest{acc: start}, noFind: map[*Term]rest{}, done: map[*Term]bool{}}
		if w.create[f] {
			c.noFind[acc] = start
		}
		c.events()
		p, end, ok := c.at(o.rets[0])
		switch {
		case c.why != "":
		case !ok:
			c.fail("it returns " + path(o.rets[0]))
		case !two:
			if !end && !c.empty(p) {
				c.fail("it stops before the end of the path")
			}
		default:
			s := o.rets[1]
			switch {
			case end:
				c.fail("it finds an account by creating it")
			case s.op == "nil":
				if !c.empty(p) {
					c.fail("it stops before the end of the path")
				}
			case !restOf(s).is(p):
				c.fail("the components it leaves are not those below the account it found")
			case !c.empty(p) && !c.free(o.rets[0], p):
				c.fail("it stops although the next account may exist")
			}
		}
		if c.why != "" {
			good = false
		}
		if report {
			w.r.check(c.why == "", "walk", fname(f), w.P.pos(f.Pos()), "%s", c.why)
		}
	}
	return good
}

func checkC20(P *Prog, r *Report) {
	r.rule("walk", "every step along a path goes to the child named by the next component, creating it only when it does not exist, and the walk ends exactly when the components do; a new account has that name, is linked with its parent both ways, and owns its path components", 3)
	r.rule("path", "the path of an account is its names from below the root down, separated by colons", 1)
	r.rule("owner", "nothing else names, links or moves an account, except that unlinking removes it", 1)
	r.rule("shared", "the path components of an account are never written to or appended to in place", 1)
	finder := finderOf(P)
	if finder == nil {
		r.bad("walk", "(*journal.Account).FindOrCreateAccount", "-", "accounts are not found by their path in one place")
		return
	}
	w := &treeWalk{P: P, r: r, create: map[*ssa.Function]bool{}}
	w.path = P.byRole("journal", "Account.CreatePath", func(f *ssa.Function) bool {
		return len(f.Params) == 1 && named(f.Params[0].Type()) == accountPtr && f.Signature.Results().Len() == 1 && isString(f.Signature.Results().At(0).Type()) && reachLoads(P, f, "Parent") && reachLoads(P, f, "Name")
	})
	w.walkers(finder)
	for _, f := range w.fns {
		if f != finder && !w.verify(f, false) {
			w.create[f] = true
		}
	}
	for _, f := range w.fns {
		w.verify(f, true)
	}
	// calls from elsewhere
	for _, f := range P.Funcs {
		for _, c := range callsTo(f, func(g *ssa.Function) bool { return w.create[g] }) {
			root := f
			for root.Parent() != nil {
				root = root.Parent()
			}
			if !w.isWalker(root) && !P.reaches(finder)[root] {
				r.bad("walk", fname(root), P.ipos(c), "accounts are created without looking for existing ones")
			}
		}
	}
	if w.path != nil {
		w.pathOf()
	}
	w.owners(P.reaches(finder))
}

func reachLoads(P *Prog, f *ssa.Function, n string) bool {
	for g := range P.reaches(f) {
		if loadsField(g, n) {
			return true
		}
	}
	return false
}

// pathOf verifies the function that makes a path.
func (w *treeWalk) pathOf() {
	f := w.path
	r := w.r
	a := paramT(f.Params[0], 0)
	for _, o := range r.exec(f, Opts{opaque: opaqueFns(f)}) {
		if o.panic || o.exit {
			continue
		}
		pos := w.P.pos(f.Pos())
		bad := ""
		ret := o.rets[0]
		loops := loopsIn(o.st.ev)
		var rec []*Event
		for _, e := range o.st.ev {
			if e.kind == "call" && e.fn == f {
				rec = append(rec, e)
			}
		}
		switch {
		case len(rec) == 1:
			e := rec[0]
			if path(e.args[0]) != path(a)+".Parent" || ret.op != "concat" || len(ret.a) != 3 || ret.a[0].op != "call" || ret.a[0].n != e.res.n ||
				ret.a[1].op != "str" || ret.a[1].s != ":" || path(ret.a[2]) != path(a)+".Name" {
				bad = "the path is not the path of the parent, a colon and the name"
			}
			if !notTop(o.st.f.list, path(a)+".Parent") {
				bad = "the path goes on above the topmost account"
			}
		case len(rec) > 1 || len(loops) > 1:
			bad = "how the path is made cannot be told"
		case len(loops) == 0:
			if path(ret) != path(a)+".Name" || !topKnown(o.st.f.list, path(a)+".Parent") {
				bad = "the path leaves out accounts above"
			}
		default:
			L := loops[0]
			var cur, str *PhiInfo
			next := "" // the account whose name comes next
			for _, p := range L.phis {
				if p.init != nil && p.init == a {
					cur, next = p, path(p.sym)+".Parent"
				}
				if p.init != nil && path(p.init) == path(a)+".Parent" {
					cur, next = p, path(p.sym)
				}
				if p.init != nil && path(p.init) == path(a)+".Name" {
					str = p
				}
			}
			if cur == nil || str == nil {
				w.joined(o, L, ret, pos)
				continue
			}
			for _, it := range L.iters {
				s := it.phis[str.name]
				if !notTop(it.st.f.list, next) {
					bad = "the path goes on above the topmost account"
				} else if path(it.phis[cur.name]) != path(cur.sym)+".Parent" {
					bad = "the walk does not go on with the parent"
				} else if s == nil || s.op != "concat" || len(s.a) != 3 || path(s.a[0]) != next+".Name" || s.a[1].op != "str" || s.a[1].s != ":" || s.a[2] != str.sym {
					bad = "a step does not put the name of the parent and a colon in front"
				}
			}
			if ret != str.sym {
				bad = "it returns " + path(ret)
			} else if !topKnown(o.st.f.list, next) {
				bad = "the path leaves out accounts above"
			}
		}
		r.check(bad == "", "path", fname(f), pos, "%s", bad)
	}
}

// joined accepts names collected by a walk up and joined with colons.
func (w *treeWalk) joined(o *Outcome, L *LoopSum, ret *Term, pos string) {
	f := w.path
	ok := ret.op == "pure" && ret.s == "strings.Join" && ret.a[1].op == "str" && ret.a[1].s == ":" ||
		ret.any(func(t *Term) bool { return t.op == "str" && t.s == ":" })
	up := false
	for _, p := range L.phis {
		for _, it := range L.iters {
			if n := it.phis[p.name]; n != nil && named(n.typ) == accountPtr && path(n) == path(p.sym)+".Parent" {
				up = true
			}
		}
	}
	w.r.check(ok && up, "path", fname(f), pos, "the path is not made from the names of the accounts above")
}

// owners looks for other places that name, link or move an account.
func (w *treeWalk) owners(inFinder map[*ssa.Function]bool) {
	P, r := w.P, w.r
	for _, f := range P.Funcs {
		if inFinder[f] {
			continue
		}
		var dels []ssa.Instruction
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
						dels = append(dels, c)
					}
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MapUpdate:
					if isChildren(x.Map) && !freshAccount(x.Map) {
						r.bad("owner", fname(f), P.ipos(in), "an account is entered below another outside of finding or creating it")
					}
				case *ssa.Store:
					if ia, ok := x.Addr.(*ssa.IndexAddr); ok && fromComponents(ia.X, map[ssa.Value]bool{}) {
						r.bad("shared", fname(f), P.ipos(in), "a path component of an account is overwritten")
						continue
					}
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok || named(fa.X.Type()) != accountPtr || !isLink(fieldName(fa)) {
						continue
					}
					n := fieldName(fa)
					okStore := freshAccount(fa.X)
					switch n {
					case "Parent":
						if c, ok := x.Val.(*ssa.Const); ok && c.IsNil() && len(dels) > 0 {
							okStore = true
						}
					case "Path":
						if c, ok := x.Val.(*ssa.Call); ok && c.Common().StaticCallee() == w.path && len(c.Common().Args) == 1 && sameValue(c.Common().Args[0], fa.X) {
							okStore = true
						}
					}
					if !okStore && (n == "Path" || n == "PathComponents") && guardedByNoPath(x, fa.X) {
						okStore = true
					}
					r.check(okStore, "owner", fname(f)+" "+n, P.ipos(in), "the %s of an account is changed", n)
				case ssa.CallInstruction:
					if bi, ok := x.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "append" || bi.Name() == "copy") && len(x.Common().Args) > 0 && fromComponents(x.Common().Args[0], map[ssa.Value]bool{}) {
						r.bad("shared", fname(f), P.ipos(in), "the path components of an account are appended to in place")
					}
				}
			}
		}
	}
	r.ok("shared", "program")
}

func isChildren(v ssa.Value) bool {
	if l, ok := v.(*ssa.UnOp); ok {
		if fa, ok := l.X.(*ssa.FieldAddr); ok {
			return named(fa.X.Type()) == accountPtr && fieldName(fa) == "Children"
		}
	}
	return false
}

// freshAccount: an account being made here.
func freshAccount(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return freshAccount(fa.X)
		}
		if a, ok := x.X.(*ssa.Alloc); ok {
			// a local variable: whatever is stored in it
			n := 0
			for _, u := range *a.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
					if !freshAccount(s.Val) {
						return false
					}
					n++
				}
			}
			return n > 0
		}
	case *ssa.Call:
		if g := x.Common().StaticCallee(); g != nil {
			if theProg.newAccounts()[g] {
				return true
			}
		}
	}
	return false
}

// newAccounts: the functions that return a new account each time.
func (P *Prog) newAccounts() map[*ssa.Function]bool {
	if P.newAcc != nil {
		return P.newAcc
	}
	P.newAcc = map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, f := range P.Funcs {
			if P.newAcc[f] || f.Signature.Results().Len() != 1 || named(f.Signature.Results().At(0).Type()) != accountPtr || len(f.Blocks) == 0 {
				continue
			}
			all := true
			for _, b := range f.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !freshAccount(ret.Results[0]) {
					all = false
				}
			}
			if all {
				P.newAcc[f] = true
				changed = true
			}
		}
	}
	return P.newAcc
}

// fromComponents: the slice is (a part of) the path components of an account.
func fromComponents(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return named(fa.X.Type()) == accountPtr && fieldName(fa) == "PathComponents" && (!freshAccount(fa.X) || copied(fa.X))
		}
		if a, ok := x.X.(*ssa.Alloc); ok {
			for _, u := range *a.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(a) && fromComponents(s.Val, seen) {
					return true
				}
			}
		}
	case *ssa.Field:
		return structOf(x.X.Type()) != nil && typeName(x.X.Type()) == "journal.Account" && structOf(x.X.Type()).Field(x.Field).Name() == "PathComponents"
	case *ssa.Slice:
		return fromComponents(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if fromComponents(e, seen) {
				return true
			}
		}
	}
	return false
}

// copied: a local variable that was assigned a whole account.
func copied(v ssa.Value) bool {
	if a, ok := v.(*ssa.Alloc); ok {
		for _, u := range *a.Referrers() {
			if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
				return true
			}
		}
	}
	return false
}

// sameValue: two reads of the same variable.
func sameValue(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	return ok && ok2 && x.X == y.X
}

// guardedByNoPath: the store happens only when the account has no path yet.
func guardedByNoPath(s *ssa.Store, acc ssa.Value) bool {
	for d := s.Block(); d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil {
			break
		}
		iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok || id.Succs[0] != d || len(d.Preds) != 1 {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || bo.Op.String() != "==" {
			continue
		}
		for _, v := range []ssa.Value{bo.X, bo.Y} {
			if c, ok := v.(*ssa.Call); ok {
				if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					v = c.Common().Args[0]
				}
			}
			if l, ok := v.(*ssa.UnOp); ok {
				if fa, ok := l.X.(*ssa.FieldAddr); ok && fieldName(fa) == "Path" && sameValue(fa.X, acc) {
					return true
				}
			}
		}
	}
	return false
}
