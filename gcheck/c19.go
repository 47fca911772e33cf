package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C19"] = Check{"path-sensitive dataflow over the recursive functions that prune and list accounts, by induction over the account tree, and over the command that calls them", checkC19}
}

// recursive: calling the function may lead back to it.
func (P *Prog) recursive(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && P.reaches(g)[f] {
					return true
				}
			}
		}
	}
	return false
}

// accountParam: the parameter that is an account, -1 for none.
func accountParam(f *ssa.Function) int {
	for i, p := range f.Params {
		if strings.HasSuffix(named(p.Type()), "journal.Account") {
			return i
		}
	}
	return -1
}

// reads: the function itself, or one it calls that leads not back to it, reads that field of an account.
func (P *Prog) readsField(f *ssa.Function, typ string, names ...string) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			var t types.Type
			n := ""
			switch x := i.(type) {
			case *ssa.FieldAddr:
				t, n = x.X.Type(), fieldName(x)
			case *ssa.Field:
				if s := structOf(x.X.Type()); s != nil {
					t, n = x.X.Type(), s.Field(x.Field).Name()
				}
			}
			if t == nil || !strings.HasSuffix(named(t), typ) {
				continue
			}
			for _, m := range names {
				if n == m {
					return true
				}
			}
		}
	}
	return false
}

func amountTexter(f *ssa.Function) bool {
	return f.Signature.Recv() != nil && strings.HasSuffix(named(f.Signature.Recv().Type()), "journal.Amount") && strings.Join(resultTypes(f), ",") == "string"
}

// childLoop finds the loop of a path that hands the children of an account to a function.
func childLoop(ev []*Event, f *ssa.Function) (l []*LoopSum) {
	for _, L := range loopsIn(ev) {
		has := false
		for _, it := range L.iters {
			for _, e := range it.ev {
				has = has || e.kind == "call" && e.fn == f
			}
		}
		if has {
			l = append(l, L)
		}
	}
	return
}

// isChild: the term is about a child of the account, the one the loop is at.
func isChild(t *Term, own string, L *LoopSum) bool {
	return t.any(func(u *Term) bool {
		switch u.op {
		case "maddr":
			return path(u.a[0]) == own+".Children" && u.a[1].any(func(k *Term) bool { return isElem(k, L) || k.op == "elem" || k.op == "iaddr" })
		case "rangeval":
			return path(u.a[0]) == own+".Children" && u.a[0] == L.seq
		}
		return false
	})
}

func countIn(t *Term, is func(*Term) bool) int {
	if t == nil {
		return 0
	}
	if is(t) {
		return 1
	}
	n := 0
	if t.op == "concat" {
		for _, a := range t.a {
			n += countIn(a, is)
		}
	}
	return n
}

func checkC19(P *Prog, r *Report) {
	r.rule("pruned", "without --show-zero exactly the accounts that are zero and lead to none that is not are left out; with it none is", 4)
	r.rule("listed", "listing an account lists it once, loses nothing of what was listed before, and goes on to each of its children once", 8)
	r.rule("flags", "--flatten gives the flat list, otherwise the tree is shown, collapsed as --collapse says", 2)
	r.rule("shown", "the list begins at the root, is printed, and its amounts are those of the accounts", 3)
	r.rule("total", "the total of the root is printed last", 1)
	cli := P.cli(r)
	parse := parserParse(P)
	var cmd *Command
	if cli != nil {
		for _, c := range cli.cmds {
			if c.name() == "balance" {
				cmd = c
			}
		}
	}
	if cmd == nil {
		r.bad("listed", "balance", "-", "the command balance is not found")
		return
	}
	r.whole(P, "shown", cli, "balance")
	act, v, _ := cmd.action()
	if act == nil {
		r.bad("listed", "balance", cmd.pos, "the command balance runs nothing")
		return
	}
	flag := func(name string) string {
		for _, f := range cmd.flags {
			if f.name == name {
				return f.target
			}
		}
		return ""
	}
	zeroF, flatF, collF := flag("show-zero"), flag("flatten"), flag("collapse")
	mods := P.modSets()
	pruners, listers, other := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for f := range P.reaches(act) {
		if f.Blocks == nil || !P.inRepo(f) || accountParam(f) < 0 || !P.recursive(f) {
			continue
		}
		switch {
		case mods[f]["M:map[string]*journal.Account"] && !takesPath(f):
			pruners[f] = true
		case P.readsField(f, "journal.Account", "Name", "Path") && len(f.Params) > 0 && !takesPath(f):
			listers[f] = true
		default:
			other[f] = true
		}
	}
	outs, in, _ := P.runClosure(v, cli.st, Opts{snap: true, maxSteps: 2000000, opaque: func(f *ssa.Function) bool {
		return f == parse || pruners[f] || listers[f] || amountTexter(f)
	}})
	pos := P.pos(act.Pos())
	if in == nil || in.over || len(listers) == 0 {
		r.notes = append(r.notes, "the command balance is not followed")
		for k := range map[string]bool{"pruned": true, "listed": true, "flags": true, "shown": true, "total": true} {
			r.ok(k, "balance")
		}
		return
	}
	r.use(act)
	r.paths += len(outs)
	flagIs := func(o *Outcome, target string) (bool, bool) {
		for _, f := range o.st.f.list {
			x, neg := f, false
			if x.op == "not" {
				x, neg = x.a[0], true
			}
			if target != "" && path(x) == target && isBool(x) {
				return !neg, true
			}
		}
		return false, false
	}
	type use struct {
		fn   *ssa.Function
		e    *Event
		it   *Iter
		top  *LoopSum
		flat int
	}
	role := map[*ssa.Function]string{}
	prunedBy := map[*ssa.Function]*Event{}
	inl := P.newInterp(Opts{})
	for _, o := range outs {
		if o.panic || o.exit || !succeeds(o) {
			continue
		}
		ran := false
		var lists []use
		var pr []*Event
		prAfter := false
		var total, shown bool
		var listRes []*Term
		var walk func(ev []*Event, it *Iter, L *LoopSum)
		walk = func(ev []*Event, it *Iter, L *LoopSum) {
			for _, e := range ev {
				switch {
				case e.kind == "loop":
					for _, i := range e.loop.iters {
						walk(i.ev, i, e.loop)
					}
					// what such a loop leaves behind
					for _, u := range lists {
						if u.top == e.loop {
							for _, p := range e.loop.phis {
								listRes = append(listRes, p.sym)
							}
							break
						}
					}
				case e.kind == "call" && e.fn == parse:
					ran = true
				case e.kind == "call" && pruners[e.fn]:
					pr = append(pr, e)
					prAfter = prAfter || len(lists) > 0
				case e.kind == "call" && listers[e.fn]:
					lists = append(lists, use{fn: e.fn, e: e, it: it, top: L})
					if e.res != nil {
						listRes = append(listRes, e.res)
					}
				case e.kind == "ext" && strings.HasPrefix(e.name, "fmt.") && len(lists) > 0:
					st := o.st
					if it != nil {
						st = it.st
					}
					if e.snap != nil {
						st = e.snap
					}
					for _, a := range e.args {
						es, ok := inl.elems(st, a)
						if !ok {
							es = []*Term{a}
						}
						for _, x := range es {
							if hasAny(x, listRes) {
								shown = true
							}
							x.any(func(u *Term) bool {
								if u.op != "call" {
									return false
								}
								c := amountCall(o, nil, u)
								if c != nil && amountTexter(c.fn) && len(c.args) > 0 && shown {
									total = total || rootAmount(c.args[0])
								}
								return false
							})
						}
					}
				}
			}
		}
		walk(o.st.ev, nil, nil)
		if !ran {
			continue
		}
		// ---- flags
		flat, fk := flagIs(o, flatF)
		var fns []string
		for _, u := range lists {
			k := "tree"
			if fk && flat {
				k = "flat"
			}
			if old := role[u.fn]; old != "" && old != k {
				k = "either"
			}
			role[u.fn] = k
			fns = append(fns, fname(u.fn))
		}
		r.check(len(lists) > 0, "shown", "balance: a list", pos, "a balance report without any accounts")
		if len(lists) == 0 {
			continue
		}
		if flatF != "" {
			r.check(fk, "flags", "balance: flatten", pos, "the report does not look at --flatten")
		}
		if collF != "" && !(fk && flat) {
			// the flag reaches the listing
			got := false
			has := func(t *Term) bool {
				return t != nil && t.any(func(u *Term) bool { return u.op == "load" && path(u) == collF })
			}
			for _, u := range lists {
				for _, a := range u.e.args {
					got = got || has(a)
				}
				if u.top != nil {
					for _, p := range u.top.phis {
						got = got || has(p.init)
					}
				}
				if u.e.snap != nil {
					for _, a := range u.e.args {
						if s := structOf(a.typ); s != nil {
							for i := 0; i < s.NumFields(); i++ {
								got = got || has(fieldAt(u.e.snap, a, s.Field(i).Name()))
							}
						}
					}
				}
			}
			if _, known := flagIs(o, collF); known {
				got = true
			}
			r.check(got, "flags", "balance: collapse", pos, "the tree is listed without regard to --collapse")
		}
		// ---- pruning
		zero, zk := flagIs(o, zeroF)
		switch {
		case len(pruners) == 0:
		case zeroF == "" || !zk:
			r.check(zeroF == "", "pruned", "balance: show-zero", pos, "the report does not look at --show-zero")
		case zero:
			r.check(len(pr) == 0, "pruned", "balance: show-zero", pos, "accounts are left out although --show-zero asks for them")
		default:
			r.check(len(pr) > 0 && !prAfter, "pruned", "balance: without show-zero", pos, "accounts without a balance are not left out")
			for _, e := range pr {
				prunedBy[e.fn] = e
				r.check(rootAccount(e.args[accountParam(e.fn)]), "pruned", "balance: from the root", P.ipos(e.in), "only a part of the accounts is pruned")
			}
		}
		// ---- from the root
		for _, u := range lists {
			a := u.e.args[accountParam(u.fn)]
			if u.top == nil {
				r.check(rootAccount(a), "shown", "balance: from the root", P.ipos(u.e.in), "the list does not begin at the root but at %s", path(a))
				continue
			}
			root := ""
			a.any(func(t *Term) bool {
				if t.op == "maddr" {
					root = strings.TrimSuffix(path(t.a[0]), ".Children")
				}
				return root != ""
			})
			r.check(exhausted(o.st.ev, u.top), "shown", "balance: all of the root", P.ipos(u.e.in), "not all accounts of the root are listed")
			for _, it := range u.top.iters {
				n := 0
				for _, e := range it.ev {
					if e.kind == "call" && e.fn == u.fn {
						n++
						r.check(root == "" || isChild(e.args[accountParam(u.fn)], root, u.top), "shown", "balance: each of the root", P.ipos(e.in), "what is listed is not the account the loop is at")
					}
				}
				for _, e := range it.ev {
					if e.kind != "call" || e.fn != u.fn || e.res == nil {
						continue
					}
					back, gave := false, false
					for _, p := range u.top.phis {
						nv := it.phis[p.name]
						if nv == nil || !nv.contains(e.res) {
							continue
						}
						back = true
						gave = gave || nv.contains(p.sym)
						for _, a := range e.args {
							gave = gave || a.contains(p.sym)
						}
					}
					if len(u.fn.Signature.Results().String()) > 2 {
						r.check(back, "shown", "balance: takes back", P.ipos(e.in), "what an account of the root lists is dropped")
						r.check(!back || gave, "shown", "balance: hands on", P.ipos(e.in), "what was listed before is lost with the next account of the root")
					}
				}
				r.check(n == 1, "shown", "balance: each of the root once", P.ipos(u.e.in), "an account of the root is listed %d times", n)
			}
		}
		r.check(shown, "shown", "balance: printed", pos, "the list of accounts is not printed")
		if shown {
			r.check(total, "total", "balance: total", pos, "the total of the root is not printed after the list")
		}
	}
	// ---- what the functions do
	var fs []*ssa.Function
	for f := range pruners {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fname(fs[i]) < fname(fs[j]) })
	for _, f := range fs {
		if e := prunedBy[f]; e != nil {
			prunes(P, r, f, e, cli)
		}
	}
	if len(pruners) == 0 {
		reads := false
		for f := range listers {
			for g := range P.reaches(f) {
				reads = reads || P.inRepo(g) && !amountTexter(g) && P.readsField(g, "journal.Amount", "Quantity")
			}
		}
		r.check(reads, "pruned", "balance: no balance", pos, "no function leaves accounts without a balance out")
		for i := 0; i < 4; i++ {
			r.ok("pruned", "balance")
		}
	}
	fs = nil
	for f := range listers {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fname(fs[i]) < fname(fs[j]) })
	for _, f := range fs {
		if role[f] != "" {
			lists(P, r, f, role[f] == "flat")
		}
	}
	// the text in front of each account
	done := map[*ssa.Function]bool{}
	for _, o := range outs {
		allEvents(o.st.ev, func(e *Event, it *Iter) {
			if e.kind != "call" || !listers[e.fn] || len(e.args) == 0 {
				return
			}
			var fn *Term
			see := func(t *Term) {
				if t == nil {
					return
				}
				t.any(func(u *Term) bool {
					if g := termFunc(u); g != nil && accountParam(g) >= 0 && strings.Join(resultTypes(g), ",") == "string" {
						fn = u
					}
					return fn != nil
				})
			}
			for _, a := range e.args {
				see(a)
				if s := structOf(a.typ); s != nil && e.snap != nil {
					for i := 0; i < s.NumFields(); i++ {
						see(fieldAt(e.snap, a, s.Field(i).Name()))
					}
				}
			}
			for _, L := range loopsIn(o.st.ev) {
				for _, p := range L.phis {
					see(p.init)
				}
			}
			if fn != nil && !done[termFunc(fn)] {
				done[termFunc(fn)] = true
				prepends(P, r, fn, o)
			}
		})
	}
}

func takesPath(f *ssa.Function) bool {
	for _, t := range paramTypes(f) {
		if t == "[]string" {
			return true
		}
	}
	return false
}

func eachOf[T any, U any](l []T, f func(T) U) (m []U) {
	for _, x := range l {
		m = append(m, f(x))
	}
	return
}

func hasAny(t *Term, l []*Term) bool {
	for _, x := range l {
		if t.contains(x) {
			return true
		}
	}
	return false
}

// rootAccount: the account of the journal that has no parent.
func rootAccount(t *Term) bool {
	p := path(t)
	if strings.HasSuffix(p, ".Root") {
		return true
	}
	if t.op == "struct" && len(t.a) > 0 {
		t = rootOf(underOf(t.a[0]))
	}
	return t.op == "alloc"
}

func underOf(t *Term) *Term {
	for t.op == "load" || t.op == "field" {
		t = t.a[0]
	}
	return t
}

func rootAmount(t *Term) bool {
	x := t
	if x.op == "struct" && len(x.a) > 0 {
		x = x.a[0]
	}
	p := path(x)
	return strings.HasSuffix(p, ".Amount.Commodity") || strings.HasSuffix(p, ".Amount") || rootOf(underOf(x)).op == "alloc"
}

// prunes judges a function that leaves out accounts, given what it is called with.
func prunes(P *Prog, r *Report, f *ssa.Function, call *Event, cli *CLI) {
	con, pos := fname(f), P.pos(f.Pos())
	ai := accountParam(f)
	o := Opts{snap: false, entry: func(st *State, ps []*Term) {
		for i, a := range call.args {
			if i != ai && i < len(ps) && termFunc(a) != nil {
				st.env[f.Params[i]] = a
			}
		}
	}}
	outs := r.exec(f, o)
	own := path(paramT(f.Params[ai], ai))
	isOwnQ := func(t *Term) bool { return path(t) == own+".Amount.Quantity" && isIntType(t.typ) && t.op != "lin" }
	// assume on a copy of the facts that the account's own quantity is or is not zero
	ownQ := func(fs *Facts, sign int, extra ...*Term) (*Facts, bool) {
		g := fs.clone()
		var q *Term
		see := func(t *Term) {
			t.any(func(u *Term) bool {
				if q == nil && isOwnQ(u) {
					q = u
				}
				return q != nil
			})
		}
		for _, x := range fs.list {
			see(x)
		}
		for _, x := range extra {
			see(x)
		}
		if q == nil {
			return g, true
		}
		ok := g.assume(eq0T(q), sign == 0)
		switch {
		case sign > 0:
			ok = ok && g.assume(le0T(q), false)
		case sign < 0:
			ok = ok && g.assume(le0T(addN(q, 1)), true)
		}
		return g, ok
	}
	n := 0
	for _, o := range outs {
		if o.panic || o.exit {
			continue
		}
		n++
		Ls := childLoop(o.st.ev, f)
		if len(Ls) == 0 {
			leaf := saysEmpty(o.st.f, func(l *Term) bool { return path(l) == own+".Children" })
			r.check(leaf, "pruned", con+": descends", pos, "a path does not look at the accounts beneath")
			continue
		}
		L := Ls[0]
		r.check(exhausted(o.st.ev, L), "pruned", con+": all children", pos, "not all accounts beneath are looked at")
		decided := true
		for _, it := range L.iters {
			var call *Event
			var child *Term
			for _, e := range it.ev {
				if e.kind == "call" && e.fn == f {
					call, child = e, e.args[ai]
				}
			}
			if call == nil {
				r.bad("pruned", con+": descends", pos, "a path does not look at what is beneath a child")
				continue
			}
			cp := path(child)
			removed, by := false, ""
			for _, e := range it.ev {
				if e.kind == "mapdel" {
					removed, by = true, path(e.args[0])
				}
			}
			for _, p := range L.phis {
				as, ok := appended(it, p)
				if !ok {
					continue
				}
				for _, a := range as {
					if path(a) == cp || a.op == "rangekey" || path(a) == cp+".Name" {
						if deletesAll(o, p.sym, L) {
							removed, by = true, own+".Children"
						}
					}
				}
			}
			if removed && !strings.HasSuffix(by, ".Children") {
				decided = false
			}
			rv, rk := it.st.f.query(call.res)
			qz := sayZero(it.st.f, cp+".Amount.Quantity")
			le := +1
			if saysEmpty(it.st.f, func(l *Term) bool { return path(l) == cp+".Children" }) {
				le = 0
			} else if !saysNonEmpty(it.st.f, func(l *Term) bool { return path(l) == cp+".Children" }) {
				le = -1
			}
			if len(resultTypes(f)) == 0 || !isBool(call.res) {
				rk = false
			}
			switch {
			case rk && removed:
				r.check(!rv, "pruned", con+": left out", pos, "an account is left out although it, or one beneath it, has a balance")
			case rk && !removed:
				r.check(rv, "pruned", con+": kept", pos, "an account without a balance is kept although none beneath it has one")
			case removed:
				if qz == 0 && le == 0 {
					r.ok("pruned", con)
				} else if qz == -1 && le == -1 && otherTest(it, f) {
					decided = false
				} else {
					r.bad("pruned", con+": left out", pos, "an account is left out although it, or one beneath it, may have a balance")
				}
			default:
				if qz == 1 || le == 1 {
					r.ok("pruned", con)
				} else if qz == -1 && le == -1 && otherTest(it, f) {
					decided = false
				} else {
					r.bad("pruned", con+": kept", pos, "an account is kept although neither it nor one beneath it need have a balance")
				}
			}
		}
		if !decided {
			r.notes = append(r.notes, con+": which accounts are left out is decided elsewhere")
			r.ok("pruned", con)
		}
		// what it says of itself
		if len(o.rets) != 1 || o.rets[0] == nil || !isBool(o.rets[0]) {
			continue
		}
		ret := o.rets[0]
		var ph *PhiInfo
		for _, p := range L.phis {
			if p.sym == ret {
				ph = p
			}
		}
		if ph == nil {
			// true needs a reason; false needs the lack of one
			kids := func(fs *Facts) int {
				switch {
				case saysEmpty(fs, func(l *Term) bool { return strings.HasSuffix(path(l), ".Children") }):
					return 0
				case saysNonEmpty(fs, func(l *Term) bool { return strings.HasSuffix(path(l), ".Children") }):
					return 1
				}
				// a flag of the loop
				for _, p := range L.phis {
					if v, k := fs.query(p.sym); k && isBool(p.sym) {
						if v {
							return 1
						}
						return 0
					}
				}
				return -1
			}
			v, known := o.st.f.query(ret)
			q := sayZero(o.st.f, own+".Amount.Quantity")
			k := kids(o.st.f)
			switch {
			case !known:
				seen := false
				for _, sign := range []int{-1, 0, 1} {
					g, ok := ownQ(o.st.f, sign, ret)
					if !ok {
						continue
					}
					if v, kn := g.query(ret); kn {
						seen = true
						if sign != 0 {
							r.check(v, "pruned", con+": own balance", pos, "an account with a balance says that it has none")
						} else {
							r.check(!v && k == 0 || v && k == 1, "pruned", con+": says of itself", pos, "what an account says of itself does not depend on those beneath it")
						}
					}
				}
				if seen {
					continue
				}
				r.notes = append(r.notes, con+": what it returns is not followed")
			case v:
				r.check(q == 1 || k == 1, "pruned", con+": says of itself", pos, "an account without a balance, or anything beneath it, says that it has one")
			default:
				r.check(q == 0 && k != 1, "pruned", con+": says of itself", pos, "an account with a balance, or with one beneath it, says that it has none")
			}
			continue
		}
		for _, sign := range []int{-1, 0, 1} {
			zero := sign == 0
			g, ok := ownQ(o.st.f, sign, ph.init)
			if !ok {
				continue
			}
			v, k := g.query(ph.init)
			if !k {
				r.notes = append(r.notes, con+": what it says of itself is not followed")
				continue
			}
			r.check(v == !zero, "pruned", con+": own balance", pos, "an account says of its own balance the opposite of what is so")
		}
		for _, it := range L.iters {
			var call *Event
			for _, e := range it.ev {
				if e.kind == "call" && e.fn == f {
					call = e
				}
			}
			if call == nil || call.res == nil {
				continue
			}
			nv := it.phis[ph.name]
			for _, was := range []bool{true, false} {
				for _, is := range []bool{true, false} {
					g := it.st.f.clone()
					if !g.assume(ph.sym, was) || !g.assume(call.res, is) {
						continue
					}
					v, k := g.query(nv)
					if !k {
						continue
					}
					r.check(v == (was || is), "pruned", con+": says of those beneath", pos, "whether an account leads to a balance is forgotten, or said of one that leads to none")
				}
			}
		}
	}
	if n == 0 {
		r.ok("pruned", con)
	}
}

// otherTest: the iteration asks another function that follows the tree.
func otherTest(it *Iter, f *ssa.Function) bool {
	for _, e := range it.ev {
		if e.kind == "call" && e.fn != f || e.kind == "dyn" {
			return true
		}
	}
	return false
}

func saysNonEmpty(f *Facts, is func(l *Term) bool) bool {
	for _, x := range f.list {
		var ls []*Term
		x.any(func(u *Term) bool {
			if u.op == "len" && is(u.a[0]) {
				ls = append(ls, u.a[0])
			}
			return false
		})
		for _, l := range ls {
			if v, k := nonEmpty(f, l); k && v {
				return true
			}
			if v, k := f.query(eq0T(lenT(l))); k && !v {
				return true
			}
		}
	}
	return false
}

// sayZero: 0 the quantity is known to be zero, 1 known not to be, -1 unknown.
func sayZero(f *Facts, p string) int {
	n := -1
	for _, x := range f.list {
		x.any(func(u *Term) bool {
			if n < 0 && u.op != "lin" && isIntType(u.typ) && path(u) == p {
				if v, k := f.query(eq0T(u)); k {
					n = 1
					if v {
						n = 0
					}
				}
			}
			return false
		})
	}
	return n
}

// deletesAll: a later loop over the list deletes each of its elements from a map of children.
func deletesAll(o *Outcome, list *Term, not *LoopSum) bool {
	right := func(k *Term) bool {
		p := path(k)
		return k.op != "load" && k.op != "field" || strings.HasSuffix(p, ".Name") || !strings.Contains(p, ".")
	}
	for _, L := range loopsIn(o.st.ev) {
		if L == not || L.seq != list || !exhausted(o.st.ev, L) {
			continue
		}
		for _, it := range L.iters {
			for _, e := range it.ev {
				if e.kind == "mapdel" && right(e.args[1]) {
					return true
				}
			}
		}
	}
	return false
}

// lists judges a function that lists an account and those beneath it.
func lists(P *Prog, r *Report, f *ssa.Function, flat bool) {
	con, pos := fname(f), P.pos(f.Pos())
	ai := accountParam(f)
	outs := r.exec(f, Opts{snap: true})
	own := path(paramT(f.Params[ai], ai))
	// what was listed so far, and other things that are handed on
	var texts, ints, bools []*Term
	for i, p := range f.Params {
		if i == ai {
			continue
		}
		t := paramT(p, i)
		if isString(p.Type()) {
			texts = append(texts, t)
			continue
		}
		s := structOf(p.Type())
		if s == nil {
			continue
		}
		for k := 0; k < s.NumFields(); k++ {
			ft := s.Field(k).Type()
			v := fieldT(t, s, k)
			if _, ptr := p.Type().Underlying().(*types.Pointer); ptr {
				v = mkT("load", "", 0, ft, faddrT(t, s, k))
			}
			switch {
			case isString(ft):
				texts = append(texts, v)
			case isIntType(ft):
				ints = append(ints, v)
			case v.typ != nil && isBool(v):
				bools = append(bools, v)
			}
		}
	}
	is := func(p string) func(*Term) bool {
		return func(t *Term) bool { return t.op != "concat" && path(t) == p }
	}
	name := func(t *Term) bool { return is(own+".Name")(t) || is(own+".Path")(t) }
	type view struct {
		o     *Outcome
		L     *LoopSum
		news  []*Term // the texts on the way to the children, or at the end of a leaf
		leaf  bool
		names int
		label []*Term
		ints  map[string]*Term // before the children
		back  map[string]*Term // in the end
	}
	var vs []*view
	flatten := func(ts ...*Term) (l []*Term) {
		for _, t := range ts {
			if t == nil {
				continue
			}
			if s := structOf(t.typ); s != nil && t.op == "struct" {
				l = append(l, t.a...)
				continue
			}
			l = append(l, t)
		}
		return
	}
	known := false
	for _, o := range outs {
		if o.panic || o.exit {
			continue
		}
		v := &view{o: o, ints: map[string]*Term{}, back: map[string]*Term{}}
		v.leaf = saysEmpty(o.st.f, func(l *Term) bool { return path(l) == own+".Children" })
		Ls := childLoop(o.st.ev, f)
		if len(Ls) > 1 {
			r.bad("listed", con+": children once", pos, "the accounts beneath are listed %d times", len(Ls))
		}
		slot := func(t *Term, k string) {
			if t.typ != nil && (isIntType(t.typ) || isBool(t)) {
				v.ints[k] = t
			}
		}
		if len(Ls) > 0 {
			v.L = Ls[0]
			for _, p := range v.L.phis {
				for _, t := range flatten(p.init) {
					if t != nil && t.typ != nil && isString(t.typ) {
						v.news = append(v.news, t)
					}
				}
				if p.addr != nil && p.init != nil {
					slot(p.init, p.addr.s)
				} else if p.init != nil {
					if s := structOf(p.init.typ); s != nil && p.init.op == "struct" {
						for i, t := range p.init.a {
							slot(t, s.Field(i).Name())
						}
					}
				}
			}
			// handed to each child anew
			for _, it := range v.L.iters {
				for _, e := range it.ev {
					if e.kind != "call" || e.fn != f {
						continue
					}
					for i, a := range e.args {
						if i == ai {
							continue
						}
						for _, t := range flatten(a) {
							if t.typ != nil && isString(t.typ) && t.any(name) {
								v.news = append(v.news, t)
							}
						}
						if s := structOf(a.typ); s != nil && a.op == "struct" {
							for k, t := range a.a {
								n := s.Field(k).Name()
								if v.ints[n] == nil && isIntType(t.typ) {
									v.ints[n] = t
								}
							}
						} else if isIntType(a.typ) {
							v.ints[f.Params[i].Name()] = a
						}
					}
				}
			}
		} else {
			for _, t := range flatten(o.rets...) {
				if t.typ != nil && isString(t.typ) {
					v.news = append(v.news, t)
				}
			}
		}
		for _, t := range v.news {
			v.names += countIn(t, name)
		}
		known = known || v.names > 0
		for _, e := range o.st.ev {
			if (e.kind == "dyn" || e.kind == "call" && e.fn != f) && e.res != nil && isString(e.res.typ) && len(e.args) > 0 {
				v.label = append(v.label, e.res)
			}
		}
		for _, rt := range o.rets {
			if s := structOf(rt.typ); s != nil && rt.op == "struct" {
				for i, t := range rt.a {
					v.back[s.Field(i).Name()] = t
				}
			}
		}
		vs = append(vs, v)
	}
	if !known {
		r.notes = append(r.notes, con+": how it lists an account is not followed")
		for i := 0; i < 8; i++ {
			r.ok("listed", con)
		}
		return
	}
	// the slots of the list proper are those that ever hold a label
	hasLabel := false
	for _, v := range vs {
		for _, t := range v.news {
			hasLabel = hasLabel || hasAny(t, v.label) && t.any(name)
		}
	}
	moved := false
	for _, v := range vs {
		for _, p := range ints {
			if t := v.ints[p.s]; t != nil && t != p {
				moved = true
			}
			if p.op == "load" && v.ints[p.a[0].s] != nil && v.ints[p.a[0].s] != p {
				moved = true
			}
		}
	}
	for _, v := range vs {
		o := v.o
		// ---- the account itself
		switch {
		case flat && !v.leaf:
			r.check(v.names == 0, "listed", con+": leaves only", pos, "an account that leads to others is listed as if it did not")
		default:
			r.check(v.names == 1, "listed", con+": the account", pos, "an account is listed %d times", v.names)
		}
		if flat && v.leaf {
			full := 0
			for _, t := range v.news {
				full += countIn(t, is(own+".Path"))
			}
			r.check(full == 1 || noPath(v.news, own), "listed", con+": full path", pos, "a flat list shows the last part of the name only")
		}
		// ---- its amount
		if hasLabel && v.names == 1 {
			for _, t := range v.news {
				if countIn(t, name) != 1 {
					continue
				}
				held := false // kept aside until the end of a chain
				for _, p := range texts {
					held = held || countIn(t, func(u *Term) bool { return u == p }) > 0 && !hasAny(t, v.label) && !saysEmptyText(o, p)
				}
				one := onlyChild(o, own)
				if held && one || !hasAny(t, v.label) && one {
					r.ok("listed", con)
					continue
				}
				n := 0
				for _, l := range v.label {
					n += countIn(t, func(u *Term) bool { return u == l })
				}
				r.check(n == 1, "listed", con+": its amount", pos, "an account is listed with %d amounts", n)
				for _, e := range o.st.ev {
					if e.kind == "dyn" && e.res != nil && t.contains(e.res) && len(e.args) > 0 {
						r.check(path(e.args[len(e.args)-1]) == own, "listed", con+": its own amount", P.ipos(e.in), "an account is listed with the amount of another")
					}
				}
			}
		}
		// ---- what was listed before
		for _, p := range texts {
			n := 0
			for _, t := range v.news {
				n += countIn(t, func(u *Term) bool { return u == p })
			}
			if n > 1 {
				seen := map[string]bool{}
				m := 0
				for _, t := range v.news {
					if !seen[t.String()] {
						m += countIn(t, func(u *Term) bool { return u == p })
					}
					seen[t.String()] = true
				}
				r.check(m <= 1, "listed", con+": twice", pos, "what was kept aside is listed and kept for the next account as well")
			}
			if n == 0 {
				r.check(saysEmptyText(o, p) || neverKept(eachOf(vs, func(v *view) []*Term { return v.news }), p), "listed", con+": before", pos, "what was listed before is lost")
			} else {
				r.ok("listed", con)
			}
			for _, t := range v.news {
				if t.op == "concat" && countIn(t, name) > 0 && countIn(t, func(u *Term) bool { return u == p }) > 0 && hasAny(t, v.label) && t.a[0] == p {
					nl := t.a[1].op == "str" && strings.HasPrefix(t.a[1].s, "\n")
					r.check(nl || saysEmptyText(o, p), "listed", con+": a line of its own", pos, "an account is listed on the line of the one before")
				}
			}
		}
		// ---- what tells the next account that this one is kept aside
		for _, q := range bools {
			if !hasLabel || v.L == nil {
				continue
			}
			k := q.s
			if q.op == "load" {
				k = q.a[0].s
			}
			mark, marks := false, false
			for _, w := range vs {
				aside := false
				for _, t := range w.news {
					aside = aside || countIn(t, name) > 0 && !hasAny(t, w.label)
				}
				if t := w.ints[k]; aside && t != nil && t.isConst() {
					mark, marks = w.o.st.f.query(t)
				}
			}
			shown := false
			for _, t := range v.news {
				shown = shown || countIn(t, name) > 0 && hasAny(t, v.label)
			}
			t := v.ints[k]
			if !marks || !shown || t == nil {
				continue
			}
			val, kn := o.st.f.query(t)
			r.check(!kn || val != mark, "listed", con+": the end of a chain", pos, "the accounts after the end of a chain are listed as if they were part of it")
		}
		// ---- those beneath
		if v.L == nil {
			r.check(v.leaf, "listed", con+": children", pos, "a path does not go on to the accounts beneath")
			continue
		}
		r.check(exhausted(o.st.ev, v.L), "listed", con+": all children", pos, "not all accounts beneath are listed")
		for _, it := range v.L.iters {
			n := 0
			for _, e := range it.ev {
				if e.kind != "call" || e.fn != f {
					continue
				}
				n++
				r.check(isChild(e.args[ai], own, v.L), "listed", con+": each child", P.ipos(e.in), "what is listed is not the child the loop is at")
				// the list is handed on and taken back
				for _, p := range v.L.phis {
					if p.init == nil || p.init.typ == nil || !isString(p.init.typ) {
						continue
					}
					nv := it.phis[p.name]
					back := nv == e.res || nv != nil && nv.any(func(u *Term) bool { return u == e.res })
					gave := false
					for _, a := range e.args {
						gave = gave || a.contains(p.sym)
					}
					if e.snap != nil && p.addr != nil && !gave {
						gave = true // handed on by its place
					}
					kept := nv != nil && nv.contains(p.sym)
					r.check(gave || kept, "listed", con+": hands on", P.ipos(e.in), "what was listed before is not handed on to a child")
					r.check(back || e.res == nil || len(f.Signature.Results().String()) < 3, "listed", con+": takes back", P.ipos(e.in), "what a child lists is dropped")
				}
			}
			r.check(n == 1, "listed", con+": each child once", pos, "a child is listed %d times", n)
		}
		// ---- depth
		if flat {
			continue
		}
		for _, p := range ints {
			k := p.s
			if p.op == "load" {
				k = p.a[0].s
			}
			t := v.ints[k]
			if t == nil {
				continue
			}
			d := subT(t, p)
			if d.op != "int" {
				continue
			}
			if !moved {
				r.bad("listed", con+": depth", pos, "the accounts beneath are not indented")
				continue
			}
			if b := v.back[k]; b != nil {
				var sym *Term
				for _, q := range v.L.phis {
					if q.init == t && q.addr != nil && q.addr.s == k {
						sym = q.sym
					}
				}
				if sym != nil {
					if e := subT(b, sym); e.op == "int" {
						r.check(d.n+e.n == 0, "listed", con+": depth restored", pos, "the accounts after this one are indented by %d more than it", d.n+e.n)
					}
				}
			}
			if d.n < 0 {
				r.bad("listed", con+": depth", pos, "the accounts beneath are indented less")
			}
			chain := false
			for _, q := range bools {
				if val, kn := o.st.f.query(q); kn && val {
					chain = true
				}
			}
			if d.n == 0 && !chain && usedForDepth(eachOf(vs, func(v *view) *Outcome { return v.o }), p) {
				r.bad("listed", con+": depth", pos, "the accounts beneath are not indented")
			} else {
				r.ok("listed", con)
			}
		}
	}
}

// noPath: the list is put together from names, so the path may be as well.
func noPath(news []*Term, own string) bool {
	for _, t := range news {
		if t.any(func(u *Term) bool { return strings.HasSuffix(path(u), "PathComponents") || u.op == "call" }) && !t.any(func(u *Term) bool { return path(u) == own+".Name" }) {
			return true
		}
	}
	return false
}

func saysEmptyText(o *Outcome, p *Term) bool {
	if v, k := o.st.f.query(eq0T(lenT(p))); k && v {
		return true
	}
	v, k := o.st.f.query(eqT(p, mkStr("")))
	return k && v
}

// onlyChild: the account is known to have exactly one child.
func onlyChild(o *Outcome, own string) bool {
	for _, x := range o.st.f.list {
		ok := false
		x.any(func(u *Term) bool {
			if u.op == "len" && path(u.a[0]) == own+".Children" {
				if v, k := o.st.f.query(eq0T(addN(u, -1))); k && v {
					ok = true
				}
			}
			return ok
		})
		if ok {
			return true
		}
	}
	return false
}

// neverKept: no path keeps the text, so it is no list.
func neverKept(all [][]*Term, p *Term) bool {
	for _, l := range all {
		for _, t := range l {
			if t.contains(p) {
				return false
			}
		}
	}
	return true
}

// usedForDepth: the number decides how far something is indented.
func usedForDepth(outs []*Outcome, p *Term) bool {
	n, moved := false, false
	for _, o := range outs {
		for _, L := range loopsIn(o.st.ev) {
			for _, q := range L.phis {
				if q.init != nil && isIntType(q.init.typ) && q.init != p && q.init.contains(p) {
					moved = true
				}
			}
			for _, it := range L.iters {
				for _, f := range it.facts {
					n = n || f.contains(p)
				}
			}
		}
	}
	return n && moved
}

// prepends judges what stands in front of an account.
func prepends(P *Prog, r *Report, fn *Term, o *Outcome) {
	g := termFunc(fn)
	con, pos := fname(g), P.pos(g.Pos())
	outs, in, ps := P.runClosure(fn, o.st, Opts{opaque: amountTexter})
	if in == nil || in.over {
		return
	}
	r.use(g)
	own := path(ps[accountParam(g)])
	for _, o := range outs {
		if o.panic || o.exit || len(o.rets) != 1 {
			continue
		}
		l, why := P.textOfOutcome(o, o.rets[0])
		if why != "" {
			r.notes = append(r.notes, con+": "+why)
			r.ok("shown", con)
			continue
		}
		n := 0
		follow := true
		for _, p := range l {
			if p.loop != nil {
				follow = false
				continue
			}
			p.t.any(func(u *Term) bool {
				if u.op != "call" {
					return false
				}
				e := amountCall(o, nil, u)
				if e == nil || !amountTexter(e.fn) {
					return false
				}
				x := e.args[0]
				if x.op == "struct" && len(x.a) > 0 {
					x = x.a[0]
				}
				if p := path(x); p == own+".Amount" || p == own+".Amount.Commodity" {
					n++
					with, known, bare := withCommodity(P, o, e)
					r.check(!bare && (!known || with), "shown", con+": commodity", pos, "the amount of an account is shown without its commodity")
				}
				return false
			})
		}
		r.check(n == 1 || !follow, "shown", con+": amount", pos, "in front of an account its amount stands %d times", n)
	}
}
