package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C08"] = Check{"path-sensitive dataflow over SSA (what adding a posting changes, on which accounts, through which chain of parents) and a scan for other writers of account totals", checkC08}
}

const accountPtr = "*journal.Account"

// takesAccount: a function type whose only parameter is an account.
func takesAccount(t types.Type) bool {
	s, ok := t.Underlying().(*types.Signature)
	return ok && s.Params().Len() == 1 && named(s.Params().At(0).Type()) == accountPtr
}

// climbers: the functions that call a function on an account and those above it.
func climbers(P *Prog) []*ssa.Function {
	var l []*ssa.Function
	for _, f := range P.Funcs {
		if f.Parent() != nil || len(f.Blocks) == 0 {
			continue
		}
		acc, fn, other := 0, 0, 0
		for _, p := range f.Params {
			switch {
			case named(p.Type()) == accountPtr:
				acc++
			case takesAccount(p.Type()):
				fn++
			default:
				other++
			}
		}
		if acc != 1 || fn != 1 || other > 0 {
			continue
		}
		up, down := false, false
		for g := range P.reaches(f) {
			up = up || loadsField(g, "Parent")
			down = down || loadsField(g, "Children")
		}
		if up && !down {
			l = append(l, f)
		}
	}
	return l
}

// loadsField: the function reads that field of an account.
func loadsField(f *ssa.Function, name string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok && named(fa.X.Type()) == accountPtr && fieldName(fa) == name {
				for _, u := range *fa.Referrers() {
					if _, ok := u.(*ssa.UnOp); ok {
						return true
					}
				}
			}
		}
	}
	return false
}

// finderOf: the function that finds or creates the account of a path.
func finderOf(P *Prog) *ssa.Function {
	return P.byRole("journal", "Account.FindOrCreateAccount", func(f *ssa.Function) bool {
		if len(f.Params) != 2 || named(f.Params[0].Type()) != accountPtr || f.Params[1].Type().String() != "[]string" {
			return false
		}
		rt := resultTypes(f)
		if len(rt) != 1 || rt[0] != accountPtr {
			return false
		}
		for g := range P.reaches(f) {
			if loadsField(g, "Children") {
				return true
			}
		}
		return false
	})
}

// knownPath: the facts say that a value at that place is (not) nil.
func nilAt(list []*Term, pth string, want bool) bool {
	for _, t := range list {
		pol := true
		if t.op == "not" {
			pol, t = false, t.a[0]
		}
		if t.op != "eq" || pol != want {
			continue
		}
		for i := range t.a {
			if t.a[i].op == "nil" && path(t.a[1-i]) == pth {
				return true
			}
		}
	}
	return false
}

// isClimbLoop: the loop visits start and then parent after parent; act counts what is done to an account.
func climbLoop(o *Outcome, L *LoopSum, start string, act func(ev []*Event, cur *Term) (int, bool)) string {
	var cur *PhiInfo
	for _, p := range L.phis {
		if p.sym != nil && named(p.sym.typ) == accountPtr && p.init != nil && path(p.init) == start {
			cur = p
		}
	}
	if cur == nil {
		return "it does not begin at the account"
	}
	for _, it := range L.iters {
		n, foreign := act(it.ev, cur.sym)
		if n != 1 || foreign {
			return "an account on the way is not visited exactly once"
		}
		if next := it.phis[cur.name]; next == nil || path(next) != path(cur.sym)+".Parent" {
			return "it does not go on with the parent"
		}
	}
	// the last, incomplete iteration
	after := false
	var rest []*Event
	for _, e := range o.st.ev {
		if after {
			rest = append(rest, e)
		}
		if e.kind == "loop" && e.loop == L {
			after = true
		}
	}
	n, _ := act(rest, cur.sym)
	switch {
	case nilAt(o.st.f.list, path(cur.sym), true):
		if n != 0 {
			return "an account on the way is visited twice"
		}
	case nilAt(o.st.f.list, path(cur.sym)+".Parent", true):
		if n != 1 {
			return "the topmost account is not visited exactly once"
		}
	default:
		return "it ends before an account without a parent"
	}
	return ""
}

// checkClimb verifies that f calls its function exactly once on the account and each one above.
func checkClimb(P *Prog, r *Report, rule string, f *ssa.Function) {
	var acc, fn *Term
	for i, p := range f.Params {
		if named(p.Type()) == accountPtr {
			acc = paramT(p, i)
		} else {
			fn = paramT(p, i)
		}
	}
	pos := P.pos(f.Pos())
	act := func(ev []*Event, cur *Term) (n int, foreign bool) {
		allEvents(ev, func(e *Event, it *Iter) {
			if e.kind == "dyn" && e.target == fn {
				if it == nil && len(e.args) == 1 && path(e.args[0]) == path(cur) {
					n++
				} else {
					foreign = true
				}
			}
		})
		return
	}
	for _, o := range r.exec(f, Opts{opaque: opaqueFns(f)}) {
		if o.panic || o.exit || len(o.rets) > 0 && !succeeds(o) {
			continue
		}
		if len(o.rets) == 1 {
			// the result of the action or of the rest of the climb is an error or none: both are handed on
			if ret := o.rets[0]; ret.op == "call" && nilAt(o.st.f.list, path(ret), false) {
				continue
			}
		}
		if nilAt(o.st.f.list, path(acc), true) {
			n, foreign := act(o.st.ev, acc)
			r.check(n == 0 && !foreign, rule, fname(f)+" on no account", pos, "the function is called without an account")
			continue
		}
		var loop *LoopSum
		var rec []*Event
		allEvents(o.st.ev, func(e *Event, it *Iter) {
			if e.kind == "loop" {
				loop = e.loop
			}
			if e.kind == "call" && e.fn == f {
				rec = append(rec, e)
			}
		})
		bad := ""
		switch {
		case loop != nil && len(rec) == 0:
			bad = climbLoop(o, loop, path(acc), act)
		case loop != nil:
			bad = "it both loops and calls itself"
		default:
			n, foreign := act(o.st.ev, acc)
			up := 0
			for _, e := range rec {
				ok := false
				fnOK := false
				for _, a := range e.args {
					ok = ok || path(a) == path(acc)+".Parent"
					fnOK = fnOK || a == fn
				}
				if ok && fnOK {
					up++
				} else {
					bad = "it goes on with something other than the parent"
				}
			}
			top := nilAt(o.st.f.list, path(acc)+".Parent", true)
			switch {
			case bad != "":
			case foreign || n != 1:
				bad = "the function is not called exactly once on the account itself"
			case top && up != 0:
				bad = "it goes on above the topmost account"
			case !top && up != 1:
				bad = "the accounts above are not visited exactly once"
			}
		}
		r.check(bad == "", rule, fname(f), pos, "%s", bad)
	}
}

// added: how the total of an account changes along some events; odd tells of other totals written.
func added(ev []*Event, acc string, from func(*Term) bool) (times int, odd string) {
	var last *Term
	for _, e := range ev {
		if e.kind == "loop" {
			for _, it := range e.loop.iters {
				for _, x := range it.ev {
					if x.kind == "store" && quantityOf(x.args[0]) != "" {
						odd = "a total is written in a loop"
					}
				}
			}
		}
		if e.kind != "store" {
			continue
		}
		p := quantityOf(e.args[0])
		if p == "" {
			continue
		}
		if p != acc {
			odd = "the total of " + p + " is written"
			continue
		}
		last = e.args[1]
		if last.op == "struct" {
			last = fieldOfStruct(last, "Quantity")
		}
	}
	if last == nil {
		return 0, odd
	}
	c, co, as := linParts(last)
	if c != 0 {
		return 0, "the total changes by a constant"
	}
	own := int64(0)
	for i, a := range as {
		switch {
		case path(a) == acc+".Amount.Quantity":
			own += co[i]
		case from(a) && co[i] > 0 && co[i] < 1000:
			times += int(co[i])
		default:
			return 0, "the total changes by something other than the amount of the posting"
		}
	}
	if own != 1 {
		return 0, "what the account held is lost"
	}
	return times, odd
}

func fieldOfStruct(t *Term, name string) *Term {
	s := structOf(t.typ)
	if s == nil {
		return t
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return fieldT(t, s, i)
		}
	}
	return t
}

// quantityOf: the address is (or covers) the total of an account: the path of that account.
func quantityOf(a *Term) string {
	if a.op == "faddr" && a.s == "Quantity" {
		a = a.a[0]
	}
	if a.op == "faddr" && a.s == "Amount" && named(a.a[0].typ) == accountPtr {
		return path(a.a[0])
	}
	return ""
}

func checkC08(P *Prog, r *Report) {
	r.rule("climb", "a walk over an account and those above it calls its function exactly once on each, up to the account that has no parent", 1)
	r.rule("account", "a posting is added to the account it already has, or else to the one its path names below the root of the journal", 1)
	r.rule("listed", "the posting and its transaction are appended exactly once to the lists of that account", 1)
	r.rule("added", "the amount of the posting is added exactly once to that account and to each one above it", 1)
	r.rule("writers", "nothing else changes the total of an account", 1)
	add := P.byRole("journal", "Journal.AddPosting", func(f *ssa.Function) bool {
		if len(f.Params) != 2 || named(f.Params[1].Type()) != "*journal.Posting" {
			return false
		}
		s := structOf(f.Params[0].Type())
		for i := 0; s != nil && i < s.NumFields(); i++ {
			if s.Field(i).Name() == "Root" {
				return true
			}
		}
		return false
	})
	finder := finderOf(P)
	if add == nil || finder == nil {
		r.bad("account", "(*journal.Journal).AddPosting", "-", "there is no single place where postings are added to a journal, or accounts are not found by their path")
		return
	}
	cl := climbers(P)
	isClimber := map[*ssa.Function]bool{}
	for _, f := range cl {
		isClimber[f] = true
		checkClimb(P, r, "climb", f)
	}
	jt, po := paramT(add.Params[0], 0), paramT(add.Params[1], 1)
	pos := P.pos(add.Pos())
	from := func(t *Term) bool { return path(t) == path(po)+".Amount.Quantity" }
	for _, o := range r.exec(add, Opts{opaque: opaqueFns(append(cl, finder)...), snap: true, maxDepth: 10}) {
		if !succeeds(o) {
			continue
		}
		zero := false // adding nothing
		for _, t := range o.st.f.list {
			if t.op == "eq0" && from(t.a[0]) {
				zero = true
			}
		}
		s0 := entryState(o.st.f)
		had := fieldAt(s0, po, "Account")
		acc := fieldAt(o.st, po, "Account")
		none, known := isNil(o.st.f, had)
		bad := ""
		var finds []*Event
		allEvents(o.st.ev, func(e *Event, it *Iter) {
			if e.kind == "call" && e.fn == finder {
				finds = append(finds, e)
			}
		})
		con := fname(add)
		switch {
		case known && !none:
			con += " with an account"
			if acc != had {
				bad = "a posting that has an account is moved to another"
			}
		case !known:
			if len(finds) == 0 {
				bad = "the account of the posting may be missing"
			}
			fallthrough
		default:
			con += " without an account"
			var f *Event
			for _, e := range finds {
				if len(acc.a) == 0 && acc.op == "call" && acc.n == e.res.n || acc.op == "call" && acc.s == e.name && acc.n == e.res.n {
					f = e
				}
			}
			switch {
			case f == nil:
				bad = "the account of the posting becomes " + path(acc)
			case path(f.args[0]) != path(jt)+".Root":
				bad = "the account is looked for below " + path(f.args[0])
			case !isSplit(f.args[1], path(po)+".AccountPath"):
				bad = "the account is found by " + path(f.args[1])
			}
		}
		r.check(bad == "", "account", con, pos, "%s", bad)
		if bad != "" {
			continue
		}
		if finds != nil {
			for _, e := range finds {
				if acc.op != "call" || acc.n != e.res.n {
					r.bad("account", con, pos, "another account is created on the way")
				}
			}
		}
		ps, ts := fieldAt(o.st, acc, "Postings"), fieldAt(o.st, acc, "Transactions")
		r.check(ps != nil && ps.op == "append" && len(ps.a) == 2 && path(ps.a[0]) == path(acc)+".Postings" && ps.a[1] == po, "listed", con+" posting", pos, "the postings of the account become %v", path(ps))
		r.check(ts != nil && ts.op == "append" && len(ts.a) == 2 && path(ts.a[0]) == path(acc)+".Transactions" && path(ts.a[1]) == path(po)+".Transaction", "listed", con+" transaction", pos, "the transactions of the account become %v", path(ts))
		lists := map[string]int{}
		allEvents(o.st.ev, func(e *Event, it *Iter) {
			if e.kind == "store" && e.args[0].op == "faddr" && named(e.args[0].a[0].typ) == accountPtr {
				n := e.args[0].s
				if n == "Postings" || n == "Transactions" {
					lists[n]++
					if path(e.args[0].a[0]) != path(acc) {
						r.bad("listed", con, P.ipos(e.in), "the posting is listed on another account")
					}
				}
			}
		})
		// ---- the amount
		times, badAdd := 0, ""
		direct, odd := added(o.st.ev, path(acc), from)
		loops := 0
		for _, L := range loopsIn(o.st.ev) {
			if w := climbLoop(o, L, path(acc), func(ev []*Event, cur *Term) (int, bool) {
				n, odd := added(ev, path(cur), from)
				return n, odd != ""
			}); w == "" {
				loops++
			} else if writesTotals(L) {
				badAdd = w
			}
		}
		if loops > 0 {
			times += loops
		} else if odd != "" || direct != 0 {
			badAdd = "the amount is added to single accounts only"
			if odd != "" {
				badAdd = odd
			}
		}
		for _, e := range o.st.ev {
			if e.kind != "call" || !isClimber[e.fn] {
				continue
			}
			var who, fn *Term
			for i, p := range e.fn.Params {
				if named(p.Type()) == accountPtr {
					who = e.args[i]
				} else {
					fn = e.args[i]
				}
			}
			outs, in, ps := P.runClosure(fn, at(e, o), Opts{})
			if in == nil || in.over {
				badAdd = "what is done to the accounts cannot be told"
				continue
			}
			n := -1
			for _, c := range outs {
				if c.panic || c.exit || len(c.rets) > 0 && !succeeds(c) {
					continue
				}
				k, odd := added(c.st.ev, path(ps[0]), func(t *Term) bool { return from(t) })
				if odd != "" {
					badAdd = odd
				}
				for _, t := range c.st.f.list {
					if k == 0 && t.op == "eq0" && from(t.a[0]) {
						k = 1 // nothing to add
					}
				}
				if n >= 0 && n != k {
					badAdd = "the amount is added to some accounts only"
				}
				n = k
			}
			if n > 0 {
				times += n
				if path(who) != path(acc) {
					badAdd = "the amount is added to " + path(who) + " and those above it"
				}
			}
		}
		if badAdd == "" && times != 1 && !(zero && times == 0) {
			badAdd = "the amount is not added exactly once"
			if times == 0 {
				badAdd = "the amount is not added"
			}
		}
		r.check(badAdd == "", "added", con, pos, "%s", badAdd)
	}
	// ---- other writers
	allowed := P.reaches(add)
	for f := range P.budgetFns() {
		allowed[f] = true
	}
	inFinder := P.reaches(finder)
	for _, w := range totalWriters(P) {
		f := w.Parent()
		root := f
		for root.Parent() != nil {
			root = root.Parent()
		}
		if inFinder[f] || !allowed[f] && !allowed[root] {
			r.bad("writers", fname(f), P.ipos(w), "the total of an account is changed outside of adding a posting")
			continue
		}
		r.ok("writers", fname(f))
	}
}

func writesTotals(L *LoopSum) bool {
	for _, it := range L.iters {
		for _, e := range it.ev {
			if e.kind == "store" && quantityOf(e.args[0]) != "" {
				return true
			}
		}
	}
	return false
}

// isSplit: the components of the path at that place.
func isSplit(t *Term, of string) bool {
	return t.op == "pure" && t.s == "strings.Split" && len(t.a) == 2 && path(t.a[0]) == of && t.a[1].op == "str" && t.a[1].s == ":"
}

// budgetFns: the functions that keep the budget.
func (P *Prog) budgetFns() map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for _, f := range P.Funcs {
		if f.Signature.Recv() != nil && strings.HasPrefix(strings.TrimPrefix(named(f.Signature.Recv().Type()), "*"), "journal.Budget") {
			for g := range P.reaches(f) {
				m[g] = true
			}
		}
	}
	return m
}

// totalWriters lists the instructions that write to the amount of an account.
func totalWriters(P *Prog) []ssa.Instruction {
	m := P.mutatesParam()
	var l []ssa.Instruction
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || named(fa.X.Type()) != accountPtr || fieldName(fa) != "Amount" {
					continue
				}
				for _, u := range *fa.Referrers() {
					switch x := u.(type) {
					case *ssa.Store:
						if x.Addr == ssa.Value(fa) {
							l = append(l, x)
						}
					case *ssa.FieldAddr:
						if fieldName(x) != "Quantity" {
							continue
						}
						for _, w := range *x.Referrers() {
							if s, ok := w.(*ssa.Store); ok && s.Addr == ssa.Value(x) {
								l = append(l, s)
							}
						}
					case ssa.CallInstruction:
						for i, a := range x.Common().Args {
							if g := x.Common().StaticCallee(); g != nil && a == ssa.Value(fa) && m[g][i] {
								l = append(l, x)
							}
						}
					}
				}
			}
		}
	}
	return l
}
