package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// adder is the method that adds a posting to a transaction.
func adder(P *Prog) *ssa.Function {
	return P.byRole("journal", "Transaction.AddPosting", func(f *ssa.Function) bool {
		return len(f.Params) == 2 && named(f.Params[0].Type()) == "*journal.Transaction" && named(f.Params[1].Type()) == "*journal.Posting"
	})
}

// ender is the method that ends the open transaction.
func ender(P *Prog) *ssa.Function {
	l := enders(P)
	if len(l) == 0 {
		return nil
	}
	return l[0]
}

// textFact: one of the facts says that something ending in suffix is (or is not) the text s.
func textFact(list []*Term, suffix, s string, pol bool) bool {
	for _, f := range list {
		p := true
		if f.op == "not" {
			p, f = false, f.a[0]
		}
		if f.op != "eq" || p != pol {
			continue
		}
		for i := 0; i < 2; i++ {
			if f.a[i].op == "str" && f.a[i].s == s && strings.HasSuffix(path(f.a[1-i]), suffix) {
				return true
			}
		}
	}
	return false
}

func emptyText(t *Term) bool { return t != nil && t.op == "str" && t.s == "" }

func entryState(f *Facts) *State {
	return &State{heap: map[*Term]*Term{}, ver: map[string]int64{}, f: f, esc: map[*Term]bool{}}
}

// succeeds: the path may return nil.
func succeeds(o *Outcome) bool {
	if o.panic || o.exit || len(o.rets) == 0 {
		return false
	}
	v, known := isNil(o.st.f, o.rets[len(o.rets)-1])
	return !known || v
}

func checkC05(P *Prog, r *Report) {
	r.rule("add", "adding a posting appends exactly it behind those already there, or fails and leaves the list alone; a posting without an amount is added only when there is none yet, and remembered", 2)
	r.rule("account", "an account adds the posting before it, if one was begun, exactly once to its own transaction and begins a new one", 2)
	r.rule("items", "no other item adds a posting or replaces the one being read", 6)
	r.rule("end", "ending a transaction adds the last posting exactly once, before the transaction is closed, and leaves nothing behind for the next", 2)
	r.rule("source", "the only posting made up is the source of a budget entry that names none, one per entry", 1)
	r.rule("owner", "the list of postings is written only by adding to it and by making a transaction; nothing reorders, filters or overwrites it in place", 3)
	add := adder(P)
	m := buildOf(P, r)
	end := ender(P)
	if add == nil || m == nil || end == nil {
		r.bad("add", "(*journal.Transaction).AddPosting", "-", "postings are not added to transactions through one method")
		return
	}
	// ---- adding
	pos := P.pos(add.Pos())
	tr := paramT(add.Params[0], 0)
	po := paramT(add.Params[1], 1)
	for _, o := range r.exec(add, Opts{}) {
		if o.panic || o.exit {
			continue
		}
		s0 := entryState(o.st.f)
		old := fieldAt(s0, tr, "Postings")
		am := fieldAt(s0, po, "Amount")
		now := fieldAt(o.st, tr, "Postings")
		oldE := fieldAt(s0, tr, "postingWithElidedAmount")
		nowE := fieldAt(o.st, tr, "postingWithElidedAmount")
		appended := now != nil && now.op == "append" && len(now.a) == 2 && now.a[0] == old && now.a[1] == po
		if !succeeds(o) {
			r.check(now == old, "add", fname(add)+" refused", pos, "a refused posting is recorded all the same")
			if oldE != nil {
				nv, nk := isNil(o.st.f, am)
				ev, ek := isNil(o.st.f, oldE)
				r.check(nk && nv && ek && !ev, "add", fname(add)+" refused wrongly", pos, "a posting is refused although it has an amount or is the first without")
			}
			continue
		}
		r.check(appended, "add", fname(add)+" accepted", pos, "the list of postings becomes %v", now)
		nv, nk := isNil(o.st.f, am)
		switch {
		case oldE == nil: // found by another means
		case nk && !nv:
			r.check(nowE == oldE, "add", fname(add)+" with an amount", pos, "a posting that has an amount replaces the one without")
		case nk && nv:
			ev, ek := isNil(o.st.f, oldE)
			r.check(ek && ev, "add", fname(add)+" second without an amount", pos, "a second posting without an amount is accepted")
			r.check(nowE == po, "add", fname(add)+" without an amount", pos, "the posting without an amount is not remembered")
		default:
			r.bad("add", fname(add), pos, "a posting is accepted without looking for its amount")
		}
	}
	// ---- items
	for i := range m.paths {
		p := &m.paths[i]
		if !p.ok || !p.inside {
			continue
		}
		switch p.item {
		case "emptyLineItem", "includeItem", "eofItem":
			continue
		}
		if p.item == "periodItem" && !p.periodic || p.item == "dateItem" && p.periodic {
			continue
		}
		s0 := entryState(p.f)
		cur := m.b.get(s0, m.base, m.b.posting)
		after := m.b.get(p.o.st, m.base, m.b.posting)
		var adds []*Event
		looped := false
		allEvents(p.o.st.ev, func(e *Event, it *Iter) {
			if e.fn == add {
				adds = append(adds, e)
				if it != nil {
					looped = true
				}
			}
		})
		bpos := P.pos(m.f.Pos())
		if p.item != "accountItem" {
			r.check(len(adds) == 0 && after == cur, "items", p.con(), bpos, "it adds or replaces a posting")
			continue
		}
		empty, known := p.f.query(eq0T(lenT(fieldAt(s0, cur, "AccountPath"))))
		bad := ""
		switch {
		case len(adds) == 0:
			if !known || !empty {
				bad = "the posting before it may be lost"
			} else if after != cur && !isFresh(after) {
				bad = "the current posting becomes " + path(after)
			}
		case len(adds) > 1 || looped:
			bad = "the posting before it is added more than once"
		default:
			e := adds[0]
			okErr := false
			for _, x := range errResults(e) {
				if v, k := isNil(p.o.st.f, x); k && v {
					okErr = true
				}
			}
			switch {
			case known && empty:
				bad = "a posting without an account is added"
			case !m.isTran(e.args[0], p.periodic):
				bad = "the posting is added to another transaction"
			case e.args[1] != cur:
				bad = "what is added is not the posting before it"
			case !okErr:
				bad = "the posting may have been refused"
			case !isFresh(after) || after == cur:
				bad = "no new posting is begun"
			case !(fieldAt(p.o.st, after, "Amount") != nil && fieldAt(p.o.st, after, "Amount").op == "nil"):
				bad = "the new posting does not start without an amount"
			}
		}
		r.check(bad == "", "account", p.con(), bpos, "%s", bad)
	}
	// ---- the end
	closeF := P.fn("journal", "Transaction.Close")
	base := m.b.base(P, end)
	root := "_budget_root_"
	if sp := P.byPkg["journal"]; sp != nil {
		if c, ok := sp.Pkg.Scope().Lookup("BudgetRootID").(*types.Const); ok {
			root = strings.Trim(c.Val().ExactString(), "\"")
		}
	}
	pnone, _ := P.constOf("journal", "PNone")
	epos := P.pos(end.Pos())
	if base == nil {
		r.bad("end", fname(end), epos, "it does not work on the transaction builder")
		return
	}
	for _, o := range r.exec(end, Opts{opaque: opaqueFns(closeF, add), snap: true}) {
		if !succeeds(o) {
			continue
		}
		s0 := entryState(o.st.f)
		per, open := openKind(P, m.b, base, s0)
		if !open {
			n := 0
			allEvents(o.st.ev, func(e *Event, it *Iter) {
				if e.fn == add {
					n++
				}
			})
			r.check(n == 0, "end", fname(end)+" nothing open", epos, "a posting is added although no transaction is open")
			continue
		}
		con := fname(end)
		if per {
			con += " (periodic)"
		}
		cur := m.b.get(s0, base, m.b.posting)
		none := false
		if v, k := isNil(o.st.f, cur); k && v {
			none = true
		} else if v, k := o.st.f.query(eq0T(lenT(fieldAt(s0, cur, "AccountPath")))); k && v {
			none = true
		}
		nCur, nSrc, closed, late := 0, 0, false, false
		bad := ""
		allEvents(o.st.ev, func(e *Event, it *Iter) {
			if e.fn == closeF {
				closed = true
			}
			if e.fn != add {
				return
			}
			if closed {
				late = true
			}
			if !isOpenTran(m.b, base, e.args[0], per) {
				bad = "a posting is added to another transaction"
			}
			switch {
			case e.args[1] == cur:
				nCur++
				if it != nil {
					nCur++
				}
			case isFresh(e.args[1]):
				nSrc++
				if it != nil {
					nSrc++
				}
				ac := fieldAt(e.snap, e.args[1], "AccountPath")
				tx := fieldAt(e.snap, e.args[1], "Transaction")
				am := fieldAt(e.snap, e.args[1], "Amount")
				if ac == nil || ac.op != "str" || ac.s != root || am == nil || am.op != "nil" {
					r.bad("source", con, P.ipos(e.in), "a posting nobody wrote is added to %v", ac)
				} else if tx != e.args[0] {
					r.bad("source", con, P.ipos(e.in), "the implied source is not linked to its transaction")
				}
			default:
				bad = "an unknown posting is added: " + path(e.args[1])
			}
		})
		switch {
		case bad != "":
		case late:
			bad = "a posting is added after the transaction was closed"
		case none && nCur != 0:
			bad = "a posting without an account is added"
		case !none && nCur == 0:
			bad = "the last posting may be lost"
		case nCur > 1:
			bad = "the last posting is added more than once"
		}
		r.check(bad == "", "end", con, epos, "%s", bad)
		after := m.b.get(o.st, base, m.b.posting)
		r.check(after.op == "nil", "end", con+" afterwards", epos, "the last posting stays behind for the next transaction")
		// the implied source
		present, absent := textFact(o.st.f.list, ".AccountPath", root, true), false
		for _, L := range loopsIn(o.st.ev) {
			all := len(L.iters) > 0 || exhausted(o.st.ev, L)
			for _, it := range L.iters {
				if !textFact(it.facts, ".AccountPath", root, false) {
					all = false
				}
			}
			if all && exhausted(o.st.ev, L) && L.seq != nil && strings.HasSuffix(path(L.seq), ".Postings") {
				absent = true
			}
			for _, by := range L.set {
				for _, it := range by {
					if textFact(it.facts, ".AccountPath", root, true) {
						present = true
					}
				}
			}
		}
		iv := intervalOf(m.b, base, s0)
		isNone, nk := o.st.f.query(eq0T(addN(iv, -pnone)))
		switch {
		case nSrc > 1:
			r.bad("source", con, epos, "the implied source is added more than once")
		case nSrc == 1:
			r.check(per && nk && isNone && absent && !present, "source", con+" added", epos, "a source is made up although the entry is not a budget entry that names none")
		case per:
			r.check(nk && !isNone || present, "source", con+" not added", epos, "a budget entry that names no source gets none")
		}
	}
	ownPostings(P, r, add)
}

func intervalOf(b *builderParts, base *Term, s0 *State) *Term {
	pt := b.get(s0, base, b.periodic)
	pe := structOf(pt.typ)
	for i := 0; pe != nil && i < pe.NumFields(); i++ {
		if named(pe.Field(i).Type()) == "journal.Period" {
			a := faddrT(pt, pe, i)
			return fieldAt(s0, a, "Interval")
		}
	}
	return nil
}

// openKind: which kind of transaction a path of the ender found open.
func openKind(P *Prog, b *builderParts, base *Term, s0 *State) (periodic, open bool) {
	peri, _ := P.constOf("parser", "periodicTransaction")
	kind := b.get(s0, base, b.kind)
	v, known := s0.f.query(eq0T(addN(kind, -peri)))
	periodic = known && v
	f := b.get(s0, base, b.tran)
	if periodic {
		f = b.get(s0, base, b.periodic)
	}
	nv, nk := isNil(s0.f, f)
	open = !(nk && nv)
	// neither kind: nothing is open
	normal, _ := P.constOf("parser", "normalTransaction")
	if a, ak := s0.f.query(eq0T(addN(kind, -normal))); ak && !a && known && !v {
		open = false
	}
	return
}

// isOpenTran: the address of the transaction that was open at the start.
func isOpenTran(b *builderParts, base, t *Term, periodic bool) bool {
	if periodic {
		return t.op == "faddr" && named(t.a[0].typ) == "*journal.PeriodicTransaction" && rootLoad(t.a[0], base, b.st.Field(b.periodic).Name())
	}
	return rootLoad(t, base, b.st.Field(b.tran).Name())
}

// fieldFlow finds every value of the program that may share the contents of a struct field.
func (P *Prog) fieldFlow(typ, field string) map[ssa.Value]bool {
	m := map[ssa.Value]bool{}
	var work []ssa.Value
	put := func(v ssa.Value) {
		if v != nil && !m[v] {
			m[v] = true
			work = append(work, v)
		}
	}
	isF := func(t types.Type, i int) bool {
		s := structOf(t)
		return s != nil && strings.TrimPrefix(named(t), "*") == typ && s.Field(i).Name() == field
	}
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					if isF(x.X.Type(), x.Field) {
						for _, u := range *x.Referrers() {
							if l, ok := u.(*ssa.UnOp); ok {
								put(l)
							}
						}
					}
				case *ssa.Field:
					if isF(x.X.Type(), x.Field) {
						put(x)
					}
				}
			}
		}
	}
	callers := map[*ssa.Function][]ssa.CallInstruction{}
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						callers[g] = append(callers[g], c)
					}
				}
			}
		}
	}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		if v.Referrers() == nil {
			continue
		}
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.Phi:
				put(x)
			case *ssa.Slice:
				put(x)
			case *ssa.ChangeType:
				put(x)
			case *ssa.MakeInterface:
				put(x)
			case *ssa.Store:
				if x.Val == v {
					if a, ok := x.Addr.(*ssa.Alloc); ok {
						for _, w := range *a.Referrers() {
							if l, ok := w.(*ssa.UnOp); ok {
								put(l)
							}
							if mc, ok := w.(*ssa.MakeClosure); ok {
								for i, bd := range mc.Bindings {
									if bd == ssa.Value(a) {
										fv := mc.Fn.(*ssa.Function).FreeVars[i]
										for _, y := range *fv.Referrers() {
											if l, ok := y.(*ssa.UnOp); ok {
												put(l)
											}
										}
									}
								}
							}
						}
					}
				}
			case *ssa.Return:
				f := x.Parent()
				for i, rv := range x.Results {
					if rv != v {
						continue
					}
					for _, c := range callers[f] {
						val, ok := c.(ssa.Value)
						if !ok {
							continue
						}
						if len(x.Results) == 1 {
							put(val)
							continue
						}
						for _, w := range *val.Referrers() {
							if e, ok := w.(*ssa.Extract); ok && e.Index == i {
								put(e)
							}
						}
					}
				}
			case ssa.CallInstruction:
				c := x.Common()
				if g := c.StaticCallee(); g != nil && P.inRepo(g) {
					for i, a := range c.Args {
						if a == v && i < len(g.Params) {
							put(g.Params[i])
						}
					}
				}
			}
		}
	}
	return m
}

// ownPostings: nothing but adding changes the postings of a transaction.
func ownPostings(P *Prog, r *Report, add *ssa.Function) {
	flow := P.fieldFlow("journal.Transaction", "Postings")
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					if named(x.X.Type()) != "*journal.Transaction" || fieldName(x) != "Postings" {
						continue
					}
					bad := false
					for _, u := range *x.Referrers() {
						switch y := u.(type) {
						case *ssa.Store:
							if y.Addr != ssa.Value(x) {
								continue
							}
							if f == add {
								continue
							}
							if _, fresh := rootAlloc(x.X); fresh && !flow[y.Val] {
								continue
							}
							bad = true
							r.bad("owner", fname(f), P.ipos(y), "the list of postings is replaced")
						case *ssa.UnOp, *ssa.DebugRef:
						default:
							bad = true
							r.bad("owner", fname(f), P.ipos(u), "the list of postings is handed out to be written to")
						}
					}
					if !bad {
						r.ok("owner", fname(f)+" uses Transaction.Postings")
					}
				case *ssa.IndexAddr:
					if !flow[x.X] {
						continue
					}
					for _, u := range *x.Referrers() {
						if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
							r.bad("owner", fname(f), P.ipos(st), "a posting of the list is overwritten")
						}
					}
				case ssa.CallInstruction:
					c := x.Common()
					if bi, ok := c.Value.(*ssa.Builtin); ok {
						if bi.Name() == "append" && len(c.Args) > 0 && flow[c.Args[0]] && f != add {
							if s, ok := c.Args[0].(*ssa.Slice); ok && flow[s.X] && !full(s) {
								r.bad("owner", fname(f), P.ipos(in), "the list of postings is filtered in place")
							} else {
								r.bad("owner", fname(f), P.ipos(in), "a list that shares the postings of the transaction grows")
							}
						}
						if bi.Name() == "copy" && len(c.Args) > 0 && flow[c.Args[0]] {
							r.bad("owner", fname(f), P.ipos(in), "the list of postings is overwritten")
						}
						continue
					}
					if g := c.StaticCallee(); g != nil && !P.inRepo(g) && g.Pkg != nil {
						switch g.Pkg.Pkg.Path() {
						case "sort", "slices":
							for _, a := range c.Args {
								if flow[a] && !strings.Contains(g.Name(), "Sorted") {
									r.bad("owner", fname(f), P.ipos(in), "the postings of a transaction are put in another order")
								}
							}
						}
					}
				}
			}
		}
	}
}

func full(s *ssa.Slice) bool { return s.High == nil && s.Low == nil }

// rootAlloc: the object is one this function makes.
func rootAlloc(v ssa.Value) (*ssa.Alloc, bool) {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.Alloc:
			return x, true
		default:
			return nil, false
		}
	}
}
