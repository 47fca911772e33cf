package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C04"] = Check{"path-sensitive dataflow with loop summaries over SSA (what Close sums, stores and rejects), ordering of Close before delivery, and a mutation/alias scan of posting amounts", checkC04}
}

// loopsIn lists the loops entered on a path, nested ones included.
func loopsIn(ev []*Event) []*LoopSum {
	var l []*LoopSum
	allEvents(ev, func(e *Event, it *Iter) {
		if e.kind == "loop" {
			l = append(l, e.loop)
		}
	})
	return l
}

// exhausted: the path left the loop because there was nothing left to do.
func exhausted(ev []*Event, L *LoopSum) bool {
	done := false
	allEvents(ev, func(e *Event, it *Iter) {
		if e.kind == "loopexit" && e.loop == L && !e.broke {
			done = true
		}
	})
	return done
}

// sumOf explains the term S as a sum over a sequence: for each completed iteration the amount added.
func sumOf(o *Outcome, S *Term) (L *LoopSum, adds []*Term, its []*Iter) {
	for _, l := range loopsIn(o.st.ev) {
		for _, p := range l.phis {
			if p.sym != S || p.init == nil || p.init.op != "int" || p.init.n != 0 {
				continue
			}
			for _, it := range l.iters {
				adds = append(adds, subT(it.phis[p.name], S))
				its = append(its, it)
			}
			return l, adds, its
		}
	}
	return nil, nil, nil
}

// fieldAt reads a field of an object at the end of a path.
func fieldAt(st *State, obj *Term, name string) *Term {
	if obj == nil {
		return nil
	}
	if obj.op == "struct" {
		s := structOf(obj.typ)
		for i := 0; s != nil && i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return fieldT(obj, s, i)
			}
		}
		return nil
	}
	if obj.typ == nil {
		return nil
	}
	s := structOf(obj.typ)
	if s == nil {
		return nil
	}
	in := theProg.newInterp(Opts{})
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			if _, ok := obj.typ.Underlying().(*types.Pointer); !ok {
				return fieldT(obj, s, i)
			}
			return in.load(st, faddrT(obj, s, i), s.Field(i).Type())
		}
	}
	return nil
}

func isField(a *Term, typ, name string) bool {
	return a.op == "faddr" && a.s == name && a.a[0].typ != nil && strings.HasSuffix(strings.TrimPrefix(a.a[0].typ.String(), "*"), typ)
}

func checkC04(P *Prog, r *Report) {
	r.rule("close-sum", "Close adds the quantity of every posting that has an amount, once, and of no other", 1)
	r.rule("close-accept", "Close succeeds only when the sum is zero and no amount is missing, or by giving the posting without an amount exactly the negated sum", 2)
	r.rule("close-reject", "Close fails only when no amount is missing and the sum is not zero", 1)
	r.rule("close-before-delivery", "a report receives a transaction only after Close has accepted that very transaction on the same path", 2)
	r.rule("amounts-stay", "outside of the parser and Close nothing changes a posting's amount, and no account, envelope or total shares it", 1)
	closeF := P.fn("journal", "Transaction.Close")
	if closeF == nil {
		r.bad("close-accept", "(*journal.Transaction).Close", "-", "transactions are not closed")
		return
	}
	pos := P.pos(closeF.Pos())
	outs := r.exec(closeF, Opts{})
	if outs == nil {
		r.bad("close-accept", fname(closeF), pos, "the paths of Close cannot be enumerated")
	}
	recv := closeF.Params[0]
	for _, o := range outs {
		if o.panic || o.exit {
			continue
		}
		tr := paramT(recv, 0)
		// the total: a loop value summing quantities
		var total *Term
		var totalL *LoopSum
		for _, L := range loopsIn(o.st.ev) {
			for _, p := range L.phis {
				if p.sym.typ == nil && p.addr == nil || p.init == nil || p.init.op != "int" {
					continue
				}
				l, adds, its := sumOf(o, p.sym)
				if l == nil || len(adds) == 0 {
					continue
				}
				uses := false
				for _, a := range adds {
					if strings.HasSuffix(path(a), ".Quantity") {
						uses = true
					}
				}
				if !uses {
					continue
				}
				total, totalL = p.sym, l
				bad := ""
				n := 0
				for i, a := range adds {
					it := its[i]
					elem := elemOf(it, l)
					switch {
					case a.op == "int" && a.n == 0:
						// skipping is right only for a posting without an amount
						if !knowsNilAmount(it, elem, true) {
							bad = "a posting is left out of the sum although it has an amount"
						}
					case strings.HasSuffix(path(a), "[i].Amount.Quantity") || strings.HasSuffix(path(a), ".Amount.Quantity") && elem != nil && a.contains(elem):
						n++
						if elem == nil || !a.contains(elem) {
							bad = "the quantity added is not that of the posting visited"
						}
					default:
						bad = "a posting adds " + a.String() + " to the sum"
					}
				}
				if l.seq == nil || path(l.seq) != "p0.Postings" {
					bad = "the sum does not run over the postings of the transaction"
				} else if !exhausted(o.st.ev, l) {
					bad = "the sum stops before the last posting"
				} else if n == 0 {
					bad = "no posting is added"
				}
				r.check(bad == "", "close-sum", fname(closeF), pos, "%s", bad)
			}
		}
		_ = totalL
		ret := o.rets[len(o.rets)-1]
		v, known := isNil(o.st.f, ret)
		// the amount given to a posting on this path
		var given *Term
		var givenTo *Term
		nset := 0
		allEvents(o.st.ev, func(e *Event, it *Iter) {
			if e.kind == "store" && isField(e.args[0], "journal.Posting", "Amount") {
				given, givenTo = e.args[1], e.args[0].a[0]
				nset++
			}
		})
		elided := fieldAt(o.st, tr, "postingWithElidedAmount")
		if elided == nil {
			elided = givenTo
		}
		var none, some bool
		if elided != nil {
			nv, nk := isNil(o.st.f, elided)
			none, some = nk && nv, nk && !nv
		}
		if !known {
			r.bad("close-accept", fname(closeF), pos, "whether Close fails is not decided on a path")
			continue
		}
		zero := false
		nonzero := false
		if total != nil {
			zv, zk := o.st.f.query(eq0T(total))
			zero, nonzero = zk && zv, zk && !zv
		}
		if !v {
			if elided == nil {
				r.check(nonzero, "close-reject", fname(closeF), pos, "a path fails although the sum may be zero")
			} else {
				r.check(none && nonzero, "close-reject", fname(closeF), pos, "a path fails although the transaction balances or the missing amount can be inferred")
			}
			continue
		}
		switch {
		case given != nil:
			q := fieldAt(o.st, given, "Quantity")
			// the posting that lacks one: the recorded one, or one found without an amount
			ok := givenTo == elided || lacksAmount(o, givenTo)
			if total == nil || q == nil || q != scaleT(total, -1, total.typ) {
				r.bad("close-accept", fname(closeF)+" inferred", pos, "the inferred amount is %v, not the negated sum of the others", q)
			} else {
				r.check(ok && nset == 1, "close-accept", fname(closeF)+" inferred", pos, "the amount is given to a posting other than the one without")
			}
		case some:
			r.bad("close-accept", fname(closeF)+" missing", pos, "a path accepts a transaction and leaves its posting without an amount as it is")
		default:
			r.check(zero && (none || elided == nil), "close-accept", fname(closeF)+" balanced", pos, "a path accepts a transaction whose sum is not known to be zero or whose missing amount is not given")
		}
	}
	deliveries(P, r, "close-before-delivery", false)
	amountsStay(P, r)
}

// elemOf is the element a completed iteration visits.
func elemOf(it *Iter, L *LoopSum) *Term {
	if L.seq == nil {
		return nil
	}
	var e *Term
	see := func(t *Term) {
		t.any(func(u *Term) bool {
			if u.op == "load" && u.a[0].op == "iaddr" && u.a[0].a[0] == L.seq && u.a[0].a[1].contains(L.idx) {
				e = u
			}
			return false
		})
	}
	for _, f := range it.facts {
		see(f)
	}
	for _, v := range it.phis {
		see(v)
	}
	for _, ev := range it.ev {
		for _, a := range ev.args {
			see(a)
		}
	}
	return e
}

func knowsNilAmount(it *Iter, elem *Term, want bool) bool {
	if elem == nil {
		return false
	}
	a := fieldAt(it.st, elem, "Amount")
	if a == nil {
		return false
	}
	v, known := isNil(it.st.f, a)
	return known && v == want
}

// lacksAmount: the posting is one a loop found without an amount.
func lacksAmount(o *Outcome, p *Term) bool {
	for _, L := range loopsIn(o.st.ev) {
		for _, ph := range L.phis {
			if ph.sym != p {
				continue
			}
			for _, it := range L.iters {
				v := it.phis[ph.name]
				if v == ph.sym {
					continue
				}
				if a := fieldAt(it.st, v, "Amount"); a != nil {
					if nv, nk := isNil(it.st.f, a); nk && nv {
						continue
					}
				}
				return false
			}
			return true
		}
	}
	return false
}

// handlerCall: a call of one of the parser's handlers; which field it came from.
func handlerCall(e *Event) string {
	if e.kind != "dyn" || e.target == nil {
		return ""
	}
	p := path(e.target)
	for _, h := range []string{"transactionHandler", "periodicTransactionHandler"} {
		if strings.HasSuffix(p, "."+h) {
			return h
		}
	}
	// by type
	if e.target.typ != nil {
		if s, ok := e.target.typ.Underlying().(*types.Signature); ok && s.Params().Len() == 2 {
			switch named(s.Params().At(0).Type()) {
			case "*journal.Transaction":
				return "transactionHandler"
			case "*journal.PeriodicTransaction":
				return "periodicTransactionHandler"
			}
		}
	}
	return ""
}

// transactionIn is the transaction an argument of a handler holds.
func transactionIn(h string, a *Term) *Term {
	if h == "periodicTransactionHandler" {
		if s := structOf(a.typ); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == "Transaction" {
					return faddrT(a, s, i)
				}
			}
		}
	}
	return a
}

// enders are the functions of the parser package that call a handler directly or through helpers,
// taken at the outermost point that is not given the open transaction.
func enders(P *Prog) []*ssa.Function {
	if f := P.fn("parser", "transactionBuilder.endTransaction"); f != nil {
		return []*ssa.Function{f}
	}
	var l []*ssa.Function
	for _, f := range P.Funcs {
		if f.Pkg != P.byPkg["parser"] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == nil && !c.Common().IsInvoke() {
					s := c.Common().Signature()
					if s.Params().Len() == 2 && (named(s.Params().At(0).Type()) == "*journal.Transaction" || named(s.Params().At(0).Type()) == "*journal.PeriodicTransaction") {
						l = append(l, f)
					}
				}
			}
		}
	}
	return l
}

// deliveries checks every call of a handler in the parser.
func deliveries(P *Prog, r *Report, rule string, once bool) {
	closeF := P.fn("journal", "Transaction.Close")
	add := P.fn("journal", "Transaction.AddPosting")
	seen := map[ssa.Instruction]bool{}
	for _, f := range enders(P) {
		outs := r.exec(f, Opts{opaque: opaqueFns(closeF, add)})
		if outs == nil {
			r.bad(rule, fname(f), P.pos(f.Pos()), "its paths cannot be enumerated")
			continue
		}
		for _, o := range outs {
			var l []*Event
			allEvents(o.st.ev, func(e *Event, it *Iter) { l = append(l, e) })
			for i, e := range l {
				h := handlerCall(e)
				if h == "" || len(e.args) < 1 {
					continue
				}
				seen[e.in] = true
				tr := transactionIn(h, e.args[0])
				closed := false
				added := false
				for _, c := range l[:i] {
					if c.fn == closeF && c.args[0] == tr {
						for _, x := range errResults(c) {
							if v, known := isNil(o.st.f, x); known && v {
								closed, added = true, false
							}
						}
					}
					if c.fn == add && c.args[0] == tr && closed {
						added = true
					}
				}
				what := "the transaction has not been closed"
				if added {
					what = "a posting is added after the transaction was closed"
				}
				r.check(closed && !added, rule, h+" in "+fname(f), P.ipos(e.in), "a handler is called although %s on that path", what)
			}
		}
	}
	// no other place calls a handler
	for _, f := range P.Funcs {
		if f.Pkg != P.byPkg["parser"] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().IsInvoke() || c.Common().StaticCallee() != nil || seen[in] {
					continue
				}
				s := c.Common().Signature()
				if s.Params().Len() == 2 && (named(s.Params().At(0).Type()) == "*journal.Transaction" || named(s.Params().At(0).Type()) == "*journal.PeriodicTransaction") {
					r.bad(rule, "handler in "+fname(f), P.ipos(in), "a handler is called outside of the code that closes transactions")
				}
			}
		}
	}
}

// mutatesParam: the function writes through that parameter.
func (P *Prog) mutatesParam() map[*ssa.Function]map[int]bool {
	m := map[*ssa.Function]map[int]bool{}
	for changed := true; changed; {
		changed = false
		for _, f := range P.Funcs {
			for i, p := range f.Params {
				if m[f][i] {
					continue
				}
				if _, ok := p.Type().Underlying().(*types.Pointer); !ok {
					continue
				}
				if why := writesThrough(P, p, m, nil); why != nil {
					if m[f] == nil {
						m[f] = map[int]bool{}
					}
					m[f][i] = true
					changed = true
				}
			}
		}
	}
	return m
}

// writesThrough finds an instruction that writes to what v points to (leak gets the places it is stored in).
func writesThrough(P *Prog, v ssa.Value, m map[*ssa.Function]map[int]bool, leak *[]ssa.Instruction) ssa.Instruction {
	seen := map[ssa.Value]bool{}
	var found ssa.Instruction
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil || found != nil {
			return
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.FieldAddr:
				for _, w := range *x.Referrers() {
					if st, ok := w.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
						found = w
					}
					if c, ok := w.(ssa.CallInstruction); ok {
						for i, a := range c.Common().Args {
							if g := c.Common().StaticCallee(); g != nil && a == ssa.Value(x) && m[g][i] {
								found = w
							}
						}
					}
				}
			case *ssa.Store:
				if x.Addr == v {
					found = x
				} else if x.Val == v {
					if a, ok := x.Addr.(*ssa.Alloc); ok && !a.Heap || ok && localCell(a) {
						for _, w := range *a.Referrers() {
							if l, ok := w.(*ssa.UnOp); ok {
								walk(l)
							}
						}
					} else if leak != nil {
						*leak = append(*leak, x)
					}
				}
			case *ssa.MapUpdate:
				if leak != nil && x.Value == v {
					*leak = append(*leak, x)
				}
			case *ssa.Phi:
				walk(x)
			case *ssa.ChangeType:
				walk(x)
			case ssa.CallInstruction:
				c := x.Common()
				if g := c.StaticCallee(); g != nil {
					for i, a := range c.Args {
						if a == v && m[g][i] {
							found = u
						}
					}
				}
			}
		}
	}
	walk(v)
	return found
}

// localCell: an allocation that only holds a captured variable.
func localCell(a *ssa.Alloc) bool {
	_, isStruct := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	return !isStruct
}

func amountsStay(P *Prog, r *Report) {
	parseF := P.fn("parser", "Parser.Parse")
	reading := P.reaches(parseF)
	if f := P.fn("parser", "Parser.parseItem"); f != nil {
		for g := range P.reaches(f) {
			reading[g] = true
		}
	}
	m := P.mutatesParam()
	n := 0
	for _, f := range P.Funcs {
		if reading[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || named(fa.X.Type()) != "*journal.Posting" || fieldName(fa) != "Amount" {
					continue
				}
				n++
				for _, u := range *fa.Referrers() {
					if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
						if a, fresh := fa.X.(*ssa.Alloc); fresh && a.Heap {
							continue // a posting being made
						}
						r.bad("amounts-stay", fname(f), P.ipos(st), "the amount of a posting is replaced after it was read")
					}
					if l, ok := u.(*ssa.UnOp); ok {
						var leaks []ssa.Instruction
						if w := writesThrough(P, l, m, &leaks); w != nil {
							r.bad("amounts-stay", fname(f), P.ipos(w), "the amount of a posting is changed after it was read")
						}
						for _, w := range leaks {
							r.bad("amounts-stay", fname(f), P.ipos(w), "the amount of a posting is shared with something that may add to it")
						}
					}
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		r.ok("amounts-stay", "uses of Posting.Amount")
	}
}
