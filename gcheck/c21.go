package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C21"] = Check{"path-sensitive dataflow from the handlers of the budget command through what adding a posting changes, per kind of posting, to the rows that are printed", checkC21}
}

// heads: what the facts say about the first part of the account path at that place.
func heads(f *Facts, p string, name string) (is, not bool) {
	first := func(t *Term) bool {
		if t.op != "elem" && t.op != "iaddr" && t.op != "load" {
			return false
		}
		u := t
		if u.op == "load" {
			u = u.a[0]
		}
		if len(u.a) != 2 || u.a[1].op != "int" || u.a[1].n != 0 {
			return false
		}
		s := u.a[0]
		return s.op == "pure" && (s.s == "strings.Split" && len(s.a) == 2 || s.s == "strings.SplitN" && len(s.a) == 3 && s.a[2].op == "int" && (s.a[2].n > 1 || s.a[2].n < 0)) && path(s.a[0]) == p && s.a[1].op == "str" && s.a[1].s == ":"
	}
	for _, x := range f.list {
		pol := true
		if x.op == "not" {
			pol, x = false, x.a[0]
		}
		switch {
		case x.op == "eq" && len(x.a) == 2:
			for i := range x.a {
				c, v := x.a[i], x.a[1-i]
				if c.op != "str" {
					continue
				}
				whole := path(v) == p && v.op != "str"
				if !first(v) && !whole {
					continue
				}
				k := c.s
				if whole {
					k = strings.Split(c.s, ":")[0]
				}
				switch {
				case pol && k == name:
					is = true
				case pol && k != name:
					not = true
				case !pol && first(v) && k == name:
					not = true
				}
			}
		case x.op == "pure" && x.s == "strings.HasPrefix" && len(x.a) == 2 && path(x.a[0]) == p && x.a[1].op == "str":
			c := x.a[1].s
			i := strings.IndexByte(c, ':')
			switch {
			case pol && i >= 0 && c[:i] == name:
				is = true
			case pol && i >= 0:
				not = true
			case pol && !strings.HasPrefix(c, name) && !strings.HasPrefix(name, c):
				not = true
			case !pol && c == name+":":
				not = true
			case !pol && strings.HasPrefix(name, c):
				not = true
			}
		}
	}
	return
}

// mentionsHead: the path asks about the account in a way heads may not understand.
func mentionsHead(f *Facts, p string) bool {
	for _, x := range f.list {
		if x.any(func(u *Term) bool { return path(u) == p && u.op == "load" || u.op == "call" }) {
			return true
		}
	}
	return false
}

func checkC21(P *Prog, r *Report) {
	r.rule("given", "every budget entry, every expense and every income posting is added to the budget once, as what it is, and nothing else is", 3)
	r.rule("month", "what is added counts for the month of its date", 3)
	r.rule("added", "a budget entry raises its envelope and those above it, an expense lowers its category and those above it, income raises the funds", 3)
	r.rule("both", "a category that has an envelope or expenses has both", 2)
	r.rule("rows", "each category of each month is shown with its budget, its activity and their sum, under their headings", 4)
	r.rule("funds", "the funds of each month are shown", 1)
	cli, hs := reportHandlers(P, r)
	if cli == nil {
		r.bad("given", "budget", "-", "the command budget is not found")
		return
	}
	r.whole(P, "rows", cli, "budget")
	sel := selectorOf(P)
	wo := P.writeOnly()
	type use struct {
		e    *Event
		kind string
	}
	var uses []use
	seen := map[ssa.Instruction]map[string]bool{}
	counted := map[string]bool{}
	for _, h := range hs {
		if h.cmd.name() != "budget" {
			continue
		}
		hr := runHandler(P, r, h, sel, wo)
		if hr == nil {
			r.notes = append(r.notes, "a handler of the budget is not followed")
			r.ok("given", h.kind)
			continue
		}
		con := "budget " + h.kind
		pos := "-"
		if f := termFunc(h.fn); f != nil {
			pos = P.pos(f.Pos())
		}
		isAdd := func(e *Event) bool {
			return e.kind == "call" && e.fn != nil && P.takesPosting(e.fn) && postingArg(e) != nil
		}
		for _, o := range hr.outs {
			allEvents(o.st.ev, func(e *Event, it *Iter) {
				if !isAdd(e) {
					return
				}
				f := prefixFacts(o, e, it)
				kind := "envelope"
				if h.kind == "transactionHandler" {
					kind = ""
					p := path(fieldAt(at(e, o), postingArg(e), "AccountPath"))
					for _, k := range []string{"Expenses", "Income"} {
						if is, _ := heads(f, p, k); is {
							kind = k
						}
					}
				}
				if seen[e.in] == nil {
					seen[e.in] = map[string]bool{}
				}
				if !seen[e.in][kind] {
					seen[e.in][kind] = true
					uses = append(uses, use{e, kind})
				}
			})
			if !succeeds(o) {
				continue
			}
			kinds := []string{"envelope"}
			if h.kind == "transactionHandler" {
				kinds = []string{"Expenses", "Income"}
			}
			for _, k := range kinds {
				var mine []*LoopSum
				unsure := false
				kindOf := func(e *Event, it *Iter) string {
					if k == "envelope" {
						return k
					}
					f := prefixFacts(o, e, it)
					p := path(fieldAt(at(e, o), postingArg(e), "AccountPath"))
					for _, c := range []string{"Expenses", "Income"} {
						if is, _ := heads(f, p, c); is {
							return c
						}
					}
					return ""
				}
				for _, e := range o.st.ev {
					if isAdd(e) {
						unsure = true // outside of a loop
					}
				}
				for _, L := range loopsIn(o.st.ev) {
					has, inner := false, false
					for _, it := range L.iters {
						allEvents(it.ev, func(e *Event, i2 *Iter) {
							if isAdd(e) {
								kk := kindOf(e, it)
								has = has || kk == k
								unsure = unsure || kk == "" && i2 != nil
								inner = inner || i2 != nil
							}
						})
					}
					if has && !inner {
						mine = append(mine, L)
					}
				}
				if unsure && len(mine) == 0 {
					r.notes = append(r.notes, con+": how postings are given to the budget is not followed")
					r.ok("given", con)
					continue
				}
				if len(mine) == 0 {
					why := false
					allEvents(o.st.ev, func(e *Event, it *Iter) {
						if e.kind == "call" && e.fn == rangeTest(P) {
							if v, kn := o.st.f.query(resOf(e, 0)); kn && !v {
								why = true
							}
						}
						if e.kind == "call" && sel != nil && e.fn == sel.f {
							if v, kn := nonEmpty(o.st.f, resOf(e, sel.il)); kn && !v {
								why = true
							}
						}
					})
					for _, x := range o.st.f.list {
						if x.op == "not" && x.any(func(u *Term) bool { return strings.HasSuffix(path(u), ".Interval") }) {
							why = true
						}
					}
					r.check(why, "given", con+" "+k, pos, "%s do not reach the budget", map[string]string{"envelope": "budget entries", "Expenses": "expenses", "Income": "incomes"}[k])
					continue
				}
				counted[k] = true
				r.check(len(mine) == 1, "given", con+" "+k, pos, "postings are added %d times", len(mine))
				for _, L := range mine {
					r.check(exhausted(o.st.ev, L), "given", con+" "+k+" all", pos, "not all postings are added")
					for _, it := range L.iters {
						n, other := 0, false
						var el *Term
						for _, e := range it.ev {
							if isAdd(e) {
								switch kindOf(e, it) {
								case k:
									n++
									el = postingArg(e)
								case "":
									other = true
								}
							}
						}
						if n == 1 {
							r.check(isElem(el, L) || aboutElem(el, L), "given", con+" "+k+" each", pos, "what is added is not the posting the loop is at")
							continue
						}
						if n > 1 {
							r.bad("given", con+" "+k+" each", pos, "a posting is added %d times", n)
							continue
						}
						if other {
							continue
						}
						not := false
						for _, x := range it.st.f.list {
							x.any(func(u *Term) bool {
								if u.op == "load" && u.a[0].op == "faddr" && u.a[0].s == "AccountPath" {
									if _, nt := heads(it.st.f, path(u), k); nt {
										not = true
									}
								}
								return false
							})
						}
						if k == "envelope" || !not {
							r.bad("given", con+" "+k+" none left out", pos, "a posting is left out of the budget")
						} else {
							r.ok("given", con+" "+k)
						}
					}
				}
			}
		}
	}
	for _, k := range []string{"envelope", "Expenses", "Income"} {
		if !counted[k] {
			anyKind := false
			for _, u := range uses {
				anyKind = anyKind || u.kind == ""
			}
			if anyKind {
				r.notes = append(r.notes, "what kind of posting is added is decided elsewhere")
				r.ok("given", "budget")
			} else if len(hs) > 0 {
				r.bad("given", "budget "+k, "-", "no %s is ever added to the budget", k)
			}
		}
	}
	done := map[string]bool{}
	for _, u := range uses {
		id := fname(u.e.fn) + u.kind
		for i, a := range u.e.args {
			if i > 0 && a.isConst() {
				id += a.String()
			}
		}
		if !done[id] {
			done[id] = true
			budgeted(P, r, u.e, u.kind)
		}
	}
	budgetReport(P, r, cli)
}

func aboutElem(t *Term, L *LoopSum) bool {
	return t != nil && t.any(func(u *Term) bool { return isElem(u, L) })
}

func postingArg(e *Event) *Term {
	for i, p := range e.fn.Params {
		if named(p.Type()) == "*journal.Posting" && i < len(e.args) {
			return e.args[i]
		}
	}
	return nil
}

// change: the total of an account, or of it and those above, changes by a multiple of the amount.
type change struct {
	acc   *Term
	path  string
	climb bool
	coef  int64
}

// signed: by how much of the amount the total of that account changes along the events.
func signed(ev []*Event, acc string, from func(*Term) bool) (coef int64, writes bool, why string) {
	var last *Term
	for _, e := range ev {
		if e.kind == "store" && quantityOf(e.args[0]) == acc {
			last = e.args[1]
			if last.op == "struct" {
				last = fieldOfStruct(last, "Quantity")
			}
			if last.op != "lin" && path(last) == acc+".Amount.Quantity" {
				continue // put back as it was
			}
		}
	}
	if last == nil {
		return 0, false, ""
	}
	c, co, as := linParts(last)
	own := int64(0)
	for i, a := range as {
		switch {
		case path(a) == acc+".Amount.Quantity":
			own += co[i]
		case from(a):
			coef += co[i]
		default:
			return 0, true, "a total changes by something other than the amount of the posting"
		}
	}
	if c != 0 {
		return 0, true, "a total changes by a constant"
	}
	if own != 1 && !(own == 0 && strings.HasPrefix(acc, "new#")) {
		return 0, true, "what the account held is lost"
	}
	return coef, true, ""
}

func changesOf(P *Prog, o *Outcome, cl map[*ssa.Function]bool, from func(*Term) bool) (l []change, why string) {
	accs := map[string]*Term{}
	for _, e := range o.st.ev {
		if e.kind == "store" {
			if p := quantityOf(e.args[0]); p != "" {
				a := e.args[0]
				for a.op == "faddr" && named(a.typ) != accountPtr && named(a.a[0].typ) != accountPtr {
					a = a.a[0]
				}
				if a.op == "faddr" {
					a = a.a[0]
				}
				accs[p] = a
			}
		}
	}
	var ps []string
	for p := range accs {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		c, w, y := signed(o.st.ev, p, from)
		if y != "" {
			return nil, y
		}
		if w {
			l = append(l, change{accs[p], p, false, c})
		}
	}
	for _, L := range loopsIn(o.st.ev) {
		if !writesTotals(L) {
			continue
		}
		found := false
		for _, ph := range L.phis {
			if ph.sym == nil || named(ph.sym.typ) != accountPtr || ph.init == nil {
				continue
			}
			coef := int64(0)
			w := climbLoop(o, L, path(ph.init), func(ev []*Event, cur *Term) (int, bool) {
				c, wr, y := signed(ev, path(cur), from)
				if !wr {
					return 0, false
				}
				if y == "" && c != 0 {
					coef = c
				}
				return 1, y != ""
			})
			if w != "" {
				return nil, w
			}
			found = true
			l = append(l, change{ph.init, path(ph.init), true, coef})
		}
		if !found {
			return nil, "totals change in a loop"
		}
	}
	for _, e := range o.st.ev {
		if e.kind != "call" || !cl[e.fn] {
			continue
		}
		var who, fn *Term
		for i, p := range e.fn.Params {
			if named(p.Type()) == accountPtr {
				who = e.args[i]
			} else {
				fn = e.args[i]
			}
		}
		outs, in, ps := P.runClosure(fn, at(e, o), Opts{})
		if in == nil || in.over {
			return nil, "?"
		}
		first := true
		var coef int64
		for _, c := range outs {
			if c.panic || c.exit || len(c.rets) > 0 && !succeeds(c) {
				continue
			}
			k, _, y := signed(c.st.ev, path(ps[0]), from)
			if y != "" {
				return nil, y
			}
			for _, x := range c.st.ev {
				if x.kind == "store" {
					if p := quantityOf(x.args[0]); p != "" && p != path(ps[0]) {
						return nil, "the total of another account is written on the way up"
					}
				}
			}
			if k == 0 && saysZeroOf(c.st.f, from) {
				continue
			}
			if !first && k != coef {
				return nil, "the amount is added to some accounts only"
			}
			first, coef = false, k
		}
		if coef != 0 {
			l = append(l, change{who, path(who), true, coef})
		}
	}
	return
}

func saysZeroOf(f *Facts, from func(*Term) bool) bool {
	for _, t := range f.list {
		if t.op == "eq0" && from(t.a[0]) {
			return true
		}
	}
	return false
}

// budgeted judges what adding a posting does to the budget.
func budgeted(P *Prog, r *Report, call *Event, kind string) {
	g := call.fn
	what := map[string]string{"envelope": "budget entry", "Expenses": "expense", "Income": "income", "": "posting"}[kind]
	con, pos := fname(g)+" "+what, P.pos(g.Pos())
	cl := map[*ssa.Function]bool{}
	opq := []*ssa.Function{finderOf(P)}
	for _, f := range climbers(P) {
		cl[f] = true
		opq = append(opq, f)
	}
	finder := opq[0]
	po := postingArg(call)
	if finder == nil || po == nil || call.snap == nil {
		r.notes = append(r.notes, con+": not followed")
		for _, k := range []string{"month", "added", "both"} {
			r.ok(k, con)
		}
		return
	}
	namer := func(f *ssa.Function) bool {
		return f.Signature.Recv() != nil && named(f.Signature.Recv().Type()) == accountPtr && strings.Join(resultTypes(f), ",") == "string"
	}
	isOpq := opaqueFns(opq...)
	fn := mkT("func", fname(g), 0, g.Signature)
	fn.x = g
	outs, in, _ := P.runClosure(fn, call.snap, Opts{snap: true, maxSteps: 2000000, opaque: func(f *ssa.Function) bool { return isOpq(f) || namer(f) },
		entry: func(st *State, _ []*Term) {
			for i, a := range call.args {
				if i < len(g.Params) {
					st.env[g.Params[i]] = a
				}
			}
		}})
	r.use(g)
	if in == nil || in.over {
		r.notes = append(r.notes, con+": not followed")
		for _, k := range []string{"month", "added", "both"} {
			r.ok(k, con)
		}
		return
	}
	r.paths += len(outs)
	date := path(po) + ".Transaction.Date"
	ap := path(po) + ".AccountPath"
	from := func(t *Term) bool { return path(t) == path(po)+".Amount.Quantity" }
	okPath := false
	for _, o := range outs {
		if !succeeds(o) {
			continue
		}
		okPath = true
		k := kind
		if k == "" {
			for _, c := range []string{"Expenses", "Income"} {
				if is, _ := heads(o.st.f, ap, c); is {
					k = c
				}
			}
		}
		// ---- the month
		var set *Event
		var sets []*Event
		allEvents(o.st.ev, func(e *Event, it *Iter) {
			if e.kind == "mapset" && isTime(e.args[1].typ) {
				set = e
				sets = append(sets, e)
			}
		})
		var month, key *Term
		held, heldKnown := false, false
		see := func(t *Term) {
			t.any(func(u *Term) bool {
				if (u.op == "mhas" || u.op == "maddr") && len(u.a) == 2 && u.a[1].typ != nil && isTime(u.a[1].typ) && key == nil {
					key = u.a[1]
				}
				return false
			})
		}
		for _, x := range o.st.f.list {
			pol := true
			if x.op == "not" {
				pol, x = false, x.a[0]
			}
			if x.any(func(u *Term) bool { return u.op == "mhas" && len(u.a) == 2 && u.a[1].typ != nil && isTime(u.a[1].typ) }) {
				see(x)
				held, heldKnown = pol, true
			}
		}
		for _, e := range sets {
			month = e.args[2]
			if key != nil && e.args[1] != key {
				r.bad("month", con, P.ipos(e.in), "what was found under one month is kept under another")
			}
			key = e.args[1]
		}
		if key == nil {
			r.notes = append(r.notes, con+": the month is not followed")
			r.ok("month", con)
			r.ok("added", con)
			r.ok("both", con)
			continue
		}
		switch {
		case key.op == "monthStart" && path(key.a[0]) == date:
			r.ok("month", con)
		case key.op == "pure" && key.s == "(time.Time).AddDate" && key.a[0].op == "monthStart" && !zeros(key.a[1:]):
			r.bad("month", con, pos, "a posting counts for another month than that of its date")
		case key.any(func(u *Term) bool { return path(u) == date }) && key.op != "load" && key.op != "day" && key.op != "addDays":
			r.notes = append(r.notes, con+": which dates fall into one month is not followed")
			r.ok("month", con)
		default:
			r.bad("month", con, pos, "a posting counts for %s", path(key))
		}
		if month == nil {
			r.check(heldKnown && held, "month", con+" kept", pos, "what is added to a new month is not kept")
			// it is the one that was found
			for _, x := range o.st.f.list {
				x.any(func(u *Term) bool {
					if month == nil && u.op == "load" && u.a[0].op == "maddr" && u.a[0].a[1] == key {
						month = u
					}
					return false
				})
			}
			if month == nil {
				continue
			}
		}
		own := func(name string) *Term {
			if month.typ != nil {
				if _, ptr := month.typ.Underlying().(*types.Pointer); ptr {
					return fieldAt(o.st, month, name)
				}
			}
			if structOf(month.typ) == nil {
				return nil
			}
			return fieldAt(o.st, month, name)
		}
		env, exp, inc := own("EnvelopeRoot"), own("ExpenseRoot"), own("Income")
		if env == nil || exp == nil || inc == nil {
			r.notes = append(r.notes, con+": the accounts of a month are not found")
			r.ok("added", con)
			r.ok("both", con)
			continue
		}
		if heldKnown && set != nil {
			fresh := rootOf(underOf(env)).op == "alloc" || rootOf(underOf(exp)).op == "alloc" || rootOf(underOf(inc)).op == "alloc"
			if held {
				r.check(!fresh, "month", con+" found", pos, "what the month held is lost")
			} else {
				r.check(env.op != "nil" && exp.op != "nil" && inc.op != "nil" && env != exp && env != inc && exp != inc, "month", con+" new", pos, "a new month lacks accounts, or holds one twice")
			}
		}
		// ---- what changes
		l, why := changesOf(P, o, cl, from)
		if why == "?" {
			r.notes = append(r.notes, con+": what happens on the way up is not followed")
			r.ok("added", con)
			continue
		}
		if why != "" {
			r.bad("added", con, pos, "%s", why)
			continue
		}
		// the accounts of a new month begin with nothing
		for _, a := range []*Term{env, exp, inc} {
			if a.op != "alloc" {
				continue
			}
			was := false
			for _, c := range l {
				was = was || c.path == path(a)
			}
			am := fieldAt(o.st, a, "Amount")
			if was || am == nil {
				continue
			}
			if q := fieldOfStruct(am, "Quantity"); q != nil {
				coef := int64(0)
				c, co, as := linParts(q)
				for i, x := range as {
					if from(x) {
						coef += co[i]
					}
				}
				r.check(c == 0, "added", con+" new month", pos, "a new month begins with an amount of its own")
				if coef != 0 {
					l = append(l, change{a, path(a), false, coef})
				}
			}
		}
		zero := saysZeroOf(o.st.f, from)
		find := func(t *Term) *Event {
			var f *Event
			allEvents(o.st.ev, func(e *Event, it *Iter) {
				if e.kind == "call" && e.fn == finder && e.res != nil && e.res.op == t.op && e.res.s == t.s && e.res.n == t.n {
					f = e
				}
			})
			return f
		}
		whole := func(t *Term) bool { return isSplit(t, ap) }
		tail := func(t *Term) bool {
			return t.op == "slice" && len(t.a) > 1 && isSplit(t.a[0], ap) && t.a[1].op == "int" && t.a[1].n == 1
		}
		// what is left of the name without its head, which must have been followed by more
		cut := func(t *Term) (is, more bool) {
			if t.op != "pure" || t.s != "strings.Split" || t.a[1].op != "str" || t.a[1].s != ":" {
				return
			}
			p := t.a[0]
			switch {
			case p.op == "pure" && p.s == "strings.TrimPrefix" && path(p.a[0]) == ap && p.a[1].op == "str" && p.a[1].s == "Expenses:":
			default:
				return
			}
			for x, v := range o.st.f.truth {
				if v && x.op == "pure" && (x.s == "strings.HasPrefix" && path(x.a[0]) == ap && x.a[1].op == "str" && x.a[1].s == "Expenses:" ||
					x.s == "strings.Contains" && path(x.a[0]) == ap && x.a[1].op == "str" && x.a[1].s == ":") {
					return true, true
				}
			}
			var sp *Term
			for _, x := range o.st.f.list {
				x.any(func(u *Term) bool {
					if isSplit(u, ap) {
						sp = u
					}
					return false
				})
			}
			if sp != nil {
				if v, k := o.st.f.query(le0T(addN(scaleT(lenT(sp), -1, nil), 2))); k && v {
					return true, true
				}
			}
			return true, false
		}
		same := func(a, b *Term) bool { return a == b || path(a) == path(b) }
		switch k {
		case "":
			_, n1 := heads(o.st.f, ap, "Expenses")
			_, n2 := heads(o.st.f, ap, "Income")
			if n1 && n2 {
				r.check(len(l) == 0, "added", con, pos, "a posting that is neither an expense nor an income changes the budget")
			} else {
				r.notes = append(r.notes, con+": what kind of posting it is cannot be told")
				r.ok("added", con)
			}
		case "Income":
			n := 0
			for _, c := range l {
				switch {
				case same(c.acc, inc) || c.path == path(inc):
					r.check(c.coef == -1, "added", con, pos, "income changes the funds by %d times its amount", c.coef)
					n++
				case same(c.acc, env) || c.path == path(env):
				default:
					r.bad("added", con, pos, "income changes the total of %s", c.path)
				}
			}
			r.check(n == 1 || zero && n == 0, "added", con, pos, "income does not reach the funds")
			r.ok("both", con)
		case "envelope", "Expenses":
			root, sign, name := env, int64(1), "budget"
			if k == "Expenses" {
				root, sign, name = exp, -1, "activity"
			}
			toRoot := k == "envelope" && saysRoot(o.st.f, ap)
			n := 0
			for _, c := range l {
				if c.coef == 0 {
					continue
				}
				if toRoot && (same(c.acc, env) || c.path == path(env)) {
					r.check(c.coef == 1, "added", con+" as a whole", pos, "a budget entry changes the month by %d times its amount", c.coef)
					n++
					continue
				}
				f := find(c.acc)
				switch {
				case f == nil:
					r.bad("added", con, pos, "the total of %s changes, which is not the account of the posting", c.path)
				case !same(f.args[0], root):
					r.bad("added", con, pos, "the %s of a category is counted elsewhere", name)
				case k == "envelope" && tail(f.args[1]) || k == "Expenses" && whole(f.args[1]):
					r.bad("added", con, pos, "a posting counts for the category of another name")
				case k == "Expenses" && cutBare(cut, f.args[1]):
					r.bad("added", con, pos, "an expense without a category counts for a category named like the expenses as a whole")
				case k == "Expenses" && cutMore(cut, f.args[1]):
					r.check(c.climb, "added", con, pos, "the accounts above do not change")
				case k == "envelope" && !whole(f.args[1]) || k == "Expenses" && !tail(f.args[1]):
					r.notes = append(r.notes, con+": which category it counts for is not followed")
				case !c.climb:
					r.bad("added", con, pos, "the accounts above do not change")
				}
				r.check(c.coef == sign, "added", con, pos, "the %s changes by %d times the amount of the posting", name, c.coef)
				n++
			}
			r.check(n == 1 || zero && n == 0, "added", con, pos, "the amount is counted %d times", n)
			// ---- both
			if toRoot {
				r.ok("both", con)
				break
			}
			var a, b *Event
			for _, e := range o.st.ev {
				if e.kind == "call" && e.fn == finder {
					if same(e.args[0], env) {
						a = e
					}
					if same(e.args[0], exp) {
						b = e
					}
				}
			}
			r.check(a != nil && b != nil && (a.args[1] == b.args[1]), "both", con, pos, "a category is made without its counterpart, so that the report stops at it")
		}
	}
	if !okPath {
		r.bad("added", con, pos, "it never succeeds")
	}
}

// saysRoot: the posting is known to be for the budget as a whole.
func saysRoot(f *Facts, ap string) bool {
	for _, x := range f.list {
		if x.op == "eq" && len(x.a) == 2 {
			for i := range x.a {
				if x.a[i].op == "str" && path(x.a[1-i]) == ap && strings.Contains(x.a[i].s, "root") {
					return true
				}
			}
		}
	}
	return false
}

// ofMonth: which account of a month the term is about: EnvelopeRoot, ExpenseRoot, Income, by the fields it goes through.
func ofMonth(t *Term) map[string]bool {
	m := map[string]bool{}
	t.any(func(u *Term) bool {
		if u.op == "faddr" || u.op == "field" {
			switch u.s {
			case "EnvelopeRoot", "ExpenseRoot", "Income":
				m[u.s] = true
			}
		}
		return false
	})
	return m
}

// totalBehind: the number behind a text or an amount, as a sum of totals of accounts.
func totalBehind(o *Outcome, ev []*Event, t *Term, d int) *Term {
	if t == nil || d > 6 {
		return nil
	}
	switch {
	case t.op == "struct" && strings.HasSuffix(named(t.typ), "journal.Amount"):
		return fieldOfStruct(t, "Quantity")
	case t.op == "iface" || t.op == "fmt" || t.op == "mkiface":
		return totalBehind(o, ev, t.a[0], d+1)
	case t.op == "call":
		var f *Event
		allEvents(ev, func(e *Event, it *Iter) {
			if e.res != nil && e.res.n == t.n && e.res.s == t.s {
				f = e
			}
		})
		if f == nil {
			return nil
		}
		for _, a := range f.args {
			if strings.HasSuffix(strings.TrimPrefix(named(a.typ), "*"), "journal.Amount") {
				if strings.HasPrefix(named(a.typ), "*") {
					if f.snap != nil {
						return fieldAt(f.snap, a, "Quantity")
					}
					return nil
				}
				return totalBehind(o, ev, a, d+1)
			}
		}
	}
	if strings.HasSuffix(named(t.typ), "journal.Amount") {
		if s := structOf(t.typ); s != nil {
			return fieldOfStruct(t, "Quantity")
		}
	}
	return nil
}

func budgetReport(P *Prog, r *Report, cli *CLI) {
	parse := parserParse(P)
	var cmd *Command
	for _, c := range cli.cmds {
		if c.name() == "budget" {
			cmd = c
		}
	}
	skip := func(why string) {
		r.notes = append(r.notes, why)
		for i := 0; i < 4; i++ {
			r.ok("rows", "budget")
		}
		r.ok("funds", "budget")
	}
	if cmd == nil {
		return
	}
	act, v, _ := cmd.action()
	if act == nil {
		return
	}
	names := func(f *ssa.Function) bool {
		return f.Signature.Recv() != nil && named(f.Signature.Recv().Type()) == accountPtr && strings.Join(resultTypes(f), ",") == "[]string"
	}
	outs, in, _ := P.runClosure(v, cli.st, Opts{snap: true, maxSteps: 2000000, opaque: func(f *ssa.Function) bool {
		return f == parse || amountTexter(f) || names(f)
	}})
	pos := P.pos(act.Pos())
	if in == nil || in.over {
		skip("the command budget is not followed")
		return
	}
	r.use(act)
	inl := P.newInterp(Opts{})
	isMonths := func(t *Term) bool {
		m, ok := t.typ.Underlying().(*types.Map)
		return ok && strings.HasSuffix(named(m.Elem()), "journal.BudgetMonth")
	}
	whole := 0
	for _, o := range outs {
		if !succeeds(o) {
			continue
		}
		ran := false
		for _, e := range o.st.ev {
			ran = ran || e.kind == "call" && e.fn == parse
		}
		if !ran {
			continue
		}
		// the loop over the months: it shows something
		var ML *LoopSum
		for _, L := range loopsIn(o.st.ev) {
			for _, it := range L.iters {
				for _, e := range it.ev {
					if e.kind == "ext" && strings.HasPrefix(e.name, "fmt.") {
						ML = L
					}
				}
			}
			if ML == L {
				break
			}
		}
		if ML == nil {
			// there may be none
			continue
		}
		if !exhausted(o.st.ev, ML) {
			ok := false
			for _, x := range o.st.f.list {
				if x.op == "not" && x.any(func(u *Term) bool { return u.op == "mhas" }) || x.op == "eq" && x.any(func(u *Term) bool { return u.op == "nil" }) {
					ok = ok || len(ofMonth(x)) > 0 || x.op == "not"
				}
			}
			r.check(ok, "rows", "budget: all months", pos, "the report stops before all is shown")
			continue
		}
		whole++
		// all months
		all := false
		if ML.seq != nil {
			all = ML.seq.typ != nil && isMap(ML.seq.typ) && isMonths(ML.seq)
			if L, ph := appendsOf(o, ML.seq); L != nil && ph != nil {
				all = L.seq != nil && isMap(L.seq.typ) && isMonths(L.seq) && exhausted(o.st.ev, L)
				for _, it := range L.iters {
					as, ok := appended(it, ph)
					all = all && ok && len(as) == 1 && as[0].op == "rangekey"
				}
			}
		}
		r.check(all, "rows", "budget: all months", pos, "the months that are shown are not all that there are")
		for _, it := range ML.iters {
			io := &Outcome{st: it.st}
			var CL *LoopSum
			var header []string
			funds := 0
			args := func(e *Event, st *State) (l []*Term) {
				if e.snap != nil {
					st = e.snap
				}
				for _, a := range e.args {
					es, ok := inl.elems(st, a)
					if !ok {
						es = []*Term{a}
					}
					l = append(l, es...)
				}
				return
			}
			strip := func(t *Term) *Term {
				for t.op == "iface" || t.op == "mkiface" {
					t = t.a[0]
				}
				return t
			}
			for _, e := range it.ev {
				switch {
				case e.kind == "loop":
					for _, i2 := range e.loop.iters {
						for _, x := range i2.ev {
							if x.kind == "ext" && strings.HasPrefix(x.name, "fmt.") && rowLike(args(x, i2.st)) {
								CL = e.loop
							}
						}
					}
				case e.kind == "ext" && strings.HasPrefix(e.name, "fmt."):
					as := args(e, it.st)
					txt := ""
					for _, a := range as {
						if a = strip(a); a.op == "str" {
							txt += " " + a.s
						}
						if q := totalBehind(io, it.ev, a, 0); q != nil && ofMonth(q)["Income"] {
							_, co, at := linParts(q)
							if len(at) == 1 && co[0] == 1 {
								funds++
							}
						}
					}
					if CL == nil && strings.Contains(txt, "Budgeted") && strings.Contains(txt, "Activity") {
						header = orderIn(txt, []string{"Category", "Budgeted", "Activity", "Available"})
					}
				}
			}
			r.check(funds > 0, "funds", "budget: funds", pos, "the funds of a month are not shown")
			if CL == nil {
				r.bad("rows", "budget: categories", pos, "a month is shown without its categories")
				continue
			}
			stops := false // at a category that lacks one side, which there is not
			for _, x := range it.st.f.list {
				stops = stops || len(ofMonth(x)) > 0 && (x.op == "not" && x.any(func(u *Term) bool { return u.op == "mhas" }) || x.op == "eq" && (x.a[0].op == "nil" || x.a[1].op == "nil"))
			}
			r.check(stops || exhausted(it.ev, CL), "rows", "budget: all categories", pos, "not all categories of a month are shown")
			from := CL.seq != nil && ofSeq(io, it.ev, CL.seq)["EnvelopeRoot"]
			if CL.seq != nil && !from && len(ofSeq(io, it.ev, CL.seq)) == 0 {
				r.notes = append(r.notes, "where the categories come from is not followed")
			} else {
				r.check(from, "rows", "budget: all categories", pos, "the categories that are shown are not those of the month")
			}
			for _, i2 := range CL.iters {
				rows := 0
				lacks := false
				for _, x := range i2.facts {
					lacks = lacks || x.op == "not" && x.any(func(u *Term) bool { return u.op == "mhas" })
				}
				for _, x := range i2.ev {
					if x.kind != "ext" || !strings.HasPrefix(x.name, "fmt.") {
						continue
					}
					as := args(x, i2.st)
					if !rowLike(as) {
						continue
					}
					var got []string
					for _, a := range as {
						a = strip(a)
						if q := totalBehind(io, append(append([]*Event{}, it.ev...), i2.ev...), a, 0); q != nil {
							got = append(got, column(q))
							if c := column(q); c == "Budgeted" || c == "Activity" {
								r.check(aboutElem(q, CL), "rows", "budget: its own amounts", P.ipos(x.in), "a category is shown with the amounts of another")
								r.check(aboutElem(q, ML), "rows", "budget: its own month", P.ipos(x.in), "a category is shown with the amounts of another month")
							}
							continue
						}
						if isElem(a, CL) || a.op == "rangekey" || strings.HasSuffix(path(a), ".Name") || a.op == "elem" && isString(a.typ) {
							got = append(got, "Category")
						}
					}
					if len(got) < 3 {
						continue
					}
					rows++
					want := []string{"Category", "Budgeted", "Activity", "Available"}
					if header != nil {
						want = header
					}
					r.check(strings.Join(got, ",") == strings.Join(want, ","), "rows", "budget: columns", P.ipos(x.in), "under the headings %s stand %s", strings.Join(want, ", "), strings.Join(got, ", "))
				}
				r.check(rows == 1 || lacks && rows == 0, "rows", "budget: a row each", pos, "a category is shown in %d rows", rows)
			}
		}
	}
	if whole == 0 {
		skip("no path shows all of the budget")
	}
}

func isMap(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok }

// rowLike: at least two amounts of accounts are shown together.
func rowLike(l []*Term) bool {
	n := 0
	for _, a := range l {
		for a.op == "iface" || a.op == "mkiface" {
			a = a.a[0]
		}
		if a.op == "call" || strings.HasSuffix(named(a.typ), "journal.Amount") {
			n++
		}
	}
	return n >= 2
}

func orderIn(s string, words []string) []string {
	var l []string
	for _, w := range words {
		if strings.Contains(s, w) {
			l = append(l, w)
		}
	}
	sort.SliceStable(l, func(i, j int) bool { return strings.Index(s, l[i]) < strings.Index(s, l[j]) })
	if len(l) < len(words) {
		return nil
	}
	return l
}

// column: what a sum of totals is: budget, activity, or what is available.
func column(q *Term) string {
	c, co, as := linParts(q)
	if c != 0 {
		return "something else"
	}
	env, exp := int64(0), int64(0)
	for i, a := range as {
		m := ofMonth(a)
		switch {
		case m["EnvelopeRoot"] && !m["ExpenseRoot"]:
			env += co[i]
		case m["ExpenseRoot"] && !m["EnvelopeRoot"]:
			exp += co[i]
		default:
			return "something else"
		}
	}
	switch {
	case env == 1 && exp == 0:
		return "Budgeted"
	case env == 0 && exp == 1:
		return "Activity"
	case env == 1 && exp == 1:
		return "Available"
	}
	return "something else"
}

// ofSeq: the accounts of a month a sequence of names was taken from.
func ofSeq(o *Outcome, ev []*Event, seq *Term) map[string]bool {
	m := ofMonth(seq)
	if len(m) > 0 {
		return m
	}
	allEvents(ev, func(e *Event, it *Iter) {
		if e.res != nil && seq.contains(e.res) {
			for _, a := range e.args {
				for k := range ofMonth(a) {
					m[k] = true
				}
			}
		}
		if e.kind == "loop" {
			for _, p := range e.loop.phis {
				if p.sym == seq && e.loop.seq != nil {
					for k := range ofMonth(e.loop.seq) {
						m[k] = true
					}
				}
			}
		}
	})
	return m
}

func zeros(l []*Term) bool {
	for _, t := range l {
		if t.op != "int" || t.n != 0 {
			return false
		}
	}
	return true
}

func cutBare(cut func(*Term) (bool, bool), t *Term) bool { is, more := cut(t); return is && !more }
func cutMore(cut func(*Term) (bool, bool), t *Term) bool { is, more := cut(t); return is && more }
