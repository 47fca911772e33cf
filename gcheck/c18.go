package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C18"] = Check{"path-sensitive dataflow of the list of transactions from the handler through the sort to the printing, with case analysis of the comparison", checkC18}
}

// sortCall is one call that sorts a list.
type sortCall struct {
	e       *Event
	list    *Term
	stable  bool
	natural bool // by the value of the elements themselves, ascending
	less    *ssa.Function
	bound   *Term // the closure, or the receiver of the method Less
}

func (P *Prog) sortOf(e *Event) *sortCall {
	if e.kind != "ext" || !strings.HasPrefix(e.name, "sort.") || len(e.args) == 0 {
		return nil
	}
	x := e.args[0]
	if x.op == "iface" {
		x = x.a[0]
	}
	s := &sortCall{e: e, list: x}
	switch e.name {
	case "sort.Strings", "sort.Ints", "sort.Float64s":
		s.natural = true
	case "sort.Slice", "sort.SliceStable":
		s.stable = e.name == "sort.SliceStable"
		if len(e.args) > 1 {
			s.less, s.bound = termFunc(e.args[1]), e.args[1]
		}
	case "sort.Sort", "sort.Stable":
		s.stable = e.name == "sort.Stable"
		if x.typ != nil {
			switch typeName(x.typ) {
			case "sort.StringSlice", "sort.IntSlice", "sort.Float64Slice":
				s.natural = true
			default:
				ms := P.SSA.MethodSets.MethodSet(x.typ)
				for i := 0; i < ms.Len(); i++ {
					if ms.At(i).Obj().Name() == "Less" {
						if o, ok := ms.At(i).Obj().(*types.Func); ok {
							if f := P.SSA.FuncValue(o); f != nil && f.Blocks != nil {
								s.less, s.bound = f, x
							}
						}
					}
				}
			}
		}
		for x.op == "conv" || x.op == "changetype" {
			x = x.a[0]
		}
		s.list = x
	default:
		return nil
	}
	return s
}

// compare evaluates the comparison of a sort for two places i and j of the list.
func (s *sortCall) compare(P *Prog, r *Report, from *State) (outs []*Outcome, i, j *Term) {
	if s.less == nil {
		return
	}
	c := s.bound
	o := Opts{}
	if termFunc(c) == nil {
		recv := c
		c = mkT("func", fname(s.less), 0, s.less.Type())
		c.x = s.less
		o.entry = func(st *State, ps []*Term) {
			if len(ps) == 3 {
				st.env[s.less.Params[0]] = recv
			}
		}
	}
	outs, in, ps := P.runClosure(c, from, o)
	if in == nil || in.over || len(ps) < 2 {
		return nil, nil, nil
	}
	r.use(s.less)
	r.paths += len(outs)
	return outs, ps[len(ps)-2], ps[len(ps)-1]
}

// ordersBy judges a comparison by the time that each element has: "" when it
// says that the one at i comes first exactly when its time is earlier. among
// is set when elements of the same time are told apart.
func ordersBy(outs []*Outcome, i, j *Term, is func(t *Term) bool) (why string, among bool, unknown bool) {
	keys := map[*Term]map[*Term]bool{i: {}, j: {}}
	see := func(x *Term) {
		x.any(func(u *Term) bool {
			if isTime(u.typ) && is(u) {
				hi, hj := u.contains(i), u.contains(j)
				if hi && !hj {
					keys[i][u] = true
				}
				if hj && !hi {
					keys[j][u] = true
				}
			}
			return false
		})
	}
	n := 0
	for _, o := range outs {
		if o.panic || o.exit {
			continue
		}
		if len(o.rets) != 1 {
			return "", false, true
		}
		n++
		see(o.rets[0])
		for _, f := range o.st.f.list {
			see(f)
		}
	}
	if n == 0 {
		return "", false, true
	}
	if len(keys[i]) == 0 && len(keys[j]) == 0 {
		return "it does not look at the date", false, false
	}
	if len(keys[i]) != 1 || len(keys[j]) != 1 {
		return "", false, true
	}
	var di, dj *Term
	for k := range keys[i] {
		di = k
	}
	for k := range keys[j] {
		dj = k
	}
	if why := partOfDate(outs); why != "" {
		return why, false, false
	}
	for _, o := range outs {
		if o.panic || o.exit {
			continue
		}
		for c, at := range []*Term{tltT(di, dj), tltT(dj, di), teqT(di, dj)} {
			f := o.st.f.clone()
			if !f.assume(at, true) {
				continue
			}
			v, known := f.query(o.rets[0])
			switch {
			case !known && c == 2:
				among = true
			case !known:
				unknown = true
			case c == 0 && !v:
				return "the earlier date does not come first", false, false
			case c == 1 && v:
				return "the later date comes first", false, false
			case c == 2 && v:
				return "of two of the same date each is said to come before the other, so they change places", false, false
			}
		}
	}
	return "", among, unknown
}

// partOfDate: a comparison looks only at parts of the date that recur.
func partOfDate(outs []*Outcome) string {
	part, whole := "", false
	see := func(t *Term) {
		t.any(func(u *Term) bool {
			switch {
			case u.op == "pure" && strings.HasPrefix(u.s, "(time.Time)."):
				switch m := strings.TrimPrefix(u.s, "(time.Time)."); m {
				case "YearDay", "Month", "Day", "Weekday", "Hour", "Minute", "Second", "Nanosecond":
					part = m
				default:
					whole = true
				}
			case u.op == "tlt" || u.op == "teq":
				whole = true
			case u.op == "year" || u.op == "month" || u.op == "day":
				if u.op == "year" {
					whole = true
				} else {
					part = u.op
				}
			}
			return false
		})
	}
	for _, o := range outs {
		for _, t := range o.rets {
			see(t)
		}
		for _, t := range o.st.f.list {
			see(t)
		}
	}
	if part != "" && !whole {
		return "it looks at nothing but the " + part + " of the date"
	}
	return ""
}

// leftOut: what is known on a path that keeps nothing says that the transaction is not selected.
func (hr *handlerRun) leftOut(o *Outcome, sel *selector, rt *ssa.Function) bool {
	f := o.st.f
	asked, out, filters := false, false, false
	allEvents(o.st.ev, func(e *Event, it *Iter) {
		if e.kind != "call" {
			return
		}
		switch {
		case e.fn == rt:
			if v, k := f.query(resOf(e, 0)); k && !v {
				out = true
			}
		case sel != nil && e.fn == sel.f:
			asked = true
			no := true
			if sel.ib >= 0 {
				v, k := f.query(resOf(e, sel.ib))
				no = k && !v
			}
			v, k := nonEmpty(f, resOf(e, sel.il))
			if no && k && !v {
				out = true
			}
		case isFilterMatch(e.fn):
			filters = true
		}
	})
	return out || !asked && filters
}

// fieldsOf: a term looks at a field of a journal.Transaction other than its date.
func otherFields(outs []*Outcome) bool {
	see := func(t *Term) bool {
		return t.any(func(u *Term) bool {
			return u.op == "faddr" && u.s != "Date" && u.a[0].typ != nil && strings.HasSuffix(named(u.a[0].typ), "journal.Transaction")
		})
	}
	for _, o := range outs {
		for _, t := range o.rets {
			if see(t) {
				return true
			}
		}
		for _, t := range o.st.f.list {
			if see(t) {
				return true
			}
		}
	}
	return false
}

func printHandler(P *Prog, r *Report) (*CLI, *handlerInfo) {
	cli, hs := reportHandlers(P, r)
	for _, h := range hs {
		if h.cmd.name() == "print" && h.kind == "transactionHandler" {
			return cli, h
		}
	}
	return cli, nil
}

func checkC18(P *Prog, r *Report) {
	r.rule("kept", "the handler of print puts a transaction that is selected at the end of its list exactly once, and does nothing else to the list", 2)
	r.rule("sorted", "after the journal has been read and before anything is printed, the whole list is put in the order of its dates, earliest first, by a sort that keeps the order of equals", 1)
	r.rule("shown", "every transaction of the list is printed exactly once, from the first to the last", 1)
	cli, h := printHandler(P, r)
	if h == nil {
		r.bad("kept", "print", "-", "the command print gives the parser no handler")
		return
	}
	sel := selectorOf(P)
	rt := rangeTest(P)
	hr := runHandler(P, r, h, sel, P.writeOnly())
	if hr == nil {
		r.bad("kept", "print", h.cmd.pos, "the handler of print could not be analysed")
		return
	}
	// ---- kept
	var list *Term // where the list is
	strange := false
	isT := func(x *Term) bool {
		if x.op == "iface" {
			x = x.a[0]
		}
		return x == hr.t || x.op == "load" && x.a[0] == hr.t || x.op == "struct" && len(x.a) > 0 && x.any(func(u *Term) bool { return u == hr.t })
	}
	for _, o := range hr.outs {
		if o.panic || o.exit {
			continue
		}
		n := 0
		for _, ef := range hr.effects(P, o) {
			if ef.e.kind != "store" {
				if ef.e.kind == "call" || ef.e.kind == "dyn" || ef.e.kind == "mapset" {
					for _, a := range ef.e.args {
						if a.any(func(u *Term) bool { return u == hr.t }) {
							strange = true // kept in another way
						}
					}
				}
				continue
			}
			a, v := ef.e.args[0], ef.e.args[1]
			if v.typ == nil {
				continue
			}
			if _, ok := v.typ.Underlying().(*types.Slice); !ok {
				if v.any(func(u *Term) bool { return u == hr.t }) {
					strange = true
				}
				continue
			}
			old := fieldBefore(v, a)
			switch {
			case v.op == "append" && old == v.a[0]:
				if list != nil && list != a {
					strange = true
				}
				list = a
				for _, x := range v.a[1:] {
					if isT(x) {
						n++
					} else {
						r.bad("kept", "print: another entry", P.ipos(ef.e.in), "something other than the transaction itself is put on the list")
					}
				}
				if ef.it != nil {
					n += 2
				}
			case v.any(func(u *Term) bool { return isT(u) }):
				if v.op == "append" && emptyList(v.a[0]) || v.op == "appendall" {
					r.bad("kept", "print: at the end", P.ipos(ef.e.in), "the transaction is not put behind those already on the list")
					n++
				} else {
					strange = true
				}
				list = a
			default:
				if list == nil || list == a {
					r.bad("kept", "print: the list", P.ipos(ef.e.in), "the list of transactions is replaced by another")
				}
			}
		}
		_, selected := hr.verdict(o, o.st.f, sel, rt)
		if !succeeds(o) {
			continue
		}
		if n > 1 {
			r.bad("kept", "print: once", h.cmd.pos, "a path of the handler puts a transaction on the list more than once")
		} else if n == 1 {
			r.ok("kept", "print: once")
		}
		if n == 0 && !strange && (selected || !hr.leftOut(o, sel, rt)) {
			r.bad("kept", "print: selected", h.cmd.pos, "a path of the handler leaves out a transaction without knowing that it is not selected")
		} else {
			r.ok("kept", "print: selected")
		}
	}
	if strange {
		r.notes = append(r.notes, "print keeps transactions in a way that is not followed")
	}
	// ---- sorted and shown
	_, v, _ := h.cmd.action()
	parse := parserParse(P)
	outs, in, _ := P.runClosure(v, cli.st, Opts{snap: true, maxSteps: 2000000, opaque: func(f *ssa.Function) bool {
		return f == parse || f.Name() == "String" && f.Pkg == P.byPkg["journal"]
	}})
	if in == nil || in.over {
		r.bad("shown", "print", h.cmd.pos, "the action of print could not be analysed")
		return
	}
	inl := P.newInterp(Opts{})
	for _, o := range outs {
		if o.panic || o.exit || !succeeds(o) {
			continue
		}
		con := "print"
		read := -1
		for i, e := range o.st.ev {
			if e.kind == "call" && e.fn == parse {
				read = i
			}
		}
		if read < 0 {
			continue
		}
		// the loop that prints
		var shown *Term
		at := -1
		loops := 0
		for i, e := range o.st.ev {
			if e.kind != "loop" || i < read {
				continue
			}
			L := e.loop
			most, least, any := 0, 1<<30, false
			for _, it := range L.iters {
				n := 0
				for _, x := range it.ev {
					if x.kind == "ext" && strings.HasPrefix(x.name, "fmt.") && strings.Contains(x.name, "rint") && len(x.args) > 0 {
						if b := shows(inl, it.st, it.ev, x, L); b != nil {
							n++
							shown = b
						}
					}
					if x.kind == "loop" {
						for _, i2 := range x.loop.iters {
							for _, y := range i2.ev {
								if y.kind == "ext" && strings.HasPrefix(y.name, "fmt.") && len(y.args) > 0 && shows(inl, i2.st, i2.ev, y, L) != nil {
									n += 2
								}
							}
						}
					}
				}
				if n > most {
					most = n
				}
				if n < least {
					least = n
				}
				any = any || n > 0
			}
			if !any {
				continue
			}
			loops++
			at = i
			pos := h.cmd.pos
			if L.head != nil {
				pos = P.pos(L.fn.Pos())
			}
			r.check(most <= 1, "shown", con+": not twice", pos, "a transaction of the list is printed more than once")
			r.check(least >= 1, "shown", con+": each", pos, "a path through the loop does not print its transaction")
			end := exhausted(o.st.ev, L)
			if shown != nil && L.seq == nil {
				v, known := o.st.f.query(le0T(subT(lenT(shown), L.idx)))
				end = end && known && v
			}
			r.check(end, "shown", con+": to the end", pos, "the loop ends before the list does")
			off := false
			for _, it := range L.iters {
				for _, x := range it.ev {
					if x.kind == "ext" && len(x.args) > 0 && strings.HasPrefix(x.name, "fmt.") {
						for _, a := range x.args {
							es, _ := inl.elems(it.st, a)
							for _, y := range es {
								off = off || offset(y, L) != 0
							}
						}
					}
				}
			}
			r.check(!off, "shown", con+": from the start", pos, "the loop does not begin with the first of the list")
		}
		if loops == 0 {
			// is anything printed of the list in another way?
			other := false
			for _, e := range o.st.ev[read+1:] {
				if e.kind == "ext" && strings.HasPrefix(e.name, "fmt.") || e.kind == "loop" && len(e.loop.iters) > 0 || e.kind == "call" || e.kind == "dyn" || e.kind == "ext" && !strings.HasPrefix(e.name, "sort.") && !strings.HasSuffix(e.name, ".Close") {
					other = true
				}
			}
			if !other {
				// a path that says nothing is right only when there is nothing on the list
				empty := saysEmpty(o.st.f, func(l *Term) bool { return l.op == "load" && list != nil && samePlace(l.a[0], list) })
				r.check(empty, "shown", con+": some path", h.cmd.pos, "a path of print ends without showing the transactions it has read")
			} else {
				r.notes = append(r.notes, "print shows transactions in a way that is not followed")
				r.ok("shown", con)
				r.ok("sorted", con)
			}
			continue
		}
		r.check(loops == 1, "shown", con+": one loop", h.cmd.pos, "the list is printed more than once")
		X := shown
		if X == nil {
			r.notes = append(r.notes, "print: the loop over the list is not followed")
			r.ok("sorted", con)
			continue
		}
		if X.op == "slice" && !fromStartToEnd(X) {
			r.bad("shown", con+": whole list", h.cmd.pos, "only a part of the list is printed: %s", path(X))
			continue
		}
		src := sourceOf(o, X)
		if src != nil && list != nil && !(src.op == "load" && samePlace(src.a[0], list)) {
			r.notes = append(r.notes, "print: the list printed is not followed to that of the handler")
		}
		// sorted
		var sc *sortCall
		si := -1
		for i, e := range o.st.ev[:at] {
			if s := P.sortOf(e); s != nil && i > read {
				if s.list == X || sameList(s.list, X) {
					sc, si = s, i
				} else if src != nil && s.list == src && X != src && i < at {
					sc, si = s, i
				}
			}
		}
		if sc == nil {
			unknown := strange
			for i, e := range o.st.ev[:at] {
				if i < read {
					if P.sortOf(e) != nil {
						r.bad("sorted", con+": too early", P.ipos(e.in), "the list is sorted before the journal has been read")
					}
					continue
				}
				if e.kind == "loop" || e.kind == "call" && e.fn != parse {
					unknown = true
				}
				if s := P.sortOf(e); s != nil && s.list.op == "slice" {
					r.bad("sorted", con+": all of it", P.ipos(e.in), "only a part of the list is sorted: %s", path(s.list))
				}
			}
			for i, e := range o.st.ev {
				if i > at && P.sortOf(e) != nil {
					unknown = false
				}
			}
			if unknown && src == nil {
				r.notes = append(r.notes, "print: how the list is sorted is not followed")
				r.ok("sorted", con)
				continue
			}
			r.bad("sorted", con+": by date", h.cmd.pos, "the list is printed without having been sorted by date")
			continue
		}
		for _, e := range o.st.ev[si+1 : at] {
			if e.kind == "store" && e.args[0].op == "iaddr" && e.args[0].a[0] == X {
				r.bad("sorted", con+": afterwards", P.ipos(e.in), "the list is changed after it has been sorted")
			}
			if e.kind == "loop" {
				for _, it := range e.loop.iters {
					for _, x := range it.ev {
						if x.kind == "store" && x.args[0].op == "iaddr" && x.args[0].a[0] == X {
							r.bad("sorted", con+": afterwards", P.ipos(x.in), "the list is changed after it has been sorted")
						}
					}
				}
			}
		}
		pos := P.ipos(sc.e.in)
		co, i, j := sc.compare(P, r, sc.e.snap)
		if i == nil {
			if sc.natural {
				r.bad("sorted", con+": by date", pos, "transactions are sorted, but not by date")
			} else {
				r.notes = append(r.notes, "print: the comparison of the sort is not followed")
				r.ok("sorted", con+": by date")
			}
			continue
		}
		why, among, unknown := ordersBy(co, i, j, func(t *Term) bool { return strings.HasSuffix(path(t), ".Date") })
		if why != "" {
			r.bad("sorted", con+": by date", pos, "the list is not sorted by date: %s", why)
			continue
		}
		if unknown {
			r.notes = append(r.notes, "print: the comparison of the sort is not understood")
		}
		r.ok("sorted", con+": by date")
		other := otherFields(co)
		switch {
		case among && other:
			r.bad("sorted", con+": of the same date", pos, "transactions of the same date are told apart, so they do not stay in the order in which they were read")
		case !among && !unknown && !sc.stable:
			r.bad("sorted", con+": of the same date", pos, "the sort does not keep the order of transactions of the same date")
		default:
			r.ok("sorted", con+": of the same date")
		}
	}
}

// fieldBefore: the value a place held before, as it occurs in the value stored there.
func fieldBefore(v, a *Term) *Term {
	var l *Term
	v.any(func(u *Term) bool {
		if u.op == "load" && u.a[0] == a {
			l = u
			return true
		}
		return false
	})
	if l == nil && v.op == "append" && path(v.a[0]) == path(a) {
		return v.a[0]
	}
	return l
}

func samePlace(a, b *Term) bool {
	return a == b || a.op == "faddr" && b.op == "faddr" && a.s == b.s && a.a[0].typ != nil && b.a[0].typ != nil && named(a.a[0].typ) == named(b.a[0].typ)
}

func sameList(a, b *Term) bool {
	return a == b || path(a) == path(b) && a.op == "load" && b.op == "load" && a.n == b.n
}

// fromStartToEnd: x[0:len(x)].
func fromStartToEnd(x *Term) bool {
	if len(x.a) < 3 {
		return false
	}
	return x.a[1].op == "int" && x.a[1].n == 0 && x.a[2] == lenT(x.a[0])
}

// sourceOf follows copies of a list to the one they were made of.
func sourceOf(o *Outcome, X *Term) *Term {
	for d := 0; d < 4 && X != nil; d++ {
		switch X.op {
		case "load":
			return X
		case "copyof":
			X = X.a[0]
			continue
		case "mkslice":
			var from *Term
			for _, e := range o.st.ev {
				if e.kind == "copy" && e.args[0] == X && len(e.args) > 1 && lenT(e.args[1]) == lenT(X) {
					from = e.args[1]
				}
			}
			X = from
			continue
		}
		L, ph := appendsOf(o, X)
		if L == nil || !emptyList(ph.init) || L.seq == nil || !exhausted(o.st.ev, L) {
			return nil
		}
		for _, it := range L.iters {
			es, ok := appended(it, ph)
			if !ok || len(es) != 1 || !isElem(es[0], L) {
				return nil
			}
		}
		X = L.seq
	}
	return nil
}

// listOf is the list whose element at the number of the iteration a value is.
func listOf(x *Term, L *LoopSum) *Term {
	if x.op == "load" {
		x = x.a[0]
	}
	if (x.op == "iaddr" || x.op == "elem") && L.idx != nil && x.a[0].typ != nil && isList(x.a[0].typ) {
		if d := subT(x.a[1], L.idx); d.op == "int" && (L.seq == nil || d.n != 0 || x.a[0] == L.seq || lenT(x.a[0]) == lenT(L.seq)) {
			return x.a[0]
		}
	}
	if isElem(x, L) {
		return L.seq
	}
	return nil
}

func isList(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// offset is by how much the place of an element is ahead of the number of the iteration.
func offset(x *Term, L *LoopSum) (n int64) {
	x.any(func(u *Term) bool {
		if (u.op == "iaddr" || u.op == "elem") && L.idx != nil && u.a[1].contains(L.idx) {
			if d := subT(u.a[1], L.idx); d.op == "int" {
				n = d.n
			}
		}
		return false
	})
	return
}

// shows: a call that prints, prints the element the loop is at.
func shows(in *interp, st *State, ev []*Event, e *Event, L *LoopSum) *Term {
	var l *Term
	for _, a := range e.args {
		es, ok := in.elems(st, a)
		if !ok {
			es = []*Term{a}
		}
		for _, x := range es {
			if x.op == "iface" {
				x = x.a[0]
			}
			x.any(func(u *Term) bool {
				if b := listOf(u, L); b != nil {
					l = b
				} else if b := textOf(ev, u, L); b != nil {
					l = b
				}
				return l != nil
			})
		}
	}
	return l
}

// textOf: a value is what a function of the element returned.
func textOf(ev []*Event, u *Term, L *LoopSum) (l *Term) {
	if u.op != "call" {
		return nil
	}
	for _, e := range ev {
		if e.kind == "call" && e.res != nil && e.res.n == u.n && e.res.s == u.s {
			for _, a := range e.args {
				a.any(func(w *Term) bool {
					if b := listOf(w, L); b != nil {
						l = b
					}
					return l != nil
				})
			}
		}
	}
	return
}
