package main

import (
	"fmt"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C17"] = Check{"symbolic text composition over SSA: the text a transaction and a posting print, compared part by part with the reader's grammar", checkC17}
}

var (
	preAmount = regexp.MustCompile(`^( {2,}|\t)[ \t]*$`)
	preInline = regexp.MustCompile(`^[ \t]*[;#] *$`)
	preNote   = regexp.MustCompile(`^\n(\t|  )[ \t]*[;#] *$`)
	prePost   = regexp.MustCompile(`^\n(\t|  )[ \t]*$`)
	preMark   = regexp.MustCompile(`^ [ \t]*([!*]?)[ \t]*$`)
	lastly    = regexp.MustCompile(`^\n*$`)
)

func stringMethod(P *Prog, typ string) *ssa.Function {
	if f := P.fn("journal", typ+".String"); f != nil {
		return f
	}
	return nil
}

// every: all the literals that may stand before a part match.
func every(pre []string, re *regexp.Regexp) (string, bool) {
	for _, p := range pre {
		if !re.MatchString(p) {
			return p, false
		}
	}
	return "", true
}

type writer struct {
	P    *Prog
	r    *Report
	f    *ssa.Function
	end  []string // what a posting's text may leave open at its end
	self *Term
}

func fieldPath(t *Term, self string, name string) bool {
	p := path(t)
	return p == self+"."+name || p == "*"+self+"."+name
}

func checkC17(P *Prog, r *Report) {
	r.rule("parts", "the text of a transaction holds its date, state mark, payee, header note, notes and postings, each once and in that order; that of a posting its account, commodity and amount, and comments", 8)
	r.rule("date", "the date is written as year-month-day, which the reader accepts", 1)
	r.rule("mark", "the mark written for a state is the one the reader turns into that state", 3)
	r.rule("apart", "what stands between the parts is what the reader expects there", 6)
	r.rule("shown", "the command print prints that text", 1)
	tr, po := stringMethod(P, "Transaction"), stringMethod(P, "Posting")
	if tr == nil {
		r.bad("parts", "(journal.Transaction).String", "-", "a transaction has no text of its own")
		return
	}
	amountText := func(f *ssa.Function) bool {
		if f.Signature.Recv() == nil || !strings.HasSuffix(named(f.Signature.Recv().Type()), "journal.Amount") {
			return false
		}
		return strings.Join(resultTypes(f), ",") == "string"
	}
	var ends []string
	if po != nil {
		ends = postingText(P, r, po, amountText)
	} else {
		ends = []string{""}
	}
	transactionText(P, r, tr, po, ends, amountText)
	// the command prints transactions through this method
	cli, h := printHandler(P, r)
	if h == nil {
		r.notes = append(r.notes, "the command print is not found")
		r.ok("shown", "print")
		return
	}
	r.whole(P, "shown", cli, "print")
	_, v, _ := h.cmd.action()
	parse := parserParse(P)
	outs, in, _ := P.runClosure(v, cli.st, Opts{snap: true, maxSteps: 2000000, opaque: func(f *ssa.Function) bool {
		return f == parse || f.Name() == "String" && f.Pkg == P.byPkg["journal"]
	}})
	if in == nil || in.over {
		r.notes = append(r.notes, "the command print is not followed")
		r.ok("shown", "print")
		return
	}
	inl := P.newInterp(Opts{})
	some := false
	for _, o := range outs {
		allEvents(o.st.ev, func(e *Event, it *Iter) {
			if e.kind != "ext" || it == nil || !strings.HasPrefix(e.name, "fmt.") || len(e.args) == 0 {
				return
			}
			fm := ""
			for _, a := range e.args {
				if a.op == "str" {
					fm = a.s
				}
				es, ok := inl.elems(it.st, a)
				if !ok {
					continue
				}
				for _, x := range es {
					if x.op == "iface" {
						x = x.a[0]
					}
					if x.typ == nil || !strings.HasSuffix(named(x.typ), "journal.Transaction") {
						continue
					}
					some = true
					verb := true
					if strings.HasSuffix(e.name, "rintf") {
						verb = false
						for _, v := range verbsOf(fm) {
							verb = verb || v == 's' || v == 'v'
						}
						if strings.Contains(fm, "%#v") {
							verb = false
						}
					}
					ms := P.SSA.MethodSets.MethodSet(x.typ)
					has := false
					for i := 0; i < ms.Len(); i++ {
						has = has || ms.At(i).Obj().Name() == "String"
					}
					r.check(verb && has, "shown", "print", P.ipos(e.in), "the transaction is printed, but not through its String method")
				}
			}
		})
	}
	if !some {
		r.notes = append(r.notes, "print shows transactions in another way")
		r.ok("shown", "print")
	}
}

// skipped: a loop that looks at the elements after the first n only.
func skipped(t *Term, L *LoopSum) int64 {
	if t.op == "load" {
		t = t.a[0]
	}
	if t.op != "elem" && t.op != "iaddr" {
		return 0
	}
	d := subT(t.a[1], L.idx)
	if d.op == "int" {
		return d.n
	}
	return 0
}

func restOf0(t *Term) *Term {
	if t.op == "load" {
		t = t.a[0]
	}
	return t.a[0]
}

// withCommodity: what a text of an amount begins with. bare: it may be written
// without its commodity where it has one.
func withCommodity(P *Prog, out *Outcome, e *Event) (yes, known, bare bool) {
	var settled func(t *Term) bool
	settled = func(t *Term) bool {
		switch t.op {
		case "call", "ext", "dyn", "invoke", "phi", "opaque":
			return false
		}
		for _, a := range t.a {
			if !settled(a) {
				return false
			}
		}
		return true
	}
	told := true
	for i, a := range e.args {
		if i > 0 && !a.isConst() {
			told = false
			if !settled(a) {
				return false, false, false
			}
		}
	}
	o := Opts{entry: func(st *State, ps []*Term) {
		for i, a := range e.args {
			if i < len(ps) && (i > 0 && a.isConst() || !told) {
				st.env[e.fn.Params[i]] = a
			}
		}
		if !told {
			st.f = out.st.f.clone()
		}
	}}
	outs, in := P.run(e.fn, o)
	if in.over || len(outs) == 0 {
		return false, false, false
	}
	n, all := 0, 0
	for _, o := range outs {
		if o.panic || o.exit {
			continue
		}
		l, why := P.textOfOutcome(o, o.rets[0])
		if why != "" || len(l) == 0 {
			return false, false, false
		}
		all++
		if l[0].t != nil && strings.HasSuffix(path(l[0].t), ".Commodity") {
			n++
		} else if emptyKnown(o, ".Commodity") {
			n++
		} else {
			n--
		}
	}
	if !told && n != all {
		return false, true, true
	}
	return n > 0, n == all || n == -all, false
}

func amountCall(o *Outcome, its []*Iter, t *Term) *Event {
	var ev *Event
	allEvents(o.st.ev, func(e *Event, it *Iter) {
		if e.kind == "call" && e.res != nil && e.res.s == t.s && e.res.n == t.n {
			ev = e
		}
	})
	return ev
}

// postingParts judges the parts of a posting as they go by.
type postingParts struct {
	P     *Prog
	r     *Report
	o     *Outcome
	con   string
	pos   string
	stage int // 0 nothing, 1 account, 2 commodity, 3 amount
	comms bool
	after string
}

func (p *postingParts) part(pre []string, t *Term, loops []*LoopSum) bool {
	t0 := t
	t = plain(t)
	pa := path(t)
	switch {
	case strings.HasSuffix(pa, ".AccountPath"):
		p.r.check(p.stage == 0, "parts", p.con+": account", p.pos, "the account is not written first, or twice")
		p.stage = 1
		_ = t0
		return true
	case strings.HasSuffix(pa, ".Amount.Commodity"):
		p.r.check(p.stage == 1, "parts", p.con+": commodity", p.pos, "the commodity does not follow the account")
		x, ok := every(pre, preAmount)
		p.r.check(ok, "apart", p.con+": account from amount", p.pos, "between account and amount stands %q, which the reader does not take for the end of the account", x)
		p.stage = 2
		return true
	case t.op == "call":
		e := amountCall(p.o, nil, t)
		if e == nil || e.fn == nil || len(e.args) == 0 {
			return false
		}
		rc := path(e.args[0])
		if !strings.HasSuffix(named(e.fn.Signature.Recv().Type()), "journal.Amount") {
			return false
		}
		if e.args[0].op == "struct" && len(e.args[0].a) > 0 {
			rc = path(e.args[0].a[0])
		}
		p.r.check(strings.HasSuffix(rc, ".Amount") && !strings.Contains(rc, ".Account.") || strings.Contains(rc, ".Amount.") && !strings.Contains(rc, ".Account."), "parts", p.con+": its own amount", p.pos, "the amount written is not that of the posting but %s", rc)
		with, known, bare := withCommodity(p.P, p.o, e)
		if bare && p.stage == 2 {
			known = false
		} else if bare {
			p.r.bad("parts", p.con+": commodity", p.pos, "the amount is on some paths written without its commodity")
			p.stage = 3
			return true
		}
		if !known {
			p.r.notes = append(p.r.notes, p.con+": the text of an amount is not followed")
			p.stage = 3
			return true
		}
		if p.stage == 2 {
			p.r.check(!with, "parts", p.con+": commodity once", p.pos, "the commodity is written twice")
		} else {
			p.r.check(p.stage == 1, "parts", p.con+": amount", p.pos, "the amount does not follow the account")
			p.r.check(with, "parts", p.con+": commodity", p.pos, "the amount is written without its commodity")
			x, ok := every(pre, preAmount)
			p.r.check(ok, "apart", p.con+": account from amount", p.pos, "between account and amount stands %q, which the reader does not take for the end of the account", x)
		}
		p.stage = 3
		return true
	case len(loops) > 0 && loops[len(loops)-1].seq != nil && strings.HasSuffix(path(loops[len(loops)-1].seq), ".Comments") && isElem(t, loops[len(loops)-1]):
		x, ok := every(pre, preNote)
		p.r.check(ok, "apart", p.con+": comment", p.pos, "before a comment of a posting stands %q, which the reader does not take for the start of a comment line", x)
		p.r.check(p.stage == 3 || p.noAmount(), "parts", p.con+": comments last", p.pos, "comments are written before the amount")
		return true
	}
	return false
}

func (p *postingParts) noAmount() bool {
	for _, f := range p.o.st.f.list {
		if f.op == "eq" && (f.a[0].op == "nil" && strings.HasSuffix(path(f.a[1]), ".Amount") || f.a[1].op == "nil" && strings.HasSuffix(path(f.a[0]), ".Amount")) {
			return true
		}
	}
	return false
}

// eachOnce checks that a loop writes the element it is at, once on every path through it.
func eachOnce(r *Report, o *Outcome, con, what, pos string, L *LoopSum, seen [][]*Term, is func(t *Term) bool) {
	r.check(exhausted(o.st.ev, L) || !topLoop(o, L), "parts", con+": all "+what, pos, "not all %s are written", what)
	for _, s := range seen {
		n := 0
		for _, t := range s {
			if is(plain(t)) {
				n++
			}
		}
		r.check(n == 1, "parts", con+": each of its "+what, pos, "a path through the loop over the %s writes its element %d times", what, n)
	}
}

func topLoop(o *Outcome, L *LoopSum) bool {
	for _, e := range o.st.ev {
		if e.kind == "loop" && e.loop == L {
			return true
		}
	}
	return false
}

func postingText(P *Prog, r *Report, f *ssa.Function, amountText func(*ssa.Function) bool) (ends []string) {
	con, pos := fname(f), P.pos(f.Pos())
	outs := r.exec(f, Opts{opaque: amountText})
	for _, o := range outs {
		if o.panic || o.exit || len(o.rets) != 1 {
			continue
		}
		ps, why := P.textOfOutcome(o, o.rets[0])
		if why == "prepended" {
			r.bad("parts", con+": in order", pos, "the lines of a posting are written in reverse")
			continue
		}
		if why != "" {
			r.notes = append(r.notes, con+": "+why)
			ends = add1(ends, "")
			continue
		}
		pp := &postingParts{P: P, r: r, o: o, con: con, pos: pos}
		unknown := false
		comments := 0
		w := &textWalk{}
		w.visit = func(pre []string, t *Term, in []*Iter, loops []*LoopSum) {
			if pp.stage == 0 {
				x, ok := every(pre, regexp.MustCompile(`^$`))
				r.check(ok, "apart", con+": start", pos, "before the account stands %q", x)
			}
			if !pp.part(pre, t, loops) {
				unknown = true
				r.notes = append(r.notes, con+": a part that is not known: "+path(t))
			}
		}
		w.after = func(L *LoopSum, its []*Iter, seen [][]*Term) {
			if L.seq != nil && strings.HasSuffix(path(L.seq), ".Comments") {
				comments++
				eachOnce(r, o, con, "comments", pos, L, seen, func(t *Term) bool { return isElem(t, L) })
			}
		}
		var s []*Term
		end := w.run(ps, []string{""}, nil, nil, &s)
		for _, e := range end {
			ends = add1(ends, e)
		}
		if unknown {
			r.ok("parts", con)
			continue
		}
		r.check(pp.stage == 3 || pp.stage == 1 && pp.noAmount(), "parts", con+": account and amount", pos, "a posting is written without its account or its amount")
		r.check(comments == 1 || comments == 0 && emptyKnown(o, ".Comments"), "parts", con+": comments", pos, "the comments of a posting are written %d times", comments)
	}
	if len(ends) == 0 {
		ends = []string{""}
	}
	return
}

// emptyKnown: a list or text of that name is known to be empty on the path.
func emptyKnown(o *Outcome, suffix string) bool {
	return saysEmpty(o.st.f, func(l *Term) bool { return strings.HasSuffix(path(l), suffix) }) || func() bool {
		for _, f := range o.st.f.list {
			if f.op == "eq" && (f.a[0].op == "str" && f.a[0].s == "" && strings.HasSuffix(path(f.a[1]), suffix) || f.a[1].op == "str" && f.a[1].s == "" && strings.HasSuffix(path(f.a[0]), suffix)) {
				return true
			}
		}
		return false
	}()
}

func transactionText(P *Prog, r *Report, f, po *ssa.Function, ends []string, amountText func(*ssa.Function) bool) {
	con, pos := fname(f), P.pos(f.Pos())
	outs := r.exec(f, Opts{opaque: func(g *ssa.Function) bool { return amountText(g) }})
	states := map[string]int64{}
	for _, n := range []string{"NoState", "UnclearedState", "ClearedState"} {
		if v, ok := P.constOf("journal", n); ok {
			states[n] = v
		}
	}
	marks := map[string]string{"NoState": "", "UnclearedState": "!", "ClearedState": "*"}
	marked := map[string]bool{}
	for _, o := range outs {
		if o.panic || o.exit || len(o.rets) != 1 {
			continue
		}
		ps, why := P.textOfOutcome(o, o.rets[0])
		if why == "prepended" {
			r.bad("parts", con+": in order", pos, "the lines of a transaction are written in reverse")
			continue
		}
		if why != "" {
			r.notes = append(r.notes, con+": "+why)
			for n := range states {
				marked[n] = true
				r.ok("mark", con)
			}
			continue
		}
		stage := 0 // 1 date 2 payee 3 header 4 notes 5 postings
		unknown := false
		var dates []*Term
		loops := map[string]int{}
		var pp *postingParts
		w := &textWalk{}
		var mark *Term
		var fixed []string
		w.visit = func(pre []string, t *Term, in []*Iter, ls []*LoopSum) {
			t = plain(t)
			pa := path(t)
			var L *LoopSum
			name := ""
			if len(ls) > 0 {
				L = ls[len(ls)-1]
				if L.seq != nil {
					p := path(ls[0].seq)
					name = p[strings.LastIndexByte(p, '.')+1:]
				}
			}
			switch {
			case name == "Notes" && isElem(t, L):
				r.check(stage < 5, "parts", con+": notes first", pos, "notes are written after postings")
				stage = 4
				x, ok := every(pre, preNote)
				r.check(ok, "apart", con+": note", pos, "before a note stands %q, which the reader does not take for the start of a comment line", x)
			case name == "Postings" && isElem(t, L) && len(ls) == 1:
				stage = 5
				x, ok := every(pre, prePost)
				r.check(ok, "apart", con+": posting", pos, "before a posting stands %q, which the reader does not take for the start of a posting", x)
			case name == "Postings" && t.op == "call" && !isAmountEvent(o, t):
				stage = 5
				x, ok := every(pre, prePost)
				r.check(ok, "apart", con+": posting", pos, "before a posting stands %q, which the reader does not take for the start of a posting", x)
			case name == "Postings":
				stage = 5
				if strings.HasSuffix(pa, ".AccountPath") {
					pp = &postingParts{P: P, r: r, o: o, con: con + ": posting", pos: pos}
					x, ok := every(pre, prePost)
					r.check(ok, "apart", con+": posting", pos, "before a posting stands %q, which the reader does not take for the start of a posting", x)
				}
				if pp == nil || !pp.part(pre, t, ls) {
					unknown = true
					r.notes = append(r.notes, con+": a part that is not known: "+pa)
				}
			case strings.HasSuffix(pa, ".Payee") || strings.HasSuffix(pa, ".Payee)"):
				r.check(stage == 1 || mark != nil, "parts", con+": payee", pos, "the payee does not follow the date")
				stage = 2
				if mark == nil {
					for _, p := range pre {
						m := preMark.FindStringSubmatch(p)
						if !r.check(m != nil, "apart", con+": date from payee", pos, "between date and payee stands %q, which the reader does not take for a state", p) {
							continue
						}
						for n, v := range states {
							g := o.st.f.clone()
							if !g.assume(eq0T(addN(stateTerm(o, f), -v)), true) {
								continue
							}
							marked[n] = true
							r.check(m[1] == marks[n], "mark", con+": "+n, pos, "a transaction in state %s is written with the mark %q; the reader turns that into another state", n, m[1])
						}
					}
				}
			case strings.HasSuffix(pa, ".HeaderNote"):
				r.check(stage == 2, "parts", con+": header note", pos, "the note in the header does not follow the payee")
				stage = 3
				x, ok := every(pre, preInline)
				r.check(ok, "apart", con+": header note", pos, "before the note in the header stands %q, which the reader does not take for the start of a comment", x)
			case t.any(func(u *Term) bool { return strings.HasSuffix(path(u), ".Date") }):
				r.check(stage <= 1, "parts", con+": date first", pos, "the date is not written first")
				if len(dates) == 0 {
					x, ok := every(pre, regexp.MustCompile(`^$`))
					r.check(ok, "apart", con+": start", pos, "before the date stands %q", x)
				}
				stage = 1
				dates = append(dates, t)
			case t.any(func(u *Term) bool { return strings.HasSuffix(path(u), ".State") }):
				mark = t
			case L != nil && skipped(t, L) > 0 && !strings.Contains(strings.Join(fixed, " "), path(restOf0(t))):
				r.bad("parts", con+": from the first", pos, "the first %d of %s are not written", skipped(t, L), path(restOf0(t)))
			default:
				unknown = true
				if len(ls) == 0 && (t.op == "elem" || t.op == "load") {
					fixed = append(fixed, pa)
				}
				r.notes = append(r.notes, con+": a part that is not known: "+pa)
			}
		}
		w.after = func(L *LoopSum, its []*Iter, seen [][]*Term) {
			if L.seq == nil {
				return
			}
			p := path(L.seq)
			switch {
			case strings.HasSuffix(p, ".Notes"):
				loops["Notes"]++
				eachOnce(r, o, con, "notes", pos, L, seen, func(t *Term) bool { return isElem(t, L) })
			case strings.HasSuffix(p, ".Postings"):
				loops["Postings"]++
				eachOnce(r, o, con, "postings", pos, L, seen, func(t *Term) bool {
					return isElem(t, L) || strings.HasSuffix(path(t), ".AccountPath") || t.op == "call" && !isAmountEvent(o, t)
				})
			case strings.HasSuffix(p, ".Comments"):
				eachOnce(r, o, con+": posting", "comments", pos, L, seen, func(t *Term) bool { return isElem(t, L) })
			}
		}
		var s []*Term
		end := w.run(posted(ps, ends), []string{""}, nil, nil, &s)
		if mark != nil {
			r.notes = append(r.notes, con+": how the state becomes a mark is not followed")
			for n := range states {
				marked[n] = true
				r.ok("mark", con)
			}
		}
		dateWritten(P, r, con, pos, dates)
		if unknown {
			r.ok("parts", con)
			continue
		}
		x, ok := every(end, lastly)
		r.check(ok, "apart", con+": end", pos, "the text ends in %q", x)
		r.check(stage >= 2 && len(dates) > 0, "parts", con+": date and payee", pos, "a transaction is written without its date or its payee")
		hn := false
		for _, t := range s {
			hn = hn || strings.HasSuffix(path(plain(t)), ".HeaderNote")
		}
		r.check(hn || emptyKnown(o, ".HeaderNote"), "parts", con+": header note", pos, "a transaction is written without the note in its header")
		r.check(loops["Notes"] == 1 || loops["Notes"] == 0 && emptyKnown(o, ".Notes"), "parts", con+": notes", pos, "the notes of a transaction are written %d times", loops["Notes"])
		r.check(loops["Postings"] == 1 || loops["Postings"] == 0 && emptyKnown(o, ".Postings"), "parts", con+": postings", pos, "the postings of a transaction are written %d times", loops["Postings"])
	}
	for n := range states {
		if !marked[n] {
			r.bad("mark", con+": "+n, pos, "no transaction in state %s is written", n)
		}
	}
}

func isAmountEvent(o *Outcome, t *Term) bool {
	e := amountCall(o, nil, t)
	return e != nil && e.fn != nil && e.fn.Signature.Recv() != nil && strings.HasSuffix(named(e.fn.Signature.Recv().Type()), "journal.Amount")
}

// posted: where a posting is written through its own text, what that leaves open at its end follows.
func posted(ps []piece, ends []string) []piece {
	if len(ends) != 1 || ends[0] == "" {
		return ps
	}
	var l []piece
	for _, p := range ps {
		if p.loop != nil {
			q := p
			q.body = nil
			for _, b := range p.body {
				q.body = append(q.body, posted(b, ends))
			}
			p = q
		}
		l = append(l, p)
		if p.loop == nil && p.t.op != "str" {
			if x := plain(p.t); x.typ != nil && strings.HasSuffix(named(x.typ), "journal.Posting") {
				l = append(l, lit(ends[0])...)
			}
		}
	}
	return l
}

// stateTerm is the state of the transaction as the path looks at it.
func stateTerm(o *Outcome, f *ssa.Function) *Term {
	var s *Term
	for _, x := range o.st.f.list {
		x.any(func(u *Term) bool {
			if strings.HasSuffix(path(u), ".State") && isIntType(u.typ) && u.op != "lin" {
				s = u
			}
			return s != nil
		})
	}
	if s == nil {
		s = mkT("free", "state", 0, tInt)
	}
	return s
}

func dateWritten(P *Prog, r *Report, con, pos string, dates []*Term) {
	if len(dates) == 1 && dates[0].op == "pure" && dates[0].s == "(time.Time).Format" && len(dates[0].a) == 2 && dates[0].a[1].op == "str" {
		l := dates[0].a[1].s
		r.check(l == "2006-01-02", "date", con, pos, "the date is written with the layout %q, not as year-month-day", l)
		return
	}
	if len(dates) == 0 {
		return
	}
	var l []string
	for _, d := range dates {
		l = append(l, fmt.Sprint(path(d)))
	}
	r.notes = append(r.notes, con+": the date is written as "+strings.Join(l, " "))
	r.ok("date", con)
}
