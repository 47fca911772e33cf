package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C13"] = Check{"path-sensitive dataflow over the handlers each command gives to the parser (extracted from its action), and over the lists it prints", checkC13}
	checks["C15"] = Check{"path-sensitive dataflow with loop summaries over the selection of postings and over the handlers that use it", checkC15}
}

// handlerInfo is a function a command gives to the parser, with the state in which it was given.
type handlerInfo struct {
	cmd  *Command
	kind string // transactionHandler periodicTransactionHandler
	fn   *Term
	st   *State
	o    *Outcome // the path of the action it was found on
}

func parserParse(P *Prog) *ssa.Function {
	return P.byRole("parser", "Parser.Parse", func(f *ssa.Function) bool {
		if len(f.Params) == 0 || !returnsError(f) {
			return false
		}
		s := structOf(f.Params[0].Type())
		if s == nil || f.Signature.Recv() == nil {
			return false
		}
		h := false
		for i := 0; i < s.NumFields(); i++ {
			h = h || handlerKind(s.Field(i).Type()) != ""
		}
		rd := false
		for _, p := range paramTypes(f) {
			rd = rd || strings.HasSuffix(p, "io.Reader") || strings.HasSuffix(p, "os.File")
		}
		return h && rd
	})
}

func handlerKind(t types.Type) string {
	s, ok := t.Underlying().(*types.Signature)
	if !ok || s.Params().Len() < 1 {
		return ""
	}
	switch named(s.Params().At(0).Type()) {
	case "*journal.Transaction":
		return "transactionHandler"
	case "*journal.PeriodicTransaction":
		return "periodicTransactionHandler"
	}
	return ""
}

// reportHandlers lists what each command gives to the parser.
func reportHandlers(P *Prog, r *Report) (*CLI, []*handlerInfo) {
	cli := P.cli(r)
	parse := parserParse(P)
	if cli == nil || parse == nil {
		return cli, nil
	}
	var l []*handlerInfo
	for _, c := range cli.cmds {
		f, v, _ := c.action()
		if f == nil || !P.reaches(f)[parse] {
			continue
		}
		outs, in, _ := P.runClosure(v, cli.st, Opts{opaque: opaqueFns(parse), snapAt: nil, snap: true, maxSteps: 2000000})
		if in == nil || in.over {
			continue
		}
		r.use(f)
		seen := map[string]bool{}
		for _, o := range outs {
			allEvents(o.st.ev, func(e *Event, it *Iter) {
				if e.kind != "call" || e.fn != parse || len(e.args) == 0 {
					return
				}
				s := structOf(e.args[0].typ)
				if s == nil {
					return
				}
				for i := 0; i < s.NumFields(); i++ {
					k := handlerKind(s.Field(i).Type())
					if k == "" {
						continue
					}
					v := fieldAt(e.snap, e.args[0], s.Field(i).Name())
					if v == nil || v.op == "nil" || seen[k+path(v)+v.String()] {
						continue
					}
					seen[k+path(v)+v.String()] = true
					l = append(l, &handlerInfo{c, k, v, e.snap, o})
				}
			})
		}
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i].cmd.name()+l[i].kind < l[j].cmd.name()+l[j].kind })
	return cli, l
}

// selector is the function that decides which postings of a transaction are reported.
type selector struct {
	f                  *ssa.Function
	ib, il, ie, iparam int // which result is the verdict, the postings, the error; which parameter the transaction
}

func selectorOf(P *Prog) *selector {
	rt := rangeTest(P)
	pred := func(f *ssa.Function) bool {
		has := false
		for i := 0; i < f.Signature.Results().Len(); i++ {
			has = has || isPostings(f.Signature.Results().At(i).Type())
		}
		if !has || f.Parent() != nil {
			return false
		}
		tr := false
		for _, p := range paramTypes(f) {
			tr = tr || strings.HasSuffix(p, "journal.Transaction")
		}
		m := P.reaches(f)
		if !tr || !m[rt] {
			return false
		}
		for g := range m {
			if isFilterMatch(g) {
				return true
			}
		}
		return false
	}
	f := P.byRole("cmd", "checkAgainstFilters", pred)
	if f == nil || rt == nil {
		return nil
	}
	s := &selector{f, -1, -1, errIndex(f), -1}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		t := f.Signature.Results().At(i).Type()
		if isBoolean(t) {
			s.ib = i
		}
		if isPostings(t) {
			s.il = i
		}
	}
	for i, p := range paramTypes(f) {
		if strings.HasSuffix(p, "journal.Transaction") {
			s.iparam = i
		}
	}
	return s
}

func isPostings(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && strings.HasSuffix(named(s.Elem()), "journal.Posting")
}

func isFilters(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && strings.HasSuffix(named(s.Elem()), "reporting.Filter")
}

// isFilterMatch: a method of a filter that matches something.
func isFilterMatch(f *ssa.Function) bool {
	return f.Signature.Recv() != nil && strings.HasSuffix(named(f.Signature.Recv().Type()), "reporting.Filter") && f.Signature.Results().Len() > 0 &&
		f.Signature.Params().Len() == 1
}

// resOf is a result of a call.
func resOf(e *Event, i int) *Term {
	sig := e.fn.Signature
	if sig.Results().Len() == 1 {
		return mkT("call", e.res.s, e.res.n, sig.Results().At(0).Type())
	}
	return mkT("res", "", int64(i), sig.Results().At(i).Type(), e.res)
}

// prefix is what is known when the event happens.
func prefixFacts(o *Outcome, e *Event, it *Iter) *Facts {
	l := o.st.f
	if it != nil {
		l = it.st.f
	}
	if e == nil || e.nf >= len(l.list) {
		return l
	}
	f := newFacts()
	for _, t := range l.list[:e.nf] {
		f.assume(t, true)
	}
	return f
}

func nonEmpty(f *Facts, l *Term) (val, known bool) {
	return f.query(le0T(addN(scaleT(lenT(l), -1, tInt), 1)))
}

// writeOnly lists the fields nothing reads except to append to them.
func (P *Prog) writeOnly() map[string]bool {
	w := map[string]bool{}
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					k := typeName(x.X.Type().Underlying().(*types.Pointer).Elem()) + "." + fieldName(x)
					if _, ok := w[k]; !ok {
						w[k] = true
					}
					for _, u := range *x.Referrers() {
						switch y := u.(type) {
						case *ssa.Store:
							if y.Addr != ssa.Value(x) {
								w[k] = false
							}
						case *ssa.UnOp:
							if !onlyAppendedTo(y, k) {
								w[k] = false
							}
						case *ssa.DebugRef:
						default:
							w[k] = false
						}
					}
				case *ssa.Field:
					w[typeName(x.X.Type())+"."+structOf(x.X.Type()).Field(x.Field).Name()] = false
				}
			}
		}
	}
	return w
}

func onlyAppendedTo(v ssa.Value, k string) bool {
	for _, u := range *v.Referrers() {
		c, ok := u.(*ssa.Call)
		if !ok {
			if _, d := u.(*ssa.DebugRef); d {
				continue
			}
			return false
		}
		b, ok := c.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "append" || c.Call.Args[0] != v {
			return false
		}
		for _, w := range *c.Referrers() {
			s, ok := w.(*ssa.Store)
			if !ok {
				return false
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || typeName(fa.X.Type().Underlying().(*types.Pointer).Elem())+"."+fieldName(fa) != k {
				return false
			}
		}
	}
	return true
}

// effect is something a handler does to what is reported.
type effect struct {
	e   *Event
	it  *Iter
	f   *Facts
	o   *Outcome
	txt string
}

// handlerRun is one handler analysed from the state in which the command gave it to the parser.
type handlerRun struct {
	h     *handlerInfo
	outs  []*Outcome
	t     *Term
	start int64
	wo    map[string]bool
	skip  map[*ssa.Function]bool
}

func (P *Prog) takesPosting(f *ssa.Function) bool {
	if f.Pkg != P.byPkg["journal"] || f.Parent() != nil {
		return false
	}
	for _, p := range f.Params {
		if named(p.Type()) == "*journal.Posting" && f.Signature.Recv() != nil && named(f.Signature.Recv().Type()) == "*journal.Posting" {
			return false
		}
	}
	for _, p := range f.Params {
		if named(p.Type()) == "*journal.Posting" && len(P.modSets()[f]) > 0 {
			return true
		}
	}
	return false
}

func runHandler(P *Prog, r *Report, h *handlerInfo, sel *selector, wo map[string]bool) *handlerRun {
	rt := rangeTest(P)
	opq := map[*ssa.Function]bool{rt: true}
	if sel != nil {
		opq[sel.f] = true
	}
	skip := map[*ssa.Function]bool{}
	for _, f := range P.Funcs {
		if isFilterMatch(f) {
			opq[f] = true
			skip[f] = true
		}
		if P.takesPosting(f) {
			opq[f] = true
		}
	}
	skip[rt] = true
	if sel != nil {
		skip[sel.f] = true
	}
	start := lastInst
	outs, in, ps := P.runClosure(h.fn, h.st, Opts{snap: true, maxSteps: 2000000, opaque: func(f *ssa.Function) bool { return opq[f] },
		entry: func(st *State, _ []*Term) {
			// what the command has made is there to stay
			for a := range st.heap {
				if x := rootOf(a); x.op == "alloc" {
					st.esc[x] = true
				}
			}
			for _, b := range h.fn.a {
				if x := rootOf(b); x.op == "alloc" {
					st.esc[x] = true
				}
			}
			// and other transactions may have been handled before
			tmp := P.newInterp(Opts{})
			var classes []string
			for _, f := range funcsIn(h.fn) {
				for c := range P.modSets()[f] {
					classes = append(classes, c)
				}
				if P.modSets()[f] == nil {
					for _, g := range calleesOfWrapper(f) {
						for c := range P.modSets()[g] {
							classes = append(classes, c)
						}
					}
				}
			}
			sort.Strings(classes)
			for _, c := range classes {
				tmp.killClass(st, c)
			}
		}})
	if in == nil || in.over || len(ps) == 0 {
		return nil
	}
	if f := termFunc(h.fn); f != nil {
		r.use(f)
	}
	r.paths += len(outs)
	return &handlerRun{h, outs, ps[0], start, wo, skip}
}

// local: the value was made while the handler ran.
func (hr *handlerRun) local(t *Term) bool {
	t = rootOf(t)
	return (t.op == "alloc" || t.op == "mkmap" || t.op == "mkslice") && t.n > hr.start
}

func (hr *handlerRun) effects(P *Prog, o *Outcome) []effect {
	var l []effect
	allEvents(o.st.ev, func(e *Event, it *Iter) {
		txt := ""
		switch e.kind {
		case "store":
			a := e.args[0]
			if hr.local(a) || rootOf(a) == hr.t {
				return
			}
			if a.op == "faddr" && a.a[0].typ != nil {
				if hr.wo[strings.TrimPrefix(named(a.a[0].typ), "*")+"."+a.s] {
					return
				}
			}
			txt = "a value is stored"
		case "mapset", "mapdel":
			if hr.local(e.args[0]) {
				return
			}
			txt = "a map is changed"
		case "call":
			if hr.skip[e.fn] || len(P.modSets()[e.fn]) == 0 {
				return
			}
			txt = fname(e.fn) + " is called"
		case "dyn":
			txt = "a function is called"
		case "ext":
			if !strings.HasPrefix(e.name, "fmt.Print") || e.in.Parent().Pkg != P.byPkg["cmd"] {
				return
			}
			txt = "something is printed"
		default:
			return
		}
		l = append(l, effect{e, it, prefixFacts(o, e, it), o, txt})
	})
	return l
}

// verdict: what is known at a point of a path of a handler about the transaction.
func (hr *handlerRun) verdict(o *Outcome, f *Facts, sel *selector, rt *ssa.Function) (ranged, selected bool) {
	t := path(hr.t)
	dates := map[string]bool{t + ".Date": true}
	if hr.h.kind == "periodicTransactionHandler" {
		dates = map[string]bool{t + ".Period.StartDate": true}
	}
	if saysEmpty(f, func(l *Term) bool { return isFilters(l.typ) }) {
		selected = true
	}
	allEvents(o.st.ev, func(e *Event, it *Iter) {
		if e.kind != "call" {
			return
		}
		switch {
		case e.fn == rt:
			v, k := f.query(resOf(e, 0))
			if !k || !v || len(e.args) == 0 {
				return
			}
			for _, a := range e.args {
				d := a
				if !isTime(a.typ) {
					d = fieldAt(at(e, o), a, "Date")
				}
				if d != nil && dates[path(d)] {
					ranged = true
				}
			}
		case sel != nil && e.fn == sel.f:
			if sel.iparam < 0 || e.args[sel.iparam] != hr.t && path(e.args[sel.iparam]) != t {
				return
			}
			if sel.ib >= 0 {
				if v, k := f.query(resOf(e, sel.ib)); k && v {
					ranged, selected = true, true
				}
			}
			if v, k := nonEmpty(f, resOf(e, sel.il)); k && v {
				ranged, selected = true, true
			}
		case isFilterMatch(e.fn):
			for i := 0; i < e.fn.Signature.Results().Len(); i++ {
				rs := resOf(e, i)
				if isBoolean(rs.typ) {
					if v, k := f.query(rs); k && v {
						selected = true
					}
				} else if v, k := nonEmpty(f, rs); k && v {
					selected = true
				}
			}
		}
	})
	return
}

var reportCommands = []string{"accounts", "balance", "budget", "payees", "print", "statistics"}

func checkC13(P *Prog, r *Report) {
	r.rule("given", "each command that reports on transactions gives the parser a handler for them", 6)
	r.rule("ranged", "whatever such a handler does to the report happens only when the range test has said yes to the date of the transaction (of a budget entry: of its period)", 6)
	r.rule("selection", "the selection of postings selects nothing of a transaction that is out of range", 1)
	r.rule("filtered", "balance, budget, print and statistics use only transactions the selection has selected", 4)
	r.rule("listed", "accounts records every account and payees every payee, and each lists exactly those an argument matches, or all without arguments", 4)
	r.rule("arguments", "the filters are made from every argument of every command, once, before it runs", 2)
	cli, hs := reportHandlers(P, r)
	rt := rangeTest(P)
	sel := selectorOf(P)
	if cli == nil || rt == nil || len(hs) == 0 {
		r.bad("given", "commands", "-", "the handlers of the commands cannot be found")
		return
	}
	r.whole(P, "listed", cli, "accounts", "payees")
	by := map[string]*handlerInfo{}
	for _, h := range hs {
		by[h.cmd.name()+"/"+h.kind] = h
	}
	for _, n := range reportCommands {
		r.check(by[n+"/transactionHandler"] != nil, "given", n, "-", "no handler for transactions reaches the parser from this command")
	}
	if sel != nil {
		for _, p := range selOutcomes(P, r, sel) {
			if p.ranged {
				r.ok("selection", fname(sel.f))
				continue
			}
			r.check(p.none, "selection", fname(sel.f), P.pos(sel.f.Pos()), "postings are selected although the transaction is not known to be in range")
		}
	} else {
		r.ok("selection", "none")
		r.notes = append(r.notes, "no function selects postings for several handlers; each handler is judged on its own")
	}
	wo := P.writeOnly()
	for _, h := range hs {
		hr := runHandler(P, r, h, sel, wo)
		con := h.cmd.name() + " " + h.kind
		if hr == nil {
			r.bad("ranged", con, h.cmd.pos, "the handler cannot be analysed")
			continue
		}
		n := 0
		filtered := false
		switch h.cmd.name() {
		case "balance", "budget", "print", "statistics":
			filtered = h.kind == "transactionHandler"
		}
		for _, o := range hr.outs {
			for _, ef := range hr.effects(P, o) {
				n++
				a, b := hr.verdict(o, ef.f, sel, rt)
				r.check(a, "ranged", con, P.ipos(ef.e.in), "%s although the transaction is not known to be in range", ef.txt)
				if filtered {
					r.check(b, "filtered", con, P.ipos(ef.e.in), "%s although the filters are not known to select the transaction", ef.txt)
				}
			}
		}
		if n == 0 && h.kind == "transactionHandler" {
			r.bad("ranged", con, h.cmd.pos, "the handler does nothing with a transaction")
		}
	}
	for _, n := range []string{"accounts", "payees"} {
		if h := by[n+"/transactionHandler"]; h != nil {
			listing(P, r, h, cli)
		}
	}
	filterArguments(P, r, cli)
}

// selPath is one way the selection can end.
type selPath struct {
	o      *Outcome
	ranged bool // the range test has said yes
	none   bool // nothing is selected
	all    bool // every posting
	bool_  *Term
	list   *Term
	t      *Term
}

func selOutcomes(P *Prog, r *Report, sel *selector) []selPath {
	rt := rangeTest(P)
	var l []selPath
	t := paramT(sel.f.Params[sel.iparam], sel.iparam)
	in := P.newInterp(Opts{})
	for _, o := range r.exec(sel.f, Opts{snap: true, opaque: func(f *ssa.Function) bool { return f == rt || isFilterMatch(f) }}) {
		if o.panic || o.exit || len(o.rets) <= sel.il {
			continue
		}
		if sel.ie >= 0 && !succeeds(o) {
			continue
		}
		p := selPath{o: o, list: o.rets[sel.il], t: t}
		if sel.ib >= 0 {
			p.bool_ = o.rets[sel.ib]
		}
		allEvents(o.st.ev, func(e *Event, it *Iter) {
			if e.kind != "call" || e.fn != rt || len(e.args) == 0 {
				return
			}
			if v, k := o.st.f.query(resOf(e, 0)); k && v {
				for _, a := range e.args {
					d := a
					if !isTime(a.typ) {
						d = fieldAt(at(e, o), a, "Date")
					}
					if d != nil && path(d) == path(t)+".Date" {
						p.ranged = true
					}
				}
			}
		})
		empty := false
		if es, ok := in.elems(o.st, p.list); ok && len(es) == 0 {
			empty = true
		}
		if v, k := nonEmpty(o.st.f, p.list); k && !v {
			empty = true
		}
		no := p.bool_ == nil
		if p.bool_ != nil {
			if v, k := o.st.f.query(p.bool_); k && !v {
				no = true
			}
		}
		p.none = empty && no
		p.all = path(p.list) == path(t)+".Postings"
		l = append(l, p)
	}
	return l
}

// appendsOf explains a list as made by a loop: what each completed iteration appends to it.
func appendsOf(o *Outcome, X *Term) (L *LoopSum, ph *PhiInfo) {
	for _, l := range loopsIn(o.st.ev) {
		for _, p := range l.phis {
			if p.sym == X {
				return l, p
			}
		}
	}
	return nil, nil
}

// appended: the elements an iteration appends to a list; ok is false when it does something else to it.
func appended(it *Iter, ph *PhiInfo) (l []*Term, ok bool) {
	v := it.phis[ph.name]
	switch {
	case v == nil || v == ph.sym:
		return nil, true
	case v.op == "append" && v.a[0] == ph.sym:
		return v.a[1:], true
	}
	return nil, false
}

func emptyList(t *Term) bool {
	if t == nil {
		return false
	}
	switch t.op {
	case "nil":
		return true
	case "mkslice":
		return t.a[0].op == "int" && t.a[0].n == 0
	case "slice":
		return len(t.a) > 2 && t.a[1].op == "int" && t.a[2].op == "int" && t.a[1].n == t.a[2].n
	}
	return false
}

// matchAtoms: what is known about arguments matching that string: +1 one matches, -1 none does.
func matched(o *Outcome, ev []*Event, f *Facts, s *Term) int {
	for _, x := range f.list {
		if isMatchOf(x, s) {
			return 1
		}
	}
	// a flag that a loop over them keeps
	for _, e := range ev {
		if e.kind != "loop" || e.loop.seq == nil {
			continue
		}
		for _, ph := range e.loop.phis {
			v, known := f.query(ph.sym)
			if !known || !isBoolean(ph.sym.typ) || ph.init == nil || ph.init.op != "bool" || ph.init.n != 0 {
				continue
			}
			exact := len(e.loop.iters) > 0
			for _, it := range e.loop.iters {
				w := it.phis[ph.name]
				was, k := it.st.f.query(ph.sym)
				switch {
				case w == nil || w == ph.sym:
					has := k && was
					for _, x := range it.st.f.list {
						has = has || x.op == "not" && isMatchOf(x.a[0], s)
					}
					exact = exact && has
				case w.op == "bool" && w.n == 1:
					has := k && was
					for _, x := range it.st.f.list {
						has = has || isMatchOf(x, s)
					}
					exact = exact && has
				default:
					exact = exact && isMatchOf(w, s) && k && !was
				}
			}
			if exact && v {
				return 1
			}
			if exact && exhausted(ev, e.loop) && everyArgument(o, e.loop.seq) {
				return -1
			}
		}
	}
	// a loop over all of them that found nothing
	for _, e := range ev {
		if e.kind != "loop" || e.loop.seq == nil {
			continue
		}
		done := false
		for _, d := range ev {
			if d.kind == "loopexit" && d.loop == e.loop && !d.broke {
				done = true
			}
		}
		if !done || len(e.loop.iters) == 0 {
			continue
		}
		no := true
		for _, it := range e.loop.iters {
			has := false
			for _, x := range it.st.f.list {
				if x.op == "not" && isMatchOf(x.a[0], s) {
					has = true
				}
			}
			no = no && has
		}
		if no && everyArgument(o, e.loop.seq) {
			return -1
		}
	}
	return 0
}

// everyArgument: the list holds something for every filter or argument.
func everyArgument(o *Outcome, seq *Term) bool {
	if !wholeList(seq) {
		return false
	}
	L, ph := appendsOf(o, seq)
	if L == nil {
		return true
	}
	if L.seq == nil || !wholeList(L.seq) || !exhausted(o.st.ev, L) || !emptyList(ph.init) {
		return false
	}
	for _, it := range L.iters {
		if es, ok := appended(it, ph); !ok || len(es) != 1 {
			return false
		}
	}
	return true
}

func wholeList(t *Term) bool { return t.op != "slice" }

// isMatchOf: a regular expression matches that string.
func isMatchOf(x, s *Term) bool {
	return (x.op == "pure" && x.s == "(*regexp.Regexp).MatchString" && len(x.a) == 2 && x.a[1] == s)
}

// printedSeqs lists the sequences whose elements a path prints one by one.
func printedSeqs(P *Prog, o *Outcome) (l []*LoopSum) {
	in := P.newInterp(Opts{})
	for _, L := range loopsIn(o.st.ev) {
		if L.seq == nil {
			continue
		}
		pr := len(L.iters) > 0
		for _, it := range L.iters {
			has := false
			for _, e := range it.ev {
				if e.kind == "ext" && strings.HasPrefix(e.name, "fmt.Print") && len(e.args) > 0 {
					es, _ := in.elems(it.st, e.args[len(e.args)-1])
					for _, x := range es {
						if x.op == "iface" {
							x = x.a[0]
						}
						if isElem(x, L) {
							has = true
						}
					}
				}
			}
			pr = pr && has
		}
		if pr {
			l = append(l, L)
		}
	}
	return
}

// isElem: the value is the element of the sequence the iteration is at.
func isElem(x *Term, L *LoopSum) bool {
	if L.seq == nil || x == nil {
		return false
	}
	if x.op == "load" {
		x = x.a[0]
	}
	switch x.op {
	case "iaddr", "elem":
		return x.a[0] == L.seq && x.a[1] == L.idx
	case "rangekey", "rangeval", "rangerune":
		return x.a[0] == L.seq
	}
	return false
}

// listing checks that a command lists what its handler recorded and an argument matches.
func listing(P *Prog, r *Report, h *handlerInfo, cli *CLI) {
	con := h.cmd.name()
	sel := selectorOf(P)
	hr := runHandler(P, r, h, sel, P.writeOnly())
	if hr == nil {
		return
	}
	t := path(hr.t)
	// what is recorded
	for _, o := range hr.outs {
		efs := hr.effects(P, o)
		if len(efs) == 0 || o.panic || o.exit || !succeeds(o) {
			continue
		}
		switch con {
		case "payees":
			n := 0
			for _, ef := range efs {
				if ef.e.kind == "mapset" && path(ef.e.args[1]) == t+".Payee" {
					n++
				}
			}
			r.check(n > 0, "listed", con+" recorded", h.cmd.pos, "the payee of a transaction is not recorded")
		case "accounts":
			ok, shape := false, true
			for _, L := range loopsIn(o.st.ev) {
				if L.seq == nil || path(L.seq) != t+".Postings" {
					continue
				}
				all := exhausted(o.st.ev, L)
				for _, it := range L.iters {
					has := false
					for _, e := range it.ev {
						if e.kind == "mapset" && strings.HasSuffix(path(e.args[1]), ".Postings[i].AccountPath") {
							has = true
						}
						if e.kind == "call" || e.kind == "dyn" {
							shape = false
						}
						// nothing to do for an account that has been recorded
					}
					for _, x := range it.facts {
						if x.op == "load" && x.a[0].op == "mhas" && strings.HasSuffix(path(x.a[0].a[1]), ".AccountPath") ||
							x.op == "load" && x.a[0].op == "maddr" && strings.HasSuffix(path(x.a[0].a[1]), ".AccountPath") {
							has = true
						}
					}
					all = all && has
				}
				ok = ok || all
			}
			r.check(ok || !shape, "listed", con+" recorded", h.cmd.pos, "not every account of a transaction is recorded")
		}
	}
	// what is listed
	f, v, _ := h.cmd.action()
	parse := parserParse(P)
	outs, in, _ := P.runClosure(v, cli.st, Opts{snap: true, maxSteps: 2000000, opaque: func(g *ssa.Function) bool { return g == parse || g.Name() == "ContainsUppercase" }})
	if in == nil || in.over {
		return
	}
	r.use(f)
	n := 0
	for _, o := range outs {
		if o.panic || o.exit || !succeeds(o) {
			continue
		}
		seqs := printedSeqs(P, o)
		if len(seqs) == 0 {
			r.bad("listed", con+" printed", h.cmd.pos, "on some path nothing is listed")
			continue
		}
		for _, pl := range seqs {
			n++
			X := pl.seq
			filt, unknown := false, false
			for d := 0; d < 6 && X != nil; d++ {
				L, ph := appendsOf(o, X)
				if L == nil || !emptyList(ph.init) {
					unknown = L == nil && X.op != "mkmap" && X.op != "load"
					break
				}
				if !exhausted(o.st.ev, L) {
					r.bad("listed", con+" printed", h.cmd.pos, "the list is left before every name has been looked at")
				}
				for _, it := range L.iters {
					es, ok := appended(it, ph)
					if !ok {
						unknown = true
						continue
					}
					var cur *Term
					for _, x := range es {
						if !isElem(x, L) {
							unknown = true
						} else {
							cur = x
						}
					}
					if len(es) > 1 {
						r.bad("listed", con+" printed", h.cmd.pos, "a name is listed more than once")
					}
					m := 0
					if cur != nil {
						m = matched(o, it.ev, it.st.f, cur)
					} else {
						// find the name this iteration is about
						for _, e := range it.ev {
							if e.kind == "loop" {
								for _, i2 := range e.loop.iters {
									for _, ph := range e.loop.phis {
										if x := i2.phis[ph.name]; x != nil && x.op == "pure" && len(x.a) == 2 && isElem(x.a[1], L) {
											cur = x.a[1]
										}
									}
									for _, x := range i2.st.f.list {
										if x.op == "not" && x.a[0].op == "pure" && len(x.a[0].a) == 2 && isElem(x.a[0].a[1], L) {
											cur = x.a[0].a[1]
										}
									}
								}
							}
						}
						for _, x := range it.st.f.list {
							if x.op == "pure" && len(x.a) == 2 && isElem(x.a[1], L) {
								cur = x.a[1]
							}
						}
						if cur != nil {
							m = matched(o, it.ev, it.st.f, cur)
						}
					}
					if len(es) == 1 {
						if m == 1 {
							filt = true
						}
						if m == -1 {
							r.bad("listed", con+" printed", h.cmd.pos, "a name is listed although no argument matches it")
						}
					} else {
						if m == 1 {
							r.bad("listed", con+" printed", h.cmd.pos, "a name is left out although an argument matches it")
						}
						if m == 0 {
							r.bad("listed", con+" printed", h.cmd.pos, "a name is left out although it is not known that no argument matches it")
						}
					}
				}
				X = L.seq
			}
			// are there arguments?
			noargs := saysEmpty(o.st.f, func(l *Term) bool {
				return isFilters(l.typ) || l.op == "param" && l.typ.String() == "[]string"
			})
			if unknown {
				r.notes = append(r.notes, con+": how the list is made is not followed to its source")
				r.ok("listed", con+" printed")
				continue
			}
			r.check(filt || noargs, "listed", con+" printed", h.cmd.pos, "names are listed without asking whether an argument matches them")
		}
	}
	if n == 0 {
		r.bad("listed", con+" printed", h.cmd.pos, "nothing is listed")
	}
}

// filterArguments: the filters come from every argument.
func filterArguments(P *Prog, r *Report, cli *CLI) {
	var gl string
	for _, m := range P.byPkg["cmd"].Members {
		if g, ok := m.(*ssa.Global); ok && isFilters(g.Type().Underlying().(*types.Pointer).Elem()) {
			gl = "cmd." + g.Name()
		}
	}
	if gl == "" {
		r.notes = append(r.notes, "the filters are not kept in a variable of the package")
		r.ok("arguments", "-")
		r.ok("arguments", "-")
		return
	}
	hooks := []string{"PersistentPreRunE", "PersistentPreRun"}
	var hook *Term
	for _, c := range cli.cmds {
		for _, k := range hooks {
			v := c.fields[k]
			if termFunc(v) == nil {
				continue
			}
			if c == cli.root {
				hook = v
				continue
			}
			r.bad("arguments", c.name(), c.pos, "the command has a %s of its own, which replaces the one that makes the filters", k)
		}
		a := c.fields["Args"]
		for _, n := range reportCommands {
			if c.name() == n {
				g := termFunc(a)
				r.check(a == nil || a.op == "nil" || a.op == "zero" || g != nil && g.Name() == "ArbitraryArgs", "arguments", n, c.pos, "the command does not accept every argument")
			}
		}
	}
	writers := map[*ssa.Function]bool{}
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok && g.Pkg.Pkg.Name()+"."+g.Name() == gl {
						writers[f] = true
					}
				}
			}
		}
	}
	if hook == nil {
		// a hook per command would do as well
		r.bad("arguments", "filters", cli.root.pos, "nothing makes the filters before a command runs")
		return
	}
	hf := termFunc(hook)
	for f := range writers {
		r.check(P.reaches(hf)[f], "arguments", "filters", P.pos(f.Pos()), "the filters are changed by %s, which is not where they are made", fname(f))
	}
	outs, in, ps := P.runClosure(hook, cli.st, Opts{opaque: func(g *ssa.Function) bool { return g.Name() == "NewFilter" }, snap: true})
	if in == nil || in.over || len(ps) < 2 {
		return
	}
	r.use(hf)
	args := ps[1]
	for _, o := range outs {
		if o.panic || o.exit || len(o.rets) > 0 && !succeeds(o) {
			continue
		}
		v := in.load(o.st, mkT("global", gl, 0, nil), nil)
		var X *Term
		for a, x := range o.st.heap {
			if a.op == "global" && a.s == gl {
				X = x
			}
		}
		if X == nil {
			X = v
		}
		if emptyList(X) {
			e, k := nonEmpty(o.st.f, args)
			r.check(k && !e, "arguments", "filters", P.pos(hf.Pos()), "on some path no filter is made from the arguments")
			continue
		}
		L, ph := appendsOf(o, X)
		if L == nil {
			if X.op == "load" {
				r.bad("arguments", "filters", P.pos(hf.Pos()), "on some path the filters are not set")
			} else {
				r.notes = append(r.notes, "how the filters are collected is not followed")
				r.ok("arguments", "filters")
			}
			continue
		}
		ok := L.seq == args && exhausted(o.st.ev, L) && emptyList(ph.init)
		why := "the filters are not made from every argument in turn"
		for _, it := range L.iters {
			es, k := appended(it, ph)
			if !k || len(es) != 1 {
				ok = false
				continue
			}
			from := false
			for _, e := range it.ev {
				if e.kind == "call" && e.fn.Name() == "NewFilter" && len(e.args) > 0 && isElem(e.args[0], L) && es[0].any(func(u *Term) bool { return u == e.res || u == resOf(e, 0) }) {
					from = true
				}
			}
			if !from {
				ok = false
				why = "a filter is not made from the argument as given"
			}
		}
		r.check(ok, "arguments", "filters", P.pos(hf.Pos()), "%s", why)
	}
}

func checkC15(P *Prog, r *Report) {
	r.rule("selection", "without filters, or when a filter matches the transaction as a whole, every posting is selected; otherwise exactly those postings some filter matches, each once, in the order of the transaction", 3)
	r.rule("used", "a handler uses only the postings selected, each at most once, and looks at every one of them", 2)
	r.rule("counted", "the balance report adds every selected posting exactly once", 1)
	r.rule("nothing", "a transaction that nothing selects has no effect, and one that is selected has", 4)
	sel := selectorOf(P)
	if sel == nil || sel.iparam < 0 {
		r.bad("selection", "cmd.checkAgainstFilters", "-", "the function that selects postings cannot be found")
		return
	}
	con := fname(sel.f)
	pos := P.pos(sel.f.Pos())
	for _, p := range selOutcomes(P, r, sel) {
		if !p.ranged {
			continue // C13
		}
		o := p.o
		empty := saysEmpty(o.st.f, func(l *Term) bool { return isFilters(l.typ) })
		whole := false
		allEvents(o.st.ev, func(e *Event, it *Iter) {
			if e.kind != "call" || !isFilterMatch(e.fn) || !isFilterElem(e.args[0]) || path(e.args[1]) != path(p.t) {
				return
			}
			for i := 0; i < e.fn.Signature.Results().Len(); i++ {
				if rs := resOf(e, i); isBoolean(rs.typ) {
					if v, k := o.st.f.query(rs); k && v {
						whole = true
					}
				}
			}
		})
		yes := true
		if p.bool_ != nil {
			v, k := o.st.f.query(p.bool_)
			yes = k && v
		}
		switch {
		case empty:
			r.check(p.all && yes, "selection", con+" without filters", pos, "without filters not every posting is selected")
		case whole:
			r.check(p.all && yes, "selection", con+" when the transaction matches", pos, "when a filter matches the transaction not every posting is selected")
		case p.all:
			r.bad("selection", con+" when postings match", pos, "every posting is selected although no filter is known to match the transaction")
		default:
			partial(P, r, sel, p, con+" when postings match", pos)
		}
	}
	// how handlers use the selection
	_, hs := reportHandlers(P, r)
	wo := P.writeOnly()
	rt := rangeTest(P)
	for _, h := range hs {
		if h.kind != "transactionHandler" {
			continue
		}
		hr := runHandler(P, r, h, sel, wo)
		if hr == nil {
			continue
		}
		uses := false
		for _, o := range hr.outs {
			allEvents(o.st.ev, func(e *Event, it *Iter) { uses = uses || e.kind == "call" && e.fn == sel.f })
		}
		if !uses {
			continue
		}
		con := h.cmd.name()
		pos := h.cmd.pos
		if f := termFunc(h.fn); f != nil && f.Pos().IsValid() {
			pos = P.pos(f.Pos())
		}
		for _, o := range hr.outs {
			if o.panic || o.exit || !succeeds(o) {
				continue
			}
			var se *Event
			n := 0
			allEvents(o.st.ev, func(e *Event, it *Iter) {
				if e.kind == "call" && e.fn == sel.f {
					se = e
					n++
				}
			})
			efs := hr.effects(P, o)
			if se == nil {
				if len(efs) > 0 {
					r.notes = append(r.notes, con+": a path does not ask for the selection")
				}
				continue
			}
			list := resOf(se, sel.il)
			for _, ef := range efs {
				_, b := hr.verdict(o, ef.f, sel, rt)
				r.check(b, "nothing", con, P.ipos(ef.e.in), "%s although nothing may have been selected", ef.txt)
			}
			over := false
			for _, L := range loopsIn(o.st.ev) {
				if L.seq != list {
					if L.seq != nil && L.seq.any(func(u *Term) bool { return u == list }) {
						r.bad("used", con, pos, "only a part of the selected postings is looked at")
					}
					if L.seq != nil && strings.HasSuffix(path(L.seq), path(hr.t)+".Postings") {
						r.bad("used", con, pos, "the postings of the transaction are used instead of the selected ones")
					}
					continue
				}
				over = true
				r.check(exhausted(o.st.ev, L), "used", con, pos, "the selected postings are left before each has been used")
				for _, it := range L.iters {
					cnt := 0
					journal := false
					for _, e := range postingCalls(P, it.ev) {
						if !usesElem(P, e, L) {
							r.bad("used", con, P.ipos(e.in), "something other than the selected posting is counted")
							continue
						}
						cnt++
						journal = journal || len(e.fn.Params) > 0 && strings.HasSuffix(named(e.fn.Params[0].Type()), "journal.Journal")
					}
					r.check(cnt <= 1, "used", con, pos, "a selected posting is counted more than once")
					if con == "balance" {
						r.check(cnt == 1, "counted", con, pos, "a selected posting is not counted exactly once")
					}
					_ = journal
				}
			}
			// outside of such a loop nothing is counted
			for _, e := range o.st.ev {
				if e.kind == "call" && P.takesPosting(e.fn) {
					if f := prefixFacts(o, e, nil); f != nil {
						r.bad("used", con, P.ipos(e.in), "a posting is counted outside of the loop over the selected ones")
					}
				}
			}
			if len(efs) == 0 && !over {
				v, k := nonEmpty(o.st.f, list)
				bv, bk := false, true
				if sel.ib >= 0 {
					bv, bk = o.st.f.query(resOf(se, sel.ib))
				}
				r.check(k && !v && bk && !bv, "nothing", con, pos, "a transaction or posting that was selected has no effect")
			}
		}
	}
	if r.counts["counted"] == 0 {
		r.bad("counted", "balance", "-", "the balance report does not go through the selected postings")
	}
}

func postingCalls(P *Prog, ev []*Event) (l []*Event) {
	allEvents(ev, func(e *Event, it *Iter) {
		if e.kind == "call" && P.takesPosting(e.fn) {
			l = append(l, e)
		}
	})
	return
}

func usesElem(P *Prog, e *Event, L *LoopSum) bool {
	for i, p := range e.fn.Params {
		if named(p.Type()) == "*journal.Posting" && i < len(e.args) {
			return isElem(e.args[i], L)
		}
	}
	return false
}

func filterLoops(o *Outcome) (l []*LoopSum) {
	for _, L := range loopsIn(o.st.ev) {
		if L.seq != nil && isFilters(L.seq.typ) {
			l = append(l, L)
		}
	}
	return
}

func isFilterElem(t *Term) bool {
	return t.any(func(u *Term) bool {
		return (u.op == "iaddr" || u.op == "elem") && isFilters(u.a[0].typ) && u.a[0].op != "slice"
	})
}

// partial judges the path on which the postings that match are picked.
func partial(P *Prog, r *Report, sel *selector, p selPath, con, pos string) {
	o := p.o
	bad := func(f string) { r.bad("selection", con, pos, "%s", f) }
	if p.bool_ != nil {
		if v, k := o.st.f.query(p.bool_); k && v {
			bad("the transaction is said to match although no filter is known to match it")
			return
		}
	}
	fl := filterLoops(o)
	loop := false
	for _, L := range fl {
		if !wholeList(L.seq) {
			bad("not every filter is tried")
			return
		}
		calls := 0
		for _, it := range L.iters {
			for _, e := range it.ev {
				if e.kind != "call" || !isFilterMatch(e.fn) {
					continue
				}
				calls++
				if !isFilterElem(e.args[0]) {
					bad("something other than each filter is tried")
					return
				}
				for i := 0; i < e.fn.Signature.Results().Len(); i++ {
					if rs := resOf(e, i); isBoolean(rs.typ) {
						if v, k := it.st.f.query(rs); !k || v {
							bad("a filter that matches the transaction as a whole does not select all of its postings")
							return
						}
					}
				}
			}
		}
		if calls > 0 {
			loop = true
			if !exhausted(o.st.ev, L) {
				bad("the filters are left before each has been tried")
				return
			}
		}
	}
	if !loop {
		// a loop that is exhausted at once has no iterations to look at
		if len(fl) == 0 {
			bad("the filters are not tried one by one")
			return
		}
	}
	if p.none {
		if es, ok := P.newInterp(Opts{}).elems(o.st, p.list); ok && len(es) == 0 {
			// nothing was marked
			if !saysEmpty(o.st.f, func(l *Term) bool { return !isFilters(l.typ) }) {
				bad("nothing is selected although postings may have matched")
				return
			}
		}
		r.ok("selection", con)
		return
	}
	L, ph := appendsOf(o, p.list)
	if L == nil {
		r.notes = append(r.notes, con+": how the postings are picked is not followed")
		r.ok("selection", con)
		return
	}
	if L.seq == nil || path(L.seq) != path(p.t)+".Postings" {
		bad("the postings are not picked in the order of the transaction, each once")
		return
	}
	if !exhausted(o.st.ev, L) {
		bad("the postings are left before each has been looked at")
		return
	}
	if !emptyList(ph.init) {
		bad("the selection does not begin empty")
		return
	}
	for _, l := range fl {
		if inLoop(l, L) {
			bad("postings are picked once per filter")
			return
		}
	}
	for _, it := range L.iters {
		es, ok := appended(it, ph)
		if !ok || len(es) > 1 || len(es) == 1 && !isElem(es[0], L) {
			bad("a posting is picked more than once, or another one in its place")
			return
		}
		mark := 0
		var M *Term
		for _, x := range it.facts {
			pol := 1
			if x.op == "not" {
				pol, x = -1, x.a[0]
			}
			if x.op == "load" && (x.a[0].op == "maddr" || x.a[0].op == "mhas") && isElem(x.a[0].a[1], L) {
				mark, M = pol, x.a[0].a[0]
			}
		}
		if mark == 0 {
			// a nested search
			for _, x := range it.facts {
				if x.op == "call" || x.op == "res" {
					mark = 2
				}
			}
			for _, e := range it.ev {
				if e.kind == "loop" || e.kind == "call" {
					mark = 2
				}
			}
			if mark == 0 {
				bad("whether a posting is picked does not depend on the filters")
				return
			}
			r.notes = append(r.notes, con+": how a posting is found to match is not followed")
			continue
		}
		if mark == 1 && len(es) == 0 {
			bad("a posting that a filter matches is left out")
			return
		}
		if mark == -1 && len(es) == 1 {
			bad("a posting that no filter matches is picked")
			return
		}
		// every posting a filter matches is marked, and no other
		if w := marks(o, fl, M); w != "" {
			bad(w)
			return
		}
	}
	r.ok("selection", con)
}

// saysEmpty: the length of such a list or map is known to be zero.
func saysEmpty(f *Facts, is func(l *Term) bool) bool {
	done := map[*Term]bool{}
	found := false
	for _, x := range f.list {
		x.any(func(u *Term) bool {
			if u.op == "len" && u.a[0].typ != nil && is(u.a[0]) && !done[u] {
				done[u] = true
				if v, k := f.query(le0T(u)); k && v {
					found = true
				}
			}
			return false
		})
	}
	return found
}

func inLoop(outer, inner *LoopSum) bool {
	found := false
	for _, it := range outer.iters {
		allEvents(it.ev, func(e *Event, _ *Iter) { found = found || e.kind == "loop" && e.loop.head == inner.head })
	}
	return found
}

// marks: the map gets exactly the postings the filters return.
func marks(o *Outcome, fl []*LoopSum, M *Term) string {
	for _, L := range fl {
		for _, it := range L.iters {
			for _, e := range it.ev {
				if e.kind != "call" || !isFilterMatch(e.fn) {
					continue
				}
				for i := 0; i < e.fn.Signature.Results().Len(); i++ {
					rs := resOf(e, i)
					if !isPostings(rs.typ) {
						continue
					}
					ok := false
					for _, x := range it.ev {
						if x.kind != "loop" || x.loop.seq != rs {
							continue
						}
						ok = exhausted(it.ev, x.loop)
						for _, i2 := range x.loop.iters {
							has := false
							for _, y := range i2.ev {
								if y.kind == "mapset" && y.args[0] == M && isElem(y.args[1], x.loop) && (!isBoolean(y.args[2].typ) || y.args[2].op == "bool" && y.args[2].n == 1) {
									has = true
								}
							}
							ok = ok && has
						}
					}
					if !ok {
						return "a posting that a filter matches is not marked"
					}
				}
			}
		}
	}
	bad := ""
	allEvents(o.st.ev, func(e *Event, it *Iter) {
		if e.kind == "mapset" && e.args[0] == M {
			k := e.args[1]
			if !k.any(func(u *Term) bool { return u.op == "res" || u.op == "call" }) {
				bad = "a posting is marked that no filter has returned"
			}
		}
		if e.kind == "mapdel" && e.args[0] == M {
			bad = "a posting that a filter matches is unmarked"
		}
	})
	return bad
}
