package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C10"] = Check{"path-sensitive dataflow over the lexer's and builder's SSA: every accepting path accounts for the whole line", checkC10}
}

// scanner is a method of the lexer that consumes part of a line.
type scanner struct {
	f     *ssa.Function
	takes bool // returns the text it consumed
	toEnd bool // consumes everything up to the end of the line
	blank bool // consumes blanks only
	outs  []*Outcome
}

func isRunes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Int32 || b.Kind() == types.Uint8)
}

// scanners finds the methods of the lexer that loop over the runes of a line.
func scanners(P *Prog, r *Report) map[*ssa.Function]*scanner {
	m := map[*ssa.Function]*scanner{}
	for _, f := range P.Funcs {
		if f.Pkg != P.byPkg["parser"] || len(f.Params) == 0 || named(f.Params[0].Type()) != "*parser.lexer" || f.Parent() != nil ||
			returnsError(f) || f.Signature.Results().Len() > 2 {
			continue
		}
		takes := false
		for i := 0; i < f.Signature.Results().Len(); i++ {
			t := f.Signature.Results().At(i).Type()
			takes = takes || (isRunes(t) || isString(t)) && P.moves(f)
		}
		if !hasLoop(f) && !callsLooping(P, f) && !takes {
			continue
		}
		m[f] = &scanner{f: f}
	}
	for _, s := range m {
		for i := 0; i < s.f.Signature.Results().Len(); i++ {
			t := s.f.Signature.Results().At(i).Type()
			s.takes = s.takes || isRunes(t) || isString(t)
		}
		s.outs = r.exec(s.f, Opts{})
		s.toEnd, s.blank = len(s.outs) > 0, len(s.outs) > 0
		self := paramT(s.f.Params[0], 0)
		for _, o := range s.outs {
			if o.panic || o.exit {
				continue
			}
			if !atEnd(o, self, 0) {
				s.toEnd = false
			}
			for _, L := range loopsIn(o.st.ev) {
				for _, it := range L.iters {
					for _, c := range consumedIn(it) {
						if !blankRune(it.st.f, c) {
							s.blank = false
						}
					}
				}
			}
		}
	}
	return m
}

func callsLooping(P *Prog, f *ssa.Function) bool {
	return len(callsTo(f, func(g *ssa.Function) bool {
		return len(g.Params) > 0 && named(g.Params[0].Type()) == "*parser.lexer" && !returnsError(g) && hasLoop(g)
	})) > 0
}

// atEnd: at most n bytes of the line are left when the path ends.
func atEnd(o *Outcome, self *Term, n int64) bool {
	pos := fieldAt(o.st, self, "pos")
	in := fieldAt(o.st, self, "input")
	if pos == nil || in == nil {
		return false
	}
	at := le0T(addN(subT(lenT(in), pos), -n))
	if v, k := o.st.f.query(at); k {
		return v
	}
	c := newCrash(theProg, nil)
	return c.holds(o.st.f, o.st.ev, at, 2)
}

// consumedIn lists the runes by whose width an iteration moves the position.
func consumedIn(it *Iter) []*Term {
	var l []*Term
	seen := map[*Term]bool{}
	for _, e := range it.ev {
		if e.kind != "store" || !isField(e.args[0], "parser.lexer", "pos") {
			continue
		}
		for _, w := range linArgs(e.args[1]) {
			if w.op == "runew" && !seen[w] {
				seen[w] = true
				l = append(l, mkT("rune", "", 0, types.Typ[types.Rune], w.a[0]))
			}
		}
	}
	return l
}

func linArgs(t *Term) []*Term {
	if t.op == "lin" {
		return t.a
	}
	return []*Term{t}
}

// blankRune: the rune is known to be a blank.
func blankRune(f *Facts, r *Term) bool {
	if onlyRunes(f, r, " \t\n\v\f\r\u0085\u00a0") {
		return true
	}
	for t, v := range f.truth {
		if v && t.op == "pure" && strings.HasPrefix(t.s, "unicode.IsSpace") && t.a[0] == r {
			return true
		}
	}
	return false
}

// onlyRunes: the facts leave the rune no value outside of set.
func onlyRunes(f *Facts, r *Term, set string) bool {
	for t, v := range f.truth {
		if v && t.op == "pure" && (t.s == "strings.ContainsRune" || t.s == "bytes.ContainsRune") && t.a[0].op == "str" && t.a[1] == r {
			ok := t.a[0].s != ""
			for _, c := range t.a[0].s {
				ok = ok && strings.ContainsRune(set, c)
			}
			if ok {
				return true
			}
		}
	}
	rs := []rune(set)
	// the gaps between the allowed values
	lo := int64(-1 << 31)
	gaps := [][2]int64{}
	sortRunes(rs)
	for _, c := range rs {
		if int64(c) > lo {
			gaps = append(gaps, [2]int64{lo, int64(c) - 1})
		}
		lo = int64(c) + 1
	}
	gaps = append(gaps, [2]int64{lo, 1 << 31})
	for _, g := range gaps {
		h := f.clone()
		if h.assume(le0T(addN(scaleT(r, -1, r.typ), g[0])), true) && h.assume(le0T(addN(r, -g[1])), true) {
			return false
		}
	}
	return true
}

func sortRunes(l []rune) {
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if l[j] < l[i] {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
}

const commentMarks = ";#"

func checkC10(P *Prog, r *Report) {
	r.rule("understood", "lexing a line succeeds without handing anything on only if the line is blank or begins with a comment indicator", 2)
	r.rule("taken", "text taken from a line is handed on, compared with a keyword, known to be empty or known to be a comment, whenever lexing the line succeeds", 5)
	r.rule("rest", "lexing a line succeeds only after the whole line was consumed", 4)
	r.rule("handled", "every item is given to the builder or ends the open transaction, unless an error is returned", 8)
	r.rule("recorded", "an item the builder accepts within a transaction is recorded", 8)
	r.rule("outside", "outside of a transaction an item other than a comment is an error", 4)
	r.rule("lines", "every line read is lexed exactly once and none is cut off", 2)
	line, lex, sw := lineLexer(P), lineLoop(P), itemSwitch(P)
	if line == nil || lex == nil || sw == nil {
		r.bad("understood", "(*parser.lexer).lexLine", "-", "the code that lexes a line cannot be found")
		return
	}
	its := P.items()
	sc := scanners(P, r)
	self := paramT(line.Params[0], 0)
	pos := P.pos(line.Pos())
	outs := r.exec(line, Opts{opaque: func(g *ssa.Function) bool { return sc[g] != nil }})
	if len(outs) == 0 {
		r.bad("understood", fname(line), pos, "its paths cannot be enumerated")
	}
	for _, o := range outs {
		if !succeeds(o) {
			continue
		}
		var items []*Event
		var scans []*Event
		allEvents(o.st.ev, func(e *Event, it *Iter) {
			if _, _, is := parserCall(e); is {
				items = append(items, e)
			} else if sc[e.fn] != nil {
				scans = append(scans, e)
			}
		})
		where := pos
		con := fname(line)
		if len(items) > 0 {
			last := items[len(items)-1]
			where = P.ipos(last.in)
			con = fname(last.in.Parent())
			if v, known, _ := parserCall(last); known {
				con += " ending with " + itemName(its, v)
			}
		} else if len(scans) > 0 {
			where = P.ipos(scans[len(scans)-1].in)
			con = fname(scans[len(scans)-1].in.Parent())
		}
		in := fieldAt(entryState(o.st.f), self, "input")
		p0 := fieldAt(entryState(o.st.f), self, "pos")
		first := mkT("rune", "", 0, types.Typ[types.Rune], mkT("slice", "", 0, in.typ, in, p0, lenT(in)))
		comment := onlyRunes(o.st.f, first, commentMarks)
		if len(items) == 0 {
			ok := comment
			if !ok {
				ok = atEnd(o, self, 0) && blankRune(o.st.f, first)
				for _, e := range scans {
					ok = ok && sc[e.fn].blank
				}
			}
			r.check(ok, "understood", con, where, "a line that is neither blank nor a comment may be accepted without any effect")
			if comment {
				continue
			}
		}
		for _, e := range scans {
			if !sc[e.fn].takes {
				continue
			}
			r.check(accounted(o, e, items), "taken", fname(e.fn)+" in "+fname(e.in.Parent()), P.ipos(e.in), "the text taken here may be dropped although the line is accepted")
		}
		if len(items) == 0 {
			continue
		}
		end := atEnd(o, self, 1)
		if len(scans) > 0 && sc[scans[len(scans)-1].fn].toEnd {
			end = true
		}
		if v, known := o.st.f.query(eq0T(lenT(in))); known && v {
			end = true
		}
		if v, known := o.st.f.query(le0T(subT(lenT(in), p0))); known && v {
			end = true
		}
		r.check(end, "rest", con, where, "the rest of the line may be ignored")
	}
	// the item switch
	m := buildOf(P, r)
	end := ender(P)
	if m == nil || end == nil {
		r.bad("handled", fname(sw), P.pos(sw.Pos()), "the builder cannot be found")
		return
	}
	itemP, _ := itemParam(sw)
	for _, o := range r.exec(sw, Opts{opaque: opaqueFns(end, m.f, lex, P.fn("parser", "newLexer"))}) {
		if !succeeds(o) || !comparesOnly(o.st.f.list, itemP) {
			continue
		}
		n := 0
		allEvents(o.st.ev, func(e *Event, it *Iter) {
			if e.fn == m.f || e.fn == lex {
				n++
			}
		})
		for name := range itemsWith(o.st.f, itemP, its) {
			if name == "emptyLineItem" || name == "eofItem" {
				continue
			}
			r.check(n > 0, "handled", name, P.pos(sw.Pos()), "it may have no effect")
		}
	}
	for i := range m.paths {
		p := &m.paths[i]
		switch p.item {
		case "emptyLineItem", "includeItem", "eofItem":
			continue
		}
		if p.item == "periodItem" && !p.periodic || p.item == "dateItem" && p.periodic || !p.ok {
			continue
		}
		n := len(recorded(m, effects(p.o)))
		if !p.inside {
			r.check(p.item == "commentItem", "outside", p.con(), P.pos(m.f.Pos()), "it is accepted outside of a transaction")
			continue
		}
		r.check(n > 0 || rewrites(p.o), "recorded", p.con(), P.pos(m.f.Pos()), "it is accepted without being recorded")
	}
	for i := range m.paths {
		if p := &m.paths[i]; !p.inside && !p.ok {
			r.ok("outside", p.con())
		}
	}
	r.lines(lex, line, its["eofItem"])
	// a line longer than the buffer
	for _, o := range r.exec(lex, Opts{opaque: opaqueFns(line)}) {
		for _, e := range o.st.ev {
			if e.kind != "loop" {
				continue
			}
			for _, it := range e.loop.iters {
				for _, x := range it.ev {
					if x.name != "(*bufio.Reader).ReadLine" {
						continue
					}
					v, known := it.st.f.query(mkT("res", "", 1, tBool, x.res))
					r.check(known && !v, "lines", "isPrefix", P.ipos(x.in), "a line longer than the buffer is cut without notice")
				}
			}
		}
	}
}

// rewrites: the path stores something into the transaction, if only what was there.
func rewrites(o *Outcome) bool {
	n := 0
	for _, e := range effects(o) {
		if e.kind == "store" {
			n++
		}
	}
	return n > 1
}

func itemName(its map[string]int64, v int64) string {
	for n, x := range its {
		if x == v {
			return n
		}
	}
	return "?"
}

// accounted: what a taker returned is handed on, or known to be nothing of interest.
func accounted(o *Outcome, e *Event, items []*Event) bool {
	for _, c := range items {
		if c.args[len(c.args)-1].contains(e.res) {
			return true
		}
	}
	text := e.res
	if e.fn.Signature.Results().Len() > 1 {
		for i := 0; i < e.fn.Signature.Results().Len(); i++ {
			if t := e.fn.Signature.Results().At(i).Type(); isRunes(t) || isString(t) {
				text = mkT("res", "", int64(i), t, e.res)
			}
		}
	}
	if v, known := o.st.f.query(eq0T(lenT(text))); known && v {
		return true
	}
	for _, f := range o.st.f.list {
		if (f.op == "eq0" || f.op == "eq") && f.contains(text) && f.any(func(u *Term) bool { return u.op == "str" && u.s != "" }) {
			return true
		}
	}
	// its first rune is a comment indicator
	ok := false
	for _, f := range o.st.f.list {
		f.any(func(u *Term) bool {
			if (u.op == "load" && u.a[0].op == "iaddr" && u.a[0].a[0] == text && u.a[0].a[1].op == "int" && u.a[0].a[1].n == 0 ||
				u.op == "elem" && u.a[0] == text && u.a[1].op == "int" && u.a[1].n == 0) && onlyRunes(o.st.f, u, commentMarks) {
				ok = true
			}
			return false
		})
	}
	return ok
}

// moves: it changes a number the receiver keeps, itself or through its other methods.
func (P *Prog) moves(f *ssa.Function) bool {
	for g := range P.reaches(f) {
		if g.Signature.Recv() == nil || !types.Identical(g.Signature.Recv().Type(), f.Signature.Recv().Type()) {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && isIntType(s.Val.Type()) {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && len(g.Params) > 0 && fa.X == ssa.Value(g.Params[0]) {
						return true
					}
				}
			}
		}
	}
	return false
}
