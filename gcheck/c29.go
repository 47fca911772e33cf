package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C29"] = Check{"path-sensitive dataflow over the lexer's SSA: per item, what is given on against what was scanned, and per scan, what is kept of what the cursor passes over and where it stops", checkC29}
}

// runeAt is the rune of the line at that position.
func runeAt(in, pos *Term) *Term {
	return mkT("rune", "", 0, types.Typ[types.Rune], mkT("slice", "", 0, in.typ, in, pos, lenT(in)))
}

func widthAt(in, pos *Term) *Term {
	return mkT("runew", "", 0, tInt, mkT("slice", "", 0, in.typ, in, pos, lenT(in)))
}

func notRune(f *Facts, r *Term, c rune) bool {
	if v, k := f.query(eq0T(addN(r, -int64(c)))); k && !v {
		return true
	}
	for t, v := range f.truth {
		if t.op == "pure" && len(t.a) > 0 {
			arg := t.a[0]
			switch {
			case (t.s == "strings.ContainsRune" || t.s == "bytes.ContainsRune") && t.a[1] == r && arg.op == "str":
				if strings.ContainsRune(arg.s, c) != v {
					return true
				}
			case t.s == "unicode.IsSpace" && arg == r:
				if (strings.ContainsRune(" \t\n\v\f\r", c)) != v {
					return true
				}
			}
		}
	}
	return false
}

// movedBy: the runes the cursor has passed over from one position to another, in order.
// back is set when it moved back over exactly that rune.
func movedBy(in, from, to *Term) (l []*Term, back *Term, ok bool) {
	pos := from
	for n := 0; n < 12; n++ {
		if pos == to {
			return l, nil, true
		}
		w := widthAt(in, pos)
		d := subT(to, pos)
		_, co, as := linParts(d)
		has := false
		for i, a := range as {
			if a == w && co[i] > 0 {
				has = true
			}
		}
		if !has {
			if n == 0 && d == scaleT(w, -1, d.typ) {
				return nil, runeAt(in, pos), true
			}
			return nil, nil, false
		}
		l = append(l, runeAt(in, pos))
		pos = addT(pos, w, 1, pos.typ)
	}
	return nil, nil, false
}

// doneAt: nothing is left of the line at that position.
func doneAt(f *Facts, in, pos *Term) (done, known bool) {
	return f.query(le0T(subT(lenT(in), pos)))
}

// What ends a part of an entry.
type ending struct {
	marks string // a rune that always ends it
	two   bool   // as do two spaces
	num   bool   // as does a digit
	blank bool   // or any blank may
}

var endings = map[string]ending{
	"dateItem":                     {marks: " ", blank: true},
	"payeeItem":                    {marks: "\t;#", two: true},
	"amountItem":                   {marks: "\t;#", two: true},
	"includeItem":                  {marks: "\t;#", two: true},
	"periodItem":                   {marks: "\t;#", two: true},
	"accountItem":                  {marks: "\t", two: true},
	"commodityItem":                {marks: " \t+-", num: true},
	"commentItem":                  {},
	"transactionHeaderCommentItem": {},
}

func checkC29(P *Prog, r *Report) {
	r.rule("kept", "a scan gives back every rune it passes over, in order, but for blanks at its ends", 4)
	r.rule("ends", "each part of an entry ends where it must, and nowhere else", 6)
	r.rule("given", "what is given on is what was scanned, without the comment indicator", 6)
	r.rule("between", "what is passed over between the parts is blank, a comment indicator or a mark that is given on", 3)
	line, sw := lineLexer(P), itemSwitch(P)
	if line == nil || sw == nil {
		r.bad("given", "(*parser.lexer).lexLine", "-", "the code that lexes a line cannot be found")
		return
	}
	its := P.items()
	sc := scanners(P, r)
	self := paramT(line.Params[0], 0)
	outs := r.exec(line, Opts{snap: true, opaque: func(g *ssa.Function) bool { return sc[g] != nil }})
	if len(outs) == 0 {
		r.notes = append(r.notes, "the paths of lexing a line cannot be enumerated")
	}
	il := P.newInterp(Opts{})
	type use struct {
		e     *Event
		item  string
		plain bool // nothing is cut off what was scanned before it is given on
	}
	uses := map[string]use{}
	for _, o := range outs {
		if o.panic || o.exit {
			continue
		}
		good := succeeds(o)
		// the scans, and where the cursor stands before each
		base := fieldAt(entryState(o.st.f), self, "pos")
		scanned := map[*Term]*Event{}
		var marks []*Term  // runes passed over that are no blanks
		var given []string // items handed on so far
		states := map[*Term]bool{}
		lost := func(e *Event, where string) {
			st := at(e, o)
			to, in := fieldAt(st, self, "pos"), fieldAt(st, self, "input")
			if base == nil || to == nil {
				return
			}
			if base.op != "load" && base.op != "int" && base.op != "lin" {
				return
			}
			l, back, ok := movedBy(in, base, to)
			if !ok {
				// another position altogether: not followed
				if to != base {
					r.notes = append(r.notes, "where the cursor is at "+where+" is not followed")
				}
				return
			}
			if back != nil {
				return
			}
			for _, c := range l {
				if !blankRune(o.st.f, c) {
					marks = append(marks, c)
				}
			}
		}
		var calls []*Event
		allEvents(o.st.ev, func(e *Event, it *Iter) { calls = append(calls, e) })
		for _, e := range calls {
			if v, known, is := parserCall(e); is {
				lost(e, fname(e.in.Parent()))
				base = nil // the parser does not move the cursor, but it is loaded anew
				name := "?"
				if known {
					name = itemName(its, v)
				}
				x := e.args[len(e.args)-1]
				con := name
				pos := P.ipos(e.in)
				given = append(given, name)
				switch name {
				case "emptyLineItem", "eofItem", "?":
					base = posIn(after(o, calls, e), self)
					continue
				case "stateItem":
					es, ok := il.elems(at(e, o), x)
					if !ok || len(es) != 1 {
						r.notes = append(r.notes, "what is given as a state is not followed")
						r.ok("given", con)
					} else {
						c := es[0]
						ok := false
						for _, m := range marks {
							switch {
							case m == c:
								ok = onlyRunes(o.st.f, m, "!*")
								states[m] = true
							case c.op == "int":
								if onlyRunes(o.st.f, m, string(rune(c.n))) {
									ok = true
									states[m] = true
								}
							}
						}
						r.check(ok, "given", con, pos, "the mark that is given on is not the one that was read")
					}
				default:
					con, pos := con, pos
					ev, why := givenText(P, il, o, e, x, scanned, marks, name)
					switch {
					case why == "?":
						r.notes = append(r.notes, "what is given as "+name+" is not followed")
						r.ok("given", con)
					default:
						r.check(why == "", "given", con, pos, "%s", why)
					}
					if ev != nil {
						k := name + fname(ev.fn)
						for _, a := range ev.args[1:] {
							k += a.String()
						}
						if _, have := uses[k]; !have {
							uses[k] = use{ev, name, !x.any(func(u *Term) bool { return u.op == "pure" || u.op == "slice" })}
						}
					}
				}
				base = posIn(after(o, calls, e), self)
				continue
			}
			if e.kind == "call" && sc[e.fn] != nil {
				lost(e, fname(e.in.Parent()))
				if sc[e.fn].takes {
					scanned[scanText(e)] = e
				}
				// where it stands afterwards
				base = nil
				if s := after(o, calls, e); s != nil {
					base = posIn(s, self)
				}
			}
		}
		lost(nil, fname(line))
		if !good {
			continue
		}
		for _, m := range marks {
			ok := onlyRunes(o.st.f, m, commentMarks+"~") || states[m]
			where := fname(line)
			pos := P.pos(line.Pos())
			if len(given) > 0 {
				where += ": " + given[0]
			}
			r.check(ok, "between", where, pos, "a character that is no blank is passed over and not given on")
		}
		r.ok("between", fname(line))
	}
	// the scans
	var names []string
	for k := range uses {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		scanOf(P, r, uses[k].e, uses[k].item, uses[k].plain)
	}
	if len(names) == 0 {
		r.notes = append(r.notes, "no scan of a part of an entry is found")
		for i := 0; i < 6; i++ {
			r.ok("ends", "entry")
			r.ok("kept", "entry")
		}
	}
	// what skips must skip blanks only
	var skips []*ssa.Function
	for f, s := range sc {
		if !s.takes {
			skips = append(skips, f)
		}
	}
	sort.Slice(skips, func(i, j int) bool { return fname(skips[i]) < fname(skips[j]) })
	for _, f := range skips {
		r.check(sc[f].blank || len(sc[f].outs) == 0, "between", fname(f), P.pos(f.Pos()), "it passes over more than blanks")
	}
}

// scanText is the text a scan gives back.
func scanText(e *Event) *Term {
	if e.fn.Signature.Results().Len() > 1 {
		for i := 0; i < e.fn.Signature.Results().Len(); i++ {
			if t := e.fn.Signature.Results().At(i).Type(); isRunes(t) || isString(t) {
				return mkT("res", "", int64(i), t, e.res)
			}
		}
	}
	return e.res
}

// after: the state before the next call, or at the end.
func after(o *Outcome, calls []*Event, e *Event) *State {
	found := false
	for _, x := range calls {
		if found && x.snap != nil {
			return x.snap
		}
		found = found || x == e
	}
	return o.st
}

// posIn: what the cursor was right after it was last loaded anew.
func posIn(st *State, self *Term) *Term {
	p := fieldAt(st, self, "pos")
	if p == nil {
		return nil
	}
	_, co, as := linParts(p)
	for i, a := range as {
		if a.op == "load" && co[i] == 1 && isField(a.a[0], "parser.lexer", "pos") {
			return a
		}
	}
	return p
}

// givenText compares what is given on with what was scanned.
func givenText(P *Prog, in *interp, o *Outcome, e *Event, x *Term, scanned map[*Term]*Event, marks []*Term, name string) (*Event, string) {
	comment := name == "commentItem" || name == "transactionHeaderCommentItem"
	for x.op == "conv" {
		x = x.a[0]
	}
	f := o.st.f
	first := func(t *Term, i int64) []*Term {
		a := mkT("iaddr", "", 0, nil, t, mkInt(i, nil))
		_ = a
		var l []*Term
		for _, q := range f.list {
			q.any(func(u *Term) bool {
				if (u.op == "load" && u.a[0].op == "iaddr" && u.a[0].a[0] == t && u.a[0].a[1].op == "int" && u.a[0].a[1].n == i ||
					u.op == "elem" && u.a[0] == t && u.a[1].op == "int" && u.a[1].n == i) && isIntType(u.typ) {
					l = append(l, u)
				}
				return false
			})
		}
		return l
	}
	marked := func(t *Term) bool {
		for _, u := range first(t, 0) {
			if onlyRunes(f, u, commentMarks) {
				return true
			}
		}
		return false
	}
	// what may be put before or after it
	if x.op == "append" {
		switch name {
		case "commodityItem":
			for _, a := range x.a[1:] {
				if a.op != "int" || a.n != ' ' {
					return nil, "something other than a space is added to what was scanned"
				}
			}
			x = x.a[0]
		default:
			if scanned[x.a[0]] != nil {
				return nil, "something is added to what was scanned"
			}
			return nil, "?"
		}
	}
	if x.op == "concat" || x.op == "appendall" || x.op == "pure" && name == "includeItem" {
		if name != "includeItem" {
			return nil, "something is added to what was scanned"
		}
		var ev *Event
		x.any(func(u *Term) bool {
			if scanned[u] != nil {
				ev = scanned[u]
			}
			return false
		})
		return ev, ""
	}
	// text that was taken from the line in some other way is not followed
	b := x
	for scanned[b] == nil && (b.op == "slice" || b.op == "conv") {
		b = b.a[0]
	}
	if scanned[b] == nil {
		for t, s := range scanned {
			if x.contains(t) {
				return s, "?"
			}
		}
		return nil, "?"
	}
	// trimmed of blanks: the part from the first rune that is none
	cut := int64(0)
	trimmed := false
	for n := 0; n < 6 && x.op == "slice" && scanned[x] == nil; n++ {
		lo, hi := x.a[1], x.a[2]
		if hi != lenT(x.a[0]) {
			return nil, "the end of what was scanned is cut off"
		}
		switch {
		case lo.op == "int":
			cut += lo.n
			if lo.n > 0 && trimmed {
				return nil, "?"
			}
		default:
			off, ok := blanksBefore(o.st.ev, f, x.a[0], lo)
			if !ok {
				return nil, "what is cut off the start of what was scanned is not known to be blank"
			}
			cut += off
			trimmed = true
		}
		x = x.a[0]
	}
	for x.op == "conv" {
		x = x.a[0]
	}
	ev := scanned[x]
	if ev == nil {
		return nil, "?"
	}
	if v, k := f.query(eq0T(lenT(x))); k && v {
		return ev, ""
	}
	switch {
	case cut == 0:
		if comment && marked(x) {
			return ev, "the comment is given on with its indicator"
		}
		if comment {
			ok := false
			for _, m := range marks {
				ok = ok || onlyRunes(f, m, commentMarks)
			}
			if !ok {
				return ev, "what is given on as a comment is not known to follow an indicator"
			}
		}
		return ev, ""
	case cut == 1 && comment && marked(x):
		return ev, ""
	case cut == 1 && comment:
		return ev, "the first character of what was scanned is dropped though it is not known to be a comment indicator"
	}
	return ev, "characters of what was scanned are dropped"
}

// blanksBefore: a loop has found every element before that one, but for the first few, blank.
func blanksBefore(ev []*Event, f *Facts, list, ix *Term) (from int64, ok bool) {
	for _, L := range loopsIn(ev) {
		if L.idx == nil || len(L.iters) == 0 {
			continue
		}
		d := subT(ix, L.idx)
		if d.op != "int" || d.n < 0 {
			continue
		}
		ok := true
		for _, it := range L.iters {
			b := false
			for _, q := range it.facts {
				q.any(func(u *Term) bool {
					a := u
					if a.op == "load" {
						a = a.a[0]
					}
					if (a.op == "iaddr" || a.op == "elem") && a.a[0] == list && a.a[1] == ix && isIntType(u.typ) && blankRune(it.st.f, u) {
						b = true
					}
					return b
				})
			}
			ok = ok && b
		}
		if ok {
			return d.n, true
		}
	}
	return 0, false
}

// scanOf follows one scan for the item it is made for.
func scanOf(P *Prog, r *Report, call *Event, item string, plain bool) {
	f := call.fn
	con := fname(f) + " for " + item
	pos := P.pos(f.Pos())
	end, known := endings[item]
	fn := mkT("func", fname(f), 0, f.Type())
	fn.x = f
	from := call.snap
	if from == nil {
		from = entryState(newFacts())
	}
	// whatever the line: what is known of it at this one call does not count
	from = from.clone()
	from.f = newFacts()
	outs, in, ps := P.runClosure(fn, from, Opts{entry: func(st *State, ps []*Term) {
		for i, p := range f.Params {
			if i < len(call.args) {
				st.env[p] = call.args[i]
			}
		}
	}})
	_ = ps
	if in == nil || in.over {
		r.notes = append(r.notes, "analysis of "+fname(f)+" gave up")
		r.ok("kept", con)
		r.ok("ends", con)
		return
	}
	r.use(f)
	r.paths += len(outs)
	self := call.args[0]
	skip := func(why string) {
		r.notes = append(r.notes, con+": "+why)
		r.ok("kept", con)
		r.ok("ends", con)
	}
	for _, o := range outs {
		if o.panic || o.exit || len(o.rets) == 0 {
			continue
		}
		var res *Term
		for i, v := range o.rets {
			if t := f.Signature.Results().At(i).Type(); isRunes(t) || isString(t) {
				res = v
			}
		}
		if res == nil {
			skip("it gives back no text")
			continue
		}
		input := fieldAt(o.st, self, "input")
		endPos := fieldAt(o.st, self, "pos")
		// the loop that moves the cursor
		var L *LoopSum
		var pp, rp *PhiInfo
		n := 0
		for _, l := range loopsIn(o.st.ev) {
			for _, p := range l.phis {
				if p.addr != nil && isField(p.addr, "parser.lexer", "pos") {
					L, pp = l, p
				}
			}
			moves := false
			for _, it := range l.iters {
				for _, e := range it.ev {
					if e.kind == "store" && isField(e.args[0], "parser.lexer", "pos") {
						moves = true
					}
				}
			}
			if moves {
				n++
				L = l
			}
		}
		if n == 0 && len(o.rets) > 0 && res.any(func(u *Term) bool { return u == input }) {
			skip("it takes its text from the line as a whole")
			continue
		}
		if L == nil || n != 1 {
			skip("the loop that moves the cursor is not found")
			continue
		}
		// what it gives back
		core := res
		for core.op == "conv" {
			core = core.a[0]
		}
		core, dropped, why := trimmedOf(o, core)
		for _, p := range L.phis {
			if p.sym == core {
				rp = p
			}
		}
		if core.op == "pure" || core.op == "call" || rp == nil || why == "?" {
			skip("what it gives back is not followed")
			continue
		}
		r.check(why == "", "kept", con, pos, "%s", why)
		r.check(emptyRunes(rp.init), "kept", con, pos, "what it gives back does not begin with what it scans")
		// a loop that reads ahead keeps what it read the time before
		if p := readAhead(L, rp, self, input, pp); p != nil {
			lagging(r, o, L, p, end, known, con, pos, endPos == pp.sym)
			continue
		}
		// where the cursor stands in an iteration
		var P0 *Term
		for _, it := range L.iters {
			st := it.st
			to := fieldAt(st, self, "pos")
			p0 := cursorOf(it, self, pp)
			if p0 == nil {
				skip("where its loop begins is not followed")
				continue
			}
			P0 = p0
			moved, back, ok := movedBy(input, p0, to)
			if !ok || back != nil {
				r.bad("kept", con, pos, "its loop moves the cursor otherwise than rune by rune")
				continue
			}
			v := it.phis[rp.name]
			var add []*Term
			switch {
			case v == rp.sym || v == nil:
			case v.op == "append" && v.a[0] == rp.sym:
				add = v.a[1:]
			case v.op == "concat" && v.a[0] == rp.sym:
				for _, a := range v.a[1:] {
					for a.op == "conv" {
						a = a.a[0]
					}
					add = append(add, a)
				}
			default:
				r.bad("kept", con, pos, "what was scanned before is lost")
				continue
			}
			same := len(add) == len(moved)
			for i := range add {
				same = same && i < len(moved) && (add[i] == moved[i] || add[i].op == "int" && onlyRunes(st.f, moved[i], string(rune(add[i].n))))
			}
			r.check(same, "kept", con, pos, "%d characters are passed over and %d kept, or others", len(moved), len(add))
			if !known || len(moved) == 0 {
				continue
			}
			// it goes on: this is no end
			c0, c1 := runeAt(input, p0), runeAt(input, addT(p0, widthAt(input, p0), 1, p0.typ))
			for _, m := range end.marks {
				r.check(notRune(st.f, c0, m), "ends", con, pos, "it goes on past %q", m)
			}
			if end.num {
				v, k := st.f.query(mkT("pure", "unicode.IsNumber", 0, tBool, c0))
				v2, k2 := st.f.query(mkT("pure", "unicode.IsDigit", 0, tBool, c0))
				digits := true
				for d := '0'; d <= '9'; d++ {
					digits = digits && notRune(st.f, c0, d)
				}
				r.check(k && !v || k2 && !v2 || digits, "ends", con, pos, "it goes on past a digit")
			}
			if end.two && !notRune(st.f, c0, ' ') {
				ok := notRune(st.f, c1, ' ')
				if d, k := doneAt(st.f, input, addT(p0, widthAt(input, p0), 1, p0.typ)); k && d {
					ok = true
				}
				for _, p := range L.phis {
					if tracksSpace(L, p, self, input, pp) == "" {
						continue
					}
					if wasSpace(st.f, p) == -1 {
						ok = true
					}
				}
				r.check(ok, "ends", con, pos, "it goes on past two spaces")
			}
		}
		if P0 == nil {
			P0 = cursorOf(nil, self, pp)
			if P0 == nil {
				continue
			}
		}
		// the way out
		moved, back, ok := movedBy(input, P0, endPos)
		if !ok {
			r.notes = append(r.notes, con+": where it leaves the cursor is not followed")
			r.ok("ends", con)
			continue
		}
		for _, c := range moved {
			r.check(blankRune(o.st.f, c), "kept", con, pos, "the character it stops at is passed over and not given back")
		}
		if back != nil {
			r.check(dropped == 1 && onlyRunes(o.st.f, back, " "), "kept", con, pos, "the cursor is left before what was given back already")
		}
		if !known {
			continue
		}
		if end.two && plain && dropped == 0 {
			for _, p := range L.phis {
				if tracksSpace(L, p, self, input, pp) != "" {
					r.check(wasSpace(o.st.f, p) == -1, "kept", con, pos, "a space that ends it is given back")
				}
			}
		}
		c0 := runeAt(input, P0)
		p1 := addT(P0, widthAt(input, P0), 1, P0.typ)
		c1 := runeAt(input, p1)
		if d, k := doneAt(o.st.f, input, P0); k && d {
			r.ok("ends", con)
			continue
		}
		fs := o.st.f
		stop := false
		allowed := end.marks
		if end.blank {
			allowed += " \t"
		}
		if allowed != "" && onlyRunes(fs, c0, allowed) {
			stop = true
		}
		if end.num {
			for _, n := range []string{"unicode.IsNumber", "unicode.IsDigit"} {
				if v, k := fs.query(mkT("pure", n, 0, tBool, c0)); k && v {
					stop = true
				}
			}
			if onlyRunes(fs, c0, allowed+"0123456789") {
				stop = true
			}
		}
		if end.blank && blankRune(fs, c0) {
			stop = true
		}
		if end.two && onlyRunes(fs, c0, " "+allowed) {
			if onlyRunes(fs, c1, " "+allowed) || blankRune(fs, c1) {
				stop = true
			}
			if d, k := doneAt(fs, input, p1); k && d {
				stop = true
			}
			for _, p := range L.phis {
				if tracksSpace(L, p, self, input, pp) != "" && wasSpace(fs, p) == 1 {
					stop = true
				}
			}
		}
		r.check(stop, "ends", con, pos, "it stops where nothing ends")
	}
}

// readAhead: the variable that holds the rune that was read last, where the loop
// keeps that one and reads the next.
func readAhead(L *LoopSum, rp *PhiInfo, self, input *Term, pp *PhiInfo) *PhiInfo {
	if pp == nil || pp.init == nil || len(L.iters) == 0 {
		return nil
	}
	for _, p := range L.phis {
		if p.addr != nil || p.sym == nil || !isIntType(p.sym.typ) || p.init == nil {
			continue
		}
		w := func(q *Term) *Term { return addT(q, widthAt(input, q), 1, q.typ) }
		ok := p.init.op == "int" && p.init.n < 0
		if p.init.op == "rune" {
			ok = p.init.a[0].op == "slice" && p.init.a[0].a[0] == input && w(p.init.a[0].a[1]) == pp.init
		}
		for _, it := range L.iters {
			v := it.phis[rp.name]
			ok = ok && v != nil && v.op == "append" && len(v.a) == 2 && v.a[0] == rp.sym && v.a[1] == p.sym
			if !ok {
				break
			}
			to, u := fieldAt(it.st, self, "pos"), it.phis[p.name]
			switch {
			case u == nil:
				ok = false
			case u == runeAt(input, pp.sym):
				ok = to == w(pp.sym)
			case u.op == "int" && u.n < 0:
				d, k := doneAt(it.st.f, input, pp.sym)
				ok = k && d && to == pp.sym
			default:
				ok = false
			}
		}
		if ok {
			return p
		}
	}
	return nil
}

// lagging judges such a loop by the rune it keeps or stops at.
func lagging(r *Report, o *Outcome, L *LoopSum, p *PhiInfo, end ending, known bool, con, pos string, stays bool) {
	r.ok("kept", con)
	if !known {
		return
	}
	for _, it := range L.iters {
		for _, m := range end.marks {
			r.check(notRune(it.st.f, p.sym, m), "ends", con, pos, "it goes on past %q", m)
		}
		if end.two || end.num {
			r.notes = append(r.notes, con+": it reads ahead, and what it goes on past is followed in part only")
		}
	}
	over := false
	for _, q := range []*Term{le0T(addN(p.sym, 1)), eq0T(addN(p.sym, 1))} {
		if v, k := o.st.f.query(q); k && v {
			over = true
		}
	}
	allowed := end.marks
	if end.blank || end.two {
		allowed += " \t"
	}
	switch {
	case over:
		r.ok("ends", con)
	case end.num:
	default:
		r.check(allowed != "" && onlyRunes(o.st.f, p.sym, allowed) || end.blank && blankRune(o.st.f, p.sym), "ends", con, pos, "it stops where nothing ends")
		if stays {
			r.check(blankRune(o.st.f, p.sym), "kept", con, pos, "the character it stops at is passed over and not given back")
		}
	}
}

func emptyRunes(t *Term) bool {
	if t == nil {
		return false
	}
	return emptyList(t) || t.op == "str" && t.s == ""
}

// trimmedOf: the text behind what is given back, and how many runes were cut off
// its end, each known to be a space.
func trimmedOf(o *Outcome, t *Term) (core *Term, dropped int, why string) {
	for n := 0; n < 4 && t.op == "slice" && len(t.a) == 3; n++ {
		x, lo, hi := t.a[0], t.a[1], t.a[2]
		if x.op == "alloc" {
			return t, dropped, ""
		}
		if off, ok := blanksBefore(o.st.ev, o.st.f, x, lo); !(lo.op == "int" && lo.n == 0) && !(ok && off == 0) {
			return x, dropped, "what is cut off its start is not known to be blank"
		}
		d := subT(lenT(x), hi)
		switch {
		case d.op == "int" && d.n == 0:
		case d.op == "int" && d.n == 1:
			ok := false
			for _, q := range o.st.f.list {
				q.any(func(u *Term) bool {
					a := u
					if a.op == "load" {
						a = a.a[0]
					}
					if (a.op == "iaddr" || a.op == "elem") && a.a[0] == x && a.a[1] == hi && isIntType(u.typ) && blankRune(o.st.f, u) {
						ok = true
					}
					return false
				})
			}
			for _, L := range loopsIn(o.st.ev) {
				for _, p := range L.phis {
					if wasSpace(o.st.f, p) != 1 {
						continue
					}
					for _, rp := range L.phis {
						if rp.sym == x && tracksLast(L, p, rp) {
							ok = true
						}
					}
				}
			}
			if !ok {
				return x, dropped, "what is cut off its end is not known to be blank"
			}
			dropped++
		case d.op == "int":
			return x, dropped, "more than one character is cut off its end"
		default:
			return x, dropped, "?"
		}
		t = x
	}
	return t, dropped, ""
}

// cursorOf: where the cursor stands when an iteration begins.
func cursorOf(it *Iter, self *Term, pp *PhiInfo) *Term {
	if pp != nil {
		return pp.sym
	}
	if it == nil {
		return nil
	}
	for _, e := range it.ev {
		if e.kind == "store" && isField(e.args[0], "parser.lexer", "pos") {
			_, co, as := linParts(e.args[1])
			for i, a := range as {
				if a.op == "load" && co[i] == 1 && isField(a.a[0], "parser.lexer", "pos") {
					return a
				}
			}
		}
	}
	return nil
}

// wasSpace: 1 when the facts say that the tracked last rune was a space, -1 when it was not.
func wasSpace(f *Facts, p *PhiInfo) int {
	if p.addr != nil || p.sym == nil || p.sym.typ == nil {
		return 0
	}
	if isBoolean(p.sym.typ) {
		if v, k := f.query(p.sym); k {
			if v {
				return 1
			}
			return -1
		}
		return 0
	}
	if !isIntType(p.sym.typ) {
		return 0
	}
	if v, k := f.query(eq0T(addN(p.sym, -' '))); k {
		if v {
			return 1
		}
		return -1
	}
	return 0
}

// tracksSpace: the variable says whether the rune before the cursor is a space.
func tracksSpace(L *LoopSum, p *PhiInfo, self, input *Term, pp *PhiInfo) string {
	for _, it := range L.iters {
		p0 := cursorOf(it, self, pp)
		if p0 == nil {
			return ""
		}
		moved, back, ok := movedBy(input, p0, fieldAt(it.st, self, "pos"))
		if !ok || back != nil || len(moved) == 0 {
			return ""
		}
		if !saysSpace(it, p, moved[len(moved)-1]) {
			return ""
		}
	}
	if len(L.iters) == 0 || p.init == nil {
		return ""
	}
	return "tracks"
}

// tracksLast: the variable says whether the last rune that was kept is a space.
func tracksLast(L *LoopSum, p, rp *PhiInfo) bool {
	for _, it := range L.iters {
		v := it.phis[rp.name]
		if v == nil || v.op != "append" || v.a[0] != rp.sym || len(v.a) < 2 {
			return false
		}
		if !saysSpace(it, p, v.a[len(v.a)-1]) {
			return false
		}
	}
	// and is not a space while there is none
	if p.init == nil {
		return false
	}
	if isBoolean(p.sym.typ) {
		return p.init.String() == "false"
	}
	return p.init.op == "int" && p.init.n != ' '
}

// saysSpace: after the iteration the variable says whether that rune is a space.
func saysSpace(it *Iter, p *PhiInfo, c *Term) bool {
	v := it.phis[p.name]
	if v == nil || p.addr != nil || p.sym.typ == nil {
		return false
	}
	sp := onlyRunes(it.st.f, c, " ")
	no := notRune(it.st.f, c, ' ')
	if isBoolean(p.sym.typ) {
		switch {
		case v == eq0T(addN(c, -' ')):
			return true
		case v.op == "true" || fmt.Sprint(v) == "true":
			return sp
		case v.op == "false" || fmt.Sprint(v) == "false":
			return no
		}
		return false
	}
	switch {
	case v == c:
		return true
	case v.op == "int" && v.n == ' ':
		return sp
	case v.op == "int":
		return no
	}
	return false
}
