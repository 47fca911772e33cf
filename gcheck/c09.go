package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// itemSwitch is the function that receives the items of the lexer and drives the builder.
func itemSwitch(P *Prog) *ssa.Function {
	return P.byRole("parser", "Parser.parseItem", func(f *ssa.Function) bool {
		return len(f.Params) == 3 && named(f.Params[0].Type()) == "*parser.Parser" && named(f.Params[1].Type()) == "parser.itemType" &&
			strings.Join(resultTypes(f), ",") == "error"
	})
}

// lineLoop is the method that reads a file line by line, lineLexer the one it gives each line to.
func lineLoop(P *Prog) *ssa.Function {
	return P.byRole("parser", "lexer.lex", func(f *ssa.Function) bool {
		return len(f.Params) == 1 && named(f.Params[0].Type()) == "*parser.lexer" && strings.Join(resultTypes(f), ",") == "error" && readsLines(P, f)
	})
}

func lineLexer(P *Prog) *ssa.Function {
	if f := P.fn("parser", "lexer.lexLine"); f != nil {
		return f
	}
	// the method the line loop calls that hands items on
	l := lineLoop(P)
	if l == nil {
		return nil
	}
	var best *ssa.Function
	for _, b := range l.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && len(g.Params) == 1 && named(g.Params[0].Type()) == "*parser.lexer" && strings.Join(resultTypes(g), ",") == "error" {
					best = g
				}
			}
		}
	}
	return best
}

var lineReaders = []string{"(*bufio.Reader).ReadLine", "(*bufio.Reader).ReadString", "(*bufio.Reader).ReadBytes", "(*bufio.Scanner).Scan", "(*bufio.Reader).ReadSlice"}

func isLineReader(n string) bool {
	for _, x := range lineReaders {
		if n == x {
			return true
		}
	}
	return false
}

func readsLines(P *Prog, f *ssa.Function) bool {
	ok := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, isC := in.(ssa.CallInstruction); isC {
				if g := c.Common().StaticCallee(); g != nil && isLineReader(g.RelString(nil)) {
					ok = hasLoop(f)
				}
			}
		}
	}
	return ok
}

// parserCall: a call of the lexer's item function; the item if it is a constant.
func parserCall(e *Event) (item int64, known, is bool) {
	if e.kind != "dyn" && e.kind != "call" || len(e.args) < 2 {
		return
	}
	n := len(e.args) - 2
	ci, isCI := e.in.(ssa.CallInstruction)
	if !isCI {
		return
	}
	sig := ci.Common().Signature()
	if k := sig.Params().Len(); k < 2 || named(sig.Params().At(k-2).Type()) != "parser.itemType" {
		return
	}
	if e.kind == "call" && (e.fn == nil || named(e.fn.Params[0].Type()) != "*parser.Parser") {
		return
	}
	if e.args[n].op == "int" {
		return e.args[n].n, true, true
	}
	return 0, false, true
}

// itemsWith lists the items a path of a function with that item parameter may have been given.
func itemsWith(f *Facts, itemP *Term, its map[string]int64) map[string]*Facts {
	m := map[string]*Facts{}
	for n, v := range its {
		g := f.clone()
		if g.assume(eq0T(addN(itemP, -v)), true) {
			m[n] = g
		}
	}
	return m
}

func itemParam(f *ssa.Function) (item, content *Term) {
	for i, p := range f.Params {
		t := paramT(p, i)
		if named(p.Type()) == "parser.itemType" {
			item = t
			if i+1 < len(f.Params) {
				q := f.Params[i+1]
				content = paramT(q, i+1)
			}
		}
	}
	return
}

func checkC09(P *Prog, r *Report) {
	r.rule("boundary", "an empty line, the end of a file, an include directive and the next header each end the open transaction exactly once and before anything else, and no other item does", 10)
	r.rule("begin", "a header begins a new empty transaction of its kind, with a new empty posting, and then hands its item to the builder", 2)
	r.rule("rest", "every other item is handed to the builder exactly once with its text", 5)
	r.rule("delivery", "ending an open transaction delivers exactly that transaction once to its handler, if there is one, and leaves no transaction open; with none open nothing is delivered", 4)
	r.rule("closed", "a handler is called only after the transaction it gets was closed successfully", 2)
	r.rule("lines", "every line read is lexed exactly once, and the end of the file is announced exactly once, after the last line", 2)
	r.rule("blank", "an empty line is announced exactly once", 1)
	r.rule("in-order", "transactions are delivered by direct calls, not deferred or concurrent ones", 1)

	sw := itemSwitch(P)
	end := ender(P)
	b := P.builder()
	m := buildOf(P, r)
	if sw == nil || end == nil || b == nil || m == nil {
		r.bad("boundary", "(*parser.Parser).parseItem", "-", "the code that ends transactions cannot be found")
		return
	}
	lex := lineLoop(P)
	line := lineLexer(P)
	its := P.items()
	base := b.base(P, sw)
	itemP, content := itemParam(sw)
	normal, _ := P.constOf("parser", "normalTransaction")
	peri, _ := P.constOf("parser", "periodicTransaction")
	pos := P.pos(sw.Pos())
	outs := r.exec(sw, Opts{snap: true, opaque: opaqueFns(end, m.f, lex, P.fn("parser", "newLexer"))})
	if len(outs) == 0 {
		r.bad("boundary", fname(sw), pos, "its paths cannot be enumerated")
	}
	for _, o := range outs {
		if !succeeds(o) || !comparesOnly(o.st.f.list, itemP) {
			continue
		}
		var ev []*Event
		multi := false
		allEvents(o.st.ev, func(e *Event, it *Iter) {
			if e.fn == end || e.fn == m.f || e.fn == lex || e.name == "os.Open" {
				ev = append(ev, e)
				multi = multi || it != nil
			}
		})
		for name := range itemsWith(o.st.f, itemP, its) {
			ne, nb := 0, 0
			first := -1
			var be *Event
			for i, e := range ev {
				if e.fn == end {
					ne++
					if first < 0 {
						first = i
					}
				}
				if e.fn == m.f {
					nb++
					be = e
				}
			}
			same := func() bool {
				n := len(be.args)
				return n >= 2 && (be.args[n-2] == itemP || be.args[n-2].op == "int" && be.args[n-2].n == its[name]) && be.args[n-1] == content
			}
			ended := ne == 1 && first == 0 && !multi
			if ended {
				for _, x := range errResults(ev[0]) {
					if v, known := isNil(o.st.f, x); known && !v {
						ended = false
					} else if !known && !o.rets[len(o.rets)-1].contains(x) {
						ended = false
					}
				}
			}
			switch name {
			case "emptyLineItem", "eofItem":
				r.check(ended && nb == 0, "boundary", name, pos, "it does not end the open transaction exactly once")
			case "includeItem":
				r.check(ended && nb == 0, "boundary", name, pos, "it does not end the open transaction before the file is opened")
			case "dateItem", "periodItem":
				r.check(ended, "boundary", name, pos, "it does not end the open transaction exactly once before beginning another")
				if nb != 1 || multi {
					r.bad("begin", name, pos, "its item is given to the builder %d times", nb)
					continue
				}
				bad := ""
				s := be.snap
				kind := b.get(s, base, b.kind)
				cp := b.get(s, base, b.posting)
				var tr *Term
				want := normal
				if name == "dateItem" {
					tr = b.get(s, base, b.tran)
				} else {
					want = peri
					tr = b.get(s, base, b.periodic)
				}
				switch {
				case !same():
					bad = "the builder is given another item"
				case len(ev) > 1 && ev[len(ev)-1] != be:
					bad = "the builder gets the item before the transaction is ended"
				case kind.op != "int" || kind.n != want:
					bad = fmt.Sprintf("the kind of transaction begun is %v", kind)
				case !isFresh(tr):
					bad = "no new transaction is begun"
				case !isFresh(cp):
					bad = "no new posting is begun"
				default:
					ac, am := fieldAt(s, cp, "AccountPath"), fieldAt(s, cp, "Amount")
					if !emptyText(ac) || am == nil || am.op != "nil" {
						bad = "the first posting does not start empty"
					}
					t := tr
					if name == "periodItem" {
						st := structOf(tr.typ)
						for i := 0; st != nil && i < st.NumFields(); i++ {
							if st.Field(i).Name() == "Transaction" {
								t = faddrT(tr, st, i)
							}
						}
					}
					if l := fieldAt(s, t, "Postings"); l == nil || lenT(l).op != "int" || lenT(l).n != 0 {
						bad = "the new transaction does not start without postings"
					}
					if l := fieldAt(s, t, "postingWithElidedAmount"); l != nil && l.op != "nil" {
						bad = "the new transaction starts with a posting without an amount"
					}
				}
				r.check(bad == "", "begin", name, pos, "%s", bad)
			default:
				r.check(ne == 0, "boundary", name, pos, "it ends the open transaction")
				r.check(nb == 1 && !multi && same(), "rest", name, pos, "it is not handed to the builder exactly once")
			}
		}
	}
	delivered(P, r, end, b)
	deliveries(P, r, "closed", true)
	// lines
	if lex == nil || line == nil {
		r.bad("lines", "(*parser.lexer).lex", "-", "the loop over the lines of a file cannot be found")
	} else {
		r.lines(lex, line, its["eofItem"])
		lineIn := paramT(line.Params[0], 0)
		n := 0
		for _, o := range r.exec(line, Opts{opaque: func(g *ssa.Function) bool { return g != line && strings.HasPrefix(g.Name(), "lex") }}) {
			if !succeeds(o) {
				continue
			}
			in := fieldAt(entryState(o.st.f), lineIn, "input")
			if in == nil {
				in = o.input()
			}
			if in == nil {
				continue
			}
			if v, known := o.st.f.query(eq0T(lenT(in))); !known || !v {
				continue
			}
			n++
			calls, blank := 0, 0
			allEvents(o.st.ev, func(e *Event, it *Iter) {
				if i, known, is := parserCall(e); is {
					calls++
					if known && i == its["emptyLineItem"] {
						blank++
					}
				}
			})
			r.check(calls == 1 && blank == 1, "blank", fname(line), P.pos(line.Pos()), "an empty line is not announced as such")
		}
	}
	// concurrency and deferral
	for _, f := range P.Funcs {
		if f.Pkg != P.byPkg["parser"] && f.Pkg != P.byPkg["cmd"] {
			continue
		}
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				switch x := in.(type) {
				case *ssa.Go:
					r.bad("in-order", fname(f), P.ipos(in), "work is started concurrently")
				case *ssa.Defer:
					if g := x.Call.StaticCallee(); g == nil || P.inRepo(g) && (g == end || P.reaches(g)[end]) {
						if x.Call.IsInvoke() {
							continue
						}
						if g == nil || g == end || P.reaches(g)[end] {
							r.bad("in-order", fname(f), P.ipos(in), "the end of a transaction is deferred")
						}
					}
				}
			}
		}
	}
	r.ok("in-order", "program")
}

// input: what the facts of a path call the text of the line.
func (o *Outcome) input() *Term {
	var in *Term
	for _, f := range o.st.f.list {
		f.any(func(u *Term) bool {
			if u.op == "len" && strings.HasSuffix(path(u.a[0]), ".input") {
				in = u.a[0]
			}
			return false
		})
	}
	return in
}

func delivered(P *Prog, r *Report, end *ssa.Function, b *builderParts) {
	closeF := P.fn("journal", "Transaction.Close")
	base := b.base(P, end)
	pos := P.pos(end.Pos())
	if base == nil {
		r.bad("delivery", fname(end), pos, "it does not work on the transaction builder")
		return
	}
	for _, o := range r.exec(end, Opts{opaque: opaqueFns(closeF, adder(P)), snap: true}) {
		if !succeeds(o) {
			continue
		}
		s0 := entryState(o.st.f)
		per, open := openKind(P, b, base, s0)
		n := 0
		bad := ""
		want := "transactionHandler"
		if per {
			want = "periodicTransactionHandler"
		}
		tranF := b.tran
		if per {
			tranF = b.periodic
		}
		var hand *Term // the handler, when it was compared with nil
		isNilH := false
		for _, f := range o.st.f.list {
			p := true
			if f.op == "not" {
				p, f = false, f.a[0]
			}
			if f.op == "eq" && p {
				for i := 0; i < 2; i++ {
					if f.a[i].op == "nil" && strings.HasSuffix(path(f.a[1-i]), "."+want) {
						isNilH = true
						hand = f.a[1-i]
					}
				}
			}
		}
		_ = hand
		allEvents(o.st.ev, func(e *Event, it *Iter) {
			h := handlerCall(e)
			if h == "" {
				return
			}
			n++
			if it != nil {
				n++
			}
			if h != want {
				bad = "it is delivered to the handler of the other kind"
			} else if !rootLoad(e.args[0], base, b.st.Field(tranF).Name()) {
				bad = "another transaction is delivered"
			}
			for _, x := range errResults(e) {
				if v, known := isNil(o.st.f, x); (!known || !v) && !o.rets[len(o.rets)-1].contains(x) {
					bad = "the handler's failure is not reported"
				}
			}
		})
		con := fname(end)
		if per {
			con += " (periodic)"
		}
		if !open {
			r.check(n == 0, "delivery", con+" nothing open", pos, "something is delivered although no transaction is open")
			continue
		}
		switch {
		case bad != "":
		case n == 0 && !isNilH:
			bad = "the transaction may not be delivered"
		case n > 1:
			bad = "the transaction is delivered more than once"
		}
		r.check(bad == "", "delivery", con, pos, "%s", bad)
		left := b.get(o.st, base, tranF)
		r.check(left.op == "nil", "delivery", con+" afterwards", pos, "the transaction stays open after it was delivered")
	}
}

// lines checks the loop over the lines of a file.
func (r *Report) lines(lex, line *ssa.Function, eofItem int64) {
	P := r.P
	pos := P.pos(lex.Pos())
	for _, o := range r.exec(lex, Opts{opaque: opaqueFns(line)}) {
		if !succeeds(o) {
			continue
		}
		eofs := 0
		after := false
		bad := ""
		for _, e := range o.st.ev {
			if i, known, is := parserCall(e); is {
				if known && i == eofItem {
					eofs++
				} else {
					bad = "an item that is not part of a line is handed on"
				}
			}
			if e.fn == line && eofs > 0 {
				after = true
			}
			if e.kind != "loop" {
				continue
			}
			for _, it := range e.loop.iters {
				n, reads, inEOF := 0, 0, 0
				allEvents(it.ev, func(e *Event, _ *Iter) {
					if e.fn == line {
						n++
					}
					if isLineReader(e.name) {
						reads++
					}
					if _, _, is := parserCall(e); is {
						inEOF++
					}
				})
				if reads > 0 && n != 1 {
					r.bad("lines", fname(lex), pos, "an iteration reads a line and lexes %d", n)
				} else if reads > 1 {
					r.bad("lines", fname(lex), pos, "an iteration reads more than one line")
				} else if inEOF > 0 {
					r.bad("lines", fname(lex), pos, "the end of the file is announced while reading")
				} else if reads > 0 {
					r.ok("lines", fname(lex)+" iteration")
				}
			}
		}
		switch {
		case bad != "":
		case eofs != 1:
			bad = fmt.Sprintf("the end of the file is announced %d times", eofs)
		case after:
			bad = "a line is lexed after the end of the file was announced"
		}
		r.check(bad == "", "lines", fname(lex)+" end", pos, "%s", bad)
	}
}
