package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C23"] = Check{"path-sensitive dataflow over SSA: what every error of the line loop is made of, with a loop invariant for the line counter; a who-may-write scan of the reader's position", checkC23}
}

// ingredients are the values a value is made of, looking into new objects.
func ingredients(s *State, t *Term, d int, f func(*Term)) {
	if t == nil || d > 5 {
		return
	}
	f(t)
	if t.op == "alloc" {
		if st := structOf(t.typ); st != nil {
			for i := 0; i < st.NumFields(); i++ {
				if v := fieldAt(s, t, st.Field(i).Name()); v != nil {
					ingredients(s, v, d+1, f)
				}
			}
		}
		return
	}
	if t.op == "load" || t.op == "phi" || t.op == "lin" {
		return
	}
	for _, x := range t.a {
		ingredients(s, x, d+1, f)
	}
}

const hintField = "locationHint"

func checkC23(P *Prog, r *Report) {
	r.rule("located", "every error of reading a file is made of the path of the file, the number of the line and the reason", 3)
	r.rule("number", "the number is one for the first line and one more for each line read before", 2)
	r.rule("counted", "every line read adds exactly one to the number", 1)
	r.rule("own", "only the reading of a file itself changes its path and its line number", 1)
	r.rule("file", "the path is that of the file that is read", 2)
	r.rule("passed-up", "an error of reading a file reaches the command with what it is made of", 3)
	r.rule("never-ends", "the reader never ends the program itself", 1)
	lex, line, sw := lineLoop(P), lineLexer(P), itemSwitch(P)
	if lex == nil || line == nil || sw == nil {
		r.bad("located", "(*parser.lexer).lex", "-", "the loop over the lines of a file cannot be found")
		return
	}
	// who writes the position
	counter := counters(P, lex)
	stable := map[string]bool{}
	for c := range counter {
		stable["F:parser.lexer."+c] = true
	}
	stable["F:parser.lexer."+hintField] = true
	inner := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || f == lex || inner[f] || !P.inRepo(f) && f.Synthetic == "" {
			return
		}
		inner[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op != nil && *op != nil {
						if g, ok := (*op).(*ssa.Function); ok {
							walk(g)
						}
					}
				}
			}
		}
	}
	walk(line)
	walk(sw)
	ownOK := true
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !strings.HasSuffix(named(fa.X.Type()), "parser.lexer") {
					continue
				}
				n := fieldName(fa)
				if _, isAlloc := fa.X.(*ssa.Alloc); isAlloc {
					continue // a new lexer
				}
				if n == hintField {
					r.bad("own", fname(f)+" "+n, P.ipos(in), "the path errors are attributed to is changed")
					ownOK = false
				}
				if counter[n] && f != lex && inner[f] {
					r.bad("own", fname(f)+" "+n, P.ipos(in), "the line number is changed while a line is read")
					ownOK = false
				}
			}
		}
	}
	if ownOK {
		r.ok("own", "lexer")
	}
	// what an error is made of
	self := paramT(lex.Params[0], 0)
	outs := r.exec(lex, Opts{opaque: opaqueFns(line), stable: stable})
	if len(outs) == 0 {
		r.bad("located", fname(lex), P.pos(lex.Pos()), "its paths cannot be enumerated")
	}
	for _, o := range outs {
		if o.panic || len(o.rets) == 0 {
			continue
		}
		e := o.rets[len(o.rets)-1]
		if v, k := isNil(o.st.f, e); e.op == "nil" || k && v {
			// success: how lines are counted is seen on every path
			countedIn(P, r, o, lex, nil)
			continue
		}
		why := "reading"
		var cause *Term
		eof := true
		read := false
		// what failed: the last call whose error is known
		allEvents(o.st.ev, func(x *Event, it *Iter) {
			if it != nil {
				return
			}
			for _, er := range errResults(x) {
				if v, k := isNil(o.st.f, er); k && !v && !(isLineReader(x.name) && eofKnown(o.st.f.list, er)) {
					cause = er
					switch {
					case x.fn == line:
						why, eof = "a line", false
					case isLineReader(x.name):
						why = "a read failure"
						read = true
					default:
						why = "the end of the file"
						if it != nil {
							why, eof = "an item", false
						}
					}
				}
			}
		})
		if cause == nil {
			eof = false // found in the line loop itself
			why = "the line loop"
		}
		_ = read
		con := fname(lex) + ": error of " + why
		pos := P.pos(lex.Pos())
		hint, reason := false, cause == nil
		var nums []*Term
		ingredients(o.st, e, 0, func(t *Term) {
			if t.op == "load" && strings.HasSuffix(path(t), "."+hintField) && rootOf(t.a[0]) == rootOf(self) {
				hint = true
			}
			if t == cause {
				reason = true
			}
			if t.typ != nil && isIntType(t.typ) || t.op == "lin" {
				nums = append(nums, t)
			}
		})
		switch {
		case !hint:
			r.bad("located", con, pos, "the error does not carry the path of the file")
		case !reason:
			r.bad("located", con, pos, "the error does not carry its reason")
		default:
			r.ok("located", con)
		}
		found, good := false, false
		why2 := "the error does not carry the number of the line"
		for _, n := range nums {
			ok, known := lineNumber(P, r, o, lex, n, eof)
			if known {
				found = true
				good = good || ok
			}
		}
		if found && !good {
			why2 = "the number the error carries is not that of the line being read"
		}
		r.check(found && good, "number", con, pos, "%s", why2)
	}
	// the path is that of the file
	lexed := func(f *ssa.Function) {
		for _, o := range r.exec(f, Opts{snap: true, opaque: opaqueFns(lex, ender(P), P.fn("parser", "transactionBuilder.build"), P.fn("parser", "transactionBuilder.beginTransaction"))}) {
			var op *Event
			allEvents(o.st.ev, func(e *Event, it *Iter) {
				if opens(e) || readsWhole(e) {
					op = e
				}
				if e.fn != lex {
					return
				}
				if !isFresh(e.args[0]) {
					r.bad("file", fname(f), P.ipos(e.in), "a file is read with the lexer of another")
					return
				}
				h := lexerField(at(e, o), e, hintField)
				var want *Term
				if op != nil {
					want = op.args[0]
				} else {
					for i, p := range f.Params {
						if isString(p.Type()) {
							want = paramT(p, i)
						}
					}
				}
				r.check(h != nil && want != nil && sameText(h, want), "file", fname(f), P.ipos(e.in), "the path its errors carry is not that of the file that is read")
			})
		}
	}
	// passed up
	lower := map[*ssa.Function]bool{lex: true}
	for _, f := range P.Funcs {
		if f.Pkg == P.byPkg["parser"] && f != lex && f.Parent() == nil && len(callsTo(f, func(g *ssa.Function) bool { return g == lex })) > 0 {
			lexed(f)
		}
	}
	for i := 0; i < 4; i++ {
		for _, f := range P.Funcs {
			if f.Pkg == nil || lower[f] || f.Parent() != nil || !returnsError(f) || f.Name() == "main" {
				continue
			}
			if len(callsTo(f, func(g *ssa.Function) bool { return lower[g] })) > 0 && (f.Pkg == P.byPkg["parser"] || f.Pkg == P.byPkg["cmd"]) {
				lower[f] = true
				for _, o := range r.exec(f, Opts{opaque: func(g *ssa.Function) bool {
					return g != f && (lower[g] || g == ender(P) || g.Name() == "build" || g.Name() == "beginTransaction")
				}}) {
					carried(P, r, o, f, lower)
				}
			}
		}
	}
	cli := P.cli(r)
	for _, c := range cli.cmds {
		act, actV, isErr := c.action()
		if act == nil || !isErr {
			continue
		}
		outs, _, _ := P.runClosure(actV, cli.st, Opts{maxSteps: 2000000, opaque: func(g *ssa.Function) bool { return lower[g] || !P.errRelevant(g) }})
		for _, o := range outs {
			carried(P, r, o, act, lower)
		}
	}
	// the reader never ends the program
	rf := P.reaches(lex)
	for f := range P.reaches(sw) {
		rf[f] = true
	}
	n := 0
	for _, f := range P.Funcs {
		if !rf[f] || f.Pkg != P.byPkg["parser"] {
			continue
		}
		n++
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && exits(g.RelString(nil)) {
						r.bad("never-ends", fname(f), P.ipos(in), "the program is ended without saying which file and line is at fault")
					}
				}
			}
		}
	}
	if n > 0 {
		r.ok("never-ends", "parser")
	}
}

// carried: where an error of reading is known on a path, the error returned holds it.
func carried(P *Prog, r *Report, o *Outcome, f *ssa.Function, lower map[*ssa.Function]bool) {
	if o.panic || o.exit || f == nil {
		return
	}
	allEvents(o.st.ev, func(e *Event, it *Iter) {
		if e.fn == nil || !lower[e.fn] || it != nil {
			return
		}
		for _, x := range errResults(e) {
			if v, k := isNil(o.st.f, x); k && v {
				continue
			}
			ok := false
			for _, ret := range o.rets {
				ingredients(o.st, ret, 0, func(t *Term) { ok = ok || t == x })
			}
			r.check(ok, "passed-up", fname(f), P.ipos(e.in), "the error of %s is not part of the error returned", fname(e.fn))
		}
	})
}

// counters: the integer fields of the lexer an error of the line loop is made of.
func counters(P *Prog, lex *ssa.Function) map[string]bool {
	m := map[string]bool{}
	outs, _ := P.run(lex, Opts{opaque: opaqueFns(lineLexer(P))})
	for _, o := range outs {
		if len(o.rets) == 0 {
			continue
		}
		ingredients(o.st, o.rets[len(o.rets)-1], 0, func(t *Term) {
			if t.op == "load" && t.a[0].op == "faddr" && isIntType(t.typ) {
				m[t.a[0].s] = true
			}
			if t.op == "mem" {
				for _, L := range loopsIn(o.st.ev) {
					for _, p := range L.phis {
						if p.sym == t && p.addr != nil && p.addr.op == "faddr" {
							m[p.addr.s] = true
						}
					}
				}
			}
		})
	}
	return m
}

// lineNumber judges a number against the count of lines read by the reading loop.
func lineNumber(P *Prog, r *Report, o *Outcome, lex *ssa.Function, n *Term, eof bool) (ok, known bool) {
	for _, L := range loopsIn(o.st.ev) {
		if !readingLoop(L) {
			continue
		}
		if L.idx != nil {
			if d := subT(n, L.idx); d.op == "int" {
				for _, it := range L.iters {
					r.check(linesRead(it) == 1, "counted", fname(lex), P.pos(lex.Pos()), "reading a line does not add one to the line number")
				}
				return d.n == 1 || eof && d.n == 0, true
			}
		}
		for _, p := range L.phis {
			d := subT(n, p.sym)
			if d.op != "int" || p.init == nil || p.init.op != "int" {
				continue
			}
			at := d.n + p.init.n // for the first line
			countedIn(P, r, o, lex, p)
			return at == 1 || eof && at == 0, true
		}
	}
	return false, false
}

func readingLoop(L *LoopSum) bool {
	for _, it := range L.iters {
		for _, e := range it.ev {
			if isLineReader(e.name) {
				return true
			}
		}
	}
	return false
}

// countedIn: every completed iteration that read a line added one to the counter.
func countedIn(P *Prog, r *Report, o *Outcome, lex *ssa.Function, p *PhiInfo) {
	for _, L := range loopsIn(o.st.ev) {
		if !readingLoop(L) {
			continue
		}
		for _, q := range L.phis {
			if p == nil || q != p {
				continue
			}
			for _, it := range L.iters {
				reads := linesRead(it)
				v := it.phis[q.name]
				if v == nil {
					v = q.sym
				}
				d := subT(v, q.sym)
				r.check(d.op == "int" && d.n == int64(reads), "counted", fname(lex), P.pos(lex.Pos()), "reading a line does not add one to the line number")
			}
		}
	}
}

func linesRead(it *Iter) (n int) {
	allEvents(it.ev, func(e *Event, _ *Iter) {
		if isLineReader(e.name) {
			n++
		}
	})
	return
}
