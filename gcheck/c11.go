package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C11"] = Check{"path-sensitive dataflow over SSA: provenance of the path opened, of what the reader is told and of the file a transaction is attributed to; pairing of open and close on every path", checkC11}
}

// opens: an event that opens a file for reading; the file is its first result.
func opens(e *Event) bool {
	switch e.name {
	case "os.Open", "os.OpenFile":
		return len(e.args) > 0
	}
	return false
}

func readsWhole(e *Event) bool {
	return (e.name == "os.ReadFile" || e.name == "io/ioutil.ReadFile") && len(e.args) > 0
}

// parts of a text put together from others.
func textParts(t *Term) []*Term {
	switch t.op {
	case "conv", "copyof":
		return textParts(t.a[0])
	case "concat", "appendall":
		var l []*Term
		for _, x := range t.a {
			l = append(l, textParts(x)...)
		}
		return l
	case "append":
		return append(textParts(t.a[0]), t.a[1:]...)
	}
	if emptyList(t) || t.op == "str" && t.s == "" || t.op == "nil" {
		return nil
	}
	return []*Term{t}
}

func bareText(t *Term) *Term {
	for t.op == "conv" || t.op == "copyof" {
		t = t.a[0]
	}
	return t
}

// sameText: equal but for conversions between text, bytes and runes, and Clean.
func sameText(t, x *Term) bool {
	t, x = bareText(t), bareText(x)
	for t.op == "pure" && (t.s == "path/filepath.Clean" || t.s == "path.Clean" || t.s == "path/filepath.FromSlash") {
		t = bareText(t.a[0])
	}
	return t == x
}

// absKnown: whether a path is known to be absolute.
func absKnown(f *Facts, x *Term) (val, known bool) {
	for _, t := range f.list {
		pol := true
		if t.op == "not" {
			pol, t = false, t.a[0]
		}
		if t.op != "pure" || len(t.a) == 0 {
			continue
		}
		if (t.s == "path/filepath.IsAbs" || t.s == "path.IsAbs") && sameText(t.a[0], x) {
			return pol, true
		}
		if t.s == "strings.HasPrefix" && sameText(t.a[0], x) && t.a[1].op == "str" && t.a[1].s == "/" {
			return pol, true
		}
	}
	return firstIs(f, nil, x, '/')
}

// located judges the path a name in an include directive becomes.
func located(f *Facts, t, x *Term, hint func(*Term) bool) (why string, untouched bool) {
	abs, known := absKnown(f, x)
	if sameText(t, x) {
		switch {
		case known && abs:
			return "", false
		case known:
			return "a relative path is used as it is", false
		}
		return "the path is used as it is, absolute or not", true
	}
	if known && abs {
		return "an absolute path is changed", false
	}
	if !known {
		return "the path is changed without asking whether it is absolute", false
	}
	join := false
	b := bareText(t)
	for b.op == "pure" && (b.s == "path/filepath.Clean" || b.s == "path.Clean") {
		b = bareText(b.a[0])
	}
	var l []*Term
	if b.op == "pure" && (b.s == "path/filepath.Join" || b.s == "path.Join") {
		join = true
		for _, a := range b.a {
			l = append(l, textParts(a)...)
		}
	} else {
		l = textParts(b)
	}
	var dir []*Term
	sep := false
	for i, p := range l {
		if i == len(l)-1 {
			if !sameText(p, x) {
				return "the path does not end in what is written", false
			}
			continue
		}
		if p.op == "str" && p.s == "/" || p.op == "int" && p.n == '/' {
			sep = true
			continue
		}
		dir = append(dir, p)
	}
	if len(dir) != 1 || !dir[0].any(hint) {
		return "the path does not begin with the directory of the file that includes it", false
	}
	d := dir[0]
	switch {
	case hint(d):
		return "the path begins with the including file rather than its directory", false
	case d.op == "pure" && strings.HasSuffix(d.s, ".Base"), d.op == "res" && d.n == 1 && d.a[0].op == "pure" && strings.HasSuffix(d.a[0].s, ".Split"):
		return "the path begins with the name of the including file rather than its directory", false
	case d.op == "pure" && strings.HasSuffix(d.s, ".Dir"):
		if !join && !sep {
			return "nothing separates the directory from the path", false
		}
		if cutPath(d.a[0]) {
			return "the directory is not that of the including file", false
		}
	case d.op == "res" && d.n == 0 && d.a[0].op == "pure" && strings.HasSuffix(d.a[0].s, ".Split"):
		if sep {
			return "a file without a directory would be looked for at the root", false
		}
		if cutPath(d.a[0].a[0]) {
			return "the directory is not that of the including file", false
		}
	}
	return "", false
}

// cutPath: a path of which only a part is left.
func cutPath(t *Term) bool {
	return t.any(func(u *Term) bool {
		return u.op == "pure" && (strings.HasSuffix(u.s, ".Base") || strings.HasSuffix(u.s, ".Dir") || strings.HasSuffix(u.s, ".Ext") || strings.HasPrefix(u.s, "strings.Trim")) ||
			u.op == "res" && u.a[0].op == "pure" && strings.HasSuffix(u.a[0].s, ".Split") || u.op == "slice"
	})
}

// attribution: the field of the parser a handler is told as the file, and whether it is the last of a list.
type attribution struct {
	field string
	last  bool
}

func lastOf(t *Term) *Term {
	// elem(l, len(l)-1), in memory or not
	var l, i *Term
	switch {
	case t.op == "elem":
		l, i = t.a[0], t.a[1]
	case t.op == "load" && t.a[0].op == "iaddr":
		l, i = t.a[0].a[0], t.a[0].a[1]
	default:
		return nil
	}
	if i == addN(lenT(l), -1) {
		return l
	}
	return nil
}

func parserField(t *Term) string {
	switch t.op {
	case "load":
		if t.a[0].op == "faddr" {
			return t.a[0].s
		}
	case "field":
		return t.s
	}
	return ""
}

func checkC11(P *Prog, r *Report) {
	r.rule("path", "an include directive names the path written if it is absolute, else that path below the directory of the file that includes it", 2)
	r.rule("include", "an include item opens exactly the file it names and reads it to its end exactly once, at that point; it succeeds only if both did", 1)
	r.rule("cycle", "a file is opened only after its cleaned path was compared with that of every file still open", 1)
	r.rule("attributed", "while a file is read it is the one transactions are attributed to, and afterwards the including file is again", 3)
	r.rule("closed", "a file opened for an include is closed on every path", 1)
	r.rule("root", "the journal itself is opened by the path it is attributed to, and read once", 1)

	sw := itemSwitch(P)
	end := ender(P)
	lex := lineLoop(P)
	its := P.items()
	b := P.builder()
	if sw == nil || end == nil || lex == nil || b == nil {
		r.bad("include", "(*parser.Parser).parseItem", "-", "the code that reads included files cannot be found")
		return
	}
	// the path
	scan := scanners(P, r)
	parserSide := false
	n := 0
	for _, f := range P.Funcs {
		if f.Pkg != P.byPkg["parser"] || f.Parent() != nil || scan[f] != nil || len(f.Params) == 0 || named(f.Params[0].Type()) != "*parser.lexer" || !handsOn(P, f, its["includeItem"]) {
			continue
		}
		hintT := fieldAt(entryState(&Facts{}), paramT(f.Params[0], 0), "locationHint")
		hint := func(t *Term) bool {
			return t == hintT || strings.HasSuffix(path(t), ".locationHint")
		}
		for _, o := range r.exec(f, Opts{opaque: func(g *ssa.Function) bool { return scan[g] != nil }}) {
			allEvents(o.st.ev, func(e *Event, it *Iter) {
				i, known, is := parserCall(e)
				if !is || !known || i != its["includeItem"] {
					return
				}
				n++
				c := e.args[len(e.args)-1]
				x := takenIn(c, scan)
				if x == nil {
					r.bad("path", fname(f), P.ipos(e.in), "the path is not what is written in the directive")
					return
				}
				fs := prefixFacts(o, e, it)
				why, raw := located(fs, c, x, hint)
				if raw {
					parserSide = true
					return
				}
				con := "relative"
				if a, k := absKnown(fs, x); k && a {
					con = "absolute"
				}
				r.check(why == "", "path", con, P.ipos(e.in), "%s", why)
			})
		}
	}
	if n == 0 {
		r.bad("path", "include", "-", "no include directive is understood")
	}

	// who a transaction is attributed to
	var att *attribution
	for _, o := range r.exec(end, Opts{opaque: opaqueFns(P.fn("journal", "Transaction.Close"), adder(P))}) {
		allEvents(o.st.ev, func(e *Event, it *Iter) {
			if handlerCall(e) == "" || len(e.args) < 2 {
				return
			}
			v := e.args[1]
			a := attribution{}
			if l := lastOf(v); l != nil {
				a.last = true
				v = l
			}
			a.field = parserField(v)
			if a.field == "" || strings.HasSuffix(a.field, "rootJournalPath") {
				r.bad("attributed", handlerCall(e)+" in "+fname(end), P.ipos(e.in), "a transaction is not attributed to the file being read (%s)", shortT(v))
				return
			}
			if att != nil && *att != a {
				r.bad("attributed", handlerCall(e)+" in "+fname(end), P.ipos(e.in), "transactions and budget entries are attributed differently")
			}
			if att == nil {
				att = &a
			}
			r.ok("attributed", handlerCall(e))
		})
	}
	if att == nil {
		r.bad("attributed", fname(end), P.pos(end.Pos()), "what a transaction is attributed to cannot be told")
		return
	}
	// now: the file a state attributes to
	now := func(s *State, p *Term) *Term {
		v := fieldAt(s, p, att.field)
		if v == nil {
			return nil
		}
		if !att.last {
			return v
		}
		if v.op == "append" {
			return v.a[len(v.a)-1]
		}
		return nil
	}
	self := paramT(sw.Params[0], 0)
	itemP, content := itemParam(sw)
	pos := P.pos(sw.Pos())
	nInc := 0
	hint := func(t *Term) bool {
		l := lastOf(t)
		return l != nil && parserField(l) == att.field || !att.last && parserField(t) == att.field
	}
	incs := r.exec(sw, Opts{snap: true, opaque: opaqueFns(end, lex, P.fn("parser", "transactionBuilder.build"), P.fn("parser", "transactionBuilder.beginTransaction"))})
	for _, o := range incs {
		if !comparesOnly(o.st.f.list, itemP) {
			continue
		}
		if itemsWith(o.st.f, itemP, its)["includeItem"] == nil {
			continue
		}
		var op, lx, whole *Event
		no, nl := 0, 0
		ended := -1
		pushed := -1
		closed := map[*Term]bool{}
		var l []*Event
		loop := false
		allEvents(o.st.ev, func(e *Event, it *Iter) {
			l = append(l, e)
			switch {
			case opens(e):
				no++
				op = e
				loop = loop || it != nil
			case readsWhole(e):
				no++
				op, whole = e, e
				loop = loop || it != nil
			case e.fn == lex:
				nl++
				lx = e
				loop = loop || it != nil
			case e.fn == end:
				ended = len(l)
			case e.kind == "store" && e.args[0].op == "faddr" && e.args[0].s == att.field && e.args[0].a[0] == self:
				if pushed < 0 {
					pushed = len(l)
				}
			case e.name == "(*os.File).Close":
				closed[e.args[0]] = true
			}
		})
		if op != nil && whole == nil {
			f := resOf(op, 0)
			failed := false
			for _, x := range errResults(op) {
				if v, k := isNil(o.st.f, x); k && !v {
					failed = true
				}
			}
			if !failed {
				r.check(f != nil && closed[f] || o.exit, "closed", fname(sw), P.ipos(op.in), "a path leaves the included file open")
			}
		}
		if !succeeds(o) {
			continue
		}
		nInc++
		bad := ""
		switch {
		case no == 0:
			bad = "the item is accepted without opening a file"
		case no > 1 || nl > 1 || loop:
			bad = "the file is read more than once"
		case nl == 0:
			bad = "the file is not read"
		case ended < 0 || ended > indexOf(l, op)+1 && ended > indexOf(l, lx)+1:
			bad = "the open transaction is still open when the file is read"
		}
		var file *Term
		if bad == "" {
			for _, e := range []*Event{op, lx} {
				for _, x := range errResults(e) {
					if v, k := isNil(o.st.f, x); (!k || !v) && !o.rets[len(o.rets)-1].contains(x) {
						bad = "it succeeds although " + e.name + " may have failed"
					}
				}
			}
			file = op.args[0]
			if parserSide {
				why, _ := located(o.st.f, file, content, hint)
				con := "relative"
				if a, k := absKnown(o.st.f, content); k && a {
					con = "absolute"
				}
				r.check(why == "", "path", con, P.ipos(op.in), "%s", why)
			} else if !sameText(file, content) {
				bad = "the file opened is not the one named"
			}
		}
		if bad == "" {
			// what the reader of the file is given
			s := at(lx, o)
			if h := lexerField(s, lx, "locationHint"); h != nil && !sameText(h, file) {
				bad = "errors in the included file are attributed to another"
			}
			if rd := lexerField(s, lx, "reader"); rd != nil && !derives(l, rd, resOf(op, 0)) {
				bad = "what is read is not the file that was opened"
			}
		}
		r.check(bad == "", "include", fname(sw), pos, "%s", bad)
		if bad != "" {
			continue
		}
		// cycle
		r.check(cycleFree(o, op, file, l), "cycle", fname(sw), P.ipos(op.in), "the file is opened without having been compared with every file that is still open")
		// attribution
		s := at(lx, o)
		cur := now(s, self)
		r.check(cur != nil && sameText(cur, file), "attributed", fname(sw)+" while reading", pos, "transactions of the included file are attributed to another file")
		r.check(pushed < 0 || pushed > ended, "attributed", fname(sw)+" before reading", pos, "the transaction before the include directive is attributed to the included file")
		ok := false
		for k, e := range l {
			if k <= indexOf(l, lx) || e.kind != "store" || e.args[0].op != "faddr" || e.args[0].s != att.field || e.args[0].a[0] != self {
				continue
			}
			after := e.args[1]
			var before *Term // the list before the file was added
			if pushed > 0 && l[pushed-1].args[1].op == "append" {
				before = l[pushed-1].args[1].a[0]
			}
			switch {
			case before != nil && after == before, after.op == "load" && parserField(after) == att.field && !att.last:
				ok = true
			case after.op == "slice" && att.last && after.a[1].op == "int" && after.a[1].n == 0:
				ok = after.a[2] == addN(lenT(after.a[0]), -1) && (parserField(after.a[0]) == att.field || after.a[0].op == "append") ||
					before != nil && after.a[2] == lenT(before)
			default:
				ok = false
			}
		}
		r.check(ok, "attributed", fname(sw)+" afterwards", pos, "after an include the including file is not the one transactions are attributed to")
	}
	if nInc == 0 {
		r.bad("include", fname(sw), pos, "an include item is never accepted")
	}
	rootFile(P, r, sw, lex, att, now)
}

func shortT(t *Term) string {
	s := path(t)
	if len(s) > 60 {
		s = s[:60] + "…"
	}
	return s
}

// derives: a value holds x, or what a call made of x.
func derives(l []*Event, t, x *Term) bool {
	for d := 0; d < 4; d++ {
		if x == nil || t == nil {
			return false
		}
		if t.any(func(u *Term) bool { return u == x }) {
			return true
		}
		var next *Term
		for _, e := range l {
			if e.res == nil || len(e.args) == 0 || !t.contains(e.res) {
				continue
			}
			for _, a := range e.args {
				if a.any(func(u *Term) bool { return u == x }) {
					return true
				}
			}
			next = e.args[0]
		}
		t = next
	}
	return false
}

func indexOf(l []*Event, e *Event) int {
	for i, x := range l {
		if x == e {
			return i
		}
	}
	return -1
}

// lexerField: a field of the lexer a reading loop is run on.
func lexerField(s *State, e *Event, name string) *Term {
	if len(e.args) == 0 {
		return nil
	}
	return fieldAt(s, e.args[0], name)
}

// handsOn: the function itself hands on that item.
func handsOn(P *Prog, f *ssa.Function, item int64) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			sig := c.Common().Signature()
			k := sig.Params().Len()
			if k < 2 || named(sig.Params().At(k-2).Type()) != "parser.itemType" {
				continue
			}
			a := c.Common().Args
			if x, ok := a[len(a)-2].(*ssa.Const); ok && x.Int64() == item {
				return true
			}
		}
	}
	return false
}

// takenIn finds the text a scanner took from the line in a value.
func takenIn(t *Term, scan map[*ssa.Function]*scanner) *Term {
	var x *Term
	t.any(func(u *Term) bool {
		if u.op == "call" && u.typ != nil && (isRunes(u.typ) || isString(u.typ)) {
			for g := range scan {
				if u.s == fname(g) {
					x = u
				}
			}
		}
		if u.op == "phi" && u.typ != nil && (isRunes(u.typ) || isString(u.typ)) && x == nil {
			x = u
		}
		return false
	})
	return x
}

// cycleFree: before the file was opened it was compared with every open file.
func cycleFree(o *Outcome, op *Event, file *Term, l []*Event) bool {
	mirror := func(a, b *Term) bool {
		// a(file) and b(open): the same cleaning of both
		clean := func(t *Term) (*Term, bool) {
			t = bareText(t)
			if t.op == "res" && t.n == 0 {
				t = t.a[0]
			}
			if t.op == "pure" || t.op == "call" {
				switch {
				case strings.HasSuffix(t.s, "filepath.Clean"), strings.HasSuffix(t.s, "path.Clean"), strings.HasSuffix(t.s, "filepath.Abs"), strings.HasSuffix(t.s, "filepath.EvalSymlinks"):
					return t.a[0], true
				}
			}
			return t, false
		}
		x, k1 := clean(a)
		_, k2 := clean(b)
		x2, _ := clean(x)
		return k1 && k2 && (sameText(x, file) || sameText(x2, file))
	}
	differs := func(fs []*Term, elem func(*Term) bool) bool {
		for _, t := range fs {
			if t.op != "not" {
				continue
			}
			u := t.a[0]
			if u.op == "eq" {
				for i := 0; i < 2; i++ {
					if u.a[i].any(elem) && !u.a[1-i].any(elem) && mirror(u.a[1-i], u.a[i]) {
						return true
					}
				}
			}
			if (u.op == "pure" || u.op == "call") && u.s == "os.SameFile" {
				return true
			}
		}
		return false
	}
	top := map[*Event]bool{}
	for _, e := range o.st.ev {
		top[e] = true
	}
	for _, e := range o.st.ev {
		if e == op {
			break
		}
		if e.kind != "loop" || e.loop.seq == nil || len(e.loop.iters) == 0 {
			continue
		}
		if parserField(e.loop.seq) == "" || !isStrings(e.loop.seq.typ) && !isStringMap(e.loop.seq.typ) || !exhausted(o.st.ev, e.loop) {
			continue
		}
		ok := true
		for _, it := range e.loop.iters {
			ok = ok && differs(it.facts, func(u *Term) bool { return isElem(u, e.loop) || u.op == "rangekey" })
		}
		if ok {
			return true
		}
	}
	// a set of the files that are open, keyed by their cleaned path
	for _, t := range o.st.f.list {
		if t.op != "not" {
			continue
		}
		u := t.a[0]
		key := (*Term)(nil)
		u.any(func(v *Term) bool {
			if (v.op == "has" || v.op == "mapok" || v.op == "maddr") && len(v.a) == 2 {
				key = v.a[1]
			}
			return false
		})
		if key == nil || !key.any(func(v *Term) bool {
			return v.op == "pure" && (strings.HasSuffix(v.s, ".Clean") || strings.HasSuffix(v.s, ".Abs"))
		}) || !key.any(func(v *Term) bool { return sameText(v, file) }) {
			continue
		}
		for _, e := range l {
			if e.kind == "mapset" && len(e.args) > 1 && e.args[1] == key {
				return true
			}
		}
	}
	return false
}

func isStrings(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && isString(s.Elem())
}

func isStringMap(t types.Type) bool {
	if t == nil {
		return false
	}
	m, ok := t.Underlying().(*types.Map)
	return ok && isString(m.Key())
}

// rootFile checks the file a command starts with.
func rootFile(P *Prog, r *Report, sw, lex *ssa.Function, att *attribution, now func(*State, *Term) *Term) {
	// the entry of the parser: takes a reader and a path and runs the line loop
	var entry *ssa.Function
	for _, f := range P.Funcs {
		if f.Pkg != P.byPkg["parser"] || f == sw || f.Parent() != nil || len(f.Params) < 3 || named(f.Params[0].Type()) != "*parser.Parser" {
			continue
		}
		if P.reaches(f)[lex] && isString(f.Params[2].Type()) && (entry == nil || P.reaches(f)[entry]) {
			entry = f
		}
	}
	if entry == nil {
		r.bad("root", "(*parser.Parser).Parse", "-", "what starts reading cannot be found")
		return
	}
	self, rd, hint := paramT(entry.Params[0], 0), paramT(entry.Params[1], 1), paramT(entry.Params[2], 2)
	pos := P.pos(entry.Pos())
	for _, o := range r.exec(entry, Opts{snap: true, opaque: opaqueFns(lex)}) {
		if o.panic || o.exit || !succeeds(o) {
			continue
		}
		bad := ""
		n := 0
		var all []*Event
		allEvents(o.st.ev, func(e *Event, it *Iter) {
			all = append(all, e)
			if e.fn != lex {
				return
			}
			n++
			if it != nil {
				n++
			}
			s := at(e, o)
			if cur := now(s, self); cur == nil || !sameText(cur, hint) {
				bad = "transactions of the journal are not attributed to it"
			}
			if h := lexerField(s, e, "locationHint"); h != nil && !sameText(h, hint) {
				bad = "errors in the journal are attributed to another file"
			}
			if x := lexerField(s, e, "reader"); x != nil && !derives(all, x, rd) {
				bad = "what is read is not what was given"
			}
		})
		if n != 1 && bad == "" {
			bad = "the journal is not read exactly once"
		}
		r.check(bad == "", "root", fname(entry), pos, "%s", bad)
	}
	// its callers
	for _, c := range P.callers[entry] {
		f := c.Parent()
		if f.Pkg == P.byPkg["parser"] {
			continue
		}
		for _, o := range r.exec(f, Opts{opaque: opaqueFns(entry)}) {
			var op *Event
			bad := ""
			n := 0
			var all []*Event
			allEvents(o.st.ev, func(e *Event, it *Iter) {
				all = append(all, e)
				if opens(e) || readsWhole(e) {
					op = e
				}
				if e.fn != entry || len(e.args) < 3 {
					return
				}
				n++
				if it != nil {
					n++
				}
				if op == nil {
					bad = "it is not a file that is read"
				} else if !sameText(e.args[2], op.args[0]) {
					bad = "the file opened is not the one transactions are attributed to"
				} else if !derives(all, e.args[1], resOf(op, 0)) {
					bad = "what is read is not the file that was opened"
				}
			})
			if n > 1 && bad == "" {
				bad = "the journal is read more than once"
			}
			if n > 0 {
				r.check(bad == "", "root", fname(f), P.pos(f.Pos()), "%s", bad)
			}
		}
	}
}
