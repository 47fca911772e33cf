package main

import (
	"fmt"
	"go/constant"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C27"] = Check{"path-sensitive dataflow over SSA: which layout each accepted date text is parsed with, and feasibility of every written form", checkC27}
	checks["C28"] = Check{"path-sensitive dataflow over SSA: what an accepted period is read from", checkC28}
}

// timeParse recognises the day a library parse of a text gave: the layout, the text and the parse itself.
func timeParse(t *Term) (layout, text, call *Term) {
	for t != nil && (t.op == "day" || t.op == "pure" && (t.s == "(time.Time).UTC" || t.s == "(time.Time).Local")) && t.op == "day" {
		t = t.a[0]
	}
	if t == nil || t.op != "res" || t.n != 0 || t.a[0].op != "pure" {
		return
	}
	c := t.a[0]
	if c.s == "time.Parse" || c.s == "time.ParseInLocation" {
		return c.a[0], c.a[1], c
	}
	return
}

var seps = []rune{'-', '.', '/'}

// oneOf: the separator texts a term may be, given the facts.
func (P *Prog) sepsOf(f *Facts, t *Term) []string {
	var l []string
	if t.op == "conv" && isIntType(t.a[0].typ) {
		if !onlyRunes(f, t.a[0], "-./") {
			return nil
		}
		for _, s := range seps {
			if v, known := f.query(eq0T(addN(t.a[0], -int64(s)))); !known || v {
				l = append(l, string(s))
			}
		}
		return l
	}
	for _, s := range seps {
		v, known := f.query(eqT(t, mkStr(string(s))))
		if known && v {
			return []string{string(s)}
		}
	}
	return nil
}

// layoutsOf: the layouts a term may be; nil when they are not known.
func (P *Prog) layoutsOf(o *Outcome, t *Term) []string {
	switch t.op {
	case "str":
		return []string{t.s}
	case "concat":
		l := []string{""}
		var sym *Term
		for _, a := range t.a {
			if a.op == "str" {
				for i := range l {
					l[i] += a.s
				}
				continue
			}
			if sym == a {
				// the same separator again
				for i := range l {
					l[i] += string(rune(l[i][strings.IndexAny(l[i], "-./")]))
				}
				continue
			}
			ss := P.sepsOf(o.st.f, a)
			if ss == nil || sym != nil {
				return nil
			}
			sym = a
			var n []string
			for _, x := range l {
				for _, s := range ss {
					n = append(n, x+s)
				}
			}
			l = n
		}
		return l
	case "pure":
		if strings.HasPrefix(t.s, "strings.Replace") && len(t.a) >= 3 && t.a[0].op == "str" && t.a[1].op == "str" {
			var l []string
			if t.a[2].op == "str" {
				return []string{strings.ReplaceAll(t.a[0].s, t.a[1].s, t.a[2].s)}
			}
			for _, s := range P.sepsOf(o.st.f, t.a[2]) {
				l = append(l, strings.ReplaceAll(t.a[0].s, t.a[1].s, s))
			}
			return l
		}
	}
	// a table of layouts
	var m *Term
	t.any(func(u *Term) bool {
		if u.op == "maddr" || u.op == "lookup" {
			m = u.a[0]
		}
		return m != nil
	})
	if m == nil {
		return nil
	}
	var l []string
	bad := false
	allEvents(o.st.ev, func(e *Event, it *Iter) {
		if e.kind == "mapset" && e.args[0] == m {
			if v := e.args[len(e.args)-1]; v.op == "str" {
				l = append(l, v.s)
			} else {
				bad = true
			}
		}
	})
	if g := globalOf(m); g != "" {
		l = append(l, P.tableStrings(g)...)
	}
	if bad {
		return nil
	}
	return l
}

func globalOf(t *Term) string {
	if t.op == "load" {
		t = t.a[0]
	}
	if t.op == "global" {
		return t.s
	}
	return ""
}

// tableStrings: the string values a package level map is made with.
func (P *Prog) tableStrings(g string) []string {
	var l []string
	for _, sp := range P.byPkg {
		if sp == nil {
			continue
		}
		f := sp.Func("init")
		if f == nil {
			continue
		}
		made := map[ssa.Value]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if gl, ok := s.Addr.(*ssa.Global); ok && (gl.Pkg.Pkg.Name()+"."+gl.Name() == g || gl.Pkg.Pkg.Path()+"."+gl.Name() == g) {
						made[s.Val] = true
					}
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.MapUpdate); ok && made[u.Map] {
					if c, ok := u.Value.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
						l = append(l, constant.StringVal(c.Value))
					}
				}
			}
		}
	}
	return l
}

// shape is a form of text: digits, with a separator at some places.
type shape struct {
	name string
	n    int
	sep  rune
	at   []int
}

func (s shape) parts() []int {
	var l []int
	p := 0
	for _, a := range s.at {
		l = append(l, a-p)
		p = a + 1
	}
	return append(l, s.n-p)
}

// runeArg: the character a term is, written as a rune or as a text of one.
func runeArg(t *Term) (rune, bool) {
	if t.op == "int" {
		return rune(t.n), true
	}
	if t.op == "str" && len([]rune(t.s)) == 1 {
		return []rune(t.s)[0], true
	}
	return 0, false
}

// fits: the facts of a path under the assumption that text has that form.
// ok is false when it cannot; understood is false when a fact looks at the text in a way not modelled.
func (s shape) fits(f *Facts, isTxt func(*Term) bool) (ok, understood bool, g *Facts) {
	g = f.clone()
	ok, understood = true, true
	seen := map[*Term]bool{}
	set := func(t *Term, v int64) { ok = ok && g.assume(eq0T(addN(t, -v)), true) }
	flag := func(t *Term, v bool) { ok = ok && g.assume(t, v) }
	index := func(c rune) int64 {
		if c == s.sep && len(s.at) > 0 {
			return int64(s.at[0])
		}
		return -1
	}
	has := func(x *Term, any bool) (bool, bool) {
		if x.op == "int" {
			return index(rune(x.n)) >= 0, x.n < '0' || x.n > '9'
		}
		if x.op != "str" || strings.ContainsAny(x.s, "0123456789") {
			return false, false
		}
		if any {
			return len(s.at) > 0 && strings.ContainsRune(x.s, s.sep), true
		}
		return len(s.at) > 0 && x.s == string(s.sep), true
	}
	parts := s.parts()
	isSplit := func(t *Term) (int, bool) {
		if t.op != "pure" || t.s != "strings.Split" && t.s != "strings.SplitN" || !isTxt(t.a[0]) {
			return 0, false
		}
		c, is := runeArg(t.a[1])
		if !is || t.s == "strings.SplitN" && (t.a[2].op != "int" || t.a[2].n >= 0 && t.a[2].n < int64(len(parts))) {
			return 0, false
		}
		if index(c) < 0 {
			return 1, true
		}
		return len(parts), true
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if isTxt(t) {
			return
		}
		switch t.op {
		case "len":
			if isTxt(t.a[0]) {
				set(t, int64(s.n))
				return
			}
			if n, is := isSplit(t.a[0]); is {
				set(t, int64(n))
				return
			}
			if e := t.a[0]; (e.op == "elem" || e.op == "load" && e.a[0].op == "iaddr") && true {
				b, i := e, e
				if e.op == "load" {
					e = e.a[0]
				}
				b, i = e.a[0], e.a[1]
				if n, is := isSplit(b); is && i.op == "int" && i.n >= 0 && i.n < int64(n) {
					if n == 1 {
						set(t, int64(s.n))
					} else {
						set(t, int64(parts[i.n]))
					}
					return
				}
			}
		case "elem", "load":
			e := t
			if e.op == "load" && e.a[0].op == "iaddr" {
				e = e.a[0]
			}
			if e.op != "load" && len(e.a) == 2 && isTxt(e.a[0]) && e.a[1].op == "int" {
				k := int(e.a[1].n)
				for _, a := range s.at {
					if a == k {
						set(t, int64(s.sep))
						return
					}
				}
				if k < s.n {
					ok = ok && g.assume(le0T(addN(t, -'9')), true) && g.assume(le0T(addN(scaleT(t, -1, t.typ), '0')), true)
					return
				}
			}
		case "pure":
			if len(t.a) >= 2 && isTxt(t.a[0]) {
				c, is := runeArg(t.a[1])
				is = is && (c < '0' || c > '9')
				switch t.s {
				case "strings.IndexRune", "strings.IndexByte", "strings.Index":
					if is {
						set(t, index(c))
						return
					}
				case "strings.IndexAny":
					if v, k := has(t.a[1], true); k {
						if v {
							set(t, int64(s.at[0]))
						} else {
							set(t, -1)
						}
						return
					}
				case "strings.LastIndex", "strings.LastIndexByte":
					if is {
						if index(c) < 0 {
							set(t, -1)
						} else {
							set(t, int64(s.at[len(s.at)-1]))
						}
						return
					}
				case "strings.Count":
					if is {
						if index(c) < 0 {
							set(t, 0)
						} else {
							set(t, int64(len(s.at)))
						}
						return
					}
				case "strings.ContainsRune", "strings.Contains", "strings.ContainsAny":
					if v, k := has(t.a[1], t.s == "strings.ContainsAny"); k {
						flag(t, v)
						return
					}
				}
			}
			if t.s == "unicode/utf8.RuneCountInString" && isTxt(t.a[0]) {
				set(t, int64(s.n))
				return
			}
			if t.s == "time.Parse" || t.s == "time.ParseInLocation" {
				return // whether the library accepts it is not judged
			}
			if t.any(isTxt) {
				understood = false
			}
			return
		case "rangerune", "rangeval", "rune":
			if t.any(isTxt) {
				understood = false
			}
			return
		}
		for _, a := range t.a {
			walk(a)
		}
	}
	for _, x := range f.list {
		if v, known := constant3(x); known && v {
			continue
		}
		walk(x)
	}
	return
}

func constant3(t *Term) (bool, bool) {
	if t.op == "bool" {
		return t.n == 1, true
	}
	return false, false
}

// fitsAll repeats fits for facts that only make sense after others.
type dateForm struct {
	shape
	layout string
	prefix bool // the current year is put before it
}

func thisYear(t *Term) bool {
	return t.op == "itoa" && t.a[0].op == "pure" && t.a[0].s == "(time.Time).Year" && strings.HasPrefix(t.a[0].a[0].String(), "time.Now#")
}

// dateRead explains an accepted day: the layouts, and whether the current year was put before the text.
func (P *Prog) dateRead(o *Outcome, t *Term, isTxt func(*Term) bool) (layouts []string, prefixed []string, unknown bool, why string) {
	lt, text, call := timeParse(t)
	if call == nil {
		// year of four digits at the first of January and the like are not recognised
		return nil, nil, false, fmt.Sprintf("the day accepted is %v, which is not what the library read from the text", t)
	}
	if v, known := isNil(o.st.f, mkT("res", "", 1, errorType, call)); !known || !v {
		ok := false
		for _, r := range o.rets {
			if r.op == "res" && r.a[0] == call && r.n == 1 {
				ok = true
			}
		}
		if !ok {
			return nil, nil, false, "a day is accepted although reading it may have failed"
		}
	}
	layouts = P.layoutsOf(o, lt)
	if isTxt(text) {
		return layouts, nil, layouts == nil, ""
	}
	if text.op == "concat" && len(text.a) >= 2 && thisYear(text.a[0]) && isTxt(text.a[len(text.a)-1]) {
		mid := text.a[1 : len(text.a)-1]
		for _, m := range mid {
			if m.op == "str" {
				prefixed = append(prefixed, m.s)
			} else if ss := P.sepsOf(o.st.f, m); ss != nil {
				prefixed = append(prefixed, ss...)
			} else {
				unknown = true
			}
		}
		return layouts, prefixed, unknown || layouts == nil, ""
	}
	return layouts, nil, false, fmt.Sprintf("what is read is %v, not the text given", text)
}

func checkC27(P *Prog, r *Report) {
	r.rule("header", "an accepted date of an entry is what the library reads from exactly the text written, under year-month-day with one separator of - . / used twice", 3)
	r.rule("bound", "an accepted begin or end date is what the library reads from exactly the text given, or from this year and that text, under a full, year-month or year layout", 8)
	r.rule("form", "every written form of a date is read under its own layout on some path, and a path that fails for it fails because the library could not read it", 10)
	one := func(name, rule string, isTxt func(*Term) bool, f *ssa.Function, forms []dateForm, allowed map[string]bool) {
		if f == nil {
			r.bad(rule, name, "-", "the function that reads dates cannot be found")
			return
		}
		pos := P.pos(f.Pos())
		outs := r.exec(f, Opts{})
		if len(outs) == 0 {
			r.bad(rule, fname(f), pos, "its paths cannot be enumerated")
		}
		type acc struct {
			layouts, prefixed []string
			unknown           bool
		}
		read := map[*Outcome]acc{}
		for _, o := range outs {
			if !succeeds(o) {
				continue
			}
			ls, pre, unk, why := P.dateRead(o, o.rets[0], isTxt)
			if why != "" {
				r.bad(rule, fname(f), pos, "%s", why)
				continue
			}
			read[o] = acc{ls, pre, unk}
			for _, l := range ls {
				k := l
				if pre != nil {
					k = "year+" + l
					for _, s := range pre {
						if !strings.Contains(l, s) && !unk {
							r.notes = append(r.notes, "a path puts "+s+" behind the year and reads "+l)
						}
					}
				}
				r.check(allowed[k], rule, fname(f)+" "+k, pos, "a date is read under the layout %q", l)
			}
			if unk {
				r.ok(rule, fname(f)+" (a layout taken from a table)")
			}
		}
		for _, fm := range forms {
			found, unknown := false, false
			for _, o := range outs {
				if o.panic || o.exit {
					continue
				}
				ok, und, _ := fm.fits(o.st.f, isTxt)
				if !ok {
					continue
				}
				a, isRead := read[o]
				if isRead {
					if a.unknown {
						unknown = true
					}
					good := false
					for _, l := range a.layouts {
						if l == fm.layout {
							good = !fm.prefix && a.prefixed == nil
							for _, s := range a.prefixed {
								good = good || fm.prefix && s == string(fm.sep)
							}
						}
					}
					if good {
						found = true
					}
					continue
				}
				if succeeds(o) {
					continue
				}
				// the failure: the library's?
				ret := o.rets[len(o.rets)-1]
				lib := false
				allEvents(o.st.ev, func(e *Event, it *Iter) {
					if e.name == "time.Parse" || e.name == "time.ParseInLocation" {
						x := mkT("res", "", 1, errorType, e.res)
						if v, known := isNil(o.st.f, x); known && !v || ret.contains(x) {
							lib = true
						}
					}
				})
				if !lib && und {
					r.bad("form", fname(f)+" "+fm.name, pos, "it may be refused without having been read")
				}
			}
			r.check(found || unknown, "form", fname(f)+" "+fm.name, pos, "no path reads it under its own layout")
		}
	}
	// the dates of entries
	pd := P.byRole("parser", "parseDate", func(f *ssa.Function) bool {
		return len(f.Params) == 1 && isRunes(f.Params[0].Type()) && strings.HasPrefix(strings.Join(resultTypes(f), ","), "time.Time,error")
	})
	if pd != nil {
		p := paramT(pd.Params[0], 0)
		var forms []dateForm
		allowed := map[string]bool{}
		for _, s := range seps {
			l := "2006" + string(s) + "01" + string(s) + "02"
			allowed[l] = true
			forms = append(forms, dateForm{shape{"yyyy" + string(s) + "mm" + string(s) + "dd", 10, s, []int{4, 7}}, l, false})
		}
		one("parser.parseDate", "header", func(t *Term) bool { return isText(t, p) }, pd, forms, allowed)
	} else {
		r.bad("header", "parser.parseDate", "-", "the function that reads the dates of entries cannot be found")
	}
	sd := P.byRole("parser", "ParseSmartDate", func(f *ssa.Function) bool {
		return len(f.Params) == 1 && isString(f.Params[0].Type()) && f.Object() != nil && f.Object().Exported() && strings.HasPrefix(strings.Join(resultTypes(f), ","), "time.Time,error")
	})
	if sd != nil {
		p := paramT(sd.Params[0], 0)
		var forms []dateForm
		allowed := map[string]bool{"2006": true}
		forms = append(forms, dateForm{shape{"yyyy", 4, 0, nil}, "2006", false})
		for _, s := range seps {
			x := string(s)
			full, ym := "2006"+x+"01"+x+"02", "2006"+x+"01"
			allowed[full], allowed[ym], allowed["year+"+full] = true, true, true
			forms = append(forms,
				dateForm{shape{"yyyy" + x + "mm" + x + "dd", 10, s, []int{4, 7}}, full, false},
				dateForm{shape{"yyyy" + x + "mm", 7, s, []int{4}}, ym, false},
				dateForm{shape{"mm" + x + "dd", 5, s, []int{2}}, full, true})
		}
		one("parser.ParseSmartDate", "bound", func(t *Term) bool { return isText(t, p) }, sd, forms, allowed)
	} else {
		r.bad("bound", "parser.ParseSmartDate", "-", "the function that reads begin and end dates cannot be found")
	}
}

func checkC28(P *Prog, r *Report) {
	r.rule("month", "an accepted period is the month the library reads from exactly the text written, under year-month", 1)
	r.rule("whole", "it starts and ends there and repeats not at all", 1)
	r.rule("form", "a month is refused only if the library cannot read it", 1)
	r.rule("used", "every period line is read by that function, and its error refuses the line", 1)
	f := P.byRole("parser", "parsePeriod", func(f *ssa.Function) bool {
		return len(f.Params) == 1 && strings.HasPrefix(strings.Join(resultTypes(f), ","), "journal.Period,error")
	})
	if f == nil {
		r.bad("month", "parser.parsePeriod", "-", "the function that reads periods cannot be found")
		return
	}
	p := paramT(f.Params[0], 0)
	isTxt := func(t *Term) bool { return isText(t, p) }
	pos := P.pos(f.Pos())
	none, _ := P.constOf("journal", "PNone")
	outs := r.exec(f, Opts{})
	if len(outs) == 0 {
		r.bad("month", fname(f), pos, "its paths cannot be enumerated")
	}
	form := shape{"yyyy-mm", 7, '-', []int{4}}
	read := 0
	for _, o := range outs {
		if o.panic || o.exit {
			continue
		}
		if !succeeds(o) {
			ok, und, _ := form.fits(o.st.f, isTxt)
			if !ok || !und {
				continue
			}
			lib := false
			allEvents(o.st.ev, func(e *Event, it *Iter) {
				if e.name == "time.Parse" || e.name == "time.ParseInLocation" {
					if v, known := isNil(o.st.f, mkT("res", "", 1, errorType, e.res)); known && !v {
						lib = true
					}
				}
			})
			r.check(lib, "form", fname(f), pos, "a month may be refused without having been read")
			continue
		}
		start, end, iv := fieldAt(o.st, o.rets[0], "StartDate"), fieldAt(o.st, o.rets[0], "EndDate"), fieldAt(o.st, o.rets[0], "Interval")
		ls, pre, unk, why := P.dateRead(o, start, isTxt)
		if why != "" || pre != nil {
			failed := ""
			for _, x := range o.st.ev {
				if x.name == "time.Parse" || x.name == "time.ParseInLocation" {
					if v, known := isNil(o.st.f, mkT("res", "", 1, errorType, x.res)); known && !v {
						failed = " although the text is not a month"
					}
				}
			}
			con := fname(f)
			if failed != "" && start.op == "zero" && end == start && iv != nil && iv.op == "int" && iv.n == none {
				con += " (unreadable text taken for no period)"
			}
			r.bad("month", con, pos, "a period is accepted%s: %s", failed, why)
			continue
		}
		for _, l := range ls {
			if r.check(l == "2006-01", "month", fname(f)+" "+l, pos, "a period is read under the layout %q", l) {
				read++
			}
		}
		_ = unk
		r.check(end == start && iv != nil && iv.op == "int" && iv.n == none, "whole", fname(f), pos, "the period read is from %v to %v, repeating %v", start, end, iv)
		if ok, _, _ := form.fits(o.st.f, isTxt); ok {
			r.ok("form", fname(f))
		}
	}
	// the builder uses it
	m := buildOf(P, r)
	if m == nil {
		r.bad("used", "parser.transactionBuilder", "-", "the builder cannot be found")
		return
	}
	for i := range m.paths {
		b := &m.paths[i]
		if b.item != "periodItem" || !b.periodic || !b.ok || !b.inside {
			continue
		}
		var res, given *Term
		allEvents(b.o.st.ev, func(e *Event, it *Iter) {
			if e.fn == f && isTxt2(e.args[0], m.content) {
				res = e.res
			}
			if e.kind == "store" && strings.HasSuffix(path(e.args[0]), ".StartDate") {
				given = e.args[1]
			}
		})
		if res == nil {
			r.bad("used", b.con(), P.pos(m.f.Pos()), "the period line is accepted without reading its text")
			continue
		}
		ok := false
		for _, x := range b.o.st.f.list {
			_ = x
		}
		if v, known := isNil(b.o.st.f, mkT("res", "", 1, errorType, res)); known && v {
			ok = true
		}
		if rt := b.o.rets[len(b.o.rets)-1]; rt.contains(res) {
			ok = true
		}
		r.check(ok, "used", b.con(), P.pos(m.f.Pos()), "the period line is accepted although its text was refused")
		if given != nil {
			r.check(given.contains(res), "used", b.con()+" date", P.pos(m.f.Pos()), "the period recorded is %v", given)
		}
	}
}

func isTxt2(t, content *Term) bool { return t == content || isText(t, content) }
