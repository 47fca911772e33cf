package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C14"] = Check{"path-sensitive dataflow with loop summaries: every path of making and of applying a filter is compared with the table of what each kind of filter matches", checkC14}
}

const reMatch = "(*regexp.Regexp).MatchString"

// upper: whether a text is known to contain an upper-case letter: +1 yes, -1 no, 0 unknown.
func upperKnown(f *Facts, ev []*Event, is func(t *Term) bool) int {
	isUp := func(x *Term) (*Term, bool) {
		if x.op == "pure" && x.s == "unicode.IsUpper" && len(x.a) == 1 {
			return x.a[0], true
		}
		return nil, false
	}
	from := func(r *Term) bool { return r.any(is) }
	for _, x := range f.list {
		pol := 1
		if x.op == "not" {
			pol, x = -1, x.a[0]
		}
		if a, ok := isUp(x); ok && pol == 1 && from(a) {
			return 1
		}
		// strings.IndexFunc(s, unicode.IsUpper) and comparisons with the lower-case text
		if x.any(func(u *Term) bool {
			return u.op == "pure" && u.s == "strings.IndexFunc" && is(u.a[0]) && strings.Contains(u.a[1].String(), "IsUpper")
		}) {
			i := mkT("", "", 0, nil)
			x.any(func(u *Term) bool {
				if u.op == "pure" && u.s == "strings.IndexFunc" {
					i = u
				}
				return false
			})
			if v, k := f.query(le0T(addN(i, 1))); k {
				if v {
					return -1
				}
				return 1
			}
		}
		if x.op == "pure" && (x.s == "strings.ContainsFunc") && is(x.a[0]) && strings.Contains(x.a[1].String(), "IsUpper") {
			return pol
		}
		if x.op == "eq" && (x.a[0].op == "pure" && x.a[0].s == "strings.ToLower" && x.a[0].a[0] == x.a[1] && is(x.a[1]) ||
			x.a[1].op == "pure" && x.a[1].s == "strings.ToLower" && x.a[1].a[0] == x.a[0] && is(x.a[0])) {
			return -pol
		}
	}
	for _, e := range ev {
		if e.kind != "loop" || e.loop.seq == nil || !e.loop.seq.any(is) || e.loop.seq.op == "slice" && !is(e.loop.seq) {
			continue
		}
		yes := false
		for _, its := range e.loop.set {
			y := len(its) > 0
			for _, it := range its {
				y = y && upperKnown(it.st.f, it.ev, is) == 1
			}
			yes = yes || y
		}
		if yes {
			return 1
		}
		done := false
		for _, d := range ev {
			done = done || d.kind == "loopexit" && d.loop == e.loop && !d.broke
		}
		if !done || len(e.loop.iters) == 0 {
			continue
		}
		no := true
		for _, it := range e.loop.iters {
			has := false
			for _, x := range it.facts {
				if x.op == "not" {
					if a, ok := isUp(x.a[0]); ok && from(a) {
						has = true
					}
				}
			}
			no = no && has
		}
		if no {
			return -1
		}
	}
	return 0
}

// caseRule judges one compilation of an expression.
func caseRule(f *Facts, ev []*Event, a *Term) (ok bool, why string, rest *Term) {
	rest = a
	ins := false
	if a.op == "concat" && len(a.a) == 2 && a.a[0].op == "str" && a.a[0].s == "(?i)" {
		ins, rest = true, a.a[1]
	} else if a.op == "concat" && a.a[0].op == "str" && strings.HasPrefix(a.a[0].s, "(?i)") || a.op == "str" {
		return true, "unknown", rest
	}
	is := func(t *Term) bool {
		return t == rest || (rest.op == "slice" && rest.a[0] == t) || rest.op == "pure" && len(rest.a) > 0 && rest.a[0] == t
	}
	switch u := upperKnown(f, ev, is); {
	case u == 0:
		return false, "whether the expression contains an upper-case letter is not known when it is compiled", rest
	case u == 1 && ins:
		return false, "an expression that contains an upper-case letter is matched in any case", rest
	case u == -1 && !ins:
		return false, "an expression without an upper-case letter is matched in its own case only", rest
	}
	return true, "", rest
}

// firstIs: whether a text is known to begin with a character.
func firstIs(f *Facts, ev []*Event, arg *Term, c rune) (val, known bool) {
	if v, k := f.query(eq0T(lenT(arg))); k && v {
		return false, true
	}
	if v, k := f.query(eq0T(lenT(mkT("conv", "[]rune", 0, types.NewSlice(types.Typ[types.Rune]), arg)))); k && v {
		return false, true
	}
	// a walk over the text that looks at its first character only
	later := map[*Term]bool{}
	allEvents(ev, func(e *Event, _ *Iter) {
		if e.kind == "loop" {
			for _, it := range e.loop.iters {
				for _, x := range it.facts {
					if x.op == "nextok" {
						later[x.a[1]] = true
					}
				}
			}
		}
	})
	for _, x := range f.list {
		if x.op == "not" && x.a[0].op == "nextok" && x.a[0].a[0] == arg && !later[x.a[0].a[1]] {
			return false, true
		}
	}
	for _, x := range f.list {
		pol := true
		if x.op == "not" {
			pol, x = false, x.a[0]
		}
		if x.op == "pure" && x.s == "strings.HasPrefix" && x.a[0] == arg && x.a[1].op == "str" {
			if x.a[1].s == string(c) {
				return pol, true
			}
			if pol && x.a[1].s != "" {
				return false, true
			}
		}
		var first *Term
		x.any(func(u *Term) bool {
			if u.op == "elem" && u.a[1].op == "int" && u.a[1].n == 0 && (u.a[0] == arg || u.a[0].op == "conv" && u.a[0].a[0] == arg) ||
				u.op == "load" && u.a[0].op == "iaddr" && u.a[0].a[1].op == "int" && u.a[0].a[1].n == 0 && u.a[0].a[0].op == "conv" && u.a[0].a[0].a[0] == arg ||
				u.op == "rangerune" && u.a[0] == arg && !later[u.a[1]] ||
				u.op == "rune" && u.a[0] == arg {
				first = u
			}
			return false
		})
		if first != nil {
			if v, k := f.query(eq0T(addN(first, -int64(c)))); k {
				return v, true
			}
		}
	}
	return false, false
}

func checkC14(P *Prog, r *Report) {
	r.rule("prefix", "a filter made from @text is a payee filter for text, from =text a note filter for text, from any other text an account filter for all of it", 4)
	r.rule("case", "an expression is matched in any case exactly when it contains no upper-case letter", 1)
	r.rule("matches", "a payee filter looks at the payee, a note filter at the header note, every note and every comment of every posting, an account filter at the account of every posting, and says what it finds", 6)
	r.rule("string", "a filter asked about a name matches it with its own expression", 1)
	newF := P.byRole("reporting", "NewFilter", func(f *ssa.Function) bool {
		rt := resultTypes(f)
		return len(rt) == 2 && strings.HasSuffix(rt[0], "reporting.Filter") && rt[1] == "error" && len(f.Params) == 1
	})
	if newF == nil {
		r.bad("prefix", "reporting.NewFilter", "-", "the function that makes a filter cannot be found")
		return
	}
	kinds := map[string]int64{}
	for _, n := range []string{"PayeeFilter", "NoteFilter", "AccountNameFilter"} {
		v, ok := P.constOf("reporting", n)
		if !ok {
			r.bad("prefix", n, "-", "this kind of filter is not declared")
			return
		}
		kinds[n] = v
	}
	pos := P.pos(newF.Pos())
	arg := paramT(newF.Params[0], 0)
	outs := r.exec(newF, Opts{})
	for _, o := range outs {
		if o.panic || o.exit || !succeeds(o) {
			continue
		}
		kt := fieldAt(o.st, o.rets[0], "FilterType")
		var re *Term
		if s := structOf(o.rets[0].typ); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				if strings.HasSuffix(s.Field(i).Type().String(), "regexp.Regexp") {
					re = fieldAt(o.st, o.rets[0], s.Field(i).Name())
				}
			}
		}
		if kt == nil || re == nil {
			r.bad("prefix", fname(newF), pos, "what the filter holds cannot be told")
			continue
		}
		if kt.op != "int" {
			r.bad("prefix", fname(newF), pos, "the kind of the filter does not follow from its prefix")
			continue
		}
		c := re
		if c.op == "res" && c.n == 0 {
			c = c.a[0]
		}
		if c.op != "pure" || !strings.HasPrefix(c.s, "regexp.") || len(c.a) != 1 {
			r.bad("prefix", fname(newF), pos, "the filter does not hold the compiled expression")
			continue
		}
		_, _, rest := caseRule(o.st.f, o.st.ev, c.a[0])
		at_, k1 := firstIs(o.st.f, o.st.ev, arg, '@')
		eq_, k2 := firstIs(o.st.f, o.st.ev, arg, '=')
		stripped := rest.op == "slice" && rest.a[0] == arg && rest.a[1].op == "int" && rest.a[1].n == 1 && rest.a[2] == lenT(arg) ||
			rest.op == "pure" && (rest.s == "strings.TrimPrefix") && rest.a[0] == arg
		switch {
		case k1 && at_:
			r.check(kt.n == kinds["PayeeFilter"], "prefix", "@", pos, "a filter beginning with @ is not a payee filter")
			r.check(stripped && !wrongTrim(rest, "@"), "prefix", "@ text", pos, "a filter beginning with @ does not match exactly the text after it")
		case k2 && eq_:
			r.check(kt.n == kinds["NoteFilter"], "prefix", "=", pos, "a filter beginning with = is not a note filter")
			r.check(stripped && !wrongTrim(rest, "="), "prefix", "= text", pos, "a filter beginning with = does not match exactly the text after it")
		case k1 && k2:
			r.check(kt.n == kinds["AccountNameFilter"], "prefix", "other", pos, "a filter without a prefix is not an account filter")
			r.check(rest == arg, "prefix", "other text", pos, "a filter without a prefix does not match with all of its text")
		default:
			// the path does not tell: it must not matter
			r.bad("prefix", fname(newF), pos, "a filter is made without looking for both prefixes")
		}
	}
	// every expression compiled from an argument
	for _, f := range P.Funcs {
		if f.Pkg == nil || len(callsTo(f, isCompile)) == 0 {
			continue
		}
		if why := caseIn(P, r, f, 2); why != "" {
			r.bad("case", fname(f), P.pos(f.Pos()), "%s", why)
		}
	}
	// how a filter is applied
	n := 0
	for _, f := range P.Funcs {
		if !isFilterMatch(f) || len(f.Blocks) == 0 || f.Parent() != nil {
			continue
		}
		par := f.Signature.Params().At(0).Type()
		switch {
		case strings.HasSuffix(named(par), "journal.Transaction"):
			n++
			applied(P, r, f, kinds)
		case isString(par) && f.Signature.Results().Len() == 1:
			self, s := paramT(f.Params[0], 0), paramT(f.Params[1], 1)
			for _, o := range r.exec(f, Opts{}) {
				if o.panic || o.exit || len(o.rets) != 1 {
					continue
				}
				x := o.rets[0]
				ok := x.op == "pure" && x.s == reMatch && x.a[1] == s && path(x.a[0]) == path(self)+".regex"
				if !ok {
					if x.op == "bool" {
						for _, y := range o.st.f.list {
							pol := int64(1)
							if y.op == "not" {
								pol, y = 0, y.a[0]
							}
							ok = ok || y.op == "pure" && y.s == reMatch && y.a[1] == s && x.n == pol
						}
					}
				}
				r.check(ok, "string", fname(f), P.pos(f.Pos()), "the answer is not whether the filter's expression matches the name")
			}
		}
	}
	if n == 0 {
		r.bad("matches", "reporting.Filter", "-", "no function applies a filter to a transaction")
	}
}

func wrongTrim(t *Term, p string) bool {
	return t.op == "pure" && t.s == "strings.TrimPrefix" && !(t.a[1].op == "str" && t.a[1].s == p)
}

func isCompile(g *ssa.Function) bool {
	n := g.RelString(nil)
	return n == "regexp.Compile" || n == "regexp.MustCompile" || n == "regexp.CompilePOSIX" || n == "regexp.MatchString"
}

// caseIn judges the compilations of a function, in its callers where it alone does not tell.
func caseIn(P *Prog, r *Report, f *ssa.Function, depth int) string {
	sites := map[ssa.Instruction]bool{}
	for _, c := range callsTo(f, isCompile) {
		sites[c.(ssa.Instruction)] = true
	}
	return caseAt(P, r, f, sites, depth)
}

func caseAt(P *Prog, r *Report, f *ssa.Function, sites map[ssa.Instruction]bool, depth int) string {
	bad := ""
	n := 0
	// what does not lead to a compilation and is large says nothing about the expression
	far := func(g *ssa.Function) bool {
		m := P.reaches(g)
		if len(m) < 9 {
			return false
		}
		for in := range sites {
			if m[in.Parent()] {
				return false
			}
		}
		return true
	}
	for _, o := range r.exec(f, Opts{opaque: far}) {
		top := o.st.ev
		var walk func(ev []*Event, f *Facts, last bool)
		walk = func(ev []*Event, fs *Facts, last bool) {
			for _, e := range ev {
				if e.kind == "pure" && sites[e.in] && len(e.args) > 0 {
					n++
					if ok, why, _ := caseRule(fs, ev, e.args[0]); !ok {
						bad = why
					} else if why != "unknown" {
						r.ok("case", fname(f))
					}
				}
				if e.kind == "loop" {
					for _, it := range e.loop.iters {
						walk(it.ev, it.st.f, false)
					}
				}
			}
		}
		walk(top, o.st.f, true)
	}
	if bad == "" {
		if n == 0 {
			return "not reached"
		}
		return ""
	}
	if depth > 0 && f.Parent() == nil && !P.taken[f] && len(P.callers[f]) > 0 && strings.HasPrefix(bad, "whether") {
		for _, c := range P.callers[f] {
			if w := caseAt(P, r, c.Parent(), sites, depth-1); w == "not reached" {
				return bad
			} else if w != "" {
				return w
			}
		}
		return ""
	}
	return bad
}

// exist explains booleans as "some place of the transaction matches".
type exist struct {
	o        *Outcome
	self, tr string
	kind     *Term // what is the case for the kind of filter looked at
}

// iters are the iterations that kind of filter can take.
func (x *exist) iters(its []*Iter) (l []*Iter) {
	for _, it := range its {
		if x.kind != nil {
			if v, k := it.st.f.query(x.kind); k && !v {
				continue
			}
		}
		l = append(l, it)
	}
	return
}

// places of a boolean that is true exactly when one of them matches.
func (x *exist) atom(t *Term, d int) (pl map[string]bool, ok bool) {
	if d > 4 {
		return nil, false
	}
	switch {
	case t.op == "pure" && t.s == reMatch && len(t.a) == 2:
		if path(t.a[0]) != x.self+".regex" {
			return nil, false
		}
		p := path(t.a[1])
		if u := t.a[1]; !strings.HasPrefix(p, x.tr+".") && (u.op == "elem" || u.op == "load" && u.a[0].op == "iaddr") {
			// a text of a list that was collected before
			if u.op == "load" {
				u = u.a[0]
			}
			return x.texts(u.a[0], x.o.st, x.o.st.ev, 0)
		}
		if !strings.HasPrefix(p, x.tr+".") {
			return nil, false
		}
		return map[string]bool{p[len(x.tr):]: true}, true
	case t.op == "phi" || t.op == "mem":
		L, ph := appendsOf(x.o, t)
		if L == nil || !isBoolean(ph.sym.typ) && !isBoolean(t.typ) {
			return nil, false
		}
		pl = map[string]bool{}
		if ph.init != nil && !(ph.init.op == "bool" && ph.init.n == 0) {
			p, k := x.atom(ph.init, d+1)
			if !k {
				return nil, false
			}
			for s := range p {
				pl[s] = true
			}
		}
		if !exhausted(x.o.st.ev, L) {
			return nil, false
		}
		for _, it := range x.iters(L.iters) {
			v := it.phis[ph.name]
			switch {
			case v == nil || v == ph.sym:
				_, neg := x.facts(it.facts, it.ev, d+1)
				for s := range neg {
					pl[s] = true
				}
			case v.op == "bool" && v.n == 1:
				if kv, k := it.st.f.query(ph.sym); k && kv {
					continue
				}
				pos, _ := x.facts(it.facts, it.ev, d+1)
				if len(pos) == 0 {
					return nil, false
				}
				for _, p := range pos {
					for s := range p {
						pl[s] = true
					}
				}
			default:
				p, k := x.atom(v, d+1)
				if !k {
					return nil, false
				}
				if kv, kk := it.st.f.query(ph.sym); !kk || kv {
					return nil, false // forgets what an earlier one found
				}
				for s := range p {
					pl[s] = true
				}
			}
		}
		return pl, true
	case t.op == "le0":
		// len(list) > 0
		var l *Term
		t.any(func(u *Term) bool {
			if u.op == "len" && isPostings(u.a[0].typ) {
				l = u.a[0]
			}
			return false
		})
		if l != nil && t == le0T(addN(scaleT(lenT(l), -1, tInt), 1)) {
			pl, _, ok = x.list(l)
			return pl, ok
		}
	}
	return nil, false
}

// texts are the places whose texts a list holds.
func (x *exist) texts(l *Term, st *State, ev []*Event, d int) (pl map[string]bool, ok bool) {
	if d > 6 {
		return nil, false
	}
	pl = map[string]bool{}
	add := func(m map[string]bool, k bool) bool {
		for s := range m {
			pl[s] = true
		}
		return k
	}
	text := func(t *Term) bool {
		p := path(t)
		if !strings.HasPrefix(p, x.tr+".") {
			return false
		}
		pl[p[len(x.tr):]] = true
		return true
	}
	switch {
	case emptyList(l):
		return pl, true
	case strings.HasPrefix(path(l), x.tr+"."):
		pl[path(l)[len(x.tr):]+"[i]"] = true
		return pl, true
	case l.op == "copyof":
		return pl, add(x.texts(l.a[0], st, ev, d+1))
	case l.op == "appendall":
		return pl, add(x.texts(l.a[0], st, ev, d+1)) && add(x.texts(l.a[1], st, ev, d+1))
	case l.op == "append":
		ok = add(x.texts(l.a[0], st, ev, d+1))
		for _, e := range l.a[1:] {
			ok = text(e) && ok
		}
		return pl, ok
	case l.op == "slice" && l.a[0].op == "alloc" && l.a[1].op == "int" && l.a[2].op == "int":
		for i := l.a[1].n; i < l.a[2].n; i++ {
			found := false
			for a, v := range st.heap {
				if a.op == "iaddr" && a.a[0] == l.a[0] && a.a[1].op == "int" && a.a[1].n == i {
					found = text(v)
				}
			}
			if !found {
				return nil, false
			}
		}
		return pl, true
	case l.op == "phi" || l.op == "mem":
		L, ph := appendsOf(x.o, l)
		if L == nil || ph.init == nil || !add(x.texts(ph.init, st, ev, d+1)) {
			return nil, false
		}
		return pl, add(x.adds(L, ph, ev, d+1))
	}
	return nil, false
}

// adds are the places of which every round of a loop adds the texts to a list.
func (x *exist) adds(L *LoopSum, ph *PhiInfo, ev []*Event, d int) (all map[string]bool, ok bool) {
	if d > 6 || L.seq == nil || L.seq.op == "slice" || !exhausted(ev, L) {
		return nil, false
	}
	for _, it := range x.iters(L.iters) {
		m := map[string]bool{}
		add := func(n map[string]bool, k bool) bool {
			for s := range n {
				m[s] = true
			}
			return k
		}
		v := it.phis[ph.name]
		for v != nil && v != ph.sym {
			switch v.op {
			case "append":
				for _, e := range v.a[1:] {
					p := path(e)
					if !strings.HasPrefix(p, x.tr+".") {
						return nil, false
					}
					m[p[len(x.tr):]] = true
				}
				v = v.a[0]
			case "appendall":
				if !add(x.texts(v.a[1], it.st, it.ev, d+1)) {
					return nil, false
				}
				v = v.a[0]
			case "phi", "mem":
				J, q := appendsOf(x.o, v)
				if J == nil || q.init == nil || J == L || !add(x.adds(J, q, it.ev, d+1)) {
					return nil, false
				}
				v = q.init
			default:
				return nil, false
			}
		}
		if v == nil {
			return nil, false
		}
		if all == nil {
			all = m
		}
		for s := range all {
			if !m[s] {
				return nil, false // some round leaves it out
			}
		}
	}
	return all, true
}

// facts: what is known: sets of places of which one matches, and places of which none does.
func (x *exist) facts(list []*Term, ev []*Event, d int) (pos []map[string]bool, neg map[string]bool) {
	neg = map[string]bool{}
	for _, t := range list {
		if t.op == "not" {
			if p, ok := x.atom(t.a[0], d+1); ok {
				for s := range p {
					neg[s] = true
				}
			}
		} else if p, ok := x.atom(t, d+1); ok {
			pos = append(pos, p)
		}
	}
	for _, e := range ev {
		if e.kind != "loop" {
			continue
		}
		for _, its := range e.loop.set {
			// a flag some iteration has set
			u := map[string]bool{}
			all := len(its) > 0
			for _, it := range its {
				p, _ := x.facts(it.facts, it.ev, d+1)
				if len(p) == 0 {
					all = false
				}
				for _, q := range p {
					for s := range q {
						u[s] = true
					}
				}
			}
			if all {
				pos = append(pos, u)
			}
		}
		done := false
		for _, y := range ev {
			done = done || y.kind == "loopexit" && y.loop == e.loop && !y.broke
		}
		if !done || len(e.loop.iters) == 0 || e.loop.seq == nil || e.loop.seq.op == "slice" {
			continue
		}
		var common map[string]bool
		for _, it := range x.iters(e.loop.iters) {
			_, n := x.facts(it.facts, it.ev, d+1)
			if common == nil {
				common = n
				continue
			}
			for s := range common {
				if !n[s] {
					delete(common, s)
				}
			}
		}
		for s := range common {
			neg[s] = true
		}
	}
	return
}

// list explains a list of postings: those of which a place matches.
func (x *exist) list(l *Term) (pl map[string]bool, why string, ok bool) {
	if emptyList(l) {
		return map[string]bool{}, "", true
	}
	L, ph := appendsOf(x.o, l)
	if L == nil {
		return nil, "how the postings are collected cannot be told", false
	}
	if L.seq == nil || path(L.seq) != x.tr+".Postings" || !exhausted(x.o.st.ev, L) || !emptyList(ph.init) {
		return nil, "the postings are not looked at one after the other", false
	}
	pl = map[string]bool{}
	var miss map[string]bool
	for _, it := range x.iters(L.iters) {
		es, k := appended(it, ph)
		if !k || len(es) > 1 || len(es) == 1 && !isElem(es[0], L) {
			return nil, "a posting is returned more than once, or another in its place", false
		}
		pos, neg := x.facts(it.facts, it.ev, 1)
		if len(es) == 1 {
			if len(pos) == 0 {
				return nil, "a posting is returned although nothing of it is known to match", false
			}
			for _, p := range pos {
				for s := range p {
					pl[s] = true
				}
			}
		} else {
			if miss == nil {
				miss = neg
			} else {
				for s := range miss {
					if !neg[s] {
						delete(miss, s)
					}
				}
			}
		}
	}
	for s := range pl {
		if miss != nil && !miss[s] {
			return nil, "a posting may be left out although it matches", false
		}
	}
	return pl, "", true
}

// applied compares every path of a function with what the kind of filter matches.
func applied(P *Prog, r *Report, f *ssa.Function, kinds map[string]int64) {
	self, tr := paramT(f.Params[0], 0), paramT(f.Params[1], 1)
	pos := P.pos(f.Pos())
	hasList := false
	for i := 0; i < f.Signature.Results().Len(); i++ {
		hasList = hasList || isPostings(f.Signature.Results().At(i).Type())
	}
	whole := map[string][]string{"PayeeFilter": {".Payee"}, "NoteFilter": {".HeaderNote", ".Notes[i]"}, "AccountNameFilter": {}}
	part := map[string][]string{"PayeeFilter": {}, "NoteFilter": {".Postings[i].Comments[i]"}, "AccountNameFilter": {".Postings[i].AccountPath"}}
	for _, o := range r.exec(f, Opts{}) {
		if o.panic || o.exit {
			continue
		}
		x := &exist{o, path(self), path(tr), nil}
		ft := fieldAt(o.st, self, "FilterType")
		for kn, kv := range kinds {
			if ft == nil {
				continue
			}
			x.kind = eq0T(addN(ft, -kv))
			if v, k := o.st.f.query(x.kind); k && !v {
				continue
			}
			con := fname(f) + " for a " + kn
			want := map[string]bool{}
			for _, s := range whole[kn] {
				want[s] = true
			}
			if !hasList {
				for _, s := range part[kn] {
					want[s] = true
				}
			}
			posF, neg := x.facts(o.st.f.list, o.st.ev, 0)
			got := map[string]bool{}
			why := ""
			yes := false
			for i, ret := range o.rets {
				if isPostings(f.Signature.Results().At(i).Type()) {
					pl, w, ok := x.list(ret)
					wantL := map[string]bool{}
					for _, s := range part[kn] {
						wantL[s] = true
					}
					if !ok {
						why = w
						continue
					}
					for s := range pl {
						if !wantL[s] {
							why = "postings are returned because of " + s
						}
						delete(wantL, s)
					}
					for s := range wantL {
						if !neg[s] && !yes {
							why = "postings are not returned because of " + s
						}
					}
					continue
				}
				if !isBoolean(ret.typ) && ret.op != "bool" {
					continue
				}
				switch {
				case ret.op == "bool" && ret.n == 0:
				case ret.op == "bool":
					good := false
					for _, p := range posF {
						in := len(p) > 0
						for s := range p {
							in = in && want[s]
						}
						good = good || in
					}
					yes = true
					if !good {
						why = "it says the transaction matches although nothing this kind of filter looks at is known to"
					}
				default:
					p, ok := x.atom(ret, 0)
					if !ok {
						why = "what the answer stands for cannot be told"
					}
					for s := range p {
						got[s] = true
					}
				}
			}
			if !yes && why == "" {
				for s := range want {
					if !got[s] && !neg[s] {
						why = "whether " + s + " matches makes no difference"
					}
				}
				for s := range got {
					if !want[s] {
						why = "whether " + s + " matches makes a difference"
					}
				}
			}
			r.check(why == "", "matches", con, pos, "%s", why)
		}
	}
}
