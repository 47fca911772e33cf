package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C05"] = Check{"path-sensitive effect summaries of the transaction builder over SSA, and a who-may-write scan of posting lists", checkC05}
	checks["C09"] = Check{"path-sensitive event-order (typestate) analysis of the parser and lexer over SSA", checkC09}
	checks["C30"] = Check{"path-sensitive effect summaries of the transaction builder, compared item by item with the grammar's table", checkC30}
}

// itemNames are the kinds of item the lexer hands to the parser.
var itemNames = []string{"emptyLineItem", "includeItem", "dateItem", "stateItem", "payeeItem", "accountItem", "commodityItem",
	"amountItem", "commentItem", "transactionHeaderCommentItem", "periodItem", "eofItem"}

// constOf is the value of a package constant.
func (P *Prog) constOf(pkg, name string) (int64, bool) {
	sp := P.byPkg[pkg]
	if sp == nil {
		return 0, false
	}
	c, ok := sp.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	return constant.Int64Val(constant.ToInt(c.Val()))
}

func (P *Prog) items() map[string]int64 {
	m := map[string]int64{}
	for _, n := range itemNames {
		if v, ok := P.constOf("parser", n); ok {
			m[n] = v
		}
	}
	return m
}

// builderParts are the fields of the builder, by what they hold.
type builderParts struct {
	named                                   *types.Named
	st                                      *types.Struct
	kind, tran, periodic, posting, previous int
}

func (P *Prog) builder() *builderParts {
	n := P.typ("parser", "transactionBuilder")
	if n == nil {
		return nil
	}
	s, _ := n.Underlying().(*types.Struct)
	if s == nil {
		return nil
	}
	b := &builderParts{named: n, st: s, kind: -1, tran: -1, periodic: -1, posting: -1, previous: -1}
	for i := 0; i < s.NumFields(); i++ {
		switch named(s.Field(i).Type()) {
		case "*journal.Transaction":
			b.tran = i
		case "*journal.PeriodicTransaction":
			b.periodic = i
		case "*journal.Posting":
			b.posting = i
		case "parser.transactionType":
			b.kind = i
		case "parser.itemType":
			b.previous = i
		}
	}
	if b.kind < 0 || b.tran < 0 || b.periodic < 0 || b.posting < 0 || b.previous < 0 {
		return nil
	}
	return b
}

func (b *builderParts) get(st *State, base *Term, i int) *Term {
	in := theProg.newInterp(Opts{})
	return in.load(st, faddrT(base, b.st, i), b.st.Field(i).Type())
}

// at: the state at an event (needs Opts.snap), else the end of the path.
func at(e *Event, o *Outcome) *State {
	if e != nil && e.snap != nil {
		return e.snap
	}
	return o.st
}

// builderBase finds the builder a function works on: its receiver, or a field of it.
func (b *builderParts) base(P *Prog, f *ssa.Function) *Term {
	for i, p := range f.Params {
		t := paramT(p, i)
		if named(p.Type()) == "*parser.transactionBuilder" {
			return t
		}
		if s := structOf(p.Type()); s != nil && strings.HasPrefix(named(p.Type()), "*") {
			for k := 0; k < s.NumFields(); k++ {
				switch named(s.Field(k).Type()) {
				case "parser.transactionBuilder":
					return faddrT(t, s, k)
				}
			}
		}
	}
	return nil
}

func effects(o *Outcome) []*Event {
	var l []*Event
	allEvents(o.st.ev, func(e *Event, it *Iter) {
		if e.kind == "store" || e.kind == "mapset" || e.kind == "mapdel" {
			l = append(l, e)
		}
	})
	return l
}

func isFresh(t *Term) bool { return t != nil && t.op == "alloc" }

// isText: the value is the item's content as a string.
func isText(v, content *Term) bool {
	if v == content {
		return true
	}
	return v.op == "conv" && v.a[0] == content && isString(v.typ)
}

type buildPath struct {
	o        *Outcome
	item     string
	val      int64
	periodic bool
	f        *Facts
	ok       bool // returns nil
	inside   bool // a transaction is open
}

type buildModel struct {
	f        *ssa.Function
	b        *builderParts
	base     *Term
	itemP    *Term
	content  *Term
	paths    []buildPath
	outs     []*Outcome
	add      *ssa.Function
	kinds    map[bool]int64
	unsolved bool
}

// buildOf enumerates the builder's reaction to every item.
func buildOf(P *Prog, r *Report) *buildModel {
	b := P.builder()
	if b == nil {
		return nil
	}
	pred := func(f *ssa.Function) bool {
		return len(f.Params) == 3 && named(f.Params[0].Type()) == "*parser.transactionBuilder" &&
			named(f.Params[1].Type()) == "parser.itemType" && strings.Join(resultTypes(f), ",") == "error"
	}
	f := P.byRole("parser", "transactionBuilder.build", pred)
	if f == nil {
		return nil
	}
	m := &buildModel{f: f, b: b, add: P.fn("journal", "Transaction.AddPosting")}
	for i, p := range f.Params {
		t := paramT(p, i)
		switch i {
		case 0:
			m.base = t
		case 1:
			m.itemP = t
		case 2:
			m.content = t
		}
	}
	m.outs = r.exec(f, Opts{snap: true, opaque: func(g *ssa.Function) bool { return g == m.add || isReader(g) }})
	normal, _ := P.constOf("parser", "normalTransaction")
	peri, _ := P.constOf("parser", "periodicTransaction")
	its := P.items()
	for _, o := range m.outs {
		if o.panic || o.exit || len(o.rets) == 0 {
			continue
		}
		v, known := isNil(o.st.f, o.rets[0])
		if !known {
			// return f(): both ways are possible; it succeeds when the callee does
			v = true
		}
		// the state before: the first reads of the builder
		s0 := &State{heap: map[*Term]*Term{}, ver: map[string]int64{}, f: o.st.f}
		kind := b.get(s0, m.base, b.kind)
		cp := b.get(s0, m.base, b.posting)
		for _, name := range itemNames {
			k, have := its[name]
			if !have {
				continue
			}
			for _, per := range []bool{false, true} {
				g := o.st.f.clone()
				kv := normal
				if per {
					kv = peri
				}
				if !g.assume(eq0T(addN(m.itemP, -k)), true) || !g.assume(eq0T(addN(kind, -kv)), true) {
					continue
				}
				in := true
				if nv, nk := isNil(g, cp); nk && nv {
					in = false
				}
				m.paths = append(m.paths, buildPath{o: o, item: name, val: k, periodic: per, f: g, ok: v, inside: in})
			}
		}
	}
	return m
}

// isReader: a function that turns the text of an item into a value.
func isReader(g *ssa.Function) bool {
	r := resultTypes(g)
	return len(r) == 2 && r[1] == "error" && g.Signature.Recv() == nil && g.Signature.Params().Len() == 1 &&
		(r[0] == "time.Time" || r[0] == "int64" || r[0] == "journal.Period")
}

// tran: the address of the transaction an item of this path belongs to.
func (m *buildModel) isTran(t *Term, periodic bool) bool {
	if t == nil {
		return false
	}
	if periodic {
		return t.op == "faddr" && named(t.a[0].typ) == "*journal.PeriodicTransaction" && rootLoad(t.a[0], m.base, m.b.st.Field(m.b.periodic).Name())
	}
	return rootLoad(t, m.base, m.b.st.Field(m.b.tran).Name())
}

// rootLoad: t is what a field of base held when the function was entered.
func rootLoad(t, base *Term, field string) bool {
	return t.op == "load" && t.a[0].op == "faddr" && t.a[0].s == field && t.a[0].a[0] == base
}

func (m *buildModel) isPosting(t *Term) bool {
	return rootLoad(t, m.base, m.b.st.Field(m.b.posting).Name())
}

func (p *buildPath) con() string {
	s := p.item
	if p.periodic {
		s += " (periodic)"
	}
	return s
}

// readBy: v is the first result of a successful reader of the content.
func readBy(o *Outcome, v, content *Term, typ string) bool {
	ok := false
	allEvents(o.st.ev, func(e *Event, it *Iter) {
		if e.fn == nil || !isReader(e.fn) || len(e.args) == 0 || !(e.args[0] == content || isText(e.args[0], content)) {
			return
		}
		if v.op == "res" && v.n == 0 && v.a[0] == e.res && resultTypes(e.fn)[0] == typ {
			for _, x := range errResults(e) {
				if nv, nk := isNil(o.st.f, x); nk && nv {
					ok = true
				}
			}
		}
		// a struct result is kept field by field
		if v.op == "struct" && v.contains(e.res) {
			ok = true
		}
	})
	return ok
}

func checkC30(P *Prog, r *Report) {
	r.rule("recorded", "each item is recorded in its own field of the transaction or posting it belongs to, holding exactly its text or what was read from it, and nothing else changes", 10)
	r.rule("order", "an item is accepted only after one the grammar allows before it, and after each of those", 6)
	r.rule("previous", "every accepted item becomes the previous item", 6)
	r.rule("outside", "outside of a transaction a comment is ignored and any other item is an error", 4)
	m := buildOf(P, r)
	if m == nil {
		r.bad("recorded", "transactionBuilder.build", "-", "the builder cannot be found")
		return
	}
	pos := P.pos(m.f.Pos())
	its := P.items()
	allowed := map[string][]string{
		"stateItem":     {"dateItem"},
		"payeeItem":     {"dateItem", "stateItem"},
		"accountItem":   {"commentItem", "transactionHeaderCommentItem", "payeeItem", "amountItem", "accountItem", "periodItem"},
		"commodityItem": {"accountItem"},
		"amountItem":    {"commodityItem", "payeeItem"},
	}
	needed := map[string][]string{
		"stateItem":     {"dateItem"},
		"payeeItem":     {"dateItem", "stateItem"},
		"accountItem":   allowed["accountItem"],
		"commodityItem": {"accountItem"},
		"amountItem":    {"commodityItem"},
	}
	unc, _ := P.constOf("journal", "UnclearedState")
	clr, _ := P.constOf("journal", "ClearedState")
	accepted := map[string]bool{}
	for i := range m.paths {
		p := &m.paths[i]
		o := p.o
		switch p.item {
		case "emptyLineItem", "includeItem", "eofItem":
			continue // never reach the builder
		}
		if p.item == "periodItem" && !p.periodic || p.item == "dateItem" && p.periodic {
			continue // start the other kind of transaction
		}
		eff := effects(o)
		s0 := &State{heap: map[*Term]*Term{}, ver: map[string]int64{}, f: p.f}
		if !p.inside {
			if p.item == "commentItem" {
				r.check(p.ok && len(recorded(m, eff)) == 0, "outside", p.con(), pos, "a comment outside of a transaction is not simply ignored")
			} else {
				r.check(!p.ok && len(recorded(m, eff)) == 0, "outside", p.con(), pos, "an item outside of a transaction is accepted")
			}
			continue
		}
		if !p.ok {
			continue
		}
		// grammar
		if al, has := allowed[p.item]; has {
			prev := m.b.get(s0, m.base, m.b.previous)
			mentions := false
			for _, f := range o.st.f.list {
				if f.contains(prev) {
					mentions = true
				}
			}
			if !mentions {
				r.bad("order", p.con(), pos, "it is accepted after any item")
			}
			for _, q := range itemNames {
				g := p.f.clone()
				feas := g.assume(eq0T(addN(prev, -its[q])), true)
				in := false
				for _, a := range al {
					in = in || a == q
				}
				if feas {
					accepted[fmt.Sprint(p.item, "<", q, p.periodic)] = true
				}
				if feas && !in && mentions {
					// only a comparison decides; a table that is looked up does not show here
					if comparesOnly(o.st.f.list, prev) {
						r.bad("order", p.con()+" after "+q, pos, "it is accepted where the grammar does not allow it")
					}
				}
			}
		}
		// what is recorded
		rec := recorded(m, eff)
		bad := ""
		want := func(n int) bool {
			if len(rec) != n {
				var l []string
				for _, e := range rec {
					l = append(l, path(e.args[0]))
				}
				bad = fmt.Sprintf("%d fields change (%s), not %d", len(rec), strings.Join(l, ", "), n)
				return false
			}
			return true
		}
		one := func(field string, val func(v *Term) bool) {
			if !want(1) {
				return
			}
			a, v := rec[0].args[0], rec[0].args[1]
			if !isField(a, "journal.Transaction", field) || !m.isTran(a.a[0], p.periodic) {
				bad = "it is recorded in " + path(a) + ", not in the " + field + " of the transaction being read"
			} else if !val(v) {
				bad = "what is recorded is " + path(v) + ", not the item"
			}
		}
		cur := m.b.get(s0, m.base, m.b.posting)
		endCur := m.b.get(o.st, m.base, m.b.posting)
		hasAccount := func() (bool, bool) {
			t := fieldAt(s0, cur, "AccountPath")
			return p.f.query(eq0T(lenT(t)))
		}
		switch p.item {
		case "transactionHeaderCommentItem":
			one("HeaderNote", func(v *Term) bool { return isText(v, m.content) })
		case "payeeItem":
			one("Payee", func(v *Term) bool { return isText(v, m.content) })
		case "dateItem":
			one("Date", func(v *Term) bool { return readBy(o, v, m.content, "time.Time") })
		case "stateItem":
			var c0 *Term
			for _, f := range o.st.f.list {
				f.any(func(u *Term) bool {
					if u.op == "load" && u.a[0].op == "iaddr" && u.a[0].a[0] == m.content && u.a[0].a[1].op == "int" && u.a[0].a[1].n == 0 {
						c0 = u
					}
					return false
				})
			}
			one("State", func(v *Term) bool {
				// the whole item compared with texts
				txt := mkT("conv", "string", 0, tString, m.content)
				cmp := false
				for t := range p.f.truth {
					cmp = cmp || t.op == "eq" && t.contains(txt)
				}
				if cmp {
					for mark, st := range map[string]int64{"!": unc, "*": clr} {
						if is, k := p.f.query(eqT(txt, mkT("str", mark, 0, tString))); k && is && v.op == "int" && v.n != st {
							return false
						} else if k && !is && v.op == "int" && v.n == st {
							return false
						}
					}
					return true
				}
				if c0 == nil {
					return v.op != "int" // read from a table
				}
				for mark, st := range map[rune]int64{'!': unc, '*': clr} {
					g := p.f.clone()
					if g.assume(eq0T(addN(c0, -int64(mark))), true) {
						if v.op == "int" && v.n != st {
							return false
						}
					} else if v.op == "int" && v.n == st {
						return false
					}
				}
				return true
			})
		case "commentItem":
			if !want(1) {
				break
			}
			a, v := rec[0].args[0], rec[0].args[1]
			empty, known := hasAccount()
			appended := v.op == "append" && len(v.a) == 2 && path(v.a[0]) == path(a) && isText(v.a[1], m.content)
			switch {
			case isField(a, "journal.Posting", "Comments") && m.isPosting(a.a[0]):
				if !known || empty {
					bad = "a comment is given to a posting although none has been written"
				}
			case isField(a, "journal.Transaction", "Notes") && m.isTran(a.a[0], p.periodic):
				if !known || !empty {
					bad = "a comment below a posting is given to the transaction"
				}
			default:
				bad = "a comment is recorded in " + path(a)
			}
			if bad == "" && !appended {
				bad = "the comment is not appended to those already there: " + path(v)
			}
		case "accountItem":
			for _, e := range rec {
				a, v := e.args[0], e.args[1]
				switch {
				case isField(a, "journal.Posting", "AccountPath"):
					if a.a[0] != endCur {
						bad = "the account is given to another posting than the current one"
					} else if !isText(v, m.content) {
						bad = "the account recorded is " + path(v)
					}
				case isField(a, "journal.Posting", "Transaction"):
					if a.a[0] != endCur || !m.isTran(v, p.periodic) {
						bad = "the posting is linked to another transaction"
					}
				case a.op == "faddr" && a.a[0] == m.base && a.s == m.b.st.Field(m.b.posting).Name():
				default:
					bad = "an account changes " + path(a)
				}
			}
			t := fieldAt(o.st, endCur, "AccountPath")
			if bad == "" && (t == nil || !isText(t, m.content)) {
				bad = "the account is not recorded on the current posting"
			}
			tt := fieldAt(o.st, endCur, "Transaction")
			if bad == "" && (tt == nil || !m.isTran(tt, p.periodic)) {
				bad = "the posting is not linked to its transaction"
			}
		case "commodityItem", "amountItem":
			field := map[string]string{"commodityItem": "Commodity", "amountItem": "Quantity"}[p.item]
			other := map[string]string{"commodityItem": "Quantity", "amountItem": "Commodity"}[p.item]
			am := fieldAt(o.st, endCur, "Amount")
			if endCur != cur {
				bad = "the current posting is replaced"
				break
			}
			if am == nil {
				bad = "no amount is recorded"
				break
			}
			v := fieldAt(o.st, am, field)
			good := v != nil && (p.item == "commodityItem" && isText(v, m.content) || p.item == "amountItem" && readBy(o, v, m.content, "int64"))
			if !good {
				bad = fmt.Sprintf("the %s of the posting's amount becomes %v", strings.ToLower(field), v)
			}
			w := fieldAt(o.st, am, other)
			if isFresh(am) {
				if w == nil || !(w.op == "int" && w.n == 0 || w.op == "str" && w.s == "") {
					bad = "a new amount does not start empty"
				}
			} else if w == nil || !strings.HasSuffix(path(w), "."+other) {
				bad = "the " + strings.ToLower(other) + " of the amount is lost"
			}
			for _, e := range rec {
				a := e.args[0]
				if isField(a, "journal.Posting", "Amount") && a.a[0] == cur || isField(a, "journal.Amount", field) && a.a[0] == am {
					continue
				}
				if isFresh(rootOf(a)) {
					continue
				}
				bad = "it also changes " + path(a)
			}
		case "periodItem":
			for _, e := range rec {
				a := e.args[0]
				if !(strings.Contains(path(a), ".Period") && rootLoad(baseOf(a), m.base, m.b.st.Field(m.b.periodic).Name())) {
					bad = "a period changes " + path(a)
				}
				if !e.args[1].any(func(u *Term) bool { return u.op == "res" && u.n == 0 }) {
					bad = "the period recorded is " + path(e.args[1])
				}
			}
			if len(rec) == 0 {
				bad = "the period is not recorded"
			}
		}
		r.check(bad == "", "recorded", p.con(), pos, "%s", bad)
		// previous item
		pv := m.b.get(o.st, m.base, m.b.previous)
		same := pv == m.itemP || pv.op == "int" && pv.n == p.val
		r.check(same, "previous", p.con(), pos, "the item accepted is not remembered as the previous one")
	}
	for it, l := range needed {
		for _, q := range l {
			for _, per := range []bool{false, true} {
				if per && (q == "dateItem" || it == "stateItem" || it == "payeeItem") || !per && q == "periodItem" || per && (q == "payeeItem" || q == "transactionHeaderCommentItem") {
					continue
				}
				c := it + " after " + q
				if per {
					c += " (periodic)"
				}
				r.check(accepted[fmt.Sprint(it, "<", q, per)], "order", c, pos, "it is refused where the grammar allows it")
			}
		}
	}
}

// comparesOnly: the facts about x are plain comparisons with constants.
func comparesOnly(l []*Term, x *Term) bool {
	for _, f := range l {
		if !f.contains(x) {
			continue
		}
		g := f
		if g.op == "not" {
			g = g.a[0]
		}
		if g.op != "eq0" && g.op != "le0" {
			return false
		}
		e := g.a[0]
		if e != x && !(e.op == "lin" && len(e.a) == 1 && e.a[0] == x) {
			return false
		}
	}
	return true
}

func baseOf(a *Term) *Term {
	for a.op == "faddr" {
		a = a.a[0]
	}
	return a
}

// recorded: the stores of a path to the transaction, its postings and the builder, but not the bookkeeping.
func recorded(m *buildModel, eff []*Event) []*Event {
	var l []*Event
	last := map[*Term]int{}
	for _, e := range eff {
		if e.kind != "store" {
			continue
		}
		a := e.args[0]
		if a.op == "faddr" && a.a[0] == m.base && a.s == m.b.st.Field(m.b.previous).Name() {
			continue
		}
		// the effect of adding the finished posting is judged elsewhere
		if isField(a, "journal.Transaction", "Postings") || isField(a, "journal.Transaction", "postingWithElidedAmount") {
			continue
		}
		// a local variable the builder does not see
		if r := rootOf(a); isFresh(r) && named(r.typ) != "*journal.Posting" && named(r.typ) != "*journal.Amount" {
			continue
		}
		// writing back what is there
		if e.args[1].op == "load" && e.args[1].a[0] == a {
			continue
		}
		if i, ok := last[a]; ok {
			l[i] = e
			continue
		}
		last[a] = len(l)
		l = append(l, e)
	}
	return l
}

func sortedKeys(m map[string]int64) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
