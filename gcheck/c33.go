package main

import (
	"fmt"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C33"] = Check{"termination by abstract interpretation over SSA: a measure for every loop, smaller arguments for every recursion, and no path through either that leaves all it depends on as it was", checkC33}
}

type progress struct {
	c *crash
	P *Prog
	r *Report
}

func newCrash(P *Prog, r *Report) *crash {
	return &crash{P: P, r: r, runs: map[*ssa.Function]*crashRun{}, busy: map[*ssa.Function]bool{}, flows: map[string][]flow{},
		nil_: map[string]string{}, nonneg: map[string]bool{}, build: map[*ssa.Function]bool{}, into: map[*ssa.Function][]*crashCall{},
		from: map[*crashCall]*crashRun{}, busyPhi: map[*Term]bool{}, dup: map[string]int{}, memo: map[string]string{}, pairs: map[string]bool{}, ld: P.newInterp(Opts{})}
}

func checkC33(P *Prog, r *Report) {
	r.rule("loop", "every loop comes nearer to its end with each iteration: no path through it leaves all that its conditions depend on as it was", 15)
	r.rule("reading", "a loop that reads does not read again after a read that failed", 1)
	r.rule("recursion", "a function that calls itself does so with something smaller", 4)
	r.rule("include", "a file that is being read is not read again", 1)
	p := &progress{c: newCrash(P, r), P: P, r: r}
	for _, f := range P.Funcs {
		if len(f.Blocks) == 0 || f.Synthetic != "" || p.c.generated(f) {
			continue
		}
		r.use(f)
		if hasLoop(f) {
			p.loops(f)
		}
	}
	p.recursions()
	// the recursion through the callback is that of including files
	inc := newReport(P, "C11")
	checkC11(P, inc)
	n := 0
	for _, x := range inc.findings {
		if x.Rule == "cycle" {
			n++
			r.bad("include", x.Construct, x.Pos, "%s", x.Msg)
		}
	}
	if n == 0 {
		r.ok("include", "include directives")
	}
}

// inside: the term depends on something that only this iteration knows.
func inside(L *LoopSum, t *Term) bool {
	own := map[*Term]bool{L.idx: true}
	for _, p := range L.phis {
		own[p.sym] = true
	}
	return t.any(func(u *Term) bool {
		if own[u] {
			return false
		}
		switch u.op {
		case "load":
			return u.n > L.inst && u.n < 1000000
		case "call", "ext", "dyn", "invoke", "alloc", "rangerune", "rangekey", "has", "mapok", "mapval", "phi", "opaque", "chance", "undef", "closure", "len":
			return u.n > L.inst && u.n < 1000000
		}
		return false
	})
}

// after maps what the header knows to what it is after the iteration.
func (p *progress) after(L *LoopSum, it *Iter, at *Term) map[*Term]*Term {
	m := ends(L, it, at)
	at.any(func(u *Term) bool {
		if u.op == "load" && u.n >= 1000000 {
			if v := p.c.ld.load(it.st, u.a[0], u.typ); v != nil {
				m[u] = v
			}
		}
		return false
	})
	return m
}

func (p *progress) facts(it *Iter, more ...*Term) *Facts {
	g := it.st.f.clone()
	p.c.axioms(g, append(more, g.list...)...)
	for _, t := range g.list {
		t.any(func(u *Term) bool {
			if u.op == "runew" {
				p.width(g, u)
			}
			return false
		})
	}
	for _, t := range more {
		t.any(func(u *Term) bool {
			if u.op == "runew" {
				p.width(g, u)
			}
			return false
		})
	}
	return g
}

// width: a rune of a text that is not empty is at least one byte wide.
func (p *progress) width(g *Facts, w *Term) {
	if v, k := g.query(le0T(addN(scaleT(lenT(w.a[0]), -1, tInt), 1))); k && v {
		g.addLe(addN(scaleT(w, -1, tInt), 1))
	}
}

func (p *progress) loops(f *ssa.Function) {
	run := p.c.of(f)
	if run.over {
		p.r.notes = append(p.r.notes, fname(f)+": not followed")
		p.r.ok("loop", fname(f))
		return
	}
	// the same loop is met once for every path to it
	by := map[*ssa.BasicBlock][]*LoopSum{}
	var order []*ssa.BasicBlock
	for _, L := range run.loops {
		if L.fn != f {
			continue
		}
		if by[L.head] == nil {
			order = append(order, L.head)
		}
		dup := false
		for _, x := range by[L.head] {
			dup = dup || x == L
		}
		if !dup {
			by[L.head] = append(by[L.head], L)
		}
	}
	sort.Slice(order, func(i, j int) bool { return order[i].Index < order[j].Index })
	n := 0
	for _, h := range order {
		n++
		con := fname(f)
		if len(order) > 1 {
			con = fmt.Sprintf("%s: loop %d", con, n)
		}
		for _, L := range by[h] {
			p.loop(f, con, L)
		}
	}
}

func loopPos(P *Prog, f *ssa.Function, L *LoopSum) string {
	for _, in := range L.head.Instrs {
		if in.Pos().IsValid() {
			return P.pos(in.Pos())
		}
	}
	for _, s := range L.head.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return P.pos(in.Pos())
			}
		}
	}
	return P.pos(f.Pos())
}

// varies: the term depends on what the loop changes.
func varies(L *LoopSum, t *Term) bool {
	own := map[*Term]bool{}
	for _, q := range L.phis {
		own[q.sym] = true
	}
	return t.any(func(u *Term) bool { return own[u] || u.op == "load" && u.n >= 1000000 })
}

func (p *progress) loop(f *ssa.Function, con string, L *LoopSum) {
	pos := loopPos(p.P, f, L)
	p.reading(f, con, pos, L)
	if len(L.iters) == 0 {
		p.r.ok("loop", con)
		return
	}
	if why := p.measure(L); why != "" {
		p.r.ok("loop", con+": "+why)
		return
	}
	if p.reads(L) {
		p.r.ok("loop", con+": reads on")
		return
	}
	for _, it := range L.iters {
		if p.forever(L, it) {
			p.r.bad("loop", con, pos, "an iteration leaves everything its conditions depend on as it was (%s), so it is followed by itself without end", p.conditions(L, it))
			return
		}
	}
	p.r.notes = append(p.r.notes, con+": no measure is recognised, and no path through it repeats itself")
	p.r.ok("loop", con)
}

func (p *progress) conditions(L *LoopSum, it *Iter) string {
	var l []string
	for _, t := range it.facts {
		s := versions.ReplaceAllString(fmt.Sprint(t), "")
		if len(s) > 60 {
			s = s[:60] + "…"
		}
		l = append(l, s)
	}
	if len(l) == 0 {
		return "there are none"
	}
	if len(l) > 5 {
		l = l[:5]
	}
	return strings.Join(l, "; ")
}

// measure: what shows that the loop ends.
func (p *progress) measure(L *LoopSum) string {
	if L.seq != nil && !varies(L, L.seq) {
		return "goes over a sequence"
	}
	// a chain of pointers, each a field of the one before
	for _, q := range L.phis {
		if q.phi == nil || q.sym.typ == nil {
			continue
		}
		if _, ok := q.sym.typ.Underlying().(*types.Pointer); !ok {
			continue
		}
		all := true
		for _, it := range L.iters {
			v := it.phis[q.name]
			all = all && v != nil && v.op == "load" && v.a[0].op == "faddr" && v.a[0].a[0] == q.sym
		}
		if all {
			return "follows a chain of pointers"
		}
	}
	// candidates: what the first iteration knows to be at most zero
	var cand []*Term
	add := func(e *Term) {
		if inside(L, e) {
			return
		}
		if !varies(L, e) && !(L.idx != nil && e.contains(L.idx)) {
			return
		}
		for _, x := range cand {
			if x == e {
				return
			}
		}
		cand = append(cand, e)
	}
	for _, t := range L.iters[0].st.f.list {
		switch t.op {
		case "le0":
			add(t.a[0])
		case "not":
			if u := t.a[0]; u.op == "le0" {
				add(addN(scaleT(u.a[0], -1, tInt), 1))
			} else if u.op == "eq0" {
				add(addN(u.a[0], 1))
				add(addN(scaleT(u.a[0], -1, tInt), 1))
			}
		}
	}
	lengths := func(t *Term) {
		t.any(func(u *Term) bool {
			if u.typ == nil {
				return false
			}
			own := u.op == "load" && u.n >= 1000000
			for _, q := range L.phis {
				own = own || q.sym == u
			}
			if !own {
				return false
			}
			switch x := u.typ.Underlying().(type) {
			case *types.Slice:
				add(scaleT(lenT(u), -1, tInt))
			case *types.Basic:
				if x.Info()&types.IsString != 0 {
					add(scaleT(lenT(u), -1, tInt))
				}
			}
			return false
		})
	}
	for _, q := range L.phis {
		lengths(q.sym)
	}
	for _, t := range L.iters[0].st.f.list {
		lengths(t)
	}
	for _, e := range cand {
		if debugC33 {
			fmt.Println("cand", L.fn.Name(), e)
		}
		all := true
		for _, it := range L.iters {
			e2 := substT(e, p.after(L, it, e))
			g := p.facts(it, e, e2)
			if debugC33 {
				fmt.Println("   after", e2, "facts", it.st.f.list)
			}
			if v, k := g.query(le0T(e)); !k || !v {
				all = false
				break
			}
			// e2 >= e+1
			if v, k := g.query(le0T(addN(subT(e, e2), 1))); !k || !v {
				all = false
				break
			}
		}
		if all {
			return "a bounded number comes nearer to its bound"
		}
	}
	// dates that go on
	for _, q := range L.phis {
		all := len(L.iters) > 0
		for _, it := range L.iters {
			v := it.phis[q.name]
			ok := v != nil && v.op == "pure" && strings.HasSuffix(v.s, ".AddDate") && len(v.a) == 4 && v.a[0] == q.sym
			if ok {
				up, down := false, false
				for _, x := range v.a[1:] {
					if x.op != "int" {
						ok = false
					}
					up = up || x.n > 0
					down = down || x.n < 0
				}
				ok = ok && up != down
			}
			all = all && ok
		}
		if all {
			return "goes from date to date"
		}
	}
	return ""
}

// forever: the conditions of the iteration hold again after it.
func (p *progress) forever(L *LoopSum, it *Iter) bool {
	if L.seq != nil {
		return false // a worklist: not known
	}
	for _, e := range it.ev {
		switch e.kind {
		case "panic":
			return false
		case "call", "dyn", "invoke":
			// it may end the program
			if e.kind != "call" || e.fn == nil {
				return false
			}
		}
	}
	for _, t := range it.facts {
		if inside(L, t) {
			return false
		}
	}
	for _, t := range it.facts {
		if !varies(L, t) && !(L.idx != nil && t.contains(L.idx)) {
			continue
		}
		m := p.after(L, it, t)
		t2 := substT(t, m)
		if t2 == t {
			continue
		}
		g := p.facts(it, t2)
		if v, k := g.query(t2); !k || !v {
			return p.settles(L, it)
		}
	}
	return true
}

// settles: the iteration leaves everything at values that a further one would leave
// it at too, and its conditions can hold for these.
func (p *progress) settles(L *LoopSum, it *Iter) bool {
	for _, e := range it.ev {
		if e.kind != "pure" && e.kind != "load" {
			return false
		}
	}
	g := newFacts()
	for _, t := range it.facts {
		if L.idx != nil && t.contains(L.idx) {
			return false
		}
		if t.any(func(u *Term) bool { return u.op == "load" && u.n >= 1000000 }) {
			return false
		}
		t2 := substT(t, ends(L, it, t))
		if varies(L, t2) || inside(L, t2) {
			return false
		}
		if !g.assume(t, true) || !g.assume(t2, true) {
			return false
		}
	}
	return true
}

var readCalls = []string{"(*bufio.Reader).Read", "(*bufio.Scanner).Scan", "(*os.File).Read"}

// reading: the loop does not read on after a failed read.
func (p *progress) reading(f *ssa.Function, con, pos string, L *LoopSum) {
	for _, it := range L.iters {
		for _, e := range it.ev {
			if e.kind != "ext" && e.kind != "invoke" || e.res == nil {
				continue
			}
			is := false
			for _, x := range readCalls {
				is = is || strings.HasPrefix(e.name, x) || e.kind == "invoke" && strings.HasPrefix(e.name, "Read")
			}
			if !is {
				continue
			}
			if strings.HasSuffix(e.name, ".Scan") {
				v, k := it.st.f.query(e.res)
				p.r.check(k && v || p.differs(L, it), "reading", con, pos, "the loop goes on although nothing more could be scanned")
				continue
			}
			for _, x := range errResults(e) {
				v, k := isNil(it.st.f, x)
				if k && v {
					p.r.ok("reading", con)
					continue
				}
				p.r.check(p.something(it, e) || p.differs(L, it), "reading", con, pos, "the loop goes on although the read failed: it fails again and again")
			}
		}
	}
}

// reads: every iteration reads, and did so successfully; what is read comes to an end.
func (p *progress) reads(L *LoopSum) bool {
	for _, it := range L.iters {
		ok := false
		for _, e := range it.ev {
			if e.kind != "ext" || e.res == nil {
				continue
			}
			if strings.HasSuffix(e.name, "bufio.Scanner).Scan") {
				v, k := it.st.f.query(e.res)
				ok = ok || k && v
			} else if isLineReader(e.name) {
				for _, x := range errResults(e) {
					v, k := isNil(it.st.f, x)
					ok = ok || k && v
				}
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// something: the read is known to have given something.
func (p *progress) something(it *Iter, e *Event) bool {
	r := mkT("res", "", 0, nil, e.res)
	for _, t := range it.st.f.list {
		var x *Term
		t.any(func(u *Term) bool {
			if u.op == "len" && u.any(func(v *Term) bool { return v.op == "res" && v.a[0] == e.res }) {
				x = u
			}
			return false
		})
		if x != nil {
			if v, k := it.st.f.query(le0T(addN(scaleT(x, -1, tInt), 1))); k && v {
				return true
			}
			if v, k := it.st.f.query(eq0T(x)); k && !v {
				return true
			}
		}
	}
	_ = r
	return false
}

// differs: a condition at the head of the loop is another one after the iteration.
func (p *progress) differs(L *LoopSum, it *Iter) bool {
	for _, t := range it.facts {
		if inside(L, t) || !varies(L, t) {
			continue
		}
		t2 := substT(t, p.after(L, it, t))
		if t2 == t {
			continue
		}
		g := p.facts(it, t2)
		if v, k := g.query(t2); !k || !v {
			return true
		}
	}
	return false
}

// recursions: functions that reach themselves by plain calls.
func (p *progress) recursions() {
	succ := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range p.P.Funcs {
		succ[f] = map[*ssa.Function]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && p.P.inRepo(g) {
						succ[f][g] = true
					}
				}
			}
		}
	}
	reach := map[*ssa.Function]map[*ssa.Function]bool{}
	for f := range succ {
		m := map[*ssa.Function]bool{}
		var walk func(g *ssa.Function)
		walk = func(g *ssa.Function) {
			for h := range succ[g] {
				if !m[h] {
					m[h] = true
					walk(h)
				}
			}
		}
		walk(f)
		reach[f] = m
	}
	for _, f := range p.P.Funcs {
		if !reach[f][f] || f.Synthetic != "" {
			continue
		}
		p.recursive(f, func(g *ssa.Function) bool { return reach[f][g] && reach[g][f] })
	}
}

func (p *progress) recursive(f *ssa.Function, same func(*ssa.Function) bool) {
	con, pos := fname(f), p.P.pos(f.Pos())
	outs, in := p.P.run(f, Opts{snap: true, maxSteps: 200000, opaque: func(g *ssa.Function) bool { return same(g) || len(p.P.reaches(g)) > 40 }})
	if in.over {
		p.r.notes = append(p.r.notes, con+": not followed")
		p.r.ok("recursion", con)
		return
	}
	found := false
	for _, o := range outs {
		allEvents(o.st.ev, func(e *Event, it *Iter) {
			if e.kind != "call" || e.fn == nil || !same(e.fn) || len(e.stack) > 0 && false {
				return
			}
			found = true
			st := o.st
			if it != nil {
				st = it.st
			}
			small, equal := false, e.fn == f && len(e.args) == len(f.Params)
			for i, a := range e.args {
				if i >= len(e.fn.Params) {
					break
				}
				k := p.size(st, a, f)
				small = small || k == "smaller"
				if equal && !(k == "same" && i < len(f.Params) && p.root(a) == paramT(f.Params[i], i) && plain(a) == paramT(f.Params[i], i)) {
					equal = false
				}
			}
			again := !small && e.fn == f && p.again(o, st, e, f)
			switch {
			case small:
				p.r.ok("recursion", con)
			case (equal || again) && !p.changed(o, it, e):
				p.r.bad("recursion", con, pos, "it calls itself with what it was given")
			default:
				p.r.notes = append(p.r.notes, con+": what it calls itself with is not followed")
				if debugC33 {
					fmt.Println(con, e.args, st.f.list)
				}
				p.r.ok("recursion", con)
			}
		})
	}
	if !found {
		p.r.ok("recursion", con)
	}
}

func (p *progress) root(t *Term) *Term {
	t = plain(t)
	for {
		switch t.op {
		case "load", "faddr", "iaddr", "elem", "slice", "field", "maddr", "mapval", "lookup", "rangeval":
			t = t.a[0]
		default:
			return t
		}
	}
}

// size compares an argument with what the function was given.
func (p *progress) size(st *State, a *Term, f *ssa.Function) string {
	a = plain(a)
	if a.op == "struct" && len(a.a) > 0 && a.a[0].op == "load" && a.a[0].a[0].op == "faddr" {
		a = a.a[0].a[0].a[0]
	}
	if a.op == "param" {
		return "same"
	}
	r := p.root(a)
	if r.op != "param" {
		return ""
	}
	if isIntType(a.typ) {
		return ""
	}
	steps, cut := 0, false
	for t := a; t != r; t = plain(t.a[0]) {
		switch t.op {
		case "elem", "iaddr", "faddr", "field", "maddr", "mapval", "lookup", "rangeval":
			steps++
		case "slice":
			if len(t.a) > 1 {
				if v, k := st.f.query(le0T(addN(scaleT(t.a[1], -1, tInt), 1))); k && v {
					cut = true
				}
			}
		}
	}
	if steps > 0 || cut {
		return "smaller"
	}
	return ""
}

// changed: something is remembered before the call.
func (p *progress) changed(o *Outcome, it *Iter, e *Event) bool {
	l := o.st.ev
	if it != nil {
		l = it.ev
	}
	for _, x := range l {
		if x == e {
			return false
		}
		switch x.kind {
		case "store", "mapset", "mapdel", "ext", "dyn", "invoke":
			return true
		}
	}
	return false
}

var versions = regexp.MustCompile(`@[0-9]+|φ[0-9]*\.?`)

var debugC33 = os.Getenv("C33") != ""

// again: whether the call is made depends only on what is handed on as it is.
func (p *progress) again(o *Outcome, st *State, e *Event, f *ssa.Function) bool {
	same := map[*Term]bool{}
	for i, a := range e.args {
		if i >= len(f.Params) {
			return false
		}
		a = plain(a)
		self := paramT(f.Params[i], i)
		if a.op == "struct" {
			all := len(a.a) > 0
			for _, x := range a.a {
				all = all && x.any(func(u *Term) bool { return u == self }) && p.root(x) == self && len(path(x)) > len(path(self)) && strings.Count(path(x)[len(path(self)):], ".") == 1
			}
			if all {
				same[self] = true
			}
		}
		if a == self {
			same[self] = true
		}
	}
	if len(same) == 0 {
		return false
	}
	phis := map[*Term][]*Term{}
	allEvents(o.st.ev, func(x *Event, _ *Iter) {
		if x.kind != "loop" {
			return
		}
		for _, q := range x.loop.phis {
			l := []*Term{}
			if q.init != nil {
				l = append(l, q.init)
			}
			for _, it := range x.loop.iters {
				if v := it.phis[q.name]; v != nil {
					l = append(l, v)
				}
				l = append(l, it.facts...)
			}
			phis[q.sym] = l
		}
	})
	busy := map[*Term]bool{}
	var free func(t *Term) bool
	free = func(t *Term) bool {
		return !t.any(func(u *Term) bool {
			switch u.op {
			case "param":
				return !same[u]
			case "phi":
				l, ok := phis[u]
				if !ok {
					return true
				}
				if busy[u] {
					return false
				}
				busy[u] = true
				for _, x := range l {
					if !free(x) {
						return true
					}
				}
				return false
			case "call", "ext", "dyn", "invoke", "global":
				return true
			case "load":
				return u.n >= 1000000 && rootOf(u.a[0]).op != "alloc"
			}
			return false
		})
	}
	for _, t := range st.f.list {
		if !t.contains(e.res) && !free(t) {
			return false
		}
	}
	return true
}
