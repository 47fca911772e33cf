package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C01"] = Check{"path-sensitive dataflow over SSA with linear facts: every index, slice, division, assertion and explicit panic is an obligation of its path, and a nilness analysis follows every pointer, map and function value from where it may be nil to where it is used", checkC01}
}

// crashRun is what analysing one function from arbitrary arguments found.
type crashRun struct {
	f     *ssa.Function
	cost  int
	over  bool
	outs  []*Outcome
	obls  []*crashObl
	calls []*crashCall
	evs   map[*Term]*Event
	loops []*LoopSum
	opq   map[*ssa.Function]bool
}

type crashObl struct {
	kind  string
	in    ssa.Instruction
	ok    bool
	at    []*Term
	val   *Term
	f     *Facts
	ev    []*Event
	chain []*ssa.Function
}

// crashCall is a call made by the function itself.
type crashCall struct {
	fn   *ssa.Function
	args []*Term
	f    *Facts
	ins  ssa.Instruction
	flds map[string]*Term // fields of what the arguments point to: "0.name"
	recv map[string]*Term // the slices in the receiver of the caller
}

type flow struct {
	run   *crashRun
	f     *Facts
	t     *Term
	where string
}

type crash struct {
	P       *Prog
	r       *Report
	runs    map[*ssa.Function]*crashRun
	busy    map[*ssa.Function]bool
	flows   map[string][]flow
	nil_    map[string]string // slots that may be nil, and why
	nonneg  map[string]bool
	build   map[*ssa.Function]bool
	into    map[*ssa.Function][]*crashCall
	from    map[*crashCall]*crashRun
	dyns    []*crashCall
	ld      *interp
	busyPhi map[*Term]bool
	dup     map[string]int
	memo    map[string]string
	enums   map[*types.Named]*enumT
	pairs   map[string]bool
	ready   bool
}

// of analyses a function once; what it calls is followed where that is cheap.
func (c *crash) of(f *ssa.Function) *crashRun {
	if r := c.runs[f]; r != nil {
		return r
	}
	c.busy[f] = true
	r := &crashRun{f: f, evs: map[*Term]*Event{}, opq: map[*ssa.Function]bool{}}
	var in *interp
	for _, limit := range []int{350, 60, 0} {
		limit := limit
		r.obls, r.calls = nil, nil
		r.opq = map[*ssa.Function]bool{}
		o := Opts{maxDepth: 6, maxSteps: 12000}
		o.opaque = func(g *ssa.Function) bool {
			hide := c.busy[g] || limit == 0
			if !hide {
				q := c.of(g)
				hide = q.over || q.cost > limit
			}
			if hide {
				r.opq[g] = true
			}
			return hide
		}
		o.obl = func(o *Obl) {
			x := &crashObl{kind: o.kind, in: o.in, ok: o.ok, at: o.at, val: o.val}
			if !o.ok {
				x.f = o.st.f.clone()
				x.ev = o.st.ev[:len(o.st.ev):len(o.st.ev)]
			}
			for fr := o.fr; fr != nil; fr = fr.up {
				x.chain = append(x.chain, fr.fn)
			}
			r.obls = append(r.obls, x)
		}
		o.enter = func(fr *frame, st *State, g *ssa.Function, args []*Term, ins ssa.Instruction) {
			if fr.up != nil {
				return
			}
			k := &crashCall{fn: g, args: args, f: st.f.clone(), ins: ins, flds: map[string]*Term{}}
			for i, a := range args {
				if a.typ == nil {
					continue
				}
				var s *types.Struct
				if p, ok := a.typ.Underlying().(*types.Pointer); ok {
					s, _ = c.ld.explodes(p.Elem())
				}
				if s == nil {
					continue
				}
				for j := 0; j < s.NumFields(); j++ {
					if nilable(s.Field(j).Type()) || isIntType(s.Field(j).Type()) {
						k.flds[fmt.Sprintf("%d.%s", i, s.Field(j).Name())] = c.ld.load(st, faddrT(a, s, j), s.Field(j).Type())
					}
				}
			}
			if f.Signature.Recv() != nil && len(f.Params) > 0 {
				self := paramT(f.Params[0], 0)
				if p, ok := self.typ.Underlying().(*types.Pointer); ok {
					if s, _ := c.ld.explodes(p.Elem()); s != nil {
						k.recv = map[string]*Term{}
						for j := 0; j < s.NumFields(); j++ {
							if _, ok := s.Field(j).Type().Underlying().(*types.Slice); ok {
								k.recv[s.Field(j).Name()] = c.ld.load(st, faddrT(self, s, j), s.Field(j).Type())
							}
						}
					}
				}
			}
			r.calls = append(r.calls, k)
		}
		r.outs, in = c.P.run(f, o)
		if !in.over {
			break
		}
	}
	delete(c.busy, f)
	r.cost, r.over = in.steps, in.over
	for _, o := range r.outs {
		allEvents(o.st.ev, func(e *Event, it *Iter) {
			if e.res != nil {
				r.evs[e.res] = e
			}
			if e.kind == "loop" {
				r.loops = append(r.loops, e.loop)
			}
		})
	}
	c.runs[f] = r
	return r
}

// nilable: a value of that type can be nil, and using it then ends in a crash.
func nilable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map:
		return true
	case *types.Signature:
		_ = u
		return true
	}
	return false
}

func key(f *ssa.Function, i int) string { return fmt.Sprintf("param %s#%d", fname(f), i) }

// put records where a value comes to rest, and what its parts are.
func (c *crash) put(run *crashRun, f *Facts, slot string, t *Term, typ types.Type, where string) {
	if t == nil {
		return
	}
	if typ == nil {
		typ = t.typ
	}
	if slot != "" && typ != nil && nilable(typ) {
		c.flow(slot, flow{run, f, t, where})
	}
	c.parts(run, f, t, where, 0)
}

func (c *crash) flow(slot string, fl flow) {
	if nonNil(fl.t) {
		return
	}
	if fl.t.op != "nil" {
		if v, known := fl.f.query(eqT(fl.t, tNil)); known && !v {
			return
		}
	}
	k := slot + "|" + fname(fl.run.f) + "|" + fmt.Sprint(fl.t.id)
	if fl.t.op == "res" || fl.t.op == "load" || fl.t.op == "field" {
		if c.dup[k]++; c.dup[k] > 30 {
			return
		}
	} else if c.dup[k]++; c.dup[k] > 1 {
		return
	}
	c.flows[slot] = append(c.flows[slot], fl)
}

func (c *crash) parts(run *crashRun, f *Facts, t *Term, where string, d int) {
	if d > 6 {
		return
	}
	switch t.op {
	case "struct":
		if s, ok := t.typ.Underlying().(*types.Struct); ok {
			for i, v := range t.a {
				if i < s.NumFields() && nilable(s.Field(i).Type()) {
					k := "F:" + typeName(t.typ) + "." + s.Field(i).Name()
					c.flow(k, flow{run, f, v, where})
				}
				c.parts(run, f, v, where, d+1)
			}
		}
	case "append":
		if t.typ != nil {
			if s, ok := t.typ.Underlying().(*types.Slice); ok && nilable(s.Elem()) {
				k := "E:" + typeName(s.Elem())
				for _, v := range t.a[1:] {
					c.flow(k, flow{run, f, v, where})
				}
			}
		}
		for _, v := range t.a {
			c.parts(run, f, v, where, d+1)
		}
	}
}

// collect takes what one analysed function puts where.
func (c *crash) collect(run *crashRun) {
	name := fname(run.f)
	state := func(st *State, rets []*Term) {
		// objects that others can see
		seen := map[*Term]bool{}
		var mark func(t *Term, d int)
		mark = func(t *Term, d int) {
			if t == nil || d > 5 {
				return
			}
			if t.op == "alloc" {
				if seen[t] {
					return
				}
				seen[t] = true
				for a, v := range st.heap {
					if rootOf(a) == t {
						mark(v, d+1)
					}
				}
				return
			}
			for _, x := range t.a {
				mark(x, d+1)
			}
		}
		for _, t := range rets {
			mark(t, 0)
		}
		for a := range st.heap {
			if r := rootOf(a); r.op == "alloc" && st.esc[r] {
				mark(r, 0)
			}
		}
		for a, v := range st.heap {
			switch a.op {
			case "faddr", "iaddr", "global":
				if r := rootOf(a); r.op == "alloc" && !seen[r] {
					continue
				}
				if nilable(cellType(a)) {
					c.put(run, st.f, classOf(a), v, cellType(a), name)
				} else {
					c.parts(run, st.f, v, name, 0)
				}
			case "alloc":
				if x, ok := a.x.(*ssa.Alloc); ok && nilable(cellType(a)) {
					c.put(run, st.f, cellKey(x), v, cellType(a), name)
				}
			}
		}
	}
	for _, o := range run.outs {
		if o.panic || o.exit {
			continue
		}
		rets := o.rets
		if n := len(rets); n > 1 && isErrorType(run.f.Signature.Results().At(n-1).Type()) {
			// nobody uses what comes with an error
			if nl, known := isNil(o.st.f, rets[n-1]); known && !nl {
				rets = rets[n-1:]
			}
		}
		state(o.st, rets)
		for _, v := range rets {
			c.parts(run, o.st.f, v, name, 0)
		}
		allEvents(o.st.ev, func(e *Event, it *Iter) {
			f := o.st.f
			if it != nil {
				f = it.st.f
			}
			switch e.kind {
			case "mapset":
				c.put(run, f, "M:"+typeName(e.args[0].typ), e.args[2], e.args[2].typ, name)
			case "dyn":
				k := &crashCall{args: e.args, f: f, ins: e.in}
				c.from[k] = run
				c.dyns = append(c.dyns, k)
				for i, a := range e.args {
					c.put(run, f, fmt.Sprintf("dyn %s#%d", e.target, i), a, a.typ, name)
				}
			}
		})
	}
	for _, L := range run.loops {
		for _, it := range L.iters {
			state(it.st, nil)
		}
	}
	for _, k := range run.calls {
		c.into[k.fn] = append(c.into[k.fn], k)
		c.from[k] = run
		for i, a := range k.args {
			if i < len(k.fn.Params) {
				c.put(run, k.f, key(k.fn, i), a, k.fn.Params[i].Type(), name)
			}
		}
	}
}

func cellType(a *Term) types.Type {
	if a.typ != nil {
		if p, ok := a.typ.Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
	}
	return types.Typ[types.Int]
}

func cellKey(x *ssa.Alloc) string { return "cell " + fname(x.Parent()) + "." + x.Comment }

// mayNil: why the value may be nil, or "".
func (c *crash) mayNil(run *crashRun, f *Facts, t *Term, d int) (why string) {
	if t == nil || d > 12 || nonNil(t) {
		return ""
	}
	if t.op == "nil" || t.op == "zero" {
		return "nothing is put there"
	}
	if v, known := f.query(eqT(t, tNil)); known {
		if v {
			return "it is nil on this path"
		}
		return ""
	}
	switch t.op {
	case "param":
		if int(t.n) < len(run.f.Params) && paramT(run.f.Params[t.n], int(t.n)) == t {
			return c.nil_[key(run.f, int(t.n))]
		}
	case "load":
		a := t.a[0]
		switch a.op {
		case "faddr":
			b := a.a[0]
			if t.n == 0 && b.op == "param" && int(b.n) < len(run.f.Params) && paramT(run.f.Params[b.n], int(b.n)) == b {
				if into := c.into[run.f]; len(into) > 0 && !c.P.taken[run.f] {
					all := true
					for _, k := range into {
						if !k.possible(run, f) {
							continue
						}
						v := k.flds[fmt.Sprintf("%d.%s", b.n, a.s)]
						if v == nil || c.mayNil(c.from[k], k.f, v, d+1) != "" {
							all = false
						}
					}
					if all {
						return ""
					}
				}
			}
			if c.lenient(run, f, t, a) {
				return ""
			}
			if b.op == "field" || b.op == "load" && b.a[0].op == "maddr" {
				if w := c.absent(run, f, b); w != "" {
					return w
				}
			}
			return c.nil_[classOf(a)]
		case "iaddr":
			return c.nil_[classOf(a)]
		case "global":
			return c.nil_[classOf(a)]
		case "maddr":
			if w := c.absent(run, f, t); w != "" {
				return w
			}
			return c.nil_["M:"+a.s]
		case "free":
			for _, fv := range run.f.FreeVars {
				if fname(run.f)+"."+fv.Name() == a.s {
					return c.nil_["cell "+fname(run.f.Parent())+"."+fv.Name()]
				}
			}
		}
	case "field":
		b := t.a[0]
		if b.op == "load" && b.a[0].op == "maddr" {
			if w := c.absent(run, f, b); w != "" {
				return w
			}
		}
		if b.typ != nil {
			return c.nil_["F:"+typeName(b.typ)+"."+t.s]
		}
	case "elem":
		if t.typ != nil {
			return c.nil_["E:"+typeName(t.typ)]
		}
	case "rangeval":
		if t.a[0].typ != nil {
			return c.nil_["M:"+typeName(t.a[0].typ)]
		}
	case "phi", "mem":
		if c.busyPhi[t] {
			return ""
		}
		if w, ok := c.memo[fmt.Sprint(t.id)]; ok {
			return w
		}
		defer func() {
			if d == 0 || why != "" {
				c.memo[fmt.Sprint(t.id)] = why
			}
		}()
		c.busyPhi[t] = true
		defer delete(c.busyPhi, t)
		for _, L := range run.loops {
			for _, p := range L.phis {
				if p.sym != t {
					continue
				}
				if w := c.mayNil(run, f, p.init, d+1); w != "" {
					return w
				}
				for _, it := range L.iters {
					if v := it.phis[p.name]; v != nil {
						if w := c.mayNil(run, it.st.f, v, d+1); w != "" {
							return w
						}
					}
				}
				return ""
			}
		}
	case "call", "res":
		b, i := t, 0
		if t.op == "res" {
			b, i = t.a[0], int(t.n)
		}
		if b.op == "pure" && t.op == "res" && i == 0 {
			x := mkT("res", "", 1, errorType, b)
			if v, known := f.query(eqT(x, tNil)); !known || !v {
				return "the library gives none when it fails"
			}
			return ""
		}
		e := run.evs[b]
		if e == nil && t.op == "call" {
			e = run.evs[mkT("call", t.s, t.n, nil)]
		}
		if e == nil || e.fn == nil {
			return ""
		}
		if !c.P.inRepo(e.fn) {
			if x := e.extra["valErr"]; x != nil && t.op == "res" {
				if v, known := f.query(eqT(x, tNil)); !known || !v {
					return "the library gives none when it fails"
				}
			}
			return ""
		}
		q := c.runs[e.fn]
		if q == nil {
			return ""
		}
		if t.op == "call" {
			k := "call " + fname(e.fn)
			if w, ok := c.memo[k]; ok {
				return w
			}
			c.memo[k] = ""
			defer func() { c.memo[k] = why }()
		}
		for _, o := range q.outs {
			if o.panic || o.exit || i >= len(o.rets) {
				continue
			}
			// a result that goes with what the caller knows of the others
			fits := true
			for j, v := range o.rets {
				if j == i || t.op != "res" {
					continue
				}
				u := mkT("res", "", int64(j), e.fn.Signature.Results().At(j).Type(), b)
				switch {
				case isErrorType(u.typ):
					if v2, known := f.query(eqT(u, tNil)); known {
						if w, k := isNil(o.st.f, v); k && w != v2 {
							fits = false
						}
					}
				case isBoolean(u.typ):
					if v2, known := f.query(u); known {
						if w, k := o.st.f.query(v); k && w != v2 {
							fits = false
						}
					}
				}
			}
			if !fits || !c.feasible(q, o.st.f) {
				continue
			}
			if w := c.mayNil(q, o.st.f, o.rets[i], d+1); w != "" {
				return w
			}
		}
	}
	return ""
}

// feasible: some caller passes numbers with which the path can be taken.
func (c *crash) feasible(run *crashRun, f *Facts) bool {
	into := c.into[run.f]
	if len(into) == 0 || c.P.taken[run.f] {
		return true
	}
	for _, k := range into {
		m := map[*Term]*Term{}
		for i, a := range k.args {
			if i < len(run.f.Params) && a.op == "int" {
				m[paramT(run.f.Params[i], i)] = a
			}
		}
		can := true
		for i, a := range k.args {
			// a path for nothing given, from where something is given
			if i >= len(run.f.Params) || !nilable(run.f.Params[i].Type()) {
				continue
			}
			if v, known := f.query(eqT(paramT(run.f.Params[i], i), tNil)); known && v && c.from[k] != nil && c.mayNil(c.from[k], k.f, a, 4) == "" {
				can = false
			}
		}
		for _, q := range f.list {
			if u := substT(q, m); u != q {
				if v, known := newFacts().query(u); known && !v {
					can = false
				}
			}
		}
		if can {
			return true
		}
	}
	return false
}

// absent: a value looked up in a map may not be there.
func (c *crash) absent(run *crashRun, f *Facts, t *Term) string {
	if t.op != "load" || t.a[0].op != "maddr" {
		return ""
	}
	m, k := t.a[0].a[0], t.a[0].a[1]
	for u, v := range f.truth {
		if u.op == "load" && u.a[0].op == "mhas" && u.a[0].a[0] == m && u.a[0].a[1] == k {
			if v {
				return ""
			}
			return "it is looked up where it is not"
		}
	}
	// a key that was met among the keys of something
	l := k
	switch {
	case k.op == "load" && k.a[0].op == "iaddr":
		l = k.a[0].a[0]
	case k.op == "elem":
		l = k.a[0]
	case k.op == "rangekey":
		l = k.a[0]
	case k.op == "rangeval":
		l = k.a[0]
	}
	if l != k && !c.freely(run, f, l) || k.op == "phi" || k.op == "mem" || k.op == "free" || k.op == "load" && k.a[0].op == "free" {
		c.note("%s: a key that is taken from a list is assumed to be one of the map's", fname(run.f))
		return ""
	}
	return "it may not be in the map it is looked up in"
}

// possible: the path can be taken when called from there.
func (k *crashCall) possible(run *crashRun, f *Facts) bool {
	m := map[*Term]*Term{}
	for i, a := range k.args {
		if i < len(run.f.Params) && a.op == "int" {
			m[paramT(run.f.Params[i], i)] = a
		}
	}
	for _, q := range f.list {
		q.any(func(u *Term) bool {
			if u.op == "load" && u.n == 0 && u.a[0].op == "faddr" && u.a[0].a[0].op == "param" {
				b := u.a[0].a[0]
				if v := k.flds[fmt.Sprintf("%d.%s", b.n, u.a[0].s)]; v != nil && int(b.n) < len(run.f.Params) && paramT(run.f.Params[b.n], int(b.n)) == b {
					m[u] = v
				}
			}
			return false
		})
	}
	for _, q := range f.list {
		if u := substT(q, m); u != q {
			if v, known := k.f.query(u); known && !v {
				return false
			}
		}
	}
	return true
}

// freely: a list that was not made from the keys of a map.
func (c *crash) freely(run *crashRun, f *Facts, l *Term) bool {
	for l.op == "slice" {
		l = l.a[0]
	}
	switch l.op {
	case "param":
		return true
	case "pure":
		return strings.HasPrefix(l.s, "strings.")
	}
	return false
}

// lenient: what other rules say of transactions that are being built and of those that are delivered.
func (c *crash) lenient(run *crashRun, f *Facts, t, a *Term) bool {
	switch {
	case isField(a, "journal.Posting", "Amount") || isField(a, "journal.Posting", "Transaction"):
		return !c.build[run.f]
	case isField(a, "parser.transactionBuilder", "transaction") || isField(a, "parser.transactionBuilder", "periodicTransaction"):
		// the one that its type says, while one is open
		typ, open := false, false
		for _, q := range f.list {
			q.any(func(u *Term) bool {
				if u.op == "faddr" && u.a[0] == a.a[0] {
					typ = typ || u.s == "transactionType"
					open = open || u.s == "currentPosting"
				}
				return false
			})
		}
		return typ && open
	}
	return false
}

func (c *crash) note(s string, a ...interface{}) {
	n := fmt.Sprintf(s, a...)
	for _, x := range c.r.notes {
		if x == n {
			return
		}
	}
	c.r.notes = append(c.r.notes, n)
}

// substT replaces terms within a term.
func substT(t *Term, m map[*Term]*Term) *Term {
	if u, ok := m[t]; ok {
		return u
	}
	if len(t.a) == 0 {
		return t
	}
	as := make([]*Term, len(t.a))
	same := true
	for i, x := range t.a {
		as[i] = substT(x, m)
		same = same && as[i] == x
	}
	if same {
		return t
	}
	switch t.op {
	case "lin":
		s := mkInt(t.n, t.typ)
		for i, x := range as {
			s = addT(s, x, t.co[i], t.typ)
		}
		return s
	case "le0":
		return le0T(as[0])
	case "eq0":
		return eq0T(as[0])
	case "not":
		return notT(as[0])
	case "eq":
		return eqT(as[0], as[1])
	case "len":
		return lenT(as[0])
	case "field":
		if t.a[0].typ != nil {
			if s, ok := t.a[0].typ.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == t.s {
						return fieldT(as[0], s, i)
					}
				}
			}
		}
	}
	u := mkT(t.op, t.s, t.n, t.typ, as...)
	if u.x == nil {
		u.x = t.x
	}
	return u
}

// axioms adds what holds of the library's results and of fields that are never negative.
func (c *crash) axioms(g *Facts, ts ...*Term) {
	seen := map[*Term]bool{}
	le := func(t *Term) { g.addLe(t) }
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, x := range t.a {
			walk(x)
		}
		switch t.op {
		case "param", "load", "field", "phi", "call", "res":
			if lo, hi, ok := c.enum(t.typ); ok {
				le(addN(scaleT(t, -1, tInt), lo))
				le(addN(t, -hi))
			}
		}
		switch t.op {
		case "rune":
			le(scaleT(t, -1, tInt)) // what is no character is given another one
		case "runew":
			le(scaleT(t, -1, tInt))
			le(subT(t, lenT(t.a[0])))
			r := mkT("rune", "", 0, types.Typ[types.Rune], t.a[0])
			if v, k := g.query(le0T(scaleT(r, -1, tInt))); k && v {
				if v, k := g.query(le0T(addN(r, -127))); k && v {
					le(addN(t, -1))
					le(addN(scaleT(t, -1, tInt), 1))
				}
			}
		case "len":
			x := t.a[0]
			le(scaleT(t, -1, tInt))
			if x.op == "conv" && isString(x.a[0].typ) {
				n := lenT(x.a[0])
				if v, k := g.query(le0T(addN(scaleT(n, -1, tInt), 1))); k && v {
					le(addN(scaleT(t, -1, tInt), 1))
				}
			}
			if x.op == "conv" && isString(x.a[0].typ) {
				if v, k := g.query(le0T(addN(scaleT(t, -1, tInt), 1))); k && v {
					le(addN(scaleT(lenT(x.a[0]), -1, tInt), 1))
				}
			}
			if x.op == "pure" && (x.s == "strings.Split" || x.s == "strings.SplitN" || x.s == "strings.SplitAfter") && x.a[1].op == "str" && x.a[1].s != "" {
				le(addN(scaleT(t, -1, tInt), 1))
			}
			_ = x
		case "rangerune":
			// there is one, so the text is not empty
			if len(t.a) > 0 && isString(t.a[0].typ) {
				le(addN(scaleT(lenT(t.a[0]), -1, tInt), 1))
			}
		case "load":
			if t.a[0].op == "faddr" && c.nonneg[classOf(t.a[0])] {
				le(scaleT(t, -1, tInt))
			}
		}
	}
	for _, t := range ts {
		walk(t)
	}
	// a position in a text that an object keeps
	if c.ready {
		var ps, ls []*Term
		for t := range seen {
			if t.op == "load" && t.a[0].op == "faddr" && isIntType(t.typ) {
				ps = append(ps, t)
			}
			if t.op == "len" && t.a[0].op == "load" && t.a[0].a[0].op == "faddr" {
				ls = append(ls, t)
			}
		}
		sort.Slice(ps, func(i, j int) bool { return ps[i].id < ps[j].id })
		sort.Slice(ls, func(i, j int) bool { return ls[i].id < ls[j].id })
		for _, p := range ps {
			for _, l := range ls {
				if p.a[0].a[0] == l.a[0].a[0].a[0] && c.within(p.a[0], l.a[0].a[0]) {
					le(subT(p, l))
				}
			}
		}
	}
}

// within: the number in one field is never more than the length of another of
// the same object: it is so when the object is made, and whatever changes either
// leaves it so.
func (c *crash) within(p, l *Term) bool {
	k := classOf(p) + "<=" + classOf(l)
	if v, ok := c.pairs[k]; ok {
		return v
	}
	c.pairs[k] = false // not to be used to show itself
	defer func(b bool) { c.ready = b }(c.ready)
	c.ready = false
	ok, n := true, 0
	var fs []*ssa.Function
	for f := range c.runs {
		if !c.dead(f) {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fname(fs[i]) < fname(fs[j]) })
	mems := map[*Term]*Term{}
	st1 := func(q *crashRun, st *State) {
		bases := map[*Term]bool{}
		for a := range st.heap {
			if a.op == "faddr" && (classOf(a) == classOf(p) || classOf(a) == classOf(l)) {
				bases[a.a[0]] = true
			}
		}
		for b := range bases {
			pa, la := mkT("faddr", p.s, p.n, p.typ, b), mkT("faddr", l.s, l.n, l.typ, b)
			pv, lv := c.ld.load(st, pa, elemType(p)), c.ld.load(st, la, elemType(l))
			if pv == nil || lv == nil {
				ok = false
				return
			}
			at := le0T(subT(pv, lenT(lv)))
			g := st.f.clone()
			c.axioms(g, append([]*Term{at}, g.list...)...)
			var ps, ls []*Term
			for _, t := range append([]*Term{at}, g.list...) {
				t.any(func(u *Term) bool {
					if u.op == "load" && u.a[0] == pa || mems[u] == pa {
						ps = append(ps, u)
					}
					if u.op == "load" && u.a[0] == la || mems[u] == la {
						ls = append(ls, u)
					}
					return false
				})
			}
			for _, x := range ps {
				for _, y := range ls {
					g.addLe(subT(x, lenT(y)))
				}
			}
			at.any(func(u *Term) bool {
				if u.op == "load" && u.a[0].op == "faddr" && isIntType(u.typ) && c.natural(u.a[0]) {
					g.addLe(scaleT(u, -1, tInt))
				}
				return false
			})
			n++
			if v, known := g.query(at); !known || !v {
				if debugC33 {
					fmt.Println("within", fname(q.f), at, g.list)
				}
				ok = false
			}
		}
	}
	for _, f := range fs {
		q := c.runs[f]
		if q.over {
			// what it does by itself cannot be told
			ok = ok && !writesField(f, p, l)
			continue
		}
		for _, L := range q.loops {
			var pi, li *PhiInfo
			for _, x := range L.phis {
				if x.addr == nil || x.addr.op != "faddr" {
					continue
				}
				switch classOf(x.addr) {
				case classOf(p):
					pi = x
				case classOf(l):
					li = x
				default:
					continue
				}
				mems[x.sym] = x.addr
			}
			if pi != nil && li != nil && pi.init != nil && li.init != nil {
				g := newFacts()
				at := le0T(subT(pi.init, lenT(li.init)))
				c.axioms(g, at)
				if v, known := g.query(at); !known || !v {
					ok = false
				}
			}
		}
		for _, o := range q.outs {
			if !o.panic && !o.exit {
				st1(q, o.st)
			}
		}
		for _, L := range q.loops {
			for _, it := range L.iters {
				st1(q, it.st)
			}
		}
		if !ok {
			break
		}
	}
	c.pairs[k] = ok && n > 0
	return c.pairs[k]
}

// natural: nothing but what is known not to be negative is put into the field.
func (c *crash) natural(a *Term) bool {
	k := classOf(a)
	if v, ok := c.pairs[k]; ok {
		return v
	}
	c.pairs[k] = false
	ok, n := true, 0
	st1 := func(st *State) {
		for x, v := range st.heap {
			if x.op != "faddr" || classOf(x) != k {
				continue
			}
			n++
			at := le0T(scaleT(v, -1, tInt))
			g := st.f.clone()
			c.axioms(g, append([]*Term{at}, g.list...)...)
			at.any(func(u *Term) bool {
				if u.op == "load" && u.a[0].op == "faddr" && classOf(u.a[0]) == k {
					g.addLe(scaleT(u, -1, tInt))
				}
				return false
			})
			if v.op == "mem" {
				continue // as it was when the loop was met
			}
			if v, known := g.query(at); !known || !v {
				ok = false
			}
		}
	}
	for f, q := range c.runs {
		if c.dead(f) {
			continue
		}
		if q.over {
			ok = ok && !writesField(f, a)
			continue
		}
		for _, o := range q.outs {
			if !o.panic && !o.exit {
				st1(o.st)
			}
		}
		for _, L := range q.loops {
			for _, x := range L.phis {
				if x.addr != nil && x.addr.op == "faddr" && classOf(x.addr) == k && x.init != nil {
					g := newFacts()
					at := le0T(scaleT(x.init, -1, tInt))
					c.axioms(g, at)
					if x.init.op != "load" && x.init.op != "mem" {
						if v, known := g.query(at); !known || !v {
							ok = false
						}
					}
				}
			}
			for _, it := range L.iters {
				st1(it.st)
			}
		}
	}
	c.pairs[k] = ok && n > 0
	return c.pairs[k]
}

// dead: nothing in the program calls it.
func (c *crash) dead(f *ssa.Function) bool { return c.P.unused(f) }

func (P *Prog) unused(f *ssa.Function) bool {
	return f.Parent() == nil && len(P.callers[f]) == 0 && !P.taken[f] && f.Name() != "main" && f.Name() != "init" && !strings.HasPrefix(f.Name(), "init#") && f.Object() != nil && !f.Object().Exported()
}

func writesField(f *ssa.Function, as ...*Term) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
					st, _ := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
					for _, a := range as {
						if st != nil && st.Field(fa.Field).Name() == a.s {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// enum: the values of a type that only ever takes those of its constants.
func (c *crash) enum(t types.Type) (lo, hi int64, ok bool) {
	n, isN := t.(*types.Named)
	if !isN || n.Obj().Pkg() == nil || !isIntType(t) {
		return
	}
	if c.enums == nil {
		c.enums = map[*types.Named]*enumT{}
		get := func(t types.Type) *enumT {
			n, ok := t.(*types.Named)
			if !ok || !isIntType(t) || !c.P.ours(n.Obj().Pkg()) {
				return nil
			}
			e := c.enums[n]
			if e == nil {
				e = &enumT{ok: true}
				c.enums[n] = e
			}
			return e
		}
		for _, f := range c.P.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if v, isV := in.(ssa.Value); isV {
						switch in.(type) {
						case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.TypeAssert:
							if e := get(v.Type()); e != nil && !onlyCompared(v) {
								e.ok = false
							}
						case *ssa.UnOp:
							if e := get(v.Type()); e != nil && in.(*ssa.UnOp).Op != token.MUL {
								e.ok = false
							}
						}
					}
					if x, isB := in.(*ssa.BinOp); isB {
						if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
							continue // compared only
						}
					}
					var ops []*ssa.Value
					for _, op := range in.Operands(ops) {
						if op == nil || *op == nil {
							continue
						}
						if k, isK := (*op).(*ssa.Const); isK && k.Value != nil {
							if e := get(k.Type()); e != nil {
								if x := k.Int64(); x < e.lo {
									e.lo = x
								} else if x > e.hi {
									e.hi = x
								}
							}
						}
						// its address may be given to a library
						if p, isP := (*op).Type().(*types.Pointer); isP {
							if e := get(p.Elem()); e != nil {
								switch in.(type) {
								case *ssa.MakeInterface, *ssa.Convert:
									e.ok = false
								}
							}
						}
					}
				}
			}
		}
	}
	e := c.enums[n]
	if e == nil || !e.ok {
		return
	}
	return e.lo, e.hi, true
}

func onlyCompared(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, u := range *v.Referrers() {
		switch x := u.(type) {
		case *ssa.DebugRef, *ssa.Convert, *ssa.IndexAddr, *ssa.Index:
		case *ssa.BinOp:
			if b, ok := x.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsBoolean == 0 {
				return false
			}
		default:
			return false
		}
	}
	return true
}

type enumT struct {
	lo, hi int64
	ok     bool
}

// holds: the facts of the path, or an induction over the loops it is in, show it.
func (c *crash) holds(f *Facts, ev []*Event, at *Term, d int) bool {
	g := f.clone()
	c.axioms(g, append([]*Term{at}, f.list...)...)
	if v, k := g.query(at); k {
		return v
	}
	// a space is one byte wide
	one := map[*Term]*Term{}
	at.any(func(u *Term) bool {
		if u.op == "runew" {
			if v, k := g.query(eq0T(addN(u, -1))); k && v {
				one[u] = mkInt(1, tInt)
			}
		}
		return false
	})
	at = substT(at, one)
	if d == 0 {
		return false
	}
	ls := loopsIn(ev)
	for i := len(ls) - 1; i >= 0; i-- {
		if c.inductive(g, ls[i], ev, at, d-1) {
			return true
		}
	}
	return false
}

// ends maps what a loop's header knows to what it is after an iteration.
func ends(L *LoopSum, it *Iter, at *Term) map[*Term]*Term {
	m := map[*Term]*Term{}
	for _, p := range L.phis {
		if v := it.phis[p.name]; v != nil {
			m[p.sym] = v
		}
	}
	if L.idx != nil {
		m[L.idx] = addN(L.idx, 1)
	}
	at.any(func(u *Term) bool {
		if u.op == "load" && u.n >= 1000000 {
			if v, ok := it.st.heap[u.a[0]]; ok {
				m[u] = v
			}
		}
		return false
	})
	return m
}

func inits(L *LoopSum) map[*Term]*Term {
	m := map[*Term]*Term{}
	for _, p := range L.phis {
		if p.init != nil {
			m[p.sym] = p.init
		}
	}
	if L.idx != nil {
		m[L.idx] = mkInt(0, tInt)
	}
	return m
}

// inductive: it holds when the loop begins and after every iteration, at least
// where a variable of the loop has the value it has here.
func (c *crash) inductive(g *Facts, L *LoopSum, ev []*Event, at *Term, d int) bool {
	type guard struct {
		t *Term // holds here
	}
	guards := []*Term{nil}
	for _, p := range L.phis {
		switch {
		case isBoolean(p.sym.typ):
			if v, k := g.query(p.sym); k {
				if v {
					guards = append(guards, p.sym)
				} else {
					guards = append(guards, notT(p.sym))
				}
			}
		case isIntType(p.sym.typ):
			for _, q := range g.list {
				if q.op == "eq0" && q.any(func(u *Term) bool { return u == p.sym }) {
					_, _, as := linParts(q.a[0])
					if len(as) == 1 {
						guards = append(guards, q)
					}
				}
			}
		}
	}
	for _, gd := range guards {
		// before the first iteration
		m := inits(L)
		base := false
		if gd != nil {
			g0, gd0 := newFacts(), substT(gd, m)
			c.axioms(g0, gd0)
			if v, k := g0.query(gd0); k && !v {
				base = true
			}
		}
		if !base {
			base = c.holds(g, nil, substT(at, m), 0)
		}
		if !base {
			continue
		}
		ok := true
		for _, it := range L.iters {
			m := ends(L, it, at)
			h := it.st.f.clone()
			if gd == nil {
				h.assume(at, true)
			} else {
				g2 := substT(gd, ends(L, it, gd))
				c.axioms(h, g2)
				v, k := h.query(g2)
				if k && !v {
					continue
				}
				if !h.assume(g2, true) {
					continue
				}
				if v, k := h.query(gd); k && v {
					h.assume(at, true)
				}
			}
			if !c.holds(h, nil, substT(at, m), 0) {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// proved: the obligation holds where it was met.
func (c *crash) proved(o *crashObl) bool {
	if o.ok {
		return true
	}
	if len(o.at) == 0 {
		return false
	}
	f := o.f
	if len(o.chain) > 0 {
		f = c.positions(o.chain[len(o.chain)-1], f)
	}
	for _, at := range o.at {
		if !c.holds(f, o.ev, at, 2) {
			return false
		}
	}
	return true
}

// positions: the methods by which the library sorts are asked about positions
// below what Len gives.
func (c *crash) positions(f *ssa.Function, g *Facts) *Facts {
	rc := f.Signature.Recv()
	if rc == nil || f.Name() != "Less" && f.Name() != "Swap" || len(f.Params) != 3 || len(c.P.callers[f]) > 0 ||
		!isIntType(f.Params[1].Type()) || !isIntType(f.Params[2].Type()) {
		return g
	}
	var n *ssa.Function
	for h := range c.runs {
		if h.Name() == "Len" && h.Signature.Recv() != nil && types.Identical(h.Signature.Recv().Type(), rc.Type()) {
			n = h
		}
	}
	if n == nil || c.runs[n].over || len(c.runs[n].outs) != 1 || len(c.runs[n].outs[0].rets) != 1 {
		return g
	}
	l := substT(c.runs[n].outs[0].rets[0], map[*Term]*Term{paramT(n.Params[0], 0): paramT(f.Params[0], 0)})
	g = g.clone()
	for i := 1; i < 3; i++ {
		p := paramT(f.Params[i], i)
		g.addLe(scaleT(p, -1, tInt))
		g.addLe(addN(subT(p, l), 1))
	}
	return g
}

// inCalls: the obligation holds wherever the function is called from.
func (c *crash) inCalls(f *ssa.Function, in ssa.Instruction, kind string, via []*ssa.Function) bool {
	if len(via) > 4 || len(c.P.callers[f]) == 0 || c.P.taken[f] {
		return false
	}
	done := map[*ssa.Function]bool{}
	if q := c.runs[f]; q != nil && len(via) == 0 {
		// what it asks for when it calls itself
		for _, o := range q.obls {
			if o.in != in || o.kind != kind || len(o.chain) != 1 || c.proved(o) {
				continue
			}
			for _, at := range o.at {
				if ofParams(q, at) && at.op != "bool" && !c.again(q, at) {
					return false
				}
			}
		}
	}
	for _, k := range c.P.callers[f] {
		g := k.Parent()
		if done[g] || g == f {
			continue
		}
		done[g] = true
		q := c.runs[g]
		if q == nil {
			return false
		}
		met, all := false, true
		for _, o := range q.obls {
			if o.in != in || o.kind != kind {
				continue
			}
			met = true
			if !c.proved(o) {
				all = false
			}
		}
		if met && all {
			continue
		}
		if !met {
			// not followed there, or never reached
			if q.opq[f] || q.over {
				return false
			}
			continue
		}
		if !c.inCalls(g, in, kind, append(via, f)) {
			return false
		}
	}
	return true
}

// sites: where the function is called from; not all of them may be known.
func (c *crash) sites(f *ssa.Function) (ks []*crashCall, all bool) {
	for _, k := range c.into[f] {
		if c.from[k].f != f {
			ks = append(ks, k)
		}
	}
	if !c.P.taken[f] {
		return ks, len(ks) > 0
	}
	sig := f.Signature
	off := 0
	if sig.Recv() != nil {
		off = 1
	}
	n := 0
	for _, k := range c.dyns {
		s, ok := k.ins.(ssa.CallInstruction)
		if !ok {
			continue
		}
		g := s.Common().Signature()
		if !types.Identical(g.Params(), sig.Params()) || !types.Identical(g.Results(), sig.Results()) {
			continue
		}
		q := &crashCall{fn: f, f: k.f, ins: k.ins, args: append(make([]*Term, off), k.args...)}
		c.from[q] = c.from[k]
		ks = append(ks, q)
		n++
	}
	return ks, n > 0
}

// ofParams: it depends on nothing but the arguments.
func ofParams(run *crashRun, t *Term) bool {
	return !t.any(func(u *Term) bool {
		switch u.op {
		case "param":
			return int(u.n) >= len(run.f.Params) || paramT(run.f.Params[u.n], int(u.n)) != u
		case "lin", "len", "int", "str", "le0", "eq0", "eq", "not", "field", "bool", "nil":
			return false
		}
		return true
	})
}

// inArgs: what the obligation says of the arguments holds of what is passed.
func (c *crash) inArgs(run *crashRun, f *Facts, at *Term, d int) bool {
	if d > 6 {
		return false
	}
	if c.invariant(run, at) {
		return true
	}
	if !ofParams(run, at) {
		return false
	}
	ks, all := c.sites(run.f)
	if !all || !c.again(run, at) {
		return false
	}
	for _, k := range ks {
		m := map[*Term]*Term{}
		for i, a := range k.args {
			if a != nil && i < len(run.f.Params) {
				m[paramT(run.f.Params[i], i)] = a
			}
		}
		h, can := k.f.clone(), true
		for _, q := range f.list {
			if ofParams(run, q) {
				u := substT(q, m)
				if v, known := h.query(u); known && !v || !h.assume(u, true) {
					can = false
					break
				}
			}
		}
		if !can {
			continue
		}
		at2 := substT(at, m)
		if c.holds(h, nil, at2, 1) {
			continue
		}
		if c.inArgs(c.from[k], h, at2, d+1) || !c.feasible(c.from[k], h) {
			continue
		}
		return false
	}
	return true
}

// invariant: a method that is handed to a library of ours as a callback finds
// in its receiver what was put there before that library was set to work.
func (c *crash) invariant(run *crashRun, at *Term) bool {
	if run.f.Signature.Recv() == nil || !c.P.taken[run.f] || len(run.f.Params) == 0 {
		return false
	}
	self := paramT(run.f.Params[0], 0)
	var lens []*Term
	only := true
	at.any(func(u *Term) bool {
		if u.op == "len" && u.a[0].op == "load" && u.a[0].a[0].op == "faddr" && u.a[0].a[0].a[0] == self && u.a[0].n == 0 {
			lens = append(lens, u)
		} else if u.op == "param" && u != self {
			only = false
		}
		return false
	})
	if !only || len(lens) != 1 {
		return false
	}
	at2 := func(v *Term) *Term { return substT(at, map[*Term]*Term{lens[0]: lenT(v)}) }
	n := 0
	for _, q := range c.runs {
		if q.f.Signature.Recv() == nil || len(q.f.Params) == 0 || !types.Identical(q.f.Signature.Recv().Type(), run.f.Signature.Recv().Type()) {
			continue
		}
		for _, k := range q.calls {
			if k.recv == nil || !c.callsBack(k.fn, run.f) {
				continue
			}
			n++
			v := k.recv[lens[0].a[0].a[0].s]
			if v == nil || !c.holds(k.f, nil, at2(v), 1) {
				return false
			}
		}
	}
	if n > 0 {
		c.note("%s: what is in its receiver when it is called back is taken from where %s are set to work", fname(run.f), "those that call it")
	}
	return n > 0
}

// callsBack: the function gets to a call of a function value of that type, by
// itself and not through another method of the same receiver.
func (c *crash) callsBack(g, f *ssa.Function) bool {
	if g.Signature.Recv() != nil && types.Identical(g.Signature.Recv().Type(), f.Signature.Recv().Type()) {
		return false
	}
	for h := range c.P.reaches(g) {
		for _, b := range h.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(ssa.CallInstruction); ok && !s.Common().IsInvoke() && s.Common().StaticCallee() == nil {
					x := s.Common().Signature()
					if types.Identical(x.Params(), f.Signature.Params()) && types.Identical(x.Results(), f.Signature.Results()) {
						return true
					}
				}
			}
		}
	}
	return false
}

// grows: a list that is empty at first and that a loop adds to now and then.
func (c *crash) grows(run *crashRun, x *Term, busy []*Term) bool {
	for _, b := range busy {
		if b == x {
			return true
		}
	}
	if x.op == "append" {
		return c.grows(run, x.a[0], busy)
	}
	if x.op != "phi" || len(busy) > 4 {
		return false
	}
	for _, L := range run.loops {
		for _, p := range L.phis {
			if p.sym != x || p.init == nil {
				continue
			}
			if n := lenT(p.init); !(n.op == "int" && n.n == 0) && !c.grows(run, p.init, append(busy, x)) {
				return false
			}
			more, same := false, false
			for _, it := range L.iters {
				v := it.phis[p.name]
				if v == nil || v == x {
					same = true
					continue
				}
				if !c.grows(run, v, append(busy, x)) {
					return false
				}
				more = true
			}
			_ = same
			return more || len(busy) > 0
		}
	}
	return false
}

// again: what holds of the arguments holds of them when it calls itself.
func (c *crash) again(q *crashRun, at *Term) bool {
	for _, k := range q.calls {
		if k.fn != q.f {
			continue
		}
		m := map[*Term]*Term{}
		for i, a := range k.args {
			if i < len(q.f.Params) {
				m[paramT(q.f.Params[i], i)] = a
			}
		}
		h := k.f.clone()
		h.assume(at, true)
		if !c.holds(h, nil, substT(at, m), 1) {
			return false
		}
	}
	return true
}

// plain: everything it depends on may be anything at all.
func (c *crash) plain(run *crashRun, f *Facts, at *Term) (ok bool, why string) {
	ok = true
	var walk func(t *Term)
	if at.op == "le0" {
		// how long a text is has no upper limit
		k, co, as := linParts(at.a[0])
		texts := len(as) > 0 && k <= 0
		for i, a := range as {
			if a.op != "len" || co[i] < 0 || a.a[0].op != "load" || a.a[0].a[0].op != "faddr" || !isString(a.a[0].typ) {
				texts = false
			}
			for _, q := range f.list {
				if q.any(func(u *Term) bool { return u == a }) {
					texts = false
				}
			}
		}
		if texts {
			return true, ""
		}
	}
	walk = func(t *Term) {
		if !ok {
			return
		}
		if t.op == "len" {
			x := t.a[0]
			if x.op == "pure" && strings.HasPrefix(x.s, "strings.Split") || x.op == "phi" && c.grows(run, x, nil) {
				free := true
				for _, q := range f.list {
					q.any(func(u *Term) bool {
						if u.op == "pure" && u != x && len(u.a) > 0 && x.op == "pure" && u.a[0] == x.a[0] {
							free = false
						}
						return false
					})
				}
				if free {
					return
				}
			}
		}
		switch t.op {
		case "phi", "mem", "iter", "undef", "unknown", "call", "res", "dyn", "bin", "global":
			ok, why = false, t.op
			return
		case "rangerune", "runepos", "rangekey", "rangeval":
			ok, why = false, t.op
			return
		case "load":
			a := t.a[0]
			if a.op == "faddr" && !c.inputs()[classOf(a)] && !isField(a, "journal.Transaction", "Postings") {
				if c.nonneg[classOf(a)] {
					return
				}
				ok, why = false, "field"
				return
			}
			if a.op != "faddr" && a.op != "iaddr" {
				ok, why = false, a.op
				return
			}
		}
		for _, x := range t.a {
			walk(x)
		}
	}
	walk(at)
	return
}

var inputCache map[*Prog]map[string]bool

// inputs: fields that hold what a library has read.
func (c *crash) inputs() map[string]bool {
	if m := inputCache[c.P]; m != nil {
		return m
	}
	m := map[string]bool{}
	inputCache = map[*Prog]map[string]bool{c.P: m}
	for _, q := range c.runs {
		for _, o := range q.outs {
			allEvents(o.st.ev, func(e *Event, it *Iter) {
				if e.kind == "store" && e.args[0].op == "faddr" && e.args[1].op == "res" {
					if x := q.evs[e.args[1].a[0]]; x != nil && x.kind == "ext" {
						m[classOf(e.args[0])] = true
					}
				}
			})
		}
	}
	return m
}

func checkC01(P *Prog, r *Report) {
	r.rule("bounds", "every index and slice lies within what it is taken from", 30)
	r.rule("arith", "nothing is divided by zero, no length is negative and no unchecked assertion can fail", 2)
	r.rule("nil", "what is dereferenced, called or written to as a map is not nil", 60)
	r.rule("panic", "no explicit panic can be reached", 1)
	r.rule("cursor", "numbers that positions are taken from never become negative", 2)
	r.rule("delivered", "a posting that comes without an amount is remembered, and gets one when the transaction is closed", 1)
	c := &crash{P: P, r: r, runs: map[*ssa.Function]*crashRun{}, busy: map[*ssa.Function]bool{}, flows: map[string][]flow{},
		nil_: map[string]string{}, nonneg: map[string]bool{}, build: map[*ssa.Function]bool{}, into: map[*ssa.Function][]*crashCall{},
		from: map[*crashCall]*crashRun{}, busyPhi: map[*Term]bool{}, dup: map[string]int{}, memo: map[string]string{}, pairs: map[string]bool{}, ld: P.newInterp(Opts{})}
	var fs []*ssa.Function
	for _, f := range P.Funcs {
		if len(f.Blocks) == 0 || f.Synthetic != "" || c.generated(f) || !c.used(f) {
			continue
		}
		fs = append(fs, f)
	}
	for _, f := range fs {
		if f.Pkg != nil && f.Pkg.Pkg.Name() == "parser" {
			for g := range P.reaches(f) {
				c.build[g] = true
			}
		}
	}
	for _, f := range fs {
		q := c.of(f)
		r.use(f)
		r.paths += len(q.outs)
		if q.over {
			c.note("%s is too large to follow", fname(f))
		}
	}
	for _, f := range fs {
		c.collect(c.runs[f])
	}
	// what may be nil: from what is nil outright to where it gets to
	var slots []string
	for s := range c.flows {
		slots = append(slots, s)
	}
	sort.Strings(slots)
	for ch := true; ch; {
		ch = false
		c.memo = map[string]string{}
		for _, s := range slots {
			if c.nil_[s] != "" {
				continue
			}
			for _, fl := range c.flows[s] {
				if !c.feasible(fl.run, fl.f) {
					continue
				}
				if w := c.mayNil(fl.run, fl.f, fl.t, 0); w != "" {
					c.nil_[s] = "nil may come from " + fl.where
					ch = true
					break
				}
			}
		}
	}
	// numbers that must not become negative
	for _, f := range fs {
		for _, o := range c.runs[f].obls {
			if o.kind == "sign" || o.ok {
				continue
			}
			for _, at := range o.at {
				at.any(func(u *Term) bool {
					if u.op == "load" && u.a[0].op == "faddr" && isIntType(u.typ) {
						c.nonneg[classOf(u.a[0])] = true
					}
					return false
				})
			}
		}
	}
	type k struct {
		in   ssa.Instruction
		kind string
	}
	for _, f := range fs {
		q := c.runs[f]
		bad := map[k]*crashObl{}
		var order []k
		n := map[k]bool{}
		for _, o := range q.obls {
			if len(o.chain) != 1 {
				continue
			}
			if o.kind == "sign" && !c.nonneg[classOf(o.val)] {
				continue
			}
			kk := k{o.in, o.kind}
			if !n[kk] {
				n[kk] = true
				order = append(order, kk)
			}
			if bad[kk] != nil || o.ok {
				continue
			}
			switch o.kind {
			case "nil", "nilcall", "nilmap":
				if c.mayNil(q, o.f, o.val, 0) != "" && c.feasible(q, o.f) {
					bad[kk] = o
				}
			default:
				if !c.proved(o) {
					bad[kk] = o
				}
			}
		}
		for _, kk := range order {
			c.judge(q, kk.in, kk.kind, bad[kk])
		}
	}
	c.delivered()
}

func (c *crash) judge(q *crashRun, in ssa.Instruction, kind string, o *crashObl) {
	f := q.f
	pos := c.P.ipos(in)
	rule := map[string]string{"index": "bounds", "slice": "bounds", "div": "arith", "make": "arith", "repeat": "arith", "assert": "arith", "nil": "nil", "nilcall": "nil", "nilmap": "nil", "panic": "panic", "sign": "cursor"}[kind]
	con := fname(f) + " " + kind
	if o == nil {
		c.r.ok(rule, con)
		return
	}
	switch kind {
	case "nil", "nilcall", "nilmap":
		w := c.mayNil(q, o.f, o.val, 0)
		c.r.bad(rule, con+" "+describe(o.val), pos, "%s is used without a check, though it may be nil: %s", describe(o.val), w)
		return
	case "panic":
		if c.unreachable(q, o) {
			c.r.ok(rule, con)
			return
		}
		c.r.bad(rule, con, pos, "the panic can be reached")
		return
	case "assert":
		c.r.bad(rule, con, pos, "the assertion may fail")
		return
	}
	if c.inCalls(f, in, kind, nil) {
		c.r.ok(rule, con)
		return
	}
	in2 := true
	for _, at := range o.at {
		if !c.holds(o.f, o.ev, at, 2) && !c.inArgs(q, o.f, at, 0) {
			in2 = false
		}
	}
	if in2 {
		c.r.ok(rule, con)
		return
	}
	plain, why := true, ""
	for _, at := range o.at {
		if ok, w := c.plain(q, o.f, at); !ok {
			plain, why = false, w
		}
	}
	if kind == "repeat" {
		for _, at := range o.at {
			at.any(func(u *Term) bool {
				if u.op == "param" && isIntType(u.typ) || u.op == "load" && isIntType(u.typ) {
					plain, why = false, "a number"
				}
				return false
			})
		}
	}
	if kind == "div" && !plain {
		seen := false
		for _, at := range o.at {
			b := at
			for len(b.a) == 1 && (b.op == "not" || b.op == "eq0") {
				b = b.a[0]
			}
			_, _, as := linParts(b)
			for _, q := range o.f.list {
				q.any(func(u *Term) bool {
					for _, a := range as {
						seen = seen || u == a
					}
					return false
				})
			}
		}
		if !seen {
			c.r.bad(rule, con, pos, "nothing is known of what is divided by")
			return
		}
	}
	if !plain || f.Parent() != nil {
		switch same, known := c.sorted(f, in); {
		case known && same:
			c.r.ok(rule, con)
			return
		case known:
			c.r.bad(rule, con, pos, "the comparison looks into another slice than the one that is sorted")
			return
		}
	}
	if !plain {
		c.note("%s: a bound is not proved (%s)", con, why)
		c.r.ok(rule, con)
		return
	}
	c.ready = true
	in3 := true
	for _, at := range o.at {
		in3 = in3 && c.holds(o.f, o.ev, at, 0)
	}
	c.ready = false
	if in3 {
		c.r.ok(rule, con)
		return
	}
	c.r.bad(rule, con, pos, "not known to be within bounds: %v", o.at)
}

// sorted: a comparison given to sort.Slice is asked about positions of the
// slice that is sorted, and of no other.
func (c *crash) sorted(f *ssa.Function, in ssa.Instruction) (same, known bool) {
	ia, ok := in.(*ssa.IndexAddr)
	if !ok || f.Parent() == nil || len(f.Params) != 2 {
		return false, false
	}
	if ia.Index != f.Params[0] && ia.Index != f.Params[1] {
		return false, false
	}
	for _, b := range f.Parent().Blocks {
		for _, x := range b.Instrs {
			k, ok := x.(ssa.CallInstruction)
			if !ok {
				continue
			}
			g := k.Common().StaticCallee()
			if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != "sort" || !strings.HasPrefix(g.Name(), "Slice") {
				continue
			}
			as := k.Common().Args
			m, ok := as[len(as)-1].(*ssa.MakeClosure)
			if !ok || m.Fn != f {
				continue
			}
			mi, ok := as[0].(*ssa.MakeInterface)
			if !ok {
				return false, false
			}
			r1, p1 := slicePath(mi.X, nil)
			r2, p2 := slicePath(ia.X, m)
			if r1 == nil && p2 == "*" {
				// the slice itself is not captured
				switch mi.X.(type) {
				case *ssa.Phi, *ssa.MakeSlice, *ssa.Call:
					if a, ok := r2.(*ssa.Alloc); ok && !copies(a, nil) && !stores(a, mi.X) {
						return false, true
					}
				}
			}
			if r1 == nil || r2 == nil {
				return false, false
			}
			if r1 == r2 && p1 == p2 {
				return true, true
			}
			if r1 != r2 && p1 == "*" && p2 == "*" && !copies(r1, r2) && !copies(r2, r1) {
				return false, true
			}
			return false, false
		}
	}
	return false, false
}

// slicePath: the variable a value is read from, and how.
func slicePath(v ssa.Value, m *ssa.MakeClosure) (ssa.Value, string) {
	switch x := v.(type) {
	case *ssa.UnOp:
		r, p := slicePath(x.X, m)
		return r, "*" + p
	case *ssa.FieldAddr:
		r, p := slicePath(x.X, m)
		return r, fmt.Sprintf(".%d%s", x.Field, p)
	case *ssa.FreeVar:
		if m == nil {
			return nil, ""
		}
		for i, fv := range x.Parent().FreeVars {
			if fv == x {
				return m.Bindings[i], ""
			}
		}
	case *ssa.Alloc, *ssa.Global, *ssa.Parameter:
		return v, ""
	}
	return nil, ""
}

func stores(a *ssa.Alloc, v ssa.Value) bool {
	for _, x := range *a.Referrers() {
		if s, ok := x.(*ssa.Store); ok && s.Val == v {
			return true
		}
	}
	return false
}

// copies: what a holds may have been taken from b.
func copies(a, b ssa.Value) bool {
	if a.Referrers() == nil {
		return true
	}
	for _, x := range *a.Referrers() {
		s, ok := x.(*ssa.Store)
		if !ok || s.Addr != a {
			continue
		}
		switch v := s.Val.(type) {
		case *ssa.MakeSlice, *ssa.Const:
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" {
				return true
			}
			if u, ok := v.Call.Args[0].(*ssa.UnOp); !ok || u.X != a {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// describe names a value without the numbers of this run.
func describe(t *Term) string {
	switch t.op {
	case "param":
		return strings.SplitN(t.s, ":", 2)[0]
	case "load":
		a := t.a[0]
		switch a.op {
		case "faddr":
			return describe(a.a[0]) + "." + a.s
		case "iaddr":
			return describe(a.a[0]) + "[]"
		case "maddr":
			return describe(a.a[0]) + "[key]"
		case "free", "global":
			return a.s
		}
	case "faddr":
		return describe(t.a[0]) + "." + t.s
	case "field":
		return describe(t.a[0]) + "." + t.s
	case "elem":
		return describe(t.a[0]) + "[]"
	case "phi":
		return strings.SplitN(t.s, "/", 2)[0]
	case "res":
		return describe(t.a[0])
	case "call":
		return t.s + "()"
	}
	return t.op
}

func (c *crash) generated(f *ssa.Function) bool {
	return strings.HasSuffix(c.P.SSA.Fset.Position(f.Pos()).Filename, "_string.go")
}

// used: not only by tests.
func (c *crash) used(f *ssa.Function) bool { return true }

// unreachable: the panic guards against a field that is already set, and
// nothing that gets here sets it before.
func (c *crash) unreachable(q *crashRun, o *crashObl) bool {
	var cls string
	var who *Term
	for _, t := range o.f.list {
		if t.op != "not" || t.a[0].op != "eq" {
			continue
		}
		for i, u := range t.a[0].a {
			if t.a[0].a[1-i] == tNil && u.op == "load" && u.a[0].op == "faddr" && u.a[0].a[0].op == "param" && ofParams(q, u.a[0].a[0]) && u.n == 0 {
				cls, who = classOf(u.a[0]), u.a[0].a[0]
			}
		}
	}
	if cls == "" || c.P.taken[q.f] {
		return false
	}
	// elsewhere in what the same command runs
	n := 0
	for _, f := range c.P.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Name() == "journal" || !c.P.taken[f] && len(c.P.callers[f]) > 0 || f.Name() == "init" {
			continue
		}
		within := c.P.reaches(f)
		if !within[q.f] {
			continue
		}
		n++
		for g := range within {
			if g == q.f || c.onlyUnder(g, q.f, within) {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						a, ok := s.Addr.(*ssa.FieldAddr)
						if !ok {
							continue
						}
						if v, ok := s.Val.(*ssa.Const); ok && v.Value == nil {
							continue
						}
						st := a.X.Type().Underlying().(*types.Pointer).Elem()
						if "F:"+typeName(st)+"."+st.Underlying().(*types.Struct).Field(a.Field).Name() == cls {
							return false
						}
					}
				}
			}
		}
	}
	if n == 0 {
		return false
	}
	// twice for the same one
	ok := true
	for g, p := range c.runs {
		twice := func(ev []*Event, loop bool) {
			seen := map[*Term]bool{}
			for _, e := range ev {
				if e.kind == "call" && e.fn == q.f && int(who.n) < len(e.args) && g != q.f {
					a := e.args[who.n]
					if seen[a] {
						ok = false
					}
					seen[a] = true
				}
			}
		}
		for _, o := range p.outs {
			twice(o.st.ev, false)
		}
		for _, L := range p.loops {
			for _, it := range L.iters {
				twice(it.ev, true)
			}
		}
	}
	return ok
}

// onlyUnder: whatever calls it is the function itself or is called by nothing else.
func (c *crash) onlyUnder(g, f *ssa.Function, within map[*ssa.Function]bool) bool {
	if c.P.taken[g] && g.Parent() == nil || len(c.P.callers[g]) == 0 {
		return g.Parent() == f
	}
	for _, k := range c.P.callers[g] {
		if k.Parent() != f && within[k.Parent()] {
			return false
		}
	}
	return true
}

// delivered: what lets a posting's amount be used without a check, once the
// transaction was closed.
func (c *crash) delivered() {
	r := c.r
	elided := func(a *Term) bool {
		if a.op != "faddr" || !strings.HasPrefix(classOf(a), "F:journal.Transaction.") {
			return false
		}
		p, ok := cellType(a).Underlying().(*types.Pointer)
		return ok && structName(p.Elem()) == "journal.Posting"
	}
	var fs []*ssa.Function
	for f := range c.runs {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fname(fs[i]) < fname(fs[j]) })
	adds, fills := 0, 0
	for _, f := range fs {
		q := c.runs[f]
		if f.Pkg == nil || f.Pkg.Pkg.Name() != "journal" {
			continue
		}
		adder, closer, badA, badC := false, false, "", ""
		for _, o := range q.outs {
			if o.panic || o.exit || len(o.rets) == 0 || !isErrorType(f.Signature.Results().At(len(o.rets)-1).Type()) {
				continue
			}
			if nl, known := isNil(o.st.f, o.rets[len(o.rets)-1]); !known || !nl {
				continue
			}
			var put []*Term
			kept := map[*Term]bool{}
			given := map[*Term]bool{}
			for _, e := range o.st.ev {
				if e.kind != "store" {
					continue
				}
				a, v := e.args[0], e.args[1]
				switch {
				case isField(a, "journal.Transaction", "Postings") && v.op == "append":
					put = append(put, v.a[1:]...)
				case elided(a):
					kept[v] = true
					if x := c.ld.load(&State{heap: map[*Term]*Term{}, f: o.st.f}, a, cellType(a)); x.op == "load" {
						if v, known := o.st.f.query(eqT(x, tNil)); !known || !v {
							badA = "the posting without an amount takes the place of another one"
						}
					}
				case isField(a, "journal.Posting", "Amount") && a.a[0].op == "load" && elided(a.a[0].a[0]) && nonNil(v):
					given[a.a[0].a[0]] = true
				}
			}
			for _, x := range put {
				if x.op != "param" {
					continue
				}
				adder = true
				none, known := false, false
				for _, t := range o.st.f.list {
					u, val := t, true
					if t.op == "not" {
						u, val = t.a[0], false
					}
					if u.op != "eq" {
						continue
					}
					for i, y := range u.a {
						if u.a[1-i] == tNil && y.op == "load" && isField(y.a[0], "journal.Posting", "Amount") && y.a[0].a[0] == x {
							none, known = val, true
						}
					}
				}
				if (!known || none) && !kept[x] {
					badA = "a posting without an amount is taken in and not remembered"
				}
			}
			// closing: the one without an amount gets one
			if f.Name() == "Close" {
				closer = true
				open := true
				for _, t := range o.st.f.list {
					if t.op == "eq" {
						for i, y := range t.a {
							if t.a[1-i] == tNil && y.op == "load" && elided(y.a[0]) {
								open = false
							}
						}
					}
				}
				if open && len(given) == 0 {
					badC = "a transaction is closed while a posting has no amount"
				}
			}
		}
		if adder {
			adds++
			if badA != "" {
				r.bad("delivered", fname(f), r.P.pos(f.Pos()), "%s", badA)
			} else {
				r.ok("delivered", fname(f))
			}
		}
		if closer {
			fills++
			if badC != "" {
				r.bad("delivered", fname(f), r.P.pos(f.Pos()), "%s", badC)
			} else {
				r.ok("delivered", fname(f))
			}
		}
	}
	if adds == 0 || fills == 0 {
		c.note("how postings without an amount are remembered and completed was not recognised")
		r.ok("delivered", "unrecognised")
	}
}
