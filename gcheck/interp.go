package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The interpreter is a path-sensitive dataflow analysis over SSA.  Values are
// hash-consed terms, branch conditions become facts, memory is a map from
// address terms to values with class-based kills, and a loop is entered once
// from a state that holds before every iteration (an optimistic fixpoint over
// the loop's phis and the memory classes it writes).

type Event struct {
	kind   string // call ext dyn invoke store mapset mapdel loop loopexit panic
	fn     *ssa.Function
	name   string
	args   []*Term
	res    *Term
	in     ssa.Instruction
	loop   *LoopSum
	nf     int
	extra  map[string]*Term
	broke  bool // loopexit: left before the sequence was exhausted
	stack  []*ssa.Function
	target *Term // dyn: the function value
	snap   *State
}

type Iter struct {
	facts []*Term
	ev    []*Event
	phis  map[string]*Term // name of a promoted phi -> value after the iteration
	st    *State
}

// LoopSum describes every completed iteration of a loop.
type LoopSum struct {
	inst  int64
	fn    *ssa.Function
	head  *ssa.BasicBlock
	seq   *Term // sequence ranged over in order, if recognised
	idx   *Term // iteration number
	iters []*Iter
	phis  []*PhiInfo
	// a boolean flag of the loop that some completed iteration has set (nil: none)
	set map[string][]*Iter
}

type PhiInfo struct {
	phi  *ssa.Phi
	name string
	sym  *Term
	init *Term
	addr *Term // a memory location instead of a phi
}

type loopT struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type loopCtx struct {
	L    *loopT
	fr   *frame
	dry  bool
	sum  *LoopSum
	idx  *Term
	back func(*State, *ssa.BasicBlock)
}

type frame struct {
	fn   *ssa.Function
	k    func(*State, []*Term)
	up   *frame
	call ssa.Instruction
}

type deferred struct {
	call *ssa.CallCommon
	fn   *Term
	args []*Term
	in   ssa.Instruction
}

type State struct {
	env    map[ssa.Value]*Term
	heap   map[*Term]*Term
	ver    map[string]int64
	f      *Facts
	ev     []*Event
	esc    map[*Term]bool
	loops  []*loopCtx
	defers map[*frame][]deferred
	lit    map[*Term]litMap
}

// litMap is a map of which every key is known: the version it is known at, and
// the keys.
type litMap struct {
	ver  int64
	keys []*Term
}

func (s *State) clone() *State {
	n := &State{
		env:    make(map[ssa.Value]*Term, len(s.env)+8),
		heap:   make(map[*Term]*Term, len(s.heap)+4),
		ver:    make(map[string]int64, len(s.ver)),
		f:      s.f.clone(),
		ev:     s.ev[:len(s.ev):len(s.ev)],
		esc:    make(map[*Term]bool, len(s.esc)),
		loops:  s.loops[:len(s.loops):len(s.loops)],
		defers: s.defers,
	}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.ver {
		n.ver[k] = v
	}
	for k, v := range s.esc {
		n.esc[k] = v
	}
	if len(s.lit) > 0 {
		n.lit = make(map[*Term]litMap, len(s.lit))
		for k, v := range s.lit {
			n.lit[k] = v
		}
	}
	return n
}

type Outcome struct {
	rets  []*Term
	st    *State
	panic bool
	exit  bool // the process ends here
	in    ssa.Instruction
}

type Opts struct {
	stable   map[string]bool // classes of memory opaque calls leave alone (shown by the check that says so)
	opaque   func(*ssa.Function) bool
	maxDepth int
	maxSteps int
	obl      func(o *Obl)
	entry    func(st *State, params []*Term)
	enter    func(fr *frame, st *State, f *ssa.Function, args []*Term, ins ssa.Instruction) // calls of functions of the repository, followed or not
	only     bool                                                                           // inline nothing
	snap     bool
	snapAt   func(ssa.Instruction) bool // stores before which the state is kept
}

// Obl is one crash obligation met on a path.
type Obl struct {
	kind string
	in   ssa.Instruction
	ok   bool
	why  string
	fr   *frame
	st   *State
	at   []*Term // what must hold
	val  *Term   // what must not be nil
}

type interp struct {
	P     *Prog
	o     Opts
	steps int
	dry   int
	over  bool
	loops map[*ssa.Function][]*loopT
	mods  map[*ssa.Function]map[string]bool
	root  *ssa.Function

	panicked func(*State, ssa.Instruction)
	exited   func(*State, ssa.Instruction)
}

func (P *Prog) newInterp(o Opts) *interp {
	if o.maxDepth == 0 {
		o.maxDepth = 8
	}
	if o.maxSteps == 0 {
		o.maxSteps = 400000
	}
	return &interp{P: P, o: o, loops: map[*ssa.Function][]*loopT{}, mods: P.modSets()}
}

// run analyses f from symbolic parameters.
func (P *Prog) run(f *ssa.Function, o Opts) ([]*Outcome, *interp) {
	in := P.newInterp(o)
	st := &State{env: map[ssa.Value]*Term{}, heap: map[*Term]*Term{}, ver: map[string]int64{}, f: newFacts(),
		esc: map[*Term]bool{}, defers: map[*frame][]deferred{}}
	var ps []*Term
	for i, p := range f.Params {
		t := paramT(p, i)
		st.env[p] = t
		ps = append(ps, t)
	}
	for i, v := range f.FreeVars {
		t := mkT("free", fname(f)+"."+v.Name(), int64(i), v.Type())
		st.env[v] = t
	}
	if o.entry != nil {
		o.entry(st, ps)
	}
	in.root = f
	var outs []*Outcome
	fr := &frame{fn: f}
	fr.k = func(s *State, r []*Term) { outs = append(outs, &Outcome{rets: r, st: s}) }
	in.panicked = func(s *State, i ssa.Instruction) { outs = append(outs, &Outcome{st: s, panic: true, in: i}) }
	in.exited = func(s *State, i ssa.Instruction) { outs = append(outs, &Outcome{st: s, exit: true, in: i}) }
	in.block(fr, f.Blocks[0], nil, st)
	return outs, in
}

// runClosure analyses a function value from the state in which it was made.
func (P *Prog) runClosure(c *Term, from *State, o Opts) ([]*Outcome, *interp, []*Term) {
	f, _ := c.x.(*ssa.Function)
	if f == nil || len(f.Blocks) == 0 {
		return nil, nil, nil
	}
	in := P.newInterp(o)
	st := from.clone()
	st.ev = nil
	st.loops = nil
	st.defers = map[*frame][]deferred{}
	var ps []*Term
	for i, p := range f.Params {
		t := paramT(p, i)
		st.env[p] = t
		ps = append(ps, t)
	}
	for i, v := range f.FreeVars {
		if i < len(c.a) {
			st.env[v] = c.a[i]
		}
	}
	if o.entry != nil {
		o.entry(st, ps)
	}
	in.root = f
	var outs []*Outcome
	fr := &frame{fn: f}
	fr.k = func(s *State, r []*Term) { outs = append(outs, &Outcome{rets: r, st: s}) }
	in.panicked = func(s *State, i ssa.Instruction) { outs = append(outs, &Outcome{st: s, panic: true, in: i}) }
	in.exited = func(s *State, i ssa.Instruction) { outs = append(outs, &Outcome{st: s, exit: true, in: i}) }
	in.block(fr, f.Blocks[0], nil, st)
	return outs, in, ps
}

func memName(v *Term) string { return fmt.Sprintf("mem%d", v.n) }

// instances are numbered across the functions analysed by a check
var lastInst int64

func (in *interp) newInst() int64 { lastInst++; return lastInst }

func (in *interp) loopsOf(f *ssa.Function) []*loopT {
	if l, ok := in.loops[f]; ok {
		return l
	}
	byHead := map[*ssa.BasicBlock]*loopT{}
	var out []*loopT
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				L := byHead[s]
				if L == nil {
					L = &loopT{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					byHead[s] = L
					out = append(out, L)
				}
				var stack []*ssa.BasicBlock
				if !L.blocks[b] {
					L.blocks[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !L.blocks[p] {
							L.blocks[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	in.loops[f] = out
	return out
}

func (in *interp) headed(f *ssa.Function, b *ssa.BasicBlock) *loopT {
	for _, l := range in.loopsOf(f) {
		if l.head == b {
			return l
		}
	}
	return nil
}

// edge transfers control from one block to another.
func (in *interp) edge(fr *frame, from, to *ssa.BasicBlock, st *State) {
	if in.over {
		return
	}
	// back edge of an active loop?
	for i := len(st.loops) - 1; i >= 0; i-- {
		c := st.loops[i]
		if c.fr != fr {
			break
		}
		if c.L.head == to {
			// inner loops are left by this edge
			if !in.leave(st, i+1, from) {
				return
			}
			c.back(st, from)
			return
		}
		if c.L.blocks[to] {
			if !in.leave(st, i+1, from) {
				return
			}
			break
		}
		if i == 0 || st.loops[i-1].fr != fr {
			// leaves every loop of this frame
			if !in.leave(st, i, from) {
				return
			}
			break
		}
	}
	if L := in.headed(fr.fn, to); L != nil && !L.blocks[from] && !in.unrolls(fr, L, st, from) {
		in.enterLoop(fr, L, st, from)
		return
	}
	in.block(fr, to, from, st)
}

// leave pops loop contexts above n; false when the path belongs to a dry run.
func (in *interp) leave(st *State, n int, from *ssa.BasicBlock) bool {
	for len(st.loops) > n {
		c := st.loops[len(st.loops)-1]
		st.loops = st.loops[: len(st.loops)-1 : len(st.loops)-1]
		if c.dry {
			return false
		}
		broke := from != c.L.head
		st.ev = append(st.ev, &Event{kind: "loopexit", loop: c.sum, nf: len(st.f.list), broke: broke})
	}
	return true
}

// unrolls tells whether a loop is entered that counts over a list of which
// every element is known: such a loop is only a way to write its body several
// times, and its rounds are followed one by one.
func (in *interp) unrolls(fr *frame, L *loopT, st *State, from *ssa.BasicBlock) bool {
	f, ok := L.head.Instrs[len(L.head.Instrs)-1].(*ssa.If)
	if !ok || !L.blocks[L.head.Succs[0]] || L.blocks[L.head.Succs[1]] {
		return false
	}
	c, ok := f.Cond.(*ssa.BinOp)
	if !ok || c.Op != token.LSS {
		return false
	}
	inside := func(v ssa.Value) bool {
		i, ok := v.(ssa.Instruction)
		return ok && L.blocks[i.Block()]
	}
	// the list, and the bound
	bound := c.Y
	call, ok := bound.(*ssa.Call)
	if !ok {
		return false
	}
	if bi, ok := call.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" || inside(call.Call.Args[0]) {
		return false
	}
	es, ok := in.elems(st, in.val(fr, st, call.Call.Args[0]))
	if !ok || len(es) == 0 || len(es) > 8 {
		return false
	}
	// the counter moves on in every round
	moves := func(v ssa.Value, p *ssa.Phi) bool {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != p {
			return false
		}
		k, ok := b.Y.(*ssa.Const)
		return ok && k.Value != nil && k.Int64() > 0
	}
	p, ok := c.X.(*ssa.Phi)
	if !ok {
		b, isB := c.X.(*ssa.BinOp)
		if !isB {
			return false
		}
		p, ok = b.X.(*ssa.Phi)
		if !ok || !moves(b, p) {
			return false
		}
	}
	if p.Block() != L.head {
		return false
	}
	for i, e := range p.Edges {
		if L.blocks[L.head.Preds[i]] {
			if !moves(e, p) {
				return false
			}
		} else if k, ok := e.(*ssa.Const); !ok || k.Value == nil {
			return false
		}
	}
	return true
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var l []*ssa.Phi
	for _, i := range b.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			l = append(l, p)
		}
	}
	return l
}

func predIndex(b, from *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == from {
			return i
		}
	}
	return -1
}

func (in *interp) enterLoop(fr *frame, L *loopT, st *State, from *ssa.BasicBlock) {
	inst := in.newInst()
	phis := phisOf(L.head)
	pi := predIndex(L.head, from)
	init := map[*ssa.Phi]*Term{}
	for _, p := range phis {
		init[p] = in.val(fr, st, p.Edges[pi])
	}
	idx := mkT("iter", "", inst, tInt)
	const (
		inv = iota
		sym
		ind
	)
	kind := map[*ssa.Phi]int{}
	step := map[*ssa.Phi]int64{}
	nameOf := func(p *ssa.Phi) string {
		n := p.Comment
		if n == "" {
			n = p.Name()
		}
		return n
	}
	symOf := map[*ssa.Phi]*Term{}
	for i, p := range phis {
		symOf[p] = mkT("phi", fmt.Sprintf("%s/%d", nameOf(p), i), inst, p.Type())
	}
	hav := map[string]bool{}  // classes written by the body
	havA := map[*Term]*Term{} // addresses whose value changes
	verAt := map[string]int64{}

	header := func(base *State) *State {
		h := base.clone()
		for c := range hav {
			if _, ok := verAt[c]; !ok {
				verAt[c] = in.newInst() + 1000000
			}
			for a := range h.heap {
				if _, own := havA[a]; classOf(a) == c && !own && !in.fresh(h, a) {
					delete(h.heap, a)
				}
			}
			h.ver[c] = verAt[c]
		}
		for a, v := range havA {
			h.heap[a] = v
		}
		for _, p := range phis {
			switch kind[p] {
			case inv:
				h.env[p] = init[p]
			case sym:
				h.env[p] = symOf[p]
			case ind:
				h.env[p] = addT(init[p], scaleT(idx, step[p], tInt), 1, p.Type())
			}
		}
		return h
	}
	type backS struct {
		st   *State
		vals map[*ssa.Phi]*Term
	}
	var backs []backS
	base0 := st.clone()
	dryRun := func() {
		backs = nil
		h := header(base0)
		h.ev = nil
		nf := len(h.f.list)
		_ = nf
		ctx := &loopCtx{L: L, fr: fr, dry: true, idx: idx}
		ctx.back = func(s *State, b *ssa.BasicBlock) {
			vals := map[*ssa.Phi]*Term{}
			i := predIndex(L.head, b)
			for _, p := range phis {
				vals[p] = in.val(fr, s, p.Edges[i])
			}
			backs = append(backs, backS{s, vals})
		}
		h.loops = append(h.loops, ctx)
		in.dry++
		in.blockFrom(fr, L.head, h)
		in.dry--
	}
	for round := 0; round < 40; round++ {
		if in.over {
			return
		}
		dryRun()
		changed := false
		for _, p := range phis {
			switch kind[p] {
			case inv:
				for _, b := range backs {
					if b.vals[p] != init[p] {
						kind[p] = sym
						changed = true
					}
				}
			}
		}
		h := header(base0)
		for _, b := range backs {
			for c, v := range b.st.ver {
				if h.ver[c] != v && !hav[c] {
					hav[c] = true
					changed = true
				}
			}
			for a, v := range h.heap {
				nv, ok := b.st.heap[a]
				if ok && nv == v {
					continue
				}
				if _, done := havA[a]; done {
					continue
				}
				if !ok && hav[classOf(a)] && !in.fresh(h, a) {
					continue
				}
				havA[a] = mkT("mem", "", in.newInst(), elemType(a))
				changed = true
			}
			for a := range b.st.heap {
				if _, ok := h.heap[a]; ok {
					continue
				}
				// written in the body: unknown at the header
				if in.allocRootIn(a, base0) {
					if c := classOf(a); !hav[c] && !in.fresh(h, a) {
						hav[c] = true
						changed = true
					}
				}
			}
		}
		if changed {
			continue
		}
		// induction variables
		up := false
		for _, p := range phis {
			if kind[p] != sym || !isIntType(p.Type()) || len(backs) == 0 {
				continue
			}
			ok := true
			var c int64
			for i, b := range backs {
				d := subT(b.vals[p], symOf[p])
				if d.op != "int" || d.n == 0 || (i > 0 && d.n != c) {
					ok = false
					break
				}
				c = d.n
			}
			if ok {
				kind[p] = ind
				step[p] = c
				up = true
			}
		}
		if !up {
			break
		}
	}
	if in.over {
		return
	}
	mkSum := func() *LoopSum {
		sum := &LoopSum{inst: inst, fn: fr.fn, head: L.head, idx: idx}
		for _, p := range phis {
			if kind[p] == sym {
				sum.phis = append(sum.phis, &PhiInfo{p, symOf[p].s, symOf[p], init[p], nil})
			}
		}
		for a, v := range havA {
			if v.op == "mem" {
				sum.phis = append(sum.phis, &PhiInfo{nil, memName(v), v, base0.heap[a], a})
			}
		}
		sort.Slice(sum.phis, func(i, j int) bool { return sum.phis[i].sym.id < sum.phis[j].sym.id })
		return sum
	}
	nf0 := len(base0.f.list)
	mkIters := func() []*Iter {
		var l []*Iter
		for _, b := range backs {
			it := &Iter{facts: b.st.f.list[nf0:], ev: b.st.ev, phis: map[string]*Term{}, st: b.st}
			for _, p := range phis {
				if kind[p] == sym {
					it.phis[symOf[p].s] = b.vals[p]
				}
			}
			for a, v := range havA {
				if v.op == "mem" && b.st.heap[a] != nil {
					it.phis[memName(v)] = b.st.heap[a]
				}
			}
			l = append(l, it)
		}
		return l
	}
	// boolean flags: either never set so far, or set by a completed iteration
	var flags []*ssa.Phi
	flagTo := map[*ssa.Phi]*Term{}
	for _, p := range phis {
		if kind[p] != sym || !isBoolean(p.Type()) || init[p].op != "bool" {
			continue
		}
		ok := len(backs) > 0
		for _, b := range backs {
			v := b.vals[p]
			if v != symOf[p] && v != notT(init[p]) {
				// unchanged when the flag is known on this path
				if v.op == "bool" {
					if kv, known := b.st.f.query(symOf[p]); known && kv == (v.n == 1) {
						continue
					}
				}
				ok = false
			}
		}
		if ok && len(flags) < 2 {
			flags = append(flags, p)
			flagTo[p] = notT(init[p])
		}
	}
	final := func(h *State, sum *LoopSum) {
		h.ev = append(h.ev, &Event{kind: "loop", loop: sum, nf: len(h.f.list)})
		ctx := &loopCtx{L: L, fr: fr, dry: false, sum: sum}
		ctx.back = func(*State, *ssa.BasicBlock) {}
		h.loops = append(h.loops, ctx)
		in.blockFrom(fr, L.head, h)
	}
	allIters := mkIters()
	in.findSeq(fr, L, header(base0), mkSum(), allIters)
	n := 1 << len(flags)
	for m := 0; m < n; m++ {
		h := header(base0)
		sum := mkSum()
		sum.iters = allIters
		feasible := true
		for i, p := range flags {
			if m&(1<<i) == 0 {
				h.env[p] = init[p]
				// completed iterations left the flag alone
				var keep []*Iter
				for _, it := range sum.iters {
					v := it.phis[symOf[p].s]
					if v == symOf[p] || v == init[p] {
						if kv, known := it.st.f.query(symOf[p]); known && kv != (init[p].n == 1) {
							continue
						}
						keep = append(keep, it)
					}
				}
				sum.iters = keep
			} else {
				h.env[p] = flagTo[p]
				if sum.set == nil {
					sum.set = map[string][]*Iter{}
				}
				var by []*Iter
				for _, it := range sum.iters {
					if it.phis[symOf[p].s] == flagTo[p] {
						if kv, known := it.st.f.query(symOf[p]); known && kv != (init[p].n == 1) {
							continue
						}
						by = append(by, it)
					}
				}
				if len(by) == 0 {
					feasible = false
				}
				sum.set[symOf[p].s] = by
			}
		}
		if !feasible {
			continue
		}
		in.findSeq(fr, L, h, sum, sum.iters)
		final(h, sum)
	}
}

// findSeq recognises "for every element of S in order" from the header test.
func (in *interp) findSeq(fr *frame, L *loopT, h *State, sum *LoopSum, iters []*Iter) {
	for _, it := range iters {
		for _, f := range it.facts {
			if f.op == "le0" {
				e := f.a[0] // N - len(S) + 1 <= 0
				if e.op != "lin" || e.n != 1 || len(e.a) != 2 {
					continue
				}
				var S *Term
				ok := true
				for i, x := range e.a {
					if x == sum.idx && e.co[i] == 1 {
						continue
					}
					if x.op == "len" && e.co[i] == -1 {
						S = x.a[0]
						continue
					}
					ok = false
				}
				if ok && S != nil {
					sum.seq = S
					return
				}
			}
			if f.op == "nextok" {
				sum.seq = f.a[0]
				return
			}
		}
	}
	// a list made of others: its length is written as theirs
	t, ok := L.head.Instrs[len(L.head.Instrs)-1].(*ssa.If)
	if !ok {
		return
	}
	c, ok := t.Cond.(*ssa.BinOp)
	if !ok || c.Op != token.LSS {
		return
	}
	call, ok := c.Y.(*ssa.Call)
	if !ok {
		return
	}
	if b, ok := call.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
		return
	}
	S := in.val(fr, h, call.Call.Args[0])
	if S.op != "append" && S.op != "appendall" {
		return
	}
	round := le0T(addN(subT(sum.idx, lenT(S)), 1))
	for _, it := range iters {
		for _, f := range it.facts {
			if f == round {
				sum.seq = S
				return
			}
		}
	}
}

func (in *interp) allocRootIn(a *Term, base *State) bool { return true }

// fresh: the address lies in an object allocated here that has not escaped.
func (in *interp) fresh(st *State, a *Term) bool {
	r := rootOf(a)
	return r.op == "alloc" && !st.esc[r]
}

func rootOf(a *Term) *Term {
	for {
		switch a.op {
		case "faddr", "iaddr", "maddr", "mhas":
			a = a.a[0]
		case "slice":
			a = a.a[0]
		default:
			return a
		}
	}
}

func elemType(a *Term) types.Type {
	if a.op == "maddr" {
		if a.typ != nil {
			return a.typ
		}
	}
	if a.typ != nil {
		if p, ok := a.typ.Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
	}
	return a.typ
}

// classOf groups the addresses that may name the same memory.
func classOf(a *Term) string {
	switch a.op {
	case "faddr":
		return "F:" + structName(a.a[0].typ) + "." + a.s
	case "iaddr":
		return "E:" + typeName(elemType(a))
	case "maddr", "mhas":
		return "M:" + a.s
	case "global":
		return "G:" + a.s
	}
	if t := elemType(a); t != nil {
		return "P:" + typeName(t)
	}
	return "P:?"
}

func structName(t types.Type) string {
	if t == nil {
		return "?"
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return typeName(t)
}

// explodes: struct types of the repository are tracked field by field.
func (in *interp) explodes(t types.Type) (*types.Struct, bool) {
	if t == nil {
		return nil, false
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return nil, false
		}
		p := n.Obj().Pkg().Path()
		if p != in.P.Module && !strings.HasPrefix(p, in.P.Module+"/") {
			return nil, false
		}
	}
	return s, true
}

func faddrT(base *Term, st *types.Struct, i int) *Term {
	f := st.Field(i)
	return mkT("faddr", f.Name(), int64(i), types.NewPointer(f.Type()), base)
}

func fieldT(v *Term, st *types.Struct, i int) *Term {
	f := st.Field(i)
	switch v.op {
	case "struct":
		return v.a[i]
	case "zero":
		return zeroTerm(f.Type())
	}
	return mkT("field", f.Name(), int64(i), f.Type(), v)
}

func structT(typ types.Type, fields []*Term) *Term {
	// eta: a struct rebuilt from the fields of one value is that value
	if len(fields) > 0 {
		ok := true
		var x *Term
		for i, f := range fields {
			if f.op != "field" || f.n != int64(i) || (x != nil && f.a[0] != x) {
				ok = false
				break
			}
			x = f.a[0]
		}
		if ok && x.typ != nil && types.Identical(x.typ, typ) {
			return x
		}
	}
	return mkT("struct", typeName(typ), 0, typ, fields...)
}

func (in *interp) load(st *State, a *Term, typ types.Type) *Term {
	if s, ok := in.explodes(typ); ok {
		fs := make([]*Term, s.NumFields())
		for i := range fs {
			fs[i] = in.load(st, faddrT(a, s, i), s.Field(i).Type())
		}
		return structT(typ, fs)
	}
	if v, ok := st.heap[a]; ok {
		return v
	}
	if a.op == "iaddr" {
		b := a.a[0]
		if b.op == "pure" || b.op == "conv" {
			return mkT("elem", "", 0, typ, b, a.a[1])
		}
		if b.op == "append" && a.a[1].op == "lin" || b.op == "append" {
			d := subT(a.a[1], lenT(b.a[0]))
			if d.op == "int" && d.n >= 0 && int(d.n) < len(b.a)-1 {
				return b.a[1+d.n]
			}
		}
	}
	r := rootOf(a)
	c := classOf(a)
	if a.op == "iaddr" && a.a[1].op != "int" && r.op == "alloc" {
		for b := range st.heap {
			if b.op == "iaddr" && b.a[0] == a.a[0] {
				return mkT("load", "", st.ver[c], typ, a) // one of its elements
			}
		}
	}
	if r.op == "alloc" && !st.esc[r] && a.op != "alloc" && st.ver[c] < 1000000 {
		return zeroTerm(typ)
	}
	if r.op == "alloc" && a.op == "iaddr" && st.ver[c] == 0 {
		return zeroTerm(typ)
	}
	return mkT("load", "", st.ver[c], typ, a)
}

func (in *interp) store(st *State, a, v *Term, typ types.Type) {
	if s, ok := in.explodes(typ); ok {
		for i := 0; i < s.NumFields(); i++ {
			in.store(st, faddrT(a, s, i), fieldT(v, s, i), s.Field(i).Type())
		}
		return
	}
	if !in.fresh(st, a) {
		in.kill(st, a)
	}
	st.heap[a] = v
	if !in.fresh(st, a) {
		in.escape(st, v)
	}
}

// kill forgets what may be overwritten by a store to a.
func (in *interp) kill(st *State, a *Term) {
	c := classOf(a)
	for b := range st.heap {
		if b == a || classOf(b) != c {
			continue
		}
		if distinct(st, a, b) || in.fresh(st, b) {
			continue
		}
		delete(st.heap, b)
	}
	st.ver[c] = in.newInst()
}

func distinct(st *State, a, b *Term) bool {
	ra, rb := rootOf(a), rootOf(b)
	if ra.op == "alloc" && rb.op == "alloc" && ra != rb {
		return true
	}
	if a.op == "iaddr" && b.op == "iaddr" && a.a[0] == b.a[0] {
		d := subT(a.a[1], b.a[1])
		return d.op == "int" && d.n != 0
	}
	if ra.op == "global" && rb.op == "global" && ra != rb {
		return true
	}
	return false
}

func (in *interp) killClass(st *State, c string) {
	for b := range st.heap {
		if classOf(b) == c && !in.fresh(st, b) {
			delete(st.heap, b)
		}
	}
	st.ver[c] = in.newInst()
}

// escape marks the fresh objects reachable from a value.
func (in *interp) escape(st *State, v *Term) {
	if v == nil {
		return
	}
	switch v.op {
	case "alloc":
		if !st.esc[v] {
			st.esc[v] = true
			for a, w := range st.heap {
				if rootOf(a) == v {
					in.escape(st, w)
				}
			}
		}
		return
	case "int", "str", "bool", "nil", "pure", "len", "param", "load", "global", "lin", "elem":
		return
	}
	for _, x := range v.a {
		in.escape(st, x)
	}
}

func (in *interp) val(fr *frame, st *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm2(x)
	case *ssa.Global:
		return mkT("global", x.Pkg.Pkg.Name()+"."+x.Name(), 0, x.Type())
	case *ssa.Function:
		t := mkT("func", x.RelString(nil), 0, x.Type())
		t.x = x
		return t
	case *ssa.Builtin:
		return mkT("builtin", x.Name(), 0, x.Type())
	}
	if t, ok := st.env[v]; ok {
		return t
	}
	// not reached on this path (should not happen): an unknown
	return mkT("undef", v.Name()+"/"+fname(fr.fn), 0, v.Type())
}

func constTerm2(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroTerm(c.Type())
	}
	return constTerm(c.Value, c.Type())
}

// block executes a block reached from prev.
func (in *interp) block(fr *frame, b, prev *ssa.BasicBlock, st *State) {
	if prev != nil {
		i := predIndex(b, prev)
		ph := phisOf(b)
		vals := make([]*Term, len(ph))
		for j, p := range ph {
			vals[j] = in.val(fr, st, p.Edges[i])
		}
		for j, p := range ph {
			st.env[p] = vals[j]
		}
	}
	in.blockFrom(fr, b, st)
}

func (in *interp) blockFrom(fr *frame, b *ssa.BasicBlock, st *State) {
	in.instrs(fr, b, 0, st)
}

func (in *interp) instrs(fr *frame, b *ssa.BasicBlock, i int, st *State) {
	for ; i < len(b.Instrs); i++ {
		if in.over {
			return
		}
		in.steps++
		if in.steps > in.o.maxSteps {
			in.over = true
			return
		}
		switch x := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			c := in.val(fr, st, x.Cond)
			v, known := st.f.query(c)
			if known {
				s := b.Succs[1]
				if v {
					s = b.Succs[0]
				}
				in.edge(fr, b, s, st)
				return
			}
			st2 := st.clone()
			if st.f.assume(c, true) {
				in.edge(fr, b, b.Succs[0], st)
			}
			if st2.f.assume(c, false) {
				in.edge(fr, b, b.Succs[1], st2)
			}
			return
		case *ssa.Lookup:
			if !isString(x.X.Type()) {
				m, k := in.val(fr, st, x.X), in.val(fr, st, x.Index)
				if l, whole := st.lit[m]; whole && l.ver == st.ver["M:"+typeName(x.X.Type())] && !constKey(k) && len(l.keys) > 0 {
					// every key is known: the key is one of them, or none
					for _, c := range l.keys {
						same := eqT(k, c)
						s2 := st.clone()
						if s2.f.assume(same, true) {
							s2.env[x] = in.lookup(s2, x, m, c)
							in.instrs(fr, b, i+1, s2)
						}
						if in.over || !st.f.assume(same, false) {
							return
						}
					}
					st.heap[mkT("mhas", typeName(x.X.Type()), 0, tBool, m, k)] = mkBool(false)
				}
			}
			in.step(fr, st, x)
		case *ssa.Jump:
			in.edge(fr, b, b.Succs[0], st)
			return
		case *ssa.Return:
			rs := make([]*Term, len(x.Results))
			for j, r := range x.Results {
				rs[j] = in.val(fr, st, r)
			}
			// leave the loops of this frame
			n := len(st.loops)
			for n > 0 && st.loops[n-1].fr == fr {
				n--
			}
			if !in.leave(st, n, b) {
				return
			}
			fr.k(st, rs)
			return
		case *ssa.Panic:
			if !in.isDry() && in.o.obl != nil {
				in.o.obl(&Obl{kind: "panic", in: x, ok: false, why: "panic reached", fr: fr, st: st})
			}
			n := len(st.loops)
			for _, c := range st.loops {
				if c.dry {
					return
				}
			}
			_ = n
			st.ev = append(st.ev, &Event{kind: "panic", in: x, nf: len(st.f.list), args: []*Term{in.val(fr, st, x.X)}})
			in.panicked(st, x)
			return
		case *ssa.Call:
			bi, ii := b, i
			in.call(fr, st, x, &x.Call, func(s *State, r []*Term) {
				if len(r) == 1 {
					s.env[x] = r[0]
				} else if len(r) > 1 {
					s.env[x] = mkT("tuple", "", 0, x.Type(), r...)
				} else {
					s.env[x] = mkT("unit", "", 0, x.Type())
				}
				in.instrs(fr, bi, ii+1, s)
			})
			return
		case *ssa.Defer:
			fn, args := in.calleeArgs(fr, st, &x.Call)
			nd := map[*frame][]deferred{}
			for k, v := range st.defers {
				nd[k] = v
			}
			nd[fr] = append(append([]deferred{}, nd[fr]...), deferred{&x.Call, fn, args, x})
			st.defers = nd
		case *ssa.RunDefers:
			ds := st.defers[fr]
			bi, ii := b, i
			var run func(s *State, n int)
			run = func(s *State, n int) {
				if n < 0 {
					in.instrs(fr, bi, ii+1, s)
					return
				}
				d := ds[n]
				in.apply(fr, s, d.in, d.call, d.fn, d.args, func(s2 *State, _ []*Term) { run(s2, n-1) })
			}
			run(st, len(ds)-1)
			return
		case *ssa.Go:
			st.ev = append(st.ev, &Event{kind: "go", in: x, nf: len(st.f.list)})
		default:
			in.step(fr, st, b.Instrs[i])
		}
	}
}

func (in *interp) isDry() bool { return in.dry > 0 }

func (in *interp) oblige(fr *frame, st *State, kind string, i ssa.Instruction, atoms []*Term, why string) {
	// after the obligation is met the atoms hold
	ok := true
	for _, a := range atoms {
		v, known := st.f.query(a)
		if !known || !v {
			ok = false
		}
	}
	if in.o.obl != nil && !in.isDry() {
		in.o.obl(&Obl{kind: kind, in: i, ok: ok, why: why, fr: fr, st: st, at: atoms})
	}
	if !ok {
		for _, a := range atoms {
			st.f.assume(a, true)
		}
	}
}

func (in *interp) stack(fr *frame) []*ssa.Function {
	var l []*ssa.Function
	for f := fr; f != nil; f = f.up {
		l = append(l, f.fn)
	}
	return l
}

func (in *interp) step(fr *frame, st *State, ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.Alloc:
		t := mkT("alloc", x.Comment, in.newInst(), x.Type())
		t.x = x
		st.env[x] = t
		in.initAlloc(st, t, x.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.BinOp:
		st.env[x] = in.binop(fr, st, x)
	case *ssa.UnOp:
		v := in.val(fr, st, x.X)
		switch x.Op {
		case token.MUL:
			if g, ok := x.X.(*ssa.Global); ok {
				if t := in.P.tables()[g]; t != nil {
					st.env[x] = in.loadTable(st, t)
					break
				}
			}
			in.nilCheck(fr, st, x, v)
			st.env[x] = in.load(st, v, x.Type())
		case token.SUB:
			if isIntType(x.Type()) {
				st.env[x] = scaleT(v, -1, x.Type())
			} else {
				st.env[x] = mkT("neg", "", 0, x.Type(), v)
			}
		case token.NOT:
			st.env[x] = notT(v)
		default:
			st.env[x] = mkT("unop", x.Op.String(), 0, x.Type(), v)
		}
	case *ssa.ChangeInterface:
		st.env[x] = in.val(fr, st, x.X)
	case *ssa.ChangeType:
		st.env[x] = in.val(fr, st, x.X)
	case *ssa.Convert:
		st.env[x] = in.convert(in.val(fr, st, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		st.env[x] = in.convert(in.val(fr, st, x.X), x.X.Type(), x.Type())
	case *ssa.Extract:
		t := in.val(fr, st, x.Tuple)
		if t.op == "tuple" {
			st.env[x] = t.a[x.Index]
		} else {
			st.env[x] = mkT("res", "", int64(x.Index), x.Type(), t)
		}
	case *ssa.Field:
		s, _ := x.X.Type().Underlying().(*types.Struct)
		st.env[x] = fieldT(in.val(fr, st, x.X), s, x.Field)
	case *ssa.FieldAddr:
		v := in.val(fr, st, x.X)
		in.nilCheck(fr, st, x, v)
		s := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		st.env[x] = faddrT(v, s, x.Field)
	case *ssa.Index:
		v, i := in.val(fr, st, x.X), in.val(fr, st, x.Index)
		in.bounds(fr, st, x, v, i)
		st.env[x] = mkT("elem", "", 0, x.Type(), v, i)
	case *ssa.IndexAddr:
		v, i := in.val(fr, st, x.X), in.val(fr, st, x.Index)
		in.bounds(fr, st, x, v, i)
		st.env[x] = iaddrT(v, i, x.Type())
	case *ssa.Lookup:
		m, k := in.val(fr, st, x.X), in.val(fr, st, x.Index)
		if isString(x.X.Type()) {
			in.bounds(fr, st, x, m, k)
			st.env[x] = mkT("elem", "", 0, x.Type(), m, k)
			break
		}
		st.env[x] = in.lookup(st, x, m, k)
	case *ssa.MakeChan:
		st.env[x] = mkT("mkchan", "", in.newInst(), x.Type())
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, in.val(fr, st, b))
		}
		f := x.Fn.(*ssa.Function)
		t := mkT("closure", f.RelString(nil), 0, x.Type(), bs...)
		t.x = f
		st.env[x] = t
	case *ssa.MakeInterface:
		t := mkT("iface", typeName(x.X.Type()), 0, x.Type(), in.val(fr, st, x.X))
		t.x = x.X.Type()
		st.env[x] = t
	case *ssa.MakeMap:
		t := mkT("mkmap", "", in.newInst(), x.Type())
		st.env[x] = t
		in.noteLit(st, t, litMap{ver: st.ver["M:"+typeName(x.Type())]})
	case *ssa.MakeSlice:
		ln := in.val(fr, st, x.Len)
		in.oblige(fr, st, "make", x, []*Term{le0T(scaleT(ln, -1, tInt))}, "negative length")
		st.env[x] = mkT("mkslice", "", in.newInst(), x.Type(), ln)
	case *ssa.MapUpdate:
		m, k, v := in.val(fr, st, x.Map), in.val(fr, st, x.Key), in.val(fr, st, x.Value)
		cls := typeName(x.Map.Type())
		a := mkT("maddr", cls, 0, x.Value.Type(), m, k)
		h := mkT("mhas", cls, 0, tBool, m, k)
		if in.o.obl != nil && !in.isDry() {
			in.o.obl(&Obl{kind: "nilmap", in: x, ok: nonNil(m), why: "write to a nil map", fr: fr, st: st, val: m})
		}
		l, whole := st.lit[m]
		whole = whole && l.ver == st.ver["M:"+cls]
		in.killMap(st, cls, a, h)
		st.heap[a] = v
		st.heap[h] = mkBool(true)
		if whole && constKey(k) && len(l.keys) < 16 {
			in.noteLit(st, m, litMap{st.ver["M:"+cls], append(l.keys[:len(l.keys):len(l.keys)], k)})
		} else if m.op == "mkmap" {
			delete(st.lit, m)
		}
		in.escape(st, v)
		in.escape(st, k)
		st.ev = append(st.ev, &Event{kind: "mapset", in: x, nf: len(st.f.list), args: []*Term{m, k, v}, stack: in.stack(fr)})
	case *ssa.Next:
		it := in.val(fr, st, x.Iter)
		n := in.iterNo(st, fr, x)
		ok := mkT("nextok", "", 0, tBool, it.a[0], n)
		tup := x.Type().(*types.Tuple)
		k := mkT("rangekey", "", 0, tup.At(1).Type(), it.a[0], n)
		v := mkT("rangeval", "", st.ver["M:"+typeName(it.a[0].typ)], tup.At(2).Type(), it.a[0], n)
		if x.IsString {
			v = mkT("rangerune", "", 0, types.Typ[types.Rune], it.a[0], n)
			k = mkT("runepos", "", 0, tInt, it.a[0], n)
		} else if vv, has := st.heap[mkT("maddr", typeName(it.a[0].typ), 0, nil, it.a[0], k)]; has {
			v = vv
		}
		st.env[x] = mkT("tuple", "", 0, x.Type(), ok, k, v)
	case *ssa.Range:
		st.env[x] = mkT("range", "", in.newInst(), x.Type(), in.val(fr, st, x.X))
	case *ssa.Slice:
		st.env[x] = in.slice(fr, st, x)
	case *ssa.Store:
		a, v := in.val(fr, st, x.Addr), in.val(fr, st, x.Val)
		in.nilCheck(fr, st, x, a)
		if in.o.obl != nil && !in.isDry() && a.op == "faddr" && isIntType(x.Val.Type()) {
			nn := le0T(scaleT(v, -1, tInt))
			val, known := st.f.query(nn)
			in.o.obl(&Obl{kind: "sign", in: x, ok: known && val, why: v.String(), fr: fr, st: st, at: []*Term{nn}, val: a})
		}
		if !in.fresh(st, a) {
			st.ev = append(st.ev, &Event{kind: "store", in: x, nf: len(st.f.list), args: []*Term{a, v}, stack: in.stack(fr)})
			if in.o.snapAt != nil && in.o.snapAt(x) {
				st.ev[len(st.ev)-1].snap = st.clone()
			}
		}
		in.store(st, a, v, x.Val.Type())
	case *ssa.TypeAssert:
		v := in.val(fr, st, x.X)
		if x.CommaOk {
			ok := mkT("isType", typeName(x.AssertedType), 0, tBool, v)
			st.env[x] = mkT("tuple", "", 0, x.Type(), mkT("assert", typeName(x.AssertedType), 0, x.AssertedType, v), ok)
		} else {
			if in.o.obl != nil && !in.isDry() {
				ok := v.op == "iface" && typeName(v.a[0].typ) == typeName(x.AssertedType)
				in.o.obl(&Obl{kind: "assert", in: x, ok: ok, why: "type assertion may fail", fr: fr, st: st})
			}
			st.env[x] = mkT("assert", typeName(x.AssertedType), 0, x.AssertedType, v)
		}
	default:
		if v, ok := ins.(ssa.Value); ok {
			st.env[v] = mkT("unknown", fmt.Sprintf("%T", ins), in.newInst(), v.Type())
		}
	}
}

func iaddrT(v, i *Term, ptr types.Type) *Term {
	if v.op == "slice" {
		return iaddrT(v.a[0], addT(v.a[1], i, 1, tInt), ptr)
	}
	return mkT("iaddr", "", 0, ptr, v, i)
}

func (in *interp) iterNo(st *State, fr *frame, x *ssa.Next) *Term {
	for i := len(st.loops) - 1; i >= 0; i-- {
		c := st.loops[i]
		if c.fr == fr && c.L.blocks[x.Block()] {
			if c.sum != nil {
				return c.sum.idx
			}
			return c.idx
		}
	}
	return mkT("iter", "", in.newInst(), tInt)
}

func constKey(k *Term) bool { return k.op == "int" || k.op == "str" || k.op == "bool" }

func (in *interp) noteLit(st *State, m *Term, l litMap) {
	if st.lit == nil {
		st.lit = map[*Term]litMap{}
	}
	st.lit[m] = l
}

func (in *interp) killMap(st *State, cls string, keep ...*Term) {
	for b := range st.heap {
		if (b.op == "maddr" || b.op == "mhas") && b.s == cls {
			k := false
			for _, a := range keep {
				// same map with a provably different key survives
				if b.a[0] == a.a[0] && eqT(b.a[1], a.a[1]).op == "bool" && eqT(b.a[1], a.a[1]).n == 0 {
					k = true
				}
			}
			if !k {
				delete(st.heap, b)
			}
		}
	}
	st.ver["M:"+cls] = in.newInst()
}

func (in *interp) lookup(st *State, x *ssa.Lookup, m, k *Term) *Term {
	mt := x.X.Type().Underlying().(*types.Map)
	cls := typeName(x.X.Type())
	a := mkT("maddr", cls, 0, mt.Elem(), m, k)
	h := mkT("mhas", cls, 0, tBool, m, k)
	hv, ok := st.heap[h]
	v, vok := st.heap[a]
	if !ok {
		if m.op == "mkmap" && m.n > 0 && st.ver["M:"+cls] < m.n {
			hv = mkBool(false)
		} else if l, whole := st.lit[m]; whole && l.ver == st.ver["M:"+cls] && constKey(k) {
			// every key is known, and this is none of them
			hv = mkBool(false)
		} else if k.op == "rangekey" && k.a[0] == m {
			hv = mkBool(true)
		} else {
			hv = mkT("load", "", st.ver["M:"+cls], tBool, h)
		}
		st.heap[h] = hv
	}
	if !vok {
		if hv.op == "bool" && hv.n == 0 {
			v = zeroTerm(mt.Elem())
		} else if k.op == "rangekey" && k.a[0] == m {
			v = mkT("rangeval", "", st.ver["M:"+cls], mt.Elem(), m, k.a[1])
		} else {
			v = mkT("load", "", st.ver["M:"+cls], mt.Elem(), a)
		}
		st.heap[a] = v
	}
	if x.CommaOk {
		return mkT("tuple", "", 0, x.Type(), v, hv)
	}
	return v
}

func (in *interp) initAlloc(st *State, a *Term, typ types.Type) {
	if s, ok := in.explodes(typ); ok {
		for i := 0; i < s.NumFields(); i++ {
			in.initAlloc(st, faddrT(a, s, i), s.Field(i).Type())
		}
		return
	}
	if _, ok := typ.Underlying().(*types.Array); ok {
		return
	}
	st.heap[a] = zeroTerm(typ)
}

func (in *interp) nilCheck(fr *frame, st *State, ins ssa.Instruction, p *Term) {
	if nonNil(p) || p.op == "free" {
		return
	}
	ok := false
	if v, known := st.f.query(eqT(p, tNil)); known && !v {
		ok = true
	}
	if in.o.obl != nil && !in.isDry() {
		in.o.obl(&Obl{kind: "nil", in: ins, ok: ok, why: p.String() + " may be nil", fr: fr, st: st, val: p})
	}
	if !ok {
		if !st.f.assume(eqT(p, tNil), false) {
			return
		}
		// keep the fact but not in the visible path condition
		st.f.list = st.f.list[:len(st.f.list)-1]
	}
}

func (in *interp) bounds(fr *frame, st *State, ins ssa.Instruction, v, i *Term) {
	n := lenT(v)
	lo := le0T(scaleT(i, -1, tInt))
	hi := le0T(addN(subT(i, n), 1))
	nf := len(st.f.list)
	in.oblige(fr, st, "index", ins, []*Term{lo, hi}, "index "+i.String()+" of "+v.String())
	st.f.list = st.f.list[:nf:nf]
}

func (in *interp) slice(fr *frame, st *State, x *ssa.Slice) *Term {
	v := in.val(fr, st, x.X)
	n := lenT(v)
	lo, hi := mkInt(0, nil), n
	if x.Low != nil {
		lo = in.val(fr, st, x.Low)
	}
	if x.High != nil {
		hi = in.val(fr, st, x.High)
	}
	if x.Low != nil || x.High != nil {
		nf := len(st.f.list)
		// (hi <= len is stronger than hi <= cap: an excess is never intended here)
		in.oblige(fr, st, "slice", x, []*Term{le0T(scaleT(lo, -1, tInt)), le0T(subT(lo, hi)), le0T(subT(hi, n))},
			"bounds ["+lo.String()+":"+hi.String()+"] of "+v.String())
		st.f.list = st.f.list[:nf:nf]
	}
	if lo.op == "int" && lo.n == 0 && hi == n && x.X.Type().Underlying() == x.Type().Underlying() {
		return v
	}
	if v.op == "slice" {
		return mkT("slice", "", 0, x.Type(), v.a[0], addT(v.a[1], lo, 1, tInt), addT(v.a[1], hi, 1, tInt))
	}
	if v.op == "append" {
		// append(s, x)[:len(s)] is s
		if lo.op == "int" && lo.n == 0 && hi == lenT(v.a[0]) {
			return v.a[0]
		}
	}
	if v.op == "str" && lo.op == "int" && hi.op == "int" && 0 <= lo.n && lo.n <= hi.n && hi.n <= int64(len(v.s)) {
		return mkStr(v.s[lo.n:hi.n])
	}
	return mkT("slice", "", 0, x.Type(), v, lo, hi)
}

func (in *interp) convert(v *Term, from, to types.Type) *Term {
	fu, tu := from.Underlying(), to.Underlying()
	if types.Identical(fu, tu) {
		return v
	}
	fb, ok1 := fu.(*types.Basic)
	tb, ok2 := tu.(*types.Basic)
	if ok1 && ok2 && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		if v.op == "int" {
			return mkInt(v.n, to)
		}
		if widens(fb, tb) {
			return v
		}
		return mkT("conv", typeName(to), 0, to, v)
	}
	if v.op == "int" && ok2 && tb.Info()&types.IsString != 0 {
		return mkStr(string(rune(v.n)))
	}
	if v.op == "str" && ok1 {
		return mkT("conv", typeName(to), 0, to, v)
	}
	if v.op == "conv" && v.a[0].typ != nil && types.Identical(v.a[0].typ.Underlying(), tu) && !ok2 {
		return v.a[0]
	}
	return mkT("conv", typeName(to), 0, to, v)
}

func basicSize(b *types.Basic) (int, bool) {
	switch b.Kind() {
	case types.Int, types.Int64:
		return 64, true
	case types.Int32:
		return 32, true
	case types.Int16:
		return 16, true
	case types.Int8:
		return 8, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Uint32:
		return 32, false
	case types.Uint16:
		return 16, false
	case types.Uint8:
		return 8, false
	}
	return 64, true
}

func widens(f, t *types.Basic) bool {
	fs, fsg := basicSize(f)
	ts, tsg := basicSize(t)
	if fsg == tsg {
		return ts >= fs
	}
	return !fsg && tsg && ts > fs
}

func (in *interp) binop(fr *frame, st *State, x *ssa.BinOp) *Term {
	a, b := in.val(fr, st, x.X), in.val(fr, st, x.Y)
	typ := x.X.Type()
	isInt := isIntType(typ)
	switch x.Op {
	case token.ADD:
		if isInt {
			return addT(a, b, 1, x.Type())
		}
		if isString(typ) {
			return concatT(a, b)
		}
	case token.SUB:
		if isInt {
			return addT(a, b, -1, x.Type())
		}
	case token.MUL:
		if isInt {
			if a.op == "int" {
				return scaleT(b, a.n, x.Type())
			}
			if b.op == "int" {
				return scaleT(a, b.n, x.Type())
			}
			if a.id > b.id {
				a, b = b, a
			}
			return mkT("mul", "", 0, x.Type(), a, b)
		}
	case token.QUO, token.REM:
		if isInt {
			if b.op != "int" || b.n == 0 {
				in.oblige(fr, st, "div", x, []*Term{notT(eq0T(b))}, "division by "+b.String())
			}
			if a.op == "int" && b.op == "int" && b.n != 0 {
				if x.Op == token.QUO {
					return mkInt(a.n/b.n, x.Type())
				}
				return mkInt(a.n%b.n, x.Type())
			}
			if x.Op == token.QUO {
				return mkT("div", typeName(x.Type()), 0, x.Type(), a, b)
			}
			return mkT("rem", typeName(x.Type()), 0, x.Type(), a, b)
		}
	case token.EQL:
		return eqT(a, b)
	case token.NEQ:
		return notT(eqT(a, b))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isInt {
			switch x.Op {
			case token.LSS:
				return le0T(addN(subT(a, b), 1))
			case token.LEQ:
				return le0T(subT(a, b))
			case token.GTR:
				return le0T(addN(subT(b, a), 1))
			case token.GEQ:
				return le0T(subT(b, a))
			}
		}
		switch x.Op {
		case token.LSS:
			return mkT("lt", typeName(typ), 0, tBool, a, b)
		case token.GTR:
			return mkT("lt", typeName(typ), 0, tBool, b, a)
		case token.LEQ:
			if isFloat(typ) {
				return mkT("le", typeName(typ), 0, tBool, a, b)
			}
			return notT(mkT("lt", typeName(typ), 0, tBool, b, a))
		case token.GEQ:
			if isFloat(typ) {
				return mkT("le", typeName(typ), 0, tBool, b, a)
			}
			return notT(mkT("lt", typeName(typ), 0, tBool, a, b))
		}
	}
	return mkT("bin", x.Op.String(), 0, x.Type(), a, b)
}

// ---- calls ----

func (in *interp) calleeArgs(fr *frame, st *State, c *ssa.CallCommon) (*Term, []*Term) {
	fn := in.val(fr, st, c.Value)
	args := make([]*Term, len(c.Args))
	for i, a := range c.Args {
		args[i] = in.val(fr, st, a)
	}
	return fn, args
}

func (in *interp) call(fr *frame, st *State, ins ssa.Instruction, c *ssa.CallCommon, k func(*State, []*Term)) {
	fn, args := in.calleeArgs(fr, st, c)
	in.apply(fr, st, ins, c, fn, args, k)
}

func (in *interp) onStack(fr *frame, f *ssa.Function) bool {
	for x := fr; x != nil; x = x.up {
		if x.fn == f {
			return true
		}
	}
	return false
}

func depthOf(fr *frame) int {
	n := 0
	for x := fr; x != nil; x = x.up {
		n++
	}
	return n
}

func (in *interp) apply(fr *frame, st *State, ins ssa.Instruction, c *ssa.CallCommon, fn *Term, args []*Term, k func(*State, []*Term)) {
	sig := c.Signature()
	if c.IsInvoke() {
		recv := fn
		if recv.op == "iface" {
			if T, ok := recv.x.(types.Type); ok {
				ms := in.P.SSA.MethodSets.MethodSet(T)
				if sel := ms.Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
					if f := in.P.SSA.MethodValue(sel); f != nil && f.Blocks != nil && in.P.inRepo(f) {
						in.static(fr, st, ins, f, nil, append([]*Term{recv.a[0]}, args...), sig, k)
						return
					}
				}
			}
		}
		if c.Method.Name() == "Error" && c.Method.Pkg() == nil {
			in.retTerm(st, mkT("pure", "error.Error", 0, tString, recv), sig, k)
			return
		}
		in.opaque(fr, st, ins, "invoke", nil, c.Method.FullName(), recv, append([]*Term{recv}, args...), sig, k)
		return
	}
	switch fn.op {
	case "builtin":
		in.builtin(fr, st, ins, c, fn.s, args, k)
		return
	case "func":
		in.static(fr, st, ins, fn.x.(*ssa.Function), nil, args, sig, k)
		return
	case "closure":
		in.static(fr, st, ins, fn.x.(*ssa.Function), fn.a, args, sig, k)
		return
	}
	if f := c.StaticCallee(); f != nil {
		in.static(fr, st, ins, f, nil, args, sig, k)
		return
	}
	if in.o.obl != nil && !in.isDry() {
		v, known := st.f.query(eqT(fn, tNil))
		in.o.obl(&Obl{kind: "nilcall", in: ins, ok: nonNil(fn) || known && !v, why: fn.String() + " may be nil", fr: fr, st: st, val: fn})
	}
	in.opaque(fr, st, ins, "dyn", nil, "func value", fn, args, sig, k)
}

func (in *interp) retTerm(st *State, t *Term, sig *types.Signature, k func(*State, []*Term)) {
	n := sig.Results().Len()
	if n == 0 {
		k(st, nil)
		return
	}
	if n == 1 {
		k(st, []*Term{t})
		return
	}
	rs := make([]*Term, n)
	for i := range rs {
		rs[i] = mkT("res", "", int64(i), sig.Results().At(i).Type(), t)
	}
	k(st, rs)
}

func (in *interp) static(fr *frame, st *State, ins ssa.Instruction, f *ssa.Function, binds, args []*Term, sig *types.Signature, k func(*State, []*Term)) {
	if in.o.enter != nil && in.P.inRepo(f) && !in.isDry() {
		in.o.enter(fr, st, f, args, ins)
	}
	if in.P.inRepo(f) && len(f.Blocks) > 0 && !in.o.only && (in.o.opaque == nil || !in.o.opaque(f)) && !in.onStack(fr, f) && depthOf(fr) < in.o.maxDepth {
		if len(f.Params) == len(args) && len(f.FreeVars) == len(binds) {
			for i, p := range f.Params {
				st.env[p] = args[i]
			}
			for i, v := range f.FreeVars {
				st.env[v] = binds[i]
			}
			nfr := &frame{fn: f, up: fr, call: ins, k: k}
			in.block(nfr, f.Blocks[0], nil, st)
			return
		}
	}
	if in.P.inRepo(f) {
		in.opaque(fr, st, ins, "call", f, fname(f), nil, args, sig, k)
		return
	}
	if in.o.enter != nil {
		if r := f.Signature.Recv(); r != nil && len(args) > 0 && r.Type().String() == "*regexp.Regexp" {
			in.nilCheck(fr, st, ins, args[0])
		}
		switch n := f.RelString(nil); {
		case strings.HasPrefix(n, "regexp.MustCompile") && len(args) > 0 && args[0].op != "str", strings.HasPrefix(n, "log.Panic"):
			if !in.isDry() {
				in.o.obl(&Obl{kind: "panic", in: ins, why: n, fr: fr, st: st})
			}
		case (n == "strings.Repeat" || n == "bytes.Repeat") && len(args) == 2:
			nf := len(st.f.list)
			in.oblige(fr, st, "repeat", ins, []*Term{le0T(scaleT(args[1], -1, tInt))}, n)
			st.f.list = st.f.list[:nf:nf]
		}
	}
	if rs, ok := in.model(fr, st, ins, f, args, sig); ok {
		k(st, rs)
		return
	}
	in.opaque(fr, st, ins, "ext", f, f.RelString(nil), nil, args, sig, k)
}

func (in *interp) opaque(fr *frame, st *State, ins ssa.Instruction, kind string, f *ssa.Function, name string, target *Term, args []*Term, sig *types.Signature, k func(*State, []*Term)) {
	ev := &Event{kind: kind, fn: f, name: name, args: args, in: ins, nf: len(st.f.list), stack: in.stack(fr), target: target}
	if in.o.snap {
		ev.snap = st.clone()
	}
	n := in.newInst()
	res := mkT("call", name, n, nil)
	ev.res = res
	st.ev = append(st.ev, ev)
	if kind == "ext" && (name == "os.Exit" || strings.HasPrefix(name, "log.Fatal") || name == "runtime.Goexit") {
		for _, c := range st.loops {
			if c.dry {
				return
			}
		}
		in.exited(st, ins)
		return
	}
	for _, a := range args {
		in.escape(st, a)
	}
	if target != nil {
		in.escape(st, target)
	}
	// what it may write
	var classes []string
	switch kind {
	case "call":
		for c := range in.mods[f] {
			classes = append(classes, c)
		}
	case "dyn":
		for c := range in.P.dynMods(sig) {
			classes = append(classes, c)
		}
	}
	for _, a := range args {
		for _, g := range funcsIn(a) {
			for c := range in.mods[g] {
				classes = append(classes, c)
			}
		}
	}
	if kind == "ext" && strings.HasPrefix(name, "sort.") && len(args) > 0 {
		x := args[0]
		if x.op == "iface" {
			x = x.a[0]
		}
		if x.typ != nil {
			if s, ok := x.typ.Underlying().(*types.Slice); ok {
				classes = append(classes, "E:"+typeName(s.Elem()))
			}
		}
	}
	sort.Strings(classes)
	for i, c := range classes {
		if i > 0 && classes[i-1] == c || in.o.stable[c] {
			continue
		}
		in.killClass(st, c)
	}
	if sig.Results().Len() == 1 {
		rt := sig.Results().At(0).Type()
		r := mkT("call", name, n, rt)
		r.typ = rt
		if f != nil && in.P.inRepo(f) && in.P.infallible()[f] && isErrorType(rt) {
			k(st, []*Term{tNil})
			return
		}
		if f != nil && in.P.inRepo(f) && in.P.neverNil()[f] {
			st.f.assume(eqT(r, tNil), false)
			if l := len(st.f.list); l > 0 {
				st.f.list = st.f.list[:l-1]
			}
		}
		k(st, []*Term{r})
		return
	}
	rs := make([]*Term, sig.Results().Len())
	for i := range rs {
		rs[i] = mkT("res", "", int64(i), sig.Results().At(i).Type(), res)
	}
	if len(rs) == 2 && kind == "ext" && isErrorType(sig.Results().At(1).Type()) && isPtr(sig.Results().At(0).Type()) {
		// the library convention: a nil error comes with a value
		ev.extra = map[string]*Term{"valErr": rs[1]}
	}
	k(st, rs)
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

var errorType = types.Universe.Lookup("error").Type()

func isErrorType(t types.Type) bool { return t != nil && types.Identical(t, errorType) }

func funcsIn(t *Term) []*ssa.Function {
	var l []*ssa.Function
	t.any(func(u *Term) bool {
		if f, ok := u.x.(*ssa.Function); ok && (u.op == "closure" || u.op == "func") {
			l = append(l, f)
		}
		return false
	})
	return l
}

func (in *interp) builtin(fr *frame, st *State, ins ssa.Instruction, c *ssa.CallCommon, name string, args []*Term, k func(*State, []*Term)) {
	switch name {
	case "len":
		k(st, []*Term{lenT(args[0])})
	case "cap":
		k(st, []*Term{mkT("cap", "", 0, tInt, args[0])})
	case "append":
		k(st, []*Term{in.appendT(st, args, c)})
	case "delete":
		cls := typeName(c.Args[0].Type())
		a := mkT("maddr", cls, 0, nil, args[0], args[1])
		h := mkT("mhas", cls, 0, tBool, args[0], args[1])
		in.killMap(st, cls, a, h)
		st.heap[h] = mkBool(false)
		st.ev = append(st.ev, &Event{kind: "mapdel", in: ins, nf: len(st.f.list), args: args, stack: in.stack(fr)})
		k(st, nil)
	case "copy":
		if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			in.killClass(st, "E:"+typeName(s.Elem()))
		}
		st.ev = append(st.ev, &Event{kind: "copy", in: ins, nf: len(st.f.list), args: args})
		k(st, []*Term{mkT("call", "copy", in.newInst(), tInt)})
	case "ssa:wrapnilchk":
		k(st, []*Term{args[0]})
	default:
		sig := c.Signature()
		st.ev = append(st.ev, &Event{kind: "builtin", name: name, in: ins, nf: len(st.f.list), args: args})
		in.retTerm(st, mkT("call", name, in.newInst(), nil), sig, k)
	}
}

// elems reads the elements of a slice whose length and contents are known.
func (in *interp) elems(st *State, s *Term) ([]*Term, bool) {
	switch s.op {
	case "nil":
		return nil, true
	case "append":
		b, ok := in.elems(st, s.a[0])
		if !ok {
			return nil, false
		}
		return append(b, s.a[1:]...), true
	case "mkslice":
		if s.a[0].op == "int" && s.a[0].n == 0 {
			return nil, true
		}
	case "slice":
		base := s.a[0]
		if base.op == "alloc" && s.a[1].op == "int" && s.a[2].op == "int" {
			p, ok := base.typ.Underlying().(*types.Pointer)
			if !ok {
				return nil, false
			}
			ar, ok := p.Elem().Underlying().(*types.Array)
			if !ok {
				return nil, false
			}
			var l []*Term
			for i := s.a[1].n; i < s.a[2].n; i++ {
				a := mkT("iaddr", "", 0, types.NewPointer(ar.Elem()), base, mkInt(i, nil))
				l = append(l, in.load(st, a, ar.Elem()))
			}
			return l, true
		}
	}
	return nil, false
}

func (in *interp) appendT(st *State, args []*Term, c *ssa.CallCommon) *Term {
	s := args[0]
	typ := c.Args[0].Type()
	if len(args) == 1 {
		return s
	}
	es, ok := in.elems(st, args[1])
	if !ok {
		if s.op == "nil" || s.op == "mkslice" && s.a[0].op == "int" && s.a[0].n == 0 {
			return mkT("copyof", "", 0, typ, args[1])
		}
		return mkT("appendall", "", 0, typ, s, args[1])
	}
	if len(es) == 0 {
		return s
	}
	if s.op == "append" {
		return mkT("append", "", 0, typ, append(append([]*Term{}, s.a...), es...)...)
	}
	return mkT("append", "", 0, typ, append([]*Term{s}, es...)...)
}

var _ = constant.Bool
