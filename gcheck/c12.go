package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C12"] = Check{"path-sensitive dataflow over SSA with an order domain for dates: every path of the range test is compared with the specified interval in every ordering of the date and its bounds", checkC12}
}

// rangeTest finds the function that decides whether a transaction is in range.
func rangeTest(P *Prog) *ssa.Function {
	smart := P.fn("parser", "ParseSmartDate")
	pred := func(f *ssa.Function) bool {
		r := resultTypes(f)
		if len(r) != 2 || r[0] != "bool" || r[1] != "error" || f.Signature.Params().Len() != 1 {
			return false
		}
		return P.reaches(f)[smart]
	}
	if f := P.fn("cmd", "withinDateRange"); f != nil && pred(f) {
		return f
	}
	var best *ssa.Function
	for _, f := range P.Funcs {
		if f.Pkg == P.byPkg["cmd"] && f.Parent() == nil && pred(f) && strings.Contains(strings.Join(paramTypes(f), ","), "journal.Transaction") {
			if best == nil || P.reaches(best)[f] {
				best = f
			}
		}
	}
	return best
}

// flagVar is the variable a flag of that name sets.
func (c *CLI) flagVar(name string) (string, *Flag) {
	for _, cmd := range c.cmds {
		for _, f := range cmd.flags {
			if f.name == name {
				return f.target, f
			}
		}
	}
	return "", nil
}

// isUTCDay: the value is midnight UTC of some calendar day.
func isUTCDay(t *Term) bool {
	switch t.op {
	case "day", "monthStart":
		return true
	case "addDays":
		return isUTCDay(t.a[0])
	case "zero":
		return true
	case "res":
		return t.n == 0 && t.a[0].op == "pure" && t.a[0].s == "time.Parse" && t.a[0].a[0].op == "str" && !strings.Contains(t.a[0].a[0].s, "15") && !strings.Contains(t.a[0].a[0].s, "Z07")
	case "pure":
		if t.s == "time.Date" && len(t.a) == 8 {
			for _, z := range t.a[3:7] {
				if z.op != "int" || z.n != 0 {
					return false
				}
			}
			return t.a[7].op == "load" && t.a[7].a[0].s == "time.UTC"
		}
	}
	return false
}

func checkC12(P *Prog, r *Report) {
	r.rule("interval", "on every path, in every ordering of the transaction's date against the bounds in force, the answer is (no begin or begin day <= date) and (no end or date < end day), with --current replacing both by 'up to and including today'", 8)
	r.rule("bounds", "the bounds are calendar days: the begin and end arguments as parsed, or today, at midnight UTC like the dates of transactions", 2)
	r.rule("errors", "an unreadable bound is an error and nothing else is", 2)
	r.rule("flags", "--begin, --end and --current are flags of every command and are read by the range test, and nothing else sets their variables", 3)
	f := rangeTest(P)
	smart := P.fn("parser", "ParseSmartDate")
	cli := P.cli(r)
	if f == nil || smart == nil || cli == nil {
		r.bad("interval", "cmd.withinDateRange", "-", "no function decides whether a transaction is within the date range")
		return
	}
	bv, bf := cli.flagVar("begin")
	ev, ef := cli.flagVar("end")
	cv, cf := cli.flagVar("current")
	for n, fl := range map[string]*Flag{"begin": bf, "end": ef, "current": cf} {
		ok := fl != nil && fl.persistent && fl.cmd == cli.root
		pos := "-"
		if fl != nil {
			pos = fl.pos
		}
		r.check(ok, "flags", "--"+n, pos, "the flag is not one every command accepts")
		if fl == nil {
			continue
		}
		for _, g := range P.Funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if gl, ok := st.Addr.(*ssa.Global); ok && gl.Pkg != nil && gl.Pkg == P.byPkg["cmd"] && "cmd."+gl.Name() == fl.target {
							r.bad("flags", "--"+n, P.ipos(in), "%s changes the variable of the flag", fname(g))
						}
					}
				}
			}
		}
	}
	if bv == "" || ev == "" || cv == "" {
		return
	}
	// does the parser already return midnight UTC?
	smartUTC := true
	for _, o := range r.exec(smart, Opts{}) {
		if len(o.rets) == 2 {
			if v, known := isNil(o.st.f, o.rets[1]); known && !v {
				continue
			}
			if !isUTCDay(o.rets[0]) {
				smartUTC = false
			}
		}
	}
	outs := r.exec(f, Opts{opaque: opaqueFns(smart), maxSteps: 2000000})
	if len(outs) == 0 {
		r.bad("interval", fname(f), P.pos(f.Pos()), "the paths of the range test cannot be enumerated")
		return
	}
	pt := f.Params[0]
	for pi, o := range outs {
		if o.panic || o.exit {
			r.bad("errors", fname(f), P.ipos(o.in), "the range test can end the process")
			continue
		}
		// the date tested
		var base *Term
		for _, p := range f.Params {
			if strings.Contains(p.Type().String(), "journal.Transaction") {
				base = paramT(pt, 0)
			}
		}
		_ = base
		var parsed = map[string]*Term{} // variable -> ParseSmartDate's result
		var perr = map[string]*Term{}
		var now *Term
		nnow := 0
		allEvents(o.st.ev, func(e *Event, it *Iter) {
			if e.fn == smart && len(e.args) > 0 {
				parsed[path(e.args[0])] = mkT("res", "", 0, smart.Signature.Results().At(0).Type(), e.res)
				perr[path(e.args[0])] = mkT("res", "", 1, smart.Signature.Results().At(1).Type(), e.res)
			}
			if e.name == "time.Now" {
				now = mkT("call", "time.Now", e.res.n, nil)
				nnow++
			}
		})
		err := o.rets[1]
		if v, known := isNil(o.st.f, err); !known || !v {
			ok := false
			for p, x := range perr {
				if v, known := isNil(o.st.f, x); known && !v && (p == bv || p == ev) {
					ok = true
				}
			}
			r.check(ok, "errors", fname(f), P.pos(f.Pos()), "a path fails although neither --begin nor --end was unreadable")
			continue
		}
		for p, x := range perr {
			if v, known := isNil(o.st.f, x); !known || !v {
				r.bad("errors", fname(f), P.pos(f.Pos()), "a path answers although %s may be unreadable", p)
			}
		}
		// the date: a load of the Date field of the parameter
		D := dateTerm(o, f)
		if D == nil {
			D = mkT("load", "Date", 0, nil)
		}
		// which bounds are in force on this path
		cur := mkLoad(o.st, "cmd", cv)
		lb, le := mkLoad(o.st, "cmd", bv), mkLoad(o.st, "cmd", ev)
		for m := 0; m < 8; m++ {
			g := o.st.f.clone()
			c, b, e := m&1 != 0, m&2 != 0, m&4 != 0
			if !g.assume(boolAtom(cur), c) || !g.assume(le0T(addN(scaleT(lenT(lb), -1, tInt), 1)), b) || !g.assume(le0T(addN(scaleT(lenT(le), -1, tInt), 1)), e) {
				continue
			}
			what := fmt.Sprintf("current=%v begin=%v end=%v", c, b, e)
			if pb := parsed[bv]; pb != nil {
				what += ""
			}
			type bound struct{ lo, hi *Term }
			var bd bound
			miss := ""
			if !c && b {
				if parsed[bv] == nil {
					miss = "--begin was given and is not read"
				} else {
					bd.lo = dayT(parsed[bv], parsed[bv].typ)
				}
			}
			if !c && e {
				if parsed[ev] == nil {
					miss = "--end was given and is not read"
				} else {
					bd.hi = dayT(parsed[ev], parsed[ev].typ)
				}
			}
			if c && now == nil {
				miss = "--current was given and today's date is not read"
			}
			if miss != "" {
				r.bad("bounds", fname(f)+" "+what, P.pos(f.Pos()), "%s", miss)
				continue
			}
			var today, tomorrow *Term
			if c {
				nt := findNow(o, f)
				if nt == nil {
					r.bad("bounds", fname(f)+" "+what, P.pos(f.Pos()), "--current does not use the calendar day of the present moment")
					continue
				}
				today = dayT(nt, nt.typ)
				tomorrow = addDaysT(today, 1)
			}
			zero := zeroTerm(D.typ)
			// nothing is dated before the zero time; a bound is not the zero time itself
			if !g.assume(tltT(D, zero), false) {
				continue
			}
			skip := false
			for _, x := range []*Term{bd.lo, bd.hi, today, tomorrow, parsed[bv], parsed[ev]} {
				if x != nil && (!g.assume(teqT(x, zero), false) || !g.assume(tltT(x, zero), false)) {
					skip = true
				}
			}
			if now != nil {
				if nt := findNow(o, f); nt != nil {
					for _, x := range []*Term{nt, addDaysT(nt, 1), addDaysT(nt, -1), addDaysT(nt, 2)} {
						if !g.assume(teqT(x, zero), false) || !g.assume(tltT(x, zero), false) {
							skip = true
						}
					}
				}
			}
			if skip {
				continue
			}
			type kase struct {
				name string
				as   []*Term
				in   bool
			}
			cases := []kase{{"", nil, true}}
			product := func(l []kase) {
				var n []kase
				for _, x := range cases {
					for _, y := range l {
						n = append(n, kase{strings.TrimSpace(x.name + " " + y.name), append(append([]*Term{}, x.as...), y.as...), x.in && y.in})
					}
				}
				cases = n
			}
			same := func(x *Term, raw *Term) []*Term {
				// a parser that returns midnight UTC makes both forms equal
				if smartUTC && raw != nil {
					return []*Term{teqT(x, raw)}
				}
				return nil
			}
			if bd.lo != nil {
				s := same(bd.lo, parsed[bv])
				product([]kase{
					{"date<begin", append([]*Term{tltT(D, bd.lo)}, s...), false},
					{"date=begin", append([]*Term{teqT(D, bd.lo)}, s...), true},
					{"date>begin", append([]*Term{tltT(bd.lo, D)}, s...), true},
				})
			}
			if bd.hi != nil {
				s := same(bd.hi, parsed[ev])
				product([]kase{
					{"date<end", append([]*Term{tltT(D, bd.hi)}, s...), true},
					{"date=end", append([]*Term{teqT(D, bd.hi)}, s...), false},
					{"date>end", append([]*Term{tltT(bd.hi, D)}, s...), false},
				})
			}
			if c {
				product([]kase{
					{"date<today", []*Term{tltT(D, today), tltT(D, tomorrow), tltT(today, tomorrow)}, true},
					{"date=today", []*Term{teqT(D, today), tltT(D, tomorrow), tltT(today, tomorrow)}, true},
					{"date=tomorrow", []*Term{tltT(today, D), teqT(D, tomorrow), tltT(today, tomorrow)}, false},
					{"date>tomorrow", []*Term{tltT(today, D), tltT(tomorrow, D), tltT(today, tomorrow)}, false},
				})
			}
			for _, k := range cases {
				h := g.clone()
				ok := true
				for _, a := range k.as {
					if !h.assume(a, true) {
						ok = false
						break
					}
				}
				if !ok {
					continue
				}
				con := strings.TrimSpace(what + " " + k.name)
				v, known := h.query(o.rets[0])
				switch {
				case !known:
					r.bad("interval", con, P.pos(f.Pos()), "the answer (%s) does not follow from the calendar days (path %d)", o.rets[0], pi)
				case v != k.in:
					r.bad("interval", con, P.pos(f.Pos()), "the transaction is %s, it should be %s", inOut(v), inOut(k.in))
				default:
					r.ok("interval", con)
				}
			}
			r.ok("bounds", what)
		}
	}
}

func inOut(b bool) string {
	if b {
		return "included"
	}
	return "excluded"
}

func boolAtom(t *Term) *Term { return t }

// mkLoad is the value of a package variable in a state.
func mkLoad(st *State, pkg, name string) *Term {
	name = strings.TrimPrefix(name, pkg+".")
	g := theProg.byPkg[pkg].Var(name)
	in := theProg.newInterp(Opts{})
	fr := &frame{}
	a := in.val(fr, st, g)
	return in.load(st, a, g.Type().Underlying().(*types.Pointer).Elem())
}

// dateTerm finds the Date of the transaction a path tests.
func dateTerm(o *Outcome, f *ssa.Function) *Term {
	in := theProg.newInterp(Opts{})
	for i, p := range f.Params {
		pt := o.st.env[p]
		if pt == nil {
			pt = paramT(p, i)
		}
		if named(p.Type()) == "time.Time" {
			return pt
		}
		s := structOf(p.Type())
		if s == nil || !strings.Contains(p.Type().String(), "journal.Transaction") {
			continue
		}
		for k := 0; k < s.NumFields(); k++ {
			if s.Field(k).Name() == "Date" {
				if _, ok := p.Type().Underlying().(*types.Pointer); ok {
					return in.load(o.st, faddrT(pt, s, k), s.Field(k).Type())
				}
				return fieldT(pt, s, k)
			}
		}
	}
	return nil
}

// findNow is the present moment as the path read it (typed as it occurs).
func findNow(o *Outcome, f *ssa.Function) *Term {
	var n *Term
	see := func(t *Term) {
		t.any(func(u *Term) bool {
			if u.op == "call" && u.s == "time.Now" && u.typ != nil {
				n = u
			}
			return false
		})
	}
	for _, t := range o.st.f.list {
		see(t)
	}
	for _, t := range o.rets {
		see(t)
	}
	if n == nil {
		// it was read, and nothing on this path depends on it
		allEvents(o.st.ev, func(e *Event, it *Iter) {
			if e.res != nil && it == nil {
				see(e.res)
			}
		})
	}
	return n
}
