package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C02"] = Check{"path-sensitive error-flow analysis over SSA: every error result is known nil, returned, handed on or fatal on every path", checkC02}
}

// errResults lists the error results of the call that produced an event.
func errResults(e *Event) []*Term {
	c, ok := e.in.(ssa.CallInstruction)
	if !ok || e.res == nil {
		return nil
	}
	rs := c.Common().Signature().Results()
	var l []*Term
	if e.fn != nil && theProg.infallible()[e.fn] {
		return nil // it always returns nil
	}
	for i := 0; i < rs.Len(); i++ {
		if !isErrorType(rs.At(i).Type()) {
			continue
		}
		if rs.Len() == 1 {
			l = append(l, mkT("call", e.res.s, e.res.n, rs.At(i).Type()))
		} else {
			l = append(l, mkT("res", "", int64(i), rs.At(i).Type(), e.res))
		}
	}
	return l
}

// the result says nothing a user could act on
var errExempt = []string{"fmt.Print", "fmt.Fprint", "(*os.File).Close", "(*github.com/spf13/cobra.Command).Help",
	"(*github.com/spf13/cobra.Command).Usage", "(*strings.Builder).", "(*bytes.Buffer).Write", "(*bufio.Writer)."}

func isExempt(name string) bool {
	for _, x := range errExempt {
		if strings.HasPrefix(name, x) {
			return true
		}
	}
	return false
}

func isNil(f *Facts, t *Term) (val, known bool) {
	if t.op == "nil" {
		return true, true
	}
	if nonNil(t) {
		return false, true
	}
	return f.query(eqT(t, tNil))
}

// eofKnown: the path has compared the error with the end of input.
func eofKnown(facts []*Term, e *Term) bool {
	for _, t := range facts {
		pos := true
		if t.op == "not" {
			pos = false
			t = t.a[0]
		}
		if !pos || !t.contains(e) {
			continue
		}
		if t.any(func(u *Term) bool {
			return u.op == "str" && u.s == "EOF" || u.op == "global" && strings.HasSuffix(u.s, "io.EOF")
		}) {
			return true
		}
	}
	return false
}

func returnsError(f *ssa.Function) bool { return errIndex(f) >= 0 }

type errScan struct {
	P     *Prog
	sites map[ssa.Instruction]string
	bad   map[ssa.Instruction]string
}

func (s *errScan) scan(f *ssa.Function, outs []*Outcome) {
	ei := errIndex(f)
	// one path: the events, the facts they end with, and what is returned
	judge := func(ev []*Event, st *State, facts []*Term, ret *Term, ends bool, phis map[string]*Term) {
		for _, e := range ev {
			if e.in == nil {
				continue
			}
			for _, r := range errResults(e) {
				if isExempt(e.name) {
					continue
				}
				s.sites[e.in] = e.name
				if _, ok := isNil(st.f, r); ok {
					if v, _ := isNil(st.f, r); v {
						continue
					}
				}
				if ends { // the process stops here
					continue
				}
				if eofKnown(facts, r) {
					continue
				}
				if ret != nil {
					if v, known := isNil(st.f, ret); known && !v || ret.contains(r) {
						continue
					}
					// the result of a call that was given the error
					given := false
					for _, g := range ev {
						for _, x := range errResults(g) {
							if ret.contains(x) {
								for _, a := range g.args {
									if a.contains(r) {
										given = true
									}
								}
							}
						}
					}
					if given {
						continue
					}
				}
				if phis != nil {
					kept := false
					for _, v := range phis {
						if v.contains(r) {
							kept = true
						}
					}
					if kept {
						continue
					}
				}
				if ei < 0 || phis != nil {
					told := false
					for _, g := range ev {
						if g.res == e.res {
							continue
						}
						for _, a := range g.args {
							a.any(func(u *Term) bool {
								if u == r {
									told = true
								}
								if u.op == "slice" || u.op == "alloc" || u.op == "append" {
									if es := varargs(g, u); es != nil {
										for _, x := range es {
											if x.contains(r) {
												told = true
											}
										}
									}
								}
								return told
							})
						}
					}
					if told && ei < 0 {
						continue
					}
				}
				what := "is dropped"
				if v, known := isNil(st.f, r); known && !v {
					what = "is seen and then dropped: the path goes on as if nothing had failed"
				} else if ret != nil {
					what = "is never looked at before the function returns"
				}
				s.bad[e.in] = what
			}
		}
	}
	for _, o := range outs {
		var ret *Term
		if ei >= 0 && ei < len(o.rets) {
			ret = o.rets[ei]
		}
		judge(o.st.ev, o.st, o.st.f.list, ret, o.panic || o.exit, nil)
		var loops func(ev []*Event)
		loops = func(ev []*Event) {
			for _, e := range ev {
				if e.kind != "loop" {
					continue
				}
				for _, it := range e.loop.iters {
					ph := it.phis
					if ph == nil {
						ph = map[string]*Term{}
					}
					judge(it.ev, it.st, it.st.f.list, nil, false, ph)
					loops(it.ev)
				}
			}
		}
		loops(o.st.ev)
	}
}

// varargs resolves the elements of a variadic argument from the event's state.
func varargs(e *Event, t *Term) []*Term {
	if e.snap == nil {
		return nil
	}
	var l []*Term
	for a, v := range e.snap.heap {
		if a.op == "iaddr" && rootOf(a) == rootOf(t) {
			l = append(l, v)
		}
	}
	return l
}

// toldByValue: a helper that says with a number or a flag whether it failed.
func (P *Prog) toldByValue(f *ssa.Function) bool {
	if returnsError(f) || P.taken[f] || token.IsExported(f.Name()) || len(P.callers[f]) == 0 || f.Signature.Results().Len() == 0 {
		return false
	}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		b, ok := f.Signature.Results().At(i).Type().Underlying().(*types.Basic)
		if !ok || b.Info()&(types.IsBoolean|types.IsInteger) == 0 {
			return false
		}
	}
	return true
}

// inCallers judges a call of a helper where the helper is used: on the paths of each of its callers.
func (s *errScan) inCallers(r *Report, f *ssa.Function, in ssa.Instruction, o Opts, w string) (string, bool) {
	for _, c := range s.P.callers[f] {
		g := c.Parent()
		od := o
		od.opaque = func(h *ssa.Function) bool { return h != f && o.opaque(h) }
		outs := r.exec(g, od)
		if outs == nil || g == f {
			return w, true
		}
		t := &errScan{P: s.P, sites: map[ssa.Instruction]string{}, bad: map[ssa.Instruction]string{}}
		t.scan(g, outs)
		if _, seen := t.sites[in]; !seen {
			return w, true
		}
		if b, bad := t.bad[in]; bad {
			return b, true
		}
	}
	return "", false
}

func checkC02(P *Prog, r *Report) {
	r.rule("error-flow", "every error a call produces is, on every path, known to be nil, returned, passed to the call whose error is returned, the end of input, or fatal", 30)
	r.rule("error-chain", "no function that reports failure through an error result is replaced by one that cannot: the parser's handlers, the lexer and the commands still hand errors up", 4)
	for _, f := range P.Funcs {
		if P.unused(f) {
			continue
		}
		s := &errScan{P: P, sites: map[ssa.Instruction]string{}, bad: map[ssa.Instruction]string{}}
		o := Opts{snap: true, opaque: func(g *ssa.Function) bool { return returnsError(g) || !P.errRelevant(g) }}
		t1 := time.Now()
		outs := r.exec(f, o)
		if d := time.Since(t1); d > 500*time.Millisecond && os.Getenv("GCHECK_TIME") != "" {
			fmt.Println("slow:", fname(f), d, len(outs))
		}
		if outs == nil {
			// too large with its helpers: look at the function alone
			outs = r.exec(f, Opts{only: true, snap: true})
			if outs == nil {
				r.bad("error-flow", fname(f), P.pos(f.Pos()), "the paths of this function cannot be enumerated")
				continue
			}
		}
		s.scan(f, outs)
		for in, name := range s.sites {
			// a helper's own calls are judged where the helper is analysed
			if in.Parent() != f {
				continue
			}
			w, isBad := s.bad[in]
			if isBad && P.toldByValue(f) {
				// the failure is said with another value: the callers act on it
				w, isBad = s.inCallers(r, f, in, o, w)
			}
			if isBad {
				r.bad("error-flow", fname(f)+" -> "+name, P.ipos(in), "the error of %s %s", name, w)
			} else {
				r.ok("error-flow", fname(f)+" -> "+name)
			}
		}
	}
	// calls whose value is never looked at do not reach the analysis above when they are deferred or run as goroutines
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var c *ssa.CallCommon
				switch x := in.(type) {
				case *ssa.Defer:
					c = &x.Call
				case *ssa.Go:
					c = &x.Call
				default:
					continue
				}
				g := c.StaticCallee()
				if g == nil || !P.inRepo(g) || !returnsError(g) || P.infallible()[g] {
					continue
				}
				r.bad("error-flow", fname(f)+" -> "+fname(g), P.ipos(in), "the error of a deferred or concurrent call is lost")
			}
		}
	}
	// who reports failure
	chain := []struct{ pkg, name string }{
		{"parser", "Parser.Parse"}, {"parser", "Parser.parseItem"}, {"parser", "lexer.lex"}, {"journal", "Transaction.Close"},
		{"journal", "Transaction.AddPosting"}, {"cmd", "parse"}, {"cmd", "Execute"},
	}
	for _, c := range chain {
		f := P.fn(c.pkg, c.name)
		if f == nil {
			continue
		}
		reports := returnsError(f)
		if c.name == "Execute" {
			reports = reports || len(callsTo(f, func(g *ssa.Function) bool {
				return g.RelString(nil) == "os.Exit" || strings.HasPrefix(g.RelString(nil), "log.Fatal")
			})) > 0
		}
		if reports && P.infallible()[f] {
			reports = false
		}
		r.check(reports, "error-chain", fname(f), P.pos(f.Pos()), "it can no longer report a failure")
	}
}

// errRelevant: a helper that is told of errors, or ends the process itself.
func (P *Prog) errRelevant(g *ssa.Function) bool {
	for i := 0; i < g.Signature.Params().Len(); i++ {
		if isErrorType(g.Signature.Params().At(i).Type()) {
			return true
		}
	}
	for _, fv := range g.FreeVars {
		if t, ok := fv.Type().Underlying().(*types.Pointer); ok && isErrorType(t.Elem()) || isErrorType(fv.Type()) {
			return true
		}
	}
	if g.Parent() != nil {
		return true
	}
	// a helper without loops that says how much there is to do
	rs := g.Signature.Results()
	if rs.Len() == 1 && len(g.Blocks) < 40 && !hasLoop(g) {
		if _, ok := rs.At(0).Type().Underlying().(*types.Slice); ok {
			return true
		}
	}
	return false
}

func hasLoop(g *ssa.Function) bool {
	for _, b := range g.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	return false
}
