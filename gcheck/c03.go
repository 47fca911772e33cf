package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C03"] = Check{"command-table extraction and path-sensitive exit-status analysis over SSA", checkC03}
}

func exits(name string) bool {
	return name == "os.Exit" || strings.HasPrefix(name, "log.Fatal") || strings.HasPrefix(name, "log.Panic")
}

func checkC03(P *Prog, r *Report) {
	r.rule("fails-with-status", "a command whose work can fail hands the error to cobra, or ends the process itself with a failing status", 5)
	r.rule("success-is-complete", "a command that reports success has read the whole journal successfully on that path", 5)
	r.rule("exit-status", "every path of main runs the root command and exits non-zero exactly when that returned an error", 1)
	r.rule("error-shown", "errors reach the user: no command silences cobra's report of them unless the caller prints it", 1)
	r.rule("exit-constant", "no path that saw an error leaves with status zero", 1)

	parse := P.fn("cmd", "parse")
	parserParse := P.fn("parser", "Parser.Parse")
	isParse := func(g *ssa.Function) bool { return g != nil && (g == parse || g == parserParse) }

	// parse itself
	if parse != nil && parserParse != nil {
		outs := r.exec(parse, Opts{opaque: func(g *ssa.Function) bool { return returnsError(g) }})
		good := 0
		for _, o := range outs {
			if o.panic || o.exit || len(o.rets) == 0 {
				continue
			}
			ret := o.rets[len(o.rets)-1]
			if v, known := isNil(o.st.f, ret); known && !v {
				continue
			}
			ok := false
			allEvents(o.st.ev, func(e *Event, it *Iter) {
				if e.fn != parserParse {
					return
				}
				for _, x := range errResults(e) {
					if ret.contains(x) {
						ok = true
					}
					if v, known := isNil(o.st.f, x); known && v {
						ok = true
					}
				}
			})
			if ok {
				good++
				r.ok("success-is-complete", fname(parse))
			} else {
				r.bad("success-is-complete", fname(parse), P.pos(parse.Pos()), "it can return nil on a path on which the journal was not read to its end")
			}
		}
	}

	cli := P.cli(r)
	if cli == nil {
		r.bad("fails-with-status", "cmd.init", "-", "the command tree cannot be read off the program")
		return
	}
	cmds := cli.cmds
	silenced := false
	for _, c := range cmds {
		f, _, fails := c.action()
		if v, ok := c.fields["SilenceErrors"]; ok {
			if v.op != "bool" || v.n == 1 {
				silenced = true
				r.notes = append(r.notes, "command "+c.name()+" silences errors")
			}
		}
		if f == nil {
			continue
		}
		r.use(f)
		reach := P.reaches(f)
		if !reach[parse] && !reach[parserParse] {
			continue
		}
		outs := r.exec(f, Opts{opaque: func(g *ssa.Function) bool {
			return isParse(g) || !reachesAny(P, g, parse, parserParse) && !P.errRelevant(g)
		}})
		if outs == nil {
			r.bad("fails-with-status", c.name(), P.pos(f.Pos()), "the paths of this command cannot be enumerated")
			continue
		}
		okStatus, okWhole := true, true
		for _, o := range outs {
			if o.panic {
				continue
			}
			var ret *Term
			if fails && len(o.rets) > 0 {
				ret = o.rets[len(o.rets)-1]
			}
			parsed := false
			failed := ""
			allEvents(o.st.ev, func(e *Event, it *Iter) {
				for _, x := range errResults(e) {
					v, known := isNil(o.st.f, x)
					if isParse(e.fn) && (known && v || ret != nil && ret.contains(x)) {
						parsed = true
					}
					if !(known && v) && !isExempt(e.name) && !(ret != nil && ret.contains(x)) {
						failed = e.name
					}
				}
			})
			if o.exit {
				if failed != "" && exitZero(o) {
					r.bad("exit-constant", c.name(), P.ipos(o.in), "after %s failed the process leaves with status zero", failed)
				}
				continue
			}
			if ret != nil {
				if v, known := isNil(o.st.f, ret); known && !v {
					continue
				}
			}
			if failed != "" {
				okStatus = false
				r.bad("fails-with-status", c.name(), P.pos(f.Pos()), "the command ends as a success although %s may have failed", failed)
			}
			if !parsed {
				okWhole = false
				r.bad("success-is-complete", c.name(), P.pos(f.Pos()), "the command ends as a success on a path on which the journal was not read")
			}
		}
		if okStatus {
			r.ok("fails-with-status", c.name())
		}
		if okWhole {
			r.ok("success-is-complete", c.name())
		}
	}

	// who runs the root command
	shown := false
	if m := P.fn("", "main"); m != nil {
		outs := r.exec(m, Opts{snap: true})
		bad := ""
		for _, o := range outs {
			var errs []*Term
			allEvents(o.st.ev, func(e *Event, it *Iter) {
				if e.fn != nil && isCobraExecute(e.fn) {
					errs = append(errs, errResults(e)...)
				}
			})
			if len(errs) == 0 {
				bad = "a path through main never runs the root command"
				continue
			}
			x := errs[0]
			v, known := isNil(o.st.f, x)
			failing := o.panic || o.exit && !exitZero(o)
			switch {
			case !known && !failing:
				bad = "the error of Execute is not looked at"
			case !known && failing:
				bad = "the process fails whether or not Execute did"
			case v && failing:
				bad = "the process fails although Execute did not"
			case !v && !failing:
				bad = "the process ends with status zero although Execute failed"
			}
			if known && !v {
				allEvents(o.st.ev, func(e *Event, it *Iter) {
					for _, a := range e.args {
						if a.contains(x) {
							shown = true
						}
						for _, y := range varargs(e, a) {
							if y.contains(x) {
								shown = true
							}
						}
					}
				})
			}
		}
		r.check(bad == "" && len(outs) > 0, "exit-status", fname(m), P.pos(m.Pos()), "%s", bad)
	}
	r.check(!silenced || shown, "error-shown", "cobra.Command.SilenceErrors", "-", "a command tells cobra not to print errors and nothing else prints them")

	// a deferred recover would turn a crash into a success
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
						val, isV := in.(ssa.Value)
						if !isV || val.Referrers() == nil || len(*val.Referrers()) == 0 {
							r.bad("exit-constant", fname(f), P.ipos(in), "a crash is recovered from and forgotten")
						}
					}
				}
			}
		}
	}
	r.ok("exit-constant", "program")
}

func isCobraExecute(g *ssa.Function) bool {
	n := g.RelString(nil)
	return strings.HasPrefix(n, "(*github.com/spf13/cobra.Command).Execute")
}

func exitZero(o *Outcome) bool {
	for i := len(o.st.ev) - 1; i >= 0; i-- {
		e := o.st.ev[i]
		if e.name == "os.Exit" {
			return len(e.args) > 0 && (e.args[0].op != "int" || e.args[0].n == 0)
		}
		if exits(e.name) {
			return false
		}
	}
	return false
}

func reachesAny(P *Prog, g *ssa.Function, fs ...*ssa.Function) bool {
	m := P.reaches(g)
	for _, f := range fs {
		if f != nil && m[f] {
			return true
		}
	}
	return false
}
