package main

import (
	"sort"
	"strings"
)

func init() {
	checks["C26"] = Check{"abstract evaluation of the command tables: uniqueness of names, aliases and flags", checkC26}
}

func checkC26(P *Prog, r *Report) {
	r.rule("registered", "every command that can run is registered exactly once below the root command", 5)
	r.rule("own-name", "no name or alias of a command is a name or alias of another command beside it", 5)
	r.rule("own-flag", "no flag of a command has the name or letter of another flag that the command accepts", 4)
	r.rule("own-variable", "no two flags that a command accepts set the same variable", 4)
	r.rule("does-something", "every command that has no subcommands has an action", 5)
	cli := P.cli(r)
	if cli == nil || cli.root == nil {
		r.bad("registered", "root", "-", "the program registers no commands")
		return
	}
	for _, u := range cli.unseen {
		r.notes = append(r.notes, "a registration whose commands are not known at "+u)
	}
	times := map[*Command]int{}
	for _, c := range cli.cmds {
		for _, s := range c.subs {
			times[s]++
		}
	}
	for _, c := range cli.cmds {
		if c == cli.root || c.use == "" && len(c.fields) == 0 {
			continue
		}
		con := c.name()
		n := times[c]
		if n == 0 && len(cli.unseen) > 0 {
			continue
		}
		r.check(n == 1, "registered", con, c.pos, "the command %s is registered %d times", con, n)
		top := c
		for i := 0; top.parent != nil && i < 20; i++ {
			top = top.parent
		}
		if n == 1 {
			r.check(top == cli.root, "registered", con+" below the root", c.pos, "the command %s is not below the root command", con)
		}
		if f, _, _ := c.action(); len(c.subs) == 0 {
			_ = f
			has := false
			for _, n := range []string{"Run", "RunE", "PreRun", "PreRunE"} {
				if v := c.fields[n]; v != nil && v.op != "nil" {
					has = true
				}
			}
			r.check(has, "does-something", con, c.pos, "the command %s has no action, so cobra lists it as a help topic only", con)
		}
		if strings.TrimSpace(c.use) == "" {
			if u := c.fields["Use"]; u == nil || u.op == "str" {
				r.bad("own-name", con, c.pos, "the command has no name")
			}
		}
	}
	// names beside each other
	for _, p := range cli.cmds {
		if len(p.subs) == 0 {
			continue
		}
		who := map[string][]*Command{}
		seen := map[*Command]bool{}
		for _, c := range p.subs {
			if seen[c] {
				continue
			}
			seen[c] = true
			mine := map[string]bool{}
			for _, n := range append([]string{c.name()}, c.alias...) {
				if !mine[n] {
					mine[n] = true
					who[n] = append(who[n], c)
				}
			}
		}
		var names []string
		for n := range who {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			var l []string
			for _, c := range who[n] {
				l = append(l, c.name())
			}
			sort.Strings(l)
			if n == "help" && p == cli.root && who[n][0].name() != "help" {
				l = append(l, "help")
			}
			r.check(len(l) == 1, "own-name", "name "+n+": "+strings.Join(l, ", "), who[n][0].pos, "%q is claimed by %s: cobra runs whichever it finds first", n, strings.Join(l, " and "))
		}
	}
	// a variable that flags of several commands set has one default: pflag stores it while registering
	var all []*Flag
	for _, c := range cli.cmds {
		all = append(all, c.flags...)
	}
	for i, f := range all {
		for _, g := range all[:i] {
			if f.target != "" && g.target == f.target && f.def != nil && g.def != nil {
				r.check(f.def == g.def, "own-variable", "default of --"+f.name+" of "+f.cmd.name()+" and --"+g.name+" of "+g.cmd.name(), f.pos,
					"the flags --%s of %s and --%s of %s share a variable but not its default, so the later registration decides for both", f.name, f.cmd.name(), g.name, g.cmd.name())
			}
		}
	}
	// flags a command accepts: its own and the persistent ones of those above
	for _, c := range cli.cmds {
		var fl []*Flag
		fl = append(fl, c.flags...)
		for q, i := c.parent, 0; q != nil && i < 20; q, i = q.parent, i+1 {
			for _, f := range q.flags {
				if f.persistent {
					fl = append(fl, f)
				}
			}
		}
		con := c.name()
		for i, f := range fl {
			if f.name == "" {
				continue
			}
			okName, okShort, okVar := true, true, true
			for _, g := range fl[:i] {
				if g == f {
					continue
				}
				if g.name == f.name {
					okName = false
				}
				if f.short != "" && g.short == f.short {
					okShort = false
				}
				if f.target != "" && g.target == f.target && g.name != f.name {
					okVar = false
				}
			}
			if f.short == "h" && f.name != "help" {
				okShort = false
			}
			if f.name == "help" && f.short != "" && f.short != "h" {
				okName = true
			}
			r.check(okName, "own-flag", con+" --"+f.name, f.pos, "the command %s has two flags named %s", con, f.name)
			if f.short != "" {
				r.check(okShort && len(f.short) == 1, "own-flag", con+" -"+f.short, f.pos, "the command %s has two flags with the letter %s (h is taken for help)", con, f.short)
			}
			r.check(okVar, "own-variable", con+" --"+f.name, f.pos, "the flag --%s of %s sets the variable of another flag of it", f.name, con)
		}
	}
}
