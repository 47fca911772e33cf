package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Command is one cobra.Command as the package's initialisation leaves it.
type Command struct {
	term   *Term
	key    string // the variable that holds it
	pos    string
	fields map[string]*Term
	alias  []string
	use    string
	subs   []*Command
	parent *Command
	flags  []*Flag
}

// Flag is one flag registered on a command.
type Flag struct {
	cmd        *Command
	name       string
	short      string
	target     string // the variable it sets
	kind       string
	persistent bool
	pos        string
	def        *Term
}

// CLI is the command tree the program builds while it starts.
type CLI struct {
	cmds []*Command
	st   *State
	root *Command

	unseen []string // registrations that could not be resolved
}

// isPtrRes: the call returns a pointer to a value, as the flag functions that make their own variable do.
func isPtrRes(e *Event) bool {
	c, ok := e.in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	res := c.Common().Signature().Results()
	if res.Len() != 1 {
		return false
	}
	p, ok := res.At(0).Type().(*types.Pointer)
	if !ok {
		return false
	}
	switch p.Elem().Underlying().(type) {
	case *types.Basic, *types.Slice, *types.Map:
		return true
	}
	return false
}

func (c *Command) name() string {
	f := strings.Fields(c.use)
	if len(f) == 0 {
		return c.key
	}
	return f[0]
}

const cobraCmd = "(*github.com/spf13/cobra.Command)."

func isCobraPtr(t *Term) bool {
	return t.typ != nil && strings.HasSuffix(t.typ.String(), "*github.com/spf13/cobra.Command")
}

// cli evaluates the initialisation of the cmd package.
func (P *Prog) cli(r *Report) *CLI {
	f := P.fn("cmd", "init")
	if f == nil {
		return nil
	}
	outs := r.exec(f, Opts{opaque: func(g *ssa.Function) bool {
		return g.Synthetic == "package initializer" && g != f || g.Name() == "init" && g.Pkg != f.Pkg
	}})
	var st *State
	for _, o := range outs {
		if o.panic || o.exit {
			continue
		}
		if st == nil || len(o.st.ev) > len(st.ev) {
			st = o.st
		}
	}
	if st == nil {
		return nil
	}
	cli := &CLI{st: st}
	by := map[*Term]*Command{}
	get := func(t *Term) *Command {
		if c := by[t]; c != nil {
			return c
		}
		c := &Command{term: t, key: t.String(), fields: map[string]*Term{}}
		if a, ok := t.x.(*ssa.Alloc); ok {
			c.pos = P.ipos(a)
		}
		by[t] = c
		cli.cmds = append(cli.cmds, c)
		return c
	}
	for a, v := range st.heap {
		if a.op == "faddr" && isCobraPtr(a.a[0]) && a.a[0].op == "alloc" {
			get(a.a[0]).fields[a.s] = v
		}
	}
	for a, v := range st.heap {
		if a.op == "global" && by[v] != nil {
			by[v].key = a.s
		}
	}
	in := P.newInterp(Opts{})
	for _, c := range cli.cmds {
		if u := c.fields["Use"]; u != nil && u.op == "str" {
			c.use = u.s
		}
		if al := c.fields["Aliases"]; al != nil {
			if es, ok := in.elems(st, al); ok {
				for _, e := range es {
					if e.op == "str" {
						c.alias = append(c.alias, e.s)
					}
				}
			}
		}
	}
	allEvents(st.ev, func(e *Event, it *Iter) {
		if e.name == cobraCmd+"AddCommand" && len(e.args) == 2 {
			p := by[e.args[0]]
			if p == nil {
				return
			}
			es, ok := in.elems(st, e.args[1])
			if it != nil && ok && len(es) == 1 {
				// in a loop over a known list
				for _, L := range loopsIn(st.ev) {
					if isElem(es[0], L) {
						es, ok = in.elems(st, L.seq)
						break
					}
				}
			}
			if !ok {
				cli.unseen = append(cli.unseen, P.ipos(e.in))
			}
			for _, x := range es {
				c := by[x]
				if c == nil {
					cli.unseen = append(cli.unseen, P.ipos(e.in))
					continue
				}
				c.parent = p
				p.subs = append(p.subs, c)
			}
		}
	})
	// flags: (*FlagSet).XxxVarP(flags-of-command, &variable, name, short, default, usage)
	owner := map[*Term]*Command{}
	pers := map[*Term]bool{}
	allEvents(st.ev, func(e *Event, it *Iter) {
		switch e.name {
		case cobraCmd + "Flags", cobraCmd + "PersistentFlags", cobraCmd + "LocalFlags":
			if c := by[e.args[0]]; c != nil && e.res != nil {
				owner[e.res] = c
				pers[e.res] = strings.HasSuffix(e.name, "PersistentFlags")
			}
		}
	})
	allEvents(st.ev, func(e *Event, it *Iter) {
		const fs = "(*github.com/spf13/pflag.FlagSet)."
		if !strings.HasPrefix(e.name, fs) || len(e.args) < 4 || e.res == nil && !strings.Contains(e.name, "Var") {
			return
		}
		n := 1 // where the name of the flag stands
		if strings.Contains(e.name, "Var") {
			n = 2
		} else if isPtrRes(e) == false {
			return
		}
		var c *Command
		var p bool
		for o, cc := range owner {
			if o.s == e.args[0].s && o.n == e.args[0].n {
				c, p = cc, pers[o]
			}
		}
		if c == nil {
			return
		}
		f := &Flag{cmd: c, persistent: p, kind: strings.TrimPrefix(e.name, fs), pos: P.ipos(e.in)}
		if n == 2 {
			f.target = path(e.args[1])
		}
		if e.args[n].op == "str" {
			f.name = e.args[n].s
		}
		if (strings.HasSuffix(f.kind, "P") || strings.HasSuffix(f.kind, "PF")) && len(e.args) > n+2 && e.args[n+1].op == "str" {
			f.short = e.args[n+1].s
			f.def = e.args[n+2]
		} else {
			f.def = e.args[n+1]
		}
		c.flags = append(c.flags, f)
	})
	sort.Slice(cli.cmds, func(i, j int) bool { return cli.cmds[i].key < cli.cmds[j].key })
	for _, c := range cli.cmds {
		if c.parent == nil && len(c.subs) > 0 {
			cli.root = c
		}
	}
	return cli
}

func termFunc(t *Term) *ssa.Function {
	if t == nil {
		return nil
	}
	if f, ok := t.x.(*ssa.Function); ok && (t.op == "func" || t.op == "closure") {
		return f
	}
	return nil
}

// action is what a command runs, and whether it can return an error.
func (c *Command) action() (f *ssa.Function, v *Term, fails bool) {
	if f := termFunc(c.fields["RunE"]); f != nil {
		return f, c.fields["RunE"], true
	}
	if f := termFunc(c.fields["Run"]); f != nil {
		return f, c.fields["Run"], false
	}
	return nil, nil, false
}
