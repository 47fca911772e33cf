package main

import (
	"strings"
)

// A piece of a text that is being put together: a literal, the text of a
// value, or what a loop contributes, once for each of its iterations.
type piece struct {
	t    *Term
	loop *LoopSum
	its  []*Iter
	body [][]piece // per iteration of the loop
}

type textCtx struct {
	P      *Prog
	o      *Outcome
	in     *interp
	failed string
}

func (P *Prog) textOfOutcome(o *Outcome, t *Term) ([]piece, string) {
	c := &textCtx{P: P, o: o, in: P.newInterp(Opts{})}
	l := c.expand(t, 0)
	return l, c.failed
}

func (c *textCtx) fail(s string) []piece {
	if c.failed == "" {
		c.failed = s
	}
	return nil
}

func lit(s string) []piece { return []piece{{t: mkStr(s)}} }

func (c *textCtx) expand(t *Term, d int) []piece {
	if d > 12 {
		return c.fail("too deep")
	}
	switch {
	case t.op == "concat":
		var l []piece
		for _, a := range t.a {
			l = append(l, c.expand(a, d+1)...)
		}
		return l
	case t.op == "str":
		return lit(t.s)
	case t.op == "pure" && t.s == "strings.Repeat" && len(t.a) == 2 && t.a[0].op == "str" && t.a[1].op == "int" && t.a[1].n >= 0 && t.a[1].n < 500:
		return lit(strings.Repeat(t.a[0].s, int(t.a[1].n)))
	case t.op == "pure" && t.s == "strings.Join" && len(t.a) == 2 && t.a[1].op == "str":
		return c.join(t.a[0], t.a[1].s, d)
	case t.op == "conv" && isString(t.typ) && t.a[0].typ != nil && isString(t.a[0].typ):
		return c.expand(t.a[0], d+1)
	}
	if L, ph := appendsOf(c.o, t); L != nil && ph.sym == t {
		l := c.expand(ph.init, d+1)
		p := piece{loop: L}
		for _, it := range L.iters {
			v := it.phis[ph.name]
			switch {
			case v == nil || v == ph.sym:
				p.its, p.body = append(p.its, it), append(p.body, nil)
			case v.op == "concat" && v.a[0] == ph.sym:
				var b []piece
				for _, a := range v.a[1:] {
					if a.contains(ph.sym) {
						return c.fail("a text is repeated")
					}
					b = append(b, c.expandIn(it, a, d+1)...)
				}
				p.its, p.body = append(p.its, it), append(p.body, b)
			case v.op == "concat" && v.a[len(v.a)-1] == ph.sym:
				return c.fail("prepended")
			default:
				return c.fail("a loop makes the text anew")
			}
		}
		return append(l, p)
	}
	if t.op == "call" && (strings.HasSuffix(t.s, "strings.Builder).String") || strings.HasSuffix(t.s, "bytes.Buffer).String")) {
		return c.built(t, d)
	}
	return []piece{{t: t}}
}

// expandIn expands a text made within an iteration; nested loops are looked for there.
func (c *textCtx) expandIn(it *Iter, t *Term, d int) []piece {
	sub := &textCtx{P: c.P, o: &Outcome{st: it.st}, in: c.in}
	// the loops of the iteration are those among its own events
	st := it.st.clone()
	st.ev = it.ev
	sub.o = &Outcome{st: st}
	l := sub.expand(t, d)
	if sub.failed != "" {
		c.fail(sub.failed)
	}
	return l
}

// join: the elements of a list with a separator between them.
func (c *textCtx) join(list *Term, sep string, d int) []piece {
	if es, ok := c.in.elems(c.o.st, list); ok {
		var l []piece
		for i, e := range es {
			if i > 0 {
				l = append(l, lit(sep)...)
			}
			l = append(l, c.expand(e, d+1)...)
		}
		return l
	}
	switch list.op {
	case "append":
		l := c.join(list.a[0], sep, d+1)
		for _, e := range list.a[1:] {
			if len(l) > 0 {
				l = append(l, lit(sep)...)
			}
			l = append(l, c.expand(e, d+1)...)
		}
		return l
	}
	L, ph := appendsOf(c.o, list)
	if L == nil {
		return []piece{{t: mkT("pure", "strings.Join", 0, tString, list, mkStr(sep))}}
	}
	l := c.join(ph.init, sep, d+1)
	if len(l) == 0 {
		return c.fail("a list that may be empty is joined")
	}
	p := piece{loop: L}
	for _, it := range L.iters {
		es, ok := appended(it, ph)
		if !ok {
			return c.fail("a loop makes the list anew")
		}
		var b []piece
		for _, e := range es {
			b = append(b, lit(sep)...)
			b = append(b, c.expandIn(it, e, d+1)...)
		}
		p.its, p.body = append(p.its, it), append(p.body, b)
	}
	return append(l, p)
}

// built: what has been written to a builder before its text is taken.
func (c *textCtx) built(t *Term, d int) []piece {
	var at *Event
	for _, e := range c.o.st.ev {
		if e.res != nil && e.res.s == t.s && e.res.n == t.n {
			at = e
		}
	}
	if at == nil || len(at.args) == 0 {
		return []piece{{t: t}}
	}
	b := rootOf(at.args[0])
	var upto []*Event
	for _, e := range c.o.st.ev {
		if e == at {
			break
		}
		upto = append(upto, e)
	}
	return c.writes(upto, c.o.st, b, d)
}

func (c *textCtx) writes(evs []*Event, st *State, b *Term, d int) (l []piece) {
	on := func(t *Term) bool {
		if t.op == "iface" {
			t = t.a[0]
		}
		return rootOf(t) == b
	}
	for _, e := range evs {
		switch e.kind {
		case "loop":
			p := piece{loop: e.loop}
			some := false
			for _, it := range e.loop.iters {
				w := c.writes(it.ev, it.st, b, d+1)
				some = some || len(w) > 0
				p.its, p.body = append(p.its, it), append(p.body, w)
			}
			if some {
				l = append(l, p)
			}
		case "ext":
			if len(e.args) == 0 || !on(e.args[0]) {
				continue
			}
			n := e.name[strings.LastIndexByte(e.name, '.')+1:]
			switch n {
			case "WriteString":
				l = append(l, c.expand(e.args[1], d+1)...)
			case "WriteByte", "WriteRune":
				if e.args[1].op == "int" {
					l = append(l, lit(string(rune(e.args[1].n)))...)
				} else {
					l = append(l, piece{t: e.args[1]})
				}
			case "Fprintf":
				a := append([]*Term{}, e.args[1])
				es, ok := c.in.elems(st, e.args[2])
				if !ok {
					return c.fail("a text with unknown parts")
				}
				for _, x := range es {
					if x.op == "iface" {
						x = x.a[0]
					}
					a = append(a, x)
				}
				l = append(l, c.expand(c.in.sprintf(a), d+1)...)
			case "Fprintln", "Fprint":
				es, ok := c.in.elems(st, e.args[1])
				if !ok {
					return c.fail("a text with unknown parts")
				}
				for i, x := range es {
					if x.op == "iface" {
						x = x.a[0]
					}
					if i > 0 && n == "Fprintln" {
						l = append(l, lit(" ")...)
					}
					if x.typ != nil && isString(x.typ) {
						l = append(l, c.expand(x, d+1)...)
					} else {
						l = append(l, piece{t: mkT("fmt", "%v", 0, tString, x)})
					}
				}
				if n == "Fprintln" {
					l = append(l, lit("\n")...)
				}
			case "Grow", "Len", "Cap", "String":
			default:
				return c.fail("a text is changed in another way: " + n)
			}
		case "call", "dyn", "invoke":
			for _, a := range e.args {
				if on(a) {
					return c.fail("a text is handed to something else")
				}
			}
		}
	}
	return l
}

// plain strips a format that does not change more than the blanks around a value.
func plain(t *Term) *Term {
	for t.op == "fmt" {
		v := t.s[len(t.s)-1]
		if v != 's' && v != 'v' || strings.Trim(t.s[1:len(t.s)-1], "-0123456789") != "" {
			return t
		}
		t = t.a[0]
	}
	return t
}

// textWalk visits the parts of a text in order, each with the literals that may stand before it.
type textWalk struct {
	visit func(pre []string, t *Term, in []*Iter, loops []*LoopSum)
	after func(L *LoopSum, its []*Iter, seen [][]*Term)
}

func (w *textWalk) run(ps []piece, pre []string, in []*Iter, loops []*LoopSum, seen *[]*Term) []string {
	for _, p := range ps {
		switch {
		case p.loop != nil:
			starts := append([]string{}, pre...)
			for round := 0; round < 3; round++ {
				n := len(starts)
				ends := append([]string{}, pre...)
				for i, b := range p.body {
					var s []*Term
					for _, e := range w.quiet(b, starts, in, loops, &s) {
						ends = add1(ends, e)
					}
					_ = i
				}
				for _, e := range ends {
					starts = add1(starts, e)
				}
				if len(starts) == n || len(starts) > 6 {
					break
				}
			}
			end := append([]string{}, pre...)
			var all [][]*Term
			for i, b := range p.body {
				var s []*Term
				for _, e := range w.run(b, starts, append(in, p.its[i]), append(loops, p.loop), &s) {
					end = add1(end, e)
				}
				all = append(all, s)
			}
			if w.after != nil {
				w.after(p.loop, p.its, all)
			}
			pre = end
		case p.t.op == "str":
			n := []string{}
			for _, x := range pre {
				n = add1(n, x+p.t.s)
			}
			pre = n
		default:
			w.visit(pre, p.t, in, loops)
			*seen = append(*seen, p.t)
			pre = []string{""}
		}
	}
	return pre
}

func (w *textWalk) quiet(ps []piece, pre []string, in []*Iter, loops []*LoopSum, seen *[]*Term) []string {
	q := &textWalk{visit: func([]string, *Term, []*Iter, []*LoopSum) {}}
	its := make([]*Iter, 1)
	return q.run(ps, pre, its, loops, seen)
}

func add1(l []string, s string) []string {
	for _, x := range l {
		if x == s {
			return l
		}
	}
	return append(l, s)
}
