package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strings"
)

func init() {
	checks["C24"] = Check{"path-sensitive dataflow through the handler of the statistics for what each selected transaction changes, and through its report for what is printed under which label; linear forms over the dates and the spans between them", checkC24}
}

// madeAt: the place a map that was made is kept at.
var madeAt = map[*Term]string{}

func noteMade(st *State) {
	var see func(c string, v *Term)
	see = func(c string, v *Term) {
		switch v.op {
		case "mkmap":
			if o := madeAt[v]; len(c) > len(o) || len(c) == len(o) && c < o {
				madeAt[v] = c
			}
		case "struct":
			s := structOf(v.typ)
			for i := 0; s != nil && i < len(v.a) && i < s.NumFields(); i++ {
				see(strings.TrimPrefix(c+"."+s.Field(i).Name(), "."), v.a[i])
			}
		}
	}
	for a, v := range st.heap {
		c := ""
		if a.op == "faddr" {
			c = cellOf(a)
		}
		if v != nil {
			see(c, v)
		}
	}
}

// cellOf names a place by the fields that lead to it from the object it is in.
func cellOf(t *Term) string {
	var l []string
	for t != nil {
		if c := madeAt[t]; c != "" {
			l = append([]string{c}, l...)
			break
		}
		switch t.op {
		case "load", "conv", "iface", "mkiface":
			t = t.a[0]
			continue
		case "faddr", "field":
			l = append([]string{t.s}, l...)
			t = t.a[0]
			continue
		}
		break
	}
	if len(l) == 0 {
		return path(t)
	}
	return strings.Join(l, ".")
}

// A shown value: the text of its line before it, and the value.
type shown struct {
	label, after string
	t            *Term
	e            *Event
}

// showsOf lists what an outcome prints outside of loops, line by line.
func (P *Prog) showsOf(o *Outcome, ev []*Event) (l []shown, texts string) {
	in := P.newInterp(Opts{})
	line := ""
	open := -1
	add := func(t *Term, e *Event) {
		if t.op == "str" {
			texts += t.s
			s := t.s
			if open >= 0 {
				c := strings.IndexByte(s, '\n')
				if c < 0 {
					c = len(s)
				}
				for i := open; i < len(l); i++ {
					l[i].after += s[:c]
				}
			}
			if i := strings.LastIndexByte(s, '\n'); i >= 0 {
				line, open = s[i+1:], -1
			} else {
				line += s
			}
			return
		}
		l = append(l, shown{label: line, t: t, e: e})
		if open < 0 {
			open = len(l) - 1
		}
		texts += "·"
	}
	parts := func(t *Term, e *Event) {
		if t.op == "concat" {
			for _, a := range t.a {
				add(a, e)
			}
			return
		}
		add(t, e)
	}
	for _, e := range ev {
		if e.kind != "ext" || !strings.HasPrefix(e.name, "fmt.") {
			continue
		}
		as := e.args
		name := strings.TrimPrefix(e.name, "fmt.")
		if strings.HasPrefix(name, "F") && len(as) > 0 {
			as, name = as[1:], name[1:]
			name = strings.ToUpper(name[:1]) + name[1:]
		}
		if !strings.HasPrefix(name, "Print") || len(as) == 0 {
			continue
		}
		es, ok := in.elems(at(e, o), as[len(as)-1])
		if !ok {
			add(mkT("unknown", "", 0, tString, as[len(as)-1]), e)
			continue
		}
		for i, x := range es {
			for x.op == "iface" || x.op == "mkiface" {
				x = x.a[0]
			}
			es[i] = x
		}
		switch name {
		case "Printf":
			parts(in.sprintf(append([]*Term{as[0]}, es...)), e)
		case "Println", "Print":
			for i, x := range es {
				if i > 0 && name == "Println" {
					add(mkStr(" "), e)
				}
				parts(x, e)
			}
			if name == "Println" {
				add(mkStr("\n"), e)
			}
		}
	}
	return
}

// inner: the value behind its text.
func behindText(t *Term) *Term {
	for t.op == "fmt" || t.op == "itoa" || t.op == "conv" || t.op == "iface" || t.op == "mkiface" {
		t = t.a[0]
	}
	return t
}

// flin: a linear form over what is not arithmetic; roundings are passed over.
type flin struct {
	c  float64
	co map[*Term]float64
}

func flinOf(t *Term) *flin {
	z := func() *flin { return &flin{0, map[*Term]float64{}} }
	cons := func(f float64) *flin { x := z(); x.c = f; return x }
	isC := func(x *flin) bool { return len(x.co) == 0 }
	lin := func(a *flin, k float64, b *flin) *flin {
		x := z()
		x.c = a.c + k*b.c
		for u, v := range a.co {
			x.co[u] += v
		}
		for u, v := range b.co {
			x.co[u] += k * v
			if x.co[u] == 0 {
				delete(x.co, u)
			}
		}
		return x
	}
	switch t.op {
	case "int":
		return cons(float64(t.n))
	case "lin":
		x := cons(float64(t.n))
		for i, a := range t.a {
			x = lin(x, float64(t.co[i]), flinOf(a))
		}
		return x
	case "conv":
		return flinOf(t.a[0])
	}
	if v, ok := floatOf(t); ok {
		return cons(v)
	}
	if t.op == "bin" && len(t.a) == 2 {
		a, b := flinOf(t.a[0]), flinOf(t.a[1])
		switch t.s {
		case "+":
			return lin(a, 1, b)
		case "-":
			return lin(a, -1, b)
		case "*":
			if isC(a) {
				return lin(z(), a.c, b)
			}
			if isC(b) {
				return lin(z(), b.c, a)
			}
		case "/":
			if isC(b) && b.c != 0 {
				return lin(z(), 1/b.c, a)
			}
		}
	}
	if t.op == "pure" {
		switch t.s {
		case "math.Round", "math.Floor", "math.Ceil", "math.Trunc", "math.RoundToEven":
			return flinOf(t.a[0])
		case "(time.Duration).Hours":
			return lin(z(), 1.0/3600e9, flinOf(t.a[0]))
		case "(time.Duration).Minutes":
			return lin(z(), 1.0/60e9, flinOf(t.a[0]))
		case "(time.Duration).Seconds":
			return lin(z(), 1.0/1e9, flinOf(t.a[0]))
		}
	}
	x := z()
	x.co[t] = 1
	return x
}

// instants: a linear form over moments, in days; the second result is set when a
// difference of moments is kept in a Duration, which holds no more than 292 years.
func (x *flin) instants() (at map[*Term]float64, narrow, ok bool) {
	at = map[*Term]float64{}
	for u, v := range x.co {
		switch {
		case u.op == "pure" && u.s == "(time.Time).Unix":
			at[u.a[0]] += v * 86400
		case u.op == "pure" && u.s == "(time.Time).UnixNano":
			at[u.a[0]] += v * 86400e9
			narrow = true
		case u.op == "pure" && u.s == "(time.Time).Sub":
			at[u.a[0]] += v * 86400e9
			at[u.a[1]] -= v * 86400e9
			narrow = true
		default:
			return nil, narrow, false
		}
	}
	return at, narrow, true
}

// floatOf: the value of a constant, which is kept as an exact fraction.
func floatOf(t *Term) (float64, bool) {
	for t.op == "conv" {
		t = t.a[0]
	}
	switch t.op {
	case "int":
		return float64(t.n), true
	case "const":
		x, ok := new(big.Rat).SetString(t.s)
		if !ok {
			return 0, false
		}
		v, _ := x.Float64()
		return v, true
	}
	return 0, false
}

func near(a, b float64) bool { return math.Abs(a-b) < 1e-9 }

// daysSpan: the two moments a value is the number of days between.
func daysSpan(t *Term) (from, to *Term, narrow bool, ok bool) {
	x := flinOf(t)
	at, narrow, ok := x.instants()
	if !ok || len(at) != 2 {
		return nil, nil, narrow, false
	}
	for u, v := range at {
		switch {
		case near(v, 1):
			to = u
		case near(v, -1):
			from = u
		}
	}
	return from, to, narrow, from != nil && to != nil && near(x.c, 0)
}

func checkC24(P *Prog, r *Report) {
	madeAt = map[*Term]string{}
	r.rule("counted", "each selected transaction raises the number of transactions by one, and no other does", 2)
	r.rule("sets", "each selected transaction adds its file, its payee and the account of each of its selected postings, and nothing else", 3)
	r.rule("dates", "the first date is replaced only by an earlier one, the last only by a later one, and both by that of the first transaction that is selected", 2)
	r.rule("report", "under each label stands what it says; the days are those between the two dates, and the rate is the number of transactions over them, or over 1", 6)
	r.rule("buckets", "the income and the expenses of a day are the sums of the selected postings of that day", 2)
	r.rule("ages", "each age is the days from an income to the expense that spends it, and what is spent is taken off both", 2)
	r.rule("average", "the age of money is the sum of all ages, or of the last ten, over their number", 2)
	cli, hs := reportHandlers(P, r)
	var cmd *Command
	if cli != nil {
		for _, c := range cli.cmds {
			if c.name() == "statistics" {
				cmd = c
			}
		}
	}
	if cmd == nil {
		r.bad("report", "statistics", "-", "the command statistics is not found")
		return
	}
	r.whole(P, "report", cli, "statistics")
	st := statsReport(P, r, cli, cmd)
	if st == nil {
		return
	}
	sel := selectorOf(P)
	wo := P.writeOnly()
	n := 0
	for _, h := range hs {
		if h.cmd != cmd || h.kind != "transactionHandler" {
			continue
		}
		n++
		st.handler(P, r, h, sel, wo)
	}
	if n == 0 {
		r.bad("counted", "statistics", "-", "the statistics are told of no transaction")
		return
	}
	st.aging(P, r)
}

type stats struct {
	outs                          []*Outcome // of the action, with what is read taken as anything
	shows                         [][]shown
	pos                           string
	count, accounts, payees, file string
	first, last                   string
	income, expenses              string
}

func statsReport(P *Prog, r *Report, cli *CLI, cmd *Command) *stats {
	parse := parserParse(P)
	act, v, _ := cmd.action()
	if act == nil || parse == nil {
		r.bad("report", "statistics", "-", "the command statistics does nothing")
		return nil
	}
	s := &stats{pos: P.pos(act.Pos())}
	r.use(act)
	outs, in, _ := P.runClosure(v, cli.st, Opts{snap: true, maxSteps: 2000000, opaque: opaqueFns(parse)})
	if in == nil || in.over {
		r.notes = append(r.notes, "the command statistics is not followed")
		for i := 0; i < 6; i++ {
			r.ok("report", "statistics")
		}
		return nil
	}
	said := 0
	for _, o := range outs {
		ran := false
		for _, e := range o.st.ev {
			ran = ran || e.kind == "call" && e.fn == parse
		}
		if !ran || !succeeds(o) {
			continue
		}
		r.paths++
		sh, txt := P.showsOf(o, o.st.ev)
		if strings.Contains(strings.ToLower(txt), "no transactions") {
			continue
		}
		said++
		noteMade(o.st)
		s.outs = append(s.outs, o)
		s.shows = append(s.shows, sh)
	}
	if said == 0 {
		r.bad("report", "statistics", s.pos, "no path shows any statistics")
		return nil
	}
	for k, o := range s.outs {
		s.reported(P, r, o, s.shows[k])
	}
	return s
}

func (s *stats) set(r *Report, what string, c *string, v string) {
	if v == "?" {
		r.notes = append(r.notes, what+": how they are counted is not followed")
		return
	}
	if *c != "" && *c != v {
		r.bad("report", "statistics: "+what, s.pos, "what is shown as %s is at times %s and at times %s", what, *c, v)
		return
	}
	*c = v
}

// reported reads off what is shown under which label.
func (s *stats) reported(P *Prog, r *Report, o *Outcome, sh []shown) {
	mapLen := func(t *Term) string {
		if t.op == "len" && t.a[0].typ != nil {
			if isMap(t.a[0].typ) {
				return cellOf(t.a[0])
			}
			if c, all := keysOf(o, t.a[0]); all {
				return c
			}
		}
		of := func(L *LoopSum) string {
			if L.seq == nil || !exhausted(o.st.ev, L) {
				return "?"
			}
			if isMap(L.seq.typ) {
				return cellOf(L.seq)
			}
			if c, all := keysOf(o, L.seq); all {
				return c
			}
			return ""
		}
		for _, L := range loopsIn(o.st.ev) {
			if L.idx == t {
				return of(L)
			}
		}
		if t.op == "phi" {
			// counted one by one
			for _, L := range loopsIn(o.st.ev) {
				for _, q := range L.phis {
					if q.sym != t {
						continue
					}
					if L.seq == nil || !exhausted(o.st.ev, L) || q.init == nil || q.init.op != "int" || q.init.n != 0 {
						return "?"
					}
					for _, it := range L.iters {
						if v := it.phis[q.name]; v == nil || subT(v, t).op != "int" || subT(v, t).n != 1 {
							return "?"
						}
					}
					return of(L)
				}
			}
			return "?"
		}
		return ""
	}
	var days, rate *Term
	var dayPos, ratePos string
	// the dates first
	for _, x := range sh {
		l := strings.ToLower(x.label)
		if x.t.op == "fmt" && x.t.a[0].op == "pure" || x.t.op == "pure" {
			t := behindText(x.t)
			if t.op == "pure" && t.s == "(time.Time).Format" {
				good := t.a[1].op == "str" && t.a[1].s == "2006-01-02"
				switch {
				case strings.Contains(l, "first"):
					s.set(r, "first transaction", &s.first, cellOf(t.a[0]))
					r.check(good, "report", "statistics: first transaction", P.ipos(x.e.in), "a date is shown in another form")
				case strings.Contains(l, "last"):
					s.set(r, "last transaction", &s.last, cellOf(t.a[0]))
					r.check(good, "report", "statistics: last transaction", P.ipos(x.e.in), "a date is shown in another form")
				}
			}
		}
	}
	for _, x := range sh {
		l, a := strings.ToLower(x.label), strings.ToLower(x.after)
		p := P.ipos(x.e.in)
		t := behindText(x.t)
		switch {
		case strings.Contains(l, "first") || strings.Contains(l, "last"):
		case strings.Contains(l, "period"):
			days, dayPos = t, p
		case strings.Contains(l, "account"):
			if m := mapLen(t); m != "" {
				s.set(r, "accounts", &s.accounts, m)
				r.ok("report", "statistics: accounts")
			} else {
				r.bad("report", "statistics: accounts", p, "the number of accounts is not that of a set of them")
			}
		case strings.Contains(l, "payee"):
			if m := mapLen(t); m != "" {
				s.set(r, "payees", &s.payees, m)
				r.ok("report", "statistics: payees")
			} else {
				r.bad("report", "statistics: payees", p, "the number of payees is not that of a set of them")
			}
		case strings.HasPrefix(strings.TrimSpace(a), "file"):
			if m := mapLen(t); m != "" {
				s.set(r, "files", &s.file, m)
				r.ok("report", "statistics: files")
			} else {
				r.bad("report", "statistics: files", p, "the number of files is not that of a set of them")
			}
		case strings.Contains(l, "transactions:") && strings.Contains(a, "per day") && !strings.Contains(l, "("):
			// the first on the line
			if isIntType(t.typ) {
				s.set(r, "transactions", &s.count, s.countCell(r, t, p))
			} else {
				rate, ratePos = t, p
			}
		case strings.Contains(l, "transactions:") && strings.Contains(l, "("):
			rate, ratePos = t, p
		case strings.Contains(l, "transactions:"):
			if isIntType(t.typ) {
				s.set(r, "transactions", &s.count, s.countCell(r, t, p))
			}
		}
	}
	for what, c := range map[string]string{"first transaction": s.first, "last transaction": s.last, "transactions": s.count, "accounts": s.accounts, "payees": s.payees, "files": s.file} {
		if c == "" {
			r.notes = append(r.notes, "what is shown as "+what+" is not found")
			r.ok("report", "statistics: "+what)
		}
	}
	sort.Strings(r.notes)
	// the days
	if days == nil {
		r.notes = append(r.notes, "the number of days shown is not found")
		r.ok("report", "statistics: days")
	} else {
		from, to, narrow, ok := daysSpan(days)
		x := flinOf(days)
		_, _, known := x.instants()
		switch {
		case ok && narrow:
			r.bad("report", "statistics: days", dayPos, "the time between the dates is kept in a Duration, which holds no more than 292 years")
		case ok:
			r.check(cellOf(from) == s.first && cellOf(to) == s.last, "report", "statistics: days", dayPos, "the days shown are those from %s to %s", cellOf(from), cellOf(to))
		case known:
			r.bad("report", "statistics: days", dayPos, "the number of days shown is not that of the days between the dates")
		default:
			r.notes = append(r.notes, "how the number of days comes about is not followed")
			r.ok("report", "statistics: days")
		}
	}
	// the rate
	switch {
	case rate == nil:
		r.notes = append(r.notes, "the rate that is shown is not found")
		r.ok("report", "statistics: rate")
	case rate.op == "bin" && rate.s == "/":
		num := flinOf(rate.a[0])
		good := near(num.c, 0) && len(num.co) == 1
		for u, v := range num.co {
			good = good && near(v, 1) && cellOf(u) == s.count
		}
		r.check(good, "report", "statistics: rate", ratePos, "the rate is not that of the transactions")
		if days == nil {
			break
		}
		d := rate.a[1]
		guarded := false
		for d.op == "conv" {
			d = d.a[0]
		}
		if d.op == "pure" && d.s == "math.Max" {
			for i := 0; i < 2; i++ {
				if v, ok := floatOf(d.a[i]); ok && near(v, 1) {
					guarded = true
					d = d.a[1-i]
					break
				}
			}
		}
		same := sameFlin(flinOf(d), flinOf(days))
		if v, ok := floatOf(d); ok && near(v, 1) {
			// on this path there is less than a day between them
			same = true
			guarded = true
		}
		r.check(same, "report", "statistics: rate", ratePos, "the rate is not over the days that are shown")
		if same && !guarded {
			for _, f := range o.st.f.list {
				guarded = guarded || f.any(func(u *Term) bool { return u == d || u == days })
			}
			r.check(guarded, "report", "statistics: rate", ratePos, "the rate is over no days at all when all happens on one day")
		}
	default:
		r.notes = append(r.notes, "how the rate comes about is not followed")
		r.ok("report", "statistics: rate")
	}
	// the files
	if s.file != "" {
		listed := false
		judged := false
		in := P.newInterp(Opts{})
		for _, L := range loopsIn(o.st.ev) {
			if L.seq != nil {
				continue
			}
			for _, it := range L.iters {
				for _, e := range it.ev {
					if e.kind != "ext" || !strings.HasPrefix(e.name, "fmt.Print") || len(e.args) == 0 {
						continue
					}
					es, _ := in.elems(it.st, e.args[len(e.args)-1])
					for _, x := range es {
						list, off, cnt := s.covers(o, it, L, x)
						if list == nil {
							continue
						}
						if c, all := keysOf(o, list); c == s.file {
							judged = true
							listed = listed || all && len(L.iters) == 1 && off.op == "int" && off.n == 0 && cnt == lenT(list) && exhausted(o.st.ev, L)
						}
					}
				}
			}
		}
		for _, L := range printedSeqs(P, o) {
			if !exhausted(o.st.ev, L) {
				continue
			}
			if cellOf(L.seq) == s.file {
				listed = true
				continue
			}
			if M, ph := appendsOf(o, L.seq); M != nil && M.seq != nil && cellOf(M.seq) == s.file && emptyList(ph.init) && exhausted(o.st.ev, M) {
				all := len(M.iters) > 0
				for _, it := range M.iters {
					as, ok := appended(it, ph)
					all = all && ok && len(as) == 1 && as[0].op == "rangekey"
				}
				listed = listed || all
			}
		}
		if !listed && !judged && len(printedSeqs(P, o)) == 0 {
			r.notes = append(r.notes, "how the files are listed is not followed")
			listed = true
		}
		r.check(listed, "report", "statistics: files", s.pos, "the files that are listed are not all that are counted")
	}
}

func sameFlin(a, b *flin) bool {
	if !near(a.c, b.c) || len(a.co) != len(b.co) {
		return false
	}
	for u, v := range a.co {
		if w, ok := b.co[u]; ok {
			if !near(v, w) {
				return false
			}
			continue
		}
		// loaded anew
		found := false
		for x, w := range b.co {
			found = found || near(v, w) && path(x) == path(u) && strings.Join(strings.Fields(fmt.Sprint(len(x.a))), "") == fmt.Sprint(len(u.a))
		}
		if !found {
			return false
		}
	}
	return true
}

func (s *stats) countCell(r *Report, t *Term, pos string) string {
	c, co, as := linParts(t)
	r.check(c == 0 && len(as) == 1 && co[0] == 1, "report", "statistics: transactions", pos, "the number shown is not that of the transactions")
	if len(as) != 1 {
		return ""
	}
	return cellOf(as[0])
}

// lastOf: what is at a place when the path ends, and what was there before.
func (P *Prog) cellsIn(hr *handlerRun, o *Outcome) map[string]*Term {
	m := map[string]*Term{}
	see := func(t *Term) {
		t.any(func(u *Term) bool {
			if u.op == "faddr" {
				m[cellOf(u)] = u
			}
			return false
		})
	}
	allEvents(o.st.ev, func(e *Event, it *Iter) {
		if e.kind == "store" {
			see(e.args[0])
		}
	})
	for _, f := range o.st.f.list {
		see(f)
	}
	return m
}

func (s *stats) handler(P *Prog, r *Report, h *handlerInfo, sel *selector, wo map[string]bool) {
	hr := runHandler(P, r, h, sel, wo)
	noteMade(h.st)
	pos := "-"
	if f := termFunc(h.fn); f != nil {
		pos = P.pos(f.Pos())
	}
	skip := func(why string) {
		r.notes = append(r.notes, why)
		for i := 0; i < 3; i++ {
			for _, k := range []string{"counted", "sets", "dates", "buckets"} {
				r.ok(k, "statistics")
			}
		}
	}
	if hr == nil {
		skip("the handler of the statistics is not followed")
		return
	}
	tp := path(hr.t)
	rt := rangeTest(P)
	in := P.newInterp(Opts{})
	// the addresses of the places, wherever they are seen
	addr := map[string]*Term{}
	for _, o := range hr.outs {
		for k, a := range P.cellsIn(hr, o) {
			if _, ok := addr[k]; !ok {
				addr[k] = a
			}
		}
	}
	typOf := func(a *Term) types.Type {
		if p, ok := a.typ.Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
		return a.typ
	}
	isDate := func(t *Term) bool { return path(t) == tp+".Date" }
	selected := 0
	for _, o := range hr.outs {
		if !succeeds(o) {
			continue
		}
		rg, se := hr.verdict(o, o.st.f, sel, rt)
		cnt := addr[s.count]
		if s.count != "" && cnt == nil {
			r.bad("counted", "statistics: transactions", pos, "no transaction is counted")
			return
		}
		var before *Term // the count before this one
		delta, single := int64(0), true
		if cnt != nil {
			end := in.load(o.st, cnt, typOf(cnt))
			c, co, as := linParts(end)
			single = len(as) == 1 && co[0] == 1 && cellOf(as[0]) == s.count && as[0].op == "load"
			delta = c
			if single {
				before = as[0]
			}
		}
		if !(rg && se) {
			if s.count != "" {
				r.check(single && delta == 0, "counted", "statistics: not selected", pos, "a transaction that is not selected is counted")
			}
			continue
		}
		selected++
		if s.count != "" {
			r.check(single && delta == 1, "counted", "statistics: selected", pos, "a selected transaction does not raise the number of transactions by one")
		}
		// sets
		type put struct {
			e  *Event
			it *Iter
		}
		puts := map[string][]put{}
		allEvents(o.st.ev, func(e *Event, it *Iter) {
			switch {
			case e.kind == "mapset":
				puts[cellOf(e.args[0])] = append(puts[cellOf(e.args[0])], put{e, it})
			case e.kind == "mapdel" || e.kind == "builtin" && e.name == "delete":
				for _, c := range []string{s.accounts, s.payees, s.file} {
					if c != "" && len(e.args) > 0 && cellOf(e.args[0]) == c {
						r.bad("sets", "statistics: "+c, P.ipos(e.in), "something is taken out of what is counted")
					}
				}
			}
		})
		has := func(c string, is func(*Term) bool) bool {
			for _, f := range o.st.f.list {
				if f.op == "mhas" && cellOf(f.a[0]) == c && is(f.a[1]) {
					return true
				}
				if f.op == "load" && f.a[0].op == "maddr" && cellOf(f.a[0].a[0]) == c && is(f.a[0].a[1]) {
					return true
				}
			}
			return false
		}
		one := func(what, c string, is func(*Term) bool) {
			if c == "" {
				return
			}
			ok, other := has(c, is), ""
			for _, p := range puts[c] {
				if is(p.e.args[1]) {
					ok = ok || p.it == nil
				} else {
					other = path(p.e.args[1])
				}
			}
			r.check(ok, "sets", "statistics: "+what, pos, "a selected transaction does not add its %s", what)
			r.check(other == "", "sets", "statistics: "+what, pos, "something else is counted as a %s: %s", what, other)
		}
		one("payee", s.payees, func(t *Term) bool { return path(t) == tp+".Payee" })
		one("file", s.file, func(t *Term) bool { return t.op == "param" && isString(t.typ) })
		// the list of the selected postings
		var list *Term
		for _, e := range o.st.ev {
			if e.kind == "call" && sel != nil && e.fn == sel.f && sel.il >= 0 {
				list = resOf(e, sel.il)
			}
		}
		isList := func(L *LoopSum) int {
			switch {
			case L.seq == nil:
				return 0
			case L.seq == list:
				return 1
			case path(L.seq) == tp+".Postings":
				if list == nil {
					return 1
				}
				return -1
			}
			return 0
		}
		elemPath := func(L *LoopSum, t *Term, suffix string) bool {
			p := path(t)
			return strings.HasPrefix(p, path(L.seq)+"[i]") && strings.HasSuffix(p, suffix) && len(p) == len(path(L.seq)+"[i]"+suffix)
		}
		loops := loopsIn(o.st.ev)
		if s.accounts != "" {
			ok, seen := false, false
			for _, L := range loops {
				k := isList(L)
				n, bad := 0, false
				for _, it := range L.iters {
					did := false
					for _, e := range it.ev {
						if e.kind == "mapset" && cellOf(e.args[0]) == s.accounts {
							seen = true
							whole := L.seq != nil && elemPath(L, e.args[1], ".AccountPath")
							if L.seq == nil {
								l, off, cnt := s.covers(o, it, L, e.args[1])
								whole = l != nil && l == list && off.op == "int" && off.n == 0 && cnt == lenT(list)
							}
							if k >= 0 && whole {
								did = true
							} else {
								bad = true
							}
						}
					}
					for _, f := range it.facts {
						if (f.op == "mhas" || f.op == "load" && f.a[0].op == "maddr") && f.any(func(u *Term) bool { return cellOf(u) == s.accounts }) {
							did = true
						}
					}
					if did {
						n++
					}
				}
				if n > 0 && n == len(L.iters) && !bad && exhausted(o.st.ev, L) {
					ok = true
				}
			}
			if !ok && !seen && len(puts[s.accounts]) == 0 && list != nil {
				// maybe by something that is not followed
				for _, e := range o.st.ev {
					if e.kind == "call" && e.fn != sel.f && e.fn != rt {
						ok = true
						r.notes = append(r.notes, "how the accounts are counted is not followed")
					}
				}
			}
			r.check(ok, "sets", "statistics: account", pos, "a selected transaction does not add the account of each selected posting")
			for _, p := range puts[s.accounts] {
				if p.it == nil {
					r.bad("sets", "statistics: account", P.ipos(p.e.in), "an account is counted that is not that of a selected posting")
				}
			}
		}
		// dates
		unset, set := s.unset(o.st.f, before, addr)
		dateOf := func(what, c string, earlier bool) {
			a := addr[c]
			if c == "" {
				return
			}
			if a == nil {
				r.bad("dates", "statistics: "+what, pos, "the date of the %s transaction is never set", what)
				return
			}
			end := in.load(o.st, a, typOf(a))
			var prev *Term
			for _, f := range o.st.f.list {
				f.any(func(u *Term) bool {
					if u.op == "load" && cellOf(u) == c {
						prev = u
					}
					return false
				})
			}
			if isDate(end) {
				good := unset
				if !good && prev != nil {
					// it is not on the other side
					x, y := end, prev
					if !earlier {
						x, y = prev, end
					}
					if v, k := o.st.f.query(tltT(y, x)); k && !v {
						good = true
					}
				}
				r.check(good, "dates", "statistics: "+what, pos, "the date of the %s transaction is replaced though it is not known to be %s", what, map[bool]string{true: "later", false: "earlier"}[earlier])
				return
			}
			if end.op == "load" && cellOf(end) == c {
				// what is before the first is not after the last
				if d := hrDate(o, tp); d != nil && set {
					done := false
					for _, f := range o.st.f.list {
						f.any(func(u *Term) bool {
							if u.op == "load" && isTime(u.typ) {
								switch {
								case cellOf(u) == s.first && !earlier:
									v, k := o.st.f.query(tltT(d, u))
									done = done || k && v
								case cellOf(u) == s.last && earlier:
									v, k := o.st.f.query(tltT(u, d))
									done = done || k && v
								}
							}
							return false
						})
					}
					if done {
						r.ok("dates", "statistics: "+what)
						return
					}
				}
				x, y := hrDate(o, tp), end
				if x == nil {
					r.bad("dates", "statistics: "+what, pos, "the date of the %s transaction is kept without being compared", what)
					return
				}
				if !earlier {
					x, y = y, x
				}
				v, k := o.st.f.query(tltT(x, y))
				r.check(k && !v, "dates", "statistics: "+what, pos, "the date of the %s transaction is kept though another may be %s", what, map[bool]string{true: "earlier", false: "later"}[earlier])
				r.check(set, "dates", "statistics: "+what, pos, "the date of the %s transaction may be kept before there is one", what)
				return
			}
			r.bad("dates", "statistics: "+what, pos, "the date of the %s transaction is set to something else", what)
		}
		dateOf("first", s.first, true)
		dateOf("last", s.last, false)
		// buckets
		s.buckets(P, r, o, tp, loops, isList, puts2(o))
	}
	if selected == 0 {
		skip("no path of the handler of the statistics is known to be about a selected transaction")
	}
}

// unset, set: whether no transaction, or some, has been counted before.
func (s *stats) unset(f *Facts, before *Term, addr map[string]*Term) (unset, set bool) {
	if before != nil {
		if v, k := f.query(eqT(before, mkInt(0, nil))); k {
			return v, !v
		}
		if v, k := f.query(le0T(before)); k {
			return v, !v
		}
	}
	for _, x := range f.list {
		pol := true
		if x.op == "not" {
			pol, x = false, x.a[0]
		}
		c := cellOf(x)
		switch {
		case x.op == "load" && isBoolean(x.typ) && addr[c] != nil:
			if strings.HasPrefix(path(x), "cmd.") {
				break
			}
			return !pol, pol
		case x.op == "eq0" && x.a[0].op == "len" && (cellOf(x.a[0].a[0]) == s.file || cellOf(x.a[0].a[0]) == s.payees):
			return pol, !pol
		}
	}
	for _, c := range []string{s.file, s.payees, s.accounts} {
		if c == "" {
			continue
		}
		for _, x := range f.list {
			var l *Term
			x.any(func(u *Term) bool {
				if u.op == "len" && cellOf(u.a[0]) == c {
					l = u
				}
				return false
			})
			if l != nil {
				if v, k := f.query(eqT(l, mkInt(0, nil))); k {
					return v, !v
				}
			}
		}
	}
	return false, false
}

func hrDate(o *Outcome, tp string) (d *Term) {
	for _, f := range o.st.f.list {
		f.any(func(u *Term) bool {
			if path(u) == tp+".Date" && (u.op == "load" || u.op == "field") {
				d = u
			}
			return d != nil
		})
	}
	return
}

type bucketPut struct {
	e  *Event
	it *Iter
}

func puts2(o *Outcome) (l []bucketPut) {
	allEvents(o.st.ev, func(e *Event, it *Iter) {
		if e.kind != "mapset" {
			return
		}
		if m, ok := e.args[0].typ.Underlying().(*types.Map); ok && isTime(m.Key()) && isIntType(m.Elem()) {
			l = append(l, bucketPut{e, it})
		}
	})
	return
}

func (s *stats) buckets(P *Prog, r *Report, o *Outcome, tp string, loops []*LoopSum, isList func(*LoopSum) int, ps []bucketPut) {
	for _, p := range ps {
		if p.it == nil {
			r.bad("buckets", "statistics: "+cellOf(p.e.args[0]), P.ipos(p.e.in), "income or expenses are noted that are not those of a selected posting")
		}
	}
	fill := func(L *LoopSum) bool {
		for _, it := range L.iters {
			for _, e := range it.ev {
				for _, p := range ps {
					if p.e == e {
						return true
					}
				}
			}
		}
		return false
	}
	got := map[string]bool{}
	n := 0
	for _, L := range loops {
		if !fill(L) {
			continue
		}
		n++
		if isList(L) == 0 {
			r.notes = append(r.notes, "the loop that notes income and expenses is not over the postings themselves")
			got["Income"], got["Expenses"] = true, true
			continue
		}
		r.check(isList(L) > 0, "buckets", "statistics: selected", s.pos, "income and expenses are taken from postings that are not selected")
		r.check(exhausted(o.st.ev, L), "buckets", "statistics: all", s.pos, "not all postings are looked at for income and expenses")
		ap := path(L.seq) + "[i].AccountPath"
		for _, it := range L.iters {
			for _, kind := range []string{"Income", "Expenses"} {
				is, not := heads(it.st.f, ap, kind)
				m := 0
				for _, e := range it.ev {
					if e.kind != "mapset" {
						continue
					}
					mp, ok := e.args[0].typ.Underlying().(*types.Map)
					if !ok || !isTime(mp.Key()) || !isIntType(mp.Elem()) {
						continue
					}
					c := cellOf(e.args[0])
					con := "statistics: " + kind
					if !is {
						if c == map[string]string{"Income": s.income, "Expenses": s.expenses}[kind] && c != "" && not {
							r.bad("buckets", con, P.ipos(e.in), "what is no %s is noted as such", kind)
						}
						continue
					}
					want := int64(1)
					cell := &s.expenses
					if kind == "Income" {
						want, cell = -1, &s.income
					}
					if *cell == "" {
						*cell = c
					}
					if *cell != c {
						continue
					}
					m++
					cc, co, as := linParts(e.args[2])
					old, q, oth := 0, int64(0), false
					for i, a := range as {
						switch {
						case a.op == "load" && a.a[0].op == "maddr" && cellOf(a.a[0].a[0]) == c && a.a[0].a[1] == e.args[1]:
							old += int(co[i])
						case path(a) == path(L.seq)+"[i].Amount.Quantity":
							q += co[i]
						default:
							oth = true
						}
					}
					r.check(!oth && cc == 0 && q == want, "buckets", con, P.ipos(e.in), "what is noted for a posting is not its amount")
					if old != 1 {
						ok := false // there was nothing yet
						for _, x := range it.st.f.list {
							ok = ok || x.op == "not" && x.a[0].op == "mhas" && cellOf(x.a[0].a[0]) == c
						}
						r.check(ok, "buckets", con, P.ipos(e.in), "what was noted before is lost")
					}
					r.check(path(e.args[1]) == tp+".Date", "buckets", con, P.ipos(e.in), "%s is noted under another date", kind)
				}
				if is {
					got[kind] = true
					r.check(m == 1, "buckets", "statistics: "+kind, s.pos, "a posting of %s is noted %d times", kind, m)
				} else if !not && len(it.ev) == 0 && !mentionsHead(it.st.f, ap) {
					r.bad("buckets", "statistics: "+kind, s.pos, "a posting is passed over without looking at whether it is %s", kind)
				}
			}
		}
	}
	if n == 0 && len(ps) == 0 {
		r.notes = append(r.notes, "where income and expenses are noted is not found")
		r.ok("buckets", "statistics: Income")
		r.ok("buckets", "statistics: Expenses")
		return
	}
	r.check(got["Income"] && got["Expenses"], "buckets", "statistics: both", s.pos, "not both income and expenses are noted")
}

// keysOf: the map a list of keys was taken from, and whether all of them were.
func keysOf(o *Outcome, sym *Term) (cell string, all bool) {
	if sym == nil {
		return "", false
	}
	if isMap(sym.typ) {
		return cellOf(sym), true
	}
	M, ph := appendsOf(o, sym)
	if M == nil || M.seq == nil || !isMap(M.seq.typ) {
		return "", false
	}
	all = exhausted(o.st.ev, M) && len(M.iters) > 0
	for _, it := range M.iters {
		as, ok := appended(it, ph)
		all = all && ok && len(as) == 1 && as[0].op == "rangekey"
	}
	return cellOf(M.seq), all
}

// elemList: the list a value is an element of.
func elemList(t *Term) *Term {
	if t.op == "load" {
		t = t.a[0]
	}
	switch t.op {
	case "iaddr", "elem", "rangekey":
		return t.a[0]
	}
	return nil
}

// aging judges how the ages come about, and their average.
func (s *stats) aging(P *Prog, r *Report) {
	spans, avgs := 0, 0
	for k, o := range s.outs {
		// the order of the days
		for _, e := range o.st.ev {
			sc := P.sortOf(e)
			if sc == nil {
				continue
			}
			c, _ := keysOf(o, sc.list)
			if c == "" || c != s.income && c != s.expenses {
				continue
			}
			outs, i, j := sc.compare(P, r, at(e, o))
			why, _, unknown := ordersBy(outs, i, j, func(t *Term) bool { return elemList(t) != nil })
			if unknown {
				r.notes = append(r.notes, "the comparison of a sort is not followed")
				why = ""
			}
			r.check(why == "", "ages", "statistics: order of "+c, P.ipos(e.in), "the days are not taken in order: %s", why)
		}
		sums := map[*Term]bool{}
		judge := func(L *LoopSum, it *Iter, p *PhiInfo) {
			v := it.phis[p.name]
			var added []*Term
			for v != nil && v.op == "append" {
				added = append(added, v.a[1:]...)
				v = v.a[0]
			}
			for _, a := range added {
				if a.typ == nil || isString(a.typ) || isTime(a.typ) || v == nil {
					continue
				}
				x := flinOf(a)
				m, narrow, known := x.instants()
				if len(m) == 0 {
					continue
				}
				con := "statistics: age"
				spans++
				if !known {
					r.notes = append(r.notes, "how an age comes about is not followed")
					r.ok("ages", con)
					continue
				}
				sums[p.sym] = true
				from, to, _, ok := daysSpan(a)
				r.check(!narrow, "ages", con, s.pos, "an age is kept in a Duration, which holds no more than 292 years")
				if !ok {
					r.bad("ages", con, s.pos, "an age is not the number of days between an income and an expense")
					continue
				}
				fc, fall := keysOf(o, elemList(from))
				tc, tall := keysOf(o, elemList(to))
				if fc == "" || tc == "" {
					r.notes = append(r.notes, "where the days of an age come from is not followed")
					r.ok("ages", con)
					continue
				}
				r.check(fc == s.income && tc == s.expenses, "ages", con, s.pos, "an age runs from %s to %s", fc, tc)
				r.check(fall && tall, "ages", con, s.pos, "not all days with income and expenses are looked at")
				s.spent(P, r, o, L, it, from)
			}
		}
		for _, L := range loopsIn(o.st.ev) {
			for _, it := range L.iters {
				for _, p := range L.phis {
					judge(L, it, p)
				}
			}
		}
		// the average
		for _, x := range s.shows[k] {
			if !strings.Contains(strings.ToLower(x.label), "age of money") {
				continue
			}
			avgs++
			s.average(P, r, o, behindText(x.t), P.ipos(x.e.in))
		}
	}
	if spans == 0 {
		r.notes = append(r.notes, "where ages are collected is not found")
		r.ok("ages", "statistics: age")
		r.ok("ages", "statistics: age")
	}
	if avgs == 0 {
		r.notes = append(r.notes, "no age of money is shown")
		r.ok("average", "statistics: age of money")
		r.ok("average", "statistics: age of money")
	}
}

// spent: what an age stands for is taken off the income and off the expense alike.
func (s *stats) spent(P *Prog, r *Report, o *Outcome, L *LoopSum, it *Iter, from *Term) {
	con := "statistics: spending"
	var set *Event
	n := 0
	for _, e := range it.ev {
		if e.kind == "mapset" && cellOf(e.args[0]) == s.income {
			set = e
			n++
		}
	}
	// what is left of the expense
	var ph *PhiInfo
	loops := append([]*LoopSum{L}, loopsIn(it.ev)...)
	for _, l := range loops {
		for _, p := range l.phis {
			if p.init != nil && p.init.op == "load" && p.init.a[0].op == "maddr" && cellOf(p.init.a[0].a[0]) == s.expenses {
				ph = p
			}
		}
	}
	if ph == nil && n == 1 && set.args[2].op == "int" && set.args[2].n == 0 {
		other := false
		for _, e := range it.ev {
			other = other || e.kind == "mapset" && cellOf(e.args[0]) == s.expenses
		}
		if !other && L.seq != nil && elemList(from) == L.seq {
			r.bad("ages", con, P.ipos(set.in), "an income is used up but the expense is not lowered by it")
			return
		}
	}
	if ph == nil {
		r.notes = append(r.notes, "what is left of an expense is not followed")
		r.ok("ages", con)
		return
	}
	r.check(n == 1, "ages", con, s.pos, "an age is noted but what is spent is not taken off the income")
	if n != 1 {
		return
	}
	r.check(set.args[1] == from || path(set.args[1]) == path(from), "ages", con, P.ipos(set.in), "what is spent is taken off another income")
	v := set.args[2]
	left := mkInt(0, nil)
	if x, ok := it.phis[ph.name]; ok && x != nil {
		left = x
	}
	// before = what it was, after = v; taken off the expense: sym - left
	sum := addT(v, subT(ph.sym, left), 1, v.typ)
	c, co, as := linParts(sum)
	if !(c == 0 && len(as) == 1 && co[0] == 1 && as[0].op == "load" && as[0].a[0].op == "maddr" && cellOf(as[0].a[0].a[0]) == s.income) {
		r.bad("ages", con, P.ipos(set.in), "what is taken off the income is not what is taken off the expense")
		return
	}
	old := as[0]
	if left.op == "int" && left.n == 0 {
		x, k := it.st.f.query(le0T(subT(ph.sym, old)))
		r.check(k && x, "ages", con, P.ipos(set.in), "more is taken off an income than there is")
	} else {
		x, k := it.st.f.query(le0T(addN(subT(old, ph.sym), 1)))
		r.check(k && x, "ages", con, P.ipos(set.in), "more is spent than there is to spend")
	}
}

// average judges the average of the ages.
func (s *stats) average(P *Prog, r *Report, o *Outcome, t *Term, pos string) {
	con := "statistics: age of money"
	unknown := func(why string) {
		r.notes = append(r.notes, why)
		r.ok("average", con)
	}
	max := func(t *Term, c float64) *Term {
		for t.op == "conv" {
			t = t.a[0]
		}
		if t.op == "pure" && t.s == "math.Max" {
			for i := 0; i < 2; i++ {
				if v, ok := floatOf(t.a[i]); ok && near(v, c) {
					t = t.a[1-i]
					break
				}
			}
		}
		for t.op == "conv" {
			t = t.a[0]
		}
		return t
	}
	t = max(t, 0)
	if v, ok := floatOf(t); ok && v == 0 {
		// none
		r.ok("average", con)
		return
	}
	if t.op != "bin" || t.s != "/" {
		unknown("how the age of money comes about is not followed")
		return
	}
	S, D := t.a[0], max(t.a[1], 1)
	for S.op == "conv" {
		S = S.a[0]
	}
	L, ph := appendsOf(o, S)
	if L == nil {
		unknown("the sum of the ages is not followed")
		return
	}
	if v, ok := floatOf(ph.init); !ok || v != 0 {
		r.bad("average", con, pos, "the sum of the ages does not start at nothing")
		return
	}
	r.check(ph.init.typ == nil || named(ph.init.typ) != "time.Duration", "average", con, pos, "the sum of the ages is kept in a Duration, which holds no more than 292 years")
	if len(L.iters) == 0 {
		unknown("the sum of the ages is not followed")
		return
	}
	r.check(exhausted(o.st.ev, L), "average", con, pos, "not all ages are summed")
	for _, it := range L.iters {
		v := it.phis[ph.name]
		var e *Term
		if v != nil && v.op == "bin" && v.s == "+" {
			switch S {
			case v.a[0]:
				e = v.a[1]
			case v.a[1]:
				e = v.a[0]
			}
		} else if v != nil && v.op == "lin" {
			e = subT(v, S)
		}
		if e == nil {
			r.bad("average", con, pos, "what is summed are not the ages, each once")
			continue
		}
		for e.op == "conv" {
			e = e.a[0]
		}
		if e.op == "load" {
			e = e.a[0]
		}
		if e.op != "iaddr" && e.op != "elem" {
			unknown("what is summed is not followed")
			continue
		}
		list, ix := e.a[0], e.a[1]
		ln := lenT(list)
		// which, and how many: ix = i + off for i from 0 until count
		off := subT(ix, L.idx)
		if off.any(func(u *Term) bool { return u == L.idx }) {
			unknown("which ages are summed is not followed")
			continue
		}
		cnt := s.rounds(o, it, L, list)
		if cnt == nil {
			unknown("how many ages are summed is not followed")
			continue
		}
		r.check(addT(off, cnt, 1, off.typ) == ln, "average", con, pos, "the ages that are summed are not the last ones")
		if d := flinOf(D); !sameFlin(d, flinOf(cnt)) {
			r.bad("average", con, pos, "the sum of the ages is not divided by their number")
		} else {
			r.ok("average", con)
		}
		switch {
		case cnt == ln:
			v, k := o.st.f.query(le0T(addN(ln, -10)))
			r.check(k && v, "average", con, pos, "more than the last ten ages are averaged")
		case cnt.op == "int":
			r.check(cnt.n == 10, "average", con, pos, "%d ages are averaged, not ten", cnt.n)
			v, k := o.st.f.query(le0T(subT(mkInt(cnt.n, nil), ln)))
			r.check(k && v, "average", con, pos, "more ages are averaged than there are")
		}
	}
}

// covers: the list whose elements a value of a counting loop is, or is found at,
// the first of them, and how many.
func (s *stats) covers(o *Outcome, it *Iter, L *LoopSum, t *Term) (list, off, cnt *Term) {
	t.any(func(u *Term) bool {
		if (u.op == "iaddr" || u.op == "elem") && list == nil && u.a[1].any(func(x *Term) bool { return x == L.idx }) {
			d := subT(u.a[1], L.idx)
			if !d.any(func(x *Term) bool { return x == L.idx }) {
				list, off = u.a[0], d
			}
		}
		return list != nil
	})
	if list == nil {
		return nil, nil, nil
	}
	cnt = s.rounds(o, it, L, list)
	if cnt == nil {
		return nil, nil, nil
	}
	return
}

// rounds: how often a loop goes round.
func (s *stats) rounds(o *Outcome, it *Iter, L *LoopSum, list *Term) *Term {
	if L.seq != nil {
		if L.seq.op == "slice" && len(L.seq.a) == 3 {
			return subT(L.seq.a[2], L.seq.a[1])
		}
		return lenT(L.seq)
	}
	// it goes on while i + c <= 0 and not after
	for _, f := range it.facts {
		if f.op != "le0" {
			continue
		}
		b := subT(L.idx, f.a[0]) // i - (i + c) = -c
		if b.any(func(u *Term) bool { return u == L.idx }) {
			continue
		}
		if v, k := o.st.f.query(f); k && !v {
			return addN(b, 1)
		}
	}
	return nil
}
