package main

import (
	"sort"
)

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// Facts is a conjunction of atoms known to hold at a program point.
type Facts struct {
	list  []*Term          // assumed atoms, in order (negated ones as not(x))
	truth map[*Term]bool   // opaque predicates and equalities
	le    []*Term          // linear e <= 0
	eq    []*Term          // linear e == 0
	ne    []*Term          // linear e != 0
	ord   map[[2]*Term]int // time order masks: 1 '<', 2 '=', 4 '>' (a.id < b.id)
}

func newFacts() *Facts {
	return &Facts{truth: map[*Term]bool{}, ord: map[[2]*Term]int{}}
}

func (f *Facts) clone() *Facts {
	g := &Facts{
		list:  f.list[:len(f.list):len(f.list)],
		truth: make(map[*Term]bool, len(f.truth)+1),
		le:    f.le[:len(f.le):len(f.le)],
		eq:    f.eq[:len(f.eq):len(f.eq)],
		ne:    f.ne[:len(f.ne):len(f.ne)],
		ord:   make(map[[2]*Term]int, len(f.ord)+1),
	}
	for k, v := range f.truth {
		g.truth[k] = v
	}
	for k, v := range f.ord {
		g.ord[k] = v
	}
	return g
}

func ordKey(a, b *Term) ([2]*Term, bool) {
	if a.id < b.id {
		return [2]*Term{a, b}, false
	}
	return [2]*Term{b, a}, true
}

func flipMask(m int) int {
	r := m & 2
	if m&1 != 0 {
		r |= 4
	}
	if m&4 != 0 {
		r |= 1
	}
	return r
}

func (f *Facts) mask(a, b *Term) int {
	k, fl := ordKey(a, b)
	m, ok := f.ord[k]
	if !ok {
		m = 7
	}
	// propagate equality through one step and strict chains through one step
	if fl {
		m = flipMask(m)
	}
	if m == 7 {
		for kk, mm := range f.ord {
			var c *Term
			var ac int
			if kk[0] == a {
				c, ac = kk[1], mm
			} else if kk[1] == a {
				c, ac = kk[0], flipMask(mm)
			} else {
				continue
			}
			if c == b {
				continue
			}
			k2, fl2 := ordKey(c, b)
			cb, ok := f.ord[k2]
			if !ok {
				continue
			}
			if fl2 {
				cb = flipMask(cb)
			}
			m &= compose(ac, cb)
		}
	}
	return m
}

// compose of relations a?c, c?b gives the possible a?b.
func compose(x, y int) int {
	r := 0
	for _, p := range []int{1, 2, 4} {
		if x&p == 0 {
			continue
		}
		for _, q := range []int{1, 2, 4} {
			if y&q == 0 {
				continue
			}
			switch {
			case p == 2:
				r |= q
			case q == 2:
				r |= p
			case p == q:
				r |= p
			default:
				r |= 7
			}
		}
	}
	return r
}

// assume adds an atom with a polarity; false means it contradicts what is known.
func (f *Facts) assume(t *Term, pol bool) bool {
	switch t.op {
	case "bool":
		return (t.n == 1) == pol
	case "not":
		return f.assume(t.a[0], !pol)
	case "and":
		if pol {
			return f.assume(t.a[0], true) && f.assume(t.a[1], true)
		}
		if v, k := f.query(t.a[0]); k && v {
			return f.assume(t.a[1], false)
		}
		if v, k := f.query(t.a[1]); k && v {
			return f.assume(t.a[0], false)
		}
	}
	switch t.op {
	case "le0":
		e := t.a[0]
		if !pol { // e >= 1  ->  1 - e <= 0
			e = addN(scaleT(e, -1, e.typ), 1)
		}
		if !f.addLe(e) {
			return false
		}
	case "eq0":
		e := t.a[0]
		if pol {
			f.eq = append(f.eq, e)
		} else {
			f.ne = append(f.ne, e)
		}
		if !f.feasible(e) {
			return false
		}
	case "tlt", "teq":
		m := 2
		if t.op == "tlt" {
			m = 1
		}
		if !pol {
			m = 7 &^ m
		}
		a, b := t.a[0], t.a[1]
		nm := f.mask(a, b) & m
		if nm == 0 {
			return false
		}
		k, fl := ordKey(a, b)
		if fl {
			nm = flipMask(nm)
		}
		f.ord[k] = nm
	default:
		if v, k := f.query(t); k {
			if v != pol {
				return false
			}
		}
		f.truth[t] = pol
	}
	if pol {
		f.list = append(f.list, t)
	} else {
		f.list = append(f.list, notT(t))
	}
	return true
}

func (f *Facts) addLe(e *Term) bool {
	if e.op == "int" {
		return e.n <= 0
	}
	f.le = append(f.le, e)
	return f.feasible(e)
}

// query tells whether an atom is known.
func (f *Facts) query(t *Term) (val, known bool) {
	switch t.op {
	case "bool":
		return t.n == 1, true
	case "not":
		v, k := f.query(t.a[0])
		return !v, k
	case "and":
		v1, k1 := f.query(t.a[0])
		v2, k2 := f.query(t.a[1])
		if k1 && !v1 || k2 && !v2 {
			return false, true
		}
		if k1 && k2 {
			return true, true
		}
		return false, false
	case "le0", "eq0":
		g := f.clone()
		if !g.assume(t, true) {
			return false, true
		}
		g = f.clone()
		if !g.assume(t, false) {
			return true, true
		}
		return false, false
	case "tlt", "teq":
		m := f.mask(t.a[0], t.a[1])
		w := 2
		if t.op == "tlt" {
			w = 1
		}
		if m&w == 0 {
			return false, true
		}
		if m&^w == 0 {
			return true, true
		}
		return false, false
	}
	if v, ok := f.truth[t]; ok {
		return v, true
	}
	if t.op == "eq" {
		x, y := t.a[0], t.a[1]
		// x == c1 known and c1 != c2
		for u, v := range f.truth {
			if !v || u.op != "eq" {
				continue
			}
			for i := 0; i < 2; i++ {
				p, q := u.a[i], u.a[1-i]
				for j := 0; j < 2; j++ {
					r, s := t.a[j], t.a[1-j]
					if p == r {
						if q == s {
							return true, true
						}
						z := eqT(q, s)
						if z.op == "bool" {
							return z.n == 1, true
						}
						if z != t {
							if vv, ok := f.truth[z]; ok {
								return vv, true
							}
						}
					}
				}
			}
		}
		_ = x
		_ = y
	}
	return false, false
}

// ---- linear feasibility (Fourier-Motzkin with equality substitution) ----

type lrow struct {
	c  int64
	co map[*Term]int64
}

func rowOf(e *Term) lrow {
	c, co, ts := linParts(e)
	r := lrow{c, map[*Term]int64{}}
	for i := range ts {
		r.co[ts[i]] += co[i]
	}
	return r
}

const lbig = int64(1) << 60

func mulOK(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	p := a * b
	if p/b != a || p > lbig || p < -lbig {
		return 0, false
	}
	return p, true
}

func nonNegTerm(t *Term) bool {
	switch t.op {
	case "len", "cap", "iter", "runew":
		return true
	}
	if t.typ != nil && isUnsigned(t.typ) {
		return true
	}
	return false
}

// axioms gives bounds that hold of a term by construction.
func axioms(t *Term) []lrow {
	var l []lrow
	if nonNegTerm(t) {
		l = append(l, lrow{0, map[*Term]int64{t: -1}})
	}
	switch t.op {
	case "runew": // width of a decoded rune: at most the bytes there are
		x := lenT(t.a[0])
		r := rowOf(subT(t, x))
		l = append(l, r)
		l = append(l, lrow{-4, map[*Term]int64{t: 1}})
	case "len":
		if x := t.a[0]; x.op == "pure" && x.s == "strings.Split" {
			l = append(l, lrow{1, map[*Term]int64{t: -1}})
		}
	case "pure":
		switch t.s {
		case "strings.IndexRune", "strings.Index", "strings.IndexByte", "strings.LastIndex":
			l = append(l, lrow{-1, map[*Term]int64{t: -1}})
			l = append(l, rowOf(addN(subT(t, lenT(t.a[0])), 0)))
		}
	case "rem":
		if d := t.a[1]; d.op == "int" && d.n > 0 {
			l = append(l, lrow{-(d.n - 1), map[*Term]int64{t: 1}})
			if nonNegTerm(t.a[0]) {
				l = append(l, lrow{0, map[*Term]int64{t: -1}})
			} else {
				l = append(l, lrow{-(d.n - 1), map[*Term]int64{t: -1}})
			}
		}
	}
	return l
}

// feasible: whether the facts can hold together after e was added to those that could. Only facts linked to e
// by the terms they are about can matter.
func (f *Facts) feasible(e *Term) bool {
	type ent struct {
		row  lrow
		kind int
		used bool
	}
	ents := make([]ent, 0, len(f.le)+len(f.eq)+len(f.ne))
	by := map[*Term][]int{}
	add := func(e *Term, kind int) {
		r := rowOf(e)
		if kind == 0 && (r.c > lbig || r.c < -lbig) {
			return
		}
		for t := range r.co {
			by[t] = append(by[t], len(ents))
		}
		ents = append(ents, ent{row: r, kind: kind})
	}
	for _, e := range f.le {
		add(e, 0)
	}
	for _, e := range f.eq {
		add(e, 1)
	}
	for _, e := range f.ne {
		add(e, 2)
	}
	// what holds of each term by construction links terms as well
	ax := map[*Term]bool{}
	var note func(r lrow)
	var axs []lrow
	axBy := map[*Term][]int{}
	note = func(r lrow) {
		for t := range r.co {
			if ax[t] {
				continue
			}
			ax[t] = true
			for _, q := range axioms(t) {
				for u := range q.co {
					axBy[u] = append(axBy[u], len(axs))
				}
				axs = append(axs, q)
				note(q)
			}
		}
	}
	for _, x := range ents {
		note(x.row)
	}
	start := rowOf(e)
	note(start)
	vars := map[*Term]bool{}
	var queue []*Term
	seen := func(r lrow) {
		for t := range r.co {
			if !vars[t] {
				vars[t] = true
				queue = append(queue, t)
			}
		}
	}
	seen(start)
	axUsed := make([]bool, len(axs))
	for len(queue) > 0 {
		t := queue[0]
		queue = queue[1:]
		for _, i := range by[t] {
			if !ents[i].used {
				ents[i].used = true
				seen(ents[i].row)
			}
		}
		for _, i := range axBy[t] {
			if !axUsed[i] {
				axUsed[i] = true
				seen(axs[i])
			}
		}
	}
	var rows, eqs, nes []lrow
	for _, x := range ents {
		if !x.used && len(x.row.co) > 0 {
			continue
		}
		switch x.kind {
		case 0:
			rows = append(rows, x.row)
		case 1:
			eqs = append(eqs, x.row)
		default:
			nes = append(nes, x.row)
		}
	}
	for i, q := range axs {
		if axUsed[i] {
			rows = append(rows, q)
		}
	}
	return fmFeasible(rows, eqs, nes, 0)
}

func fmFeasible(rows, eqs, nes []lrow, depth int) bool {
	cp := func(l []lrow) []lrow {
		o := make([]lrow, len(l))
		for i, r := range l {
			m := make(map[*Term]int64, len(r.co))
			for k, v := range r.co {
				m[k] = v
			}
			o[i] = lrow{r.c, m}
		}
		return o
	}
	rows0, eqs0 := cp(rows), cp(eqs)
	rows, eqs = cp(rows), cp(eqs)
	nes = cp(nes)
	// substitute equalities with a unit coefficient
	for i := 0; i < len(eqs); i++ {
		e := eqs[i]
		if len(e.co) == 0 {
			if e.c != 0 {
				return false
			}
			continue
		}
		var v *Term
		for t, c := range e.co {
			if (c == 1 || c == -1) && (v == nil || t.id > v.id) {
				v = t
			}
		}
		if v == nil {
			// two inequalities
			rows = append(rows, e)
			neg := lrow{-e.c, map[*Term]int64{}}
			for t, c := range e.co {
				neg.co[t] = -c
			}
			rows = append(rows, neg)
			continue
		}
		cv := e.co[v]
		sub := func(r *lrow) bool {
			k, ok := r.co[v]
			if !ok {
				return true
			}
			delete(r.co, v)
			// v = -(rest)/cv ; cv = ±1
			for t, c := range e.co {
				if t == v {
					continue
				}
				m, ok := mulOK(k, -c*cv)
				if !ok {
					return false
				}
				r.co[t] += m
				if r.co[t] == 0 {
					delete(r.co, t)
				}
			}
			m, ok := mulOK(k, -e.c*cv)
			if !ok {
				return false
			}
			r.c += m
			return true
		}
		for j := range rows {
			if !sub(&rows[j]) {
				return true
			}
		}
		for j := i + 1; j < len(eqs); j++ {
			if !sub(&eqs[j]) {
				return true
			}
		}
		for j := range nes {
			if !sub(&nes[j]) {
				return true
			}
		}
	}
	for _, r := range nes {
		if len(r.co) == 0 && r.c == 0 {
			return false
		}
	}
	if !fmRows(cp(rows)) {
		return false
	}
	if depth >= 6 {
		return true
	}
	// disequalities: infeasible only if both sides are
	for i, r := range nes {
		if len(r.co) == 0 {
			continue
		}
		rest := append(append([]lrow{}, nes[:i]...), nes[i+1:]...)
		lo := lrow{r.c + 1, map[*Term]int64{}} // r <= -1
		hi := lrow{-r.c + 1, map[*Term]int64{}}
		for t, c := range r.co {
			lo.co[t] = c
			hi.co[t] = -c
		}
		fl := fmRows(cp(append(append([]lrow{}, rows...), lo)))
		fh := fmRows(cp(append(append([]lrow{}, rows...), hi)))
		if !fl && !fh {
			return false
		}
		if fl != fh {
			// one side only: keep it and look again at the others
			add := lo
			if fh {
				add = hi
			}
			_ = rows0
			_ = eqs0
			return fmFeasible(append(append([]lrow{}, rows...), add), nil, rest, depth+1)
		}
	}
	return true
}

func fmRows(rows []lrow) bool {
	for iter := 0; iter < 60; iter++ {
		// tighten and drop trivial rows
		out := rows[:0]
		for _, r := range rows {
			if len(r.co) == 0 {
				if r.c > 0 {
					return false
				}
				continue
			}
			g := int64(0)
			for _, c := range r.co {
				g = gcd(g, c)
			}
			if g > 1 {
				for t := range r.co {
					r.co[t] /= g
				}
				// sum + c <= 0 -> sum <= -c -> sum <= floor(-c/g)
				r.c = -floorDiv(-r.c, g)
			}
			out = append(out, r)
		}
		rows = out
		if len(rows) == 0 {
			return true
		}
		if len(rows) > 400 {
			return true
		}
		// choose the variable with the fewest products
		pos, neg := map[*Term]int{}, map[*Term]int{}
		for _, r := range rows {
			for t, c := range r.co {
				if c > 0 {
					pos[t]++
				} else {
					neg[t]++
				}
			}
		}
		vs := map[*Term]bool{}
		for t := range pos {
			vs[t] = true
		}
		for t := range neg {
			vs[t] = true
		}
		var order []*Term
		for t := range vs {
			order = append(order, t)
		}
		sort.Slice(order, func(i, j int) bool {
			a, b := pos[order[i]]*neg[order[i]], pos[order[j]]*neg[order[j]]
			if a != b {
				return a < b
			}
			return order[i].id < order[j].id
		})
		v := order[0]
		var P, N, R []lrow
		for _, r := range rows {
			c := r.co[v]
			if c > 0 {
				P = append(P, r)
			} else if c < 0 {
				N = append(N, r)
			} else {
				R = append(R, r)
			}
		}
		for _, p := range P {
			for _, n := range N {
				kp, kn := -n.co[v], p.co[v]
				q := lrow{0, map[*Term]int64{}}
				ok := true
				comb := func(r lrow, k int64) {
					for t, c := range r.co {
						if t == v {
							continue
						}
						m, o := mulOK(c, k)
						if !o {
							ok = false
							return
						}
						q.co[t] += m
						if q.co[t] == 0 {
							delete(q.co, t)
						}
					}
					m, o := mulOK(r.c, k)
					if !o {
						ok = false
						return
					}
					q.c += m
				}
				comb(p, kp)
				if ok {
					comb(n, kn)
				}
				if ok {
					R = append(R, q)
				}
			}
		}
		rows = R
	}
	return true
}
