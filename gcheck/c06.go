package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C06"] = Check{"path-sensitive dataflow over SSA: each accepted amount decomposed into sign, whole and decimal digits, with a bound on the result", checkC06}
}

// span is the part of a text a term denotes.
type span struct {
	lo, hi *Term // bounds, when they are positions
	before bool  // ends before the point
	after  bool  // starts behind the point
	two    bool  // after: nothing else follows a second point
}

// spanOf explains a term as a part of the text, nil if it is not one.
func spanOf(f *Facts, t *Term, isTxt func(*Term) bool) *span {
	if isTxt(t) {
		return &span{lo: mkInt(0, nil), hi: lenT(t)}
	}
	switch t.op {
	case "conv":
		return spanOf(f, t.a[0], isTxt)
	case "slice":
		s := spanOf(f, t.a[0], isTxt)
		if s == nil || s.after || s.before {
			return nil
		}
		lo := addT(s.lo, t.a[1], 1, tInt)
		hi := addT(s.lo, t.a[2], 1, tInt)
		if t.a[2] == lenT(t.a[0]) {
			hi = s.hi
		}
		return &span{lo: lo, hi: hi}
	case "elem":
		p := t.a[0]
		if p.op == "pure" && strings.HasPrefix(p.s, "strings.Split") && t.a[1].op == "int" {
			c, is := runeArg(p.a[1])
			s := spanOf(f, p.a[0], isTxt)
			if !is || c != '.' || s == nil || s.after || s.before {
				return nil
			}
			n, known := int64(0), false
			for k := int64(1); k <= 3; k++ {
				if v, q := f.query(eq0T(addN(lenT(p), -k))); q && v {
					n, known = k, true
				}
			}
			switch {
			case known && n == 1 && t.a[1].n == 0:
				return s
			case t.a[1].n == 0:
				return &span{lo: s.lo, hi: s.hi, before: true}
			case known && n == 2 && t.a[1].n == 1:
				return &span{lo: s.lo, hi: s.hi, after: true}
			}
		}
	case "res":
		p := t.a[0]
		if p.op == "pure" && p.s == "strings.Cut" && t.n < 2 {
			c, is := runeArg(p.a[1])
			s := spanOf(f, p.a[0], isTxt)
			if !is || c != '.' || s == nil || s.after || s.before {
				return nil
			}
			if v, known := f.query(mkT("res", "", 2, tBool, p)); known && !v && t.n == 0 {
				return s
			}
			return &span{lo: s.lo, hi: s.hi, before: t.n == 0, after: t.n == 1}
		}
	case "pure":
		if t.s == "strings.TrimPrefix" && t.a[1].op == "str" && len(t.a[1].s) == 1 {
			s := spanOf(f, t.a[0], isTxt)
			if s == nil {
				return nil
			}
			if v, known := f.query(mkT("pure", "strings.HasPrefix", 0, tBool, t.a[0], t.a[1])); known {
				if v {
					return &span{lo: addN(s.lo, 1), hi: s.hi}
				}
				return s
			}
		}
	}
	return nil
}

// startsWith: whether the text is known to start with that character.
func startsWith(f *Facts, c rune, isTxt func(*Term) bool) (val, known bool) {
	for _, x := range f.list {
		pol := true
		if x.op == "not" {
			pol, x = false, x.a[0]
		}
		x.any(func(u *Term) bool {
			if (u.op == "load" && u.a[0].op == "iaddr" && isTxt(u.a[0].a[0]) && u.a[0].a[1].op == "int" && u.a[0].a[1].n == 0) ||
				u.op == "elem" && isTxt(u.a[0]) && u.a[1].op == "int" && u.a[1].n == 0 || u.op == "rune" && isTxt(u.a[0]) {
				if v, k := f.query(eq0T(addN(u, -int64(c)))); k {
					val, known = v, true
				}
			}
			return false
		})
		if x.op == "pure" && x.s == "strings.HasPrefix" && isTxt(x.a[0]) && x.a[1].op == "str" && x.a[1].s == string(c) {
			val, known = pol, true
		}
	}
	return
}

// isPoint: the position is known to hold the first point of the text.
func isPoint(f *Facts, s *span, at *Term, isTxt func(*Term) bool) bool {
	found := false
	for _, x := range f.list {
		x.any(func(u *Term) bool {
			var e *Term
			if u.op == "load" && u.a[0].op == "iaddr" {
				e = u.a[0]
			} else if u.op == "elem" {
				e = u
			}
			if e != nil && len(e.a) == 2 {
				if b := spanOf(f, e.a[0], isTxt); b != nil && !b.after && !b.before && addT(b.lo, e.a[1], 1, tInt) == at {
					if v, known := f.query(eq0T(addN(u, -'.'))); known && v {
						found = true
					}
				}
			}
			if (u.op == "rangerune" || u.op == "rangeval") && len(u.a) > 0 {
				if v, known := f.query(eq0T(addN(u, -'.'))); known && v {
					found = true
				}
			}
			return found
		})
	}
	at.any(func(u *Term) bool {
		if u.op == "pure" && (strings.HasPrefix(u.s, "strings.Index") || strings.HasPrefix(u.s, "bytes.Index") || strings.HasPrefix(u.s, "strings.LastIndex")) {
			if c, is := runeArg(u.a[1]); is && c == '.' {
				if b := spanOf(f, u.a[0], isTxt); b != nil && addT(b.lo, u, 1, tInt) == at {
					found = true
				}
			}
		}
		return found
	})
	return found
}

// number is the value of a run of digits, as the library reads it.
type number struct {
	val    *Term // the result
	text   *Term
	signed bool
	base   *Term
	bits   int64
	err    *Term
}

func numberOf(t *Term) *number {
	for t.op == "conv" {
		t = t.a[0]
	}
	if t.op != "res" || t.n != 0 || t.a[0].op != "pure" {
		return nil
	}
	c := t.a[0]
	n := &number{val: t, err: mkT("res", "", 1, errorType, c)}
	switch c.s {
	case "strconv.Atoi":
		n.text, n.signed, n.base, n.bits = c.a[0], true, mkInt(10, nil), 64
	case "strconv.ParseInt", "strconv.ParseUint":
		n.text, n.signed, n.base, n.bits = c.a[0], c.s == "strconv.ParseInt", c.a[1], 64
		if c.a[2].op == "int" && c.a[2].n > 0 {
			n.bits = c.a[2].n
		}
	default:
		return nil
	}
	return n
}

func (n *number) max() *big.Int {
	b := uint(n.bits)
	if n.signed {
		b--
	}
	m := new(big.Int).Lsh(big.NewInt(1), b)
	return m.Sub(m, big.NewInt(1))
}

// upperBound: the largest value the facts leave a number, adding what may be subtracted from the bound.
// other is a second number, multiplied by k, with maximum m.
func upperBound(f *Facts, n *number, other *number, k int64, m int64) (b *big.Int, unknown bool) {
	b = n.max()
	maxInt := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 63), big.NewInt(1))
	for _, e := range f.le {
		c, co, ts := linParts(e)
		if len(ts) == 1 && ts[0] == n.val && co[0] == 1 {
			if u := big.NewInt(-c); u.Cmp(b) < 0 {
				b = u
			}
			continue
		}
		seen := false
		for _, t := range ts {
			seen = seen || t.contains(n.val)
		}
		if !seen {
			continue
		}
		// W - div(E, 100) + c <= 0
		if len(ts) == 2 {
			for i := 0; i < 2; i++ {
				d := ts[1-i]
				if ts[i] != n.val || co[i] != 1 || co[1-i] != -1 || d.op != "div" || d.a[1].op != "int" || d.a[1].n != 100 {
					continue
				}
				ec, eco, ets := linParts(d.a[0])
				ok := len(ets) == 0 || len(ets) == 1 && other != nil && ets[0] == other.val && eco[0] <= 0
				if ok && c >= 0 {
					room := int64(0)
					if len(ets) == 1 {
						room = -eco[0]
					}
					// 100 W <= ec - room*D - 100 c; the total is 100 W + k D
					u := new(big.Int).Sub(big.NewInt(ec), big.NewInt(100*c))
					if k > room {
						u.Add(u, big.NewInt((k-room)*m))
					}
					if u.Cmp(maxInt) <= 0 {
						return big.NewInt(0), false
					}
					u.Sub(u, big.NewInt(k*m))
					u.Div(u, big.NewInt(100))
					if u.Cmp(b) < 0 {
						b = u
					}
					seen = false
				}
			}
			if !seen {
				continue
			}
		}
		unknown = true
	}
	return
}

func lenWithin(f *Facts, text *Term, inner *Term, lo, hi int64) (ge, le bool) {
	// digits were read: there is one, and each is a byte
	f = f.clone()
	f.assume(le0T(addN(scaleT(lenT(text), -1, tInt), 1)), true)
	f.assume(eq0T(subT(lenT(text), lenT(inner))), true)
	for _, l := range []*Term{lenT(text), lenT(inner)} {
		if v, known := f.query(le0T(addN(scaleT(l, -1, tInt), lo))); known && v {
			ge = true
		}
		if v, known := f.query(le0T(addN(l, -hi))); known && v {
			le = true
		}
	}
	return
}

func checkC06(P *Prog, r *Report) {
	r.rule("value", "an accepted amount is its sign times a hundred times its whole digits plus its decimals, one digit counting tens", 6)
	r.rule("sign", "the sign is what the first character says, is left out of the digits, and no second one is read", 3)
	r.rule("digits", "the digits are those before and behind the first point, to the end of the text, read in base ten without an error", 3)
	r.rule("decimals", "at most two decimals are accepted", 2)
	r.rule("range", "an amount is accepted only if its hundredths fit", 3)
	r.rule("refused", "an amount is refused only because of digits the library cannot read, a third decimal, its size, or for being empty", 4)
	f := P.byRole("parser", "parseAmount", func(f *ssa.Function) bool {
		return len(f.Params) == 1 && (isRunes(f.Params[0].Type()) || isString(f.Params[0].Type())) && strings.Join(resultTypes(f), ",") == "int64,error"
	})
	if f == nil {
		r.bad("value", "parser.parseAmount", "-", "the function that reads amounts cannot be found")
		return
	}
	pos := P.pos(f.Pos())
	content := paramT(f.Params[0], 0)
	isTxt := func(t *Term) bool { return isText(t, content) }
	outs := r.exec(f, Opts{})
	if len(outs) == 0 {
		r.bad("value", fname(f), pos, "its paths cannot be enumerated")
	}
	maxInt := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 63), big.NewInt(1))
	for _, o := range outs {
		if o.panic || o.exit {
			continue
		}
		if !succeeds(o) {
			why := refusal(o, content, isTxt)
			r.check(why == "", "refused", fname(f), pos, "%s", why)
			continue
		}
		fs := o.st.f
		q := o.rets[0]
		if q.any(func(u *Term) bool { return u.typ != nil && isFloat(u.typ) }) {
			r.bad("value", fname(f), pos, "the amount is read as a floating point number")
			continue
		}
		sign, u := int64(1), widened(q)
		c, co, ts := linParts(u)
		neg := false
		for i := range co {
			if co[i] < 0 {
				neg = true
			}
		}
		if neg {
			sign = -sign
			co = append([]int64{}, co...)
			for i := range co {
				co[i] = -co[i]
			}
		}
		var W, D *number
		var kW, kD int64
		unknown := c != 0
		for i, t := range ts {
			n := numberOf(t)
			if n == nil {
				unknown = true
				continue
			}
			s := spanOf(fs, n.text, isTxt)
			switch {
			case s == nil:
				unknown = true
			case s.after:
				D, kD = n, co[i]
			case s.before:
				W, kW = n, co[i]
			case len(ts) == 1 || co[i] == 100 && len(ts) == 2 && W == nil && !(i == 0 && co[1] == 100):
				W, kW = n, co[i]
			default:
				D, kD = n, co[i]
			}
		}
		if unknown || W == nil {
			if q.any(func(u *Term) bool { return numberOf(u) != nil }) || q.op == "int" {
				r.bad("value", fname(f), pos, "the amount accepted is %v", q)
			} else {
				r.notes = append(r.notes, "an amount is read in a way that is not modelled: "+q.String())
				r.ok("value", fname(f)+" (not modelled)")
			}
			continue
		}
		sW := spanOf(fs, W.text, isTxt)
		r.check(kW == 100, "value", fname(f)+" whole", pos, "the whole units count %d hundredths", kW)
		// the sign
		minus, mk := startsWith(fs, '-', isTxt)
		plus, pk := startsWith(fs, '+', isTxt)
		nz := func(b bool) int64 {
			if b {
				return 1
			}
			return 0
		}
		switch {
		case mk && minus:
			r.check(sign == -1 && sW.lo == mkInt(1, nil), "sign", fname(f)+" minus", pos, "an amount that starts with - is read as %v", q)
		case pk && plus:
			r.check(sign == 1 && sW.lo == mkInt(1, nil), "sign", fname(f)+" plus", pos, "an amount that starts with + is read as %v", q)
		default:
			r.check(sign == 1 && sW.lo == mkInt(0, nil), "sign", fname(f)+" none", pos, "an amount that starts with a digit is read as %v", q)
		}
		_ = nz
		for _, n := range []*number{W, D} {
			if n == nil {
				continue
			}
			if n.signed {
				two := true
				if a, ak := startsWith(fs, '-', func(t *Term) bool { return t == n.text || isTxt(t) && spanIs0(fs, n, isTxt) }); ak && !a {
					if b, bk := startsWith(fs, '+', func(t *Term) bool { return t == n.text || isTxt(t) && spanIs0(fs, n, isTxt) }); bk && !b {
						two = false
					}
				}
				r.check(!two, "sign", fname(f)+" digits", pos, "a sign among the digits is read")
			}
			r.check(n.base.op == "int" && n.base.n == 10, "digits", fname(f)+" base", pos, "digits are read in base %v", n.base)
			v, known := isNil(fs, n.err)
			r.check(known && v, "digits", fname(f)+" errors", pos, "an amount is accepted although its digits may not have been read")
		}
		if D == nil {
			// everything up to the end is read as digits
			end := sW.hi == lenT(content) || sW.hi == lenT(mkT("conv", "string", 0, tString, content))
			r.check(!sW.before && end, "digits", fname(f)+" whole", pos, "the text from %v on is not read", sW.hi)
		} else {
			sD := spanOf(fs, D.text, isTxt)
			switch {
			case sW.before && sD.after:
				r.ok("digits", fname(f)+" decimals")
			case sW.before || sD.after:
				r.bad("digits", fname(f)+" decimals", pos, "whole and decimal digits are not the two parts of the text")
			default:
				end := sD.hi == lenT(content) || sD.hi == lenT(mkT("conv", "string", 0, tString, content))
				r.check(addN(sW.hi, 1) == sD.lo && end && isPoint(fs, sW, sW.hi, isTxt), "digits", fname(f)+" decimals", pos,
					"the decimals are read from %v to %v, the whole units up to %v", sD.lo, sD.hi, sW.hi)
			}
			inner := D.text
			if inner.op == "conv" {
				inner = inner.a[0]
			}
			_, le1 := lenWithin(fs, D.text, inner, 1, 1)
			ge2, le2 := lenWithin(fs, D.text, inner, 2, 2)
			r.check(le2, "decimals", fname(f), pos, "an amount is accepted without knowing that it has at most two decimals")
			switch kD {
			case 10:
				r.check(le1, "value", fname(f)+" one decimal", pos, "decimals count tens although there may be two of them")
			case 1:
				r.check(ge2, "value", fname(f)+" two decimals", pos, "decimals count ones although there may be only one of them")
			default:
				r.bad("value", fname(f)+" decimals", pos, "the decimals count %d hundredths", kD)
			}
		}
		// the size
		m := int64(99)
		if kD == 10 {
			m = 9
		}
		if D == nil {
			m = 0
		}
		b, unk := upperBound(fs, W, D, kD, m)
		tot := new(big.Int).Mul(b, big.NewInt(100))
		tot.Add(tot, big.NewInt(kD*m))
		if tot.Cmp(maxInt) <= 0 {
			r.ok("range", fname(f))
		} else if unk || mentions(fs, W.val, W.err) {
			r.notes = append(r.notes, "the size of an amount is limited in a way that is not modelled")
			r.ok("range", fname(f)+" (not modelled)")
		} else {
			r.bad("range", fname(f), pos, "an amount of up to %v units is accepted, more than its type can hold", b)
		}
	}
}

// widened looks through conversions between 64-bit integers.
func widened(t *Term) *Term {
	c, co, ts := linParts(t)
	r := mkInt(c, t.typ)
	for i, x := range ts {
		if x.op == "conv" && isIntType(x.typ) && isIntType(x.a[0].typ) {
			if b, ok := x.typ.Underlying().(*types.Basic); ok {
				if n, _ := basicSize(b); n == 64 {
					x = widened(x.a[0])
				}
			}
		}
		r = addT(r, scaleT(x, co[i], t.typ), 1, t.typ)
	}
	return r
}

func spanIs0(f *Facts, n *number, isTxt func(*Term) bool) bool {
	s := spanOf(f, n.text, isTxt)
	return s != nil && !s.after && s.lo.op == "int" && s.lo.n == 0
}

// mentions: a fact depends on the value other than through a bound on it alone.
func mentions(f *Facts, v, err *Term) bool {
	for _, x := range f.list {
		if x.op == "not" {
			x = x.a[0]
		}
		if !x.contains(v) {
			continue
		}
		if x.op == "le0" {
			_, _, ts := linParts(x.a[0])
			simple := true
			for _, t := range ts {
				if t != v && t.contains(v) || t.op == "div" {
					simple = simple && t.op == "div" && !t.contains(v)
				}
			}
			if simple {
				continue
			}
		}
		return true
	}
	return false
}

// refusal explains why a path may refuse an amount that is well written, "" if it does not.
func refusal(o *Outcome, content *Term, isTxt func(*Term) bool) string {
	fs := o.st.f
	if v, known := fs.query(eq0T(lenT(content))); known && v {
		return ""
	}
	if v, known := fs.query(eq0T(lenT(mkT("conv", "string", 0, tString, content)))); known && v {
		return ""
	}
	lib := false
	allEvents(o.st.ev, func(e *Event, it *Iter) {
		if strings.HasPrefix(e.name, "strconv.") {
			x := mkT("res", "", 1, errorType, e.res)
			if v, known := isNil(fs, x); known && !v {
				lib = true
			}
			if o.rets[len(o.rets)-1].contains(x) {
				lib = true
			}
		}
	})
	if lib {
		return ""
	}
	odd := false
	limited := ""
	sized := false
	for _, x := range fs.list {
		pol := true
		if x.op == "not" {
			pol, x = false, x.a[0]
		}
		// the size of a number
		var n *number
		x.any(func(u *Term) bool {
			if k := numberOf(u); k != nil && u.op == "res" {
				n = k
			}
			return false
		})
		if n != nil && !(x.op == "eq0" || x.op == "eq") || n != nil && x.op == "eq0" {
			sized = true
			if x.op == "le0" {
				e := x.a[0]
				if !pol {
					e = addN(scaleT(e, -1, e.typ), 1)
				}
				c, co, ts := linParts(e)
				if len(ts) == 1 && ts[0] == n.val && co[0] == -1 && c < 92233720368547757 {
					limited = "an amount is refused for its size although it can be held"
				}
				for i, t := range ts {
					if t.op == "div" && len(ts) == 2 && ts[1-i] == n.val && t.a[1].op == "int" && t.a[1].n == 100 {
						ec, _, _ := linParts(t.a[0])
						if co[1-i] == -1 && ec < 9223372036854775807-99 || co[1-i] == -1 && c < 0 {
							limited = "an amount is refused for its size although it can be held"
						}
					}
				}
			}
			continue
		}
		// the characters of the text, other than its first
		x.any(func(u *Term) bool {
			switch {
			case u.op == "load" && u.a[0].op == "iaddr" || u.op == "elem":
				e := u
				if u.op == "load" {
					e = u.a[0]
				}
				if len(e.a) == 2 && (e.a[1].op != "int" || e.a[1].n != 0) && e.a[1].op != "int" {
					if v, known := fs.query(eq0T(addN(u, -'.'))); !(known && v) {
						odd = odd || pol
					}
				}
			case u.op == "rangerune" || u.op == "rangeval" || u.op == "pure" && !strings.HasPrefix(u.s, "strconv.") && u.any(isTxt):
				odd = true
			}
			return false
		})
	}
	if limited != "" {
		return limited
	}
	if sized {
		return ""
	}
	// a third decimal
	for _, x := range fs.list {
		three := false
		x.any(func(u *Term) bool {
			if u.op != "len" && u.op != "slice" {
				return false
			}
			t := u
			if u.op == "len" {
				t = u.a[0]
			}
			s := spanOf(fs, t, isTxt)
			if s == nil || isTxt(t) {
				return false
			}
			behind := s.after || s.lo.op != "int" && isPoint(fs, s, addN(s.lo, -1), isTxt)
			if behind {
				if v, known := fs.query(le0T(addN(scaleT(lenT(t), -1, tInt), 3))); known && v {
					three = true
				}
			}
			return false
		})
		if three {
			return ""
		}
	}
	// lengths counted from the position of the point: len(content) - point > 3
	for _, e := range fs.le {
		_, co, ts := linParts(e)
		_ = co
		hasLen, other := false, false
		for _, t := range ts {
			if t.op == "len" && isTxt(t.a[0]) {
				hasLen = true
			} else {
				other = true
			}
		}
		if hasLen && other {
			for _, t := range ts {
				if !(t.op == "len" && isTxt(t.a[0])) {
					// text behind the point: len - (p+1) >= 3
					for _, l := range []*Term{lenT(content), lenT(mkT("conv", "string", 0, tString, content))} {
						for d := int64(0); d <= 1; d++ {
							p := addN(t, d)
							if !isPoint(fs, nil, p, isTxt) {
								continue
							}
							if v, known := fs.query(le0T(addN(subT(addN(p, 1), l), 3))); known && v {
								return ""
							}
						}
					}
				}
			}
		}
	}
	if odd {
		return ""
	}
	return "an amount may be refused although it is written as it should be"
}
