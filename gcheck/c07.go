package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C07"] = Check{"interprocedural taint analysis of quantities over SSA, and a path-sensitive decomposition of the text an amount is shown as", checkC07}
}

// quantities marks every value that is, or is computed from, the quantity of an amount.
type quantities struct {
	P      *Prog
	val    map[ssa.Value]bool
	field  map[string]bool // struct fields and element classes holding one
	work   []ssa.Value
	stores map[string][]ssa.Value // loads per place
}

func placeOf(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return named(x.X.Type()) + "." + fieldName(x)
	case *ssa.Global:
		return "G:" + x.String()
	case *ssa.IndexAddr:
		return "E:" + x.Type().String() + placeOf(x.X)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return placeOf(x.X)
		}
	case *ssa.Field:
		return "*" + typeName(x.X.Type()) + "." + structOf(x.X.Type()).Field(x.Field).Name()
	case *ssa.Alloc:
		return fmt.Sprintf("A:%p", x)
	case *ssa.FreeVar:
		// the variable of the enclosing function
		f := x.Parent()
		for i, fv := range f.FreeVars {
			if fv != x {
				continue
			}
			if p := f.Parent(); p != nil {
				for _, b := range p.Blocks {
					for _, in := range b.Instrs {
						if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
							return placeOf(mc.Bindings[i])
						}
					}
				}
			}
		}
	}
	return fmt.Sprintf("V:%p", v)
}

func (q *quantities) mark(v ssa.Value) {
	if v == nil || q.val[v] {
		return
	}
	q.val[v] = true
	q.work = append(q.work, v)
}

func (q *quantities) markPlace(p string) {
	if q.field[p] {
		return
	}
	q.field[p] = true
	for _, l := range q.stores[p] {
		q.mark(l)
	}
}

func quantitiesOf(P *Prog) *quantities {
	q := &quantities{P: P, val: map[ssa.Value]bool{}, field: map[string]bool{}, stores: map[string][]ssa.Value{}}
	callers := map[*ssa.Function][]ssa.CallInstruction{}
	var srcs []ssa.Value
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.UnOp:
					if x.Op == token.MUL {
						p := placeOf(x.X)
						q.stores[p] = append(q.stores[p], x)
						if fa, ok := x.X.(*ssa.FieldAddr); ok && named(fa.X.Type()) == "*journal.Amount" && isIntType(x.Type()) {
							srcs = append(srcs, x)
						}
					}
				case *ssa.Field:
					p := placeOf(x)
					q.stores[p] = append(q.stores[p], x)
					if named(x.X.Type()) == "journal.Amount" && isIntType(x.Type()) {
						srcs = append(srcs, x)
					}
				case *ssa.Lookup:
					p := "M:" + placeOf(x.X)
					q.stores[p] = append(q.stores[p], x)
				case *ssa.Next:
					if r, ok := x.Iter.(*ssa.Range); ok {
						p := "M:" + placeOf(r.X)
						q.stores[p] = append(q.stores[p], x)
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						callers[g] = append(callers[g], c)
						if v, isV := in.(ssa.Value); isV && g.Name() == "parseAmount" {
							srcs = append(srcs, v)
						}
					}
				}
			}
		}
	}
	for _, s := range srcs {
		q.mark(s)
	}
	for len(q.work) > 0 {
		v := q.work[len(q.work)-1]
		q.work = q.work[:len(q.work)-1]
		refs := v.Referrers()
		if refs == nil {
			continue
		}
		for _, u := range *refs {
			switch x := u.(type) {
			case *ssa.BinOp:
				switch x.Op {
				case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.SHL, token.SHR:
					q.mark(x)
				case token.QUO, token.REM:
					if x.X == v && !q.val[x.Y] {
						q.mark(x)
					}
				}
			case *ssa.UnOp:
				if x.Op == token.SUB || x.Op == token.XOR {
					q.mark(x)
				}
			case *ssa.Phi, *ssa.Convert, *ssa.ChangeType:
				q.mark(u.(ssa.Value))
			case *ssa.Extract:
				if isNumeric(x.Type()) {
					q.mark(x)
				}
			case *ssa.Store:
				if x.Val == v {
					q.markPlace(placeOf(x.Addr))
				}
			case *ssa.MapUpdate:
				if x.Value == v {
					q.markPlace("M:" + placeOf(x.Map))
				}
			case *ssa.Return:
				for i, rv := range x.Results {
					if rv != v {
						continue
					}
					for _, c := range callers[x.Parent()] {
						cv, ok := c.(ssa.Value)
						if !ok {
							continue
						}
						if len(x.Results) == 1 {
							q.mark(cv)
							continue
						}
						for _, w := range *cv.Referrers() {
							if e, ok := w.(*ssa.Extract); ok && e.Index == i {
								q.mark(e)
							}
						}
					}
				}
			case ssa.CallInstruction:
				c := x.Common()
				if g := c.StaticCallee(); g != nil && P.inRepo(g) {
					for i, a := range c.Args {
						if a == v && i < len(g.Params) {
							q.mark(g.Params[i])
						}
					}
				} else if bi, ok := c.Value.(*ssa.Builtin); ok && (bi.Name() == "append" || bi.Name() == "min" || bi.Name() == "max") {
					if cv, ok := x.(ssa.Value); ok {
						q.mark(cv)
					}
				} else if g != nil && strings.HasPrefix(g.RelString(nil), "math.") {
					if cv, ok := x.(ssa.Value); ok {
						q.mark(cv)
					}
				}
			}
		}
	}
	return q
}

func isNumeric(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

// smallRem: the value is a remainder that fits the narrower type.
func smallRem(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.BinOp:
		if x.Op == token.REM {
			if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil {
				n := c.Int64()
				return n > 0 && n <= 100
			}
		}
		if x.Op == token.ADD || x.Op == token.SUB || x.Op == token.QUO {
			if _, ok := x.Y.(*ssa.Const); ok {
				return smallRem(x.X)
			}
			if _, ok := x.X.(*ssa.Const); ok {
				return smallRem(x.Y)
			}
		}
	case *ssa.Convert:
		return smallRem(x.X)
	}
	return false
}

func checkC07(P *Prog, r *Report) {
	r.rule("type", "a quantity is kept in a 64-bit integer", 1)
	r.rule("exact", "no value computed from a quantity is turned into a floating point number or a narrower integer", 10)
	r.rule("shown", "an amount is shown as its sign, its whole units and two decimal digits, preceded by the commodity when asked for", 3)
	r.rule("printed", "a quantity reaches the output only through the method that shows it", 5)
	n := P.typ("journal", "Amount")
	if n == nil {
		r.bad("type", "journal.Amount", "-", "the type of amounts cannot be found")
		return
	}
	st := structOf(n)
	qf := ""
	for i := 0; st != nil && i < st.NumFields(); i++ {
		f := st.Field(i)
		if !isNumeric(f.Type()) {
			continue
		}
		qf = f.Name()
		b, _ := f.Type().Underlying().(*types.Basic)
		ok := false
		if isIntType(f.Type()) {
			w, signed := basicSize(b)
			ok = w == 64 && signed
		}
		r.check(ok, "type", "journal.Amount."+qf, P.pos(f.Pos()), "its type is %s", f.Type())
	}
	q := quantitiesOf(P)
	isAmountMethod := func(f *ssa.Function) bool {
		for f.Parent() != nil {
			f = f.Parent()
		}
		rc := f.Signature.Recv()
		return rc != nil && (named(rc.Type()) == "journal.Amount" || named(rc.Type()) == "*journal.Amount")
	}
	for v := range q.val {
		refs := v.Referrers()
		if refs == nil || v.Parent() == nil {
			continue
		}
		f := v.Parent()
		r.use(f)
		if isNumeric(v.Type()) {
			r.ok("exact", "quantities in "+fname(f))
		}
		for _, u := range *refs {
			switch x := u.(type) {
			case *ssa.Convert:
				b, _ := x.Type().Underlying().(*types.Basic)
				if b == nil {
					continue
				}
				if b.Info()&types.IsFloat != 0 || b.Info()&types.IsComplex != 0 {
					r.bad("exact", fname(f), P.ipos(x), "a quantity is turned into a floating point number")
				} else if b.Info()&types.IsInteger != 0 {
					if w, _ := basicSize(b); w < 64 && !smallRem(v) {
						r.bad("exact", fname(f), P.ipos(x), "a quantity is turned into a %d-bit integer", w)
					}
				}
			case *ssa.MakeInterface:
				if isAmountMethod(f) {
					continue
				}
				r.bad("printed", fname(f), P.ipos(x), "a quantity is used other than through the method that shows it")
			case ssa.CallInstruction:
				if g := x.Common().StaticCallee(); g != nil && !P.inRepo(g) && strings.HasPrefix(g.RelString(nil), "strconv.") && !isAmountMethod(f) {
					r.bad("printed", fname(f), P.ipos(x), "a quantity is formatted other than through the method that shows it")
				}
			}
		}
	}
	// what is shown
	shown := 0
	for _, f := range P.Funcs {
		if !isAmountMethod(f) || f.Parent() != nil || f.Synthetic != "" || strings.Join(resultTypes(f), ",") != "string" {
			continue
		}
		self := paramT(f.Params[0], 0)
		outs := r.exec(f, Opts{})
		if len(outs) == 0 {
			r.bad("shown", fname(f), P.pos(f.Pos()), "its paths cannot be enumerated")
		}
		var ask *Term
		for i, p := range f.Params[1:] {
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				ask = paramT(p, i+1)
			}
		}
		for _, o := range outs {
			if o.panic || o.exit {
				continue
			}
			shown++
			why := amountText(o, self, qf, o.rets[0], ask)
			r.check(why == "", "shown", fname(f), P.pos(f.Pos()), "%s", why)
		}
	}
	_ = shown
	// amounts given to fmt
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MakeInterface:
					if t := named(x.X.Type()); t == "journal.Amount" || t == "*journal.Amount" {
						r.ok("printed", "an amount given to fmt in "+fname(f))
					}
				case *ssa.Call:
					if g := x.Call.StaticCallee(); g != nil && isAmountMethod(g) && strings.Join(resultTypes(g), ",") == "string" {
						r.ok("printed", "an amount shown in "+fname(f))
					}
				}
			}
		}
	}
	r.amountVerbs(P)
	for _, x := range P.cuts() {
		if x.amount {
			r.bad("printed", "whole amounts in "+fname(x.f), P.ipos(x.in), "only the beginning of an amount is written (%s)", x.verb)
		}
	}
}

// amountVerbs: amounts given to fmt functions are shown with %s or %v.
func (r *Report) amountVerbs(P *Prog) {
	for _, f := range P.Funcs {
		has := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(*ssa.MakeInterface); ok {
					if t := named(x.X.Type()); t == "journal.Amount" || t == "*journal.Amount" {
						has = true
					}
				}
			}
		}
		if !has {
			continue
		}
		for _, o := range r.exec(f, Opts{opaque: func(*ssa.Function) bool { return true }}) {
			allEvents(o.st.ev, func(e *Event, it *Iter) {
				if !strings.HasPrefix(e.name, "fmt.") || !strings.HasSuffix(e.name, "f") {
					return
				}
				var fm *Term
				var args []*Term
				for i, a := range e.args {
					if a.op == "str" {
						fm, args = a, e.args[i+1:]
						break
					}
				}
				if fm == nil {
					return
				}
				if len(args) == 1 {
					if l := varargs(e, args[0]); len(l) > 0 {
						args = l
					}
				}
				for i, v := range verbsOf(fm.s) {
					if i >= len(args) {
						break
					}
					a := args[i]
					if a.op == "iface" {
						a = a.a[0]
					}
					if t := a.typ; t != nil && (named(t) == "journal.Amount" || named(t) == "*journal.Amount") {
						r.check(v == 's' || v == 'v', "printed", fmt.Sprintf("%s in %s", e.name, fname(f)), P.ipos(e.in), "an amount is printed with %%%c", v)
					}
				}
			})
		}
	}
}

func verbsOf(fm string) []byte {
	var l []byte
	for i := 0; i < len(fm); i++ {
		if fm[i] != '%' {
			continue
		}
		i++
		for i < len(fm) && strings.IndexByte("+-# 0123456789.", fm[i]) >= 0 {
			i++
		}
		if i < len(fm) && fm[i] != '%' {
			l = append(l, fm[i])
		}
	}
	return l
}

// amountText tells what is wrong with the text an amount is shown as.
func amountText(o *Outcome, self *Term, qf string, t, ask *Term) string {
	Q := fieldAt(entryState(o.st.f), self, qf)
	C := fieldAt(entryState(o.st.f), self, "Commodity")
	if Q == nil {
		return "the quantity cannot be found"
	}
	parts := []*Term{t}
	if t.op == "concat" {
		parts = t.a
	}
	parts = append([]*Term{}, parts...)
	has := false
	if len(parts) > 0 && parts[0] == C {
		has = true
		parts = parts[1:]
	}
	if ask != nil {
		v, known := o.st.f.query(ask)
		switch {
		case !known:
			return "whether the commodity is shown does not depend on its being asked for"
		case v && !has:
			return "the commodity is not shown although asked for"
		case !v && has:
			return "the commodity is shown although not asked for"
		}
	}
	neg := false
	if len(parts) > 0 && parts[0].op == "str" && parts[0].s == "-" {
		neg = true
		parts = parts[1:]
	}
	v, known := o.st.f.query(le0T(addN(Q, 1)))
	if known && v != neg {
		return map[bool]string{true: "a negative amount is shown without its sign", false: "an amount that is not negative is shown with a minus"}[v]
	}
	if !known {
		return "the sign shown does not depend on the amount's being negative"
	}
	mag := func(m *Term) bool {
		m = widened(m)
		if neg {
			return m == scaleT(Q, -1, m.typ) || m == subT(mkInt(0, nil), Q) || subT(m, scaleT(Q, -1, Q.typ)) == mkInt(0, nil)
		}
		return m == Q || subT(m, Q) == mkInt(0, nil)
	}
	div := func(x *Term, k int64) *Term {
		x = unconv64(x)
		if (x.op == "div") && x.a[1].op == "int" && x.a[1].n == k {
			return x.a[0]
		}
		return nil
	}
	rem := func(x *Term, k int64) *Term {
		x = unconv64(x)
		if x.op == "rem" && x.a[1].op == "int" && x.a[1].n == k {
			return x.a[0]
		}
		return nil
	}
	num := func(x *Term) *Term {
		if x.op == "itoa" || x.op == "fmt" && (x.s == "%d" || x.s == "%v") {
			return x.a[0]
		}
		if x.op == "pure" && (x.s == "strconv.FormatInt" || x.s == "strconv.FormatUint") && x.a[1].op == "int" && x.a[1].n == 10 {
			return x.a[0]
		}
		return nil
	}
	// literals may have run together: split the point off
	var l []*Term
	for _, p := range parts {
		if p.op == "str" && strings.HasPrefix(p.s, ".") && len(p.s) > 1 {
			l = append(l, mkStr("."), mkStr(p.s[1:]))
			continue
		}
		l = append(l, p)
	}
	parts = l
	if len(parts) < 3 || parts[1].op != "str" || parts[1].s != "." {
		return fmt.Sprintf("an amount is shown as %v", t)
	}
	// sliced out of the zero padded hundredths
	if w := parts[0]; w.op == "slice" && len(parts) == 3 && parts[2].op == "slice" && parts[2].a[0] == w.a[0] && w.a[0].op == "fmt" && w.a[0].s == "%03d" {
		if mag(w.a[0].a[0]) && w.a[1] == mkInt(0, nil) && w.a[2] == parts[2].a[1] && parts[2].a[2] == lenT(w.a[0]) && w.a[2] == addN(lenT(w.a[0]), -2) {
			return ""
		}
		return fmt.Sprintf("an amount is shown as %v", t)
	}
	x := num(parts[0])
	if x == nil || div(x, 100) == nil || !mag(div(x, 100)) {
		return fmt.Sprintf("the whole units are shown as %v", parts[0])
	}
	d := parts[2:]
	switch {
	case len(d) == 1 && d[0].op == "fmt" && d[0].s == "%02d" && rem(d[0].a[0], 100) != nil && mag(rem(d[0].a[0], 100)):
		return ""
	case len(d) == 1 && num(d[0]) != nil:
		y := num(d[0])
		if m := rem(y, 100); m != nil && mag(m) {
			if v, known := o.st.f.query(le0T(addN(y, -9))); known && !v {
				return ""
			}
		}
	case len(d) == 2 && d[0].op == "str" && d[0].s == "0" && num(d[1]) != nil:
		y := num(d[1])
		if m := rem(y, 100); m != nil && mag(m) {
			if v, known := o.st.f.query(le0T(addN(y, -9))); known && v {
				return ""
			}
		}
	case len(d) == 2 && num(d[0]) != nil && num(d[1]) != nil:
		a, b := num(d[0]), num(d[1])
		ma, mb := div(a, 10), rem(b, 10)
		if ma != nil && rem(ma, 100) != nil && mag(rem(ma, 100)) && mb != nil && (mag(mb) || rem(mb, 100) != nil && mag(rem(mb, 100))) {
			return ""
		}
	}
	return fmt.Sprintf("the decimals are shown as %v", d)
}

func unconv64(t *Term) *Term {
	for t.op == "conv" && isIntType(t.typ) && t.a[0].typ != nil && isIntType(t.a[0].typ) {
		t = t.a[0]
	}
	return t
}
