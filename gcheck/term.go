package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed abstract value: two values with the same term are
// equal on every execution that reaches them.
type Term struct {
	id  int
	op  string
	s   string
	n   int64   // lin: constant part; otherwise an index or instance number
	co  []int64 // lin: coefficients of a
	a   []*Term
	typ types.Type
	x   interface{} // payload (function, instruction)
}

type termTab struct {
	m map[string]*Term
	n int
}

var tt = &termTab{m: map[string]*Term{}}

func mkT(op, s string, n int64, typ types.Type, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(s)
	sb.WriteByte('|')
	sb.WriteString(strconv.FormatInt(n, 10))
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := tt.m[k]; ok {
		return t
	}
	tt.n++
	t := &Term{id: tt.n, op: op, s: s, n: n, a: args, typ: typ}
	tt.m[k] = t
	return t
}

func mkLin(c int64, co []int64, a []*Term, typ types.Type) *Term {
	type ct struct {
		c int64
		t *Term
	}
	l := []ct{}
	for i := range a {
		if co[i] != 0 {
			l = append(l, ct{co[i], a[i]})
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].t.id < l[j].t.id })
	m := l[:0]
	for _, x := range l {
		if len(m) > 0 && m[len(m)-1].t == x.t {
			m[len(m)-1].c += x.c
			if m[len(m)-1].c == 0 {
				m = m[:len(m)-1]
			}
		} else {
			m = append(m, x)
		}
	}
	if len(m) == 0 {
		return mkInt(c, typ)
	}
	if len(m) == 1 && m[0].c == 1 && c == 0 {
		return m[0].t
	}
	var sb strings.Builder
	sb.WriteString("lin|")
	sb.WriteString(strconv.FormatInt(c, 10))
	co2 := make([]int64, len(m))
	a2 := make([]*Term, len(m))
	for i, x := range m {
		co2[i], a2[i] = x.c, x.t
		fmt.Fprintf(&sb, ",%d*%d", x.c, x.t.id)
	}
	k := sb.String()
	if t, ok := tt.m[k]; ok {
		return t
	}
	tt.n++
	t := &Term{id: tt.n, op: "lin", n: c, co: co2, a: a2, typ: typ}
	tt.m[k] = t
	return t
}

var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]
var tString = types.Typ[types.String]

func mkInt(n int64, typ types.Type) *Term {
	if typ == nil {
		typ = tInt
	}
	return mkT("int", "", n, typ)
}
func mkStr(s string) *Term { return mkT("str", s, 0, tString) }
func mkBool(b bool) *Term {
	if b {
		return mkT("bool", "true", 1, tBool)
	}
	return mkT("bool", "false", 0, tBool)
}

var tNil = mkT("nil", "", 0, types.Typ[types.UntypedNil])

func (t *Term) isConst() bool {
	switch t.op {
	case "int", "str", "bool", "nil", "const", "func", "bigint":
		return true
	}
	return false
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isBoolean(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func constTerm(v constant.Value, typ types.Type) *Term {
	if v == nil {
		return zeroTerm(typ)
	}
	switch v.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(v))
	case constant.String:
		return mkStr(constant.StringVal(v))
	case constant.Int:
		if isFloat(typ) {
			return mkT("const", v.ExactString(), 0, typ)
		}
		if i, ok := constant.Int64Val(v); ok {
			return mkInt(i, typ)
		}
		return mkT("bigint", v.ExactString(), 0, typ)
	}
	return mkT("const", v.ExactString(), 0, typ)
}

// zeroTerm is the zero value of a type.
func zeroTerm(typ types.Type) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkBool(false)
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&types.IsInteger != 0:
			return mkInt(0, typ)
		case u.Info()&types.IsFloat != 0:
			return mkT("const", "0", 0, typ)
		}
		if u.Kind() == types.UntypedNil {
			return tNil
		}
		return mkT("const", "0", 0, typ)
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return tNil
	}
	return mkT("zero", typeName(typ), 0, typ)
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// ---- linear arithmetic over terms ----

func linParts(t *Term) (int64, []int64, []*Term) {
	switch t.op {
	case "int":
		return t.n, nil, nil
	case "lin":
		return t.n, t.co, t.a
	}
	return 0, []int64{1}, []*Term{t}
}

func addT(a, b *Term, sb int64, typ types.Type) *Term {
	c1, k1, t1 := linParts(a)
	c2, k2, t2 := linParts(b)
	co := append([]int64{}, k1...)
	ts := append([]*Term{}, t1...)
	for i := range t2 {
		co = append(co, sb*k2[i])
		ts = append(ts, t2[i])
	}
	return mkLin(c1+sb*c2, co, ts, typ)
}

func addN(a *Term, n int64) *Term { return addT(a, mkInt(n, nil), 1, a.typ) }
func subT(a, b *Term) *Term       { return addT(a, b, -1, a.typ) }
func scaleT(a *Term, k int64, typ types.Type) *Term {
	c, co, ts := linParts(a)
	co2 := make([]int64, len(co))
	for i := range co {
		co2[i] = co[i] * k
	}
	return mkLin(c*k, co2, ts, typ)
}

// ---- boolean terms (atoms) ----
// le0(e): e <= 0; eq0(e): e == 0; eq(a,b); tlt(a,b)/teq(a,b): ordering of
// instants; not(x); anything else of boolean type is an opaque predicate.

func notT(t *Term) *Term {
	if t.op == "bool" {
		return mkBool(t.n == 0)
	}
	if t.op == "not" {
		return t.a[0]
	}
	return mkT("not", "", 0, tBool, t)
}

func normLin(e *Term) *Term {
	// divide by gcd of coefficients (keeps sign)
	if e.op != "lin" {
		return e
	}
	g := int64(0)
	for _, c := range e.co {
		g = gcd(g, c)
	}
	if g > 1 && e.n%g == 0 {
		co := make([]int64, len(e.co))
		for i := range co {
			co[i] = e.co[i] / g
		}
		return mkLin(e.n/g, co, e.a, e.typ)
	}
	return e
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// le0T builds the atom e <= 0.
func le0T(e *Term) *Term {
	if e.op == "int" {
		return mkBool(e.n <= 0)
	}
	e = normLin(e)
	if a, b, k, ok := cmp3Of(e); ok {
		// k*cmp3(a,b) + n <= 0
		n := int64(0)
		if e.op == "lin" {
			n = e.n
		}
		return cmp3Atom(a, b, func(v int64) bool { return k*v+n <= 0 })
	}
	return mkT("le0", "", 0, tBool, e)
}

// cmp3Of recognises a linear expression over a single three-way comparison.
func cmp3Of(e *Term) (a, b *Term, k int64, ok bool) {
	if e.op == "cmp3" {
		return e.a[0], e.a[1], 1, true
	}
	if e.op == "lin" && len(e.a) == 1 && e.a[0].op == "cmp3" {
		return e.a[0].a[0], e.a[0].a[1], e.co[0], true
	}
	return nil, nil, 0, false
}

func cmp3Atom(a, b *Term, f func(int64) bool) *Term {
	l, e, g := f(-1), f(0), f(1)
	switch {
	case l && e && g:
		return mkBool(true)
	case !l && !e && !g:
		return mkBool(false)
	case l && !e && !g:
		return tltT(a, b)
	case !l && e && !g:
		return teqT(a, b)
	case !l && !e && g:
		return tltT(b, a)
	case l && e && !g:
		return notT(tltT(b, a))
	case !l && e && g:
		return notT(tltT(a, b))
	}
	return notT(teqT(a, b))
}

func tltT(a, b *Term) *Term {
	if a == b {
		return mkBool(false)
	}
	return mkT("tlt", "", 0, tBool, a, b)
}
func teqT(a, b *Term) *Term {
	if a == b {
		return mkBool(true)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkT("teq", "", 0, tBool, a, b)
}

func eq0T(e *Term) *Term {
	if e.op == "int" {
		return mkBool(e.n == 0)
	}
	e = normLin(e)
	if a, b, k, ok := cmp3Of(e); ok {
		n := int64(0)
		if e.op == "lin" {
			n = e.n
		}
		return cmp3Atom(a, b, func(v int64) bool { return k*v+n == 0 })
	}
	if e.op == "lin" && e.co[0] < 0 {
		e = scaleT(e, -1, e.typ)
	}
	if e.op == "lin" && len(e.a) == 1 && e.co[0] != 1 && e.co[0] != -1 && e.n%e.co[0] != 0 {
		return mkBool(false)
	}
	return mkT("eq0", "", 0, tBool, e)
}

func nonNil(t *Term) bool {
	switch t.op {
	case "alloc", "iface", "closure", "func", "append", "faddr", "iaddr", "global", "mkmap", "mkslice":
		return true
	case "call":
		return t.s == "nonnil"
	case "pure":
		return t.s == "errors.New" || t.s == "fmt.Errorf"
	}
	return false
}

func eqT(a, b *Term) *Term {
	if a == b {
		return mkBool(true)
	}
	if isIntType(a.typ) && isIntType(b.typ) {
		return eq0T(subT(a, b))
	}
	if a.isConst() && b.isConst() {
		if a.op == b.op || a.op == "nil" || b.op == "nil" {
			return mkBool(false)
		}
	}
	if a.op == "nil" && nonNil(b) || b.op == "nil" && nonNil(a) {
		return mkBool(false)
	}
	if a.op == "alloc" && b.op == "alloc" {
		return mkBool(false)
	}
	if isString(a.typ) || isString(b.typ) {
		if a.op == "str" && a.s == "" {
			return eq0T(lenT(b))
		}
		if b.op == "str" && b.s == "" {
			return eq0T(lenT(a))
		}
	}
	if a.op == "bool" {
		if a.n == 1 {
			return b
		}
		return notT(b)
	}
	if b.op == "bool" {
		if b.n == 1 {
			return a
		}
		return notT(a)
	}
	if isTime(a.typ) && isTime(b.typ) {
		return teqT(a, b) // struct equality, read as equality of instants
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkT("eq", "", 0, tBool, a, b)
}

func isTime(t types.Type) bool {
	return t != nil && types.TypeString(t, nil) == "time.Time"
}

// lenT is the length of a value, pushed through the constructors we know.
func lenT(x *Term) *Term {
	switch x.op {
	case "str":
		return mkInt(int64(len(x.s)), nil)
	case "nil":
		return mkInt(0, nil)
	case "append":
		return addN(lenT(x.a[0]), int64(len(x.a)-1))
	case "appendall":
		return addT(lenT(x.a[0]), lenT(x.a[1]), 1, tInt)
	case "slice":
		return subT(x.a[2], x.a[1])
	case "mkslice":
		return x.a[0]
	case "concat":
		r := mkInt(0, nil)
		for _, p := range x.a {
			r = addT(r, lenT(p), 1, tInt)
		}
		return r
	}
	if x.typ != nil {
		u := x.typ.Underlying()
		if p, ok := u.(*types.Pointer); ok {
			u = p.Elem().Underlying()
		}
		if ar, ok := u.(*types.Array); ok {
			return mkInt(ar.Len(), nil)
		}
	}
	return mkT("len", "", 0, tInt, x)
}

func concatT(parts ...*Term) *Term {
	var l []*Term
	var add func(p *Term)
	add = func(p *Term) {
		if p.op == "concat" {
			for _, q := range p.a {
				add(q)
			}
			return
		}
		if p.op == "str" {
			if p.s == "" {
				return
			}
			if len(l) > 0 && l[len(l)-1].op == "str" {
				l[len(l)-1] = mkStr(l[len(l)-1].s + p.s)
				return
			}
		}
		l = append(l, p)
	}
	for _, p := range parts {
		add(p)
	}
	if len(l) == 0 {
		return mkStr("")
	}
	if len(l) == 1 {
		return l[0]
	}
	return mkT("concat", "", 0, tString, l...)
}

// contains reports whether u occurs in t.
func (t *Term) contains(u *Term) bool {
	if t == u {
		return true
	}
	for _, x := range t.a {
		if x.contains(u) {
			return true
		}
	}
	return false
}

func (t *Term) any(f func(*Term) bool) bool {
	if f(t) {
		return true
	}
	for _, x := range t.a {
		if x.any(f) {
			return true
		}
	}
	return false
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 12 {
		return "…"
	}
	args := func() string {
		var l []string
		for _, x := range t.a {
			l = append(l, x.str(d+1))
		}
		return strings.Join(l, ", ")
	}
	switch t.op {
	case "int":
		return strconv.FormatInt(t.n, 10)
	case "str":
		return strconv.Quote(t.s)
	case "bool", "const", "bigint":
		return t.s
	case "nil":
		return "nil"
	case "lin":
		var sb strings.Builder
		for i, x := range t.a {
			c := t.co[i]
			if i > 0 && c > 0 {
				sb.WriteString("+")
			}
			if c == -1 {
				sb.WriteString("-")
			} else if c != 1 {
				fmt.Fprintf(&sb, "%d*", c)
			}
			sb.WriteString(x.str(d + 1))
		}
		if t.n > 0 {
			fmt.Fprintf(&sb, "+%d", t.n)
		} else if t.n < 0 {
			fmt.Fprintf(&sb, "%d", t.n)
		}
		return sb.String()
	case "param":
		return strings.SplitN(t.s, ":", 2)[0]
	case "free":
		return t.s
	case "global":
		return t.s
	case "faddr":
		return "&" + t.a[0].str(d+1) + "." + t.s
	case "iaddr":
		return "&" + t.a[0].str(d+1) + "[" + t.a[1].str(d+1) + "]"
	case "load":
		x := t.a[0]
		v := ""
		if t.n != 0 {
			v = fmt.Sprintf("@%d", t.n)
		}
		s := x.str(d + 1)
		if strings.HasPrefix(s, "&") {
			return s[1:] + v
		}
		return "*" + s + v
	case "field":
		return t.a[0].str(d+1) + "." + t.s
	case "le0":
		return "(" + t.a[0].str(d+1) + " <= 0)"
	case "eq0":
		return "(" + t.a[0].str(d+1) + " == 0)"
	case "eq":
		return "(" + t.a[0].str(d+1) + " == " + t.a[1].str(d+1) + ")"
	case "not":
		return "!" + t.a[0].str(d+1)
	case "tlt":
		return "(" + t.a[0].str(d+1) + " before " + t.a[1].str(d+1) + ")"
	case "teq":
		return "(" + t.a[0].str(d+1) + " same-instant " + t.a[1].str(d+1) + ")"
	case "alloc":
		return fmt.Sprintf("new#%d(%s)", t.n, t.s)
	case "pure":
		return t.s + "(" + args() + ")"
	case "call":
		return fmt.Sprintf("%s#%d", t.s, t.n)
	case "res":
		return fmt.Sprintf("%s.%d", t.a[0].str(d+1), t.n)
	case "iface":
		return t.a[0].str(d + 1)
	case "len":
		return "len(" + args() + ")"
	case "iter":
		return fmt.Sprintf("i%d", t.n)
	case "phi":
		return fmt.Sprintf("φ%d.%s", t.n, t.s)
	}
	s := t.op
	if t.s != "" {
		s += ":" + t.s
	}
	return s + "(" + args() + ")"
}

// paramT is the value a function is given for a parameter.
func paramT(p *ssa.Parameter, i int) *Term {
	return mkT("param", p.Name()+":"+typeName(p.Type()), int64(i), p.Type())
}

var ttBase map[string]*Term

// resetTerms forgets the terms of an earlier check: the type of a term is that of its first use.
func resetTerms() {
	if ttBase == nil {
		ttBase = map[string]*Term{}
		for k, v := range tt.m {
			ttBase[k] = v
		}
	}
	lastInst = 0
	m := map[string]*Term{}
	for k, v := range ttBase {
		m[k] = v
	}
	tt.m = m
}
