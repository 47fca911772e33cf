package main

import (
	"fmt"
	"go/types"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "math": true, "errors": true,
	"bytes": true, "path": true, "math/bits": true, "github.com/dustin/go-humanize": true,
}

var pureFuncs = map[string]bool{
	"fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true, "fmt.Errorf": true,
	"path/filepath.Clean": true, "path/filepath.Join": true, "path/filepath.Split": true, "path/filepath.IsAbs": true,
	"path/filepath.Dir": true, "path/filepath.Base": true, "path/filepath.Ext": true,
	"regexp.Compile": true, "regexp.MustCompile": true, "regexp.MatchString": true, "regexp.QuoteMeta": true,
	"os.LookupEnv": true, "os.Getenv": true,
	"time.Date": true, "time.Parse": true, "time.ParseInLocation": true, "time.Duration.Hours": true,
}

func isPure(f *ssa.Function) bool {
	name := f.RelString(nil)
	if pureFuncs[name] {
		return true
	}
	var pkg *types.Package
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg
	} else if o := f.Object(); o != nil {
		pkg = o.Pkg()
	}
	if pkg == nil {
		return false
	}
	if pkg.Path() == "strings" || pkg.Path() == "bytes" {
		// methods of Builder, Reader, Buffer have state
		return f.Signature.Recv() == nil
	}
	if purePkgs[pkg.Path()] {
		return true
	}
	if pkg.Path() == "time" && f.Signature.Recv() != nil {
		return true
	}
	if pkg.Path() == "regexp" && f.Signature.Recv() != nil {
		return true
	}
	return false
}

// stripArgs resolves a variadic ...interface{} argument into its elements.
func (in *interp) stripArgs(st *State, args []*Term, sig *types.Signature) []*Term {
	if !sig.Variadic() || len(args) == 0 {
		return args
	}
	last := args[len(args)-1]
	es, ok := in.elems(st, last)
	if !ok {
		return args
	}
	l := append([]*Term{}, args[:len(args)-1]...)
	for _, e := range es {
		if e.op == "iface" {
			e = e.a[0]
		}
		l = append(l, e)
	}
	return l
}

var zeroTime = mkT("zero", "time.Time", 0, nil)

func (in *interp) model(fr *frame, st *State, ins ssa.Instruction, f *ssa.Function, args []*Term, sig *types.Signature) ([]*Term, bool) {
	name := f.RelString(nil)
	one := func(t *Term) ([]*Term, bool) { return []*Term{t}, true }
	switch name {
	case "(time.Time).Before":
		return one(tltT(args[0], args[1]))
	case "(time.Time).After":
		return one(tltT(args[1], args[0]))
	case "(time.Time).Equal":
		return one(teqT(args[0], args[1]))
	case "(time.Time).IsZero":
		return one(teqT(args[0], zeroTerm(sig0(f))))
	case "(time.Time).Compare":
		return one(mkT("cmp3", "", 0, tInt, args[0], args[1]))
	case "strings.EqualFold":
		return one(mkT("pure", name, 0, tBool, args...))
	case "fmt.Sprintf":
		a := in.stripArgs(st, args, sig)
		return one(in.sprintf(a))
	case "fmt.Sprint":
		a := in.stripArgs(st, args, sig)
		if len(a) == 1 && isString(a[0].typ) {
			return one(a[0])
		}
		return one(mkT("pure", name, 0, tString, a...))
	case "strconv.FormatInt":
		if len(args) == 2 && args[1].op == "int" && args[1].n == 10 {
			return one(mkT("itoa", "", 0, tString, args[0]))
		}
	case "strconv.Itoa":
		return one(mkT("itoa", "", 0, tString, args[0]))
	case "(time.Time).Date":
		var rs []*Term
		for i, m := range []string{"Year", "Month", "Day"} {
			rs = append(rs, mkT("pure", "(time.Time)."+m, 0, sig.Results().At(i).Type(), args[0]))
		}
		return rs, true
	case "(time.Time).AddDate":
		if args[1].op == "int" && args[1].n == 0 && args[2].op == "int" && args[2].n == 0 {
			if args[3].op == "int" {
				return one(addDaysT(args[0], args[3].n))
			}
			day := mkT("pure", "(time.Time).Day", 0, tInt, args[0])
			if addT(args[3], day, 1, tInt) == mkInt(1, nil) {
				return one(mkT("monthStart", "", 0, timeType(sig), args[0]))
			}
		}
	case "time.Date":
		if t := dayOf(args, sig); t != nil {
			return one(t)
		}
	case "unicode/utf8.DecodeRune", "unicode/utf8.DecodeRuneInString":
		r := mkT("rune", "", 0, types.Typ[types.Rune], args[0])
		w := mkT("runew", "", 0, tInt, args[0])
		if v, known := st.f.query(le0T(addN(scaleT(lenT(args[0]), -1, tInt), 1))); known && v {
			st.f.addLe(addN(scaleT(w, -1, tInt), 1))
			st.f.addLe(scaleT(r, -1, tInt)) // a decoded rune is never negative
		}
		return []*Term{r, w}, true
	}
	if len(args) == 1 && args[0].op == "int" {
		if p := runePreds[name]; p != nil {
			return one(mkBool(p(rune(args[0].n))))
		}
	}
	if !isPure(f) {
		return nil, false
	}
	a := in.stripArgs(st, args, sig)
	n := sig.Results().Len()
	if n == 0 {
		return nil, true
	}
	if n == 1 {
		return one(mkT("pure", name, 0, sig.Results().At(0).Type(), a...))
	}
	base := mkT("pure", name, 0, nil, a...)
	rs := make([]*Term, n)
	for i := range rs {
		rs[i] = mkT("res", "", int64(i), sig.Results().At(i).Type(), base)
	}
	if isErrorType(sig.Results().At(n - 1).Type()) {
		st.ev = append(st.ev, &Event{kind: "pure", fn: f, name: name, args: a, in: ins, nf: len(st.f.list), stack: in.stack(fr), res: base})
	}
	return rs, true
}

var runePreds = map[string]func(rune) bool{
	"unicode.IsSpace": unicode.IsSpace, "unicode.IsLetter": unicode.IsLetter, "unicode.IsNumber": unicode.IsNumber,
	"unicode.IsDigit": unicode.IsDigit, "unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower,
	"unicode.IsPunct": unicode.IsPunct, "unicode.IsControl": unicode.IsControl,
}

func timeType(sig *types.Signature) types.Type { return sig.Results().At(0).Type() }

func addDaysT(x *Term, n int64) *Term {
	if x.op == "addDays" {
		return addDaysT(x.a[0], x.n+n)
	}
	if n == 0 {
		return x
	}
	return mkT("addDays", "", n, x.typ, x)
}

// dayT is midnight UTC of the calendar day of x.
func dayT(x *Term, typ types.Type) *Term {
	if x.op == "addDays" {
		return addDaysT(dayT(x.a[0], typ), x.n)
	}
	if x.op == "day" {
		return x
	}
	return mkT("day", "", 0, typ, x)
}

// dayOf recognises time.Date(x.Year(), x.Month(), x.Day()[+n], 0, 0, 0, 0, time.UTC)
// and time.Date(x.Year(), x.Month(), 1, 0, 0, 0, 0, time.UTC).
func dayOf(args []*Term, sig *types.Signature) *Term {
	if len(args) != 8 {
		return nil
	}
	for _, z := range args[3:7] {
		if z.op != "int" || z.n != 0 {
			return nil
		}
	}
	if args[7].op != "load" || args[7].a[0].op != "global" || args[7].a[0].s != "time.UTC" {
		return nil
	}
	y, m, d := args[0], args[1], args[2]
	if y.op != "pure" || y.s != "(time.Time).Year" || m.op != "pure" || m.s != "(time.Time).Month" || y.a[0] != m.a[0] {
		return nil
	}
	x := y.a[0]
	if d.op == "int" && d.n == 1 {
		return mkT("monthStart", "", 0, timeType(sig), x)
	}
	k := subT(d, mkT("pure", "(time.Time).Day", 0, tInt, x))
	if k.op != "int" {
		return nil
	}
	return addDaysT(dayT(x, timeType(sig)), k.n)
}

func sig0(f *ssa.Function) types.Type {
	if r := f.Signature.Recv(); r != nil {
		return r.Type()
	}
	return f.Params[0].Type()
}

// sprintf flattens the simple verbs into a concatenation.
func (in *interp) sprintf(a []*Term) *Term {
	if len(a) == 0 || a[0].op != "str" {
		return mkT("pure", "fmt.Sprintf", 0, tString, a...)
	}
	fm := a[0].s
	args := a[1:]
	var parts []*Term
	lit := ""
	flush := func() {
		if lit != "" {
			parts = append(parts, mkStr(lit))
			lit = ""
		}
	}
	ai := 0
	for i := 0; i < len(fm); i++ {
		if fm[i] != '%' {
			lit += string(fm[i])
			continue
		}
		j := i + 1
		for j < len(fm) && strings.IndexByte("+-# 0123456789.", fm[j]) >= 0 {
			j++
		}
		if j >= len(fm) {
			return mkT("pure", "fmt.Sprintf", 0, tString, a...)
		}
		if fm[j] == '%' && j == i+1 {
			lit += "%"
			i = j
			continue
		}
		if ai >= len(args) || fm[j] == '[' || fm[j] == '*' {
			return mkT("pure", "fmt.Sprintf", 0, tString, a...)
		}
		flush()
		x := args[ai]
		ai++
		flags := fm[i+1 : j]
		verb := fm[j]
		i = j
		switch {
		case flags == "" && (verb == 's' || verb == 'v') && isString(x.typ):
			parts = append(parts, x)
		case flags == "" && (verb == 'd' || verb == 'v') && isIntType(x.typ):
			parts = append(parts, mkT("itoa", "", 0, tString, x))
		default:
			parts = append(parts, mkT("fmt", "%"+flags+string(verb), 0, tString, x))
		}
	}
	flush()
	if ai != len(args) {
		return mkT("pure", "fmt.Sprintf", 0, tString, a...)
	}
	return concatT(parts...)
}

// ---- what a function may write ----

var modCache = map[*Prog]map[*ssa.Function]map[string]bool{}

func addrClass(P *Prog, v ssa.Value) []string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		st := x.X.Type().Underlying().(*types.Pointer).Elem()
		s := st.Underlying().(*types.Struct)
		return append([]string{}, classesOfField(P, typeName(st), s.Field(x.Field))...)
	case *ssa.IndexAddr:
		if p, ok := x.Type().Underlying().(*types.Pointer); ok {
			return append([]string{"E:" + typeName(p.Elem())}, wholeClasses(P, p.Elem())...)
		}
	case *ssa.Global:
		return []string{"G:" + x.Pkg.Pkg.Name() + "." + x.Name()}
	case *ssa.Alloc:
		// a captured variable is visible to the closures
		p := x.Type().Underlying().(*types.Pointer)
		return append([]string{"P:" + typeName(p.Elem())}, wholeClasses(P, p.Elem())...)
	}
	if p, ok := v.Type().Underlying().(*types.Pointer); ok {
		return append([]string{"P:" + typeName(p.Elem())}, wholeClasses(P, p.Elem())...)
	}
	return nil
}

func classesOfField(P *Prog, st string, f *types.Var) []string {
	l := []string{"F:" + st + "." + f.Name()}
	return append(l, wholeClasses(P, f.Type())...)
}

func wholeClasses(P *Prog, t types.Type) []string {
	in := &interp{P: P}
	s, ok := in.explodes(t)
	if !ok {
		return nil
	}
	var l []string
	for i := 0; i < s.NumFields(); i++ {
		l = append(l, classesOfField(P, typeName(t), s.Field(i))...)
	}
	return l
}

func (P *Prog) modSets() map[*ssa.Function]map[string]bool {
	if m, ok := modCache[P]; ok {
		return m
	}
	m := map[*ssa.Function]map[string]bool{}
	modCache[P] = m
	deps := map[*ssa.Function][]*ssa.Function{}
	dyn := map[*ssa.Function][]*types.Signature{}
	for _, f := range P.Funcs {
		s := map[string]bool{}
		m[f] = s
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Store:
					for _, c := range addrClass(P, x.Addr) {
						s[c] = true
					}
				case *ssa.MapUpdate:
					s["M:"+typeName(x.Map.Type())] = true
				}
				if c, ok := i.(ssa.CallInstruction); ok {
					cc := c.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "delete":
							s["M:"+typeName(cc.Args[0].Type())] = true
						case "copy":
							if sl, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
								s["E:"+typeName(sl.Elem())] = true
							}
						}
					} else if g := cc.StaticCallee(); g != nil {
						if P.inRepo(g) {
							deps[f] = append(deps[f], g)
						} else if strings.HasPrefix(g.RelString(nil), "sort.") {
							for _, a := range cc.Args {
								t := a.Type()
								if mi, ok := a.(*ssa.MakeInterface); ok {
									t = mi.X.Type()
								}
								if sl, ok := t.Underlying().(*types.Slice); ok {
									s["E:"+typeName(sl.Elem())] = true
								}
							}
						}
					} else {
						dyn[f] = append(dyn[f], cc.Signature())
					}
				}
				var ops []*ssa.Value
				for _, op := range i.Operands(ops) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok && P.inRepo(g) {
						deps[f] = append(deps[f], g)
					}
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range P.Funcs {
			n := len(m[f])
			for _, g := range deps[f] {
				for c := range m[g] {
					m[f][c] = true
				}
				// synthetic wrappers have no entry: look through them
				if m[g] == nil {
					for _, h := range calleesOfWrapper(g) {
						for c := range m[h] {
							m[f][c] = true
						}
					}
				}
			}
			for _, sg := range dyn[f] {
				for c := range P.dynModsFrom(m, sg) {
					m[f][c] = true
				}
			}
			if len(m[f]) != n {
				ch = true
			}
		}
	}
	return m
}

func calleesOfWrapper(g *ssa.Function) []*ssa.Function {
	var l []*ssa.Function
	for _, b := range g.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok {
				if h := c.Common().StaticCallee(); h != nil {
					l = append(l, h)
				}
			}
		}
	}
	return l
}

func sigKey(s *types.Signature) string {
	k := "("
	for i := 0; i < s.Params().Len(); i++ {
		k += types.TypeString(s.Params().At(i).Type(), nil) + ","
	}
	k += ")"
	for i := 0; i < s.Results().Len(); i++ {
		k += types.TypeString(s.Results().At(i).Type(), nil) + ","
	}
	if s.Variadic() {
		k += "..."
	}
	return k
}

// dynTargets are the functions a call through a value of this type may reach.
func (P *Prog) dynTargets(sig *types.Signature) []*ssa.Function {
	k := sigKey(sig)
	var l []*ssa.Function
	for _, f := range P.Funcs {
		if (P.taken[f] || f.Parent() != nil) && sigKey(f.Signature) == k {
			l = append(l, f)
		}
	}
	return l
}

func (P *Prog) dynModsFrom(m map[*ssa.Function]map[string]bool, sig *types.Signature) map[string]bool {
	r := map[string]bool{}
	for _, f := range P.dynTargets(sig) {
		for c := range m[f] {
			r[c] = true
		}
	}
	return r
}

func (P *Prog) dynMods(sig *types.Signature) map[string]bool { return P.dynModsFrom(P.modSets(), sig) }

// ---- functions that never return a non-nil error / a nil pointer ----

var infCache = map[*Prog]map[*ssa.Function]bool{}
var nnCache = map[*Prog]map[*ssa.Function]bool{}

func errIndex(f *ssa.Function) int {
	r := f.Signature.Results()
	for i := 0; i < r.Len(); i++ {
		if isErrorType(r.At(i).Type()) {
			return i
		}
	}
	return -1
}

func origins(v ssa.Value, seen map[ssa.Value]bool) []ssa.Value {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		var l []ssa.Value
		for _, e := range x.Edges {
			l = append(l, origins(e, seen)...)
		}
		return l
	case *ssa.ChangeInterface:
		return origins(x.X, seen)
	case *ssa.ChangeType:
		return origins(x.X, seen)
	}
	return []ssa.Value{v}
}

// infallible computes the functions whose error result is always nil
// (greatest fixpoint over the call graph).
func (P *Prog) infallible() map[*ssa.Function]bool {
	if m, ok := infCache[P]; ok {
		return m
	}
	m := map[*ssa.Function]bool{}
	infCache[P] = m
	for _, f := range P.Funcs {
		if errIndex(f) >= 0 {
			m[f] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for f := range m {
			ei := errIndex(f)
			ok := true
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					r, isR := i.(*ssa.Return)
					if !isR || ei >= len(r.Results) {
						continue
					}
					for _, o := range origins(r.Results[ei], map[ssa.Value]bool{}) {
						if c, isC := o.(*ssa.Const); isC && c.Value == nil {
							continue
						}
						var call *ssa.Call
						if e, isE := o.(*ssa.Extract); isE {
							call, _ = e.Tuple.(*ssa.Call)
						} else {
							call, _ = o.(*ssa.Call)
						}
						if call != nil {
							if g := call.Call.StaticCallee(); g != nil && m[g] {
								continue
							}
						}
						ok = false
					}
				}
			}
			if !ok {
				delete(m, f)
				ch = true
			}
		}
	}
	return m
}

// neverNil computes the functions whose single pointer result is never nil.
func (P *Prog) neverNil() map[*ssa.Function]bool {
	if m, ok := nnCache[P]; ok {
		return m
	}
	m := map[*ssa.Function]bool{}
	nnCache[P] = m
	for _, f := range P.Funcs {
		if f.Signature.Results().Len() == 1 && isPtr(f.Signature.Results().At(0).Type()) && len(f.Blocks) > 0 {
			m[f] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for f := range m {
			ok := true
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					r, isR := i.(*ssa.Return)
					if !isR {
						continue
					}
					for _, o := range origins(r.Results[0], map[ssa.Value]bool{}) {
						switch x := o.(type) {
						case *ssa.Alloc:
							continue
						case *ssa.Parameter:
							// the receiver of a method is not nil
							if f.Signature.Recv() != nil && x == f.Params[0] {
								continue
							}
						case *ssa.Call:
							if g := x.Call.StaticCallee(); g != nil && m[g] {
								continue
							}
						}
						ok = false
					}
				}
			}
			if !ok {
				delete(m, f)
				ch = true
			}
		}
	}
	return m
}

// ---- access paths ----

// path renders where a value comes from, without versions: "p0.Postings[i].Amount".
func path(t *Term) string { return pathD(t, 0) }

func pathD(t *Term, d int) string {
	if t == nil {
		return "?"
	}
	if d > 14 {
		return "…"
	}
	switch t.op {
	case "param":
		return fmt.Sprintf("p%d", t.n)
	case "free":
		return t.s
	case "global":
		return t.s
	case "faddr":
		return pathD(t.a[0], d+1) + "." + t.s
	case "field":
		return pathD(t.a[0], d+1) + "." + t.s
	case "iaddr", "elem":
		i := "[i]"
		if t.a[1].op == "int" {
			i = fmt.Sprintf("[%d]", t.a[1].n)
		}
		return pathD(t.a[0], d+1) + i
	case "load":
		if t.a[0].op == "maddr" {
			return pathD(t.a[0].a[0], d+1) + "[" + pathD(t.a[0].a[1], d+1) + "]"
		}
		return pathD(t.a[0], d+1)
	case "rangeval", "rangerune":
		return pathD(t.a[0], d+1) + "[i]"
	case "rangekey":
		return pathD(t.a[0], d+1) + "[key]"
	case "struct":
		// all fields loaded from one place
		var base string
		ok := len(t.a) > 0
		for i, f := range t.a {
			p := pathD(f, d+1)
			j := strings.LastIndexByte(p, '.')
			if f.op == "struct" || j < 0 {
				if f.op == "struct" && j >= 0 {
				} else {
					ok = false
					break
				}
			}
			if i == 0 {
				base = p[:j]
			} else if p[:j] != base {
				ok = false
				break
			}
		}
		if ok {
			return base
		}
		return "struct"
	case "iface":
		return pathD(t.a[0], d+1)
	case "conv":
		return t.s + "(" + pathD(t.a[0], d+1) + ")"
	case "pure", "len", "call", "append", "itoa", "concat", "slice", "lin", "le0", "eq0", "eq", "tlt", "teq", "not":
		if t.op == "lin" {
			return t.String()
		}
		var l []string
		for _, x := range t.a {
			l = append(l, pathD(x, d+1))
		}
		n := t.s
		if t.op != "pure" && t.op != "call" {
			n = t.op
		}
		return n + "(" + strings.Join(l, ",") + ")"
	case "res":
		return fmt.Sprintf("%s#%d", pathD(t.a[0], d+1), t.n)
	}
	return t.String()
}
