package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// table is a list or a map of constants that a package variable holds for good.
type table struct {
	n    int64
	keys int // of a map
	vals []tableVal
	size int64
	typ  types.Type // of the variable
	arr  types.Type // of the array of a list
}

type tableVal struct {
	key   ssa.Value
	index int64
	field int // -1 when the element is a plain value
	strct *types.Struct
	val   ssa.Value
}

// tables finds the package variables that are set once, when the program
// starts, to a literal of constants, and are only read after that.
func (P *Prog) tables() map[*ssa.Global]*table {
	if P.tabs != nil {
		return P.tabs
	}
	P.tabs = map[*ssa.Global]*table{}
	stores := map[*ssa.Global][]*ssa.Store{}
	out := map[*ssa.Global]bool{}
	read := func(v ssa.Value) bool {
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.DebugRef, *ssa.Lookup, *ssa.Range:
				if l, ok := x.(*ssa.Lookup); ok && l.X != v {
					return false
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
					return false
				}
			case *ssa.IndexAddr:
				for _, w := range *x.Referrers() {
					switch y := w.(type) {
					case *ssa.DebugRef:
					case *ssa.UnOp:
						if y.Op != token.MUL {
							return false
						}
					case *ssa.FieldAddr:
						for _, z := range *y.Referrers() {
							if l, ok := z.(*ssa.UnOp); !ok || l.Op != token.MUL {
								return false
							}
						}
					default:
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	seen := map[*ssa.Function]bool{}
	scan := func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if st, ok := i.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						if st.Val == ssa.Value(g) {
							out[g] = true
						}
						stores[g] = append(stores[g], st)
						if f.Name() != "init" || f.Signature.Recv() != nil || f.Parent() != nil {
							out[g] = true
						}
						continue
					}
				}
				for _, op := range i.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					l, ok := i.(*ssa.UnOp)
					if !ok || l.Op != token.MUL || !read(l) {
						out[g] = true
					}
				}
			}
		}
	}
	for _, f := range P.Funcs {
		scan(f)
	}
	for _, p := range P.byPkg {
		scan(p.Func("init"))
	}
	n := int64(0)
	// in a fixed order
	for _, f := range append(append([]*ssa.Function{}, P.Funcs...), P.inits()...) {
		if f.Name() != "init" {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := s.Addr.(*ssa.Global)
				if !ok || out[g] || len(stores[g]) != 1 || P.tabs[g] != nil {
					continue
				}
				n++
				t := &table{n: -1000 - n, typ: s.Val.Type()}
				good := true
				switch v := s.Val.(type) {
				case *ssa.MakeMap:
					for _, u := range *v.Referrers() {
						switch x := u.(type) {
						case *ssa.DebugRef:
						case *ssa.Store:
							good = good && x == s
						case *ssa.MapUpdate:
							k, w := leaf(x.Key), leaf(x.Value)
							if k == nil || w == nil || !constKey(k) {
								good = false
								break
							}
							t.keys++
							t.vals = append(t.vals, tableVal{key: x.Key, val: x.Value, field: -1})
						default:
							good = false
						}
					}
				case *ssa.Slice:
					a, ok := v.X.(*ssa.Alloc)
					if !ok || v.Low != nil || v.High != nil || len(*v.Referrers()) != 1 {
						good = false
						break
					}
					t.arr = a.Type()
					ar, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
					if !ok {
						good = false
						break
					}
					t.size = ar.Len()
					for _, u := range *a.Referrers() {
						x, ok := u.(*ssa.IndexAddr)
						if !ok {
							good = good && u == ssa.Instruction(v)
							continue
						}
						ix, ok := x.Index.(*ssa.Const)
						if !ok {
							good = false
							break
						}
						for _, w := range *x.Referrers() {
							switch y := w.(type) {
							case *ssa.Store:
								l := leaf(y.Val)
								if l == nil || y.Addr != ssa.Value(x) {
									good = false
									break
								}
								t.vals = append(t.vals, tableVal{index: ix.Int64(), field: -1, val: y.Val})
							case *ssa.FieldAddr:
								st, _ := y.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
								for _, z := range *y.Referrers() {
									fs, ok := z.(*ssa.Store)
									if !ok || st == nil || leaf(fs.Val) == nil {
										good = false
										break
									}
									t.vals = append(t.vals, tableVal{index: ix.Int64(), field: y.Field, strct: st, val: fs.Val})
								}
							default:
								good = false
							}
						}
					}
				default:
					good = false
				}
				if good && len(t.vals) > 0 && len(t.vals) <= 64 {
					P.tabs[g] = t
				}
			}
		}
	}
	return P.tabs
}

// leaf is the term of a constant or a function.
func leaf(v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm2(x)
	case *ssa.Function:
		t := mkT("func", x.RelString(nil), 0, x.Type())
		t.x = x
		return t
	}
	return nil
}

func (P *Prog) inits() (l []*ssa.Function) {
	for _, p := range []string{"shared", "journal", "parser", "reporting", "cmd", "main"} {
		if q := P.byPkg[p]; q != nil && q.Func("init") != nil {
			l = append(l, q.Func("init"))
		}
	}
	return
}

// loadTable is the value of a package variable that holds a table.
func (in *interp) loadTable(st *State, t *table) *Term {
	if t.keys > 0 {
		m := mkT("mkmap", "", t.n, t.typ)
		mt := t.typ.Underlying().(*types.Map)
		cls := typeName(t.typ)
		var keys []*Term
		for _, v := range t.vals {
			k := leaf(v.key)
			keys = append(keys, k)
			st.heap[mkT("maddr", cls, 0, mt.Elem(), m, k)] = leaf(v.val)
			st.heap[mkT("mhas", cls, 0, tBool, m, k)] = mkBool(true)
		}
		in.noteLit(st, m, litMap{ver: st.ver["M:"+cls], keys: keys})
		return m
	}
	base := mkT("alloc", "table", t.n, t.arr)
	el := t.typ.Underlying().(*types.Slice).Elem()
	done := mkT("iaddr", "", 0, types.NewPointer(el), base, mkInt(0, nil))
	if _, ok := st.heap[done]; !ok {
		for i := int64(0); i < t.size; i++ {
			in.initAlloc(st, mkT("iaddr", "", 0, types.NewPointer(el), base, mkInt(i, nil)), el)
		}
		for _, v := range t.vals {
			a := mkT("iaddr", "", 0, types.NewPointer(el), base, mkInt(v.index, nil))
			if v.field >= 0 {
				a = faddrT(a, v.strct, v.field)
			}
			st.heap[a] = leaf(v.val)
		}
	}
	return mkT("slice", "", 0, t.typ, base, mkInt(0, nil), mkInt(t.size, nil))
}
