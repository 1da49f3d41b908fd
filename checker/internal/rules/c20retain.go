package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// ---- slices of a caller kept in an object and later written through it ----

type fieldKey struct {
	typ   *types.TypeName
	index int
}

func (k fieldKey) String() string {
	st := k.typ.Type().Underlying().(*types.Struct)
	return k.typ.Name() + "." + st.Field(k.index).Name()
}

func fieldOf(fa *ssa.FieldAddr) (fieldKey, bool) {
	p, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return fieldKey{}, false
	}
	n := namedOf(p.Elem())
	if n == nil {
		return fieldKey{}, false
	}
	return fieldKey{n.Origin().Obj(), fa.Field}, true
}

// retention finds, per function, which slice parameters end up in which fields
// and which fields have elements of their slice written.
type retention struct {
	e       *effects
	kept    map[*ssa.Function]map[int]map[fieldKey]token.Pos
	returns map[*ssa.Function]map[int]bool // parameters whose slice the function may return
	written map[fieldKey]token.Pos
}

// backing: the parameters and fields whose backing array a slice value may share.
func (r *retention) backing(f *ssa.Function, v ssa.Value, seen map[ssa.Value]bool) (params map[int]bool, fields map[fieldKey]bool) {
	params, fields = map[int]bool{}, map[fieldKey]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Parameter:
			if _, ok := x.Type().Underlying().(*types.Slice); ok {
				for i, p := range f.Params {
					if p == x {
						params[i] = true
					}
				}
			}
		case *ssa.Phi:
			for _, y := range x.Edges {
				walk(y)
			}
		case *ssa.Slice:
			if !capped(x) {
				walk(x.X)
			}
		case *ssa.ChangeType:
			walk(x.X)
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return
			}
			switch a := x.X.(type) {
			case *ssa.FieldAddr:
				if k, ok := fieldOf(a); ok {
					fields[k] = true
				}
			case *ssa.Alloc: // a local variable
				for _, u := range *a.Referrers() {
					if s, ok := u.(*ssa.Store); ok && s.Addr == a {
						walk(s.Val)
					}
				}
			}
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok {
				walk(c)
			}
		case *ssa.Call:
			args := callArgs(&x.Call)
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "append" && !(capped(args[0]) && len(args) > 1) {
					walk(args[0])
				}
				return
			}
			for _, g := range r.e.callees(&x.Call) {
				for i := range r.returns[g] {
					if i < len(args) {
						walk(args[i])
					}
				}
			}
		}
	}
	walk(v)
	return
}

func newRetention(e *effects) *retention {
	r := &retention{e: e, kept: map[*ssa.Function]map[int]map[fieldKey]token.Pos{}, returns: map[*ssa.Function]map[int]bool{}, written: map[fieldKey]token.Pos{}}
	slice := func(v ssa.Value) bool {
		_, ok := v.Type().Underlying().(*types.Slice)
		return ok
	}
	for changed := true; changed; {
		changed = false
		keep := func(f *ssa.Function, i int, k fieldKey, pos token.Pos) {
			if r.kept[f] == nil {
				r.kept[f] = map[int]map[fieldKey]token.Pos{}
			}
			if r.kept[f][i] == nil {
				r.kept[f][i] = map[fieldKey]token.Pos{}
			}
			if _, ok := r.kept[f][i][k]; !ok {
				r.kept[f][i][k] = pos
				changed = true
			}
		}
		wr := func(f *ssa.Function, v ssa.Value, pos token.Pos) {
			_, fields := r.backing(f, v, map[ssa.Value]bool{})
			for k := range fields {
				if _, ok := r.written[k]; !ok {
					r.written[k] = pos
					changed = true
				}
			}
		}
		for _, f := range e.fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Store:
						if fa, ok := x.Addr.(*ssa.FieldAddr); ok && slice(x.Val) {
							if k, ok := fieldOf(fa); ok {
								ps, _ := r.backing(f, x.Val, map[ssa.Value]bool{})
								for i := range ps {
									keep(f, i, k, x.Pos())
								}
							}
						}
						a := x.Addr
						for {
							if fa, ok := a.(*ssa.FieldAddr); ok {
								a = fa.X
								continue
							}
							break
						}
						if ia, ok := a.(*ssa.IndexAddr); ok && slice(ia.X) {
							wr(f, ia.X, x.Pos())
						}
					case *ssa.Return:
						for _, v := range x.Results {
							if !slice(v) {
								continue
							}
							ps, _ := r.backing(f, v, map[ssa.Value]bool{})
							for i := range ps {
								if r.returns[f] == nil {
									r.returns[f] = map[int]bool{}
								}
								if !r.returns[f][i] {
									r.returns[f][i] = true
									changed = true
								}
							}
						}
					case ssa.CallInstruction:
						c := x.Common()
						args := callArgs(c)
						if bt, ok := c.Value.(*ssa.Builtin); ok {
							switch bt.Name() {
							case "copy", "clear":
								if slice(args[0]) {
									wr(f, args[0], c.Pos())
								}
							case "append":
								if len(args) > 1 && !capped(args[0]) && !emptyConst(args[1]) {
									wr(f, args[0], c.Pos())
								}
							}
							continue
						}
						for _, g := range e.callees(c) {
							for j, ks := range r.kept[g] {
								if j >= len(args) || !slice(args[j]) {
									continue
								}
								ps, _ := r.backing(f, args[j], map[ssa.Value]bool{})
								for i := range ps {
									for k, pos := range ks {
										keep(f, i, k, pos)
									}
								}
							}
							sm := e.sum[g]
							if sm == nil {
								continue
							}
							for _, w := range sm.writes {
								if w.o.k == oParam && w.elem && w.o.i < len(args) && slice(args[w.o.i]) {
									wr(f, args[w.o.i], w.pos)
								}
							}
						}
					}
				}
			}
		}
	}
	return r
}

// violation: a slice argument of the function is kept in a field whose elements
// are written somewhere.
func (r *retention) violation(c *Ctx, f *ssa.Function) string {
	var out []string
	for i, ks := range r.kept[f] {
		if i == 0 && f.Signature.Recv() != nil {
			continue
		}
		for k, pos := range ks {
			if w, ok := r.written[k]; ok {
				out = append(out, fmt.Sprintf("keeps its argument %s in %s at %s, and that slice is written at %s", f.Params[i].Name(), k, c.Prog.Pos(pos), c.Prog.Pos(w)))
			}
		}
	}
	sort.Strings(out)
	if len(out) == 0 {
		return ""
	}
	return out[0]
}
