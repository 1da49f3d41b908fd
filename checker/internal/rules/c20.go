package rules

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"zkcheck/internal/flow"
	"zkcheck/internal/load"
)

// ---- effect analysis: which memory of its callers may a function write ----

type originKind byte

const (
	oParam originKind = iota
	oGlobal
	oFree
	oAlloc
)

type origin struct {
	k originKind
	i int
	v ssa.Value // global or allocation
}

type oset map[origin]bool

func (s oset) add(t oset) bool {
	ch := false
	for o := range t {
		if !s[o] {
			s[o] = true
			ch = true
		}
	}
	return ch
}

// effect is one possible write.
type effect struct {
	o    origin
	elem bool // an element of a slice or map (not only a field behind a pointer)
	pos  token.Pos
	fn   *ssa.Function // function containing the write
	what string
}

type summary struct {
	writes map[string]*effect
	rets   []oset
	held   oset // what the function may leave in memory reachable from its parameters
}

type effects struct {
	prog *load.Program
	fns  []*ssa.Function
	sum  map[*ssa.Function]*summary
	impl map[string][]*ssa.Function // method name -> repository methods
	ext  map[string]int             // external functions assumed not to write
}

func inRepoPkg(f *ssa.Function) string {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return strings.TrimPrefix(g.Pkg.Pkg.Path(), load.Module+"/")
		}
		if o := g.Origin(); o != nil && o.Pkg != nil {
			return strings.TrimPrefix(o.Pkg.Pkg.Path(), load.Module+"/")
		}
	}
	return ""
}

func repoFunc(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		p := g.Pkg
		if p == nil && g.Origin() != nil {
			p = g.Origin().Pkg
		}
		if p != nil {
			return strings.HasPrefix(p.Pkg.Path(), load.Module)
		}
		if r := g.Signature.Recv(); r != nil {
			if n := namedOf(r.Type()); n != nil && n.Obj().Pkg() != nil {
				return strings.HasPrefix(n.Obj().Pkg().Path(), load.Module)
			}
		}
	}
	return false
}

// hasRefs: values of the type can reach memory.
func hasRefs(t types.Type, depth int) bool {
	if depth > 8 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRefs(u.Field(i).Type(), depth+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasRefs(u.Elem(), depth+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasRefs(u.At(i).Type(), depth+1) {
				return true
			}
		}
		return false
	}
	return true
}

// opaqueRef: interface values that stand for immutable things (circuit
// variables, errors, builders).
func isFrontendVar(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		if a, isA := t.(*types.Alias); isA {
			return isFrontendVar(types.Unalias(a)) || a.Obj().Name() == "Variable"
		}
		return false
	}
	return n.Obj().Name() == "Variable" || n.Obj().Name() == "API" || n.Obj().Name() == "error"
}

type fnState struct {
	e       *effects
	f       *ssa.Function
	val     map[ssa.Value]oset
	content map[ssa.Value]oset // allocation -> what is stored in it
	elem    map[ssa.Value]bool // the address goes through a slice element or a map
	s       *summary
	changed bool
}

func (e *effects) analyse(f *ssa.Function) bool {
	st := &fnState{e: e, f: f, val: map[ssa.Value]oset{}, content: map[ssa.Value]oset{}, elem: map[ssa.Value]bool{}, s: e.sum[f]}
	if st.s.rets == nil {
		for i := 0; i < f.Signature.Results().Len(); i++ {
			st.s.rets = append(st.s.rets, oset{})
		}
	}
	before := st.size()
	for round := 0; round < 40; round++ {
		st.changed = false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st.instr(in)
			}
		}
		if !st.changed {
			break
		}
	}
	return st.size() != before
}

func (st *fnState) size() int {
	n := len(st.s.writes)*1000 + len(st.s.held)
	for _, r := range st.s.rets {
		n += len(r)
	}
	return n
}

func (st *fnState) get(v ssa.Value) oset {
	switch x := v.(type) {
	case *ssa.Parameter:
		if !hasRefs(x.Type(), 0) {
			return nil
		}
		for i, p := range st.f.Params {
			if p == x {
				return oset{origin{k: oParam, i: i}: true}
			}
		}
	case *ssa.FreeVar:
		for i, p := range st.f.FreeVars {
			if p == x {
				return oset{origin{k: oFree, i: i}: true}
			}
		}
	case *ssa.Global:
		return oset{origin{k: oGlobal, v: x}: true}
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return nil
	}
	return st.val[v]
}

func (st *fnState) set(v ssa.Value, s oset) {
	if len(s) == 0 || !hasRefs(v.Type(), 0) {
		return
	}
	c := st.val[v]
	if c == nil {
		c = oset{}
		st.val[v] = c
	}
	if c.add(s) {
		st.changed = true
	}
}

func (st *fnState) markElem(v ssa.Value, b bool) {
	if b && !st.elem[v] {
		st.elem[v] = true
		st.changed = true
	}
}

// load: what may be found in memory at the origins.
func (st *fnState) load(s oset) oset {
	out := oset{}
	for o := range s {
		if o.k == oAlloc {
			out.add(st.content[o.v])
			// memory inside the allocation itself (nested arrays)
			continue
		}
		out[o] = true
	}
	return out
}

func (st *fnState) store(at oset, v oset) {
	for o := range at {
		if o.k == oAlloc {
			c := st.content[o.v]
			if c == nil {
				c = oset{}
				st.content[o.v] = c
			}
			if c.add(v) {
				st.changed = true
			}
		}
	}
}

func (st *fnState) write(at oset, elem bool, pos token.Pos, fn *ssa.Function, what string) {
	for o := range at {
		if o.k == oAlloc {
			continue
		}
		key := fmt.Sprintf("%d/%d/%v/%v", o.k, o.i, o.v, elem)
		if st.s.writes[key] == nil {
			st.s.writes[key] = &effect{o: o, elem: elem, pos: pos, fn: fn, what: what}
			st.changed = true
		}
	}
}

func (st *fnState) instr(in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		st.set(x, oset{origin{k: oAlloc, v: x}: true})
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		v := x.(ssa.Value)
		st.set(v, oset{origin{k: oAlloc, v: v}: true})
	case *ssa.MakeClosure:
		g := x.Fn.(*ssa.Function)
		sm := st.e.sum[g]
		if sm != nil {
			for _, w := range sm.writes {
				switch w.o.k {
				case oFree:
					st.write(st.get(x.Bindings[w.o.i]), w.elem, w.pos, w.fn, w.what)
				case oGlobal:
					st.write(oset{w.o: true}, w.elem, w.pos, w.fn, w.what)
				}
			}
			for i := range g.FreeVars {
				// anything the closure holds may end up in the captured memory
				st.store(st.get(x.Bindings[i]), mapOrigins(sm.held, nil, x.Bindings, st))
			}
		}
		all := oset{}
		for _, b := range x.Bindings {
			all.add(st.get(b))
		}
		st.set(x, all)
	case *ssa.FieldAddr:
		st.set(x, st.get(x.X))
		st.markElem(x, st.elem[x.X])
	case *ssa.IndexAddr:
		_, isSlice := x.X.Type().Underlying().(*types.Slice)
		s := st.get(x.X)
		st.set(x, s)
		st.markElem(x, isSlice || st.elem[x.X])
	case *ssa.Field:
		st.set(x, st.get(x.X))
	case *ssa.Index:
		st.set(x, st.get(x.X))
	case *ssa.Lookup:
		st.set(x, st.load(st.get(x.X)))
	case *ssa.UnOp:
		if x.Op == token.MUL {
			st.set(x, st.load(st.get(x.X)))
			st.markElem(x, st.elem[x.X])
		}
	case *ssa.Phi:
		for _, v := range x.Edges {
			st.set(x, st.get(v))
			st.markElem(x, st.elem[v])
		}
	case *ssa.Slice:
		st.set(x, st.get(x.X))
		st.markElem(x, st.elem[x.X])
	case *ssa.Convert:
		_, fromS := x.X.Type().Underlying().(*types.Basic)
		_, toS := x.Type().Underlying().(*types.Basic)
		if !fromS && !toS {
			st.set(x, st.get(x.X))
		} else if !fromS || !toS {
			st.set(x, oset{origin{k: oAlloc, v: x}: true})
		}
	case *ssa.ChangeType:
		st.set(x, st.get(x.X))
		st.markElem(x, st.elem[x.X])
	case *ssa.ChangeInterface:
		st.set(x, st.get(x.X))
	case *ssa.SliceToArrayPointer:
		st.set(x, st.get(x.X))
		st.markElem(x, true)
	case *ssa.MakeInterface:
		st.set(x, st.get(x.X))
		st.markElem(x, st.elem[x.X])
	case *ssa.TypeAssert:
		st.set(x, st.get(x.X))
		st.markElem(x, st.elem[x.X])
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			st.set(x, st.callRets(c, x.Index))
		} else {
			st.set(x, st.get(x.Tuple))
		}
	case *ssa.Range:
		st.set(x, st.get(x.X))
	case *ssa.Next:
		st.set(x, st.load(st.get(x.Iter)))
	case *ssa.Store:
		at := st.get(x.Addr)
		st.write(at, st.elem[x.Addr], x.Pos(), st.f, "assigns")
		if hasRefs(x.Val.Type(), 0) {
			st.store(at, st.get(x.Val))
			st.hold(at, st.get(x.Val))
		}
	case *ssa.MapUpdate:
		at := st.get(x.Map)
		st.write(at, true, x.Pos(), st.f, "assigns")
		st.store(at, st.get(x.Value))
		st.store(at, st.get(x.Key))
		st.hold(at, st.get(x.Value))
	case *ssa.Return:
		for i, r := range x.Results {
			if st.s.rets[i].add(st.outer(st.get(r))) {
				st.changed = true
			}
		}
	case *ssa.Call:
		st.call(x, &x.Call)
		if x.Call.Signature().Results().Len() == 1 {
			st.set(x, st.callRets(x, 0))
		}
	case *ssa.Defer:
		st.call(nil, &x.Call)
	case *ssa.Go:
		st.call(nil, &x.Call)
	}
}

// outer: origins meaningful to the caller, including what local memory holds.
func (st *fnState) outer(s oset) oset {
	out := oset{}
	seen := map[ssa.Value]bool{}
	var walk func(oset)
	walk = func(s oset) {
		for o := range s {
			if o.k != oAlloc {
				out[o] = true
			} else if !seen[o.v] {
				seen[o.v] = true
				walk(st.content[o.v])
			}
		}
	}
	walk(s)
	return out
}

func (st *fnState) hold(at, v oset) {
	for o := range at {
		if o.k != oAlloc {
			if st.s.held.add(st.outer(v)) {
				st.changed = true
			}
			return
		}
	}
}

func mapOrigins(s oset, args []ssa.Value, bindings []ssa.Value, st *fnState) oset {
	out := oset{}
	for o := range s {
		switch o.k {
		case oGlobal:
			out[o] = true
		case oParam:
			if o.i < len(args) {
				out.add(st.get(args[o.i]))
			}
		case oFree:
			if o.i < len(bindings) {
				out.add(st.get(bindings[o.i]))
			}
		}
	}
	return out
}

// callees: repository functions a call may reach.
func (e *effects) callees(c *ssa.CallCommon) []*ssa.Function {
	if f := c.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	if c.IsInvoke() {
		var out []*ssa.Function
		for _, m := range e.impl[c.Method.Name()] {
			if iface, ok := c.Value.Type().Underlying().(*types.Interface); ok && types.Implements(m.Signature.Recv().Type(), iface) {
				out = append(out, m)
			}
		}
		return out
	}
	return nil
}

func callArgs(c *ssa.CallCommon) []ssa.Value {
	if c.IsInvoke() {
		return append([]ssa.Value{c.Value}, c.Args...)
	}
	return c.Args
}

func bindingsOf(c *ssa.CallCommon) []ssa.Value {
	if m, ok := c.Value.(*ssa.MakeClosure); ok {
		return m.Bindings
	}
	return nil
}

var readOnlyMethod = map[string]bool{"Bytes": true, "String": true, "Text": true, "Cmp": true, "CmpAbs": true, "Sign": true, "BitLen": true, "Bit": true, "Uint64": true, "Int64": true, "IsInt64": true, "IsUint64": true, "FillBytes": true,
	"TrailingZeroBits": true, "ProbablyPrime": true, "Append": true, "Format": true, "Bits": true, "BigInt": true, "ToBigIntRegular": true, "IsZero": true, "IsOne": true, "Equal": true, "Marshal": true, "RawBytes": true, "MarshalText": true, "MarshalJSON": true, "IsOnCurve": true, "IsInfinity": true, "IsInSubGroup": true, "Legendre": true, "Regular": true, "ToRegular": true, "NotEqual": true, "FitsOnOneWord": true, "Halve": false, "Size": true, "BlockSize": true, "LexicographicallyLargest": true, "Float64": true, "GobEncode": true}

// extWrites: the arguments an external function writes through.
func extWrites(f *types.Func, name string) []int {
	sig := f.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		n := namedOf(r.Type())
		if n == nil || n.Obj().Pkg() == nil {
			return nil
		}
		pk := n.Obj().Pkg().Path()
		_, ptr := r.Type().(*types.Pointer)
		switch {
		case pk == "math/big":
			if f.Name() == "FillBytes" {
				return []int{1}
			}
			if !readOnlyMethod[f.Name()] {
				w := []int{0}
				switch f.Name() {
				case "DivMod", "QuoRem":
					w = append(w, 3)
				case "GCD":
					w = append(w, 1, 2)
				}
				return w
			}
		case strings.Contains(pk, "gnark-crypto/") && ptr && !readOnlyMethod[f.Name()]:
			if strings.HasPrefix(f.Name(), "BigInt") {
				return []int{1}
			}
			return []int{0}
		case strings.HasPrefix(pk, "encoding/binary") && strings.HasPrefix(f.Name(), "Put"):
			return []int{1}
		case pk == "sync" && (n.Obj().Name() == "Map" || n.Obj().Name() == "Pool"), pk == "sync/atomic", strings.HasPrefix(pk, "container/"):
			switch f.Name() {
			case "Load", "Range", "Len", "Front", "Back", "Next", "Prev":
			default:
				return []int{0}
			}
		}
		return nil
	}
	if f.Pkg() == nil {
		return nil
	}
	switch p := f.Pkg().Path(); {
	case p == "sort" && !strings.HasPrefix(f.Name(), "Search") && !strings.Contains(f.Name(), "AreSorted") && !strings.HasSuffix(f.Name(), "IsSorted"):
		return []int{0}
	case p == "slices" || p == "golang.org/x/exp/slices":
		switch n := f.Name(); {
		case n == "Sorted", n == "SortedFunc", n == "SortedStableFunc":
		case strings.HasPrefix(n, "Sort"), n == "Reverse", n == "Insert", n == "Replace", strings.HasPrefix(n, "Delete"), strings.HasPrefix(n, "Compact"):
			return []int{0}
		}
	case p == "maps" || p == "golang.org/x/exp/maps":
		switch f.Name() {
		case "Copy", "DeleteFunc", "Insert", "Clear":
			return []int{0}
		}
	case p == "sync/atomic" && !strings.HasPrefix(f.Name(), "Load"):
		return []int{0}
	case p == "encoding/binary" && strings.HasPrefix(f.Name(), "Put"):
		return []int{0}
	case p == "encoding/hex" && (f.Name() == "Encode" || f.Name() == "Decode"):
		return []int{0}
	case p == "io" && strings.HasPrefix(f.Name(), "ReadFull"):
		return []int{1}
	case p == "encoding/json" && f.Name() == "Unmarshal":
		return []int{1}
	}
	return nil
}

func (st *fnState) call(v *ssa.Call, c *ssa.CallCommon) {
	args := callArgs(c)
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "copy":
			st.write(st.get(args[0]), true, c.Pos(), st.f, "copies into")
			if sl, ok := args[0].Type().Underlying().(*types.Slice); ok && hasRefs(sl.Elem(), 0) {
				st.store(st.get(args[0]), st.load(st.get(args[1])))
			}
		case "append":
			// spare room behind the first argument is written in place,
			// unless the argument's capacity was cut to its length
			if len(args) > 1 && !capped(args[0]) && !emptyConst(args[1]) {
				st.write(st.get(args[0]), true, c.Pos(), st.f, "appends into the spare room of")
			}
		case "delete", "clear":
			st.write(st.get(args[0]), true, c.Pos(), st.f, "clears")
		}
		return
	}
	fs := st.e.callees(c)
	for _, f := range fs {
		sm := st.e.sum[f]
		if sm == nil {
			if o, ok := f.Object().(*types.Func); ok {
				for _, i := range extWrites(o, f.String()) {
					if i < len(args) {
						st.write(st.get(args[i]), st.elem[args[i]] || !isPtr(args[i].Type()), c.Pos(), st.f, "lets "+f.RelString(nil)+" change")
					}
				}
				st.e.ext[f.RelString(nil)]++
			}
			continue
		}
		for _, w := range sm.writes {
			switch w.o.k {
			case oGlobal:
				st.write(oset{w.o: true}, w.elem, w.pos, w.fn, w.what)
			case oParam:
				if w.o.i < len(args) {
					a := args[w.o.i]
					st.write(st.get(a), w.elem || st.elem[a], w.pos, w.fn, w.what)
				}
			case oFree:
				if bs := bindingsOf(c); w.o.i < len(bs) {
					st.write(st.get(bs[w.o.i]), w.elem, w.pos, w.fn, w.what)
				}
			}
		}
		if len(sm.held) > 0 {
			h := mapOrigins(sm.held, args, bindingsOf(c), st)
			for _, a := range args {
				st.store(st.get(a), h)
			}
		}
	}
	if len(fs) == 0 && c.IsInvoke() {
		st.e.ext["("+c.Value.Type().String()+")."+c.Method.Name()]++
	}
}

// emptyConst: nothing is appended.
func emptyConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.IsNil()
}

// nonEmpty: a list of known positive length (the variadic form).
func nonEmpty(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	if !ok || s.Low != nil || s.High != nil {
		return false
	}
	p, ok := s.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	a, ok := p.Elem().Underlying().(*types.Array)
	return ok && a.Len() > 0
}

// capped: x[a:b:b].
func capped(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	if !ok || s.Max == nil || s.High == nil {
		return false
	}
	if s.Max == s.High {
		return true
	}
	a, ok1 := s.Max.(*ssa.Const)
	b, ok2 := s.High.(*ssa.Const)
	if ok1 && ok2 {
		return a.Int64() == b.Int64()
	}
	l := func(v ssa.Value) ssa.Value {
		if c, ok := v.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				return c.Call.Args[0]
			}
		}
		return nil
	}
	return l(s.Max) != nil && l(s.Max) == l(s.High)
}

func (st *fnState) callRets(v *ssa.Call, i int) oset {
	c := &v.Call
	args := callArgs(c)
	if b, ok := c.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			out := oset{origin{k: oAlloc, v: v}: true}
			if !(capped(args[0]) && len(args) > 1 && nonEmpty(args[1])) {
				out.add(st.get(args[0]))
			}
			if sl, ok := args[0].Type().Underlying().(*types.Slice); ok && hasRefs(sl.Elem(), 0) && len(args) > 1 {
				el := st.load(st.get(args[1]))
				st.store(out, el)
				st.store(out, st.load(st.get(args[0])))
			}
			return out
		}
		return nil
	}
	out := oset{}
	for _, f := range st.e.callees(c) {
		sm := st.e.sum[f]
		if sm == nil {
			// methods of numbers return their receiver
			if r := f.Signature.Recv(); r != nil && i < f.Signature.Results().Len() && types.Identical(r.Type(), f.Signature.Results().At(i).Type()) && len(args) > 0 {
				out.add(st.get(args[0]))
			} else {
				out[origin{k: oAlloc, v: v}] = true
			}
			continue
		}
		if i < len(sm.rets) {
			m := mapOrigins(sm.rets[i], args, bindingsOf(c), st)
			out.add(m)
			fresh := origin{k: oAlloc, v: v}
			out[fresh] = true
			st.store(oset{fresh: true}, m)
		}
	}
	if len(out) == 0 {
		out[origin{k: oAlloc, v: v}] = true
	}
	return out
}

// gadgetPkg: the packages that build circuits.
func gadgetPkg(rel string) bool {
	if !strings.HasPrefix(rel, "circuits/gadgets") && rel != "circuits/fabric/smt" {
		return false
	}
	for _, s := range strings.Split(rel, "/") {
		if s == "main" || s == "test" || s == "mock" || s == "_asm" {
			return false
		}
	}
	return true
}

func allFuncs(p *load.Program) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 || !repoFunc(f) {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
		// instances of generic functions are reached through their calls
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						add(g)
					}
				}
			}
		}
	}
	for _, pk := range p.Repo {
		sp := p.SSA.Package(pk.Types)
		if sp == nil {
			continue
		}
		for _, m := range sp.Members {
			switch x := m.(type) {
			case *ssa.Function:
				add(x)
			case *ssa.Type:
				n, ok := x.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < n.NumMethods(); i++ {
					add(p.SSA.FuncValue(n.Method(i)))
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func newEffects(p *load.Program) *effects {
	e := &effects{prog: p, sum: map[*ssa.Function]*summary{}, impl: map[string][]*ssa.Function{}, ext: map[string]int{}}
	e.fns = allFuncs(p)
	for _, f := range e.fns {
		e.sum[f] = &summary{writes: map[string]*effect{}, held: oset{}}
		if f.Signature.Recv() != nil {
			e.impl[f.Name()] = append(e.impl[f.Name()], f)
		}
	}
	for round := 0; round < 20; round++ {
		ch := false
		for _, f := range e.fns {
			if e.analyse(f) {
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	return e
}

// reach: functions reachable from the roots.
func (e *effects) reach(roots []*ssa.Function) map[*ssa.Function]*ssa.Function {
	from := map[*ssa.Function]*ssa.Function{}
	var work []*ssa.Function
	push := func(f, by *ssa.Function) {
		if _, ok := from[f]; !ok && e.sum[f] != nil {
			from[f] = by
			work = append(work, f)
		}
	}
	for _, r := range roots {
		push(r, nil)
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, a := range f.AnonFuncs {
			push(a, f)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						push(g, f)
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, g := range e.callees(c.Common()) {
						push(g, f)
					}
				}
			}
		}
	}
	return from
}

func isInit(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		if g.Parent() == nil && (g.Name() == "init" || strings.HasPrefix(g.Name(), "init#")) && g.Signature.Recv() == nil {
			return true
		}
	}
	return false
}

// nondet: constructs whose outcome does not follow from the arguments.
func (e *effects) nondet(in ssa.Instruction) string {
	switch x := in.(type) {
	case *ssa.Go:
		return "starts a goroutine"
	case *ssa.Select:
		return "selects between channels"
	case *ssa.Range:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			if e.orderFree(x) {
				return ""
			}
			return "iterates over a map"
		}
	case ssa.CallInstruction:
		f := x.Common().StaticCallee()
		if f == nil {
			if x.Common().IsInvoke() {
				if n := x.Common().Method; n.Pkg() != nil && n.Pkg().Path() == "math/rand" {
					return "uses randomness"
				}
			}
			break
		}
		s := nondetFunc(f)
		if strings.HasPrefix(s, "reads the clock") && timesOnly(x) {
			s = ""
		}
		if strings.HasPrefix(s, "takes the order of a map") && sortedOnly(x) {
			s = ""
		}
		if s != "" {
			return s
		}
		if o := generic(f); o.Pkg != nil && o.Pkg.Pkg.Path() == "fmt" && !strings.HasPrefix(o.Name(), "Print") {
			for _, a := range x.Common().Args {
				if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), "%p") {
					return "formats an address"
				}
			}
		}
	case *ssa.Convert:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
				return "uses an address as a number"
			}
		}
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL && g.Pkg != nil && (g.Pkg.Pkg.Path() == "os" && g.Name() == "Args") {
			return "depends on the command line"
		}
	}
	// such a function may also be passed on or kept
	var called ssa.Value
	if c, ok := in.(ssa.CallInstruction); ok {
		called = c.Common().Value
	}
	for _, op := range in.Operands(nil) {
		if f, ok := (*op).(*ssa.Function); ok && ssa.Value(f) != called {
			if s := nondetFunc(f); s != "" {
				return s
			}
		}
	}
	return ""
}

func generic(f *ssa.Function) *ssa.Function {
	if o := f.Origin(); o != nil {
		return o
	}
	return f
}

// nondetFunc: what makes the outcome of the external function depend on more
// than its arguments.
func nondetFunc(f *ssa.Function) string {
	f = generic(f)
	if f.Pkg == nil {
		return ""
	}
	n, p := f.Name(), f.Pkg.Pkg.Path()
	switch p {
	case "time":
		switch n {
		case "Now", "Since", "Until", "After", "Tick", "NewTimer", "NewTicker", "AfterFunc":
			return "reads the clock (time." + n + ")"
		}
	case "math/rand", "math/rand/v2", "crypto/rand", "hash/maphash":
		return "uses randomness (" + p + "." + n + ")"
	case "os", "syscall", "os/user", "net", "net/http", "os/exec", "io/ioutil", "runtime/debug", "runtime/metrics":
		return "depends on the environment (" + p + "." + n + ")"
	case "path/filepath":
		switch n {
		case "Abs", "Glob", "Walk", "WalkDir", "EvalSymlinks":
			return "depends on the environment (" + p + "." + n + ")"
		}
	case "runtime":
		switch n {
		case "NumCPU", "GOMAXPROCS", "NumGoroutine", "Caller", "Callers", "ReadMemStats", "Stack":
			return "depends on the environment (runtime." + n + ")"
		}
	case "maps", "golang.org/x/exp/maps":
		switch n {
		case "Keys", "Values", "All":
			return "takes the order of a map (" + p + "." + n + ")"
		}
	case "reflect":
		switch n {
		case "MapKeys", "MapRange":
			return "takes the order of a map (reflect." + n + ")"
		case "Pointer", "UnsafePointer", "UnsafeAddr":
			return "uses an address as a number"
		}
	}
	switch n {
	case "SetRandom", "MustSetRandom", "RandomOnCurve":
		return "uses randomness (" + f.RelString(nil) + ")"
	}
	return ""
}

// sortedOnly: what the call returns is sorted.
func sortedOnly(x ssa.CallInstruction) bool {
	v, ok := x.(ssa.Value)
	if !ok {
		return true
	}
	var sorted func(v ssa.Value, d int) bool
	sorted = func(v ssa.Value, d int) bool {
		for _, r := range *v.Referrers() {
			switch y := r.(type) {
			case *ssa.MakeInterface, *ssa.ChangeType, *ssa.ChangeInterface:
				if d < 4 && sorted(y.(ssa.Value), d+1) {
					return true
				}
			case ssa.CallInstruction:
				f := y.Common().StaticCallee()
				if f == nil || generic(f).Pkg == nil {
					continue
				}
				switch generic(f).Pkg.Pkg.Path() {
				case "sort", "slices", "golang.org/x/exp/slices":
					switch n := generic(f).Name(); {
					case strings.HasPrefix(n, "Sort"), n == "Ints", n == "Strings", n == "Float64s", n == "Slice", n == "SliceStable":
						return true
					case n == "Collect":
						if z, ok := r.(ssa.Value); ok && d < 4 && sorted(z, d+1) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return sorted(v, 0)
}

// timesOnly: the clock value only reaches logging.
func timesOnly(x ssa.CallInstruction) bool {
	v, ok := x.(ssa.Value)
	if !ok {
		return true
	}
	seen := map[ssa.Value]bool{}
	var only func(v ssa.Value) bool
	only = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch y := r.(type) {
			case *ssa.DebugRef:
			case *ssa.MakeInterface, *ssa.Phi, *ssa.Slice, *ssa.ChangeType, *ssa.Convert, *ssa.Extract:
				if !only(y.(ssa.Value)) {
					return false
				}
			case *ssa.Store:
				// into the argument list of a call
				ia, ok := y.Addr.(*ssa.IndexAddr)
				if !ok || y.Val != v {
					return false
				}
				al, ok := ia.X.(*ssa.Alloc)
				if !ok || !only(al) {
					return false
				}
			case *ssa.IndexAddr:
			case ssa.CallInstruction:
				f := y.Common().StaticCallee()
				if f == nil || f.Pkg == nil {
					return false
				}
				p := f.Pkg.Pkg.Path()
				switch {
				case p == "time":
					if z, ok := y.(ssa.Value); ok && !only(z) {
						return false
					}
				case p == "fmt" && strings.HasPrefix(f.Name(), "Print"), p == "log", strings.HasSuffix(p, "goutils/log"):
				default:
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	return only(v)
}

// orderFree: the loop over the map only fills other maps under its own keys or
// counts, so that its order cannot be observed.
func (e *effects) orderFree(r *ssa.Range) bool {
	var next *ssa.Next
	for _, u := range *r.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return true
	}
	head := next.Block()
	// blocks of the loop
	loop := map[*ssa.BasicBlock]bool{head: true}
	var back func(b *ssa.BasicBlock)
	back = func(b *ssa.BasicBlock) {
		if loop[b] {
			return
		}
		loop[b] = true
		for _, p := range b.Preds {
			back(p)
		}
	}
	for _, p := range head.Preds {
		if head.Dominates(p) {
			back(p)
		}
	}
	for b := range loop {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Next, *ssa.Range, *ssa.Extract, *ssa.If, *ssa.Jump, *ssa.DebugRef, *ssa.Lookup, *ssa.Field, *ssa.FieldAddr, *ssa.UnOp, *ssa.Index, *ssa.IndexAddr, *ssa.Convert, *ssa.ChangeType, *ssa.MakeMap, *ssa.Alloc, *ssa.MakeInterface, *ssa.MakeSlice, *ssa.Slice:
			case *ssa.MapUpdate:
				k, ok := x.Key.(*ssa.Extract)
				if !ok {
					return false
				}
				if _, ok := k.Tuple.(*ssa.Next); !ok || k.Index != 1 {
					return false
				}
			case *ssa.Store:
				if !loopLocal(x.Addr, loop) && !ofKey(x.Addr) {
					return false
				}
			case *ssa.BinOp:
				if t, ok := x.Type().Underlying().(*types.Basic); ok && x.Op == token.ADD && t.Info()&types.IsString != 0 {
					return false
				}
			case *ssa.Phi:
				if t, ok := x.Type().Underlying().(*types.Basic); !ok || t.Info()&types.IsInteger == 0 {
					return false
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					// writing what the key itself points to cannot collide with another iteration
					if bi.Name() != "len" && !(bi.Name() == "copy" && (loopLocal(x.Call.Args[0], loop) || ofKey(x.Call.Args[0]))) {
						return false
					}
					continue
				}
				f := x.Call.StaticCallee()
				if f == nil || e.sum[f] != nil && len(e.sum[f].writes) > 0 {
					return false
				}
				if o, ok := f.Object().(*types.Func); ok && e.sum[f] == nil && len(extWrites(o, "")) > 0 {
					return false
				}
				// nothing that could record constraints in iteration order
				for _, a := range x.Call.Args {
					if reachesAPI(a.Type(), 0) {
						return false
					}
				}
			default:
				return false
			}
			// leaving the loop early exposes the order
			if iff, ok := in.(*ssa.If); ok && b != head {
				for _, s := range iff.Block().Succs {
					if !loop[s] {
						return false
					}
				}
			}
		}
	}
	return true
}

// addrRoot is the value an address is computed from, without loads.
func addrRoot(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return v
		}
	}
}

// loopLocal: the address lies in memory allocated in the same iteration.
func loopLocal(v ssa.Value, loop map[*ssa.BasicBlock]bool) bool {
	switch r := addrRoot(v).(type) {
	case *ssa.Alloc:
		return loop[r.Block()]
	case *ssa.MakeSlice:
		return loop[r.Block()]
	}
	return false
}

// ofKey: the address lies in what the key of the map iteration points to; keys
// are distinct, and so are the whole variables they point to.
func ofKey(v ssa.Value) bool {
	k, ok := addrRoot(v).(*ssa.Extract)
	if !ok || k.Index != 1 {
		return false
	}
	if _, ok := k.Tuple.(*ssa.Next); !ok {
		return false
	}
	_, ok = k.Type().Underlying().(*types.Pointer)
	return ok
}

// reachesAPI: values of the type may lead to a circuit builder.
func reachesAPI(t types.Type, depth int) bool {
	if depth > 6 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return false
	case *types.Pointer:
		return reachesAPI(u.Elem(), depth+1)
	case *types.Slice:
		return reachesAPI(u.Elem(), depth+1)
	case *types.Array:
		return reachesAPI(u.Elem(), depth+1)
	case *types.Map:
		return reachesAPI(u.Elem(), depth+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if reachesAPI(u.Field(i).Type(), depth+1) {
				return true
			}
		}
		return false
	case *types.Interface:
		return u.NumMethods() > 0
	}
	return true
}

func isExportedFn(f *ssa.Function) bool {
	if f.Parent() != nil || !token.IsExported(f.Name()) {
		return false
	}
	if r := f.Signature.Recv(); r != nil {
		n := namedOf(r.Type())
		return n != nil
	}
	return true
}

func init() {
	register("C20", "Interprocedural effect analysis over the type-checked SSA: for every function reachable from a gadget entry point the memory it may write is traced to parameters, package variables or fresh allocations; no reachable function may write package state, use clock, randomness, environment, goroutines or observable map order, and no exported gadget or hint may write elements of a slice owned by its caller (including spare room behind it), nor keep such a slice in an object whose elements are written later.", func(c *Ctx) {
		e := newEffects(c.Prog)
		var roots []*ssa.Function
		for _, f := range e.fns {
			if gadgetPkg(inRepoPkg(f)) && isExportedFn(f) {
				roots = append(roots, f)
			}
		}
		hints := map[*ssa.Function]bool{}
		for _, f := range e.fns {
			if gadgetPkg(inRepoPkg(f)) && isHintSig(f.Signature) && f.Parent() == nil {
				hints[f] = true
			}
		}
		for h := range hints {
			roots = append(roots, h)
		}
		reach := e.reach(roots)
		via := func(f *ssa.Function) string {
			var s []string
			for g := f; g != nil && len(s) < 6; g = reach[g] {
				s = append(s, flow.Name(g))
			}
			return strings.Join(s, " <- ")
		}
		var fs []*ssa.Function
		for f := range reach {
			fs = append(fs, f)
		}
		sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
		c.Count("entry points", len(roots))
		c.Count("reachable functions", len(fs))
		c.Count("hints", len(hints))
		for _, f := range fs {
			if isInit(f) {
				continue
			}
			c.SawFunc(flow.Name(f))
			bad := ""
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if m := e.nondet(in); m != "" && bad == "" {
						bad = fmt.Sprintf("%s at %s; reached through %s", m, c.Prog.Pos(in.Pos()), via(f))
					}
				}
			}
			c.Check("deterministic", flow.Name(f), bad == "", bad)
			bad = ""
			for _, k := range sortedKeys(e.sum[f].writes) {
				w := e.sum[f].writes[k]
				if w.o.k == oGlobal && w.fn == f || w.o.k == oGlobal && e.sum[w.fn] == nil {
					bad = fmt.Sprintf("%s package variable %s at %s; reached through %s", w.what, w.o.v.Name(), c.Prog.Pos(w.pos), via(f))
				} else if w.o.k == oGlobal && !isInit(w.fn) {
					// a callee writes memory this function got from a package variable
					own := false
					for _, x := range e.sum[w.fn].writes {
						own = own || x.o.k == oGlobal && x.o.v == w.o.v
					}
					if !own {
						bad = fmt.Sprintf("hands package variable %s to %s, which %s it at %s; reached through %s", w.o.v.Name(), flow.Name(w.fn), w.what, c.Prog.Pos(w.pos), via(f))
					}
				}
			}
			c.Check("package-state", flow.Name(f), bad == "", bad)
		}
		kept := newRetention(e)
		for _, f := range roots {
			bad := kept.violation(c, f)
			c.Check("kept-slices", flow.Name(f), bad == "", bad)
			bad = ""
			for _, k := range sortedKeys(e.sum[f].writes) {
				w := e.sum[f].writes[k]
				if w.o.k != oParam || !w.elem && !hints[f] {
					continue
				}
				if w.o.i == 0 && f.Signature.Recv() != nil || w.o.i == putDest(f) {
					continue // its own state, or the documented destination
				}
				if hints[f] {
					if w.o.i == len(f.Params)-1 {
						continue // the outputs
					}
				} else if !sliceLike(f.Params[w.o.i].Type(), 0) {
					continue
				}
				bad = fmt.Sprintf("%s its argument %s at %s (%s)", w.what, f.Params[w.o.i].Name(), c.Prog.Pos(w.pos), flow.Name(w.fn))
			}
			c.Check("caller-slices", flow.Name(f), bad == "", bad)
		}
		c.Assume = append(c.Assume, "functions outside the repository write only through their receiver (numbers) or documented destination")
		c.Floor("deterministic", 200)
		c.Floor("package-state", 200)
		c.Floor("caller-slices", 120)
		c.Floor("kept-slices", 120)
	})
}

func sortedKeys(m map[string]*effect) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// isHintSig: func(mod *big.Int, inputs, outputs []*big.Int) error.
func isHintSig(s *types.Signature) bool {
	if s.Recv() != nil || s.Params().Len() != 3 || s.Results().Len() != 1 {
		return false
	}
	return s.Params().At(0).Type().String() == "*math/big.Int" && s.Params().At(1).Type().String() == "[]*math/big.Int" && s.Params().At(2).Type().String() == "[]*math/big.Int"
}

// sliceLike: the type holds slices or maps by value.
func sliceLike(t types.Type, depth int) bool {
	if depth > 6 {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	case *types.Array:
		return sliceLike(u.Elem(), depth+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if sliceLike(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	}
	return false
}

// putDest: the parameter a PutX(dst, v) function writes to by its contract.
func putDest(f *ssa.Function) int {
	if !strings.HasPrefix(f.Name(), "Put") || f.Signature.Results().Len() != 0 {
		return -1
	}
	for i, p := range f.Params {
		if _, ok := p.Type().Underlying().(*types.Slice); ok {
			return i
		}
	}
	return -1
}
