package flow

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"zkcheck/internal/load"
)

type ival struct{ lo, hi int64 }

// Event is one external step on a path.
type Event struct {
	Name     string // qualified callee
	Args     []*Term
	Deref    []*Term // contents behind pointer arguments at the time of the call
	Results  []*Term
	Err      *Term // the error result, if any
	OkRes    *Term // the trailing boolean result, if any
	Pos      token.Pos
	Fn       *ssa.Function
	Deferred bool
	Kind     string // call, assert, index, deref, store
	Safe     bool   // hazard discharged by the facts of the path
}

type deferred struct {
	call *ssa.CallCommon
	fn   *Term
	args []*Term
	pos  token.Pos
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	pc     int
	defers []deferred
	bind   ssa.Value // value in the caller
	isDef  bool      // running as a deferred call
	forks  map[*ssa.If]int
}

// State is one path prefix.
type State struct {
	frames []*frame
	mem    map[string]*Term
	addrs  map[string]*Term // address terms by key
	roots  map[string][]string
	truth  map[string]bool
	nilf   map[string]bool
	ivs    map[string]ival
	Events []*Event
	Facts  []Fact
	seq    int
	e      *Engine
	gen    map[string]int // havoc generation per root
}

// Fact is an assumption taken at a branch.
type Fact struct {
	Cond *Term
	Val  bool
	Pos  token.Pos
}

// Path is a finished path.
type Path struct {
	*State
	Kind    string // return, stop, panic, truncated, undecided
	Results []*Term
	Pos     token.Pos
	Note    string
}

// Model handles a call; it returns false to fall back to the default.
type Model func(e *Engine, st *State, c *Call) bool

// Call is a call about to happen.
type Call struct {
	Name   string
	Args   []*Term
	Pos    token.Pos
	Sig    *types.Signature
	Result []*Term // to be set by a model
	Ev     *Event  // set when an event was recorded
	Stop   bool    // the call does not return
	Def    bool
}

// Engine explores functions of the repository.
type Engine struct {
	Prog     *load.Program
	terms    map[string]*Term
	nid      int
	Over     map[string]Model // by qualified name or by suffix after the last '/'
	Opaque   map[string]bool  // repository functions that are not entered
	Pure     func(name string) bool
	MaxPaths int
	MaxForks int
	Hazards  bool
	Seen     map[string]bool
	Sites    map[string]bool
	NoInline func(*ssa.Function) bool
	// Quiet tells which calls carry no step the analysis tracks.
	Quiet func(*ssa.CallCommon) bool
	loops map[*ssa.BasicBlock]*loop
}

func New(p *load.Program) *Engine {
	return &Engine{Prog: p, terms: map[string]*Term{}, Over: map[string]Model{}, Opaque: map[string]bool{}, MaxPaths: 3000, MaxForks: 3,
		Seen: map[string]bool{}, Sites: map[string]bool{}}
}

func (st *State) clone() *State {
	n := &State{seq: st.seq, e: st.e}
	n.mem = cp(st.mem)
	n.addrs = cp(st.addrs)
	n.truth = cp(st.truth)
	n.nilf = cp(st.nilf)
	n.ivs = cp(st.ivs)
	n.gen = cp(st.gen)
	n.Events = append([]*Event(nil), st.Events...)
	n.Facts = append([]Fact(nil), st.Facts...)
	for _, f := range st.frames {
		g := *f
		g.env = cp(f.env)
		g.forks = cp(f.forks)
		g.defers = append([]deferred(nil), f.defers...)
		n.frames = append(n.frames, &g)
	}
	return n
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m)+4)
	for k, v := range m {
		r[k] = v
	}
	return r
}

// Name is the qualified, module-relative name of a function.
func Name(f *ssa.Function) string {
	s := f.String()
	if f.Origin() != nil {
		s = f.Origin().String()
	}
	return strings.ReplaceAll(s, load.Module+"/", "")
}

func (e *Engine) inRepo(f *ssa.Function) bool {
	if f == nil || len(f.Blocks) == 0 {
		return false
	}
	p := f.Pkg
	if p == nil && f.Origin() != nil {
		p = f.Origin().Pkg
	}
	if p == nil && f.Parent() != nil {
		return e.inRepo(f.Parent())
	}
	if p == nil {
		return f.Synthetic != ""
	}
	return strings.HasPrefix(p.Pkg.Path(), load.Module)
}

// Explore follows every path of fn with the given arguments (fresh
// parameters when args is nil).
func (e *Engine) Explore(fn *ssa.Function, args ...*Term) []*Path {
	st := &State{mem: map[string]*Term{}, addrs: map[string]*Term{}, truth: map[string]bool{}, nilf: map[string]bool{}, ivs: map[string]ival{}, gen: map[string]int{}, e: e}
	return e.ExploreFrom(st, fn, args...)
}

// NewState makes an empty state for ExploreFrom.
func (e *Engine) NewState() *State {
	return &State{mem: map[string]*Term{}, addrs: map[string]*Term{}, truth: map[string]bool{}, nilf: map[string]bool{}, ivs: map[string]ival{}, gen: map[string]int{}, e: e}
}

// Param is the term of a parameter.
func (e *Engine) Param(name string, t types.Type) *Term { return e.T("param", name, t) }

func (e *Engine) ExploreFrom(st *State, fn *ssa.Function, args ...*Term) []*Path {
	for i := len(args); i < len(fn.Params); i++ {
		p := fn.Params[i]
		n := p.Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("arg%d", i)
		}
		args = append(args, e.Param(n, p.Type()))
	}
	e.push(st, fn, args, nil, nil, false)
	var out []*Path
	work := []*State{st}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		p, more := e.run(s)
		work = append(work, more...)
		if p != nil {
			out = append(out, p)
		}
		if len(out) > e.MaxPaths {
			out = append(out, &Path{State: s, Kind: "undecided", Note: "too many paths"})
			return out
		}
	}
	return out
}

func (e *Engine) push(st *State, fn *ssa.Function, args []*Term, bindings []*Term, bind ssa.Value, isDef bool) {
	f := &frame{fn: fn, env: map[ssa.Value]*Term{}, block: fn.Blocks[0], bind: bind, forks: map[*ssa.If]int{}, isDef: isDef}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		f.env[v] = bindings[i]
	}
	e.Seen[Name(fn)] = true
	st.frames = append(st.frames, f)
}

type undecided struct{ msg string }

func und(format string, a ...any) { panic(&undecided{fmt.Sprintf(format, a...)}) }

func (e *Engine) run(st *State) (p *Path, more []*State) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(*undecided); ok {
				fr := st.frames[len(st.frames)-1]
				p = &Path{State: st, Kind: "undecided", Note: u.msg + " in " + Name(fr.fn)}
				return
			}
			panic(r)
		}
	}()
	steps := 0
	for {
		steps++
		if steps > 400000 {
			und("path too long")
		}
		fr := st.frames[len(st.frames)-1]
		in := fr.block.Instrs[fr.pc]
		switch x := in.(type) {
		case *ssa.If:
			c := e.val(st, x.Cond)
			v, known := e.truthOf(st, c)
			if known {
				if v {
					e.jump(fr, fr.block.Succs[0])
				} else {
					e.jump(fr, fr.block.Succs[1])
				}
				continue
			}
			if l := e.quietLoop(fr.block); l != nil {
				e.summarise(st, fr, fr.block, l)
				e.jump(fr, fr.block.Succs[l.exit])
				continue
			}
			fr.forks[x]++
			if fr.forks[x] > e.MaxForks {
				return &Path{State: st, Kind: "truncated"}, more
			}
			o := st.clone()
			of := o.frames[len(o.frames)-1]
			pos := x.Cond.Pos()
			if e.assume(o, c, false, pos) {
				e.jump(of, of.block.Succs[1])
				more = append(more, o)
			}
			if !e.assume(st, c, true, pos) {
				return nil, more
			}
			e.jump(fr, fr.block.Succs[0])
			continue
		case *ssa.Jump:
			e.jump(fr, fr.block.Succs[0])
			continue
		case *ssa.Return:
			var rs []*Term
			for _, r := range x.Results {
				rs = append(rs, e.val(st, r))
			}
			st.frames = st.frames[:len(st.frames)-1]
			if len(st.frames) == 0 {
				return &Path{State: st, Kind: "return", Results: rs, Pos: x.Pos()}, more
			}
			if fr.isDef {
				continue // caller is at its RunDefers
			}
			up := st.frames[len(st.frames)-1]
			if fr.bind != nil {
				up.env[fr.bind] = e.tuple(rs)
			}
			up.pc++
			continue
		case *ssa.Panic:
			return &Path{State: st, Kind: "panic", Results: []*Term{e.val(st, x.X)}, Pos: x.Pos()}, more
		case *ssa.RunDefers:
			if n := len(fr.defers); n > 0 {
				d := fr.defers[n-1]
				fr.defers = fr.defers[:n-1]
				stop := e.call(st, nil, d.call, d.fn, d.args, d.pos, true)
				if stop != "" {
					return &Path{State: st, Kind: stop, Pos: d.pos}, more
				}
				continue
			}
			fr.pc++
			continue
		case *ssa.Call:
			fnT, args := e.callArgs(st, &x.Call)
			depth := len(st.frames)
			stop := e.call(st, x, &x.Call, fnT, args, x.Pos(), false)
			if stop != "" {
				return &Path{State: st, Kind: stop, Pos: x.Pos()}, more
			}
			if len(st.frames) == depth {
				fr.pc++
			}
			continue
		case *ssa.Go:
			fnT, args := e.callArgs(st, &x.Call)
			depth := len(st.frames)
			stop := e.call(st, nil, &x.Call, fnT, args, x.Pos(), false)
			if stop != "" {
				return &Path{State: st, Kind: stop, Pos: x.Pos()}, more
			}
			if len(st.frames) == depth {
				fr.pc++
			}
			continue
		case *ssa.Defer:
			fnT, args := e.callArgs(st, &x.Call)
			fr.defers = append(fr.defers, deferred{&x.Call, fnT, args, x.Pos()})
			fr.pc++
			continue
		case *ssa.TypeAssert:
			if x.CommaOk {
				break
			}
			v := e.val(st, x.X)
			ok := e.typeOk(st, v, x.AssertedType)
			tv, known := e.truthOf(st, ok)
			if !(known && tv) {
				e.hazard(st, "assert", x.Pos(), v)
				if known {
					return &Path{State: st, Kind: "panic", Pos: x.Pos(), Note: "failed type assertion"}, more
				}
				if !e.assume(st, ok, true, x.Pos()) {
					return nil, more
				}
			} else {
				e.hazardSafe(st, "assert", x.Pos(), v)
			}
			fr.env[x] = e.assertVal(st, v, x.AssertedType)
			fr.pc++
			continue
		}
		e.step(st, fr, in)
		fr.pc++
	}
}

func (e *Engine) jump(fr *frame, to *ssa.BasicBlock) {
	// phis are evaluated simultaneously
	from := fr.block
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	var vals []*Term
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, e.valF(fr, p.Edges[idx]))
	}
	for i, p := range phis {
		fr.env[p] = vals[i]
	}
	fr.prev = from
	fr.block = to
	fr.pc = len(phis)
}

func (e *Engine) tuple(rs []*Term) *Term {
	if len(rs) == 1 {
		return rs[0]
	}
	return e.mk("tuple", "", 0, nil, nil, nil, rs...)
}

func (e *Engine) val(st *State, v ssa.Value) *Term { return e.valF(st.frames[len(st.frames)-1], v) }

func (e *Engine) valF(fr *frame, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			switch x.Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				return e.T("zero", "", x.Type())
			}
			return e.Nil()
		}
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return e.Const(constant.ToInt(x.Value), nil)
		}
		return e.Const(x.Value, nil)
	case *ssa.Function:
		return e.mk("func", "", 0, nil, x, nil)
	case *ssa.Builtin:
		return e.T("builtin", x.Name(), nil)
	case *ssa.Global:
		return e.T("global", strings.ReplaceAll(x.String(), load.Module+"/", ""), x.Type())
	}
	t := fr.env[v]
	if t == nil {
		und("no value for %s (%T)", v.Name(), v)
	}
	return t
}

func (e *Engine) fresh(st *State, what string, typ types.Type) *Term {
	st.seq++
	return e.T("obj", fmt.Sprintf("%s@%d", what, st.seq), typ)
}

func elemOf(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return types.Typ[types.Byte]
		}
	}
	return nil
}

func (e *Engine) step(st *State, fr *frame, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		name := x.Comment
		if name == "" {
			name = "new"
		}
		fr.env[x] = e.fresh(st, name, x.Type())
	case *ssa.Phi:
		// handled in jump
	case *ssa.BinOp:
		fr.env[x] = e.binop(st, x.Op, e.val(st, x.X), e.val(st, x.Y), x.X.Type(), x.Type())
	case *ssa.UnOp:
		v := e.val(st, x.X)
		switch x.Op {
		case token.MUL:
			e.derefHazard(st, v, x.Pos())
			fr.env[x] = e.Load(st, v, elemOf(x.X.Type()))
		case token.NOT:
			fr.env[x] = e.not(v)
		case token.SUB, token.XOR:
			if v.Op == "const" {
				fr.env[x] = e.Const(constant.UnaryOp(x.Op, v.C, 0), nil)
			} else {
				fr.env[x] = e.T("un", x.Op.String(), x.Type(), v)
			}
		default:
			st.seq++
			fr.env[x] = e.T("fresh", fmt.Sprintf("recv@%d", st.seq), x.Type())
		}
	case *ssa.FieldAddr:
		v := e.val(st, x.X)
		e.derefHazard(st, v, x.Pos())
		fr.env[x] = e.fieldAddr(v, x.Field, x.X.Type())
	case *ssa.Field:
		fr.env[x] = e.field(st, e.val(st, x.X), x.Field, x.X.Type())
	case *ssa.IndexAddr:
		v, i := e.val(st, x.X), e.val(st, x.Index)
		e.boundHazard(st, v, i, x.X.Type(), x.Pos())
		fr.env[x] = e.indexAddr(st, v, i, x.X.Type())
	case *ssa.Index:
		v, i := e.val(st, x.X), e.val(st, x.Index)
		e.boundHazard(st, v, i, x.X.Type(), x.Pos())
		fr.env[x] = e.index(st, v, i, x.Type())
	case *ssa.Lookup:
		m, k := e.val(st, x.X), e.val(st, x.Index)
		v := e.T("lookup", "", x.Type(), m, k)
		if x.CommaOk {
			v = e.T("lookup", "", x.Type().(*types.Tuple).At(0).Type(), m, k)
			fr.env[x] = e.tuple([]*Term{v, e.T("lookupok", "", types.Typ[types.Bool], m, k)})
		} else {
			fr.env[x] = v
		}
	case *ssa.Slice:
		fr.env[x] = e.slice(st, x)
	case *ssa.Store:
		a := e.val(st, x.Addr)
		e.derefHazard(st, a, x.Pos())
		e.Store(st, a, e.val(st, x.Val))
	case *ssa.MakeInterface:
		fr.env[x] = e.T("mkiface", "", x.X.Type(), e.val(st, x.X))
	case *ssa.ChangeInterface:
		fr.env[x] = e.val(st, x.X)
	case *ssa.ChangeType:
		fr.env[x] = e.val(st, x.X)
	case *ssa.MultiConvert:
		fr.env[x] = e.T("conv", "", x.Type(), e.val(st, x.X))
	case *ssa.Convert:
		fr.env[x] = e.convert(st, e.val(st, x.X), x.X.Type(), x.Type())
	case *ssa.SliceToArrayPointer:
		fr.env[x] = e.T("conv", "", x.Type(), e.val(st, x.X))
	case *ssa.MakeClosure:
		var b []*Term
		for _, v := range x.Bindings {
			b = append(b, e.val(st, v))
		}
		fr.env[x] = e.mk("closure", "", 0, nil, x.Fn.(*ssa.Function), nil, b...)
	case *ssa.MakeMap:
		fr.env[x] = e.fresh(st, "map", x.Type())
	case *ssa.MakeChan:
		fr.env[x] = e.fresh(st, "chan", x.Type())
	case *ssa.MakeSlice:
		n := e.val(st, x.Len)
		if k, ok := ConstInt(n); ok && k >= 0 && k <= 4096 {
			at := types.NewArray(elemOf(x.Type()), k)
			o := e.fresh(st, "make", types.NewPointer(at))
			fr.env[x] = e.T("slice", "", x.Type(), o, e.Int(0), e.Int(k))
		} else {
			o := e.fresh(st, "makeslice", x.Type())
			e.Store(st, e.T("lenof", "", nil, o), n)
			fr.env[x] = o
		}
	case *ssa.MapUpdate:
		m := e.val(st, x.Map)
		st.Events = append(st.Events, &Event{Kind: "mapupdate", Args: []*Term{m, e.val(st, x.Key), e.val(st, x.Value)}, Pos: x.Pos(), Fn: fr.fn})
	case *ssa.Extract:
		t := e.val(st, x.Tuple)
		if t.Op == "tuple" {
			fr.env[x] = t.Args[x.Index]
		} else {
			fr.env[x] = e.mk("ret", "", x.Index, x.Type(), nil, nil, t)
		}
	case *ssa.TypeAssert: // comma-ok
		v := e.val(st, x.X)
		ok := e.typeOk(st, v, x.AssertedType)
		fr.env[x] = e.tuple([]*Term{e.assertVal(st, v, x.AssertedType), ok})
	case *ssa.Range:
		st.seq++
		fr.env[x] = e.T("range", fmt.Sprintf("@%d", st.seq), nil, e.val(st, x.X))
	case *ssa.Next:
		st.seq++
		it := e.val(st, x.Iter)
		tt := x.Type().(*types.Tuple)
		fr.env[x] = e.tuple([]*Term{
			e.T("next", fmt.Sprintf("ok@%d", st.seq), types.Typ[types.Bool], it),
			e.T("next", fmt.Sprintf("k@%d", st.seq), tt.At(1).Type(), it),
			e.T("next", fmt.Sprintf("v@%d", st.seq), tt.At(2).Type(), it)})
	case *ssa.Send:
	case *ssa.Select:
		und("select")
	default:
		und("instruction %T", in)
	}
}

// ---- memory ----

func (e *Engine) fieldAddr(base *Term, i int, pt types.Type) *Term {
	name := fmt.Sprint(i)
	var ft types.Type
	if s := structOf(pt); s != nil {
		name = s.Field(i).Name()
		ft = types.NewPointer(s.Field(i).Type())
	}
	return e.mk("faddr", name, i+1, ft, nil, nil, base)
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func (e *Engine) field(st *State, v *Term, i int, t types.Type) *Term {
	s := structOf(t)
	name := fmt.Sprint(i)
	var ft types.Type
	if s != nil {
		name = s.Field(i).Name()
		ft = s.Field(i).Type()
	}
	return e.proj(v, "field", name, i, ft)
}

func (e *Engine) proj(v *Term, op, name string, i int, ft types.Type) *Term {
	switch v.Op {
	case "struct":
		return v.Args[i]
	case "zero":
		return e.zero(ft)
	}
	return e.mk("field", name, i+1, ft, nil, nil, v)
}

func (e *Engine) zero(t types.Type) *Term {
	if t == nil {
		return e.Nil()
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.Bool(false)
		case u.Info()&types.IsString != 0:
			return e.StrC("")
		case u.Info()&types.IsNumeric != 0:
			return e.Int(0)
		}
		return e.Nil()
	case *types.Struct, *types.Array:
		return e.T("zero", "", t)
	}
	return e.Nil()
}

func (e *Engine) indexAddr(st *State, v, i *Term, t types.Type) *Term {
	var et types.Type
	if _, isC := ConstInt(i); !isC && (i.Op == "bin" || i.Op == "len") { // an index computed from lengths already known
		if r := e.ival(st, i); r.lo == r.hi {
			i = e.Int(r.lo)
		}
	}
	if x := elemOf(t); x != nil {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			et = elemOf(p.Elem())
		} else {
			et = x
		}
	}
	if v.Op == "slice" {
		lo, ok1 := ConstInt(v.Args[1])
		k, ok2 := ConstInt(i)
		if ok1 && ok2 {
			return e.T("iaddr", "", ptrTo(et), v.Args[0], e.Int(lo+k))
		}
		if ok1 && lo == 0 {
			return e.T("iaddr", "", ptrTo(et), v.Args[0], i)
		}
		return e.T("iaddr", "", ptrTo(et), v.Args[0], e.T("bin", "+", nil, v.Args[1], i))
	}
	return e.T("iaddr", "", ptrTo(et), v, i)
}

func ptrTo(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return types.NewPointer(t)
}

func (e *Engine) index(st *State, v, i *Term, et types.Type) *Term {
	if v.Op == "upd" && len(v.Args) == 3 && sameIndex(v.Args[1], i) {
		return v.Args[2]
	}
	if k, ok := ConstInt(i); ok {
		if s, ok := ConstStr(v); ok && int(k) < len(s) && k >= 0 {
			return e.Int(int64(s[k]))
		}
		if v.Op == "array" && int(k) < len(v.Args) && k >= 0 {
			return v.Args[k]
		}
		if v.Op == "seq" {
			ok := true
			for j := 0; j <= int(k) && j < len(v.Args); j++ {
				if v.Args[j].Op != "el" {
					ok = false
				}
			}
			if ok && int(k) < len(v.Args) {
				return v.Args[k].Args[0]
			}
		}
		if v.Op == "zero" {
			return e.zero(et)
		}
	}
	return e.T("index", "", et, v, i)
}

// sameIndex: equal up to conversions.
func sameIndex(a, b *Term) bool { return Strip(a) == Strip(b) }

// Load reads the contents of an address.
func (e *Engine) Load(st *State, a *Term, typ types.Type) *Term {
	if v, ok := st.mem[a.key]; ok {
		// descendants may have been stored since
		return e.overlay(st, a, v, typ)
	}
	switch a.Op {
	case "faddr":
		if base, ok := e.wholeAbove(st, a.Args[0]); ok {
			return e.overlay(st, a, e.proj(base, "field", a.Str, a.Idx-1, typ), typ)
		}
	case "iaddr":
		if a.Args[0].Op == "seq" || a.Args[0].Op == "array" {
			return e.index(st, a.Args[0], a.Args[1], typ)
		}
		if base, ok := e.wholeAbove(st, a.Args[0]); ok {
			return e.overlay(st, a, e.index(st, base, a.Args[1], typ), typ)
		}
	}
	r := Root(a)
	if r.Op == "obj" {
		if a.Op == "iaddr" {
			if _, ok := ConstInt(a.Args[1]); !ok {
				return e.T("index", fmt.Sprintf("g%d", st.gen[r.key]), typ, e.Load(st, a.Args[0], elemOf(a.Args[0].Typ)), a.Args[1])
			}
		}
		if typ != nil {
			return e.overlay(st, a, e.zero(typ), typ)
		}
		return e.Nil()
	}
	if a.Op == "global" {
		return e.T("load", "", typ, a)
	}
	return e.overlay(st, a, e.T("load", "", typ, a), typ)
}

// wholeAbove is the value of a when some ancestor was stored as a whole.
func (e *Engine) wholeAbove(st *State, a *Term) (*Term, bool) {
	if v, ok := st.mem[a.key]; ok {
		return v, true
	}
	switch a.Op {
	case "faddr":
		if b, ok := e.wholeAbove(st, a.Args[0]); ok {
			return e.proj(b, "field", a.Str, a.Idx-1, elemOf(a.Typ)), true
		}
	case "iaddr":
		if b, ok := e.wholeAbove(st, a.Args[0]); ok {
			return e.index(st, b, a.Args[1], elemOf(a.Typ)), true
		}
	}
	return nil, false
}

// overlay rebuilds an aggregate from separately stored parts.
func (e *Engine) overlay(st *State, a, v *Term, typ types.Type) *Term {
	if typ == nil || !e.hasBelow(st, a) {
		return v
	}
	switch u := typ.Underlying().(type) {
	case *types.Struct:
		var parts []*Term
		for i := 0; i < u.NumFields(); i++ {
			fa := e.fieldAddr(a, i, types.NewPointer(typ))
			if _, ok := st.mem[fa.key]; ok || e.hasBelow(st, fa) {
				parts = append(parts, e.Load(st, fa, u.Field(i).Type()))
			} else {
				parts = append(parts, e.proj(v, "field", u.Field(i).Name(), i, u.Field(i).Type()))
			}
		}
		return e.mk("struct", typ.String(), 0, typ, nil, nil, parts...)
	case *types.Array:
		if u.Len() > 256 {
			return e.T("upd", fmt.Sprintf("@%d", st.seq), typ, v)
		}
		var parts []*Term
		for i := int64(0); i < u.Len(); i++ {
			ia := e.T("iaddr", "", ptrTo(u.Elem()), a, e.Int(i))
			if _, ok := st.mem[ia.key]; ok || e.hasBelow(st, ia) {
				parts = append(parts, e.Load(st, ia, u.Elem()))
			} else {
				parts = append(parts, e.index(st, v, e.Int(i), u.Elem()))
			}
		}
		return e.mk("array", "", 0, typ, nil, nil, parts...)
	}
	return v
}

func (e *Engine) hasBelow(st *State, a *Term) bool {
	for _, k := range st.addrs {
		if k != a && (k.Op == "faddr" || k.Op == "iaddr") {
			for b := k.Args[0]; ; b = b.Args[0] {
				if b == a {
					if _, ok := st.mem[k.key]; ok {
						return true
					}
				}
				if b.Op != "faddr" && b.Op != "iaddr" {
					break
				}
			}
		}
	}
	return false
}

// Store writes an address.
func (e *Engine) Store(st *State, a, v *Term) {
	if a.Op == "iaddr" {
		if _, ok := ConstInt(a.Args[1]); !ok {
			// unknown element: the whole container changes
			b := a.Args[0]
			old := e.Load(st, b, elemOf(b.Typ))
			e.dropBelow(st, b)
			st.mem[b.key] = e.T("upd", "", elemOf(b.Typ), old, a.Args[1], v)
			st.addrs[b.key] = b
			return
		}
	}
	e.dropBelow(st, a)
	st.mem[a.key] = v
	st.addrs[a.key] = a
	if r := Root(a); r.Op != "obj" {
		fr := st.frames[len(st.frames)-1]
		st.Events = append(st.Events, &Event{Kind: "store", Args: []*Term{a, v}, Fn: fr.fn, Pos: fr.block.Instrs[fr.pc].Pos()})
	}
}

func (e *Engine) dropBelow(st *State, a *Term) {
	for key, k := range st.addrs {
		if k == a || (k.Op != "faddr" && k.Op != "iaddr") {
			continue
		}
		for b := k.Args[0]; ; b = b.Args[0] {
			if b == a {
				delete(st.mem, key)
				delete(st.addrs, key)
				break
			}
			if b.Op != "faddr" && b.Op != "iaddr" {
				break
			}
		}
	}
}

// Havoc forgets the contents of everything reachable from a fresh object.
func (e *Engine) Havoc(st *State, t *Term, why *Term) {
	seen := map[*Term]bool{}
	var h func(t *Term)
	h = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case "mkiface", "slice", "conv", "struct", "array", "seq", "el", "sp", "closure", "tuple":
			for _, a := range t.Args {
				h(a)
			}
			return
		case "faddr", "iaddr", "obj":
		default:
			return
		}
		r := Root(t)
		if r.Op != "obj" {
			return
		}
		// follow stored references first
		for key, k := range st.addrs {
			if v, ok := st.mem[key]; ok && Root(k) == r {
				h(v)
			}
		}
		target := t
		old := e.Load(st, target, elemOf(target.Typ))
		e.dropBelow(st, target)
		st.gen[r.key]++
		st.mem[target.key] = e.T("after", fmt.Sprintf("%s@%d", why.Str, st.seq), elemOf(target.Typ), why, target, old)
		st.addrs[target.key] = target
	}
	h(t)
}

func (e *Engine) slice(st *State, x *ssa.Slice) *Term {
	v := e.val(st, x.X)
	lo := e.Int(0)
	if x.Low != nil {
		lo = e.val(st, x.Low)
	}
	var hi *Term
	if x.High != nil {
		hi = e.val(st, x.High)
	}
	return e.sliceOf(st, v, lo, hi, x.X.Type(), x.Type())
}

func (e *Engine) sliceOf(st *State, v, lo, hi *Term, xt, typ types.Type) *Term {
	for _, b := range []**Term{&lo, &hi} {
		if *b != nil && (*b).Op == "bin" {
			if i := e.ival(st, *b); i.lo == i.hi {
				*b = e.Int(i.lo)
			}
		}
	}
	if p, ok := xt.Underlying().(*types.Pointer); ok {
		if a, ok := p.Elem().Underlying().(*types.Array); ok {
			if hi == nil {
				hi = e.Int(a.Len())
			}
			return e.T("slice", "", typ, v, lo, hi)
		}
	}
	if s, ok := ConstStr(v); ok {
		l, ok1 := ConstInt(lo)
		h, ok2 := int64(len(s)), true
		if hi != nil {
			h, ok2 = ConstInt(hi)
		}
		if ok1 && ok2 && l >= 0 && l <= h && h <= int64(len(s)) {
			return e.StrC(s[l:h])
		}
	}
	if hi == nil {
		if k, ok := ConstInt(lo); ok && k == 0 {
			return v
		}
		hi = e.Len(st, v)
	}
	if v.Op == "slice" {
		if a, ok := ConstInt(v.Args[1]); ok {
			l, ok1 := ConstInt(lo)
			h, ok2 := ConstInt(hi)
			if ok1 && ok2 {
				return e.T("slice", "", typ, v.Args[0], e.Int(a+l), e.Int(a+h))
			}
		}
	}
	if k, ok := ConstInt(lo); ok && k == 0 && hi == e.Len(st, v) {
		return v
	}
	return e.T("subslice", "", typ, v, lo, hi)
}

// Len is the length of a slice, string or map.
func (e *Engine) Len(st *State, v *Term) *Term {
	switch v.Op {
	case "nil":
		return e.Int(0)
	case "const":
		if s, ok := ConstStr(v); ok {
			return e.Int(int64(len(s)))
		}
	case "slice":
		l, ok1 := ConstInt(v.Args[1])
		h, ok2 := ConstInt(v.Args[2])
		if ok1 && ok2 {
			return e.Int(h - l)
		}
	case "array":
		return e.Int(int64(len(v.Args)))
	case "seq":
		n := int64(0)
		for _, p := range v.Args {
			if p.Op == "el" {
				n++
				continue
			}
			k, ok := ConstInt(e.Len(st, p.Args[0]))
			if !ok {
				return e.T("len", "", types.Typ[types.Int], v)
			}
			n += k
		}
		return e.Int(n)
	case "subslice":
		return e.binop(st, token.SUB, v.Args[2], v.Args[1], types.Typ[types.Int], types.Typ[types.Int])
	case "obj":
		if n, ok := st.mem[e.T("lenof", "", nil, v).key]; ok {
			return n
		}
	case "conv":
		if v.Typ != nil {
			switch v.Typ.Underlying().(type) {
			case *types.Slice, *types.Basic:
				return e.Len(st, v.Args[0])
			}
		}
	}
	if n, _, i, ok := CallOf(v); ok && i == 0 {
		switch {
		case strings.HasSuffix(n, "common.Hash).Bytes"):
			return e.Int(32)
		case strings.HasSuffix(n, "common.Address).Bytes"):
			return e.Int(20)
		}
	}
	if v.Typ != nil {
		tt := v.Typ
		if p, ok := tt.Underlying().(*types.Pointer); ok {
			tt = p.Elem()
		}
		if a, ok := tt.Underlying().(*types.Array); ok {
			return e.Int(a.Len())
		}
	}
	return e.T("len", "", types.Typ[types.Int], v)
}

// Parts flattens a slice value into el(x) and sp(x) parts.
func (e *Engine) Parts(st *State, v *Term) []*Term {
	switch v.Op {
	case "nil":
		return nil
	case "seq":
		return v.Args
	case "slice":
		lo, ok1 := ConstInt(v.Args[1])
		hi, ok2 := ConstInt(v.Args[2])
		if ok1 && ok2 {
			if lo == hi {
				return nil
			}
			at := elemOf(v.Args[0].Typ)
			var n int64 = -1
			if at != nil {
				if a, ok := at.Underlying().(*types.Array); ok {
					n = a.Len()
				}
			}
			whole := e.Load(st, v.Args[0], at)
			if lo == 0 && hi == n && (n > 16 || isByteArr(at)) && whole.Op != "array" && whole.Op != "zero" {
				return []*Term{e.T("sp", "", nil, whole)}
			}
			if hi-lo <= 4096 {
				var out []*Term
				var et types.Type
				if at != nil {
					et = elemOf(at)
				}
				for i := lo; i < hi; i++ {
					out = append(out, e.T("el", "", nil, e.Load(st, e.T("iaddr", "", ptrTo(et), v.Args[0], e.Int(i)), et)))
				}
				out = joinRuns(e, out)
				if lo == 0 && hi == n {
					out = padRun(e, out)
				}
				return out
			}
		}
	case "const":
		if s, ok := ConstStr(v); ok && s == "" {
			return nil
		}
	}
	return []*Term{e.T("sp", "", nil, v)}
}

func isByteArr(t types.Type) bool {
	b, ok := elemOf(t).Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// joinRuns replaces all bytes of a fixed-width encoding, in order, by the
// encoding.
func joinRuns(e *Engine, ps []*Term) []*Term {
	var out []*Term
	for i := 0; i < len(ps); i++ {
		if x := ps[i].Args[0]; x.Op == "index" && x.Args[0].Op == "FillBytes" {
			n, ok := ConstInt(x.Args[0].Args[1])
			j := i
			for ok && j < len(ps) && j-i < int(n) && ps[j].Args[0].Op == "index" && ps[j].Args[0].Args[0] == x.Args[0] {
				if k, ok := ConstInt(ps[j].Args[0].Args[1]); !ok || k != int64(j-i) {
					break
				}
				j++
			}
			if ok && int64(j-i) == n {
				out = append(out, e.T("sp", "", nil, x.Args[0]))
				i = j - 1
				continue
			}
		}
		out = append(out, ps[i])
	}
	return out
}

// padRun: a buffer of zero bytes that ends in a whole big-endian encoding is
// the wider encoding.
func padRun(e *Engine, ps []*Term) []*Term {
	k := len(ps) - 1
	if k < 1 || ps[k].Op != "sp" || ps[k].Args[0].Op != "FillBytes" {
		return ps
	}
	for _, p := range ps[:k] {
		if z, ok := ConstInt(p.Args[0]); p.Op != "el" || !ok || z != 0 {
			return ps
		}
	}
	x := ps[k].Args[0]
	n, ok := ConstInt(x.Args[1])
	if !ok {
		return ps
	}
	return []*Term{e.T("sp", "", nil, e.T("FillBytes", "", x.Typ, x.Args[0], e.Int(n+int64(k))))}
}

// Seq makes a sequence value.
func (e *Engine) Seq(typ types.Type, parts []*Term) *Term {
	if len(parts) == 0 {
		return e.mk("seq", "", 0, typ, nil, nil)
	}
	// join adjacent constant strings
	var out []*Term
	for _, p := range parts {
		if n := len(out); n > 0 && p.Op == "sp" && out[n-1].Op == "sp" {
			a, ok1 := ConstStr(out[n-1].Args[0])
			b, ok2 := ConstStr(p.Args[0])
			if ok1 && ok2 {
				out[n-1] = e.T("sp", "", nil, e.StrC(a+b))
				continue
			}
		}
		out = append(out, p)
	}
	return e.mk("seq", "", 0, typ, nil, nil, out...)
}

func isStr(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (e *Engine) binop(st *State, op token.Token, a, b *Term, xt, rt types.Type) *Term {
	if a.Op == "const" && b.Op == "const" {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if a.C.Kind() == b.C.Kind() || (a.C.Kind() != constant.String && a.C.Kind() != constant.Bool) {
				return e.Bool(constant.Compare(a.C, op, b.C))
			}
		case token.SHL, token.SHR:
			if n, ok := ConstInt(b); ok && n < 4096 && n >= 0 && a.C.Kind() == constant.Int {
				return e.wrap(constant.Shift(a.C, op, uint(n)), rt)
			}
		case token.QUO, token.REM:
			if constant.Sign(b.C) != 0 && a.C.Kind() == constant.Int && b.C.Kind() == constant.Int {
				o := op
				if op == token.QUO {
					o = token.QUO_ASSIGN
				}
				return e.wrap(constant.BinaryOp(a.C, o, b.C), rt)
			}
		default:
			if a.C.Kind() == b.C.Kind() {
				return e.wrap(constant.BinaryOp(a.C, op, b.C), rt)
			}
		}
	}
	switch op {
	case token.EQL:
		return e.eq(a, b)
	case token.NEQ:
		return e.not(e.eq(a, b))
	case token.LSS:
		return e.lt(a, b)
	case token.GTR:
		return e.lt(b, a)
	case token.LEQ:
		return e.not(e.lt(b, a))
	case token.GEQ:
		return e.not(e.lt(a, b))
	case token.ADD:
		if isStr(rt) {
			ps := append(append([]*Term(nil), e.strParts(a)...), e.strParts(b)...)
			return e.Seq(rt, ps)
		}
		if n, ok := ConstInt(b); ok && n == 0 {
			return a
		}
		if n, ok := ConstInt(a); ok && n == 0 {
			return b
		}
		if a.id > b.id {
			a, b = b, a
		}
	case token.SUB:
		if n, ok := ConstInt(b); ok && n == 0 {
			return a
		}
		if a == b {
			return e.Int(0)
		}
	case token.MUL, token.AND, token.OR, token.XOR:
		if a.id > b.id {
			a, b = b, a
		}
	}
	return e.T("bin", op.String(), rt, a, b)
}

func (e *Engine) strParts(v *Term) []*Term {
	if v.Op == "seq" {
		return v.Args
	}
	if s, ok := ConstStr(v); ok && s == "" {
		return nil
	}
	return []*Term{e.T("sp", "", nil, v)}
}

// wrap reduces a constant to the width of its type.
func (e *Engine) wrap(c constant.Value, t types.Type) *Term {
	if c.Kind() == constant.Int && t != nil {
		if b, ok := t.Underlying().(*types.Basic); ok {
			bits, signed := 0, false
			switch b.Kind() {
			case types.Uint8:
				bits = 8
			case types.Uint16:
				bits = 16
			case types.Uint32:
				bits = 32
			case types.Uint, types.Uint64, types.Uintptr:
				bits = 64
			case types.Int8:
				bits, signed = 8, true
			case types.Int16:
				bits, signed = 16, true
			case types.Int32:
				bits, signed = 32, true
			case types.Int, types.Int64:
				bits, signed = 64, true
			}
			if bits > 0 {
				m := constant.Shift(constant.MakeInt64(1), token.SHL, uint(bits))
				mask := constant.BinaryOp(m, token.SUB, constant.MakeInt64(1))
				c = constant.BinaryOp(c, token.AND, mask)
				if signed && constant.Compare(c, token.GEQ, constant.Shift(constant.MakeInt64(1), token.SHL, uint(bits-1))) {
					c = constant.BinaryOp(c, token.SUB, m)
				}
			}
		}
	}
	return e.Const(c, nil)
}

func (e *Engine) not(a *Term) *Term {
	if b, ok := ConstBool(a); ok {
		return e.Bool(!b)
	}
	if a.Op == "not" {
		return a.Args[0]
	}
	return e.T("not", "", types.Typ[types.Bool], a)
}

func (e *Engine) eq(a, b *Term) *Term {
	if a == b {
		return e.Bool(true)
	}
	if v, ok := ConstBool(b); ok {
		if v {
			return a
		}
		return e.not(a)
	}
	if v, ok := ConstBool(a); ok {
		if v {
			return b
		}
		return e.not(b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return e.T("eq", "", types.Typ[types.Bool], a, b)
}

func (e *Engine) lt(a, b *Term) *Term {
	if a == b {
		return e.Bool(false)
	}
	return e.T("lt", "", types.Typ[types.Bool], a, b)
}

func (e *Engine) convert(st *State, v *Term, from, to types.Type) *Term {
	if v.Op == "const" && v.C != nil {
		b, ok := to.Underlying().(*types.Basic)
		if ok && b.Info()&types.IsInteger != 0 && v.C.Kind() == constant.Int {
			return e.wrap(v.C, to)
		}
		if ok && b.Info()&types.IsFloat != 0 {
			return e.Const(constant.ToFloat(v.C), nil)
		}
		if ok && b.Info()&types.IsString != 0 && v.C.Kind() == constant.String {
			return v
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	return e.T("conv", "", to, v)
}

// ---- facts ----

// IsNil evaluates nilness.
func (e *Engine) IsNil(st *State, v *Term) (isnil, known bool) {
	switch v.Op {
	case "nil":
		return true, true
	case "obj", "func", "closure", "global", "faddr", "iaddr", "slice", "mkiface", "struct", "nonnil":
		if v.Op == "slice" {
			return false, true
		}
		return false, true
	case "seq":
		if len(v.Args) > 0 {
			for _, p := range v.Args {
				if p.Op == "el" {
					return false, true
				}
			}
		}
	case "const":
		return false, true
	}
	if b, ok := st.nilf[v.key]; ok {
		return b, true
	}
	// net/http: the body of a response that came with a nil error is non-nil
	if v.Op == "load" && v.Args[0].Op == "faddr" && v.Args[0].Str == "Body" && httpResult(v.Args[0].Args[0]) {
		if n, ok := e.IsNil(st, v.Args[0].Args[0]); ok && !n {
			return false, true
		}
	}
	// (T, error): a nil error comes with a usable first result
	if v.Op == "ret" || v.Op == "call" || v.Op == "eff" {
		base, idx := v, 0
		if v.Op == "ret" {
			base, idx = v.Args[0], v.Idx
		}
		if idx == 0 {
			if en, ok := st.nilf["err:"+base.key]; ok && en {
				if v.Typ != nil {
					switch v.Typ.Underlying().(type) {
					case *types.Pointer, *types.Interface:
						return false, true
					}
				}
			}
		}
	}
	return false, false
}

// Truth evaluates a boolean term under the facts of the path.
func (st *State) Truth(c *Term) (bool, bool) { return st.e.truthOf(st, c) }

// Nil evaluates nilness under the facts of the path.
func (st *State) Nil(v *Term) (bool, bool) { return st.e.IsNil(st, v) }

// Range is the interval known for an integer term.
func (st *State) Range(v *Term) (int64, int64) { i := st.e.ival(st, v); return i.lo, i.hi }

func (e *Engine) truthOf(st *State, c *Term) (bool, bool) {
	if b, ok := ConstBool(c); ok {
		return b, true
	}
	if v, ok := st.truth[c.key]; ok {
		return v, true
	}
	switch c.Op {
	case "not":
		v, ok := e.truthOf(st, c.Args[0])
		return !v, ok
	case "eq":
		a, b := c.Args[0], c.Args[1]
		if a.Op == "nil" {
			a, b = b, a
		}
		if b.Op == "nil" {
			return e.IsNil(st, a)
		}
		if a.Op == "const" && b.Op == "const" && a.C.Kind() == b.C.Kind() {
			return constant.Compare(a.C, token.EQL, b.C), true
		}
		if isIntTerm(a) && isIntTerm(b) {
			x, y := e.ival(st, a), e.ival(st, b)
			if x.lo == x.hi && y.lo == y.hi && x.lo == y.lo && x.hi != math.MaxInt64 && x.lo != math.MinInt64 {
				return true, true
			}
			if x.hi < y.lo || y.hi < x.lo {
				return false, true
			}
		}
	case "lt":
		x, y := e.ival(st, c.Args[0]), e.ival(st, c.Args[1])
		if x.hi < y.lo {
			return true, true
		}
		if x.lo >= y.hi && !(x.lo == math.MaxInt64) {
			return false, true
		}
		// transitive through one known order fact
		if v, ok := st.truth[e.lt(c.Args[1], c.Args[0]).key]; ok && v {
			return false, true
		}
	case "taok":
		if n, ok := e.IsNil(st, c.Args[0]); ok && n {
			return false, true
		}
	}
	return false, false
}

func isIntTerm(t *Term) bool {
	if t.Op == "const" {
		return t.C != nil && t.C.Kind() == constant.Int
	}
	if t.Typ == nil {
		return false
	}
	b, ok := t.Typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (e *Engine) ival(st *State, v *Term) ival {
	full := ival{math.MinInt64, math.MaxInt64}
	if n, ok := ConstInt(v); ok {
		return ival{n, n}
	}
	if v.Op == "const" {
		if v.C != nil && v.C.Kind() == constant.Int && constant.Sign(v.C) > 0 {
			return ival{math.MaxInt64, math.MaxInt64}
		}
		return full
	}
	r := full
	if v.Op == "len" {
		r.lo = 0
	}
	if v.Typ != nil {
		if b, ok := v.Typ.Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Uint8:
				r = ival{0, 255}
			case types.Uint16:
				r = ival{0, 65535}
			case types.Uint32:
				r = ival{0, 1<<32 - 1}
			case types.Uint, types.Uint64:
				r.lo = 0
			}
		}
	}
	switch v.Op {
	case "bin":
		a, b := e.ival(st, v.Args[0]), e.ival(st, v.Args[1])
		const lim = int64(1) << 40
		small := a.lo > -lim && a.hi < lim && b.lo > -lim && b.hi < lim
		loOnly := a.lo > -lim && b.hi < lim && b.lo > -lim
		switch v.Str {
		case "+":
			if small {
				r = ival{max(r.lo, a.lo+b.lo), min(r.hi, a.hi+b.hi)}
			} else if a.lo > -lim && b.lo > -lim && isLenSum(v) {
				r.lo = max(r.lo, a.lo+b.lo)
			}
		case "-":
			if small {
				r = ival{max(r.lo, a.lo-b.hi), min(r.hi, a.hi-b.lo)}
			} else if loOnly && a.lo > b.hi-lim {
				r.lo = max(r.lo, a.lo-b.hi)
			}
		case "%":
			if b.lo == b.hi && b.lo > 0 && a.lo >= 0 {
				r = ival{0, b.lo - 1}
			}
		case "&":
			if b.lo == b.hi && b.lo >= 0 {
				r = ival{0, b.lo}
			} else if a.lo == a.hi && a.lo >= 0 {
				r = ival{0, a.lo}
			}
		}
	case "ret", "call":
		if n, _, _, ok := CallOf(v); ok {
			for _, s := range []string{"math/big.Int).Sign", "math/big.Int).Cmp", "math/big.Int).CmpAbs", "bytes.Compare", "strings.Compare"} {
				if strings.HasSuffix(n, s) {
					r = ival{-1, 1}
				}
			}
			for _, s := range []string{"math/big.Int).BitLen", "bits.Len", "bits.Len64"} {
				if strings.HasSuffix(n, s) {
					r.lo = max(r.lo, 0)
				}
			}
		}
	case "conv":
		a := e.ival(st, v.Args[0])
		if isIntTerm(v.Args[0]) && a.lo >= r.lo && a.hi <= r.hi {
			r = a
		}
	}
	if f, ok := st.ivs[v.key]; ok {
		r.lo, r.hi = max(r.lo, f.lo), min(r.hi, f.hi)
	}
	return r
}

// isLenSum: sums of lengths and small constants do not wrap in practice.
func isLenSum(v *Term) bool {
	for _, a := range v.Args {
		if a.Op != "len" && a.Op != "const" {
			return false
		}
	}
	return true
}

// assume records c == v; false when contradictory.
func (e *Engine) assume(st *State, c *Term, v bool, pos token.Pos) bool {
	st.Facts = append(st.Facts, Fact{c, v, pos})
	return e.assume1(st, c, v)
}

func (e *Engine) assume1(st *State, c *Term, v bool) bool {
	if t, ok := e.truthOf(st, c); ok {
		return t == v
	}
	st.truth[c.key] = v
	switch c.Op {
	case "not":
		return e.assume1(st, c.Args[0], !v)
	case "eq":
		a, b := c.Args[0], c.Args[1]
		if a.Op == "nil" {
			a, b = b, a
		}
		if b.Op == "nil" {
			st.nilf[a.key] = v
			if a.Op == "ret" && isError(a.Typ) {
				st.nilf["err:"+a.Args[0].key] = v
			}
			return true
		}
		if isIntTerm(a) && isIntTerm(b) {
			x, y := e.ival(st, a), e.ival(st, b)
			if v {
				lo, hi := max(x.lo, y.lo), min(x.hi, y.hi)
				e.setIv(st, a, lo, hi)
				e.setIv(st, b, lo, hi)
			} else {
				if y.lo == y.hi {
					if x.lo == y.lo {
						e.setIv(st, a, x.lo+1, x.hi)
					}
					if x.hi == y.lo {
						e.setIv(st, a, x.lo, x.hi-1)
					}
				}
				if x.lo == x.hi {
					if y.lo == x.lo {
						e.setIv(st, b, y.lo+1, y.hi)
					}
					if y.hi == x.lo {
						e.setIv(st, b, y.lo, y.hi-1)
					}
				}
			}
		}
	case "lt":
		a, b := c.Args[0], c.Args[1]
		x, y := e.ival(st, a), e.ival(st, b)
		if v {
			if y.hi != math.MinInt64 {
				e.setIv(st, a, x.lo, min(x.hi, dec(y.hi)))
			}
			e.setIv(st, b, max(y.lo, inc(x.lo)), y.hi)
		} else {
			e.setIv(st, a, max(x.lo, y.lo), x.hi)
			e.setIv(st, b, y.lo, min(y.hi, x.hi))
		}
	case "call":
		if c.Str == "errors.Is" && v {
			a := c.Args[0]
			if n, ok := e.IsNil(st, a); ok && n {
				return false
			}
			st.nilf[a.key] = false
			if a.Op == "ret" && isError(a.Typ) {
				st.nilf["err:"+a.Args[0].key] = false
			}
		}
	case "taok":
		if v {
			st.nilf[c.Args[0].key] = false
		}
	}
	return true
}

func dec(x int64) int64 {
	if x == math.MaxInt64 {
		return x
	}
	return x - 1
}
func inc(x int64) int64 {
	if x == math.MinInt64 {
		return x
	}
	return x + 1
}

func (e *Engine) setIv(st *State, v *Term, lo, hi int64) {
	if v.Op == "const" {
		return
	}
	st.ivs[v.key] = ival{lo, hi}
	if v.Op == "bin" {
		// x-c and x+c refine x
		if k, ok := ConstInt(v.Args[1]); ok && lo > -(1<<40) && hi < 1<<40 {
			switch v.Str {
			case "-":
				e.setIv(st, v.Args[0], lo+k, hi+k)
			case "+":
				e.setIv(st, v.Args[0], lo-k, hi-k)
			}
		}
	}
	if v.Op == "conv" && isIntTerm(v.Args[0]) && lo > math.MinInt64 && hi < math.MaxInt64 {
		// only when the conversion preserves the value
		a := e.ival(st, v.Args[0])
		t := e.ival(&State{e: e, ivs: map[string]ival{}}, e.T("fresh", "typ", v.Typ))
		_ = t
		if b, ok := v.Typ.Underlying().(*types.Basic); ok && a.lo >= 0 && (b.Kind() == types.Int || b.Kind() == types.Int64 || b.Kind() == types.Uint64 || b.Kind() == types.Uint) {
			e.setIv(st, v.Args[0], max(a.lo, lo), min(a.hi, hi))
		}
	}
}

func isError(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

// typeOk is the outcome of a type assertion.
func (e *Engine) typeOk(st *State, v *Term, T types.Type) *Term {
	if v.Op == "mkiface" {
		if it, ok := T.Underlying().(*types.Interface); ok {
			return e.Bool(types.Implements(v.Typ, it))
		}
		return e.Bool(types.Identical(v.Typ, T))
	}
	if v.Op == "nil" {
		return e.Bool(false)
	}
	return e.T("taok", "", T, v)
}

func (e *Engine) assertVal(st *State, v *Term, T types.Type) *Term {
	if _, ok := T.Underlying().(*types.Interface); ok {
		return v
	}
	if v.Op == "mkiface" {
		if types.Identical(v.Typ, T) {
			return v.Args[0]
		}
		return e.zero(T)
	}
	return e.T("ta", "", T, v)
}

// ---- hazards ----

func (e *Engine) hazard(st *State, kind string, pos token.Pos, args ...*Term) {
	if e.Hazards {
		st.Events = append(st.Events, &Event{Kind: kind, Args: args, Pos: pos, Fn: st.frames[len(st.frames)-1].fn})
	}
}

func (e *Engine) hazardSafe(st *State, kind string, pos token.Pos, args ...*Term) {
	if e.Hazards {
		st.Events = append(st.Events, &Event{Kind: kind, Args: args, Pos: pos, Safe: true, Fn: st.frames[len(st.frames)-1].fn})
	}
}

func (e *Engine) derefHazard(st *State, v *Term, pos token.Pos) {
	if !e.Hazards {
		return
	}
	switch v.Op {
	case "obj", "faddr", "iaddr", "global":
		return
	}
	n, known := e.IsNil(st, v)
	if known && !n {
		e.hazardSafe(st, "deref", pos, v)
	} else {
		e.hazard(st, "deref", pos, v)
	}
}

func (e *Engine) boundHazard(st *State, v, i *Term, t types.Type, pos token.Pos) {
	if !e.Hazards {
		return
	}
	n := e.Len(st, v)
	x, y := e.ival(st, i), e.ival(st, n)
	ok := x.lo >= 0 && (x.hi < y.lo)
	if !ok && x.lo >= 0 {
		if tv, known := e.truthOf(st, e.lt(i, n)); known && tv {
			ok = true
		}
	}
	if ok {
		e.hazardSafe(st, "index", pos, v, i)
	} else {
		e.hazard(st, "index", pos, v, i)
	}
}

// SortedFacts renders the branch decisions of a path.
func (p *Path) Decisions(prog *load.Program) []string {
	var out []string
	for _, f := range p.Facts {
		s := f.Cond.String()
		if len(s) > 90 {
			s = s[:90] + "…"
		}
		out = append(out, fmt.Sprintf("%s: %s = %v", prog.Pos(f.Pos), s, f.Val))
	}
	return out
}

var _ = sort.Strings

func httpResult(t *Term) bool {
	if t.Op == "ret" {
		t = t.Args[0]
	}
	return t.Op == "eff" && strings.Contains(t.Str, "net/http")
}

// Set stores a value at an address of a state.
func (st *State) Set(a, v *Term) {
	st.mem[a.key] = v
	st.addrs[a.key] = a
}

// FieldOf reads the named field of the struct behind a pointer.
func (e *Engine) FieldOf(st *State, p *Term, name string) *Term {
	s := structOf(p.Typ)
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return e.Load(st, e.fieldAddr(p, i, p.Typ), s.Field(i).Type())
		}
	}
	return nil
}

// FieldOfValue projects the named field of a struct value.
func (e *Engine) FieldOfValue(v *Term, t types.Type, name string) *Term {
	s := structOf(t)
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return e.proj(v, "field", name, i, s.Field(i).Type())
		}
	}
	return nil
}

// Read is the value a path holds at an address.
func (st *State) Read(a *Term) *Term { return st.e.Load(st, a, elemOf(a.Typ)) }
