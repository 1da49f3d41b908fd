package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"

	"zkcheck/internal/load"
	"zkcheck/internal/poly"
)

// Intrinsic is an abstract transfer function for a callee.
type Intrinsic func(m *Machine, c *Call) Value

// Call describes a call site being evaluated.
type Call struct {
	Fn   *ssa.Function
	Args []Value
	Pos  token.Pos
}

// Constraint is a recorded circuit assertion.
type Constraint struct {
	Kind  string // eq, bool, range, le, ne
	A, B  *Wire
	N     int
	P     *poly.Poly // eq: A-B ; others: subject
	Pos   token.Pos
	Stack []string
}

// Machine is an analysis context.
type Machine struct {
	bnd  map[*Wire][2]*big.Int
	gf2  *GF2
	Prog *load.Program
	Sp   *poly.Space // circuit field
	Z    *poly.Space // integers, sharing atoms with Sp
	Mod  *big.Int

	Over     map[string]Intrinsic // check-specific transfer functions
	ZeroHook func(types.Type) (Value, bool)
	// Ordinal numbers the uses of values whose properties may be asserted
	// only later; Late says that one of them is, IsLate whether an earlier
	// run has said so.
	Ordinal func() int
	Late    func(int)
	IsLate  func(int) bool
	// AtEnd runs when an obligation that used the machine has finished.
	AtEnd []func()
	// FieldHook reads a field of a modelled value.
	FieldHook func(v Value, field string) (Value, bool)

	Cons   []*Constraint
	Wires  []*Wire
	Events []Event
	Loose  []Loose // values used as bits that nothing constrains at that point

	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]bool
	stack   []*frame
	steps   int
	MaxStep int
	numbers map[*ssa.Function]*fnInfo
	API     *API

	FuncsSeen      map[string]bool // analysed functions
	Trace          func(string)
	OnAbort        func(string)
	Bools          map[string]bool
	wireMemo       map[string]*Wire
	GlobalsWritten map[string]bool
	DropAbort      bool

	jrn    *journal
	nmerge int
}

// Event is a property-specific record.
type Event struct {
	Kind string
	Args []Value
	Pos  token.Pos
}

// Loose is a value treated as a bit, or a bit produced, without a constraint.
type Loose struct {
	W     *Wire
	What  string
	Stack []string
}

func (m *Machine) loose(w *Wire, what string) {
	if !m.IsBool(w) {
		m.Loose = append(m.Loose, Loose{w, what, m.stackNames()})
	}
}

type fnInfo struct {
	idx  map[ssa.Value]int
	n    int
	vals []ssa.Instruction // defining instructions by index (nil: parameters)
	ipd  []*ssa.BasicBlock
}

type frame struct {
	fn        *ssa.Function
	info      *fnInfo
	env       []Value
	binds     []Value
	args      []Value
	defers    []func()
	pos       token.Pos
	result    Value
	panicking any
	recovered bool
}

// New returns a machine over the field with the given modulus (nil: integers).
func New(p *load.Program, mod *big.Int) *Machine {
	m := &Machine{Prog: p, Mod: mod, Sp: poly.NewSpace(mod), Over: map[string]Intrinsic{},
		globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{},
		numbers: map[*ssa.Function]*fnInfo{}, MaxStep: 400_000_000, FuncsSeen: map[string]bool{},
		wireMemo: map[string]*Wire{}, GlobalsWritten: map[string]bool{},
		Ordinal: func() int { return 0 }, Late: func(int) {}, IsLate: func(int) bool { return false }}
	m.Z = m.Sp.Over(nil)
	m.API = &API{m: m}
	return m
}

// Pos returns the current source position.
func (m *Machine) Pos() token.Pos {
	for i := len(m.stack) - 1; i >= 0; i-- {
		if m.stack[i].pos.IsValid() {
			return m.stack[i].pos
		}
	}
	return token.NoPos
}

// Where renders the call stack.
func (m *Machine) Where() string {
	var out []string
	for i := len(m.stack) - 1; i >= 0 && len(out) < 6; i-- {
		f := m.stack[i]
		out = append(out, fmt.Sprintf("%s (%s)", FuncName(f.fn), m.Prog.Pos(f.pos)))
	}
	return strings.Join(out, " < ")
}

// Within reports whether a function whose name starts with one of the
// prefixes is being executed.
func (m *Machine) Within(prefix ...string) bool {
	for _, f := range m.stack {
		n := FuncName(f.fn)
		for _, p := range prefix {
			if strings.HasPrefix(n, p) {
				return true
			}
		}
	}
	return false
}

func (m *Machine) stackNames() []string {
	var out []string
	for _, f := range m.stack {
		out = append(out, FuncName(f.fn))
	}
	return out
}

// Undecided stops the analysis.
func (m *Machine) Undecided(msg string) {
	panic(&Undecided{Msg: msg, Pos: m.Where()})
}

// AbortNow models a panic of the analysed code.
func (m *Machine) AbortNow(v any) {
	panic(&Abort{Val: v, Pos: m.Where()})
}

// FuncName is a stable name: module-relative package path + receiver + name.
func FuncName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	o := fn
	if o.Origin() != nil {
		o = o.Origin()
	}
	if o.Parent() != nil {
		return FuncName(o.Parent()) + "$" + strings.TrimPrefix(o.Name(), o.Parent().Name())
	}
	pkg := ""
	if o.Pkg != nil {
		pkg = o.Pkg.Pkg.Path()
	} else if ob := o.Object(); ob != nil && ob.Pkg() != nil {
		pkg = ob.Pkg().Path()
	}
	pkg = load.Rel(pkg)
	name := o.Name()
	if r := o.Signature.Recv(); r != nil {
		t := r.Type()
		ptr := ""
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
			ptr = "*"
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return pkg + ".(" + ptr + n.Obj().Name() + ")." + name
		}
	}
	return pkg + "." + name
}

// Func finds a package-level function or method by FuncName.
func (m *Machine) Func(pkgRel, name string) *ssa.Function {
	return FindFunc(m.Prog, pkgRel, name)
}

// FindFunc finds a function ("F") or method ("T.F", pointer or value) in a repository package.
func FindFunc(p *load.Program, pkgRel, name string) *ssa.Function {
	pk := p.Pkg(pkgRel)
	if pk == nil {
		pk = p.Pkgs[pkgRel]
	}
	if pk == nil {
		return nil
	}
	sp := p.SSA.Package(pk.Types)
	if i := strings.Index(name, "."); i >= 0 {
		tn, mn := name[:i], name[i+1:]
		ob := pk.Types.Scope().Lookup(tn)
		if ob == nil {
			return nil
		}
		t := ob.Type()
		for _, tt := range []types.Type{types.NewPointer(t), t} {
			ms := p.SSA.MethodSets.MethodSet(tt)
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Name() == mn {
					if f, ok := ms.At(i).Obj().(*types.Func); ok {
						return p.SSA.FuncValue(f)
					}
				}
			}
		}
		return nil
	}
	return sp.Func(name)
}

// Outcome of a guarded run.
type Outcome struct {
	Ret       Value
	Abort     *Abort
	Undecided *Undecided
}

// Run calls fn and captures aborts and undecided results.
func (m *Machine) Run(fn *ssa.Function, args ...Value) (o Outcome) {
	depth := len(m.stack)
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case *Undecided:
				o.Undecided = x
			case *Abort:
				o.Abort = x
			case error:
				o.Undecided = &Undecided{Msg: "analyser failure: " + x.Error(), Pos: m.Where()}
			default:
				o.Undecided = &Undecided{Msg: fmt.Sprint("analyser failure: ", r), Pos: m.Where()}
			}
			m.stack = m.stack[:depth]
		}
	}()
	if fn == nil {
		o.Undecided = &Undecided{Msg: "anchor function not found", Pos: "-"}
		return
	}
	o.Ret = m.call(fn, nil, args, token.NoPos)
	return
}

// InitPackages runs the package initialisers needed by fn's package.
func (m *Machine) initPkg(p *ssa.Package) {
	if p == nil || m.inited[p] {
		return
	}
	m.inited[p] = true
	lp := m.Prog.Pkgs[p.Pkg.Path()]
	if lp == nil || !lp.Bodies {
		return
	}
	init := p.Func("init")
	if init == nil || init.Blocks == nil {
		return
	}
	saved, jrn := m.stack, m.jrn
	m.stack, m.jrn = nil, nil
	m.call(init, nil, nil, token.NoPos)
	m.stack, m.jrn = saved, jrn
}

// Global returns the cell of a package-level variable.
func (m *Machine) Global(g *ssa.Global) *Value {
	if g.Pkg != nil && !m.inited[g.Pkg] {
		m.initPkg(g.Pkg)
	}
	if c, ok := m.globals[g]; ok {
		return c
	}
	c := new(Value)
	if h, ok := extGlobals[g.Pkg.Pkg.Path()+"."+g.Name()]; ok {
		*c = h(m)
	} else {
		lp := m.Prog.Pkgs[g.Pkg.Pkg.Path()]
		t := g.Type().(*types.Pointer).Elem()
		if lp == nil || !lp.Bodies {
			if types.Identical(t, types.Universe.Lookup("error").Type()) {
				*c = Iface{T: ExtType, V: &Ext{Type: "error", Data: g.Name()}}
			} else {
				*c = &Opaque{T: t, Op: "global:" + g.Pkg.Pkg.Path() + "." + g.Name()}
			}
		} else {
			*c = m.Zero(t)
		}
	}
	m.globals[g] = c
	return c
}

// GlobalByName returns the value of a package-level variable of the repository.
func (m *Machine) GlobalByName(pkgRel, name string) (Value, bool) {
	pk := m.Prog.Pkg(pkgRel)
	if pk == nil {
		return nil, false
	}
	g := m.Prog.SSA.Package(pk.Types).Var(name)
	if g == nil {
		return nil, false
	}
	return *m.Global(g), true
}

func (m *Machine) info(fn *ssa.Function) *fnInfo {
	if i, ok := m.numbers[fn]; ok {
		return i
	}
	fi := &fnInfo{idx: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		fi.idx[v] = fi.n
		fi.n++
		in, _ := v.(ssa.Instruction)
		fi.vals = append(fi.vals, in)
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, f := range fn.FreeVars {
		add(f)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	m.numbers[fn] = fi
	return fi
}

func (m *Machine) get(f *frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return m.constVal(x)
	case *ssa.Global:
		return m.Global(x)
	case *ssa.Function:
		return x
	case *ssa.Builtin:
		return x
	}
	i, ok := f.info.idx[v]
	if !ok {
		m.Undecided("unbound SSA value " + v.Name())
	}
	return f.env[i]
}

func (m *Machine) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return m.Zero(c.Type())
	}
	t := c.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		m.Undecided("constant of type " + c.Type().String())
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return trunc(i, b.Kind())
		}
		if u, ok := constant.Uint64Val(v); ok {
			return int64(u)
		}
		m.Undecided("large constant")
	case b.Info()&types.IsString != 0:
		return constant.StringVal(c.Value)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return f
	}
	m.Undecided("constant kind " + b.String())
	return nil
}

func kindOf(t types.Type) types.BasicKind {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Kind()
	}
	return types.Invalid
}

func trunc(v int64, k types.BasicKind) int64 {
	switch k {
	case types.Int8:
		return int64(int8(v))
	case types.Int16:
		return int64(int16(v))
	case types.Int32, types.UntypedRune:
		return int64(int32(v))
	case types.Uint8:
		return int64(uint8(v))
	case types.Uint16:
		return int64(uint16(v))
	case types.Uint32:
		return int64(uint32(v))
	}
	return v
}

func isUnsigned(k types.BasicKind) bool {
	switch k {
	case types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Uintptr:
		return true
	}
	return false
}

func width(k types.BasicKind) int {
	switch k {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}

// call evaluates a call of fn.
func (m *Machine) call(fn *ssa.Function, binds []Value, args []Value, pos token.Pos) Value {
	name := FuncName(fn)
	if h, ok := m.Over[name]; ok {
		m.pure("a call of " + name)
		if r := h(m, &Call{fn, args, pos}); r != notHandled {
			return r
		}
	}
	if h, ok := intrinsics[name]; ok {
		if r := h(m, &Call{fn, args, pos}); r != notHandled {
			return r
		}
	}
	if fn.Blocks == nil && fn.Name() == "init" && fn.Signature.Params().Len() == 0 {
		return nil
	}
	if fn.Synthetic == "package initializer" && len(m.stack) > 0 {
		m.initPkg(fn.Pkg)
		return nil
	}
	if fn.Blocks == nil {
		if r := m.extCall(name, fn, args, pos); r != notHandled {
			return r
		}
		m.Undecided("call of external function " + name)
	}
	if len(m.stack) > 200 {
		m.Undecided("recursion too deep in " + name)
	}
	if fn.Pkg != nil && fn.Name() != "init" {
		m.initPkg(fn.Pkg)
	}
	fi := m.info(fn)
	f := &frame{fn: fn, info: fi, env: make([]Value, fi.n), binds: binds, args: args, pos: pos}
	m.FuncsSeen[name] = true
	if len(args) != len(fn.Params) {
		m.Undecided(fmt.Sprintf("arity mismatch calling %s: %d args, %d params", name, len(args), len(fn.Params)))
	}
	for i, p := range fn.Params {
		f.env[fi.idx[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.env[fi.idx[p]] = binds[i]
	}
	m.stack = append(m.stack, f)
	depth := len(m.stack)
	func() {
		if fn.Recover != nil || hasDefer(fn) {
			defer func() {
				if r := recover(); r != nil {
					ab, ok := r.(*Abort)
					if !ok {
						panic(r)
					}
					m.stack = m.stack[:depth]
					f.panicking = ab
					m.runDefers(f)
					if f.panicking != nil {
						panic(ab)
					}
					f.result = m.recoverResult(f)
				}
			}()
		}
		m.exec(f)
	}()
	m.stack = m.stack[:depth-1]
	return f.result
}

func (m *Machine) recoverResult(f *frame) Value {
	if f.fn.Recover != nil {
		m.execFrom(f, f.fn.Recover)
		return f.result
	}
	return m.Zero(f.fn.Signature.Results())
}

func hasDefer(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Defer); ok {
				return true
			}
		}
	}
	return false
}

func (m *Machine) runDefers(f *frame) {
	for len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		d()
	}
}

func (m *Machine) exec(f *frame) { m.execFrom(f, f.fn.Blocks[0]) }

func (m *Machine) execFrom(f *frame, b *ssa.BasicBlock) { m.runTo(f, b, nil, nil) }

// runTo runs from b, entered from prev, until the function returns (result
// nil) or stop is reached. The result is then the block it was reached from;
// preset tells that the phis of stop have their values already.
func (m *Machine) runTo(f *frame, b, prev, stop *ssa.BasicBlock) (last *ssa.BasicBlock, preset bool) {
	var phiTmp []Value
	merged := false
	for {
		if b == stop {
			return prev, merged
		}
		i := 0
		if merged {
			merged = false
			for i < len(b.Instrs) {
				if _, ok := b.Instrs[i].(*ssa.Phi); !ok {
					break
				}
				i++
			}
			goto body
		}
		// phis in parallel
		phiTmp = phiTmp[:0]
		for ; i < len(b.Instrs); i++ {
			p, ok := b.Instrs[i].(*ssa.Phi)
			if !ok {
				break
			}
			k := -1
			for j, pb := range b.Preds {
				if pb == prev {
					k = j
				}
			}
			if k < 0 {
				m.Undecided("phi without predecessor")
			}
			phiTmp = append(phiTmp, m.get(f, p.Edges[k]))
		}
		for j := 0; j < i; j++ {
			f.env[f.info.idx[b.Instrs[j].(*ssa.Phi)]] = phiTmp[j]
		}
	body:
		var next *ssa.BasicBlock
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			m.steps++
			if m.steps > m.MaxStep {
				m.Undecided("analysis step budget exhausted")
			}
			if p := in.Pos(); p.IsValid() {
				f.pos = p
			}
			switch x := in.(type) {
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.If:
				cv := m.get(f, x.Cond)
				if h, ok := m.condBool(cv); ok {
					if next = m.mergeIf(f, h.P, b); next == nil {
						return nil, false
					}
					merged = true
					break
				}
				if m.truth(cv) {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Return:
				switch len(x.Results) {
				case 0:
					f.result = nil
				case 1:
					f.result = Copy(m.get(f, x.Results[0]))
				default:
					t := make(Tuple, len(x.Results))
					for j, r := range x.Results {
						t[j] = Copy(m.get(f, r))
					}
					f.result = t
				}
				return nil, false
			case *ssa.Panic:
				m.AbortNow("panic: " + m.showPanic(m.get(f, x.X)))
			case *ssa.RunDefers:
				m.runDefers(f)
			case *ssa.Defer:
				fnv, args := m.prepCall(f, &x.Call)
				pos := x.Pos()
				ff := f
				f.defers = append(f.defers, func() {
					_ = ff
					m.callValue(fnv, args, pos)
				})
			case *ssa.Store:
				a := m.get(f, x.Addr)
				p, ok := a.(*Value)
				if _, isOp := a.(*Opaque); isOp && f.fn.Synthetic == "package initializer" {
					break
				}
				if !ok {
					m.Undecided("store through " + Show(a))
				}
				if p == nil {
					m.AbortNow("nil pointer store")
				}
				if g, ok := x.Addr.(*ssa.Global); ok && f.fn.Name() != "init" {
					m.GlobalsWritten[g.String()] = true
				}
				m.assign(p, m.get(f, x.Val), x.Val.Type())
			case *ssa.MapUpdate:
				m.pure("a map update")
				mp := m.get(f, x.Map).(*Map)
				if mp == nil {
					m.AbortNow("assignment to nil map")
				}
				k := m.get(f, x.Key)
				kk := m.mapKey(k)
				if _, ok := mp.M[kk]; !ok {
					mp.Keys = append(mp.Keys, kk)
					mp.KV[kk] = k
				}
				mp.M[kk] = Copy(m.get(f, x.Value))
			case *ssa.DebugRef:
			case *ssa.Go, *ssa.Send:
				m.Undecided("concurrency in analysed code")
			case ssa.Value:
				if f.fn.Synthetic == "package initializer" {
					f.env[f.info.idx[x]] = m.evalInit(f, x)
					break
				}
				f.env[f.info.idx[x]] = m.eval(f, x)
			default:
				m.Undecided(fmt.Sprintf("instruction %T", in))
			}
		}
		if next == nil {
			m.Undecided("block without successor")
		}
		prev, b = b, next
	}
}

// evalInit evaluates an instruction of a package initialiser; what cannot be
// decided becomes an opaque value instead of stopping the analysis.
func (m *Machine) evalInit(f *frame, x ssa.Value) (v Value) {
	depth := len(m.stack)
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(*Undecided)
			if !ok {
				if _, ok := r.(*Abort); !ok {
					if _, ok := r.(error); !ok {
						panic(r)
					}
				}
			}
			_ = u
			m.stack = m.stack[:depth]
			v = &Opaque{T: x.Type(), Op: "init:" + x.String()}
			if tp, ok := x.Type().(*types.Tuple); ok {
				t := make(Tuple, tp.Len())
				for i := range t {
					t[i] = &Opaque{T: tp.At(i).Type(), Op: "init:" + x.String()}
				}
				v = t
			}
		}
	}()
	return m.eval(f, x)
}

func (m *Machine) showPanic(v Value) string {
	if i, ok := v.(Iface); ok {
		v = i.V
	}
	return Show(v)
}

// truth evaluates a branch condition.
func (m *Machine) truth(v Value) bool {
	switch x := v.(type) {
	case bool:
		return x
	}
	m.Undecided("branch on non-constant condition " + Show(v))
	return false
}

func (m *Machine) prepCall(f *frame, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	if c.IsInvoke() {
		recv := m.get(f, c.Value)
		ifv, ok := recv.(Iface)
		if !ok {
			if o, ok2 := recv.(*Opaque); ok2 {
				ifv = Iface{T: ExtType, V: o}
			} else {
				m.Undecided("invoke on " + Show(recv))
			}
		}
		for _, a := range c.Args {
			args = append(args, Copy(m.get(f, a)))
		}
		if ifv.T == nil {
			m.AbortNow("method call on nil interface: " + c.Method.Name())
		}
		return &invokeTarget{ifv, c.Method}, args
	}
	for _, a := range c.Args {
		args = append(args, Copy(m.get(f, a)))
	}
	return m.get(f, c.Value), args
}

type invokeTarget struct {
	recv Iface
	meth *types.Func
}

func (m *Machine) callValue(fv Value, args []Value, pos token.Pos) Value {
	switch x := fv.(type) {
	case *ssa.Function:
		return m.call(x, nil, args, pos)
	case *Closure:
		return m.call(x.Fn, x.Binds, args, pos)
	case *NativeFunc:
		return x.F(m, args)
	case *ssa.Builtin:
		return m.builtin(x, args)
	case *invokeTarget:
		return m.invoke(x, args, pos)
	case nil:
		m.AbortNow("call of nil function")
	}
	m.Undecided("call of " + Show(fv))
	return nil
}

// CallValue calls a function value.
func (m *Machine) CallValue(fv Value, args ...Value) Value {
	return m.callValue(fv, args, m.Pos())
}

func (m *Machine) invoke(t *invokeTarget, args []Value, pos token.Pos) Value {
	name := t.meth.Name()
	if e, ok := t.recv.V.(*Ext); ok {
		if iv, ok := e.Data.(Invoker); ok {
			m.pure("a call of " + name)
			return iv.Invoke(m, name, args)
		}
		if e.Type == "error" && name == "Error" {
			return "error"
		}
		m.Undecided("method " + name + " on " + e.Type)
	}
	if o, ok := t.recv.V.(*Opaque); ok {
		full := "invoke:" + TypeName(t.meth.Type().(*types.Signature).Recv().Type()) + "." + name
		if h, ok := m.Over[full]; ok {
			return h(m, &Call{nil, append([]Value{o}, args...), pos})
		}
		if h, ok := m.Over["invoke:."+name]; ok {
			return h(m, &Call{nil, append([]Value{o}, args...), pos})
		}
		m.Undecided("method " + name + " on opaque " + o.Op)
	}
	if t.recv.T == WireType {
		m.Undecided("method " + name + " on wire")
	}
	sel := m.Prog.SSA.MethodSets.MethodSet(t.recv.T).Lookup(t.meth.Pkg(), name)
	if sel == nil {
		m.Undecided("method " + name + " not found on " + t.recv.T.String())
	}
	fn := m.Prog.SSA.MethodValue(sel)
	if fn == nil {
		m.Undecided("no method value for " + name)
	}
	return m.call(fn, nil, append([]Value{t.recv.V}, args...), pos)
}

func (m *Machine) eval(f *frame, in ssa.Value) Value {
	switch x := in.(type) {
	case *ssa.Alloc:
		p := new(Value)
		*p = m.Zero(x.Type().Underlying().(*types.Pointer).Elem())
		return p
	case *ssa.Call:
		fv, args := m.prepCall(f, &x.Call)
		r := m.callValue(fv, args, x.Pos())
		if sig := x.Call.Signature(); sig.Results().Len() == 1 {
			return Copy(r)
		}
		return r
	case *ssa.BinOp:
		return m.binop(x.Op, m.get(f, x.X), m.get(f, x.Y), x.X.Type(), x.Y.Type())
	case *ssa.UnOp:
		v := m.get(f, x.X)
		switch x.Op {
		case token.MUL:
			return m.Load(v)
		case token.SUB:
			switch y := v.(type) {
			case int64:
				return trunc(-y, kindOf(x.Type()))
			case float64:
				return -y
			}
		case token.NOT:
			if b, ok := v.(bool); ok {
				return !b
			}
			if h, ok := v.(HBool); ok {
				return m.notBool(h)
			}
			if o, ok := v.(*Opaque); ok {
				return &Opaque{T: x.Type(), Op: "not", Args: []Value{o}}
			}
		case token.XOR:
			if y, ok := v.(int64); ok {
				return trunc(^y, kindOf(x.Type()))
			}
			if h, ok := v.(*HInt); ok {
				return m.hNot(h)
			}
		}
		m.Undecided("unary " + x.Op.String() + " on " + Show(v))
	case *ssa.ChangeType:
		return m.get(f, x.X)
	case *ssa.ChangeInterface:
		return m.get(f, x.X)
	case *ssa.MakeInterface:
		v := m.get(f, x.X)
		if w, ok := v.(*Wire); ok {
			return Iface{WireType, w}
		}
		return Iface{x.X.Type(), Copy(v)}
	case *ssa.Convert:
		return m.convert(m.get(f, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		return m.convert(m.get(f, x.X), x.X.Type(), x.Type())
	case *ssa.Extract:
		t := m.get(f, x.Tuple)
		tp, ok := t.(Tuple)
		if !ok {
			m.Undecided("extract from " + Show(t))
		}
		return tp[x.Index]
	case *ssa.FieldAddr:
		p := m.get(f, x.X)
		if o, ok := p.(*Opaque); ok {
			st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			c := new(Value)
			*c = m.opaqueField(o, st.Field(x.Field))
			return c
		}
		pv, ok := p.(*Value)
		if !ok {
			m.Undecided("field address of " + Show(p))
		}
		if pv == nil {
			m.AbortNow("nil pointer dereference")
		}
		if o, ok := (*pv).(*Opaque); ok {
			st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			c := new(Value)
			*c = m.opaqueField(o, st.Field(x.Field))
			return c
		}
		s, ok := (*pv).(Struct)
		if !ok {
			if m.FieldHook != nil {
				st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
				if v, ok := m.FieldHook(*pv, st.Field(x.Field).Name()); ok {
					c := new(Value)
					*c = v
					return c
				}
			}
			m.Undecided("field of " + Show(*pv))
		}
		return &s[x.Field]
	case *ssa.Field:
		v := m.get(f, x.X)
		if o, ok := v.(*Opaque); ok {
			st := x.X.Type().Underlying().(*types.Struct)
			return m.opaqueField(o, st.Field(x.Field))
		}
		s, ok := v.(Struct)
		if !ok {
			m.Undecided("field of " + Show(v))
		}
		return s[x.Field]
	case *ssa.IndexAddr:
		c := m.get(f, x.X)
		i := m.intIndex(m.get(f, x.Index))
		switch y := c.(type) {
		case Slice:
			if i < 0 || i >= int64(len(y)) {
				m.AbortNow(fmt.Sprintf("index out of range [%d] with length %d", i, len(y)))
			}
			return &y[i]
		case *Value:
			if y == nil {
				m.AbortNow("nil pointer dereference")
			}
			if o, ok := (*y).(*Opaque); ok {
				cc := new(Value)
				*cc = m.opaqueIndex(o, i, x.Type().Underlying().(*types.Pointer).Elem())
				return cc
			}
			a, ok := (*y).(Arr)
			if !ok {
				m.Undecided("index of " + Show(*y))
			}
			if i < 0 || i >= int64(len(a)) {
				m.AbortNow(fmt.Sprintf("index out of range [%d] with length %d", i, len(a)))
			}
			return &a[i]
		case *OpaqueSlice:
			cc := new(Value)
			*cc = m.opaqueIndex(&Opaque{T: y.T, Op: y.Op, Args: y.Args}, i, x.Type().Underlying().(*types.Pointer).Elem())
			return cc
		}
		m.Undecided("index address of " + Show(c))
	case *ssa.Index:
		c := m.get(f, x.X)
		i := m.intIndex(m.get(f, x.Index))
		switch y := c.(type) {
		case Arr:
			if i < 0 || i >= int64(len(y)) {
				m.AbortNow("index out of range")
			}
			return y[i]
		case string:
			if i < 0 || i >= int64(len(y)) {
				m.AbortNow("index out of range")
			}
			return int64(y[i])
		}
		m.Undecided("index of " + Show(c))
	case *ssa.Lookup:
		c := m.get(f, x.X)
		if s, ok := c.(string); ok {
			i := m.intIndex(m.get(f, x.Index))
			if i < 0 || i >= int64(len(s)) {
				m.AbortNow("index out of range")
			}
			return int64(s[i])
		}
		mp, ok := c.(*Map)
		if !ok {
			m.Undecided("lookup in " + Show(c))
		}
		var v Value
		found := false
		if mp != nil {
			v, found = mp.M[m.mapKey(m.get(f, x.Index))]
		}
		if !found {
			v = m.Zero(x.X.Type().Underlying().(*types.Map).Elem())
		}
		if x.CommaOk {
			return Tuple{Copy(v), found}
		}
		return Copy(v)
	case *ssa.MakeSlice:
		n := m.intIndex(m.get(f, x.Len))
		c := m.intIndex(m.get(f, x.Cap))
		if n < 0 || c < n || c > 1<<26 {
			m.AbortNow(fmt.Sprintf("makeslice: len out of range (%d,%d)", n, c))
		}
		et := x.Type().Underlying().(*types.Slice).Elem()
		s := make(Slice, c)
		for i := range s {
			s[i] = m.Zero(et)
		}
		return s[:n]
	case *ssa.MakeMap:
		return &Map{M: map[any]Value{}, KV: map[any]Value{}}
	case *ssa.MakeClosure:
		var b []Value
		for _, v := range x.Bindings {
			b = append(b, m.get(f, v))
		}
		return &Closure{x.Fn.(*ssa.Function), b}
	case *ssa.Slice:
		return m.slice(f, x)
	case *ssa.SliceToArrayPointer:
		s := m.get(f, x.X).(Slice)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			m.AbortNow("slice to array: length")
		}
		p := new(Value)
		*p = Arr(s[:n:n])
		return p
	case *ssa.TypeAssert:
		return m.typeAssert(f, x)
	case *ssa.Range:
		v := m.get(f, x.X)
		switch y := v.(type) {
		case string:
			rs := []rune(y)
			it := &iter{}
			off := 0
			for _, r := range rs {
				it.items = append(it.items, [2]Value{int64(off), int64(r)})
				off += len(string(r))
			}
			return it
		case *Map:
			it := &iter{isMap: true}
			if y != nil {
				for _, k := range y.Keys {
					it.items = append(it.items, [2]Value{y.KV[k], y.M[k]})
				}
			}
			return it
		}
		m.Undecided("range over " + Show(v))
	case *ssa.Next:
		it := m.get(f, x.Iter).(*iter)
		if it.pos >= len(it.items) {
			tp := x.Type().(*types.Tuple)
			z := func(i int) Value {
				if b, ok := tp.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
					return nil
				}
				return m.Zero(tp.At(i).Type())
			}
			return Tuple{false, z(1), z(2)}
		}
		e := it.items[it.pos]
		it.pos++
		return Tuple{true, e[0], Copy(e[1])}
	case *ssa.Phi:
		m.Undecided("unexpected phi")
	case *ssa.Select, *ssa.MakeChan:
		m.Undecided("concurrency in analysed code")
	}
	m.Undecided(fmt.Sprintf("instruction %T", in))
	return nil
}

type iter struct {
	items [][2]Value
	pos   int
	isMap bool
}

func (m *Machine) opaqueField(o *Opaque, fld *types.Var) Value {
	return m.OpaqueOf(fld.Type(), "."+fld.Name(), o)
}

func (m *Machine) opaqueIndex(o *Opaque, i int64, t types.Type) Value {
	return m.OpaqueOf(t, fmt.Sprintf("[%d]", i), o)
}

// OpaqueOf builds an abstract value of type t derived from args by op.
func (m *Machine) OpaqueOf(t types.Type, op string, args ...Value) Value {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Pointer:
		if isBig(u.Elem()) {
			key := op + "(" + showAll(args) + ")"
			a := m.Sp.Atom("big:"+key, func(a *poly.Atom) { a.Name = key; a.Kind = "opaque" })
			p := new(Value)
			*p = BigInt{m.Z.Var(a)}
			return p
		}
	case *types.Slice:
		return &OpaqueSlice{T: t, Op: op, Args: args}
	}
	return &Opaque{T: t, Op: op, Args: args}
}

func showAll(args []Value) string {
	var s []string
	for _, a := range args {
		s = append(s, Show(a))
	}
	return strings.Join(s, ",")
}

func (m *Machine) intIndex(v Value) int64 {
	if i, ok := v.(int64); ok {
		return i
	}
	m.Undecided("non-constant index or length " + Show(v))
	return 0
}

// Load dereferences a pointer.
func (m *Machine) Load(v Value) Value {
	p, ok := v.(*Value)
	if !ok {
		if o, ok := v.(*Opaque); ok {
			if pt, ok := o.T.Underlying().(*types.Pointer); ok {
				return &Opaque{T: pt.Elem(), Op: "*", Args: []Value{o}}
			}
		}
		m.Undecided("load through " + Show(v))
	}
	if p == nil {
		m.AbortNow("nil pointer dereference")
	}
	return Copy(*p)
}

func (m *Machine) slice(f *frame, x *ssa.Slice) Value {
	c := m.get(f, x.X)
	lo, hi, max := int64(0), int64(-1), int64(-1)
	if x.Low != nil {
		lo = m.intIndex(m.get(f, x.Low))
	}
	if x.High != nil {
		hi = m.intIndex(m.get(f, x.High))
	}
	if x.Max != nil {
		max = m.intIndex(m.get(f, x.Max))
	}
	switch y := c.(type) {
	case string:
		if hi < 0 {
			if x.High != nil {
				m.AbortNow("slice bounds out of range")
			}
			hi = int64(len(y))
		}
		if lo < 0 || lo > hi || hi > int64(len(y)) {
			m.AbortNow("slice bounds out of range")
		}
		return y[lo:hi]
	case Slice:
		return m.sliceOf(y, lo, hi, max, x.High != nil)
	case *Value:
		if y == nil {
			m.AbortNow("nil pointer slice")
		}
		a, ok := (*y).(Arr)
		if !ok {
			m.Undecided("slice of " + Show(*y))
		}
		return m.sliceOf(Slice(a), lo, hi, max, x.High != nil)
	case *OpaqueSlice:
		if x.Low == nil && x.High == nil {
			return y
		}
		return &OpaqueSlice{T: y.T, Op: fmt.Sprintf("[%d:%d]", lo, hi), Args: []Value{y}}
	}
	m.Undecided("slice of " + Show(c))
	return nil
}

func (m *Machine) sliceOf(s Slice, lo, hi, max int64, hiSet bool) Value {
	if !hiSet {
		hi = int64(len(s))
	}
	if max < 0 {
		max = int64(cap(s))
	}
	if lo < 0 || hi < 0 || lo > hi || hi > max || max > int64(cap(s)) {
		m.AbortNow(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", lo, hi, cap(s)))
	}
	if s == nil {
		return s
	}
	return s[lo:hi:max]
}

func (m *Machine) typeAssert(f *frame, x *ssa.TypeAssert) Value {
	v := m.get(f, x.X)
	if o, ok := v.(*Opaque); ok {
		// dynamic type unknown
		if h, ok := m.Over["typeassert"]; ok {
			return h(m, &Call{nil, []Value{o, x}, x.Pos()})
		}
	}
	iv, ok := v.(Iface)
	if !ok {
		m.Undecided("type assertion on " + Show(v))
	}
	okRes := false
	var res Value
	if iv.T != nil {
		if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			if iv.T == ExtType {
				if h, ok := m.Over["implements:"+iv.V.(*Ext).Type+":"+TypeName(x.AssertedType)]; ok {
					okRes = m.truth(h(m, nil))
				} else if iv.V.(*Ext).Type == "api" {
					okRes = types.Identical(x.AssertedType, x.X.Type()) || TypeName(x.AssertedType) == "github.com/consensys/gnark/frontend.API" || x.AssertedType.Underlying().(*types.Interface).NumMethods() == 0
				} else {
					okRes = true
				}
				res = iv
			} else if iv.T == WireType {
				okRes = x.AssertedType.Underlying().(*types.Interface).NumMethods() == 0
				res = iv
			} else {
				okRes = types.Implements(iv.T, x.AssertedType.Underlying().(*types.Interface))
				res = iv
			}
		} else {
			okRes = types.Identical(iv.T, x.AssertedType)
			res = iv.V
		}
	}
	if !okRes {
		if !x.CommaOk {
			m.AbortNow("failed type assertion to " + x.AssertedType.String())
		}
		return Tuple{m.Zero(x.AssertedType), false}
	}
	if x.CommaOk {
		return Tuple{Copy(res), true}
	}
	return Copy(res)
}

func (m *Machine) binop(op token.Token, a, b Value, ta, tb types.Type) Value {
	switch op {
	case token.EQL:
		if o := m.opaqueCmp("eq", a, b); o != nil {
			return o
		}
		if r, ok := m.boolEq(a, b); ok {
			return r
		}
		return m.equal(a, b)
	case token.NEQ:
		if o := m.opaqueCmp("ne", a, b); o != nil {
			return o
		}
		if r, ok := m.boolEq(a, b); ok {
			if h, ok := r.(HBool); ok {
				return m.notBool(h)
			}
			return !r.(bool)
		}
		return !m.equal(a, b)
	}
	k := kindOf(ta)
	switch x := a.(type) {
	case int64:
		y, ok := b.(int64)
		if !ok {
			break
		}
		uns := isUnsigned(k)
		switch op {
		case token.ADD:
			return trunc(x+y, k)
		case token.SUB:
			return trunc(x-y, k)
		case token.MUL:
			return trunc(x*y, k)
		case token.QUO, token.REM:
			if y == 0 {
				m.AbortNow("integer divide by zero")
			}
			var r int64
			if uns {
				if op == token.QUO {
					r = int64(uint64(x) / uint64(y))
				} else {
					r = int64(uint64(x) % uint64(y))
				}
			} else if y == -1 {
				if op == token.QUO {
					r = -x
				}
			} else if op == token.QUO {
				r = x / y
			} else {
				r = x % y
			}
			return trunc(r, k)
		case token.AND:
			return trunc(x&y, k)
		case token.OR:
			return trunc(x|y, k)
		case token.XOR:
			return trunc(x^y, k)
		case token.AND_NOT:
			return trunc(x&^y, k)
		case token.SHL, token.SHR:
			if !isUnsigned(kindOf(tb)) && y < 0 {
				m.AbortNow("negative shift amount")
			}
			n := uint64(y)
			if op == token.SHL {
				if n >= 64 {
					return int64(0)
				}
				return trunc(x<<n, k)
			}
			if uns {
				if n >= 64 {
					return int64(0)
				}
				return trunc(int64(uint64(x)>>n), k)
			}
			if n >= 64 {
				n = 63
			}
			return trunc(x>>n, k)
		case token.LSS:
			if uns {
				return uint64(x) < uint64(y)
			}
			return x < y
		case token.LEQ:
			if uns {
				return uint64(x) <= uint64(y)
			}
			return x <= y
		case token.GTR:
			if uns {
				return uint64(x) > uint64(y)
			}
			return x > y
		case token.GEQ:
			if uns {
				return uint64(x) >= uint64(y)
			}
			return x >= y
		}
	case string:
		y, ok := b.(string)
		if !ok {
			break
		}
		switch op {
		case token.ADD:
			return x + y
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		}
	case float64:
		y, ok := b.(float64)
		if !ok {
			break
		}
		switch op {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		}
	}
	if r, ok := m.bitlenCmp(op.String(), a, b); ok {
		return r
	}
	if r := m.hBinop(op, a, b, ta, tb); r != nil {
		return r
	}
	_, oa := a.(*Opaque)
	_, ob := b.(*Opaque)
	if oa || ob {
		return &Opaque{T: ta, Op: op.String(), Args: []Value{a, b}}
	}
	m.Undecided(fmt.Sprintf("binary %s on %s, %s", op, Show(a), Show(b)))
	return nil
}

// bitlenCmp decides comparisons of a bit length or sign with a constant by
// bounds.
func (m *Machine) bitlenCmp(op string, a, b Value) (bool, bool) {
	flip := map[string]string{"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}
	if _, ok := a.(int64); ok {
		a, b = b, a
		op = flip[op]
	}
	o, ok := a.(*Opaque)
	if !ok || o.Op != "bitlen" && o.Op != "bigsign" {
		return false, false
	}
	k, ok := b.(int64)
	if !ok {
		return false, false
	}
	lo, hi := o.Args[0].(BigInt).P.Bounds()
	if lo == nil {
		return false, false
	}
	var l, h int64
	if o.Op == "bigsign" {
		l, h = int64(lo.Sign()), int64(hi.Sign())
	} else {
		if lo.Sign() < 0 {
			return false, false
		}
		l, h = int64(lo.BitLen()), int64(hi.BitLen())
	}
	switch op {
	case ">":
		if l > k || h <= k {
			return l > k, true
		}
	case ">=":
		if l >= k || h < k {
			return l >= k, true
		}
	case "<":
		if h < k || l >= k {
			return h < k, true
		}
	case "<=":
		if h <= k || l > k {
			return h <= k, true
		}
	case "==", "!=":
		if h < k || l > k {
			return op == "!=", true
		}
		if l == h {
			return op == "==", true
		}
	}
	return false, false
}

func (m *Machine) opaqueCmp(op string, a, b Value) Value {
	if r, ok := m.bitlenCmp(op, a, b); ok {
		return r
	}
	_, oa := a.(*Opaque)
	_, ob := b.(*Opaque)
	if !oa && !ob {
		if s, ok := a.(*OpaqueSlice); ok {
			return &Opaque{T: types.Typ[types.Bool], Op: op, Args: []Value{s, b}}
		}
		return nil
	}
	return &Opaque{T: types.Typ[types.Bool], Op: op, Args: []Value{a, b}}
}

func (m *Machine) convert(v Value, from, to types.Type) Value {
	fu, tu := from.Underlying(), to.Underlying()
	switch x := v.(type) {
	case int64:
		if b, ok := tu.(*types.Basic); ok {
			switch {
			case b.Info()&types.IsInteger != 0:
				return trunc(x, b.Kind())
			case b.Info()&types.IsFloat != 0:
				if isUnsigned(kindOf(from)) {
					return float64(uint64(x))
				}
				return float64(x)
			case b.Info()&types.IsString != 0:
				return string(rune(x))
			}
		}
	case float64:
		if b, ok := tu.(*types.Basic); ok {
			switch {
			case b.Info()&types.IsInteger != 0:
				return trunc(int64(math.Trunc(x)), b.Kind())
			case b.Info()&types.IsFloat != 0:
				return x
			}
		}
	case string:
		if s, ok := tu.(*types.Slice); ok {
			var out = Slice{}
			if kindOf(s.Elem()) == types.Uint8 {
				for i := 0; i < len(x); i++ {
					out = append(out, int64(x[i]))
				}
			} else {
				for _, r := range x {
					out = append(out, int64(r))
				}
			}
			return out
		}
		return x
	case Slice:
		if b, ok := tu.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			var bs []byte
			for _, e := range x {
				i, ok := e.(int64)
				if !ok {
					return &Opaque{T: to, Op: "string", Args: []Value{x}}
				}
				bs = append(bs, byte(i))
			}
			return string(bs)
		}
		if a, ok := tu.(*types.Array); ok {
			if int64(len(x)) < a.Len() {
				m.AbortNow("slice to array conversion: length")
			}
			return Copy(Arr(x[:a.Len()]))
		}
		return x
	case *HInt:
		if b, ok := tu.(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return m.hConvert(x, kindOf(from), b.Kind())
		}
	case *Value:
		return x
	case *Opaque, *OpaqueSlice:
		if s, ok := tu.(*types.Slice); ok {
			return &OpaqueSlice{T: s, Op: "conv", Args: []Value{v}}
		}
		return &Opaque{T: to, Op: "conv", Args: []Value{v}}
	}
	_ = fu
	m.Undecided(fmt.Sprintf("conversion of %s from %s to %s", Show(v), from, to))
	return nil
}

func (m *Machine) builtin(b *ssa.Builtin, args []Value) Value {
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case string:
			return int64(len(x))
		case Slice:
			if b.Name() == "cap" {
				return int64(cap(x))
			}
			return int64(len(x))
		case Arr:
			return int64(len(x))
		case *Map:
			if x == nil {
				return int64(0)
			}
			return int64(len(x.M))
		case *Value:
			if a, ok := (*x).(Arr); ok {
				return int64(len(a))
			}
		case *Opaque, *OpaqueSlice:
			return &Opaque{T: types.Typ[types.Int], Op: "len", Args: []Value{x}}
		}
		m.Undecided("len of " + Show(args[0]))
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		if os, ok := args[0].(*OpaqueSlice); ok {
			return &OpaqueSlice{T: os.T, Op: "append", Args: args}
		}
		d := args[0].(Slice)
		switch s := args[1].(type) {
		case Slice:
			n := len(d)
			out := d
			if n+len(s) <= cap(d) {
				out = d[:n+len(s)]
				m.wrAll(out[n:])
			} else {
				nc := 2 * cap(d)
				if nc < n+len(s) {
					nc = n + len(s)
				}
				out = make(Slice, n+len(s), nc)
				copy(out, d)
				if m.jrn != nil && len(out) > 0 {
					m.jrn.fresh[&out[0]] = true
				}
			}
			// overlapping-safe copy
			tmp := make([]Value, len(s))
			for i := range s {
				tmp[i] = Copy(s[i])
			}
			copy(out[n:], tmp)
			// zero the spare capacity lazily: nil cells are never readable
			return out
		case string:
			out := append(Slice(nil), d...)
			for i := 0; i < len(s); i++ {
				out = append(out, int64(s[i]))
			}
			return out
		case *OpaqueSlice, *Opaque:
			return &OpaqueSlice{Op: "append", Args: args}
		}
	case "copy":
		d, ok := args[0].(Slice)
		if !ok {
			m.Undecided("copy into " + Show(args[0]))
		}
		m.wrAll(d)
		switch s := args[1].(type) {
		case Slice:
			n := len(d)
			if len(s) < n {
				n = len(s)
			}
			tmp := make([]Value, n)
			for i := 0; i < n; i++ {
				tmp[i] = Copy(s[i])
			}
			copy(d, tmp)
			return int64(n)
		case string:
			n := len(d)
			if len(s) < n {
				n = len(s)
			}
			for i := 0; i < n; i++ {
				d[i] = int64(s[i])
			}
			return int64(n)
		case *OpaqueSlice, *Opaque:
			for i := range d {
				d[i] = &Opaque{T: types.Typ[types.Byte], Op: fmt.Sprintf("copy[%d]", i), Args: []Value{s}}
			}
			return &Opaque{T: types.Typ[types.Int], Op: "copylen", Args: []Value{s}}
		}
	case "delete":
		m.pure("a map update")
		mp := args[0].(*Map)
		k := m.mapKey(args[1])
		delete(mp.M, k)
		for i, kk := range mp.Keys {
			if kk == k {
				mp.Keys = append(mp.Keys[:i:i], mp.Keys[i+1:]...)
				break
			}
		}
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			x, ok1 := r.(int64)
			y, ok2 := a.(int64)
			if !ok1 || !ok2 {
				m.Undecided("min/max")
			}
			if (b.Name() == "min") == (y < x) {
				r = y
			}
		}
		return r
	case "print", "println":
		return nil
	case "recover":
		if len(m.stack) >= 1 {
			// the deferring frame is the caller of the current one
			for i := len(m.stack) - 1; i >= 0; i-- {
				if m.stack[i].panicking != nil {
					v := m.stack[i].panicking
					m.stack[i].panicking = nil
					return Iface{types.Typ[types.String], fmt.Sprint(v.(*Abort).Val)}
				}
			}
		}
		return Iface{}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			m.AbortNow("nil receiver")
		}
		return args[0]
	case "clear":
	}
	m.Undecided("builtin " + b.Name())
	return nil
}
