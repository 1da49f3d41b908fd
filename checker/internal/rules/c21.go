package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"zkcheck/internal/ai"
	"zkcheck/internal/load"
	"zkcheck/internal/poly"
)

func init() {
	register("C21", "Every place in the circuit packages that introduces an unconstrained value (hint calls, bit decompositions and recompositions with disabled checks, values marked boolean) is enumerated in the SSA; each must lie in a function that abstract interpretation executes, with a monitor on every such value: hint outputs must be determined by the recorded equality and range constraints, and a value taken as a bit must be constrained to 0 or 1. The bit-word types of the hash gadgets are closed under this by induction over the functions that build them. Gadgets that take bits are executed on unconstrained variables and must constrain each of them. Conversions of containers to a circuit variable are reported.", runC21)
}

// advice introducers
var adviceFns = map[string]bool{
	"NewHint": true, "NewHintForId": true, "NewHintWithNativeOutput": true, "NewHintWithNativeInput": true,
	"WithUnconstrainedInputs": true, "WithUnconstrainedOutputs": true, "OmitModulusCheck": true, "MarkBoolean": true,
}

func isVarType(t types.Type) bool {
	if a, ok := t.(*types.Alias); ok {
		return isVarType(types.Unalias(a))
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Variable" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "gnark/frontend")
}

// wordType: a named array of circuit variables.
func wordType(t types.Type) (*types.Named, int) {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return nil, 0
	}
	a, ok := n.Underlying().(*types.Array)
	if !ok || !isVarType(a.Elem()) {
		return nil, 0
	}
	return n, int(a.Len())
}

func calleeName(c *ssa.CallCommon) (name, pkg string) {
	if c.IsInvoke() {
		if c.Method.Pkg() != nil {
			pkg = c.Method.Pkg().Path()
		}
		return c.Method.Name(), pkg
	}
	f := c.StaticCallee()
	if f == nil {
		return "", ""
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	}
	return f.Name(), pkg
}

type adviceSite struct {
	fn   *ssa.Function
	name string
	pos  token.Pos
}

func adviceSites(p *load.Program, fns []*ssa.Function) (out []adviceSite) {
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if n, pk := calleeName(c.Common()); adviceFns[n] && strings.Contains(pk, "gnark") {
						out = append(out, adviceSite{f, n, in.Pos()})
						continue
					}
				}
				// an introducer used as a value is called somewhere else
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok || !adviceFns[g.Name()] || g.Pkg == nil || !strings.Contains(g.Pkg.Pkg.Path(), "gnark") {
						continue
					}
					out = append(out, adviceSite{f, g.Name(), in.Pos()})
				}
			}
		}
	}
	return
}

// generic argument for a type; bits of trusted words are 0/1.
func genArg(m *ai.Machine, t types.Type, trusted map[*types.Named]bool, name string, variant int) (ai.Value, bool) {
	if isVarType(t) {
		return ai.V(m.Input(name)), true
	}
	if n, l := wordType(t); n != nil {
		var a ai.Arr
		for i := 0; i < l; i++ {
			nm := fmt.Sprintf("%s.%d", name, i)
			if trusted[n] {
				a = append(a, ai.V(m.InputBool(nm)))
			} else {
				a = append(a, ai.V(m.Input(nm)))
			}
		}
		return a, true
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Name() == "API" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "gnark/frontend") {
		return m.APIValue(), true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			return []int64{0, 1, 7}[variant], true
		}
	case *types.Slice:
		n := []int{1, 8, 2}[variant]
		s := make(ai.Slice, n)
		for i := range s {
			v, ok := genArg(m, u.Elem(), trusted, fmt.Sprintf("%s[%d]", name, i), variant)
			if !ok {
				return nil, false
			}
			s[i] = v
		}
		return s, true
	case *types.Array:
		if u.Len() > 4096 {
			return nil, false
		}
		a := make(ai.Arr, u.Len())
		for i := range a {
			v, ok := genArg(m, u.Elem(), trusted, fmt.Sprintf("%s[%d]", name, i), variant)
			if !ok {
				return nil, false
			}
			a[i] = v
		}
		return a, true
	case *types.Struct:
		s := make(ai.Struct, u.NumFields())
		for i := range s {
			v, ok := genArg(m, u.Field(i).Type(), trusted, name+"."+u.Field(i).Name(), variant)
			if !ok {
				return nil, false
			}
			s[i] = v
		}
		return s, true
	case *types.Pointer:
		if _, ok := u.Elem().Underlying().(*types.Struct); ok {
			v, ok := genArg(m, u.Elem(), trusted, name, variant)
			if !ok {
				return nil, false
			}
			cell := new(ai.Value)
			*cell = v
			return cell, true
		}
	}
	return nil, false
}

// wordsIn collects the circuit variables of trusted words inside a value.
func wordsIn(m *ai.Machine, v ai.Value, t types.Type, trusted map[*types.Named]bool, emit func(ai.Value)) {
	if n, _ := wordType(t); n != nil && trusted[n] {
		if a, ok := v.(ai.Arr); ok {
			for _, x := range a {
				emit(x)
			}
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if s, ok := v.(ai.Slice); ok {
			for _, x := range s {
				wordsIn(m, x, u.Elem(), trusted, emit)
			}
		}
	case *types.Array:
		if s, ok := v.(ai.Arr); ok {
			for _, x := range s {
				wordsIn(m, x, u.Elem(), trusted, emit)
			}
		}
	case *types.Struct:
		if s, ok := v.(ai.Struct); ok {
			for i, x := range s {
				wordsIn(m, x, u.Field(i).Type(), trusted, emit)
			}
		}
	case *types.Pointer:
		if p, ok := v.(*ai.Value); ok && p != nil {
			if _, isS := u.Elem().Underlying().(*types.Struct); isS {
				wordsIn(m, *p, u.Elem(), trusted, emit)
			}
		}
	}
}

// isBit: the recorded constraints make w 0 or 1.
func isBit(m *ai.Machine, w *ai.Wire) bool {
	if m.IsBool(w) {
		return true
	}
	one := m.Sp.Int(1)
	for _, k := range m.Cons {
		switch k.Kind {
		case "bool":
			if poly.Eq(k.P, w.P) || poly.Eq(m.Sp.Sub(one, k.P), w.P) {
				return true
			}
		case "range":
			if k.N == 1 && poly.Eq(k.P, w.P) {
				return true
			}
		case "le":
			if k.A != nil && k.B != nil && poly.Eq(k.A.P, w.P) {
				if c, ok := k.B.P.IsConst(); ok && c.Cmp(big.NewInt(1)) == 0 {
					return true
				}
			}
		case "lt":
			if k.N <= 2 && k.A != nil && poly.Eq(k.A.P, w.P) {
				return true
			}
		case "eq":
			if k.P == nil {
				continue
			}
			b := m.Sp.Sub(m.Sp.Mul(w.P, w.P), w.P)
			if poly.Eq(k.P, b) || poly.Eq(k.P, m.Sp.Sub(m.Sp.Int(0), b)) {
				return true
			}
		}
	}
	return false
}

func looseOf(m *ai.Machine) string {
	for _, l := range m.Loose {
		if !isBit(m, l.W) {
			return fmt.Sprintf("%s is %s (in %s)", clip(m.Sp.String(l.W.P)), l.What, strings.Join(tail(l.Stack, 4), " < "))
		}
	}
	for _, k := range m.Cons {
		if k.Kind == "nonunique-bits" {
			return fmt.Sprintf("a decomposition into %d bits is not unique (in %s)", k.N, strings.Join(tail(k.Stack, 4), " < "))
		}
	}
	return ""
}

func mustNoLoose(m *ai.Machine) {
	if s := looseOf(m); s != "" {
		Failf("%s", s)
	}
}

func tail(s []string, n int) []string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func runC21(c *Ctx) {
	var fns []*ssa.Function
	for _, f := range allFuncs(c.Prog) {
		if strings.HasPrefix(inRepoPkg(f), "circuits/") || strings.HasPrefix(inRepoPkg(f), "common/") {
			fns = append(fns, f)
		}
	}
	c.Count("functions_scanned", len(fns))
	sites := adviceSites(c.Prog, fns)

	// ---- word types whose elements are used as bits without a check ----
	trusted := map[*types.Named]bool{}
	trustedPkg := map[string]bool{}
	for _, s := range sites {
		if s.name != "WithUnconstrainedInputs" {
			continue
		}
		for _, p := range s.fn.Params {
			if n, _ := wordType(p.Type()); n != nil {
				trusted[n] = true
				trustedPkg[inRepoPkg(s.fn)] = true
			}
		}
	}
	analysed := map[string]bool{}
	mark := func(m *ai.Machine) {
		c.mu.Lock()
		for k := range m.FuncsSeen {
			analysed[k] = true
		}
		c.mu.Unlock()
	}
	hasTrusted := func(t types.Type) bool {
		found := false
		var walk func(t types.Type, d int)
		walk = func(t types.Type, d int) {
			if d > 4 || found {
				return
			}
			if n, _ := wordType(t); n != nil {
				found = found || trusted[n]
				return
			}
			switch u := t.Underlying().(type) {
			case *types.Slice:
				walk(u.Elem(), d+1)
			case *types.Array:
				walk(u.Elem(), d+1)
			case *types.Pointer:
				walk(u.Elem(), d+1)
			case *types.Struct:
				for i := 0; i < u.NumFields(); i++ {
					walk(u.Field(i).Type(), d+1)
				}
			}
		}
		walk(t, 0)
		return found
	}
	siteFn := map[*ssa.Function]bool{}
	for _, s := range sites {
		siteFn[s.fn] = true
	}
	// functions that build words: results, or writes through arguments
	buildsWords := func(f *ssa.Function) bool {
		if !trustedPkg[inRepoPkg(f)] || f.Parent() != nil || f.Signature.TypeParams().Len() > 0 {
			return false
		}
		builds := siteFn[f]
		for i := 0; i < f.Signature.Results().Len(); i++ {
			builds = builds || hasTrusted(f.Signature.Results().At(i).Type())
		}
		for _, p := range f.Params {
			switch p.Type().Underlying().(type) {
			case *types.Slice, *types.Pointer:
				builds = builds || hasTrusted(p.Type())
			}
		}
		return builds
	}
	// a helper that takes an operation is executed as part of its callers, if
	// every use of it is a direct call by a function that is analysed
	inlined := func(f *ssa.Function) bool {
		takes := false
		for _, p := range f.Params {
			_, fn := p.Type().Underlying().(*types.Signature)
			takes = takes || fn
		}
		if !takes || f.Object() == nil || f.Object().Exported() {
			return false
		}
		uses := 0
		for _, g := range fns {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if op == nil || *op != ssa.Value(f) {
							continue
						}
						cl, ok := in.(ssa.CallInstruction)
						if !ok || cl.Common().StaticCallee() != f {
							return false
						}
						for _, a := range cl.Common().Args {
							if a == ssa.Value(f) {
								return false
							}
						}
						if g == f || !buildsWords(g) {
							return false
						}
						uses++
					}
				}
			}
		}
		return uses > 0
	}
	for _, f := range fns {
		if !buildsWords(f) || inlined(f) {
			continue
		}
		f := f
		if whole[f.Name()] {
			continue // executed as part of the whole hash below
		}
		c.Ob("word-induction", ai.FuncName(f), func(t *T) {
			ran := 0
			for variant := 0; variant < 3; variant++ {
				m := t.M(ai.BN254Fr)
				var args []ai.Value
				for i, p := range f.Params {
					v, ok := genArg(m, p.Type(), trusted, fmt.Sprintf("a%d", i), variant)
					if !ok {
						Failf("no generic argument of type %s: the words built here are not analysed", p.Type())
					}
					args = append(args, v)
				}
				before := append([]ai.Value(nil), args...)
				o := m.Run(f, args...)
				if o.Undecided != nil {
					Failf("undecided: %s", o.Undecided.Msg)
				}
				if o.Abort != nil {
					continue
				}
				ran++
				mark(m)
				mustNoLoose(m)
				bad := func(what string) func(v ai.Value) {
					return func(v ai.Value) {
						if v == nil {
							return // never written: unusable, not a witness
						}
						if _, isNil := v.(ai.Iface); isNil {
							return
						}
						if w := m.ToWire(v); !isBit(m, w) {
							Failf("%s has an element %s that is not constrained to 0 or 1", what, clip(m.Sp.String(w.P)))
						}
					}
				}
				res := f.Signature.Results()
				switch {
				case res.Len() == 1:
					wordsIn(m, o.Ret, res.At(0).Type(), trusted, bad("the result"))
				case res.Len() > 1:
					for i, x := range o.Ret.(ai.Tuple) {
						wordsIn(m, x, res.At(i).Type(), trusted, bad(fmt.Sprintf("result %d", i)))
					}
				}
				for i, p := range f.Params {
					wordsIn(m, before[i], p.Type(), trusted, bad("argument "+p.Name()))
				}
			}
			if ran == 0 {
				Failf("stops for every generic argument")
			}
		})
	}
	c.Floor("word-induction", 40)
	for _, k := range []string{"256", "512"} {
		for _, n := range []int{0, 3} {
			c.Ob("whole-hash", fmt.Sprintf("SHA-%s of %d unconstrained variables", k, n), func(t *T) {
				m := t.M(ai.BN254Fr)
				var in ai.Slice
				for i := 0; i < n; i++ {
					in = append(in, ai.V(m.Input(fmt.Sprintf("x%d", i))))
				}
				t.Run(m, load.InstPath, "Sha_"+k, m.APIValue(), ai.Slice{in})
				mark(m)
				mustNoLoose(m)
			})
		}
	}
	c.Floor("whole-hash", 4)

	// ---- hints ----
	for _, f := range []struct {
		name string
		mod  *big.Int
	}{{"BN254", ai.BN254Fr}, {"BLS12_377", ai.BLS377Fr}} {
		for _, size := range []int{8, 12, 64, 250} {
			for _, to := range []int{1, 3, 8, 64, 200} {
				if to >= size {
					continue
				}
				for _, opt := range []int{0, 1, 2} {
					if opt > 0 && opt*to > size {
						continue
					}
					c.Ob("hint", fmt.Sprintf("Split %d by %d (%d) over %s", size, to, opt, f.name), func(t *T) {
						m := t.M(f.mod)
						l := m.Input("v")
						args := []ai.Value{limbAPI(t, m), ai.Struct{ai.V(l), int64(size)}, int64(to), ai.Slice(nil)}
						if opt > 0 {
							args[3] = ai.Slice{int64(opt)}
						}
						r := asSlice(t.Run(m, G+"limbs", "API.Split", args...))
						mark(m)
						mustNoLoose(m)
						solveOut(m, r)
					})
				}
			}
		}
	}
	c.Floor("hint", 60)

	bitInputs(c, mark)
	containers(c, fns)

	if c.Thorough {
		// the monitor on every execution of the other circuit checks
		for _, id := range []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19"} {
			sub := NewCtx(c.Prog, id, false)
			sub.watch = true
			All[id].Run(sub)
			sub.wg.Wait()
			for f := range sub.Funcs {
				analysed[f] = true
				c.SawFunc(f)
			}
			for k, v := range sub.Counts {
				c.Count(k, v)
			}
			c.Count("monitored_executions", len(sub.Obs))
			if len(sub.loose) > 0 {
				sort.Strings(sub.loose)
				c.Fail("monitor", "executions of "+id, sub.loose[0])
			} else {
				c.Pass("monitor", "executions of "+id)
			}
		}
	}

	// ---- every introducer lies in an executed function ----
	c.wg.Wait()
	left := map[*ssa.Function]bool{}
	for _, s := range sites {
		name := ai.FuncName(s.fn)
		if !analysed[name] && !left[s.fn] {
			left[s.fn] = true
			f := s.fn
			c.Ob("introducer-generic", name, func(t *T) { runGeneric(t, f, mark) })
		}
	}
	c.wg.Wait()
	for _, s := range sites {
		name := ai.FuncName(s.fn)
		k := fmt.Sprintf("%s in %s", s.name, name)
		c.Check("introducer", k, analysed[name], fmt.Sprintf("%s at %s introduces values that no constraint is shown to determine", s.name, c.Prog.Pos(s.pos)))
	}
	c.Floor("introducer", 1)
}

// runGeneric executes a function on generic arguments with the monitors on.
func runGeneric(t *T, f *ssa.Function, mark func(*ai.Machine)) {
	ran := 0
	for variant := 0; variant < 3; variant++ {
		m := newKeccakMachine(t)
		var args []ai.Value
		for i, p := range f.Params {
			v, ok := genArg(m, p.Type(), nil, fmt.Sprintf("a%d", i), variant)
			if !ok {
				Failf("no generic argument of type %s for a function that introduces unconstrained values", p.Type())
			}
			args = append(args, v)
		}
		o := m.Run(f, args...)
		if o.Undecided != nil {
			Failf("introduces unconstrained values; undecided: %s", o.Undecided.Msg)
		}
		if o.Abort != nil {
			continue
		}
		ran++
		mark(m)
		mustNoLoose(m)
		solveHints(m).mustClosed()
	}
	if ran == 0 {
		Failf("introduces unconstrained values and stops for every generic argument")
	}
}

// whole-state functions of the hash gadgets, executed by the whole-hash rule.
var whole = map[string]bool{"New": true, "Reset": true, "Write": true, "write": true, "Sum": true, "checkSum": true, "blockGeneric": true}

func limbAPI(t *T, m *ai.Machine) ai.Value {
	return t.Run(m, G+"limbs", "NewAPI", m.APIValue())
}

// solveOut demands that each limb of a split is determined: ranges recorded and
// one equation whose coefficients make the recomposition unique.
func solveOut(m *ai.Machine, r ai.Slice) {
	solveHints(m).mustClosed()
	for i, v := range r {
		s := v.(ai.Struct)
		w := m.ToWire(s[0])
		n := int(s[1].(int64))
		if _, isC := w.P.IsConst(); isC {
			continue
		}
		ok := isBit(m, w) && n >= 1
		for _, k := range m.Cons {
			if k.Kind == "range" && k.N <= n && poly.Eq(k.P, w.P) {
				ok = true
			}
		}
		if lo, hi := m.Bounds(w); lo != nil && lo.Sign() >= 0 && hi.BitLen() <= n {
			ok = true
		}
		if !ok {
			Failf("limb %d is not restricted to its %d bits", i, n)
		}
	}
}

// bitInputs runs the gadgets that take bits on unconstrained variables.
func bitInputs(c *Ctx, mark func(*ai.Machine)) {
	vars := func(m *ai.Machine, name string, n int) (ai.Slice, []*ai.Wire) {
		var s ai.Slice
		var ws []*ai.Wire
		for i := 0; i < n; i++ {
			w := m.Input(fmt.Sprintf("%s%d", name, i))
			s, ws = append(s, ai.V(w)), append(ws, w)
		}
		return s, ws
	}
	demand := func(m *ai.Machine, ws []*ai.Wire, what string) {
		for i, w := range ws {
			if !isBit(m, w) {
				Failf("%s %d is used as a bit but may be any field element", what, i)
			}
		}
		mustNoLoose(m)
	}
	for _, f := range []struct {
		fn string
		ns []int
	}{{"Bits2Bytes", []int{8, 16, 264}}, {"Bits2Bytes2", []int{8, 16, 264}}, {"Bits2BytesArray", []int{8, 16, 264}}, {"Bits2Nibbles", []int{4, 8, 260}}, {"Bits2Uint128s", []int{256}}} {
		for _, n := range f.ns {
			c.Ob("bit-input", fmt.Sprintf("conv.%s of %d variables", f.fn, n), func(t *T) {
				m := t.M(ai.BN254Fr)
				in, ws := vars(m, "x", n)
				var arg ai.Value = in
				if f.fn == "Bits2Uint128s" {
					arg = ai.Arr(in)
				}
				t.Run(m, G+"conv", f.fn, m.APIValue(), arg)
				mark(m)
				demand(m, ws, "bit")
			})
		}
	}
	// the permutation alone constrains its state, or its callers do
	perm := make(chan bool, 1)
	c.Ob("bit-input", "keccak.Keccak256Bits", func(t *T) {
		own := <-perm
		perm <- own
		for rounds := 1; rounds <= 2; rounds++ {
			m := newKeccakMachine(t)
			base := m.Over[permBits]
			m.Over[permBits] = func(m *ai.Machine, k *ai.Call) ai.Value {
				if own {
					for _, w := range m.WiresOf(k.Args[1]) {
						if !m.IsBool(w) {
							m.AssertBool(w)
						}
					}
				}
				return base(m, k)
			}
			in, ws := vars(m, "x", rounds*1088)
			t.Run(m, G+"keccak", "Keccak256Bits", m.APIValue(), int64(rounds), ai.V(m.Input("round")), in)
			mark(m)
			demand(m, ws, "data bit")
		}
	})
	go func() {
		// Permute on unconstrained variables: does it constrain them itself?
		m := ai.New(c.Prog, ai.BN254Fr)
		m.UseGF2()
		in, ws := vars(m, "x", 1600)
		o := ai.Outcome{}
		func() {
			defer func() { recover() }()
			if f := m.Func(G+"keccak/keccakf", "Permute"); f != nil {
				o = m.Run(f, m.APIValue(), ai.Arr(in))
			}
		}()
		_ = o
		ok := true
		for _, w := range ws {
			ok = ok && isBitAtom(m, w)
		}
		perm <- ok
	}()
	c.Ob("bit-input", "merkle.KeccakMerkleRoot", func(t *T) {
		own := <-perm
		perm <- own
		m := newKeccakMachine(t)
		base := m.Over[permBits]
		m.Over[permBits] = func(m *ai.Machine, k *ai.Call) ai.Value {
			if own {
				for _, w := range m.WiresOf(k.Args[1]) {
					if !m.IsBool(w) {
						m.AssertBool(w)
					}
				}
			}
			return base(m, k)
		}
		in, ws := vars(m, "x", 1024)
		var leaves ai.Slice
		for i := 0; i < 4; i++ {
			leaves = append(leaves, append(ai.Arr(nil), in[i*256:i*256+256]...))
		}
		t.Run(m, G+"merkle", "KeccakMerkleRoot", m.APIValue(), leaves)
		mark(m)
		demand(m, ws, "leaf bit")
	})
	c.Ob("bit-input", "merkle.MiMCHashBasedOnIndex", func(t *T) {
		m, h := newNativeMimc(t)
		ix := m.Input("index")
		t.Run(m, G+"merkle", "MiMCHashBasedOnIndex", m.APIValue(), h, ai.V(m.Input("a")), ai.V(m.Input("b")), ai.V(ix))
		mark(m)
		demand(m, []*ai.Wire{ix}, "position")
	})
	for _, fn := range []string{"MerkleRootWithLeaveHash", "MerkleRootBasedOnMiMCHash"} {
		c.Ob("bit-input", "merkle."+fn, func(t *T) {
			m, h := newNativeMimc(t)
			ix, ws := vars(m, "index", 4)
			br, _ := vars(m, "branch", 4)
			t.Run(m, G+"merkle", fn, m.APIValue(), h, ai.V(m.Input("leaf")), ix, br)
			mark(m)
			demand(m, ws, "position")
		})
	}
	c.Ob("bit-input", "smt.CheckSMTInclusion", func(t *T) {
		m, h := newNativeMimc(t)
		lv, _ := vars(m, "leaf", 3)
		li, ws := vars(m, "lindex", 2)
		ix, ws2 := vars(m, "index", 3)
		br, _ := vars(m, "branch", 3)
		t.Run(m, G+"smt", "CheckSMTInclusion", m.APIValue(), h, int64(3), lv, li, ix, br, ai.V(m.Input("root")))
		mark(m)
		demand(m, append(ws, ws2...), "position")
	})
	c.Floor("bit-input", 18)
}

// isBitAtom: without scanning the constraint list.
func isBitAtom(m *ai.Machine, w *ai.Wire) bool { return m.IsBool(w) }

// containers reports conversions of containers to a circuit variable.
func containers(c *Ctx, fns []*ssa.Function) {
	n := 0
	type bad struct {
		fn, t string
		pos   token.Pos
	}
	var bads []bad
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mi, ok := in.(*ssa.MakeInterface)
				if !ok || !isVarType(mi.Type()) {
					continue
				}
				n++
				t := mi.X.Type()
				if variableLike(t) || printedOnly(mi) {
					continue
				}
				bads = append(bads, bad{ai.FuncName(f), types.TypeString(t, func(p *types.Package) string { return p.Name() }), nearPos(b, in)})
			}
		}
	}
	c.Count("variable_conversions", n)
	sort.Slice(bads, func(i, j int) bool { return bads[i].pos < bads[j].pos })
	for _, b := range bads {
		c.Fail("container", fmt.Sprintf("%s as a variable in %s", b.t, b.fn), fmt.Sprintf("a value of type %s is passed as a single circuit variable at %s", b.t, c.Prog.Pos(b.pos)))
	}
	if n < 100 {
		c.Fail("container", "instance-count", fmt.Sprintf("only %d conversions to a circuit variable found", n))
	}
	c.Pass("container", fmt.Sprintf("%d functions", len(fns)))
}

// nearPos is the position of an instruction, or of the next one that has one.
func nearPos(b *ssa.BasicBlock, in ssa.Instruction) token.Pos {
	seen := false
	for _, x := range b.Instrs {
		seen = seen || x == in
		if seen && x.Pos().IsValid() {
			return x.Pos()
		}
	}
	return b.Parent().Pos()
}

// variableLike: types gnark's frontend reads as one field element.
func variableLike(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		pk, nm := n.Obj().Pkg().Path(), n.Obj().Name()
		if pk == "math/big" && nm == "Int" {
			return true
		}
		if nm == "Element" && (strings.HasSuffix(pk, "/fr") || strings.HasSuffix(pk, "/fp") || strings.Contains(pk, "goldilocks")) {
			return true
		}
		if strings.HasSuffix(pk, "constraint") || strings.HasSuffix(pk, "/expr") {
			return true
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsInteger|types.IsString) != 0
	case *types.Slice: // big-endian bytes
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	case *types.Interface:
		return true
	}
	return false
}

// printedOnly: the conversion is an argument of api.Println.
func printedOnly(mi *ssa.MakeInterface) bool {
	refs := mi.Referrers()
	if refs == nil || len(*refs) == 0 {
		return true
	}
	for _, r := range *refs {
		st, ok := r.(*ssa.Store)
		if !ok {
			return false
		}
		ia, ok := st.Addr.(*ssa.IndexAddr)
		if !ok {
			return false
		}
		al, ok := ia.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		for _, q := range *al.Referrers() {
			switch x := q.(type) {
			case *ssa.IndexAddr:
			case *ssa.Slice:
				for _, u := range *x.Referrers() {
					k, ok := u.(ssa.CallInstruction)
					if !ok {
						return false
					}
					if n, _ := calleeName(k.Common()); n != "Println" && n != "Print" && n != "Printf" {
						return false
					}
				}
			default:
				return false
			}
		}
	}
	return true
}
