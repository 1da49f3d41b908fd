package flow

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"zkcheck/internal/load"
)

func (e *Engine) callArgs(st *State, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	fn := e.val(st, c.Value)
	if c.IsInvoke() {
		args = append(args, fn)
	}
	for _, a := range c.Args {
		args = append(args, e.val(st, a))
	}
	return fn, args
}

// call performs a call; it returns a stop kind when the path ends.
func (e *Engine) call(st *State, bind ssa.Value, c *ssa.CallCommon, fnT *Term, args []*Term, pos token.Pos, def bool) string {
	fr := st.frames[len(st.frames)-1]
	set := func(t *Term) {
		if bind != nil {
			fr.env[bind] = t
		}
	}
	var callee *ssa.Function
	var bindings []*Term
	name := ""
	sig := c.Signature()
	switch {
	case c.IsInvoke():
		recv := args[0]
		if e.Hazards {
			n, known := e.IsNil(st, recv)
			if known && !n {
				e.hazardSafe(st, "deref", pos, recv)
			} else {
				e.hazard(st, "deref", pos, recv)
			}
		}
		name = "(" + strings.ReplaceAll(types.TypeString(c.Value.Type(), nil), load.Module+"/", "") + ")." + c.Method.Name()
		if recv.Op == "mkiface" {
			if f := e.Prog.SSA.LookupMethod(recv.Typ, c.Method.Pkg(), c.Method.Name()); f != nil {
				if e.inRepo(f) {
					callee = f
				}
				name = Name(f)
				args = append([]*Term{recv.Args[0]}, args[1:]...)
			}
		}
	case fnT.Op == "builtin":
		set(e.builtin(st, fnT.Str, args, c, pos))
		return ""
	case fnT.Op == "func":
		callee = fnT.Fn
		name = Name(callee)
	case fnT.Op == "closure":
		callee = fnT.Fn
		bindings = fnT.Args
		name = Name(callee)
	default:
		name = "dynamic:" + fnT.String()
	}
	if isStop(name) {
		e.event(st, name, args, sig, pos, def)
		return "stop"
	}
	cl := &Call{Name: name, Args: args, Pos: pos, Sig: sig, Def: def}
	if m := e.model(name); m != nil && m(e, st, cl) {
		if cl.Stop {
			return "stop"
		}
		set(e.tuple(cl.Result))
		return ""
	}
	if callee != nil && e.inRepo(callee) && !e.Opaque[name] && !(e.NoInline != nil && e.NoInline(callee)) {
		depth := 0
		for _, f := range st.frames {
			if f.fn == callee {
				depth++
			}
		}
		if depth >= 4 {
			return "truncated"
		}
		if len(st.frames) > 60 {
			und("call depth")
		}
		// synthetic wrappers take free variables as bindings
		e.push(st, callee, args, bindings, bind, def)
		return ""
	}
	res := e.External(st, name, args, sig, pos, def)
	set(e.tuple(res))
	return ""
}

func (e *Engine) model(name string) Model {
	if m := e.Over[name]; m != nil {
		return m
	}
	if m := builtinModels[name]; m != nil {
		return m
	}
	if strings.HasPrefix(name, "(encoding/binary.bigEndian).") || strings.HasPrefix(name, "(encoding/binary.littleEndian).") {
		return orderModel
	}
	if strings.HasPrefix(name, "(*math/big.Int).") {
		return bigModel
	}
	if i := strings.LastIndex(name, ")."); i > 0 && strings.Contains(name, "aws-sdk-go/service/") && strings.HasPrefix(name[i+2:], "Set") {
		return awsSetter(name[i+5:])
	}
	if strings.HasPrefix(name, "(*strings.Builder).") || strings.HasPrefix(name, "(*bytes.Buffer).") {
		return textBuf
	}
	return nil
}

// awsSetter: req.SetX(v) stores v, or a pointer to v, in the field X.
func awsSetter(field string) Model {
	return func(e *Engine, st *State, c *Call) bool {
		if len(c.Args) != 2 || c.Args[0].Typ == nil {
			return false
		}
		s := structOf(c.Args[0].Typ)
		if s == nil {
			return false
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() != field {
				continue
			}
			v := c.Args[1]
			if p, ok := s.Field(i).Type().Underlying().(*types.Pointer); ok && v.Typ != nil && !types.Identical(v.Typ, p) || ok && v.Typ == nil {
				st.seq++
				o := e.T("obj", fmt.Sprintf("%s@%d", field, st.seq), p)
				e.Store(st, o, v)
				v = o
			}
			e.Store(st, e.fieldAddr(c.Args[0], i, c.Args[0].Typ), v)
			c.Result = []*Term{c.Args[0]}
			return true
		}
		return false
	}
}

func isStop(name string) bool {
	switch name {
	case "os.Exit", "runtime.Goexit",
		"log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln":
		return true
	}
	if i := strings.Index(name, "celer-network/goutils/log."); i >= 0 {
		n := name[i+len("celer-network/goutils/log."):]
		return strings.HasPrefix(n, "Fatal") || strings.HasPrefix(n, "Panic")
	}
	return false
}

// effectful packages: every call is a new event.
func effectful(name string) bool {
	for _, p := range []string{"os.", "(*os.", "(os.", "io.", "(io.", "net/http", "(*net/http", "(net/http", "aws/aws-sdk-go", "celer-network/goutils/log", "triedb", "rawdb", "trie.", "hash.", "json.", "fmt.Fprint", "fmt.Print", "bufio", "encoding/binary.Read", "encoding/binary.Write", "ioutil"} {
		if strings.Contains(name, p) && (strings.HasPrefix(name, p) || strings.HasPrefix(name, "(*"+p) || strings.HasPrefix(name, "("+p) || strings.Contains(name, "/"+p)) {
			return true
		}
	}
	if strings.Contains(name, "aws-sdk-go") && !strings.HasSuffix(name, "aws.String") {
		return true
	}
	for _, p := range []string{").Write", ").Sum", ").Reset", ").Read", ").Close", ").Prove", ").WriteTo", ").ReadFrom", ").UnsafeReadFrom", ").WriteRawTo", ").ExportSolidity"} {
		if strings.Contains(name, p) {
			return true
		}
	}
	return false
}

// mutable: a value through which the callee can reach memory of the path.
func mutable(t *Term) bool {
	switch t.Op {
	case "obj", "faddr", "iaddr":
		return Root(t).Op == "obj"
	case "mkiface", "slice", "conv", "subslice":
		return mutable(t.Args[0])
	case "closure":
		for _, a := range t.Args {
			if mutable(a) {
				return true
			}
		}
	}
	return false
}

// readOnly externals do not modify what their arguments point to.
func readOnly(name string) bool {
	for _, p := range []string{"fmt.", "errors.", "strings.", "strconv.", "encoding/hex.", "aws/aws.String", "celer-network/goutils/log.", "go-ethereum/rlp.EncodeToBytes", "go-ethereum/crypto.", "go-ethereum/common.", "hexutil."} {
		if strings.HasPrefix(name, p) || strings.Contains(name, "/"+p) {
			return !strings.HasPrefix(name, "fmt.Sscan") && !strings.HasPrefix(name, "fmt.Fscan")
		}
	}
	return strings.HasSuffix(name, "aws.String")
}

func (e *Engine) contents(st *State, t *Term) *Term {
	switch t.Op {
	case "mkiface":
		return e.contents(st, t.Args[0])
	case "obj", "faddr", "iaddr":
		if t.Op == "obj" && t.Typ != nil {
			if s, ok := t.Typ.Underlying().(*types.Slice); ok {
				// a made slice: its cells, when their number is known
				iv := e.ival(st, e.Len(st, t))
				if iv.lo != iv.hi || iv.lo < 0 || iv.lo > 4096 {
					if v, ok := st.mem[t.key]; ok && v.Op == "upd" {
						return v
					}
					return t
				}
				var ps []*Term
				for i := int64(0); i < iv.lo; i++ {
					ps = append(ps, e.T("el", "", nil, e.Load(st, e.T("iaddr", "", types.NewPointer(s.Elem()), t, e.Int(i)), s.Elem())))
				}
				return e.Seq(t.Typ, ps)
			}
		}
		return e.Load(st, t, elemOf(t.Typ))
	case "slice":
		return e.Seq(t.Typ, e.Parts(st, t))
	}
	return t
}

// Contents resolves what a pointer or slice argument refers to.
func (e *Engine) Contents(st *State, t *Term) *Term { return e.contents(st, t) }

func (e *Engine) event(st *State, name string, args []*Term, sig *types.Signature, pos token.Pos, def bool) *Event {
	fr := st.frames[len(st.frames)-1]
	ev := &Event{Kind: "call", Name: name, Args: args, Pos: pos, Deferred: def, Fn: fr.fn}
	for _, a := range args {
		ev.Deref = append(ev.Deref, e.contents(st, a))
	}
	st.Events = append(st.Events, ev)
	e.Sites[e.Prog.Pos(pos)+" "+name] = true
	return ev
}

// External applies the default treatment of an external call.
func (e *Engine) External(st *State, name string, args []*Term, sig *types.Signature, pos token.Pos, def bool) []*Term {
	ev := e.event(st, name, args, sig, pos, def)
	eff := effectful(name)
	for _, a := range args {
		if mutable(a) && !readOnly(name) {
			eff = true
		}
	}
	var base *Term
	if eff {
		st.seq++
		base = e.T("eff", fmt.Sprintf("%s@%d", name, st.seq), nil, ev.Deref...)
	} else {
		base = e.T("call", name, nil, ev.Deref...)
	}
	if eff && !readOnly(name) {
		for _, a := range args {
			if mutable(a) {
				e.Havoc(st, a, base)
			}
		}
	}
	rs := sig.Results()
	for i := 0; i < rs.Len(); i++ {
		t := e.mk("ret", "", i, rs.At(i).Type(), nil, nil, base)
		ev.Results = append(ev.Results, t)
	}
	if n := rs.Len(); n > 0 {
		last := rs.At(n - 1).Type()
		if isError(last) {
			ev.Err = ev.Results[n-1]
			if neverNil(name) {
				st.nilf[ev.Err.key] = false
			}
		} else if b, ok := last.Underlying().(*types.Basic); ok && b.Kind() == types.Bool && n > 1 {
			ev.OkRes = ev.Results[n-1]
		}
	}
	return ev.Results
}

func neverNil(name string) bool {
	return name == "errors.New" || name == "fmt.Errorf"
}

func (e *Engine) builtin(st *State, name string, args []*Term, c *ssa.CallCommon, pos token.Pos) *Term {
	switch name {
	case "len":
		return e.Len(st, args[0])
	case "cap":
		return e.T("cap", "", types.Typ[types.Int], args[0])
	case "append":
		ps := append([]*Term(nil), e.Parts(st, args[0])...)
		if len(args) > 1 {
			if isStr(c.Args[1].Type()) {
				ps = append(ps, e.strParts(args[1])...)
			} else {
				ps = append(ps, e.Parts(st, args[1])...)
			}
		}
		st.Events = append(st.Events, &Event{Kind: "append", Args: args, Pos: pos, Fn: st.frames[len(st.frames)-1].fn})
		return e.Seq(c.Args[0].Type(), ps)
	case "copy":
		dst, src := args[0], args[1]
		parts := e.Parts(st, src)
		src2 := e.Seq(nil, parts)
		if dst.Op == "slice" {
			lo, ok1 := ConstInt(dst.Args[1])
			hi, ok2 := ConstInt(dst.Args[2])
			n, ok3 := ConstInt(e.Len(st, src2))
			allEl := true
			for _, p := range parts {
				if p.Op != "el" {
					allEl = false
				}
			}
			if ok1 && ok2 && ok3 && allEl {
				for i := int64(0); i < n && lo+i < hi; i++ {
					at := elemOf(dst.Args[0].Typ)
					var et types.Type
					if at != nil {
						et = elemOf(at)
					}
					e.Store(st, e.T("iaddr", "", ptrTo(et), dst.Args[0], e.Int(lo+i)), parts[i].Args[0])
				}
			} else {
				old := e.Load(st, dst.Args[0], elemOf(dst.Args[0].Typ))
				e.dropBelow(st, dst.Args[0])
				st.mem[dst.Args[0].key] = e.T("copied", "", elemOf(dst.Args[0].Typ), old, dst.Args[1], dst.Args[2], src2)
				st.addrs[dst.Args[0].key] = dst.Args[0]
			}
		} else {
			e.Havoc(st, dst, e.T("copy", "", nil, dst, src2))
		}
		st.Events = append(st.Events, &Event{Kind: "copy", Args: []*Term{dst, src2}, Pos: pos, Fn: st.frames[len(st.frames)-1].fn})
		st.seq++
		return e.T("fresh", fmt.Sprintf("copied@%d", st.seq), types.Typ[types.Int])
	case "min", "max":
		return e.T(name, "", c.Signature().Results().At(0).Type(), args...)
	case "recover":
		return e.Nil()
	case "print", "println", "close", "delete", "clear":
		return e.Nil()
	case "ssa:wrapnilchk":
		return args[0]
	}
	und("builtin %s", name)
	return nil
}

var builtinModels map[string]Model

func init() {
	builtinModels = map[string]Model{
		"errors.New": func(e *Engine, st *State, c *Call) bool {
			st.seq++
			t := e.T("nonnil", fmt.Sprintf("error@%d", st.seq), nil, c.Args...)
			c.Result = []*Term{t}
			return true
		},
		"fmt.Errorf": func(e *Engine, st *State, c *Call) bool {
			st.seq++
			var as []*Term
			for _, a := range c.Args {
				as = append(as, e.contents(st, a))
			}
			t := e.T("nonnil", fmt.Sprintf("error@%d", st.seq), nil, as...)
			c.Result = []*Term{t}
			return true
		},
		"fmt.Sprintf": func(e *Engine, st *State, c *Call) bool {
			var as []*Term
			for _, a := range c.Args {
				as = append(as, e.contents(st, a))
			}
			if f, ok := ConstStr(as[0]); ok && len(as) == 2 && as[1].Op == "seq" {
				if ps, ok := e.format(f, as[1].Args); ok {
					c.Result = []*Term{e.simplifyStr(e.Seq(types.Typ[types.String], ps))}
					return true
				}
			}
			c.Result = []*Term{e.T("call", "fmt.Sprintf", types.Typ[types.String], as...)}
			return true
		},
		"strings.Join": func(e *Engine, st *State, c *Call) bool {
			v := e.contents(st, c.Args[0])
			sep := e.strParts(c.Args[1])
			var ps []*Term
			if v.Op != "seq" && v.Op != "nil" {
				return false
			}
			for i, p := range v.Args {
				if p.Op != "el" {
					return false
				}
				if i > 0 {
					ps = append(ps, sep...)
				}
				ps = append(ps, e.strParts(p.Args[0])...)
			}
			c.Result = []*Term{e.simplifyStr(e.Seq(types.Typ[types.String], ps))}
			return true
		},
		"bytes.NewReader": func(e *Engine, st *State, c *Call) bool {
			c.Result = []*Term{e.T("call", "bytes.NewReader", nil, e.contents(st, c.Args[0]))}
			return true
		},
		"errors.Is": func(e *Engine, st *State, c *Call) bool {
			if n, ok := e.IsNil(st, c.Args[0]); ok && n {
				c.Result = []*Term{e.Bool(false)}
				return true
			}
			t := e.T("call", "errors.Is", types.Typ[types.Bool], c.Args...)
			c.Result = []*Term{t}
			return true
		},
	}
}

func (e *Engine) simplifyStr(t *Term) *Term {
	if t.Op == "seq" && len(t.Args) == 1 && t.Args[0].Op == "sp" {
		return t.Args[0].Args[0]
	}
	return t
}

// format expands plain %s and %d verbs into a sequence.
func (e *Engine) format(f string, args []*Term) ([]*Term, bool) {
	var ps []*Term
	lit := ""
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		i++
		if i >= len(f) {
			return nil, false
		}
		switch f[i] {
		case '%':
			lit += "%"
			continue
		case 's', 'd', 'v', 'x':
			if k >= len(args) || args[k].Op != "el" {
				return nil, false
			}
			a := args[k].Args[0]
			if a.Op == "mkiface" {
				a = a.Args[0]
			}
			k++
			if lit != "" {
				ps = append(ps, e.T("sp", "", nil, e.StrC(lit)))
				lit = ""
			}
			if s, ok := ConstStr(a); ok && f[i] != 'x' {
				lit = s
				continue
			}
			if f[i] == 's' || f[i] == 'v' {
				if a.Op == "seq" {
					ps = append(ps, a.Args...)
					continue
				}
				if isStr(a.Typ) {
					ps = append(ps, e.T("sp", "", nil, a))
					continue
				}
			}
			ps = append(ps, e.T("sp", "", nil, e.T("fmt", string(f[i]), types.Typ[types.String], a)))
		default:
			return nil, false
		}
	}
	if lit != "" {
		ps = append(ps, e.T("sp", "", nil, e.StrC(lit)))
	}
	return ps, k == len(args)
}

// orderModel: the fixed-width encodings of encoding/binary. The result is the
// big-endian encoding of the number (reversed for little endian).
func orderModel(e *Engine, st *State, c *Call) bool {
	little := strings.HasPrefix(c.Name, "(encoding/binary.littleEndian).")
	m := c.Name[strings.LastIndexByte(c.Name, '.')+1:]
	var n int64
	switch strings.TrimPrefix(strings.TrimPrefix(m, "Put"), "Append") {
	case "Uint16":
		n = 2
	case "Uint32":
		n = 4
	case "Uint64":
		n = 8
	default:
		return false
	}
	if len(c.Args) != 3 || m[0] != 'P' && m[0] != 'A' {
		return false
	}
	bt := types.Typ[types.Uint8]
	v := e.T("FillBytes", "", nil, e.T("big", "SetUint64", nil, c.Args[2]), e.Int(n))
	at := func(i int64) *Term {
		if little {
			i = n - 1 - i
		}
		return e.T("index", "", bt, v, e.Int(i))
	}
	if m[0] == 'A' {
		parts := append([]*Term(nil), e.Parts(st, c.Args[1])...)
		if little {
			for i := int64(0); i < n; i++ {
				parts = append(parts, e.T("el", "", nil, at(i)))
			}
		} else {
			parts = append(parts, e.T("sp", "", nil, v))
		}
		c.Result = []*Term{e.Seq(c.Sig.Results().At(0).Type(), parts)}
		return true
	}
	lo, hi, _, ok := e.window(c.Args[1])
	if !ok || hi-lo < n {
		return false
	}
	for i := int64(0); i < n; i++ {
		e.Store(st, e.T("iaddr", "", ptrTo(bt), c.Args[1].Args[0], e.Int(lo+i)), at(i))
	}
	c.Result = nil
	return true
}

// bigModel treats *big.Int operations as pure functions of the operands'
// contents that overwrite their receiver.
func bigModel(e *Engine, st *State, c *Call) bool {
	m := strings.TrimPrefix(c.Name, "(*math/big.Int).")
	var in []*Term
	for _, a := range c.Args {
		in = append(in, e.BigVal(st, a))
	}
	recv := c.Args[0]
	mutates := map[string]bool{"Add": true, "Sub": true, "Mul": true, "Div": true, "Quo": true, "Mod": true, "Rem": true, "Exp": true, "Lsh": true, "Rsh": true, "And": true, "Or": true, "Xor": true, "Not": true, "Neg": true, "Abs": true, "Set": true, "SetBytes": true, "SetUint64": true, "SetInt64": true, "SetString": true, "SetBit": true, "ModInverse": true, "GCD": true, "Sqrt": true, "QuoRem": true, "DivMod": true}
	if m == "FillBytes" {
		buf := c.Args[1]
		n := e.Len(st, buf)
		v := e.T("FillBytes", "", nil, in[0], n)
		if lo, hi, whole, ok := e.window(buf); ok && !whole {
			var et types.Type
			if at := elemOf(buf.Args[0].Typ); at != nil {
				et = elemOf(at)
			}
			for i := lo; i < hi; i++ {
				e.Store(st, e.T("iaddr", "", ptrTo(et), buf.Args[0], e.Int(i)), e.T("index", "", et, v, e.Int(i-lo)))
			}
			c.Result = []*Term{buf}
		} else if buf.Op == "slice" {
			e.dropBelow(st, buf.Args[0])
			st.mem[buf.Args[0].key] = e.T("FillBytes", "", elemOf(buf.Args[0].Typ), in[0], n)
			st.addrs[buf.Args[0].key] = buf.Args[0]
			c.Result = []*Term{buf}
		} else {
			c.Result = []*Term{v}
		}
		return true
	}
	rs := c.Sig.Results()
	if !mutates[m] {
		var out []*Term
		base := e.T("call", c.Name, nil, in...)
		for i := 0; i < rs.Len(); i++ {
			out = append(out, e.mk("ret", "", i, rs.At(i).Type(), nil, nil, base))
		}
		c.Result = out
		return true
	}
	var v *Term
	switch m {
	case "Set":
		v = in[1]
	case "SetUint64", "SetInt64":
		v = e.T("big", m, nil, in[1])
	default:
		v = e.T("big", m, nil, in[1:]...)
	}
	if n, ok := e.IsNil(st, recv); !(ok && n) {
		st.mem[recv.key] = v
		st.addrs[recv.key] = recv
	}
	switch m {
	case "SetString":
		base := e.T("call", c.Name, nil, in[1:]...)
		ok := e.mk("ret", "", 1, types.Typ[types.Bool], nil, nil, base)
		p := e.mk("ret", "", 0, rs.At(0).Type(), nil, nil, base)
		st.mem[p.key] = v
		st.addrs[p.key] = p
		fr := st.frames[len(st.frames)-1]
		st.Events = append(st.Events, &Event{Kind: "call", Name: c.Name, Args: c.Args, Deref: in, Results: []*Term{p, ok}, OkRes: ok, Pos: c.Pos, Fn: fr.fn})
		c.Result = []*Term{p, ok}
		return true
	case "QuoRem", "DivMod":
		r := c.Args[3]
		st.mem[r.key] = e.T("big", m+"#rem", nil, in[1:3]...)
		st.addrs[r.key] = r
		st.mem[recv.key] = e.T("big", m, nil, in[1:3]...)
		c.Result = []*Term{recv, r}
		return true
	}
	c.Result = []*Term{recv}
	return true
}

// window: the constant bounds of a slice of an array and whether it covers it.
func (e *Engine) window(v *Term) (lo, hi int64, whole, ok bool) {
	if v.Op != "slice" {
		return 0, 0, false, false
	}
	lo, ok1 := ConstInt(v.Args[1])
	hi, ok2 := ConstInt(v.Args[2])
	at := elemOf(v.Args[0].Typ)
	if !ok1 || !ok2 || at == nil || hi-lo > 4096 {
		return 0, 0, false, false
	}
	a, ok3 := at.Underlying().(*types.Array)
	if !ok3 {
		return 0, 0, false, false
	}
	return lo, hi, lo == 0 && hi == a.Len(), true
}

// BigVal is the value of a *big.Int argument (or the argument itself).
func (e *Engine) BigVal(st *State, a *Term) *Term {
	if v, ok := st.mem[a.key]; ok {
		return v
	}
	if a.Op == "obj" && a.Typ != nil {
		if p, ok := a.Typ.Underlying().(*types.Pointer); ok && strings.HasSuffix(p.Elem().String(), "math/big.Int") {
			return e.T("big", "zero", nil)
		}
	}
	if a.Op == "slice" {
		return e.contents(st, a)
	}
	return a
}

var _ = constant.MakeInt64

// Ret is the i-th result of a call term.
func (e *Engine) Ret(base *Term, i int, t types.Type) *Term {
	return e.mk("ret", "", i, t, nil, nil, base)
}
