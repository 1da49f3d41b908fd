package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"

	"zkcheck/internal/poly"
)

type notHandledT struct{}

var notHandled Value = &notHandledT{}

// NotHandled lets an intrinsic fall back to the callee's body.
func NotHandled() Value { return notHandled }

const gn = "github.com/consensys/gnark/"

// Known field moduli.
var (
	BN254Fr, _  = new(big.Int).SetString("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10)
	BN254Fp, _  = new(big.Int).SetString("21888242871839275222246405745257275088696311157297823662689037894645226208583", 10)
	BLS377Fr, _ = new(big.Int).SetString("8444461749428370424248824938781546531375899335154063827935233455917409239041", 10)
	BLS377Fp, _ = new(big.Int).SetString("258664426012969094010652733694893533536393512754914660539884262666720468348340822774968888139573360124440321458177", 10)
	BLS381Fr, _ = new(big.Int).SetString("52435875175126190479447740508185965837690552500527637822603658699938581184513", 10)
	BLS381Fp, _ = new(big.Int).SetString("4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787", 10)
	BW6761Fr    = BLS377Fp
)

var eccIDs = map[string]int64{"UNKNOWN": 0, "BN254": 1, "BLS12_377": 2, "BLS12_378": 3, "BLS12_381": 4, "BLS24_315": 5, "BLS24_317": 6, "BW6_761": 7, "BW6_633": 8, "BW6_756": 9, "STARK_CURVE": 10, "SECP256K1": 11}

// eccBase holds base fields by ecc.ID.
var eccBase = map[int64]string{
	1: "30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47",
	4: "1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab",
}

func eccField(id int64) *big.Int {
	switch id {
	case 1:
		return BN254Fr
	case 2:
		return BLS377Fr
	case 4:
		return BLS381Fr
	case 7:
		return BW6761Fr
	}
	return nil
}

var extGlobals = map[string]func(*Machine) Value{}

func unwrapString(v Value) string {
	if i, ok := v.(Iface); ok {
		v = i.V
	}
	return Show(v)
}

func errV(m *Machine, msg string) Value {
	return Iface{ExtType, &Ext{Type: "error", Data: msg}}
}

// ErrV makes a non-nil error value.
func ErrV(m *Machine, msg string) Value { return errV(m, msg) }

// intrinsics are global transfer functions, by FuncName.
var intrinsics map[string]Intrinsic

func init() {
	fatal := func(m *Machine, c *Call) Value {
		m.AbortNow("process terminated or panicked by logger: " + sprint(c.Args))
		return nil
	}
	nop := func(m *Machine, c *Call) Value { return m.Zero(c.Fn.Signature.Results()) }
	nop1 := func(m *Machine, c *Call) Value {
		r := c.Fn.Signature.Results()
		if r.Len() == 0 {
			return nil
		}
		if r.Len() == 1 {
			return m.Zero(r.At(0).Type())
		}
		return nop(m, c)
	}
	intrinsics = map[string]Intrinsic{
		"fmt.Sprintf":               func(m *Machine, c *Call) Value { return m.sprintf(c.Args) },
		"fmt.Sprint":                func(m *Machine, c *Call) Value { return sprint(c.Args) },
		"fmt.Errorf":                func(m *Machine, c *Call) Value { return errV(m, sprint(c.Args)) },
		"errors.New":                func(m *Machine, c *Call) Value { return errV(m, sprint(c.Args)) },
		"github.com/pkg/errors.New": func(m *Machine, c *Call) Value { return errV(m, sprint(c.Args)) },
		"math/big.NewInt": func(m *Machine, c *Call) Value {
			return m.NewBig(m.HPoly(c.Args[0]))
		},
		"(github.com/consensys/gnark-crypto/ecc.ID).ScalarField": nil,
		"github.com/consensys/gnark-crypto/ecc.(ID).ScalarField": func(m *Machine, c *Call) Value {
			f := eccField(c.Args[0].(int64))
			if f == nil {
				m.Undecided("scalar field of curve")
			}
			return m.NewBig(m.Z.Const(f))
		},
		"github.com/consensys/gnark-crypto/ecc.(ID).BaseField": func(m *Machine, c *Call) Value {
			id, _ := c.Args[0].(int64)
			f := eccBase[id]
			if f == "" {
				m.Undecided("base field of curve")
			}
			p, _ := new(big.Int).SetString(f, 16)
			return m.NewBig(m.Z.Const(p))
		},
		"math/bits.Len":               func(m *Machine, c *Call) Value { return notHandled },
		"math/bits.Len64":             func(m *Machine, c *Call) Value { return notHandled },
		gn + "std/math/bits.toBinary": gnarkToBinary,
		gn + "std/math/bits.fromBinary": func(m *Machine, c *Call) Value {
			cfg := m.bitsConfig(c)
			unc := cfg["UnconstrainedInputs"]
			return V(m.FromBits(m.WiresOf(c.Args[1]), unc != true))
		},
		gn + "std/selector.Mux": func(m *Machine, c *Call) Value {
			return V(m.Mux(m.ToWire(c.Args[1]), m.WiresOf(c.Args[2])))
		},
		"math.Log2":  mathf(func(x float64) float64 { return log2(x) }),
		"math.Ceil":  mathf(ceil),
		"math.Floor": mathf(floor),
		"math.Abs":   mathf(math.Abs),
		"math.Sqrt":  mathf(math.Sqrt),
		"math.Round": mathf(math.Round),
		"math.Log":   mathf(math.Log),
		"math.Exp2":  mathf(math.Exp2),
		"math.Min":   mathf2(math.Min),
		"math.Max":   mathf2(math.Max),
		"math.Pow":   mathf2(math.Pow),
		"math.Mod":   mathf2(math.Mod),
		"bytes.Equal": func(m *Machine, c *Call) Value {
			a, ok1 := c.Args[0].(Slice)
			b, ok2 := c.Args[1].(Slice)
			if !ok1 || !ok2 {
				return &Opaque{T: types.Typ[types.Bool], Op: "bytes.Equal", Args: c.Args}
			}
			if len(a) != len(b) {
				return false
			}
			for i := range a {
				if !m.equal(a[i], b[i]) {
					return false
				}
			}
			return true
		},
		"encoding/hex.EncodeToString": func(m *Machine, c *Call) Value {
			if s, ok := c.Args[0].(Slice); ok {
				if b, ok := ConcreteBytes(s); ok {
					return fmt.Sprintf("%x", b)
				}
			}
			return &Opaque{T: types.Typ[types.String], Op: "hex", Args: c.Args}
		},
		"encoding/hex.DecodeString": func(m *Machine, c *Call) Value {
			if s, ok := c.Args[0].(string); ok {
				var out = Slice{}
				if len(s)%2 == 1 {
					return Tuple{out, errV(m, "odd hex")}
				}
				for i := 0; i+1 < len(s); i += 2 {
					var b int64
					if _, err := fmt.Sscanf(s[i:i+2], "%02x", &b); err != nil {
						return Tuple{out, errV(m, "bad hex")}
					}
					out = append(out, b)
				}
				return Tuple{out, NilErr}
			}
			return Tuple{&OpaqueSlice{Op: "unhex", Args: c.Args, T: types.NewSlice(types.Typ[types.Byte])}, NilErr}
		},
		"strings.Repeat": func(m *Machine, c *Call) Value {
			return strings.Repeat(c.Args[0].(string), int(c.Args[1].(int64)))
		},
		"strings.Join": func(m *Machine, c *Call) Value { return "joined" },
		"strings.TrimPrefix": func(m *Machine, c *Call) Value {
			s, ok := c.Args[0].(string)
			if !ok {
				return &Opaque{T: types.Typ[types.String], Op: "trimprefix", Args: c.Args}
			}
			return strings.TrimPrefix(s, c.Args[1].(string))
		},
		"strings.HasPrefix": func(m *Machine, c *Call) Value {
			s, ok := c.Args[0].(string)
			if !ok {
				return &Opaque{T: types.Typ[types.Bool], Op: "hasprefix", Args: c.Args}
			}
			return strings.HasPrefix(s, c.Args[1].(string))
		},
	}
	delete(intrinsics, "(github.com/consensys/gnark-crypto/ecc.ID).ScalarField")
	for _, n := range []string{"Println", "Printf", "Print"} {
		intrinsics["fmt."+n] = nop1
	}
	lg := "github.com/celer-network/goutils/log."
	for _, n := range []string{"Fatal", "Fatalf", "Fatalln", "Panic", "Panicf", "Panicln"} {
		intrinsics[lg+n] = fatal
		intrinsics["log."+n] = fatal
	}
	for _, n := range []string{"Debug", "Debugf", "Debugln", "Info", "Infof", "Infoln", "Warn", "Warnf", "Warnln", "Error", "Errorf", "Errorln", "Trace", "Tracef"} {
		intrinsics[lg+n] = nop1
	}
	for n := range eccIDs {
		_ = n
	}
}

func mathf(f func(float64) float64) Intrinsic {
	return func(m *Machine, c *Call) Value {
		x, ok := c.Args[0].(float64)
		if !ok {
			m.Undecided("math on abstract float")
		}
		return f(x)
	}
}

func mathf2(f func(x, y float64) float64) Intrinsic {
	return func(m *Machine, c *Call) Value {
		x, ok := c.Args[0].(float64)
		y, ok2 := c.Args[1].(float64)
		if !ok || !ok2 {
			m.Undecided("math on abstract float")
		}
		return f(x, y)
	}
}

func sprint(args []Value) string {
	var s []string
	for _, a := range args {
		if sl, ok := a.(Slice); ok {
			for _, e := range sl {
				s = append(s, unwrapString(e))
			}
			continue
		}
		s = append(s, unwrapString(a))
	}
	return strings.Join(s, " ")
}

func (m *Machine) sprintf(args []Value) Value {
	f, ok := args[0].(string)
	if !ok {
		return &Opaque{T: types.Typ[types.String], Op: "sprintf", Args: args}
	}
	var as []any
	if sl, ok := args[1].(Slice); ok {
		for _, e := range sl {
			v := e
			if i, ok := e.(Iface); ok {
				v = i.V
			}
			switch x := v.(type) {
			case int64, string, bool, float64:
				as = append(as, x)
			default:
				return &Opaque{T: types.Typ[types.String], Op: "sprintf", Args: args}
			}
		}
	}
	return fmt.Sprintf(f, as...)
}

// extCall handles functions without bodies.
func (m *Machine) extCall(name string, fn *ssa.Function, args []Value, pos token.Pos) Value {
	if strings.HasPrefix(name, "math/big.(*Int).") {
		return m.bigMethod(strings.TrimPrefix(name, "math/big.(*Int)."), args)
	}
	if isLogging(name) {
		r := fn.Signature.Results()
		switch r.Len() {
		case 0:
			return nil
		case 1:
			return m.Zero(r.At(0).Type())
		}
		return m.Zero(r)
	}
	return notHandled
}

// isLogging: functions whose only effect is output.
func isLogging(name string) bool {
	if strings.Contains(name, "Fatal") || strings.Contains(name, "Panic") {
		return false
	}
	for _, p := range []string{"github.com/consensys/gnark/logger.", "github.com/rs/zerolog.", "github.com/rs/zerolog/log.", "github.com/celer-network/goutils/log.", "log.", "fmt.Print", "fmt.Fprint"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// bitsConfig evaluates gnark's bits.BaseConversionOption closures.
func (m *Machine) bitsConfig(c *Call) map[string]Value {
	opts := c.Args[len(c.Args)-1].(Slice)
	res := map[string]Value{}
	pk := m.Prog.Pkgs[gn+"std/math/bits"]
	ob := pk.Types.Scope().Lookup("baseConversionConfig")
	if ob == nil {
		m.Undecided("bits.baseConversionConfig missing")
	}
	st := ob.Type().Underlying().(*types.Struct)
	cell := new(Value)
	cv := m.Zero(ob.Type()).(Struct)
	*cell = cv
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "NbDigits" && m.Mod != nil {
			cv[i] = int64(m.Mod.BitLen())
		}
	}
	for _, o := range opts {
		if r, ok := m.CallValue(o, cell).(Iface); ok && r.T != nil {
			m.AbortNow("bits option error")
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		res[st.Field(i).Name()] = (*cell).(Struct)[i]
	}
	return res
}

func gnarkToBinary(m *Machine, c *Call) Value {
	cfg := m.bitsConfig(c)
	n := int(cfg["NbDigits"].(int64))
	w := m.ToWire(c.Args[1])
	if n == 1 {
		if !m.IsBool(w) {
			m.AssertBool(w)
		}
		return SliceV(w)
	}
	pad := 0
	if f := m.Mod.BitLen(); n > f {
		pad = n - f
		n = f
	}
	ws := m.ToBits(w, n, cfg["UnconstrainedOutputs"] != true)
	if cfg["omitModulusCheck"] == true && n >= m.Mod.BitLen() {
		m.record("nonunique-bits", w, nil, n, w.P)
	}
	for i := 0; i < pad; i++ {
		ws = append(ws, m.ConstI(0))
	}
	return SliceV(ws...)
}

// Mux is gnark's selector.Mux: entry sel of in; sel out of range rejected.
func (m *Machine) Mux(sel *Wire, in []*Wire) *Wire {
	n := len(in)
	if c, ok := sel.P.IsConst(); ok {
		if c.Sign() >= 0 && c.IsInt64() && c.Int64() < int64(n) {
			return in[c.Int64()]
		}
	}
	m.record("lt", sel, m.ConstI(int64(n)), n, sel.P)
	var ps []*poly.Poly
	for i, x := range in {
		e := m.IsZero(m.sub(sel, m.ConstI(int64(i))))
		t := m.mul(e, x)
		ps = append(ps, t.P)
	}
	w := m.node("mux", m.Sp.Sum(ps...), append([]*Wire{sel}, in...)...)
	return w
}
