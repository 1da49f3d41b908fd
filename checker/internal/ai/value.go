// Package ai is an abstract interpreter for the SSA form of the repository.
//
// Host-level integers, strings, slices and structs that determine the *shape*
// of a circuit or message are tracked in a constant-propagation domain (loops
// whose trip count is a constant are unrolled); the *contents* (circuit wires,
// message bytes, big integers) are never valued: they live in the polynomial
// equality domain of package poly, together with interval and provenance
// information.  Constructs that leave the domain make the analysis stop with
// an Undecided error, which every rule reports as a failure.
package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"zkcheck/internal/poly"
)

// Value is an abstract value. Concrete integers are int64 (uint64 bit-cast),
// booleans bool, strings string, floats float64.
type Value = any

// Arr is an array value; Struct a struct value; Slice a slice; Tuple results.
type (
	Arr    []Value
	Struct []Value
	Slice  []Value
	Tuple  []Value
)

// Iface is an interface value. T == nil means nil interface.
type Iface struct {
	T types.Type
	V Value
}

// Closure is a function value with bindings.
type Closure struct {
	Fn    *ssa.Function
	Binds []Value
}

// NativeFunc is a function value implemented by the analyser.
type NativeFunc struct {
	Name string
	F    func(m *Machine, args []Value) Value
}

// Map is a map with constant keys.
type Map struct {
	M    map[any]Value
	Keys []any // insertion order
	KV   map[any]Value
}

// Wire is a circuit variable.
type Wire struct {
	ID   int
	P    *poly.Poly
	Op   string
	Args []*Wire
	Pos  token.Pos
}

// BigInt is the value of a math/big.Int variable.
type BigInt struct{ P *poly.Poly }

// HInt is an abstract machine integer: one 0/1-valued polynomial per bit, LSB
// first.
type HInt struct {
	Bits   []*poly.Poly
	Signed bool
}

// Opaque is a value about which only provenance is known.
type Opaque struct {
	T    types.Type
	Op   string
	Args []Value
	ID   int
}

// OpaqueSlice is a slice of unknown length and content.
type OpaqueSlice struct {
	T    types.Type
	Op   string
	Args []Value
}

// Ext is an analyser-provided object.
type Ext struct {
	Type string
	Data any
}

// Invoker lets Ext data handle interface method calls.
type Invoker interface {
	Invoke(m *Machine, method string, args []Value) Value
}

// WireType is the dynamic type of wires inside interfaces.
var WireType types.Type = types.NewNamed(types.NewTypeName(token.NoPos, nil, "wire", nil), types.NewStruct(nil, nil), nil)

// ExtType is the dynamic type of Ext values inside interfaces.
var ExtType types.Type = types.NewNamed(types.NewTypeName(token.NoPos, nil, "ext", nil), types.NewStruct(nil, nil), nil)

// Undecided is raised when the analysis leaves its domain.
type Undecided struct {
	Msg string
	Pos string
}

func (u *Undecided) Error() string { return "undecided: " + u.Msg + " at " + u.Pos }

// Abort is raised when the analysed code panics or terminates the process.
type Abort struct {
	Val any
	Pos string
}

func (a *Abort) Error() string { return fmt.Sprintf("abort: %v at %s", a.Val, a.Pos) }

// NilErr is the nil error interface value.
var NilErr = Iface{}

func isBig(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big" && n.Obj().Name() == "Int"
}

// TypeName returns pkgpath.Name of a named type (origin for instances).
func TypeName(t types.Type) string {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		return "*" + TypeName(p.Elem())
	}
	n, ok := t.(*types.Named)
	if !ok {
		return t.String()
	}
	o := n.Obj()
	if o.Pkg() == nil {
		return o.Name()
	}
	return o.Pkg().Path() + "." + o.Name()
}

// Zero returns the zero value of t.
func (m *Machine) Zero(t types.Type) Value {
	t = types.Unalias(t)
	if isBig(t) {
		return BigInt{m.Z.Int(0)}
	}
	if h := m.ZeroHook; h != nil {
		if v, ok := h(t); ok {
			return v
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return int64(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		case u.Kind() == types.UntypedNil:
			return nil
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Array:
		a := make(Arr, u.Len())
		for i := range a {
			a[i] = m.Zero(u.Elem())
		}
		return a
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = m.Zero(u.Field(i).Type())
		}
		return s
	case *types.Interface:
		return Iface{}
	case *types.Map:
		return (*Map)(nil)
	case *types.Signature:
		return nil
	case *types.Chan:
		return nil
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = m.Zero(u.At(i).Type())
		}
		return tp
	}
	m.Undecided("zero value of " + t.String())
	return nil
}

// Copy copies a value with Go assignment semantics.
// assign stores v at p. Aggregates are overwritten in place, so pointers to
// their parts stay valid.
func (m *Machine) assign(p *Value, v Value, t types.Type) {
	switch x := v.(type) {
	case Arr:
		if d, ok := (*p).(Arr); ok && len(d) == len(x) {
			var et types.Type
			if a, ok := under(t).(*types.Array); ok {
				et = a.Elem()
			}
			c := Copy(x).(Arr)
			for i := range c {
				m.assign(&d[i], c[i], et)
			}
			return
		}
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(x) {
			st, _ := under(t).(*types.Struct)
			c := Copy(x).(Struct)
			for i := range c {
				var ft types.Type
				if st != nil && i < st.NumFields() {
					ft = st.Field(i).Type()
				}
				m.assign(&d[i], c[i], ft)
			}
			return
		}
	}
	m.wr(p, t)
	*p = Copy(v)
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func Copy(v Value) Value {
	switch x := v.(type) {
	case Arr:
		o := make(Arr, len(x))
		for i := range x {
			o[i] = Copy(x[i])
		}
		return o
	case Struct:
		o := make(Struct, len(x))
		for i := range x {
			o[i] = Copy(x[i])
		}
		return o
	}
	return v
}

// mapKey converts a value into a comparable Go key.
func (m *Machine) mapKey(v Value) any {
	switch x := v.(type) {
	case int64, bool, string, float64:
		return x
	case Iface:
		if x.T == nil {
			return nil
		}
		return [2]any{x.T.String(), m.mapKey(x.V)}
	case Arr:
		var b strings.Builder
		for _, e := range x {
			fmt.Fprintf(&b, "%v|", m.mapKey(e))
		}
		return "arr:" + b.String()
	case Struct:
		var b strings.Builder
		for _, e := range x {
			fmt.Fprintf(&b, "%v|", m.mapKey(e))
		}
		return "struct:" + b.String()
	case *Value:
		return x
	}
	m.Undecided(fmt.Sprintf("map key %T", v))
	return nil
}

// SortedMapKeys returns the keys of mp in a canonical order.
func SortedMapKeys(mp *Map) []any {
	ks := append([]any(nil), mp.Keys...)
	sort.SliceStable(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	return ks
}

// equal compares two values (concretely).
func (m *Machine) equal(a, b Value) bool {
	switch x := a.(type) {
	case nil:
		switch y := b.(type) {
		case nil:
			return true
		case *Value:
			return y == nil
		case Iface:
			return y.T == nil
		case Slice:
			return y == nil
		case *Map:
			return y == nil
		case *Closure, *ssa.Function, *NativeFunc, *Ext:
			return false
		}
	case int64, bool, string, float64:
		switch b.(type) {
		case int64, bool, string, float64:
			return a == b
		}
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			break
		}
		if x.T == nil || y.T == nil {
			return x.T == nil && y.T == nil
		}
		if !types.Identical(x.T, y.T) {
			return false
		}
		return m.equal(x.V, y.V)
	case *Value:
		if y, ok := b.(*Value); ok {
			return x == y
		}
		if b == nil {
			return x == nil
		}
		if _, ok := b.(*Ext); ok && x == nil {
			return false
		}
	case *Ext:
		if y, ok := b.(*Ext); ok {
			return x == y
		}
		return false
	case *Wire:
		if y, ok := b.(*Wire); ok && x == y {
			return true
		}
	case Arr:
		y := b.(Arr)
		for i := range x {
			if !m.equal(x[i], y[i]) {
				return false
			}
		}
		return true
	case Struct:
		y := b.(Struct)
		for i := range x {
			if !m.equal(x[i], y[i]) {
				return false
			}
		}
		return true
	case Slice:
		if b == nil {
			return x == nil
		}
		if y, ok := b.(Slice); ok && (x == nil || y == nil) {
			return x == nil && y == nil
		}
	case *Map:
		if y, ok := b.(*Map); ok && (x == nil || y == nil) {
			return x == y
		}
		if b == nil {
			return x == nil
		}
	case *Closure, *ssa.Function, *NativeFunc:
		if b == nil {
			return false
		}
	case *HInt:
		if y, ok := m.asHInt(b, len(x.Bits), x.Signed); ok {
			return m.hEqual(x, y)
		}
	}
	if hb, ok := b.(*HInt); ok {
		if ha, ok := m.asHInt(a, len(hb.Bits), hb.Signed); ok {
			return m.hEqual(ha, hb)
		}
	}
	m.Undecided(fmt.Sprintf("comparison of %s and %s", Show(a), Show(b)))
	return false
}

// Show renders a value for diagnostics.
func Show(v Value) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case *Wire:
		return "wire(" + x.Op + ")"
	case Iface:
		if x.T == nil {
			return "nil"
		}
		return Show(x.V)
	case Slice:
		return fmt.Sprintf("slice[%d]", len(x))
	case *Opaque:
		var as []string
		for _, a := range x.Args {
			as = append(as, Show(a))
		}
		return x.Op + "(" + strings.Join(as, ",") + ")"
	case *OpaqueSlice:
		var as []string
		for _, a := range x.Args {
			as = append(as, Show(a))
		}
		return x.Op + "(" + strings.Join(as, ",") + ")"
	case *HInt:
		return "hint"
	case BigInt:
		if c, ok := x.P.IsConst(); ok {
			return c.String()
		}
		return "bigint"
	case *Value:
		if x == nil {
			return "nilptr"
		}
		return "&" + Show(*x)
	case Struct, Arr:
		return fmt.Sprintf("%T", v)
	}
	return fmt.Sprintf("%v", v)
}

func bi(v int64) *big.Int { return big.NewInt(v) }

// IsNil reports whether v is a nil interface or pointer.
func IsNil(v Value) bool {
	switch x := v.(type) {
	case nil:
		return true
	case Iface:
		return x.T == nil && x.V == nil
	case *Value:
		return x == nil
	case Slice:
		return x == nil
	}
	return false
}

// SameSlice reports whether two slices share their elements.
func SameSlice(a, b Value) bool {
	x, ok := a.(Slice)
	y, ok2 := b.(Slice)
	return ok && ok2 && len(x) == len(y) && (len(x) == 0 || &x[0] == &y[0])
}
