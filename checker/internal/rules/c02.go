package rules

import (
	"fmt"
	"go/types"
	"math/big"

	"zkcheck/internal/ai"
	"zkcheck/internal/load"
	"zkcheck/internal/poly"
)

func init() {
	register("C02", "FromElement, ToElement and ToElements are abstractly interpreted for six emulated fields, three native fields and every packing size dividing the limb layout; each output variable/limb must equal the polynomial of its exact bit window (big-endian words, little-endian limbs), hint outputs must be uniquely determined by constraints, and elements must be built through Field.NewElement, which bounds limb widths.", runC02)
}

const gemu = "github.com/consensys/gnark/std/math/emulated."

// structField returns the index of a named field of a struct type.
func structField(t types.Type, name string) int {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		Failf("%s is not a struct", t)
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	Failf("%s has no field %s", t, name)
	return -1
}

// modelEmulatedShallow models emulated.NewField/NewElement as limb containers.
func modelEmulatedShallow(m *ai.Machine) {
	m.Over[gemu+"NewField"] = func(m *ai.Machine, c *ai.Call) ai.Value {
		return ai.Tuple{&ai.Ext{Type: "field"}, ai.NilErr}
	}
	m.Over[gemu+"(*Field).NewElement"] = func(m *ai.Machine, c *ai.Call) ai.Value {
		pt := c.Fn.Signature.Results().At(0).Type().(*types.Pointer)
		iv, ok := c.Args[1].(ai.Iface)
		if !ok {
			m.Undecided("NewElement argument")
		}
		sl, ok := iv.V.(ai.Slice)
		if !ok {
			m.Undecided("NewElement argument is not a limb slice")
		}
		z := m.Zero(pt.Elem()).(ai.Struct)
		z[structField(pt.Elem(), "Limbs")] = sl
		m.Events = append(m.Events, ai.Event{Kind: "newelement", Args: []ai.Value{sl}, Pos: m.Pos()})
		cell := new(ai.Value)
		*cell = z
		return cell
	}
}

func elementType(t *T, fn string) types.Type {
	f := ai.FindFunc(t.C.Prog, load.InstPath, fn)
	if f == nil {
		Failf("anchor %s not found (signature changed?)", fn)
	}
	return f.Signature.Params().At(1).Type().(*types.Pointer).Elem()
}

func limbsOfElem(m *ai.Machine, v ai.Value) ai.Slice {
	p, ok := v.(*ai.Value)
	if !ok || p == nil {
		Failf("element is %s", ai.Show(v))
	}
	return asSlice((*p).(ai.Struct)[0])
}

func runC02(c *Ctx) {
	natives := []struct {
		name string
		mod  *big.Int
	}{{"BN254", ai.BN254Fr}, {"BLS12_377", ai.BLS377Fr}, {"BW6_761", ai.BW6761Fr}}
	for _, fld := range load.InstFields {
		for _, nat := range natives {
			m0 := ai.New(c.Prog, nat.mod)
			r0, ok := m0.Run(m0.Func(load.InstPath, "Limbs_"+fld)).Ret.(ai.Tuple)
			if !ok {
				c.Fail("from-element", "field parameters of "+fld, "limb layout is not a constant")
				continue
			}
			n, b := int(r0[0].(int64)), int(r0[1].(int64))
			var sizes []int
			for _, s := range []int{1, 2, 4, 8, 16, 32, 64, 128, 96, 192, 248} {
				sizes = append(sizes, s)
			}
			for _, s := range sizes {
				if n*b%s != 0 || s >= nat.mod.BitLen() {
					continue
				}
				c.Ob("from-element", fmt.Sprintf("FromElement[%s] over %s, out size %d", fld, nat.name, s), func(t *T) {
					m := t.M(nat.mod)
					et := elementType(t, "FromElement_"+fld)
					el := m.Zero(et).(ai.Struct)
					var ls ai.Slice
					for i := 0; i < n; i++ {
						ls = append(ls, ai.V(m.PolyWire(bitsVal(m, "x", i*b, b))))
					}
					el[structField(et, "Limbs")] = ls
					cell := new(ai.Value)
					*cell = el
					r := t.Run(m, load.InstPath, "FromElement_"+fld, m.APIValue(), cell, int64(s))
					ws := m.WiresOf(asSlice(r))
					sol := solveHints(m)
					sol.mustClosed()
					mustLen("variables", len(ws), n*b/s)
					for i, w := range ws {
						mustEq(m, fmt.Sprintf("variable %d", i), sol.Val(w.P), bitsVal(m, "x", n*b-(i+1)*s, s))
					}
					for i := range ls {
						if !poly.Eq(m.ToWire(ls[i]).P, bitsVal(m, "x", i*b, b)) {
							Failf("the caller's element limbs are modified")
						}
					}
				})
				c.Ob("to-element", fmt.Sprintf("ToElement[%s] over %s, in size %d", fld, nat.name, s), func(t *T) {
					m := t.M(nat.mod)
					modelEmulatedShallow(m)
					cnt := n * b / s
					in := make(ai.Slice, cnt)
					for i := range in {
						in[i] = ai.V(m.PolyWire(bitsVal(m, "x", n*b-(i+1)*s, s)))
					}
					r := t.Run(m, load.InstPath, "ToElement_"+fld, m.APIValue(), in, int64(s))
					ws := m.WiresOf(limbsOfElem(m, r))
					sol := solveHints(m)
					sol.mustClosed()
					mustLen("limbs", len(ws), n)
					for i, w := range ws {
						mustEq(m, fmt.Sprintf("limb %d", i), sol.Val(w.P), bitsVal(m, "x", i*b, b))
					}
				})
				if b%s != 0 {
					continue
				}
				for cnt := 1; cnt <= 3; cnt++ {
					c.Ob("to-elements", fmt.Sprintf("ToElements[%s] over %s, in size %d, %d elements", fld, nat.name, s, cnt), func(t *T) {
						m := t.M(nat.mod)
						modelEmulatedShallow(m)
						total := cnt * n * b
						in := make(ai.Slice, total/s)
						for i := range in {
							in[i] = ai.V(m.PolyWire(bitsVal(m, "x", total-(i+1)*s, s)))
						}
						r := asSlice(t.Run(m, load.InstPath, "ToElements_"+fld, m.APIValue(), in, int64(s)))
						mustLen("elements", len(r), cnt)
						sol := solveHints(m)
						sol.mustClosed()
						for e := range r {
							ws := m.WiresOf(limbsOfElem(m, r[e]))
							mustLen("limbs", len(ws), n)
							for i, w := range ws {
								mustEq(m, fmt.Sprintf("element %d limb %d", e, i), sol.Val(w.P), bitsVal(m, "x", (cnt-1-e)*n*b+i*b, b))
							}
						}
						for i := range in {
							if !poly.Eq(m.ToWire(in[i]).P, bitsVal(m, "x", total-(i+1)*s, s)) {
								Failf("the caller's input slice is modified")
							}
						}
					})
				}
			}
		}
	}
	c.Floor("from-element", 130)
	c.Floor("to-element", 130)
	c.Floor("to-elements", 370)
}
