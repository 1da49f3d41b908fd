package rules

import (
	"fmt"
	"strings"

	"zkcheck/internal/ai"
	"zkcheck/internal/poly"
)

const (
	permBits  = "circuits/gadgets/keccak/keccakf.Permute"
	permLanes = "github.com/consensys/gnark/std/permutation/keccakf.PermuteOld"
)

// permState is the uninterpreted permutation: bit i of f(state), interned by
// the 25 lane values of the input state.
func permState(m *ai.Machine, lanes []*poly.Poly) []*poly.Poly {
	if len(lanes) != 25 {
		Failf("the permutation is applied to %d lanes", len(lanes))
	}
	var key strings.Builder
	for _, p := range lanes {
		key.WriteString(p.Key())
		key.WriteByte('|')
	}
	id := m.Sp.Atom("kstate:"+key.String(), func(a *poly.Atom) { a.Kind = "kstate" }).ID
	out := make([]*poly.Poly, 1600)
	for i := range out {
		out[i] = m.Sp.Var(m.Sp.Atom(fmt.Sprintf("kf:%d.%d", id, i), func(a *poly.Atom) {
			a.Kind = "keccakf"
			a.Bool = true
			a.N = i
			a.Name = fmt.Sprintf("f%d.%d", id, i)
		}))
	}
	return out
}

func lanePoly(m *ai.Machine, bits []*poly.Poly) *poly.Poly {
	var ps []*poly.Poly
	for j, b := range bits {
		ps = append(ps, m.Sp.Scale(b, pow2(j)))
	}
	return m.Sp.Sum(ps...)
}

func permBitState(m *ai.Machine, bits []*poly.Poly) []*poly.Poly {
	if len(bits) != 1600 {
		Failf("the permutation is applied to %d bits", len(bits))
	}
	var ls []*poly.Poly
	for l := 0; l < 25; l++ {
		ls = append(ls, lanePoly(m, bits[64*l:64*l+64]))
	}
	return permState(m, ls)
}

// newKeccakMachine is a machine with the Keccak-f permutation uninterpreted.
func newKeccakMachine(t *T) *ai.Machine {
	m := t.M(ai.BN254Fr)
	m.Over[permBits] = func(m *ai.Machine, c *ai.Call) ai.Value {
		var in []*poly.Poly
		for _, w := range m.WiresOf(c.Args[1]) {
			in = append(in, w.P)
		}
		var out ai.Arr
		for _, p := range permBitState(m, in) {
			out = append(out, ai.V(m.PolyWire(p)))
		}
		return out
	}
	m.Over[permLanes] = func(m *ai.Machine, c *ai.Call) ai.Value {
		var in []*poly.Poly
		for _, w := range m.WiresOf(c.Args[1]) {
			m.ToBits(w, 64, true) // the permutation range-checks its lanes
			in = append(in, w.P)
		}
		ps := permState(m, in)
		var out ai.Arr
		for l := 0; l < 25; l++ {
			v := lanePoly(m, ps[l*64:l*64+64])
			out = append(out, ai.V(m.PolyWire(v)))
		}
		return out
	}
	return m
}

func xorPoly(m *ai.Machine, a, b *poly.Poly) *poly.Poly {
	return m.Sp.Sub(m.Sp.Add(a, b), m.Sp.Scale(m.Sp.Mul(a, b), pow2(1)))
}

// refSponge absorbs whole blocks and returns the state after each.
func refSponge(m *ai.Machine, bits []*poly.Poly) (states [][]*poly.Poly) {
	if len(bits)%1088 != 0 {
		Failf("internal: ragged block")
	}
	st := make([]*poly.Poly, 1600)
	for i := range st {
		st[i] = m.Sp.Int(0)
	}
	for o := 0; o < len(bits); o += 1088 {
		nx := append([]*poly.Poly(nil), st...)
		for i := 0; i < 1088; i++ {
			nx[i] = xorPoly(m, st[i], bits[o+i])
		}
		st = permBitState(m, nx)
		states = append(states, st)
	}
	return states
}
