package rules

import (
	"fmt"
	"math/big"

	"zkcheck/internal/ai"
	"zkcheck/internal/poly"
)

func init() {
	register("C09", "Every padding helper is abstractly interpreted with symbolic message content: the host helpers for every length over three blocks (slices carry spare capacity holding sentinels, so a write into the caller's array is visible), the bit-level helper for every bit length around the block boundaries, the in-circuit selector for every admissible length of several layouts crossing a block boundary. Output must be message || pad10*1 (|| zero blocks). Lengths outside the declared bounds must violate a recorded constraint, decided with every length comparison forced to fail.", runC09)
}

// spareSlice copies s into a backing array with spare sentinel cells.
func spareSlice(s ai.Slice, spare int) (ai.Slice, ai.Slice) {
	full := make(ai.Slice, len(s)+spare)
	copy(full, s)
	for i := len(s); i < len(full); i++ {
		full[i] = int64(77)
	}
	return full[:len(s)], full
}

func mustUnchanged(what string, full, before ai.Slice) {
	for i := range full {
		if full[i] != before[i] {
			Failf("%s: element %d of the caller's backing array is overwritten", what, i)
		}
	}
}

// rejectOthers demands that the recorded constraints have no solution when x
// is none of the allowed values.
func rejectOthers(m *ai.Machine, x *poly.Atom, allowed func(v *big.Int) bool) {
	e := env{}
	var visit func(a *poly.Atom)
	seen := map[*poly.Atom]bool{}
	visit = func(a *poly.Atom) {
		if seen[a] {
			return
		}
		seen[a] = true
		for _, p := range a.Args {
			for _, b := range p.AtomsOf() {
				visit(b)
			}
		}
		if a.Kind != "iszero" || len(a.Args) != 1 {
			return
		}
		// affine in x?
		var k, c *big.Int = nil, new(big.Int)
		for _, t := range a.Args[0].T {
			switch {
			case len(t.M.Ats) == 0:
				c = t.C
			case len(t.M.Ats) == 1 && t.M.Ats[0] == x:
				k = t.C
			default:
				return
			}
		}
		if k == nil {
			return
		}
		r := new(big.Int).ModInverse(new(big.Int).Mod(k, m.Mod), m.Mod)
		r.Mul(r, new(big.Int).Neg(c)).Mod(r, m.Mod)
		if allowed(r) {
			e = force(e, a, 0)
		}
	}
	for _, k := range m.Cons {
		ps := []*poly.Poly{k.P}
		if k.A != nil {
			ps = append(ps, k.A.P)
		}
		if k.B != nil {
			ps = append(ps, k.B.P)
		}
		for _, p := range ps {
			if p == nil {
				continue
			}
			for _, a := range p.AtomsOf() {
				visit(a)
			}
		}
	}
	if unsat(m, e) == "" {
		Failf("a value of %s outside the allowed set satisfies every constraint", a2s(x))
	}
}

// u64Poly is the value of a uint64.
func u64Poly(m *ai.Machine, v ai.Value) *poly.Poly {
	if c, ok := v.(int64); ok {
		return m.Z.Const(new(big.Int).SetUint64(uint64(c)))
	}
	return m.HPoly(v)
}

func a2s(a *poly.Atom) string {
	if a.Name != "" {
		return a.Name
	}
	return a.Kind
}

func runC09(c *Ctx) {
	kp, cc := G+"keccak", "common/circuits"
	for _, pkg := range []string{kp, cc} {
		var base []int
		for n := 0; n <= 3*136+2; n++ {
			if n <= 3 || n >= 130 || n%17 == 0 || c.Thorough {
				base = append(base, n)
			}
		}
		for _, n := range c.grid(base, 0, 2000, pkg) {
			c.Ob("pad-bytes", fmt.Sprintf("%s.Pad101Bytes length %d", pkg, n), func(t *T) {
				m := t.M(ai.BN254Fr)
				in, full := spareSlice(symBytes(m, "d", n), 300)
				before := append(ai.Slice(nil), full...)
				out := asSlice(t.Run(m, pkg, "Pad101Bytes", in))
				mustUnchanged("Pad101Bytes", full, before)
				want := (n/136 + 1) * 136
				mustLen("padded message", len(out), want)
				for i := range out {
					w := m.Z.Int(0)
					if i < n {
						w = zbits(m, fmt.Sprintf("d%d", i), 8)
					} else {
						if i == n {
							w = m.Z.Add(w, m.Z.Int(1))
						}
						if i == want-1 {
							w = m.Z.Add(w, m.Z.Int(0x80))
						}
					}
					mustEq(m, fmt.Sprintf("byte %d", i), m.HPoly(out[i]), w)
				}
			})
			c.Ob("pad-words", fmt.Sprintf("%s.Pad101 length %d", pkg, n), func(t *T) {
				m := t.M(ai.BN254Fr)
				in, full := spareSlice(symBytes(m, "d", n), 300)
				before := append(ai.Slice(nil), full...)
				out := asSlice(t.Run(m, pkg, "Pad101", in))
				mustUnchanged("Pad101", full, before)
				want := (n/136 + 1) * 136
				mustLen("padded words", len(out), want/8)
				for i := range out {
					w := m.Z.Int(0)
					for j := 0; j < 8; j++ {
						k := 8*i + j
						b := m.Z.Int(0)
						if k < n {
							b = zbits(m, fmt.Sprintf("d%d", k), 8)
						} else {
							if k == n {
								b = m.Z.Add(b, m.Z.Int(1))
							}
							if k == want-1 {
								b = m.Z.Add(b, m.Z.Int(0x80))
							}
						}
						w = m.Z.Add(w, m.Z.Scale(b, pow2(8*j)))
					}
					mustEq(m, fmt.Sprintf("word %d", i), u64Poly(m, out[i]), w)
				}
			})
		}
	}
	c.Ob("round-index", "keccak.GetKeccakRoundForPaddedBytes", func(t *T) {
		for r := 1; r <= 20; r++ {
			m := t.M(ai.BN254Fr)
			if g := t.Run(m, kp, "GetKeccakRoundForPaddedBytes", make(ai.Slice, 136*r)); g != ai.Value(int64(r-1)) {
				Failf("%d blocks: index %s, must be %d", r, ai.Show(g), r-1)
			}
		}
	})
	c.Ob("round-index", "keccak.GetRoundIndex", func(t *T) {
		for n := 0; n <= 20*136+3; n++ {
			m := t.M(ai.BN254Fr)
			if g := t.Run(m, kp, "GetRoundIndex", int64(8*n)); g != ai.Value(int64(n/136)) {
				Failf("message of %d bytes: index %s, must be %d", n, ai.Show(g), n/136)
			}
		}
	})
	// bit-level padding for every bit length
	var base []int
	for n := 0; n <= 2*1088+2; n++ {
		near := n%1088 < 20 || n%1088 > 1088-30
		if near || n%512 == 0 || c.Thorough && n%13 == 0 {
			base = append(base, n)
		}
	}
	for _, n := range c.grid(base, 0, 3300, kp) {
		for _, extra := range []int{0, 1} {
			c.Ob("pad-bits", fmt.Sprintf("keccak.PadBits101 length %d, %d spare rounds", n, extra), func(t *T) {
				m := t.M(ai.BN254Fr)
				raw, ps := bitIns(m, n)
				in, full := spareSlice(raw, 40)
				before := append(ai.Slice(nil), full...)
				rounds := (n+2+1087)/1088 + extra
				out := m.WiresOf(asSlice(t.Run(m, kp, "PadBits101", m.APIValue(), in, int64(rounds))))
				mustUnchanged("PadBits101", full, before)
				mustLen("padded bits", len(out), rounds*1088)
				last := (n+2+1087)/1088*1088 - 1
				for i := range out {
					w := m.Sp.Int(0)
					switch {
					case i < n:
						w = ps[i]
					case i == n, i == last:
						w = m.Sp.Int(1)
					}
					mustEq(m, fmt.Sprintf("bit %d", i), out[i].P, w)
				}
				if v := violated(m); v != "" {
					Failf("length %d rejected: %s", n, v)
				}
			})
		}
	}
	type lay struct{ bits, min, max int }
	lays := []lay{{8, 0, 3}, {8, 130, 140}, {8, 135, 135}, {8, 136, 136}, {8, 134, 137}, {8, 268, 274}, {4, 260, 280}, {4, 0, 6}, {4, 270, 270}, {2, 528, 552}, {1, 1072, 1104}}
	if c.Thorough {
		lays = append(lays, lay{8, 0, 140}, lay{4, 240, 300}, lay{8, 400, 412}, lay{4, 1080, 1092})
	}
	for _, l := range lays {
		per := 8 / l.bits
		inputs := func(m *ai.Machine) (ai.Slice, []*poly.Poly) {
			var s ai.Slice
			var bits []*poly.Poly // big-endian bit string
			for i := 0; i < l.max; i++ {
				var be []*poly.Poly
				if l.bits == 1 {
					w := m.InputBool(fmt.Sprintf("e%d", i))
					s = append(s, ai.V(w))
					be = []*poly.Poly{w.P}
				} else {
					nm := fmt.Sprintf("e%d", i)
					s = append(s, ai.V(m.PolyWire(m.BitsPoly(nm, l.bits))))
					for j := l.bits - 1; j >= 0; j-- {
						be = append(be, m.Sp.Var(m.BitAtom(nm, j)))
					}
				}
				bits = append(bits, be...)
			}
			return s, bits
		}
		name := fmt.Sprintf("keccak.Pad101Bits inBits %d length %d..%d", l.bits, l.min, l.max)
		for n := l.min; n <= l.max; n += per {
			c.Ob("pad-select", fmt.Sprintf("%s at %d", name, n), func(t *T) {
				m := t.M(ai.BN254Fr)
				raw, bits := inputs(m)
				in, full := spareSlice(raw, 10)
				before := append(ai.Slice(nil), full...)
				out := m.WiresOf(asSlice(t.Run(m, kp, "Pad101Bits", m.APIValue(), int64(l.bits), int64(l.min), int64(l.max), in, int64(n))))
				mustUnchanged("Pad101Bits", full, before)
				if v := violated(m); v != "" {
					Failf("admissible length %d is rejected: %s", n, v)
				}
				used := n * l.bits
				last := (used/1088 + 1) * 1088
				if len(out)%1088 != 0 || len(out) < last {
					Failf("output has %d bits, not enough whole blocks for %d", len(out), last)
				}
				for i := range out {
					// bit i of the output is little-endian within its byte
					be := i/8*8 + 7 - i%8
					w := m.Sp.Int(0)
					if be < used {
						w = bits[be]
					} else if i == used || i == last-1 {
						w = m.Sp.Int(1)
					}
					mustEq(m, fmt.Sprintf("bit %d", i), out[i].P, w)
				}
			})
		}
		c.Ob("pad-reject", name, func(t *T) {
			m := t.M(ai.BN254Fr)
			raw, _ := inputs(m)
			x := m.Input("len")
			t.Run(m, kp, "Pad101Bits", m.APIValue(), int64(l.bits), int64(l.min), int64(l.max), raw, ai.V(x))
			xa, _ := x.P.SingleAtom()
			rejectOthers(m, xa, func(v *big.Int) bool {
				if !v.IsInt64() {
					return false
				}
				k := int(v.Int64())
				return k >= l.min && k <= l.max && (k-l.min)%per == 0
			})
		})
		c.Ob("pad-range", name, func(t *T) {
			if l.max == 0 {
				return
			}
			m := t.M(ai.BN254Fr)
			var in ai.Slice
			for i := 0; i < l.max; i++ {
				in = append(in, ai.V(m.Input(fmt.Sprintf("e%d", i))))
			}
			t.Run(m, kp, "Pad101Bits", m.APIValue(), int64(l.bits), int64(l.min), int64(l.max), in, int64(l.min))
			for i := range in {
				mustRange(m, m.ToWire(in[i]), l.bits)
			}
		})
	}
	c.Floor("pad-bytes", 500)
	c.Floor("pad-bits", 150)
	c.Floor("pad-select", 50)
	c.Floor("pad-reject", 10)
}
