package rules

import (
	"fmt"
	"math/big"

	"zkcheck/internal/ai"
	"zkcheck/internal/poly"
)

func init() {
	register("C08", "Each Keccak gadget is abstractly interpreted with the permutation as an uninterpreted function of the exact 1600-bit state; for every number of rate blocks and every selected final block the output polynomials must be those of the reference sponge, selectors outside the blocks must have no solution, and impossible lengths must be refused. The permutation itself is interpreted in the GF(2) domain (linear forms over interned AND nodes) and compared with the Keccak-f[1600] definition, whose round constants, rotations and lane permutation are derived from the specification's recurrences.", runC08)
}

// refKeccakF is Keccak-f[1600] from its definition, on forms.
func refKeccakF(g *ai.GF2, in []ai.Form) []ai.Form {
	at := func(x, y, z int) int { return 64*(5*((y+5)%5)+(x+5)%5) + (z+64*9)%64 }
	st := append([]ai.Form(nil), in...)
	lf := 1 // LFSR x^8+x^6+x^5+x^4+1
	rcBit := func() bool {
		b := lf&1 == 1
		lf <<= 1
		if lf&0x100 != 0 {
			lf ^= 0x171
		}
		return b
	}
	var rot [25]int
	x, y := 1, 0
	for t := 0; t < 24; t++ {
		rot[5*y+x] = (t + 1) * (t + 2) / 2 % 64
		x, y = y, (2*x+3*y)%5
	}
	for r := 0; r < 24; r++ {
		var c [5][64]ai.Form
		for x := 0; x < 5; x++ {
			for z := 0; z < 64; z++ {
				for y := 0; y < 5; y++ {
					c[x][z] = g.Xor(c[x][z], st[at(x, y, z)])
				}
			}
		}
		a := make([]ai.Form, 1600)
		for x := 0; x < 5; x++ {
			for z := 0; z < 64; z++ {
				d := g.Xor(c[(x+4)%5][z], c[(x+1)%5][(z+63)%64])
				for y := 0; y < 5; y++ {
					a[at(x, y, z)] = g.Xor(st[at(x, y, z)], d)
				}
			}
		}
		b := make([]ai.Form, 1600)
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				for z := 0; z < 64; z++ {
					b[at(y, 2*x+3*y, z+rot[5*y+x])] = a[at(x, y, z)]
				}
			}
		}
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				for z := 0; z < 64; z++ {
					n := g.Xor(b[at(x+1, y, z)], g.Const(true))
					st[at(x, y, z)] = g.Xor(b[at(x, y, z)], g.And(n, b[at(x+2, y, z)]))
				}
			}
		}
		for j := 0; j <= 6; j++ {
			if rcBit() {
				z := 1<<uint(j) - 1
				st[z] = g.Xor(st[z], g.Const(true))
			}
		}
	}
	return st
}

func runC08(c *Ctx) {
	kk := G + "keccak"
	c.Ob("permutation", "keccakf.Permute: 24 rounds on 1600 symbolic bits", func(t *T) {
		m := t.M(ai.BN254Fr)
		g := m.UseGF2()
		in, ps := bitIns(m, 1600)
		r := m.WiresOf(t.Run(m, kk+"/keccakf", "Permute", m.APIValue(), ai.Arr(in)))
		mustLen("state", len(r), 1600)
		var fs []ai.Form
		for _, p := range ps {
			fs = append(fs, g.Of(p))
		}
		want := refKeccakF(g, fs)
		for i := range r {
			if !g.Of(r[i].P).Same(want[i]) {
				Failf("state bit %d (lane %d bit %d) differs from Keccak-f[1600]", i, i/64, i%64)
			}
		}
		for _, k := range m.Cons {
			Failf("restricts the state: %s constraint at %s", k.Kind, m.Prog.Pos(k.Pos))
		}
	})
	maxR := 4
	if c.Thorough {
		maxR = 8
	}
	// bit-level variants
	bitsVariant := func(fn string, min, max int) {
		pre := []ai.Value{int64(max)}
		n := max - min + 1
		if fn == "Keccak256BitsOptimized" {
			pre = []ai.Value{int64(min), int64(max)}
		}
		off := int64(min - 1)
		c.Ob("sponge-bits", fmt.Sprintf("%s blocks %d..%d", fn, min, max), func(t *T) {
			m := newKeccakMachine(t)
			sel := m.Input("round")
			in, ps := bitIns(m, max*1088)
			in, full := spareSlice(in, 2)
			before := append(ai.Slice(nil), full...)
			args := append([]ai.Value{m.APIValue()}, pre...)
			r := m.WiresOf(t.Run(m, kk, fn, append(args, ai.V(sel), in)...))
			mustUnchanged("the data", full, before)
			mustLen("digest", len(r), 256)
			st := refSponge(m, ps)
			if max > 1 {
				for k := 0; k < n; k++ {
					f := atValue(m, sel, off+int64(k))
					for i := range r {
						mustEq(m, fmt.Sprintf("digest bit %d with final block %d", i, off+int64(k)), m.Sp.Subst(r[i].P, f), st[off+int64(k)][i])
					}
				}
				shifted := sel
				if off != 0 {
					shifted = m.PolyWire(m.Sp.Sub(sel.P, m.Sp.Int(off)))
				}
				if !rejectsOutside(m, shifted, n) {
					Failf("a final block outside %d..%d is accepted", off, off+int64(n)-1)
				}
				for k := 0; k < n; k++ {
					if v := unsat(m, env{mustAtom(sel): {bigI(off + int64(k)), bigI(off + int64(k))}}); v != "" {
						Failf("final block %d is rejected: %s", off+int64(k), v)
					}
				}
			} else {
				for i := range r {
					mustEq(m, fmt.Sprintf("digest bit %d", i), r[i].P, st[0][i])
				}
			}
		})
		c.Ob("impossible-length", fmt.Sprintf("%s blocks %d..%d", fn, min, max), func(t *T) {
			for _, l := range []int{0, 1087, 1088*max - 1, 1088*max - 8, 1088*max + 1, 1088 * (max + 1), 1088 * (max - 1)} {
				if l < 0 || l == 1088*max {
					continue
				}
				m := newKeccakMachine(t)
				in, _ := bitIns(m, l)
				in = in[:len(in):len(in)]
				args := append([]ai.Value{m.APIValue()}, pre...)
				mustPanic(t, m, kk, fn, fmt.Sprintf("%d bits for %d blocks", l, max), append(args, ai.V(m.Input("round")), in)...)
			}
		})
		c.Ob("bit-range", fmt.Sprintf("%s blocks %d..%d", fn, min, max), func(t *T) {
			for _, pos := range []int{0, 1087, 1088*max - 1, 1088*max - 1088} {
				m := newKeccakMachine(t)
				in, _ := bitIns(m, max*1088)
				x := m.Input("x")
				in[pos] = ai.V(x)
				args := append([]ai.Value{m.APIValue()}, pre...)
				t.Run(m, kk, fn, append(args, int64(off), in)...)
				rejectOrBool(m, x, mustAtom(x))
			}
		})
	}
	for _, max := range c.grid(seq(1, maxR), 1, 20, kk) {
		bitsVariant("Keccak256Bits", 1, max)
		for min := 1; min <= max; min++ {
			if max <= maxR || min == 2 || min == max {
				bitsVariant("Keccak256BitsOptimized", min, max)
			}
		}
	}
	c.Floor("sponge-bits", 10)
	// lane variants and their nibble views
	lanes := func(m *ai.Machine, rounds int) (ai.Arr, []*poly.Poly) {
		var blocks ai.Arr
		var ps []*poly.Poly
		for i := 0; i < rounds; i++ {
			var b ai.Arr
			for l := 0; l < 17; l++ {
				nm := fmt.Sprintf("l%d_%d", i, l)
				b = append(b, ai.V(m.InputBits(nm, 64)))
				for j := 0; j < 64; j++ {
					ps = append(ps, bitsVal(m, nm, j, 1))
				}
			}
			blocks = append(blocks, b)
		}
		return blocks, ps
	}
	word := func(m *ai.Machine, bs []*poly.Poly) *poly.Poly {
		v := m.Sp.Int(0)
		for j, b := range bs {
			v = m.Sp.Add(v, m.Sp.Scale(b, pow2(j)))
		}
		return v
	}
	for _, v := range []struct {
		fn, nib string
		n       int
	}{{"Keccak256", "Keccak256AsNibbles", 10}, {"Keccak256ForNormalTransaction", "Keccak256ForNormalTransactionAsNibbles", 13}, {"Keccak256ForMaxTransaction", "Keccak256ForMaxTransactionAsNibbles", 13}} {
		c.Ob("sponge-lanes", v.fn, func(t *T) {
			m := newKeccakMachine(t)
			sel := m.Input("round")
			b, ps := lanes(m, v.n)
			r := m.WiresOf(t.Run(m, kk, v.fn, m.APIValue(), b, ai.V(sel)))
			mustLen("digest", len(r), 4)
			st := refSponge(m, ps)
			for k := 0; k < v.n; k++ {
				f := atValue(m, sel, int64(k))
				for i := range r {
					mustEq(m, fmt.Sprintf("digest lane %d with final block %d", i, k), m.Sp.Subst(r[i].P, f), word(m, st[k][64*i:64*i+64]))
				}
				if x := unsat(m, env{mustAtom(sel): {bigI(int64(k)), bigI(int64(k))}}); x != "" {
					Failf("final block %d is rejected: %s", k, x)
				}
			}
			if !rejectsOutside(m, sel, v.n) {
				Failf("a final block outside 0..%d is accepted", v.n-1)
			}
		})
		c.Ob("lane-range", v.fn, func(t *T) {
			for _, pos := range []int{0, 16, 17*v.n - 1} {
				m := newKeccakMachine(t)
				b, _ := lanes(m, v.n)
				x := m.Input("x")
				b[pos/17].(ai.Arr)[pos%17] = ai.V(x)
				t.Run(m, kk, v.fn, m.APIValue(), b, int64(v.n-1))
				mustRange(m, x, 64)
			}
		})
		c.Ob("nibble-view", v.nib, func(t *T) {
			ks := []int{0, 1, v.n / 2, v.n - 1}
			for _, k := range ks {
				m := newKeccakMachine(t)
				b, ps := lanes(m, v.n)
				il := m.InputBits("len", 16)
				r := deref(t.Run(m, G+"rlp", v.nib, m.APIValue(), ai.V(il), b, int64(k))).(ai.Struct)
				out := m.WiresOf(r[0])
				mustLen("nibbles", len(out), 64)
				st := refSponge(m, ps)[k]
				for i := range out {
					byt := st[8*(i/2) : 8*(i/2)+8]
					half := byt[4:]
					if i%2 == 1 {
						half = byt[:4]
					}
					mustEq(m, fmt.Sprintf("nibble %d with final block %d", i, k), out[i].P, word(m, half))
				}
			}
			m := newKeccakMachine(t)
			b, _ := lanes(m, v.n)
			sel := m.Input("round")
			t.Run(m, G+"rlp", v.nib, m.APIValue(), ai.V(m.InputBits("len", 16)), b, ai.V(sel))
			if !rejectsOutside(m, sel, v.n) {
				Failf("a final block outside 0..%d is accepted", v.n-1)
			}
		})
		c.Ob("literal-length", v.nib, func(t *T) {
			m := newKeccakMachine(t)
			b, _ := lanes(m, v.n)
			il := m.Input("len")
			r := deref(t.Run(m, G+"rlp", v.nib, m.APIValue(), ai.V(il), b, int64(0))).(ai.Struct)
			w := m.ToWire(r[1])
			for k := int64(0); k < 200; k++ {
				want := k
				if k >= 63 {
					want = 64
				}
				mustEq(m, fmt.Sprintf("output length for %d input nibbles", k), m.Sp.Subst(w.P, atValue(m, il, k)), m.Sp.Int(want))
			}
		})
	}
}

func bigI(v int64) *big.Int { return big.NewInt(v) }

func mustAtom(w *ai.Wire) *poly.Atom {
	a, ok := w.P.SingleAtom()
	if !ok {
		Failf("internal: not an atom")
	}
	return a
}

// deref follows a pointer result.
func deref(v ai.Value) ai.Value {
	if p, ok := v.(*ai.Value); ok {
		return *p
	}
	return v
}
