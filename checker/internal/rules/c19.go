package rules

import (
	"fmt"
	"math/big"

	"zkcheck/internal/ai"
	"zkcheck/internal/load"
	"zkcheck/internal/poly"
)

func init() {
	register("C19", "Every conversion helper is abstractly interpreted on symbolic bits/bytes/field elements; each output must be exactly the polynomial of the documented input bits (which fixes position, order, coverage and round trips for all contents), and every field element that is decomposed must be range-constrained to its documented width. Bit-dependent host loops are partitioned over all byte values.", runC19)
}

// symBytes is a byte slice with symbolic bits name#8i+j.
func symBytes(m *ai.Machine, name string, n int) ai.Slice {
	s := make(ai.Slice, n)
	for i := range s {
		s[i] = m.HBits(fmt.Sprintf("%s%d", name, i), 8)
	}
	return s
}

func symWords(m *ai.Machine, name string, n int) ai.Slice {
	s := make(ai.Slice, n)
	for i := range s {
		s[i] = m.HBits(fmt.Sprintf("%s%d", name, i), 64)
	}
	return s
}

// hb is bit j of element i made by symBytes/symWords.
func hb(m *ai.Machine, name string, i, j int) *poly.Poly {
	return m.Z.Var(m.BitAtom(fmt.Sprintf("%s%d", name, i), j))
}

// bitIns makes n boolean circuit variables; poly i is its bit.
func bitIns(m *ai.Machine, n int) (ai.Slice, []*poly.Poly) {
	var s ai.Slice
	var ps []*poly.Poly
	for i := 0; i < n; i++ {
		w := m.InputBool(fmt.Sprintf("b%d", i))
		s = append(s, ai.V(w))
		ps = append(ps, w.P)
	}
	return s, ps
}

// wsum is Σ 2^i ps[i].
func wsum(m *ai.Machine, ps ...*poly.Poly) *poly.Poly {
	v := m.Sp.Int(0)
	for i, p := range ps {
		v = m.Sp.Add(v, m.Sp.Scale(p, pow2(i)))
	}
	return v
}

func zsum(m *ai.Machine, ps ...*poly.Poly) *poly.Poly {
	v := m.Z.Int(0)
	for i, p := range ps {
		v = m.Z.Add(v, m.Z.Scale(p, pow2(i)))
	}
	return v
}

// zbits is the integer Σ 2^i name[i].
func zbits(m *ai.Machine, name string, n int) *poly.Poly {
	var ps []*poly.Poly
	for i := 0; i < n; i++ {
		ps = append(ps, m.Z.Var(m.BitAtom(name, i)))
	}
	return zsum(m, ps...)
}

func revp(ps []*poly.Poly) []*poly.Poly {
	o := make([]*poly.Poly, len(ps))
	for i := range ps {
		o[len(ps)-1-i] = ps[i]
	}
	return o
}

// mustRange demands a recorded range constraint of exactly n bits (or
// narrower) on the plain input w.
func mustRange(m *ai.Machine, w *ai.Wire, n int) {
	for _, c := range m.Cons {
		k := c.N
		if c.Kind == "bool" {
			k = 1
		} else if c.Kind != "range" {
			continue
		}
		if k <= n && poly.Eq(c.P, w.P) {
			return
		}
	}
	Failf("no constraint bounds input %s to %d bits", m.Sp.String(w.P), n)
}

// mustPanic runs fn and demands that it refuses its arguments.
func mustPanic(t *T, m *ai.Machine, pkg, fn, what string, args ...ai.Value) {
	o := t.Try(m, pkg, fn, args...)
	if o.Abort == nil {
		Failf("%s is accepted", what)
	}
}

func flat17(v ai.Value) []ai.Value {
	var o []ai.Value
	for _, r := range asSlice(v) {
		o = append(o, asSlice(r)...)
	}
	return o
}

func runC19(c *Ctx) {
	conv, ut, kp, cu := G+"conv", G+"utils", G+"keccak", "common/utils"
	_ = ut
	// --- bit regrouping in circuits ---
	type bitsFn struct {
		fn   string
		unit int
		want func(m *ai.Machine, b []*poly.Poly) []*poly.Poly
	}
	chunks := func(b []*poly.Poly, k int, f func(c []*poly.Poly) *poly.Poly) []*poly.Poly {
		var o []*poly.Poly
		for i := 0; i+k <= len(b); i += k {
			o = append(o, f(b[i:i+k]))
		}
		return o
	}
	for _, x := range []bitsFn{
		{"Bits2Bytes", 8, func(m *ai.Machine, b []*poly.Poly) []*poly.Poly {
			return chunks(b, 8, func(c []*poly.Poly) *poly.Poly { return wsum(m, c...) })
		}},
		{"Bits2Bytes2", 8, func(m *ai.Machine, b []*poly.Poly) []*poly.Poly {
			return chunks(b, 8, func(c []*poly.Poly) *poly.Poly { return wsum(m, revp(c)...) })
		}},
		{"Bits2BytesArray", 8, func(m *ai.Machine, b []*poly.Poly) []*poly.Poly {
			return revp(chunks(b, 8, func(c []*poly.Poly) *poly.Poly { return wsum(m, c...) }))
		}},
		{"Bits2Nibbles", 4, func(m *ai.Machine, b []*poly.Poly) []*poly.Poly {
			return chunks(b, 4, func(c []*poly.Poly) *poly.Poly { return wsum(m, c...) })
		}},
	} {
		for _, n := range c.grid([]int{0, 1, 2, 3, 4, 8, 32, 64}, 0, 300, conv) {
			c.Ob("bit-regroup", fmt.Sprintf("conv.%s of %d units", x.fn, n), func(t *T) {
				m := t.M(ai.BN254Fr)
				in, ps := bitIns(m, n*x.unit)
				got := m.WiresOf(asSlice(t.Run(m, conv, x.fn, m.APIValue(), in)))
				want := x.want(m, ps)
				mustLen("output", len(got), len(want))
				for i := range want {
					mustEq(m, fmt.Sprintf("output %d", i), got[i].P, want[i])
				}
			})
		}
	}
	c.Ob("bit-regroup", "conv.Bits2Uint128s", func(t *T) {
		m := t.M(ai.BN254Fr)
		in, ps := bitIns(m, 256)
		got := m.WiresOf(asSlice(t.Run(m, conv, "Bits2Uint128s", m.APIValue(), ai.Arr(in))))
		mustLen("output", len(got), 2)
		for k := 0; k < 2; k++ {
			v := m.Sp.Int(0)
			for i := 0; i < 16; i++ {
				for j := 0; j < 8; j++ {
					v = m.Sp.Add(v, m.Sp.Scale(ps[128*k+8*i+j], pow2(8*(15-i)+j)))
				}
			}
			mustEq(m, fmt.Sprintf("half %d", k), got[k].P, v)
		}
	})
	for _, n := range []int{8, 16, 64, 136, 248} {
		c.Ob("bit-regroup", fmt.Sprintf("utils.FlipKeccakFvBits %d", n), func(t *T) {
			m := t.M(ai.BN254Fr)
			d := m.InputBits("d", n)
			got := m.WiresOf(asSlice(t.Run(m, ut, "FlipKeccakFvBits", m.APIValue(), ai.V(d), int64(n))))
			mustLen("output", len(got), n)
			for i := 0; i < n/8; i++ {
				for j := 0; j < 8; j++ {
					mustEq(m, fmt.Sprintf("bit %d", 8*i+j), got[8*i+j].P, m.Sp.Var(m.BitAtom("d", n-8-8*i+j)))
				}
			}
			m2 := t.M(ai.BN254Fr)
			w := m2.Input("d")
			t.Run(m2, ut, "FlipKeccakFvBits", m2.APIValue(), ai.V(w), int64(n))
			mustRange(m2, w, n)
		})
	}
	c.Ob("bit-regroup", "utils.FlipKeccakFvBits refuses partial bytes", func(t *T) {
		m := t.M(ai.BN254Fr)
		mustPanic(t, m, ut, "FlipKeccakFvBits", "a width of 12 bits", m.APIValue(), ai.V(m.Input("d")), int64(12))
	})
	// --- generic slice helpers ---
	ints := func(n int) ai.Slice {
		s := make(ai.Slice, n)
		for i := range s {
			s[i] = int64(1000 + i)
		}
		return s
	}
	perm := func(fn string, n int, idx func(i int) int, args ...ai.Value) {
		c.Ob("permutation", fmt.Sprintf("%s length %d %v", fn, n, args), func(t *T) {
			m := t.M(ai.BN254Fr)
			in := ints(n)
			got := asSlice(t.Run(m, load.InstPath, fn, append([]ai.Value{in}, args...)...))
			mustLen("output", len(got), n)
			for i := range got {
				if got[i] != int64(1000+idx(i)) {
					Failf("output %d is input %s, must be input %d", i, ai.Show(got[i]), idx(i))
				}
			}
			if fn != "ReverseInt" {
				for i := range in {
					if in[i] != int64(1000+i) {
						Failf("the caller's slice is modified at %d", i)
					}
				}
			}
		})
	}
	for _, n := range c.grid(seq(0, 17), 0, 300, ut, cu) {
		perm("FlipInt", n, func(i int) int { return n - 1 - i })
		perm("CUFlipInt", n, func(i int) int { return n - 1 - i })
		perm("ReverseInt", n, func(i int) int { return n - 1 - i })
		for _, k := range []int{1, 2, 3, 4, 8} {
			if n%k == 0 {
				perm("FlipSubSliceInt", n, func(i int) int { return i/k*k + k - 1 - i%k }, int64(k))
				perm("FlipByGroupsInt", n, func(i int) int { return (n/k-1-i/k)*k + i%k }, int64(k))
			} else {
				c.Ob("permutation", fmt.Sprintf("FlipSubSlice length %d chunk %d refused", n, k), func(t *T) {
					m := t.M(ai.BN254Fr)
					mustPanic(t, m, load.InstPath, "FlipSubSliceInt", "a partial chunk", ints(n), int64(k))
				})
			}
		}
	}
	for _, n := range c.grid([]int{0, 1, 5, 33}, 0, 300, ut) {
		c.Ob("permutation", fmt.Sprintf("Slice2FVs %d", n), func(t *T) {
			m := t.M(ai.BN254Fr)
			got := asSlice(t.Run(m, load.InstPath, "Slice2FVsInt", ints(n)))
			mustLen("output", len(got), n)
			for i, w := range m.WiresOf(got) {
				mustEq(m, fmt.Sprintf("output %d", i), w.P, m.Sp.Int(int64(1000+i)))
			}
		})
	}
	// --- host byte / word conversions (both copies) ---
	for _, pkg := range []string{kp, "common/circuits"} {
		for _, n := range c.grid([]int{0, 1, 2, 17, 34}, 0, 300, pkg) {
			c.Ob("host-words", fmt.Sprintf("%s.Bytes2Uint64s %d words", pkg, n), func(t *T) {
				m := t.M(ai.BN254Fr)
				got := asSlice(t.Run(m, pkg, "Bytes2Uint64s", symBytes(m, "x", 8*n)))
				mustLen("output", len(got), n)
				for i := range got {
					var ps []*poly.Poly
					for k := 0; k < 64; k++ {
						ps = append(ps, hb(m, "x", 8*i+k/8, k%8))
					}
					mustEq(m, fmt.Sprintf("word %d", i), m.HPoly(got[i]), zsum(m, ps...))
				}
			})
			c.Ob("host-bits", fmt.Sprintf("%s.Bytes2Bits %d bytes", pkg, 8*n), func(t *T) {
				m := t.M(ai.BN254Fr)
				got := asSlice(t.Run(m, pkg, "Bytes2Bits", symBytes(m, "x", 8*n)))
				mustLen("output", len(got), 64*n)
				for i := range got {
					mustEq(m, fmt.Sprintf("bit %d", i), m.HPoly(got[i]), hb(m, "x", i/8, i%8))
				}
			})
		}
		for _, n := range []int{7, 9} {
			c.Ob("host-words", fmt.Sprintf("%s word conversion refuses %d bytes", pkg, n), func(t *T) {
				m := t.M(ai.BN254Fr)
				mustPanic(t, m, pkg, "Bytes2Uint64", "a partial word", symBytes(m, "x", n))
				mustPanic(t, m, pkg, "Bytes2Uint64s", "a partial word", symBytes(m, "x", n))
			})
		}
		c.Ob("host-bits", pkg+".Bytes2BlockBits", func(t *T) {
			m := t.M(ai.BN254Fr)
			got := asSlice(t.Run(m, pkg, "Bytes2BlockBits", symBytes(m, "x", 136)))
			mustLen("output", len(got), 1088)
			for i := range got {
				mustEq(m, fmt.Sprintf("bit %d", i), m.HPoly(got[i]), hb(m, "x", i/8, i%8))
			}
			mustPanic(t, m, pkg, "Bytes2BlockBits", "a partial block", symBytes(m, "y", 128))
		})
	}
	for _, n := range c.grid([]int{0, 1, 17, 40, 170}, 0, 170, kp) {
		c.Ob("host-words", fmt.Sprintf("Uint64s2Blocks %d", n), func(t *T) {
			m := t.M(ai.BN254Fr)
			in := ints(n)
			rows := asSlice(t.Run(m, kp, "Uint64s2Blocks", in))
			for i, v := range flat17(rows) {
				want := int64(0)
				if i < n {
					want = int64(1000 + i)
				}
				mustEq(m, fmt.Sprintf("lane %d", i), m.ToWire(v).P, m.Sp.Int(want))
			}
		})
	}
	// --- nibbles to lanes ---
	for _, fn := range []string{"NibblesToU64Array", "NibblesToU64ArrayForNormalTransactionLeafValue", "NibblesToU64ArrayForMaxTransactionLeafValue", "RecomposeHexToKeccakU64s"} {
		sizes := []int{16, 272, 544}
		if fn == "RecomposeHexToKeccakU64s" {
			sizes = []int{16, 272, 544, 816}
		}
		for _, n := range sizes {
			c.Ob("nibbles-to-lanes", fmt.Sprintf("%s %d nibbles", fn, n), func(t *T) {
				m := t.M(ai.BN254Fr)
				var in ai.Slice
				for i := 0; i < n; i++ {
					in = append(in, ai.V(m.InputBits(fmt.Sprintf("x%d", i), 4)))
				}
				args := []ai.Value{m.APIValue(), in}
				if fn == "RecomposeHexToKeccakU64s" {
					args = append(args, int64((n+271)/272))
				}
				lanes := flat17(t.Run(m, kp, fn, args...))
				if len(lanes) < n/16 {
					Failf("only %d lanes returned", len(lanes))
				}
				for i, v := range lanes {
					want := m.Sp.Int(0)
					if i < n/16 {
						for k := 0; k < 8; k++ {
							for j := 0; j < 4; j++ {
								want = m.Sp.Add(want, m.Sp.Scale(m.Sp.Var(m.BitAtom(fmt.Sprintf("x%d", 16*i+2*k), j)), pow2(8*k+4+j)))
								want = m.Sp.Add(want, m.Sp.Scale(m.Sp.Var(m.BitAtom(fmt.Sprintf("x%d", 16*i+2*k+1), j)), pow2(8*k+j)))
							}
						}
					}
					mustEq(m, fmt.Sprintf("lane %d", i), m.ToWire(v).P, want)
				}
			})
			c.Ob("nibbles-to-lanes", fmt.Sprintf("%s %d nibbles: range of every nibble", fn, n), func(t *T) {
				m := t.M(ai.BN254Fr)
				in, _ := symIn(m, "x", n)
				args := []ai.Value{m.APIValue(), in}
				if fn == "RecomposeHexToKeccakU64s" {
					args = append(args, int64((n+271)/272))
				}
				t.Run(m, kp, fn, args...)
				for _, w := range m.WiresOf(in) {
					mustRange(m, w, 4)
				}
			})
		}
	}
	// --- common/utils in-circuit recomposition ---
	nib := func(m *ai.Machine, bit func(k int) *poly.Poly, n, i int) *poly.Poly { // i-th nibble from the top of an n-bit value
		return wsum(m, bit(n-4-4*i), bit(n-3-4*i), bit(n-2-4*i), bit(n-1-4*i))
	}
	for _, k := range []int{2, 4, 8, 16, 32} {
		c.Ob("recompose", fmt.Sprintf("Recompose32ByteToNibbles %d pieces", k), func(t *T) {
			m := t.M(ai.BN254Fr)
			w := 256 / k
			var in ai.Slice
			for i := 0; i < k; i++ {
				in = append(in, ai.V(m.InputBits(fmt.Sprintf("x%d", i), w)))
			}
			bit := func(p int) *poly.Poly { return m.Sp.Var(m.BitAtom(fmt.Sprintf("x%d", k-1-p/w), p%w)) }
			got := m.WiresOf(asSlice(t.Run(m, cu, "Recompose32ByteToNibbles", m.APIValue(), in)))
			mustLen("output", len(got), 64)
			for i := range got {
				mustEq(m, fmt.Sprintf("nibble %d", i), got[i].P, nib(m, bit, 256, i))
			}
			m2 := t.M(ai.BN254Fr)
			in2, _ := symIn(m2, "x", k)
			t.Run(m2, cu, "Recompose32ByteToNibbles", m2.APIValue(), in2)
			for _, x := range m2.WiresOf(in2) {
				mustRange(m2, x, w)
			}
		})
	}
	c.Ob("recompose", "Recompose32ByteToNibbles refuses uneven pieces", func(t *T) {
		m := t.M(ai.BN254Fr)
		in, _ := symIn(m, "x", 3)
		mustPanic(t, m, cu, "Recompose32ByteToNibbles", "three pieces", m.APIValue(), in)
	})
	b32 := func(m *ai.Machine, bounded bool) (ai.Value, *ai.Wire, *ai.Wire) {
		a, b := m.Input("lo"), m.Input("hi")
		if bounded {
			a, b = m.InputBits("lo", 248), m.InputBits("hi", 8)
		}
		return ai.Struct{ai.Arr{ai.V(a), ai.V(b)}}, a, b
	}
	b32bit := func(m *ai.Machine, p int) *poly.Poly {
		if p < 248 {
			return m.Sp.Var(m.BitAtom("lo", p))
		}
		return m.Sp.Var(m.BitAtom("hi", p-248))
	}
	c.Ob("recompose", "RecomposeSDKByte32ToNibble", func(t *T) {
		m := t.M(ai.BN254Fr)
		v, _, _ := b32(m, true)
		got := m.WiresOf(asSlice(t.Run(m, cu, "RecomposeSDKByte32ToNibble", m.APIValue(), v)))
		mustLen("output", len(got), 64)
		for i := range got {
			mustEq(m, fmt.Sprintf("nibble %d", i), got[i].P, nib(m, func(p int) *poly.Poly { return b32bit(m, p) }, 256, i))
		}
		m = t.M(ai.BN254Fr)
		v, a, b := b32(m, false)
		t.Run(m, cu, "RecomposeSDKByte32ToNibble", m.APIValue(), v)
		mustRange(m, a, 248)
		mustRange(m, b, 8)
	})
	c.Ob("recompose", "RecomposeSDKByte32To2Fr", func(t *T) {
		m := t.M(ai.BN254Fr)
		v, _, _ := b32(m, true)
		got := m.WiresOf(asSlice(t.Run(m, cu, "RecomposeSDKByte32To2Fr", m.APIValue(), v)))
		mustLen("output", len(got), 2)
		for k := 0; k < 2; k++ {
			var ps []*poly.Poly
			for i := 0; i < 128; i++ {
				ps = append(ps, b32bit(m, 128*(1-k)+i))
			}
			mustEq(m, fmt.Sprintf("half %d", k), got[k].P, wsum(m, ps...))
		}
		m = t.M(ai.BN254Fr)
		v, a, b := b32(m, false)
		t.Run(m, cu, "RecomposeSDKByte32To2Fr", m.APIValue(), v)
		mustRange(m, a, 248)
		mustRange(m, b, 8)
	})
	c.Ob("recompose", "Recompose6BytesToNibbles", func(t *T) {
		m := t.M(ai.BN254Fr)
		got := m.WiresOf(asSlice(t.Run(m, cu, "Recompose6BytesToNibbles", m.APIValue(), ai.V(m.InputBits("d", 48)))))
		mustLen("output", len(got), 12)
		for i := range got {
			mustEq(m, fmt.Sprintf("nibble %d", i), got[i].P, nib(m, func(p int) *poly.Poly { return m.Sp.Var(m.BitAtom("d", p)) }, 48, i))
		}
		m = t.M(ai.BN254Fr)
		w := m.Input("d")
		t.Run(m, cu, "Recompose6BytesToNibbles", m.APIValue(), ai.V(w))
		mustRange(m, w, 48)
	})
	for _, s := range []int{248, 128, 240} {
		c.Ob("recompose", fmt.Sprintf("Byte32ToBits %d", s), func(t *T) {
			m := t.M(ai.BN254Fr)
			lo, hi := m.InputBits("lo", s), m.InputBits("hi", 256-s)
			got := m.WiresOf(asSlice(t.Run(m, cu, "Byte32ToBits", m.APIValue(), ai.Struct{ai.Arr{ai.V(lo), ai.V(hi)}}, int64(s))))
			mustLen("output", len(got), 256)
			for p := range got {
				want := m.Sp.Var(m.BitAtom("lo", p))
				if p >= s {
					want = m.Sp.Var(m.BitAtom("hi", p-s))
				}
				mustEq(m, fmt.Sprintf("bit %d", p), got[p].P, want)
			}
			m = t.M(ai.BN254Fr)
			lo, hi = m.Input("lo"), m.Input("hi")
			t.Run(m, cu, "Byte32ToBits", m.APIValue(), ai.Struct{ai.Arr{ai.V(lo), ai.V(hi)}}, int64(s))
			mustRange(m, lo, s)
			mustRange(m, hi, 256-s)
		})
	}
	// --- packing below the modulus ---
	for _, f := range []struct {
		name string
		mod  *big.Int
	}{{"BN254", ai.BN254Fr}, {"BLS12-377", ai.BLS377Fr}, {"BW6-761", ai.BW6761Fr}} {
		for _, n := range c.grid([]int{0, 1, 7, 32, 64, 251, 252, 253, 254, 255, 375, 376, 377, 506, 507, 760, 1000}, 0, 2000, cu) {
			c.Ob("packing", fmt.Sprintf("PackBitsToFr %s %d bits", f.name, n), func(t *T) {
				m := t.M(f.mod)
				in, ps := bitIns(m, n)
				got := m.WiresOf(asSlice(t.Run(m, cu, "PackBitsToFr", m.APIValue(), in)))
				k := f.mod.BitLen() - 1
				mustLen("chunks", len(got), (n+k-1)/k)
				for i := range got {
					hi := (i + 1) * k
					if hi > n {
						hi = n
					}
					mustEq(m, fmt.Sprintf("chunk %d", i), got[i].P, wsum(m, ps[i*k:hi]...))
				}
			})
		}
	}
	hostPacking(c)
	// host bit packing: the residue of the big-endian value of the bits
	for _, n := range c.grid([]int{0, 1, 2, 7, 8, 9, 64, 128, 252, 253, 254, 255, 256}, 0, 300, cu) {
		for _, mod := range []*big.Int{ai.BN254Fr, bls377Fr, big.NewInt(101)} {
			c.Ob("packing", fmt.Sprintf("BitsToFrBigInt %d bits modulo %d bits", n, mod.BitLen()), func(t *T) {
				m := t.M(ai.BN254Fr)
				in := make(ai.Slice, n)
				var ps []*poly.Poly
				for i := range in {
					bits := []*poly.Poly{m.HBits(fmt.Sprintf("x%d", i), 1).Bits[0]}
					for len(bits) < 64 {
						bits = append(bits, m.Z.Int(0))
					}
					in[i] = &ai.HInt{Bits: bits}
					ps = append(ps, m.Z.Scale(bits[0], pow2(n-1-i)))
				}
				got := t.Run(m, cu, "BitsToFrBigInt", in, m.NewBig(m.Z.Const(mod)))
				mustEq(m, "result", m.BigPoly(got), m.Residue(m.Z.Sum(ps...), mod))
			})
		}
	}
	for v := 0; v < 8; v++ {
		c.Ob("host-bits", fmt.Sprintf("DecodeByteToBinary bit %d", v), func(t *T) {
			m := t.M(ai.BN254Fr)
			got := asSlice(t.Run(m, cu, "DecodeByteToBinary", symBytes(m, "x", 1)[0]))
			mustLen("bits", len(got), 8)
			mustEq(m, "bit", m.HPoly(got[7-v]), hb(m, "x", 0, v))
		})
	}
	for _, n := range c.grid([]int{0, 1, 20, 31, 32}, 0, 32, cu) {
		c.Ob("packing", fmt.Sprintf("MiMCBlockPad0 of %d bytes", n), func(t *T) {
			m := t.M(ai.BN254Fr)
			got := asSlice(t.Run(m, cu, "MiMCBlockPad0", symBytes(m, "x", n), int64(32)))
			mustLen("block", len(got), 32)
			for i := range got {
				want := m.Z.Int(0)
				if i >= 32-n {
					var ps []*poly.Poly
					for j := 0; j < 8; j++ {
						ps = append(ps, hb(m, "x", i-(32-n), j))
					}
					want = zsum(m, ps...)
				}
				mustEq(m, fmt.Sprintf("byte %d", i), m.HPoly(got[i]), want)
			}
		})
	}
	c.Floor("bit-regroup", 30)
	c.Floor("packing", 60)
	c.Floor("host-bits", 25)
	c.Floor("nibbles-to-lanes", 20)
}

// hostPacking: the host helpers that cut integers into bits and pack bits
// into integers (also the ground on which H06 stands).
func hostPacking(c *Ctx) {
	const cu = "common/utils"
	hostBits := func(m *ai.Machine, n int) ai.Slice {
		s := make(ai.Slice, n)
		for i := range s {
			h := m.HBits(fmt.Sprintf("x%d", i), 1)
			bits := []*poly.Poly{h.Bits[0]}
			for len(bits) < 64 {
				bits = append(bits, m.Z.Int(0))
			}
			s[i] = &ai.HInt{Bits: bits}
		}
		return s
	}
	for _, n := range c.grid([]int{0, 1, 252, 253, 254, 506, 507, 600}, 0, 2000, cu) {
		c.Ob("packing", fmt.Sprintf("PackBitsToInt %d bits", n), func(t *T) {
			m := t.M(ai.BN254Fr)
			got := asSlice(t.Run(m, cu, "PackBitsToInt", hostBits(m, n)))
			mustLen("chunks", len(got), (n+252)/253)
			for i := range got {
				var ps []*poly.Poly
				for k := i * 253; k < n && k < (i+1)*253; k++ {
					ps = append(ps, hb(m, "x", k, 0))
				}
				mustEq(m, fmt.Sprintf("chunk %d", i), m.BigPoly(got[i]), zsum(m, ps...))
			}
		})
	}
	for _, n := range c.grid([]int{1, 7, 8, 32, 48, 64, 65, 128, 160, 248, 256}, 1, 600, cu) {
		c.Ob("host-bits", fmt.Sprintf("DecomposeBits %d", n), func(t *T) {
			m := t.M(ai.BN254Fr)
			x := m.NewBig(zbits(m, "d", n))
			got := asSlice(t.Run(m, cu, "DecomposeBits", x, int64(n)))
			mustLen("bits", len(got), n)
			for i := range got {
				mustEq(m, fmt.Sprintf("bit %d", i), m.HPoly(got[i]), m.Z.Var(m.BitAtom("d", i)))
			}
			mustEq(m, "the argument afterwards", m.BigPoly(x), zbits(m, "d", n))
			m = t.M(ai.BN254Fr)
			mustPanic(t, m, cu, "DecomposeBits", "a value one bit too long", m.NewBig(m.Z.Add(zbits(m, "d", n), m.Z.Const(pow2(n)))), int64(n))
			mustPanic(t, m, cu, "DecomposeBits", "a negative value", m.NewBig(m.Z.Sub(m.Z.Int(-1), zbits(m, "d", n))), int64(n))
		})
	}
	for _, s := range []int{248, 128, 253} {
		for _, n := range []int{32, 31, 1, 0} {
			c.Ob("packing", fmt.Sprintf("ParseBytes32 of %d bytes at %d", n, s), func(t *T) {
				m := t.M(ai.BN254Fr)
				got := asSlice(t.Run(m, cu, "ParseBytes32", symBytes(m, "x", n), int64(s)))
				mustLen("halves", len(got), 2)
				bit := func(p int) *poly.Poly {
					if p >= 8*n {
						return m.Z.Int(0)
					}
					return hb(m, "x", n-1-p/8, p%8)
				}
				var lo, hi []*poly.Poly
				for p := 0; p < 256; p++ {
					if p < s {
						lo = append(lo, bit(p))
					} else {
						hi = append(hi, bit(p))
					}
				}
				mustEq(m, "low part", m.BigPoly(got[0]), zsum(m, lo...))
				mustEq(m, "high part", m.BigPoly(got[1]), zsum(m, hi...))
			})
		}
		c.Ob("host-bits", fmt.Sprintf("Byte32ToFrBits at %d", s), func(t *T) {
			m := t.M(ai.BN254Fr)
			a := m.NewBig(zbits(m, "lo", s))
			b := m.NewBig(zbits(m, "hi", 256-s))
			got := asSlice(t.Run(m, cu, "Byte32ToFrBits", ai.Arr{a, b}, int64(s)))
			mustLen("bits", len(got), 256)
			for p := range got {
				want := m.Z.Var(m.BitAtom("lo", p))
				if p >= s {
					want = m.Z.Var(m.BitAtom("hi", p-s))
				}
				mustEq(m, fmt.Sprintf("bit %d", p), m.HPoly(got[p]), want)
			}
		})
	}
	c.Ob("packing", "ParseBytes32 refuses 33 bytes", func(t *T) {
		m := t.M(ai.BN254Fr)
		mustPanic(t, m, cu, "ParseBytes32", "33 bytes", symBytes(m, "x", 33), int64(248))
	})
}
