package rules

import (
	"fmt"
	"math/big"

	"zkcheck/internal/ai"
	"zkcheck/internal/load"
	"zkcheck/internal/poly"
)

func init() {
	for i, p := range []*shaParam{sha256P, sha512P} {
		p := p
		register([]string{"C10", "C11"}[i], "The hash gadget is abstractly interpreted for every message length in the grid with symbolic message bytes. Bit operations are polynomials over 0/1 atoms, word additions are canonical modulo the word size, so the digest polynomials are compared with those of the FIPS 180-4 definition evaluated in the same domain; the constants of the definition are derived from the primes. A decomposition that is unconstrained, too narrow, or an added restriction of the message is reported.", func(c *Ctx) { runSha(c, p) })
	}
}

type shaParam struct {
	prop, inst, name string
	wb, chunk, round int
	lenBytes         int
	S0, S1           [3]int // rotations of the working variables
	s0, s1           [3]int // two rotations and a shift of the schedule
}

var sha256P = &shaParam{"C10", "256", "SHA-256", 32, 64, 64, 8, [3]int{2, 13, 22}, [3]int{6, 11, 25}, [3]int{7, 18, 3}, [3]int{17, 19, 10}}
var sha512P = &shaParam{"C11", "512", "SHA-512", 64, 128, 80, 16, [3]int{28, 34, 39}, [3]int{14, 18, 41}, [3]int{1, 8, 7}, [3]int{19, 61, 6}}

func primes(n int) (ps []int64) {
	for k := int64(2); len(ps) < n; k++ {
		ok := true
		for _, p := range ps {
			if k%p == 0 {
				ok = false
			}
		}
		if ok {
			ps = append(ps, k)
		}
	}
	return
}

// rootFrac is the first wb bits of the fractional part of the e-th root of p.
func rootFrac(p int64, e, wb int) *big.Int {
	v := new(big.Int).Lsh(big.NewInt(p), uint(e*wb))
	lo, hi := big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), uint(wb+16))
	for new(big.Int).Sub(hi, lo).Cmp(big.NewInt(1)) > 0 {
		mid := new(big.Int).Rsh(new(big.Int).Add(lo, hi), 1)
		if new(big.Int).Exp(mid, big.NewInt(int64(e)), nil).Cmp(v) <= 0 {
			lo = mid
		} else {
			hi = mid
		}
	}
	return lo.Mod(lo, pow2(wb))
}

type shaRef struct {
	m *ai.Machine
	p *shaParam
}

type shaWord []*poly.Poly

func (r *shaRef) konst(v *big.Int) shaWord {
	w := make(shaWord, r.p.wb)
	for i := range w {
		w[i] = r.m.Sp.Int(int64(v.Bit(i)))
	}
	return w
}

func (r *shaRef) val(w shaWord) *poly.Poly {
	if q := r.m.FoldBits(w); q != nil {
		return q
	}
	var ps []*poly.Poly
	for i, b := range w {
		ps = append(ps, r.m.Sp.Scale(b, pow2(i)))
	}
	return r.m.Sp.Sum(ps...)
}

func (r *shaRef) add(ws ...shaWord) shaWord {
	var ps []*poly.Poly
	for _, w := range ws {
		ps = append(ps, r.val(w))
	}
	p := r.m.Sp.Sum(ps...)
	if c, ok := p.IsConst(); ok {
		return r.konst(new(big.Int).Mod(c, pow2(r.p.wb)))
	}
	out := make(shaWord, r.p.wb)
	for i := range out {
		out[i] = r.m.BitOf(p, i)
	}
	return out
}

func (r *shaRef) xor3(w shaWord, k [3]int, shift bool) shaWord {
	n := r.p.wb
	out := make(shaWord, n)
	for i := range out {
		x := xorPoly(r.m, w[(i+k[0])%n], w[(i+k[1])%n])
		switch {
		case !shift:
			x = xorPoly(r.m, x, w[(i+k[2])%n])
		case i+k[2] < n:
			x = xorPoly(r.m, x, w[i+k[2]])
		}
		out[i] = x
	}
	return out
}

func (r *shaRef) bitwise(f func(x ...*poly.Poly) *poly.Poly, ws ...shaWord) shaWord {
	out := make(shaWord, r.p.wb)
	for i := range out {
		var xs []*poly.Poly
		for _, w := range ws {
			xs = append(xs, w[i])
		}
		out[i] = f(xs...)
	}
	return out
}

func (r *shaRef) digest(bytes [][]*poly.Poly) [][]*poly.Poly {
	m, n := r.m, r.p.wb
	msg := append([][]*poly.Poly(nil), bytes...)
	cb := func(v int64) (b []*poly.Poly) {
		for i := 0; i < 8; i++ {
			b = append(b, m.Sp.Int(v>>uint(i)&1))
		}
		return
	}
	msg = append(msg, cb(0x80))
	for len(msg)%r.p.chunk != r.p.chunk-r.p.lenBytes {
		msg = append(msg, cb(0))
	}
	bl := big.NewInt(int64(len(bytes)) * 8)
	for i := r.p.lenBytes - 1; i >= 0; i-- {
		msg = append(msg, cb(int64(new(big.Int).And(new(big.Int).Rsh(bl, uint(8*i)), big.NewInt(255)).Int64())))
	}
	ps := primes(r.p.round)
	var h [8]shaWord
	for i := range h {
		h[i] = r.konst(rootFrac(ps[i], 2, n))
	}
	ch := func(x ...*poly.Poly) *poly.Poly { // e f + (1-e) g
		return m.Sp.Add(x[2], m.Sp.Mul(x[0], m.Sp.Sub(x[1], x[2])))
	}
	maj := func(x ...*poly.Poly) *poly.Poly {
		ab, ac, bc := m.Sp.Mul(x[0], x[1]), m.Sp.Mul(x[0], x[2]), m.Sp.Mul(x[1], x[2])
		return m.Sp.Sum(ab, ac, bc, m.Sp.Scale(m.Sp.Mul(ab, x[2]), big.NewInt(-2)))
	}
	for o := 0; o < len(msg); o += r.p.chunk {
		w := make([]shaWord, r.p.round)
		for i := 0; i < 16; i++ {
			for j := n/8 - 1; j >= 0; j-- {
				w[i] = append(w[i], msg[o+i*n/8+j]...)
			}
		}
		for i := 16; i < r.p.round; i++ {
			w[i] = r.add(r.xor3(w[i-2], r.p.s1, true), w[i-7], r.xor3(w[i-15], r.p.s0, true), w[i-16])
		}
		v := h
		for i := 0; i < r.p.round; i++ {
			a, b, c, d, e, f, g, hh := v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]
			t1 := r.add(hh, r.xor3(e, r.p.S1, false), r.bitwise(ch, e, f, g), r.konst(rootFrac(ps[i], 3, n)), w[i])
			t2 := r.add(r.xor3(a, r.p.S0, false), r.bitwise(maj, a, b, c))
			v = [8]shaWord{r.add(t1, t2), a, b, c, r.add(d, t1), e, f, g}
		}
		for i := range h {
			h[i] = r.add(h[i], v[i])
		}
	}
	var out [][]*poly.Poly
	for _, w := range h {
		for j := n/8 - 1; j >= 0; j-- {
			out = append(out, w[8*j:8*j+8])
		}
	}
	return out
}

func runSha(c *Ctx, p *shaParam) {
	machine := func(t *T) *ai.Machine {
		m := t.M(ai.BN254Fr)
		return m
	}
	msgOf := func(m *ai.Machine, name string, n int) (ai.Slice, [][]*poly.Poly) {
		var s ai.Slice
		var bs [][]*poly.Poly
		for i := 0; i < n; i++ {
			w := m.InputBits(fmt.Sprintf("%s%d", name, i), 8)
			s = append(s, ai.V(w))
			var b []*poly.Poly
			for j := 0; j < 8; j++ {
				b = append(b, bitsVal(m, fmt.Sprintf("%s%d", name, i), j, 1))
			}
			bs = append(bs, b)
		}
		return s, bs
	}
	check := func(m *ai.Machine, what string, v ai.Value, bytes [][]*poly.Poly) {
		got := m.WiresOf(v)
		want := (&shaRef{m, p}).digest(bytes)
		mustLen(what, len(got), len(want))
		for i := range got {
			x := m.Sp.Int(0)
			for j, b := range want[i] {
				x = m.Sp.Add(x, m.Sp.Scale(b, pow2(j)))
			}
			mustEq(m, fmt.Sprintf("%s byte %d", what, i), got[i].P, x)
		}
	}
	noCons := func(m *ai.Machine) {
		for _, k := range m.Cons {
			Failf("restricts the message beyond bytes: %s constraint on %s at %s", k.Kind, clip(m.Sp.String(k.P)), m.Prog.Pos(k.Pos))
		}
	}
	lens := map[int]bool{}
	edge := p.chunk - p.lenBytes
	for i := 0; i < 3; i++ {
		for _, d := range []int{-1, 0, 1} {
			lens[i*p.chunk+edge+d-1] = true
			if i*p.chunk+d >= 0 {
				lens[i*p.chunk+d] = true
			}
		}
	}
	for i := 0; i <= p.chunk+8; i += p.wb/4 + 1 {
		lens[i] = true
	}
	if c.Thorough {
		step := 1
		if p.wb == 64 {
			step = 3 // two-block messages dominate the cost
		}
		for i := 0; i <= 2*p.chunk; i += step {
			lens[i] = true
		}
		lens[5*p.chunk+edge] = true
	}
	var base []int
	for n := range lens {
		base = append(base, n)
	}
	for _, n := range c.grid(base, 0, 2*p.chunk+p.chunk/2, G+"sha"+p.inst) {
		c.Ob("digest", fmt.Sprintf("%s of %d bytes", p.name, n), func(t *T) {
			m := machine(t)
			in, bs := msgOf(m, "b", n)
			in, full := spareSlice(in, 3)
			before := append(ai.Slice(nil), full...)
			r := t.Run(m, load.InstPath, "Sha_"+p.inst, m.APIValue(), ai.Slice{in})
			mustUnchanged("Write", full, before)
			check(m, "digest", r, bs)
			noCons(m)
		})
	}
	c.Floor("digest", 20)
	// constant messages fold completely: bit lengths of two, three (and four) bytes
	big := []int{255, 256}
	if c.Thorough {
		big = append(big, 8191, 8192, 8192+p.chunk/2)
	}
	for _, n := range c.grid(big, 2*p.chunk, 9000, G+"sha"+p.inst) {
		c.Ob("digest-long", fmt.Sprintf("%s of %d constant bytes", p.name, n), func(t *T) {
			m := machine(t)
			var in ai.Slice
			var bs [][]*poly.Poly
			for i := 0; i < n; i++ {
				v := int64(7*i+i/251) & 255
				in = append(in, v)
				var b []*poly.Poly
				for j := 0; j < 8; j++ {
					b = append(b, m.Sp.Int(v>>uint(j)&1))
				}
				bs = append(bs, b)
			}
			check(m, "digest", t.Run(m, load.InstPath, "Sha_"+p.inst, m.APIValue(), ai.Slice{in}), bs)
		})
	}
	// the message may be written in any pieces, and hashed repeatedly
	for _, parts := range [][]int{{1, 2}, {0, 5, 0}, {p.chunk - 1, 1, 3}, {p.chunk, 1}, {1, p.chunk}, {3, p.chunk - 3}, {3, 2*p.chunk - 3}, {5, 2*p.chunk + 1}, {edge, 8, 9}, {1, 1, 1, p.chunk}, {p.chunk - 1, p.chunk + 2}} {
		for _, fn := range []string{"Sha_", "ShaTwice_", "ShaReset_"} {
			if fn != "Sha_" && p.wb == 64 && len(parts) < 3 && !c.Thorough {
				continue // costs several blocks more
			}
			c.Ob("digest-pieces", fmt.Sprintf("%s %s%s pieces %v", p.name, fn, p.inst, parts), func(t *T) {
				m := machine(t)
				var s ai.Slice
				var all [][]*poly.Poly
				for i, n := range parts {
					in, bs := msgOf(m, fmt.Sprintf("p%d_", i), n)
					s = append(s, in)
					all = append(all, bs...)
				}
				args := []ai.Value{m.APIValue(), s}
				if fn == "ShaReset_" {
					old, _ := msgOf(m, "old", p.chunk+7)
					args = []ai.Value{m.APIValue(), old, s}
				}
				r := t.Run(m, load.InstPath, fn+p.inst, args...)
				check(m, "digest", r, all)
				noCons(m)
			})
		}
	}
	c.Ob("digest-independent", p.name, func(t *T) {
		m := machine(t)
		a, ab := msgOf(m, "a", 7)
		b, bb := msgOf(m, "b", 9)
		r := t.Run(m, load.InstPath, "ShaInter_"+p.inst, m.APIValue(), a, b).(ai.Tuple)
		check(m, "first digest", r[0], ab)
		check(m, "second digest", r[1], bb)
	})
	c.Ob("byte-range", p.name, func(t *T) {
		m := machine(t)
		x := m.Input("x")
		t.Run(m, load.InstPath, "Sha_"+p.inst, m.APIValue(), ai.Slice{ai.Slice{ai.V(x)}})
		for _, k := range m.Cons {
			if k.Kind == "range" && k.N == 8 && poly.Eq(k.P, x.P) {
				return
			}
		}
		Failf("a message element is not constrained to a byte")
	})
	if p.wb == 32 {
		for _, fn := range []string{"U8_", "U8From_", "U8Xor_"} {
			c.Ob("byte-helper", fn+p.inst, func(t *T) {
				m := machine(t)
				_, bs := msgOf(m, "b", 2)
				a, b := ai.V(m.InputBits("b0", 8)), ai.V(m.InputBits("b1", 8))
				want := make([]*poly.Poly, 8)
				copy(want, bs[0])
				args := []ai.Value{m.APIValue(), a}
				if fn == "U8Xor_" {
					args = append(args, b)
					for i := range want {
						want[i] = xorPoly(m, bs[0][i], bs[1][i])
					}
				}
				rv := t.Run(m, load.InstPath, fn+p.inst, args...)
				noCons(m)
				if _, ok := rv.(ai.Slice); !ok {
					rv = ai.Slice{rv}
				}
				r := m.WiresOf(rv)
				if fn == "U8_" {
					mustLen("bits", len(r), 8)
					for i := range r {
						mustEq(m, fmt.Sprintf("bit %d", i), r[i].P, want[i])
					}
					return
				}
				x := m.Sp.Int(0)
				for i, b := range want {
					x = m.Sp.Add(x, m.Sp.Scale(b, pow2(i)))
				}
				mustEq(m, "byte", r[0].P, x)
			})
		}
	}
}
