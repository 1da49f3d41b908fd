package rules

import (
	"fmt"

	"zkcheck/internal/ai"
	"zkcheck/internal/poly"
)

func init() {
	register("C03", "The multiplexers and decoders are abstractly interpreted for every table width up to a bound with symbolic table entries: with the selector fixed to each index the output must be the polynomial of that entry and no constraint may be violated; with the selector outside the table (each sample value, and symbolically with every index comparison forced to 0) a recorded constraint must be violated.", runC03)
}

func tableIn(m *ai.Machine, w, n int) ai.Slice {
	var in ai.Slice
	for i := 0; i < w; i++ {
		var row ai.Slice
		for j := 0; j < n; j++ {
			row = append(row, ai.V(m.Input(fmt.Sprintf("t%d_%d", i, j))))
		}
		in = append(in, row)
	}
	return in
}

// eqAtoms forces every comparison of sel with a constant to 0: the abstract
// state "sel is not one of the indexes".
func outOfTable(m *ai.Machine, sel *ai.Wire, n int) env {
	e := env{}
	for j := 0; j < n; j++ {
		z := m.IsZero(m.Sub(sel, m.ConstI(int64(j))))
		if a, ok := z.P.SingleAtom(); ok {
			e = force(e, a, 0)
		}
	}
	return e
}

// rejectsOutside reports whether the recorded constraints exclude sel>=n.
func rejectsOutside(m *ai.Machine, sel *ai.Wire, n int) bool {
	if unsat(m, outOfTable(m, sel, n)) != "" {
		return true
	}
	for _, c := range m.Cons {
		switch c.Kind {
		case "lt", "le":
			if poly.Eq(c.A.P, sel.P) {
				if k, ok := c.B.P.IsConst(); ok && k.IsInt64() {
					if c.Kind == "lt" && k.Int64() <= int64(n) || c.Kind == "le" && k.Int64() < int64(n) {
						return true
					}
				}
			}
		case "range":
			if poly.Eq(c.P, sel.P) && c.N < 30 && 1<<c.N <= n {
				return true
			}
		case "bool":
			if poly.Eq(c.P, sel.P) && n >= 2 {
				return true
			}
		}
	}
	return false
}

func checkMux(c *Ctx, pkg, fn string, max int) {
	for _, n := range c.grid(seq(1, max), 1, 72, pkg) {
		for _, w := range c.grid([]int{1, 2, 3, 8}, 1, 20, pkg) {
			if w > 2 && n > 6 || w > 8 && n > 3 {
				continue
			}
			c.Ob("mux-entry", fmt.Sprintf("%s.%s width %d entries %d", pkg, fn, w, n), func(t *T) {
				for s := 0; s < n; s++ {
					m := t.M(ai.BN254Fr)
					in := tableIn(m, w, n)
					out := m.WiresOf(asSlice(t.Run(m, pkg, fn, m.APIValue(), int64(s), int64(w), int64(n), in)))
					mustLen("outputs", len(out), w)
					for i := range out {
						mustEq(m, fmt.Sprintf("output %d at index %d", i, s), out[i].P, m.Sp.Var(m.Sp.FindAtom(fmt.Sprintf("in:t%d_%d", i, s))))
					}
					if v := violated(m); v != "" {
						Failf("index %d of %d is rejected: %s", s, n, v)
					}
				}
				// the symbolic selector selects by the same entries
				m := t.M(ai.BN254Fr)
				in := tableIn(m, w, n)
				sel := m.Input("sel")
				out := m.WiresOf(asSlice(t.Run(m, pkg, fn, m.APIValue(), ai.V(sel), int64(w), int64(n), in)))
				for i := range out {
					for s := 0; s < n; s++ {
						got := m.Sp.Subst(out[i].P, atValue(m, sel, int64(s)))
						mustEq(m, fmt.Sprintf("output %d at symbolic index %d", i, s), got, m.Sp.Var(m.Sp.FindAtom(fmt.Sprintf("in:t%d_%d", i, s))))
					}
				}
			})
			c.Ob("mux-reject", fmt.Sprintf("%s.%s width %d entries %d", pkg, fn, w, n), func(t *T) {
				m := t.M(ai.BN254Fr)
				in := tableIn(m, w, n)
				sel := m.Input("sel")
				t.Run(m, pkg, fn, m.APIValue(), ai.V(sel), int64(w), int64(n), in)
				if !rejectsOutside(m, sel, n) {
					Failf("no recorded constraint fails when the selector differs from every index 0..%d", n-1)
				}
				for _, s := range []int64{int64(n), int64(n) + 1, 2 * int64(n), 255, -1, -2} {
					if s >= 0 && s < int64(n) {
						continue
					}
					m := t.M(ai.BN254Fr)
					in := tableIn(m, w, n)
					o := t.Try(m, pkg, fn, m.APIValue(), ai.V(m.ConstI(s)), int64(w), int64(n), in)
					if o.Abort == nil && violated(m) == "" {
						Failf("selector %d is accepted for a table of %d entries", s, n)
					}
				}
			})
		}
	}
}

// atValue substitutes the comparisons of x with constants (and x itself) for x = v.
func atValue(m *ai.Machine, x *ai.Wire, v int64) func(a *poly.Atom) *poly.Poly {
	xa, ok := x.P.SingleAtom()
	if !ok {
		Failf("internal: not an atom")
	}
	var f func(a *poly.Atom) *poly.Poly
	f = func(a *poly.Atom) *poly.Poly {
		if a == xa {
			return m.Sp.Int(v)
		}
		switch a.Kind {
		case "iszero":
			q := m.Sp.Subst(a.Args[0], f)
			if q != nil && !poly.Eq(q, a.Args[0]) {
				return m.IsZero(m.PolyWire(q)).P
			}
		case "lt":
			p, q := m.Sp.Subst(a.Args[0], f), m.Sp.Subst(a.Args[1], f)
			if p != nil && q != nil && !(poly.Eq(p, a.Args[0]) && poly.Eq(q, a.Args[1])) {
				return m.Lt(m.PolyWire(p), m.PolyWire(q)).P
			}
		case "bit":
			q := m.Sp.Subst(a.Args[0], f)
			if c, ok := q.IsConst(); ok {
				return m.Sp.Int(int64(c.Bit(a.N)))
			}
		}
		return nil
	}
	return f
}

func runC03(c *Ctx) {
	max := 12
	if c.Thorough {
		max = 32
	}
	checkMux(c, G+"mux", "Multiplex", max)
	checkMux(c, G+"rlp", "Multiplexer", max)
	c.Floor("mux-entry", 50)
	c.Floor("mux-reject", 50)
	for _, n := range c.grid(seq(1, max), 1, 72, G+"rlp") {
		c.Ob("decoder", fmt.Sprintf("rlp.Decoder width %d", n), func(t *T) {
			m := t.M(ai.BN254Fr)
			sel := m.Input("sel")
			r := t.Run(m, G+"rlp", "Decoder", m.APIValue(), int64(n), ai.V(sel)).(ai.Tuple)
			mask := m.WiresOf(asSlice(r[0]))
			succ := m.ToWire(r[1])
			mustLen("mask", len(mask), n)
			for v := int64(0); v < int64(n)+2; v++ {
				f := atValue(m, sel, v)
				for i := range mask {
					want := int64(0)
					if int64(i) == v {
						want = 1
					}
					mustEq(m, fmt.Sprintf("mask bit %d at input %d", i, v), m.Sp.Subst(mask[i].P, f), m.Sp.Int(want))
				}
				ok := int64(0)
				if v < int64(n) {
					ok = 1
				}
				mustEq(m, fmt.Sprintf("success at input %d", v), m.Sp.Subst(succ.P, f), m.Sp.Int(ok))
			}
			ev := newEval(m, outOfTable(m, sel, n))
			if lo, hi := ev.Poly(succ.P); lo == nil || lo.Sign() != 0 || hi.Sign() != 0 {
				Failf("success is not 0 when the input differs from every index")
			}
		})
		c.Ob("dot-product", fmt.Sprintf("rlp.EscalarProduct width %d", n), func(t *T) {
			m := t.M(ai.BN254Fr)
			var a, b ai.Slice
			want := m.Sp.Int(0)
			for i := 0; i < n; i++ {
				x, y := m.Input(fmt.Sprintf("a%d", i)), m.Input(fmt.Sprintf("b%d", i))
				a, b = append(a, ai.V(x)), append(b, ai.V(y))
				want = m.Sp.Add(want, m.Sp.Mul(x.P, y.P))
			}
			r := m.ToWire(t.Run(m, G+"rlp", "EscalarProduct", m.APIValue(), int64(n), a, b))
			mustEq(m, "product", r.P, want)
		})
	}
	// decimal lookup of a prefix: HexToDecimal returns the value of exactly the first realLen digits
	for _, n := range c.grid([]int{2, 3, 4, 8, 16, 64}, 2, 70, G+"rlp") {
		c.Ob("prefix-lookup", fmt.Sprintf("rlp.HexToDecimal maxLen %d", n), func(t *T) {
			for l := 0; l <= n; l++ {
				m := t.M(ai.BN254Fr)
				var in ai.Slice
				var nib []*poly.Poly
				for i := 0; i < n; i++ {
					p := bitsVal(m, fmt.Sprintf("n%d", i), 0, 4)
					nib = append(nib, p)
					in = append(in, ai.V(m.PolyWire(p)))
				}
				r := m.ToWire(t.Run(m, G+"rlp", "HexToDecimal", m.APIValue(), in, int64(n), int64(l)))
				want := m.Sp.Int(0)
				for i := 0; i < l; i++ {
					want = m.Sp.Add(m.Sp.Scale(want, pow2(4)), nib[i])
				}
				mustEq(m, fmt.Sprintf("value of %d digits", l), r.P, want)
				if v := violated(m); v != "" {
					Failf("length %d rejected: %s", l, v)
				}
			}
		})
	}
	c.Ob("prefix-lookup", "rlp.Hex64To2Fr", func(t *T) {
		for l := 0; l <= 64; l++ {
			m := t.M(ai.BN254Fr)
			var in ai.Slice
			var nib []*poly.Poly
			for i := 0; i < 64; i++ {
				p := bitsVal(m, fmt.Sprintf("n%d", i), 0, 4)
				nib = append(nib, p)
				in = append(in, ai.V(m.PolyWire(p)))
			}
			r := t.Run(m, G+"rlp", "Hex64To2Fr", m.APIValue(), in, int64(l))
			ws := m.WiresOf(asSlice(r))
			mustLen("limbs", len(ws), 2)
			num := func(lo, hi int) *poly.Poly {
				v := m.Sp.Int(0)
				for i := lo; i < hi; i++ {
					v = m.Sp.Add(m.Sp.Scale(v, pow2(4)), nib[i])
				}
				return v
			}
			if l <= 62 {
				mustEq(m, fmt.Sprintf("low part of %d digits", l), ws[0].P, num(0, l))
				mustEq(m, fmt.Sprintf("high part of %d digits", l), ws[1].P, m.Sp.Int(0))
			} else {
				mustEq(m, fmt.Sprintf("low part of %d digits", l), ws[0].P, num(2, l))
				mustEq(m, fmt.Sprintf("high part of %d digits", l), ws[1].P, num(0, 2))
			}
			if v := violated(m); v != "" {
				Failf("length %d rejected: %s", l, v)
			}
		}
	})
}
