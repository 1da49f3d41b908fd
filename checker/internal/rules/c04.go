package rules

import (
	"fmt"
	"math/bits"

	"zkcheck/internal/ai"
	"zkcheck/internal/poly"
)

func init() {
	register("C04", "ShiftLeft, ShiftRight, SubArray, Equal, LessThan, ArrayEqual and LogCeil are abstractly interpreted with symbolic contents: for every admissible position the output must be the exact window of input atoms, for positions outside the bounds a recorded constraint must fail, symbolic positions must be bounded by a recorded range constraint and agree with the constant ones; verdict gadgets are compared with the exact verdict and evaluated by intervals with one element comparison forced to differ.", runC04)
}

func symIn(m *ai.Machine, name string, n int) (ai.Slice, []*poly.Poly) {
	var s ai.Slice
	var ps []*poly.Poly
	for i := 0; i < n; i++ {
		w := m.Input(fmt.Sprintf("%s%d", name, i))
		s = append(s, ai.V(w))
		ps = append(ps, w.P)
	}
	return s, ps
}

// boundedBy reports a recorded constraint bounding w-lo to at most max values.
func boundedBy(m *ai.Machine, w *ai.Wire) (lo, hi int64, ok bool) {
	hi = 1 << 40
	lo = -1 << 40
	for _, c := range m.Cons {
		switch c.Kind {
		case "range", "bool":
			d := m.Sp.Sub(c.P, w.P)
			if k, isC := d.IsConst(); isC && k.IsInt64() {
				n := c.N
				if c.Kind == "bool" {
					n = 1
				}
				if n < 40 {
					l := -k.Int64()
					if l > lo {
						lo = l
					}
					if h := l + 1<<n - 1; h < hi {
						hi = h
					}
					ok = true
				}
			}
		}
	}
	return
}

func substAll(m *ai.Machine, ps []*poly.Poly, f func(*poly.Atom) *poly.Poly) []*poly.Poly {
	o := make([]*poly.Poly, len(ps))
	for i := range ps {
		o[i] = m.Sp.Subst(ps[i], f)
	}
	return o
}

func polysOf(ws []*ai.Wire) []*poly.Poly {
	o := make([]*poly.Poly, len(ws))
	for i, w := range ws {
		o[i] = w.P
	}
	return o
}

func runC04(c *Ctx) {
	pkg := G + "rlp"
	type sh struct{ n, min, max int }
	shapes := []sh{{4, 0, 2}, {5, 1, 3}, {8, 0, 4}, {8, 2, 7}, {10, 0, 6}, {16, 0, 10}, {16, 3, 11}, {64, 0, 64}, {6, 2, 2}, {7, 0, 7}, {9, 0, 1}, {64, 0, 4}, {20, 5, 6}}
	if c.Thorough {
		for n := 3; n <= 24; n++ {
			for mn := 0; mn < 4; mn++ {
				for mx := mn; mx <= n; mx++ {
					shapes = append(shapes, sh{n, mn, mx})
				}
			}
		}
	}
	for _, n := range c.grid(nil, 3, 40, pkg) {
		shapes = append(shapes, sh{n, 0, n / 2}, sh{n, 1, n}, sh{n + 3, 0, n})
	}
	for _, s := range shapes {
		c.Ob("shift-left", fmt.Sprintf("ShiftLeft nIn %d min %d max %d", s.n, s.min, s.max), func(t *T) {
			cap := s.max
			if s.max > s.min {
				cap = s.min + 1<<bits.Len(uint(s.max-s.min)) - 1
			}
			check := func(m *ai.Machine, k int, got, in []*poly.Poly) {
				mustLen("output", len(got), s.n)
				for i := range got {
					mustEq(m, fmt.Sprintf("shift %d position %d", k, i), got[i], in[(i+k)%s.n])
				}
			}
			for k := s.min; k <= s.max; k++ {
				m := t.M(ai.BN254Fr)
				in, ip := symIn(m, "x", s.n)
				out := m.WiresOf(asSlice(t.Run(m, pkg, "ShiftLeft", m.APIValue(), int64(s.n), int64(s.min), int64(s.max), in, int64(k))))
				if v := violated(m); v != "" {
					Failf("shift %d within [%d,%d] rejected: %s", k, s.min, s.max, v)
				}
				check(m, k, polysOf(out), ip)
			}
			if s.min == s.max {
				return
			}
			// out-of-bounds amounts: rejected, or (power-of-two slack) still shifted by exactly that amount
			for _, k := range []int{s.min - 1, s.min - 2, s.max + 1, s.max + 2, cap, cap + 1, cap + 2, 2*cap + 3, 1000003} {
				if k >= s.min && k <= s.max {
					continue
				}
				m := t.M(ai.BN254Fr)
				in, ip := symIn(m, "x", s.n)
				o := t.Try(m, pkg, "ShiftLeft", m.APIValue(), int64(s.n), int64(s.min), int64(s.max), in, ai.V(m.ConstI(int64(k))))
				if o.Abort != nil || violated(m) != "" {
					continue
				}
				if k < 0 {
					Failf("negative shift %d accepted", k)
				}
				check(m, k, polysOf(m.WiresOf(asSlice(o.Ret))), ip)
			}
			m := t.M(ai.BN254Fr)
			in, ip := symIn(m, "x", s.n)
			shw := m.Input("shift")
			out := polysOf(m.WiresOf(asSlice(t.Run(m, pkg, "ShiftLeft", m.APIValue(), int64(s.n), int64(s.min), int64(s.max), in, ai.V(shw)))))
			lo, hi, ok := boundedBy(m, shw)
			if !ok {
				Failf("the shift amount is not range-constrained")
			}
			if lo > int64(s.min) || hi < int64(s.max) {
				Failf("the range constraint admits [%d,%d], needs [%d,%d]", lo, hi, s.min, s.max)
			}
			if hi > int64(cap) {
				hi = int64(cap)
			}
			for k := lo; k <= hi; k++ {
				check(m, int(k), substAll(m, out, atValue(m, shw, k)), ip)
			}
		})
	}
	c.Floor("shift-left", 13)
	for _, s := range []struct{ n, b int }{{4, 2}, {5, 3}, {8, 3}, {6, 2}, {16, 4}, {3, 3}, {64, 6}, {10, 4}} {
		c.Ob("shift-right", fmt.Sprintf("ShiftRight nIn %d bits %d", s.n, s.b), func(t *T) {
			check := func(m *ai.Machine, k int, got, in []*poly.Poly) {
				mustLen("output", len(got), s.n)
				for i := range got {
					w := m.Sp.Int(0)
					if i >= k {
						w = in[i-k]
					}
					mustEq(m, fmt.Sprintf("shift %d position %d", k, i), got[i], w)
				}
			}
			for k := 0; k < 1<<s.b; k++ {
				m := t.M(ai.BN254Fr)
				in, ip := symIn(m, "x", s.n)
				out := m.WiresOf(asSlice(t.Run(m, pkg, "ShiftRight", m.APIValue(), int64(s.n), int64(s.b), in, int64(k))))
				if v := violated(m); v != "" {
					Failf("shift %d rejected: %s", k, v)
				}
				check(m, k, polysOf(out), ip)
			}
			for _, k := range []int{-1, 1 << s.b, 1<<s.b + 1, 1 << 20} {
				m := t.M(ai.BN254Fr)
				in, ip := symIn(m, "x", s.n)
				o := t.Try(m, pkg, "ShiftRight", m.APIValue(), int64(s.n), int64(s.b), in, ai.V(m.ConstI(int64(k))))
				if o.Abort != nil || violated(m) != "" {
					continue
				}
				if k < 0 {
					Failf("negative shift %d accepted", k)
				}
				check(m, k, polysOf(m.WiresOf(asSlice(o.Ret))), ip)
			}
			m := t.M(ai.BN254Fr)
			in, ip := symIn(m, "x", s.n)
			shw := m.Input("shift")
			out := polysOf(m.WiresOf(asSlice(t.Run(m, pkg, "ShiftRight", m.APIValue(), int64(s.n), int64(s.b), in, ai.V(shw)))))
			lo, hi, ok := boundedBy(m, shw)
			if !ok || lo != 0 || hi < int64(1<<s.b-1) {
				Failf("the shift amount is not constrained to its bits")
			}
			for k := lo; k <= hi && k < 1<<s.b; k++ {
				check(m, int(k), substAll(m, out, atValue(m, shw, k)), ip)
			}
		})
	}
	// SubArray
	for _, s := range []struct{ n, sel, b int }{{8, 4, 4}, {10, 10, 4}, {16, 3, 5}, {64, 64, 7}, {64, 20, 7}, {5, 2, 3}, {66, 64, 7}, {33, 8, 6}} {
		c.Ob("sub-array", fmt.Sprintf("SubArray nIn %d maxSelect %d", s.n, s.sel), func(t *T) {
			run := func(from, end ai.Value, m *ai.Machine, in ai.Slice) ai.Outcome {
				sa := t.Run(m, pkg, "NewSubArray", int64(s.n), int64(s.sel), int64(s.b))
				return t.Try(m, pkg, "SubArray.SubArray", sa, m.APIValue(), in, from, end)
			}
			step := 1
			if s.n > 40 && !t.C.Thorough {
				step = 7
			}
			for from := 0; from <= s.n; from += step {
				for end := from; end <= s.n && end-from <= s.sel; end++ {
					if end-from > 3 && (end-from)%5 != 0 && end-from != s.sel && end != s.n {
						continue
					}
					m := t.M(ai.BN254Fr)
					in, ip := symIn(m, "x", s.n)
					o := run(int64(from), int64(end), m, in)
					if o.Abort != nil {
						Failf("[%d,%d) refused: %v", from, end, o.Abort.Val)
					}
					if v := violated(m); v != "" {
						Failf("[%d,%d) rejected: %s", from, end, v)
					}
					r := o.Ret.(ai.Tuple)
					out := polysOf(m.WiresOf(asSlice(r[0])))
					if len(out) < end-from {
						Failf("output has %d entries", len(out))
					}
					for i := 0; i < end-from; i++ {
						mustEq(m, fmt.Sprintf("[%d,%d) entry %d", from, end, i), out[i], ip[from+i])
					}
					mustEq(m, "length", m.ToWire(r[1]).P, m.Sp.Int(int64(end-from)))
				}
			}
			for _, fe := range [][2]int64{{3, 2}, {1, 0}, {0, int64(s.n) + 1}, {int64(s.n), int64(s.n) + 1}, {int64(s.n) + 1, int64(s.n) + 1}, {-1, 0}, {-1, 2}, {0, -1}, {0, int64(s.sel) + 1}, {1, int64(s.sel) + 2}} {
				m := t.M(ai.BN254Fr)
				in, _ := symIn(m, "x", s.n)
				o := run(ai.V(m.ConstI(fe[0])), ai.V(m.ConstI(fe[1])), m, in)
				if o.Abort == nil && violated(m) == "" {
					Failf("out-of-bounds range [%d,%d) of %d entries (at most %d selected) is accepted", fe[0], fe[1], s.n, s.sel)
				}
			}
			// symbolic positions: the three bounds are recorded constraints over the arguments
			m := t.M(ai.BN254Fr)
			in, ip := symIn(m, "x", s.n)
			f, e := m.Input("from"), m.Input("end")
			o := run(ai.V(f), ai.V(e), m, in)
			if o.Abort != nil {
				Failf("refused: %v", o.Abort.Val)
			}
			r := o.Ret.(ai.Tuple)
			out := polysOf(m.WiresOf(asSlice(r[0])))
			for k := 0; k < s.n; k += 3 {
				got := substAll(m, out, atValue(m, f, int64(k)))
				for i := 0; i < s.sel && i < len(got) && k+i < s.n; i++ {
					mustEq(m, fmt.Sprintf("symbolic from=%d entry %d", k, i), got[i], ip[k+i])
				}
			}
			for _, fe := range [][2]int64{{3, 2}, {0, int64(s.n) + 1}, {int64(s.n) + 1, int64(s.n) + 1}, {0, int64(s.sel) + 1}} {
				if fe[1] > int64(s.n) || fe[0] > fe[1] || fe[1]-fe[0] > int64(s.sel) {
					ev := env{}
					fa, _ := f.P.SingleAtom()
					ea, _ := e.P.SingleAtom()
					ev = force(force(ev, fa, fe[0]), ea, fe[1])
					if unsat(m, ev) == "" {
						Failf("no constraint over the symbolic positions excludes [%d,%d)", fe[0], fe[1])
					}
				}
			}
		})
	}
	c.Floor("sub-array", 8)
	c.Ob("comparators", "Equal", func(t *T) {
		m := t.M(ai.BN254Fr)
		a, b := m.Input("a"), m.Input("b")
		r := m.ToWire(t.Run(m, pkg, "Equal", m.APIValue(), ai.V(a), ai.V(b)))
		mustEq(m, "Equal", r.P, m.IsZero(m.Sub(a, b)).P)
	})
	c.Ob("comparators", "LessThan", func(t *T) {
		m := t.M(ai.BN254Fr)
		a, b := m.Input("a"), m.Input("b")
		r := m.ToWire(t.Run(m, pkg, "LessThan", m.APIValue(), ai.V(a), ai.V(b)))
		lt := m.Lt(a, b)
		eq := m.IsZero(m.Sub(a, b))
		gt := m.Lt(b, a)
		// evaluate in the three exclusive orderings
		for i, want := range []int64{1, 0, 0} {
			e := env{}
			for j, w := range []*ai.Wire{lt, eq, gt} {
				v := int64(0)
				if i == j {
					v = 1
				}
				if at, ok := w.P.SingleAtom(); ok {
					e = force(e, at, v)
				}
			}
			lo, hi := newEval(m, e).Poly(r.P)
			if lo == nil || lo.Cmp(hi) != 0 || lo.Int64() != want {
				Failf("verdict in ordering case %d (a<b, a==b, a>b) is not %d", i, want)
			}
		}
		for x := int64(0); x < 18; x++ {
			for y := int64(0); y < 18; y++ {
				m := t.M(ai.BN254Fr)
				r := m.ToWire(t.Run(m, pkg, "LessThan", m.APIValue(), x, y))
				w := int64(0)
				if x < y {
					w = 1
				}
				mustEq(m, fmt.Sprintf("LessThan(%d,%d)", x, y), r.P, m.Sp.Int(w))
			}
		}
	})
	for n := 1; n <= 10; n++ {
		c.Ob("array-equal", fmt.Sprintf("ArrayEqual maxLength %d", n), func(t *T) {
			for tl := 0; tl <= n; tl++ {
				m := t.M(ai.BN254Fr)
				a, ap := symIn(m, "a", n+2)
				b, bp := symIn(m, "b", n+2)
				r := m.ToWire(t.Run(m, pkg, "ArrayEqual", m.APIValue(), a, b, int64(n), int64(tl)))
				if v := violated(m); v != "" {
					Failf("length %d rejected: %s", tl, v)
				}
				var ats []*poly.Atom
				for i := 0; i < n+2; i++ {
					at, _ := m.IsZero(m.PolyWire(m.Sp.Sub(ap[i], bp[i]))).P.SingleAtom()
					ats = append(ats, at)
				}
				verdict := func(e env) int {
					lo, hi := newEval(m, e).Poly(r.P)
					if lo == nil || lo.Cmp(hi) != 0 {
						return -1
					}
					return int(lo.Int64())
				}
				all := env{}
				for i := 0; i < tl; i++ {
					all = force(all, ats[i], 1)
				}
				if verdict(all) != 1 {
					Failf("length %d: not 1 although the first %d entries are equal (later entries arbitrary)", tl, tl)
				}
				for i := 0; i < tl; i++ {
					if verdict(force(env{}, ats[i], 0)) != 0 {
						Failf("length %d: not 0 although entry %d differs", tl, i)
					}
				}
			}
			// symbolic length: out of range lengths are rejected
			m := t.M(ai.BN254Fr)
			a, _ := symIn(m, "a", n)
			b, _ := symIn(m, "b", n)
			l := m.Input("len")
			t.Run(m, pkg, "ArrayEqual", m.APIValue(), a, b, int64(n), ai.V(l))
			if !rejectsOutside(m, l, n+1) {
				Failf("a target length above %d is not rejected", n)
			}
			for _, bad := range []int64{int64(n) + 1, -1, 1000} {
				m := t.M(ai.BN254Fr)
				a, _ := symIn(m, "a", n)
				b, _ := symIn(m, "b", n)
				o := t.Try(m, pkg, "ArrayEqual", m.APIValue(), a, b, int64(n), ai.V(m.ConstI(bad)))
				if o.Abort == nil && violated(m) == "" {
					Failf("target length %d is accepted for %d entries", bad, n)
				}
			}
			// arrays shorter than maxLength are refused
			for _, d := range [][2]int{{n - 1, n}, {n, n - 1}} {
				m := t.M(ai.BN254Fr)
				a, _ := symIn(m, "a", d[0])
				b, _ := symIn(m, "b", d[1])
				f := m.Func(pkg, "ArrayEqual")
				o := m.Run(f, m.APIValue(), a, b, int64(n), int64(0))
				if o.Abort == nil && o.Undecided == nil && violated(m) == "" {
					Failf("arrays of %d and %d entries are compared over %d entries", d[0], d[1], n)
				}
			}
		})
	}
	c.Floor("array-equal", 10)
	c.Ob("log-ceil", "LogCeil 0..70000", func(t *T) {
		m := t.M(ai.BN254Fr)
		for n := 0; n <= 70000; n++ {
			if n > 600 && n&(n-1) != 0 && (n+1)&n != 0 && n%977 != 0 {
				continue
			}
			r := t.Run(m, pkg, "LogCeil", int64(n)).(int64)
			if r != int64(bits.Len(uint(n))) {
				Failf("LogCeil(%d) = %d, the number of bits is %d", n, r, bits.Len(uint(n)))
			}
		}
	})
}
