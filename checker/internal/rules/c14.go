package rules

import (
	"fmt"
	"go/types"
	"math/big"

	"zkcheck/internal/ai"
	"zkcheck/internal/poly"
)

func init() {
	register("C14", "Every tower method is abstractly interpreted on symbolic coordinates; its result, a vector of rational functions over Fp, must equal the schoolbook operation in Fp[u]/(u^2+1), Fp2[w]/(w^6-(1+u)) (Frobenius constants derived from p and 1+u). Cyclotomic squaring, its compressed form and decompression must agree with squaring modulo the linear span of the quadratic relations that define the cyclotomic subgroup, proved by elimination. Exponentiations are interpreted in the exponent domain modulo p^12-1 with a typestate for cyclotomic and compressed elements.", runC14)
}

func isPointer(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

func runC14(c *Ctx) {
	ob := func(rule, what string, f func(b *blsEnv)) {
		c.Ob(rule, what, func(t *T) {
			b := newBls(t)
			f(b)
			if len(b.m.Cons) != 0 {
				Failf("adds assertions: %d", len(b.m.Cons))
			}
		})
	}
	// --- Fp2
	type op2 struct {
		name string
		n    int
		want func(e *emuModel, x []f2) f2
	}
	ops2 := []op2{
		{"Add", 2, func(e *emuModel, x []f2) f2 { return e.f2add(x[0], x[1]) }},
		{"Sub", 2, func(e *emuModel, x []f2) f2 { return e.f2sub(x[0], x[1]) }},
		{"Mul", 2, func(e *emuModel, x []f2) f2 { return e.f2mul(x[0], x[1]) }},
		{"Neg", 1, func(e *emuModel, x []f2) f2 { return e.f2neg(x[0]) }},
		{"Double", 1, func(e *emuModel, x []f2) f2 { return e.f2scale(x[0], 2) }},
		{"Square", 1, func(e *emuModel, x []f2) f2 { return e.f2mul(x[0], x[0]) }},
		{"Conjugate", 1, func(e *emuModel, x []f2) f2 { return e.f2conj(x[0]) }},
		{"MulByNonResidue", 1, func(e *emuModel, x []f2) f2 { return e.f2mul(x[0], e.c2(blsXi)) }},
		{"MulByNonResidueInv", 1, func(e *emuModel, x []f2) f2 { return e.f2mul(x[0], e.c2(blsXi.inv())) }},
		{"MulBybTwistCurveCoeff", 1, func(e *emuModel, x []f2) f2 { return e.f2mul(x[0], e.c2(c2i(4, 4))) }},
		{"Halve", 1, func(e *emuModel, x []f2) f2 { return e.f2mul(x[0], e.c2(c2i(2, 0).inv())) }},
		{"Zero", 0, func(e *emuModel, x []f2) f2 { return e.f2zero() }},
		{"One", 0, func(e *emuModel, x []f2) f2 { return e.f2one() }},
	}
	for j := 1; j <= 2; j++ {
		for k := 1; k <= 5; k++ {
			j, k := j, k
			ops2 = append(ops2, op2{fmt.Sprintf("MulByNonResidue%dPower%d", j, k), 1, func(e *emuModel, x []f2) f2 {
				return e.f2mul(x[0], e.c2(blsGamma(j, k)))
			}})
		}
	}
	for _, o := range ops2 {
		ob("fp2", "ext2."+o.name, func(b *blsEnv) {
			var xs []f2
			var args []ai.Value
			for i := 0; i < o.n; i++ {
				x := b.e.f2in("xyz"[i : i+1])
				xs = append(xs, x)
				args = append(args, b.p2(x))
			}
			got := b.e.asE2(b.call("ext2", o.name, args...))
			b.e.same2(o.name, got, o.want(b.e, xs))
			b.unchanged2(args, xs)
		})
	}
	ob("fp2", "ext2.MulByElement", func(b *blsEnv) {
		x, y := b.e.f2in("x"), b.e.input("y")
		got := b.e.asE2(b.call("ext2", "MulByElement", b.p2(x), b.e.cell(y)))
		b.e.same2("MulByElement", got, f2{b.e.mul(x.a, y), b.e.mul(x.b, y)})
	})
	ob("fp2", "ext2.Inverse", func(b *blsEnv) {
		x := b.e.f2in("x")
		got := b.e.asE2(b.call("ext2", "Inverse", b.p2(x)))
		b.e.same2("x*Inverse(x)", b.e.f2mul(x, got), b.e.f2one())
	})
	ob("fp2", "ext2.Div", func(b *blsEnv) {
		x, y := b.e.f2in("x"), b.e.f2in("y")
		got := b.e.asE2(b.call("ext2", "Div", b.p2(x), b.p2(y)))
		b.e.same2("y*Div(x, y)", b.e.f2mul(y, got), x)
		if len(b.e.Divs) == 0 {
			Failf("division does not refuse a zero divisor")
		}
	})
	// division by zero is refused, also for a zero numerator
	for _, l := range []struct{ typ, name string }{{"ext2", "Inverse"}, {"ext2", "Div"}, {"ext6", "Inverse"}, {"ext12", "Inverse"}} {
		ob("zero divisor", l.typ+"."+l.name, func(b *blsEnv) {
			z := b.e.f12zero()
			var args []ai.Value
			switch l.typ {
			case "ext2":
				args = []ai.Value{b.p2(z[0])}
				if l.name == "Div" {
					args = append(args, b.p2(z[0]))
				}
			case "ext6":
				args = []ai.Value{b.p6([3]f2{z[0], z[2], z[4]})}
			default:
				args = []ai.Value{b.p12(z)}
			}
			o := b.t.Try(b.m, blsPkg, l.typ+"."+l.name, append([]ai.Value{b.recv(l.typ, l.name)}, args...)...)
			if o.Abort == nil {
				Failf("accepts a zero divisor")
			}
		})
	}
	c.Ob("fp2", "ext2.Select", func(t *T) {
		for bit := int64(0); bit < 2; bit++ {
			b := newBls(t)
			x, y := b.e.f2in("x"), b.e.f2in("y")
			got := b.e.asE2(b.call("ext2", "Select", b.m.ConstI(bit), b.p2(x), b.p2(y)))
			want := y
			if bit == 1 {
				want = x
			}
			b.e.same2(fmt.Sprintf("Select(%d)", bit), got, want)
		}
	})
	// --- Fp6: v = w^2
	emb6 := func(e *emuModel, x [3]f2) f12 {
		z := e.f12zero()
		z[0], z[2], z[4] = x[0], x[1], x[2]
		return z
	}
	in6 := func(e *emuModel, n string) [3]f2 {
		return [3]f2{e.f2in(n + ".v0"), e.f2in(n + ".v1"), e.f2in(n + ".v2")}
	}
	same6 := func(b *blsEnv, what string, got ai.Value, want f12) {
		b.e.same12(what, emb6(b.e, b.e.asE6(got)), want)
	}
	scale12 := func(e *emuModel, x f12, k int64) f12 {
		for i := range x {
			x[i] = e.f2scale(x[i], k)
		}
		return x
	}
	add12 := func(e *emuModel, x, y f12) f12 {
		for i := range x {
			x[i] = e.f2add(x[i], y[i])
		}
		return x
	}
	type op6 struct {
		name string
		n    int
		want func(e *emuModel, x []f12) f12
	}
	for _, o := range []op6{
		{"Add", 2, func(e *emuModel, x []f12) f12 { return add12(e, x[0], x[1]) }},
		{"Sub", 2, func(e *emuModel, x []f12) f12 { return add12(e, x[0], scale12(e, x[1], -1)) }},
		{"Neg", 1, func(e *emuModel, x []f12) f12 { return scale12(e, x[0], -1) }},
		{"Double", 1, func(e *emuModel, x []f12) f12 { return scale12(e, x[0], 2) }},
		{"Mul", 2, func(e *emuModel, x []f12) f12 { return e.f12mul(x[0], x[1]) }},
		{"Square", 1, func(e *emuModel, x []f12) f12 { return e.f12mul(x[0], x[0]) }},
		{"MulByNonResidue", 1, func(e *emuModel, x []f12) f12 {
			v := e.f12zero()
			v[2] = e.f2one()
			return e.f12mul(x[0], v)
		}},
	} {
		ob("fp6", "ext6."+o.name, func(b *blsEnv) {
			var xs []f12
			var args []ai.Value
			for i := 0; i < o.n; i++ {
				x := in6(b.e, "xyz"[i:i+1])
				xs = append(xs, emb6(b.e, x))
				args = append(args, b.p6(x))
			}
			same6(b, o.name, b.call("ext6", o.name, args...), o.want(b.e, xs))
		})
	}
	ob("fp6", "ext6.Inverse", func(b *blsEnv) {
		x := in6(b.e, "x")
		got := b.call("ext6", "Inverse", b.p6(x))
		same6(b, "x*Inverse(x)", ptr(b.e.un6(b.e.f12mul(emb6(b.e, x), emb6(b.e, b.e.asE6(got))))), b.e.f12one())
	})
	sparse6 := func(name string, pos []int, from string) {
		ob("fp6", "ext6."+name, func(b *blsEnv) {
			x := in6(b.e, "x")
			s := b.e.f12zero()
			args := []ai.Value{b.p6(x)}
			for _, k := range pos {
				y := b.e.f2in(fmt.Sprintf("c%d", k))
				s[2*k] = y
				args = append(args, b.p2(y))
			}
			same6(b, name, b.call("ext6", name, args...), b.e.f12mul(emb6(b.e, x), s))
		})
	}
	sparse6("MulByE2", []int{0}, "")
	sparse6("MulBy1", []int{1}, "")
	sparse6("MulBy01", []int{0, 1}, "")
	// --- Fp12
	type op12 struct {
		name string
		n    int
		want func(e *emuModel, x []f12) f12
	}
	for _, o := range []op12{
		{"Mul", 2, func(e *emuModel, x []f12) f12 { return e.f12mul(x[0], x[1]) }},
		{"Square", 1, func(e *emuModel, x []f12) f12 { return e.f12mul(x[0], x[0]) }},
		{"Conjugate", 1, func(e *emuModel, x []f12) f12 { return e.f12frob(x[0], 6) }},
		{"Frobenius", 1, func(e *emuModel, x []f12) f12 { return e.f12frob(x[0], 1) }},
		{"FrobeniusSquare", 1, func(e *emuModel, x []f12) f12 { return e.f12frob(x[0], 2) }},
		{"FrobeniusCube", 1, func(e *emuModel, x []f12) f12 { return e.f12frob(x[0], 3) }},
		{"One", 0, func(e *emuModel, x []f12) f12 { return e.f12one() }},
	} {
		ob("fp12", "ext12."+o.name, func(b *blsEnv) {
			var xs []f12
			var args []ai.Value
			for i := 0; i < o.n; i++ {
				x := b.e.f12in("xyz"[i : i+1])
				xs = append(xs, x)
				args = append(args, b.p12(x))
			}
			b.e.same12(o.name, b.e.asE12(b.call("ext12", o.name, args...)), o.want(b.e, xs))
		})
	}
	// whole Fp2 coefficients as indeterminates: only ring operations of ext2 may be used
	ob("fp12", "ext12.Inverse", func(b *blsEnv) {
		var x f12
		for i := range x {
			x[i] = b.e.f2at(fmt.Sprintf("x.w%d", i))
		}
		b.ringOnly()
		got := b.e.asE12(b.call("ext12", "Inverse", b.p12(x)))
		b.e.same12("x*Inverse(x)", b.e.f12mul(x, got), b.e.f12one())
	})
	sparse := func(typ, name string, withZ bool, a, d []int) {
		ob("fp12", typ+"."+name, func(b *blsEnv) {
			var args []ai.Value
			var z f12
			if withZ {
				z = b.e.f12in("z")
				args = append(args, b.p12(z))
			}
			el := func(n string, pos []int) f12 {
				s := b.e.f12zero()
				for _, k := range pos {
					y := b.e.f2in(fmt.Sprintf("%s%d", n, k))
					s[k] = y
					args = append(args, b.p2(y))
				}
				return s
			}
			s := el("c", a)
			if withZ {
				s = b.e.f12mul(z, s)
			} else {
				s = b.e.f12mul(s, el("d", d))
			}
			b.e.same12(name, b.e.asE12(b.call(typ, name, args...)), s)
		})
	}
	sparse("ext12", "MulBy034", true, []int{0, 1, 3}, nil)
	sparse("ext12", "MulBy034by034", false, []int{0, 1, 3}, []int{0, 1, 3})
	sparse("Pairing", "MulBy014", true, []int{0, 2, 3}, nil)
	sparse("ext12", "Mul014By014", false, []int{0, 2, 3}, []int{0, 2, 3})
	// assertions
	for _, l := range []struct {
		typ, name string
		keep      func(k int) bool
		n         int
	}{
		{"ext2", "AssertIsEqual", func(k int) bool { return k == 0 }, 2},
		{"ext6", "AssertIsEqual", func(k int) bool { return k%2 == 0 }, 6},
		{"ext12", "AssertIsEqual", func(k int) bool { return true }, 12},
		{"ext12", "AssertC0IsEqual", func(k int) bool { return k%2 == 0 }, 6},
	} {
		ob("equality", l.typ+"."+l.name, func(b *blsEnv) {
			x, y := b.e.f12in("x"), b.e.f12in("y")
			mk := func(v f12) ai.Value {
				switch l.typ {
				case "ext2":
					return b.p2(v[0])
				case "ext6":
					return b.p6([3]f2{v[0], v[2], v[4]})
				}
				return b.p12(v)
			}
			b.call(l.typ, l.name, mk(x), mk(y))
			s := &span{e: b.e}
			for _, q := range b.e.Eqs {
				s.add(q.P)
			}
			want := &span{e: b.e}
			for k := range x {
				if !l.keep(k) {
					continue
				}
				for _, d := range []*poly.Poly{b.e.sub(x[k].a, y[k].a).Num, b.e.sub(x[k].b, y[k].b).Num} {
					want.add(d)
					if !s.has(d) {
						Failf("does not require equality of the coefficients of w^%d", k)
					}
				}
			}
			for _, q := range b.e.Eqs {
				if !want.has(q.P) {
					Failf("requires more than equality (%s)", q.Pos)
				}
			}
		})
	}
	// --- cyclotomic subgroup
	ob("cyclotomic", "ext12.CyclotomicSquare", func(b *blsEnv) {
		x := b.e.f12in("x")
		got := b.e.asE12(b.call("ext12", "CyclotomicSquare", b.p12(x)))
		b.mod("CyclotomicSquare", x, got, b.e.f12mul(x, x), nil)
	})
	garbage := map[int]bool{0: true, 3: true} // C0.B0 and C1.B1
	ob("cyclotomic", "ext12.CyclotomicSquareCompressed", func(b *blsEnv) {
		x := b.e.f12in("x")
		y := x
		y[0], y[3] = b.e.f2in("junk0"), b.e.f2in("junk3")
		z := b.e.f12in("z")
		got := b.e.asE12(b.call("ext12", "CyclotomicSquareCompressed", b.p12(z), b.p12(y)))
		b.mod("CyclotomicSquareCompressed", x, got, b.e.f12mul(x, x), garbage)
	})
	ob("cyclotomic", "ext12.DecompressKarabina", func(b *blsEnv) {
		x := b.e.f12in("x")
		y := x
		y[0], y[3] = b.e.f2in("junk0"), b.e.f2in("junk3")
		// the quotient is named; it must be the quotient of two values whose
		// cross product vanishes in the subgroup when it stands for C1.B1
		var nums, dens []f2
		inv := b.e.f2in("inverse")
		var den *f2
		b.m.Over[blsName("(ext2).Inverse")] = func(m *ai.Machine, call *ai.Call) ai.Value {
			if den != nil {
				m.Undecided("second inversion in DecompressKarabina")
			}
			d := b.e.asE2(call.Args[1])
			den = &d
			return b.p2(inv)
		}
		b.m.Over[blsName("(ext2).Mul")] = func(m *ai.Machine, call *ai.Call) ai.Value {
			l, r := b.e.asE2(call.Args[1]), b.e.asE2(call.Args[2])
			isInv := func(v f2) bool { return poly.Eq(v.a.Num, inv.a.Num) && poly.Eq(v.b.Num, inv.b.Num) }
			if isInv(l) {
				l, r = r, l
			}
			if isInv(r) {
				nums, dens = append(nums, l), append(dens, *den)
				return b.p2(x[3])
			}
			return b.p2(b.e.f2mul(l, r))
		}
		got := b.e.asE12(b.call("ext12", "DecompressKarabina", b.e.e12(y)))
		if len(nums) != 1 {
			Failf("expected one division in Fp2, found %d", len(nums))
		}
		s := b.cyclotomic(x)
		d := b.e.f2sub(nums[0], b.e.f2mul(dens[0], x[3]))
		for _, p := range []*emuEl{d.a, d.b} {
			if !s.has(p.Num) {
				Failf("the recovered quotient is not the coefficient of w^3 of a cyclotomic element")
			}
		}
		b.mod("DecompressKarabina", x, got, x, nil)
	})
	// --- exponent domain
	order := new(big.Int).Exp(blsP, big.NewInt(12), nil)
	order.Sub(order, big.NewInt(1))
	p2 := new(big.Int).Mul(blsP, blsP)
	p6 := new(big.Int).Exp(blsP, big.NewInt(6), nil)
	cyc := new(big.Int).Mul(new(big.Int).Sub(p6, big.NewInt(1)), new(big.Int).Add(p2, big.NewInt(1)))
	hard := new(big.Int).Div(order, cyc)
	if new(big.Int).Mod(hard, blsR).Sign() != 0 {
		panic("bad curve parameters")
	}
	expo := func(what, typ, name string, in, want *big.Int, sp bool) {
		c.Ob("exponent", what, func(t *T) {
			b := newBls(t)
			g := b.exponents(order, cyc)
			got := g.get(b.call(typ, name, ptr(g.mk(in, false))))
			if got.comp {
				Failf("returns a compressed element")
			}
			if new(big.Int).Mod(new(big.Int).Sub(got.exp, want), order).Sign() != 0 {
				Failf("raises to another power than %s", what)
			}
		})
	}
	tneg := new(big.Int).Neg(blsT)
	half := new(big.Int).Rsh(tneg, 1)
	expo("ExptHalf: x^(t/2) on cyclotomic x", "ext12", "ExptHalf", cyc, new(big.Int).Mul(cyc, half), true)
	expo("Expt: x^t on cyclotomic x", "ext12", "Expt", cyc, new(big.Int).Mul(cyc, tneg), true)
	fe := new(big.Int).Div(order, blsR)
	fe.Mul(fe, big.NewInt(3))
	expo("FinalExponentiation: x^(3(p^12-1)/r)", "Pairing", "FinalExponentiation", big.NewInt(1), fe, true)
	for n := 0; n <= 4; n++ {
		for _, name := range []string{"nSquare", "nSquareCompressed", "nSquareCompressedWithoutAssert"} {
			c.Ob("exponent", fmt.Sprintf("%s, n=%d", name, n), func(t *T) {
				b := newBls(t)
				g := b.exponents(order, cyc)
				got := g.get(b.call("ext12", name, ptr(g.mk(cyc, false)), int64(n)))
				if got.exp.Cmp(new(big.Int).Mod(new(big.Int).Lsh(cyc, uint(n)), order)) != 0 {
					Failf("does not raise to 2^%d", n)
				}
			})
		}
	}
	// --- conversions of constants
	c.Ob("conversion", "NewGTEl", func(t *T) {
		b := newBlsBare(t)
		x := b.e.f12in("x")
		b.e.same12("NewGTEl", b.e.asE12(t.Run(b.m, blsPkg, "NewGTEl", b.e.e12(x))), x)
	})
	c.Ob("conversion", "NewG1Affine", func(t *T) {
		b := newBlsBare(t)
		x, y := b.e.input("x"), b.e.input("y")
		s := strct(t.Run(b.m, blsPkg, "NewG1Affine", ai.Struct{x, y}), 2)
		b.e.same("X", b.e.el(s[0]), x)
		b.e.same("Y", b.e.el(s[1]), y)
	})
	c.Ob("conversion", "NewG2Affine", func(t *T) {
		b := newBlsBare(t)
		x, y := b.e.f2in("x"), b.e.f2in("y")
		s := strct(t.Run(b.m, blsPkg, "NewG2Affine", ai.Struct{b.e.e2(x), b.e.e2(y)}), 2)
		b.e.same2("X", b.e.asE2(s[0]), x)
		b.e.same2("Y", b.e.asE2(s[1]), y)
	})
	c.Assume = append(c.Assume, "gnark's emulated.Field implements arithmetic modulo the field parameters, Inverse and Div refusing zero divisors", "gnark-crypto's ecc.BLS12_381.BaseField is the BLS12-381 base field")
	c.Floor("fp2", 26)
	c.Floor("zero divisor", 4)
	c.Floor("fp6", 11)
	c.Floor("fp12", 12)
	c.Floor("equality", 4)
	c.Floor("cyclotomic", 3)
	c.Floor("exponent", 18)
	c.Floor("conversion", 3)
}

// un6 turns an element with even powers of w into an E6 value.
func (e *emuModel) un6(x f12) ai.Value { return e.e6(x[0], x[2], x[4]) }

// unchanged2 demands that operands keep their values.
func (b *blsEnv) unchanged2(args []ai.Value, xs []f2) {
	for i := range args {
		b.e.same2("operand after the call", b.e.asE2(args[i]), xs[i])
	}
}

// mod demands got == want on the cyclotomic subgroup.
func (b *blsEnv) mod(what string, x, got, want f12, skip map[int]bool) {
	s := b.cyclotomic(x)
	for k := range got {
		if skip[k] {
			continue
		}
		d := b.e.f2sub(got[k], want[k])
		for i, p := range []*emuEl{d.a, d.b} {
			if c, ok := p.Den.IsConst(); !ok || c.Cmp(big.NewInt(1)) != 0 {
				Failf("%s divides", what)
			}
			if !s.has(p.Num) {
				Failf("%s: coefficient of w^%d, part %d, differs from the correct value by %s, which does not vanish on the cyclotomic subgroup", what, k, i, clip(b.e.E.String(s.reduce(p.Num))))
			}
		}
	}
}

// ringOnly forbids operations on single coordinates of Fp2 values. Inverse,
// decided on coordinates by its own obligation, stands for the ring inverse.
func (b *blsEnv) ringOnly() {
	b.m.Over[blsName("(ext2).Inverse")] = func(m *ai.Machine, c *ai.Call) ai.Value {
		e := b.e
		e.use(c.Args[1])
		x := e.asE2(c.Args[1])
		n := e.add(e.mul(x.a, x.a), e.mul(x.b, x.b))
		return b.p2(f2{e.div(x.a, n), e.div(e.f2neg(x).b, n)})
	}
	b.m.Over[blsName("(ext2).Conjugate")] = func(m *ai.Machine, c *ai.Call) ai.Value {
		m.Undecided("conjugation of an indeterminate")
		return nil
	}
	b.e.guard = func() {
		if !b.m.Within(blsName("(ext2)."), blsName("(*ext2).")) {
			b.m.Undecided("field operation on a coordinate outside the Fp2 methods")
		}
	}
}

// ---- exponent domain ----

type gtTok struct {
	exp  *big.Int
	comp bool
	id   int
}

type gtHalf struct {
	*gtTok
	which int
	neg   bool
}

type gtDom struct {
	order, cyc *big.Int
	conj       *big.Int
	n          int
}

func (g *gtDom) mk(e *big.Int, comp bool) ai.Value {
	g.n++
	t := &gtTok{new(big.Int).Mod(e, g.order), comp, g.n}
	return ai.Struct{gtHalf{t, 0, false}, gtHalf{t, 1, false}}
}

func (g *gtDom) get(v ai.Value) *gtTok {
	s := strct(v, 2)
	if a, ok := s[0].(gtHalf); ok && !a.neg {
		if b, ok := s[1].(gtHalf); ok && b.neg && a.gtTok == b.gtTok && b.which == 1 {
			// (C0, -C1) is the conjugate
			return strct(g.mk(new(big.Int).Mul(a.exp, g.conj), a.comp), 2)[0].(gtHalf).gtTok
		}
	}
	a, ok := s[0].(gtHalf)
	b, ok2 := s[1].(gtHalf)
	if !ok || !ok2 || a.gtTok != b.gtTok || a.which != 0 || b.which != 1 || a.neg || b.neg {
		Failf("mixes the halves of different Fp12 values")
	}
	return a.gtTok
}

func (g *gtDom) cyclo(m *ai.Machine, what string, t *gtTok) {
	if new(big.Int).Mod(t.exp, g.cyc).Sign() != 0 {
		Failf("%s is applied to an element outside the cyclotomic subgroup (%s)", what, m.Where())
	}
}

func (g *gtDom) full(m *ai.Machine, what string, t *gtTok) {
	if t.comp {
		Failf("%s is applied to a compressed element (%s)", what, m.Where())
	}
}

// exponents makes the Fp12 methods act on powers of one element.
func (b *blsEnv) exponents(order, cyc *big.Int) *gtDom {
	g := &gtDom{order: order, cyc: cyc, conj: new(big.Int).Exp(blsP, big.NewInt(6), nil)}
	b.m.Over[blsName("(ext6).Neg")] = func(m *ai.Machine, c *ai.Call) ai.Value {
		h, ok := (*(c.Args[1].(*ai.Value))).(gtHalf)
		if !ok {
			m.Undecided("negation of a part of an Fp12 value")
		}
		h.neg = !h.neg
		return ptr(h)
	}
	over := func(name string, f func(m *ai.Machine, a []ai.Value) ai.Value) {
		fn := b.m.Func(blsPkg, "ext12."+name)
		if fn == nil {
			return
		}
		b.m.Over[ai.FuncName(fn)] = func(m *ai.Machine, c *ai.Call) ai.Value { return f(m, c.Args[1:]) }
	}
	un := func(name string, f func(e *big.Int) *big.Int) {
		over(name, func(m *ai.Machine, a []ai.Value) ai.Value {
			x := g.get(a[0])
			g.full(m, name, x)
			return ptr(g.mk(f(x.exp), false))
		})
	}
	pk := func(j int64) func(*big.Int) *big.Int {
		k := new(big.Int).Exp(blsP, big.NewInt(j), nil)
		return func(e *big.Int) *big.Int { return new(big.Int).Mul(e, k) }
	}
	un("Frobenius", pk(1))
	un("FrobeniusSquare", pk(2))
	un("FrobeniusCube", pk(3))
	un("Conjugate", pk(6))
	un("Inverse", func(e *big.Int) *big.Int { return new(big.Int).Neg(e) })
	un("Square", func(e *big.Int) *big.Int { return new(big.Int).Lsh(e, 1) })
	over("One", func(m *ai.Machine, a []ai.Value) ai.Value { return ptr(g.mk(new(big.Int), false)) })
	over("Mul", func(m *ai.Machine, a []ai.Value) ai.Value {
		x, y := g.get(a[0]), g.get(a[1])
		g.full(m, "Mul", x)
		g.full(m, "Mul", y)
		return ptr(g.mk(new(big.Int).Add(x.exp, y.exp), false))
	})
	over("CyclotomicSquare", func(m *ai.Machine, a []ai.Value) ai.Value {
		x := g.get(a[0])
		g.full(m, "CyclotomicSquare", x)
		g.cyclo(m, "CyclotomicSquare", x)
		return ptr(g.mk(new(big.Int).Lsh(x.exp, 1), false))
	})
	over("CyclotomicSquareCompressed", func(m *ai.Machine, a []ai.Value) ai.Value {
		x := g.get(a[1])
		g.cyclo(m, "CyclotomicSquareCompressed", x)
		return ptr(g.mk(new(big.Int).Lsh(x.exp, 1), true))
	})
	over("DecompressKarabina", func(m *ai.Machine, a []ai.Value) ai.Value {
		x := g.get(a[0])
		g.cyclo(m, "DecompressKarabina", x)
		return ptr(g.mk(x.exp, false))
	})
	return g
}
