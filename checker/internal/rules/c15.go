package rules

import (
	"fmt"
	"math/big"

	"zkcheck/internal/ai"
	"zkcheck/internal/poly"
)

func init() {
	register("C15", "The G2, hash-to-curve and Miller-loop functions are abstractly interpreted. Point formulas are interpreted over a ring whose indeterminates are whole Fp2 coordinates, case by case for infinity, equal and opposite points, and must equal the chord-and-tangent law as rational functions. Scalar and cofactor chains are interpreted in the group ring Z[psi, phi], the Miller loop in the free monoid of line evaluations, sqrt_ratio in the exponent domain, expand_message_xmd and hash_to_field with SHA-256 uninterpreted, SSWU and the isogeny as rational functions compared with RFC 9380.", runC15)
}

type g2pt struct{ x, y, z *emuEl }

func (r *ringEnv) pt(p g2pt) ai.Value {
	s := ai.Struct{r.in(p.x), r.in(p.y)}
	if p.z != nil {
		s = append(s, r.in(p.z))
	}
	return s
}

func (r *ringEnv) point(v ai.Value, n int) g2pt {
	s := strct(v, n)
	p := g2pt{x: r.out(s[0]), y: r.out(s[1])}
	if n == 3 {
		p.z = r.out(s[2])
	}
	return p
}

// affine is (X/Z^2, Y/Z^3).
func (r *ringEnv) affine(p g2pt) g2pt {
	z2 := r.e.mul(p.z, p.z)
	return g2pt{x: r.e.div(p.x, z2), y: r.e.div(p.y, r.e.mul(z2, p.z))}
}

// chord is p+q for points with different abscissas; tangent is 2p.
func (r *ringEnv) chord(p, q g2pt) g2pt {
	return r.third(p, q, r.e.div(r.e.sub(q.y, p.y), r.e.sub(q.x, p.x)))
}

func (r *ringEnv) tangent(p g2pt) g2pt {
	e := r.e
	return r.third(p, p, e.div(e.mul(r.int(3), e.mul(p.x, p.x)), e.mul(r.int(2), p.y)))
}

func (r *ringEnv) third(p, q g2pt, l *emuEl) g2pt {
	e := r.e
	x := e.sub(e.sub(e.mul(l, l), p.x), q.x)
	return g2pt{x: x, y: e.sub(e.mul(l, e.sub(p.x, x)), p.y)}
}

func (r *ringEnv) sameAffine(what string, got, want g2pt) {
	r.same(what+", X", got.x, want.x)
	r.same(what+", Y", got.y, want.y)
}

// sameJac demands that got represents the affine point want.
func (r *ringEnv) sameJac(what string, got, want g2pt) {
	if len(got.z.Num.T) == 0 {
		Failf("%s: is the point at infinity", what)
	}
	if !r.isUnit(got.z.Num) {
		Failf("%s: Z = %s may vanish", what, r.e.show(got.z))
	}
	r.sameAffine(what, r.affine(got), want)
}

func (r *ringEnv) infinity(what string, got g2pt) {
	if len(got.z.Num.T) != 0 {
		Failf("%s: must be the point at infinity, has Z = %s", what, r.e.show(got.z))
	}
}

func (r *ringEnv) aff(name string) g2pt { return g2pt{x: r.at(name + ".X"), y: r.at(name + ".Y")} }
func (r *ringEnv) jac(name string) g2pt {
	p := r.aff(name)
	p.z = r.at(name + ".Z")
	return p
}

func runC15(c *Ctx) {
	ring := func(rule, what string, f func(r *ringEnv)) {
		c.Ob(rule, what, func(t *T) {
			paths(t, func(fk *forks) {
				r := newRing(t, fk)
				f(r)
				if len(r.m.Cons)+len(r.e.Eqs) != 0 {
					Failf("adds assertions: %d", len(r.m.Cons)+len(r.e.Eqs))
				}
			})
		})
	}
	neg := func(r *ringEnv, x *emuEl) *emuEl { return r.e.sub(r.int(0), x) }
	mul := func(r *ringEnv, xs ...*emuEl) *emuEl {
		p := r.int(1)
		for _, x := range xs {
			p = r.e.mul(p, x)
		}
		return p
	}
	c15Jacobian(c, ring, neg, mul)
	c15Affine(c, ring, neg)
	c15Predicates(c)
	c15Miller(c, ring, mul)
	c15Group(c)
	c15Hash(c)
	c15Map(c, ring)
	c.Assume = append(c.Assume,
		"the Fp2 methods have their ring meaning and refuse zero divisors (C14)",
		"gnark's emulated.Field implements arithmetic modulo the field parameters; IsZero is exact, AssertIsInRange makes an element canonical",
		"SHA-256 gadget (C10)",
		"the point order on the G2 curve is odd, so no finite point has Y = 0")
}

func c15Jacobian(c *Ctx, ring func(string, string, func(*ringEnv)), neg func(*ringEnv, *emuEl) *emuEl, mul func(*ringEnv, ...*emuEl) *emuEl) {
	add := func(what string, setup func(r *ringEnv) (p, a g2pt, want g2pt, inf bool)) {
		for _, sub := range []bool{false, true} {
			name := "G2JacobianAddAssign"
			if sub {
				name = "G2JacobianSubAssign"
			}
			sub := sub
			ring("jacobian", name+": "+what, func(r *ringEnv) {
				p, a, want, inf := setup(r)
				b := a
				if sub {
					b.y = neg(r, a.y)
				}
				got := r.point(r.fn(name, r.pt(p), r.pt(b)), 3)
				if inf {
					r.infinity(name, got)
				} else {
					r.sameJac(name, got, want)
				}
			})
		}
	}
	add("p and a at infinity", func(r *ringEnv) (g2pt, g2pt, g2pt, bool) {
		p, a := r.jac("p"), r.jac("a")
		p.z, a.z = r.int(0), r.int(0)
		return p, a, g2pt{}, true
	})
	add("p at infinity", func(r *ringEnv) (g2pt, g2pt, g2pt, bool) {
		p, a := r.jac("p"), r.jac("a")
		p.z = r.int(0)
		r.assume(a.z)
		return p, a, r.affine(a), false
	})
	add("a at infinity", func(r *ringEnv) (g2pt, g2pt, g2pt, bool) {
		p, a := r.jac("p"), r.jac("a")
		a.z = r.int(0)
		r.assume(p.z)
		return p, a, r.affine(p), false
	})
	add("different abscissas", func(r *ringEnv) (g2pt, g2pt, g2pt, bool) {
		p, a := r.jac("p"), r.jac("a")
		r.assume(p.z)
		r.assume(a.z)
		r.assume(r.e.sub(mul(r, p.x, a.z, a.z), mul(r, a.x, p.z, p.z)))
		return p, a, r.chord(r.affine(p), r.affine(a)), false
	})
	add("equal points", func(r *ringEnv) (g2pt, g2pt, g2pt, bool) {
		p, l := r.jac("p"), r.at("l")
		a := g2pt{mul(r, p.x, l, l), mul(r, p.y, l, l, l), mul(r, p.z, l)}
		r.assume(p.z)
		r.assume(p.y)
		r.assume(l)
		return p, a, r.tangent(r.affine(p)), false
	})
	add("opposite points", func(r *ringEnv) (g2pt, g2pt, g2pt, bool) {
		p, l := r.jac("p"), r.at("l")
		a := g2pt{mul(r, p.x, l, l), neg(r, mul(r, p.y, l, l, l)), mul(r, p.z, l)}
		r.assume(p.z)
		r.assume(p.y)
		r.assume(l)
		return p, a, g2pt{}, true
	})
	ring("jacobian", "G2JacobianDouble: finite point", func(r *ringEnv) {
		p := r.jac("p")
		r.assume(p.z)
		r.assume(p.y)
		r.sameJac("G2JacobianDouble", r.point(r.fn("G2JacobianDouble", r.pt(p)), 3), r.tangent(r.affine(p)))
	})
	ring("jacobian", "G2JacobianDouble: infinity", func(r *ringEnv) {
		p := r.jac("p")
		p.z = r.int(0)
		r.infinity("G2JacobianDouble", r.point(r.fn("G2JacobianDouble", r.pt(p)), 3))
	})
	ring("jacobian", "G2JacobianNeg", func(r *ringEnv) {
		p := r.jac("p")
		r.assume(p.z)
		want := r.affine(p)
		want.y = neg(r, want.y)
		r.sameJac("G2JacobianNeg", r.point(r.fn("G2JacobianNeg", r.pt(p)), 3), want)
	})
	ring("conversion", "GetG2JacFromG2Affine", func(r *ringEnv) {
		q := r.aff("q")
		got := r.point(r.fn("GetG2JacFromG2Affine", ptr(r.pt(q))), 3)
		x, y := r.nz(q.x), r.nz(q.y)
		if x || y {
			r.sameJac("GetG2JacFromG2Affine", got, q)
		} else {
			r.infinity("GetG2JacFromG2Affine of (0,0)", got)
		}
	})
	ring("conversion", "GetG2AffineFromG2Jac: finite point", func(r *ringEnv) {
		p := r.jac("p")
		r.assume(p.z)
		r.sameAffine("GetG2AffineFromG2Jac", r.point(r.fn("GetG2AffineFromG2Jac", ptr(r.pt(p))), 2), r.affine(p))
	})
	ring("conversion", "GetG2AffineFromG2Jac: infinity", func(r *ringEnv) {
		p := r.jac("p")
		p.z = r.int(0)
		o := r.t.Try(r.m, blsPkg, "GetG2AffineFromG2Jac", r.m.APIValue(), ptr(r.pt(p)))
		if o.Abort != nil {
			return // unprovable
		}
		q := r.point(o.Ret, 2)
		if len(q.x.Num.T)+len(q.y.Num.T) != 0 {
			Failf("the point at infinity becomes a finite point")
		}
	})
	ring("conversion", "AffineToProjective", func(r *ringEnv) {
		q := r.aff("q")
		got := r.point(r.pairing("AffineToProjective", ptr(r.pt(q))), 3)
		if !r.isUnit(got.z.Num) {
			Failf("Z may vanish")
		}
		r.sameAffine("AffineToProjective", g2pt{x: r.e.div(got.x, got.z), y: r.e.div(got.y, got.z)}, q)
	})
	c.Floor("jacobian", 15)
	c.Floor("conversion", 4)
}

// pairing calls a method of Pairing built by NewPairing.
func (b *blsEnv) pairing(meth string, args ...ai.Value) ai.Value {
	tup, ok := b.fn("NewPairing").(ai.Tuple)
	if !ok || len(tup) != 2 {
		Failf("NewPairing does not return a pairing and an error")
	}
	p := tup[0]
	f := b.m.Func(blsPkg, "Pairing."+meth)
	if f == nil {
		Failf("anchor Pairing.%s not found", meth)
	}
	if f.Signature.Recv() != nil && !isPointer(f.Signature.Recv().Type()) {
		p = *(p.(*ai.Value))
	}
	return b.t.Run(b.m, blsPkg, "Pairing."+meth, append([]ai.Value{p}, args...)...)
}

func c15Affine(c *Ctx, ring func(string, string, func(*ringEnv)), neg func(*ringEnv, *emuEl) *emuEl) {
	// deref accepts both value and pointer results
	ring("affine", "G2AddAssign", func(r *ringEnv) {
		p, q := r.aff("p"), r.aff("q")
		r.sameAffine("G2AddAssign", r.point(r.fn("G2AddAssign", r.pt(p), r.pt(q)), 2), r.chord(p, q))
	})
	ring("affine", "G2SubAssign", func(r *ringEnv) {
		p, q := r.aff("p"), r.aff("q")
		n := q
		n.y = neg(r, q.y)
		r.sameAffine("G2SubAssign", r.point(r.fn("G2SubAssign", r.pt(p), r.pt(q)), 2), r.chord(p, n))
	})
	ring("affine", "G2Double", func(r *ringEnv) {
		p := r.aff("p")
		r.sameAffine("G2Double", r.point(r.fn("G2Double", r.pt(p)), 2), r.tangent(p))
	})
	ring("affine", "G2Neg", func(r *ringEnv) {
		p := r.aff("p")
		r.sameAffine("G2Neg", r.point(r.fn("G2Neg", r.pt(p)), 2), g2pt{x: p.x, y: neg(r, p.y)})
	})
	ring("affine", "Pairing.NegAffine", func(r *ringEnv) {
		p := r.aff("p")
		r.sameAffine("NegAffine", r.point(r.pairing("NegAffine", ptr(r.pt(p))), 2), g2pt{x: p.x, y: neg(r, p.y)})
	})
	ring("affine", "DoubleAndAdd", func(r *ringEnv) {
		p, q := r.aff("p"), r.aff("q")
		r.sameAffine("DoubleAndAdd", r.point(r.fn("DoubleAndAdd", ptr(r.pt(p)), ptr(r.pt(q))), 2), r.chord(p, r.chord(p, q)))
	})
	// an addition of equal or opposite points must not be satisfiable with a free result
	for _, l := range []struct {
		name string
		args func(r *ringEnv) []ai.Value
	}{
		{"G2AddAssign of equal points", func(r *ringEnv) []ai.Value { return []ai.Value{r.pt(r.aff("p")), r.pt(r.aff("p"))} }},
		{"G2AddAssign of opposite points", func(r *ringEnv) []ai.Value {
			p := r.aff("p")
			return []ai.Value{r.pt(p), r.pt(g2pt{x: p.x, y: neg(r, p.y)})}
		}},
		{"DoubleAndAdd of equal points", func(r *ringEnv) []ai.Value { return []ai.Value{ptr(r.pt(r.aff("p"))), ptr(r.pt(r.aff("p")))} }},
	} {
		l := l
		ring("affine", l.name+" is refused", func(r *ringEnv) {
			name := l.name[:len(l.name)-len(l.name[indexByte(l.name, ' '):])]
			o := r.t.Try(r.m, blsPkg, name, append([]ai.Value{r.m.APIValue()}, l.args(r)...)...)
			if o.Abort == nil {
				// a complete formula is welcome too
				p := r.aff("p")
				if l.name == "G2AddAssign of equal points" {
					r.assume(p.y)
					r.sameAffine(l.name, r.point(o.Ret, 2), r.tangent(p))
					return
				}
				Failf("accepts a zero divisor")
			}
		})
	}
	// endomorphisms, on field coordinates
	om := func() (a, b *big.Int) {
		// the primitive third roots of unity in Fp
		s := new(big.Int).ModSqrt(mod(big.NewInt(-3)), blsP)
		h := new(big.Int).ModInverse(big.NewInt(2), blsP)
		a = mod(new(big.Int).Mul(new(big.Int).Sub(s, big.NewInt(1)), h))
		b = mod(new(big.Int).Mul(new(big.Int).Sub(new(big.Int).Neg(s), big.NewInt(1)), h))
		return
	}
	cx, cy := blsPsi()
	psi := func(name string, n int) {
		c.Ob("endomorphism", name, func(t *T) {
			b := newBlsBare(t)
			var xs []f2
			var s ai.Struct
			for i := 0; i < n; i++ {
				x := b.e.f2in(string("xyz"[i]))
				xs = append(xs, x)
				s = append(s, b.e.e2(x))
			}
			got := strct(b.fn(name, s), n)
			for i, k := range []c2{cx, cy, c2i(1, 0)}[:n] {
				b.e.same2(fmt.Sprintf("%s, coordinate %d", name, i), b.e.asE2(got[i]), b.e.f2mul(b.e.f2conj(xs[i]), b.e.c2(k)))
			}
		})
	}
	psi("G2JacobianPsi", 3)
	psi("G2Psi", 2)
	phi := func(name string, n int) {
		c.Ob("endomorphism", name, func(t *T) {
			b := newBlsBare(t)
			var xs []f2
			var s ai.Struct
			for i := 0; i < n; i++ {
				x := b.e.f2in(string("xyz"[i]))
				xs = append(xs, x)
				s = append(s, b.e.e2(x))
			}
			got := strct(b.fn(name, s), n)
			w1, w2 := om()
			x := b.e.asE2(got[0])
			is := func(w *big.Int) bool {
				m := b.e.f2mul(xs[0], b.e.c2(c2{w, new(big.Int)}))
				return poly.Eq(x.a.Num, m.a.Num) && poly.Eq(x.b.Num, m.b.Num)
			}
			if !is(w1) && !is(w2) {
				Failf("does not multiply X by a primitive third root of unity")
			}
			for i := 1; i < n; i++ {
				b.e.same2(fmt.Sprintf("%s, coordinate %d", name, i), b.e.asE2(got[i]), xs[i])
			}
		})
	}
	phi("G2JacobianPhi", 3)
	phi("G2Phi", 2)
	c.Floor("affine", 9)
	c.Floor("endomorphism", 4)
}

func indexByte(s string, b byte) int {
	for i := range s {
		if s[i] == b {
			return i
		}
	}
	return len(s)
}

// blsPsi are the coefficients of untwist-Frobenius-twist:
// (x, y) -> (conj(x) xi^-((p-1)/3), conj(y) xi^-((p-1)/2)).
func blsPsi() (cx, cy c2) {
	return blsGamma(1, 2).inv(), blsGamma(1, 3).inv()
}

// c15Predicates: the zero and equality tests are exact for every
// representation of a field element.
func c15Predicates(c *Ctx) {
	type pred struct {
		name string
		n    int // coordinates per operand
		two  bool
		// want is the demanded value given which coordinate differences vanish
		diff func(e *emuModel, x, y []*emuEl) []*emuEl
	}
	one := func(e *emuModel, i int) *emuEl {
		if i == 0 {
			return e.mk(e.E.Int(1), nil)
		}
		return e.mk(e.E.Int(0), nil)
	}
	for _, p := range []pred{
		{"G1NotZero", 1, false, func(e *emuModel, x, y []*emuEl) []*emuEl { return x }},
		{"E2NotZero", 2, false, func(e *emuModel, x, y []*emuEl) []*emuEl { return x }},
		{"G1NotEqualOne", 1, false, func(e *emuModel, x, y []*emuEl) []*emuEl { return []*emuEl{e.sub(x[0], one(e, 0))} }},
		{"E2NotOne", 2, false, func(e *emuModel, x, y []*emuEl) []*emuEl {
			return []*emuEl{e.sub(x[0], one(e, 0)), e.sub(x[1], one(e, 1))}
		}},
		{"G1NotEqual", 1, true, func(e *emuModel, x, y []*emuEl) []*emuEl { return []*emuEl{e.sub(x[0], y[0])} }},
		{"E2NotEqual", 2, true, func(e *emuModel, x, y []*emuEl) []*emuEl {
			return []*emuEl{e.sub(x[0], y[0]), e.sub(x[1], y[1])}
		}},
		{"G2AffineNotInfinity", 4, false, func(e *emuModel, x, y []*emuEl) []*emuEl { return x }},
	} {
		p := p
		c.Ob("predicate", p.name, func(t *T) {
			paths(t, func(fk *forks) {
				b := newBlsBare(t)
				e := b.e
				b.zeroForks(fk)
				mk := func(n string) ([]*emuEl, ai.Value) {
					var xs []*emuEl
					for i := 0; i < p.n; i++ {
						xs = append(xs, e.input(fmt.Sprintf("%s%d", n, i)))
					}
					switch p.n {
					case 1:
						return xs, xs[0]
					case 2:
						return xs, ai.Struct{xs[0], xs[1]}
					}
					return xs, ptr(ai.Struct{ai.Struct{xs[0], xs[1]}, ai.Struct{xs[2], xs[3]}})
				}
				x, v := mk("x")
				args := []ai.Value{v}
				var y []*emuEl
				if p.two {
					var w ai.Value
					y, w = mk("y")
					args = append(args, w)
				}
				got, ok := b.m.ToWire(b.fn(p.name, args...)).P.IsConst()
				if !ok {
					Failf("result does not follow from which coordinates vanish")
				}
				want := int64(0)
				for _, d := range p.diff(e, x, y) {
					if !b.isZeroFork(fk, d) {
						want = 1
					}
				}
				if got.Cmp(big.NewInt(want)) != 0 {
					Failf("returns %s, must be %d", got, want)
				}
				if len(b.m.Cons)+len(e.Eqs) != 0 {
					Failf("adds assertions")
				}
			})
		})
	}
	c.Ob("predicate", "g2Sgn0", func(t *T) {
		paths(t, func(fk *forks) {
			b := newBlsBare(t)
			e := b.e
			b.zeroForks(fk)
			x := e.f2in("x")
			got := b.m.ToWire(b.fn("g2Sgn0", b.p2(x))).P
			// RFC 9380 sgn0 for m = 2, on canonical coordinates
			par := func(y *emuEl) *poly.Poly { return e.bits(&emuEl{Num: y.Num, Den: y.Den, canon: true})[0] }
			want := par(x.a)
			if b.isZeroFork(fk, x.a) {
				want = par(x.b)
				// all bits of a canonical zero are zero
				zero := map[*poly.Atom]bool{}
				for _, z := range e.bits(&emuEl{Num: x.a.Num, Den: x.a.Den, canon: true}) {
					if a, ok := z.SingleAtom(); ok {
						zero[a] = true
					}
				}
				got = b.m.Sp.Subst(got, func(a *poly.Atom) *poly.Poly {
					if zero[a] {
						return b.m.Sp.Int(0)
					}
					return b.m.Sp.Var(a)
				})
			}
			if !poly.Eq(got, want) {
				Failf("computes %s, must be %s", clip(b.m.Sp.String(got)), b.m.Sp.String(want))
			}
		})
	})
	c.Floor("predicate", 8)
}

// zeroForks makes emulated IsZero fork the analysis, and raw bits of an
// element that is not known to be canonical carry no information.
func (b *blsEnv) zeroForks(fk *forks) {
	e := b.e
	b.m.Over[gEmu+"(*Field).IsZero"] = func(m *ai.Machine, c *ai.Call) ai.Value {
		if b.isZeroFork(fk, e.el(c.Args[1])) {
			return ai.V(m.ConstI(1))
		}
		return ai.V(m.ConstI(0))
	}
	b.m.Over[gEmu+"(*Field).ToBits"] = func(m *ai.Machine, c *ai.Call) ai.Value {
		x := e.el(c.Args[1])
		if k, ok := x.Num.IsConst(); ok {
			var s ai.Slice
			for i := 0; i < blsP.BitLen(); i++ {
				s = append(s, ai.V(m.ConstI(int64(mod(k).Bit(i)))))
			}
			return s
		}
		m.Undecided("bits of an element that may be represented by x or x+p")
		return nil
	}
}

func (b *blsEnv) isZeroFork(fk *forks, x *emuEl) bool {
	if c, ok := x.Num.IsConst(); ok {
		return c.Sign() == 0
	}
	p := b.e.E.Scale(x.Num, new(big.Int).ModInverse(new(big.Int).Mod(x.Num.T[0].C, blsP), blsP))
	return fk.ask("z:"+p.Key(), "["+clip(b.e.E.String(p))+" = 0]")
}

// ---- Miller loop ----

func c15Miller(c *Ctx, ring func(string, string, func(*ringEnv)), mul func(*ringEnv, ...*emuEl) *emuEl) {
	line := func(r *ringEnv, what string, v ai.Value, lam *emuEl, at g2pt) {
		s := strct(v, 3)
		r0, r1, r2 := r.out(s[0]), r.out(s[1]), r.out(s[2])
		if !r.isUnit(r2.Num) {
			Failf("%s: the coefficient of y, %s, may vanish", what, r.e.show(r2))
		}
		// y - lam x + (lam x0 - y0)
		r.same(what+": coefficient of x", r1, r.e.mul(r.e.mul(r.int(-1), lam), r2))
		r.same(what+": constant coefficient", r0, r.e.mul(r.e.sub(r.e.mul(lam, at.x), at.y), r2))
	}
	step := func(r *ringEnv, what string, v ai.Value) (g2pt, ai.Value) {
		tup, ok := v.(ai.Tuple)
		if !ok || len(tup) != 2 {
			Failf("%s does not return a point and a line", what)
		}
		p := r.point(tup[0], 3)
		if !r.isUnit(p.z.Num) {
			Failf("%s: Z = %s may vanish", what, r.e.show(p.z))
		}
		return g2pt{x: r.e.div(p.x, p.z), y: r.e.div(p.y, p.z)}, tup[1]
	}
	ring("miller", "DoubleStep", func(r *ringEnv) {
		e := r.e
		p := r.jac("p") // homogeneous coordinates
		r.assume(p.z)
		r.assume(p.y)
		// 4(1+u) = (Y^2 Z - X^3) / Z^3 on the curve
		r.twist = e.div(e.sub(mul(r, p.y, p.y, p.z), mul(r, p.x, p.x, p.x)), mul(r, p.z, p.z, p.z))
		a := g2pt{x: e.div(p.x, p.z), y: e.div(p.y, p.z)}
		q, l := step(r, "DoubleStep", r.pairing("DoubleStep", ptr(r.pt(p))))
		r.sameAffine("DoubleStep", q, r.tangent(a))
		line(r, "DoubleStep", l, e.div(mul(r, r.int(3), a.x, a.x), mul(r, r.int(2), a.y)), a)
	})
	ring("miller", "AddStep", func(r *ringEnv) {
		e := r.e
		p, a := r.jac("p"), r.aff("a")
		r.assume(p.z)
		r.assume(e.sub(p.x, mul(r, a.x, p.z)))
		b := g2pt{x: e.div(p.x, p.z), y: e.div(p.y, p.z)}
		q, l := step(r, "AddStep", r.pairing("AddStep", ptr(r.pt(p)), ptr(r.pt(a))))
		r.sameAffine("AddStep", q, r.chord(b, a))
		line(r, "AddStep", l, e.div(e.sub(b.y, a.y), e.sub(b.x, a.x)), a)
	})
	sizes := []int{1, 2, 3}
	if c.Thorough {
		sizes = append(sizes, 4, 7)
	}
	for _, n := range c.grid(sizes, 1, 9, blsPkg) {
		n := n
		ring("miller", fmt.Sprintf("MillerLoop of %d pairs", n), func(r *ringEnv) {
			d := r.lines()
			var ps, qs ai.Slice
			for i := 0; i < n; i++ {
				ps = append(ps, ptr(ai.Struct{r.at(fmt.Sprintf("p%d.X", i)), r.at(fmt.Sprintf("p%d.Y", i))}))
				qs = append(qs, ptr(r.pt(r.aff(fmt.Sprintf("q%d", i)))))
			}
			tup, ok := r.pairing("MillerLoop", ps, qs).(ai.Tuple)
			if !ok || len(tup) != 2 || !ai.IsNil(tup[1]) {
				Failf("MillerLoop reports an error for matching lists")
			}
			got := d.get(tup[0])
			exp := map[string]*big.Int{}
			for i := 0; i < n; i++ {
				f := map[string]*big.Int{}
				k := big.NewInt(1)
				for b := blsT.BitLen() - 2; b >= 0; b-- {
					for _, x := range f {
						x.Lsh(x, 1)
					}
					f[fmt.Sprintf("double %s*q%d", k, i)] = big.NewInt(1)
					k = new(big.Int).Lsh(k, 1)
					if blsT.Bit(b) == 1 {
						f[fmt.Sprintf("add %s*q%d", k, i)] = big.NewInt(1)
						k = new(big.Int).Add(k, big.NewInt(1))
					}
				}
				for l, x := range f {
					exp[l+"*"] = x // t is negative: the result is conjugated
				}
			}
			for l, x := range exp {
				if g := got[l]; g == nil || g.Cmp(x) != 0 {
					Failf("the line %s must occur with exponent %s, has %s", l, x, g)
				}
			}
			if len(got) != len(exp) {
				Failf("%d line evaluations, must be %d", len(got), len(exp))
			}
		})
	}
	for _, l := range [][2]int{{0, 0}, {1, 2}, {2, 1}, {0, 1}, {1, 0}} {
		l := l
		ring("miller", fmt.Sprintf("MillerLoop refuses %d and %d points", l[0], l[1]), func(r *ringEnv) {
			r.lines()
			var ps, qs ai.Slice
			for i := 0; i < l[0]; i++ {
				ps = append(ps, ptr(ai.Struct{r.at(fmt.Sprintf("p%d.X", i)), r.at(fmt.Sprintf("p%d.Y", i))}))
			}
			for i := 0; i < l[1]; i++ {
				qs = append(qs, ptr(r.pt(r.aff(fmt.Sprintf("q%d", i)))))
			}
			f := r.m.Func(blsPkg, "Pairing.MillerLoop")
			if f == nil {
				Failf("anchor Pairing.MillerLoop not found")
			}
			p := r.fn("NewPairing").(ai.Tuple)[0]
			if !isPointer(f.Signature.Recv().Type()) {
				p = *(p.(*ai.Value))
			}
			o := r.t.Try(r.m, blsPkg, "Pairing.MillerLoop", p, ps, qs)
			if o.Abort != nil {
				return
			}
			if tup, ok := o.Ret.(ai.Tuple); !ok || len(tup) != 2 || ai.IsNil(tup[1]) {
				Failf("returns no error")
			}
		})
	}
	ring("miller", "Pair is the final exponentiation of the Miller loop", func(r *ringEnv) {
		ps, qs := ai.Slice{ptr(ai.Struct{r.at("p.X"), r.at("p.Y")})}, ai.Slice{ptr(r.pt(r.aff("q")))}
		d := r.lines()
		r.over("Pairing.MillerLoop", func(m *ai.Machine, a []ai.Value) ai.Value {
			if len(a) != 2 || !ai.SameSlice(a[0], ps) || !ai.SameSlice(a[1], qs) {
				Failf("the Miller loop gets other points")
			}
			return ai.Tuple{ptr(d.mk(map[string]*big.Int{"miller": big.NewInt(1)})), ai.NilErr}
		})
		r.over("Pairing.FinalExponentiation", func(m *ai.Machine, a []ai.Value) ai.Value {
			if x := d.get(a[0]); len(x) != 1 || x["miller"] == nil || x["miller"].Cmp(big.NewInt(1)) != 0 {
				Failf("the final exponentiation gets another value")
			}
			return ptr(d.mk(map[string]*big.Int{"pairing": big.NewInt(1)}))
		})
		tup, ok := r.pairing("Pair", ps, qs).(ai.Tuple)
		if !ok || len(tup) != 2 || !ai.IsNil(tup[1]) {
			Failf("Pair reports an error")
		}
		if x := d.get(tup[0]); len(x) != 1 || x["pairing"] == nil || x["pairing"].Cmp(big.NewInt(1)) != 0 {
			Failf("Pair does not return the final exponentiation")
		}
	})
	c.Floor("miller", 11)
}

// lineDom: Fp12 values as products of line evaluations.
type lineTok struct{ exp map[string]*big.Int }
type lineHalf struct {
	*lineTok
	which int
	neg   bool
}
type lineDom struct{ r *ringEnv }

func (d *lineDom) mk(e map[string]*big.Int) ai.Value {
	t := &lineTok{e}
	return ai.Struct{lineHalf{t, 0, false}, lineHalf{t, 1, false}}
}

func (d *lineDom) get(v ai.Value) map[string]*big.Int {
	s := strct(v, 2)
	a, ok := s[0].(lineHalf)
	b, ok2 := s[1].(lineHalf)
	if !ok || !ok2 || a.lineTok != b.lineTok || a.which != 0 || b.which != 1 || a.neg {
		Failf("mixes the halves of different Fp12 values")
	}
	if b.neg {
		return conjLines(a.exp)
	}
	return a.exp
}

func conjLines(e map[string]*big.Int) map[string]*big.Int {
	out := map[string]*big.Int{}
	for k, v := range e {
		if k[len(k)-1] == '*' {
			out[k[:len(k)-1]] = v
		} else {
			out[k+"*"] = v
		}
	}
	return out
}

func mulLines(es ...map[string]*big.Int) map[string]*big.Int {
	out := map[string]*big.Int{}
	for _, e := range es {
		for k, v := range e {
			if out[k] == nil {
				out[k] = new(big.Int)
			}
			out[k] = new(big.Int).Add(out[k], v)
		}
	}
	return out
}

// lines makes the Miller loop's parts symbolic.
func (r *ringEnv) lines() *lineDom {
	d := &lineDom{r}
	type mult struct {
		k *big.Int
		i string
	}
	pts := map[string]mult{} // by key of X
	coords := func(name string) g2pt {
		return g2pt{r.at(name + ".TX"), r.at(name + ".TY"), r.at(name + ".TZ")}
	}
	recog := func(v ai.Value) mult {
		p := r.point(v, 3)
		if a, ok := p.x.Num.SingleAtom(); ok {
			if m, ok := pts[a.Name]; ok {
				q := coords(fmt.Sprintf("%s*%s", m.k, m.i))
				if poly.Eq(q.y.Num, p.y.Num) && poly.Eq(q.z.Num, p.z.Num) && poly.Eq(q.x.Num, p.x.Num) {
					return m
				}
				Failf("mixes coordinates of different points")
			}
			if n := len(a.Name); n > 2 && a.Name[n-2:] == ".X" {
				i := a.Name[:n-2]
				one, _ := p.z.Num.IsConst()
				if poly.Eq(p.y.Num, r.at(i+".Y").Num) && one != nil && one.Cmp(big.NewInt(1)) == 0 && i[0] == 'q' {
					return mult{big.NewInt(1), i}
				}
			}
		}
		Failf("not a multiple of one of the input points: X = %s", r.e.show(p.x))
		return mult{}
	}
	mkPt := func(m mult) ai.Value {
		name := fmt.Sprintf("%s*%s", m.k, m.i)
		p := coords(name)
		a, _ := p.x.Num.SingleAtom()
		pts[a.Name] = m
		return ptr(r.pt(p))
	}
	lineOf := map[string]string{}
	mkLine := func(name, i string) ai.Value {
		lineOf[name] = i
		return ptr(ai.Struct{r.in(r.at("L0 " + name)), r.in(r.at("L1 " + name)), r.in(r.at("L2 " + name))})
	}
	r.over("Pairing.DoubleStep", func(m *ai.Machine, a []ai.Value) ai.Value {
		p := recog(a[0])
		l := mkLine(fmt.Sprintf("double %s*%s", p.k, p.i), p.i)
		return ai.Tuple{mkPt(mult{new(big.Int).Lsh(p.k, 1), p.i}), l}
	})
	r.over("Pairing.AddStep", func(m *ai.Machine, a []ai.Value) ai.Value {
		p, q := recog(a[0]), r.point(a[1], 2)
		if !poly.Eq(q.x.Num, r.at(p.i+".X").Num) || !poly.Eq(q.y.Num, r.at(p.i+".Y").Num) {
			Failf("adds another point than the one the loop is running for")
		}
		l := mkLine(fmt.Sprintf("add %s*%s", p.k, p.i), p.i)
		return ai.Tuple{mkPt(mult{new(big.Int).Add(p.k, big.NewInt(1)), p.i}), l}
	})
	line := func(c0, c1, c4 ai.Value) map[string]*big.Int {
		x := r.out(c0)
		a, ok := x.Num.SingleAtom()
		if !ok || len(a.Name) < 3 || a.Name[:3] != "L0 " {
			Failf("the first coefficient of a sparse factor is %s, not a line's", r.e.show(x))
		}
		name := a.Name[3:]
		i := lineOf[name]
		px := r.at("p" + i[1:] + ".X")
		py := r.at("p" + i[1:] + ".Y")
		r.same("second coefficient of "+name, r.out(c1), r.e.mul(r.at("L1 "+name), px))
		r.same("third coefficient of "+name, r.out(c4), r.e.mul(r.at("L2 "+name), py))
		return map[string]*big.Int{name: big.NewInt(1)}
	}
	r.over("Pairing.MulBy014", func(m *ai.Machine, a []ai.Value) ai.Value {
		return ptr(d.mk(mulLines(d.get(a[0]), line(a[1], a[2], a[3]))))
	})
	r.over("ext12.Mul014By014", func(m *ai.Machine, a []ai.Value) ai.Value {
		return ptr(d.mk(mulLines(line(a[0], a[1], a[2]), line(a[3], a[4], a[5]))))
	})
	r.over("ext12.One", func(m *ai.Machine, a []ai.Value) ai.Value { return ptr(d.mk(map[string]*big.Int{})) })
	r.over("ext12.Mul", func(m *ai.Machine, a []ai.Value) ai.Value {
		return ptr(d.mk(mulLines(d.get(a[0]), d.get(a[1]))))
	})
	r.over("ext12.Square", func(m *ai.Machine, a []ai.Value) ai.Value {
		x := d.get(a[0])
		return ptr(d.mk(mulLines(x, x)))
	})
	r.over("ext12.Conjugate", func(m *ai.Machine, a []ai.Value) ai.Value {
		return ptr(d.mk(conjLines(d.get(a[0]))))
	})
	r.m.Over[blsName("(ext6).Neg")] = func(m *ai.Machine, c *ai.Call) ai.Value {
		h, ok := (*(c.Args[1].(*ai.Value))).(lineHalf)
		if !ok {
			m.Undecided("negation of a part of an Fp12 value")
		}
		h.neg = !h.neg
		return ptr(h)
	}
	return d
}

// ---- multiples of a point ----

// grp: points as elements of Z[psi, phi] times base points. Coordinates carry
// the identity of the point; psi^2(x, y) = (N x, -y) with N = norm(cx).
type grp struct {
	r    *ringEnv
	val  map[string]*poly.Poly // by atom name
	norm *big.Int
}

func (r *ringEnv) group() *grp {
	cx, cy := blsPsi()
	n := cx.mul(cx.conj())
	if m := cy.mul(cy.conj()); m[0].Cmp(mod(big.NewInt(-1))) != 0 || m[1].Sign() != 0 || n[1].Sign() != 0 {
		panic("internal: psi constants")
	}
	g := &grp{r: r, val: map[string]*poly.Poly{}, norm: n[0]}
	pt := func(name string, f func(x []*poly.Poly) *poly.Poly, arity ...int) {
		fn := r.m.Func(blsPkg, name)
		if fn == nil {
			return
		}
		isPtr := isPointer(fn.Signature.Results().At(0).Type())
		res := 3
		if k := arity[len(arity)-1]; k == 2 {
			res = 2
		}
		r.over(name, func(m *ai.Machine, a []ai.Value) ai.Value {
			var xs []*poly.Poly
			for i, v := range a {
				xs = append(xs, g.get(v, arity[i]))
			}
			v := g.mk(f(xs), res)
			if isPtr {
				return ptr(v)
			}
			return v
		})
	}
	E := r.e.E
	two := big.NewInt(2)
	add := func(x []*poly.Poly) *poly.Poly { return E.Add(x[0], x[1]) }
	dbl := func(x []*poly.Poly) *poly.Poly { return E.Scale(x[0], two) }
	id := func(x []*poly.Poly) *poly.Poly { return x[0] }
	psi := func(x []*poly.Poly) *poly.Poly { return E.Mul(x[0], g.sym("psi")) }
	pt("G2JacobianAddAssign", add, 3, 3, 3)
	pt("G2JacobianDouble", dbl, 3, 3)
	pt("G2JacobianPsi", psi, 3, 3)
	pt("G2AddAssign", add, 2, 2, 2)
	pt("G2Double", dbl, 2, 2)
	pt("G2Psi", psi, 2, 2)
	pt("DoubleAndAdd", func(x []*poly.Poly) *poly.Poly { return E.Add(E.Scale(x[0], two), x[1]) }, 2, 2, 2)
	pt("GetG2JacFromG2Affine", id, 2, 3)
	pt("GetG2AffineFromG2Jac", id, 3, 2)
	return g
}

func (g *grp) sym(name string) *poly.Poly  { return g.r.at("op:" + name).Num }
func (g *grp) base(name string) *poly.Poly { return g.r.at("base:" + name).Num }

func (g *grp) mk(p *poly.Poly, n int) ai.Value {
	k := p.Key()
	x := g.r.at("gX:" + k)
	a, _ := x.Num.SingleAtom()
	g.val[a.Name] = p
	pt := g2pt{x: x, y: g.r.at("gY:" + k)}
	if n == 3 {
		pt.z = g.r.at("gZ:" + k)
	}
	return g.r.pt(pt)
}

func (g *grp) get(v ai.Value, n int) *poly.Poly {
	p := g.r.point(v, n)
	if len(p.x.Num.T) != 1 || len(p.x.Num.T[0].M.Ats) != 1 {
		Failf("not a point: X = %s", g.r.e.show(p.x))
	}
	at := p.x.Num.T[0].M.Ats[0]
	val, ok := g.val[at.Name]
	if !ok {
		Failf("not a known point: X = %s", g.r.e.show(p.x))
	}
	E := g.r.e.E
	k := val.Key()
	y := g.r.at("gY:" + k).Num
	switch {
	case poly.Eq(p.y.Num, y):
	case poly.Eq(p.y.Num, E.Scale(y, big.NewInt(-1))):
		val = E.Scale(val, big.NewInt(-1))
	default:
		Failf("X and Y belong to different points")
	}
	if n == 3 && !poly.Eq(p.z.Num, g.r.at("gZ:"+k).Num) {
		Failf("X and Z belong to different points")
	}
	switch c := mod(p.x.Num.T[0].C); {
	case c.Cmp(big.NewInt(1)) == 0:
	case c.Cmp(g.norm) == 0: // (N x, y) = -psi^2(x, y)
		val = E.Scale(E.Mul(E.Mul(val, g.sym("psi")), g.sym("psi")), big.NewInt(-1))
	case c.Cmp(mod(new(big.Int).Mul(g.norm, g.norm))) == 0: // psi^4
		for i := 0; i < 4; i++ {
			val = E.Mul(val, g.sym("psi"))
		}
	default:
		Failf("X is multiplied by %s, which is no automorphism", c)
	}
	return val
}

func (g *grp) want(what string, got, want *poly.Poly) {
	if !poly.Eq(got, want) {
		Failf("%s: computes %s, must be %s", what, clip(g.r.e.E.String(got)), clip(g.r.e.E.String(want)))
	}
}

func c15Group(c *Ctx) {
	ob := func(what string, f func(g *grp)) {
		c.Ob("multiple", what, func(t *T) {
			paths(t, func(fk *forks) {
				r := newRing(t, fk)
				g := r.group()
				f(g)
				if len(r.m.Cons)+len(r.e.Eqs) != 0 {
					Failf("adds assertions")
				}
			})
		})
	}
	for _, l := range []struct {
		name string
		n    int
	}{{"G2JacobianConstScalarMul", 3}, {"G2ConstScalarMulV2", 2}, {"G2ConstScalarMul", 2}} {
		l := l
		ob(l.name+" multiplies by |t|", func(g *grp) {
			a := g.base("a")
			got := g.get(g.r.fn(l.name, g.mk(a, l.n)), l.n)
			g.want(l.name, got, g.r.e.E.Scale(a, blsT))
		})
	}
	// Budroni-Pintore: h_eff = (t^2-t-1) + (t-1) psi + 2 psi^2
	clear := func(g *grp, a *poly.Poly) *poly.Poly {
		E := g.r.e.E
		t := new(big.Int).Neg(blsT)
		t2 := new(big.Int).Mul(t, t)
		k0 := new(big.Int).Sub(new(big.Int).Sub(t2, t), big.NewInt(1))
		k1 := new(big.Int).Sub(t, big.NewInt(1))
		psi := g.sym("psi")
		return E.Sum(E.Scale(a, k0), E.Scale(E.Mul(a, psi), k1), E.Scale(E.Mul(E.Mul(a, psi), psi), big.NewInt(2)))
	}
	for _, l := range []struct {
		name string
		n    int
	}{{"ClearCofactor", 3}, {"G2ClearCofactor", 2}} {
		l := l
		ob(l.name+" multiplies by h_eff", func(g *grp) {
			a := g.base("a")
			g.want(l.name, g.get(g.r.fn(l.name, g.mk(a, l.n)), l.n), clear(g, a))
		})
	}
	// the complete maps
	for _, l := range []struct {
		name  string
		count int
	}{{"EncodeToG2OnJac", 2}, {"EncodeToG2", 2}, {"HashToG2OnJac", 4}, {"HashToG2", 4}} {
		l := l
		ob(l.name, func(g *grp) {
			r := g.r
			msg := make(ai.Arr, 32)
			for i := range msg {
				msg[i] = ai.V(r.m.InputBits(fmt.Sprintf("m%d", i), 8))
			}
			r.over("HashToField", func(m *ai.Machine, a []ai.Value) ai.Value {
				got := m.WiresOf(a[0])
				mustLen("HashToField message", len(got), 32)
				for i, w := range got {
					mustEq(m, fmt.Sprintf("HashToField message byte %d", i), w.P, m.ToWire(msg[i]).P)
				}
				n, ok := a[1].(int64)
				if !ok || n != int64(l.count) {
					Failf("hashes to %s field coordinates, must be %d", ai.Show(a[1]), l.count)
				}
				var s ai.Slice
				for i := 0; i < l.count/2; i++ {
					s = append(s, r.in(r.at(fmt.Sprintf("u%d", i))))
				}
				return s
			})
			r.over("MapElementToCurve2", func(m *ai.Machine, a []ai.Value) ai.Value {
				u, ok := r.out(a[0]).Num.SingleAtom()
				if !ok {
					Failf("maps a value that is not a hashed field element")
				}
				return ai.Tuple{r.inp(r.at("sx:" + u.Name)), r.inp(r.at("sy:" + u.Name))}
			})
			r.over("G2Isogeny", func(m *ai.Machine, a []ai.Value) ai.Value {
				p := r.point(a[0], 2)
				for i := 0; i < l.count/2; i++ {
					if poly.Eq(p.x.Num, r.at(fmt.Sprintf("sx:u%d", i)).Num) && poly.Eq(p.y.Num, r.at(fmt.Sprintf("sy:u%d", i)).Num) {
						return ptr(g.mk(g.base(fmt.Sprint("Q", i)), 2))
					}
				}
				Failf("the isogeny is applied to another point than the mapped one")
				return nil
			})
			h := g.sym("h_eff")
			for _, k := range []struct {
				name string
				n    int
			}{{"ClearCofactor", 3}, {"G2ClearCofactor", 2}} {
				k := k
				r.over(k.name, func(m *ai.Machine, a []ai.Value) ai.Value {
					return ptr(g.mk(r.e.E.Mul(g.get(a[0], k.n), h), k.n))
				})
			}
			want := g.base("Q0")
			if l.count == 4 {
				want = r.e.E.Add(want, g.base("Q1"))
			}
			g.want(l.name, g.get(r.fn(l.name, msg), 2), r.e.E.Mul(want, h))
		})
	}
	c.Floor("multiple", 9)
}
