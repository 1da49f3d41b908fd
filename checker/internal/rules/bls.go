package rules

import (
	"fmt"
	"math/big"

	"zkcheck/internal/ai"
	"zkcheck/internal/poly"
)

// BLS12-381 reference arithmetic over the rational functions of the analysed
// program's inputs (independent of the repository's formulas).

const blsPkg = "circuits/gadgets/pairing_bls12381"

var (
	blsP, _ = new(big.Int).SetString("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab", 16)
	blsR, _ = new(big.Int).SetString("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001", 16)
	blsT, _ = new(big.Int).SetString("d201000000010000", 16) // |t|; t is negative
)

// c2 is a constant of Fp2.
type c2 [2]*big.Int

func c2i(a, b int64) c2 { return c2{mod(big.NewInt(a)), mod(big.NewInt(b))} }

func mod(x *big.Int) *big.Int { return new(big.Int).Mod(x, blsP) }

func (x c2) mul(y c2) c2 {
	a := new(big.Int).Mul(x[0], y[0])
	a.Sub(a, new(big.Int).Mul(x[1], y[1]))
	b := new(big.Int).Mul(x[0], y[1])
	b.Add(b, new(big.Int).Mul(x[1], y[0]))
	return c2{mod(a), mod(b)}
}

func (x c2) exp(k *big.Int) c2 {
	r := c2i(1, 0)
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.mul(r)
		if k.Bit(i) == 1 {
			r = r.mul(x)
		}
	}
	return r
}

func (x c2) inv() c2 {
	n := new(big.Int).Mul(x[0], x[0])
	n.Add(n, new(big.Int).Mul(x[1], x[1]))
	n.ModInverse(mod(n), blsP)
	return c2{mod(new(big.Int).Mul(x[0], n)), mod(new(big.Int).Neg(new(big.Int).Mul(x[1], n)))}
}

func (x c2) conj() c2 { return c2{x[0], mod(new(big.Int).Neg(x[1]))} }
func (x c2) neg() c2 {
	return c2{mod(new(big.Int).Neg(x[0])), mod(new(big.Int).Neg(x[1]))}
}

var blsXi = c2i(1, 1)

// blsGamma is xi^(k(p^j-1)/6).
func blsGamma(j, k int) c2 {
	e := new(big.Int).Exp(blsP, big.NewInt(int64(j)), nil)
	e.Sub(e, big.NewInt(1))
	e.Mul(e, big.NewInt(int64(k)))
	e.Div(e, big.NewInt(6))
	return blsXi.exp(e)
}

// f2, f6, f12 are elements whose coordinates are rational functions.
type f2 struct{ a, b *emuEl }
type f12 [6]f2 // coefficients of w^k; w^6 = xi

func (e *emuModel) c2(c c2) f2 { return f2{e.mk(e.E.Const(c[0]), nil), e.mk(e.E.Const(c[1]), nil)} }
func (e *emuModel) f2in(name string) f2 {
	return f2{e.input(name + ".0"), e.input(name + ".1")}
}

// f2at is an indeterminate of Fp2 as a whole (ring identities only).
func (e *emuModel) f2at(name string) f2 {
	return f2{e.input(name), e.mk(e.E.Int(0), nil)}
}

func (e *emuModel) f2zero() f2       { return e.c2(c2i(0, 0)) }
func (e *emuModel) f2one() f2        { return e.c2(c2i(1, 0)) }
func (e *emuModel) f2add(x, y f2) f2 { return f2{e.add(x.a, y.a), e.add(x.b, y.b)} }
func (e *emuModel) f2sub(x, y f2) f2 { return f2{e.sub(x.a, y.a), e.sub(x.b, y.b)} }
func (e *emuModel) f2mul(x, y f2) f2 {
	return f2{e.sub(e.mul(x.a, y.a), e.mul(x.b, y.b)), e.add(e.mul(x.a, y.b), e.mul(x.b, y.a))}
}
func (e *emuModel) f2conj(x f2) f2 { return f2{x.a, e.sub(e.mk(e.E.Int(0), nil), x.b)} }
func (e *emuModel) f2scale(x f2, k int64) f2 {
	b := big.NewInt(k)
	return f2{e.mk(e.E.Scale(x.a.Num, b), x.a.Den), e.mk(e.E.Scale(x.b.Num, b), x.b.Den)}
}
func (e *emuModel) f2neg(x f2) f2 { return e.f2scale(x, -1) }

func (e *emuModel) f12mul(x, y f12) f12 {
	var z f12
	for i := range z {
		z[i] = e.f2zero()
	}
	xi := e.c2(blsXi)
	for i := range x {
		for j := range y {
			if len(x[i].a.Num.T)+len(x[i].b.Num.T) == 0 || len(y[j].a.Num.T)+len(y[j].b.Num.T) == 0 {
				continue
			}
			p := e.f2mul(x[i], y[j])
			k := i + j
			if k >= 6 {
				k -= 6
				p = e.f2mul(p, xi)
			}
			z[k] = e.f2add(z[k], p)
		}
	}
	return z
}

func (e *emuModel) f12in(name string) f12 {
	var z f12
	for i := range z {
		z[i] = e.f2in(fmt.Sprintf("%s.w%d", name, i))
	}
	return z
}

func (e *emuModel) f12zero() f12 {
	var z f12
	for i := range z {
		z[i] = e.f2zero()
	}
	return z
}

func (e *emuModel) f12one() f12 {
	z := e.f12zero()
	z[0] = e.f2one()
	return z
}

// frob is x^(p^j).
func (e *emuModel) f12frob(x f12, j int) f12 {
	var z f12
	for k := range x {
		c := x[k]
		if j%2 == 1 {
			c = e.f2conj(c)
		}
		z[k] = e.f2mul(c, e.c2(blsGamma(j, k)))
	}
	return z
}

// ---- conversion from and to the analysed program's values ----

func (e *emuModel) e2(x f2) ai.Value { return ai.Struct{x.a, x.b} }
func (e *emuModel) e6(x, y, z f2) ai.Value {
	return ai.Struct{e.e2(x), e.e2(y), e.e2(z)}
}
func (e *emuModel) e12(x f12) ai.Value {
	return ai.Struct{e.e6(x[0], x[2], x[4]), e.e6(x[1], x[3], x[5])}
}

func ptr(v ai.Value) ai.Value {
	c := new(ai.Value)
	*c = v
	return c
}

func strct(v ai.Value, n int) ai.Struct {
	if p, ok := v.(*ai.Value); ok {
		if p == nil {
			Failf("result is nil")
		}
		v = *p
	}
	s, ok := v.(ai.Struct)
	if !ok || len(s) != n {
		Failf("result is %s, not a struct of %d fields", ai.Show(v), n)
	}
	return s
}

func (e *emuModel) asE2(v ai.Value) f2 {
	s := strct(v, 2)
	return f2{e.el(s[0]), e.el(s[1])}
}

func (e *emuModel) asE6(v ai.Value) [3]f2 {
	s := strct(v, 3)
	return [3]f2{e.asE2(s[0]), e.asE2(s[1]), e.asE2(s[2])}
}

func (e *emuModel) asE12(v ai.Value) f12 {
	s := strct(v, 2)
	a, b := e.asE6(s[0]), e.asE6(s[1])
	return f12{a[0], b[0], a[1], b[1], a[2], b[2]}
}

func (e *emuModel) same2(what string, got, want f2) {
	e.same(what+", real part", got.a, want.a)
	e.same(what+", imaginary part", got.b, want.b)
}

func (e *emuModel) same12(what string, got, want f12) {
	for k := range got {
		e.same2(fmt.Sprintf("%s, coefficient of w^%d", what, k), got[k], want[k])
	}
}

// blsEnv is one analysed instance of the tower.
type blsEnv struct {
	t           *T
	m           *ai.Machine
	e           *emuModel
	x2, x6, x12 ai.Value // *ext2, *ext6, *ext12
}

func newBls(t *T) *blsEnv {
	b := newBlsBare(t)
	b.x12 = b.t.Run(b.m, blsPkg, "NewExt12", ptr(&ai.Ext{Type: "field"}))
	b.x6 = strct(b.x12, 1)[0]
	b.x2 = strct(b.x6, 1)[0]
	if len(b.m.Cons) != 0 || len(b.e.Eqs) != 0 {
		Failf("building the tower adds constraints")
	}
	return b
}

func newBlsBare(t *T) *blsEnv {
	m := t.M(ai.BN254Fr)
	e := newEmu(m, blsP)
	m.Sp.Cap, e.E.Cap = 400000, 400000
	fpEl := "github.com/consensys/gnark-crypto/ecc/bls12-381/fp.(*Element)."
	set := func(v ai.Value, x *emuEl) ai.Value {
		p := v.(*ai.Value)
		*p = x
		return p
	}
	m.Over[fpEl+"SetString"] = func(m *ai.Machine, c *ai.Call) ai.Value {
		return ai.Tuple{set(c.Args[0], e.valueOf(c.Args[1])), ai.NilErr}
	}
	m.Over[fpEl+"Square"] = func(m *ai.Machine, c *ai.Call) ai.Value {
		x := e.valueOf(c.Args[1])
		return set(c.Args[0], e.mul(x, x))
	}
	m.Over[fpEl+"Mul"] = func(m *ai.Machine, c *ai.Call) ai.Value {
		return set(c.Args[0], e.mul(e.valueOf(c.Args[1]), e.valueOf(c.Args[2])))
	}
	return &blsEnv{t: t, m: m, e: e}
}

// recv is the receiver value for a method of the tower.
func (b *blsEnv) recv(typ, meth string) ai.Value {
	f := b.m.Func(blsPkg, typ+"."+meth)
	if f == nil {
		Failf("anchor %s.%s not found", typ, meth)
	}
	var p ai.Value
	switch typ {
	case "ext2":
		p = b.x2
	case "ext6":
		p = b.x6
	case "ext12":
		p = b.x12
	case "Pairing":
		p = ptr(ai.Struct{b.x12})
	}
	if f.Signature.Recv() != nil && !isPointer(f.Signature.Recv().Type()) {
		return *(p.(*ai.Value))
	}
	return p
}

func (b *blsEnv) call(typ, meth string, args ...ai.Value) ai.Value {
	return b.t.Run(b.m, blsPkg, typ+"."+meth, append([]ai.Value{b.recv(typ, meth)}, args...)...)
}

func (b *blsEnv) p2(x f2) ai.Value   { return ptr(b.e.e2(x)) }
func (b *blsEnv) p12(x f12) ai.Value { return ptr(b.e.e12(x)) }
func (b *blsEnv) p6(x [3]f2) ai.Value {
	return ptr(b.e.e6(x[0], x[1], x[2]))
}

func blsName(meth string) string {
	return blsPkg + "." + meth
}

// ---- linear span membership ----

type span struct {
	e    *emuModel
	rows []*poly.Poly
	lead []*poly.Mono
}

func (s *span) reduce(p *poly.Poly) *poly.Poly {
	for i, r := range s.rows {
		for _, t := range p.T {
			if t.M == s.lead[i] {
				p = s.e.E.AddScaled(p, r, new(big.Int).Neg(t.C))
				break
			}
		}
	}
	return p
}

func (s *span) add(p *poly.Poly) {
	p = s.reduce(p)
	if len(p.T) == 0 {
		return
	}
	c := new(big.Int).ModInverse(new(big.Int).Mod(p.T[0].C, s.e.E.Mod), s.e.E.Mod)
	p = s.e.E.Scale(p, c)
	s.rows = append(s.rows, p)
	s.lead = append(s.lead, p.T[0].M)
}

func (s *span) has(p *poly.Poly) bool { return len(s.reduce(p).T) == 0 }

// cyclotomic returns the linear span of the quadratic relations satisfied by
// every element x with x^(p^4-p^2+1) = 1.
func (b *blsEnv) cyclotomic(x f12) *span {
	e := b.e
	s := &span{e: e}
	l := e.f12mul(x, e.f12frob(x, 4))
	r := e.f12frob(x, 2)
	u := e.f12mul(x, e.f12frob(x, 6))
	one := e.f12one()
	for k := range l {
		d, g := e.f2sub(l[k], r[k]), e.f2sub(u[k], one[k])
		for _, p := range []*emuEl{d.a, d.b, g.a, g.b} {
			s.add(p.Num)
		}
	}
	return s
}
