package rules

import (
	"fmt"
	"math/big"
	"strings"

	"zkcheck/internal/ai"
	"zkcheck/internal/poly"
)

// ---- expand_message_xmd, hash_to_field ----

const blsDST = "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_"

// shaOracle replaces the SHA-256 gadget by an uninterpreted function of the
// bytes written.
type shaOracle struct {
	m    *ai.Machine
	pre  [][]*poly.Poly
	keys map[string]int
	n    int // digest bytes
}

type shaState struct{ msg []*poly.Poly }

func newShaOracle(m *ai.Machine) *shaOracle { return newHashOracle(m, "circuits/gadgets/sha256.", 32) }

func newHashOracle(m *ai.Machine, pkg string, n int) *shaOracle {
	o := &shaOracle{m: m, keys: map[string]int{}, n: n}
	m.Over[pkg+"New"] = func(m *ai.Machine, c *ai.Call) ai.Value { return shaState{} }
	state := func(v ai.Value) (*ai.Value, shaState) {
		p, ok := v.(*ai.Value)
		if !ok {
			m.Undecided("hash state " + ai.Show(v))
		}
		s, ok := (*p).(shaState)
		if !ok {
			m.Undecided("hash state " + ai.Show(*p))
		}
		return p, s
	}
	m.Over[pkg+"(*digest).Reset"] = func(m *ai.Machine, c *ai.Call) ai.Value {
		p, _ := state(c.Args[0])
		*p = shaState{}
		return nil
	}
	m.Over[pkg+"(*digest).Write"] = func(m *ai.Machine, c *ai.Call) ai.Value {
		p, s := state(c.Args[0])
		t := shaState{msg: append([]*poly.Poly(nil), s.msg...)}
		for _, w := range m.WiresOf(c.Args[1]) {
			t.msg = append(t.msg, w.P)
		}
		*p = t
		return ai.Tuple{int64(len(t.msg) - len(s.msg)), ai.NilErr}
	}
	m.Over[pkg+"(*digest).Sum"] = func(m *ai.Machine, c *ai.Call) ai.Value {
		_, s := state(c.Args[0])
		var out ai.Slice
		for _, b := range o.hash(s.msg) {
			out = append(out, ai.V(m.PolyWire(b)))
		}
		return out
	}
	return o
}

// hash returns the digest bytes of msg.
func (o *shaOracle) hash(msg []*poly.Poly) []*poly.Poly {
	var ks []string
	for _, p := range msg {
		ks = append(ks, p.Key())
	}
	k := strings.Join(ks, "|")
	i, ok := o.keys[k]
	if !ok {
		i = len(o.pre)
		o.keys[k] = i
		o.pre = append(o.pre, msg)
	}
	out := make([]*poly.Poly, o.n)
	for j := range out {
		out[j] = o.m.BitsPoly(fmt.Sprintf("H%d.%d", i, j), 8)
	}
	return out
}

// xor of two bytes given by their bits.
func (o *shaOracle) xor(a, b *poly.Poly) *poly.Poly {
	S := o.m.Sp
	var ps []*poly.Poly
	for k := 0; k < 8; k++ {
		x, y := o.m.BitOf(a, k), o.m.BitOf(b, k)
		ps = append(ps, S.Scale(S.Sum(x, y, S.Scale(S.Mul(x, y), big.NewInt(-2))), pow2(k)))
	}
	return S.Sum(ps...)
}

// xmd is RFC 9380 expand_message_xmd with SHA-256.
func (o *shaOracle) xmd(msg []*poly.Poly, dst string, n int) []*poly.Poly {
	S := o.m.Sp
	b := func(vs ...int) (out []*poly.Poly) {
		for _, v := range vs {
			out = append(out, S.Int(int64(v)))
		}
		return
	}
	var prime []*poly.Poly
	for _, c := range []byte(dst) {
		prime = append(prime, S.Int(int64(c)))
	}
	prime = append(prime, S.Int(int64(len(dst))))
	cat := func(xs ...[]*poly.Poly) (out []*poly.Poly) {
		for _, x := range xs {
			out = append(out, x...)
		}
		return
	}
	b0 := o.hash(cat(b(make([]int, 64)...), msg, b(n>>8, n&255, 0), prime))
	cur := o.hash(cat(b0, b(1), prime))
	out := cur
	for i := 2; len(out) < n; i++ {
		x := make([]*poly.Poly, 32)
		for j := range x {
			x[j] = o.xor(b0[j], cur[j])
		}
		cur = o.hash(cat(x, b(i), prime))
		out = append(append([]*poly.Poly(nil), out...), cur...)
	}
	return out[:n]
}

func c15Hash(c *Ctx) {
	setup := func(t *T) (*blsEnv, *shaOracle, ai.Arr, []*poly.Poly) {
		b := newBlsBare(t)
		o := newShaOracle(b.m)
		var msg ai.Arr
		var ps []*poly.Poly
		for i := 0; i < 32; i++ {
			w := b.m.InputBits(fmt.Sprintf("m%d", i), 8)
			msg = append(msg, ai.V(w))
			ps = append(ps, w.P)
		}
		return b, o, msg, ps
	}
	quiet := func(b *blsEnv) {
		for _, k := range b.m.Cons {
			Failf("adds an assertion (%s) that SHA-256 output bytes need not satisfy", k.Kind)
		}
		if len(b.e.Eqs) != 0 {
			Failf("adds emulated assertions")
		}
	}
	counts := []int{1, 2, 4}
	if c.Thorough {
		counts = []int{1, 2, 3, 4, 5, 6, 8}
	}
	for _, n := range c.grid(counts, 1, 9, blsPkg) {
		n := n
		c.Ob("hash", fmt.Sprintf("ExpandMsgXmd for %d field elements", n), func(t *T) {
			b, o, msg, ps := setup(t)
			got := b.m.WiresOf(b.fn("ExpandMsgXmd", msg, int64(n)))
			want := o.xmd(ps, blsDST, 64*n)
			mustLen("ExpandMsgXmd", len(got), len(want))
			for i := range got {
				mustEq(b.m, fmt.Sprintf("uniform byte %d", i), got[i].P, want[i])
			}
			quiet(b)
		})
		if n%2 != 0 {
			continue
		}
		c.Ob("hash", fmt.Sprintf("HashToField of %d coordinates", n), func(t *T) {
			b, o, msg, ps := setup(t)
			v := b.fn("HashToField", msg, int64(n))
			res, ok := v.(ai.Slice)
			if !ok {
				Failf("HashToField returns %s", ai.Show(v))
			}
			mustLen("HashToField", len(res), n/2)
			uni := o.xmd(ps, blsDST, 64*n)
			coord := func(k int) *emuEl {
				var sum []*poly.Poly
				for j, p := range uni[64*k : 64*k+64] {
					sum = append(sum, b.e.E.Scale(b.e.E.Conv(p), pow2(8*(63-j))))
				}
				return b.e.mk(b.e.E.Sum(sum...), nil)
			}
			for i := range res {
				got := b.e.asE2(res[i])
				b.e.same(fmt.Sprintf("u%d, real part", i), got.a, coord(2*i))
				b.e.same(fmt.Sprintf("u%d, imaginary part", i), got.b, coord(2*i+1))
			}
			quiet(b)
		})
	}
	for _, name := range []string{"GetUint64From8Bytes", "Get64BitsFrom8Bytes"} {
		name := name
		c.Ob("hash", name, func(t *T) {
			b := newBlsBare(t)
			var in ai.Arr
			var want []*poly.Poly
			for i := 0; i < 8; i++ {
				in = append(in, ai.V(b.m.InputBits(fmt.Sprintf("v%d", i), 8)))
			}
			for i := 0; i < 64; i++ {
				want = append(want, b.m.Sp.Var(b.m.BitAtom(fmt.Sprintf("v%d", 7-i/8), i%8)))
			}
			v := b.fn(name, in)
			if name == "Get64BitsFrom8Bytes" {
				got := b.m.WiresOf(v)
				mustLen(name, len(got), 64)
				for i := range got {
					mustEq(b.m, fmt.Sprintf("bit %d", i), got[i].P, want[i])
				}
			} else {
				var ps []*poly.Poly
				for i, p := range want {
					ps = append(ps, b.m.Sp.Scale(p, pow2(i)))
				}
				mustEq(b.m, name, b.m.ToWire(v).P, b.m.Sp.Sum(ps...))
			}
			quiet(b)
		})
	}
	c.Ob("hash", "GetRawLimbsBy8Uint64", func(t *T) {
		b := newBlsBare(t)
		var in ai.Arr
		var ps []*poly.Poly
		for i := 0; i < 8; i++ {
			w := b.m.InputBits(fmt.Sprintf("v%d", i), 64)
			in = append(in, ai.V(w))
			ps = append(ps, b.e.E.Scale(b.e.E.Conv(w.P), pow2(64*i)))
		}
		b.e.same("GetRawLimbsBy8Uint64", b.e.el(b.fn("GetRawLimbsBy8Uint64", in)), b.e.mk(b.e.E.Sum(ps...), nil))
		quiet(b)
	})
	c.Floor("hash", 8)
}

// ---- sqrt_ratio ----

// expEl is c u^a v^b with u, v non-zero elements of Fp2.
type expEl struct {
	c    c2
	a, b *big.Int
}

type expHalf struct {
	el *expEl
	im bool
}

// expDom interprets the Fp2 methods on such monomials. The answer to "is it
// one" depends only on u and v modulo eighth powers; ru and rv represent the
// class under consideration.
type expDom struct {
	r      *ringEnv
	ru, rv c2
}

var blsQ1 = new(big.Int).Sub(new(big.Int).Mul(blsP, blsP), big.NewInt(1)) // order of Fp2*

func (d *expDom) in(x *expEl) ai.Value { return ai.Struct{expHalf{x, false}, expHalf{x, true}} }

func (d *expDom) out(v ai.Value) *expEl {
	s := strct(v, 2)
	a, ok := s[0].(expHalf)
	b, ok2 := s[1].(expHalf)
	if ok && ok2 {
		if a.el != b.el || a.im || !b.im {
			Failf("mixes coordinates of different Fp2 values")
		}
		return a.el
	}
	if ok || ok2 {
		Failf("mixes coordinates of different Fp2 values")
	}
	x, y := d.r.e.el(s[0]), d.r.e.el(s[1])
	c0, ok := x.Num.IsConst()
	c1, ok2 := y.Num.IsConst()
	if !ok || !ok2 {
		d.r.m.Undecided("Fp2 value built from separate coordinates")
	}
	return &expEl{c2{mod(c0), mod(c1)}, new(big.Int), new(big.Int)}
}

func (d *expDom) mul(x, y *expEl) *expEl {
	return &expEl{x.c.mul(y.c), new(big.Int).Add(x.a, y.a), new(big.Int).Add(x.b, y.b)}
}

func (d *expDom) inv(x *expEl) *expEl {
	if x.c[0].Sign() == 0 && x.c[1].Sign() == 0 {
		d.r.m.AbortNow("inverse of zero")
	}
	return &expEl{x.c.inv(), new(big.Int).Neg(x.a), new(big.Int).Neg(x.b)}
}

// eighth reports whether x^k depends only on x modulo eighth powers.
func eighth(k *big.Int) bool {
	return new(big.Int).Mod(new(big.Int).Lsh(k, 3), blsQ1).Sign() == 0
}

// value evaluates an element that depends on the classes only.
func (d *expDom) value(x *expEl) c2 {
	if !eighth(x.a) || !eighth(x.b) {
		d.r.m.Undecided("a test whose answer depends on more than the quadratic character")
	}
	red := func(k *big.Int) *big.Int { return new(big.Int).Mod(k, blsQ1) }
	return x.c.mul(d.ru.exp(red(x.a))).mul(d.rv.exp(red(x.b)))
}

func newExpDom(r *ringEnv, ru, rv c2) *expDom {
	d := &expDom{r, ru, rv}
	e := r.e
	un := func(name string, f func(x *expEl) *expEl) {
		r.over("ext2."+name, func(m *ai.Machine, a []ai.Value) ai.Value {
			e.use(a[0])
			return ptr(d.in(f(d.out(a[0]))))
		})
	}
	bin := func(name string, f func(x, y *expEl) *expEl) {
		r.over("ext2."+name, func(m *ai.Machine, a []ai.Value) ai.Value {
			e.use(a[0])
			e.use(a[1])
			return ptr(d.in(f(d.out(a[0]), d.out(a[1]))))
		})
	}
	bin("Mul", d.mul)
	bin("Div", func(x, y *expEl) *expEl { return d.mul(x, d.inv(y)) })
	un("Square", func(x *expEl) *expEl { return d.mul(x, x) })
	un("Inverse", d.inv)
	un("Neg", func(x *expEl) *expEl { return &expEl{x.c.neg(), x.a, x.b} })
	r.over("ext2.One", func(m *ai.Machine, a []ai.Value) ai.Value {
		return ptr(d.in(&expEl{c2i(1, 0), new(big.Int), new(big.Int)}))
	})
	for _, n := range []string{"Add", "Sub", "Double", "Conjugate", "Zero", "MulByElement"} {
		n := n
		r.over("ext2."+n, func(m *ai.Machine, a []ai.Value) ai.Value {
			m.Undecided(n + " in a multiplicative computation")
			return nil
		})
	}
	r.over("ext2.Select", func(m *ai.Machine, a []ai.Value) ai.Value {
		b, ok := m.ToWire(a[0]).P.IsConst()
		if !ok {
			m.Undecided("selector is not determined")
		}
		i := 2
		if b.Sign() != 0 {
			if b.Cmp(big.NewInt(1)) != 0 {
				m.AbortNow("selector constant is not boolean")
			}
			i = 1
		}
		return ptr(d.in(d.out(a[i])))
	})
	bit := func(b bool) ai.Value {
		if b {
			return ai.V(r.m.ConstI(1))
		}
		return ai.V(r.m.ConstI(0))
	}
	eq := func(x, y c2) bool { return x[0].Cmp(y[0]) == 0 && x[1].Cmp(y[1]) == 0 }
	r.over("E2NotOne", func(m *ai.Machine, a []ai.Value) ai.Value { return bit(!eq(d.value(d.out(a[0])), c2i(1, 0))) })
	r.over("E2NotZero", func(m *ai.Machine, a []ai.Value) ai.Value { return bit(!eq(d.out(a[0]).c, c2i(0, 0))) })
	r.over("E2NotEqual", func(m *ai.Machine, a []ai.Value) ai.Value {
		return bit(!eq(d.value(d.mul(d.out(a[0]), d.inv(d.out(a[1])))), c2i(1, 0)))
	})
	return d
}

var sswuZ = c2i(-2, -1)

func c15Sqrt(c *Ctx) {
	// (u, v) modulo eighth powers: 64 classes generated by the non-square Z
	for i := 0; i < 8; i++ {
		i := i
		c.Ob("sqrt", fmt.Sprintf("g2SqrtRatio, u = Z^%d times an eighth power", i), func(t *T) {
			for j := 0; j < 8; j++ {
				r := newRing(t, &forks{keys: map[string]bool{}})
				ru, rv := sswuZ.exp(big.NewInt(int64(i))), sswuZ.exp(big.NewInt(int64(j)))
				d := newExpDom(r, ru, rv)
				one, zero := big.NewInt(1), new(big.Int)
				u, v := &expEl{c2i(1, 0), one, zero}, &expEl{c2i(1, 0), zero, one}
				tup, ok := r.fn("g2SqrtRatio", ptr(d.in(u)), ptr(d.in(v))).(ai.Tuple)
				if !ok || len(tup) != 2 {
					Failf("g2SqrtRatio does not return a root and a flag")
				}
				z := d.out(tup[0])
				flag, ok := r.m.ToWire(tup[1]).P.IsConst()
				if !ok {
					Failf("the flag does not follow from the quadratic characters of u and v")
				}
				nonsq := int64((i + j) % 2)
				if flag.Cmp(big.NewInt(nonsq)) != 0 {
					Failf("v = Z^%d w: the non-square flag is %s", j, flag)
				}
				// z^2 v / u must be 1 or Z
				got := d.mul(d.mul(z, z), d.mul(v, d.inv(u)))
				if !eighth(got.a) || !eighth(got.b) {
					Failf("v = Z^%d w: z^2 v/u = c u^%s v^%s varies with u and v", j, clip(got.a.String()), clip(got.b.String()))
				}
				want := c2i(1, 0)
				if nonsq == 1 {
					want = sswuZ
				}
				if x := d.value(got); x[0].Cmp(want[0]) != 0 || x[1].Cmp(want[1]) != 0 {
					Failf("v = Z^%d w: z^2 v/u = %s + %s u, must be %s + %s u", j, x[0], x[1], want[0], want[1])
				}
				if len(r.m.Cons)+len(r.e.Eqs) != 0 {
					Failf("adds assertions")
				}
			}
		})
	}
	ks := []string{"0", "1", "2", "3", "4", "5", "7", "8", "255", "256", "257", "65536", "18446744073709551615", "18446744073709551616",
		"-1", "-2", "-7", "-18446744073709551617", blsP.String(), blsQ1.String()}
	for _, s := range ks {
		k, _ := new(big.Int).SetString(s, 10)
		c.Ob("sqrt", "E2Exp, exponent "+clipN(s, 24), func(t *T) {
			r := newRing(t, &forks{keys: map[string]bool{}})
			d := newExpDom(r, c2i(1, 0), c2i(1, 0))
			u := &expEl{c2i(1, 0), big.NewInt(1), new(big.Int)}
			got := d.out(r.fn("E2Exp", d.in(u), ptr(ai.BigInt{P: r.m.Z.Const(k)})))
			if got.a.Cmp(k) != 0 || got.b.Sign() != 0 || got.c[0].Cmp(big.NewInt(1)) != 0 || got.c[1].Sign() != 0 {
				Failf("computes x^%s", clip(got.a.String()))
			}
			if len(r.m.Cons)+len(r.e.Eqs) != 0 {
				Failf("adds assertions")
			}
		})
	}
	c.Floor("sqrt", 8+len(ks))
}

func clipN(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("... (%d digits)", len(s))
	}
	return s
}

// ---- simplified SWU and the isogeny ----

// fp2coeffs writes p as a polynomial over Fp2: its constants of Fp2 are
// evaluated. rew may rewrite the list of indeterminates of a monomial.
func (r *ringEnv) fp2coeffs(p *poly.Poly, rew func(ats []*poly.Atom) ([]*poly.Atom, c2)) map[string]c2 {
	out := map[string]c2{}
	for _, t := range p.T {
		c := c2{mod(t.C), new(big.Int)}
		var rest []*poly.Atom
		for _, a := range t.M.Ats {
			if k, ok := r.konst[strings.TrimPrefix(a.Name, "const:")]; ok && strings.HasPrefix(a.Name, "const:") {
				c = c.mul(k)
			} else {
				rest = append(rest, a)
			}
		}
		if rew != nil {
			var k c2
			rest, k = rew(rest)
			c = c.mul(k)
		}
		var ks []string
		for _, a := range rest {
			ks = append(ks, a.Name)
		}
		k := strings.Join(ks, " ")
		if o, ok := out[k]; ok {
			c = c2{mod(new(big.Int).Add(o[0], c[0])), mod(new(big.Int).Add(o[1], c[1]))}
		}
		out[k] = c
		if c[0].Sign() == 0 && c[1].Sign() == 0 {
			delete(out, k)
		}
	}
	return out
}

// sameFp2 demands equality as rational functions over Fp2.
func (r *ringEnv) sameFp2(what string, got, want *emuEl, rew func([]*poly.Atom) ([]*poly.Atom, c2)) {
	if !r.eqFp2(got, want, rew) {
		Failf("%s: computes %s, must be %s", what, r.e.show(got), r.e.show(want))
	}
}

func (r *ringEnv) eqFp2(got, want *emuEl, rew func([]*poly.Atom) ([]*poly.Atom, c2)) bool {
	e := r.e
	return len(r.fp2coeffs(e.E.Sub(e.mulP(got.Num, want.Den), e.mulP(want.Num, got.Den)), rew)) == 0
}

func c15Map(c *Ctx, ring func(string, string, func(*ringEnv))) {
	c15Sqrt(c)
	hex := func(s string) *big.Int { x, _ := new(big.Int).SetString(s, 16); return x }
	A, B := c2i(0, 240), c2i(1012, 1012)
	k13 := hex("171d6541fa38ccfaed6dea691f5fb614cb14b4e7f4e810aa22d6108f142b85757098e38d0f671c7188e2aaaaaaaa5ed1")
	k33 := hex("124c9ad43b6cf79bfbf7043de3811ad0761b0f37a1e26286b0e977c69aa274524e79097a56dc4bd9e1b371c71c718b10")

	ring("map", "MapElementToCurve2", func(r *ringEnv) {
		e := r.e
		u := r.at("u")
		mul := func(xs ...*emuEl) *emuEl {
			p := r.int(1)
			for _, x := range xs {
				p = e.mul(p, x)
			}
			return p
		}
		z := r.at("sqrt")
		var ratio *emuEl
		nonsq := false
		r.over("g2SqrtRatio", func(m *ai.Machine, a []ai.Value) ai.Value {
			if ratio != nil {
				Failf("takes two square roots")
			}
			n, d := r.out(a[0]), r.out(a[1])
			ratio = e.div(n, d)
			nonsq = r.f.ask("nonsquare", "gx1 is no square")
			if nonsq {
				return ai.Tuple{r.inp(z), ai.V(m.ConstI(1))}
			}
			return ai.Tuple{r.inp(z), ai.V(m.ConstI(0))}
		})
		// sgn0(-y) = 1 - sgn0(y)
		sgn := func(x *emuEl) bool {
			if len(x.Num.T) == 0 {
				return false
			}
			k := x.Num.Key() + "/" + x.Den.Key()
			n := e.E.Scale(x.Num, big.NewInt(-1)).Key() + "/" + x.Den.Key()
			if v, ok := r.f.keys["sgn:"+n]; ok {
				return !v
			}
			return r.f.ask("sgn:"+k, "sgn0("+e.show(x)+")")
		}
		r.over("g2Sgn0", func(m *ai.Machine, a []ai.Value) ai.Value {
			if sgn(r.out(a[0])) {
				return ai.V(m.ConstI(1))
			}
			return ai.V(m.ConstI(0))
		})
		tup, ok := r.fn("MapElementToCurve2", r.in(u)).(ai.Tuple)
		if !ok || len(tup) != 2 {
			Failf("does not return two coordinates")
		}
		x, y := r.out(tup[0]), r.out(tup[1])
		if ratio == nil {
			Failf("takes no square root")
		}
		// RFC 9380 6.6.2
		zu := mul(r.k(sswuZ), u, u)
		tv := e.add(mul(zu, zu), zu)
		var x1 *emuEl
		var rew func([]*poly.Atom) ([]*poly.Atom, c2)
		if r.nz(tv) {
			x1 = e.div(mul(r.int(-1), r.k(B), e.add(tv, r.int(1))), mul(r.k(A), tv))
		} else {
			x1 = e.div(r.k(B), mul(r.k(A), r.k(sswuZ)))
			// Z^2 u^4 = -Z u^2
			ua, _ := u.Num.SingleAtom()
			rew = func(ats []*poly.Atom) ([]*poly.Atom, c2) {
				n, k := 0, c2i(1, 0)
				var rest []*poly.Atom
				for _, a := range ats {
					if a == ua {
						n++
					} else {
						rest = append(rest, a)
					}
				}
				for n >= 4 {
					n -= 2
					k = k.mul(sswuZ.inv().neg())
				}
				for ; n > 0; n-- {
					rest = append(rest, ua)
				}
				return rest, k
			}
		}
		gx1 := e.add(e.add(mul(x1, x1, x1), mul(r.k(A), x1)), r.k(B))
		r.sameFp2("the argument of the square root", ratio, gx1, rew)
		wx, wy := x1, z
		if nonsq {
			wx, wy = mul(zu, x1), mul(zu, u, z)
		}
		r.sameFp2("x", x, wx, rew)
		if !r.eqFp2(y, wy, rew) {
			r.sameFp2("y", e.mul(r.int(-1), y), wy, rew)
		}
		if sgn(y) != sgn(u) {
			Failf("sgn0(y) differs from sgn0(u)")
		}
	})
	ring("map", "G2Isogeny", func(r *ringEnv) {
		e := r.e
		p := r.aff("p")
		q := r.point(r.fn("G2Isogeny", ptr(r.pt(p))), 2)
		xa, _ := p.x.Num.SingleAtom()
		ya, _ := p.y.Num.SingleAtom()
		count := func(ats []*poly.Atom, a *poly.Atom) (n int) {
			for _, b := range ats {
				if a == b {
					n++
				}
			}
			return
		}
		deg := func(p *poly.Poly, a *poly.Atom) (lo, hi int) {
			lo = 1 << 20
			for _, t := range p.T {
				n := count(t.M.Ats, a)
				if n < lo {
					lo = n
				}
				if n > hi {
					hi = n
				}
			}
			return
		}
		_, h1 := deg(q.x.Num, ya)
		_, h2 := deg(q.x.Den, ya)
		_, h3 := deg(q.y.Den, ya)
		lo, hi := deg(q.y.Num, ya)
		if h1 != 0 || h2 != 0 || h3 != 0 || lo != 1 || hi != 1 {
			Failf("the image is not (r(x), y s(x))")
		}
		s := e.mk(e.E.Subst(q.y.Num, func(a *poly.Atom) *poly.Poly {
			if a == ya {
				return e.E.Int(1)
			}
			return e.E.Var(a)
		}), q.y.Den)
		x := p.x
		fx := e.add(e.add(e.mul(x, e.mul(x, x)), e.mul(r.k(A), x)), r.k(B))
		lhs := e.mul(fx, e.mul(s, s))
		rhs := e.add(e.mul(q.x, e.mul(q.x, q.x)), r.k(c2i(4, 4)))
		if !r.eqFp2(lhs, rhs, nil) {
			Failf("the image of a point of E': y^2 = x^3 + 240u x + 1012(1+u) is not on E: y^2 = x^3 + 4(1+u)")
		}
		lead := func(f *emuEl) c2 {
			top := func(p *poly.Poly) c2 {
				best, bk := -1, c2i(0, 0)
				for k, v := range r.fp2coeffs(p, nil) {
					n := 0
					if k != "" {
						n = len(strings.Split(k, " "))
					}
					if n > best {
						best, bk = n, v
					}
				}
				return bk
			}
			return top(f.Num).mul(top(f.Den).inv())
		}
		_ = xa
		if l := lead(q.x); l[0].Cmp(k13) != 0 || l[1].Sign() != 0 {
			Failf("the leading coefficient of X is %s + %s u, RFC 9380 E.3 has k_(1,3)", l[0], l[1])
		}
		if l := lead(s); l[0].Cmp(k33) != 0 || l[1].Sign() != 0 {
			Failf("the leading coefficient of Y is %s + %s u, RFC 9380 E.3 has k_(3,3)", l[0], l[1])
		}
	})
	c.Ob("params", "field parameters", func(t *T) {
		m := t.M(ai.BN254Fr)
		for _, p := range []struct {
			typ   string
			limbs int64
			mod   *big.Int
		}{{"BLS12381Fp", 6, blsP}, {"BLS12381Fr", 4, blsR}} {
			ev := func(meth string) ai.Value { return t.Run(m, blsPkg, p.typ+"."+meth, ai.Struct{}) }
			if n, ok := ev("NbLimbs").(int64); !ok || n != p.limbs {
				Failf("%s.NbLimbs is %s", p.typ, ai.Show(ev("NbLimbs")))
			}
			if n, ok := ev("BitsPerLimb").(int64); !ok || n != 64 {
				Failf("%s.BitsPerLimb is %s", p.typ, ai.Show(ev("BitsPerLimb")))
			}
			if b, ok := ev("IsPrime").(bool); !ok || !b {
				Failf("%s.IsPrime is %s", p.typ, ai.Show(ev("IsPrime")))
			}
			if k, ok := m.BigPoly(ev("Modulus")).IsConst(); !ok || k.Cmp(p.mod) != 0 {
				Failf("%s.Modulus is not the BLS12-381 parameter", p.typ)
			}
		}
	})
	c.Floor("map", 2)
	c.Floor("params", 1)
}
