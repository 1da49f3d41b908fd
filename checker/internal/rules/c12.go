package rules

import (
	"fmt"
	"math/big"

	"zkcheck/internal/ai"
	"zkcheck/internal/poly"
)

func init() {
	register("C12", "Verify of the Ed25519 gadget is abstractly interpreted with SHA-512 uninterpreted (keyed by the exact bytes hashed) and points as elements of the module generated by R, A and the base point. The recorded constraints must include: R and A on the curve, canonical encodings, the key bytes, and the vanishing of 8(R - S*B + h*A) with h the digest of R, A and the message reduced modulo the group order; and nothing that an honest signature violates.", runC12)
}

// edRun is an interpreted Verify.
type edRun struct {
	*edEnv
	R, A   edPt
	S      *ai.Wire
	msg    []*ai.Wire // 5
	pubs   []*ai.Wire // 2
	oracle *shaOracle
}

func edVerify(t *T) *edRun {
	e := newEd(t, ai.BN254Fr)
	e.group()
	m := e.m
	m.Sp.Cap, e.G.Cap = 400000, 400000
	r := &edRun{edEnv: e, oracle: newHashOracle(m, "circuits/gadgets/sha512.", 64)}
	r.R = e.bind(e.in("R"), e.base("R"))
	r.A = e.bind(e.in("A"), e.base("A"))
	b := edPt{e.p.mk(e.p.E.Const(edBx), nil), e.p.mk(e.p.E.Const(edBy), nil)}
	e.bind(b, e.base("B"))
	r.S = m.Input("S")
	for i := 0; i < 5; i++ {
		r.msg = append(r.msg, m.Input(fmt.Sprint("msg", i)))
	}
	for i := 0; i < 2; i++ {
		r.pubs = append(r.pubs, m.Input(fmt.Sprint("pub", i)))
	}
	vals := func(ws []*ai.Wire) (out []ai.Value) {
		for _, w := range ws {
			out = append(out, ai.V(w))
		}
		return
	}
	tu, ok := t.Run(m, edPkg, "NewEd25519", m.APIValue()).(ai.Tuple)
	if !ok || len(tu) != 2 {
		Failf("NewEd25519 does not return a gadget and an error")
	}
	ret := t.Run(m, edPkg, "Ed25519.Verify", tu[0], ai.Slice(vals(r.pubs)),
		ai.Struct{r.R.v(), ai.V(r.S)}, ai.Arr(vals(r.msg)), ai.Struct{r.A.v()})
	if iv, ok := ret.(ai.Iface); !ok || iv.T != nil {
		Failf("Verify returns %s, must return no error", ai.Show(ret))
	}
	return r
}

// width is the number of bits an honest input has (0: not an input).
func (r *edRun) width(p *poly.Poly) int {
	switch {
	case poly.Eq(p, r.S.P):
		return edL.BitLen()
	case poly.Eq(p, r.pubs[0].P), poly.Eq(p, r.pubs[1].P):
		return 128
	}
	for i, w := range r.msg {
		if poly.Eq(p, w.P) {
			if i == 4 {
				return 176
			}
			return 200
		}
	}
	return 0
}

// bytes is the RFC 8032 encoding of a point.
func (r *edRun) bytes(p edPt) []*poly.Poly {
	S := r.m.Sp
	canon := func(x *emuEl) []*poly.Poly {
		y := *x
		y.canon, y.fromBits = true, nil
		return r.p.bits(&y)
	}
	y, x := canon(p.y), canon(p.x)
	out := make([]*poly.Poly, 32)
	for i := range out {
		var ps []*poly.Poly
		for j := 0; j < 8; j++ {
			b := x[0]
			if 8*i+j < 255 {
				b = y[8*i+j]
			}
			ps = append(ps, S.Scale(b, pow2(j)))
		}
		out[i] = S.Sum(ps...)
	}
	return out
}

// be are the n big-endian bytes of a bit input.
func (r *edRun) be(w *ai.Wire, n int) (out []*poly.Poly) {
	for i := n - 1; i >= 0; i-- {
		var ps []*poly.Poly
		for j := 0; j < 8; j++ {
			ps = append(ps, r.m.Sp.Scale(r.m.BitOf(w.P, 8*i+j), pow2(j)))
		}
		out = append(out, r.m.Sp.Sum(ps...))
	}
	return
}

func (r *edRun) onCurvePoly(p edPt) *poly.Poly {
	q := r.p
	xx, yy := q.E.Mul(p.x.Num, p.x.Num), q.E.Mul(p.y.Num, p.y.Num)
	return q.E.Sum(q.E.Sub(yy, xx), q.E.Int(-1), q.E.Scale(q.E.Mul(xx, yy), new(big.Int).Neg(edD)))
}

func (r *edRun) proportional(a, b *poly.Poly) bool {
	if len(a.T) == 0 || len(a.T) != len(b.T) {
		return false
	}
	k := new(big.Int).ModInverse(new(big.Int).Mod(a.T[0].C, edP), edP)
	k.Mul(k, b.T[0].C)
	return poly.Eq(r.p.E.Scale(a, k), b)
}

// zeros are the group elements the recorded equalities force to be neutral
// (all points involved being on the curve, where Y = 1 only at (0, 1)).
func (r *edRun) zeros() (out []*poly.Poly) {
	for i, a := range r.eqs {
		if !a.y {
			continue
		}
		if len(a.a.T) == 0 || len(a.b.T) == 0 {
			out = append(out, r.G.Sub(a.a, a.b))
			continue
		}
		for j, b := range r.eqs {
			if j != i && !b.y && (poly.Eq(a.a, b.a) && poly.Eq(a.b, b.b) || poly.Eq(a.a, b.b) && poly.Eq(a.b, b.a)) {
				out = append(out, r.G.Sub(a.a, a.b))
				break
			}
		}
	}
	return
}

// split separates a group element into the coefficients of its base points.
func (r *edRun) split(g *poly.Poly) map[string]*poly.Poly {
	parts := map[string][]*poly.Poly{}
	for _, t := range g.T {
		name := ""
		c := r.G.Const(t.C)
		for _, a := range t.M.Ats {
			if a.Kind == "base" {
				if name != "" {
					Failf("internal: product of points")
				}
				name = a.Name
			} else {
				c = r.G.Mul(c, r.G.Var(a))
			}
		}
		parts[name] = append(parts[name], c)
	}
	out := map[string]*poly.Poly{}
	for n, ps := range parts {
		out[n] = r.G.Sum(ps...)
	}
	return out
}

// modL rewrites an integer coefficient modulo the group order, replacing the
// bits of every emulated scalar by the scalar's value.
func (r *edRun) modL(p *poly.Poly) *poly.Poly {
	E := r.r.E
	byKey := map[string]map[int]*big.Int{}
	var rest []*poly.Poly
	for _, t := range p.T {
		if len(t.M.Ats) == 1 && t.M.Ats[0].Kind == "xbit" {
			a := t.M.Ats[0]
			k := a.Key[:len(a.Key)-len(fmt.Sprintf(":%d", a.N))]
			if r.r.bitsOf[k] != nil {
				if byKey[k] == nil {
					byKey[k] = map[int]*big.Int{}
				}
				byKey[k][a.N] = t.C
				continue
			}
		}
		q := E.Const(t.C)
		for _, a := range t.M.Ats {
			q = E.Mul(q, E.Var(a))
		}
		rest = append(rest, q)
	}
	for k, ws := range byKey {
		c := ws[0]
		for i := 0; i < edL.BitLen(); i++ {
			if c == nil || ws[i] == nil || ws[i].Cmp(new(big.Int).Lsh(c, uint(i))) != 0 {
				Failf("bit %d of a reduced scalar does not have its weight in the scalar multiplication", i)
			}
		}
		x := r.r.bitsOf[k]
		if d, ok := x.Den.IsConst(); !ok || d.Cmp(big.NewInt(1)) != 0 {
			Failf("the scalar is a quotient")
		}
		rest = append(rest, E.Scale(x.Num, c))
	}
	return E.Sum(rest...)
}

func runC12(c *Ctx) {
	ob := func(rule, what string, f func(r *edRun)) {
		c.Ob(rule, what, func(t *T) { f(edVerify(t)) })
	}
	for _, p := range []string{"R", "A"} {
		p := p
		ob("on-curve", p+" is asserted to be a point of the curve", func(r *edRun) {
			pt := r.R
			if p == "A" {
				pt = r.A
			}
			ok := r.curveO[p]
			for _, q := range r.p.Eqs {
				ok = ok || r.proportional(q.P, r.onCurvePoly(pt))
			}
			if !ok {
				Failf("no constraint keeps %s on the curve: the group law says nothing about other pairs", p)
			}
		})
	}
	c.Floor("on-curve", 2)

	ob("hash", "SHA-512 of R, A and the message", func(r *edRun) {
		var want []*poly.Poly
		want = append(want, r.bytes(r.R)...)
		want = append(want, r.bytes(r.A)...)
		for i, w := range r.msg {
			n := 25
			if i == 4 {
				n = 22
			}
			want = append(want, r.be(w, n)...)
		}
		if len(r.oracle.pre) != 1 {
			Failf("%d digests are computed, must be 1", len(r.oracle.pre))
		}
		got := r.oracle.pre[0]
		mustLen("the hashed message", len(got), len(want))
		for i := range want {
			mustEq(r.m, fmt.Sprintf("hashed byte %d (R: 0-31, A: 32-63, message: 64-185)", i), got[i], want[i])
		}
	})
	c.Floor("hash", 1)

	ob("key", "A is the claimed public key", func(r *edRun) {
		got := r.bytes(r.A)
		claimed := append(r.be(r.pubs[0], 16), r.be(r.pubs[1], 16)...)
		// the bytes (their little-endian combinations also do) are asserted equal
		want := map[string]int{}
		for i := range got {
			d := r.m.Sp.Sub(got[i], claimed[i])
			want[d.Key()], want[r.m.Sp.Scale(d, big.NewInt(-1)).Key()] = i, i
		}
		seen := map[int]bool{}
		for _, k := range r.m.Cons {
			if k.Kind != "eq" {
				continue
			}
			if i, ok := want[k.P.Key()]; ok {
				seen[i] = true
				continue
			}
			if r.byteSum(k.P, got, claimed, seen) {
				continue
			}
			Failf("asserts %s = 0, which is not an equality of public key bytes", clip(r.m.Sp.String(k.P)))
		}
		for i := range got {
			if !seen[i] {
				Failf("byte %d of the encoding of A is not asserted to equal the claimed key", i)
			}
		}
	})
	ob("key", "the message and key limbs are in range", func(r *edRun) {
		for _, w := range append(append([]*ai.Wire(nil), r.msg...), r.pubs...) {
			ok := false
			for _, k := range r.m.Cons {
				ok = ok || k.Kind == "range" && poly.Eq(k.P, w.P) && k.N == r.width(w.P)
			}
			if !ok {
				Failf("%s is not asserted to fit the %d bits that are used: several inputs share one signature", r.m.Sp.String(w.P), r.width(w.P))
			}
		}
	})
	ob("key", "no other native constraint can fail for an honest prover", func(r *edRun) {
		for _, k := range r.m.Cons {
			switch k.Kind {
			case "eq", "bool":
				continue
			case "range":
				if r.m.RangeKnown(k.P, k.N) {
					continue
				}
				if n := r.width(k.P); n > 0 && k.N >= n {
					continue
				}
			}
			Failf("%s constraint on %s may refuse an honest signature", k.Kind, clip(r.m.Sp.String(k.P)))
		}
	})
	c.Floor("key", 3)

	ob("equation", "8(R - S B + h A) is asserted to be the neutral element", func(r *edRun) {
		zs := r.zeros()
		if len(zs) == 0 {
			Failf("no group equation is asserted")
		}
		E := r.r.E
		h := func() *poly.Poly {
			var ps []*poly.Poly
			if len(r.oracle.pre) != 1 {
				Failf("%d digests", len(r.oracle.pre))
			}
			for i, b := range r.oracle.hash(r.oracle.pre[0]) {
				ps = append(ps, E.Scale(E.Conv(b), pow2(8*i)))
			}
			return E.Sum(ps...)
		}()
		var sp []*poly.Poly
		for i := 0; i < r.m.Sp.Mod.BitLen(); i++ {
			sp = append(sp, E.Scale(E.Conv(r.m.BitOf(r.S.P, i)), pow2(i)))
		}
		s := E.Sum(sp...)
		holds := func(z *poly.Poly) {
			cs := r.split(z)
			for n := range cs {
				if n != "R" && n != "A" && n != "B" {
					Failf("the asserted group element involves %s", n)
				}
				for _, t := range cs[n].T {
					if new(big.Int).Mod(t.C, big.NewInt(8)).Sign() != 0 {
						Failf("the group equation is not multiplied by the cofactor 8")
					}
				}
			}
			cr := cs["R"]
			if cr == nil {
				Failf("R does not occur in the group equation")
			}
			k, ok := cr.IsConst()
			if !ok || new(big.Int).Abs(k).Cmp(big.NewInt(8)) != 0 {
				Failf("R has coefficient %s in the group equation, must be 8", r.show(cr))
			}
			get := func(n string) *poly.Poly {
				if cs[n] == nil {
					Failf("%s does not occur in the group equation", n)
				}
				return r.modL(cs[n])
			}
			if g := get("B"); !poly.Eq(g, E.Scale(s, new(big.Int).Neg(k))) {
				Failf("the base point is not multiplied by S: differs by %s", clip(E.String(E.Add(g, E.Scale(s, k)))))
			}
			if g := get("A"); !poly.Eq(g, E.Scale(h, k)) {
				Failf("A is not multiplied by the challenge: differs by %s", clip(E.String(E.Sub(g, E.Scale(h, k)))))
			}
		}
		for _, z := range zs {
			if len(z.T) > 0 {
				holds(z)
			}
		}
		for _, q := range r.eqs {
			d := r.G.Sub(q.a, q.b)
			ok := len(d.T) == 0
			for _, z := range zs {
				ok = ok || poly.Eq(d, z) || len(r.G.Add(d, z).T) == 0
			}
			if !ok {
				Failf("asserts an equality of coordinates that does not follow from the equation")
			}
		}
	})
	ob("equation", "no emulated constraint can fail for an honest prover", func(r *edRun) {
		for _, q := range r.p.Eqs {
			if len(q.P.T) != 0 && !r.proportional(q.P, r.onCurvePoly(r.R)) && !r.proportional(q.P, r.onCurvePoly(r.A)) {
				Failf("asserts %s = 0 (%s)", clip(r.p.E.String(q.P)), q.Pos)
			}
		}
		if len(r.r.Eqs) != 0 {
			Failf("asserts an equality of scalars (%s)", r.r.Eqs[0].Pos)
		}
	})
	c.Floor("equation", 2)
}

// byteSum recognises one equality of a weighted sum of key bytes (a 128-bit
// half, say): each byte with weight 256^k, k distinct and contiguous.
func (r *edRun) byteSum(p *poly.Poly, got, claimed []*poly.Poly, seen map[int]bool) bool {
	for lo := 0; lo < 32; lo++ {
		for hi := lo + 2; hi <= 32 && hi-lo <= 31; hi++ {
			for _, rev := range []bool{false, true} {
				var ps []*poly.Poly
				for i := lo; i < hi; i++ {
					k := i - lo
					if rev {
						k = hi - 1 - i
					}
					ps = append(ps, r.m.Sp.Scale(r.m.Sp.Sub(got[i], claimed[i]), pow2(8*k)))
				}
				s := r.m.Sp.Sum(ps...)
				if poly.Eq(s, p) || len(r.m.Sp.Add(s, p).T) == 0 {
					for i := lo; i < hi; i++ {
						seen[i] = true
					}
					return true
				}
			}
		}
	}
	return false
}
