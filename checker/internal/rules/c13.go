package rules

import (
	"math/big"
	"strings"

	"zkcheck/internal/ai"
	"zkcheck/internal/poly"
)

const edPkg = "circuits/gadgets/ed25519"

func init() {
	register("C13", "Addition, doubling and negation of the Ed25519 gadget are abstractly interpreted over the rational functions of two symbolic points and must equal the twisted Edwards group law modulo the curve equation, with divisors that cannot vanish on the curve and no operand of a deferred check overwritten. Scalar multiplications are interpreted in the module generated by their base points (every symbolic scalar bit must carry its weight). The parameters are evaluated from the code and compared with their definitions.", runC13)
}

var (
	edP    = new(big.Int).Sub(pow2(255), big.NewInt(19))
	edL, _ = new(big.Int).SetString("27742317777372353535851937790883648493", 10)
	edD    *big.Int
	edBx   *big.Int
	edBy   *big.Int
)

func init() {
	edL.Add(edL, pow2(252))
	inv := func(k int64) *big.Int { return new(big.Int).ModInverse(big.NewInt(k), edP) }
	mul := func(a, b *big.Int) *big.Int { c := new(big.Int).Mul(a, b); return c.Mod(c, edP) }
	edD = mul(big.NewInt(-121665), inv(121666))
	edBy = mul(big.NewInt(4), inv(5))
	// x^2 = (y^2-1)/(d y^2+1), x even
	yy := mul(edBy, edBy)
	n := new(big.Int).Sub(yy, big.NewInt(1))
	d := new(big.Int).Add(mul(edD, yy), big.NewInt(1))
	xx := mul(n, new(big.Int).ModInverse(d, edP))
	edBx = new(big.Int).ModSqrt(xx, edP)
	if edBx.Bit(0) == 1 {
		edBx.Sub(edP, edBx)
	}
}

// edEnv: a machine with both emulated fields of the gadget.
type edEnv struct {
	t     *T
	m     *ai.Machine
	p, r  *emuModel
	curve ai.Value

	// group domain
	G      *poly.Space // points as combinations of base points, coefficients integers
	coords map[string]edCoord
	curveO map[string]bool // base points asserted to be on the curve
	eqs    []edEq
}

// edEq: the X (Y) coordinates of two group elements are asserted equal.
type edEq struct {
	a, b *poly.Poly
	y    bool
}

type edCoord struct {
	g *poly.Poly
	y bool
}

func newEd(t *T, mod *big.Int) *edEnv {
	m := t.M(mod)
	e := &edEnv{t: t, m: m, coords: map[string]edCoord{}, curveO: map[string]bool{}}
	bits := func(name string) int {
		v, ok := t.Run(m, edPkg, name+".BitsPerLimb", ai.Struct{}).(int64)
		if !ok || v < 3 || v > 120 {
			Failf("%s.BitsPerLimb is %s", name, ai.Show(v))
		}
		return int(v)
	}
	wp, wr := bits("Ed25519Fp"), bits("Ed25519Fr")
	e.p = newEmuField(m, edP, "Ed25519Fp", wp)
	e.r = newEmuField(m, edL, "Ed25519Fr", wr)
	e.r.tight, e.p.tight = true, true
	e.r.bitsOf = map[string]*emuEl{}
	m.Sp.Cap, e.p.E.Cap = 200000, 200000
	e.G = m.Sp.Over(new(big.Int).Sub(pow2(2203), big.NewInt(1)))
	return e
}

func (e *edEnv) newCurve() {
	tu, ok := e.t.Run(e.m, edPkg, "newEdCurve", e.m.APIValue()).(ai.Tuple)
	if !ok || len(tu) != 2 {
		Failf("newEdCurve does not return a curve and an error")
	}
	if err, ok := tu[1].(ai.Iface); ok && err.T != nil {
		Failf("newEdCurve fails")
	}
	iv, ok := tu[0].(ai.Iface)
	if !ok {
		Failf("newEdCurve returns %s", ai.Show(tu[0]))
	}
	e.curve = iv.V
}

func (e *edEnv) call(meth string, args ...ai.Value) ai.Value {
	return e.t.Run(e.m, edPkg, "curve."+meth, append([]ai.Value{e.curve}, args...)...)
}

type edPt struct{ x, y *emuEl }

func (e *edEnv) in(name string) edPt {
	return edPt{e.p.input(name + ".x"), e.p.input(name + ".y")}
}
func (p edPt) v() ai.Value { return ai.Struct{p.x, p.y} }

func (e *edEnv) pt(v ai.Value) edPt {
	s := strct(v, 2)
	return edPt{e.p.el(s[0]), e.p.el(s[1])}
}

// law is the sum of two points.
func (e *edEnv) law(a, b edPt) edPt {
	q := e.p
	one, d := q.konst(1), q.mk(q.E.Const(edD), nil)
	x1y2, x2y1 := q.mul(a.x, b.y), q.mul(b.x, a.y)
	w := q.mul(d, q.mul(x1y2, x2y1))
	return edPt{
		q.div(q.add(x1y2, x2y1), q.add(one, w)),
		q.div(q.add(q.mul(a.y, b.y), q.mul(a.x, b.x)), q.sub(one, w)),
	}
}

// onCurve reduces a polynomial in the coordinates of the named points modulo
// their curve equations: y^2 = (1+x^2)/(1-d x^2). Every y is cleared k times.
func (e *edEnv) onCurve(p *poly.Poly, k int, names ...string) *poly.Poly {
	E := e.p.E
	for _, n := range names {
		x, y := e.p.inp(n+".x"), e.p.inp(n+".y")
		ya, _ := y.SingleAtom()
		num := E.Add(E.Int(1), E.Mul(x, x))
		den := E.Sub(E.Int(1), E.Scale(E.Mul(x, x), edD))
		pw := func(b *poly.Poly, n int) *poly.Poly {
			r := E.Int(1)
			for ; n > 0; n-- {
				r = e.p.mulP(r, b)
			}
			return r
		}
		// split by degree in y
		byDeg := map[int][]*poly.Poly{}
		for _, t := range p.T {
			deg := 0
			r := E.Const(t.C)
			for _, a := range t.M.Ats {
				if a == ya {
					deg++
				} else {
					r = E.Mul(r, E.Var(a))
				}
			}
			if deg/2 > k {
				Failf("internal: degree %d in %s", deg, ya.Name)
			}
			byDeg[deg] = append(byDeg[deg], r)
		}
		var out []*poly.Poly
		for deg, ps := range byDeg {
			out = append(out, e.p.mulP(E.Sum(ps...), e.p.mulP(pw(y, deg%2), e.p.mulP(pw(num, deg/2), pw(den, k-deg/2)))))
		}
		p = E.Sum(out...)
	}
	return p
}

// vanishes reports whether p is zero on the curve.
func (e *edEnv) vanishes(p *poly.Poly, names ...string) bool {
	return len(e.onCurve(p, e.ydeg(p, names...), names...).T) == 0
}

func (e *edEnv) ydeg(p *poly.Poly, names ...string) int {
	k := 0
	for _, t := range p.T {
		for _, n := range names {
			ya, _ := e.p.inp(n + ".y").SingleAtom()
			d := 0
			for _, a := range t.M.Ats {
				if a == ya {
					d++
				}
			}
			k = maxInt(k, d/2)
		}
	}
	return k
}

// multiple reports whether p is a nonzero constant times q on the curve.
func (e *edEnv) multiple(p, q *poly.Poly, names ...string) bool {
	k := maxInt(e.ydeg(p, names...), e.ydeg(q, names...))
	a, b := e.onCurve(p, k, names...), e.onCurve(q, k, names...)
	if len(a.T) == 0 || len(b.T) == 0 || len(a.T) != len(b.T) {
		return false
	}
	c := new(big.Int).ModInverse(new(big.Int).Mod(b.T[0].C, edP), edP)
	c.Mul(c, a.T[0].C).Mod(c, edP)
	return poly.Eq(a, e.p.E.Scale(b, c))
}

func (e *edEnv) samePoint(what string, got, want edPt, names ...string) {
	for _, c := range []struct {
		n    string
		g, w *emuEl
	}{{"x", got.x, want.x}, {"y", got.y, want.y}} {
		d := e.p.E.Sub(e.p.mulP(c.g.Num, c.w.Den), e.p.mulP(c.w.Num, c.g.Den))
		if !e.vanishes(d, names...) {
			Failf("%s: coordinate %s is %s, must be %s on the curve", what, c.n, e.p.show(c.g), e.p.show(c.w))
		}
	}
}

// divisors demands that no divisor vanishes at a point of the curve: each is a
// constant times a product of the complete law's denominators.
func (e *edEnv) divisors(what string, names ...string) {
	q := e.p
	var ok []*poly.Poly
	one := q.E.Int(1)
	for i, a := range names {
		for _, b := range names[i:] {
			w := q.E.Const(edD)
			for _, n := range []string{a, b} {
				w = q.E.Mul(w, q.E.Mul(q.inp(n+".x"), q.inp(n+".y")))
			}
			ok = append(ok, q.E.Add(one, w), q.E.Sub(one, w))
		}
	}
	n := len(ok)
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			ok = append(ok, q.E.Mul(ok[i], ok[j]))
		}
	}
next:
	for _, d := range q.Divs {
		if k, isC := d.IsConst(); isC && k.Sign() != 0 {
			continue
		}
		for _, w := range ok {
			if e.multiple(d, w, names...) {
				continue next
			}
		}
		Failf("%s divides by %s, which may vanish at points of the curve", what, clip(q.E.String(d)))
	}
}

func (e *edEnv) quiet(what string) {
	if len(e.m.Cons)+len(e.p.Eqs)+len(e.r.Eqs) != 0 {
		Failf("%s adds assertions", what)
	}
}

// ---- group domain ----

func (e *edEnv) base(name string) *poly.Poly {
	return e.G.Var(e.m.Sp.Atom("base:"+name, func(a *poly.Atom) { a.Kind = "base"; a.Name = name }))
}

func elKey(x *emuEl) string { return x.Num.Key() + "/" + x.Den.Key() }

// bind names the point with the given coordinates.
func (e *edEnv) bind(p edPt, g *poly.Poly) edPt {
	e.coords["x"+elKey(p.x)] = edCoord{g, false}
	e.coords["y"+elKey(p.y)] = edCoord{g, true}
	return p
}

func (e *edEnv) mk(g *poly.Poly) edPt {
	k := g.Key()
	x, y := e.p.input("gX:"+k), e.p.input("gY:"+k)
	x.g, y.g, y.gy = g, g, true
	return edPt{x, y}
}

// coord: the group element x is the X (Y) coordinate of.
func (e *edEnv) coord(x *emuEl, y bool) (*poly.Poly, bool) {
	if x.g != nil {
		return x.g, x.gy == y
	}
	if k, ok := x.Num.IsConst(); ok {
		if !y && k.Sign() == 0 || y && k.Cmp(big.NewInt(1)) == 0 {
			return e.G.Int(0), true
		}
	}
	n := "x"
	if y {
		n = "y"
	}
	c, ok := e.coords[n+elKey(x)]
	return c.g, ok
}

func (e *edEnv) get(v ai.Value) *poly.Poly {
	if p, ok := v.(*ai.Value); ok && p != nil {
		v = *p
	}
	p := e.pt(v)
	a, ok := e.coord(p.x, false)
	b, ok2 := e.coord(p.y, true)
	if !ok || !ok2 {
		Failf("%s is given something that is not a known point (%s, %s)", e.m.Where(), e.p.show(p.x), e.p.show(p.y))
	}
	if !poly.Eq(a, b) {
		Failf("%s is given a point whose coordinates belong to different points", e.m.Where())
	}
	return a
}

func (e *edEnv) show(p *poly.Poly) string { return clip(e.G.String(p)) }

// group switches to the group domain.
func (e *edEnv) group() {
	m := e.m
	op := func(name string, f func(a []ai.Value) ai.Value) {
		m.Over[edPkg+".(*curve)."+name] = func(m *ai.Machine, c *ai.Call) ai.Value {
			// a point passed by reference is referred to by deferred checks
			for _, a := range c.Args[1:] {
				e.p.use(a)
			}
			return f(c.Args[1:])
		}
	}
	ops := map[string]func(a []ai.Value) ai.Value{
		"add": func(a []ai.Value) ai.Value { return e.mk(e.G.Add(e.get(a[0]), e.get(a[1]))).v() },
		"double": func(a []ai.Value) ai.Value {
			return e.mk(e.G.Scale(e.get(a[0]), big.NewInt(2))).v()
		},
		"neg": func(a []ai.Value) ai.Value { return e.mk(e.G.Scale(e.get(a[0]), big.NewInt(-1))).v() },
		"assertIsOnCurve": func(a []ai.Value) ai.Value {
			g := e.get(a[0])
			if at, ok := g.SingleAtom(); ok && at.Kind == "base" {
				e.curveO[at.Name] = true
			}
			return nil
		},
	}
	for n, f := range ops {
		op(n, f)
		op(strings.ToUpper(n[:1])+n[1:], f)
	}
	sel := func(bits []ai.Value, xs []ai.Value) (ai.Value, bool) {
		for _, y := range []bool{false, true} {
			var gs []*poly.Poly
			all := true
			for _, v := range xs {
				x := e.p.el(v)
				g, ok := e.coord(x, y)
				if !ok {
					all = false
					break
				}
				gs = append(gs, g)
			}
			if !all || len(gs) == 0 {
				continue
			}
			var bs []*poly.Poly
			for _, b := range bits {
				w := m.ToWire(b)
				if !m.IsBool(w) {
					m.AssertBool(w)
				}
				bs = append(bs, e.G.Conv(w.P))
			}
			for _, b := range bs { // b selects between pairs
				var nx []*poly.Poly
				for i := 0; i+1 < len(gs); i += 2 {
					d := e.G.Mul(b, e.G.Sub(gs[i+1], gs[i]))
					if d == nil {
						m.Undecided("group element too large")
					}
					nx = append(nx, e.G.Add(gs[i], d))
				}
				gs = nx
			}
			p := e.mk(gs[0])
			if y {
				return e.p.cell(p.y), true
			}
			return e.p.cell(p.x), true
		}
		return nil, false
	}
	wrap := func(name string, f func(a []ai.Value) (ai.Value, bool)) {
		prev := m.Over[gEmu+"(*Field)."+name]
		m.Over[gEmu+"(*Field)."+name] = func(m *ai.Machine, c *ai.Call) ai.Value {
			if e.p.mine(c) {
				if v, ok := f(c.Args[1:]); ok {
					return v
				}
			}
			return prev(m, c)
		}
	}
	wrap("Lookup2", func(a []ai.Value) (ai.Value, bool) { return sel(a[:2], a[2:6]) })
	wrap("Select", func(a []ai.Value) (ai.Value, bool) { return sel(a[:1], []ai.Value{a[2], a[1]}) })
	wrap("AssertIsEqual", func(a []ai.Value) (ai.Value, bool) {
		x, y := e.p.el(a[0]), e.p.el(a[1])
		if x.g == nil && y.g == nil {
			return nil, false
		}
		for _, yc := range []bool{false, true} {
			g, ok := e.coord(x, yc)
			h, ok2 := e.coord(y, yc)
			if !ok || !ok2 {
				continue
			}
			e.eqs = append(e.eqs, edEq{g, h, yc})
			return nil, true
		}
		m.Undecided("equality of coordinates of unrelated points")
		return nil, true
	})
}

func runC13(c *Ctx) {
	ob := func(rule, what string, f func(e *edEnv)) {
		c.Ob(rule, what, func(t *T) {
			e := newEd(t, ai.BN254Fr)
			e.newCurve()
			f(e)
		})
	}
	names := []string{"P", "Q"}
	ob("law", "addition of two points", func(e *edEnv) {
		p, q := e.in("P"), e.in("Q")
		got := e.pt(e.call("Add", p.v(), q.v()))
		e.quiet("Add")
		e.divisors("Add", names...)
		e.samePoint("Add", got, e.law(p, q), names...)
	})
	ob("law", "addition of equal points", func(e *edEnv) {
		p := e.in("P")
		got := e.pt(e.call("Add", p.v(), p.v()))
		e.divisors("Add", "P")
		e.samePoint("Add", got, e.law(p, p), "P")
	})
	ob("law", "addition of opposite points and of the neutral element", func(e *edEnv) {
		p := e.in("P")
		o := edPt{e.p.konst(0), e.p.konst(1)}
		neg := edPt{e.p.sub(e.p.konst(0), p.x), p.y}
		e.samePoint("P + (-P)", e.pt(e.call("Add", p.v(), neg.v())), o, "P")
		e.samePoint("P + O", e.pt(e.call("Add", p.v(), o.v())), p, "P")
		e.samePoint("O + P", e.pt(e.call("Add", o.v(), p.v())), p, "P")
		e.samePoint("2 O", e.pt(e.call("Double", o.v())), o, "P")
		e.divisors("Add", "P")
	})
	ob("law", "doubling", func(e *edEnv) {
		p := e.in("P")
		got := e.pt(e.call("Double", p.v()))
		e.quiet("Double")
		e.divisors("Double", "P")
		e.samePoint("Double", got, e.law(p, p), "P")
	})
	ob("law", "negation", func(e *edEnv) {
		p := e.in("P")
		got := e.pt(e.call("Neg", p.v()))
		e.quiet("Neg")
		e.samePoint("Neg", got, edPt{e.p.sub(e.p.konst(0), p.x), p.y}, "P")
	})
	c.Floor("law", 5)

	ob("predicate", "AssertIsOnCurve is the curve equation", func(e *edEnv) {
		p := e.in("P")
		e.call("AssertIsOnCurve", p.v())
		q := e.p
		xx, yy := q.E.Mul(p.x.Num, p.x.Num), q.E.Mul(p.y.Num, p.y.Num)
		want := q.E.Sum(q.E.Sub(yy, xx), q.E.Int(-1), q.E.Scale(q.E.Mul(xx, yy), new(big.Int).Neg(edD)))
		found := false
		for _, x := range q.Eqs {
			if len(x.P.T) == 0 {
				continue
			}
			if !e.vanishes(x.P, "P") {
				Failf("AssertIsOnCurve refuses points of the curve: asserts %s = 0", clip(q.E.String(x.P)))
			}
			k := new(big.Int).ModInverse(new(big.Int).Mod(x.P.T[0].C, edP), edP)
			k.Mul(k, want.T[0].C)
			found = found || poly.Eq(q.E.Scale(x.P, k), want)
		}
		if !found {
			Failf("AssertIsOnCurve does not assert -x^2+y^2 = 1+d x^2 y^2")
		}
		if len(q.Divs) != 0 || len(e.m.Cons) != 0 {
			Failf("AssertIsOnCurve does more than assert the curve equation")
		}
	})
	ob("predicate", "AssertQ asserts the neutral element", func(e *edEnv) {
		p := e.in("P")
		e.call("AssertQ", p.v())
		q := e.p
		one := false
		for _, x := range q.Eqs {
			isX := len(q.E.Sub(q.E.Scale(x.P, big.NewInt(1)), p.x.Num).T) == 0 || len(q.E.Add(x.P, p.x.Num).T) == 0
			y1 := q.E.Sub(p.y.Num, q.E.Int(1))
			isY := poly.Eq(x.P, y1) || len(q.E.Add(x.P, y1).T) == 0
			if !isX && !isY {
				Failf("AssertQ asserts %s = 0, which does not hold for (0, 1)", clip(q.E.String(x.P)))
			}
			one = one || isY
		}
		if !one {
			Failf("AssertQ does not assert Y = 1")
		}
	})
	c.Floor("predicate", 2)

	// scalar multiples
	for _, l := range []struct {
		name string
		mod  *big.Int
	}{{"BN254", ai.BN254Fr}, {"BLS12-377", ai.BLS377Fr}} {
		l := l
		mul := func(what string, f func(e *edEnv)) {
			c.Ob("multiple", what+" over "+l.name, func(t *T) {
				e := newEd(t, l.mod)
				e.newCurve()
				e.group()
				e.m.Sp.Cap, e.G.Cap = 200000, 200000
				f(e)
				if len(e.p.Eqs)+len(e.r.Eqs)+len(e.eqs) != 0 {
					Failf("adds assertions")
				}
			})
		}
		scalar := func(e *edEnv, w *ai.Wire) *poly.Poly {
			var ps []*poly.Poly
			for i := 0; i < l.mod.BitLen(); i++ {
				ps = append(ps, e.G.Scale(e.G.Conv(e.m.BitOf(w.P, i)), pow2(i)))
			}
			return e.G.Sum(ps...)
		}
		want := func(e *edEnv, what string, got, w *poly.Poly) {
			if !poly.Eq(got, w) {
				d := e.G.Sub(got, w)
				Failf("%s differs from the multiple by %s", what, e.show(d))
			}
		}
		mul("ScalarMul(P, s) = s P", func(e *edEnv) {
			p := e.bind(e.in("P"), e.base("P"))
			s := e.m.Input("s")
			got := e.get(e.call("ScalarMul", p.v(), ai.V(s)))
			want(e, "ScalarMul", got, e.G.Mul(scalar(e, s), e.base("P")))
		})
		mul("DoubleBaseScalarMul(P, Q, s, t) = s P + t Q", func(e *edEnv) {
			p, q := e.bind(e.in("P"), e.base("P")), e.bind(e.in("Q"), e.base("Q"))
			s := e.m.Input("s")
			tt := e.r.input("t")
			tt.canon = true
			got := e.get(e.call("DoubleBaseScalarMul", p.v(), q.v(), ai.V(s), e.r.cell(tt)))
			var ps []*poly.Poly
			for i, b := range e.r.bits(tt) {
				ps = append(ps, e.G.Scale(e.G.Conv(b), pow2(i)))
			}
			want(e, "DoubleBaseScalarMul", got, e.G.Add(e.G.Mul(scalar(e, s), e.base("P")), e.G.Mul(e.G.Sum(ps...), e.base("Q"))))
		})
	}
	c.Floor("multiple", 4)

	c.Ob("params", "fields", func(t *T) {
		m := t.M(ai.BN254Fr)
		for _, f := range []struct {
			name string
			mod  *big.Int
		}{{"Ed25519Fp", edP}, {"Ed25519Fr", edL}} {
			if k, ok := m.BigPoly(t.Run(m, edPkg, f.name+".Modulus", ai.Struct{})).IsConst(); !ok || k.Cmp(f.mod) != 0 {
				Failf("%s.Modulus is not %s", f.name, f.mod)
			}
			n, ok := t.Run(m, edPkg, f.name+".NbLimbs", ai.Struct{}).(int64)
			w, ok2 := t.Run(m, edPkg, f.name+".BitsPerLimb", ai.Struct{}).(int64)
			if !ok || !ok2 || n != (int64(f.mod.BitLen())+w-1)/w {
				Failf("%s: %d limbs of %d bits do not fit the modulus", f.name, n, w)
			}
			if b, ok := t.Run(m, edPkg, f.name+".IsPrime", ai.Struct{}).(bool); !ok || !b {
				Failf("%s.IsPrime is not true", f.name)
			}
		}
	})
	ob("params", "curve", func(e *edEnv) {
		s := strct(e.call("Params"), 5)
		want := []*big.Int{big.NewInt(-1), edD, big.NewInt(8), edL}
		for i, n := range []string{"A", "D", "Cofactor", "Order"} {
			k, ok := e.m.BigPoly(s[i]).IsConst()
			if !ok {
				Failf("%s is not a constant", n)
			}
			if i < 2 {
				d := new(big.Int).Sub(k, want[i])
				if d.Mod(d, edP).Sign() != 0 {
					Failf("%s is %s, must be %s", n, k, want[i])
				}
			} else if k.Cmp(want[i]) != 0 {
				Failf("%s is %s, must be %s", n, k, want[i])
			}
		}
		b, ok := s[4].(ai.Arr)
		if !ok || len(b) != 2 {
			Failf("the base point is %s", ai.Show(s[4]))
		}
		for i, w := range []*big.Int{edBx, edBy} {
			if k, ok := e.m.BigPoly(b[i]).IsConst(); !ok || k.Cmp(w) != 0 {
				Failf("base point coordinate %d is not %s", i, w)
			}
		}
	})
	c.Floor("params", 2)
}
