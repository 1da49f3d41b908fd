package ai

import (
	"math/big"

	"zkcheck/internal/poly"
)

// Residue is p mod c, canonical: residues modulo c inside p are replaced by
// what they are residues of.
func (m *Machine) Residue(p *poly.Poly, c *big.Int) *poly.Poly {
	p = m.unresidue(p, c)
	if k, ok := p.IsConst(); ok {
		return m.Z.Const(new(big.Int).Mod(k, c))
	}
	if lo, hi := p.Bounds(); lo != nil && lo.Sign() >= 0 && hi.Cmp(c) < 0 {
		return p
	}
	// coefficients count modulo c only
	p = m.Z.ModCoeffs(p, c)
	if lo, hi := p.Bounds(); lo != nil && lo.Sign() >= 0 && hi.Cmp(c) < 0 {
		return p
	}
	if k, ok := p.IsConst(); ok {
		return m.Z.Const(new(big.Int).Mod(k, c))
	}
	return m.Z.Var(m.Z.Atom("bigmod:"+c.String()+":"+p.Key(), func(a *poly.Atom) {
		a.Kind = "bigmod"
		a.Args = []*poly.Poly{p, m.Z.Const(c)}
		a.Lo, a.Hi = new(big.Int), new(big.Int).Sub(c, bi(1))
		a.Name = "(" + m.Z.String(p) + " mod " + c.String() + ")"
	}))
}

func (m *Machine) unresidue(p *poly.Poly, c *big.Int) *poly.Poly {
	found := false
	for _, a := range p.AtomsOf() {
		if a.Kind == "bigmod" && sameConst(a.Args[1], c) {
			found = true
		}
	}
	if !found {
		return p
	}
	q := m.Z.Subst(p, func(a *poly.Atom) *poly.Poly {
		if a.Kind == "bigmod" && sameConst(a.Args[1], c) {
			return a.Args[0]
		}
		return nil
	})
	if q == nil {
		return p
	}
	return q
}

func sameConst(p *poly.Poly, c *big.Int) bool {
	k, ok := p.IsConst()
	return ok && k.Cmp(c) == 0
}

// geAtom is the truth of p >= c.
func (m *Machine) geAtom(p *poly.Poly, c *big.Int) *poly.Atom {
	return m.Z.Atom("bigge:"+c.String()+":"+p.Key(), func(a *poly.Atom) {
		a.Kind = "bigge"
		a.Bool = true
		a.Args = []*poly.Poly{p, m.Z.Const(c)}
		a.Name = "(" + m.Z.String(p) + " >= " + c.String() + ")"
	})
}

// condBool turns a comparison of integers with a constant into a 0/1 value.
func (m *Machine) condBool(v Value) (HBool, bool) {
	if h, ok := v.(HBool); ok {
		return h, true
	}
	o, ok := v.(*Opaque)
	if !ok {
		return HBool{}, false
	}
	if o.Op == "not" && len(o.Args) == 1 {
		h, ok := m.condBool(o.Args[0])
		if !ok {
			return h, false
		}
		return HBool{m.Z.Sub(m.Z.Int(1), h.P)}, true
	}
	if len(o.Args) != 2 {
		return HBool{}, false
	}
	cmp, ok := o.Args[0].(*Opaque)
	k, isc := o.Args[1].(int64)
	if !ok || !isc || cmp.Op != "bigcmp" {
		return HBool{}, false
	}
	p := cmp.Args[0].(BigInt).P
	c, ok := cmp.Args[1].(BigInt).P.IsConst()
	if !ok {
		return HBool{}, false
	}
	// the comparison is -1, 0 or 1: which of them satisfy the condition?
	var t [3]bool
	for i := range t {
		x := int64(i) - 1
		switch o.Op {
		case "eq":
			t[i] = x == k
		case "ne":
			t[i] = x != k
		case "<":
			t[i] = x < k
		case "<=":
			t[i] = x <= k
		case ">":
			t[i] = x > k
		case ">=":
			t[i] = x >= k
		default:
			return HBool{}, false
		}
	}
	ge := m.Z.Var(m.geAtom(p, c))
	gt := m.Z.Var(m.geAtom(p, new(big.Int).Add(c, bi(1))))
	not := func(p *poly.Poly) *poly.Poly { return m.Z.Sub(m.Z.Int(1), p) }
	switch t {
	case [3]bool{false, true, true}:
		return HBool{ge}, true
	case [3]bool{false, false, true}:
		return HBool{gt}, true
	case [3]bool{true, false, false}:
		return HBool{not(ge)}, true
	case [3]bool{true, true, false}:
		return HBool{not(gt)}, true
	}
	return HBool{}, false
}

// iteResidue merges integers of which at least one is a residue.
func (m *Machine) iteResidue(cond, v, w *poly.Poly) (*poly.Poly, bool) {
	// p >= c ? (p mod c or p - c) : p
	at, ok := cond.SingleAtom()
	pos := ok
	if !ok {
		at, ok = m.Z.Sub(m.Z.Int(1), cond).SingleAtom()
	}
	if ok && at.Kind == "bigge" {
		yes, no := v, w
		if !pos {
			yes, no = w, v
		}
		p := at.Args[0]
		c, _ := at.Args[1].IsConst()
		lo, hi := p.Bounds()
		if lo != nil && lo.Sign() >= 0 && hi.Cmp(c) < 0 {
			return no, true
		}
		if poly.Eq(no, p) && lo != nil && lo.Sign() >= 0 {
			if poly.Eq(yes, m.Residue(p, c)) {
				return yes, true
			}
			if poly.Eq(yes, m.Z.Sub(p, m.Z.Const(c))) && hi.Cmp(new(big.Int).Lsh(c, 1)) < 0 {
				return m.Residue(p, c), true
			}
		}
		return nil, false
	}
	var c *big.Int
	for _, x := range []*poly.Poly{v, w} {
		if a, ok := x.SingleAtom(); ok && a.Kind == "bigmod" {
			c, _ = a.Args[1].IsConst()
		}
	}
	if c == nil {
		return nil, false
	}
	a, b := m.unresidue(v, c), m.unresidue(w, c)
	if !poly.Eq(m.Residue(a, c), v) || !poly.Eq(m.Residue(b, c), w) {
		return nil, false
	}
	d := m.Z.Mul(cond, m.Z.Sub(a, b))
	if d == nil {
		return nil, false
	}
	return m.Residue(m.Z.Add(b, d), c), true
}
