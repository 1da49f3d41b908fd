package ai

import (
	"crypto/sha256"
	"fmt"

	"zkcheck/internal/poly"
)

// GF2 is the domain for long bit-level permutations: a 0/1 value is a linear
// form over GF(2) in base atoms, and a product of two non-constant forms is a
// new base atom interned by the two forms. The canonical form makes the
// representation independent of the order and grouping of XORs and of where
// constants enter.
type GF2 struct {
	base  map[*poly.Atom]int
	forms map[*poly.Atom]Form
	ids   map[string]*poly.Atom
	ands  map[string]int
	n     int
	m     *Machine
}

// Form is a linear form: bit 0 is the constant, bit i+1 the base i.
type Form []uint64

// UseGF2 switches the machine's bit operations to the GF(2) domain.
func (m *Machine) UseGF2() *GF2 {
	m.gf2 = &GF2{base: map[*poly.Atom]int{}, forms: map[*poly.Atom]Form{}, ids: map[string]*poly.Atom{}, ands: map[string]int{}, m: m, n: 1}
	return m.gf2
}

func (f Form) trim() Form {
	for len(f) > 0 && f[len(f)-1] == 0 {
		f = f[:len(f)-1]
	}
	return f
}

func (g *GF2) Xor(a, b Form) Form {
	if len(a) < len(b) {
		a, b = b, a
	}
	r := append(Form(nil), a...)
	for i := range b {
		r[i] ^= b[i]
	}
	return r.trim()
}

func (g *GF2) Const(v bool) Form {
	if v {
		return Form{1}
	}
	return nil
}

func bit(i int) Form {
	f := make(Form, i/64+1)
	f[i/64] = 1 << uint(i%64)
	return f
}

func (f Form) id() string {
	h := sha256.New()
	var buf [8]byte
	for _, w := range f {
		for k := range buf {
			buf[k] = byte(w >> (8 * k))
		}
		h.Write(buf[:])
	}
	return string(h.Sum(nil))
}

// And is the product.
func (g *GF2) And(a, b Form) Form {
	ka, kb := len(a) > 0 && a[0]&1 == 1, len(b) > 0 && b[0]&1 == 1
	if ka {
		a = g.Xor(a, Form{1})
	}
	if kb {
		b = g.Xor(b, Form{1})
	}
	// (A+ka)(B+kb) = AB + kb A + ka B + ka kb
	r := g.Const(ka && kb)
	if kb {
		r = g.Xor(r, a)
	}
	if ka {
		r = g.Xor(r, b)
	}
	if len(a) == 0 || len(b) == 0 {
		return r
	}
	ia, ib := a.id(), b.id()
	if ia == ib {
		return g.Xor(r, a)
	}
	if ia > ib {
		ia, ib = ib, ia
	}
	n, ok := g.ands[ia+ib]
	if !ok {
		n = g.n
		g.n++
		g.ands[ia+ib] = n
	}
	return g.Xor(r, bit(n))
}

// Of is the form of a 0/1-valued polynomial.
func (g *GF2) Of(p *poly.Poly) Form {
	var r Form
	for _, t := range p.T {
		if t.C.Bit(0) == 0 {
			continue
		}
		x := Form{1}
		for _, a := range t.M.Ats {
			x = g.And(x, g.atom(a))
		}
		r = g.Xor(r, x)
	}
	return r
}

func (g *GF2) atom(a *poly.Atom) Form {
	if f, ok := g.forms[a]; ok {
		return f
	}
	if !a.Bool {
		g.m.Undecided("bit operation on a value that is not known to be a bit: " + a.Name)
	}
	n, ok := g.base[a]
	if !ok {
		n = g.n
		g.n++
		g.base[a] = n
		g.forms[a] = bit(n)
		g.ids[bit(n).id()] = a
	}
	return bit(n)
}

// Poly is the polynomial standing for a form.
func (g *GF2) Poly(f Form) *poly.Poly {
	if len(f) == 0 {
		return g.m.Sp.Int(0)
	}
	if len(f) == 1 && f[0] == 1 {
		return g.m.Sp.Int(1)
	}
	id := f.id()
	a, ok := g.ids[id]
	if !ok {
		a = g.m.Sp.Atom(g.m.Sp.FreshKey("gf2"), func(a *poly.Atom) {
			a.Kind = "gf2"
			a.Bool = true
			a.Name = fmt.Sprintf("gf2form%d", a.ID)
		})
		g.ids[id] = a
		g.forms[a] = f
	}
	return g.m.Sp.Var(a)
}

// Same compares forms.
func (f Form) Same(h Form) bool {
	if len(f) != len(h) {
		return false
	}
	for i := range f {
		if f[i] != h[i] {
			return false
		}
	}
	return true
}

func (g *GF2) op(op string, x, y *Wire) *Wire {
	a, b := g.Of(x.P), g.Of(y.P)
	switch op {
	case "xor":
		a = g.Xor(a, b)
	case "and":
		a = g.And(a, b)
	case "or":
		a = g.Xor(g.Xor(a, b), g.And(a, b))
	}
	return g.m.node(op, g.Poly(a), x, y)
}
