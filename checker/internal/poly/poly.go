// Package poly implements the polynomial-equality abstract domain used to
// compare what a gadget computes with what it has to compute.
//
// A polynomial is a sum of coefficient*monomial over "atoms" (inputs and
// results of non-polynomial operations).  Atoms known to be 0/1 are idempotent,
// so that boolean circuits have a canonical multilinear form.  Two polynomials
// with equal keys denote the same value for every valuation of the atoms.
package poly

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Atom is an indeterminate.
type Atom struct {
	ID    int
	Key   string
	Kind  string
	Name  string
	Bool  bool     // constrained to {0,1}
	Lo    *big.Int // value bounds (inclusive); nil: unknown
	Hi    *big.Int
	Args  []*Poly // defining operands, for derived atoms
	N     int     // kind specific (bit index, ...)
	Label map[string]bool
	Def   any
	excl  map[int]bool // atoms whose product with this one is 0
}

type store struct {
	Atoms []*Atom
	byKey map[string]*Atom
	monos map[string]*Mono
	one   *Mono
	nm    int
	fresh int
}

// Space owns atoms and monomials; Over gives a view with another modulus.
type Space struct {
	*store
	Mod  *big.Int // field modulus (nil: integers)
	half *big.Int
	Cap  int // maximal number of terms of a product
}

// Over returns a space sharing the atoms, over Z/mod (Z when nil).
func (s *Space) Over(mod *big.Int) *Space {
	n := &Space{store: s.store, Mod: mod, Cap: s.Cap}
	if mod != nil {
		n.half = new(big.Int).Rsh(mod, 1)
	}
	return n
}

// Conv re-reduces p (built over another modulus) in s.
func (s *Space) Conv(p *Poly) *Poly {
	out := make([]Term, 0, len(p.T))
	for _, t := range p.T {
		c := s.red(new(big.Int).Set(t.C))
		if c.Sign() != 0 {
			out = append(out, Term{t.M, c})
		}
	}
	return &Poly{T: out}
}

// Mono is an interned monomial.
type Mono struct {
	id  int
	Ats []*Atom // sorted by ID, with multiplicity (idempotent atoms once)
	key string
}

// Term is coefficient*monomial.
type Term struct {
	M *Mono
	C *big.Int
}

// Poly is a polynomial: terms sorted by monomial id, no zero coefficient.
type Poly struct {
	T   []Term
	key string
}

var bigOne = big.NewInt(1)

// NewSpace returns an empty space over Z/mod (or Z when mod is nil).
func NewSpace(mod *big.Int) *Space {
	s := &Space{store: &store{byKey: map[string]*Atom{}, monos: map[string]*Mono{}}, Mod: mod, Cap: 4096}
	if mod != nil {
		s.half = new(big.Int).Rsh(mod, 1)
	}
	s.one = s.mono(nil)
	return s
}

func (s *Space) mono(ats []*Atom) *Mono {
	var b strings.Builder
	for _, a := range ats {
		fmt.Fprintf(&b, "%d.", a.ID)
	}
	k := b.String()
	if m, ok := s.monos[k]; ok {
		return m
	}
	m := &Mono{id: s.nm, Ats: ats, key: k}
	s.nm++
	s.monos[k] = m
	return m
}

// Atom returns the atom with the given key, creating it with init.
func (s *Space) Atom(key string, init func(*Atom)) *Atom {
	if a, ok := s.byKey[key]; ok {
		return a
	}
	a := &Atom{ID: len(s.Atoms), Key: key, Name: key}
	s.Atoms = append(s.Atoms, a)
	s.byKey[key] = a
	if init != nil {
		init(a)
	}
	return a
}

// FindAtom looks an atom up by key.
func (s *Space) FindAtom(key string) *Atom { return s.byKey[key] }

// Fresh returns a fresh atom key.
func (s *Space) FreshKey(prefix string) string {
	s.fresh++
	return fmt.Sprintf("%s#%d", prefix, s.fresh)
}

// Exclude declares a*b == 0.
func (s *Space) Exclude(a, b *Atom) {
	if a.excl == nil {
		a.excl = map[int]bool{}
	}
	if b.excl == nil {
		b.excl = map[int]bool{}
	}
	a.excl[b.ID] = true
	b.excl[a.ID] = true
}

func (s *Space) red(c *big.Int) *big.Int {
	if s.Mod == nil {
		return c
	}
	if c.CmpAbs(s.half) <= 0 {
		return c
	}
	r := new(big.Int).Mod(c, s.Mod)
	if r.Cmp(s.half) > 0 {
		r.Sub(r, s.Mod)
	}
	return r
}

// Const returns the constant polynomial.
func (s *Space) Const(c *big.Int) *Poly {
	c = s.red(new(big.Int).Set(c))
	if c.Sign() == 0 {
		return &Poly{}
	}
	return &Poly{T: []Term{{s.one, c}}}
}

// Int returns a small constant.
func (s *Space) Int(v int64) *Poly { return s.Const(big.NewInt(v)) }

// Var returns the polynomial consisting of one atom.
func (s *Space) Var(a *Atom) *Poly {
	return &Poly{T: []Term{{s.mono([]*Atom{a}), bigOne}}}
}

// IsConst reports whether p is constant and its value.
func (p *Poly) IsConst() (*big.Int, bool) {
	if len(p.T) == 0 {
		return new(big.Int), true
	}
	if len(p.T) == 1 && len(p.T[0].M.Ats) == 0 {
		return p.T[0].C, true
	}
	return nil, false
}

// SingleAtom reports whether p is exactly one atom.
func (p *Poly) SingleAtom() (*Atom, bool) {
	if len(p.T) == 1 && len(p.T[0].M.Ats) == 1 && p.T[0].C.Cmp(bigOne) == 0 {
		return p.T[0].M.Ats[0], true
	}
	return nil, false
}

// Key is the canonical key of p.
func (p *Poly) Key() string {
	if p.key == "" {
		var b strings.Builder
		for _, t := range p.T {
			fmt.Fprintf(&b, "%x:%d,", t.C, t.M.id)
		}
		p.key = b.String() + ";"
	}
	return p.key
}

// Eq reports equality of polynomials.
func Eq(p, q *Poly) bool {
	if len(p.T) != len(q.T) {
		return false
	}
	for i := range p.T {
		if p.T[i].M != q.T[i].M || p.T[i].C.Cmp(q.T[i].C) != 0 {
			return false
		}
	}
	return true
}

// Add returns p+q.
func (s *Space) Add(p, q *Poly) *Poly { return s.lin(p, q, nil) }

// Sub returns p-q.
func (s *Space) Sub(p, q *Poly) *Poly { return s.lin(p, q, big.NewInt(-1)) }

// AddScaled returns p+c*q.
func (s *Space) AddScaled(p, q *Poly, c *big.Int) *Poly { return s.lin(p, q, c) }

func (s *Space) lin(p, q *Poly, c *big.Int) *Poly {
	if len(q.T) == 0 {
		return p
	}
	out := make([]Term, 0, len(p.T)+len(q.T))
	i, j := 0, 0
	sc := func(x *big.Int) *big.Int {
		if c == nil {
			return x
		}
		return s.red(new(big.Int).Mul(x, c))
	}
	for i < len(p.T) || j < len(q.T) {
		switch {
		case j == len(q.T) || i < len(p.T) && p.T[i].M.id < q.T[j].M.id:
			out = append(out, p.T[i])
			i++
		case i == len(p.T) || q.T[j].M.id < p.T[i].M.id:
			v := sc(q.T[j].C)
			if v.Sign() != 0 {
				out = append(out, Term{q.T[j].M, v})
			}
			j++
		default:
			v := new(big.Int).Add(p.T[i].C, sc(q.T[j].C))
			v = s.red(v)
			if v.Sign() != 0 {
				out = append(out, Term{p.T[i].M, v})
			}
			i++
			j++
		}
	}
	return &Poly{T: out}
}

// Sum adds many polynomials at once.
func (s *Space) Sum(ps ...*Poly) *Poly {
	switch len(ps) {
	case 0:
		return &Poly{}
	case 1:
		return ps[0]
	}
	h := len(ps) / 2
	return s.Add(s.Sum(ps[:h]...), s.Sum(ps[h:]...))
}

// Scale returns c*p.
func (s *Space) Scale(p *Poly, c *big.Int) *Poly {
	if c.Sign() == 0 {
		return &Poly{}
	}
	if c.Cmp(bigOne) == 0 {
		return p
	}
	out := make([]Term, 0, len(p.T))
	for _, t := range p.T {
		v := s.red(new(big.Int).Mul(t.C, c))
		if v.Sign() != 0 {
			out = append(out, Term{t.M, v})
		}
	}
	return &Poly{T: out}
}

func (s *Space) mulMono(a, b *Mono) *Mono {
	if len(a.Ats) == 0 {
		return b
	}
	if len(b.Ats) == 0 {
		return a
	}
	out := make([]*Atom, 0, len(a.Ats)+len(b.Ats))
	i, j := 0, 0
	for i < len(a.Ats) || j < len(b.Ats) {
		var x *Atom
		if j == len(b.Ats) || i < len(a.Ats) && a.Ats[i].ID <= b.Ats[j].ID {
			x = a.Ats[i]
			i++
		} else {
			x = b.Ats[j]
			j++
		}
		if x.Bool && len(out) > 0 && out[len(out)-1] == x {
			continue
		}
		out = append(out, x)
	}
	for k, x := range out {
		if x.excl != nil {
			for _, y := range out[k+1:] {
				if x.excl[y.ID] {
					return nil
				}
			}
		}
	}
	return s.mono(out)
}

// Mul returns p*q, or nil when the product would exceed the size cap.
func (s *Space) Mul(p, q *Poly) *Poly {
	if c, ok := p.IsConst(); ok {
		return s.Scale(q, c)
	}
	if c, ok := q.IsConst(); ok {
		return s.Scale(p, c)
	}
	if s.Cap > 0 && len(p.T)*len(q.T) > s.Cap {
		return nil
	}
	acc := map[*Mono]*big.Int{}
	for _, t := range p.T {
		for _, u := range q.T {
			m := s.mulMono(t.M, u.M)
			if m == nil {
				continue
			}
			c := new(big.Int).Mul(t.C, u.C)
			if o, ok := acc[m]; ok {
				o.Add(o, c)
			} else {
				acc[m] = c
			}
		}
	}
	return s.fromMap(acc)
}

func (s *Space) fromMap(acc map[*Mono]*big.Int) *Poly {
	out := make([]Term, 0, len(acc))
	for m, c := range acc {
		c = s.red(c)
		if c.Sign() != 0 {
			out = append(out, Term{m, c})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].M.id < out[j].M.id })
	return &Poly{T: out}
}

// Renorm re-applies idempotence and exclusion rules (atoms may have been
// found boolean after the polynomial was built).
func (s *Space) Renorm(p *Poly) *Poly {
	acc := map[*Mono]*big.Int{}
	for _, t := range p.T {
		m := s.one
		for _, a := range t.M.Ats {
			m = s.mulMono(m, s.mono([]*Atom{a}))
			if m == nil {
				break
			}
		}
		if m == nil {
			continue
		}
		if o, ok := acc[m]; ok {
			o.Add(o, t.C)
		} else {
			acc[m] = new(big.Int).Set(t.C)
		}
	}
	return s.fromMap(acc)
}

// AtomsOf returns the atoms of p in id order.
func (p *Poly) AtomsOf() []*Atom {
	seen := map[*Atom]bool{}
	var out []*Atom
	for _, t := range p.T {
		for _, a := range t.M.Ats {
			if !seen[a] {
				seen[a] = true
				out = append(out, a)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

// Subst replaces atoms by polynomials.
func (s *Space) Subst(p *Poly, f func(*Atom) *Poly) *Poly {
	res := &Poly{}
	for _, t := range p.T {
		cur := s.Const(t.C)
		for _, a := range t.M.Ats {
			r := f(a)
			if r == nil {
				r = s.Var(a)
			}
			cur = s.Mul(cur, r)
			if cur == nil {
				return nil
			}
		}
		res = s.Add(res, cur)
	}
	return res
}

// String renders p.
func (s *Space) String(p *Poly) string {
	if len(p.T) == 0 {
		return "0"
	}
	var parts []string
	for i, t := range p.T {
		if i == 12 {
			parts = append(parts, fmt.Sprintf("...(%d terms)", len(p.T)))
			break
		}
		var as []string
		for _, a := range t.M.Ats {
			as = append(as, a.Name)
		}
		m := strings.Join(as, "*")
		switch {
		case m == "":
			parts = append(parts, t.C.String())
		case t.C.Cmp(bigOne) == 0:
			parts = append(parts, m)
		default:
			parts = append(parts, t.C.String()+"*"+m)
		}
	}
	return strings.Join(parts, " + ")
}

// Bounds returns integer bounds of p from atom bounds (nil,nil if unbounded).
func (p *Poly) Bounds() (lo, hi *big.Int) {
	return p.BoundsWith(func(a *Atom) (*big.Int, *big.Int) {
		if a.Bool {
			return new(big.Int), bigOne
		}
		return a.Lo, a.Hi
	})
}

// BoundsWith is Bounds with explicit atom bounds.
func (p *Poly) BoundsWith(f func(*Atom) (*big.Int, *big.Int)) (lo, hi *big.Int) {
	lo, hi = new(big.Int), new(big.Int)
	for _, t := range p.T {
		l, h := new(big.Int).SetInt64(1), new(big.Int).SetInt64(1)
		for _, a := range t.M.Ats {
			al, ah := f(a)
			if al == nil || ah == nil {
				return nil, nil
			}
			c := []*big.Int{new(big.Int).Mul(l, al), new(big.Int).Mul(l, ah), new(big.Int).Mul(h, al), new(big.Int).Mul(h, ah)}
			l, h = c[0], c[0]
			for _, x := range c[1:] {
				if x.Cmp(l) < 0 {
					l = x
				}
				if x.Cmp(h) > 0 {
					h = x
				}
			}
		}
		cl, ch := new(big.Int).Mul(l, t.C), new(big.Int).Mul(h, t.C)
		if t.C.Sign() < 0 {
			cl, ch = ch, cl
		}
		lo.Add(lo, cl)
		hi.Add(hi, ch)
	}
	return
}

// LinearBits reports whether p is c + Σ 2^k_i b_i with distinct boolean atoms
// at distinct positions, returning position -> atom (constant bits are added
// as nil atoms in consts).
func (p *Poly) LinearBits() (pos map[int]*Atom, konst *big.Int, ok bool) {
	pos = map[int]*Atom{}
	konst = new(big.Int)
	for _, t := range p.T {
		if len(t.M.Ats) == 0 {
			konst = t.C
			continue
		}
		if len(t.M.Ats) != 1 || !t.M.Ats[0].Bool || t.C.Sign() <= 0 {
			return nil, nil, false
		}
		k := int(t.C.TrailingZeroBits())
		if t.C.BitLen() != k+1 {
			return nil, nil, false
		}
		if _, dup := pos[k]; dup {
			return nil, nil, false
		}
		pos[k] = t.M.Ats[0]
	}
	if konst.Sign() < 0 {
		return nil, nil, false
	}
	for k := range pos {
		if konst.Bit(k) != 0 {
			return nil, nil, false
		}
	}
	return pos, konst, true
}
func (s *Space) NAtoms() int { return len(s.Atoms) }

// ModCoeffs reduces every coefficient to [0, c).
func (s *Space) ModCoeffs(p *Poly, c *big.Int) *Poly {
	out := make([]Term, 0, len(p.T))
	for _, t := range p.T {
		k := new(big.Int).Mod(t.C, c)
		if k.Sign() != 0 {
			out = append(out, Term{t.M, k})
		}
	}
	return &Poly{T: out}
}
