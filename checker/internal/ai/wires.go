package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"zkcheck/internal/poly"
)

// API is the abstract frontend.API / frontend.Compiler.
type API struct {
	m *Machine
	// WordBits > 0 makes bit atoms of sums canonical modulo 2^WordBits.
	WordBits int
	// Curve is reported by ecc lookups on the field modulus.
	Curve    string
	hints    int
	Deferred []Value
}

// APIValue is the interface value passed to gadgets.
func (m *Machine) APIValue() Value {
	return Iface{ExtType, &Ext{Type: "api", Data: m.API}}
}

// V wraps a wire as frontend.Variable.
func V(w *Wire) Value { return Iface{WireType, w} }

func (m *Machine) node(op string, p *poly.Poly, args ...*Wire) *Wire {
	w := &Wire{ID: len(m.Wires), P: p, Op: op, Args: args, Pos: m.Pos()}
	if p == nil {
		// product too large for the domain: opaque but deterministic atom
		var ks []string
		for _, a := range args {
			ks = append(ks, a.P.Key())
		}
		if op == "mul" {
			sort.Strings(ks)
		}
		at := m.Sp.Atom(op+"("+strings.Join(ks, "|")+")", func(a *poly.Atom) {
			a.Kind = op
			a.Name = fmt.Sprintf("%s#%d", op, a.ID)
			a.Def = w
			allBool := true
			for _, x := range args {
				if !m.IsBool(x) {
					allBool = false
				}
			}
			a.Bool = allBool && (op == "mul" || op == "and")
		})
		w.P = m.Sp.Var(at)
	}
	m.Wires = append(m.Wires, w)
	return w
}

// Const makes a constant wire.
func (m *Machine) Const(v *big.Int) *Wire { return m.node("const", m.Sp.Const(v)) }

// ConstI makes a constant wire.
func (m *Machine) ConstI(v int64) *Wire { return m.Const(big.NewInt(v)) }

// Input makes an unconstrained input wire.
func (m *Machine) Input(name string) *Wire {
	a := m.Sp.Atom("in:"+name, func(a *poly.Atom) { a.Kind = "input"; a.Name = name })
	return m.node("input", m.Sp.Var(a))
}

// InputBool makes an input wire known to be 0/1.
func (m *Machine) InputBool(name string) *Wire {
	a := m.Sp.Atom("in:"+name, func(a *poly.Atom) { a.Kind = "input"; a.Name = name; a.Bool = true })
	return m.node("input", m.Sp.Var(a))
}

// InputRange makes an input wire with bounds.
func (m *Machine) InputRange(name string, lo, hi int64) *Wire {
	a := m.Sp.Atom("in:"+name, func(a *poly.Atom) {
		a.Kind = "input"
		a.Name = name
		a.Lo, a.Hi = bi(lo), bi(hi)
	})
	return m.node("input", m.Sp.Var(a))
}

// InputBits makes an n-bit input Σ 2^i b_i.
func (m *Machine) InputBits(name string, n int) *Wire {
	return m.node("input", m.BitsPoly(name, n))
}

// BitsPoly returns Σ 2^i name[i] over boolean atoms.
func (m *Machine) BitsPoly(name string, n int) *poly.Poly {
	var ps []*poly.Poly
	for i := 0; i < n; i++ {
		ps = append(ps, m.Sp.Scale(m.Sp.Var(m.BitAtom(name, i)), new(big.Int).Lsh(bi(1), uint(i))))
	}
	return m.Sp.Sum(ps...)
}

// BitAtom is the i-th bit of the named bit input.
func (m *Machine) BitAtom(name string, i int) *poly.Atom {
	return m.Sp.Atom(fmt.Sprintf("inbit:%s.%d", name, i), func(a *poly.Atom) {
		a.Kind = "inputbit"
		a.Name = fmt.Sprintf("%s.%d", name, i)
		a.Bool = true
		a.N = i
	})
}

// OpaqueWire makes a deterministic function result wire.
func (m *Machine) OpaqueWire(op string, n int, args ...*Wire) *Wire {
	var ks []string
	for _, a := range args {
		ks = append(ks, a.P.Key())
	}
	key := fmt.Sprintf("%s[%d](%s)", op, n, strings.Join(ks, "|"))
	at := m.Sp.Atom(key, func(a *poly.Atom) {
		a.Kind = op
		a.Name = fmt.Sprintf("%s#%d", op, a.ID)
		a.N = n
		for _, x := range args {
			a.Args = append(a.Args, x.P)
		}
	})
	w := m.node(op, m.Sp.Var(at), args...)
	if at.Def == nil {
		at.Def = w
	}
	return w
}

// PolyWire wraps a polynomial.
func (m *Machine) PolyWire(p *poly.Poly) *Wire { return m.node("poly", p) }

// ToWire converts a frontend.Variable value.
func (m *Machine) ToWire(v Value) *Wire {
	switch x := v.(type) {
	case *Wire:
		return x
	case int64:
		return m.ConstI(x)
	case BigInt:
		return m.node("big", m.Sp.Conv(x.P))
	case *Value:
		if x == nil {
			m.AbortNow("nil pointer used as circuit variable")
		}
		if b, ok := (*x).(BigInt); ok {
			return m.node("big", m.Sp.Conv(b.P))
		}
	case string:
		n, ok := new(big.Int).SetString(x, 0)
		if !ok {
			m.AbortNow("string used as circuit variable: " + x)
		}
		return m.Const(n)
	case Iface:
		if x.T == nil {
			m.AbortNow("nil used as circuit variable")
		}
		if x.T == WireType {
			return x.V.(*Wire)
		}
		if b, ok := x.T.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if i, ok := x.V.(int64); ok {
				if isUnsigned(b.Kind()) {
					return m.Const(new(big.Int).SetUint64(uint64(i)))
				}
				return m.ConstI(i)
			}
			if h, ok := x.V.(*HInt); ok {
				return m.node("hint", m.Sp.Conv(m.hPoly(h)))
			}
		}
		if _, ok := x.T.Underlying().(*types.Basic); ok {
			if s, ok := x.V.(string); ok {
				return m.ToWire(s)
			}
		}
		if s, ok := x.V.(Slice); ok {
			if sl, ok := x.T.Underlying().(*types.Slice); ok && kindOf(sl.Elem()) == types.Uint8 {
				b, ok := ConcreteBytes(s)
				if ok {
					return m.Const(new(big.Int).SetBytes(b))
				}
			}
			m.AbortNow("value of type " + x.T.String() + " used as a single circuit variable")
		}
		switch y := x.V.(type) {
		case *Value, BigInt:
			return m.ToWire(y)
		case *Ext:
			if o, ok := y.Data.(*Wire); ok {
				return o
			}
		case *Opaque:
			return m.OpaqueWire("host:"+Show(y), 0)
		}
		m.AbortNow("value of type " + x.T.String() + " used as a single circuit variable")
	case *Opaque:
		return m.OpaqueWire("host:"+Show(x), 0)
	}
	m.Undecided("circuit variable " + Show(v))
	return nil
}

// ConcreteBytes extracts constant bytes.
func ConcreteBytes(s Slice) ([]byte, bool) {
	b := make([]byte, len(s))
	for i, e := range s {
		x, ok := e.(int64)
		if !ok {
			return nil, false
		}
		b[i] = byte(x)
	}
	return b, true
}

// WiresOf converts a slice of variables.
func (m *Machine) WiresOf(v Value) []*Wire {
	var elems []Value
	switch x := v.(type) {
	case Slice:
		elems = x
	case Arr:
		elems = x
	case *Value:
		return m.WiresOf(*x)
	default:
		m.Undecided("wires of " + Show(v))
	}
	out := make([]*Wire, len(elems))
	for i := range elems {
		out[i] = m.ToWire(elems[i])
	}
	return out
}

// SliceV wraps wires as []frontend.Variable.
func SliceV(ws ...*Wire) Slice {
	s := make(Slice, len(ws))
	for i, w := range ws {
		s[i] = V(w)
	}
	return s
}

// IsBool reports whether w is known to be 0/1.
func (m *Machine) IsBool(w *Wire) bool {
	if c, ok := w.P.IsConst(); ok {
		return c.Sign() == 0 || c.Cmp(bi(1)) == 0
	}
	if a, ok := w.P.SingleAtom(); ok {
		return a.Bool
	}
	if w.Op == "and" || w.Op == "or" || w.Op == "xor" || w.Op == "iszero" {
		return true
	}
	if w.Op == "select" && m.IsBool(w.Args[1]) && m.IsBool(w.Args[2]) {
		return true
	}
	// p^2 == p for multilinear polynomials over boolean atoms
	if len(w.P.T) <= 64 {
		if sq := m.Sp.Mul(w.P, w.P); sq != nil && poly.Eq(sq, w.P) {
			for _, a := range w.P.AtomsOf() {
				if !a.Bool {
					return false
				}
			}
			return true
		}
	}
	return false
}

func (m *Machine) record(kind string, a, b *Wire, n int, p *poly.Poly) {
	m.Cons = append(m.Cons, &Constraint{Kind: kind, A: a, B: b, N: n, P: p, Pos: m.Pos(), Stack: m.stackNames()})
}

// needBool records the boolean constraint gnark adds for boolean operands.
func (m *Machine) needBool(w *Wire) {
	if m.IsBool(w) {
		return
	}
	if c, ok := w.P.IsConst(); ok {
		m.AbortNow(fmt.Sprintf("constant %s used as a boolean", c))
	}
	m.AssertBool(w)
}

// AssertBool records that w is 0/1.
func (m *Machine) AssertBool(w *Wire) {
	m.record("bool", w, nil, 0, w.P)
	if a, ok := w.P.SingleAtom(); ok {
		a.Bool = true
	} else if len(w.P.T) <= 2 {
		// 1 - a
		p := m.Sp.Sub(m.Sp.Int(1), w.P)
		if a, ok := p.SingleAtom(); ok {
			a.Bool = true
		}
	} else if len(w.P.T) <= 4 {
		// a ^ b = a + b - 2ab (or its complement) with a in {0,1}
		ats := w.P.AtomsOf()
		if len(ats) == 2 {
			for i, a := range ats {
				b := ats[1-i]
				if !a.Bool || b.Bool {
					continue
				}
				x, y := m.Sp.Var(a), m.Sp.Var(b)
				x = m.Sp.Sub(m.Sp.Add(x, y), m.Sp.Scale(m.Sp.Mul(x, y), bi(2)))
				if poly.Eq(w.P, x) || poly.Eq(w.P, m.Sp.Sub(m.Sp.Int(1), x)) {
					b.Bool = true
				}
			}
		}
	}
}

func (m *Machine) add(a, b *Wire) *Wire { return m.node("add", m.Sp.Add(a.P, b.P), a, b) }
func (m *Machine) sub(a, b *Wire) *Wire { return m.node("sub", m.Sp.Sub(a.P, b.P), a, b) }
func (m *Machine) mul(a, b *Wire) *Wire {
	return m.node("mul", m.Sp.Mul(a.P, b.P), a, b)
}

// Exported arithmetic for specifications.
func (m *Machine) Add(a, b *Wire) *Wire { return m.add(a, b) }
func (m *Machine) Sub(a, b *Wire) *Wire { return m.sub(a, b) }
func (m *Machine) Mul(a, b *Wire) *Wire { return m.mul(a, b) }

// Select is y + b(x-y).
func (m *Machine) Select(b, x, y *Wire) *Wire {
	if c, ok := b.P.IsConst(); ok {
		if c.Sign() != 0 {
			return x
		}
		return y
	}
	if poly.Eq(x.P, y.P) {
		return x
	}
	d := m.Sp.Mul(b.P, m.Sp.Sub(x.P, y.P))
	if d == nil {
		return m.node("select", nil, b, x, y)
	}
	return m.node("select", m.Sp.Add(y.P, d), b, x, y)
}

// And/Or/Xor.
func (m *Machine) And(a, b *Wire) *Wire {
	if m.gf2 != nil {
		return m.gf2.op("and", a, b)
	}
	return m.node("and", m.Sp.Mul(a.P, b.P), a, b)
}
func (m *Machine) Or(a, b *Wire) *Wire {
	if m.gf2 != nil {
		return m.gf2.op("or", a, b)
	}
	p := m.Sp.Mul(a.P, b.P)
	if p == nil {
		return m.node("or", nil, a, b)
	}
	return m.node("or", m.Sp.Sub(m.Sp.Add(a.P, b.P), p), a, b)
}
func (m *Machine) Xor(a, b *Wire) *Wire {
	if m.gf2 != nil {
		return m.gf2.op("xor", a, b)
	}
	p := m.Sp.Mul(a.P, b.P)
	if p == nil {
		return m.node("xor", nil, a, b)
	}
	return m.node("xor", m.Sp.AddScaled(m.Sp.Add(a.P, b.P), p, bi(-2)), a, b)
}

// normScale returns the canonical scaling of p (leading coefficient 1).
func (m *Machine) normScale(p *poly.Poly) *poly.Poly {
	if len(p.T) == 0 {
		return p
	}
	lead := p.T[len(p.T)-1].C
	if m.Mod == nil {
		if lead.Sign() < 0 {
			return m.Sp.Scale(p, bi(-1))
		}
		return p
	}
	l := new(big.Int).Mod(lead, m.Mod)
	inv := new(big.Int).ModInverse(l, m.Mod)
	if inv == nil {
		return p
	}
	return m.Sp.Scale(p, inv)
}

// Bounds of a wire from its polynomial and operator.
func (m *Machine) Bounds(w *Wire) (lo, hi *big.Int) {
	if b, ok := m.bnd[w]; ok {
		return b[0], b[1]
	}
	lo, hi = w.P.Bounds()
	meet := func(l, h *big.Int) {
		if l == nil || h == nil {
			return
		}
		if lo == nil || l.Cmp(lo) > 0 {
			lo = l
		}
		if hi == nil || h.Cmp(hi) < 0 {
			hi = h
		}
	}
	switch w.Op {
	case "select":
		l1, h1 := m.Bounds(w.Args[1])
		l2, h2 := m.Bounds(w.Args[2])
		if l1 != nil && l2 != nil && h1 != nil && h2 != nil {
			meet(minBig(l1, l2), maxBig(h1, h2))
		}
	case "and", "or", "xor":
		meet(bi(0), bi(1))
	case "frombits":
		for _, b := range w.Args {
			if !m.IsBool(b) {
				return
			}
		}
		if m.Mod == nil || len(w.Args) < m.Mod.BitLen() {
			meet(bi(0), new(big.Int).Sub(new(big.Int).Lsh(bi(1), uint(len(w.Args))), bi(1)))
		}
	case "add":
		l1, h1 := m.Bounds(w.Args[0])
		l2, h2 := m.Bounds(w.Args[1])
		if l1 != nil && l2 != nil && h1 != nil && h2 != nil && l1.Sign() >= 0 && l2.Sign() >= 0 {
			if h := new(big.Int).Add(h1, h2); m.Mod == nil || h.Cmp(m.Mod) < 0 {
				meet(new(big.Int).Add(l1, l2), h)
			}
		}
	default:
		return
	}
	if m.bnd == nil {
		m.bnd = map[*Wire][2]*big.Int{}
	}
	m.bnd[w] = [2]*big.Int{lo, hi}
	return
}

func minBig(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}

func maxBig(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

// IsZero is the zero test.
func (m *Machine) IsZero(w *Wire) *Wire {
	p := w.P
	if c, ok := p.IsConst(); ok {
		if c.Sign() == 0 {
			return m.ConstI(1)
		}
		return m.ConstI(0)
	}
	if q, ok := m.boolTable(func(v []*big.Int) bool { return v[0].Sign() == 0 }, p); ok {
		return m.node("iszero", q, w)
	}
	lo, hi := m.Bounds(w)
	if lo != nil && (lo.Sign() > 0 || hi.Sign() < 0) && (m.Mod == nil || (hi.CmpAbs(m.Mod) < 0 && lo.CmpAbs(m.Mod) < 0)) {
		return m.node("iszero", m.Sp.Int(0), w)
	}
	np := m.normScale(p)
	at := m.Sp.Atom("isz:"+np.Key(), func(a *poly.Atom) {
		a.Kind = "iszero"
		a.Bool = true
		a.Args = []*poly.Poly{np}
		a.Name = fmt.Sprintf("[%s==0]", m.Sp.String(np))
	})
	n := m.node("iszero", m.Sp.Var(at), w)
	if at.Def == nil {
		at.Def = n
	}
	return n
}

// boolTable is the exact 0/1 polynomial of a predicate over polynomials in at
// most four boolean atoms (values are canonical residues).
func (m *Machine) boolTable(pred func([]*big.Int) bool, ps ...*poly.Poly) (*poly.Poly, bool) {
	var ats []*poly.Atom
	seen := map[*poly.Atom]bool{}
	for _, p := range ps {
		for _, a := range p.AtomsOf() {
			if !a.Bool {
				return nil, false
			}
			if !seen[a] {
				seen[a] = true
				ats = append(ats, a)
			}
		}
	}
	if len(ats) > 4 {
		return nil, false
	}
	idx := map[*poly.Atom]int{}
	for i, a := range ats {
		idx[a] = i
	}
	var sum []*poly.Poly
	for mask := 0; mask < 1<<len(ats); mask++ {
		vals := make([]*big.Int, len(ps))
		for k, p := range ps {
			v := new(big.Int)
			for _, t := range p.T {
				on := true
				for _, a := range t.M.Ats {
					if mask>>idx[a]&1 == 0 {
						on = false
					}
				}
				if on {
					v.Add(v, t.C)
				}
			}
			if m.Mod != nil {
				v.Mod(v, m.Mod)
			}
			vals[k] = v
		}
		if !pred(vals) {
			continue
		}
		cur := m.Sp.Int(1)
		for i, a := range ats {
			lit := m.Sp.Var(a)
			if mask>>i&1 == 0 {
				lit = m.Sp.Sub(m.Sp.Int(1), lit)
			}
			cur = m.Sp.Mul(cur, lit)
		}
		sum = append(sum, cur)
	}
	return m.Sp.Sum(sum...), true
}

// LtAtom returns the 0/1 polynomial [a<b] and eq = [a==b].
func (m *Machine) Lt(a, b *Wire) *Wire {
	d := m.Sp.Sub(a.P, b.P)
	if c, ok := d.IsConst(); ok {
		if ca, ok := a.P.IsConst(); ok {
			cb, _ := b.P.IsConst()
			x, y := ca, cb
			if m.Mod != nil {
				x, y = new(big.Int).Mod(ca, m.Mod), new(big.Int).Mod(cb, m.Mod)
			}
			if x.Cmp(y) < 0 {
				return m.ConstI(1)
			}
			return m.ConstI(0)
		}
		if c.Sign() == 0 {
			return m.ConstI(0)
		}
	}
	la, ha := m.Bounds(a)
	lb, hb := m.Bounds(b)
	if la != nil && lb != nil && la.Sign() >= 0 && lb.Sign() >= 0 && (m.Mod == nil || (ha.Cmp(m.Mod) < 0 && hb.Cmp(m.Mod) < 0)) {
		if ha.Cmp(lb) < 0 {
			return m.node("lt", m.Sp.Int(1), a, b)
		}
		if la.Cmp(hb) >= 0 {
			return m.node("lt", m.Sp.Int(0), a, b)
		}
	}
	if q, ok := m.boolTable(func(v []*big.Int) bool { return v[0].Cmp(v[1]) < 0 }, a.P, b.P); ok {
		return m.node("lt", q, a, b)
	}
	eq := m.IsZero(m.sub(a, b))
	ka, kb := a.P.Key(), b.P.Key()
	mk := func(x, y *Wire, kx, ky string) *Wire {
		at := m.Sp.Atom("lt:"+kx+"<"+ky, func(t *poly.Atom) {
			t.Kind = "lt"
			t.Bool = true
			t.Args = []*poly.Poly{x.P, y.P}
			t.Name = fmt.Sprintf("[%s<%s]", m.Sp.String(x.P), m.Sp.String(y.P))
		})
		n := m.node("lt", m.Sp.Var(at), x, y)
		if at.Def == nil {
			at.Def = n
		}
		if e, ok := eq.P.SingleAtom(); ok {
			m.Sp.Exclude(at, e)
		}
		return n
	}
	if ka < kb {
		return mk(a, b, ka, kb)
	}
	// [a<b] = 1 - [a==b] - [b<a]
	o := mk(b, a, kb, ka)
	p := m.Sp.Sub(m.Sp.Sub(m.Sp.Int(1), eq.P), o.P)
	return m.node("lt", p, a, b)
}

// Cmp is -1,0,1.
func (m *Machine) Cmp(a, b *Wire) *Wire {
	return m.node("cmp", m.Sp.Sub(m.Lt(b, a).P, m.Lt(a, b).P), a, b)
}

// Collapse rewrites complete groups c*Σ 2^i bit(Q,i), i<WordBits, into c*Q
// modulo 2^WordBits.
func (m *Machine) Collapse(p *poly.Poly, wb int) *poly.Poly {
	mod := new(big.Int).Lsh(bi(1), uint(wb))
	half := new(big.Int).Rsh(mod, 1)
	norm := func(c *big.Int) *big.Int {
		c = new(big.Int).Mod(c, mod)
		if c.Cmp(half) > 0 {
			c.Sub(c, mod)
		}
		return c
	}
	acc := map[*poly.Mono]*big.Int{}
	var add func(q *poly.Poly, k *big.Int)
	add = func(q *poly.Poly, k *big.Int) {
		for _, t := range q.T {
			c := new(big.Int).Mul(t.C, k)
			if o, ok := acc[t.M]; ok {
				o.Add(o, c)
			} else {
				acc[t.M] = c
			}
		}
	}
	add(p, bi(1))
	for round := 0; round < 4096; round++ {
		groups := map[string]map[int]*poly.Mono{}
		var gAtom = map[string]*poly.Atom{}
		for mo, c := range acc {
			if norm(c).Sign() == 0 {
				delete(acc, mo)
				continue
			}
			if len(mo.Ats) == 1 && mo.Ats[0].Kind == "wbit" {
				a := mo.Ats[0]
				k := a.Args[0].Key()
				if groups[k] == nil {
					groups[k] = map[int]*poly.Mono{}
					gAtom[k] = a
				}
				groups[k][a.N] = mo
			}
		}
		did := false
		var ks []string
		for k := range groups {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			g := groups[k]
			if len(g) < wb || g[0] == nil {
				continue
			}
			base := norm(acc[g[0]])
			ok := true
			for i := 0; i < wb && ok; i++ {
				if g[i] == nil || norm(acc[g[i]]).Cmp(norm(new(big.Int).Lsh(base, uint(i)))) != 0 {
					// shifted coefficients vanish modulo 2^wb
					if g[i] == nil && norm(new(big.Int).Lsh(base, uint(i))).Sign() == 0 {
						continue
					}
					ok = false
				}
			}
			if !ok {
				continue
			}
			for i := 0; i < wb; i++ {
				if g[i] != nil {
					delete(acc, g[i])
				}
			}
			add(gAtom[k].Args[0], base)
			did = true
		}
		if !did {
			break
		}
	}
	var ps []*poly.Poly
	res := m.Sp.Int(0)
	for mo, c := range acc {
		c = norm(c)
		if c.Sign() == 0 {
			continue
		}
		q := m.Sp.Const(c)
		for _, a := range mo.Ats {
			q = m.Sp.Mul(q, m.Sp.Var(a))
		}
		ps = append(ps, q)
	}
	if len(ps) > 0 {
		res = m.Sp.Sum(ps...)
	}
	return res
}

// ToBits decomposes w into n bits with the range constraint w < 2^n.
func (m *Machine) ToBits(w *Wire, n int, constrained bool) []*Wire {
	if c, ok := w.P.IsConst(); ok {
		cc := c
		if m.Mod != nil {
			cc = new(big.Int).Mod(c, m.Mod)
		}
		if cc.BitLen() > n || cc.Sign() < 0 {
			m.AbortNow(fmt.Sprintf("constant %s does not fit in %d bits", c, n))
		}
		out := make([]*Wire, n)
		for i := range out {
			out[i] = m.ConstI(int64(cc.Bit(i)))
		}
		return out
	}
	fits := false
	if lo, hi := m.Bounds(w); lo != nil && lo.Sign() >= 0 && hi.BitLen() <= n && (m.Mod == nil || hi.Cmp(m.Mod) < 0) {
		fits = true
	}
	if !fits {
		m.record("range", w, nil, n, w.P)
	}
	out := make([]*Wire, n)
	if pos, k, ok := w.P.LinearBits(); ok && constrained {
		max := k.BitLen()
		for i := range pos {
			if i+1 > max {
				max = i + 1
			}
		}
		if m.Mod == nil || max < m.Mod.BitLen() {
			for i := range out {
				switch {
				case pos[i] != nil:
					out[i] = m.node("bit", m.Sp.Var(pos[i]), w)
				default:
					out[i] = m.ConstI(int64(k.Bit(i)))
				}
			}
			return out
		}
	}
	wb := m.API.WordBits
	var cp *poly.Poly
	if wb > 0 && n >= wb && fits && constrained {
		cp = m.Collapse(w.P, wb)
		// a lone complete word collapses to the word itself
	}
	for i := range out {
		var at *poly.Atom
		if cp != nil && i < wb {
			if c, ok := cp.IsConst(); ok {
				cc := new(big.Int).Mod(c, new(big.Int).Lsh(bi(1), uint(wb)))
				out[i] = m.ConstI(int64(cc.Bit(i)))
				continue
			}
			at = m.WordBit(cp, i)
		} else {
			if constrained {
				at = m.bitAtom(w.P, i)
			} else {
				at = m.Sp.Atom(m.Sp.FreshKey("ubit"), func(a *poly.Atom) {
					a.Kind = "ubit"
					a.N = i
					a.Args = []*poly.Poly{w.P}
					a.Name = fmt.Sprintf("unconstrained bit%d #%d", i, a.ID)
				})
			}
		}
		out[i] = m.node("bit", m.Sp.Var(at), w)
		if !constrained {
			m.loose(out[i], "decomposed without a boolean constraint")
		}
		if at.Def == nil {
			at.Def = out[i]
		}
	}
	return out
}

// BitOf is bit i of the value p, as ToBits names it.
func (m *Machine) BitOf(p *poly.Poly, i int) *poly.Poly {
	if pos, k, ok := p.LinearBits(); ok {
		if pos[i] != nil {
			return m.Sp.Var(pos[i])
		}
		return m.Sp.Int(int64(k.Bit(i)))
	}
	return m.Sp.Var(m.bitAtom(p, i))
}

func (m *Machine) bitAtom(p *poly.Poly, i int) *poly.Atom {
	return m.Sp.Atom(fmt.Sprintf("bit:%d:%s", i, p.Key()), func(a *poly.Atom) {
		a.Kind = "bit"
		a.N = i
		a.Bool = true
		a.Args = []*poly.Poly{p}
		if len(p.T) > 6 {
			a.Name = fmt.Sprintf("bit%d(sum of %d terms #%d)", i, len(p.T), a.ID)
		} else {
			a.Name = fmt.Sprintf("bit%d(%s)", i, m.Sp.String(p))
		}
	})
}

// WordBit is bit i of the canonical polynomial p modulo 2^WordBits.
func (m *Machine) WordBit(p *poly.Poly, i int) *poly.Atom {
	return m.Sp.Atom(fmt.Sprintf("wbit:%d:%s", i, p.Key()), func(a *poly.Atom) {
		a.Kind = "wbit"
		a.N = i
		a.Bool = true
		a.Args = []*poly.Poly{p}
		a.Name = fmt.Sprintf("wbit%d#%d", i, a.ID)
	})
}

// AssertEq records a == b.
func (m *Machine) AssertEq(a, b *Wire) {
	d := m.Sp.Sub(a.P, b.P)
	if len(d.T) == 0 {
		return
	}
	m.record("eq", a, b, 0, d)
}

func (a *API) variadic(v Value) []Value {
	switch s := v.(type) {
	case Slice:
		return s
	}
	a.m.Undecided("variadic " + Show(v))
	return nil
}

func (a *API) nbits(args []Value) int {
	if len(args) > 1 {
		v := a.variadic(args[1])
		if len(v) > 0 {
			return int(a.m.intIndex(v[0]))
		}
	}
	return a.m.Mod.BitLen()
}

// Invoke implements frontend.API and frontend.Compiler.
func (a *API) Invoke(m *Machine, method string, args []Value) Value {
	if h, ok := m.Over["api."+method]; ok {
		if r := h(m, &Call{nil, args, m.Pos()}); r != notHandled {
			return r
		}
	}
	w := func(i int) *Wire { return m.ToWire(args[i]) }
	switch method {
	case "Add", "Sub", "Mul":
		r := w(0)
		ops := []*Wire{w(1)}
		if len(args) > 2 {
			for _, v := range a.variadic(args[2]) {
				ops = append(ops, m.ToWire(v))
			}
		}
		for _, o := range ops {
			switch method {
			case "Add":
				r = m.add(r, o)
			case "Sub":
				r = m.sub(r, o)
			default:
				r = m.mul(r, o)
			}
		}
		return V(r)
	case "MulAcc":
		return V(m.add(w(0), m.mul(w(1), w(2))))
	case "Neg":
		return V(m.sub(m.ConstI(0), w(0)))
	case "Div", "DivUnchecked", "Inverse":
		var num, den *Wire
		if method == "Inverse" {
			num, den = m.ConstI(1), w(0)
		} else {
			num, den = w(0), w(1)
		}
		if c, ok := den.P.IsConst(); ok && m.Mod != nil {
			cc := new(big.Int).Mod(c, m.Mod)
			if cc.Sign() == 0 {
				m.AbortNow("division by constant zero")
			}
			inv := new(big.Int).ModInverse(cc, m.Mod)
			return V(m.node("mul", m.Sp.Scale(num.P, inv), num, m.Const(inv)))
		}
		iv := m.OpaqueWire("inv", 0, m.PolyWire(den.P))
		if method != "DivUnchecked" {
			m.record("ne", den, m.ConstI(0), 0, den.P)
		}
		return V(m.mul(num, iv))
	case "ToBinary":
		return SliceV(m.apiToBinary(w(0), a.nbits(args))...)
	case "FromBinary":
		return V(m.FromBits(m.wiresOf(a.variadic(args[0])), true))
	case "Xor", "Or", "And":
		x, y := w(0), w(1)
		m.needBool(x)
		m.needBool(y)
		switch method {
		case "Xor":
			return V(m.Xor(x, y))
		case "Or":
			return V(m.Or(x, y))
		}
		return V(m.And(x, y))
	case "Select":
		b := w(0)
		m.needBool(b)
		return V(m.Select(b, w(1), w(2)))
	case "Lookup2":
		b0, b1 := w(0), w(1)
		m.needBool(b0)
		m.needBool(b1)
		return V(m.Select(b1, m.Select(b0, w(5), w(4)), m.Select(b0, w(3), w(2))))
	case "IsZero":
		return V(m.IsZero(w(0)))
	case "Cmp":
		return V(m.Cmp(w(0), w(1)))
	case "AssertIsEqual":
		m.AssertEq(w(0), w(1))
		return nil
	case "AssertIsDifferent":
		x, y := w(0), w(1)
		m.record("ne", x, y, 0, m.Sp.Sub(x.P, y.P))
		return nil
	case "AssertIsBoolean":
		x := w(0)
		if !m.IsBool(x) {
			m.AssertBool(x)
		}
		return nil
	case "AssertIsCrumb":
		m.record("crumb", w(0), nil, 0, w(0).P)
		return nil
	case "AssertIsLessOrEqual":
		m.record("le", w(0), w(1), 0, m.Sp.Sub(w(1).P, w(0).P))
		return nil
	case "Println":
		return nil
	case "Compiler":
		return m.APIValue()
	case "NewHint":
		n := int(m.intIndex(args[1]))
		a.hints++
		var ins []*Wire
		for _, v := range a.variadic(args[2]) {
			ins = append(ins, m.ToWire(v))
		}
		out := make(Slice, n)
		for i := range out {
			i := i
			id := a.hints
			at := m.Sp.Atom(fmt.Sprintf("hint:%d.%d", id, i), func(t *poly.Atom) {
				t.Kind = "hint"
				t.N = i
				t.Name = fmt.Sprintf("hint%d.%d", id, i)
			})
			wi := m.node("hint", m.Sp.Var(at), ins...)
			at.Def = wi
			out[i] = V(wi)
		}
		m.Events = append(m.Events, Event{"hint", []Value{args[0], out}, m.Pos()})
		return Tuple{out, NilErr}
	case "ConstantValue":
		x := w(0)
		if c, ok := x.P.IsConst(); ok {
			return Tuple{m.NewBig(m.Z.Const(new(big.Int).Mod(c, m.Mod))), true}
		}
		return Tuple{(*Value)(nil), false}
	case "Field":
		return m.NewBig(m.Z.Const(m.Mod))
	case "FieldBitLen":
		return int64(m.Mod.BitLen())
	case "MarkBoolean":
		m.loose(w(0), "marked boolean without a constraint")
		return nil
	case "IsBoolean":
		return m.IsBool(w(0))
	case "Defer":
		a.Deferred = append(a.Deferred, args[0])
		return nil
	case "Curve":
		return m.OpaqueOf(types.Typ[types.Int], "curve")
	}
	m.Undecided("api method " + method)
	return nil
}

func (m *Machine) wiresOf(vs []Value) []*Wire {
	out := make([]*Wire, len(vs))
	for i := range vs {
		out[i] = m.ToWire(vs[i])
	}
	return out
}

func (m *Machine) apiToBinary(w *Wire, n int) []*Wire {
	if n == 1 {
		if !m.IsBool(w) {
			m.AssertBool(w)
		}
		return []*Wire{w}
	}
	return m.ToBits(w, n, true)
}

// FromBits is Σ 2^i b_i.
func (m *Machine) FromBits(bits []*Wire, check bool) *Wire {
	var ps []*poly.Poly
	for i, b := range bits {
		if check {
			m.needBool(b)
		} else {
			m.loose(b, "recomposed without a boolean constraint")
		}
		ps = append(ps, m.Sp.Scale(b.P, new(big.Int).Lsh(bi(1), uint(i))))
	}
	p := m.Sp.Sum(ps...)
	var bp []*poly.Poly
	for _, b := range bits {
		bp = append(bp, b.P)
	}
	if q := m.FoldBits(bp); q != nil {
		p = q
	}
	return m.node("frombits", p, bits...)
}

// FoldBits returns q if the bits are the complete decomposition of q.
func (m *Machine) FoldBits(bits []*poly.Poly) *poly.Poly {
	if len(bits) == 0 {
		return nil
	}
	a, ok := bits[0].SingleAtom()
	if !ok || a.Kind != "bit" || a.N != 0 {
		return nil
	}
	q := a.Args[0]
	for i, b := range bits {
		x, ok := b.SingleAtom()
		if !ok || x.Kind != "bit" || x.N != i || !poly.Eq(x.Args[0], q) {
			return nil
		}
	}
	if m.rangeKnown(q, len(bits)) {
		return q
	}
	return nil
}

// rangeKnown reports whether q < 2^n is enforced or implied.
func (m *Machine) rangeKnown(q *poly.Poly, n int) bool {
	if lo, hi := q.Bounds(); lo != nil && lo.Sign() >= 0 && hi.BitLen() <= n {
		return true
	}
	for _, c := range m.Cons {
		if c.Kind == "range" && c.N <= n && poly.Eq(c.P, q) {
			return true
		}
	}
	return false
}

// RangeKnown reports whether 0 <= q < 2^n is enforced or implied.
func (m *Machine) RangeKnown(q *poly.Poly, n int) bool { return m.rangeKnown(q, n) }

var _ = token.NoPos
