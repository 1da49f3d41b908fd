package rules

import (
	"fmt"
	"math/big"
	"strings"

	"zkcheck/internal/ai"
	"zkcheck/internal/poly"
)

const G = "circuits/gadgets/"

func pow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

// sub solves the hint equations of m: the returned substitution maps every
// hint output that the recorded constraints determine uniquely to its value.
// Hint outputs that are not determined are listed in open.
type hintSolution struct {
	m    *ai.Machine
	val  map[*poly.Atom]*poly.Poly
	open []string
}

// solveHints applies the unique-recomposition rule: an equation
// Σ c·2^o_i·h_i + rest == 0 whose hint atoms h_i are range-bound to n_i bits
// with disjoint windows [o_i,o_i+n_i) below the field size determines each
// h_i as the corresponding window of -rest/c.
func solveHints(m *ai.Machine) *hintSolution {
	s := &hintSolution{m: m, val: map[*poly.Atom]*poly.Poly{}}
	rng := map[*poly.Atom]int{}
	hints := map[*poly.Atom]string{}
	for _, w := range m.Wires {
		if w.Op == "hint" {
			if a, ok := w.P.SingleAtom(); ok {
				hints[a] = m.Prog.Pos(w.Pos)
			}
		}
	}
	for _, c := range m.Cons {
		a, ok := c.P.SingleAtom()
		if !ok {
			continue
		}
		n := -1
		switch c.Kind {
		case "range":
			n = c.N
		case "bool":
			n = 1
		}
		if n >= 0 {
			if o, ok := rng[a]; !ok || n < o {
				rng[a] = n
			}
		}
	}
	isHint := func(a *poly.Atom) bool { return a.Kind == "hint" }
	for changed := true; changed; {
		changed = false
		for _, c := range m.Cons {
			if c.Kind != "eq" {
				continue
			}
			p := m.Sp.Subst(c.P, func(a *poly.Atom) *poly.Poly { return s.val[a] })
			if p == nil {
				continue
			}
			if s.solveEq(p, rng, isHint) {
				changed = true
			}
		}
	}
	for a, pos := range hints {
		if s.val[a] == nil {
			why := "no equation determines it"
			if _, ok := rng[a]; !ok {
				why = "it has no range constraint, so the recomposition has several solutions"
			}
			s.open = append(s.open, fmt.Sprintf("hint output %s created at %s is not uniquely determined: %s", a.Name, pos, why))
		}
	}
	return s
}

func (s *hintSolution) solveEq(p *poly.Poly, rng map[*poly.Atom]int, isHint func(*poly.Atom) bool) bool {
	m := s.m
	type ht struct {
		a *poly.Atom
		c *big.Int
	}
	var hs []ht
	rest := m.Sp.Int(0)
	for _, t := range p.T {
		hasHint := false
		for _, a := range t.M.Ats {
			if isHint(a) {
				hasHint = true
			}
		}
		if !hasHint {
			q := m.Sp.Const(t.C)
			for _, a := range t.M.Ats {
				q = m.Sp.Mul(q, m.Sp.Var(a))
			}
			rest = m.Sp.Add(rest, q)
			continue
		}
		if len(t.M.Ats) != 1 {
			return false
		}
		hs = append(hs, ht{t.M.Ats[0], t.C})
	}
	if len(hs) == 0 {
		return false
	}
	// normalise sign/scale by the coefficient of smallest magnitude
	best := hs[0].c
	for _, h := range hs {
		if h.c.CmpAbs(best) < 0 {
			best = h.c
		}
	}
	inv := new(big.Int).ModInverse(new(big.Int).Mod(best, m.Mod), m.Mod)
	if inv == nil {
		return false
	}
	type win struct {
		a    *poly.Atom
		o, n int
	}
	var ws []win
	used := map[int]bool{}
	total := 0
	for _, h := range hs {
		c := new(big.Int).Mod(new(big.Int).Mul(h.c, inv), m.Mod)
		k := int(c.TrailingZeroBits())
		if c.BitLen() != k+1 {
			return false
		}
		n, ok := rng[h.a]
		if !ok {
			if len(hs) == 1 {
				// h == -rest: determined without a range
				s.val[h.a] = m.Sp.Scale(rest, new(big.Int).Neg(inv))
				return true
			}
			return false
		}
		for j := k; j < k+n; j++ {
			if used[j] {
				return false
			}
			used[j] = true
		}
		if k+n > total {
			total = k + n
		}
		ws = append(ws, win{h.a, k, n})
	}
	if total >= m.Mod.BitLen() {
		return false
	}
	val := m.Sp.Scale(rest, new(big.Int).Neg(inv))
	bits := m.ToBits(m.PolyWire(val), total, true)
	for _, w := range ws {
		v := m.Sp.Int(0)
		for j := 0; j < w.n; j++ {
			v = m.Sp.Add(v, m.Sp.Scale(bits[w.o+j].P, pow2(j)))
		}
		s.val[w.a] = v
	}
	return true
}

// Val resolves hint atoms in p.
func (s *hintSolution) Val(p *poly.Poly) *poly.Poly {
	q := s.m.Sp.Subst(p, func(a *poly.Atom) *poly.Poly { return s.val[a] })
	if q == nil {
		return p
	}
	return q
}

// mustClosed fails when a hint output is unconstrained.
func (s *hintSolution) mustClosed() {
	if len(s.open) > 0 {
		Failf("%s", strings.Join(s.open, "; "))
	}
}

// bitsVal is Σ 2^i name[lo+i], i<n (LSB-first input bits).
func bitsVal(m *ai.Machine, name string, lo, n int) *poly.Poly {
	v := m.Sp.Int(0)
	for i := 0; i < n; i++ {
		v = m.Sp.Add(v, m.Sp.Scale(m.Sp.Var(m.BitAtom(name, lo+i)), pow2(i)))
	}
	return v
}

func mustEq(m *ai.Machine, what string, got, want *poly.Poly) {
	if !poly.Eq(got, want) {
		Failf("%s: computes %s, must be %s", what, clip(m.Sp.String(got)), clip(m.Sp.String(want)))
	}
}

func clip(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

// asSlice unwraps a slice result.
func asSlice(v ai.Value) ai.Slice {
	switch x := v.(type) {
	case ai.Slice:
		return x
	case ai.Arr:
		return ai.Slice(x)
	case *ai.Value:
		if x != nil {
			return asSlice(*x)
		}
	}
	Failf("result is %s, not a slice", ai.Show(v))
	return nil
}

func mustLen(what string, n, want int) {
	if n != want {
		Failf("%s: length %d, must be %d", what, n, want)
	}
}

// violated reports a recorded constraint that no assignment can satisfy.
func violated(m *ai.Machine) string {
	for _, c := range m.Cons {
		if s := consViolated(m, c, nil); s != "" {
			return s
		}
	}
	return ""
}

// env gives forced intervals of atoms.
type env map[*poly.Atom][2]*big.Int

func force(e env, a *poly.Atom, v int64) env {
	n := env{}
	for k, x := range e {
		n[k] = x
	}
	n[a] = [2]*big.Int{big.NewInt(v), big.NewInt(v)}
	return n
}

type evaluator struct {
	m    *ai.Machine
	e    env
	memo map[*poly.Atom][2]*big.Int
}

func newEval(m *ai.Machine, e env) *evaluator {
	return &evaluator{m, e, map[*poly.Atom][2]*big.Int{}}
}

var (
	b0 = big.NewInt(0)
	b1 = big.NewInt(1)
)

// Atom is the interval of an atom (nil bounds: unknown).
func (v *evaluator) Atom(a *poly.Atom) (lo, hi *big.Int) {
	if x, ok := v.e[a]; ok {
		return x[0], x[1]
	}
	if x, ok := v.memo[a]; ok {
		return x[0], x[1]
	}
	lo, hi = v.atom(a)
	v.memo[a] = [2]*big.Int{lo, hi}
	return
}

func (v *evaluator) atom(a *poly.Atom) (lo, hi *big.Int) {
	switch a.Kind {
	case "iszero":
		l, h := v.Poly(a.Args[0])
		if l != nil && h != nil && h.CmpAbs(v.m.Mod) < 0 && l.CmpAbs(v.m.Mod) < 0 {
			if l.Sign() > 0 || h.Sign() < 0 {
				return b0, b0
			}
			if l.Sign() == 0 && h.Sign() == 0 {
				return b1, b1
			}
		}
		return b0, b1
	case "lt":
		l1, h1 := v.Poly(a.Args[0])
		l2, h2 := v.Poly(a.Args[1])
		if l1 != nil && l2 != nil && l1.Sign() >= 0 && l2.Sign() >= 0 && h1.Cmp(v.m.Mod) < 0 && h2.Cmp(v.m.Mod) < 0 {
			if h1.Cmp(l2) < 0 {
				return b1, b1
			}
			if l1.Cmp(h2) >= 0 {
				return b0, b0
			}
		}
		return b0, b1
	case "bit", "wbit":
		return b0, b1
	}
	if w, ok := a.Def.(*ai.Wire); ok && len(w.Args) > 0 {
		return v.wireOp(w)
	}
	if a.Bool {
		return b0, b1
	}
	return a.Lo, a.Hi
}

func (v *evaluator) wireOp(w *ai.Wire) (lo, hi *big.Int) {
	iv := func(i int) (l, h *big.Int) { return v.Poly(w.Args[i].P) }
	switch w.Op {
	case "and", "mul":
		l1, h1 := iv(0)
		l2, h2 := iv(1)
		if l1 != nil && h1.Sign() == 0 && l1.Sign() == 0 {
			return b0, b0
		}
		if l2 != nil && h2.Sign() == 0 && l2.Sign() == 0 {
			return b0, b0
		}
		if l1 == nil || l2 == nil {
			return nil, nil
		}
		return mulIv(l1, h1, l2, h2)
	case "or":
		l1, h1 := iv(0)
		l2, h2 := iv(1)
		if l1 == nil || l2 == nil {
			return b0, b1
		}
		return maxB(l1, l2), maxB(h1, h2)
	case "xor":
		l1, h1 := iv(0)
		l2, h2 := iv(1)
		if l1 != nil && l2 != nil && l1.Cmp(h1) == 0 && l2.Cmp(h2) == 0 {
			x := new(big.Int).Xor(l1, l2)
			return x, x
		}
		return b0, b1
	case "select":
		l, h := iv(0)
		l1, h1 := iv(1)
		l2, h2 := iv(2)
		if l != nil && l.Cmp(h) == 0 {
			if l.Sign() != 0 {
				return l1, h1
			}
			return l2, h2
		}
		if l1 == nil || l2 == nil {
			return nil, nil
		}
		return minB(l1, l2), maxB(h1, h2)
	}
	return nil, nil
}

func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}
func mulIv(l1, h1, l2, h2 *big.Int) (lo, hi *big.Int) {
	c := []*big.Int{new(big.Int).Mul(l1, l2), new(big.Int).Mul(l1, h2), new(big.Int).Mul(h1, l2), new(big.Int).Mul(h1, h2)}
	lo, hi = c[0], c[0]
	for _, x := range c[1:] {
		lo, hi = minB(lo, x), maxB(hi, x)
	}
	return
}

// Poly is the interval of a polynomial.
func (v *evaluator) Poly(p *poly.Poly) (lo, hi *big.Int) {
	lo, hi = new(big.Int), new(big.Int)
	for _, t := range p.T {
		l, h := big.NewInt(1), big.NewInt(1)
		unknown := false
		for _, a := range t.M.Ats {
			al, ah := v.Atom(a)
			if al != nil && al.Sign() == 0 && ah.Sign() == 0 {
				l, h, unknown = b0, b0, false
				break
			}
			if al == nil || ah == nil {
				unknown = true
				continue
			}
			l, h = mulIv(l, h, al, ah)
		}
		if unknown {
			return nil, nil
		}
		cl, ch := new(big.Int).Mul(l, t.C), new(big.Int).Mul(h, t.C)
		if t.C.Sign() < 0 {
			cl, ch = ch, cl
		}
		lo.Add(lo, cl)
		hi.Add(hi, ch)
	}
	return
}

// consViolated reports whether constraint c cannot hold under e.
func consViolated(m *ai.Machine, c *ai.Constraint, e env) string {
	v := newEval(m, e)
	return v.violated(c)
}

func (v *evaluator) violated(c *ai.Constraint) string {
	m := v.m
	where := func() string { return fmt.Sprintf("%s constraint at %s", c.Kind, m.Prog.Pos(c.Pos)) }
	mod := func(p *poly.Poly) (lo, hi *big.Int) {
		l, h := v.Poly(p)
		if l == nil {
			return nil, nil
		}
		if l.Cmp(h) == 0 {
			x := new(big.Int).Mod(l, m.Mod)
			return x, x
		}
		if l.Sign() >= 0 && h.Cmp(m.Mod) < 0 {
			return l, h
		}
		if h.Sign() < 0 && new(big.Int).Neg(l).Cmp(m.Mod) < 0 {
			return new(big.Int).Add(l, m.Mod), new(big.Int).Add(h, m.Mod)
		}
		return nil, nil
	}
	switch c.Kind {
	case "eq":
		l, h := v.Poly(c.P)
		if l != nil && l.CmpAbs(m.Mod) < 0 && h.CmpAbs(m.Mod) < 0 && (l.Sign() > 0 || h.Sign() < 0) {
			return where()
		}
	case "ne":
		l, h := v.Poly(c.P)
		if l != nil && l.Sign() == 0 && h.Sign() == 0 {
			return where()
		}
	case "bool":
		l, _ := mod(c.P)
		if l != nil && l.Cmp(b1) > 0 {
			return where()
		}
	case "range":
		l, _ := mod(c.P)
		if l != nil && l.BitLen() > c.N {
			return where()
		}
	case "le":
		l1, _ := mod(c.A.P)
		_, h2 := mod(c.B.P)
		if l1 != nil && h2 != nil && l1.Cmp(h2) > 0 {
			return where()
		}
	case "lt":
		l1, _ := mod(c.A.P)
		_, h2 := mod(c.B.P)
		if l1 != nil && h2 != nil && l1.Cmp(h2) >= 0 {
			return where()
		}
	}
	return ""
}

// unsat reports whether some constraint is violated under e.
func unsat(m *ai.Machine, e env) string {
	v := newEval(m, e)
	for _, c := range m.Cons {
		if s := v.violated(c); s != "" {
			return s
		}
	}
	return ""
}

// constInt returns the constant value of a wire.
func constInt(m *ai.Machine, w *ai.Wire) (*big.Int, bool) {
	c, ok := w.P.IsConst()
	if !ok {
		return nil, false
	}
	return new(big.Int).Mod(c, m.Mod), true
}

// wireEval evaluates wires along the recorded operations, which keeps the
// branches of selections apart where the expanded polynomial does not.
type wireEval struct {
	v    *evaluator
	memo map[*ai.Wire][2]*big.Int
}

func newWireEval(m *ai.Machine, e env) *wireEval {
	return &wireEval{newEval(m, e), map[*ai.Wire][2]*big.Int{}}
}

func (x *wireEval) Wire(w *ai.Wire) (lo, hi *big.Int) {
	if r, ok := x.memo[w]; ok {
		return r[0], r[1]
	}
	lo, hi = x.wire(w)
	x.memo[w] = [2]*big.Int{lo, hi}
	return
}

func (x *wireEval) wire(w *ai.Wire) (lo, hi *big.Int) {
	if w.P != nil {
		if len(w.P.T) == 0 {
			return b0, b0
		}
		if k, ok := w.P.IsConst(); ok {
			return k, k
		}
		if a, ok := w.P.SingleAtom(); ok {
			if r, ok := x.v.e[a]; ok {
				return r[0], r[1]
			}
		}
		if len(w.P.T) <= 6 || len(w.Args) == 0 {
			lo, hi = x.v.Poly(w.P)
			if lo != nil && lo.Cmp(hi) == 0 {
				return
			}
		}
	}
	meet := func(l, h *big.Int) {
		if l == nil || h == nil {
			return
		}
		if lo == nil || l.Cmp(lo) > 0 {
			lo = l
		}
		if hi == nil || h.Cmp(hi) < 0 {
			hi = h
		}
	}
	arg := func(i int) (l, h *big.Int) { return x.Wire(w.Args[i]) }
	mod := x.v.m.Mod
	small := func(b *big.Int) bool { return b != nil && (mod == nil || b.CmpAbs(mod) < 0) }
	switch w.Op {
	case "add", "sub", "mul", "and", "or":
		if len(w.Args) != 2 {
			break
		}
		l1, h1 := arg(0)
		l2, h2 := arg(1)
		if (w.Op == "and" || w.Op == "mul") && (l1 != nil && l1.Sign() == 0 && h1.Sign() == 0 || l2 != nil && l2.Sign() == 0 && h2.Sign() == 0) {
			return b0, b0
		}
		if !small(l1) || !small(l2) || !small(h1) || !small(h2) {
			break
		}
		var l, h *big.Int
		switch w.Op {
		case "add":
			l, h = new(big.Int).Add(l1, l2), new(big.Int).Add(h1, h2)
		case "sub":
			l, h = new(big.Int).Sub(l1, h2), new(big.Int).Sub(h1, l2)
		case "or":
			l, h = maxB(l1, l2), maxB(h1, h2)
		default:
			l, h = mulIv(l1, h1, l2, h2)
		}
		if small(l) && small(h) {
			meet(l, h)
		}
	case "select":
		l, h := arg(0)
		if l != nil && l.Cmp(h) == 0 {
			if l.Sign() != 0 {
				return arg(1)
			}
			return arg(2)
		}
		l1, h1 := arg(1)
		l2, h2 := arg(2)
		if l1 != nil && l2 != nil && h1 != nil && h2 != nil {
			meet(minB(l1, l2), maxB(h1, h2))
		}
	case "iszero":
		l, h := arg(0)
		if small(l) && small(h) {
			if l.Sign() > 0 || h.Sign() < 0 {
				return b0, b0
			}
			if l.Sign() == 0 && h.Sign() == 0 {
				return b1, b1
			}
		}
		meet(b0, b1)
	}
	if lo == nil && w.P != nil {
		lo, hi = x.v.Poly(w.P)
	}
	return
}

// constOf substitutes every atom whose interval under v is a single value.
func (v *evaluator) constOf(p *poly.Poly) *poly.Poly {
	q := v.m.Sp.Subst(p, func(a *poly.Atom) *poly.Poly {
		lo, hi := v.Atom(a)
		if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
			return v.m.Sp.Const(lo)
		}
		return nil
	})
	if q == nil {
		return p
	}
	return q
}

// splitEval bounds w under e by case distinction on the undetermined boolean
// atoms that occur in products, at most depth deep.
func splitEval(m *ai.Machine, e env, w *ai.Wire, depth int) (lo, hi *big.Int) {
	v := newEval(m, e)
	lo, hi = v.Poly(w.P)
	if lo != nil && lo.Cmp(hi) == 0 {
		return
	}
	// simplify the polynomials below the zero tests
	e2 := force(e, nil, 0)
	delete(e2, nil)
	var best *poly.Atom
	cnt := map[*poly.Atom]int{}
	seen := map[*poly.Atom]bool{}
	var visit func(p *poly.Poly, lvl int)
	visit = func(p *poly.Poly, lvl int) {
		q := v.constOf(p)
		for _, a := range q.AtomsOf() {
			if a.Kind == "iszero" && !seen[a] {
				seen[a] = true
				r := v.constOf(a.Args[0])
				l, h := v.Poly(r)
				if l != nil && h != nil && l.CmpAbs(m.Mod) < 0 && h.CmpAbs(m.Mod) < 0 {
					if l.Sign() > 0 || h.Sign() < 0 {
						e2[a] = [2]*big.Int{b0, b0}
						continue
					}
					if l.Sign() == 0 && h.Sign() == 0 {
						e2[a] = [2]*big.Int{b1, b1}
						continue
					}
				}
				if lvl < 4 {
					visit(r, lvl+1)
				}
			}
		}
		for _, t := range q.T {
			if len(t.M.Ats) < 2 {
				continue
			}
			for _, a := range t.M.Ats {
				if a.Bool {
					cnt[a]++
					if best == nil || cnt[a] > cnt[best] || cnt[a] == cnt[best] && a.ID < best.ID {
						best = a
					}
				}
			}
		}
	}
	visit(w.P, 0)
	lo, hi = newEval(m, e2).Poly(w.P)
	if lo != nil && lo.Cmp(hi) == 0 || depth == 0 || best == nil {
		return
	}
	l1, h1 := splitEval(m, force(e2, best, 0), w, depth-1)
	if l1 == nil || l1.Cmp(h1) != 0 {
		return l1, h1
	}
	l2, h2 := splitEval(m, force(e2, best, 1), w, depth-1)
	if l2 == nil {
		return l2, h2
	}
	return minB(l1, l2), maxB(h1, h2)
}
