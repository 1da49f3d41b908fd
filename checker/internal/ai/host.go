package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"zkcheck/internal/poly"
)

// ---- abstract machine integers (bit provenance) ----

// HBits makes an abstract integer of w bits named name.
func (m *Machine) HBits(name string, w int) *HInt {
	h := &HInt{Bits: make([]*poly.Poly, w)}
	for i := range h.Bits {
		h.Bits[i] = m.Z.Var(m.BitAtom(name, i))
	}
	return h
}

// HBytes makes n abstract bytes.
func (m *Machine) HBytes(name string, n int) Slice {
	s := make(Slice, n)
	for i := range s {
		s[i] = m.HBits(fmt.Sprintf("%s[%d]", name, i), 8)
	}
	return s
}

func (m *Machine) asHInt(v Value, w int, signed bool) (*HInt, bool) {
	switch x := v.(type) {
	case *HInt:
		if len(x.Bits) != w {
			return m.resize(x, w, signed), true
		}
		return x, true
	case int64:
		h := &HInt{Bits: make([]*poly.Poly, w), Signed: signed}
		for i := range h.Bits {
			h.Bits[i] = m.Z.Int(x >> uint(i) & 1)
		}
		return h, true
	}
	return nil, false
}

func (m *Machine) resize(h *HInt, w int, signed bool) *HInt {
	o := &HInt{Bits: make([]*poly.Poly, w), Signed: signed}
	for i := range o.Bits {
		switch {
		case i < len(h.Bits):
			o.Bits[i] = h.Bits[i]
		case h.Signed:
			o.Bits[i] = h.Bits[len(h.Bits)-1]
		default:
			o.Bits[i] = m.Z.Int(0)
		}
	}
	return o
}

// smallPred is the 0/1 value of pred on an unsigned integer with at most 8
// undetermined bits.
func (m *Machine) smallPred(h *HInt, pred func(*big.Int) bool) (Value, bool) {
	var open []int
	base := new(big.Int)
	for i, b := range h.Bits {
		if c, ok := b.IsConst(); ok {
			base.SetBit(base, i, uint(c.Int64()))
			continue
		}
		if a, ok := b.SingleAtom(); !ok || !a.Bool {
			return nil, false
		}
		open = append(open, i)
	}
	if len(open) > 8 || h.Signed && len(open) > 0 && open[len(open)-1] == len(h.Bits)-1 {
		return nil, false
	}
	var rec func(k int, v *big.Int) *poly.Poly
	rec = func(k int, v *big.Int) *poly.Poly {
		if k < 0 {
			if pred(v) {
				return m.Z.Int(1)
			}
			return m.Z.Int(0)
		}
		a := rec(k-1, new(big.Int).SetBit(v, open[k], 1))
		b := rec(k-1, v)
		if poly.Eq(a, b) {
			return a
		}
		return m.Z.Add(b, m.Z.Mul(h.Bits[open[k]], m.Z.Sub(a, b)))
	}
	return m.hbool(rec(len(open)-1, base)), true
}

func (m *Machine) hConst(h *HInt) (int64, bool) {
	var v int64
	for i, b := range h.Bits {
		c, ok := b.IsConst()
		if !ok {
			return 0, false
		}
		if c.Sign() != 0 {
			v |= 1 << uint(i)
		}
	}
	return v, true
}

func (m *Machine) hEqual(a, b *HInt) bool {
	same := true
	for i := range a.Bits {
		if poly.Eq(a.Bits[i], b.Bits[i]) {
			continue
		}
		d := m.Z.Sub(a.Bits[i], b.Bits[i])
		if c, ok := d.IsConst(); ok && c.Sign() != 0 {
			return false
		}
		same = false
	}
	if !same {
		m.Undecided("comparison of abstract integers")
	}
	return true
}

func (m *Machine) hNot(h *HInt) *HInt {
	o := &HInt{Signed: h.Signed}
	for _, b := range h.Bits {
		o.Bits = append(o.Bits, m.Z.Sub(m.Z.Int(1), b))
	}
	return o
}

// hPoly is the unsigned value of h.
func (m *Machine) hPoly(h *HInt) *poly.Poly {
	var ps []*poly.Poly
	for i, b := range h.Bits {
		ps = append(ps, m.Z.Scale(b, new(big.Int).Lsh(bi(1), uint(i))))
	}
	return m.Z.Sum(ps...)
}

// HPoly is the value of an integer value as an integer polynomial.
func (m *Machine) HPoly(v Value) *poly.Poly {
	switch x := v.(type) {
	case int64:
		return m.Z.Int(x)
	case *HInt:
		return m.hPoly(x)
	case *Opaque:
		return m.Z.Var(m.Z.Atom("op:"+Show(x), func(a *poly.Atom) { a.Name = Show(x) }))
	}
	m.Undecided("integer " + Show(v))
	return nil
}

func (m *Machine) simplify(h *HInt) Value {
	if v, ok := m.hConst(h); ok {
		w := len(h.Bits)
		if h.Signed && w < 64 && v>>(uint(w)-1)&1 == 1 {
			v |= -1 << uint(w)
		}
		return v
	}
	return h
}

func (m *Machine) hConvert(h *HInt, from, to types.BasicKind) Value {
	w := width(to)
	o := &HInt{Bits: make([]*poly.Poly, w), Signed: !isUnsigned(to)}
	for i := range o.Bits {
		switch {
		case i < len(h.Bits):
			o.Bits[i] = h.Bits[i]
		case h.Signed:
			o.Bits[i] = h.Bits[len(h.Bits)-1]
		default:
			o.Bits[i] = m.Z.Int(0)
		}
	}
	return m.simplify(o)
}

// sumBits adds two bit vectors; exact when the operands do not overlap or are
// small, otherwise bits become deterministic opaque atoms.
func (m *Machine) sumBits(op string, a, b *HInt) *HInt {
	w := len(a.Bits)
	disjoint := op == "+"
	for i := range a.Bits {
		ca, oka := a.Bits[i].IsConst()
		cb, okb := b.Bits[i].IsConst()
		if !(oka && ca.Sign() == 0 || okb && cb.Sign() == 0) {
			disjoint = false
		}
	}
	o := &HInt{Bits: make([]*poly.Poly, w), Signed: a.Signed}
	if disjoint {
		for i := range o.Bits {
			o.Bits[i] = m.Z.Add(a.Bits[i], b.Bits[i])
		}
		return o
	}
	k := fmt.Sprintf("%d%s(%s,%s)", w, op, m.hPoly(a).Key(), m.hPoly(b).Key())
	for i := range o.Bits {
		i := i
		o.Bits[i] = m.Z.Var(m.Z.Atom(fmt.Sprintf("hop:%s.%d", k, i), func(t *poly.Atom) {
			t.Kind = "hop"
			t.Bool = true
			t.N = i
			t.Name = fmt.Sprintf("(a%sb).%d", op, i)
		}))
	}
	return o
}

func (m *Machine) hBinop(op token.Token, a, b Value, ta, tb types.Type) Value {
	_, ha := a.(*HInt)
	_, hb := b.(*HInt)
	if !ha && !hb {
		return nil
	}
	k := kindOf(ta)
	w := width(k)
	signed := !isUnsigned(k)
	x, ok := m.asHInt(a, w, signed)
	if !ok {
		return nil
	}
	if op == token.SHL || op == token.SHR {
		n, ok := b.(int64)
		if !ok {
			m.Undecided("shift by abstract amount")
		}
		o := &HInt{Bits: make([]*poly.Poly, w), Signed: signed}
		for i := range o.Bits {
			j := i - int(n)
			if op == token.SHR {
				j = i + int(n)
			}
			switch {
			case j >= 0 && j < w:
				o.Bits[i] = x.Bits[j]
			case op == token.SHR && signed && j >= w:
				o.Bits[i] = x.Bits[w-1]
			default:
				o.Bits[i] = m.Z.Int(0)
			}
		}
		return m.simplify(o)
	}
	y, ok := m.asHInt(b, w, signed)
	if !ok {
		return nil
	}
	o := &HInt{Bits: make([]*poly.Poly, w), Signed: signed}
	switch op {
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		for i := range o.Bits {
			p, q := x.Bits[i], y.Bits[i]
			pq := m.Z.Mul(p, q)
			switch op {
			case token.AND:
				o.Bits[i] = pq
			case token.OR:
				o.Bits[i] = m.Z.Sub(m.Z.Add(p, q), pq)
			case token.XOR:
				o.Bits[i] = m.Z.AddScaled(m.Z.Add(p, q), pq, bi(-2))
			default:
				o.Bits[i] = m.Z.Sub(p, pq)
			}
		}
		return m.simplify(o)
	case token.ADD:
		return m.simplify(m.sumBits("+", x, y))
	case token.SUB:
		if c, ok := m.hConst(y); ok && c == 0 {
			return x
		}
		return m.simplify(m.sumBits("-", x, y))
	case token.MUL:
		for _, pr := range [][2]*HInt{{x, y}, {y, x}} {
			if c, ok := m.hConst(pr[1]); ok && c > 0 && c&(c-1) == 0 {
				n := 0
				for c>>uint(n) != 1 {
					n++
				}
				return m.hBinop(token.SHL, pr[0], int64(n), ta, types.Typ[types.Uint])
			}
		}
		return m.simplify(m.sumBits("*", x, y))
	case token.QUO, token.REM:
		c, ok := m.hConst(y)
		top := x.Bits[w-1]
		nonneg := !signed
		if t, ok := top.IsConst(); ok && t.Sign() == 0 {
			nonneg = true
		}
		if ok && c > 0 && c&(c-1) == 0 && nonneg {
			n := 0
			for c>>uint(n) != 1 {
				n++
			}
			if op == token.QUO {
				return m.hBinop(token.SHR, x, int64(n), ta, types.Typ[types.Uint])
			}
			for i := range o.Bits {
				if i < n {
					o.Bits[i] = x.Bits[i]
				} else {
					o.Bits[i] = m.Z.Int(0)
				}
			}
			return m.simplify(o)
		}
		return m.simplify(m.sumBits(op.String(), x, y))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		lo1, hi1 := m.hRange(x)
		lo2, hi2 := m.hRange(y)
		if lo1 != nil && lo2 != nil {
			switch op {
			case token.LSS:
				if hi1.Cmp(lo2) < 0 {
					return true
				}
				if lo1.Cmp(hi2) >= 0 {
					return false
				}
			case token.LEQ:
				if hi1.Cmp(lo2) <= 0 {
					return true
				}
				if lo1.Cmp(hi2) > 0 {
					return false
				}
			case token.GTR:
				if lo1.Cmp(hi2) > 0 {
					return true
				}
				if hi1.Cmp(lo2) <= 0 {
					return false
				}
			case token.GEQ:
				if lo1.Cmp(hi2) >= 0 {
					return true
				}
				if hi1.Cmp(lo2) < 0 {
					return false
				}
			}
		}
		if !signed || lo1 != nil && lo2 != nil {
			test := func(x, y *big.Int) bool {
				switch c := x.Cmp(y); op {
				case token.LSS:
					return c < 0
				case token.LEQ:
					return c <= 0
				case token.GTR:
					return c > 0
				}
				return x.Cmp(y) >= 0
			}
			if lo2 != nil && lo2.Cmp(hi2) == 0 {
				if r, ok := m.smallPred(x, func(v *big.Int) bool { return test(v, lo2) }); ok {
					return r
				}
			}
			if lo1 != nil && lo1.Cmp(hi1) == 0 {
				if r, ok := m.smallPred(y, func(v *big.Int) bool { return test(lo1, v) }); ok {
					return r
				}
			}
		}
		return &Opaque{T: types.Typ[types.Bool], Op: op.String(), Args: []Value{a, b}}
	}
	return nil
}

func (m *Machine) hRange(h *HInt) (lo, hi *big.Int) {
	if h.Signed {
		if c, ok := m.hConst(h); ok {
			return bi(c), bi(c)
		}
		if t, ok := h.Bits[len(h.Bits)-1].IsConst(); !ok || t.Sign() != 0 {
			return nil, nil
		}
	}
	return m.hPoly(h).Bounds()
}

// ---- big integers ----

// NewBig allocates a *big.Int.
func (m *Machine) NewBig(p *poly.Poly) *Value {
	v := new(Value)
	*v = BigInt{p}
	return v
}

// BigPoly reads a *big.Int.
func (m *Machine) BigPoly(v Value) *poly.Poly {
	p, ok := v.(*Value)
	if !ok {
		if o, ok := v.(*Opaque); ok {
			return m.Z.Var(m.Z.Atom("big:"+Show(o), func(a *poly.Atom) { a.Name = Show(o) }))
		}
		m.Undecided("big.Int " + Show(v))
	}
	if p == nil {
		m.AbortNow("nil *big.Int")
	}
	b, ok := (*p).(BigInt)
	if !ok {
		if o, ok := (*p).(*Opaque); ok {
			return m.Z.Var(m.Z.Atom("big:"+Show(o), func(a *poly.Atom) { a.Name = Show(o) }))
		}
		m.Undecided("big.Int cell " + Show(*p))
	}
	return b.P
}

func (m *Machine) bigConst(v Value) (*big.Int, bool) { return m.BigPoly(v).IsConst() }

// BytesPoly is the big-endian value of a byte slice.
func (m *Machine) BytesPoly(s Slice) *poly.Poly {
	var ps []*poly.Poly
	for i, b := range s {
		ps = append(ps, m.Z.Scale(m.HPoly(b), new(big.Int).Lsh(bi(1), uint(8*(len(s)-1-i)))))
	}
	return m.Z.Sum(ps...)
}

// polyBits writes p as n bits when it is a positional sum of boolean polys.
func (m *Machine) polyBits(p *poly.Poly, n int) ([]*poly.Poly, bool) {
	out := make([]*poly.Poly, n)
	if pos, k, ok := p.LinearBits(); ok {
		for i := range pos {
			if i >= n {
				return nil, false
			}
		}
		if k.BitLen() > n {
			return nil, false
		}
		for i := range out {
			if pos[i] != nil {
				out[i] = m.Z.Var(pos[i])
			} else {
				out[i] = m.Z.Int(int64(k.Bit(i)))
			}
		}
		return out, true
	}
	lo, hi := p.Bounds()
	if lo == nil || lo.Sign() < 0 || hi.BitLen() > n {
		// unknown magnitude: deterministic bit atoms (value mod 2^n)
	}
	for i := range out {
		out[i] = m.Z.Var(m.hbit(p, i))
	}
	return out, true
}

func (m *Machine) hbit(p *poly.Poly, i int) *poly.Atom {
	return m.Z.Atom(fmt.Sprintf("hbit:%d:%s", i, p.Key()), func(a *poly.Atom) {
		a.Kind = "hbit"
		a.Bool = true
		a.N = i
		a.Args = []*poly.Poly{p}
		a.Name = fmt.Sprintf("bit%d(%s)", i, m.Z.String(p))
	})
}

// splitPow returns p div 2^k and p mod 2^k for positional bit sums.
func (m *Machine) splitPow(p *poly.Poly, k int) (q, r *poly.Poly, ok bool) {
	if c, isc := p.IsConst(); isc && c.Sign() >= 0 {
		return m.Z.Const(new(big.Int).Rsh(c, uint(k))), m.Z.Const(new(big.Int).And(c, new(big.Int).Sub(new(big.Int).Lsh(bi(1), uint(k)), bi(1)))), true
	}
	pos, kc, ok := p.LinearBits()
	if !ok {
		return nil, nil, false
	}
	var qs, rs []*poly.Poly
	for i, a := range pos {
		if i >= k {
			qs = append(qs, m.Z.Scale(m.Z.Var(a), new(big.Int).Lsh(bi(1), uint(i-k))))
		} else {
			rs = append(rs, m.Z.Scale(m.Z.Var(a), new(big.Int).Lsh(bi(1), uint(i))))
		}
	}
	qs = append(qs, m.Z.Const(new(big.Int).Rsh(kc, uint(k))))
	rs = append(rs, m.Z.Const(new(big.Int).And(kc, new(big.Int).Sub(new(big.Int).Lsh(bi(1), uint(k)), bi(1)))))
	return m.Z.Sum(qs...), m.Z.Sum(rs...), true
}

func (m *Machine) bigOpAtom(op string, ps ...*poly.Poly) *poly.Poly {
	var ks []string
	for _, p := range ps {
		ks = append(ks, p.Key())
	}
	return m.Z.Var(m.Z.Atom("big"+op+":"+strings.Join(ks, "|"), func(a *poly.Atom) {
		a.Kind = "big" + op
		a.Args = ps
		a.Name = op + "(...)"
	}))
}

func (m *Machine) bigCmp(a, b *poly.Poly) (int, bool) {
	d := m.Z.Sub(a, b)
	if c, ok := d.IsConst(); ok {
		return c.Sign(), true
	}
	lo, hi := d.Bounds()
	if lo != nil {
		if lo.Sign() > 0 {
			return 1, true
		}
		if hi.Sign() < 0 {
			return -1, true
		}
	}
	return 0, false
}

// bigBitwise combines positional sums of bits.
func (m *Machine) bigBitwise(op string, a, b *poly.Poly) *poly.Poly {
	pa, ka, oka := a.LinearBits()
	pb, kb, okb := b.LinearBits()
	if !oka || !okb || ka.Sign() < 0 || kb.Sign() < 0 {
		return nil
	}
	n := ka.BitLen()
	if kb.BitLen() > n {
		n = kb.BitLen()
	}
	for _, ps := range []map[int]*poly.Atom{pa, pb} {
		for i := range ps {
			if i >= n {
				n = i + 1
			}
		}
	}
	bit := func(ps map[int]*poly.Atom, k *big.Int, i int) *poly.Poly {
		if at := ps[i]; at != nil {
			return m.Z.Var(at)
		}
		return m.Z.Int(int64(k.Bit(i)))
	}
	var out []*poly.Poly
	for i := 0; i < n; i++ {
		x, y := bit(pa, ka, i), bit(pb, kb, i)
		xy := m.Z.Mul(x, y)
		if xy == nil {
			return nil
		}
		var r *poly.Poly
		switch op {
		case "And":
			r = xy
		case "Or":
			r = m.Z.Sub(m.Z.Add(x, y), xy)
		default:
			r = m.Z.AddScaled(m.Z.Add(x, y), xy, bi(-2))
		}
		out = append(out, m.Z.Scale(r, new(big.Int).Lsh(bi(1), uint(i))))
	}
	return m.Z.Sum(out...)
}

// BigBytes is x.FillBytes of an n-byte buffer.
func (m *Machine) BigBytes(p *poly.Poly, n int) Slice {
	buf := make(Slice, n)
	for i := range buf {
		buf[i] = int64(0)
	}
	return m.bigMethod("FillBytes", []Value{m.NewBig(p), buf}).(Slice)
}

// BytesBounds bounds the big-endian value of bytes, also when they are the
// bytes of one integer.
func (m *Machine) BytesBounds(s Slice) (lo, hi *big.Int) {
	var whole *poly.Poly
	for i, v := range s {
		h, ok := v.(*HInt)
		if !ok {
			return m.BytesPoly(s).Bounds()
		}
		for k, b := range h.Bits {
			at, ok := b.SingleAtom()
			if !ok || at.Kind != "hbit" || at.N != 8*(len(s)-1-i)+k || whole != nil && !poly.Eq(whole, at.Args[0]) {
				return m.BytesPoly(s).Bounds()
			}
			whole = at.Args[0]
		}
	}
	if whole == nil {
		return m.BytesPoly(s).Bounds()
	}
	return whole.Bounds()
}

// bigMethod implements methods of *big.Int.
func (m *Machine) bigMethod(name string, args []Value) Value {
	recv := args[0]
	set := func(p *poly.Poly) Value {
		r, ok := recv.(*Value)
		if !ok {
			m.Undecided("big.Int receiver " + Show(recv))
		}
		if r == nil {
			m.AbortNow("nil *big.Int receiver")
		}
		m.wr(r, nil)
		*r = BigInt{p}
		return r
	}
	P := func(i int) *poly.Poly { return m.BigPoly(args[i]) }
	both := func() (*big.Int, *big.Int, bool) {
		a, ok1 := P(1).IsConst()
		b, ok2 := P(2).IsConst()
		return a, b, ok1 && ok2
	}
	switch name {
	case "Set":
		return set(P(1))
	case "SetInt64":
		if o, ok := args[1].(*Opaque); ok {
			return set(m.HPoly(o))
		}
		if h, ok := args[1].(*HInt); ok {
			return set(m.hPoly(h))
		}
		return set(m.Z.Int(args[1].(int64)))
	case "SetUint64":
		if i, ok := args[1].(int64); ok {
			return set(m.Z.Const(new(big.Int).SetUint64(uint64(i))))
		}
		return set(m.HPoly(args[1]))
	case "SetBytes":
		switch s := args[1].(type) {
		case Slice:
			return set(m.BytesPoly(s))
		default:
			return set(m.Z.Var(m.Z.Atom("bytes:"+Show(s), func(a *poly.Atom) { a.Name = Show(s); a.Kind = "bytesval" })))
		}
	case "SetString":
		s, ok := args[1].(string)
		if !ok {
			set(m.Z.Var(m.Z.Atom("str:"+Show(args[1])+":"+Show(args[2]), func(a *poly.Atom) { a.Name = Show(args[1]) })))
			return Tuple{recv, true}
		}
		v, good := new(big.Int).SetString(s, int(args[2].(int64)))
		if !good {
			return Tuple{(*Value)(nil), false}
		}
		set(m.Z.Const(v))
		return Tuple{recv, true}
	case "Add":
		return set(m.Z.Add(P(1), P(2)))
	case "Sub":
		return set(m.Z.Sub(P(1), P(2)))
	case "Mul":
		r := m.Z.Mul(P(1), P(2))
		if r == nil {
			r = m.bigOpAtom("mul", P(1), P(2))
		}
		return set(r)
	case "Neg":
		return set(m.Z.Scale(P(1), bi(-1)))
	case "Lsh":
		return set(m.Z.Scale(P(1), new(big.Int).Lsh(bi(1), uint(m.intIndex(args[2])))))
	case "Rsh":
		n := int(m.intIndex(args[2]))
		if c, ok := P(1).IsConst(); ok {
			return set(m.Z.Const(new(big.Int).Rsh(c, uint(n))))
		}
		if q, _, ok := m.splitPow(P(1), n); ok {
			return set(q)
		}
		return set(m.bigOpAtom(fmt.Sprintf("rsh%d", n), P(1)))
	case "Exp":
		a, b, ok := both()
		if ok {
			var mo *big.Int
			if p, ok := args[3].(*Value); ok && p != nil {
				mo, _ = m.bigConst(p)
			}
			return set(m.Z.Const(new(big.Int).Exp(a, b, mo)))
		}
	case "Div", "Quo", "Mod", "Rem", "ModInverse", "And", "Or", "Xor", "GCD":
		if a, b, ok := both(); ok {
			r := new(big.Int)
			switch name {
			case "Div":
				r.Div(a, b)
			case "Quo":
				r.Quo(a, b)
			case "Mod":
				r.Mod(a, b)
			case "Rem":
				r.Rem(a, b)
			case "ModInverse":
				r.ModInverse(a, b)
			case "And":
				r.And(a, b)
			case "Or":
				r.Or(a, b)
			case "Xor":
				r.Xor(a, b)
			}
			return set(m.Z.Const(r))
		}
		if name == "And" {
			// a mask of low bits
			for i := 1; i <= 2; i++ {
				if c, ok := P(i).IsConst(); ok && c.Sign() >= 0 {
					if n := c.BitLen(); new(big.Int).Add(c, bi(1)).Cmp(new(big.Int).Lsh(bi(1), uint(n))) == 0 {
						if _, r, ok := m.splitPow(P(3-i), n); ok {
							return set(r)
						}
					}
				}
			}
		}
		if name == "And" || name == "Or" || name == "Xor" {
			if r := m.bigBitwise(name, P(1), P(2)); r != nil {
				return set(r)
			}
			break
		}
		if name == "GCD" || name == "ModInverse" {
			break
		}
		q, r := m.bigDivMod(P(1), P(2))
		if name == "Div" || name == "Quo" {
			return set(q)
		}
		if name == "Mod" || name == "Rem" {
			return set(r)
		}
	case "DivMod", "QuoRem":
		q, r := m.bigDivMod(P(1), P(2))
		set(q)
		m.wr(args[3].(*Value), nil)
		*(args[3].(*Value)) = BigInt{r}
		return Tuple{recv, args[3]}
	case "Cmp", "CmpAbs":
		if c, ok := m.bigCmp(P(0), P(1)); ok {
			return int64(c)
		}
		return &Opaque{T: types.Typ[types.Int], Op: "bigcmp", Args: []Value{BigInt{P(0)}, BigInt{P(1)}}}
	case "Sign":
		if c, ok := m.bigCmp(P(0), m.Z.Int(0)); ok {
			return int64(c)
		}
		return &Opaque{T: types.Typ[types.Int], Op: "bigsign", Args: []Value{BigInt{P(0)}}}
	case "BitLen":
		if c, ok := P(0).IsConst(); ok {
			return int64(c.BitLen())
		}
		return &Opaque{T: types.Typ[types.Int], Op: "bitlen", Args: []Value{BigInt{P(0)}}}
	case "Bit":
		i := int(m.intIndex(args[1]))
		if c, ok := P(0).IsConst(); ok {
			return int64(c.Bit(i))
		}
		_, r, ok := m.splitPow(P(0), i+1)
		if ok {
			q, _, _ := m.splitPow(r, i)
			h := &HInt{Bits: make([]*poly.Poly, 64)}
			for j := range h.Bits {
				h.Bits[j] = m.Z.Int(0)
			}
			h.Bits[0] = q
			return m.simplify(h)
		}
		h := &HInt{Bits: make([]*poly.Poly, 64)}
		for j := range h.Bits {
			h.Bits[j] = m.Z.Int(0)
		}
		h.Bits[0] = m.Z.Var(m.hbit(P(0), i))
		return h
	case "SetBit":
		i := int(m.intIndex(args[2]))
		x := P(1)
		var cur *poly.Poly
		if c, ok := x.IsConst(); ok && c.Sign() >= 0 {
			cur = m.Z.Int(int64(c.Bit(i)))
		} else if _, r, ok := m.splitPow(x, i+1); ok {
			cur, _, _ = m.splitPow(r, i)
		} else {
			cur = m.Z.Var(m.hbit(x, i))
		}
		return set(m.Z.AddScaled(x, m.Z.Sub(m.HPoly(args[3]), cur), new(big.Int).Lsh(bi(1), uint(i))))
	case "Uint64", "Int64":
		if c, ok := P(0).IsConst(); ok {
			return int64(new(big.Int).And(c, new(big.Int).SetUint64(^uint64(0))).Uint64())
		}
		bits, ok := m.polyBits(P(0), 64)
		if ok {
			return m.simplify(&HInt{Bits: bits, Signed: name == "Int64"})
		}
	case "IsUint64", "IsInt64":
		if lo, hi := P(0).Bounds(); lo != nil && lo.Sign() >= 0 && hi.BitLen() <= 63 {
			return true
		}
		if c, ok := P(0).IsConst(); ok {
			if name == "IsInt64" {
				return c.IsInt64()
			}
			return c.IsUint64()
		}
	case "Abs":
		if c, ok := P(1).IsConst(); ok {
			return set(m.Z.Const(new(big.Int).Abs(c)))
		}
	case "Bytes":
		if c, ok := P(0).IsConst(); ok {
			var s = Slice{}
			for _, b := range c.Bytes() {
				s = append(s, int64(b))
			}
			return s
		}
		return &OpaqueSlice{Op: "bigbytes", Args: []Value{BigInt{P(0)}}, T: types.NewSlice(types.Typ[types.Byte])}
	case "FillBytes":
		buf := args[1].(Slice)
		m.wrAll(buf)
		lo, hi := P(0).Bounds()
		if lo != nil && lo.Sign() >= 0 && hi.BitLen() > 8*len(buf) {
			m.AbortNow("FillBytes: value too large")
		}
		bits, ok := m.polyBits(P(0), 8*len(buf))
		if !ok {
			m.Undecided("FillBytes of " + m.Z.String(P(0)))
		}
		for i := range buf {
			o := 8 * (len(buf) - 1 - i)
			buf[i] = m.simplify(&HInt{Bits: append([]*poly.Poly(nil), bits[o:o+8]...)})
		}
		return buf
	case "String", "Text":
		if c, ok := P(0).IsConst(); ok {
			return c.String()
		}
		return &Opaque{T: types.Typ[types.String], Op: "bigstr", Args: []Value{BigInt{P(0)}}}
	case "ProbablyPrime":
		if c, ok := P(0).IsConst(); ok {
			return c.ProbablyPrime(10)
		}
	}
	m.Undecided("big.Int method " + name)
	return nil
}

func (m *Machine) bigDivMod(a, b *poly.Poly) (q, r *poly.Poly) {
	c, ok := b.IsConst()
	if !ok {
		return m.bigOpAtom("div", a, b), m.bigOpAtom("mod", a, b)
	}
	if c.Sign() == 0 {
		m.AbortNow("division by zero")
	}
	if ac, ok := a.IsConst(); ok {
		qq, rr := new(big.Int).DivMod(ac, c, new(big.Int))
		return m.Z.Const(qq), m.Z.Const(rr)
	}
	lo, hi := a.Bounds()
	if lo != nil && lo.Sign() >= 0 && hi.Cmp(c) < 0 {
		return m.Z.Int(0), a
	}
	k := int(c.TrailingZeroBits())
	if c.Sign() > 0 && c.BitLen() == k+1 {
		if q, r, ok := m.splitPow(a, k); ok {
			return q, r
		}
		// opaque number: remainder via bit atoms
		var rs []*poly.Poly
		base, off := a, 0
		if at, ok := a.SingleAtom(); ok && at.Kind == "bigshr" {
			base, off = at.Args[0], at.N
		}
		for i := 0; i < k; i++ {
			rs = append(rs, m.Z.Scale(m.Z.Var(m.hbit(base, off+i)), new(big.Int).Lsh(bi(1), uint(i))))
		}
		sh := m.Z.Atom(fmt.Sprintf("bigshr:%d:%s", off+k, base.Key()), func(t *poly.Atom) {
			t.Kind = "bigshr"
			t.N = off + k
			t.Args = []*poly.Poly{base}
			t.Name = fmt.Sprintf("%s>>%d", m.Z.String(base), off+k)
		})
		return m.Z.Var(sh), m.Z.Sum(rs...)
	}
	if c.Sign() > 0 {
		return m.bigOpAtom("div", a, b), m.Residue(a, c)
	}
	return m.bigOpAtom("div", a, b), m.bigOpAtom("mod", a, b)
}
