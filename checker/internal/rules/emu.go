package rules

import (
	"fmt"
	"go/types"
	"math/big"
	"math/bits"
	"strings"

	"zkcheck/internal/ai"
	"zkcheck/internal/poly"
)

// emuEl is an emulated field element: the rational function Num/Den over the
// emulated field. Den is never nil.
// canon: its limbs are known to be the canonical ones.
type emuEl struct {
	Num, Den *poly.Poly
	canon    bool
	of       int  // gnark's overflow counter
	konst    bool // the limbs are compile-time constants
	limbs    int  // number of limbs when it exceeds the field's
	fromBits []*poly.Poly
	bkey     string // the bits already taken of the limbs, while they are not known to be canonical
	bord     int    // and the ordinal of the call that took them

	g  *poly.Poly // coordinate of a point given as a group element
	gy bool
}

// emuEq is a recorded emulated equality.
type emuEq struct {
	P   *poly.Poly // must be zero
	Pos string
}

// emuModel gives gnark's emulated.Field methods their field semantics. gnark
// itself (limb arithmetic, overflow tracking) is trusted.
type emuModel struct {
	m      *ai.Machine
	E      *poly.Space
	name   bool // products of sums are opaque (canonical by operand)
	Eqs    []emuEq
	Divs   []*poly.Poly
	Hints  []*poly.Atom
	nz     int
	leq    int
	guard  func()
	caps   []emuCap
	w, nl  int               // limb width and count
	tight  bool              // unreduced-value bits fit the modulus width
	tname  string            // the field parameter type it models; "" for all
	bitsOf map[string]*emuEl // by atom key prefix: the element whose bits were taken
}

// mine reports whether a call of a gnark generic concerns this field.
func (e *emuModel) mine(c *ai.Call) bool {
	if e.tname == "" {
		return true
	}
	ta := c.Fn.TypeArgs()
	return len(ta) == 1 && types.TypeString(ta[0], func(*types.Package) string { return "" }) == e.tname
}

// over registers an override that passes other fields on.
func (e *emuModel) over(name string, f func(m *ai.Machine, c *ai.Call) ai.Value) {
	prev := e.m.Over[gEmu+name]
	e.m.Over[gEmu+name] = func(m *ai.Machine, c *ai.Call) ai.Value {
		if prev != nil && !e.mine(c) {
			return prev(m, c)
		}
		return f(m, c)
	}
}

// emuCap is an element that a deferred multiplication check refers to by
// pointer: overwriting it changes what the check asserts.
type emuCap struct {
	cell  *ai.Value
	val   ai.Value
	where string
}

// use records that a deferred check refers to v.
func (e *emuModel) use(v ai.Value) {
	if p, ok := v.(*ai.Value); ok && p != nil {
		e.caps = append(e.caps, emuCap{p, ai.Copy(*p), e.m.Where()})
	}
}

func (e *emuModel) kept() {
	for _, c := range e.caps {
		if !e.sameCell(c.val, *c.cell) {
			Failf("overwrites an element that a deferred multiplication check of gnark still refers to: operand of the call at %s", c.where)
		}
	}
}

func (e *emuModel) sameCell(a, b ai.Value) bool {
	switch x := a.(type) {
	case *emuEl:
		y, ok := b.(*emuEl)
		return ok && (x == y || poly.Eq(x.Num, y.Num) && poly.Eq(x.Den, y.Den))
	case e2Half:
		y, ok := b.(e2Half)
		return ok && x.im == y.im && e.sameCell(x.el, y.el)
	case ai.Struct:
		y, ok := b.(ai.Struct)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !e.sameCell(x[i], y[i]) {
				return false
			}
		}
	}
	return true
}

// maxOf, mulOf: gnark's overflow bookkeeping.
func (e *emuModel) maxOf() int { return e.m.Sp.Mod.BitLen() - 2 - e.w }
func (e *emuModel) mulOf(x, y int) int {
	return e.w + bits.Len(uint(2*(2*e.nl-1)-1)) + x + y
}

// reduce is Field.Reduce.
func (e *emuModel) reduce(v ai.Value) ai.Value {
	x := e.el(v)
	if x.of == 0 {
		if p, ok := v.(*ai.Value); ok {
			return p
		}
		return e.cell(x)
	}
	e.fits(x)
	e.use(v)
	y := *x
	y.canon, y.bkey = false, "" // bounded limbs, but the value may be x or x+p
	y.of, y.konst, y.fromBits = 0, false, nil
	r := e.cell(&y)
	e.use(r)
	return r
}

// fits: gnark's multiplication hint reads only the field's number of limbs,
// the check reads all of them.
func (e *emuModel) fits(xs ...*emuEl) {
	for _, x := range xs {
		if x.limbs > e.nl {
			Failf("multiplies an element of %d limbs, but gnark's hint reads only %d: honest values cannot be proved", x.limbs, e.nl)
		}
	}
}

// fit reduces operands like gnark's reduceAndOp until next fits.
func (e *emuModel) fit(a, b ai.Value, next func(x, y int) (n int, right bool)) (ai.Value, ai.Value, int) {
	for i := 0; i < 4; i++ {
		n, right := next(e.el(a).of, e.el(b).of)
		if n <= e.maxOf() {
			return a, b, n
		}
		if right {
			b = e.reduce(b)
		} else {
			a = e.reduce(a)
		}
	}
	return a, b, 0
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func addNext(x, y int) (int, bool) { return maxInt(x, y) + 1, x < y }
func subNext(x, y int) (int, bool) { return maxInt(y+1, x) + 1, x < y+1 }

// withOf sets the bookkeeping of a result.
func (e *emuModel) withOf(x *emuEl, of int, konst bool) *ai.Value {
	y := *x
	y.of, y.konst, y.canon, y.fromBits, y.bkey = of, konst, false, nil, ""
	if konst {
		y.of = 0
	}
	return e.cell(&y)
}

const gEmu = "github.com/consensys/gnark/std/math/emulated."

func newEmu(m *ai.Machine, q *big.Int) *emuModel {
	return newEmuField(m, q, "", 64)
}

// newEmuField models the field with parameter type tname ("" for every field).
func newEmuField(m *ai.Machine, q *big.Int, tname string, w int) *emuModel {
	e := &emuModel{m: m, E: m.Sp.Over(q), tname: tname, w: w, nl: (q.BitLen() + w - 1) / w}
	zero := m.ZeroHook
	m.ZeroHook = func(t types.Type) (ai.Value, bool) {
		if isEmuElement(t) {
			ta := types.Unalias(t).(*types.Named).TypeArgs()
			if tname == "" || zero == nil || ta.Len() == 1 && types.TypeString(ta.At(0), func(*types.Package) string { return "" }) == tname {
				return e.mk(e.E.Int(0), nil), true
			}
		}
		if zero != nil {
			return zero(t)
		}
		return nil, false
	}
	fieldM := func(name string, f func(args []ai.Value) ai.Value) {
		e.over("(*Field)."+name, func(m *ai.Machine, c *ai.Call) ai.Value {
			if e.guard != nil {
				e.guard()
			}
			return f(c.Args[1:])
		})
	}
	e.over("NewField", func(m *ai.Machine, c *ai.Call) ai.Value {
		return ai.Tuple{&ai.Ext{Type: "field"}, ai.NilErr}
	})
	e.over("ValueOf", func(m *ai.Machine, c *ai.Call) ai.Value {
		x := *e.valueOf(c.Args[0])
		x.konst = true
		return &x
	})
	fieldM("NewElement", func(a []ai.Value) ai.Value {
		if iv, ok := a[0].(ai.Iface); ok {
			if p, ok := iv.V.(*ai.Value); ok {
				if _, ok := (*p).(*emuEl); ok {
					return p
				}
			}
			if x, ok := iv.V.(*emuEl); ok {
				return e.cell(x)
			}
		}
		return e.cell(e.valueOf(a[0]))
	})
	fieldM("Zero", func(a []ai.Value) ai.Value { return e.cell(e.konst(0)) })
	fieldM("One", func(a []ai.Value) ai.Value { return e.cell(e.konst(1)) })
	fieldM("Modulus", func(a []ai.Value) ai.Value { return e.cell(e.konst(0)) })
	m.AtEnd = append(m.AtEnd, e.kept)
	fieldM("Reduce", func(a []ai.Value) ai.Value { return e.reduce(a[0]) })
	fieldM("ReduceWithoutConstantCheck", func(a []ai.Value) ai.Value {
		// checked at once against the operand's limbs
		x := *e.el(a[0])
		if x.of == 0 {
			return a[0]
		}
		x.canon, x.of, x.konst, x.limbs, x.fromBits, x.bkey = false, 0, false, 0, nil, ""
		return e.cell(&x)
	})
	for name, of := range map[string]int{"FromBits": 0, "FromBitsOverflow": 1} {
		of := of
		fieldM(name, func(a []ai.Value) ai.Value {
			var ps, bs []*poly.Poly
			for i, b := range m.WiresOf(a[0]) {
				if !m.IsBool(b) {
					Failf("bit %d of the element is not known to be boolean", i)
				}
				bs = append(bs, b.P)
				ps = append(ps, e.E.Scale(e.E.Conv(b.P), pow2(i)))
			}
			x := e.mk(e.E.Sum(ps...), nil)
			x.of, x.limbs, x.fromBits = of, (len(bs)+e.w-1)/e.w, bs
			return e.cell(x)
		})
	}
	fieldM("NewInternalElement", func(a []ai.Value) ai.Value { return e.cell(e.fromLimbs(a[0], a[1])) })
	fieldM("ToBits", func(a []ai.Value) ai.Value {
		var s ai.Slice
		for _, b := range e.bits(e.el(a[0])) {
			s = append(s, ai.V(m.PolyWire(b)))
		}
		return s
	})
	m.FieldHook = func(v ai.Value, field string) (ai.Value, bool) {
		x, ok := v.(*emuEl)
		if !ok || field != "Limbs" {
			return nil, false
		}
		if e.tname != "" {
			m.Undecided("limbs of an emulated element")
		}
		b := e.bits(x)
		var s ai.Slice
		for i := 0; i < len(b); i += e.w {
			var ps []*poly.Poly
			for j := 0; j < e.w; j++ {
				ps = append(ps, m.Sp.Scale(b[i+j], pow2(j)))
			}
			s = append(s, ai.V(m.PolyWire(m.Sp.Sum(ps...))))
		}
		return s, true
	}
	fieldM("Add", func(a []ai.Value) ai.Value {
		x, y, n := e.fit(a[0], a[1], addNext)
		p, q := e.el(x), e.el(y)
		return e.withOf(e.add(p, q), n, p.konst && q.konst)
	})
	sub := func(a0, a1 ai.Value) ai.Value {
		x, y, n := e.fit(a0, a1, subNext)
		p, q := e.el(x), e.el(y)
		return e.withOf(e.sub(p, q), n, p.konst && q.konst)
	}
	fieldM("Sub", func(a []ai.Value) ai.Value { return sub(a[0], a[1]) })
	fieldM("Neg", func(a []ai.Value) ai.Value { return sub(e.cell(e.konst(0)), a[0]) })
	mul := func(a []ai.Value) ai.Value {
		x, y, _ := e.fit(a[0], a[1], func(x, y int) (int, bool) { return e.mulOf(x, y), x < y })
		e.fits(e.el(x), e.el(y))
		e.use(x)
		e.use(y)
		r := e.withOf(e.mul(e.el(x), e.el(y)), 0, false)
		e.use(r)
		return r
	}
	fieldM("Mul", mul)
	fieldM("MulMod", mul)
	fieldM("MulConst", func(a []ai.Value) ai.Value {
		x := e.el(a[0])
		k, ok := m.BigPoly(a[1]).IsConst()
		if !ok {
			m.Undecided("MulConst by a non-constant")
		}
		if h := new(big.Int).Rsh(m.Sp.Mod, 1); k.Sign() < 0 || k.Cmp(h) > 0 {
			// gnark drops the negated result and multiplies the limbs by c
			m.Undecided("MulConst by a negative constant")
		}
		if k.Sign() == 0 {
			return e.cell(e.konst(0))
		}
		v, _, n := e.fit(a[0], a[0], func(x, _ int) (int, bool) { return x + k.BitLen(), false })
		return e.withOf(e.mk(e.E.Scale(x.Num, k), x.Den), n, e.el(v).konst)
	})
	fieldM("Div", func(a []ai.Value) ai.Value {
		v, w, _ := e.fit(a[0], a[1], func(x, y int) (int, bool) {
			z := e.mulOf(0, y)
			if z > e.maxOf() {
				return z, true
			}
			return subNext(x, z)
		})
		e.use(w)
		x, y := e.el(v), e.el(w)
		if len(x.Num.T) == 0 && len(y.Num.T) == 0 {
			// gnark constrains only y*res == x
			return e.cell(e.mk(e.E.Var(m.Sp.Atom(m.Sp.FreshKey("ehint"), func(x *poly.Atom) { x.Kind = "ehint"; x.Name = "0/0" })), nil))
		}
		r := e.withOf(e.div(x, y), 0, false)
		e.use(r)
		return r
	})
	fieldM("Inverse", func(a []ai.Value) ai.Value {
		v, _, _ := e.fit(a[0], a[0], func(x, _ int) (int, bool) { return e.mulOf(x, 0) + 2, false })
		e.use(v)
		r := e.withOf(e.div(e.konst(1), e.el(v)), 0, false)
		e.use(r)
		return r
	})
	fieldM("Select", func(a []ai.Value) ai.Value {
		x, y := e.el(a[1]), e.el(a[2])
		return e.withOf(e.sel(m.ToWire(a[0]), x, y), maxInt(x.of, y.of), false)
	})
	fieldM("Lookup2", func(a []ai.Value) ai.Value {
		b0, b1 := m.ToWire(a[0]), m.ToWire(a[1])
		of := 0
		for _, v := range a[2:] {
			of = maxInt(of, e.el(v).of)
		}
		lo := e.sel(b0, e.el(a[3]), e.el(a[2]))
		hi := e.sel(b0, e.el(a[5]), e.el(a[4]))
		return e.withOf(e.sel(b1, hi, lo), of, false)
	})
	fieldM("IsZero", func(a []ai.Value) ai.Value {
		x := e.reduce(a[0])
		e.asCanon(e.el(x))
		return ai.V(e.isZero(e.el(x)))
	})
	fieldM("AssertIsEqual", func(a []ai.Value) ai.Value {
		v, w, _ := e.fit(a[1], a[0], subNext)
		x, y := e.el(w), e.el(v)
		e.Eqs = append(e.Eqs, emuEq{e.E.Sub(e.E.Mul(x.Num, y.Den), e.E.Mul(y.Num, x.Den)), m.Where()})
		return nil
	})
	fieldM("AssertIsLessOrEqual", func(a []ai.Value) ai.Value { e.leq++; return nil })
	fieldM("AssertIsInRange", func(a []ai.Value) ai.Value {
		e.leq++
		e.asCanon(e.el(a[0]))
		return nil
	})
	fieldM("NewHint", func(a []ai.Value) ai.Value {
		n, ok := a[1].(int64)
		if !ok {
			m.Undecided("NewHint output count")
		}
		var out ai.Slice
		for i := int64(0); i < n; i++ {
			at := m.Sp.Atom(m.Sp.FreshKey("ehint"), func(x *poly.Atom) {
				x.Kind = "ehint"
				x.Name = fmt.Sprintf("hint%d", len(e.Hints))
				x.N = int(i)
			})
			e.Hints = append(e.Hints, at)
			out = append(out, e.cell(e.mk(e.E.Var(at), nil)))
		}
		return ai.Tuple{out, ai.NilErr}
	})
	return e
}

// asCanon records that the limbs of x are asserted to be the canonical ones.
func (e *emuModel) asCanon(x *emuEl) {
	if x.bkey != "" && !x.canon {
		e.m.Late(x.bord)
	}
	x.canon = true
}

// bits are the limb bits of x: those of its canonical value when x is known
// to be canonical, otherwise unconstrained bits.
func (e *emuModel) bits(x *emuEl) []*poly.Poly {
	n := e.E.Mod.BitLen()
	w := e.nl * e.w
	if x.of == 0 && x.fromBits != nil {
		return append([]*poly.Poly(nil), x.fromBits...)
	}
	if e.tight && (x.of != 0 || x.limbs > e.nl) {
		Failf("takes the bits of an element that is not reduced")
	}
	out := make([]*poly.Poly, w)
	k, isConst := x.Num.IsConst()
	d, dc := x.Den.IsConst()
	key := ""
	if isConst && dc && d.Cmp(big.NewInt(1)) == 0 {
		k = new(big.Int).Mod(k, e.E.Mod)
		for i := range out {
			out[i] = e.m.Sp.Int(int64(k.Bit(i)))
		}
		return out
	}
	label := "limbs"
	if !x.canon && x.bkey == "" {
		// constraints have no order: a range check made later on counts as well
		x.bord = e.m.Ordinal()
		x.canon = e.m.IsLate(x.bord)
	}
	if x.canon {
		key = "xbit:" + x.Num.Key() + "/" + x.Den.Key()
		label = "canonical"
	} else {
		if x.bkey == "" || x.of != 0 || x.limbs != 0 {
			x.bkey = e.m.Sp.FreshKey("xbit")
		}
		key = x.bkey
		if !e.tight {
			n = w
		}
	}
	if e.bitsOf != nil {
		e.bitsOf[key] = x
	}
	for i := range out {
		if i >= n {
			out[i] = e.m.Sp.Int(0)
			continue
		}
		out[i] = e.m.Sp.Var(e.m.Sp.Atom(fmt.Sprintf("%s:%d", key, i), func(a *poly.Atom) {
			a.Kind = "xbit"
			a.Bool = true
			a.N = i
			a.Name = fmt.Sprintf("%s(%s).bit%d", label, clip(e.E.String(x.Num)), i)
		}))
	}
	return out
}

// fromLimbs is sum 2^(64 i) limb_i; every limb must fit the declared overflow.
func (e *emuModel) fromLimbs(v, ov ai.Value) *emuEl {
	o, ok := ov.(int64)
	if !ok {
		e.m.Undecided("element overflow is " + ai.Show(ov))
	}
	var ps []*poly.Poly
	for i, w := range e.m.WiresOf(v) {
		if c, ok := w.P.IsConst(); ok {
			if c.Sign() < 0 || c.BitLen() > e.w+int(o) {
				e.m.Undecided("constant limb does not fit")
			}
		} else if !e.m.RangeKnown(w.P, e.w+int(o)) {
			Failf("limb %d is not known to fit %d bits", i, int64(e.w)+o)
		}
		ps = append(ps, e.E.Scale(e.E.Conv(w.P), pow2(e.w*i)))
	}
	x := e.mk(e.E.Sum(ps...), nil)
	x.of = int(o)
	return x
}

func isEmuElement(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Element" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "std/math/emulated")
}

func (e *emuModel) mk(num, den *poly.Poly) *emuEl {
	if num == nil {
		e.m.Undecided("emulated product too large")
	}
	if den == nil {
		den = e.E.Int(1)
	}
	if len(num.T) == 0 {
		den = e.E.Int(1)
	}
	if c, ok := den.IsConst(); ok && c.Sign() != 0 && c.Cmp(big.NewInt(1)) != 0 {
		num = e.E.Scale(num, new(big.Int).ModInverse(new(big.Int).Mod(c, e.E.Mod), e.E.Mod))
		den = e.E.Int(1)
	}
	return &emuEl{Num: num, Den: den}
}

func (e *emuModel) konst(v int64) *emuEl {
	x := e.mk(e.E.Int(v), nil)
	x.konst = true
	return x
}

func (e *emuModel) cell(x *emuEl) *ai.Value {
	c := new(ai.Value)
	*c = x
	return c
}

func (e *emuModel) el(v ai.Value) *emuEl {
	if p, ok := v.(*ai.Value); ok {
		if p == nil {
			e.m.AbortNow("nil emulated element")
		}
		v = *p
	}
	x, ok := v.(*emuEl)
	if !ok {
		e.m.Undecided("emulated element is " + ai.Show(v))
	}
	return x
}

func (e *emuModel) input(name string) *emuEl { return e.mk(e.inp(name), nil) }

func (e *emuModel) inp(name string) *poly.Poly {
	return e.E.Var(e.m.Sp.Atom("einput:"+name, func(a *poly.Atom) { a.Kind = "input"; a.Name = name }))
}

func (e *emuModel) valueOf(v ai.Value) *emuEl {
	if iv, ok := v.(ai.Iface); ok {
		v = iv.V
	}
	switch x := v.(type) {
	case int64:
		return e.mk(e.E.Const(big.NewInt(x)), nil)
	case *ai.BigInt:
		return e.mk(e.E.Conv(x.P), nil)
	case ai.BigInt:
		return e.mk(e.E.Conv(x.P), nil)
	case ai.Arr: // a gnark-crypto field element in Montgomery form
		n := new(big.Int)
		for i := len(x) - 1; i >= 0; i-- {
			l, ok := x[i].(int64)
			if !ok {
				e.m.Undecided("emulated.ValueOf array of " + ai.Show(x[i]))
			}
			n.Lsh(n, 64).Or(n, new(big.Int).SetUint64(uint64(l)))
		}
		r := new(big.Int).Lsh(big.NewInt(1), uint(64*len(x)))
		r.ModInverse(r, e.E.Mod)
		return e.mk(e.E.Const(n.Mul(n, r)), nil)
	case string:
		b, ok := new(big.Int).SetString(x, 0)
		if !ok {
			e.m.Undecided("ValueOf string " + x)
		}
		return e.mk(e.E.Const(b), nil)
	case *emuEl:
		return x
	case *ai.Value:
		if x != nil {
			return e.valueOf(*x)
		}
	case *ai.HInt:
		return e.mk(e.E.Conv(e.m.HPoly(x)), nil)
	}
	e.m.Undecided("emulated.ValueOf " + ai.Show(v))
	return nil
}

func (e *emuModel) add(x, y *emuEl) *emuEl {
	if poly.Eq(x.Den, y.Den) {
		return e.mk(e.E.Add(x.Num, y.Num), x.Den)
	}
	return e.mk(e.E.Add(e.mulP(x.Num, y.Den), e.mulP(y.Num, x.Den)), e.mulP(x.Den, y.Den))
}

func (e *emuModel) sub(x, y *emuEl) *emuEl {
	return e.add(x, e.mk(e.E.Scale(y.Num, big.NewInt(-1)), y.Den))
}

func (e *emuModel) mulP(a, b *poly.Poly) *poly.Poly {
	p := e.E.Mul(a, b)
	if p == nil {
		e.m.Undecided("emulated product too large")
	}
	return p
}

func (e *emuModel) mul(x, y *emuEl) *emuEl {
	if e.name {
		return e.mk(e.mulP(e.nm(x.Num), e.nm(y.Num)), e.mulP(e.nm(x.Den), e.nm(y.Den)))
	}
	return e.mk(e.mulP(x.Num, y.Num), e.mulP(x.Den, y.Den))
}

// nm replaces a sum by a canonical atom.
func (e *emuModel) nm(p *poly.Poly) *poly.Poly {
	if len(p.T) <= 1 {
		return p
	}
	return e.E.Var(e.m.Sp.Atom("esum:"+p.Key(), func(a *poly.Atom) {
		a.Kind = "esum"
		a.Args = []*poly.Poly{p}
		a.Name = fmt.Sprintf("sum%d", a.ID)
	}))
}

func (e *emuModel) div(x, y *emuEl) *emuEl {
	e.Divs = append(e.Divs, y.Num)
	if len(y.Num.T) == 0 {
		e.m.AbortNow("emulated division by zero")
	}
	return e.mk(e.mulP(x.Num, y.Den), e.mulP(x.Den, y.Num))
}

func (e *emuModel) sel(b *ai.Wire, x, y *emuEl) *emuEl {
	if c, ok := b.P.IsConst(); ok {
		switch {
		case c.Sign() == 0:
			return y
		case c.Cmp(big.NewInt(1)) == 0:
			return x
		}
		e.m.AbortNow("selector constant is not boolean")
	}
	if !e.m.IsBool(b) {
		e.m.AssertBool(b)
	}
	bp := e.E.Conv(b.P)
	// y + b(x-y)
	if poly.Eq(x.Den, y.Den) {
		return e.mk(e.E.Add(y.Num, e.mulP(bp, e.E.Sub(x.Num, y.Num))), x.Den)
	}
	den := e.mulP(x.Den, y.Den)
	xn, yn := e.mulP(x.Num, y.Den), e.mulP(y.Num, x.Den)
	return e.mk(e.E.Add(yn, e.mulP(bp, e.E.Sub(xn, yn))), den)
}

func (e *emuModel) isZero(x *emuEl) *ai.Wire {
	if c, ok := x.Num.IsConst(); ok {
		if c.Sign() == 0 {
			return e.m.ConstI(1)
		}
		return e.m.ConstI(0)
	}
	// canonical up to scaling
	p := x.Num
	lead := p.T[0].C
	inv := new(big.Int).ModInverse(new(big.Int).Mod(lead, e.E.Mod), e.E.Mod)
	p = e.E.Scale(p, inv)
	at := e.m.Sp.Atom("eisz:"+p.Key(), func(a *poly.Atom) {
		a.Kind = "eiszero"
		a.Bool = true
		a.Args = []*poly.Poly{p}
		a.Name = fmt.Sprintf("[%s==0]", clip(e.E.String(p)))
	})
	return e.m.PolyWire(e.m.Sp.Var(at))
}

// same demands two elements to be equal as rational functions.
func (e *emuModel) same(what string, got, want *emuEl) {
	l, r := e.mulP(got.Num, want.Den), e.mulP(want.Num, got.Den)
	if !poly.Eq(l, r) {
		Failf("%s: computes %s, must be %s", what, e.show(got), e.show(want))
	}
}

func (e *emuModel) show(x *emuEl) string {
	s := clip(e.E.String(x.Num))
	if c, ok := x.Den.IsConst(); ok && c.Cmp(big.NewInt(1)) == 0 {
		return s
	}
	return "(" + s + ")/(" + clip(e.E.String(x.Den)) + ")"
}
