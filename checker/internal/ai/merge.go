package ai

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"zkcheck/internal/poly"
)

// HBool is a boolean whose truth is the 0/1 value of P.
type HBool struct{ P *poly.Poly }

type jent struct {
	p   *Value
	old Value
	t   types.Type
}

// journal records the cells written while one side of a symbolic branch runs.
type journal struct {
	ents  []jent
	fresh map[*Value]bool // first cells of slices allocated by append
	depth int
}

// wr announces that the cell p is about to be overwritten.
func (m *Machine) wr(p *Value, t types.Type) {
	if m.jrn != nil {
		m.jrn.ents = append(m.jrn.ents, jent{p, *p, t})
	}
}

func (m *Machine) wrAll(s Slice) {
	if m.jrn == nil {
		return
	}
	for i := range s {
		m.wr(&s[i], nil)
	}
}

// pure refuses an effect that cannot be merged while a symbolic branch runs.
func (m *Machine) pure(what string) {
	if m.jrn != nil {
		m.Undecided(what + " under a condition on data")
	}
}

// eqBits compares two abstract integers; at most 8 undetermined positions.
func (m *Machine) eqBits(a, b Value) (Value, bool) {
	ha, oka := a.(*HInt)
	hb, okb := b.(*HInt)
	switch {
	case oka && !okb:
		hb, okb = m.asHInt(b, len(ha.Bits), ha.Signed)
	case okb && !oka:
		ha, oka = m.asHInt(a, len(hb.Bits), hb.Signed)
	}
	if !oka || !okb || len(ha.Bits) != len(hb.Bits) {
		return nil, false
	}
	r, n := m.Z.Int(1), 0
	for i := range ha.Bits {
		x, y := ha.Bits[i], hb.Bits[i]
		if poly.Eq(x, y) {
			continue
		}
		if c, ok := m.Z.Sub(x, y).IsConst(); ok && c.Sign() != 0 {
			return false, true
		}
		if n++; n > 8 {
			return nil, false
		}
		xy := m.Z.Mul(x, y)
		if xy == nil {
			return nil, false
		}
		same := m.Z.AddScaled(m.Z.Sub(m.Z.Sub(m.Z.Int(1), x), y), xy, bi(2))
		if r = m.Z.Mul(r, same); r == nil {
			return nil, false
		}
	}
	return m.hbool(r), true
}

func (m *Machine) hbool(p *poly.Poly) Value {
	if c, ok := p.IsConst(); ok {
		return c.Sign() != 0
	}
	return HBool{p}
}

func (m *Machine) notBool(h HBool) Value { return m.hbool(m.Z.Sub(m.Z.Int(1), h.P)) }

// ipdoms returns the immediate post-dominators (nil: the function's exit).
func ipdoms(fn *ssa.Function) []*ssa.BasicBlock {
	n := len(fn.Blocks)
	words := (n + 64) / 64
	pd := make([][]uint64, n)
	for i := range pd {
		pd[i] = make([]uint64, words)
		for w := range pd[i] {
			pd[i][w] = ^uint64(0)
		}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			s := make([]uint64, words)
			for k, sc := range b.Succs {
				for w := range s {
					if k == 0 {
						s[w] = pd[sc.Index][w]
					} else {
						s[w] &= pd[sc.Index][w]
					}
				}
			}
			s[i/64] |= 1 << uint(i%64)
			for w := range s {
				if s[w] != pd[i][w] {
					changed = true
				}
			}
			pd[i] = s
		}
	}
	count := func(s []uint64) (c int) {
		for j := 0; j < n; j++ {
			c += int(s[j/64] >> uint(j%64) & 1)
		}
		return
	}
	out := make([]*ssa.BasicBlock, n)
	for i := range fn.Blocks {
		best := -1
		for j := 0; j < n; j++ {
			if j == i || pd[i][j/64]>>uint(j%64)&1 == 0 {
				continue
			}
			if best < 0 || count(pd[j]) > count(pd[best]) {
				best = j
			}
		}
		if best >= 0 {
			out[i] = fn.Blocks[best]
		}
	}
	return out
}

// ite is v if p is 1 and w if p is 0.
func (m *Machine) ite(p *poly.Poly, v, w Value, t types.Type, fresh map[*Value]bool) (Value, bool) {
	mix := func(x, y *poly.Poly) *poly.Poly {
		if poly.Eq(x, y) {
			return x
		}
		d := m.Z.Mul(p, m.Z.Sub(x, y))
		if d == nil {
			return nil
		}
		return m.Z.Add(y, d)
	}
	toP := func(v Value) *poly.Poly {
		switch x := v.(type) {
		case bool:
			if x {
				return m.Z.Int(1)
			}
			return m.Z.Int(0)
		case HBool:
			return x.P
		}
		return nil
	}
	switch x := v.(type) {
	case int64, *HInt:
		switch w.(type) {
		case int64, *HInt:
		default:
			return nil, false
		}
		if a, ok := x.(int64); ok {
			if b, ok := w.(int64); ok && a == b {
				return a, true
			}
		}
		wd, signed := 0, false
		for _, z := range []Value{v, w} {
			if h, ok := z.(*HInt); ok {
				wd, signed = len(h.Bits), h.Signed
			}
		}
		if wd == 0 {
			wd = 64 // an integer of undetermined width keeps all its bits
			if t != nil {
				k := kindOf(t)
				wd, signed = width(k), !isUnsigned(k)
			}
		}
		a, _ := m.asHInt(v, wd, signed)
		b, _ := m.asHInt(w, wd, signed)
		if len(a.Bits) != len(b.Bits) {
			return nil, false
		}
		o := &HInt{Bits: make([]*poly.Poly, wd), Signed: signed}
		for i := range o.Bits {
			if o.Bits[i] = mix(a.Bits[i], b.Bits[i]); o.Bits[i] == nil {
				return nil, false
			}
		}
		return m.simplify(o), true
	case bool, HBool:
		a, b := toP(v), toP(w)
		if a == nil || b == nil {
			return nil, false
		}
		if r := mix(a, b); r != nil {
			return m.hbool(r), true
		}
		return nil, false
	case BigInt:
		y, ok := w.(BigInt)
		if !ok {
			return nil, false
		}
		if r, ok := m.iteResidue(p, x.P, y.P); ok {
			return BigInt{r}, true
		}
		if r := mix(x.P, y.P); r != nil {
			return BigInt{r}, true
		}
		return nil, false
	case string:
		if y, ok := w.(string); ok && x == y {
			return x, true
		}
		return nil, false
	case nil:
		return nil, w == nil
	case *Value:
		y, ok := w.(*Value)
		return x, ok && x == y
	case *Map:
		y, ok := w.(*Map)
		return x, ok && x == y
	case *Opaque:
		y, ok := w.(*Opaque)
		return x, ok && x == y
	case *Wire:
		y, ok := w.(*Wire)
		return x, ok && x == y
	case Iface:
		y, ok := w.(Iface)
		if !ok || (x.T == nil) != (y.T == nil) {
			return nil, false
		}
		if x.T == nil {
			return x, true
		}
		if !types.Identical(x.T, y.T) {
			return nil, false
		}
		r, ok := m.ite(p, x.V, y.V, x.T, fresh)
		return Iface{x.T, r}, ok
	case Arr:
		y, ok := w.(Arr)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		var et types.Type
		if t != nil {
			if a, ok := t.Underlying().(*types.Array); ok {
				et = a.Elem()
			}
		}
		o := make(Arr, len(x))
		for i := range x {
			if o[i], ok = m.ite(p, x[i], y[i], et, fresh); !ok {
				return nil, false
			}
		}
		return o, true
	case Struct:
		y, ok := w.(Struct)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		o := make(Struct, len(x))
		for i := range x {
			var ft types.Type
			if t != nil {
				if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
					ft = s.Field(i).Type()
				}
			}
			if o[i], ok = m.ite(p, x[i], y[i], ft, fresh); !ok {
				return nil, false
			}
		}
		return o, true
	case Tuple:
		y, ok := w.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		o := make(Tuple, len(x))
		for i := range x {
			var ft types.Type
			if tt, ok := t.(*types.Tuple); ok && i < tt.Len() {
				ft = tt.At(i).Type()
			}
			if o[i], ok = m.ite(p, x[i], y[i], ft, fresh); !ok {
				return nil, false
			}
		}
		return o, true
	case Slice:
		y, ok := w.(Slice)
		if !ok || len(x) != len(y) || (x == nil) != (y == nil) {
			return nil, false
		}
		if len(x) == 0 {
			return x, cap(x) == cap(y)
		}
		if &x[0] == &y[0] {
			return x, cap(x) == cap(y)
		}
		if !fresh[&x[0]] || !fresh[&y[0]] || cap(x) != cap(y) {
			return nil, false
		}
		var et types.Type
		if t != nil {
			if s, ok := t.Underlying().(*types.Slice); ok {
				et = s.Elem()
			}
		}
		o := make(Slice, len(x), cap(x))
		for i := range x {
			if o[i], ok = m.ite(p, x[i], y[i], et, fresh); !ok {
				return nil, false
			}
		}
		fresh[&o[0]] = true
		return o, true
	}
	return nil, false
}

// mergeIf runs both sides of a branch on data up to the block where they meet
// and merges registers and memory. It returns that block (nil: both return).
func (m *Machine) mergeIf(f *frame, p *poly.Poly, b *ssa.BasicBlock) *ssa.BasicBlock {
	fi := f.info
	if fi.ipd == nil {
		fi.ipd = ipdoms(f.fn)
	}
	join := fi.ipd[b.Index]
	outer := m.jrn
	if outer != nil && outer.depth > 12 {
		m.Undecided("nested conditions on data")
	}
	fresh := map[*Value]bool{}
	depth := 1
	if outer != nil {
		depth = outer.depth + 1
		fresh = outer.fresh
	}
	defer func() { m.jrn = outer }()
	type side struct {
		env    []Value
		phis   []Value
		result Value
		cells  map[*Value]Value
	}
	var sides [2]side
	first := map[*Value]jent{}
	var order []*Value
	env0 := append([]Value(nil), f.env...)
	ncons, nev, nl, nd, nst := len(m.Cons), len(m.Events), len(m.Loose), len(f.defers), len(m.stack)
	phis := func() (out []*ssa.Phi) {
		if join != nil {
			for _, in := range join.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				out = append(out, ph)
			}
		}
		return
	}()
	for k := 0; k < 2; k++ {
		copy(f.env, env0)
		j := &journal{fresh: fresh, depth: depth}
		m.jrn = j
		f.result = nil
		func() {
			defer func() {
				if r := recover(); r != nil {
					if ab, ok := r.(*Abort); ok {
						m.stack = m.stack[:nst]
						m.Undecided(fmt.Sprintf("one side of a condition on data aborts: %v", ab.Val))
					}
					panic(r)
				}
			}()
			last, preset := b, false
			if b.Succs[k] != join {
				last, preset = m.runTo(f, b.Succs[k], b, join)
			}
			if join != nil {
				if last == nil {
					m.Undecided("one side of a condition on data returns")
				}
				if preset {
					for _, ph := range phis {
						sides[k].phis = append(sides[k].phis, f.env[fi.idx[ph]])
					}
					return
				}
				idx := -1
				for i, pb := range join.Preds {
					if pb == last {
						idx = i
					}
				}
				// a branch both of whose sides go straight to the join
				if b.Succs[0] == join && b.Succs[1] == join {
					idx = -1
					n := 0
					for i, pb := range join.Preds {
						if pb == b {
							if n == k {
								idx = i
							}
							n++
						}
					}
				}
				if idx < 0 {
					m.Undecided("phi without predecessor")
				}
				for _, ph := range phis {
					sides[k].phis = append(sides[k].phis, m.get(f, ph.Edges[idx]))
				}
			}
		}()
		if len(m.Cons) != ncons || len(m.Events) != nev || len(m.Loose) != nl || len(f.defers) != nd {
			m.Undecided("constraints or deferred calls under a condition on data")
		}
		sides[k].env = append([]Value(nil), f.env...)
		sides[k].result = f.result
		sides[k].cells = map[*Value]Value{}
		for _, e := range j.ents {
			sides[k].cells[e.p] = *e.p
			if _, ok := first[e.p]; !ok {
				first[e.p] = e
				order = append(order, e.p)
			} else if x := first[e.p]; x.t == nil && e.t != nil {
				x.t = e.t
				first[e.p] = x
			}
		}
		for i := len(j.ents) - 1; i >= 0; i-- {
			*j.ents[i].p = j.ents[i].old
		}
	}
	m.jrn = outer
	for _, c := range order {
		e := first[c]
		v, okv := sides[0].cells[c]
		if !okv {
			v = *c
		}
		w, okw := sides[1].cells[c]
		if !okw {
			w = *c
		}
		r, ok := m.ite(p, v, w, e.t, fresh)
		if !ok {
			r = &Opaque{T: types.Typ[types.Invalid], Op: fmt.Sprintf("merged%d", m.nmerge)}
			m.nmerge++
		}
		m.wr(c, e.t)
		*c = r
	}
	copy(f.env, env0)
	if join == nil {
		var t types.Type = f.fn.Signature.Results()
		if f.fn.Signature.Results().Len() == 1 {
			t = f.fn.Signature.Results().At(0).Type()
		}
		r, ok := m.ite(p, sides[0].result, sides[1].result, t, fresh)
		if !ok {
			m.Undecided("results that cannot be merged: " + Show(sides[0].result) + " / " + Show(sides[1].result))
		}
		f.result = r
		return nil
	}
	for i := range f.env {
		v, w := sides[0].env[i], sides[1].env[i]
		if sameReg(v, w) {
			f.env[i] = v
			continue
		}
		if d := fi.vals[i]; d != nil && (d.Block() == nil || d.Block().Dominates(join) && d.Block() != join) {
			r, ok := m.ite(p, v, w, d.(ssa.Value).Type(), fresh)
			if !ok {
				m.Undecided("values that cannot be merged: " + Show(v) + " / " + Show(w))
			}
			f.env[i] = r
		}
	}
	for i, ph := range phis {
		v, w := sides[0].phis[i], sides[1].phis[i]
		r, ok := m.ite(p, v, w, ph.Type(), fresh)
		if !ok {
			m.Undecided("values that cannot be merged: " + Show(v) + " / " + Show(w))
		}
		f.env[fi.idx[ph]] = r
	}
	return join
}

// sameReg: the register was not changed by either side.
func sameReg(v, w Value) bool {
	switch x := v.(type) {
	case Slice:
		y, ok := w.(Slice)
		return ok && len(x) == len(y) && cap(x) == cap(y) && (x == nil) == (y == nil) && (len(x) == 0 || &x[0] == &y[0])
	case Arr, Struct, Tuple, Iface:
		return false
	case HBool:
		y, ok := w.(HBool)
		return ok && poly.Eq(x.P, y.P)
	case BigInt:
		y, ok := w.(BigInt)
		return ok && poly.Eq(x.P, y.P)
	}
	switch w.(type) {
	case Slice, Arr, Struct, Tuple, Iface, HBool, BigInt:
		return false
	}
	return v == w
}

// boolEq compares abstract integers or booleans where that is a polynomial.
func (m *Machine) boolEq(a, b Value) (Value, bool) {
	ha, oka := a.(HBool)
	hb, okb := b.(HBool)
	if oka || okb {
		one := func(v Value) *poly.Poly {
			if c, ok := v.(bool); ok {
				if c {
					return m.Z.Int(1)
				}
				return m.Z.Int(0)
			}
			return nil
		}
		x, y := ha.P, hb.P
		if !oka {
			x = one(a)
		}
		if !okb {
			y = one(b)
		}
		if x == nil || y == nil {
			return nil, false
		}
		xy := m.Z.Mul(x, y)
		if xy == nil {
			return nil, false
		}
		return m.hbool(m.Z.AddScaled(m.Z.Sub(m.Z.Sub(m.Z.Int(1), x), y), xy, bi(2))), true
	}
	return m.eqBits(a, b)
}
