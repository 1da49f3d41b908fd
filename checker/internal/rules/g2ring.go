package rules

import (
	"fmt"
	"math/big"
	"strings"

	"zkcheck/internal/ai"
	"zkcheck/internal/poly"
)

// Values of Fp2 as elements of an abstract ring: sums, products and quotients
// of whole Fp2 indeterminates. The Fp2 methods that the C14 rules prove are
// replaced by their meaning; anything that looks at one coordinate is refused.

type e2Half struct {
	el *emuEl
	im bool
}

// ringEnv adds the ring model and path enumeration to blsEnv.
type ringEnv struct {
	*blsEnv
	f       *forks
	nonzero []*poly.Poly
	konst   map[string]c2 // constants outside Fp
	twist   *emuEl        // the value of 4(1+u) in terms of the point, when known
}

// forks enumerates the answers to undetermined yes/no questions.
type forks struct {
	script []bool
	n      int
	keys   map[string]bool
	names  []string
}

func (f *forks) ask(key, name string) bool {
	if v, ok := f.keys[key]; ok {
		return v
	}
	if f.n == len(f.script) {
		f.script = append(f.script, false)
	}
	v := f.script[f.n]
	f.n++
	f.keys[key] = v
	f.names = append(f.names, fmt.Sprintf("%s=%v", name, v))
	return v
}

// paths runs body once for every combination of answers.
func paths(t *T, body func(f *forks)) {
	var script []bool
	for n := 0; ; n++ {
		if n > 4096 {
			Failf("too many cases")
		}
		f := &forks{script: script, keys: map[string]bool{}}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if o, ok := r.(*obFail); ok && len(f.names) > 0 {
						panic(&obFail{fmt.Sprintf("case %s: %s", clip(strings.Join(f.names, ", ")), o.msg)})
					}
					panic(r)
				}
			}()
			body(f)
		}()
		script = f.script[:f.n]
		i := len(script) - 1
		for i >= 0 && script[i] {
			i--
		}
		if i < 0 {
			return
		}
		script = append(append([]bool(nil), script[:i]...), true)
	}
}

func newRing(t *T, f *forks) *ringEnv {
	r := &ringEnv{blsEnv: newBlsBare(t), f: f, konst: map[string]c2{}}
	r.ringMode()
	return r
}

// k is a constant of Fp2 as a ring element.
func (r *ringEnv) k(c c2) *emuEl {
	if c[1].Sign() == 0 {
		return r.e.mk(r.e.E.Const(c[0]), nil)
	}
	key := fmt.Sprintf("%s+%su", c[0], c[1])
	r.konst[key] = c
	return r.e.input("const:" + key)
}

func (r *ringEnv) at(name string) *emuEl { return r.e.input(name) }
func (r *ringEnv) int(v int64) *emuEl    { return r.e.mk(r.e.E.Int(v), nil) }

// in and out convert ring elements to the analysed program's E2 values.
func (r *ringEnv) in(x *emuEl) ai.Value {
	return ai.Struct{e2Half{x, false}, e2Half{x, true}}
}
func (r *ringEnv) inp(x *emuEl) ai.Value { return ptr(r.in(x)) }

func (r *ringEnv) out(v ai.Value) *emuEl {
	s := strct(v, 2)
	a, ok := s[0].(e2Half)
	b, ok2 := s[1].(e2Half)
	if ok && ok2 {
		if a.el != b.el || a.im || !b.im {
			Failf("mixes coordinates of different Fp2 values")
		}
		return a.el
	}
	if ok || ok2 {
		Failf("mixes coordinates of different Fp2 values")
	}
	x, y := r.e.el(s[0]), r.e.el(s[1])
	c0, ok := x.Num.IsConst()
	c1, ok2 := y.Num.IsConst()
	if !ok || !ok2 {
		r.m.Undecided("Fp2 value built from separate coordinates")
	}
	return r.k(c2{mod(c0), mod(c1)})
}

func (r *ringEnv) over(name string, f func(m *ai.Machine, a []ai.Value) ai.Value) {
	typ, meth, ok := strings.Cut(name, ".")
	var key string
	if ok {
		fn := r.m.Func(blsPkg, typ+"."+meth)
		if fn == nil {
			return
		}
		key = ai.FuncName(fn)
	} else {
		key = blsName(name)
	}
	r.m.Over[key] = func(m *ai.Machine, c *ai.Call) ai.Value { return f(m, c.Args[1:]) }
}

func (r *ringEnv) ringMode() {
	e := r.e
	// multiplicative operations keep pointers to their operands
	defers := map[string]bool{"Mul": true, "Div": true, "Square": true, "Inverse": true}
	bin := func(name string, f func(x, y *emuEl) *emuEl) {
		r.over("ext2."+name, func(m *ai.Machine, a []ai.Value) ai.Value {
			if defers[name] {
				e.use(a[0])
				e.use(a[1])
			}
			return r.inp(f(r.out(a[0]), r.out(a[1])))
		})
	}
	un := func(name string, f func(x *emuEl) *emuEl) {
		r.over("ext2."+name, func(m *ai.Machine, a []ai.Value) ai.Value {
			if defers[name] {
				e.use(a[0])
			}
			return r.inp(f(r.out(a[0])))
		})
	}
	scale := func(k *big.Int) func(x *emuEl) *emuEl {
		return func(x *emuEl) *emuEl { return e.mk(e.E.Scale(x.Num, k), x.Den) }
	}
	bin("Add", e.add)
	bin("Sub", e.sub)
	bin("Mul", e.mul)
	bin("Div", e.div)
	un("Neg", scale(big.NewInt(-1)))
	un("Double", scale(big.NewInt(2)))
	un("Halve", scale(new(big.Int).ModInverse(big.NewInt(2), blsP)))
	un("Square", func(x *emuEl) *emuEl { return e.mul(x, x) })
	un("Inverse", func(x *emuEl) *emuEl { return e.div(r.int(1), x) })
	un("MulByNonResidue", func(x *emuEl) *emuEl { return e.mul(x, r.k(blsXi)) })
	un("MulByNonResidueInv", func(x *emuEl) *emuEl { return e.mul(x, r.k(blsXi.inv())) })
	un("Conjugate", func(x *emuEl) *emuEl {
		if c, ok := x.Num.IsConst(); ok {
			if d, ok := x.Den.IsConst(); ok && d.Cmp(big.NewInt(1)) == 0 {
				return e.mk(e.E.Const(c), nil)
			}
		}
		r.m.Undecided("conjugation of an indeterminate")
		return nil
	})
	r.over("ext2.MulByElement", func(m *ai.Machine, a []ai.Value) ai.Value {
		e.use(a[0])
		e.use(a[1])
		return r.inp(e.mul(r.out(a[0]), e.el(a[1])))
	})
	un("MulBybTwistCurveCoeff", func(x *emuEl) *emuEl {
		if r.twist == nil {
			r.m.Undecided("curve coefficient outside a point formula")
		}
		return e.mul(x, r.twist)
	})
	r.over("ext2.Zero", func(m *ai.Machine, a []ai.Value) ai.Value { return r.inp(r.int(0)) })
	r.over("ext2.One", func(m *ai.Machine, a []ai.Value) ai.Value { return r.inp(r.int(1)) })
	r.over("ext2.Select", func(m *ai.Machine, a []ai.Value) ai.Value {
		x, y := r.out(a[1]), r.out(a[2])
		if b, ok := r.m.ToWire(a[0]).P.IsConst(); ok {
			switch {
			case b.Sign() == 0:
				return r.inp(y)
			case b.Cmp(big.NewInt(1)) == 0:
				return r.inp(x)
			}
			m.AbortNow("selector constant is not boolean")
		}
		return r.inp(e.sel(r.m.ToWire(a[0]), x, y))
	})
	bit := func(b bool) ai.Value {
		if b {
			return ai.V(r.m.ConstI(1))
		}
		return ai.V(r.m.ConstI(0))
	}
	// predicates: each distinct question forks the analysis
	r.over("E2NotZero", func(m *ai.Machine, a []ai.Value) ai.Value { return bit(r.nz(r.out(a[0]))) })
	r.over("E2NotOne", func(m *ai.Machine, a []ai.Value) ai.Value {
		return bit(r.nz(e.sub(r.out(a[0]), r.int(1))))
	})
	r.over("E2NotEqual", func(m *ai.Machine, a []ai.Value) ai.Value {
		return bit(r.nz(e.sub(r.out(a[0]), r.out(a[1]))))
	})
}

func (r *ringEnv) monic(p *poly.Poly) *poly.Poly {
	return r.e.E.Scale(p, new(big.Int).ModInverse(new(big.Int).Mod(p.T[0].C, blsP), blsP))
}

// nz decides x != 0 in the current case, forking when it is undetermined.
func (r *ringEnv) nz(x *emuEl) bool {
	if len(x.Num.T) == 0 {
		return false
	}
	if r.isUnit(x.Num) {
		return true
	}
	p := r.monic(x.Num)
	return r.f.ask("nz:"+p.Key(), clip("["+r.e.E.String(p)+" != 0]"))
}

// isUnit reports whether p is a product of values known to be non-zero.
func (r *ringEnv) isUnit(p *poly.Poly) bool {
	if len(p.T) == 0 {
		return false
	}
	if _, ok := p.IsConst(); ok {
		return true
	}
	want := r.monic(p).Key()
	var rec func(i int, q *poly.Poly) bool
	rec = func(i int, q *poly.Poly) bool {
		if r.monic(q).Key() == want {
			return true
		}
		if i == len(r.nonzero) {
			return false
		}
		for k := 0; k <= 4; k++ {
			if rec(i+1, q) {
				return true
			}
			if len(q.T)*len(r.nonzero[i].T) > 20000 {
				return false
			}
			if q = r.e.E.Mul(q, r.nonzero[i]); q == nil {
				return false
			}
		}
		return false
	}
	return rec(0, r.e.E.Int(1))
}

func (r *ringEnv) assume(x *emuEl) { r.nonzero = append(r.nonzero, x.Num) }

// same demands equality; for a clearer message it names the value.
func (r *ringEnv) same(what string, got, want *emuEl) { r.e.same(what, got, want) }

// fn calls a package-level function whose first parameter is the circuit API.
func (r *blsEnv) fn(name string, args ...ai.Value) ai.Value {
	return r.t.Run(r.m, blsPkg, name, append([]ai.Value{r.m.APIValue()}, args...)...)
}
