package rules

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"

	"zkcheck/internal/ai"
	"zkcheck/internal/load"
	"zkcheck/internal/poly"
)

func init() {
	register("C17", "The emulated MiMC gadget is abstractly interpreted with symbolic message elements and symbolic round constants (the constants are identified with the resolved GetConstants of the curve's reference package); the result of every sequence of Write/Sum/Reset/Hash must be the Miyaguchi-Preneel polynomial chain with the curve's S-box exponent over exactly the written elements. Products of sums are kept as canonical atoms, so equality is decided for all contents.", runC17)
}

type mimcCurve struct {
	name, field, pkg string
	id               int64
	q                *big.Int
	exp              int
}

var mimcCurves = []mimcCurve{
	{"BLS12-377", "BLS12377Fr", "github.com/consensys/gnark-crypto/ecc/bls12-377/fr/mimc", 2, ai.BLS377Fr, 17},
	{"BN254", "BN254Fr", "github.com/consensys/gnark-crypto/ecc/bn254/fr/mimc", 1, ai.BN254Fr, 5},
	{"BW6-761", "BW6761Fr", "github.com/consensys/gnark-crypto/ecc/bw6-761/fr/mimc", 7, ai.BW6761Fr, 5},
}

// mimcRounds reads the number of rounds from the reference package.
func mimcRounds(t *T, pkg string) int {
	p := t.C.Prog.Pkgs[pkg]
	if p == nil || p.Types == nil {
		Failf("reference package %s is not loaded", pkg)
	}
	k, ok := p.Types.Scope().Lookup("mimcNbRounds").(*types.Const)
	if !ok {
		Failf("%s.mimcNbRounds not found", pkg)
	}
	n, _ := constant.Int64Val(k.Val())
	return int(n)
}

func mimcConst(m *ai.Machine, pkg string, i int) *poly.Poly {
	return m.Z.Var(m.Sp.Atom(fmt.Sprintf("mimcK:%s:%d", pkg, i), func(a *poly.Atom) {
		a.Kind = "input"
		a.Name = fmt.Sprintf("k%d", i)
	}))
}

func newMimcEmu(t *T, q *big.Int) (*ai.Machine, *emuModel) {
	m := t.M(ai.BN254Fr)
	e := newEmu(m, q)
	e.name = true
	for _, cv := range mimcCurves {
		pkg := cv.pkg
		n := mimcRounds(t, pkg)
		m.Over[pkg+".GetConstants"] = func(m *ai.Machine, c *ai.Call) ai.Value {
			var s ai.Slice
			for i := 0; i < n; i++ {
				s = append(s, *m.NewBig(mimcConst(m, pkg, i)))
			}
			return s
		}
	}
	return m, e
}

// refMimc is the reference chain starting from state h.
func refMimc(t *T, e *emuModel, cv mimcCurve, h *poly.Poly, data []*poly.Poly) *poly.Poly {
	n := mimcRounds(t, cv.pkg)
	for _, d := range data {
		x := d
		for i := 0; i < n; i++ {
			s := e.nm(e.E.Sum(x, h, e.E.Conv(mimcConst(e.m, cv.pkg, i))))
			x = s
			for k := 1; k < cv.exp; k++ {
				x = e.mulP(x, s)
			}
		}
		x = e.E.Add(x, h)
		h = e.E.Sum(h, x, d)
	}
	return h
}

func (e *emuModel) inputs(name string, n int) (ai.Slice, []*poly.Poly) {
	var s ai.Slice
	var ps []*poly.Poly
	for i := 0; i < n; i++ {
		x := e.input(fmt.Sprintf("%s%d", name, i))
		s = append(s, e.cell(x))
		ps = append(ps, x.Num)
	}
	return s, ps
}

func runC17(c *Ctx) {
	max := 3
	if c.Thorough {
		max = 8
	}
	for _, cv := range mimcCurves {
		for _, n := range c.grid(seq(0, max), 0, 40, G+"emulated/mimc") {
			c.Ob("mimc-hash", fmt.Sprintf("Hash over %s, %d elements", cv.name, n), func(t *T) {
				m, e := newMimcEmu(t, cv.q)
				in, ps := e.inputs("a", n)
				in, full := spareSlice(in, 5)
				before := append(ai.Slice(nil), full...)
				got := e.el(t.Run(m, load.InstPath, "MimcHash_"+cv.field, m.APIValue(), cv.id, in))
				mustUnchanged("Hash", full, before)
				e.same("hash", got, e.mk(refMimc(t, e, cv, e.E.Int(0), ps), nil))
				if len(m.Cons) != 0 || len(e.Eqs) != 0 {
					Failf("hashing adds assertions on its inputs")
				}
			})
		}
		type seq struct {
			fn   string
			want func(t *T, e *emuModel, a, b []*poly.Poly) *poly.Poly
		}
		zero := func(e *emuModel) *poly.Poly { return e.E.Int(0) }
		cat := func(t *T, e *emuModel, a, b []*poly.Poly) *poly.Poly {
			return refMimc(t, e, cv, refMimc(t, e, cv, zero(e), a), b)
		}
		onlyB := func(t *T, e *emuModel, a, b []*poly.Poly) *poly.Poly { return refMimc(t, e, cv, zero(e), b) }
		for _, s := range []seq{
			{"MimcWriteSum", cat}, {"MimcTwice", onlyB}, {"MimcPending", onlyB}, {"MimcSumReset", onlyB},
			{"MimcSumWriteSum", cat}, {"MimcSumTwice", cat}, {"MimcInter", onlyB},
		} {
			for _, na := range []int{0, 1, 2} {
				for _, nb := range []int{0, 1, 2} {
					c.Ob("mimc-sequence", fmt.Sprintf("%s over %s, %d and %d elements", s.fn, cv.name, na, nb), func(t *T) {
						m, e := newMimcEmu(t, cv.q)
						a, pa := e.inputs("a", na)
						b, pb := e.inputs("b", nb)
						a, fa := spareSlice(a, 5)
						b, fb := spareSlice(b, 5)
						ba, bb := append(ai.Slice(nil), fa...), append(ai.Slice(nil), fb...)
						got := e.el(t.Run(m, load.InstPath, s.fn+"_"+cv.field, m.APIValue(), cv.id, a, b))
						mustUnchanged("Write", fa, ba)
						mustUnchanged("Write", fb, bb)
						e.same("result", got, e.mk(s.want(t, e, pa, pb), nil))
					})
				}
			}
		}
	}
	c.Assume = append(c.Assume, "gnark's emulated.Field implements arithmetic modulo the field parameters", "gnark-crypto's GetConstants returns the curve's MiMC round constants")
	c.Floor("mimc-hash", 12)
	c.Floor("mimc-sequence", 180)
}
