package rules

import (
	"fmt"
	"math/big"

	"zkcheck/internal/ai"
	"zkcheck/internal/load"
	"zkcheck/internal/poly"
)

func init() {
	register("C16", "Every Merkle-root gadget is abstractly interpreted with the hash as an uninterpreted function of the exact sequence it absorbs; for every path depth, every combination of position bits and symbolic leaf and siblings the result must be the reference fold, position bits other than 0 and 1 must have no solution, and malformed shapes must be refused.", runC16)
}

const gMimc = "github.com/consensys/gnark/std/hash/mimc"

// newNativeMimc makes a machine in which gnark's MiMC Sum is the uninterpreted
// function of (state, written data), and a MiMC value that still holds data of
// an earlier use.
func newNativeMimc(t *T) (*ai.Machine, ai.Value) {
	m := t.M(ai.BN254Fr)
	p := t.C.Prog.Pkgs[gMimc]
	if p == nil {
		Failf("package %s is not loaded", gMimc)
	}
	ty := p.Types.Scope().Lookup("MiMC").Type()
	hi, di, ai_ := structField(ty, "h"), structField(ty, "data"), structField(ty, "api")
	m.Over[gMimc+".(*MiMC).Sum"] = func(m *ai.Machine, c *ai.Call) ai.Value {
		p := c.Args[0].(*ai.Value)
		s := append(ai.Struct(nil), (*p).(ai.Struct)...)
		ws := m.WiresOf(asSlice(s[di]))
		h := m.ToWire(s[hi])
		for _, w := range ws {
			h = m.OpaqueWire("mimc", 0, h, w)
		}
		s[hi] = ai.V(h)
		s[di] = ai.Slice(nil)
		*p = s
		return s[hi]
	}
	upd := func(f func(s ai.Struct, args []ai.Value)) func(m *ai.Machine, c *ai.Call) ai.Value {
		return func(m *ai.Machine, c *ai.Call) ai.Value {
			p := c.Args[0].(*ai.Value)
			s := append(ai.Struct(nil), (*p).(ai.Struct)...)
			f(s, c.Args[1:])
			*p = s
			return nil
		}
	}
	m.Over[gMimc+".(*MiMC).Write"] = upd(func(s ai.Struct, a []ai.Value) {
		d := append(ai.Slice(nil), asSlice(s[di])...)
		s[di] = append(d, asSlice(a[0])...)
	})
	m.Over[gMimc+".(*MiMC).Reset"] = upd(func(s ai.Struct, a []ai.Value) {
		s[di], s[hi] = ai.Slice(nil), int64(0)
	})
	v := m.Zero(ty).(ai.Struct)
	v[ai_] = m.APIValue()
	v[hi] = ai.V(m.Input("oldstate"))
	v[di] = ai.Slice{ai.V(m.Input("olddata"))}
	return m, v
}

func nHash(m *ai.Machine, xs ...*ai.Wire) *ai.Wire {
	h := m.ConstI(0)
	for _, x := range xs {
		h = m.OpaqueWire("mimc", 0, h, x)
	}
	return h
}

func nFold(m *ai.Machine, leaf *ai.Wire, sib []*ai.Wire, mask int) *ai.Wire {
	h := leaf
	for i, s := range sib {
		if mask>>uint(i)&1 == 0 {
			h = nHash(m, h, s)
		} else {
			h = nHash(m, s, h)
		}
	}
	return h
}

func inputWires(m *ai.Machine, name string, n int) (ai.Slice, []*ai.Wire) {
	var s ai.Slice
	var ws []*ai.Wire
	for i := 0; i < n; i++ {
		w := m.Input(fmt.Sprintf("%s%d", name, i))
		s = append(s, ai.V(w))
		ws = append(ws, w)
	}
	return s, ws
}

func constWires(n, mask int) ai.Slice {
	var s ai.Slice
	for i := 0; i < n; i++ {
		s = append(s, int64(mask>>uint(i)&1))
	}
	return s
}

// pow2Split separates the leaf counts of full trees from the others; the trees also include the full trees up
// to twice the largest count.
func pow2Split(ns []int) (trees, stumps []int) {
	for p := 1; p < 2*ns[len(ns)-1]; p *= 2 {
		trees = append(trees, p)
	}
	for _, n := range ns {
		if n == 0 || n&(n-1) != 0 {
			stumps = append(stumps, n)
		}
	}
	return
}

// masks lists the position patterns of a path of length d: all of them up to the given depth, and beyond it
// the constant, alternating and single-step ones.
func masks(d, all int) (o []int) {
	if d <= all {
		return seq(0, 1<<d-1)
	}
	full := 1<<d - 1
	alt := 0x5555555555555555 & full
	o = []int{0, full, alt, full &^ alt}
	for _, i := range []int{0, d / 2, d - 1} {
		o = append(o, 1<<i, full&^(1<<i))
	}
	return o
}

func is01(v *big.Int) bool { return v.Cmp(big.NewInt(1)) <= 0 }

func runC16(c *Ctx) {
	deep := 4
	if c.Thorough {
		deep = 7
	}
	mk, sm := G+"merkle", G+"smt"
	type nat struct {
		name     string
		pkg, fn  string
		hashLeaf int // number of leaf hashes before the fold
	}
	// native gadgets
	for _, f := range []nat{
		{"MerkleRootWithLeaveHash", mk, "MerkleRootWithLeaveHash", 0},
		{"MerkleRootBasedOnMiMCHash", mk, "MerkleRootBasedOnMiMCHash", 1},
		{"CalculateLeafValueHash", sm, "CalculateLeafValueHash", 1},
	} {
		call := func(t *T, m *ai.Machine, h ai.Value, leaf ai.Value, idx, br ai.Slice, spare bool) ai.Outcome {
			if f.pkg == sm {
				tree := append(ai.Slice{leaf}, br...)
				return t.Try(m, f.pkg, f.fn, m.APIValue(), h, tree, idx)
			}
			return t.Try(m, f.pkg, f.fn, m.APIValue(), h, leaf, idx, br)
		}
		for _, d := range c.grid(seq(0, deep), 0, 48, mk, sm) {
			for _, mask := range masks(d, deep) {
				c.Ob("merkle-fold", fmt.Sprintf("%s depth %d positions %0*b", f.name, d, d, mask), func(t *T) {
					m, h := newNativeMimc(t)
					leaf := m.Input("leaf")
					br, bw := inputWires(m, "sib", d)
					br, full := spareSlice(br, 3)
					before := append(ai.Slice(nil), full...)
					o := call(t, m, h, ai.V(leaf), constWires(d, mask), br, true)
					if o.Abort != nil {
						Failf("refuses a well-formed path: %v", o.Abort.Val)
					}
					mustUnchanged("branches", full, before)
					if v := violated(m); v != "" {
						Failf("unsatisfiable for a well-formed path: %s", v)
					}
					x := leaf
					for i := 0; i < f.hashLeaf; i++ {
						x = nHash(m, x)
					}
					mustEq(m, "root", m.ToWire(o.Ret).P, nFold(m, x, bw, mask).P)
				})
			}
			if d > 0 {
				c.Ob("merkle-shape", fmt.Sprintf("%s depth %d with %d positions", f.name, d, d-1), func(t *T) {
					m, h := newNativeMimc(t)
					br, _ := inputWires(m, "sib", d)
					o := call(t, m, h, ai.V(m.Input("leaf")), constWires(d-1, 0), br, false)
					if o.Abort == nil && violated(m) == "" {
						Failf("a path with more siblings than positions is accepted")
					}
				})
				c.Ob("merkle-position", fmt.Sprintf("%s depth %d", f.name, d), func(t *T) {
					for i := 0; i < d; i++ {
						m, h := newNativeMimc(t)
						br, _ := inputWires(m, "sib", d)
						idx := constWires(d, 0)
						x := m.Input("pos")
						idx[i] = ai.V(x)
						o := call(t, m, h, ai.V(m.Input("leaf")), idx, br, false)
						if o.Abort != nil {
							Failf("stops: %v", o.Abort.Val)
						}
						a, _ := x.P.SingleAtom()
						rejectOrBool(m, x, a)
					}
				})
			}
		}
	}
	c.Ob("merkle-step", "MiMCHashBasedOnIndex", func(t *T) {
		for v := int64(0); v < 2; v++ {
			m, h := newNativeMimc(t)
			a, b, x := m.Input("a"), m.Input("b"), m.Input("pos")
			r := m.ToWire(t.Run(m, mk, "MiMCHashBasedOnIndex", m.APIValue(), h, ai.V(a), ai.V(b), ai.V(x)))
			want := nHash(m, a, b)
			if v == 1 {
				want = nHash(m, b, a)
			}
			mustEq(m, fmt.Sprintf("hash at position %d", v), m.Sp.Subst(r.P, atValue(m, x, v)), want.P)
			at, _ := x.P.SingleAtom()
			rejectOrBool(m, x, at)
		}
	})
	// sparse Merkle inclusion verdict
	for d := 0; d <= 2; d++ {
		for lt := 0; lt <= 2; lt++ {
			for mask := 0; mask < 1<<(d+lt); mask++ {
				c.Ob("smt-inclusion", fmt.Sprintf("depth %d leaf tree %d positions %b", d, lt, mask), func(t *T) {
					m, h := newNativeMimc(t)
					leaf, root := m.Input("leaf"), m.Input("root")
					lb, lw := inputWires(m, "lsib", lt)
					br, bw := inputWires(m, "sib", d)
					r := m.ToWire(t.Run(m, sm, "CheckSMTInclusion", m.APIValue(), h, int64(d), append(ai.Slice{ai.V(leaf)}, lb...), constWires(lt, mask>>uint(d)), constWires(d, mask), br, ai.V(root)))
					if v := violated(m); v != "" {
						Failf("unsatisfiable for a well-formed path: %s", v)
					}
					want := nFold(m, nHash(m, nFold(m, nHash(m, leaf), lw, mask>>uint(d))), bw, mask)
					mustEq(m, "verdict", r.P, m.IsZero(m.Sub(root, want)).P)
				})
			}
		}
	}
	c.Floor("merkle-fold", 60)
	c.Floor("merkle-position", 12)
	// emulated gadgets
	cv := mimcCurves[0]
	edeep := 3
	if c.Thorough {
		edeep = 5
	}
	two := func(t *T) (*ai.Machine, *emuModel) {
		m, e := newMimcEmu(t, cv.q)
		// the hash itself is the subject of C17: two rounds identify the absorbed sequence
		m.Over[cv.pkg+".GetConstants"] = func(m *ai.Machine, c *ai.Call) ai.Value {
			return ai.Slice{*m.NewBig(mimcConst(m, cv.pkg, 0)), *m.NewBig(mimcConst(m, cv.pkg, 1))}
		}
		return m, e
	}
	ref2 := func(e *emuModel, data ...*poly.Poly) *poly.Poly {
		h := e.E.Int(0)
		for _, d := range data {
			x := d
			for i := 0; i < 2; i++ {
				s := e.nm(e.E.Sum(x, h, e.E.Conv(mimcConst(e.m, cv.pkg, i))))
				x = s
				for k := 1; k < cv.exp; k++ {
					x = e.mulP(x, s)
				}
			}
			x = e.E.Add(x, h)
			h = e.E.Sum(h, x, d)
		}
		return h
	}
	for _, fn := range []string{"MimcRestore", "MimcRestoreTwice"} {
		for _, d := range c.grid(seq(0, edeep), 0, 24, mk) {
			if fn == "MimcRestoreTwice" && d&(d-1) != 0 || fn == "MimcRestoreTwice" && d == 0 {
				continue
			}
			for _, mask := range masks(d, edeep) {
				c.Ob("emulated-fold", fmt.Sprintf("%s depth %d positions %0*b", fn, d, d, mask), func(t *T) {
					m, e := two(t)
					leaf := e.input("leaf")
					path, ps := e.inputs("sib", d)
					got := e.el(t.Run(m, load.InstPath, fn+"_"+cv.field, m.APIValue(), cv.id, e.cell(leaf), path, constWires(d, mask)))
					h := leaf.Num
					for i, p := range ps {
						if mask>>uint(i)&1 == 0 {
							h = ref2(e, h, p)
						} else {
							h = ref2(e, p, h)
						}
					}
					e.same("root", got, e.mk(h, nil))
					if v := violated(m); v != "" || len(e.Eqs) != 0 {
						Failf("restricts a well-formed path: %s", v)
					}
				})
			}
			if d == 0 {
				continue
			}
			c.Ob("emulated-shape", fmt.Sprintf("%s depth %d", fn, d), func(t *T) {
				for _, k := range []int{d - 1, d + 1} {
					m, e := two(t)
					path, _ := e.inputs("sib", d)
					o := t.Try(m, load.InstPath, fn+"_"+cv.field, m.APIValue(), cv.id, e.cell(e.input("leaf")), path, constWires(k, 0))
					if o.Abort == nil {
						Failf("%d siblings with %d positions are accepted", d, k)
					}
				}
			})
			c.Ob("emulated-position", fmt.Sprintf("%s depth %d", fn, d), func(t *T) {
				for i := 0; i < d; i++ {
					m, e := two(t)
					path, _ := e.inputs("sib", d)
					idx := constWires(d, 0)
					x := m.Input("pos")
					idx[i] = ai.V(x)
					t.Run(m, load.InstPath, fn+"_"+cv.field, m.APIValue(), cv.id, e.cell(e.input("leaf")), path, idx)
					if !m.IsBool(x) {
						Failf("position bit %d is not constrained to 0 or 1", i)
					}
				}
			})
		}
	}
	trees, stumps := pow2Split(c.grid([]int{1, 2, 3, 4, 5, 6, 7, 8}, 1, 40, mk))
	for _, n := range trees {
		c.Ob("emulated-tree", fmt.Sprintf("MimcRoot %d leaves", n), func(t *T) {
			m, e := two(t)
			in, ps := e.inputs("leaf", n)
			in, full := spareSlice(in, 3)
			before := append(ai.Slice(nil), full...)
			got := e.el(t.Run(m, load.InstPath, "MimcRoot_"+cv.field, m.APIValue(), cv.id, in))
			mustUnchanged("leaves", full, before)
			for len(ps) > 1 {
				var nx []*poly.Poly
				for i := 0; i < len(ps); i += 2 {
					nx = append(nx, ref2(e, ps[i], ps[i+1]))
				}
				ps = nx
			}
			e.same("root", got, e.mk(ps[0], nil))
		})
	}
	for _, n := range stumps {
		c.Ob("emulated-tree-shape", fmt.Sprintf("MimcRoot %d leaves", n), func(t *T) {
			m, e := two(t)
			in, _ := e.inputs("leaf", n)
			if o := t.Try(m, load.InstPath, "MimcRoot_"+cv.field, m.APIValue(), cv.id, in); o.Abort == nil {
				Failf("a tree of %d leaves is accepted", n)
			}
		})
	}
	// Keccak tree
	trees, stumps = pow2Split(c.grid([]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12}, 0, 40, mk))
	for _, n := range trees {
		c.Ob("keccak-tree", fmt.Sprintf("KeccakMerkleRoot %d leaves", n), func(t *T) {
			m := newKeccakMachine(t)
			in, ls := keccakLeaves(m, n)
			got := m.WiresOf(t.Run(m, mk, "KeccakMerkleRoot", m.APIValue(), in))
			mustLen("root", len(got), 256)
			for len(ls) > 1 {
				var nx [][]*poly.Poly
				for i := 0; i < len(ls); i += 2 {
					blk := append(append([]*poly.Poly(nil), ls[i]...), ls[i+1]...)
					blk = append(blk, m.Sp.Int(1))
					for len(blk) < 1087 {
						blk = append(blk, m.Sp.Int(0))
					}
					blk = append(blk, m.Sp.Int(1))
					nx = append(nx, refSponge(m, blk)[0][:256])
				}
				ls = nx
			}
			for i := range got {
				mustEq(m, fmt.Sprintf("root bit %d", i), got[i].P, ls[0][i])
			}
			if v := violated(m); v != "" {
				Failf("restricts the leaves: %s", v)
			}
		})
	}
	for _, n := range stumps {
		c.Ob("keccak-tree-shape", fmt.Sprintf("KeccakMerkleRoot %d leaves", n), func(t *T) {
			m := newKeccakMachine(t)
			in, _ := keccakLeaves(m, n)
			if o := t.Try(m, mk, "KeccakMerkleRoot", m.APIValue(), in); o.Abort == nil {
				Failf("a tree of %d leaves is accepted", n)
			}
		})
	}
	c.Assume = append(c.Assume, "gnark's MiMC Sum is a function of the written sequence and the state", "the Keccak-f permutation is a function of its input state (its rounds are the subject of C08)")
}

func keccakLeaves(m *ai.Machine, n int) (ai.Slice, [][]*poly.Poly) {
	var in ai.Slice
	var ls [][]*poly.Poly
	for i := 0; i < n; i++ {
		var a ai.Arr
		var ps []*poly.Poly
		for j := 0; j < 256; j++ {
			w := m.InputBool(fmt.Sprintf("leaf%d.%d", i, j))
			a = append(a, ai.V(w))
			ps = append(ps, w.P)
		}
		in = append(in, a)
		ls = append(ls, ps)
	}
	return in, ls
}

// rejectOrBool demands that only 0 and 1 satisfy the constraints for x.
func rejectOrBool(m *ai.Machine, x *ai.Wire, a *poly.Atom) {
	if m.IsBool(x) {
		return
	}
	for _, c := range m.Cons {
		if c.Kind == "le" && poly.Eq(c.A.P, x.P) {
			if k, ok := c.B.P.IsConst(); ok && is01(k) {
				return
			}
		}
	}
	rejectOthers(m, a, is01)
}
