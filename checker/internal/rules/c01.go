package rules

import (
	"fmt"

	"zkcheck/internal/ai"
	"zkcheck/internal/poly"
)

func init() {
	register("C01", "limbs.API.{Split,Merge,Resplit,LrotMerge,Lrot} are abstractly interpreted for a grid of limb layouts (shape constants unrolled, limb contents symbolic bit vectors); every returned limb must be the polynomial of the exact bit window, and the unique-recomposition rule must determine every hint output from recorded range and equality constraints.", runC01)
}

// limbInput builds limb values of the given sizes out of one big-endian bit
// string "x" (bit 0 is the least significant bit of the last limb).
func limbInput(m *ai.Machine, sizes []int) (ai.Slice, int) {
	total := 0
	for _, s := range sizes {
		total += s
	}
	var out ai.Slice
	rem := total
	for _, s := range sizes {
		rem -= s
		out = append(out, ai.Struct{ai.V(m.PolyWire(bitsVal(m, "x", rem, s))), int64(s)})
	}
	return out, total
}

func limbOut(m *ai.Machine, v ai.Value) (vals []*ai.Wire, sizes []int) {
	for _, e := range asSlice(v) {
		st := e.(ai.Struct)
		vals = append(vals, m.ToWire(st[0]))
		sizes = append(sizes, int(st[1].(int64)))
	}
	return
}

func checkLimbs(m *ai.Machine, v ai.Value, want []int, f func(off, n int) *poly.Poly) {
	vals, sizes := limbOut(m, v)
	sol := solveHints(m)
	sol.mustClosed()
	mustLen("limbs", len(vals), len(want))
	off := 0
	for i := range vals {
		if sizes[i] != want[i] {
			Failf("limb %d has size %d, must be %d", i, sizes[i], want[i])
		}
		mustEq(m, fmt.Sprintf("limb %d (bits %d..%d from the top)", i, off, off+want[i]), sol.Val(vals[i].P), f(off, want[i]))
		off += want[i]
	}
}

// topWindow is bits [off,off+n) counted from the most significant end.
func topWindow(m *ai.Machine, total, off, n int) *poly.Poly {
	return bitsVal(m, "x", total-off-n, n)
}

func even(total, sz int) []int {
	var o []int
	for total > 0 {
		if total < sz {
			o = append(o, total)
			break
		}
		o = append(o, sz)
		total -= sz
	}
	return o
}

func runC01(c *Ctx) {
	pkg := G + "limbs"
	api := func(t *T, m *ai.Machine) ai.Value { return t.Run(m, pkg, "NewAPI", m.APIValue()) }
	// Split
	type sp struct{ size, limb, nb int }
	var sps []sp
	for _, s := range c.grid([]int{8, 12, 24, 64, 100, 128, 200, 253}, 1, 253, pkg) {
		for _, l := range c.grid([]int{1, 2, 3, 4, 5, 8, 12, 16, 32, 64, 72, 88, 96, 128}, 1, 252, pkg) {
			if l <= s {
				sps = append(sps, sp{s, l, -1})
			}
			for _, nb := range c.grid([]int{1, 2, 3, 4}, 1, 100, pkg) {
				if l*nb <= s && l != s {
					sps = append(sps, sp{s, l, nb})
				}
			}
		}
	}
	for _, x := range sps {
		c.Ob("limb-split", fmt.Sprintf("Split(size %d, limb %d, nb %d)", x.size, x.limb, x.nb), func(t *T) {
			m := t.M(ai.BN254Fr)
			in, total := limbInput(m, []int{x.size})
			var opt ai.Slice
			want := even(x.size, x.limb)
			if x.nb >= 0 {
				opt = ai.Slice{int64(x.nb)}
				want = nil
				for i := 0; i < x.nb; i++ {
					want = append(want, x.limb)
				}
				if r := x.size - x.nb*x.limb; r > 0 {
					want = append(want, r)
				}
			}
			r := t.Run(m, pkg, "API.Split", api(t, m), in[0], int64(x.limb), opt)
			checkLimbs(m, r, want, func(off, n int) *poly.Poly { return topWindow(m, total, off, n) })
		})
	}
	c.Floor("limb-split", 100)
	// Merge
	merges := [][]int{{8}, {8, 8}, {4, 12, 1}, {64, 64, 64}, {1, 1, 1, 1, 1}, {72, 72, 72}, {3, 5, 7, 11, 13}}
	for _, n := range c.grid(nil, 1, 60, pkg) {
		merges = append(merges, fills(n, 4), []int{3, n}, []int{n, 5, 1})
	}
	for _, sizes := range merges {
		c.Ob("limb-merge", fmt.Sprintf("Merge(%v)", sizes), func(t *T) {
			m := t.M(ai.BN254Fr)
			in, total := limbInput(m, sizes)
			r := t.Run(m, pkg, "API.Merge", api(t, m), in)
			checkLimbs(m, ai.Slice{r}, []int{total}, func(off, n int) *poly.Poly { return topWindow(m, total, off, n) })
		})
	}
	// Resplit
	type rs struct {
		sizes []int
		limb  int
	}
	rss := []rs{{[]int{8, 8, 8}, 12}, {[]int{8, 8, 8}, 4}, {[]int{64, 64, 64, 64}, 128}, {[]int{64, 64, 64, 64}, 32}, {[]int{32, 32}, 64},
		{[]int{128, 128}, 64}, {[]int{127, 127}, 127}, {[]int{126, 127}, 11}, {[]int{8, 16, 232}, 64}, {[]int{96, 96, 96}, 72}, {[]int{128, 126}, 2}, {[]int{100, 100, 100}, 60},
		{[]int{128, 128, 128}, 96}, {[]int{16}, 4}, {[]int{64}, 16}, {[]int{10, 10}, 3}, {[]int{100, 100, 100}, 70}}
	for _, n := range c.grid(nil, 2, 60, pkg) {
		rss = append(rss, rs{fills(n+1, 4), 12}, rs{[]int{n, 40}, 16}, rs{[]int{60, 60, 60}, n}, rs{fills(3, n), 2 * n})
	}
	for _, x := range rss {
		c.Ob("limb-resplit", fmt.Sprintf("Resplit(%v, %d)", x.sizes, x.limb), func(t *T) {
			m := t.M(ai.BN254Fr)
			in, total := limbInput(m, x.sizes)
			r := t.Run(m, pkg, "API.Resplit", api(t, m), in, int64(x.limb))
			checkLimbs(m, r, even(total, x.limb), func(off, n int) *poly.Poly { return topWindow(m, total, off, n) })
		})
	}
	// rotations
	for _, sizes := range [][]int{{8, 8, 8}, {64, 64}, {4, 12, 8}, {16}, {32, 32, 32, 32}} {
		total := 0
		for _, s := range sizes {
			total += s
		}
		for amt := 0; amt < total; amt++ {
			if total > 32 && amt%5 != 1 && amt%16 != 0 {
				continue
			}
			rot := func(m *ai.Machine) func(off, n int) *poly.Poly {
				return func(off, n int) *poly.Poly {
					v := m.Sp.Int(0)
					for i := 0; i < n; i++ {
						pos := (off + i + amt) % total // from the top
						v = m.Sp.Add(v, m.Sp.Scale(m.Sp.Var(m.BitAtom("x", total-1-pos)), pow2(n-1-i)))
					}
					return v
				}
			}
			c.Ob("limb-rotate", fmt.Sprintf("LrotMerge(%v, %d)", sizes, amt), func(t *T) {
				m := t.M(ai.BN254Fr)
				in, total := limbInput(m, sizes)
				r := t.Run(m, pkg, "API.LrotMerge", api(t, m), in, int64(amt))
				checkLimbs(m, ai.Slice{r}, []int{total}, rot(m))
			})
			c.Ob("limb-rotate", fmt.Sprintf("Lrot(%v, %d, 8)", sizes, amt), func(t *T) {
				m := t.M(ai.BN254Fr)
				in, total := limbInput(m, sizes)
				r := t.Run(m, pkg, "API.Lrot", api(t, m), in, int64(amt), int64(8))
				checkLimbs(m, r, even(total, 8), rot(m))
			})
		}
	}
	c.Floor("limb-rotate", 60)
}
