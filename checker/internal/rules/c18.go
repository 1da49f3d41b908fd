package rules

import (
	"fmt"
	"math/big"

	"zkcheck/internal/ai"
	"zkcheck/internal/poly"
)

func init() {
	register("C18", "CalTxOrReceiptIndexRlp is abstractly interpreted with a symbolic index, partitioned by the position of its leading bit (17 partitions cover 0..65535, all lower bits symbolic): each output nibble must be the polynomial of the RLP encoding. With an unbounded symbolic index a recorded constraint must bound it to 16 bits, and every decomposition used must be constrained.", runC18)
}

func runC18(c *Ctx) {
	pkg, fn := G+"index-proof/core", "CalTxOrReceiptIndexRlp"
	for _, f := range []struct {
		name string
		mod  *big.Int
	}{{"BN254", ai.BN254Fr}, {"BLS12-377", ai.BLS377Fr}, {"BW6-761", ai.BW6761Fr}} {
		for k := -1; k < 16; k++ {
			c.Ob("index-encoding", fmt.Sprintf("%s over %s, leading bit %d", fn, f.name, k), func(t *T) {
				m := t.M(f.mod)
				bit := func(i int) *poly.Poly {
					switch {
					case i > k:
						return m.Sp.Int(0)
					case i == k:
						return m.Sp.Int(1)
					}
					return m.Sp.Var(m.BitAtom("i", i))
				}
				var all []*poly.Poly
				for i := 0; i < 16; i++ {
					all = append(all, bit(i))
				}
				got := m.WiresOf(asSlice(t.Run(m, pkg, fn, m.APIValue(), ai.V(m.PolyWire(wsum(m, all...))))))
				if v := violated(m); v != "" {
					Failf("index with leading bit %d is rejected: %s", k, v)
				}
				nib := func(i int) *poly.Poly { return wsum(m, bit(i), bit(i+1), bit(i+2), bit(i+3)) }
				n := func(v int64) *poly.Poly { return m.Sp.Int(v) }
				var want []*poly.Poly
				switch {
				case k < 0:
					want = []*poly.Poly{n(8), n(0)}
				case k < 7:
					want = []*poly.Poly{nib(4), nib(0)}
				case k < 8:
					want = []*poly.Poly{n(8), n(1), nib(4), nib(0)}
				default:
					want = []*poly.Poly{n(8), n(2), nib(12), nib(8), nib(4), nib(0)}
				}
				mustLen("result", len(got), 7)
				for i := range got {
					w := n(0)
					if i < len(want) {
						w = want[i]
					}
					mustEq(m, fmt.Sprintf("nibble %d", i), got[i].P, w)
				}
			})
		}
		c.Ob("index-bound", fmt.Sprintf("%s over %s", fn, f.name), func(t *T) {
			m := t.M(f.mod)
			x := m.Input("index")
			t.Run(m, pkg, fn, m.APIValue(), ai.V(x))
			ok := false
			for _, k := range m.Cons {
				switch k.Kind {
				case "le", "lt":
					if v, isc := k.B.P.IsConst(); isc && poly.Eq(k.A.P, x.P) && v.Sign() >= 0 {
						lim := int64(65535)
						if k.Kind == "lt" {
							lim = 65536
						}
						if v.Cmp(big.NewInt(lim)) == 0 {
							ok = true
						} else {
							Failf("index bounded by %s, must be 65535", v)
						}
					}
				case "range":
					if poly.Eq(k.P, x.P) && k.N <= 16 {
						ok = true
					}
				}
			}
			if !ok {
				Failf("no constraint bounds the index to 65535")
			}
			solveHints(m).mustClosed()
		})
		for _, v := range []int64{65536, 65537, 70000, 1 << 17, 1 << 24, 1 << 32, -1} {
			c.Ob("index-bound", fmt.Sprintf("%s over %s rejects %d", fn, f.name, v), func(t *T) {
				m := t.M(f.mod)
				o := t.Try(m, pkg, fn, m.APIValue(), ai.V(m.ConstI(v)))
				if o.Abort == nil && violated(m) == "" {
					Failf("index %d satisfies every constraint", v)
				}
			})
		}
		c.Ob("index-binding", "IndexCheckCircuit over "+f.name, func(t *T) {
			m := t.M(f.mod)
			x := m.InputBits("i", 7)
			var rlp ai.Arr
			for i := 0; i < 7; i++ {
				rlp = append(rlp, ai.V(m.Input(fmt.Sprintf("r%d", i))))
			}
			cell := new(ai.Value)
			*cell = ai.Struct{ai.V(x), rlp}
			t.Run(m, pkg, "IndexCheckCircuit.Define", cell, m.APIValue())
			bound := map[string]bool{}
			for _, k := range m.Cons {
				if k.Kind != "eq" {
					continue
				}
				for _, a := range k.P.AtomsOf() {
					bound[a.Name] = true
				}
			}
			for i := 0; i < 7; i++ {
				if !bound[fmt.Sprintf("r%d", i)] {
					Failf("RlpString[%d] is not compared with the encoding", i)
				}
			}
		})
	}
	c.Floor("index-encoding", 51)
	c.Floor("index-bound", 24)
}
