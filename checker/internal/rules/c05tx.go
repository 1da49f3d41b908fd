package rules

import (
	"fmt"
	"go/types"

	"zkcheck/internal/ai"
	"zkcheck/internal/poly"
)

// The transaction leaf decoder: an outer list [path, 0x02 || list of twelve fields].

// txLeaf describes one framing of a transaction leaf and what is wrong with it.
type txLeaf struct {
	fs                 []fld
	outer, inner       int // error of the announced list length
	str                int // error of the announced length of the second item
	badInner, badOuter int // replaces the first byte of the list header (>= 0)
}

func (x txLeaf) build(m *ai.Machine, size int) (in ai.Slice, content [][]*poly.Poly) {
	b := &rlpBuf{m: m}
	ib := &rlpBuf{m: m}
	ib.byteConst(2)
	fs := x.fs
	mark := len(ib.nib)
	ib.header(0xc0, listLen(fs)+x.inner)
	if x.badInner >= 0 {
		ib.nib[mark], ib.nib[mark+1] = m.Sp.Int(int64(x.badInner>>4)), m.Sp.Int(int64(x.badInner&15))
	}
	for _, f := range fs {
		c, whole := ib.item(f)
		if f.kind == "list" {
			c = whole
		}
		content = append(content, append([]*poly.Poly(nil), c...))
	}
	n := len(ib.nib) / 2
	tot := 1 + hdrLen(n) + n
	b.header(0xc0, tot+x.outer)
	if x.badOuter >= 0 {
		b.nib[0], b.nib[1] = m.Sp.Int(int64(x.badOuter>>4)), m.Sp.Int(int64(x.badOuter&15))
	}
	b.byteConst(0x20)
	b.header(0x80, n+x.str)
	b.nib = append(b.nib, ib.nib...)
	b.next = ib.next
	if len(b.nib) > size {
		Failf("internal: leaf longer than the buffer")
	}
	for len(b.nib) < size {
		b.nib = append(b.nib, b.sym())
	}
	for _, p := range b.nib {
		in = append(in, ai.V(m.PolyWire(p)))
	}
	return in, content
}

// txSem bounds how many leaf decoders are interpreted at a time (memory).
var txSem = make(chan struct{}, 2)

// leafMachine takes shifts by a known admissible amount as what C04 shows them to be.
func leafMachine(t *T) *ai.Machine {
	m := t.M(ai.BN254Fr)
	m.Over["circuits/gadgets/rlp.ShiftLeft"] = func(m *ai.Machine, cl *ai.Call) ai.Value {
		if len(cl.Args) != 6 {
			return ai.NotHandled()
		}
		n, ok1 := cl.Args[1].(int64)
		lo, ok2 := cl.Args[2].(int64)
		hi, ok3 := cl.Args[3].(int64)
		in, ok4 := cl.Args[4].(ai.Slice)
		if !ok1 || !ok2 || !ok3 || !ok4 || n <= 0 || int64(len(in)) < n {
			return ai.NotHandled()
		}
		k, ok := m.ToWire(cl.Args[5]).P.IsConst()
		if !ok || !k.IsInt64() || k.Int64() < lo || k.Int64() > hi || lo == hi {
			return ai.NotHandled()
		}
		out := make(ai.Slice, n)
		for i := range out {
			out[i] = in[(int64(i)+k.Int64())%n]
		}
		return out
	}
	return m
}

func hexVal(m *ai.Machine, nib []*poly.Poly) *poly.Poly {
	v := m.Sp.Int(0)
	for _, p := range nib {
		v = m.Sp.Add(m.Sp.Mul(m.Sp.Int(16), v), p)
	}
	return v
}

func c05TxLeaf(c *Ctx) {
	pkg := G + "rlp"
	const size = 4352
	lit := func(v int) fld { return fld{"lit", 1, v} }
	str := func(n int) fld { return fld{"str", n, 0} }
	acc := fld{"list", 0, 0}
	tx := func(chain, nonce, prio, fee, gas, val fld, data int, v fld, r, s int) []fld {
		return []fld{chain, nonce, prio, fee, gas, str(20), val, str(data), acc, v, str(r), str(s)}
	}
	leaves := map[string][]fld{
		"typical":  tx(lit(1), str(2), str(4), str(5), str(3), str(8), 68, lit(1), 32, 32),
		"no data":  tx(lit(0x38), lit(7), str(1), str(8), str(4), str(0), 0, str(0), 32, 32),
		"short rs": tx(str(8), str(8), str(8), str(7), str(3), str(32), 55, lit(1), 31, 30),
		"long":     tx(str(2), str(3), lit(5), str(6), str(2), lit(0x7f), 1500, str(0), 32, 31),
		"tiny":     tx(lit(1), lit(2), lit(3), lit(4), lit(5), lit(6), 0, lit(1), 2, 3),
	}
	for _, k := range []string{"typical", "no data", "short rs", "long", "tiny"} {
		fs := leaves[k]
		good := txLeaf{fs: fs, badInner: -1, badOuter: -1}
		c.Ob("leaf-accept", "DecodeTxLeafRlp "+k, func(t *T) {
			txSem <- struct{}{}
			defer func() { <-txSem }()
			m := leafMachine(t)
			in, content := good.build(m, size)
			o := t.Try(m, pkg, "DecodeTxLeafRlp", m.APIValue(), in)
			if o.Abort != nil {
				Failf("correct leaf is refused: %v", o.Abort.Val)
			}
			if v := violated(m); v != "" {
				Failf("correct leaf is rejected: %s", v)
			}
			r := o.Ret.(ai.Tuple)
			st := r[0].(ai.Struct)
			ty := t.C.Prog.Pkg(pkg).Types.Scope().Lookup("Transaction").Type().Underlying().(*types.Struct)
			seen := 0
			for i := 0; i < ty.NumFields(); i++ {
				name := ty.Field(i).Name()
				at := map[string]int{"ChainId": 0, "Nonce": 1, "MaxPriorityGasPrice": 2, "MaxFeePerGas": 3, "GasLimit": 4, "To": 5, "Value": 6, "V": 9, "R": 10, "S": 11}
				k, ok := at[name]
				if !ok {
					Failf("unknown member %s of the decoded transaction", name)
				}
				seen++
				want := content[k]
				switch name {
				case "V":
					mustEq(m, "V", m.ToWire(st[i]).P, hexVal(m, want))
				case "R", "S":
					ws := m.WiresOf(asSlice(st[i]))
					mustLen(name, len(ws), 2)
					lo, hi := want, want[:0]
					if len(want) > 62 {
						lo, hi = want[2:], want[:2]
					}
					mustEq(m, name+" low part", ws[0].P, hexVal(m, lo))
					mustEq(m, name+" high part", ws[1].P, hexVal(m, hi))
				default:
					ws := m.WiresOf(asSlice(st[i]))
					if len(ws) < len(want) {
						Failf("%s has %d nibbles, the field holds %d", name, len(ws), len(want))
					}
					for j := range want {
						mustEq(m, fmt.Sprintf("%s nibble %d", name, j), ws[j].P, want[j])
					}
				}
			}
			if seen != 10 {
				Failf("the decoded transaction has %d members", seen)
			}
			lens := m.WiresOf(asSlice(r[2]))
			mustLen("field lengths", len(lens), 8)
			for i := 0; i < 7; i++ {
				mustEq(m, fmt.Sprintf("hex length of field %d", i), lens[i].P, m.Sp.Int(int64(len(content[i]))))
			}
			raw := m.WiresOf(asSlice(r[1]))
			hdr := 2 + 2*hdrLen(listLen(fs))
			// the raw rlp starts with the type byte and the list header
			mustEq(m, "type byte", hexVal(m, polysOf(raw[:2])), m.Sp.Int(2))
			mustEq(m, "first field of the raw rlp", raw[hdr+rawOff(fs[0])].P, content[0][0])
		})
		bads := map[string]func(x *txLeaf){
			"outer length +1":       func(x *txLeaf) { x.outer = 1 },
			"outer length -1":       func(x *txLeaf) { x.outer = -1 },
			"second item length +1": func(x *txLeaf) { x.str = 1 },
			"second item length -1": func(x *txLeaf) { x.str = -1 },
			"inner length +1":       func(x *txLeaf) { x.inner = 1 },
			"inner length -1":       func(x *txLeaf) { x.inner = -1 },
			"string for a list":     func(x *txLeaf) { x.badInner = 0xb8 },
			"string for outer list": func(x *txLeaf) { x.badOuter = 0xb8 },
		}
		for name, f := range bads {
			x := good
			f(&x)
			if k != "typical" && !(c.Thorough && k != "long") && name != "inner length +1" && name != "outer length -1" {
				continue
			}
			c.Ob("leaf-reject", "DecodeTxLeafRlp "+k+", "+name, func(t *T) {
				txSem <- struct{}{}
				defer func() { <-txSem }()
				m := leafMachine(t)
				in, _ := x.build(m, size)
				o := t.Try(m, pkg, "DecodeTxLeafRlp", m.APIValue(), in)
				if o.Abort != nil || violated(m) != "" || unsat(m, env{}) != "" {
					return
				}
				Failf("malformed leaf (%s) is accepted", name)
			})
		}
	}
	c.Floor("leaf-accept", 5)
	c.Floor("leaf-reject", 15)
	// the value helpers on every length
	for n := 0; n <= 64; n += 2 {
		c.Ob("hex-value", fmt.Sprintf("HexToDecimal and Hex64To2Fr, %d of 64 nibbles", n), func(t *T) {
			m := t.M(ai.BN254Fr)
			b := &rlpBuf{m: m}
			var in ai.Slice
			for i := 0; i < 64; i++ {
				p := b.sym()
				b.nib = append(b.nib, p)
				in = append(in, ai.V(m.PolyWire(p)))
			}
			lo, hi := b.nib[:n], b.nib[:0]
			if n > 62 {
				lo, hi = b.nib[2:], b.nib[:2]
			} else {
				r := t.Run(m, pkg, "HexToDecimal", m.APIValue(), in, int64(64), ai.V(m.ConstI(int64(n))))
				mustEq(m, "HexToDecimal", m.ToWire(r).P, hexVal(m, lo))
			}
			ws := m.WiresOf(asSlice(t.Run(m, pkg, "Hex64To2Fr", m.APIValue(), in, ai.V(m.ConstI(int64(n))))))
			mustEq(m, "Hex64To2Fr low part", ws[0].P, hexVal(m, lo))
			mustEq(m, "Hex64To2Fr high part", ws[1].P, hexVal(m, hi))
			if v := violated(m); v != "" {
				Failf("valid length %d is rejected: %s", n, v)
			}
		})
	}
}

func rawOff(f fld) int {
	if f.kind == "lit" {
		return 0
	}
	return 2 * hdrLen(f.n)
}
