package rules

import (
	"fmt"
	"math/big"
	"strings"

	"zkcheck/internal/ai"
	"zkcheck/internal/poly"
)

func init() {
	register("C07", "The Ethereum state-proof compositions are abstractly interpreted with the trie-inclusion gadget, the header and account list checkers and Keccak uninterpreted but keyed by every one of their arguments: the verdict must be 1 when each link holds and 0 when any single link is broken, each link being the application of the sub-gadget to exactly the value taken from the proof above it; decoded header, account and slot fields are compared with their specification.", runC07)
}

type ethRun struct {
	t     *T
	m     *ai.Machine
	hdrN  int      // length of the block number field
	hdrs  []string // header parses seen
	accts []string // account parses seen
	incl  map[string]*ai.Wire
}

func flattenKey(m *ai.Machine, v ai.Value, b *strings.Builder) {
	switch x := v.(type) {
	case ai.Slice:
		b.WriteByte('[')
		for _, y := range x {
			flattenKey(m, y, b)
			b.WriteByte(',')
		}
		b.WriteByte(']')
	case ai.Arr:
		flattenKey(m, ai.Slice(x), b)
	case bool:
		fmt.Fprintf(b, "%v", x)
	default:
		b.WriteString(m.ToWire(v).P.Key())
	}
}

// inclAtom is the uninterpreted verdict of the trie inclusion of args.
func inclAtom(m *ai.Machine, args []ai.Value) (out, vlen *ai.Wire) {
	var b strings.Builder
	for _, a := range args {
		flattenKey(m, a, &b)
		b.WriteByte(';')
	}
	id := m.Sp.Atom("incl:"+b.String(), func(a *poly.Atom) { a.Kind = "incl" }).ID
	return m.InputBool(fmt.Sprintf("incl%d", id)), m.Input(fmt.Sprintf("incl%d.len", id))
}

func wiresKey(m *ai.Machine, ws []*ai.Wire) string {
	var b strings.Builder
	for _, w := range ws {
		b.WriteString(w.P.Key() + "|")
	}
	return b.String()
}

// listOut is an uninterpreted list parse.
type listOut struct {
	ok, total *ai.Wire
	lens      []*ai.Wire
	fields    [][]*ai.Wire
}

func (r *ethRun) list(kind string, in []*ai.Wire, num *ai.Wire, nf, max int) *listOut {
	m := r.m
	id := m.Sp.Atom("list:"+kind+wiresKey(m, append(append([]*ai.Wire(nil), in...), num)), func(a *poly.Atom) { a.Kind = "list" }).ID
	o := &listOut{ok: m.InputBool(fmt.Sprintf("%s%d.ok", kind, id)), total: m.Input(fmt.Sprintf("%s%d.total", kind, id))}
	for f := 0; f < nf; f++ {
		l := m.Input(fmt.Sprintf("%s%d.len%d", kind, id, f))
		if kind == "hdr" && f == 8 && r.hdrN >= 0 {
			l = m.ConstI(int64(r.hdrN))
		}
		o.lens = append(o.lens, l)
		var fl []*ai.Wire
		for j := 0; j < max; j++ {
			fl = append(fl, m.Input(fmt.Sprintf("%s%d.f%d.%d", kind, id, f, j)))
		}
		o.fields = append(o.fields, fl)
	}
	return o
}

func (o *listOut) tuple() ai.Tuple {
	var ls, fs ai.Slice
	for i := range o.lens {
		ls = append(ls, ai.V(o.lens[i]))
		fs = append(fs, ai.SliceV(o.fields[i]...))
	}
	return ai.Tuple{ai.V(o.ok), ai.V(o.total), ls, fs}
}

func newEth(t *T) *ethRun {
	m := t.M(ai.BN254Fr)
	r := &ethRun{t: t, m: m, hdrN: -1}
	lst := func(kind string, nf int, min, max []int) func(m *ai.Machine, c *ai.Call) ai.Value {
		return func(m *ai.Machine, c *ai.Call) ai.Value {
			p := arrayParams(t, c.Args[0])
			in := m.WiresOf(asSlice(c.Args[2]))
			if p.fields != nf {
				Failf("the %s is parsed as a list of %d items", kind, p.fields)
			}
			if len(in) < p.maxHex {
				Failf("the %s parser is given %d nibbles of %d", kind, len(in), p.maxHex)
			}
			if p.maxHex != len(in) {
				Failf("the %s parser looks at %d of %d nibbles", kind, p.maxHex, len(in))
			}
			for f := range min {
				if p.min[f] > min[f] || p.max[f] < max[f] {
					Failf("the %s parser admits item %d of %d..%d nibbles, must admit %d..%d", kind, f, p.min[f], p.max[f], min[f], max[f])
				}
			}
			num := m.ConstI(int64(nf))
			if len(c.Args) > 3 {
				switch x := c.Args[3].(type) {
				case ai.Slice:
					if len(x) > 0 {
						num = m.ToWire(x[0])
					}
				case nil:
				default:
					num = m.ToWire(x)
				}
			}
			return r.list(kind, in, num, nf, p.maxHex).tuple()
		}
	}
	m.Over["circuits/gadgets/rlp.(*ArrayCheck).RlpArrayCheck"] = lst("account", 4, []int{0, 0, 64, 64}, []int{16, 24, 64, 64})
	m.Over["circuits/gadgets/rlp.(*ArrayCheck).BlkHeaderRlpCheck"] = lst("hdr", 17,
		[]int{64, 64, 40, 64, 64, 64, 512, 0, 0, 0, 0, 0, 0, 64, 16, 0, 64},
		[]int{64, 64, 40, 64, 64, 64, 512, 14, 8, 8, 8, 8, 64, 64, 16, 16, 64})
	m.Over["circuits/gadgets/rlp.Keccak256AsNibbles"] = func(m *ai.Machine, c *ai.Call) ai.Value {
		return overKeccakNibbles(t, m, c)
	}
	ty := t.C.Prog.Pkg(mptPkg).Types.Scope().Lookup("CheckMPTInclusionFixedKeyLengthResult").Type()
	m.Over["circuits/gadgets/mpt.CheckMPTInclusionFixedKeyLength"] = func(m *ai.Machine, c *ai.Call) ai.Value {
		out, vl := inclAtom(m, c.Args[1:])
		z := m.Zero(ty).(ai.Struct)
		z[structField(ty, "Output")] = ai.V(out)
		z[structField(ty, "ValueLength")] = ai.V(vl)
		return z
	}
	return r
}

func (r *ethRun) nibs(name string, n int) (ai.Slice, []*ai.Wire) {
	var s ai.Slice
	var ws []*ai.Wire
	for j := 0; j < n; j++ {
		w := r.m.InputBits(fmt.Sprintf("%s.x%d", name, j), 4)
		s = append(s, ai.V(w))
		ws = append(ws, w)
	}
	return s, ws
}

func (r *ethRun) vars(name string, n int) ai.Slice {
	s, _ := inputWires(r.m, name, n)
	return s
}

// trieArgs are the proof inputs of one trie walk.
type trieArgs struct {
	starts, leaf, rlps, rounds, pfx, types ai.Slice
	leafRound, leafPfx, depth              ai.Value
}

func (r *ethRun) trie(name string, D, leafN int) trieArgs {
	var a trieArgs
	a.starts = r.vars(name+".start", D)
	a.leaf, _ = r.nibs(name+".leaf", leafN)
	for i := 0; i < D-1; i++ {
		s, _ := r.nibs(fmt.Sprintf("%s.node%d", name, i), 8)
		a.rlps = append(a.rlps, s)
	}
	a.rounds, a.pfx, a.types = r.vars(name+".round", D-1), r.vars(name+".pfx", D-1), r.vars(name+".type", D-1)
	a.leafRound, a.leafPfx, a.depth = ai.V(r.m.Input(name+".leafRound")), ai.V(r.m.Input(name+".leafPfx")), ai.V(r.m.Input(name+".depth"))
	return a
}

func (r *ethRun) incl1(D, keyLen, valLen int, key, value, root ai.Value, a trieArgs, storage bool) (*ai.Wire, *ai.Wire) {
	return inclAtom(r.m, []ai.Value{int64(D), int64(keyLen), int64(valLen), key, value, root, a.starts, a.leaf, a.leafRound, a.leafPfx, a.rlps, a.rounds, a.pfx, a.types, a.depth, storage})
}

func (r *ethRun) field(typ string, v ai.Value, f string) ai.Value {
	ty := r.t.C.Prog.Pkg(mptPkg).Types.Scope().Lookup(typ).Type()
	return v.(ai.Struct)[structField(ty, f)]
}

func (r *ethRun) mustWire(what string, v ai.Value, want *ai.Wire) {
	mustEq(r.m, what, r.m.ToWire(v).P, want.P)
}

func (r *ethRun) mustWires(what string, v ai.Value, want []*ai.Wire) {
	ws := r.m.WiresOf(asSlice(v))
	mustLen(what, len(ws), len(want))
	for i := range ws {
		mustEq(r.m, fmt.Sprintf("%s nibble %d", what, i), ws[i].P, want[i].P)
	}
}

// hashOf is the uninterpreted digest of n nibbles named by name.
func (r *ethRun) hashOf(name string, n int, round *ai.Wire) []*ai.Wire {
	m := r.m
	var lanes []*poly.Poly
	for l := 0; l < n/16; l++ {
		var ps []*poly.Poly
		for k := 0; k < 8; k++ {
			hi, lo := m.BitsPoly(fmt.Sprintf("%s.x%d", name, 16*l+2*k), 4), m.BitsPoly(fmt.Sprintf("%s.x%d", name, 16*l+2*k+1), 4)
			ps = append(ps, m.Sp.Scale(hi, pow2(8*k+4)), m.Sp.Scale(lo, pow2(8*k)))
		}
		lanes = append(lanes, m.Sp.Sum(ps...))
	}
	h := mptHash(m, lanes, round.P)
	return h[:]
}

// verdict decides out under e.
func decideOut(m *ai.Machine, e env, out *ai.Wire) (lo, hi *big.Int) {
	lo, hi = newEval(m, e).Poly(out.P)
	if lo == nil || lo.Cmp(hi) != 0 {
		lo, hi = newWireEval(m, e).Wire(out)
	}
	if lo == nil || lo.Cmp(hi) != 0 {
		lo, hi = splitEval(m, e, out, 8)
	}
	return
}

// mustBeConjunction: out is 1 exactly when all of cs hold.
func mustBeConjunction(m *ai.Machine, out *ai.Wire, cs []mptCond) {
	e := allTrue(nil, cs)
	lo, hi := decideOut(m, e, out)
	if lo == nil || lo.Cmp(b1) != 0 || hi.Cmp(b1) != 0 {
		Failf("all links hold: the verdict is %v..%v instead of 1", lo, hi)
	}
	if v := unsat(m, e); v != "" {
		Failf("all links hold: rejected by %s", v)
	}
	for _, k := range cs {
		e := env{k.a: {b0, b0}}
		lo, hi := decideOut(m, e, out)
		if lo != nil && lo.Sign() == 0 && hi.Sign() == 0 || unsat(m, e) != "" {
			continue
		}
		Failf("broken link: %s: the verdict is not forced to 0 (%v..%v)", k.name, lo, hi)
	}
}

const ethHdr = 8 * 272

// header runs the spec side of a header.
func (r *ethRun) header(hdr []*ai.Wire, num, round *ai.Wire) (*listOut, []*ai.Wire) {
	return r.list("hdr", hdr, num, 17, ethHdr), r.hashOf("hdr", ethHdr, round)
}

func runC07(c *Ctx) {
	c.Ob("block-hash", "CheckEthBlockHash", func(t *T) {
		r := newEth(t)
		m := r.m
		in, hw := r.nibs("hdr", ethHdr)
		num, round := m.Input("fieldnum"), m.Input("hdrround")
		v := t.Run(m, mptPkg, "CheckEthBlockHash", m.APIValue(), ai.Arr(in), ai.V(num), ai.V(round))
		h, dig := r.header(hw, num, round)
		const R = "EthBlockHashResult"
		mustBeConjunction(m, m.ToWire(r.field(R, v, "Output")), []mptCond{{"the header is a well-formed list", mustAtom(h.ok)}})
		r.mustWires("block hash", r.field(R, v, "BlockHash"), dig)
		r.mustWires("state root", r.field(R, v, "StateRoot"), h.fields[3][:64])
		r.mustWires("transactions root", r.field(R, v, "TransactionsRoot"), h.fields[4][:64])
		r.mustWires("receipts root", r.field(R, v, "ReceiptsRoot"), h.fields[5][:64])
		r.mustWires("block number", r.field(R, v, "BlockNumber"), h.fields[8][:8])
		r.mustWires("block time", r.field(R, v, "BlockTime"), h.fields[11][:8])
		r.mustWire("block number length", r.field(R, v, "BlockNumberLength"), h.lens[8])
	})
	for _, D := range c.grid([]int{2, 4, 10}, 2, 16, mptPkg) {
		c.Ob("account", fmt.Sprintf("CheckEthAccountProof maxDepth %d", D), func(t *T) {
			r := newEth(t)
			m := r.m
			val, vw := r.nibs("acct", 228)
			key, root := r.vars("addr", 64), r.vars("root", 64)
			a := r.trie("a", D, 304)
			v := t.Run(m, mptPkg, "CheckEthAccountProof", m.APIValue(), int64(D), ai.Arr(root), ai.Arr(key), a.starts, ai.Arr(val), a.leaf, a.leafRound, a.leafPfx, a.rlps, a.rounds, a.pfx, a.types, a.depth)
			l := r.list("account", vw, m.ConstI(4), 4, 228)
			inc, _ := r.incl1(D, 64, 228, key, val, root, a, false)
			const R = "EthAccountProofResult"
			mustBeConjunction(m, m.ToWire(r.field(R, v, "Output")), []mptCond{{"the account is a well-formed list", mustAtom(l.ok)}, {"the account is in the state trie at the address", mustAtom(inc)}})
			r.mustWire("nonce length", r.field(R, v, "NonceLength"), l.lens[0])
			r.mustWires("nonce", r.field(R, v, "Nonce"), l.fields[0][:64])
			r.mustWire("balance length", r.field(R, v, "BalanceLength"), l.lens[1])
			r.mustWires("balance", r.field(R, v, "Balance"), l.fields[1][:24])
			r.mustWires("storage root", r.field(R, v, "StorageRoot"), l.fields[2][:64])
			r.mustWires("code hash", r.field(R, v, "CodeHash"), l.fields[3][:64])
		})
		c.Ob("storage", fmt.Sprintf("CheckEthStorageProof maxDepth %d", D), func(t *T) {
			r := newEth(t)
			m := r.m
			key, root := r.vars("slot", 64), r.vars("root", 64)
			val := ai.Slice{ai.V(m.ConstI(8)), ai.V(m.ConstI(4))}
			x, _ := r.nibs("val", 64)
			val = append(val, x...)
			a := r.trie("s", D, 1088)
			v := t.Run(m, mptPkg, "CheckEthStorageProof", m.APIValue(), int64(D), ai.Arr(root), ai.Arr(key), ai.Arr(val), a.starts, a.leaf, a.leafRound, a.leafPfx, a.rlps, a.rounds, a.pfx, a.types, a.depth)
			inc, vl := r.incl1(D, 64, 66, key, val, root, a, true)
			const R = "EthStorageProofResult"
			mustBeConjunction(m, m.ToWire(r.field(R, v, "Output")), []mptCond{{"the value is in the storage trie at the slot", mustAtom(inc)}})
			r.mustWire("value length", r.field(R, v, "ValueLength"), m.Sub(vl, m.ConstI(2)))
		})
	}
	// the slot value is the integer encoded by the value
	slot := func(name string, prefix []int, n int, val func(m *ai.Machine) (hi, lo *poly.Poly)) {
		c.Ob("slot-value", name, func(t *T) {
			r := newEth(t)
			m := r.m
			v := ai.Slice{}
			for _, p := range prefix {
				v = append(v, ai.V(m.ConstI(int64(p))))
			}
			for j := 0; j < 2*n; j++ {
				v = append(v, ai.V(m.InputBits(fmt.Sprintf("v%d", j), 4)))
			}
			for len(v) < 66 {
				v = append(v, ai.V(m.ConstI(0)))
			}
			a := r.trie("s", 2, 1088)
			o := t.Run(m, mptPkg, "CheckEthStorageProof", m.APIValue(), int64(2), ai.Arr(r.vars("root", 64)), ai.Arr(r.vars("slot", 64)), ai.Arr(v[:66]), a.starts, a.leaf, a.leafRound, a.leafPfx, a.rlps, a.rounds, a.pfx, a.types, a.depth)
			if x := violated(m); x != "" {
				Failf("rejected by %s", x)
			}
			ws := m.WiresOf(asSlice(r.field("EthStorageProofResult", o, "SlotValue")))
			mustLen("slot value", len(ws), 2)
			hi, lo := val(m)
			mustEq(m, "low 31 bytes", ws[0].P, lo)
			mustEq(m, "high byte", ws[1].P, hi)
		})
	}
	num := func(m *ai.Machine, from, to int) *poly.Poly {
		v := m.Sp.Int(0)
		for j := from; j < to; j++ {
			v = m.Sp.Add(m.Sp.Scale(v, big.NewInt(16)), m.BitsPoly(fmt.Sprintf("v%d", j), 4))
		}
		return v
	}
	for n := 0; n <= 32; n++ {
		n := n
		slot(fmt.Sprintf("string of %d bytes", n), []int{8 + n/16, n % 16}, n, func(m *ai.Machine) (hi, lo *poly.Poly) {
			if n == 32 {
				return num(m, 0, 2), num(m, 2, 64)
			}
			return m.Sp.Int(0), num(m, 0, 2*n)
		})
	}
	for p := 0; p < 8; p++ {
		p := p
		for q := 0; q < 16; q++ {
			q := q
			slot(fmt.Sprintf("single byte 0x%x%x", p, q), []int{p, q}, 0, func(m *ai.Machine) (hi, lo *poly.Poly) {
				return m.Sp.Int(0), m.Sp.Int(int64(16*p + q))
			})
		}
	}
	c.Floor("slot-value", 33+128)
	type dims struct{ a, s int }
	for _, d := range []dims{{2, 3}, {10, 7}, {10, 10}} {
		for n := 1; n <= 8; n++ {
			if n != 7 && n != 8 && !(d.a == 2) {
				continue
			}
			n := n
			c.Ob("composition", fmt.Sprintf("CheckEthAddressStorageProof maxDepths %d, %d, block number of %d nibbles", d.a, d.s, n), func(t *T) {
				r := newEth(t)
				r.hdrN = n
				m := r.m
				in, hw := r.nibs("hdr", ethHdr)
				fn, round := m.Input("fieldnum"), m.Input("hdrround")
				bh, bhw := inputWires(m, "blockhash", 64)
				addr, slot := r.vars("addr", 64), r.vars("slot", 64)
				acct, aw := r.nibs("acct", 228)
				val := ai.Slice{ai.V(m.ConstI(8)), ai.V(m.ConstI(4))}
				x, _ := r.nibs("val", 64)
				val = append(val, x...)
				a, s := r.trie("a", d.a, 304), r.trie("s", d.s, 1088)
				// the account round indexes come in a fixed-size array
				f := m.Func(mptPkg, "CheckEthAddressStorageProof")
				if f == nil {
					Failf("anchor CheckEthAddressStorageProof not found")
				}
				fixed := r.vars("a.round", 9)
				aRounds := fixed
				a.rounds = fixed
				v := t.Run(m, mptPkg, "CheckEthAddressStorageProof", m.APIValue(), int64(d.a), int64(d.s), ai.Arr(bh), ai.V(fn), ai.V(round), ai.Arr(addr), ai.Arr(slot), ai.Arr(in),
					a.starts, ai.Arr(acct), a.leaf, a.leafRound, a.leafPfx, a.rlps, ai.Arr(aRounds), a.pfx, a.types, a.depth,
					s.starts, ai.Arr(val), s.leaf, s.leafRound, s.leafPfx, s.rlps, s.rounds, s.pfx, s.types, s.depth)
				h, dig := r.header(hw, fn, round)
				l := r.list("account", aw, m.ConstI(4), 4, 228)
				i1, _ := r.incl1(d.a, 64, 228, addr, acct, ai.SliceV(h.fields[3][:64]...), a, false)
				i2, _ := r.incl1(d.s, 64, 66, slot, val, ai.SliceV(l.fields[2][:64]...), s, true)
				var cs []mptCond
				for j := 0; j < 64; j++ {
					w := m.IsZero(m.Sub(bhw[j], dig[j]))
					cs = append(cs, mptCond{fmt.Sprintf("the header hashes to the claimed block hash (nibble %d)", j), mustAtom(w)})
				}
				cs = append(cs, mptCond{"the account is a well-formed list", mustAtom(l.ok)},
					mptCond{"the account is proven at the address under the state root of the header", mustAtom(i1)},
					mptCond{"the value is proven at the slot under the storage root of the account", mustAtom(i2)})
				const R = "EthAddressStorageProofResult"
				mustBeConjunction(m, m.ToWire(r.field(R, v, "Output")), cs)
				want := m.Sp.Int(0)
				for j := 0; j < n; j++ {
					want = m.Sp.Add(m.Sp.Scale(want, big.NewInt(16)), h.fields[8][j].P)
				}
				r.mustWire("block number", r.field(R, v, "BlockNumber"), m.PolyWire(want))
				sv := m.WiresOf(asSlice(r.field(R, v, "SlotValue")))
				mustLen("slot value", len(sv), 2)
				lo := m.Sp.Int(0)
				for j := 0; j < 8; j++ {
					lo = m.Sp.Add(m.Sp.Scale(lo, big.NewInt(16)), m.BitsPoly(fmt.Sprintf("val.x%d", j), 4))
				}
				mustEq(m, "slot value low 31 bytes", sv[0].P, lo)
				mustEq(m, "slot value high byte", sv[1].P, m.Sp.Int(0))
			})
		}
	}
	c.Floor("composition", 12)
	c.Assume = append(c.Assume, "the inclusion gadget (C06), the list checkers (C05) and Keccak (C08) are functions of their arguments with the meaning those checks establish")
}
