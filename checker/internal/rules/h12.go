package rules

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"zkcheck/internal/ai"
	"zkcheck/internal/poly"
)

const (
	h12Fab  = "circuits/fabric/smt"
	h12Mimc = "github.com/consensys/gnark-crypto/ecc/bls12-377/fr/mimc"
	h12Fr   = "github.com/consensys/gnark-crypto/ecc/bls12-377/fr"
)

var bls377Fr, _ = new(big.Int).SetString("12ab655e9a2ca55660b44d1e5c37b00159aa76fed00000010a11800000000001", 16)

// h12Hasher is a native hasher as an uninterpreted function of the blocks.
type h12Hasher struct {
	o    *h12Oracle
	data []*poly.Poly // absorbed bytes
}

type h12Oracle struct {
	m    *ai.Machine
	keys map[string]int
	fail bool // every Write fails
	made int
	big  string // a block that can be at least the modulus
}

func newH12Oracle(m *ai.Machine) *h12Oracle {
	o := &h12Oracle{m: m, keys: map[string]int{}}
	m.Over[h12Mimc+".NewMiMC"] = func(m *ai.Machine, c *ai.Call) ai.Value {
		o.made++
		return ai.Iface{T: ai.ExtType, V: &ai.Ext{Type: "mimc", Data: &h12Hasher{o: o}}}
	}
	elem := func(v ai.Value) (*ai.Value, ai.Slice) {
		p, ok := v.(*ai.Value)
		if !ok || p == nil {
			m.Undecided("field element " + ai.Show(v))
		}
		if e, ok := (*p).(h12Elem); ok {
			return p, ai.Slice(e)
		}
		z := make(ai.Slice, 32)
		for i := range z {
			z[i] = int64(0)
		}
		return p, z
	}
	setBytes := func(v ai.Value, in ai.Slice) ai.Value {
		p, _ := elem(v)
		for len(in) > 32 {
			if !poly.Eq(m.HPoly(in[0]), m.Z.Int(0)) {
				m.Undecided("a field element from more than 32 bytes")
			}
			in = in[1:]
		}
		if _, hi := m.BytesPoly(in).Bounds(); hi == nil || hi.Cmp(bls377Fr) >= 0 {
			m.Undecided("a field element from bytes that need reduction")
		}
		e := make(ai.Slice, 32)
		for i := range e {
			e[i] = int64(0)
		}
		copy(e[32-len(in):], in)
		*p = h12Elem(e)
		return p
	}
	m.Over[h12Fr+".(*Element).SetBytes"] = func(m *ai.Machine, c *ai.Call) ai.Value {
		return setBytes(c.Args[0], asSlice(c.Args[1]))
	}
	m.Over[h12Fr+".(*Element).SetBigInt"] = func(m *ai.Machine, c *ai.Call) ai.Value {
		buf := make(ai.Slice, 32)
		p := m.BigPoly(c.Args[1])
		bits := hbitsOf(m, p, 256)
		for i := range buf {
			o := 8 * (31 - i)
			buf[i] = &ai.HInt{Bits: bits[o : o+8]}
		}
		return setBytes(c.Args[0], buf)
	}
	m.Over[h12Fr+".(*Element).Bytes"] = func(m *ai.Machine, c *ai.Call) ai.Value {
		_, e := elem(c.Args[0])
		return ai.Arr(append(ai.Slice(nil), e...))
	}
	m.Over[h12Fr+".(*Element).Marshal"] = func(m *ai.Machine, c *ai.Call) ai.Value {
		_, e := elem(c.Args[0])
		return append(ai.Slice(nil), e...)
	}
	return o
}

type h12Elem ai.Slice

// hbitsOf writes a positional sum as bits.
func hbitsOf(m *ai.Machine, p *poly.Poly, n int) []*poly.Poly {
	out := make([]*poly.Poly, n)
	pos, k, ok := p.LinearBits()
	if !ok || k.BitLen() > n {
		m.Undecided("bits of " + m.Z.String(p))
	}
	for i := range out {
		out[i] = m.Z.Int(int64(k.Bit(i)))
		if pos[i] != nil {
			out[i] = m.Z.Var(pos[i])
		}
	}
	for i := range pos {
		if i >= n {
			m.Undecided("bits of " + m.Z.String(p))
		}
	}
	return out
}

// sum is the digest of the given bytes.
func (o *h12Oracle) sum(data []*poly.Poly) ai.Slice {
	var ks []string
	for _, p := range data {
		ks = append(ks, p.Key())
	}
	k := strings.Join(ks, "|")
	i, ok := o.keys[k]
	if !ok {
		i = len(o.keys)
		o.keys[k] = i
	}
	return o.m.HBytes(fmt.Sprintf("D%d", i), 32)
}

func (h *h12Hasher) Invoke(m *ai.Machine, method string, args []ai.Value) ai.Value {
	switch method {
	case "Reset":
		h.data = nil
		return nil
	case "BlockSize", "Size":
		return int64(32)
	case "Write":
		if h.o.fail {
			return ai.Tuple{int64(0), ai.ErrV(m, "block")}
		}
		in := asSlice(args[0])
		if len(in)%32 != 0 {
			return ai.Tuple{int64(0), ai.ErrV(m, "invalid input length")}
		}
		for i := 0; i < len(in); i += 32 {
			if _, hi := m.BytesBounds(in[i : i+32]); hi == nil || hi.Cmp(bls377Fr) >= 0 {
				h.o.big = fmt.Sprintf("block %d", (len(h.data)+i)/32)
			}
		}
		for _, b := range in {
			h.data = append(h.data, m.HPoly(b))
		}
		return ai.Tuple{int64(len(in)), ai.NilErr}
	case "Sum":
		pre := asSlice(args[0])
		return append(append(ai.Slice(nil), pre...), h.o.sum(h.data)...)
	}
	m.Undecided("hasher method " + method)
	return nil
}

func sameBytes(m *ai.Machine, what string, got ai.Slice, want []*poly.Poly) {
	mustLen(what, len(got), len(want))
	for i := range got {
		mustEq(m, fmt.Sprintf("%s byte %d", what, i), m.HPoly(got[i]), want[i])
	}
}

func bytePolys(m *ai.Machine, s ai.Slice) []*poly.Poly {
	var out []*poly.Poly
	for _, b := range s {
		out = append(out, m.HPoly(b))
	}
	return out
}

// variable checks that v, a value to be assigned in a witness, denotes p.
func assigned(m *ai.Machine, what string, v ai.Value, p *poly.Poly) {
	if i, ok := v.(ai.Iface); ok {
		v = i.V
	}
	switch v.(type) {
	case *ai.Value:
		mustEq(m, what, m.BigPoly(v), p)
	case int64, *ai.HInt:
		mustEq(m, what, m.HPoly(v), p)
	default:
		Failf("%s is %s", what, ai.Show(v))
	}
}

func init() {
	register("H12", "Abstract evaluation of the host helpers on symbolic bytes, with the native MiMC, the RLP encoder and the header hash as uninterpreted functions of exactly what they are given: outputs and absorbed data are compared as polynomials over the input bits with the published layout, for every shape of the grid.", func(c *Ctx) {
		h12NewHash(c)
		h12Encode(c)
		h12Headers(c)
		h12Mimcs(c)
		h12Byte377(c)
		h12Poseidon(c)
	})
}

func h12NewHash(c *Ctx) {
	for n := 0; n <= 65; n++ {
		c.Ob("halves", fmt.Sprintf("NewHash %d bytes", n), func(t *T) {
			m := t.M(ai.BN254Fr)
			in := symBytes(m, "x", n)
			if n != 32 {
				mustPanic(t, m, h12Fab, "NewHash", "a hash that is not 32 bytes", in)
				return
			}
			got := asSlice(t.Run(m, h12Fab, "NewHash", in))
			mustLen("halves", len(got), 2)
			assigned(m, "high half", got[0], m.BytesPoly(in[:16]))
			assigned(m, "low half", got[1], m.BytesPoly(in[16:]))
		})
	}
	c.Ob("halves", "EmptyHash", func(t *T) {
		m := t.M(ai.BN254Fr)
		for i, v := range asSlice(t.Run(m, h12Fab, "EmptyHash")) {
			assigned(m, fmt.Sprintf("half %d", i), v, m.Z.Int(0))
		}
	})
	c.Floor("halves", 60)
}

// h12Header makes a symbolic header whose dynamic fields have given lengths.
func h12Header(t *T, m *ai.Machine, id int, lens map[string]int) ai.Struct {
	f := aiFind(t.C, h12Fab, "checkDynamicFieldLen")
	var ht types.Type
	if f != nil && len(f.Params) == 1 {
		ht = f.Params[0].Type()
	} else if g := aiFind(t.C, h12Fab, "EncodeHeaders"); g != nil {
		ht = g.Params[0].Type().Underlying().(*types.Slice).Elem()
	} else {
		Failf("EncodeHeaders not found")
	}
	h := m.Zero(ht).(ai.Struct)
	st := ht.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		n, has := lens[st.Field(i).Name()]
		if !has {
			n = 1
		}
		var top *big.Int
		if n == 0 {
			top = new(big.Int)
		} else {
			top = new(big.Int).Lsh(big.NewInt(1), uint(8*n-8))
			if has {
				top.Sub(new(big.Int).Lsh(big.NewInt(1), uint(8*n)), big.NewInt(1))
			}
		}
		switch st.Field(i).Name() {
		case "ParentHash":
			h[i] = ai.Arr(m.HBytes(fmt.Sprintf("parent%d", id), 32))
		case "Difficulty", "Number", "BaseFee":
			h[i] = m.NewBig(m.Z.Const(top))
		case "GasLimit", "GasUsed", "Time":
			h[i] = int64(top.Uint64())
		}
	}
	return h
}

func h12Encode(c *Ctx) {
	const encode = "github.com/ethereum/go-ethereum/rlp.EncodeToBytes"
	// rlpOf models the encoder: distinct headers have distinct encodings
	rlpOf := func(m *ai.Machine, lens []int) func() int {
		calls := 0
		m.Over[encode] = func(m *ai.Machine, k *ai.Call) ai.Value {
			v := k.Args[0]
			if i, ok := v.(ai.Iface); ok {
				v = i.V
			}
			if p, ok := v.(*ai.Value); ok && p != nil {
				v = *p
			}
			s, ok := v.(ai.Struct)
			if !ok {
				Failf("the encoder is given %s", ai.Show(v))
			}
			for i := range lens {
				if poly.Eq(m.HPoly(asSlice(s[0])[0]), m.HPoly(m.HBytes(fmt.Sprintf("parent%d", i), 1)[0])) {
					calls++
					return ai.Tuple{m.HBytes(fmt.Sprintf("rlp%d", i), lens[i]), ai.NilErr}
				}
			}
			Failf("an unknown header is encoded")
			return nil
		}
		return func() int { return calls }
	}
	shapes := [][]int{{}}
	for _, n := range []int{1, 134, 135, 136, 137, 271, 272, 407, 408, 500, 543, 544, 600, 678, 679} {
		shapes = append(shapes, []int{n})
	}
	shapes = append(shapes, []int{540, 600}, []int{679, 1, 544, 135}, []int{136, 136, 136})
	for _, ls := range shapes {
		c.Ob("header-blocks", fmt.Sprintf("EncodeHeaders %v", ls), func(t *T) {
			m := t.M(ai.BN254Fr)
			rlpOf(m, ls)
			var hs ai.Slice
			for i := range ls {
				hs = append(hs, h12Header(t, m, i, nil))
			}
			r, ok := t.Run(m, h12Fab, "EncodeHeaders", hs).(ai.Tuple)
			if !ok || len(r) != 3 {
				Failf("EncodeHeaders does not return three values")
			}
			if !ai.IsNil(r[2]) {
				Failf("regular headers are refused: %s", ai.Show(r[2]))
			}
			enc, idx := asSlice(r[0]), asSlice(r[1])
			mustLen("encodings", len(enc), len(ls))
			mustLen("indexes", len(idx), len(ls))
			for i, n := range ls {
				blocks := n/136 + 1
				var want []*poly.Poly
				for k := 0; k < 5*136; k++ {
					for b := 0; b < 8; b++ {
						switch {
						case k < n:
							want = append(want, m.Z.Var(m.BitAtom(fmt.Sprintf("rlp%d[%d]", i, k), b)))
						case k == n && b == 0, k == blocks*136-1 && b == 7:
							want = append(want, m.Z.Int(1))
						default:
							want = append(want, m.Z.Int(0))
						}
					}
				}
				got := asSlice(enc[i])
				mustLen(fmt.Sprintf("encoding %d", i), len(got), len(want))
				for k := range got {
					assigned(m, fmt.Sprintf("encoding %d bit %d", i, k), got[k], want[k])
				}
				assigned(m, fmt.Sprintf("index %d", i), idx[i], m.Z.Int(int64(blocks-1)))
			}
		})
	}
	c.Ob("header-blocks", "EncodeHeaders encoder failure", func(t *T) {
		m := t.M(ai.BN254Fr)
		m.Over[encode] = func(m *ai.Machine, k *ai.Call) ai.Value {
			return ai.Tuple{ai.Slice(nil), ai.ErrV(m, "encode")}
		}
		r := t.Run(m, h12Fab, "EncodeHeaders", ai.Slice{h12Header(t, m, 0, nil)}).(ai.Tuple)
		if ai.IsNil(r[2]) {
			Failf("a header that cannot be encoded is not reported")
		}
	})
	limits := []struct {
		f    string
		max  int
		most int
	}{{"Difficulty", 7, 33}, {"Number", 8, 33}, {"GasLimit", 4, 8}, {"GasUsed", 4, 8}, {"Time", 4, 8}, {"BaseFee", 7, 33}}
	for _, l := range limits {
		for n := 0; n <= l.most; n++ {
			c.Ob("field-length", fmt.Sprintf("EncodeHeaders %s of %d bytes", l.f, n), func(t *T) {
				for _, second := range []bool{false, true} {
					m := t.M(ai.BN254Fr)
					rlpOf(m, []int{540, 540})
					hs := ai.Slice{h12Header(t, m, 0, map[string]int{l.f: n})}
					if second {
						hs = ai.Slice{h12Header(t, m, 0, nil), h12Header(t, m, 1, map[string]int{l.f: n})}
					}
					r := t.Run(m, h12Fab, "EncodeHeaders", hs).(ai.Tuple)
					if refused := !ai.IsNil(r[2]); refused != (n > l.max) {
						if refused {
							Failf("a header whose %s has %d bytes is refused", l.f, n)
						}
						Failf("a header whose %s has %d bytes, more than %d, is accepted", l.f, n, l.max)
					}
				}
			})
		}
	}
	c.Floor("header-blocks", 18)
	c.Floor("field-length", 100)
}

func h12Headers(c *Ctx) {
	for _, n := range c.grid([]int{1, 2, 3, 8}, 1, 64, h12Fab) {
		c.Ob("header-chain", fmt.Sprintf("GenHeaders %d", n), func(t *T) {
			m := t.M(ai.BN254Fr)
			// the header hash: an uninterpreted function of number and parent
			m.Over["github.com/ethereum/go-ethereum/core/types.(*Header).Hash"] = func(m *ai.Machine, k *ai.Call) ai.Value {
				s := (*(k.Args[0].(*ai.Value))).(ai.Struct)
				return ai.Arr(m.HBytes("hash:"+h12Key(t, m, s), 32))
			}
			prev := ai.Arr(m.HBytes("prev", 32))
			hs := asSlice(t.Run(m, h12Fab, "GenHeaders", int64(n), int64(1000), ai.Copy(prev)))
			mustLen("headers", len(hs), n)
			want := bytePolys(m, ai.Slice(prev))
			for i := range hs {
				h := hs[i].(ai.Struct)
				sameBytes(m, fmt.Sprintf("parent hash of header %d", i), asSlice(h12Field(t, h, "ParentHash")), want)
				mustEq(m, fmt.Sprintf("number of header %d", i), m.BigPoly(h12Field(t, h, "Number")), m.Z.Int(int64(1000+i)))
				want = bytePolys(m, m.HBytes("hash:"+h12Key(t, m, h), 32))
				for f, max := range map[string]int{"Difficulty": 7, "BaseFee": 7} {
					if v, ok := m.BigPoly(h12Field(t, h, f)).IsConst(); !ok || v.BitLen() > 8*max {
						Failf("%s of header %d is too long to be encoded", f, i)
					}
				}
			}
		})
	}
	c.Floor("header-chain", 4)
}

func h12Field(t *T, h ai.Struct, name string) ai.Value {
	g := aiFind(t.C, h12Fab, "EncodeHeaders")
	st := g.Params[0].Type().Underlying().(*types.Slice).Elem().Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return h[i]
		}
	}
	Failf("header has no %s", name)
	return nil
}

func h12Key(t *T, m *ai.Machine, h ai.Struct) string {
	return m.BigPoly(h12Field(t, h, "Number")).Key() + "/" + m.BytesPoly(asSlice(h12Field(t, h, "ParentHash"))).Key()
}

func h12Mimcs(c *Ctx) {
	leafBytes := func(m *ai.Machine, n int) ai.Slice {
		ls := make(ai.Slice, n)
		for i := range ls {
			// canonical field elements: below 2^252
			b := m.HBytes(fmt.Sprintf("leaf%d", i), 32)
			b[0] = &ai.HInt{Bits: append(append([]*poly.Poly(nil), b[0].(*ai.HInt).Bits[:4]...), m.Z.Int(0), m.Z.Int(0), m.Z.Int(0), m.Z.Int(0))}
			ls[i] = b
		}
		return ls
	}
	for _, n := range c.grid(seq(0, 17), 0, 40, h12Fab) {
		c.Ob("mimc-root", fmt.Sprintf("MimcRoot %d leaves", n), func(t *T) {
			m := t.M(ai.BN254Fr)
			o := newH12Oracle(m)
			ls := leafBytes(m, n)
			if n == 0 || n&(n-1) != 0 {
				mustPanic(t, m, h12Fab, "MimcRoot", "a number of leaves that is no power of two", ls)
				return
			}
			var cur [][]*poly.Poly
			for _, l := range ls {
				cur = append(cur, bytePolys(m, l.(ai.Slice)))
			}
			before := append([][]*poly.Poly(nil), cur...)
			got := asSlice(t.Run(m, h12Fab, "MimcRoot", ls))
			for len(cur) > 1 {
				var next [][]*poly.Poly
				for i := 0; i < len(cur); i += 2 {
					next = append(next, bytePolys(m, o.sum(append(append([]*poly.Poly(nil), cur[i]...), cur[i+1]...))))
				}
				cur = next
			}
			sameBytes(m, "root", got, cur[0])
			for i, l := range ls {
				sameBytes(m, "the caller's leaf", l.(ai.Slice), before[i])
			}
			if n > 1 {
				m := t.M(ai.BN254Fr)
				newH12Oracle(m).fail = true
				mustPanic(t, m, h12Fab, "MimcRoot", "leaves the hasher refuses", leafBytes(m, n))
			}
		})
	}
	c.Floor("mimc-root", 16)
	c.Ob("mimc-halves", "MimcHashBytes32", func(t *T) {
		m := t.M(ai.BN254Fr)
		o := newH12Oracle(m)
		in := symBytes(m, "x", 32)
		before := bytePolys(m, in)
		got := asSlice(t.Run(m, h12Fab, "MimcHashBytes32", in))
		var want []*poly.Poly
		for h := 0; h < 2; h++ {
			for i := 0; i < 16; i++ {
				want = append(want, m.Z.Int(0))
			}
			want = append(want, before[16*h:16*h+16]...)
		}
		sameBytes(m, "digest", got, bytePolys(m, o.sum(want)))
		sameBytes(m, "the argument", in, before)
	})
	c.Floor("mimc-halves", 1)
}

func h12Byte377(c *Ctx) {
	const ut = "common/utils"
	// around every boundary of eight blocks: all positions inside a byte
	lens := []int{0, 1, 2, 20}
	for k := 1; k <= 8; k++ {
		lens = append(lens, 253*k/8, 253*k/8+1)
	}
	for _, n := range c.grid(lens, 0, 260, ut) {
		c.Ob("mimc-bytes", fmt.Sprintf("GenerateBls12377Hash %d bytes", n), func(t *T) {
			m := t.M(ai.BN254Fr)
			o := newH12Oracle(m)
			in := symBytes(m, "x", n)
			before := bytePolys(m, in)
			got := asSlice(t.Run(m, ut, "GenerateBls12377Hash", in))
			var want []*poly.Poly
			for s := 0; s < 8*n; s += 253 {
				e := s + 253
				if e > 8*n {
					e = 8 * n
				}
				var ps []*poly.Poly
				for k := s; k < e; k++ {
					ps = append(ps, m.Z.Scale(hb(m, "x", k/8, 7-k%8), pow2(e-1-k)))
				}
				want = append(want, bytePolys(m, m.BigBytes(m.Residue(m.Z.Sum(ps...), bls377Fr), 32))...)
			}
			sameBytes(m, "digest", got, bytePolys(m, o.sum(want)))
			sameBytes(m, "the argument", in, before)
		})
	}
	c.Ob("mimc-bytes", "GenerateBls12377Hash refused block", func(t *T) {
		m := t.M(ai.BN254Fr)
		newH12Oracle(m).fail = true
		mustPanic(t, m, ut, "GenerateBls12377Hash", "a block the hasher refuses", symBytes(m, "x", 32))
	})
	c.Ob("mimc-range", "GenerateBls12377Hash", func(t *T) {
		m := t.M(ai.BN254Fr)
		o := newH12Oracle(m)
		t.Run(m, ut, "GenerateBls12377Hash", symBytes(m, "x", 32))
		if o.big != "" {
			Failf("%s holds up to 253 bits and can be at least the BLS12-377 scalar modulus; the hasher refuses such a block and the process ends (any input of 32 bytes or more whose leading 253 bits are that large)", o.big)
		}
	})
	c.Floor("mimc-bytes", 11)
}

func h12Poseidon(c *Ctx) {
	const ut = "common/utils"
	for _, n := range c.grid(seq(0, 17), 0, 40, ut) {
		c.Ob("poseidon", fmt.Sprintf("PoseidonBn254Hasher %d inputs", n), func(t *T) {
			m := t.M(ai.BN254Fr)
			var calls [][]*poly.Poly
			fail := false
			m.Over["github.com/iden3/go-iden3-crypto/poseidon.Hash"] = func(m *ai.Machine, k *ai.Call) ai.Value {
				var in []*poly.Poly
				for _, v := range asSlice(k.Args[0]) {
					in = append(in, m.BigPoly(v))
				}
				calls = append(calls, in)
				if fail {
					return ai.Tuple{(*ai.Value)(nil), ai.ErrV(m, "poseidon")}
				}
				return ai.Tuple{m.NewBig(m.Z.Var(m.BitAtom(fmt.Sprintf("P%d", len(calls)), 0))), ai.NilErr}
			}
			h := t.Run(m, ut, "NewPoseidonBn254")
			round := func(tag string, n int) {
				var want []*poly.Poly
				for i := 0; i < n; i++ {
					p := zbits(m, fmt.Sprintf("%s%d", tag, i), 16)
					want = append(want, p)
					t.Run(m, ut, "PoseidonBn254Hasher.Write", h, m.NewBig(p))
				}
				k := len(calls)
				r := t.Run(m, ut, "PoseidonBn254Hasher.Sum", h).(ai.Tuple)
				if len(calls) != k+1 {
					Failf("Sum calls the permutation %d times", len(calls)-k)
				}
				mustLen("inputs", len(calls[k]), n)
				for i := range want {
					mustEq(m, fmt.Sprintf("input %d", i), calls[k][i], want[i])
				}
				if fail {
					if ai.IsNil(r[1]) {
						Failf("a failed hash is not reported")
					}
					return
				}
				if !ai.IsNil(r[1]) {
					Failf("a hash is refused")
				}
				mustEq(m, "digest", m.BigPoly(r[0]), m.Z.Var(m.BitAtom(fmt.Sprintf("P%d", len(calls)), 0)))
			}
			round("a", n)
			t.Run(m, ut, "PoseidonBn254Hasher.Reset", h)
			round("b", n)
			t.Run(m, ut, "PoseidonBn254Hasher.Reset", h)
			fail = true
			round("c", 2)
		})
	}
	c.Floor("poseidon", 17)
}
