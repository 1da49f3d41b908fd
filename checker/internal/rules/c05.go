package rules

import (
	"fmt"
	"go/types"

	"zkcheck/internal/ai"
	"zkcheck/internal/poly"
)

func init() {
	register("C05", "Prefix decoding is abstractly interpreted for all 256 first bytes and compared with the RLP specification. The list checkers are analysed by trace partitioning over framings (prefix and length nibbles constant, all payload and trailing nibbles symbolic): a correct framing must give verdict 1 with the exact lengths and field contents as polynomials; every single-point corruption of a framing (announced length, list prefix, field length, field count) must give verdict 0 or violate a recorded constraint, for all payloads.", runC05)
}

// fld is one RLP item of a list framing.
type fld struct {
	kind string // "lit" (single byte < 0x80, value v), "str" (n payload bytes), "list" (n payload bytes)
	n    int
	v    int
}

func (f fld) String() string {
	if f.kind == "lit" {
		return fmt.Sprintf("lit%02x", f.v)
	}
	return fmt.Sprintf("%s%d", f.kind, f.n)
}

// rlpBuf builds nibbles, constants for framing and atoms for payload.
type rlpBuf struct {
	m    *ai.Machine
	nib  []*poly.Poly
	next int
}

func (b *rlpBuf) byteConst(v int) {
	b.nib = append(b.nib, b.m.Sp.Int(int64(v>>4&15)), b.m.Sp.Int(int64(v&15)))
}

func (b *rlpBuf) sym() *poly.Poly {
	w := b.m.InputRange(fmt.Sprintf("p%d", b.next), 0, 15)
	b.next++
	return w.P
}

func lenBytes(n int) []int {
	var o []int
	for n > 0 {
		o = append([]int{n & 255}, o...)
		n >>= 8
	}
	return o
}

// header appends the RLP header of a string/list of n bytes.
func (b *rlpBuf) header(base, n int) {
	if n <= 55 {
		b.byteConst(base + n)
		return
	}
	lb := lenBytes(n)
	b.byteConst(base + 55 + len(lb))
	for _, x := range lb {
		b.byteConst(x)
	}
}

func hdrLen(n int) int {
	if n <= 55 {
		return 1
	}
	return 1 + len(lenBytes(n))
}

// item appends an item; returns content nibbles (payload) and the nibbles including the prefix.
func (b *rlpBuf) item(f fld) (content, whole []*poly.Poly) {
	start := len(b.nib)
	switch f.kind {
	case "lit":
		b.byteConst(f.v)
		return b.nib[start:], b.nib[start:]
	case "str":
		b.header(0x80, f.n)
	case "list":
		b.header(0xc0, f.n)
	}
	ps := len(b.nib)
	for i := 0; i < 2*f.n; i++ {
		b.nib = append(b.nib, b.sym())
	}
	return b.nib[ps:], b.nib[start:]
}

func itemLen(f fld) int {
	if f.kind == "lit" {
		return 1
	}
	return hdrLen(f.n) + f.n
}

func listLen(fs []fld) int {
	n := 0
	for _, f := range fs {
		n += itemLen(f)
	}
	return n
}

type framing struct {
	fs       []fld
	delta    int // added to the announced payload length
	badList  int // >=0: this byte instead of the list prefix
	announce int // payload length to announce (-1: listLen)
}

type built struct {
	in      ai.Slice
	lens    []int
	content [][]*poly.Poly
	whole   [][]*poly.Poly
	total   int // nibbles of the list including its header
}

func buildFraming(m *ai.Machine, fr framing, maxHex int, trailZero bool) built {
	b := &rlpBuf{m: m}
	n := listLen(fr.fs) + fr.delta
	b.header(0xc0, n)
	if fr.badList >= 0 {
		b.nib[0], b.nib[1] = m.Sp.Int(int64(fr.badList>>4)), m.Sp.Int(int64(fr.badList&15))
	}
	var r built
	hdr := len(b.nib)
	for _, f := range fr.fs {
		c, w := b.item(f)
		r.content = append(r.content, append([]*poly.Poly(nil), c...))
		r.whole = append(r.whole, append([]*poly.Poly(nil), w...))
	}
	r.total = hdr + 2*listLen(fr.fs)
	for len(b.nib) < maxHex {
		if trailZero {
			b.nib = append(b.nib, m.Sp.Int(0))
		} else {
			b.nib = append(b.nib, b.sym())
		}
	}
	if len(b.nib) > maxHex {
		Failf("internal: framing longer than MaxHexLen")
	}
	for _, p := range b.nib {
		r.in = append(r.in, ai.V(m.PolyWire(p)))
	}
	return r
}

type listParams struct {
	maxHex, fields, prefix int
	min, max               []int
}

func (p listParams) value(t *T, m *ai.Machine) ai.Value {
	pk := t.C.Prog.Pkg(G + "rlp")
	ob := pk.Types.Scope().Lookup("ArrayCheck")
	if ob == nil {
		Failf("type rlp.ArrayCheck not found")
	}
	z := m.Zero(ob.Type()).(ai.Struct)
	st := ob.Type().Underlying().(*types.Struct)
	ints := func(v []int) ai.Slice {
		s := ai.Slice{}
		for _, x := range v {
			s = append(s, int64(x))
		}
		return s
	}
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "MaxHexLen":
			z[i] = int64(p.maxHex)
		case "MaxFields":
			z[i] = int64(p.fields)
		case "ArrayPrefixMaxHexLen":
			z[i] = int64(p.prefix)
		case "FieldMinHexLen":
			z[i] = ints(p.min)
		case "FieldMaxHexLen":
			z[i] = ints(p.max)
		default:
			Failf("unknown parameter %s of rlp.ArrayCheck", st.Field(i).Name())
		}
	}
	cell := new(ai.Value)
	*cell = z
	return cell
}

// runList runs one checker variant on a framing.
func runList(t *T, m *ai.Machine, variant string, p listParams, bl built, nf int) ai.Outcome {
	recv := p.value(t, m)
	switch variant {
	case "RlpArrayCheck":
		var opt ai.Slice
		if nf != p.fields {
			opt = ai.Slice{ai.V(m.ConstI(int64(nf)))}
		}
		return t.Try(m, G+"rlp", "ArrayCheck.RlpArrayCheck", recv, m.APIValue(), bl.in, opt)
	case "BlkHeaderRlpCheck":
		return t.Try(m, G+"rlp", "ArrayCheck.BlkHeaderRlpCheck", recv, m.APIValue(), bl.in, ai.V(m.ConstI(int64(nf))))
	}
	return t.Try(m, G+"rlp", "ArrayCheck.RlpNestArrayCheck", recv, m.APIValue(), bl.in)
}

func zeros(n int) []int { return make([]int, n) }
func fills(n, v int) []int {
	o := make([]int, n)
	for i := range o {
		o[i] = v
	}
	return o
}

func runC05(c *Ctx) {
	pkg := G + "rlp"
	// 1. prefix tables
	c.Ob("prefix-table", "RlpArrayPrefix for all 256 bytes", func(t *T) {
		for v := 0; v < 256; v++ {
			m := t.M(ai.BN254Fr)
			r := t.Run(m, pkg, "RlpArrayPrefix", m.APIValue(), ai.Arr{ai.V(m.ConstI(int64(v >> 4))), ai.V(m.ConstI(int64(v & 15)))}).(ai.Tuple)
			big, n, valid := int64(0), int64(0), int64(0)
			if v >= 0xc0 {
				valid = 1
				n = int64(2 * (v - 0xc0))
			}
			if v >= 0xf8 {
				big = 1
				n = int64(2 * (v - 0xf7))
			}
			for i, w := range []int64{big, n, valid} {
				mustEq(m, fmt.Sprintf("byte %#02x result %d (isBig, hex length, valid)", v, i), m.ToWire(r[i]).P, m.Sp.Int(w))
			}
		}
	})
	c.Ob("prefix-table", "RlpFieldPrefix for all 256 bytes", func(t *T) {
		for v := 0; v < 256; v++ {
			m := t.M(ai.BN254Fr)
			r := t.Run(m, pkg, "RlpFieldPrefix", m.APIValue(), ai.Arr{ai.V(m.ConstI(int64(v >> 4))), ai.V(m.ConstI(int64(v & 15)))}).(ai.Tuple)
			var big, lit, n, arr, empty, zero int64
			switch {
			case v < 0x80:
				lit = 1
			case v <= 0xb7:
				n = int64(2 * (v - 0x80))
			case v < 0xc0:
				big, n = 1, int64(2*(v-0xb7))
			case v < 0xf8:
				arr, n = 1, int64(2*(v-0xc0))
			default:
				arr, big, n = 1, 1, int64(2*(v-0xf7))
			}
			if v == 0xc0 {
				empty = 1
			}
			if v == 0 {
				zero = 1
			}
			names := []string{"isBig", "isLiteral", "hex length", "isValid", "isArray", "isEmptyList", "isZero"}
			for i, w := range []int64{big, lit, n, 1, arr, empty, zero} {
				if i == 2 && lit == 1 {
					continue // the length of a literal's prefix is unused
				}
				mustEq(m, fmt.Sprintf("byte %#02x %s", v, names[i]), m.ToWire(r[i]).P, m.Sp.Int(w))
			}
		}
	})
	// 2. framings
	type tc struct {
		name string
		p    listParams
		fs   []fld
		nf   int
		nest bool
		long bool
	}
	lit := func(v int) fld { return fld{"lit", 1, v} }
	str := func(n int) fld { return fld{"str", n, 0} }
	lst := func(n int) fld { return fld{"list", n, 0} }
	p2 := listParams{maxHex: 140, fields: 2, prefix: 4, min: zeros(2), max: []int{66, 64}}
	p2b := listParams{maxHex: 700, fields: 2, prefix: 4, min: zeros(2), max: []int{66, 600}}
	p3 := listParams{maxHex: 200, fields: 3, prefix: 4, min: zeros(3), max: []int{64, 64, 64}}
	p4 := listParams{maxHex: 228, fields: 4, prefix: 4, min: []int{0, 0, 64, 64}, max: []int{64, 24, 64, 64}}
	p5 := listParams{maxHex: 160, fields: 5, prefix: 4, min: zeros(5), max: fills(5, 64)}
	p17 := listParams{maxHex: 1064, fields: 17, prefix: 8, min: zeros(17), max: append(fills(16, 64), 0)}
	hdr := listParams{maxHex: 1120, fields: 17, prefix: 4,
		min: []int{64, 64, 40, 64, 64, 64, 512, 0, 0, 0, 0, 0, 0, 64, 16, 0, 64},
		max: []int{64, 64, 40, 64, 64, 64, 512, 14, 16, 8, 8, 8, 2000, 64, 18, 16, 64}}
	branch := func(idx ...int) []fld {
		fs := make([]fld, 17)
		for i := range fs {
			fs[i] = str(0)
		}
		for _, i := range idx {
			fs[i] = str(32)
		}
		return fs
	}
	var cases []tc
	add := func(p listParams, fs ...fld) { cases = append(cases, tc{p: p, fs: fs, nf: len(fs)}) }
	add(p2, str(33), str(32))
	add(p2, str(32), str(20))
	add(p2, str(1), str(0))
	add(p2, lit(0x20), str(30))
	add(p2, lit(0x3f), lit(0x7f))
	add(p2, str(0), str(0))
	add(p2, lit(0x01), str(31))
	add(p2, str(5), lit(0x00))
	add(p2, str(20), str(1))
	add(p2b, str(33), str(56))
	add(p2b, str(33), str(70))
	add(p2b, lit(0x20), str(110))
	add(p2b, str(32), str(255))
	add(p2b, str(32), str(256))
	add(p2b, str(2), str(299))
	add(p3, str(3), lit(0x11), str(32))
	add(p3, str(0), str(0), str(1))
	add(p4, lit(0x05), str(8), str(32), str(32))
	add(p4, str(0), str(0), str(32), str(32))
	add(p4, str(2), str(12), str(32), str(32))
	add(p5, str(1), str(2), str(3), str(4), str(5))
	add(p17, branch(0, 7)...)
	add(p17, branch(15)...)
	add(p17, branch(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15)...)
	// lists as items
	add(p2, str(2), lst(0))
	add(p3, lst(0), str(4), lst(0))
	add(p3, str(4), lst(0), str(9))
	header := func(n int) []fld {
		fs := []fld{str(32), str(32), str(20), str(32), str(32), str(32), str(256), lit(0), str(4), str(4), str(3), str(4), str(10), str(32), str(8), str(5), str(32)}
		fs[7] = str(0)
		return fs[:n]
	}
	for n := 15; n <= 17; n++ {
		cases = append(cases, tc{p: hdr, fs: header(n), nf: n})
	}
	h2 := header(17)
	h2[7], h2[11], h2[12] = str(7), lit(0x11), str(0)
	cases = append(cases, tc{p: hdr, fs: h2, nf: 17})
	for _, a := range c.grid(nil, 0, 33, pkg) {
		add(p2, str(a), str(3))
		add(p3, str(0), str(min(a, 32)), lit(0x2a))
	}
	for _, b := range c.grid(nil, 34, 300, pkg) {
		add(p2b, str(2), str(b))
	}
	if c.Thorough {
		for a := 0; a <= 33; a++ {
			for b := 0; b <= 32; b += 1 {
				if 2*(a+b)+12 <= 140 {
					add(p2, str(a), str(b))
				}
			}
		}
		for b := 33; b <= 300; b++ {
			add(p2b, str(33), str(b))
		}
	}
	nestP := func(p listParams) listParams { return p }
	for _, variant := range []string{"RlpArrayCheck", "BlkHeaderRlpCheck", "RlpNestArrayCheck"} {
		for _, x := range cases {
			isHdr := x.p.maxHex == 1120
			if isHdr != (variant == "BlkHeaderRlpCheck") && len(x.fs) >= 15 && x.p.fields == 17 && variant != "RlpArrayCheck" {
				continue
			}
			if isHdr && variant == "RlpArrayCheck" {
				continue
			}
			if variant == "RlpNestArrayCheck" && hasZeroLit(x.fs) {
				continue
			}
			p := nestP(x.p)
			for _, cs := range framingCases(x.fs, x.nf, p) {
				if variant == "RlpNestArrayCheck" && cs.nf != x.nf {
					continue
				}
				c.Ob(cs.rule, fmt.Sprintf("%s %s %v (%d of %d fields)", variant, cs.name, x.fs, x.nf, p.fields), func(t *T) {
					m := t.M(ai.BN254Fr)
					bl := buildFraming(m, cs.fr, p.maxHex, cs.nf > x.nf)
					o := runList(t, m, variant, p, bl, cs.nf)
					if cs.good {
						if o.Abort != nil {
							Failf("correct framing is refused: %v", o.Abort.Val)
						}
						if v := violated(m); v != "" {
							Failf("correct framing is rejected: %s", v)
						}
						r := o.Ret.(ai.Tuple)
						mustEq(m, "verdict", m.ToWire(r[0]).P, m.Sp.Int(1))
						mustEq(m, "total hex length", m.ToWire(r[1]).P, m.Sp.Int(int64(bl.total)))
						lens := m.WiresOf(asSlice(r[2]))
						fields := asSlice(r[3])
						for i := range cs.fr.fs {
							want := bl.content[i]
							if variant == "RlpNestArrayCheck" && cs.fr.fs[i].kind == "list" {
								want = bl.whole[i]
							}
							mustEq(m, fmt.Sprintf("hex length of field %d", i), lens[i].P, m.Sp.Int(int64(len(want))))
							ws := m.WiresOf(asSlice(fields[i]))
							for j := range want {
								mustEq(m, fmt.Sprintf("field %d nibble %d", i, j), ws[j].P, want[j])
							}
						}
						return
					}
					if o.Abort != nil || violated(m) != "" {
						return
					}
					r := o.Ret.(ai.Tuple)
					lo, hi := newEval(m, env{}).Poly(m.ToWire(r[0]).P)
					if lo == nil || hi.Sign() != 0 || lo.Sign() != 0 {
						if unsat(m, env{}) != "" {
							return
						}
						Failf("malformed framing (%s) is not rejected: verdict %s", cs.name, clip(m.Sp.String(m.ToWire(r[0]).P)))
					}
				})
			}
		}
	}
	c05TxLeaf(c)
	c.Floor("framing-accept", 60)
	c.Floor("framing-reject", 150)
}

func hasZeroLit(fs []fld) bool {
	for _, f := range fs {
		if f.kind == "lit" && f.v == 0 {
			return true
		}
	}
	return false
}

type frCase struct {
	rule, name string
	fr         framing
	nf         int
	good       bool
}

// framingCases derives the correct framing and its single-point corruptions.
func framingCases(fs []fld, nf int, p listParams) []frCase {
	base := framing{fs: fs, badList: -1}
	out := []frCase{{"framing-accept", "correct", base, nf, true}}
	bad := func(name string, fr framing, nf int) {
		out = append(out, frCase{"framing-reject", name, fr, nf, false})
	}
	for _, d := range []int{1, -1, 2, -2, 7} {
		if n := listLen(fs) + d; n >= 0 && (n <= 55) == (listLen(fs) <= 55) {
			f := base
			f.delta = d
			bad(fmt.Sprintf("announced length %+d", d), f, nf)
		}
	}
	n := listLen(fs)
	if n <= 55 {
		f := base
		f.badList = 0x80 + n
		bad("string prefix instead of list prefix", f, nf)
		f.badList = 0x20
		bad("single byte instead of list prefix", f, nf)
	}
	bad("field count -1", base, nf-1)
	if nf < p.fields {
		bad("field count +1", base, nf+1)
	}
	return out
}
