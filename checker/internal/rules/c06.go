package rules

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"zkcheck/internal/ai"
	"zkcheck/internal/poly"
)

func init() {
	register("C06", "The MPT inclusion gadgets are abstractly interpreted with symbolic node contents, keys and values on concrete proof shapes (depth, node kinds, key fragments), the RLP list checker and Keccak uninterpreted but keyed by their exact inputs: with every required comparison forced true the verdict must be 1, with any single one forced false it must be 0, malformed shapes must give 0 or violate a recorded constraint.", runC06)
}

const mptPkg = G + "mpt"

// mptScn is a proof shape.
type mptScn struct {
	kind   string // storage, account, nb
	D, d   int
	keyLen int
	key    []int // nibbles
	ext    []bool
	starts []int
	pfx    []int // node path prefix lengths
	last   int   // last node's path prefix length
	value  []int // constant value nibbles; nil: symbolic
	pub    []int
	// lens overrides the field lengths of a node in a role.
	lens map[string][]int
	ok   map[string]int // 0/1 forced list verdict of node.role
}

func (s *mptScn) valueLen() int {
	if s.kind == "account" {
		return 228
	}
	return 66
}

func pfxLen(n int) int { return 2 - n%2 }

// mptKey gives a key pattern.
func mptKey(n, pat int) []int {
	k := make([]int, n)
	x := uint32(pat*2654435761 + 12345)
	for i := range k {
		x = x*1664525 + 1013904223
		k[i] = int(x>>24) & 15
	}
	return k
}

// shape builds the honest shape for node kinds (and extension lengths).
func mptShape(kind string, D int, exts []int, pat int) *mptScn {
	s := &mptScn{kind: kind, D: D, d: len(exts) + 1, keyLen: 64, lens: map[string][]int{}, ok: map[string]int{}}
	if kind == "nb" {
		s.keyLen = 6
	}
	s.key = mptKey(64, pat)
	p := 0
	for _, e := range exts {
		s.starts = append(s.starts, p)
		s.ext = append(s.ext, e > 0)
		if e > 0 {
			s.pfx = append(s.pfx, pfxLen(e))
			p += e
		} else {
			s.pfx = append(s.pfx, 0)
			p++
		}
	}
	s.starts = append(s.starts, p)
	s.last = pfxLen(s.keyLen - p)
	for len(s.starts) < D {
		s.starts = append(s.starts, s.keyLen)
	}
	for len(s.ext) < D-1 {
		s.ext = append(s.ext, false)
		s.pfx = append(s.pfx, 0)
	}
	if kind != "nb" && s.d < D {
		s.ext[s.d-1] = true // the fixed-length gadget counts the last node's own fragment
	}
	return s
}

func (s *mptScn) name() string {
	var b strings.Builder
	for i := 0; i < s.d-1; i++ {
		if s.ext[i] {
			fmt.Fprintf(&b, "ext%d-", s.starts[i+1]-s.starts[i])
		} else {
			b.WriteString("branch-")
		}
	}
	return fmt.Sprintf("%s maxDepth %d %slast@%d", s.kind, s.D, b.String(), s.starts[s.d-1])
}

// fieldLens are the lengths of the decoded items of a node read in a role.
func (s *mptScn) fieldLens(node, role string) []int {
	if l, ok := s.lens[node+"."+role]; ok {
		return l
	}
	if role == "branch" {
		l := fills(17, 64)
		l[16] = 0
		return l
	}
	if node == "last" {
		l := s.keyLen - s.starts[s.d-1] + s.last
		if role == "leaf" {
			return []int{l, 14}
		}
		return []int{l, 64}
	}
	var i int
	fmt.Sscanf(node, "n%d", &i)
	if i < s.d-1 {
		return []int{s.starts[i+1] - s.starts[i] + s.pfx[i], 64}
	}
	return []int{0, 0}
}

type mptCond struct {
	name string
	a    *poly.Atom
}

type mptRun struct {
	s     *mptScn
	t     *T
	m     *ai.Machine
	out   *ai.Wire
	abort *ai.Abort
	root  []*ai.Wire
	value []*ai.Wire
	pub   []*poly.Poly
	depth *ai.Wire
	types []*ai.Wire
}

func mptNib(node string, j int) string { return fmt.Sprintf("%s.x%d", node, j) }

func (r *mptRun) okAtom(node, role string) *poly.Atom {
	return mustAtom(r.m.InputBool("ok:" + node + "." + role))
}
func (r *mptRun) field(node, role string, f, j int) *ai.Wire {
	return r.m.Input(fmt.Sprintf("f:%s.%s.%d.%d", node, role, f, j))
}

// hash is the uninterpreted hash nibble of a node absorbed up to round ri.
func mptHash(m *ai.Machine, lanes []*poly.Poly, ri *poly.Poly) [64]*ai.Wire {
	var k strings.Builder
	n := len(lanes)
	for n > 0 && lanes[n-1].Key() == m.Sp.Int(0).Key() {
		n--
	}
	for _, p := range lanes[:n] {
		k.WriteString(p.Key())
		k.WriteByte('|')
	}
	k.WriteString("@" + ri.Key())
	id := m.Sp.Atom("keccak:"+k.String(), func(a *poly.Atom) { a.Kind = "keccak" }).ID
	var o [64]*ai.Wire
	for j := range o {
		o[j] = m.Input(fmt.Sprintf("keccak%d.%d", id, j))
	}
	return o
}

func (r *mptRun) nodeHash(node string, n int) [64]*ai.Wire {
	m := r.m
	var lanes []*poly.Poly
	for l := 0; l < n/16; l++ {
		var ps []*poly.Poly
		for k := 0; k < 8; k++ {
			hi, lo := m.BitsPoly(mptNib(node, 16*l+2*k), 4), m.BitsPoly(mptNib(node, 16*l+2*k+1), 4)
			ps = append(ps, m.Sp.Scale(hi, pow2(8*k+4)), m.Sp.Scale(lo, pow2(8*k)))
		}
		lanes = append(lanes, m.Sp.Sum(ps...))
	}
	return mptHash(m, lanes, m.Input("ri:"+node).P)
}

const mptNodeLen = 1088

// arrayParams reads the parameters of an rlp.ArrayCheck receiver.
func arrayParams(t *T, v ai.Value) listParams {
	pk := t.C.Prog.Pkg(G + "rlp")
	st := pk.Types.Scope().Lookup("ArrayCheck").Type().Underlying().(*types.Struct)
	s := deref(v).(ai.Struct)
	var p listParams
	for i := 0; i < st.NumFields(); i++ {
		n := func() int {
			x, ok := s[i].(int64)
			if !ok {
				Failf("the list checker parameter %s is not a constant", st.Field(i).Name())
			}
			return int(x)
		}
		l := func() (o []int) {
			for _, x := range asSlice(s[i]) {
				k, ok := x.(int64)
				if !ok {
					Failf("the list checker parameter %s is not a constant", st.Field(i).Name())
				}
				o = append(o, int(k))
			}
			return
		}
		switch st.Field(i).Name() {
		case "MaxHexLen":
			p.maxHex = n()
		case "MaxFields":
			p.fields = n()
		case "ArrayPrefixMaxHexLen":
			p.prefix = n()
		case "FieldMinHexLen":
			p.min = l()
		case "FieldMaxHexLen":
			p.max = l()
		}
	}
	return p
}

// overList makes the RLP list checker uninterpreted.
func (r *mptRun) overList(nodes []string) {
	r.m.Over["circuits/gadgets/rlp.(*ArrayCheck).RlpArrayCheck"] = func(m *ai.Machine, c *ai.Call) ai.Value {
		p := arrayParams(r.t, c.Args[0])
		in := m.WiresOf(asSlice(c.Args[2]))
		if len(in) < p.maxHex {
			Failf("the list checker is given %d nibbles of %d", len(in), p.maxHex)
		}
		if len(c.Args) > 3 {
			if o, ok := c.Args[3].(ai.Slice); ok && len(o) > 0 {
				Failf("the list checker is given a field count")
			}
		}
		in = in[:p.maxHex]
		node := ""
		for _, n := range nodes {
			same := true
			for j, w := range in {
				if !poly.Eq(w.P, m.BitsPoly(mptNib(n, j), 4)) {
					same = false
					break
				}
			}
			if same {
				node = n
			}
		}
		zero := true
		for _, w := range in {
			if k, ok := w.P.IsConst(); !ok || k.Sign() != 0 {
				zero = false
				break
			}
		}
		role := "leaf"
		need := func(f, n int) {
			if p.max[f] < n || p.min[f] > 0 {
				Failf("the list checker admits item %d of %d..%d nibbles, must admit 0..%d", f, p.min[f], p.max[f], n)
			}
		}
		switch {
		case p.fields == 17:
			role = "branch"
			for f := 0; f < 16; f++ {
				need(f, 64)
			}
			if p.maxHex < 6+16*66+2 {
				Failf("the branch parser looks at %d nibbles only", p.maxHex)
			}
		case p.fields == 2 && (p.max[1] == 64 || node != "last"):
			role = "ext"
			need(0, r.s.keyLen+2)
			need(1, 64)
			if p.maxHex < 4+r.s.keyLen+2+2+64 {
				Failf("the extension parser looks at %d nibbles only", p.maxHex)
			}
		case p.fields == 2:
			need(0, r.s.keyLen+2)
			need(1, r.s.valueLen())
			if p.maxHex < 4+r.s.keyLen+2+2+r.s.valueLen() {
				Failf("the leaf parser looks at %d nibbles only", p.maxHex)
			}
		default:
			Failf("a node is parsed as a list of %d items", p.fields)
		}
		key := node
		lens := make([]int, p.fields)
		total := 0
		if node != "" {
			lens = r.s.fieldLens(node, role)
			total = 1064
		} else if zero {
			key = "zero"
		} else {
			var k strings.Builder
			for _, w := range in {
				k.WriteString(w.P.Key() + "|")
			}
			key = fmt.Sprintf("other%d", m.Sp.Atom("rlpin:"+k.String(), func(a *poly.Atom) { a.Kind = "rlpin" }).ID)
		}
		okw := m.InputBool("ok:" + key + "." + role)
		if v, has := r.s.ok[key+"."+role]; has {
			okw = m.ConstI(int64(v))
		}
		var ls, fs ai.Slice
		for f := 0; f < p.fields; f++ {
			ls = append(ls, ai.V(m.ConstI(int64(lens[f]))))
			var fl ai.Slice
			for j := 0; j < p.maxHex; j++ {
				fl = append(fl, ai.V(r.field(key, role, f, j)))
			}
			fs = append(fs, fl)
		}
		return ai.Tuple{ai.V(okw), ai.V(m.ConstI(int64(total))), ls, fs}
	}
	r.m.Over["circuits/gadgets/rlp.Keccak256AsNibbles"] = func(m *ai.Machine, c *ai.Call) ai.Value {
		return overKeccakNibbles(r.t, m, c)
	}
}

func overKeccakNibbles(t *T, m *ai.Machine, c *ai.Call) ai.Value {
	var lanes []*poly.Poly
	for _, b := range asSlice(c.Args[2]) {
		for _, w := range m.WiresOf(asSlice(b)) {
			lanes = append(lanes, w.P)
		}
	}
	h := mptHash(m, lanes, m.ToWire(c.Args[3]).P)
	ln := m.ToWire(c.Args[1])
	ol := m.OpaqueWire("outlen", 0, ln)
	if k, ok := ln.P.IsConst(); ok {
		v := k.Int64()
		if v >= 63 || v < 0 {
			v = 64
		}
		ol = m.ConstI(v)
	}
	pk := t.C.Prog.Pkg(G + "rlp")
	ty := pk.Types.Scope().Lookup("KeccakOrLiteralHex").Type()
	z := m.Zero(ty).(ai.Struct)
	var o ai.Arr
	for _, w := range h {
		o = append(o, ai.V(w))
	}
	z[structField(ty, "Output")] = o
	z[structField(ty, "OutputLength")] = ai.V(ol)
	cell := new(ai.Value)
	*cell = z
	return cell
}

// run interprets the gadget on the shape.
func (s *mptScn) run(t *T, symDepth, symTypes bool) *mptRun {
	m := t.M(ai.BN254Fr)
	r := &mptRun{s: s, t: t, m: m}
	nodes := []string{"last"}
	var rlps, rounds, pfx, typ ai.Slice
	nib := func(n string) ai.Slice {
		var o ai.Slice
		for j := 0; j < mptNodeLen; j++ {
			o = append(o, ai.V(m.InputBits(mptNib(n, j), 4)))
		}
		return o
	}
	for i := 0; i < s.D-1; i++ {
		n := fmt.Sprintf("n%d", i)
		nodes = append(nodes, n)
		rlps = append(rlps, nib(n))
		rounds = append(rounds, ai.V(m.Input("ri:"+n)))
		pfx = append(pfx, ai.V(m.ConstI(int64(s.pfx[i]))))
		w := m.ConstI(0)
		if s.ext[i] {
			w = m.ConstI(1)
		}
		if symTypes {
			w = m.Input(fmt.Sprintf("type%d", i))
		}
		r.types = append(r.types, w)
		typ = append(typ, ai.V(w))
	}
	var key, starts, val ai.Slice
	n := s.keyLen
	if s.kind == "nb" {
		n = 7
	}
	for i := 0; i < n; i++ {
		key = append(key, ai.V(m.ConstI(int64(s.key[i]))))
	}
	for _, x := range s.starts {
		starts = append(starts, ai.V(m.ConstI(int64(x))))
	}
	for i := 0; i < s.valueLen(); i++ {
		w := m.Input(fmt.Sprintf("value%d", i))
		if s.value != nil {
			w = m.ConstI(int64(s.value[i]))
		}
		r.value = append(r.value, w)
		val = append(val, ai.V(w))
	}
	var root ai.Arr
	for i := 0; i < 64; i++ {
		w := m.Input(fmt.Sprintf("root%d", i))
		r.root = append(r.root, w)
		root = append(root, ai.V(w))
	}
	r.depth = m.ConstI(int64(s.d))
	if symDepth {
		r.depth = m.Input("depth")
	}
	r.overList(nodes)
	var o ai.Outcome
	if s.kind == "nb" {
		pub := ai.Arr{}
		for i := 0; i < 2; i++ {
			pub = append(pub, ai.V(m.InputBits(fmt.Sprintf("pub%d", i), 128)))
		}
		for j := 0; j < 64; j++ {
			v := m.Sp.Int(0)
			for b := 0; b < 4; b++ {
				v = m.Sp.Add(v, m.Sp.Scale(m.Sp.Var(m.BitAtom(fmt.Sprintf("pub%d", j/32), 124-4*(j%32)+b)), pow2(b)))
			}
			r.pub = append(r.pub, v)
		}
		o = t.Try(m, mptPkg, "CheckMPTInclusionNoBranchTermination", m.APIValue(), int64(s.D), int64(s.keyLen), key, ai.V(m.ConstI(int64(s.keyLen))), root, starts, pub, rlps, rounds, pfx, typ, ai.V(r.depth))
	} else {
		o = t.Try(m, mptPkg, "CheckMPTInclusionFixedKeyLength", m.APIValue(), int64(s.D), int64(s.keyLen), int64(s.valueLen()), key, val, root, starts, nib("last"), ai.V(m.Input("ri:last")), ai.V(m.ConstI(int64(s.last))), rlps, rounds, pfx, typ, ai.V(r.depth), s.kind == "storage")
	}
	r.abort = o.Abort
	if o.Abort == nil {
		ty := t.C.Prog.Pkg(mptPkg).Types.Scope().Lookup("CheckMPTInclusionFixedKeyLengthResult").Type()
		r.out = m.ToWire(o.Ret.(ai.Struct)[structField(ty, "Output")])
	}
	return r
}

func (r *mptRun) eq(name string, a, b *ai.Wire) mptCond {
	w := r.m.IsZero(r.m.Sub(a, b))
	at, ok := w.P.SingleAtom()
	if !ok {
		// 1 - atom, or a boolean polynomial: compare in the other direction
		w = r.m.IsZero(r.m.Sub(b, a))
		if at, ok = w.P.SingleAtom(); !ok {
			Failf("internal: %s is not an atom: %s", name, r.m.Sp.String(w.P))
		}
	}
	return mptCond{name, at}
}

// refNibbles are the nibbles of the hash the parent of node must reference.
func (r *mptRun) refNibbles(node string) []*ai.Wire {
	if node == "last" && r.s.kind == "nb" {
		var o []*ai.Wire
		for _, p := range r.pub {
			o = append(o, r.m.PolyWire(p))
		}
		return o
	}
	h := r.nodeHash(node, mptNodeLen)
	return h[:]
}

func (r *mptRun) node(i int) string {
	if i == r.s.d-1 {
		return "last"
	}
	return fmt.Sprintf("n%d", i)
}

// pathConds are the conditions above the last node.
func (r *mptRun) pathConds() (cs []mptCond) {
	s := r.s
	h := r.refNibbles(r.node(0))
	for j := 0; j < 64; j++ {
		cs = append(cs, r.eq(fmt.Sprintf("root nibble %d equals the hash of the first node", j), r.root[j], h[j]))
	}
	for i := 0; i < s.d-1; i++ {
		n := r.node(i)
		h := r.refNibbles(r.node(i + 1))
		if !s.ext[i] {
			cs = append(cs, mptCond{"the branch of level " + n + " is a well-formed list", r.okAtom(n, "branch")})
			for j := 0; j < 64; j++ {
				cs = append(cs, r.eq(fmt.Sprintf("%s: item %d nibble %d equals the hash of the node below", n, s.key[s.starts[i]], j), r.field(n, "branch", s.key[s.starts[i]], j), h[j]))
			}
			continue
		}
		cs = append(cs, mptCond{"the extension of level " + n + " is a well-formed list", r.okAtom(n, "ext")})
		cs = append(cs, r.twoItem(n, "ext", 0, s.pfx[i], s.starts[i], s.starts[i+1])...)
		for j := 0; j < 64; j++ {
			cs = append(cs, r.eq(fmt.Sprintf("%s: reference nibble %d equals the hash of the node below", n, j), r.field(n, "ext", 1, j), h[j]))
		}
	}
	return
}

func (r *mptRun) flag(n, role string, base, pfx int) (cs []mptCond) {
	m := r.m
	if pfx == 1 {
		return []mptCond{r.eq(n+": odd path flag", r.field(n, role, 0, 0), m.ConstI(int64(base+1)))}
	}
	return []mptCond{r.eq(n+": even path flag", r.field(n, role, 0, 0), m.ConstI(int64(base))),
		r.eq(n+": even path padding", r.field(n, role, 0, 1), m.ConstI(0))}
}

func (r *mptRun) path(n, role string, pfx, from, to int) (cs []mptCond) {
	for j := from; j < to; j++ {
		cs = append(cs, r.eq(fmt.Sprintf("%s: path nibble for key nibble %d", n, j), r.field(n, role, 0, pfx+j-from), r.m.ConstI(int64(r.s.key[j]))))
	}
	return
}

func (r *mptRun) twoItem(n, role string, base, pfx, from, to int) []mptCond {
	return append(r.flag(n, role, base, pfx), r.path(n, role, pfx, from, to)...)
}

func (r *mptRun) valueConds() (cs []mptCond) {
	for j := 0; j < r.s.fieldLens("last", "leaf")[1]; j++ {
		cs = append(cs, r.eq(fmt.Sprintf("value nibble %d", j), r.field("last", "leaf", 1, j), r.value[j]))
	}
	return
}

func (r *mptRun) leafConds() []mptCond {
	s := r.s
	if s.kind == "nb" {
		return nil
	}
	cs := []mptCond{{"the last node is a well-formed list", r.okAtom("last", "leaf")}}
	cs = append(cs, r.twoItem("last", "leaf", 2, s.last, s.starts[s.d-1], s.keyLen)...)
	return append(cs, r.valueConds()...)
}

func (r *mptRun) live() {
	if r.abort != nil {
		Failf("%s stops: %v (%s)", r.s.name(), r.abort.Val, r.abort.Pos)
	}
}

func allTrue(e env, css ...[]mptCond) env {
	if e == nil {
		e = env{}
	}
	for _, cs := range css {
		for _, c := range cs {
			e[c.a] = [2]*big.Int{b1, b1}
		}
	}
	return e
}

func (r *mptRun) verdict(e env) (lo, hi *big.Int) {
	lo, hi = newEval(r.m, e).Poly(r.out.P)
	if lo == nil || lo.Cmp(hi) != 0 {
		lo, hi = newWireEval(r.m, e).Wire(r.out)
	}
	if lo == nil || lo.Cmp(hi) != 0 {
		lo, hi = splitEval(r.m, e, r.out, 8)
	}
	return
}

// mustAccept: with e forced the verdict is 1 and nothing is violated.
func (r *mptRun) mustAccept(what string, e env) {
	if v := unsat(r.m, e); v != "" {
		Failf("%s: rejected by %s", what, v)
	}
	lo, hi := r.verdict(e)
	if lo == nil || lo.Cmp(b1) != 0 || hi.Cmp(b1) != 0 {
		Failf("%s: the verdict is %v..%v instead of 1", what, lo, hi)
	}
}

// mustRefuse: with e forced the verdict is 0 or some constraint fails.
func (r *mptRun) mustRefuse(what string, e env) {
	lo, hi := r.verdict(e)
	if lo != nil && lo.Sign() == 0 && hi.Sign() == 0 {
		return
	}
	if unsat(r.m, e) != "" {
		return
	}
	Failf("%s: the verdict is not forced to 0 (%v..%v)", what, lo, hi)
}

// dead: whatever the contents, the shape is refused.
func (r *mptRun) dead(what string) {
	if r.abort != nil || violated(r.m) != "" {
		return
	}
	r.mustRefuse(what, nil)
}

func clone(s *mptScn) *mptScn {
	n := *s
	cp := func(x []int) []int { return append([]int(nil), x...) }
	n.key, n.starts, n.pfx, n.value = cp(s.key), cp(s.starts), cp(s.pfx), s.value
	n.ext = append([]bool(nil), s.ext...)
	n.lens, n.ok = map[string][]int{}, map[string]int{}
	for k, v := range s.lens {
		n.lens[k] = v
	}
	for k, v := range s.ok {
		n.ok[k] = v
	}
	return &n
}

func mptPatterns(d int, ext []int) (ps [][]int) {
	if d == 1 {
		return [][]int{nil}
	}
	for _, p := range mptPatterns(d-1, ext) {
		for _, e := range ext {
			ps = append(ps, append(append([]int(nil), p...), e))
		}
	}
	return
}

// mptSparse lists a few node patterns of a deep path: branches only, one extension at either end, and a long
// extension.
func mptSparse(d int, short bool) (ps [][]int) {
	if d == 1 {
		return [][]int{nil}
	}
	mk := func(at, e int) {
		p := make([]int, d-1)
		if at >= 0 {
			p[at] = e
		}
		ps = append(ps, p)
	}
	mk(-1, 0)
	if short {
		mk(d-2, 1)
	} else {
		mk(d-2, 33)
		mk(0, 50)
	}
	return
}

func runC06(c *Ctx) {
	nShapes := 0
	kinds := []string{"storage", "account", "nb"}
	for _, kind := range kinds {
		Ds := []int{2, 4}
		exts := []int{0, 3, 2}
		if kind == "nb" {
			Ds = []int{3}
			exts = []int{0, 1, 2}
		}
		if c.Thorough {
			Ds = []int{2, 3, 5}
			if kind == "nb" {
				Ds = []int{2, 3, 4}
			}
		}
		full := Ds[len(Ds)-1]
		Ds = append(Ds, 8)
		for _, D := range c.grid(Ds, 2, 12, mptPkg) {
			for d := 1; d <= D; d++ {
				var ps [][]int
				switch {
				case D <= full:
					for pi, p := range mptPatterns(d, exts) {
						if c.Thorough || d <= 2 || (pi+d)%3 == 0 {
							ps = append(ps, p)
						}
					}
				case d >= D-1:
					ps = mptSparse(d, kind == "nb")
					if d < D {
						ps = ps[1:2]
					}
				}
				for pi, p := range ps {
					s := mptShape(kind, D, p, pi+d)
					if s.starts[d-1] > s.keyLen || (kind != "nb" || D > full) && s.starts[d-1] >= s.keyLen {
						continue
					}
					nShapes++
					c.Ob("inclusion", s.name(), func(t *T) {
						r := s.run(t, false, false)
						r.live()
						if v := violated(r.m); v != "" {
							Failf("the honest shape is rejected: %s", v)
						}
						e := env{}
						if kind != "nb" {
							// the value is not the encoding of zero
							e[r.eq("", r.value[0], r.m.ConstI(8)).a] = [2]*big.Int{b0, b0}
						}
						cs := append(r.pathConds(), r.leafConds()...)
						e = allTrue(e, cs)
						r.mustAccept("all conditions hold", e)
						for _, k := range cs {
							f := env{}
							if kind != "nb" {
								f[r.eq("", r.value[0], r.m.ConstI(8)).a] = [2]*big.Int{b0, b0}
							}
							f[k.a] = [2]*big.Int{b0, b0}
							r.mustRefuse("violated: "+k.name, f)
						}
					})
				}
			}
		}
	}
	c.Floor("inclusion", nShapes)
	// malformed shapes
	type bad struct {
		name string
		f    func(s *mptScn)
	}
	for _, kind := range kinds {
		for _, p := range [][]int{{0, 0}, {3, 0}, {0, 2}} {
			if kind == "nb" && p[0] == 3 {
				p = []int{2, 0}
			}
			base := mptShape(kind, 4, p, 5)
			var bads []bad
			add := func(n string, f func(s *mptScn)) { bads = append(bads, bad{n, f}) }
			add("first fragment at 1", func(s *mptScn) {
				for i := range s.starts {
					if s.starts[i] < s.keyLen {
						s.starts[i]++
					}
				}
				s.last = pfxLen(s.keyLen - s.starts[s.d-1])
			})
			for i := 0; i < 2; i++ {
				i := i
				if p[i] == 0 {
					add(fmt.Sprintf("branch %d consumes two nibbles", i), func(s *mptScn) {
						for k := i + 1; k < s.d; k++ {
							s.starts[k]++
						}
						s.last = pfxLen(s.keyLen - s.starts[s.d-1])
					})
					for _, l := range []int{0, 2, 62, 66} {
						l := l
						add(fmt.Sprintf("branch %d references %d nibbles", i, l), func(s *mptScn) {
							b := fills(17, 64)
							b[s.key[s.starts[i]]] = l
							s.lens[fmt.Sprintf("n%d.branch", i)] = b
						})
					}
					add(fmt.Sprintf("branch %d: every other slot empty but the child slot too", i), func(s *mptScn) {
						s.lens[fmt.Sprintf("n%d.branch", i)] = fills(17, 0)
					})
				} else {
					for _, dl := range []int{-2, -1, 1, 2} {
						dl := dl
						add(fmt.Sprintf("extension %d path length %+d", i, dl), func(s *mptScn) {
							s.lens[fmt.Sprintf("n%d.ext", i)] = []int{s.starts[i+1] - s.starts[i] + s.pfx[i] + dl, 64}
						})
					}
					for _, l := range []int{0, 2, 62} {
						l := l
						add(fmt.Sprintf("extension %d references %d nibbles", i, l), func(s *mptScn) {
							s.lens[fmt.Sprintf("n%d.ext", i)] = []int{s.starts[i+1] - s.starts[i] + s.pfx[i], l}
						})
					}
					for _, q := range []int{0, 3} {
						q := q
						add(fmt.Sprintf("extension %d prefix length %d", i, q), func(s *mptScn) {
							s.lens[fmt.Sprintf("n%d.ext", i)] = []int{s.starts[i+1] - s.starts[i] + q, 64}
							s.pfx[i] = q
						})
					}
				}
				add(fmt.Sprintf("fragment %d is empty", i), func(s *mptScn) {
					dl := s.starts[i+1] - s.starts[i]
					for k := i + 1; k < s.d; k++ {
						s.starts[k] -= dl
					}
					s.last = pfxLen(s.keyLen - s.starts[s.d-1])
				})
				add(fmt.Sprintf("fragment %d runs backwards", i), func(s *mptScn) {
					s.starts[i], s.starts[i+1] = s.starts[i+1], s.starts[i]
				})
			}
			add("depth 0", func(s *mptScn) { s.d = 0 })
			if kind != "nb" {
				for _, dl := range []int{-2, -1, 1} {
					dl := dl
					add(fmt.Sprintf("leaf path length %+d", dl), func(s *mptScn) {
						s.lens["last.leaf"] = []int{s.keyLen - s.starts[s.d-1] + s.last + dl, 14}
					})
				}
				for _, q := range []int{0, 3} {
					q := q
					add(fmt.Sprintf("leaf prefix length %d", q), func(s *mptScn) {
						n := s.keyLen - s.starts[s.d-1]
						s.last = q
						s.lens["last.leaf"] = []int{n + q, 14}
					})
				}
			}
			for _, b := range bads {
				b := b
				c.Ob("malformed", fmt.Sprintf("%s: %s", base.name(), b.name), func(t *T) {
					s := clone(base)
					if kind != "nb" {
						s.value = append([]int{10}, fills(s.valueLen()-1, 1)...)
					}
					b.f(s)
					if b.name == "depth 0" {
						s.d = 3
						defer func(n int) { s.d = n }(3)
						x := clone(s)
						x.d = 0
						for _, d := range []int{0, s.D + 1, s.D + 2} {
							y := clone(s)
							y.lens["last.leaf"] = []int{61, 14}
							y.lens["last.ext"] = []int{61, 64}
							for k := 0; k < y.D-1; k++ {
								y.lens[fmt.Sprintf("n%d.ext", k)] = []int{2, 64}
							}
							y.d = d
							y.run(t, false, false).dead(fmt.Sprintf("depth %d", d))
						}
						return
					}
					s.run(t, false, false).dead(b.name)
				})
			}
		}
		// selectors
		c.Ob("selectors", kind, func(t *T) {
			s := mptShape(kind, 3, []int{0, 0}, 9)
			r := s.run(t, true, false)
			r.live()
			if !rejectsOutside(r.m, r.m.Sub(r.depth, r.m.ConstI(1)), s.D) {
				Failf("a depth outside 1..%d is not excluded", s.D)
			}
			r = s.run(t, false, true)
			r.live()
			for i, w := range r.types {
				func() {
					defer func() {
						if x := recover(); x != nil {
							if o, ok := x.(*obFail); ok {
								Failf("node kind %d: %s", i, o.msg)
							}
							panic(x)
						}
					}()
					rejectOrBool(r.m, w, mustAtom(w))
				}()
			}
		})
	}
	// the branch slot is the one the key nibble names
	for nibble := 0; nibble < 16; nibble++ {
		nibble := nibble
		c.Ob("slot", fmt.Sprintf("key nibble %d", nibble), func(t *T) {
			s := mptShape("account", 3, []int{0, 3}, 9)
			s.key[0] = nibble
			r := s.run(t, false, false)
			r.live()
			cs := append(r.pathConds(), r.leafConds()...)
			r.mustAccept("all conditions hold", allTrue(nil, cs))
			for _, k := range cs[64:140] {
				r.mustRefuse("violated: "+k.name, env{k.a: {b0, b0}})
			}
		})
	}
	c.Floor("slot", 16)
	// non-existence
	for _, p := range [][]int{nil, {0}, {3}, {0, 2}} {
		zero := append([]int{8, 0}, fills(64, 0)...)
		base := mptShape("storage", 3, p, 7)
		base.value = zero
		li := base.starts[base.d-1]
		off := func(r *mptRun, roles ...string) env {
			e := env{}
			for _, x := range roles {
				e[r.okAtom("last", x)] = [2]*big.Int{b0, b0}
			}
			return e
		}
		with := func(e env, k mptCond, v int64) env { return force(e, k.a, v) }
		for _, role := range []string{"leaf", "ext"} {
			role := role
			flag := 0
			others := []string{"branch", "leaf"}
			if role == "leaf" {
				flag, others = 2, []string{"branch", "ext"}
			}
			ends := []int{64}
			if role == "ext" {
				ends = []int{64, li + 5, li + 2, li + 1}
			}
			for _, end := range ends {
				end := end
				c.Ob("non-existence", fmt.Sprintf("%s, %s with a path of %d nibbles", base.name(), role, end-li), func(t *T) {
					s := clone(base)
					s.last = pfxLen(end - li)
					s.lens["last."+role] = []int{end - li + s.last, 64}
					if role == "leaf" {
						s.lens["last.leaf"][1] = 14
					}
					r := s.run(t, false, false)
					r.live()
					P := r.pathConds()
					fl := append([]mptCond{{"the last node is a well-formed list", r.okAtom("last", role)}}, r.flag("last", role, flag, s.last)...)
					path := r.path("last", role, s.last, li, end)
					e0 := off(r, others...)
					for _, x := range path {
						e := with(allTrue(with(e0, x, 0), P, fl), x, 0)
						r.mustAccept("the path leaves the key at "+x.name, e)
					}
					for _, k := range append(append([]mptCond(nil), P...), fl...) {
						r.mustRefuse("absence although violated: "+k.name, with(e0, k, 0))
					}
					e := allTrue(off(r, others...), path)
					if role == "leaf" {
						e = with(e, r.valueConds()[0], 0)
					}
					r.mustRefuse("absence of a key that follows the path of the last node", e)
				})
			}
		}
		for nibble := 0; nibble < 16; nibble++ {
			if !c.Thorough && nibble%5 != 0 && len(p) != 1 {
				continue
			}
			nibble := nibble
			c.Ob("non-existence", fmt.Sprintf("%s, branch slot %d", base.name(), nibble), func(t *T) {
				s := clone(base)
				s.key[li] = nibble
				b := fills(17, 64)
				b[nibble], b[16] = 0, 0
				s.lens["last.branch"] = b
				r := s.run(t, false, false)
				r.live()
				P := r.pathConds()
				wf := mptCond{"the last node is a well-formed branch", r.okAtom("last", "branch")}
				e0 := off(r, "leaf", "ext")
				e := allTrue(off(r, "leaf", "ext"), P, []mptCond{wf})
				r.mustAccept("the slot is empty", e)
				for _, k := range append([]mptCond{wf}, P...) {
					r.mustRefuse("absence although violated: "+k.name, with(e0, k, 0))
				}
				for _, l := range []int{2, 64} {
					x := clone(s)
					b := fills(17, 0)
					b[nibble] = l
					x.lens["last.branch"] = b
					y := x.run(t, false, false)
					if y.abort != nil || violated(y.m) != "" {
						continue
					}
					y.mustRefuse(fmt.Sprintf("absence although the slot holds %d nibbles", l), off(y, "leaf", "ext"))
				}
			})
		}
		// an absent slot holds zero: any other value needs inclusion
		for pos := 0; pos < 66; pos++ {
			if !c.Thorough && pos > 3 && pos < 64 && pos%11 != 0 {
				continue
			}
			pos := pos
			c.Ob("non-existence", fmt.Sprintf("%s, value differs from zero at nibble %d", base.name(), pos), func(t *T) {
				s := clone(base)
				s.value = append([]int(nil), zero...)
				s.value[pos] ^= 3
				s.lens["last.branch"] = append(fills(16, 0), 0)
				r := s.run(t, false, false)
				r.live()
				for _, k := range r.leafConds() {
					r.mustRefuse("non-zero value although violated: "+k.name, env{k.a: {b0, b0}})
				}
			})
		}
	}
	c.Floor("non-existence", 20)
	c.Assume = append(c.Assume, "rlp.(*ArrayCheck).RlpArrayCheck decides well-formedness and returns the items of the list in its input (C05); rlp.Keccak256AsNibbles is Keccak-256 of the absorbed blocks (C08) and collision resistant; a node that references a 32-byte hash is at least 66 nibbles long, so its own reference is a hash")
}
