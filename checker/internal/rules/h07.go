package rules

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"zkcheck/internal/flow"
)

// place renders where a value was read from: the path of fields and constant
// indexes from a parameter ("" when it is not such a place).
func place(f *ssa.Function, t *flow.Term) string {
	switch t.Op {
	case "conv":
		if narrows(t) {
			return ""
		}
		return place(f, t.Args[0])
	case "load", "ta", "mkiface":
		return place(f, t.Args[0])
	case "faddr", "field":
		if b := place(f, t.Args[0]); b != "" {
			return b + "." + t.Str
		}
	case "iaddr", "index":
		k, ok := flow.ConstInt(t.Args[1])
		if b := place(f, t.Args[0]); b != "" && ok {
			return fmt.Sprintf("%s[%d]", b, k)
		}
	case "param":
		for i := range f.Params {
			if paramNamed(f, t, i) {
				return fmt.Sprintf("$%d", i)
			}
		}
	case "ret":
		if t.Idx == 0 {
			return place(f, t.Args[0])
		}
	}
	return ""
}

// narrows: an integer conversion that can change the value.
func narrows(t *flow.Term) bool {
	rank := func(ty types.Type) (bits int, signed, ok bool) {
		if ty == nil {
			return
		}
		b, is := ty.Underlying().(*types.Basic)
		if !is || b.Info()&types.IsInteger == 0 {
			return
		}
		signed = b.Info()&types.IsUnsigned == 0
		switch b.Kind() {
		case types.Int8, types.Uint8:
			bits = 8
		case types.Int16, types.Uint16:
			bits = 16
		case types.Int32, types.Uint32:
			bits = 32
		default:
			bits = 64
		}
		return bits, signed, true
	}
	tb, ts, ok1 := rank(t.Typ)
	fb, fs, ok2 := rank(t.Args[0].Typ)
	if !ok1 {
		return false
	}
	if !ok2 {
		return t.Args[0].Op != "const"
	}
	switch {
	case ts == fs:
		return tb < fb
	case ts:
		return tb <= fb
	}
	return true
}

const bn254Elem = "gnark-crypto/ecc/bn254/fp.Element)."

// elementModels: reading a coordinate yields its canonical integer.
func elementModels(e *flow.Engine) {
	full := "(*github.com/consensys/" + bn254Elem + "BigInt"
	e.Over[full] = func(e *flow.Engine, st *flow.State, cl *flow.Call) bool {
		v := e.T("big", "regular", nil, e.Contents(st, cl.Args[0]))
		st.Set(cl.Args[1], v)
		cl.Result = []*flow.Term{cl.Args[1]}
		return true
	}
	e.Over["("+full[2:]] = e.Over[full]
}

func hexModels(e *flow.Engine) {
	for _, n := range []string{"Hex2Bytes", "Pad32Bytes"} {
		e.Over["common/utils."+n] = opaquePure(n)
	}
}

// bigWord names the integer a big.Int holds.
func bigWord(e *flow.Engine, f *ssa.Function, st *flow.State, t *flow.Term) string {
	v := e.BigVal(st, t)
	n, a, _, ok := flow.CallOf(v)
	if !ok {
		if p := place(f, v); p != "" {
			return "int " + p
		}
		return "?" + v.String()
	}
	switch {
	case n == "zero":
		return "0"
	case n == "SetBytes":
		return bytesWord(e, f, st, a[0])
	case n == "regular":
		return "coordinate " + place(f, a[0])
	case n == "SetUint64" || n == "SetInt64" || strings.HasSuffix(n, "math/big.NewInt"):
		x := a[0]
		if k, ok := flow.ConstInt(x); ok && k == 0 {
			return "0"
		}
		if n == "SetUint64" && x.Op != "conv" {
			return "int " + place(f, x)
		}
	}
	return "?" + v.String()
}

// bytesWord names the integer a byte string spells.
func bytesWord(e *flow.Engine, f *ssa.Function, st *flow.State, t *flow.Term) string {
	if t.Op == "nil" || t.Op == "seq" && len(t.Args) == 0 {
		return "0"
	}
	if t.Op == "seq" && len(t.Args) == 1 && t.Args[0].Op == "sp" {
		return bytesWord(e, f, st, t.Args[0].Args[0])
	}
	n, a, i, ok := flow.CallOf(t)
	if ok && i == 0 {
		switch {
		case n == "Hex2Bytes" || strings.HasSuffix(n, "common.FromHex"):
			return "hex " + place(f, a[0])
		case strings.HasSuffix(n, "common.HexToHash"):
			return "hash " + place(f, a[0])
		case strings.HasSuffix(n, "big.Int).Bytes"):
			return bigWord(e, f, st, a[0])
		case strings.HasSuffix(n, "common.Hash).Bytes"), strings.HasSuffix(n, "common.BytesToHash"):
			return bytesWord(e, f, st, a[0])
		}
	}
	if t.Op == "slice" || t.Op == "subslice" {
		b := bytesWord(e, f, st, t.Args[0])
		if strings.HasPrefix(b, "hash ") {
			lo, ok1 := flow.ConstInt(t.Args[1])
			hi, ok2 := flow.ConstInt(t.Args[2])
			if t.Args[2].Op == "nil" || !ok2 {
				if l, ok := flow.CallOf2(t.Args[2], "len"); ok && l == t.Args[0] {
					hi, ok2 = 32, true
				}
			}
			if ok1 && ok2 {
				return fmt.Sprintf("%s[%d:%d]", b, lo, hi)
			}
		}
	}
	// consecutive bytes of one value
	if t.Op == "seq" {
		base, first := "", int64(0)
		for i, p := range t.Args {
			x := p.Args[0]
			if p.Op != "el" || x.Op != "index" {
				return "?" + t.String()
			}
			k, ok := flow.ConstInt(x.Args[1])
			b := bytesWord(e, f, st, x.Args[0])
			if i == 0 {
				base, first = b, k
			}
			if !ok || b != base || k != first+int64(i) || !strings.HasPrefix(b, "hash ") {
				return "?" + t.String()
			}
		}
		return fmt.Sprintf("%s[%d:%d]", base, first, first+int64(len(t.Args)))
	}
	if t.Op == "obj" {
		if c := e.Contents(st, t); c != t {
			return bytesWord(e, f, st, c)
		}
	}
	return "?" + t.String()
}

func h07Explore(c *Ctx, pkg, name string, opts ...func(*flow.Engine)) (*ssa.Function, *flow.Engine, []*flow.Path) {
	f := aiFind(c, pkg, name)
	if f == nil {
		c.Fail("order", name, "anchor not found")
		return nil, nil, nil
	}
	e := flow.New(c.Prog)
	hexModels(e)
	elementModels(e)
	for _, o := range opts {
		o(e)
	}
	ps := e.Explore(f)
	c.sawFlow(e, ps)
	return f, e, ps
}

// leaves flattens nested arrays of values.
func leaves(t *flow.Term) []*flow.Term {
	if t.Op == "array" {
		var out []*flow.Term
		for _, a := range t.Args {
			out = append(out, leaves(a)...)
		}
		return out
	}
	return []*flow.Term{t}
}

func eqWords(got, want []string) string {
	for i := range want {
		if i >= len(got) {
			return fmt.Sprintf("word %d (%s) is missing", i, want[i])
		}
		if got[i] != want[i] {
			return fmt.Sprintf("word %d is %s instead of %s", i, clip(got[i]), want[i])
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf("%d words instead of %d", len(got), len(want))
	}
	return ""
}

func init() {
	register("H07", "Provenance of every exported word: on every path of every exporter the sequence of words is computed as terms over the proof's fields and compared, place by place, with the order the verifier expects; binary words are additionally tied to the 32-byte padding helper.", func(c *Ctx) {
		coords := func(root string) []string {
			w := func(s string) string { return "coordinate " + root + s }
			return []string{w(".Ar.X"), w(".Ar.Y"), w(".Bs.X.A1"), w(".Bs.X.A0"), w(".Bs.Y.A1"), w(".Bs.Y.A0"), w(".Krs.X"), w(".Krs.Y"),
				w(".Commitments[0].X"), w(".Commitments[0].Y"), w(".CommitmentPok.X"), w(".CommitmentPok.Y")}
		}
		hexes := func(root string, n int) []string {
			w := []string{}
			for _, s := range []string{".A[0]", ".A[1]", ".B[0][0]", ".B[0][1]", ".B[1][0]", ".B[1][1]", ".C[0]", ".C[1]", ".Commitment[0]", ".Commitment[1]", ".CommitmentPok[0]", ".CommitmentPok[1]"}[:n] {
				w = append(w, "hex "+root+s)
			}
			return w
		}
		// results as big integers
		bigs := func(pkg, name string, want []string) {
			f, e, ps := h07Explore(c, pkg, name)
			if f == nil {
				return
			}
			bad, good := "", 0
			for _, p := range ps {
				if p.Kind != "return" {
					if p.Kind == "undecided" || p.Kind == "truncated" {
						bad = p.Kind + ": " + p.Note
					}
					continue
				}
				good++
				var got []string
				for _, r := range p.Results {
					for _, x := range leaves(r) {
						got = append(got, bigWord(e, f, p.State, x))
					}
				}
				if m := eqWords(got, want); m != "" && bad == "" {
					bad = m + "; " + pathTrace(c, p)
				}
			}
			if good == 0 && bad == "" {
				bad = "no path returns"
			}
			c.Check("order", flow.Name(f), bad == "", bad)
		}
		bigs("common/utils", "ExportProof", coords("$0"))
		bigs("common/proof", "Groth16Proof.AsBigInts", hexes("$0", 12))
		bigs("common/proof", "SigProof.GetCommitment", []string{"hex $0.CommitmentPub"})
		// results as structures with the four point groups
		fields := func(name, root string) {
			f, e, ps := h07Explore(c, "common/proof", name)
			if f == nil {
				return
			}
			bad, good := "", 0
			for _, p := range ps {
				if p.Kind != "return" {
					if p.Kind == "undecided" || p.Kind == "truncated" {
						bad = p.Kind + ": " + p.Note
					}
					continue
				}
				good++
				want := hexes(root, 10)
				if isPtr(f.Params[0].Type()) {
					if n, known := p.Nil(e.Param(f.Params[0].Name(), f.Params[0].Type())); known && n {
						want = strings.Split(strings.Repeat("0,", 9)+"0", ",")
					} else if !known {
						bad = "the proof may be nil at " + c.at(p)
					}
				}
				var got []string
				for _, n := range []string{"A", "B", "C", "Commitment"} {
					v := e.FieldOfValue(p.Results[0], f.Signature.Results().At(0).Type(), n)
					if v == nil {
						got = append(got, "no field "+n)
						continue
					}
					for _, x := range leaves(v) {
						got = append(got, bigWord(e, f, p.State, x))
					}
				}
				if m := eqWords(got, want); m != "" && bad == "" {
					bad = m + "; " + pathTrace(c, p)
				}
			}
			if good == 0 && bad == "" {
				bad = "no path returns"
			}
			c.Check("order", flow.Name(f), bad == "", bad)
		}
		fields("Groth16Proof.OnChainProof", "$0")
		fields("Groth16Proof.BeaconProof", "$0")
		fields("CommitteeSszMappingProof.GetProof", "$0.Proof")
		for _, g := range [][2]string{{"SMTUpdateProof.GetOldSmtRoot", "OldSmtRoot"}, {"SMTUpdateProof.GetNewSmtRoot", "NewSmtRoot"}, {"SMTUpdateProof.GetEndBlockHash", "EndBlockHash"},
			{"SMTUpdateProof.GetNextChunkMerkleRoot", "NextChunkMerkleRoot"}, {"SMTUpdateProof.GetCommitmentPub", "CommitmentPub"}, {"SigProof.GetPoseidonRoot", "PoseidonRoot"}} {
			f, e, ps := h07Explore(c, "common/proof", g[0])
			if f == nil {
				continue
			}
			bad, good := "", 0
			for _, p := range ps {
				if p.Kind != "return" {
					continue
				}
				good++
				if w := bytesWord(e, f, p.State, flow.Strip(p.Results[0])); w != "hash $0."+g[1] {
					bad = fmt.Sprintf("the result is %s", clip(w))
				}
			}
			if good == 0 {
				bad = "no path returns"
			}
			c.Check("public-input", flow.Name(f), bad == "", bad)
		}
		h07ABI(c, hexes)
		h07Text(c, coords)
	})
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

func h07ABI(c *Ctx, hexes func(string, int) []string) {
	f, e, ps := h07Explore(c, "common/proof", "ChunkProof.EncodeABI")
	if f == nil {
		return
	}
	want := append(hexes("$0.Proof", 8), "0", "0")
	for _, n := range []string{"ChunkRoot", "PrevHash", "EndHash"} {
		want = append(want, "hash $0."+n+"[0:16]", "hash $0."+n+"[16:32]")
	}
	want = append(want, "int $0.StartBlockNum", "int $0.EndBlockNum")
	bad, wide, good := "", "", 0
	for _, p := range ps {
		if p.Kind != "return" {
			if p.Kind == "undecided" || p.Kind == "truncated" {
				bad = p.Kind + ": " + p.Note
			}
			continue
		}
		good++
		var got []string
		for _, x := range flatBytes(p.Results[0]) {
			if x.Op == "sp" {
				x = x.Args[0]
			}
			w, v := wordOf(e, f, p.State, x)
			if v == nil && wide == "" {
				wide = fmt.Sprintf("%s is not a 32-byte word", clip(x.String()))
			}
			got = append(got, w)
		}
		if m := eqWords(got, want); m != "" && bad == "" {
			bad = m + "; " + pathTrace(c, p)
		}
	}
	if good == 0 && bad == "" {
		bad = "no path returns"
	}
	c.Check("order", flow.Name(f), bad == "", bad)
	c.Check("word-width", flow.Name(f), wide == "", wide)
	c.Assume = append(c.Assume, "Pad32Bytes left-pads to 32 bytes and refuses longer input (decided by H09)")
}

// wordOf names a 32-byte word; the second result is nil when it may have
// another width.
func wordOf(e *flow.Engine, f *ssa.Function, st *flow.State, x *flow.Term) (string, *flow.Term) {
	n, a, _, ok := flow.CallOf(x)
	if ok && n == "Pad32Bytes" {
		return bytesWord(e, f, st, a[0]), x
	}
	if x.Op == "FillBytes" {
		if k, ok := flow.ConstInt(x.Args[1]); ok && k == 32 {
			return bigWord(e, f, st, x.Args[0]), x
		}
	}
	if ok && strings.HasSuffix(n, "common.LeftPadBytes") {
		w := bytesWord(e, f, st, a[0])
		if k, ok := flow.ConstInt(a[1]); ok && k == 32 && !strings.HasPrefix(w, "hex ") {
			return w, x
		}
		return w, nil
	}
	w := bytesWord(e, f, st, x)
	if strings.HasPrefix(w, "hash ") && !strings.HasSuffix(w, "]") {
		return w, x
	}
	return w, nil
}

func h07Text(c *Ctx, coords func(string) []string) {
	f, e, ps := h07Explore(c, "common/proof", "ZKSDKAggPubInputs.GenerateBatchProofAndPublicInputs")
	if f == nil {
		return
	}
	want := coords("$1")
	for _, s := range []string{"QueryId", "SMTRoot[0]", "SMTRoot[1]", "AggVkHash", "OutputCommit[0]", "OutputCommit[1]", "AppVkHash"} {
		want = append(want, "text $0."+s)
	}
	bad, good := "", 0
	for _, p := range ps {
		if p.Kind != "return" {
			if p.Kind == "undecided" || p.Kind == "truncated" {
				bad = p.Kind + ": " + p.Note
			}
			continue
		}
		good++
		var got []string
		cur := ""
		for _, x := range flatBytes(p.Results[0]) {
			if x.Op == "sp" {
				x = x.Args[0]
			}
			if s, ok := flow.ConstStr(x); ok {
				for _, ch := range s {
					if ch == ',' {
						got = append(got, cur)
						cur = ""
						continue
					}
					cur += string(ch)
				}
				continue
			}
			cur += textOf(e, f, p.State, x)
		}
		if cur != "" {
			got = append(got, "unterminated "+cur)
		}
		for i := range got {
			got[i] = strings.TrimPrefix(got[i], "0x~")
		}
		if m := eqWords(got, want); m != "" && bad == "" {
			bad = m + "; " + pathTrace(c, p)
		}
	}
	if good == 0 && bad == "" {
		bad = "no path returns"
	}
	c.Check("order", flow.Name(f), bad == "", bad)
}

// textOf names a piece of text; digits without their prefix start with "~".
func textOf(e *flow.Engine, f *ssa.Function, st *flow.State, x *flow.Term) string {
	if p := place(f, x); p != "" {
		return "text " + p
	}
	n, a, i, ok := flow.CallOf(x)
	if ok && i == 0 {
		switch {
		case strings.HasSuffix(n, "hexutil.Encode"):
			return digits(e, f, st, a[0])
		case strings.HasSuffix(n, "hex.EncodeToString"):
			return "~" + digits(e, f, st, a[0])
		}
	}
	return "?" + x.String()
}

func digits(e *flow.Engine, f *ssa.Function, st *flow.State, b *flow.Term) string {
	if w, v := wordOf(e, f, st, b); v != nil {
		return w
	}
	return bytesWord(e, f, st, b)
}
