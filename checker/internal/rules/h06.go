package rules

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"

	"zkcheck/internal/ai"
	"zkcheck/internal/flow"
)

func h06Models(e *flow.Engine) {
	e.Over["common/utils.DecomposeBits"] = func(e *flow.Engine, st *flow.State, cl *flow.Call) bool {
		cl.Result = []*flow.Term{e.T("call", "bits", cl.Sig.Results().At(0).Type(), e.BigVal(st, cl.Args[0]), cl.Args[1])}
		return true
	}
	e.Over["common/utils.ParseBytes32"] = opaquePure("halves")
	e.Over["common/utils.Byte32ToFrBits"] = opaquePure("halfbits")
	e.Over["common/utils.PackBitsToInt"] = opaquePure("pack")
}

// h06Text names the bytes a text was decoded to.
func h06Bytes(e *flow.Engine, f *ssa.Function, p *flow.Path, t *flow.Term) string {
	if t.Op == "seq" && len(t.Args) == 1 && t.Args[0].Op == "sp" {
		return h06Bytes(e, f, p, t.Args[0].Args[0])
	}
	if t.Op == "subslice" {
		lo, ok1 := flow.ConstInt(t.Args[1])
		hi, ok2 := flow.ConstInt(t.Args[2])
		b := h06Bytes(e, f, p, t.Args[0])
		if ok1 && ok2 && b[0] != '?' {
			return fmt.Sprintf("%s[%d:%d]", b, lo, hi)
		}
		return "?" + t.String()
	}
	n, a, i, ok := flow.CallOf(t)
	if ok && i == 0 {
		switch {
		case strings.HasSuffix(n, "hexutil.Decode"):
			if pl := place(f, a[0]); pl != "" {
				return "hex " + pl
			}
		case strings.HasSuffix(n, "encoding/hex.DecodeString"):
			// the digits, with or without an optional prefix and a leading zero
			s := a[0]
			if s.Op == "seq" && len(s.Args) == 2 {
				if k, ok := flow.ConstStr(s.Args[0].Args[0]); ok && k == "0" {
					s = s.Args[1].Args[0]
				}
			}
			if s.Op == "subslice" {
				lo, _ := flow.ConstInt(s.Args[1])
				pre, known := prefixed(e, p, s.Args[0])
				if lo != 2 || !known || !pre {
					return "?" + t.String()
				}
				s = s.Args[0]
			}
			if pl := place(f, s); pl != "" {
				return "hex " + pl
			}
		case strings.HasSuffix(n, "big.Int).Bytes"):
			v := e.BigVal(p.State, a[0])
			w := h06Int(e, f, p, v)
			// the sign is lost in the bytes
			sg := e.T("call", "(*math/big.Int).Sign", nil, v)
			neg := true
			for _, x := range p.Facts {
				flow.Walk(x.Cond, func(y *flow.Term) bool {
					if n, b, _, ok := flow.CallOf(y); ok && strings.HasSuffix(n, "big.Int).Sign") && b[0] == v {
						sg = y
						return false
					}
					return true
				})
			}
			if lo, _ := p.Range(sg); lo >= 0 {
				neg = false
			}
			if v, k := p.Truth(e.Lt(sg, e.Int(0))); k && !v {
				neg = false
			}
			if neg {
				return "?a value of lost sign " + w
			}
			return w
		}
	}
	return "?" + t.String()
}

// h06Int names an integer.
func h06Int(e *flow.Engine, f *ssa.Function, p *flow.Path, v *flow.Term) string {
	n, a, _, ok := flow.CallOf(v)
	if !ok {
		return "?" + v.String()
	}
	switch {
	case n == "zero":
		return "const 0"
	case n == "SetString":
		base, _ := flow.ConstInt(a[1])
		if pl := place(f, a[0]); pl != "" && (base == 0 || base == 10) {
			return fmt.Sprintf("base%d %s", base, pl)
		}
	case n == "SetBytes":
		return h06Bytes(e, f, p, a[0])
	case n == "SetUint64" || n == "SetInt64" || strings.HasSuffix(n, "math/big.NewInt"):
		x := a[0]
		for x.Op == "mkiface" || x.Op == "ta" || x.Op == "conv" && !narrows(x) {
			x = x.Args[0]
		}
		if k, ok := flow.ConstInt(x); ok {
			return fmt.Sprintf("const %d", k)
		}
		if n == "SetUint64" && x.Op != "conv" {
			if pl := place(f, x); pl != "" {
				return "int " + pl
			}
		}
	}
	return "?" + v.String()
}

// h06Chunks: the chunks a bit list is made of.
func h06Chunks(e *flow.Engine, f *ssa.Function, p *flow.Path, t *flow.Term) []string {
	switch t.Op {
	case "nil":
		return nil
	case "seq":
		var out []string
		for _, a := range t.Args {
			if a.Op != "sp" {
				return append(out, "?"+a.String())
			}
			out = append(out, h06Chunks(e, f, p, a.Args[0])...)
		}
		return out
	}
	n, a, _, ok := flow.CallOf(t)
	switch {
	case ok && n == "bits":
		if w, known := flow.ConstInt(a[1]); known {
			return []string{fmt.Sprintf("%d %s", w, h06Int(e, f, p, a[0]))}
		}
	case ok && n == "halfbits":
		m, b, _, ok := flow.CallOf(a[0])
		x, k1 := flow.ConstInt(a[1])
		if ok && m == "halves" {
			y, k2 := flow.ConstInt(b[1])
			if k1 && k2 && x == y && x > 0 && x < 256 {
				return []string{"256 " + h06Bytes(e, f, p, b[0])}
			}
		}
	}
	return []string{"?" + t.String()}
}

// h06Packed: the hashed word is the i-th packed integer; its list.
func h06Packed(e *flow.Engine, p *flow.Path, t *flow.Term) (*flow.Term, int64) {
	v := t
	if t.Op == "obj" {
		v = e.BigVal(p.State, t)
	}
	for k := 0; k < 8; k++ {
		if n, a, _, ok := flow.CallOf(v); ok {
			switch {
			case n == "SetBytes" || n == "Set" || strings.HasSuffix(n, "big.Int).Bytes"):
				v = a[0]
				continue
			case strings.HasSuffix(n, "common.LeftPadBytes"):
				v = a[0]
				continue
			case n == "pack":
			}
		}
		if v.Op == "seq" && len(v.Args) == 1 && v.Args[0].Op == "sp" {
			v = v.Args[0].Args[0]
			continue
		}
		if v.Op == "obj" {
			if w := e.BigVal(p.State, v); w != v {
				v = w
				continue
			}
		}
		if v.Op == "load" {
			v = v.Args[0]
			continue
		}
		break
	}
	if v.Op == "iaddr" || v.Op == "index" {
		if k, ok := flow.ConstInt(v.Args[1]); ok {
			if n, _, _, ok := flow.CallOf(v.Args[0]); ok && n == "pack" {
				return v.Args[0], k
			}
		}
	}
	return nil, 0
}

// fieldAt finds the term of a place read on the path.
func boolAt(f *ssa.Function, p *flow.Path, pl string) (val, known bool) {
	for _, x := range p.Facts {
		c, v := x.Cond, x.Val
		for c.Op == "not" {
			c, v = c.Args[0], !v
		}
		if place(f, c) == pl {
			return v, true
		}
	}
	return false, false
}

func init() {
	register("H06", "Path-sensitive provenance of the hashed words: on every returning path the words given to the hash are the consecutive packed integers of one bit list, complete and in order, and the bit list is the expected sequence of (width, field) chunks; the bit and packing helpers themselves are decided by abstract interpretation on symbolic bits (including refusal of values that do not fit).", func(c *Ctx) {
		head := []string{"32 int $0.BlockNumber", "128 base0 $0.BlockBaseFee"}
		tail := []string{"64 int $0.BlockTime"}
		h06One(c, "MiMCHashTxCustomInputs", func(f *ssa.Function, p *flow.Path) []string {
			return cat(head, []string{"32 base0 $0.MPTKey", "256 hex $0.LeafHash"}, tail)
		})
		h06One(c, "MiMCHashStorageCustomInputs", func(f *ssa.Function, p *flow.Path) []string {
			return cat(head, []string{"160 base0 $0.AccountAddress", "256 hex $0.Slot", "256 base10 $0.SlotValue"}, tail)
		})
		h06One(c, "MiMCHashReceiptCustomInputs", func(f *ssa.Function, p *flow.Path) []string {
			w := cat(head, []string{"32 base0 $0.MPTKey"})
			for i := 0; i < decidedLen(f, p, "$0.LogExtractInfos"); i++ {
				l := fmt.Sprintf("$0.LogExtractInfos[%d].", i)
				flag := "1 const 0"
				if v, known := boolAt(f, p, l+"ValueFromTopic"); known && v {
					flag = "1 const 1"
				} else if !known {
					flag = "the flag " + l + "ValueFromTopic"
				}
				w = append(w, "160 hex "+l+"ContractAddress", "16 int "+l+"LogIndex", "48 hex "+l+"LogTopic0[0:6]", flag, "7 int "+l+"ValueIndex", "256 hex "+l+"Value")
			}
			return cat(w, tail)
		})
		hostPacking(c)
		for n := 0; n <= 34; n++ {
			n := n
			c.Ob("slot", fmt.Sprintf("GetPaddedSlotBytes %d bytes", n), func(t *T) {
				m := t.M(ai.BN254Fr)
				in := symBytes(m, "d", n)
				before := append(ai.Slice(nil), in...)
				m.Over["common/utils.Hex2Bytes"] = func(m *ai.Machine, cl *ai.Call) ai.Value { return in }
				if n > 32 {
					mustPanic(t, m, "common/proof", "GetPaddedSlotBytes", "more than 32 bytes", "")
					return
				}
				got := asSlice(t.Run(m, "common/proof", "GetPaddedSlotBytes", ""))
				mustLen("slot", len(got), 32)
				for i := range got {
					want := m.Z.Int(0)
					if i >= 32-n {
						want = m.HPoly(before[i-(32-n)])
					}
					mustEq(m, fmt.Sprintf("byte %d", i), m.HPoly(got[i]), want)
				}
			})
		}
		c.Floor("slot", 35)
		c.Floor("packing", 15)
		c.Floor("host-bits", 14)
	})
}

func cat(ls ...[]string) []string {
	var out []string
	for _, l := range ls {
		out = append(out, l...)
	}
	return out
}

func h06One(c *Ctx, name string, want func(f *ssa.Function, p *flow.Path) []string) {
	f := aiFind(c, "common/proof", name)
	if f == nil {
		c.Fail("anchor", name, "not found")
		return
	}
	e := flow.New(c.Prog)
	h06Models(e)
	ps := e.Explore(f)
	c.sawFlow(e, ps)
	bad, good, lens := "", 0, map[int]bool{}
	for _, p := range ps {
		m := ""
		switch p.Kind {
		case "undecided":
			m = "undecided: " + p.Note
		case "return":
			if n, known := p.Nil(p.Results[1]); known && !n {
				break
			}
			good++
			m = func() string {
				var h *flow.Event
				for _, ev := range p.Events {
					if strings.HasSuffix(ev.Name, "poseidon.Hash") {
						if h != nil {
							return "hashed twice"
						}
						h = ev
					}
				}
				if h == nil {
					return "success without hashing"
				}
				if n, known := p.Nil(h.Err); !(known && n) {
					return "success although hashing may have failed"
				}
				r := p.Results[0]
				if n, a, _, ok := flow.CallOf(r); !ok || !strings.HasSuffix(n, "big.Int).Bytes") || a[0] != h.Results[0] && e.BigVal(p.State, h.Results[0]) != a[0] {
					return "the result is " + clip(r.String()) + ", not the hash"
				}
				in := h.Args[0]
				if len(h.Deref) > 0 && h.Deref[0] != nil {
					in = h.Deref[0]
				}
				var list *flow.Term
				k := 0
				for _, w := range e.Parts(p.State, in) {
					if w.Op == "sp" {
						if n, _, _, ok := flow.CallOf(w.Args[0]); ok && n == "pack" && k == 0 {
							list, k = w.Args[0], -1
							continue
						}
						return "words " + clip(w.String()) + " are hashed"
					}
					l, i := h06Packed(e, p, w.Args[0])
					if l == nil || list != nil && l != list || int64(k) != i {
						return fmt.Sprintf("word %d is %s, not the next packed integer", k, clip(e.BigVal(p.State, w.Args[0]).String()))
					}
					list = l
					k++
				}
				if list == nil && k == 0 {
					// no words: the packed list was empty
					for _, x := range p.Facts {
						flow.Walk(x.Cond, func(y *flow.Term) bool {
							if n, _, _, ok := flow.CallOf(y); ok && n == "pack" {
								list = y
							}
							return list == nil
						})
					}
				}
				if list == nil {
					return "nothing is hashed"
				}
				if k >= 0 {
					if lo, hi := p.Range(e.Len(p.State, list)); lo != hi || int(lo) != k {
						return fmt.Sprintf("%d words are hashed of %d or more", k, lo)
					}
				}
				_, a, _, _ := flow.CallOf(list)
				if n := decidedLen(f, p, "$0.LogExtractInfos"); n >= 0 {
					lens[n] = true
				}
				return strings.ReplaceAll(eqWords(h06Chunks(e, f, p, a[0]), want(f, p)), "word", "chunk")
			}()
		}
		if m != "" && bad == "" {
			bad = m + "; " + pathTrace(c, p)
		}
	}
	if bad == "" && good == 0 {
		bad = "no path succeeds"
	}
	if bad == "" && strings.Contains(name, "Receipt") && len(lens) < 3 {
		bad = "the list of logs is not followed"
	}
	c.Check("layout", flow.Name(f), bad == "", bad)
}
