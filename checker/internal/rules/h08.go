package rules

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"zkcheck/internal/ai"
	"zkcheck/internal/flow"
)

// keyComponents lists the leaves of a verifying key type as places. Lists of
// undetermined length appear as "place[]"; data derived from other components
// (precomputed lines) is left out.
func keyComponents(root string, t types.Type) []string {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var out []string
		for i := 0; i < u.NumFields(); i++ {
			fl := u.Field(i)
			if fl.Name() == "Lines" {
				continue
			}
			if n := namedOf(t); n != nil && n.Obj().Name() == "Element" && fl.Name() != "Limbs" {
				continue
			}
			out = append(out, keyComponents(root+"."+fl.Name(), fl.Type())...)
		}
		return out
	case *types.Array:
		var out []string
		for i := int64(0); i < u.Len(); i++ {
			out = append(out, keyComponents(fmt.Sprintf("%s[%d]", root, i), u.Elem())...)
		}
		return out
	case *types.Slice:
		return []string{root + "[]"}
	}
	return []string{root}
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

func short(pl string) string {
	for _, s := range []string{"$0.BaseVerifyingKey.", "$0.CircuitVerifyingKey."} {
		pl = strings.TrimPrefix(pl, s)
	}
	return strings.ReplaceAll(pl, ".G1El", "")
}

// mimcWrites: the data absorbed by the hasher whose sum is returned.
func mimcWrites(e *flow.Engine, p *flow.Path, pkg string) ([]*flow.Term, string) {
	var made, sum *flow.Event
	var data []*flow.Term
	for _, ev := range p.Events {
		switch {
		case ev.Kind != "call":
		case strings.HasSuffix(ev.Name, pkg+".NewMiMC"):
			if made != nil {
				return nil, "two hashers are made"
			}
			made = ev
		case strings.Contains(ev.Name, "hash.Hash") || strings.Contains(ev.Name, "hash.StateStorer"):
			if made == nil || len(ev.Args) == 0 || flow.Strip(ev.Args[0]) != flow.Strip(made.Results[0]) {
				return nil, "an unknown hasher is used"
			}
			switch ev.Name[strings.LastIndex(ev.Name, ".")+1:] {
			case "Write":
				if sum != nil {
					return nil, "data is absorbed after the sum was taken"
				}
				d := ev.Args[1]
				if len(ev.Deref) > 1 && ev.Deref[1] != nil {
					d = ev.Deref[1]
				}
				data = append(data, d)
			case "Sum":
				sum = ev
			case "BlockSize", "Size":
			case "Reset":
				data = nil
			default:
				return nil, "the hasher is used by " + ev.Name
			}
		}
	}
	if sum == nil || len(p.Results) == 0 || p.Results[0] != sum.Results[0] {
		return nil, "the result is not the hasher's sum"
	}
	if a := sum.Args[1]; a.Op != "nil" && !(a.Op == "seq" && len(a.Args) == 0) {
		return nil, "the sum is appended to " + a.String()
	}
	return data, ""
}

// chunks splits absorbed data into pieces of known width.
func h08Chunk(e *flow.Engine, f *ssa.Function, p *flow.Path, t *flow.Term) []string {
	switch t.Op {
	case "nil":
		return nil
	case "seq":
		var out []string
		for _, a := range t.Args {
			if a.Op != "sp" {
				return []string{"?" + a.String()}
			}
			out = append(out, h08Chunk(e, f, p, a.Args[0])...)
		}
		return out
	case "obj":
		if c := e.Contents(p.State, t); c != t {
			return h08Chunk(e, f, p, c)
		}
	}
	if t.Op == "FillBytes" {
		w, known := flow.ConstInt(t.Args[1])
		x := t.Args[0]
		if n, b, _, ok := flow.CallOf(x); ok && n == "SetUint64" && b[0].Op != "conv" {
			x = b[0]
		}
		if pl := place(f, x); known && pl != "" {
			return []string{fmt.Sprintf("%d %s", w, pl)}
		}
	}
	if n, a, _, ok := flow.CallOf(t); ok {
		switch {
		case n == "fieldbytes":
			if pl := place(f, a[0]); pl != "" {
				return []string{"48 " + pl}
			}
		}
	}
	return []string{"?" + t.String()}
}

func init() {
	register("H08", "Provenance of the hashed verifying-key bytes: on every path the data absorbed by the one MiMC hasher whose sum is returned is computed as a sequence of fixed-width encodings of key fields; the component list is enumerated from the key's type and every component must occur exactly once, in the published order. The padding helper is evaluated abstractly on symbolic bytes.", func(c *Ctx) {
		h08App(c)
		h08Fold(c)
		for _, w := range []int{32, 48} {
			for n := 0; n <= w; n++ {
				w, n := w, n
				if f := aiFind(c, "common/utils", "MiMCBlockPad0"); f != nil {
					c.Ob("pad", fmt.Sprintf("MiMCBlockPad0 %d bytes in %d", n, w), func(t *T) {
						m := t.M(ai.BN254Fr)
						in, full := spareSlice(symBytes(m, "d", n), 40)
						before := append(ai.Slice(nil), full...)
						got := asSlice(t.Run(m, "common/utils", "MiMCBlockPad0", in, int64(w)))
						mustLen("block", len(got), w)
						for i := range got {
							want := m.Z.Int(0)
							if i >= w-n {
								want = m.HPoly(before[i-(w-n)])
							}
							mustEq(m, fmt.Sprintf("byte %d", i), m.HPoly(got[i]), want)
						}
						mustUnchanged("the argument", full, before)
					})
				}
			}
		}
	})
}

func h08App(c *Ctx) {
	f := aiFind(c, "common/utils", "CalculateAppVkHashFor761")
	if f == nil {
		c.Fail("anchor", "CalculateAppVkHashFor761", "not found")
		return
	}
	name := flow.Name(f)
	e := flow.New(c.Prog)
	for _, n := range []string{"(*github.com/consensys/gnark-crypto/ecc/bw6-761/fr.Element).Bytes", "(github.com/consensys/gnark-crypto/ecc/bw6-761/fr.Element).Bytes"} {
		e.Over[n] = func(e *flow.Engine, st *flow.State, cl *flow.Call) bool {
			cl.Result = []*flow.Term{e.T("call", "fieldbytes", nil, e.Contents(st, cl.Args[0]))}
			return true
		}
	}
	ps := e.Explore(f)
	c.sawFlow(e, ps)
	comps := keyComponents("$0", f.Params[0].Type())
	c.Count("key components", len(comps))
	c.Floor("component", 25)
	missing := map[string]string{}
	bad, good := "", 0
	fail := func(p *flow.Path, m string) {
		if bad == "" {
			bad = m + "; " + pathTrace(c, p)
		}
	}
	// the published order
	order := []string{"$0.BaseVerifyingKey.NbPublicVariables", "$0.BaseVerifyingKey.CosetShift", "$0.BaseVerifyingKey.Kzg.G1", "$0.BaseVerifyingKey.Kzg.G2[0]", "$0.BaseVerifyingKey.Kzg.G2[1]",
		"$0.CircuitVerifyingKey.S[0]", "$0.CircuitVerifyingKey.S[1]", "$0.CircuitVerifyingKey.S[2]", "$0.CircuitVerifyingKey.Ql", "$0.CircuitVerifyingKey.Qr", "$0.CircuitVerifyingKey.Qm", "$0.CircuitVerifyingKey.Qo", "$0.CircuitVerifyingKey.Qk"}
	rank := func(pl string) int {
		for i, o := range order {
			if pl == o || strings.HasPrefix(pl, o+".") || strings.HasPrefix(pl, o+"[") {
				return i
			}
		}
		return len(order)
	}
	for _, p := range ps {
		if p.Kind != "return" {
			if p.Kind == "undecided" {
				fail(p, p.Kind+": "+p.Note)
			}
			continue
		}
		good++
		data, m := mimcWrites(e, p, "bw6-761/fr/mimc")
		if m != "" {
			fail(p, m)
			continue
		}
		var got []string
		for _, d := range data {
			got = append(got, h08Chunk(e, f, p, d)...)
		}
		seen := map[string]int{}
		last, lastPl := -1, ""
		for _, g := range got {
			pl, ok := strings.CutPrefix(g, "48 ")
			if !ok {
				fail(p, "absorbs "+clip(g)+", not a 48 byte encoding of a component")
				break
			}
			seen[pl]++
			if seen[pl] > 1 {
				fail(p, short(pl)+" is absorbed twice")
			}
			r := rank(pl)
			if r < last || r == last && pl < lastPl && r < len(order) {
				fail(p, fmt.Sprintf("%s is absorbed after %s", short(pl), short(lastPl)))
			}
			last, lastPl = r, pl
		}
		for _, comp := range comps {
			base, list := strings.CutSuffix(comp, "[]")
			if !list {
				if seen[comp] == 0 {
					missing[comp] = "not absorbed; " + pathTrace(c, p)
				}
				delete(seen, comp)
				continue
			}
			// the elements of a list: all of them, as many as this path saw
			n := 0
			for seen[fmt.Sprintf("%s[%d]", base, n)] > 0 {
				delete(seen, fmt.Sprintf("%s[%d]", base, n))
				n++
			}
			if l := decidedLen(f, p, base); l != n {
				missing[comp] = fmt.Sprintf("%d elements absorbed where the list has %s; %s", n, count(l), pathTrace(c, p))
			}
		}
		for pl := range seen {
			fail(p, "absorbs "+pl+", which is no component of the key")
		}
	}
	if good < 3 && bad == "" {
		bad = fmt.Sprintf("only %d paths return", good)
	}
	c.Check("order", name, bad == "", bad)
	for _, comp := range comps {
		c.Check("component", name+" "+short(comp), missing[comp] == "", missing[comp])
	}
}

func count(n int) string {
	if n < 0 {
		return "another number"
	}
	return fmt.Sprint(n)
}

// decidedLen: the length the path's decisions give the list at a place (-1:
// not determined).
func decidedLen(f *ssa.Function, p *flow.Path, base string) int {
	out := -1
	for _, d := range p.Facts {
		flow.Walk(d.Cond, func(t *flow.Term) bool {
			if a, ok := flow.CallOf2(t, "len"); ok && place(f, a) == base {
				if lo, hi := p.Range(t); lo == hi {
					out = int(lo)
				}
			}
			return out < 0
		})
	}
	return out
}

func h08Fold(c *Ctx) {
	f := aiFind(c, "common/utils", "CalculateAppVkHashFrom761To254")
	if f == nil {
		c.Fail("anchor", "CalculateAppVkHashFrom761To254", "not found")
		return
	}
	e := flow.New(c.Prog)
	e.Over["(hash.Hash).BlockSize"] = func(e *flow.Engine, st *flow.State, cl *flow.Call) bool {
		if n, _, _, ok := flow.CallOf(flow.Strip(cl.Args[0])); ok && strings.HasSuffix(n, "bn254/fr/mimc.NewMiMC") {
			cl.Result = []*flow.Term{e.Int(32)}
			return true
		}
		return false
	}
	ps := e.Explore(f)
	c.sawFlow(e, ps)
	bad, good := "", 0
	in := e.Param(f.Params[0].Name(), f.Params[0].Type())
	for _, p := range ps {
		if p.Kind != "return" {
			if p.Kind == "undecided" || p.Kind == "truncated" {
				bad = p.Kind + ": " + p.Note
			}
			continue
		}
		good++
		m := func() string {
			if lo, hi := p.Range(e.Len(p.State, in)); lo != hi || lo != 48 {
				return "a hash of another length than 48 is folded"
			}
			data, m := mimcWrites(e, p, "bn254/fr/mimc")
			if m != "" {
				return m
			}
			// the bytes of each block
			var got, want []string
			for _, d := range data {
				for _, b := range e.Parts(p.State, d) {
					got = append(got, byteOf(p, in, b)...)
				}
			}
			for i := 0; i < 2; i++ {
				for k := 0; k < 8; k++ {
					want = append(want, "0")
				}
				for k := 0; k < 24; k++ {
					want = append(want, fmt.Sprintf("[%d]", 24*i+k))
				}
			}
			return strings.ReplaceAll(eqWords(got, want), "word", "byte")
		}()
		if m != "" && bad == "" {
			bad = m + "; " + pathTrace(c, p)
		}
	}
	if good == 0 && bad == "" {
		bad = "no path returns"
	}
	c.Check("fold", flow.Name(f), bad == "", bad)
}

// byteOf: the bytes of a part of a block, as places of the input.
func byteOf(p *flow.Path, in, t *flow.Term) []string {
	unknown := []string{"?" + t.String()}
	at := func(t *flow.Term) (int64, bool) { lo, hi := p.Range(t); return lo, lo == hi }
	x := t.Args[0]
	if t.Op == "el" {
		if k, ok := flow.ConstInt(x); ok {
			return []string{fmt.Sprint(k)}
		}
		off := int64(0)
		if x.Op == "load" {
			x = x.Args[0]
		}
		for (x.Op == "iaddr" || x.Op == "index" || x.Op == "subslice") && len(x.Args) > 1 {
			k, ok := at(x.Args[1])
			if !ok {
				break
			}
			off += k
			x = x.Args[0]
		}
		if x == in {
			return []string{fmt.Sprintf("[%d]", off)}
		}
		return unknown
	}
	switch x.Op {
	case "seq":
		var out []string
		for _, y := range x.Args {
			out = append(out, byteOf(p, in, y)...)
		}
		return out
	case "subslice":
		lo, ok1 := at(x.Args[1])
		hi, ok2 := at(x.Args[2])
		if x.Args[0] == in && ok1 && ok2 && lo <= hi && hi <= 48 {
			var out []string
			for i := lo; i < hi; i++ {
				out = append(out, fmt.Sprintf("[%d]", i))
			}
			return out
		}
	case "copied": // old, from, to, source
		lo, ok1 := at(x.Args[1])
		hi, ok2 := at(x.Args[2])
		src := byteOf(p, in, &flow.Term{Op: "sp", Args: x.Args[3:4]})
		old := x.Args[0]
		var out []string
		if old.Op == "zero" && ok1 && ok2 {
			out = make([]string, hi)
			if a, ok := old.Typ.Underlying().(*types.Array); old.Typ != nil && ok {
				out = make([]string, a.Len())
			}
			for i := range out {
				out[i] = "0"
			}
		} else if ok1 && ok2 {
			out = byteOf(p, in, &flow.Term{Op: "sp", Args: []*flow.Term{old}})
		}
		if int64(len(out)) < hi || !ok1 || !ok2 {
			return unknown
		}
		copy(out[lo:hi], src)
		return out
	}
	if n, a, _, ok := flow.CallOf(x); ok && strings.HasSuffix(n, "common.LeftPadBytes") {
		w, known := at(a[1])
		b := byteOf(p, in, &flow.Term{Op: "sp", Args: a[:1]})
		if known {
			for int64(len(b)) < w {
				b = append([]string{"0"}, b...)
			}
			return b
		}
	}
	return unknown
}
