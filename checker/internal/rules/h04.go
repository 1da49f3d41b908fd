package rules

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"

	"zkcheck/internal/flow"
)

// callTo: t is the i-th result of a call whose name ends in suffix.
func callTo(t *flow.Term, suffix string, i int) ([]*flow.Term, bool) {
	n, args, idx, ok := flow.CallOf(t)
	if !ok || idx != i || !strings.HasSuffix(n, suffix) {
		return nil, false
	}
	return args, true
}

// sameContent strips wrappers that are injective on hashes.
func hashWrap(t *flow.Term) *flow.Term {
	for {
		t = flow.Strip(t)
		n, args, idx, ok := flow.CallOf(t)
		if ok && idx == 0 && len(args) == 1 && (strings.HasSuffix(n, "common.Hash).Bytes") || strings.HasSuffix(n, "common.Hash).Hex") || strings.HasSuffix(n, "common.Hash).String") || strings.HasSuffix(n, "common.Hash).Big")) {
			t = args[0]
			continue
		}
		if t.Op == "seq" && len(t.Args) == 1 && t.Args[0].Op == "sp" {
			t = t.Args[0].Args[0]
			continue
		}
		return t
	}
}

// knownEqual: the facts of the path make a and b equal.
func knownEqual(p *flow.Path, is func(a, b *flow.Term) bool) bool {
	either := func(a, b *flow.Term) bool { return is(hashWrap(a), hashWrap(b)) || is(hashWrap(b), hashWrap(a)) }
	for _, f := range p.Facts {
		c, v := f.Cond, f.Val
		for c.Op == "not" {
			c, v = c.Args[0], !v
		}
		if !v {
			continue
		}
		if c.Op == "eq" {
			if either(c.Args[0], c.Args[1]) {
				return true
			}
			for i := 0; i < 2; i++ {
				if k, ok := flow.ConstInt(c.Args[i]); ok && k == 0 {
					n, args, _, ok := flow.CallOf(c.Args[1-i])
					if ok && len(args) == 2 && (strings.HasSuffix(n, ").Cmp") || strings.HasSuffix(n, "bytes.Compare") || strings.HasSuffix(n, "strings.Compare")) && either(args[0], args[1]) {
						return true
					}
				}
			}
		}
		if n, args, _, ok := flow.CallOf(c); ok && len(args) == 2 && strings.HasSuffix(n, "bytes.Equal") && either(args[0], args[1]) {
			return true
		}
	}
	return false
}

// below: the facts make 0 <= i < n.
func below(p *flow.Path, e *flow.Engine, i *flow.Term, isLen func(*flow.Term) bool) bool {
	lo, _ := p.Range(i)
	upper := false
	for _, f := range p.Facts {
		c, v := f.Cond, f.Val
		for c.Op == "not" {
			c, v = c.Args[0], !v
		}
		if c.Op != "lt" {
			continue
		}
		a, b := c.Args[0], c.Args[1]
		conv := a.Op == "conv" && b.Op == "conv"
		a, b = flow.Strip(a), flow.Strip(b)
		minus1 := func(t *flow.Term) bool {
			if t.Op != "bin" || t.Str != "-" {
				return false
			}
			k, ok := flow.ConstInt(t.Args[1])
			return ok && k == 1 && isLen(t.Args[0])
		}
		if v && a == i && isLen(b) || !v && b == i && minus1(a) {
			upper = true
			if conv && v {
				return true // unsigned comparison
			}
		}
	}
	return upper && lo >= 0
}

type h04Spec struct {
	fn     string
	header string // accessor and header field of the root
	items  func(f *ssa.Function, t *flow.Term) bool
	what   string
}

func paramNamed(f *ssa.Function, t *flow.Term, i int) bool {
	return t.Op == "param" && paramIndex(f, t) == i
}

func h04Path(c *Ctx, e *flow.Engine, f *ssa.Function, s h04Spec, p *flow.Path, index int) string {
	if len(p.Results) != 4 {
		return "unexpected results"
	}
	bk := func(t *flow.Term) bool { return paramNamed(f, t, 0) }
	items := func(t *flow.Term) bool { return s.items(f, flow.Strip(t)) }
	root := func(t *flow.Term) bool {
		if a, ok := callTo(t, "core/types.Block)."+s.header, 0); ok && bk(a[0]) {
			return true
		}
		x := t
		for x.Op == "load" || x.Op == "field" || x.Op == "faddr" {
			if x.Op != "load" && x.Str != s.header {
				return false
			}
			x = x.Args[0]
		}
		if a, ok := callTo(x, "core/types.Block).Header", 0); ok && bk(a[0]) && x != t {
			return true
		}
		return false
	}
	idx := e.Param(f.Params[index].Name(), f.Params[index].Type())
	if !below(p, e, idx, func(t *flow.Term) bool {
		if a, ok := callTo(t, ").Len", 0); ok {
			return len(a) == 1 && items(a[0])
		}
		return t.Op == "len" && items(t.Args[0])
	}) {
		return "the index is not known to be inside the list of " + s.what
	}
	// the trie whose nodes are returned
	var prove, derive *flow.Event
	derivedAt, provedAt := -1, -1
	for i, ev := range p.Events {
		if ev.Kind != "call" {
			continue
		}
		if strings.HasSuffix(ev.Name, ").Prove") {
			if prove != nil {
				return "more than one Prove"
			}
			prove, provedAt = ev, i
		}
		if strings.HasSuffix(ev.Name, "types.DeriveSha") {
			derive, derivedAt = ev, i
			if !items(ev.Args[0]) {
				return fmt.Sprintf("the trie is built from %s, not from all %s", ev.Args[0], s.what)
			}
		}
	}
	if prove == nil || derive == nil {
		return "no trie is built or no proof is taken"
	}
	if derivedAt > provedAt {
		return "the proof is taken before the trie is built"
	}
	if flow.Strip(derive.Args[1]) != flow.Strip(prove.Args[0]) {
		return "the proof is taken from another trie than the one whose root is checked"
	}
	for i, ev := range p.Events {
		if i > derivedAt && i < provedAt && len(ev.Args) > 0 && ev.Kind == "call" && flow.Strip(ev.Args[0]) == flow.Strip(prove.Args[0]) && !strings.HasSuffix(ev.Name, ").Hash") {
			return fmt.Sprintf("the trie is changed by %s between deriving the root and proving", ev.Name)
		}
	}
	if !knownEqual(p, func(a, b *flow.Term) bool { return a == derive.Results[0] && root(b) }) {
		return fmt.Sprintf("the derived root is not known to equal the header's %s", s.header)
	}
	// the key
	key := prove.Args[1]
	if !indexKey(e, key, idx) {
		return fmt.Sprintf("the proof is taken for key %s, not for the RLP of the index", key)
	}
	if p.Results[1] != key {
		return "the returned key is not the key of the proof"
	}
	// the nodes
	if n, known := p.Nil(prove.Err); !known || !n {
		return "a failed Prove is not reported"
	}
	nodes := p.Results[0]
	if !afterField(nodes, prove, "Values") {
		return fmt.Sprintf("the returned nodes %s are not what the proof wrote", nodes)
	}
	// the leaf prefix
	pre := p.Results[2]
	leaf := func(t *flow.Term) bool {
		if t.Op == "load" && t.Args[0].Op == "iaddr" {
			t = t.Args[0]
		}
		if t.Op != "iaddr" && t.Op != "index" || t.Args[0] != nodes {
			return false
		}
		i := t.Args[1]
		if i.Op != "bin" || i.Str != "-" {
			return false
		}
		k, ok := flow.ConstInt(i.Args[1])
		return ok && k == 1 && i.Args[0].Op == "len" && i.Args[0].Args[0] == nodes
	}
	if pre.Op != "subslice" || !leaf(pre.Args[0]) {
		return fmt.Sprintf("the leaf prefix %s is not a prefix of the last node", pre)
	}
	if k, ok := flow.ConstInt(pre.Args[1]); !ok || k != 0 {
		return "the leaf prefix does not start at the node's first byte"
	}
	var dec *flow.Event
	for _, ev := range p.Events {
		if ev.Kind == "call" && strings.HasSuffix(ev.Name, "rlp.DecodeBytes") && leaf(ev.Args[0]) {
			dec = ev
		}
	}
	if dec == nil {
		return "the last node is not decoded"
	}
	if n, known := p.Nil(dec.Err); !known || !n {
		return "a failed decoding of the last node is not reported"
	}
	fields := func(t *flow.Term) bool { // the decoded list
		return t.Op == "after" && strings.Contains(t.Str, "rlp.DecodeBytes") && len(t.Args) > 1 && t.Args[1] == flow.Strip(dec.Args[1])
	}
	end := pre.Args[2]
	if end.Op != "bin" || end.Str != "-" || end.Args[0].Op != "len" || !leaf(end.Args[0].Args[0]) || end.Args[1].Op != "len" {
		return fmt.Sprintf("the leaf prefix ends at %s, not where the value starts", end)
	}
	val := end.Args[1].Args[0]
	if val.Op == "load" {
		val = val.Args[0]
	}
	if val.Op != "iaddr" && val.Op != "index" || !fields(val.Args[0]) {
		return fmt.Sprintf("the leaf prefix is cut by the length of %s", val)
	}
	if k, ok := flow.ConstInt(val.Args[1]); !ok || k != 1 {
		return "the leaf prefix is not cut by the length of the leaf's value"
	}
	two := false
	for _, ft := range p.Facts {
		cnd := ft.Cond
		for cnd.Op == "not" {
			cnd = cnd.Args[0]
		}
		for _, a := range cnd.Args {
			if a.Op == "len" && fields(a.Args[0]) {
				if lo, hi := p.Range(a); lo == 2 && hi == 2 {
					two = true
				}
			}
		}
	}
	if !two {
		return "the last node is not known to be a leaf (two fields)"
	}
	return ""
}

// indexKey: t is the RLP encoding of the index.
func indexKey(e *flow.Engine, t, idx *flow.Term) bool {
	if a, ok := callTo(t, "rlp.AppendUint64", 0); ok {
		return emptyBytes(a[0]) && flow.Strip(a[1]) == idx
	}
	if a, ok := callTo(t, "rlp.EncodeToBytes", 0); ok {
		x := a[0]
		if x.Op == "mkiface" {
			x = x.Args[0]
		}
		return flow.Strip(x) == idx && x.Op == "conv" && strings.HasPrefix(x.Typ.String(), "uint")
	}
	return false
}

func emptyBytes(t *flow.Term) bool {
	if t.Op == "nil" || t.Op == "seq" && len(t.Args) == 0 {
		return true
	}
	if t.Op == "slice" || t.Op == "subslice" {
		a, ok1 := flow.ConstInt(t.Args[1])
		b, ok2 := flow.ConstInt(t.Args[2])
		return ok1 && ok2 && a == b
	}
	return false
}

// afterField: t is field name of the object an event wrote into.
func afterField(t *flow.Term, ev *flow.Event, name string) bool {
	if t.Op == "load" {
		t = t.Args[0]
	}
	if t.Op != "field" && t.Op != "faddr" || t.Str != name {
		return false
	}
	b := t.Args[0]
	if b.Op != "after" || len(b.Args) < 2 {
		return false
	}
	why, _, _, ok := flow.CallOf(b.Args[0])
	return ok && why == ev.Name && b.Args[1] == flow.Strip(ev.Args[2])
}

func init() {
	register("H04", "Path-sensitive provenance analysis of the block proof builders: on every path that returns without an error the index is known to be inside the list, the trie was derived from all items of that list, its root is known to equal the header's root, the nodes are those the same trie wrote for the RLP of the index, the key is that RLP, and the prefix is the last node up to the value of a decoded two-field leaf.", func(c *Ctx) {
		specs := []h04Spec{
			{"GetTransactionProof", "TxHash", func(f *ssa.Function, t *flow.Term) bool {
				a, ok := callTo(t, "core/types.Block).Transactions", 0)
				if ok {
					return paramNamed(f, a[0], 0)
				}
				for t.Op == "load" || t.Op == "field" || t.Op == "faddr" {
					t = t.Args[0]
					if a, ok := callTo(t, "core/types.Block).Body", 0); ok {
						return paramNamed(f, a[0], 0)
					}
				}
				return false
			}, "the block's transactions"},
			{"GetReceiptProof", "ReceiptHash", func(f *ssa.Function, t *flow.Term) bool { return paramNamed(f, t, 1) }, "the receipts"},
		}
		for _, s := range specs {
			f := aiFind(c, "common/proof", s.fn)
			if f == nil {
				c.Fail("proof-bound-to-header", s.fn, "anchor not found")
				continue
			}
			e := flow.New(c.Prog)
			paths := e.Explore(f)
			c.sawFlow(e, paths)
			bad, good, failed := "", 0, 0
			for _, p := range paths {
				switch p.Kind {
				case "return":
				case "stop", "panic":
					continue
				default:
					bad = p.Kind + ": " + p.Note
					continue
				}
				last := p.Results[len(p.Results)-1]
				if n, known := p.Nil(last); known && !n {
					failed++
					continue
				}
				if m, _ := lostFailures(c, e, f, p); m != "" && bad == "" {
					bad = m
				}
				good++
				if m := h04Path(c, e, f, s, p, len(f.Params)-1); m != "" && bad == "" {
					bad = fmt.Sprintf("%s returned at %s although %s; %s", "a proof is", c.at(p), m, pathTrace(c, p))
				}
			}
			if bad == "" && good == 0 {
				bad = "no path returns a proof"
			}
			c.Count("proof_paths", good)
			c.Count("refused_paths", failed)
			c.Check("proof-bound-to-header", flow.Name(f), bad == "", bad)
		}
		h04Writer(c)
		h04Raw(c)
		c.Assume = append(c.Assume, "types.DeriveSha inserts every item under the RLP of its index into the given trie and returns its root", "Trie.Prove writes the nodes from the root to the leaf in order", "the accessors of types.Block return the block's own data")
	})
}

// h04Writer: the proof writer keeps every node once, in order.
func h04Writer(c *Ctx) {
	f := aiFind(c, "common/proof", "ProofWriter.Put")
	if f == nil {
		c.Fail("writer-keeps-nodes", "ProofWriter.Put", "anchor not found")
		return
	}
	e := flow.New(c.Prog)
	st := e.NewState()
	obj := e.T("obj", "writer", f.Params[0].Type())
	whole := e.T("param", "before", obj.Typ)
	st.Set(obj, whole)
	key, val := e.Param("key", f.Params[1].Type()), e.Param("value", f.Params[2].Type())
	paths := e.ExploreFrom(st, f, obj, key, val)
	c.sawFlow(e, paths)
	bad := ""
	for _, p := range paths {
		if p.Kind != "return" {
			bad = p.Kind
			continue
		}
		if n, known := p.Nil(p.Results[0]); !known || !n {
			continue
		}
		for name, want := range map[string]*flow.Term{"Keys": key, "Values": val} {
			v := e.FieldOf(p.State, obj, name)
			if v == nil || v.Op != "seq" || len(v.Args) != 2 || v.Args[0].Op != "sp" || v.Args[0].Args[0] != e.FieldOfValue(whole, obj.Typ, name) || v.Args[1].Op != "el" || !copyOf(v.Args[1].Args[0], want) {
				bad = fmt.Sprintf("after Put, %s is %s and not the old %s followed by the new one", name, v, name)
			}
		}
	}
	c.Check("writer-keeps-nodes", flow.Name(f), bad == "" && len(paths) > 0, bad)
}

// copyOf: t is x or a copy of all of x.
func copyOf(t, x *flow.Term) bool {
	if t == x {
		return true
	}
	if t.Op == "seq" && len(t.Args) == 1 && t.Args[0].Op == "sp" {
		return copyOf(t.Args[0].Args[0], x)
	}
	if n, a, _, ok := flow.CallOf(t); ok && len(a) == 1 && (strings.HasSuffix(n, "bytes.Clone") || strings.HasSuffix(n, "common.CopyBytes") || strings.HasSuffix(n, "slices.Clone")) {
		return copyOf(a[0], x)
	}
	return false
}

// h04Raw: the raw receipt is the encoding of the receipt at its own index of
// a list that holds it there.
func h04Raw(c *Ctx) {
	f := aiFind(c, "common/proof", "GetReceiptRaw")
	if f == nil {
		c.Fail("raw-receipt", "GetReceiptRaw", "anchor not found")
		return
	}
	e := flow.New(c.Prog)
	paths := e.Explore(f)
	c.sawFlow(e, paths)
	bad, good := "", 0
	for _, p := range paths {
		if p.Kind != "return" {
			continue
		}
		if n, known := p.Nil(p.Results[1]); known && !n {
			continue
		}
		good++
		if m := rawReceipt(e, f, p); m != "" && bad == "" {
			bad = fmt.Sprintf("%s; %s", m, pathTrace(c, p))
		}
	}
	if good == 0 && bad == "" {
		bad = "no path returns an encoding"
	}
	c.Check("raw-receipt", flow.Name(f), bad == "", bad)
}

func rawReceipt(e *flow.Engine, f *ssa.Function, p *flow.Path) string {
	r := p.Results[0]
	if a, ok := callTo(r, "types.Receipt).MarshalBinary", 0); ok && paramNamed(f, a[0], 0) {
		return ""
	}
	for _, ev := range p.Events {
		if ev.Kind != "call" || !strings.HasSuffix(ev.Name, "types.Receipts).EncodeIndex") {
			continue
		}
		list, at, buf := ev.Args[0], ev.Args[1], flow.Strip(ev.Args[2])
		_, k := p.Range(at)
		if d := ev.Deref[0]; d.Op == "upd" && len(d.Args) == 3 && flow.Strip(d.Args[1]) == flow.Strip(at) && paramNamed(f, d.Args[2], 0) {
			list, k = e.Seq(nil, []*flow.Term{e.T("el", "", nil, d.Args[2])}), 0
		}
		if list.Op != "seq" || k < 0 || int(k) >= len(list.Args) || list.Args[k].Op != "el" || !paramNamed(f, list.Args[k].Args[0], 0) {
			return fmt.Sprintf("entry %s of %s is not known to be the receipt", at, list)
		}
		if a, ok := callTo(r, "bytes.Buffer).Bytes", 0); ok && len(a) == 1 && a[0].Op == "after" && strings.Contains(a[0].Str, "EncodeIndex") && len(a[0].Args) > 1 && a[0].Args[1] == buf {
			return ""
		}
		return fmt.Sprintf("the result %s is not what was encoded", r)
	}
	return fmt.Sprintf("the result %s is not the receipt's encoding", r)
}
