package rules

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"

	"zkcheck/internal/ai"
	"zkcheck/internal/flow"
)

// abiMethod: t is the method of the codec's ABI named by parameter 1.
func abiMethod(f *ssa.Function, t *flow.Term) bool {
	if t.Op == "load" {
		t = t.Args[0]
	}
	return t.Op == "lookup" && len(t.Args) == 2 && place(f, t.Args[0]) == "$0.abi.Methods" && paramNamed(f, t.Args[1], 1)
}

// methodField: t is the named field of that method.
func methodField(f *ssa.Function, t *flow.Term, name string) bool {
	for t.Op == "load" || t.Op == "conv" {
		t = t.Args[0]
	}
	return (t.Op == "field" || t.Op == "faddr") && t.Str == name && abiMethod(f, t.Args[0])
}

// methodKnown: the path has established whether the method exists.
func methodKnown(f *ssa.Function, p *flow.Path) (exists, known bool) {
	for _, x := range p.Facts {
		c, v := x.Cond, x.Val
		for c.Op == "not" {
			c, v = c.Args[0], !v
		}
		if c.Op == "lookupok" && place(f, c.Args[0]) == "$0.abi.Methods" && paramNamed(f, c.Args[1], 1) {
			return v, true
		}
	}
	return false, false
}

func h09Encode(c *Ctx, name, list string, selector bool) {
	f := aiFind(c, "common/utils", name)
	if f == nil {
		c.Fail("codec", name, "anchor not found")
		return
	}
	e := flow.New(c.Prog)
	ps := e.Explore(f)
	c.sawFlow(e, ps)
	bad, good := "", 0
	fail := func(p *flow.Path, s string, a ...any) {
		if bad == "" {
			bad = fmt.Sprintf(s, a...) + "; " + pathTrace(c, p)
		}
	}
	for _, p := range ps {
		if p.Kind != "return" {
			fail(p, "%s %s", p.Kind, p.Note)
			continue
		}
		if m, _ := lostFailures(c, e, f, p); m != "" {
			fail(p, "%s", m)
		}
		ex, known := methodKnown(f, p)
		err := p.Results[1]
		n, isKnown := p.Nil(err)
		if known && !ex {
			if !(isKnown && !n) {
				fail(p, "an unknown method is not reported")
			}
			continue
		}
		if isKnown && !n {
			continue
		}
		if !known {
			fail(p, "the method is used without knowing that it exists")
			continue
		}
		good++
		parts := flatBytes(p.Results[0])
		if selector {
			if len(parts) == 0 || parts[0].Op != "sp" || !methodField(f, parts[0].Args[0], "ID") {
				fail(p, "the calldata %s does not start with the method's selector", clip(p.Results[0].String()))
				continue
			}
			parts = parts[1:]
		}
		if len(parts) != 1 {
			fail(p, "the encoding is %s", clip(p.Results[0].String()))
			continue
		}
		x := parts[0]
		if x.Op == "sp" {
			x = x.Args[0]
		}
		a, ok := callTo(x, "abi.Arguments).Pack", 0)
		if !ok || len(a) != 2 || !methodField(f, a[0], list) || !paramNamed(f, a[1], 2) {
			fail(p, "%s is returned, not the method's %s packed from the arguments", clip(x.String()), list)
		}
	}
	if good == 0 && bad == "" {
		bad = "no path succeeds"
	}
	c.Check("codec", flow.Name(f), bad == "", bad)
}

// valueOfElem: t is reflect.ValueOf of the i-th element of a slice; it
// returns the slice.
func valueOfElem(t *flow.Term) (*flow.Term, int64, bool) {
	a, ok := callTo(t, "reflect.ValueOf", 0)
	if !ok {
		return nil, 0, false
	}
	x := flow.Strip(a[0])
	if x.Op == "load" {
		x = x.Args[0]
	}
	if x.Op != "iaddr" && x.Op != "index" {
		return nil, 0, false
	}
	k, ok := flow.ConstInt(x.Args[1])
	return x.Args[0], k, ok
}

func isKindPtr(e *flow.Engine, p *flow.Path, v *flow.Term) (yes, known bool) {
	for _, x := range p.Facts {
		c, val := x.Cond, x.Val
		for c.Op == "not" {
			c, val = c.Args[0], !val
		}
		if c.Op != "eq" {
			continue
		}
		for i := 0; i < 2; i++ {
			k, ok := flow.ConstInt(c.Args[i])
			a, ok2 := callTo(c.Args[1-i], ").Kind", 0)
			if !ok || !ok2 || k != 22 {
				continue
			}
			y := a[0]
			if t, ok := callTo(y, "reflect.Value).Type", 0); ok {
				y = t[0]
			} else if t, ok := callTo(y, "reflect.TypeOf", 0); ok {
				if b, ok := callTo(v, "reflect.ValueOf", 0); ok && b[0] == t[0] {
					y = v
				}
			}
			if y == v {
				return val, true
			}
		}
	}
	return false, false
}

// truthOfCall: the path knows the outcome of a boolean call on v.
func truthOfCall(p *flow.Path, match func(n string, a []*flow.Term) bool) (val, known bool) {
	for _, x := range p.Facts {
		c, v := x.Cond, x.Val
		for c.Op == "not" {
			c, v = c.Args[0], !v
		}
		if n, a, i, ok := flow.CallOf(c); ok && i == 0 && match(n, a) {
			return v, true
		}
	}
	return false, false
}

func h09Decode(c *Ctx, name, list string, selector bool) {
	f := aiFind(c, "common/utils", name)
	if f == nil {
		c.Fail("codec", name, "anchor not found")
		return
	}
	e := flow.New(c.Prog)
	ps := e.Explore(f)
	c.sawFlow(e, ps)
	bad, good := "", 0
	fail := func(p *flow.Path, s string, a ...any) {
		if bad == "" {
			bad = fmt.Sprintf(s, a...) + "; " + pathTrace(c, p)
		}
	}
	for _, p := range ps {
		if p.Kind != "return" && p.Kind != "truncated" {
			fail(p, "%s %s", p.Kind, p.Note)
			continue
		}
		var unpack *flow.Event
		sets := map[int64]bool{}
		for _, ev := range p.Events {
			if ev.Kind != "call" {
				continue
			}
			if strings.HasSuffix(ev.Name, "abi.Arguments).Unpack") {
				if unpack != nil {
					fail(p, "the data is decoded twice")
				}
				unpack = ev
			}
			if strings.HasPrefix(ev.Name, "(reflect.Value).Set") {
				if m := h09Set(e, f, p, ev, unpack, sets); m != "" {
					fail(p, "%s (%s)", m, c.Prog.Pos(ev.Pos))
				}
			}
		}
		if p.Kind != "return" {
			continue
		}
		if m, _ := lostFailures(c, e, f, p); m != "" {
			fail(p, "%s", m)
		}
		ex, known := methodKnown(f, p)
		err := p.Results[0]
		n, isKnown := p.Nil(err)
		if isKnown && !n {
			continue
		}
		if known && !ex {
			fail(p, "an unknown method is not reported")
			continue
		}
		if !known || unpack == nil {
			fail(p, "success without decoding")
			continue
		}
		good++
		if !methodField(f, unpack.Args[0], list) {
			fail(p, "the data is decoded with %s, not the method's %s", clip(unpack.Args[0].String()), list)
		}
		// what is decoded
		stripped := false
		switch d := unpack.Args[1]; {
		case paramNamed(f, d, 2):
		case selector && d.Op == "subslice" && paramNamed(f, d.Args[0], 2) && selectorLen(f, d.Args[1]):
			stripped = true
		default:
			fail(p, "%s is decoded, not the data given", clip(d.String()))
		}
		if selector {
			starts, known := h09Starts(f, p)
			whole, wholeKnown := h09Len(f, p)
			switch {
			case stripped && !(known && starts):
				fail(p, "data is skipped that was not compared with the selector")
			case !stripped && !(known && !starts) && !(wholeKnown && !whole):
				fail(p, "calldata that starts with the selector is decoded as if the selector were an argument")
			}
		}
		// every target is filled
		cnt, ok := int64(-1), false
		for k := int64(0); k <= 6; k++ {
			// the two lengths are known to be equal (demanded below)
			for _, n := range []*flow.Term{lenOf(e, f, 3, p), lenTerm(e, p, unpack.Results[0])} {
				if v, known := p.Truth(e.Lt(e.Int(k), n)); known && !v && !ok {
					cnt, ok = k, true
				}
			}
			if ok {
				break
			}
		}
		if v, known := p.Truth(e.Eq(lenTerm(e, p, unpack.Results[0]), lenOf(e, f, 3, p))); !(known && v) {
			fail(p, "the number of values is not compared with the number of targets")
		}
		if !ok {
			fail(p, "not every target is visited")
		}
		for k := int64(0); k < cnt; k++ {
			if sets[k] {
				continue
			}
			inv, known := truthOfCall(p, func(n string, a []*flow.Term) bool {
				if !strings.HasSuffix(n, "reflect.Value).IsValid") {
					return false
				}
				b, i, ok := valueOfElem(a[0])
				return ok && i == k && b == unpack.Results[0]
			})
			if !(known && !inv) {
				fail(p, "target %d keeps its old value", k)
			}
		}
	}
	if good == 0 && bad == "" {
		bad = "no path succeeds"
	}
	c.Check("codec", flow.Name(f), bad == "", bad)
}

func lenOf(e *flow.Engine, f *ssa.Function, i int, p *flow.Path) *flow.Term {
	return lenTerm(e, p, e.Param(f.Params[i].Name(), f.Params[i].Type()))
}

func lenTerm(e *flow.Engine, p *flow.Path, t *flow.Term) *flow.Term { return e.Len(p.State, t) }

// selectorLen: 4 or len(method.ID).
func selectorLen(f *ssa.Function, t *flow.Term) bool {
	if k, ok := flow.ConstInt(t); ok {
		return k == 4
	}
	l, ok := flow.CallOf2(t, "len")
	return ok && methodField(f, l, "ID")
}

// h09Starts: whether the data is known to start with the selector.
func h09Starts(f *ssa.Function, p *flow.Path) (yes, known bool) {
	id := func(t *flow.Term) bool { return methodField(f, flow.Strip(t), "ID") }
	head := func(t *flow.Term) bool {
		t = flow.Strip(t)
		if t.Op != "subslice" || len(t.Args) < 3 || !paramNamed(f, t.Args[0], 2) || !selectorLen(f, t.Args[2]) {
			return false
		}
		k, ok := flow.ConstInt(t.Args[1])
		return ok && k == 0
	}
	pair := func(x, y *flow.Term) bool { return head(x) && id(y) || head(y) && id(x) }
	if v, ok := truthOfCall(p, func(n string, a []*flow.Term) bool {
		switch {
		case strings.HasSuffix(n, "bytes.HasPrefix"):
			return paramNamed(f, a[0], 2) && id(a[1])
		case strings.HasSuffix(n, "bytes.Equal"):
			return pair(a[0], a[1])
		}
		return false
	}); ok {
		return v, true
	}
	for _, x := range p.Facts {
		c, v := x.Cond, x.Val
		for c.Op == "not" {
			c, v = c.Args[0], !v
		}
		if c.Op != "eq" {
			continue
		}
		if pair(c.Args[0], c.Args[1]) {
			return v, true
		}
		for i := 0; i < 2; i++ {
			if a, ok := callTo(c.Args[i], "bytes.Compare", 0); ok && pair(a[0], a[1]) {
				if k, ok := flow.ConstInt(c.Args[1-i]); ok && k == 0 {
					return v, true
				}
			}
		}
	}
	return false, false
}

// h09Len: whether the data's length is known to be a selector more than a
// whole number of words.
func h09Len(f *ssa.Function, p *flow.Path) (yes, known bool) {
	for _, x := range p.Facts {
		c, v := x.Cond, x.Val
		for c.Op == "not" {
			c, v = c.Args[0], !v
		}
		if c.Op != "eq" {
			continue
		}
		for i := 0; i < 2; i++ {
			m := c.Args[1-i]
			if m.Op == "bin" && m.Str == "%" && selectorLen(f, c.Args[i]) {
				k, ok := flow.ConstInt(m.Args[1])
				l, ok2 := flow.CallOf2(m.Args[0], "len")
				if ok && ok2 && k == 32 && paramNamed(f, l, 2) {
					return v, true
				}
			}
		}
	}
	return false, false
}

func h09Set(e *flow.Engine, f *ssa.Function, p *flow.Path, ev, unpack *flow.Event, sets map[int64]bool) string {
	if ev.Name != "(reflect.Value).Set" {
		return "a target is written by " + ev.Name
	}
	if unpack == nil {
		return "a target is written before decoding"
	}
	// target
	var ptr *flow.Term
	indirect := false
	if a, ok := callTo(ev.Args[0], "reflect.Value).Elem", 0); ok {
		ptr = a[0]
	} else if a, ok := callTo(ev.Args[0], "reflect.Indirect", 0); ok {
		ptr = a[0]
	} else {
		return fmt.Sprintf("the target is %s", clip(ev.Args[0].String()))
	}
	base, i, ok := valueOfElem(ptr)
	if !ok || !paramNamed(f, base, 3) {
		return fmt.Sprintf("the target is %s", clip(ptr.String()))
	}
	if yes, known := isKindPtr(e, p, ptr); !(known && yes) {
		return fmt.Sprintf("target %d is dereferenced without knowing that it is a pointer", i)
	}
	if nl, known := truthOfCall(p, func(n string, a []*flow.Term) bool {
		return strings.HasSuffix(n, "reflect.Value).IsNil") && a[0] == ptr
	}); !(known && !nl) {
		if v, known := truthOfCall(p, func(n string, a []*flow.Term) bool {
			return strings.HasSuffix(n, "reflect.Value).IsValid") && a[0] == ev.Args[0]
		}); !(known && v) {
			return fmt.Sprintf("target %d is dereferenced without knowing that it is not nil", i)
		}
	}
	// value
	val := ev.Args[1]
	inner := val
	elem := false
	if a, ok := callTo(val, "reflect.Value).Elem", 0); ok {
		inner, elem = a[0], true
	} else if a, ok := callTo(val, "reflect.Indirect", 0); ok {
		inner, indirect = a[0], true
	}
	b, j, ok := valueOfElem(inner)
	if !ok || b != unpack.Results[0] {
		return fmt.Sprintf("target %d receives %s", i, clip(val.String()))
	}
	if i != j {
		return fmt.Sprintf("target %d receives value %d", i, j)
	}
	if !indirect {
		if yes, known := isKindPtr(e, p, inner); !known || yes != elem {
			return fmt.Sprintf("value %d is stored without regard to whether it is a pointer", j)
		}
	}
	ok1, known := truthOfCall(p, func(n string, a []*flow.Term) bool {
		if !strings.HasSuffix(n, ").AssignableTo") {
			return false
		}
		x, ok1 := callTo(a[0], "reflect.Value).Type", 0)
		y, ok2 := callTo(a[1], "reflect.Value).Type", 0)
		return ok1 && ok2 && x[0] == val && y[0] == ev.Args[0]
	})
	if !known || !ok1 {
		// comparing the two types for equality is enough
		same := false
		for _, x := range p.Facts {
			c, v := x.Cond, x.Val
			for c.Op == "not" {
				c, v = c.Args[0], !v
			}
			if c.Op == "eq" && v {
				for k := 0; k < 2; k++ {
					x, ok1 := callTo(c.Args[k], "reflect.Value).Type", 0)
					y, ok2 := callTo(c.Args[1-k], "reflect.Value).Type", 0)
					same = same || ok1 && ok2 && x[0] == val && y[0] == ev.Args[0]
				}
			}
		}
		if !same {
			return fmt.Sprintf("target %d is written without knowing that it can hold the value", i)
		}
	}
	sets[i] = true
	return ""
}

// hexForm renders conversions in a normal form.
func hexForm(e *flow.Engine, f *ssa.Function, st *flow.State, t *flow.Term) string {
	if p := place(f, t); p != "" {
		return p
	}
	if s, ok := flow.ConstStr(t); ok {
		return fmt.Sprintf("%q", s)
	}
	if t.Op == "obj" || t.Op == "slice" {
		if c := e.Contents(st, t); c != t {
			return hexForm(e, f, st, c)
		}
	}
	if t.Op == "conv" || t.Op == "mkiface" {
		return hexForm(e, f, st, t.Args[0])
	}
	if t.Op == "seq" {
		var out []string
		for _, x := range t.Args {
			out = append(out, hexForm(e, f, st, x.Args[0]))
		}
		if len(out) == 0 {
			return `""`
		}
		return strings.Join(out, "+")
	}
	n, a, i, ok := flow.CallOf(t)
	if ok && i == 0 && len(a) > 0 {
		arg := func() string { return hexForm(e, f, st, a[0]) }
		switch {
		case strings.HasSuffix(n, "hex.EncodeToString"), strings.HasSuffix(n, "common.Bytes2Hex"):
			return "hex(" + arg() + ")"
		case strings.HasSuffix(n, "hexutil.Encode"):
			return `"0x"+hex(` + arg() + ")"
		case n == "Hex2Bytes", strings.HasSuffix(n, "common.FromHex"):
			return "unhex(" + arg() + ")"
		case strings.HasSuffix(n, "common.HexToAddress"):
			return "addr(unhex(" + arg() + "))"
		case strings.HasSuffix(n, "common.HexToHash"):
			return "hash(unhex(" + arg() + "))"
		case strings.HasSuffix(n, "common.BytesToAddress"):
			return "addr(" + arg() + ")"
		case strings.HasSuffix(n, "common.BytesToHash"):
			return "hash(" + arg() + ")"
		case strings.HasSuffix(n, "common.Address).Bytes"), strings.HasSuffix(n, "common.Hash).Bytes"):
			return arg()
		case n == "SetBytes":
			return "int(" + arg() + ")"
		}
	}
	return "?" + t.String()
}

// parity: what the path knows of len(t) modulo 2.
func parity(e *flow.Engine, p *flow.Path, t *flow.Term) (odd, known bool) {
	l := e.Len(p.State, t)
	for _, x := range p.Facts {
		c, v := x.Cond, x.Val
		for c.Op == "not" {
			c, v = c.Args[0], !v
		}
		if c.Op != "eq" {
			continue
		}
		for i := 0; i < 2; i++ {
			k, ok := flow.ConstInt(c.Args[i])
			m := c.Args[1-i]
			if !ok || m.Op != "bin" || m.Args[0] != l && m.Args[1] != l {
				continue
			}
			q, ok := flow.ConstInt(m.Args[1])
			if m.Args[1] == l {
				if m.Str != "&" {
					continue
				}
				q, ok = flow.ConstInt(m.Args[0])
			}
			if ok && (m.Str == "%" && q == 2 || m.Str == "&" && q == 1) && (k == 0 || k == 1) {
				return (k == 1) == v, true
			}
		}
	}
	return false, false
}

// prefixed: what the path knows of s starting with 0x or 0X.
func prefixed(e *flow.Engine, p *flow.Path, s *flow.Term) (yes, known bool) {
	for _, x := range p.Facts {
		c, v := x.Cond, x.Val
		for c.Op == "not" {
			c, v = c.Args[0], !v
		}
		if a, ok := callTo(c, "strings.HasPrefix", 0); ok && a[0] == s && v {
			if k, ok := flow.ConstStr(a[1]); ok && (k == "0x" || k == "0X") {
				return true, true
			}
		}
	}
	_, hi := p.Range(e.Len(p.State, s))
	if hi < 2 {
		return false, true
	}
	b0, b1 := e.T("index", "", nil, s, e.Int(0)), e.T("index", "", nil, s, e.Int(1))
	is := func(b *flow.Term, k int64) (bool, bool) { return p.Truth(e.Eq(b, e.Int(k))) }
	z, zk := is(b0, '0')
	if zk && !z {
		return false, true
	}
	x, xk := is(b1, 'x')
	X, Xk := is(b1, 'X')
	if zk && z && (xk && x || Xk && X) {
		if lo, _ := p.Range(e.Len(p.State, s)); lo >= 2 {
			return true, true
		}
	}
	if xk && !x && Xk && !X {
		return false, true
	}
	n := 0
	for _, k := range []string{"0x", "0X"} {
		v, known := truthOfCall(p, func(n string, a []*flow.Term) bool {
			c, ok := "", false
			if len(a) == 2 {
				c, ok = flow.ConstStr(a[1])
			}
			return strings.HasSuffix(n, "strings.HasPrefix") && a[0] == s && ok && c == k
		})
		if known && !v {
			n++
		}
	}
	return false, n == 2
}

// hexBody: the digits of the string parameter after an optional prefix.
func hexBody(e *flow.Engine, f *ssa.Function, p *flow.Path, t *flow.Term) string {
	s := e.Param(f.Params[0].Name(), f.Params[0].Type())
	pre, known := prefixed(e, p, s)
	if !known {
		return "whether the text starts with 0x is not looked at"
	}
	if pre {
		lo, ok := int64(0), false
		if t.Op == "subslice" && t.Args[0] == s {
			lo, ok = flow.ConstInt(t.Args[1])
			ok = ok && t.Args[2] == e.Len(p.State, s)
		}
		if !ok || lo != 2 {
			return fmt.Sprintf("%s is taken as the digits of a text with a prefix", clip(t.String()))
		}
		return ""
	}
	if t != s {
		return fmt.Sprintf("%s is taken as the digits of a text without prefix", clip(t.String()))
	}
	return ""
}

func h09Hex2Bytes(c *Ctx) {
	f := aiFind(c, "common/utils", "Hex2Bytes")
	if f == nil {
		c.Fail("hex", "Hex2Bytes", "anchor not found")
		return
	}
	e := flow.New(c.Prog)
	ps := e.Explore(f)
	c.sawFlow(e, ps)
	bad := ""
	for _, p := range ps {
		if p.Kind != "return" {
			bad = p.Kind + " " + p.Note
			continue
		}
		m := func() string {
			a, ok := callTo(p.Results[0], "hex.DecodeString", 0)
			if !ok {
				return fmt.Sprintf("the result is %s", clip(p.Results[0].String()))
			}
			body, padded := a[0], false
			if body.Op == "seq" && len(body.Args) == 2 {
				if s, ok := flow.ConstStr(body.Args[0].Args[0]); ok && s == "0" {
					body, padded = body.Args[1].Args[0], true
				}
			}
			if m := hexBody(e, f, p, body); m != "" {
				return m
			}
			odd, known := parity(e, p, body)
			if !known || odd != padded {
				return "an odd number of digits is not completed by exactly one leading 0"
			}
			return ""
		}()
		if m != "" && bad == "" {
			bad = m + "; " + pathTrace(c, p)
		}
	}
	c.Check("hex", flow.Name(f), bad == "", bad)
}

func h09TxHash(c *Ctx) {
	f := aiFind(c, "common/utils", "IsValidTxHash")
	if f == nil {
		c.Fail("hex", "IsValidTxHash", "anchor not found")
		return
	}
	e := flow.New(c.Prog)
	ps := e.Explore(f)
	c.sawFlow(e, ps)
	bad, good := "", 0
	s := e.Param(f.Params[0].Name(), f.Params[0].Type())
	for _, p := range ps {
		if p.Kind != "return" && p.Kind != "truncated" {
			bad = p.Kind + " " + p.Note
			continue
		}
		m := func() string {
			if v, known := p.Truth(e.Eq(s, e.StrC(""))); known && v {
				if v, ok := flow.ConstBool(p.Results[0]); !ok || v {
					return "the empty text is accepted"
				}
				return ""
			}
			pre, known := prefixed(e, p, s)
			if !known {
				return "the prefix is not looked at"
			}
			body := s
			if pre {
				body = e.T("subslice", "", s.Typ, s, e.Int(2), e.Len(p.State, s))
			}
			l := e.Len(p.State, body)
			right, lenKnown := false, false
			for _, x := range p.Facts {
				cnd, v := x.Cond, x.Val
				for cnd.Op == "not" {
					cnd, v = cnd.Args[0], !v
				}
				if cnd.Op == "eq" {
					for i := 0; i < 2; i++ {
						if cnd.Args[i] == l && hashDigits(cnd.Args[1-i]) {
							right, lenKnown = v, true
						}
					}
				}
			}
			odd, oddKnown := parity(e, p, body)
			// the characters looked at
			wrong := false
			for _, x := range p.Facts {
				var b *flow.Term
				flow.Walk(x.Cond, func(y *flow.Term) bool {
					z := y
					if z.Op == "load" {
						z = z.Args[0]
					}
					if (z.Op == "index" || z.Op == "iaddr") && flow.Strip(z.Args[0]) == flow.Strip(body) {
						b = y
						return false
					}
					return true
				})
				if b == nil || pre == false && prefixChar(b) && x.Cond.Op == "eq" {
					continue
				}
				lo, hi := p.Range(b)
				in := lo >= '0' && hi <= '9' || lo >= 'a' && hi <= 'f' || lo >= 'A' && hi <= 'F'
				out := hi < '0' || lo > 'f' || lo > '9' && hi < 'A' || lo > 'F' && hi < 'a'
				if !in && !out && p.Kind == "return" {
					return fmt.Sprintf("a character between %q and %q is not classified (%s, %s)", rune(lo), rune(hi), b, x.Cond)
				}
				wrong = wrong || out
			}
			if p.Kind == "truncated" {
				if wrong {
					return "the text is read on after a character that is no digit"
				}
				return ""
			}
			v, ok := flow.ConstBool(p.Results[0])
			if r := p.Results[0]; !ok && r.Op == "eq" {
				for i := 0; i < 2; i++ {
					if r.Args[i] == l && hashDigits(r.Args[1-i]) {
						// true exactly when the length is right
						v, ok, right, lenKnown = true, true, true, true
					}
				}
			}
			if !ok {
				// the last comparison is the result itself
				return fmt.Sprintf("the verdict is %s", clip(p.Results[0].String()))
			}
			if v {
				good++
				if !(lenKnown && right) {
					return "a text is accepted whose length was not compared with that of a hash"
				}
				if wrong || oddKnown && odd {
					return "a text with a character that is no digit is accepted"
				}
				return ""
			}
			if !wrong && !(lenKnown && !right) && !(oddKnown && odd) {
				return "a text is refused for no reason"
			}
			return ""
		}()
		if m != "" && bad == "" {
			bad = m + "; " + pathTrace(c, p)
		}
	}
	if good == 0 && bad == "" {
		bad = "no path accepts"
	}
	c.Check("hex", flow.Name(f), bad == "", bad)
}

func prefixChar(b *flow.Term) bool {
	if b.Op == "load" {
		b = b.Args[0]
	}
	k, ok := flow.ConstInt(b.Args[1])
	return ok && k < 2
}

// hashDigits: 64, or twice the package's HashLength.
func hashDigits(t *flow.Term) bool {
	if k, ok := flow.ConstInt(t); ok {
		return k == 64
	}
	if t.Op != "bin" || t.Str != "*" {
		return false
	}
	for i := 0; i < 2; i++ {
		k, ok := flow.ConstInt(t.Args[i])
		o := t.Args[1-i]
		if ok && k == 2 && o.Op == "load" && o.Args[0].Op == "global" && strings.HasSuffix(o.Args[0].Str, "utils.HashLength") {
			return true
		}
	}
	return false
}

func init() {
	register("H09", "Path-sensitive provenance analysis of the contract codec (which argument list packs or unpacks which data, which errors are possible, which value reaches which target) and of the hex helpers in a normal form; the padding helpers are evaluated abstractly on symbolic bytes for every length up to beyond their width.", func(c *Ctx) {
		h09Encode(c, "ContractCodec.EncodeCalldata", "Inputs", true)
		h09Encode(c, "ContractCodec.EncodeReturnData", "Outputs", false)
		h09Decode(c, "ContractCodec.DecodeCalldata", "Inputs", true)
		h09Decode(c, "ContractCodec.DecodeReturnData", "Outputs", false)
		h09Hex2Bytes(c)
		h09TxHash(c)
		for _, x := range []struct{ name, want string }{
			{"Bytes2Hex", "hex($0)"}, {"Bytes2Hex0x", `"0x"+hex($0)`}, {"Hex2Addr", "addr(unhex($0))"}, {"Addr2Hex", "hex($0)"}, {"Addr2Hex0x", `"0x"+hex($0)`},
			{"Bytes2Addr", "addr($0)"}, {"Bytes2AddrHex", "hex(addr($0))"}, {"Bytes2AddrHex0x", `"0x"+hex(addr($0))`}, {"FormatAddrHex", "hex(addr(unhex($0)))"},
			{"Hex2Hash", "hash(unhex($0))"}, {"Bytes2Hash", "hash($0)"}, {"Hex2BigInt", "int(unhex($0))"},
			{"ArrayHex2Hash", "*hash(unhex($0[%d]))"}, {"ArrayBytes2Hex0x", `*"0x"+hex($0[%d])`}, {"Strings2bytes", "*unhex($0[%d])"},
			{"ContractCodec.Selector", "selector"}, {"ContractCodec.ABI", "$0.abi"},
		} {
			f, e, ps := h07Explore(c, "common/utils", x.name)
			if f == nil {
				continue
			}
			bad, good := "", 0
			for _, p := range ps {
				if p.Kind == "truncated" && strings.HasPrefix(x.want, "*") {
					continue
				}
				if p.Kind != "return" {
					bad = p.Kind + " " + p.Note
					continue
				}
				good++
				r := p.Results[0]
				if x.want == "selector" {
					if !methodField(f, r, "ID") {
						bad = fmt.Sprintf("the result is %s", clip(r.String()))
					}
					continue
				}
				if !strings.HasPrefix(x.want, "*") {
					v := r
					if isBigPtr(f) {
						v = e.BigVal(p.State, r)
					}
					if got := hexForm(e, f, p.State, v); got != x.want {
						bad = fmt.Sprintf("the result is %s instead of %s", clip(got), x.want)
					}
					continue
				}
				// one entry per input
				n := -1
				for k := 0; k < 8; k++ {
					if v, known := p.Truth(e.Lt(e.Int(int64(k)), lenOf(e, f, 0, p))); known && !v {
						n = k
						break
					}
				}
				parts := e.Parts(p.State, e.Contents(p.State, r))
				if len(parts) != n {
					bad = fmt.Sprintf("%d entries for %d inputs; %s", len(parts), n, pathTrace(c, p))
					continue
				}
				for k, q := range parts {
					if got, want := hexForm(e, f, p.State, q.Args[0]), fmt.Sprintf(x.want[1:], k); got != want {
						bad = fmt.Sprintf("entry %d is %s instead of %s", k, clip(got), want)
					}
				}
			}
			if good == 0 && bad == "" {
				bad = "no path returns"
			}
			c.Check("hex", flow.Name(f), bad == "", bad)
		}
		h09Pad(c)
		c.Assume = append(c.Assume, "go-ethereum's Arguments.Pack and Unpack are inverse and report malformed data", "reflect behaves as documented")
	})
}

func isBigPtr(f *ssa.Function) bool {
	rs := f.Signature.Results()
	return rs.Len() > 0 && strings.HasSuffix(rs.At(0).Type().String(), "*math/big.Int")
}

func h09Pad(c *Ctx) {
	for _, x := range []struct {
		name  string
		width int
	}{{"Pad20Bytes", 20}, {"Pad32Bytes", 32}} {
		f := ai.FindFunc(c.Prog, "common/utils", x.name)
		if f == nil {
			c.Fail("padding", x.name, "anchor not found")
			continue
		}
		c.SawFunc(flow.Name(f))
		for n := 0; n <= x.width+2; n++ {
			c.Ob("padding", fmt.Sprintf("%s len=%d", flow.Name(f), n), func(t *T) {
				h09PadOne(t, f, x.width, n)
			})
		}
	}
}

// h09PadOne: symbolic bytes of one length.
func h09PadOne(t *T, f *ssa.Function, width, n int) {
	m := t.M(ai.BN254Fr)
	in, full := spareSlice(symBytes(m, "d", n), 40)
	before := append(ai.Slice(nil), full...)
	if n > width {
		mustPanic(t, m, "common/utils", f.Name(), fmt.Sprintf("%d bytes", n), in)
		return
	}
	got := asSlice(t.Run(m, "common/utils", f.Name(), in))
	mustLen("word", len(got), width)
	for i := range got {
		p := m.HPoly(got[i])
		if i < width-n {
			mustEq(m, fmt.Sprintf("byte %d", i), p, m.Z.Int(0))
		} else {
			mustEq(m, fmt.Sprintf("byte %d", i), p, m.HPoly(before[i-(width-n)]))
		}
	}
	mustUnchanged("the argument", full, before)
}
