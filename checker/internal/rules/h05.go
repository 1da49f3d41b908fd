package rules

import (
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"zkcheck/internal/flow"
)

// Fields covered by the signature of each transaction type (EIP-155, EIP-2930,
// EIP-1559, EIP-4844 and the original scheme); "0" is the empty integer.
var h05Fields = map[string][]string{
	"legacy":    {"Nonce", "GasPrice", "Gas", "To", "Value", "Data"},
	"protected": {"Nonce", "GasPrice", "Gas", "To", "Value", "Data", "ChainId", "0", "0"},
	"type 1":    {"ChainId", "Nonce", "GasPrice", "Gas", "To", "Value", "Data", "AccessList"},
	"type 2":    {"ChainId", "Nonce", "GasTipCap", "GasFeeCap", "Gas", "To", "Value", "Data", "AccessList"},
	"type 3":    {"ChainId", "Nonce", "GasTipCap", "GasFeeCap", "Gas", "To", "Value", "Data", "AccessList", "BlobGasFeeCap", "BlobHashes"},
}

func isTxCall(f *ssa.Function, t *flow.Term, m string) bool {
	a, ok := callTo(t, "core/types.Transaction)."+m, 0)
	return ok && len(a) == 1 && a[0].Op == "param" && a[0].Str == f.Params[0].Name()
}

// txKind is the kind of transaction the path is about.
func txKind(f *ssa.Function, p *flow.Path) (string, int64) {
	typ := int64(-1)
	prot := 0
	for _, ft := range p.Facts {
		c, v := ft.Cond, ft.Val
		for c.Op == "not" {
			c, v = c.Args[0], !v
		}
		if isTxCall(f, c, "Protected") {
			prot = 1
			if v {
				prot = 2
			}
		}
		for _, a := range c.Args {
			if isTxCall(f, flow.Strip(a), "Type") {
				if lo, hi := p.Range(flow.Strip(a)); lo == hi {
					typ = lo
				}
				if lo, hi := p.Range(a); lo == hi {
					typ = lo
				}
			}
		}
	}
	switch {
	case typ == 0 && prot == 2:
		return "protected", 0
	case typ == 0 && prot == 1:
		return "legacy", 0
	case typ > 0:
		return fmt.Sprintf("type %d", typ), typ
	}
	return "", typ
}

func zeroBig(t *flow.Term) bool {
	t = flow.Strip(t)
	if k, ok := flow.ConstInt(t); ok {
		return k == 0
	}
	if t.Op == "big" && t.Str == "zero" {
		return true
	}
	n, a, _, ok := flow.CallOf(t)
	if ok && (strings.HasSuffix(n, "math/big.NewInt") || n == "SetUint64" || n == "SetInt64") && len(a) == 1 {
		return zeroBig(a[0])
	}
	return false
}

// rlpItems lists the items RLP writes for a value passed to EncodeToBytes.
func rlpItems(v *flow.Term) ([]*flow.Term, string) {
	switch v.Op {
	case "seq":
		var out []*flow.Term
		for _, p := range v.Args {
			if p.Op != "el" {
				return nil, "a list of unknown length is encoded"
			}
			out = append(out, flow.Strip(p.Args[0]))
		}
		return out, ""
	case "array":
		var out []*flow.Term
		for _, p := range v.Args {
			out = append(out, flow.Strip(p))
		}
		return out, ""
	case "struct":
		s, ok := v.Typ.Underlying().(*types.Struct)
		if !ok {
			return nil, "not a struct"
		}
		var out []*flow.Term
		for i := 0; i < s.NumFields(); i++ {
			if !s.Field(i).Exported() {
				continue
			}
			tag := reflect.StructTag(s.Tag(i)).Get("rlp")
			switch tag {
			case "-":
				continue
			case "", "nil", "nilString":
			default:
				return nil, fmt.Sprintf("field %s is encoded with tag %q", s.Field(i).Name(), tag)
			}
			out = append(out, flow.Strip(v.Args[i]))
		}
		return out, ""
	}
	return nil, fmt.Sprintf("%s is encoded", v)
}

// signedPayload checks the list given to RLP.
func signedPayload(f *ssa.Function, t *flow.Term, kind string) string {
	a, ok := callTo(t, "rlp.EncodeToBytes", 0)
	if !ok {
		return fmt.Sprintf("the payload %s is not an RLP encoding", t)
	}
	want, ok := h05Fields[kind]
	if !ok {
		return fmt.Sprintf("a payload is built for a transaction of unknown kind %q", kind)
	}
	items, m := rlpItems(a[0])
	if m != "" {
		return m
	}
	if len(items) != len(want) {
		return fmt.Sprintf("%d fields are signed for a %s transaction instead of %d", len(items), kind, len(want))
	}
	for i, w := range want {
		if w == "0" {
			if !zeroBig(items[i]) {
				return fmt.Sprintf("field %d of a %s transaction is %s, not 0", i, kind, items[i])
			}
			continue
		}
		if !isTxCall(f, items[i], w) {
			return fmt.Sprintf("field %d of a %s transaction is %s, not %s", i, kind, items[i], w)
		}
	}
	return ""
}

// linear reads an integer term as a linear form over atoms.
type linForm struct {
	c *big.Int
	m map[*flow.Term]*big.Int
}

func lin(t *flow.Term, atom func(*flow.Term) bool) (*linForm, bool) {
	t = flow.Strip(t)
	if atom(t) {
		return &linForm{new(big.Int), map[*flow.Term]*big.Int{t: big.NewInt(1)}}, true
	}
	if k, ok := flow.ConstInt(t); ok {
		return &linForm{big.NewInt(k), map[*flow.Term]*big.Int{}}, true
	}
	comb := func(a, b *flow.Term, op string) (*linForm, bool) {
		x, ok := lin(a, atom)
		if !ok {
			return nil, false
		}
		y, ok := lin(b, atom)
		if !ok {
			return nil, false
		}
		switch op {
		case "+", "-":
			s := big.NewInt(1)
			if op == "-" {
				s.SetInt64(-1)
			}
			r := &linForm{new(big.Int).Add(x.c, new(big.Int).Mul(s, y.c)), map[*flow.Term]*big.Int{}}
			for k, v := range x.m {
				r.m[k] = new(big.Int).Set(v)
			}
			for k, v := range y.m {
				if r.m[k] == nil {
					r.m[k] = new(big.Int)
				}
				r.m[k].Add(r.m[k], new(big.Int).Mul(s, v))
			}
			return r, true
		case "*":
			if len(x.m) > 0 && len(y.m) > 0 {
				return nil, false
			}
			if len(x.m) > 0 {
				x, y = y, x
			}
			r := &linForm{new(big.Int).Mul(x.c, y.c), map[*flow.Term]*big.Int{}}
			for k, v := range y.m {
				r.m[k] = new(big.Int).Mul(x.c, v)
			}
			return r, true
		case "<<":
			if len(y.m) > 0 || y.c.Sign() < 0 || y.c.BitLen() > 6 {
				return nil, false
			}
			r := &linForm{new(big.Int).Lsh(x.c, uint(y.c.Int64())), map[*flow.Term]*big.Int{}}
			for k, v := range x.m {
				r.m[k] = new(big.Int).Lsh(v, uint(y.c.Int64()))
			}
			return r, true
		}
		return nil, false
	}
	if t.Op == "bin" {
		return comb(t.Args[0], t.Args[1], t.Str)
	}
	n, a, _, ok := flow.CallOf(t)
	if !ok {
		return nil, false
	}
	switch {
	case strings.HasSuffix(n, "big.Int).Uint64"), strings.HasSuffix(n, "big.Int).Int64"), n == "SetUint64", n == "SetInt64", strings.HasSuffix(n, "math/big.NewInt"):
		return lin(a[0], atom)
	case n == "Add":
		return comb(a[0], a[1], "+")
	case n == "Sub":
		return comb(a[0], a[1], "-")
	case n == "Mul":
		return comb(a[0], a[1], "*")
	case n == "Lsh":
		return comb(a[0], a[1], "<<")
	case n == "zero":
		return &linForm{new(big.Int), map[*flow.Term]*big.Int{}}, true
	}
	return nil, false
}

func (l *linForm) String() string {
	var parts []string
	for k, v := range l.m {
		if v.Sign() != 0 {
			parts = append(parts, fmt.Sprintf("%s*%s", v, k))
		}
	}
	sort.Strings(parts)
	if l.c.Sign() != 0 {
		parts = append(parts, l.c.String())
	}
	return strings.Join(parts, "+")
}

// flatBytes flattens variadic byte slices into their parts.
func flatBytes(ts ...*flow.Term) []*flow.Term {
	var out []*flow.Term
	for _, t := range ts {
		switch t.Op {
		case "seq":
			for _, p := range t.Args {
				x := p.Args[0]
				if x.Op == "seq" {
					out = append(out, flatBytes(x)...)
				} else {
					out = append(out, p)
				}
			}
		case "nil":
		default:
			out = append(out, t)
		}
	}
	return out
}

func h05Recover(c *Ctx, f *ssa.Function, p *flow.Path) string {
	kind, typ := txKind(f, p)
	if _, ok := h05Fields[kind]; !ok {
		return fmt.Sprintf("a signer is returned for a transaction of kind %q (type %d)", kind, typ)
	}
	// result = address of the key recovered from (hash, signature)
	r := p.Results[0]
	for {
		if n, a, _, ok := flow.CallOf(r); ok && strings.HasSuffix(n, "common.Address).Bytes") {
			r = a[0]
			continue
		}
		if r.Op == "seq" && len(r.Args) == 1 && r.Args[0].Op == "sp" {
			r = r.Args[0].Args[0]
			continue
		}
		if r.Op == "slice" {
			lo, _ := flow.ConstInt(r.Args[1])
			hi, ok := flow.ConstInt(r.Args[2])
			if !ok || lo != 0 || hi != 20 {
				return "only a part of the address is returned"
			}
			r = p.Read(r.Args[0])
			continue
		}
		break
	}
	var ecArgs []*flow.Term
	if a, ok := callTo(r, "crypto.PubkeyToAddress", 0); ok {
		k := a[0]
		if k.Op == "load" {
			k = k.Args[0]
		}
		if a2, ok := callTo(k, "crypto.UnmarshalPubkey", 0); ok {
			if a3, ok := callTo(a2[0], "crypto.Ecrecover", 0); ok {
				ecArgs = a3
			}
		} else if a2, ok := callTo(k, "crypto.SigToPub", 0); ok {
			ecArgs = a2
		}
	}
	if ecArgs == nil {
		return fmt.Sprintf("the result %s is not the address of the recovered key", p.Results[0])
	}
	h := hashWrap(ecArgs[0])
	ha, ok := callTo(h, "crypto.Keccak256", 0)
	if !ok {
		ha, ok = callTo(h, "crypto.Keccak256Hash", 0)
	}
	if !ok {
		return fmt.Sprintf("the signature is checked against %s, not against the payload's keccak hash", ecArgs[0])
	}
	pre := flatBytes(ha...)
	if typ > 0 {
		if len(pre) == 0 || pre[0].Op != "el" {
			return fmt.Sprintf("the payload of a %s transaction has no type prefix", kind)
		}
		x := flow.Strip(pre[0].Args[0])
		if k, ok := flow.ConstInt(x); !(ok && k == typ) && !isTxCall(f, x, "Type") {
			return fmt.Sprintf("the payload of a %s transaction starts with %s", kind, x)
		}
		pre = pre[1:]
	}
	if len(pre) != 1 {
		return fmt.Sprintf("the hashed payload of a %s transaction has %d parts: %s", kind, len(pre), termList(pre))
	}
	body := pre[0]
	if body.Op == "sp" || body.Op == "el" {
		body = body.Args[0]
	}
	if m := signedPayload(f, body, kind); m != "" {
		return m
	}
	// signature
	sig := flatBytes(ecArgs[1])
	if len(sig) != 3 {
		return fmt.Sprintf("the signature has parts %s instead of r, s and v", termList(sig))
	}
	raw := func(t *flow.Term, i int) bool {
		a, ok := callTo(t, "core/types.Transaction).RawSignatureValues", i)
		return ok && len(a) == 1 && a[0].Op == "param"
	}
	bitLen := func(x *flow.Term) int64 {
		best := int64(1) << 62
		for _, ft := range p.Facts {
			flow.Walk(ft.Cond, func(y *flow.Term) bool {
				if a, ok := callTo(y, "big.Int).BitLen", 0); ok && a[0] == x {
					if _, hi := p.Range(y); hi < best {
						best = hi
					}
				}
				return true
			})
		}
		return best
	}
	for i := 1; i <= 2; i++ {
		s := sig[i-1]
		if s.Op == "sp" {
			s = s.Args[0]
		}
		name := []string{"", "r", "s"}[i]
		if a, ok := callTo(s, "common.LeftPadBytes", 0); ok {
			k, ok2 := flow.ConstInt(a[1])
			b, ok3 := callTo(a[0], "big.Int).Bytes", 0)
			if !ok2 || k != 32 || !ok3 || !raw(b[0], i) {
				return fmt.Sprintf("%s is written as %s", name, s)
			}
			continue
		}
		if s.Op != "FillBytes" || !raw(s.Args[0], i) {
			return fmt.Sprintf("part %d of the signature is %s, not %s", i-1, s, name)
		}
		if k, ok := flow.ConstInt(s.Args[1]); !ok || k != 32 {
			return fmt.Sprintf("%s is written with another width than 32 bytes", name)
		}
		if bitLen(s.Args[0]) > 256 {
			return fmt.Sprintf("%s is not known to fit 32 bytes", name)
		}
	}
	// v
	isV := func(t *flow.Term) bool { return raw(t, 0) || isTxCall(f, t, "ChainId") }
	norm := func(t *flow.Term) string {
		l, ok := lin(t, isV)
		if !ok {
			return fmt.Sprintf("the recovery id is %s", t)
		}
		want := map[string][2]int64{"legacy": {-27, 0}, "protected": {-35, -2}}[kind] // constant, chain id factor
		for k, v := range l.m {
			w := int64(1)
			if !raw(k, 0) {
				w = want[1]
			}
			if v.Cmp(big.NewInt(w)) != 0 {
				return fmt.Sprintf("the recovery id of a %s transaction is %s", kind, l)
			}
		}
		nAtoms := 1
		if want[1] != 0 {
			nAtoms = 2
		}
		if l.c.Cmp(big.NewInt(want[0])) != 0 || len(l.m) != nAtoms {
			return fmt.Sprintf("the recovery id of a %s transaction is %s", kind, l)
		}
		return ""
	}
	last := sig[2]
	if last.Op == "sp" {
		if a, ok := callTo(last.Args[0], "big.Int).Bytes", 0); ok {
			return norm(a[0])
		}
		return fmt.Sprintf("the recovery id is written as %s", last.Args[0])
	}
	x := last.Args[0]
	if k, ok := flow.ConstInt(x); ok {
		// a constant: only where the value is known to be that constant
		for _, ft := range p.Facts {
			cnd, v := ft.Cond, ft.Val
			for cnd.Op == "not" {
				cnd, v = cnd.Args[0], !v
			}
			if !v || cnd.Op != "eq" {
				continue
			}
			for i := 0; i < 2; i++ {
				k2, ok := flow.ConstInt(cnd.Args[i])
				if !ok || k2 != k {
					continue
				}
				o := cnd.Args[1-i]
				n, a, _, ok := flow.CallOf(o)
				if ok && k == 0 && strings.HasSuffix(n, "big.Int).Sign") || ok && (strings.HasSuffix(n, "big.Int).Int64") || strings.HasSuffix(n, "big.Int).Uint64")) && bitLen(a[0]) <= 63 {
					if m := norm(a[0]); m == "" {
						return ""
					}
				} else if m := norm(o); m == "" && !raw(flow.Strip(o), 0) {
					return ""
				}
			}
		}
		return fmt.Sprintf("the recovery id is set to %d without being known to be %d", k, k)
	}
	if m := norm(x); m != "" {
		return m
	}
	// one byte: must not be truncated
	y := flow.Strip(x)
	if n, a, _, ok := flow.CallOf(y); ok && (strings.HasSuffix(n, "Int64") || strings.HasSuffix(n, "Uint64")) && bitLen(a[0]) <= 8 {
		return ""
	}
	if _, hi := p.Range(y); hi <= 255 {
		return ""
	}
	return "the recovery id may be truncated to one byte"
}

func init() {
	register("H05", "Path-sensitive provenance analysis of signer recovery: for every transaction type (fork on the type and on replay protection) the terms handed to RLP are compared field by field, with struct tags, with the list covered by that type's signature; the recovered address must come from the keccak hash of prefix and payload and from r, s (32 bytes each, known to fit) and the linear form of the recovery id; every other path must return an error.", func(c *Ctx) {
		for _, fn := range []string{"PrepareUnsignedTransactionRlp", "RecoverTransactionSignerAddress"} {
			f := aiFind(c, "common/proof", fn)
			if f == nil {
				c.Fail("signed-payload", fn, "anchor not found")
				continue
			}
			e := flow.New(c.Prog)
			paths := e.Explore(f)
			c.sawFlow(e, paths)
			byKind := map[string]string{}
			n := map[string]int{}
			errs := ""
			for _, p := range paths {
				switch p.Kind {
				case "return":
				case "stop":
					continue
				case "panic":
					errs = "panics at " + c.at(p)
					continue
				default:
					errs = p.Kind + ": " + p.Note
					continue
				}
				if m, _ := lostFailures(c, e, f, p); m != "" && errs == "" {
					errs = m
				}
				if isnil, known := p.Nil(p.Results[1]); known && !isnil {
					continue
				}
				kind, typ := txKind(f, p)
				m := ""
				if fn == "PrepareUnsignedTransactionRlp" {
					m = signedPayload(f, p.Results[0], kind)
				} else {
					m = h05Recover(c, f, p)
				}
				if kind == "" {
					kind = fmt.Sprintf("unknown kind (type %d)", typ)
				}
				n[kind]++
				if m != "" && byKind[kind] == "" {
					byKind[kind] = m + "; " + pathTrace(c, p)
				}
			}
			for _, k := range []string{"legacy", "protected", "type 2"} {
				if n[k] == 0 {
					byKind[k] = "no path handles this kind of transaction"
				}
			}
			for k := range n {
				if byKind[k] == "" {
					byKind[k] = ""
				}
			}
			for k, m := range byKind {
				c.Check("signed-payload", flow.Name(f)+" "+k, m == "", m)
			}
			c.Check("errors-reported", flow.Name(f), errs == "", errs)
		}
		c.Assume = append(c.Assume, "go-ethereum's rlp package encodes structs and lists field by field as documented", "Ecrecover refuses signatures that are not 65 bytes long or have a recovery id above 3", "the accessors of types.Transaction return the transaction's own data")
	})
}
