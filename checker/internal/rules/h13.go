package rules

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"zkcheck/internal/ai"
	"zkcheck/internal/flow"
)

const h13U = "common/utils"

// h13Each explores a function and decides each returning path.
func h13Each(c *Ctx, pkg, name, group string, judge func(f *ssa.Function, e *flow.Engine, p *flow.Path) string) {
	fail := func(f string, a ...any) { c.Fail(group, pkg+"."+name, fmt.Sprintf(f, a...)) }
	f := aiFind(c, pkg, name)
	if f == nil {
		fail("function %s.%s is gone", pkg, name)
		return
	}
	e := flow.New(c.Prog)
	paths := e.Explore(f)
	c.sawFlow(e, paths)
	n := 0
	for _, p := range paths {
		switch p.Kind {
		case "truncated":
			continue
		case "undecided":
			fail("%s: undecided at %s: %s", name, c.at(p), p.Note)
			return
		case "return":
		default:
			fail("%s does not answer (%s at %s; %s)", name, p.Kind, c.at(p), pathTrace(c, p))
			return
		}
		n++
		if msg := judge(f, e, p); msg != "" {
			fail("%s: %s (%s; %s)", name, msg, c.at(p), pathTrace(c, p))
			return
		}
	}
	if n == 0 {
		fail("%s has no returning path", name)
		return
	}
	c.Pass(group, pkg+"."+name)
}

func h13Param(e *flow.Engine, f *ssa.Function, i int) *flow.Term {
	return e.Param(f.Params[i].Name(), f.Params[i].Type())
}

// h13At is element i of a slice held in a term.
func h13At(e *flow.Engine, p *flow.Path, s *flow.Term, st types.Type, i int64) *flow.Term {
	et := st.Underlying().(*types.Slice).Elem()
	return e.Load(p.State, e.T("iaddr", "", types.NewPointer(et), s, e.Int(i)), et)
}

// h13Len is the number of elements a path has established for a slice.
func h13Len(e *flow.Engine, p *flow.Path, s *flow.Term) (int64, bool) {
	lo, hi := p.Range(e.Len(p.State, s))
	return lo, lo == hi
}

var h13Start = map[int64]int64{42161: 185536768, 10: 119300224, 97: 41759160, 56: 40077400}

func h13StartBlock(c *Ctx) {
	const name = "GetStartBlockInfo"
	field := func(v *flow.Term, t types.Type, e *flow.Engine, n string) *flow.Term {
		return e.FieldOfValue(v, t, n)
	}
	f := aiFind(c, h13U, name)
	if f == nil {
		c.Fail("start block", name, "function is gone")
		return
	}
	// a table kept in a map or slice is read by abstract execution at every chain
	// it can distinguish: its own keys
	tabular := false
	e := flow.New(c.Prog)
	for _, p := range e.Explore(f) {
		if p.Kind != "return" {
			tabular = true
			break
		}
		for _, n := range []string{"BlockNumber", "InitialIndex"} {
			if _, ok := flow.ConstInt(field(p.Results[0], f.Signature.Results().At(0).Type(), e, n)); !ok {
				tabular = true
			}
		}
	}
	if tabular {
		ids := map[int64]bool{0: true, 1: true, 11: true, 1<<62 + 1: true}
		for k := range h13Start {
			ids[k], ids[k+1], ids[k-1] = true, true, true
		}
		for _, k := range c.shapeConsts(h13U) {
			ids[k], ids[k+1] = true, true
			if k > 0 {
				ids[k-1] = true
			}
		}
		if in := f.Pkg.Func("init"); in != nil {
			for _, b := range in.Blocks {
				for _, x := range b.Instrs {
					if mu, ok := x.(*ssa.MapUpdate); ok {
						if k, ok := mu.Key.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
							n, _ := constant.Int64Val(k.Value)
							ids[n], ids[n+1] = true, true
						}
					}
				}
			}
		}
		for id := range ids {
			c.Ob("start block", fmt.Sprintf("chain %d", id), func(t *T) {
				m := t.M(ai.BN254Fr)
				r := t.Run(m, h13U, name, id).(ai.Struct)
				st := f.Signature.Results().At(0).Type().Underlying().(*types.Struct)
				want := map[string]int64{"BlockNumber": h13Start[id], "InitialIndex": h13Start[id] / 128, "ChainId": id}
				for i := 0; i < st.NumFields(); i++ {
					w, ok := want[st.Field(i).Name()]
					if k, isK := r[i].(int64); ok && (!isK || k != w) {
						Failf("chain %d: %s is %v, the table says %d", id, st.Field(i).Name(), r[i], w)
					}
				}
			})
		}
		return
	}
	h13Each(c, h13U, name, "start block", func(f *ssa.Function, e *flow.Engine, p *flow.Path) string {
		id := h13Param(e, f, 0)
		rt := f.Signature.Results().At(0).Type()
		want, open := int64(0), false
		for k, b := range h13Start {
			y, known := p.Truth(e.Eq(id, e.Int(k)))
			switch {
			case known && y:
				want, open = b, false
			case !known:
				open = true
			}
			if known && y {
				break
			}
		}
		if open {
			return "answers without telling the chains of the table apart"
		}
		bn, _ := flow.ConstInt(field(p.Results[0], rt, e, "BlockNumber"))
		ix, _ := flow.ConstInt(field(p.Results[0], rt, e, "InitialIndex"))
		if bn != want {
			return fmt.Sprintf("starts at block %d, the table says %d", bn, want)
		}
		if ix != want/128 {
			return fmt.Sprintf("initial index %d of start block %d, want the chunk %d", ix, bn, want/128)
		}
		got := field(p.Results[0], rt, e, "ChainId")
		if got != id {
			if k, ok := flow.ConstInt(got); ok {
				if y, known := p.Truth(e.Eq(id, e.Int(k))); known && y {
					return ""
				}
			}
			return fmt.Sprintf("names chain %s", got)
		}
		return ""
	})
}

func h13Member(c *Ctx, pkg, name string) {
	h13Each(c, pkg, name, "membership", func(f *ssa.Function, e *flow.Engine, p *flow.Path) string {
		var list, x *flow.Term
		var lt types.Type
		for i, q := range f.Params {
			if _, ok := q.Type().Underlying().(*types.Slice); ok {
				list, lt = h13Param(e, f, i), q.Type()
			} else {
				x = h13Param(e, f, i)
			}
		}
		r := p.Results[0]
		if a, ok := callTo(r, "slices.Contains", 0); ok && a[0] == list && a[1] == x {
			return ""
		}
		yes, known := p.Truth(r)
		lo, hi := p.Range(e.Len(p.State, list))
		if lo == hi || known && yes {
			all := true
			for i := int64(0); i < lo && i < 64; i++ {
				y, k := p.Truth(e.Eq(x, h13At(e, p, list, lt, i)))
				if k && y {
					if known && yes {
						return ""
					}
					return fmt.Sprintf("answers %s although entry %d equals the target", r, i)
				}
				if !k {
					all = false
					if r == e.Eq(x, h13At(e, p, list, lt, i)) {
						all = true // the answer is this comparison; the others must be false
					}
				} else if r == e.Eq(x, h13At(e, p, list, lt, i)) {
					continue
				}
			}
			if known && yes {
				return "answers true although no entry is known to equal the target"
			}
			if !all {
				return "answers before every entry was compared"
			}
			if known {
				return ""
			}
			for i := int64(0); i < lo; i++ {
				if r == e.Eq(x, h13At(e, p, list, lt, i)) {
					return ""
				}
			}
			return fmt.Sprintf("answers %s", r)
		}
		return fmt.Sprintf("answers %s with entries left uncompared", r)
	})
}

func h13Partition(c *Ctx) {
	h13Each(c, h13U, "Partition", "partition", func(f *ssa.Function, e *flow.Engine, p *flow.Path) string {
		vs, keys := h13Param(e, f, 0), h13Param(e, f, 1)
		nv, ok1 := h13Len(e, p, vs)
		nk, ok2 := h13Len(e, p, keys)
		type pair struct{ k, v *flow.Term }
		verdict := map[pair]bool{}
		asked := map[pair]bool{}
		groups := map[*flow.Term][]*flow.Term{}
		res := p.Results[0]
		for _, ev := range p.Events {
			switch {
			case ev.Kind == "call" && strings.HasPrefix(ev.Name, "dynamic:") && len(ev.Args) == 2:
				y, known := p.Truth(ev.Results[0])
				if known {
					asked[pair{ev.Args[0], ev.Args[1]}] = true
					verdict[pair{ev.Args[0], ev.Args[1]}] = y
				}
			case ev.Kind == "mapupdate":
				if ev.Args[0] != res {
					continue
				}
				k, parts := ev.Args[1], e.Parts(p.State, ev.Args[2])
				cur := groups[k]
				if len(parts) > 0 && parts[0].Op == "sp" && parts[0].Args[0].Op == "lookup" && parts[0].Args[0].Args[0] == res && parts[0].Args[0].Args[1] == k {
					parts = parts[1:]
				} else {
					cur = nil
				}
				for _, x := range parts {
					if x.Op != "el" {
						return fmt.Sprintf("group of %s receives %s", k, x)
					}
					cur = append(cur, x.Args[0])
				}
				groups[k] = cur
			}
		}
		if res.Op == "nil" {
			return "returns a nil map"
		}
		if !ok1 || !ok2 {
			if nv == 0 && ok1 || nk == 0 && ok2 {
				return ""
			}
			return "returns before every value and key was visited"
		}
		for i := int64(0); i < nk; i++ {
			k := h13At(e, p, keys, f.Params[1].Type(), i)
			var want []*flow.Term
			for j := int64(0); j < nv; j++ {
				v := h13At(e, p, vs, f.Params[0].Type(), j)
				if !asked[pair{k, v}] {
					return fmt.Sprintf("the predicate is not asked about key %d and value %d", i, j)
				}
				if verdict[pair{k, v}] {
					want = append(want, v)
				}
			}
			if fmt.Sprint(groups[k]) != fmt.Sprint(want) {
				return fmt.Sprintf("key %d holds %v, want %v", i, groups[k], want)
			}
			delete(groups, k)
		}
		if len(groups) > 0 {
			return "groups appear under keys that were not given"
		}
		return ""
	})
}

// h13Text flattens a string term; numbers in decimal become dec(x), hex texts hex(x).
func h13Text(e *flow.Engine, p *flow.Path, t *flow.Term) string {
	switch {
	case t.Op == "seq" || t.Op == "slice":
		s := ""
		for _, x := range e.Parts(p.State, t) {
			if x.Op != "sp" {
				return s + "?" + x.String()
			}
			s += h13Text(e, p, x.Args[0])
		}
		return s
	case strings.HasPrefix(t.Op, "fmt:") || t.Op == "fmt":
	}
	if s, ok := flow.ConstStr(t); ok {
		return s
	}
	if s := t.String(); strings.HasPrefix(s, "fmt:d(") || strings.HasPrefix(s, "fmt:v(") {
		x := t.Args[0]
		if x.Typ != nil {
			if b, ok := x.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return h13Text(e, p, x)
			}
		}
		return "<dec " + x.String() + ">"
	}
	if a, ok := callTo(t, "strconv.FormatUint", 0); ok {
		if k, ok := flow.ConstInt(a[1]); ok && k == 10 {
			return "<dec " + a[0].String() + ">"
		}
	}
	if a, ok := callTo(t, "hexutil.Encode", 0); ok {
		return "0x<hex " + a[0].String() + ">"
	}
	if a, ok := callTo(t, "hex.EncodeToString", 0); ok {
		return "<hex " + a[0].String() + ">"
	}
	return "<" + t.String() + ">"
}

func h13Texts(c *Ctx) {
	h13Each(c, "common/s3api", "ObjectKey", "text", func(f *ssa.Function, e *flow.Engine, p *flow.Path) string {
		want := fmt.Sprintf("<%s>/<dec %s>.json", h13Param(e, f, 0), h13Param(e, f, 1))
		if got := h13Text(e, p, p.Results[0]); got != want {
			return fmt.Sprintf("key %s, want %s", got, want)
		}
		return ""
	})
	h13Each(c, h13U, "Convert2DimensionalByteArrayToString", "text", func(f *ssa.Function, e *flow.Engine, p *flow.Path) string {
		in := h13Param(e, f, 0)
		n, ok := h13Len(e, p, in)
		if !ok {
			return "returns before every row was visited"
		}
		var want []string
		for i := int64(0); i < n; i++ {
			want = append(want, "0x<hex "+h13At(e, p, in, f.Params[0].Type(), i).String()+">")
		}
		if got := h13Text(e, p, p.Results[0]); got != strings.Join(want, ",") {
			return fmt.Sprintf("text %q, want %q", got, strings.Join(want, ","))
		}
		return ""
	})
}

func h13Paths(c *Ctx) {
	h13Each(c, "common/proof", "SDKQueryProvingInfo.GetSubProofS3Path", "sub-proof paths", func(f *ssa.Function, e *flow.Engine, p *flow.Path) string {
		q := h13Param(e, f, 0)
		var want []*flow.Term
		for _, l := range [][2]string{{"ReceiptInfos", "TransactionHash"}, {"StorageSlotInfos", "StorageHash"}, {"TransactionInfos", "TransactionHash"}} {
			list := e.FieldOf(p.State, q, l[0])
			lt := list.Typ
			n, ok := h13Len(e, p, list)
			if !ok {
				return "returns before every entry of " + l[0] + " was visited"
			}
			for i := int64(0); i < n; i++ {
				x := h13At(e, p, list, lt, i)
				if _, ok := x.Typ.Underlying().(*types.Pointer); ok {
					want = append(want, e.FieldOf(p.State, x, l[1]))
				} else {
					want = append(want, e.FieldOfValue(x, x.Typ, l[1]))
				}
			}
		}
		var got []*flow.Term
		parts := e.Parts(p.State, p.Results[0])
		if r := p.Results[0]; r.Op == "obj" { // a list made at its final length
			n, ok := h13Len(e, p, r)
			if !ok {
				return fmt.Sprintf("lists an unknown number of entries (%s)", e.Len(p.State, r))
			}
			parts = nil
			for i := int64(0); i < n; i++ {
				parts = append(parts, e.T("el", "", nil, h13At(e, p, r, f.Signature.Results().At(0).Type(), i)))
			}
		}
		for _, x := range parts {
			if x.Op != "el" {
				return fmt.Sprintf("lists %s", x)
			}
			got = append(got, x.Args[0])
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			return fmt.Sprintf("lists %v, want %v", got, want)
		}
		return ""
	})
}

// h13Quantity reads a term as a rational multiple of the quantities a rule names:
// the linear form over atoms, in which truncating division is kept apart.
type h13Lin map[string]*big.Rat

func h13Linear(t *flow.Term) h13Lin {
	if k, ok := flow.ConstInt(t); ok {
		return h13Lin{"1": big.NewRat(k, 1)}
	}
	switch {
	case t.Op == "conv" && wide64(t.Typ):
		return h13Linear(t.Args[0])
	case t.Op == "bin" && len(t.Args) == 2:
		a, b := h13Linear(t.Args[0]), h13Linear(t.Args[1])
		one := func(l h13Lin) *big.Rat {
			if len(l) == 1 {
				return l["1"]
			}
			return nil
		}
		switch t.Str {
		case "+", "-":
			r := h13Lin{}
			for k, v := range a {
				r[k] = new(big.Rat).Set(v)
			}
			for k, v := range b {
				if r[k] == nil {
					r[k] = new(big.Rat)
				}
				if t.Str == "+" {
					r[k].Add(r[k], v)
				} else {
					r[k].Sub(r[k], v)
				}
				if r[k].Sign() == 0 {
					delete(r, k)
				}
			}
			return r
		case "*":
			if one(a) == nil {
				a, b = b, a
			}
			if k := one(a); k != nil {
				r := h13Lin{}
				for n, v := range b {
					r[n] = new(big.Rat).Mul(v, k)
				}
				return r
			}
		case "/":
			if k := one(b); k != nil && k.Sign() > 0 {
				return h13Lin{fmt.Sprintf("floor(%s/%s)", h13Form(a), k.RatString()): big.NewRat(1, 1)}
			}
		case "%": // x - k*floor(x/k)
			if k := one(b); k != nil && k.Sign() > 0 {
				r := h13Lin{}
				for n, v := range a {
					r[n] = new(big.Rat).Set(v)
				}
				r[fmt.Sprintf("floor(%s/%s)", h13Form(a), k.RatString())] = new(big.Rat).Neg(k)
				return r
			}
		}
	}
	if a, ok := callTo(t, "time.Time).UnixMilli", 0); ok {
		return h13Lin{fmt.Sprintf("floor(ns %s/1000000)", a[0]): big.NewRat(1, 1)}
	}
	if a, ok := callTo(t, "time.Time).UnixNano", 0); ok {
		return h13Lin{"ns " + a[0].String(): big.NewRat(1, 1)}
	}
	return h13Lin{t.String(): big.NewRat(1, 1)}
}

// wide64: a 64-bit integer type, to which a conversion loses nothing of the range claimed.
func wide64(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.Uint, types.Uint64:
		return true
	}
	return false
}

func h13Form(l h13Lin) string {
	var ks []string
	for k, v := range l {
		if v.Sign() == 0 {
			continue
		}
		if v.Cmp(big.NewRat(1, 1)) == 0 {
			ks = append(ks, k)
		} else {
			ks = append(ks, v.RatString()+"*"+k)
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, "+")
}

// h13Instant: the nanoseconds since the epoch a time.Time term denotes.
func h13Instant(t *flow.Term) string {
	scale := func(l h13Lin, k int64) h13Lin {
		r := h13Lin{}
		for n, v := range l {
			r[n] = new(big.Rat).Mul(v, big.NewRat(k, 1))
		}
		return r
	}
	if a, ok := callTo(t, "time.UnixMilli", 0); ok {
		return h13Form(scale(h13Linear(a[0]), 1000000))
	}
	if a, ok := callTo(t, "time.UnixMicro", 0); ok {
		return h13Form(scale(h13Linear(a[0]), 1000))
	}
	if a, ok := callTo(t, "time.Unix", 0); ok {
		r := scale(h13Linear(a[0]), 1000000000)
		for n, v := range h13Linear(a[1]) {
			if r[n] == nil {
				r[n] = new(big.Rat)
			}
			r[n].Add(r[n], v)
		}
		return h13Form(r)
	}
	return t.String()
}

func h13Times(c *Ctx) {
	h13Each(c, h13U, "TsMilli", "time", func(f *ssa.Function, e *flow.Engine, p *flow.Path) string {
		want := fmt.Sprintf("floor(ns %s/1000000)", h13Param(e, f, 0))
		if got := h13Form(h13Linear(p.Results[0])); got != want {
			return fmt.Sprintf("gives %s, want %s", got, want)
		}
		return ""
	})
	for name, k := range map[string]string{"TsMilliToTime": "1000000", "TsSecToTime": "1000000000"} {
		h13Each(c, h13U, name, "time", func(f *ssa.Function, e *flow.Engine, p *flow.Path) string {
			want := k + "*" + h13Param(e, f, 0).String()
			if got := h13Instant(p.Results[0]); got != want {
				return fmt.Sprintf("gives the instant %s ns, want %s ns", got, want)
			}
			return ""
		})
	}
}

func h13Numbers(c *Ctx) {
	bits := func(a *flow.Term, want ...int64) bool {
		k, ok := flow.ConstInt(a)
		for _, w := range want {
			if ok && k == w {
				return true
			}
		}
		return false
	}
	for _, name := range []string{"Str2Int", "Str2Uint64", "Str2BigInt"} {
		h13Each(c, h13U, name, "number", func(f *ssa.Function, e *flow.Engine, p *flow.Path) string {
			s := h13Param(e, f, 0)
			t := p.Results[0]
			for t.Op == "conv" {
				if !wide64(t.Typ) {
					return fmt.Sprintf("narrows the number to %s", t.Typ)
				}
				t = t.Args[0]
			}
			if name == "Str2BigInt" {
				for _, ev := range p.Events {
					if ev.Kind == "call" && strings.HasSuffix(ev.Name, "big.Int).SetString") && len(ev.Args) == 3 && (ev.Args[0] == t || ev.Results[0] == t) {
						if ev.Args[1] == s && bits(ev.Args[2], 10) {
							return ""
						}
						return fmt.Sprintf("reads %s in base %s", ev.Args[1], ev.Args[2])
					}
				}
				if len(p.Events) > 0 && isZeroTerm(t) { // refused text
					return ""
				}
				return fmt.Sprintf("gives %s", t)
			}
			if isZeroTerm(t) { // refused text: a failed parse must be known
				for _, ev := range p.Events {
					if ev.Err != nil {
						if n, known := p.Nil(ev.Err); known && !n {
							return ""
						}
					}
				}
				return "gives 0 for text that may be a number"
			}
			if name == "Str2Int" {
				if a, ok := callTo(t, "strconv.Atoi", 0); ok && a[0] == s {
					return ""
				}
				if a, ok := callTo(t, "strconv.ParseInt", 0); ok && a[0] == s && bits(a[1], 10) && bits(a[2], 0, 64) {
					return ""
				}
				return fmt.Sprintf("gives %s", t)
			}
			if a, ok := callTo(t, "strconv.ParseUint", 0); ok && a[0] == s && bits(a[1], 10) && bits(a[2], 0, 64) {
				return ""
			}
			return fmt.Sprintf("gives %s, which does not cover the numbers above 2^63", t)
		})
	}
}

func init() {
	register("H13", "Path-sensitive interpretation of the lookup, collection, naming and conversion helpers with symbolic arguments: on every path the answer is compared with the documented one, given exactly what the path has established about the input.", func(c *Ctx) {
		h13StartBlock(c)
		h13Member(c, h13U, "Contains")
		h13Member(c, "common/circuits", "ChunkIndexFound")
		h13Partition(c)
		h13Texts(c)
		h13Paths(c)
		h13Times(c)
		h13Numbers(c)
	})
}
