// Package flow is a path-sensitive abstract interpreter for the host-side
// code of the repository. Every value is a hash-consed provenance term, every
// external call is an uninterpreted event whose outcome is left open, and
// branches on open conditions are followed both ways under the facts they
// establish. Nothing is executed and no solver is used: facts are nilness,
// truth of boolean terms and integer intervals.
package flow

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is an immutable provenance term.
type Term struct {
	Op   string
	Args []*Term
	Str  string
	Idx  int
	Typ  types.Type
	Fn   *ssa.Function
	C    constant.Value
	key  string
	id   int
	size int
}

func (t *Term) Key() string { return t.key }

// String renders a term for reports.
func (t *Term) String() string {
	return t.render(0)
}

func (t *Term) render(d int) string {
	if t == nil {
		return "?"
	}
	if d > 7 {
		return "…"
	}
	a := func(i int) string { return t.Args[i].render(d + 1) }
	switch t.Op {
	case "const":
		if t.C == nil {
			return "nil"
		}
		return t.C.String()
	case "nil":
		return "nil"
	case "zero":
		return "zero"
	case "param", "global", "obj", "fresh":
		return t.Str
	case "faddr", "field":
		return a(0) + "." + t.Str
	case "iaddr", "index":
		return a(0) + "[" + a(1) + "]"
	case "load":
		return "*" + a(0)
	case "ret":
		if t.Idx == 0 {
			return a(0)
		}
		return fmt.Sprintf("%s#%d", a(0), t.Idx)
	}
	var sb strings.Builder
	sb.WriteString(t.Op)
	if t.Str != "" {
		sb.WriteString(":" + t.Str)
	}
	sb.WriteString("(")
	for i := range t.Args {
		if i > 0 {
			sb.WriteString(", ")
		}
		if i > 14 {
			sb.WriteString("…")
			break
		}
		sb.WriteString(a(i))
	}
	sb.WriteString(")")
	return sb.String()
}

func (e *Engine) mk(op, str string, idx int, typ types.Type, fn *ssa.Function, c constant.Value, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(str)
	if idx != 0 {
		fmt.Fprintf(&sb, "|%d", idx)
	}
	if fn != nil {
		fmt.Fprintf(&sb, "|%p", fn)
	}
	if c != nil {
		sb.WriteString("|" + c.Kind().String() + c.ExactString())
	}
	switch op {
	case "ta", "taok", "conv", "mkiface", "const", "zero", "obj", "fresh":
		if typ != nil {
			sb.WriteString("|" + typ.String())
		}
	}
	size := 1
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
		size += a.size
	}
	k := sb.String()
	if t, ok := e.terms[k]; ok {
		return t
	}
	e.nid++
	t := &Term{Op: op, Args: append([]*Term(nil), args...), Str: str, Idx: idx, Typ: typ, Fn: fn, C: c, key: fmt.Sprintf("t%d", e.nid), id: e.nid, size: size}
	e.terms[k] = t
	return t
}

// T makes an uninterpreted term.
func (e *Engine) T(op, str string, typ types.Type, args ...*Term) *Term {
	return e.mk(op, str, 0, typ, nil, nil, args...)
}

func (e *Engine) Const(v constant.Value, typ types.Type) *Term {
	if v == nil {
		return e.Nil()
	}
	return e.mk("const", "", 0, basicOf(typ), nil, v)
}

// basicOf canonicalises constant types so that equal constants of the same
// kind are the same term.
func basicOf(t types.Type) types.Type { return nil }

func (e *Engine) Int(n int64) *Term   { return e.Const(constant.MakeInt64(n), nil) }
func (e *Engine) Bool(b bool) *Term   { return e.Const(constant.MakeBool(b), nil) }
func (e *Engine) StrC(s string) *Term { return e.Const(constant.MakeString(s), nil) }
func (e *Engine) Nil() *Term          { return e.mk("nil", "", 0, nil, nil, nil) }

// ConstInt returns the value of an integer constant term.
func ConstInt(t *Term) (int64, bool) {
	if t != nil && t.Op == "const" && t.C != nil && t.C.Kind() == constant.Int {
		return constant.Int64Val(t.C)
	}
	return 0, false
}

// ConstBool returns the value of a boolean constant term.
func ConstBool(t *Term) (bool, bool) {
	if t != nil && t.Op == "const" && t.C != nil && t.C.Kind() == constant.Bool {
		return constant.BoolVal(t.C), true
	}
	return false, false
}

// ConstStr returns the value of a string constant term.
func ConstStr(t *Term) (string, bool) {
	if t != nil && t.Op == "const" && t.C != nil && t.C.Kind() == constant.String {
		return constant.StringVal(t.C), true
	}
	return "", false
}

// Root is the base of an address term.
func Root(t *Term) *Term {
	for t.Op == "faddr" || t.Op == "iaddr" {
		t = t.Args[0]
	}
	return t
}

// Strip removes conversions and interface boxing.
func Strip(t *Term) *Term {
	for t != nil && (t.Op == "conv" || t.Op == "mkiface") {
		t = t.Args[0]
	}
	return t
}

// Walk visits all subterms.
func Walk(t *Term, f func(*Term) bool) {
	seen := map[*Term]bool{}
	var w func(*Term)
	w = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if !f(t) {
			return
		}
		for _, a := range t.Args {
			w(a)
		}
	}
	w(t)
}

// Contains reports whether x occurs in t.
func Contains(t, x *Term) bool {
	found := false
	Walk(t, func(y *Term) bool {
		if y == x {
			found = true
		}
		return !found
	})
	return found
}

// CallOf names the call a term is (a result of), with its arguments and the
// index of the result; ok is false for other terms.
func CallOf(t *Term) (name string, args []*Term, idx int, ok bool) {
	if t == nil {
		return
	}
	if t.Op == "ret" {
		idx = t.Idx
		t = t.Args[0]
	}
	if t.Op != "call" && t.Op != "eff" && t.Op != "big" {
		return
	}
	n := t.Str
	if i := strings.LastIndex(n, "@"); i >= 0 && t.Op == "eff" {
		n = n[:i]
	}
	return n, t.Args, idx, true
}

// Lt and Eq build comparison terms.
func (e *Engine) Lt(a, b *Term) *Term { return e.lt(a, b) }
func (e *Engine) Eq(a, b *Term) *Term { return e.eq(a, b) }

// CallOf2 matches a one-argument operator term such as len(x).
func CallOf2(t *Term, op string) (*Term, bool) {
	if t.Op == op && len(t.Args) == 1 {
		return t.Args[0], true
	}
	return nil, false
}
