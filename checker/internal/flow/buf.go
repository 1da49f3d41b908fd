package flow

import (
	"go/types"
	"strings"
)

// textBuf models strings.Builder and bytes.Buffer locals that have only been
// written piecewise as the sequence of what was written.
func textBuf(e *Engine, st *State, c *Call) bool {
	recv := c.Args[0]
	if recv.Op != "obj" && recv.Op != "faddr" {
		return false
	}
	cur, ok := st.mem[recv.key]
	var parts []*Term
	switch {
	case !ok && recv.Op == "obj" && !e.hasBelow(st, recv):
	case ok && cur.Op == "zero":
	case ok && cur.Op == "textbuf":
		parts = cur.Args
	default:
		return false
	}
	set := func(ps []*Term) {
		st.Set(recv, e.T("textbuf", "", nil, ps...))
	}
	isB := strings.Contains(c.Name, "bytes.Buffer")
	switch c.Name[strings.LastIndex(c.Name, ".")+1:] {
	case "WriteString":
		set(append(append([]*Term(nil), parts...), e.strParts(e.contents(st, c.Args[1]))...))
	case "Write":
		set(append(append([]*Term(nil), parts...), e.Parts(st, e.contents(st, c.Args[1]))...))
	case "WriteByte":
		if k, ok := ConstInt(c.Args[1]); ok && k > 0 && k < 128 {
			set(append(append([]*Term(nil), parts...), e.T("sp", "", nil, e.StrC(string(rune(k))))))
		} else {
			set(append(append([]*Term(nil), parts...), e.T("el", "", nil, c.Args[1])))
		}
	case "WriteRune":
		k, ok := ConstInt(c.Args[1])
		if !ok || k <= 0 || k >= 128 {
			return false
		}
		set(append(append([]*Term(nil), parts...), e.T("sp", "", nil, e.StrC(string(rune(k))))))
	case "String":
		c.Result = []*Term{e.simplifyStr(e.Seq(types.Typ[types.String], parts))}
		return true
	case "Bytes":
		if !isB {
			return false
		}
		c.Result = []*Term{e.Seq(types.NewSlice(types.Typ[types.Byte]), parts)}
		return true
	case "Grow":
		return true
	case "Reset":
		set(nil)
		return true
	default:
		return false
	}
	rs := c.Sig.Results()
	for i := 0; i < rs.Len(); i++ {
		if isError(rs.At(i).Type()) {
			c.Result = append(c.Result, e.Nil())
		} else {
			c.Result = append(c.Result, e.Len(st, c.Args[1]))
		}
	}
	return true
}
