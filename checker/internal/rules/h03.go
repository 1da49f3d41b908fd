package rules

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"

	"zkcheck/internal/flow"
)

// remote: the value was received from the node.
func remote(t *flow.Term) bool {
	r := false
	flow.Walk(t, func(x *flow.Term) bool {
		if (x.Op == "eff" || x.Op == "after" || x.Op == "call") && (strings.Contains(x.Str, "net/http.Client).") || strings.HasPrefix(x.Str, "io.ReadAll") || strings.HasPrefix(x.Str, "encoding/json.") || strings.Contains(x.Str, "json.Decoder")) {
			r = true
		}
		return !r
	})
	return r
}

// decoded: the value comes out of a JSON decoding step.
func decoded(t *flow.Term) bool {
	r := false
	flow.Walk(t, func(x *flow.Term) bool {
		if x.Op == "after" && (strings.Contains(x.Str, "encoding/json.") || strings.Contains(x.Str, "json.Decoder")) {
			r = true
		}
		return !r
	})
	return r
}

// jsonKeys collects the JSON keys a decoded value was taken from.
func jsonKeys(t *flow.Term) map[string]bool {
	m := map[string]bool{}
	flow.Walk(t, func(x *flow.Term) bool {
		if x.Op == "lookup" {
			if s, ok := flow.ConstStr(x.Args[1]); ok {
				m[s] = true
			}
		}
		if (x.Op == "field" || x.Op == "faddr") && x.Str != "" {
			for _, s := range structTags[x.Str] {
				m[s] = true
			}
		}
		return true
	})
	return m
}

var structTags map[string][]string

func collectTags(f *ssa.Function) {
	structTags = map[string][]string{}
	add := func(t types.Type) {}
	seen := map[types.Type]bool{}
	add = func(t types.Type) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			add(u.Elem())
		case *types.Slice:
			add(u.Elem())
		case *types.Array:
			add(u.Elem())
		case *types.Map:
			add(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				n := u.Field(i).Name()
				tag := reflect.StructTag(u.Tag(i)).Get("json")
				if k := strings.Split(tag, ",")[0]; k != "" {
					structTags[n] = append(structTags[n], k)
				} else {
					structTags[n] = append(structTags[n], n, strings.ToLower(n[:1])+n[1:])
				}
				add(u.Field(i).Type())
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok {
				add(a.Type())
			}
		}
	}
	for _, g := range f.Pkg.Members {
		if fn, ok := g.(*ssa.Function); ok {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if a, ok := in.(*ssa.Alloc); ok {
						add(a.Type())
					}
				}
			}
		}
	}
}

type h03Spec struct {
	fn   string
	keys []string // JSON key of each result
}

func init() {
	register("H03", "Path-sensitive analysis of the node client: every partial operation (unchecked type assertion, indexing, pointer dereference) applied to a value derived from a response is shown to be guarded on every path, every path on which a step failed, the status was not 200 or a member was missing or of the wrong type ends with the failure value, and results that are not the failure value are exactly the announced members of the decoded answer.", func(c *Ctx) {
		for _, s := range []h03Spec{{"Client.GetSlot", []string{"slot", "finalized"}}, {"Client.GetBlock", []string{"exec_block_number"}}} {
			f := aiFind(c, "common/eth", s.fn)
			if f == nil {
				c.Fail("client-total", s.fn, "anchor common/eth."+s.fn+" not found")
				continue
			}
			collectTags(f)
			e := flowEngine(c)
			e.NoInline = nil
			e.Quiet = nil
			e.Hazards = true
			paths := e.Explore(f)
			c.sawFlow(e, paths)
			hz, total := "", 0
			fail, ans, status := "", "", ""
			answered := 0
			for _, p := range paths {
				if p.Kind == "undecided" {
					hz = "undecided: " + p.Note
				}
				for _, ev := range p.Events {
					switch ev.Kind {
					case "assert", "index", "deref":
						if len(ev.Args) == 0 || !remote(ev.Args[0]) {
							continue
						}
						total++
						if !ev.Safe && hz == "" {
							hz = fmt.Sprintf("unguarded %s of %s at %s; %s", ev.Kind, ev.Args[0], c.Prog.Pos(ev.Pos), pathTrace(c, p))
						}
					}
				}
				if p.Kind == "panic" && hz == "" {
					hz = fmt.Sprintf("panics at %s; %s", c.at(p), pathTrace(c, p))
				}
				if p.Kind != "return" {
					continue
				}
				allZero := true
				fromNode := false
				for _, r := range p.Results {
					if !isZeroTerm(r) {
						allZero = false
					}
					if remote(r) {
						fromNode = true
					}
				}
				if allZero {
					continue
				}
				if m, _ := lostFailures(c, e, f, p); m != "" && fail == "" {
					fail = m
				}
				asked := false
				for _, ev := range p.Events {
					if opensBody(ev.Name) && ev.Kind == "call" {
						asked = true
						// status
						ok := false
						for _, fa := range p.Facts {
							x := fa.Cond
							for x.Op == "not" {
								x = x.Args[0]
							}
							for _, a := range x.Args {
								if a.Op == "load" && a.Args[0].Op == "faddr" && a.Args[0].Str == "StatusCode" && a.Args[0].Args[0] == ev.Results[0] {
									lo, hi := p.Range(a)
									if lo >= 200 && hi <= 299 {
										ok = true
									}
								}
							}
						}
						if !ok && status == "" {
							status = fmt.Sprintf("an answer is returned at %s without the HTTP status being known to be a success; %s", c.at(p), pathTrace(c, p))
						}
					}
				}
				if !asked {
					// answered without asking: only the chains whose slot is the block
					for _, r := range p.Results {
						if r.Op != "param" && ans == "" {
							ans = fmt.Sprintf("returns %s at %s without asking the node", r, c.at(p))
						}
					}
					continue
				}
				answered++
				_ = fromNode
				for i, r := range p.Results {
					if !decoded(r) {
						if ans == "" {
							ans = fmt.Sprintf("result %d at %s is %s, which is not taken from the decoded answer; %s", i, c.at(p), r, pathTrace(c, p))
						}
						continue
					}
					ks := jsonKeys(r)
					if len(ks) == 0 || !ks[s.keys[i]] {
						if ans == "" {
							ans = fmt.Sprintf("result %d at %s is taken from member %v, not from %q", i, c.at(p), keysOf(ks), s.keys[i])
						}
					}
					for j, k := range s.keys {
						if j != i && ks[k] && ans == "" {
							ans = fmt.Sprintf("result %d at %s is taken from member %q", i, c.at(p), k)
						}
					}
					// the member must be known present
					if m := missingMember(e, p, r); m != "" && ans == "" {
						ans = fmt.Sprintf("result %d at %s: %s; %s", i, c.at(p), m, pathTrace(c, p))
					}
				}
			}
			n := flow.Name(f)
			c.Check("no-panic", n, hz == "", hz)
			c.Check("failure-value", n, fail == "", fail)
			c.Check("http-status", n, status == "", status)
			c.Check("answer-provenance", n, ans == "", ans)
			c.Check("answers-exist", n, answered > 0 && total > 0, "no path returns an answer of the node")
			c.Count("guarded_operations", total)
		}
		f := aiFind(c, "common/eth", "Client.GetProof")
		if f == nil {
			c.Fail("delegates", "Client.GetProof", "anchor not found")
			return
		}
		e := flowEngine(c)
		e.NoInline = nil
		paths := e.Explore(f)
		c.sawFlow(e, paths)
		bad := ""
		for _, p := range paths {
			if m, _ := lostFailures(c, e, f, p); m != "" {
				bad = m
			}
			if p.Kind != "return" {
				continue
			}
			var calls []*flow.Event
			for _, ev := range p.Events {
				if ev.Kind == "call" && strings.HasSuffix(ev.Name, "gethclient.Client).GetProof") {
					calls = append(calls, ev)
				}
			}
			if isnil, known := p.Nil(p.Results[1]); known && !isnil {
				continue
			}
			if len(calls) != 1 {
				bad = fmt.Sprintf("%d requests instead of one", len(calls))
				continue
			}
			for i, a := range []string{"ctx", "account", "keys", "blockNumber"} {
				if got := calls[0].Args[i+1]; got.Op != "param" || paramIndex(f, got) != i+1 {
					bad = fmt.Sprintf("argument %s of the request is %s", a, got)
				}
			}
			if p.Results[0] != calls[0].Results[0] {
				bad = "the returned proof is not the node's answer"
			}
		}
		c.Check("delegates", flow.Name(f), bad == "", bad)
		c.Assume = append(c.Assume, "net/http and encoding/json behave as documented", "a client without an error result announces failure by the zero value")
	})
}

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	return out
}

func paramIndex(f *ssa.Function, t *flow.Term) int {
	for i, p := range f.Params {
		if p.Name() == t.Str {
			return i
		}
	}
	return -1
}

// missingMember: every type assertion in the provenance of r is known to have
// succeeded (a typed decode needs a nil check of the pointers on the way).
func missingMember(e *flow.Engine, p *flow.Path, r *flow.Term) string {
	msg := ""
	asserted := false
	flow.Walk(r, func(x *flow.Term) bool {
		if x.Op == "ta" {
			asserted = true
			ok := false
			for _, f := range p.Facts {
				c, v := f.Cond, f.Val
				for c.Op == "not" {
					c, v = c.Args[0], !v
				}
				if v && c.Op == "taok" && c.Args[0] == x.Args[0] && types.Identical(c.Typ, x.Typ) {
					ok = true
				}
			}
			// the zero value of a failed assertion is empty and nil
			n := e.Len(p.State, x)
			if v, known := p.Truth(e.Lt(e.Int(0), n)); known && v {
				ok = true
			}
			if v, known := p.Truth(e.Eq(n, e.Int(0))); known && !v {
				ok = true
			}
			if z, known := p.Nil(x); known && !z {
				ok = true
			}
			if !ok {
				msg = fmt.Sprintf("%s may be absent or of another type", x)
			}
		}
		return true
	})
	if !asserted {
		// typed decode: a pointer on the way must be known non-nil
		ptr := false
		flow.Walk(r, func(x *flow.Term) bool {
			if x.Op == "load" || x.Op == "after" {
				if n, known := p.Nil(x); known && !n {
					ptr = true
				}
			}
			if x.Op == "load" && len(x.Args) == 1 {
				if n, known := p.Nil(x.Args[0]); known && !n {
					ptr = true
				}
			}
			return true
		})
		if !ptr {
			msg = "a missing member would be returned as zero"
		}
	}
	return msg
}
