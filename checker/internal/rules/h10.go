package rules

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"zkcheck/internal/flow"
)

type h10Spec struct {
	method string
	op     []string        // S3 operations that do it
	args   map[string]int  // request field -> parameter index (receiver is 0)
	allow  map[string]bool // other request fields that do not change which object is meant
	data   func(c *Ctx, e *flow.Engine, f *ssa.Function, p *flow.Path, ev *flow.Event) string
}

// strPtr: t is a pointer to the string term x.
func strPtrOf(p *flow.Path, ev *flow.Event, t *flow.Term) *flow.Term {
	switch t.Op {
	case "obj", "faddr", "iaddr":
		x := p.Read(t)
		// as it was when the request was sent
		if x != nil && x.Op == "after" && len(ev.Results) > 0 && x.Args[0] == ev.Results[0].Args[0] {
			x = x.Args[2]
		}
		return x
	}
	if a, ok := callTo(t, "aws.String", 0); ok {
		return a[0]
	}
	return nil
}

func isBucket(f *ssa.Function, t *flow.Term) bool {
	return t != nil && t.Op == "load" && t.Args[0].Op == "faddr" && t.Args[0].Str == "bucket" && paramNamed(f, t.Args[0].Args[0], 0)
}

func h10Path(c *Ctx, e *flow.Engine, f *ssa.Function, s h10Spec, p *flow.Path) string {
	var ev *flow.Event
	for _, x := range p.Events {
		if x.Kind != "call" || !strings.Contains(x.Name, "service/s3") || x.Err == nil {
			continue
		}
		if ev != nil {
			return fmt.Sprintf("%s sends a second request (%s)", s.method, c.Prog.Pos(x.Pos))
		}
		ev = x
	}
	if ev == nil {
		return fmt.Sprintf("%s returns success without asking the store", s.method)
	}
	op := strings.TrimSuffix(ev.Name[strings.LastIndex(ev.Name, ".")+1:], "WithContext")
	ok := false
	for _, o := range s.op {
		ok = ok || o == op
	}
	if !ok {
		return fmt.Sprintf("%s asks the store for %s", s.method, op)
	}
	if n, known := p.Nil(ev.Err); !(known && n) && p.Results[len(p.Results)-1] != ev.Err && !joined(p, p.Results[len(p.Results)-1], ev.Err) {
		return fmt.Sprintf("%s returns %s although the request may have failed", s.method, p.Results[len(p.Results)-1])
	}
	// the client's own handle
	own := false
	h := ev.Args[0]
	flow.Walk(h, func(x *flow.Term) bool {
		if x.Op == "faddr" && paramNamed(f, x.Args[0], 0) {
			own = true
		}
		return !own
	})
	if !own {
		return fmt.Sprintf("%s uses another client (%s)", s.method, h)
	}
	var req *flow.Term
	for i, d := range ev.Deref {
		if d.Op == "struct" && i > 0 {
			req = d
		}
	}
	if req == nil {
		return fmt.Sprintf("the request of %s is not known", s.method)
	}
	st := req.Typ.Underlying().(*types.Struct)
	seen := map[string]bool{}
	for i := 0; i < st.NumFields(); i++ {
		n, v := st.Field(i).Name(), req.Args[i]
		seen[n] = true
		want, bound := s.args[n]
		switch {
		case n == "Bucket":
			if x := strPtrOf(p, ev, v); !isBucket(f, x) {
				return fmt.Sprintf("%s addresses bucket %s instead of the client's", s.method, v)
			}
		case bound:
			x := v
			if n != "Body" {
				x = strPtrOf(p, ev, v)
			}
			if x == nil || !paramNamed(f, flow.Strip(x), want) {
				return fmt.Sprintf("%s sends %s = %s instead of its argument %s", s.method, n, v, f.Params[want].Name())
			}
		case n == "_" || s.allow[n] || s.allow["*"]:
		default:
			if !isZeroTerm(v) {
				return fmt.Sprintf("%s restricts its request by %s = %s", s.method, n, v)
			}
		}
	}
	for n := range s.args {
		if !seen[n] {
			return fmt.Sprintf("the request of %s has no %s", s.method, n)
		}
	}
	if s.data != nil {
		return s.data(c, e, f, p, ev)
	}
	return ""
}

func init() {
	register("H10", "Path-sensitive provenance analysis of the object-store client: on every returning path of every operation exactly one request of the right kind is sent through the client's own handle, with the client's bucket, the caller's key, prefix, body and destination and no other restriction; success is returned only where the request is known to have succeeded and data only from its answer.", func(c *Ctx) {
		specs := []h10Spec{
			{method: "Client.ListObjects", op: []string{"ListObjects", "ListObjectsV2"}, args: map[string]int{"Prefix": 1}, data: func(c *Ctx, e *flow.Engine, f *ssa.Function, p *flow.Path, ev *flow.Event) string {
				r := p.Results[0]
				if r.Op != "load" || r.Args[0].Op != "faddr" || r.Args[0].Str != "Contents" || r.Args[0].Args[0] != ev.Results[0] {
					return fmt.Sprintf("the listing is %s, not the answer's contents", r)
				}
				return ""
			}},
			{method: "Client.Upload", op: []string{"Upload", "PutObject"}, args: map[string]int{"Key": 1, "Body": 2}, allow: map[string]bool{"*": true}, data: func(c *Ctx, e *flow.Engine, f *ssa.Function, p *flow.Path, ev *flow.Event) string {
				for _, x := range p.Events {
					if x == ev || isLogging(x.Name) {
						continue
					}
					for _, a := range x.Args {
						if paramNamed(f, flow.Strip(a), 2) {
							return fmt.Sprintf("the body is also given to %s", x.Name)
						}
					}
				}
				return ""
			}},
			{method: "Client.HeadObject", op: []string{"HeadObject"}, args: map[string]int{"Key": 1}},
			{method: "Client.Download", op: []string{"Download"}, args: map[string]int{"Key": 1}, data: func(c *Ctx, e *flow.Engine, f *ssa.Function, p *flow.Path, ev *flow.Event) string {
				for _, a := range ev.Args {
					if paramNamed(f, flow.Strip(a), 2) {
						return ""
					}
				}
				return "the object is not written to the caller's destination"
			}},
			{method: "Client.Delete", op: []string{"DeleteObject"}, args: map[string]int{"Key": 1}},
		}
		for _, s := range specs {
			f := aiFind(c, "common/s3api", s.method)
			if f == nil {
				c.Fail("request", s.method, "anchor not found")
				continue
			}
			e := flow.New(c.Prog)
			paths := e.Explore(f)
			c.sawFlow(e, paths)
			bad, lost, good := "", "", 0
			for _, p := range paths {
				if p.Kind != "return" {
					if p.Kind != "stop" && p.Kind != "truncated" {
						bad = p.Kind + ": " + p.Note
					}
					continue
				}
				if m, _ := lostFailures(c, e, f, p); m != "" && lost == "" {
					lost = m
				}
				last := p.Results[len(p.Results)-1]
				if n, known := p.Nil(last); known && !n {
					// a refusal: must rest on a failed request, nothing may
					// be refused that was not tried
					tried := false
					for _, x := range p.Events {
						if x.Kind == "call" && strings.Contains(x.Name, "service/s3") && x.Err != nil {
							if n, known := p.Nil(x.Err); known && !n {
								tried = true
							}
						}
					}
					if !tried && bad == "" {
						bad = fmt.Sprintf("%s fails at %s although the store did not; %s", s.method, c.at(p), pathTrace(c, p))
					}
					continue
				}
				good++
				if m := h10Path(c, e, f, s, p); m != "" && bad == "" {
					bad = m + "; " + pathTrace(c, p)
				}
			}
			if good == 0 && bad == "" {
				bad = "no path succeeds"
			}
			c.Check("request", flow.Name(f), bad == "", bad)
			c.Check("outcome", flow.Name(f), lost == "", lost)
		}
		// the client is bound to its bucket
		f := aiFind(c, "common/s3api", "NewClient")
		if f == nil {
			c.Fail("bucket-binding", "NewClient", "anchor not found")
		} else {
			e := flow.New(c.Prog)
			paths := e.Explore(f)
			c.sawFlow(e, paths)
			bad, good := "", 0
			for _, p := range paths {
				if p.Kind != "return" {
					continue
				}
				if m, _ := lostFailures(c, e, f, p); m != "" && bad == "" {
					bad = m
				}
				if n, known := p.Nil(p.Results[1]); known && !n {
					continue
				}
				good++
				b := e.FieldOf(p.State, p.Results[0], "bucket")
				if b == nil || !paramNamed(f, b, 0) {
					bad = fmt.Sprintf("the client's bucket is %s", b)
				}
				var sess *flow.Term
				for _, n := range []string{"s3", "uploader", "downloader"} {
					v := e.FieldOf(p.State, p.Results[0], n)
					var s *flow.Term
					if v != nil {
						flow.Walk(v, func(x *flow.Term) bool {
							if a, i, ok := sessionOf(x); ok && i == 0 {
								s = a
							}
							return s == nil
						})
					}
					if s == nil || sess != nil && s != sess {
						bad = fmt.Sprintf("the client's %s is %s", n, v)
					}
					sess = s
				}
			}
			if good == 0 && bad == "" {
				bad = "no path returns a client"
			}
			c.Check("bucket-binding", flow.Name(f), bad == "", bad)
		}
		f = aiFind(c, "common/s3api", "ObjectKey")
		if f == nil {
			c.Fail("object-key", "ObjectKey", "anchor not found")
			return
		}
		e := flow.New(c.Prog)
		bad := ""
		for _, p := range e.Explore(f) {
			if p.Kind != "return" {
				bad = p.Kind
				continue
			}
			var got []string
			for _, x := range flatBytes(p.Results[0]) {
				y := x
				if y.Op == "sp" {
					y = y.Args[0]
				}
				switch {
				case paramNamed(f, y, 0):
					got = append(got, "<prefix>")
				case y.Op == "fmt" && (y.Str == "d" || y.Str == "v") && paramNamed(f, y.Args[0], 1):
					got = append(got, "<slot>")
				default:
					if a, ok := callTo(y, "strconv.FormatUint", 0); ok && paramNamed(f, a[0], 1) {
						if k, ok := flow.ConstInt(a[1]); ok && k == 10 {
							got = append(got, "<slot>")
							continue
						}
					}
					if s, ok := flow.ConstStr(y); ok {
						got = append(got, s)
					} else {
						got = append(got, "?"+y.String())
					}
				}
			}
			if g := strings.Join(got, ""); g != "<prefix>/<slot>.json" {
				bad = "the key is " + g
			}
		}
		c.Check("object-key", flow.Name(f), bad == "", bad)
		c.Assume = append(c.Assume, "the AWS SDK performs the request it is given and reports its failure by its error result", "s3manager.Downloader.Download reports success only after the whole object was written")
	})
}

func sessionOf(x *flow.Term) (*flow.Term, int, bool) {
	n, _, i, ok := flow.CallOf(x)
	if ok && (strings.HasSuffix(n, "session.NewSession") || strings.HasSuffix(n, "session.NewSessionWithOptions") || strings.HasSuffix(n, "session.New")) {
		return x, i, true
	}
	return nil, 0, false
}
