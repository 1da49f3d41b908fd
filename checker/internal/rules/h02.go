package rules

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"zkcheck/internal/flow"
)

var h02Packages = []string{"common/proof", "common/utils", "common/eth", "common/s3api", "common/circuits", "circuits/fabric/smt"}

func opensFile(n string) bool {
	switch n {
	case "os.Create", "os.Open", "os.OpenFile", "os.CreateTemp", "os.NewFile":
		return true
	}
	return false
}

func writesWhole(n string) bool { return n == "os.WriteFile" || n == "io/ioutil.WriteFile" }

func opensBody(n string) bool {
	switch n {
	case "(*net/http.Client).Do", "(*net/http.Client).Get", "(*net/http.Client).Post", "(*net/http.Client).PostForm", "net/http.Get", "net/http.Post", "net/http.PostForm", "(net/http.RoundTripper).RoundTrip":
		return true
	}
	return false
}

// handle is one resource opened on a path.
type handle struct {
	ev    *flow.Event
	t     *flow.Term // the value close is called on
	write bool
	at    int
}

func handlesOf(e *flow.Engine, p *flow.Path) []handle {
	var hs []handle
	for i, ev := range p.Events {
		if ev.Kind != "call" || len(ev.Results) == 0 {
			continue
		}
		if opensFile(ev.Name) {
			w := ev.Name == "os.Create" || ev.Name == "os.CreateTemp" || ev.Name == "os.NewFile"
			if ev.Name == "os.OpenFile" {
				w = true
				if k, ok := flow.ConstInt(ev.Args[1]); ok && k&3 == 0 {
					w = false
				}
			}
			hs = append(hs, handle{ev, ev.Results[0], w, i})
		} else if opensBody(ev.Name) {
			hs = append(hs, handle{ev, ev.Results[0], false, i})
		}
	}
	return hs
}

func isClose(ev *flow.Event) bool {
	return ev.Kind == "call" && strings.HasSuffix(ev.Name, ").Close") && len(ev.Args) > 0
}

// closes: ev closes h (the file itself, or the body field of a response).
func closes(e *flow.Engine, ev *flow.Event, h handle) bool {
	if !isClose(ev) {
		return false
	}
	a := flow.Strip(ev.Args[0])
	if a == h.t {
		return true
	}
	if opensBody(h.ev.Name) {
		// load of <response>.Body
		return a.Op == "load" && a.Args[0].Op == "faddr" && a.Args[0].Str == "Body" && a.Args[0].Args[0] == h.t
	}
	return false
}

func returned(p *flow.Path, t *flow.Term) bool {
	for _, r := range p.Results {
		if flow.Contains(r, t) {
			return true
		}
	}
	return false
}

// handsOver: the handle itself leaves with the results. An error or plain data
// computed from the handle (what was read, a byte count) does not hold it.
func handsOver(f *ssa.Function, p *flow.Path, t *flow.Term) bool {
	sig := f.Signature.Results()
	for i, r := range p.Results {
		if i < sig.Len() && holdsHandle(sig.At(i).Type(), 0) && flow.Contains(r, t) {
			return true
		}
	}
	return false
}

func holdsHandle(t types.Type, depth int) bool {
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return false
	case *types.Slice:
		return holdsHandle(u.Elem(), depth)
	case *types.Array:
		return holdsHandle(u.Elem(), depth)
	case *types.Map:
		return holdsHandle(u.Elem(), depth)
	case *types.Pointer:
		return depth > 3 || holdsHandle(u.Elem(), depth+1)
	case *types.Struct:
		if depth > 3 {
			return true
		}
		for i := 0; i < u.NumFields(); i++ {
			if holdsHandle(u.Field(i).Type(), depth+1) {
				return true
			}
		}
		return false
	}
	return true
}

func h02Path(c *Ctx, e *flow.Engine, f *ssa.Function, p *flow.Path) string {
	if p.Kind == "undecided" {
		return "undecided: " + p.Note
	}
	if p.Kind != "return" && p.Kind != "panic" {
		return ""
	}
	success := p.Kind == "return"
	var retErr *flow.Term
	if success && errResult(f) {
		retErr = p.Results[len(p.Results)-1]
		if isnil, known := p.Nil(retErr); known && !isnil {
			success = false
		}
	}
	okWhenSuccess := func(err *flow.Term) bool {
		if err == nil {
			return true
		}
		if retErr != nil && (err == retErr || joined(p, retErr, err)) {
			return true // success means it is nil
		}
		isnil, known := p.Nil(err)
		return known && isnil
	}
	for _, h := range handlesOf(e, p) {
		if h.ev.Err != nil {
			if isnil, known := p.Nil(h.ev.Err); known && !isnil {
				continue
			}
		}
		closed := -1
		var closeEv *flow.Event
		for i, ev := range p.Events {
			if i > h.at && closes(e, ev, h) {
				closed, closeEv = i, ev
				break
			}
		}
		if closed < 0 {
			if p.Kind == "return" && opensFile(h.ev.Name) && handsOver(f, p, h.t) {
				continue
			}
			if p.Kind == "panic" {
				continue
			}
			return fmt.Sprintf("%s opened by %s (%s) is not closed on the path that ends at %s; %s", h.t, h.ev.Name, c.Prog.Pos(h.ev.Pos), c.at(p), pathTrace(c, p))
		}
		if !h.write || !success {
			continue
		}
		// a success return of a writer
		if h.ev.Err != nil && !okWhenSuccess(h.ev.Err) {
			return fmt.Sprintf("success is returned at %s although %s (%s) may have failed; %s", c.at(p), h.ev.Name, c.Prog.Pos(h.ev.Pos), pathTrace(c, p))
		}
		if !okWhenSuccess(closeEv.Err) {
			return fmt.Sprintf("success is returned at %s although closing the written file (%s) may have failed; %s", c.at(p), c.Prog.Pos(closeEv.Pos), pathTrace(c, p))
		}
		wrote := false
		via := map[*flow.Term]bool{h.t: true} // the file and buffered writers over it
		pending := -1                         // the last write into a buffer that was not flushed
		for i, ev := range p.Events {
			if i <= h.at || ev.Kind != "call" || isClose(ev) || isLogging(ev.Name) {
				continue
			}
			uses := false
			buffered := false
			for _, a := range ev.Args {
				if s := flow.Strip(a); via[s] {
					uses = true
					buffered = buffered || s != h.t
				}
			}
			if uses && strings.HasPrefix(ev.Name, "bufio.NewWriter") {
				via[ev.Results[0]] = true
				continue
			}
			if buffered && methodName(ev.Name) == "Flush" {
				if i > closed {
					return fmt.Sprintf("%s (%s) flushes after the file was closed; %s", ev.Name, c.Prog.Pos(ev.Pos), pathTrace(c, p))
				}
				if !okWhenSuccess(ev.Err) {
					return fmt.Sprintf("success is returned at %s although %s (%s) may have failed; %s", c.at(p), ev.Name, c.Prog.Pos(ev.Pos), pathTrace(c, p))
				}
				pending = -1
				continue
			}
			if !uses || !isWriting(ev.Name) {
				continue
			}
			if buffered {
				pending = i
			}
			if i > closed {
				return fmt.Sprintf("%s (%s) writes after the file was closed; %s", ev.Name, c.Prog.Pos(ev.Pos), pathTrace(c, p))
			}
			if !okWhenSuccess(ev.Err) {
				return fmt.Sprintf("success is returned at %s although %s (%s) may have failed; %s", c.at(p), ev.Name, c.Prog.Pos(ev.Pos), pathTrace(c, p))
			}
			// what is written must be the caller's object
			src := false
			for _, a := range append(append([]*flow.Term(nil), ev.Args...), ev.Deref...) {
				if paramData(f, a) {
					src = true
				}
			}
			if !src {
				return fmt.Sprintf("%s (%s) does not write any argument of %s", ev.Name, c.Prog.Pos(ev.Pos), flow.Name(f))
			}
			wrote = true
		}
		if pending >= 0 {
			ev := p.Events[pending]
			return fmt.Sprintf("success is returned at %s although what %s (%s) wrote was not flushed; %s", c.at(p), ev.Name, c.Prog.Pos(ev.Pos), pathTrace(c, p))
		}
		if !wrote && !handsOver(f, p, h.t) {
			return fmt.Sprintf("success is returned at %s although nothing was written to the created file; %s", c.at(p), pathTrace(c, p))
		}
		if !fromStringParam(f, h.ev.Args) {
			return fmt.Sprintf("%s (%s) does not open the file named by the caller", h.ev.Name, c.Prog.Pos(h.ev.Pos))
		}
	}
	if success {
		for _, ev := range p.Events {
			if ev.Kind == "call" && writesWhole(ev.Name) && !okWhenSuccess(ev.Err) {
				return fmt.Sprintf("success is returned at %s although %s (%s) may have failed", c.at(p), ev.Name, c.Prog.Pos(ev.Pos))
			}
		}
	}
	return ""
}

func isLogging(n string) bool {
	return strings.Contains(n, "goutils/log.") || strings.HasPrefix(n, "log.") || strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "fmt.Errorf") || strings.HasPrefix(n, "fmt.Sprint")
}

// isWriting: operations that put data into the file they are given.
func isWriting(n string) bool {
	i := strings.LastIndex(n, ".")
	m := n[i+1:]
	return strings.HasPrefix(m, "Write") || strings.HasPrefix(m, "Export") || strings.HasPrefix(m, "Copy") || strings.HasPrefix(m, "Encode") || strings.HasPrefix(m, "Fprint") || strings.HasPrefix(m, "Marshal") || strings.HasPrefix(m, "ReadFrom")
}

func paramData(f *ssa.Function, t *flow.Term) bool {
	ok := false
	flow.Walk(t, func(x *flow.Term) bool {
		if x.Op == "param" && !isStringType(x.Typ) {
			ok = true
		}
		return !ok
	})
	return ok
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func fromStringParam(f *ssa.Function, args []*flow.Term) bool {
	for _, a := range args {
		ok := false
		flow.Walk(a, func(x *flow.Term) bool {
			if x.Op == "param" && x.Typ != nil && isStringType(x.Typ) {
				ok = true
			}
			return !ok
		})
		if ok {
			return true
		}
	}
	return false
}

// readerPath: a reader must hand the opened file to the caller's object (or
// return what it read).
func readerPath(c *Ctx, e *flow.Engine, f *ssa.Function, p *flow.Path) string {
	if p.Kind != "return" || !errResult(f) {
		return ""
	}
	retErr := p.Results[len(p.Results)-1]
	if isnil, known := p.Nil(retErr); known && !isnil {
		return ""
	}
	for _, h := range handlesOf(e, p) {
		if h.write || opensBody(h.ev.Name) || handsOver(f, p, h.t) {
			continue
		}
		if isnil, known := p.Nil(h.ev.Err); known && !isnil {
			continue
		}
		if !fromStringParam(f, h.ev.Args) {
			return fmt.Sprintf("%s (%s) does not open the file named by the caller", h.ev.Name, c.Prog.Pos(h.ev.Pos))
		}
		used := false
		for _, ev := range p.Events {
			if ev.Kind != "call" || isClose(ev) || isLogging(ev.Name) {
				continue
			}
			touches := false
			for _, a := range ev.Args {
				if flow.Strip(a) == h.t {
					touches = true
				}
			}
			if !touches {
				continue
			}
			for _, a := range ev.Args {
				if paramData(f, a) {
					used = true
				}
			}
			for _, r := range ev.Results {
				if returned(p, r) && r != ev.Err {
					used = true
				}
			}
		}
		if !used {
			return fmt.Sprintf("success is returned at %s but what was opened at %s was not read into the caller's object", c.at(p), c.Prog.Pos(h.ev.Pos))
		}
	}
	return ""
}

func init() {
	register("H02", "Path-sensitive typestate analysis of file and body handles: on every returning path of every operation that opens a file or an HTTP body the handle is closed (directly or by a deferred call) or returned; a writer returns success only on paths where creating, writing the caller's object and closing are all known to have succeeded; readers open the named file read-only and hand it to the caller's object.", func(c *Ctx) {
		n := 0
		for _, f := range hostRoots(c, h02Packages, h01SkipFiles...) {
			if !exported(f) || !reaches(c.Prog, f, func(n string) bool { return opensFile(n) || opensBody(n) || writesWhole(n) }) {
				continue
			}
			n++
			e := flowEngine(c)
			e.NoInline = nil
			paths := e.Explore(f)
			c.sawFlow(e, paths)
			bad := ""
			for _, p := range paths {
				if m := h02Path(c, e, f, p); m != "" && bad == "" {
					bad = m
				}
				if m := readerPath(c, e, f, p); m != "" && bad == "" {
					bad = m
				}
			}
			c.Check("handle-typestate", flow.Name(f), bad == "", bad)
			// naming contract of the helpers
			nm := f.Name()
			if strings.HasPrefix(nm, "Write") || strings.HasPrefix(nm, "Read") {
				msg := ""
				for _, p := range paths {
					for _, h := range handlesOf(e, p) {
						if opensFile(h.ev.Name) && h.write != strings.HasPrefix(nm, "Write") {
							msg = fmt.Sprintf("%s opens its file with %s", nm, h.ev.Name)
						}
					}
				}
				c.Check("open-mode", flow.Name(f), msg == "", msg)
			}
		}
		c.Floor("handle-typestate", 20)
		c.Assume = append(c.Assume, "Close on a read-only handle cannot lose data", "paths that end in a panic or process stop release their handles with the process")
	})
}
