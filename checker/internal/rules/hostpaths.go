package rules

import (
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"zkcheck/internal/ai"
	"zkcheck/internal/flow"
	"zkcheck/internal/load"
)

// hostRoots lists the functions and methods declared in the packages (with
// bodies, no synthetic wrappers), skipping the named files.
func hostRoots(c *Ctx, pkgs []string, skipFiles ...string) []*ssa.Function {
	var out []*ssa.Function
	skip := map[string]bool{}
	for _, f := range skipFiles {
		skip[f] = true
	}
	for _, rel := range pkgs {
		pk := c.Prog.Pkg(rel)
		if pk == nil {
			continue
		}
		sp := c.Prog.SSA.Package(pk.Types)
		var add func(f *ssa.Function)
		add = func(f *ssa.Function) {
			if f == nil || len(f.Blocks) == 0 || f.Synthetic != "" || f.Parent() != nil {
				return
			}
			if f.TypeParams() != nil && f.TypeParams().Len() > 0 {
				return
			}
			file := c.Prog.Fset.Position(f.Pos()).Filename
			r, _ := filepath.Rel(c.Prog.Dir, file)
			if skip[r] || strings.HasSuffix(file, "_test.go") {
				return
			}
			out = append(out, f)
		}
		for _, m := range sp.Members {
			switch x := m.(type) {
			case *ssa.Function:
				add(x)
			case *ssa.Type:
				n, ok := x.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < n.NumMethods(); i++ {
					add(c.Prog.SSA.FuncValue(n.Method(i)))
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return flow.Name(out[i]) < flow.Name(out[j]) })
	return out
}

func exported(f *ssa.Function) bool {
	if f.Object() == nil || !f.Object().Exported() {
		return false
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok && !n.Obj().Exported() {
			return false
		}
	}
	return true
}

func errResult(f *ssa.Function) bool {
	rs := f.Signature.Results()
	return rs.Len() > 0 && types.Identical(rs.At(rs.Len()-1).Type(), types.Universe.Lookup("error").Type())
}

// calls reports whether f can reach an external function satisfying p
// through static calls (and closures) inside the repository.
func reaches(prog *load.Program, f *ssa.Function, p func(name string) bool) bool {
	seen := map[*ssa.Function]bool{}
	var w func(f *ssa.Function) bool
	w = func(f *ssa.Function) bool {
		if f == nil || seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				ops = in.Operands(ops)
				for _, o := range ops {
					if o == nil || *o == nil {
						continue
					}
					if g, ok := (*o).(*ssa.Function); ok {
						if p(flow.Name(g)) || w(g) {
							return true
						}
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					cc := ci.Common()
					if p("(" + strings.ReplaceAll(cc.Value.Type().String(), load.Module+"/", "") + ")." + cc.Method.Name()) {
						return true
					}
				}
			}
		}
		return false
	}
	return w(f)
}

// pathTrace describes a path for a report.
func pathTrace(c *Ctx, p *flow.Path) string {
	d := p.Decisions(c.Prog)
	if len(d) > 14 {
		d = d[len(d)-14:]
	}
	return "path: " + strings.Join(d, "; ")
}

func (c *Ctx) at(p *flow.Path) string { return c.Prog.Pos(p.Pos) }

// sawFlow adds what an engine analysed to the coverage.
func (c *Ctx) sawFlow(e *flow.Engine, paths []*flow.Path) {
	for f := range e.Seen {
		c.SawFunc(f)
	}
	n, ev := 0, 0
	for _, p := range paths {
		n++
		ev += len(p.Events)
	}
	c.Count("paths", n)
	c.Count("events", ev)
	c.Count("call_sites", len(e.Sites))
}

// isZeroTerm: the constant zero value of any type.
func isZeroTerm(t *flow.Term) bool {
	if t.Op == "nil" || t.Op == "zero" {
		return true
	}
	if n, ok := flow.ConstInt(t); ok {
		return n == 0
	}
	if b, ok := flow.ConstBool(t); ok {
		return !b
	}
	if s, ok := flow.ConstStr(t); ok {
		return s == ""
	}
	return t.Op == "seq" && len(t.Args) == 0
}

// quietness decides which functions contain no step the host rules track: no
// call that can fail, stop the process, panic, or open or close anything.
type quietness struct {
	memo map[*ssa.Function]int
	repo func(*ssa.Function) bool
	loud func(name string) bool
}

func newQuiet(loud func(string) bool) *quietness {
	return &quietness{memo: map[*ssa.Function]int{}, loud: loud}
}

func (q *quietness) call(cc *ssa.CallCommon) bool {
	if cc.IsInvoke() {
		return false
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		return true
	case *ssa.Function:
		return q.fn(f)
	}
	return false
}

func (q *quietness) fn(f *ssa.Function) bool {
	switch q.memo[f] {
	case 1, 3: // in progress: optimistic
		return true
	case 2:
		return false
	}
	q.memo[f] = 1
	ok := q.compute(f)
	if ok {
		q.memo[f] = 3
	} else {
		for g, v := range q.memo {
			if v == 3 {
				delete(q.memo, g) // may rest on the optimistic answer
			}
		}
		q.memo[f] = 2
	}
	return ok
}

func (q *quietness) compute(f *ssa.Function) bool {
	n := flow.Name(f)
	if flow.StopName(n) || q.loud(n) {
		return false
	}
	if errResult(f) {
		return false
	}
	p := f.Pkg
	if p == nil && f.Origin() != nil {
		p = f.Origin().Pkg
	}
	if p == nil || !strings.HasPrefix(p.Pkg.Path(), load.Module) || len(f.Blocks) == 0 {
		return len(f.Blocks) == 0 || p != nil && !strings.HasPrefix(p.Pkg.Path(), load.Module)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Defer, *ssa.Go, *ssa.MakeClosure, *ssa.Select:
				return false
			case *ssa.Call:
				if !q.call(&x.Call) {
					return false
				}
			}
		}
	}
	return true
}

func aiFind(c *Ctx, pkg, name string) *ssa.Function { return ai.FindFunc(c.Prog, pkg, name) }
