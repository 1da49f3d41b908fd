package rules

import (
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// grid returns the shapes to analyse: the base list, plus every integer (and its two neighbours) within
// [lo,hi] that the source of the given packages compares, divides or reduces an integer by. Code can only
// treat one shape differently from another by such a comparison, so each branch a constant makes is visited
// on both sides.
func (c *Ctx) grid(base []int, lo, hi int, pkgs ...string) []int {
	set := map[int]bool{}
	for _, b := range base {
		set[b] = true
	}
	if debugGrid || fullGrid[c.Prop] || c.Thorough && fullGridThorough[c.Prop] {
		for v := lo; v <= hi; v++ {
			set[v] = true
		}
	}
	for _, p := range pkgs {
		for _, k := range c.shapeConsts(p) {
			for d := int64(-1); d <= 1; d++ {
				if v := k + d; v >= int64(lo) && v <= int64(hi) {
					set[int(v)] = true
				}
			}
		}
	}
	var o []int
	for v := range set {
		o = append(o, v)
	}
	sort.Ints(o)
	return o
}

// Where it is affordable every shape in range is analysed, in both tiers or in the thorough tier.
var (
	fullGrid         = map[string]bool{"C03": true, "C04": true, "C07": true, "C08": true, "C15": true, "C16": true, "C17": true}
	fullGridThorough = map[string]bool{"C01": true, "C05": true, "C09": true, "C19": true, "H12": true}
)

// debugGrid analyses every shape in range (to try the rules themselves on all of them).
var debugGrid = os.Getenv("ZKDBG_GRID") != ""

func seq(lo, hi int) []int {
	var o []int
	for i := lo; i <= hi; i++ {
		o = append(o, i)
	}
	return o
}

// shapeConsts lists the integer constants a package's functions compare a runtime integer with.
func (c *Ctx) shapeConsts(rel string) []int64 {
	c.mu.Lock()
	defer c.mu.Unlock()
	if r, ok := c.consts[rel]; ok {
		return r
	}
	set := map[int64]bool{}
	p := c.Prog.Pkg(rel)
	if p == nil {
		return nil // the obligations report a missing anchor
	}
	sp := c.Prog.SSA.Package(p.Types)
	if sp == nil {
		return nil
	}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.BinOp:
					switch x.Op {
					case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ, token.REM, token.QUO:
						addConst(set, x.X, x.Y)
						addConst(set, x.Y, x.X)
					}
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "min" || bi.Name() == "max") {
						for _, a := range x.Call.Args {
							addConst(set, a, nil)
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	for _, mem := range sp.Members {
		switch x := mem.(type) {
		case *ssa.Function:
			visit(x)
		case *ssa.Type:
			if n, ok := x.Type().(*types.Named); ok {
				for i := 0; i < n.NumMethods(); i++ {
					visit(c.Prog.SSA.FuncValue(n.Method(i)))
				}
			}
		}
	}
	var o []int64
	for k := range set {
		o = append(o, k)
	}
	sort.Slice(o, func(i, j int) bool { return o[i] < o[j] })
	c.consts[rel] = o
	return o
}

func addConst(set map[int64]bool, k, other ssa.Value) {
	kc, ok := k.(*ssa.Const)
	if !ok || kc.Value == nil || kc.Value.Kind() != constant.Int {
		return
	}
	if _, both := other.(*ssa.Const); both {
		return
	}
	if b, ok := kc.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return
	}
	if v, exact := constant.Int64Val(kc.Value); exact {
		set[v] = true
	}
}
