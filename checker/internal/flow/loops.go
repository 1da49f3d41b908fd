package flow

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// loop is a natural loop whose only exit is its header's branch and whose
// body has no step the analysis tracks; it is summarised by forgetting
// everything it may change.
type loop struct {
	blocks map[*ssa.BasicBlock]bool
	exit   int // successor index of the header's If that leaves the loop
}

func (e *Engine) quietLoop(h *ssa.BasicBlock) *loop {
	if e.Quiet == nil {
		return nil
	}
	if l, ok := e.loops[h]; ok {
		return l
	}
	if e.loops == nil {
		e.loops = map[*ssa.BasicBlock]*loop{}
	}
	e.loops[h] = nil
	l := &loop{blocks: map[*ssa.BasicBlock]bool{h: true}}
	found := false
	for _, u := range h.Preds {
		if !h.Dominates(u) {
			continue
		}
		found = true
		work := []*ssa.BasicBlock{u}
		for len(work) > 0 {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			if l.blocks[b] {
				continue
			}
			l.blocks[b] = true
			work = append(work, b.Preds...)
		}
	}
	if !found {
		return nil
	}
	l.exit = -1
	for b := range l.blocks {
		for i, s := range b.Succs {
			if !l.blocks[s] {
				if b != h || l.exit >= 0 {
					return nil
				}
				l.exit = i
			}
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Return, *ssa.Panic, *ssa.Defer, *ssa.Go, *ssa.Select, *ssa.Send, *ssa.RunDefers:
				return nil
			case *ssa.TypeAssert:
				if e.Hazards {
					return nil
				}
			case *ssa.IndexAddr, *ssa.Index:
				if e.Hazards {
					return nil
				}
			case *ssa.Call:
				if !e.Quiet(&x.Call) {
					return nil
				}
			}
		}
	}
	if l.exit < 0 {
		return nil
	}
	e.loops[h] = l
	return l
}

// summarise leaves a quiet loop with everything it defines forgotten.
func (e *Engine) summarise(st *State, fr *frame, h *ssa.BasicBlock, l *loop) {
	st.seq++
	why := e.T("loop", fmt.Sprintf("@%d", st.seq), nil)
	// memory the body may write
	for b := range l.blocks {
		for _, in := range b.Instrs {
			var addrs []ssa.Value
			switch x := in.(type) {
			case *ssa.Store:
				addrs = append(addrs, x.Addr)
			case *ssa.Call:
				addrs = append(addrs, x.Call.Args...)
			case *ssa.MapUpdate:
				addrs = append(addrs, x.Map)
			}
			for _, a := range addrs {
				for {
					switch y := a.(type) {
					case *ssa.FieldAddr:
						a = y.X
						continue
					case *ssa.IndexAddr:
						a = y.X
						continue
					case *ssa.Slice:
						a = y.X
						continue
					case *ssa.MakeInterface:
						a = y.X
						continue
					}
					break
				}
				if _, isC := a.(*ssa.Const); isC {
					continue
				}
				if v, ok := fr.env[a]; ok {
					e.Havoc(st, v, why)
				}
			}
		}
	}
	for _, in := range h.Instrs {
		v, ok := in.(ssa.Value)
		if !ok {
			continue
		}
		if _, isPhi := in.(*ssa.Phi); isPhi {
			st.seq++
			fr.env[v] = e.T("fresh", fmt.Sprintf("%s@%d", v.Name(), st.seq), v.Type(), fr.env[v])
		}
	}
	for _, in := range h.Instrs {
		v, ok := in.(ssa.Value)
		if !ok {
			continue
		}
		if _, isPhi := in.(*ssa.Phi); isPhi {
			continue
		}
		st.seq++
		if t, ok := v.Type().(*types.Tuple); ok {
			var parts []*Term
			for i := 0; i < t.Len(); i++ {
				parts = append(parts, e.T("fresh", fmt.Sprintf("%s.%d@%d", v.Name(), i, st.seq), t.At(i).Type()))
			}
			fr.env[v] = e.tuple(parts)
			continue
		}
		switch in.(type) {
		case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr:
			continue
		}
		fr.env[v] = e.T("fresh", fmt.Sprintf("%s@%d", v.Name(), st.seq), v.Type())
	}
}

// StopName exposes the list of functions that do not return.
func StopName(n string) bool { return isStop(n) }
