package main

import (
	"golang.org/x/tools/go/ssa"
)

// liveInfo: registers that may still be read, per block.
type liveInfo struct {
	in  []map[ssa.Value]bool // at block entry, after its phis
	out []map[ssa.Value]bool // at block exit, including what successors' phis read
	// after[i][j]: live after instruction j of block i, computed on demand
	after map[[2]int]map[ssa.Value]bool
	// what a loop traverses stays known as long as it runs
	over map[*ssa.BasicBlock][]ssa.Value
}

func trackable(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return false
	}
	return v != nil
}

func liveness(fn *ssa.Function) *liveInfo {
	n := len(fn.Blocks)
	li := &liveInfo{in: make([]map[ssa.Value]bool, n), out: make([]map[ssa.Value]bool, n), after: map[[2]int]map[ssa.Value]bool{}}
	for i := range li.in {
		li.in[i] = map[ssa.Value]bool{}
		li.out[i] = map[ssa.Value]bool{}
	}
	li.over = map[*ssa.BasicBlock][]ssa.Value{}
	for _, l := range Loops(fn) {
		if l.over != nil && trackable(l.over) {
			li.over[l.head] = append(li.over[l.head], l.over)
		}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			out := li.out[i]
			before := len(out)
			for _, s := range b.Succs {
				// phis of s read along this edge
				phis := map[ssa.Value]bool{}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					phis[phi] = true
					for k, p := range s.Preds {
						if p == b && trackable(phi.Edges[k]) {
							out[phi.Edges[k]] = true
						}
					}
				}
				for v := range li.in[s.Index] {
					if !phis[v] {
						out[v] = true
					}
				}
			}
			live := map[ssa.Value]bool{}
			for v := range out {
				live[v] = true
			}
			li.flow(b, live, 0)
			if len(out) != before || len(live) != len(li.in[i]) {
				changed = true
				li.in[i] = live
			}
		}
	}
	return li
}

// flow walks the block backwards down to instruction from (phis excluded).
func (li *liveInfo) flow(b *ssa.BasicBlock, live map[ssa.Value]bool, from int) {
	for _, v := range li.over[b] {
		live[v] = true
	}
	for j := len(b.Instrs) - 1; j >= from; j-- {
		in := b.Instrs[j]
		if _, ok := in.(*ssa.Phi); ok {
			break
		}
		if v, ok := in.(ssa.Value); ok {
			delete(live, v)
		}
		var ops [12]*ssa.Value
		for _, o := range in.Operands(ops[:0]) {
			if *o != nil && trackable(*o) {
				live[*o] = true
			}
		}
	}
}

func (e *Engine) liveOf(fn *ssa.Function) *liveInfo {
	li := e.live[fn]
	if li == nil {
		li = liveness(fn)
		e.live[fn] = li
	}
	return li
}

// liveAt: registers live before instruction pc of the block.
func (li *liveInfo) at(b *ssa.BasicBlock, pc int) map[ssa.Value]bool {
	k := [2]int{b.Index, pc}
	if m, ok := li.after[k]; ok {
		return m
	}
	m := map[ssa.Value]bool{}
	for v := range li.out[b.Index] {
		m[v] = true
	}
	li.flow(b, m, pc)
	li.after[k] = m
	return m
}

// prune drops registers, memory and facts that cannot be observed any more.
func (e *Engine) prune(st *State) {
	mark := map[*Val]bool{}
	var walk func(v *Val)
	walk = func(v *Val) {
		if v == nil || mark[v] {
			return
		}
		mark[v] = true
		for _, x := range v.a {
			walk(x)
		}
	}
	for i, fr := range st.frames {
		live := e.liveOf(fr.fn).at(fr.block, fr.pc)
		var pending ssa.Value
		if i+1 < len(st.frames) {
			if c, ok := st.frames[i+1].call.(*ssa.Call); ok {
				pending = c
			}
		}
		for r, v := range fr.regs {
			if !live[r] || r == pending {
				if _, isParam := r.(*ssa.Parameter); isParam && e.h.AfterInline != nil {
					walk(v)
					continue
				}
				delete(fr.regs, r)
				continue
			}
			walk(v)
		}
		for d := fr.defers; d != nil; d = d.next {
			walk(d.fn)
			for _, a := range d.args {
				walk(a)
			}
		}
	}
	for _, v := range st.p.V {
		walk(v)
	}
	for _, s := range st.p.S {
		for v := range s {
			walk(v)
		}
	}
	// memory reachable from what is live
	for changed := true; changed; {
		changed = false
		for a, v := range st.mem {
			if mark[v] && mark[a] {
				continue
			}
			if e.addrLive(a, mark) {
				if !mark[a] || !mark[v] {
					walk(a)
					walk(v)
					mark[a], mark[v] = true, true
					changed = true
				}
			}
		}
	}
	for a := range st.mem {
		if !mark[a] {
			delete(st.mem, a)
		}
	}
	for a := range st.facts {
		if !e.factLive(a, mark) {
			delete(st.facts, a)
		}
	}
	for v := range st.seen {
		if !mark[v] {
			// may still occur inside live terms (mark covers subterms)
			delete(st.seen, v)
		}
	}
}

func (e *Engine) addrLive(a *Val, mark map[*Val]bool) bool {
	for {
		if mark[a] {
			return true
		}
		switch a.op {
		case OpFieldAddr, OpIndexAddr, OpField, OpIndex, OpLoad:
			a = a.a[0]
			continue
		case OpGlobal, OpParam:
			return true
		case OpPure:
			if len(a.a) > 0 {
				a = a.a[0]
				continue
			}
			return true // field epochs
		}
		return false
	}
}

// factLive: all unknowns in the fact are still in use.
func (e *Engine) factLive(a *Val, mark map[*Val]bool) bool {
	ok := true
	var walk func(v *Val)
	walk = func(v *Val) {
		if !ok || mark[v] {
			return
		}
		switch v.op {
		case OpSym, OpAlloc:
			ok = false
			return
		}
		for _, x := range v.a {
			walk(x)
		}
	}
	walk(a)
	return ok
}
