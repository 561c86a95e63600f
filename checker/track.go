package main

// Traversals: events for the elements of complete loops over slices and maps.

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type LoopTrack struct {
	loops map[*ssa.Function][]*Loop
	// SkipCollectors: no events for loops that only gather keys.
	SkipCollectors bool
	// OnElem: an iteration starts. k is the key or index, v the element.
	OnElem func(e *Engine, st *State, l *Loop, over, k, v *Val)
	// OnEnd: the traversal visited everything.
	OnEnd func(e *Engine, st *State, l *Loop, over *Val)
}

func (t *LoopTrack) of(fn *ssa.Function) []*Loop {
	if t.loops == nil {
		t.loops = map[*ssa.Function][]*Loop{}
	}
	ls, ok := t.loops[fn]
	if !ok {
		ls = Loops(fn)
		t.loops[fn] = ls
	}
	return ls
}

// Branch is to be called from the Branch hook.
func (t *LoopTrack) Branch(e *Engine, st *State, in *ssa.If, taken bool) {
	b := in.Block()
	for _, l := range t.of(b.Parent()) {
		if l.head != b || l.end == nil || l.kind == "chan" {
			continue
		}
		fr := st.top()
		val := func(v ssa.Value) *Val {
			switch v.(type) {
			case *ssa.Const, *ssa.Global, *ssa.Function:
				return e.operand(st, fr, v)
			}
			return fr.regs[v]
		}
		var k, v, over *Val
		if l.kind == "iter" {
			iff := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			nx := iff.Cond.(*ssa.Extract).Tuple.(*ssa.Next)
			it := fr.regs[nx.Iter]
			if it != nil && it.op == OpPure && it.aux == "range" {
				over = it.a[0]
			}
			if t := fr.regs[nx]; t != nil && t.op == OpTuple {
				k, v = t.a[1], t.a[2]
			}
		} else {
			over = val(l.over)
			k = val(l.index)
			if k != nil && l.off != 0 {
				k = e.binop(token.ADD, k, e.cint(l.off), types.Typ[types.Int], types.Typ[types.Int])
			}
			if over != nil && k != nil {
				if sl, ok := l.over.Type().Underlying().(*types.Slice); ok {
					x := over
					if x.op == OpSlice && len(x.a) == 1 {
						x = x.a[0]
					}
					v = e.load(st, e.in.mk(OpIndexAddr, types.NewPointer(sl.Elem()), "ix", x, k), sl.Elem())
				}
			}
		}
		if over == nil {
			continue
		}
		if l.kind == "iter" {
			t.collect(st, l, over, taken)
			if t.SkipCollectors && collector(l) {
				continue
			}
		} else if m := t.keysOf(st, over); m != nil {
			// the keys of a map that were collected before
			over = m
			if taken {
				k = v
				v, _ = e.lookup(st, m, k, m.typ.Underlying().(*types.Map).Elem())
			}
		}
		if taken {
			if t.OnElem != nil {
				t.OnElem(e, st, l, over, k, v)
			}
		} else if t.OnEnd != nil {
			t.OnEnd(e, st, l, over)
			if m := st.p.V["lt.none"]; m != nil && l.kind != "iter" && e.emptySlice(st, over) {
				// the map had no keys to collect
				t.OnEnd(e, st, l, m)
			}
		}
	}
}

func loopName(l *Loop) string { return fmt.Sprintf("%s.%d", l.head.Parent(), l.head.Index) }

// collect follows loops that gather the keys of a map.
func (t *LoopTrack) collect(st *State, l *Loop, over *Val, taken bool) {
	if over.typ == nil {
		return
	}
	if _, ok := over.typ.Underlying().(*types.Map); !ok {
		return
	}
	n := loopName(l)
	switch st.p.F["lt.in:"+n] {
	case "", "appended":
	default:
		// an iteration did not append its key
		for _, v := range st.p.each("lt.acc") {
			if tag, _ := st.p.get("lt.acc", v); tag == n {
				st.p.del("lt.acc", v)
			}
		}
	}
	if taken {
		st.p.F["lt.in:"+n] = "open"
		st.p.V["lt.over:"+n] = over
		return
	}
	some := st.p.F["lt.in:"+n] != ""
	delete(st.p.F, "lt.in:"+n)
	for _, v := range st.p.each("lt.acc") {
		if tag, _ := st.p.get("lt.acc", v); tag == n {
			st.p.del("lt.acc", v)
			if some {
				st.p.put("lt.keys", v, n)
			}
		}
	}
	if some {
		if len(st.p.S["lt.keys"]) == 0 {
			delete(st.p.V, "lt.over:"+n)
		}
	} else if appendsIn(l) {
		st.p.V["lt.none"] = over
	}
}

// collector: all the loop does is to append something to slices.
func collector(l *Loop) bool {
	n := 0
	for b := range l.blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Next, *ssa.Extract, *ssa.Phi, *ssa.Jump, *ssa.ChangeType, *ssa.Convert, *ssa.Slice, *ssa.DebugRef, *ssa.Alloc:
			case *ssa.If:
				if b != l.head {
					return false
				}
			case *ssa.IndexAddr:
				if _, ok := in.X.(*ssa.Alloc); !ok {
					return false
				}
			case *ssa.UnOp:
				if !sliceCell(in.X) {
					return false
				}
			case *ssa.Store:
				if _, ok := in.Addr.(*ssa.IndexAddr); !ok && !sliceCell(in.Addr) {
					return false
				}
			case *ssa.Call:
				if b, ok := in.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" {
					return false
				}
				n++
			default:
				return false
			}
		}
	}
	return n == 1
}

// sliceCell: the address of a variable that holds a slice.
func sliceCell(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Alloc, *ssa.FreeVar:
		_, ok := v.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Slice)
		return ok
	}
	return false
}

func appendsIn(l *Loop) bool {
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					return true
				}
			}
		}
	}
	return false
}

// Append is to be called from the Append hook.
func (t *LoopTrack) Append(e *Engine, st *State, base, items, res *Val) {
	its := e.sliceItems(st, items)
	if len(its) != 1 {
		return
	}
	k := unwrapConv(its[0])
	if k.op != OpSym || len(k.a) != 1 || k.aux.(symKey).kind != "next.k" {
		return
	}
	site, ok := k.aux.(symKey).site.(ssa.Instruction)
	if !ok || k.aux.(symKey).gen != 0 {
		return
	}
	n := fmt.Sprintf("%s.%d", site.Parent(), site.Block().Index)
	f := "lt.in:" + n
	if st.p.V["lt.over:"+n] != k.a[0] || st.p.F[f] != "open" {
		return
	}
	tag, isAcc := st.p.get("lt.acc", base)
	if isAcc && tag == n || e.emptySlice(st, base) {
		st.p.put("lt.acc", res, n)
		st.p.F[f] = "appended"
	}
}

// emptySlice: the slice is known to have no elements.
func (e *Engine) emptySlice(st *State, x *Val) bool {
	if isNilConst(x) {
		return true
	}
	if l, ok := st.mem[e.in.mk(OpPure, types.Typ[types.Int], "lenof", x)]; ok {
		k, ok := constInt(l)
		return ok && k == 0
	}
	if x.op == OpSlice {
		if k, ok := constInt(e.sliceLen(x)); ok {
			return k == 0
		}
	}
	_, hi := e.interval(st, e.lenOf(x))
	return hi < 1
}

// keysOf: the map whose keys a slice has.
func (t *LoopTrack) keysOf(st *State, over *Val) *Val {
	if n, ok := st.p.get("lt.keys", over); ok {
		return st.p.V["lt.over:"+n]
	}
	return nil
}
