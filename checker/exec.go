package main

// Transfer functions of the SSA instructions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxDepth = 14

func (e *Engine) step(st *State, fr *Frame, instr ssa.Instruction) bool {
	e.renames = e.renames[:0]
	set := func(v ssa.Value, x *Val) {
		if x.depth > maxDepth {
			x = e.fresh(st, "deep", v, 0, v.Type())
		}
		fr.regs[v] = x
	}
	op := func(v ssa.Value) *Val { return e.operand(st, fr, v) }

	switch in := instr.(type) {
	case *ssa.DebugRef:

	case *ssa.Alloc:
		a := e.freshOp(st, OpAlloc, in.Comment, in, 0, in.Type())
		// a new execution starts with zeroed memory
		for k := range st.mem {
			if baseIs(k, a) {
				delete(st.mem, k)
			}
		}
		fr.regs[in] = a

	case *ssa.MakeChan:
		if e.h.MakeChan != nil {
			e.h.MakeChan(e, st, in, e.operand(st, fr, in.Size))
		}
		n := op(in.Size)
		set(in, e.fresh(st, "make:chan", in, 0, in.Type(), n))
	case *ssa.MakeMap:
		v := e.fresh(st, "make:map", in, 0, in.Type())
		set(in, v)
		st.mem[e.in.mk(OpPure, types.Typ[types.Bool], "mapempty", v)] = e.cbool(true)
	case *ssa.MakeSlice:
		l := op(in.Len)
		v := e.fresh(st, "make:slice", in, 0, in.Type())
		set(in, v)
		e.Assume(st, e.binop(token.EQL, e.lenOf(v), l, types.Typ[types.Int], types.Typ[types.Bool]), true)
		st.mem[e.in.mk(OpPure, types.Typ[types.Int], "lenof", v)] = l
	case *ssa.MakeInterface:
		set(in, e.in.mk(OpIface, in.X.Type(), "i", op(in.X)))
	case *ssa.MakeClosure:
		var b []*Val
		for _, x := range in.Bindings {
			b = append(b, op(x))
		}
		set(in, e.in.mk(OpClosure, in.Type(), in.Fn.(*ssa.Function), b...))

	case *ssa.FieldAddr:
		x := op(in.X)
		if e.h.Deref != nil {
			e.h.Deref(e, st, in, x)
		}
		set(in, e.in.mk(OpFieldAddr, in.Type(), in.Field, x))
	case *ssa.Field:
		set(in, e.fieldOf(op(in.X), in.Field, in.Type()))
	case *ssa.IndexAddr:
		x := op(in.X)
		if e.h.Deref != nil {
			e.h.Deref(e, st, in, x)
		}
		if x.op == OpSlice && len(x.a) == 1 {
			x = x.a[0] // whole slice of an array: same elements
		}
		set(in, e.in.mk(OpIndexAddr, in.Type(), "ix", x, op(in.Index)))
	case *ssa.Index:
		x, i := op(in.X), op(in.Index)
		if s, ok := constStr(x); ok {
			if k, ok := constInt(i); ok && k >= 0 && k < int64(len(s)) {
				set(in, e.cint(int64(s[k])))
				break
			}
		}
		ix := e.in.mk(OpIndex, in.Type(), "ix", x, i)
		if v := e.tableElem(ix); v != nil {
			ix = v
		}
		set(in, ix)

	case *ssa.UnOp:
		x := op(in.X)
		switch in.Op {
		case token.MUL:
			if e.h.Deref != nil {
				e.h.Deref(e, st, in, x)
			}
			v := e.load(st, x, in.Type())
			set(in, v)
			if e.h.Load != nil {
				e.h.Load(e, st, in, x, v)
			}
		case token.ARROW:
			var et types.Type = in.X.Type().Underlying().(*types.Chan).Elem()
			v := e.fresh(st, "recv", in, 0, et, x)
			if in.CommaOk {
				ok := e.fresh(st, "recvok", in, 1, types.Typ[types.Bool], x)
				fr.regs[in] = e.in.mk(OpTuple, in.Type(), "t", v, ok)
				// the unknowns may have been renamed by each other's creation
				if e.h.Recv != nil {
					e.h.Recv(e, st, in, x, v, ok)
				}
			} else {
				fr.regs[in] = v
				if e.h.Recv != nil {
					e.h.Recv(e, st, in, x, v, nil)
				}
			}
		case token.NOT:
			set(in, e.not(x))
		case token.SUB:
			if c, ok := constVal(x); ok && c != nil {
				set(in, e.in.Const(in.Type(), constant.UnaryOp(token.SUB, c, 0)))
			} else {
				set(in, e.in.mk(OpUn, in.Type(), in.Op, x))
			}
		default:
			set(in, e.in.mk(OpUn, in.Type(), in.Op, x))
		}

	case *ssa.BinOp:
		set(in, e.binop(in.Op, op(in.X), op(in.Y), in.X.Type(), in.Type()))

	case *ssa.Convert:
		x := op(in.X)
		if _, isC := constVal(x); isC && !isNilConst(x) && basicSame(in.X.Type(), in.Type()) {
			set(in, x)
		} else if sameUnder(in.X.Type(), in.Type()) {
			set(in, x)
		} else if isIntTyped(in.X.Type()) && isIntTyped(in.Type()) {
			if _, ok := constInt(x); ok {
				set(in, x)
			} else {
				set(in, e.in.mk(OpConv, in.Type(), "c", x))
			}
		} else {
			set(in, e.in.mk(OpConv, in.Type(), "c", x))
		}
	case *ssa.ChangeType:
		set(in, op(in.X))
	case *ssa.ChangeInterface:
		set(in, op(in.X))
	case *ssa.MultiConvert:
		set(in, op(in.X))
	case *ssa.SliceToArrayPointer:
		set(in, e.in.mk(OpConv, in.Type(), "c", op(in.X)))

	case *ssa.Slice:
		x := op(in.X)
		if in.Low == nil && in.High == nil && in.Max == nil {
			if _, isPtr := in.X.Type().Underlying().(*types.Pointer); isPtr {
				v := e.in.mk(OpSlice, in.Type(), "all", x)
				set(in, v)
			} else {
				set(in, x)
			}
			break
		}
		args := []*Val{x}
		names := ""
		if in.Low != nil {
			l := op(in.Low)
			if k, ok := constInt(l); !ok || k != 0 {
				args = append(args, l)
				names += "l"
			}
		}
		if in.High != nil {
			args = append(args, op(in.High))
			names += "h"
		}
		if in.Max != nil {
			args = append(args, op(in.Max))
			names += "m"
		}
		if names == "" {
			set(in, x)
		} else {
			set(in, e.in.mk(OpSlice, in.Type(), names, args...))
		}

	case *ssa.TypeAssert:
		return e.typeAssert(st, fr, in)

	case *ssa.Extract:
		t := op(in.Tuple)
		set(in, e.extract(t, in.Index, in.Type()))

	case *ssa.Lookup:
		x, k := op(in.X), op(in.Index)
		if _, isMap := in.X.Type().Underlying().(*types.Map); !isMap {
			set(in, e.in.mk(OpIndex, in.Type(), "ix", x, k))
			break
		}
		vt := in.X.Type().Underlying().(*types.Map).Elem()
		if handled, alive := e.tableLookup(st, fr, in, x, k); handled {
			return alive
		}
		v, ok := e.lookup(st, x, k, vt)
		if in.CommaOk {
			fr.regs[in] = e.in.mk(OpTuple, in.Type(), "t", v, ok)
		} else {
			fr.regs[in] = v
		}
		if e.h.MapRead != nil {
			e.h.MapRead(e, st, in, x, k, v)
		}

	case *ssa.Range:
		set(in, e.in.mk(OpPure, in.Type(), "range", op(in.X)))
	case *ssa.Next:
		it := op(in.Iter)
		over := it
		if it.op == OpPure && it.aux == "range" {
			over = it.a[0]
		}
		tt := in.Type().(*types.Tuple)
		ok := e.fresh(st, "next.ok", in, 0, tt.At(0).Type(), over)
		if e.emptyMap(st, over) {
			ok = e.cbool(false)
		}
		kt, vt := tt.At(1).Type(), tt.At(2).Type()
		if over.typ != nil {
			if m, ok := over.typ.Underlying().(*types.Map); ok { // even if they are not used
				kt, vt = m.Key(), m.Elem()
			}
		}
		k := e.fresh(st, "next.k", in, 1, kt, over)
		v := e.fresh(st, "next.v", in, 2, vt, over)
		for a := range st.mem {
			if a.op == OpPure && a.aux == "mapval" && a.a[0] == over && a.a[1].op == OpSym {
				if kk := a.a[1].aux.(symKey); kk.kind == "next.k" && kk.site == ssa.Instruction(in) {
					delete(st.mem, a)
				}
			}
		}
		if e.mapVer(st, over) != nil {
			st.mem[e.in.mk(OpPure, nil, "mapval", over, k)] = v
		}
		fr.regs[in] = e.in.mk(OpTuple, in.Type(), "t", ok, k, v)
		if e.h.RangeNext != nil {
			e.h.RangeNext(e, st, in, over, ok, k, v)
		}

	case *ssa.Store:
		a, v := op(in.Addr), op(in.Val)
		if e.h.Deref != nil {
			e.h.Deref(e, st, in, a)
		}
		if e.h.PreStore != nil {
			e.h.PreStore(e, st, in, a, v)
		}
		e.store(st, a, v, in)
		if e.h.Store != nil {
			e.h.Store(e, st, in, a, v)
		}

	case *ssa.MapUpdate:
		m, k, v := op(in.Map), op(in.Key), op(in.Value)
		if e.h.PreMapUpdate != nil {
			e.h.PreMapUpdate(e, st, in, m, k, v)
		}
		e.mapWrite(st, m, k, v, in)
		if e.h.MapUpdate != nil {
			e.h.MapUpdate(e, st, in, e.cur(m), e.cur(k), e.cur(v))
		}

	case *ssa.Send:
		if e.h.Send != nil {
			e.h.Send(e, st, in, op(in.Chan), op(in.X))
		}

	case *ssa.Select:
		return e.doSelect(st, fr, in)

	case *ssa.Phi:
		// handled on the edge
		panic("phi in step")

	case *ssa.Jump:
		e.jump(st, fr, fr.block.Succs[0])
		return true

	case *ssa.If:
		c := op(in.Cond)
		d := e.Decide(st, c)
		e.Branches[in] |= map[int]int{1: 1, 0: 2, -1: 3}[d]
		tb, fb := fr.block.Succs[0], fr.block.Succs[1]
		if d >= 0 {
			if e.h.Branch != nil {
				e.h.Branch(e, st, in, c, d == 1)
			}
			if d == 1 {
				e.jump(st, fr, tb)
			} else {
				e.jump(st, fr, fb)
			}
			return true
		}
		o := st.clone()
		okT := e.Assume(st, c, true)
		okF := e.Assume(o, c, false)
		if okF {
			o.note(in.Cond.Pos(), "%s is false", c)
			if e.h.Branch != nil {
				e.h.Branch(e, o, in, c, false)
			}
			e.jump(o, o.top(), fb)
			if okT {
				e.forks = append(e.forks, o)
			} else {
				*st = *o
				return true
			}
		}
		if !okT {
			return false
		}
		st.note(in.Cond.Pos(), "%s is true", c)
		if e.h.Branch != nil {
			e.h.Branch(e, st, in, c, true)
		}
		e.jump(st, fr, tb)
		return true

	case *ssa.Return:
		var res []*Val
		for _, r := range in.Results {
			res = append(res, op(r))
		}
		return e.doReturn(st, fr, in, res)

	case *ssa.RunDefers:
		if d := fr.defers; d != nil {
			fr.defers = d.next
			return e.call(st, fr, d.call, d.fn, d.args, true, false)
		}

	case *ssa.Panic:
		if e.h.Panic != nil {
			e.h.Panic(e, st, in, op(in.X))
		}
		return false

	case *ssa.Go:
		for a := range st.mem {
			if a.op == OpPure && a.aux == "mapempty" {
				delete(st.mem, a)
			}
		}
		fn, args := e.callOperands(st, fr, in.Common())
		return e.call(st, fr, in, fn, args, false, true)
	case *ssa.Defer:
		fn, args := e.callOperands(st, fr, in.Common())
		fr.defers = &deferRec{call: in, fn: fn, args: args, next: fr.defers}
	case *ssa.Call:
		fn, args := e.callOperands(st, fr, in.Common())
		return e.call(st, fr, in, fn, args, false, false)

	default:
		panic(fmt.Sprintf("engine: unhandled instruction %T in %s", instr, fr.fn))
	}
	fr.pc++
	return true
}

func basicSame(a, b types.Type) bool {
	x, ok1 := a.Underlying().(*types.Basic)
	y, ok2 := b.Underlying().(*types.Basic)
	return ok1 && ok2 && (x.Info()&types.IsString != 0 && y.Info()&types.IsString != 0)
}

func sameUnder(a, b types.Type) bool {
	return types.Identical(a.Underlying(), b.Underlying())
}

func baseIs(addr, base *Val) bool {
	for {
		if addr == base {
			return true
		}
		if addr.op == OpFieldAddr || addr.op == OpIndexAddr || addr.op == OpPure && (addr.aux == "mapver" || addr.aux == "mapval" || addr.aux == "mapempty") {
			addr = addr.a[0]
			continue
		}
		return false
	}
}

func rootAddr(addr *Val) *Val {
	for addr.op == OpFieldAddr || addr.op == OpIndexAddr {
		addr = addr.a[0]
	}
	return addr
}

func (e *Engine) fieldOf(x *Val, i int, t types.Type) *Val {
	switch x.op {
	case OpAgg:
		return x.a[i]
	case OpZero:
		return e.zero(t)
	case OpConv:
		return e.fieldOf(x.a[0], i, t)
	}
	return e.in.mk(OpField, t, i, x)
}

func (e *Engine) extract(t *Val, i int, typ types.Type) *Val {
	if t.op == OpTuple {
		return t.a[i]
	}
	return e.in.mk(OpField, typ, i, t)
}

// load reads memory.
func (e *Engine) load(st *State, a *Val, t types.Type) *Val {
	if v, ok := st.mem[a]; ok {
		return v
	}
	// a struct whose fields were written one by one
	if s, ok := t.Underlying().(*types.Struct); ok {
		any := false
		for k := range st.mem {
			if k != a && baseIs(k, a) {
				any = true
			}
		}
		if any {
			var fs []*Val
			for i := 0; i < s.NumFields(); i++ {
				fs = append(fs, e.load(st, e.in.mk(OpFieldAddr, types.NewPointer(s.Field(i).Type()), i, a), s.Field(i).Type()))
			}
			return e.in.mk(OpAgg, t, "agg", fs...)
		}
	}
	switch a.op {
	case OpFieldAddr:
		if v := e.parent(st, a.a[0]); v != nil {
			return e.fieldOf(v, a.aux.(int), t)
		}
	case OpIndexAddr:
		if v := e.tableElem(a); v != nil {
			return v
		}
		if v := e.parent(st, a.a[0]); v != nil {
			if v.op == OpZero {
				return e.zero(t)
			}
			return e.in.mk(OpIndex, t, "ix", v, a.a[1])
		}
	case OpAlloc:
		return e.zero(t)
	case OpGlobal:
		if v, ok := e.pr.globalConst(a.aux.(*ssa.Global)); ok {
			return e.in.Const(t, v)
		}
	}
	if r := rootAddr(a); r.op == OpAlloc {
		// not written since it was allocated, unless through an index
		if a.op == OpIndexAddr {
			if _, ok := constInt(a.a[1]); !ok {
				return e.in.mk(OpLoad, t, "ld", a)
			}
		}
		return e.zero(t)
	}
	if a.op == OpFieldAddr && a.a[0].typ != nil {
		if ep, ok := st.mem[e.in.mk(OpPure, nil, "epoch:"+fieldKey(a.a[0].typ, a.aux.(int)))]; ok {
			return e.in.mk(OpLoad, t, "ld", a, ep)
		}
	}
	return e.in.mk(OpLoad, t, "ld", a)
}

// parent finds the value of an enclosing object that was written as a whole.
func (e *Engine) parent(st *State, a *Val) *Val {
	if v, ok := st.mem[a]; ok {
		return v
	}
	if v := e.tableElem(a); v != nil {
		return v
	}
	switch a.op {
	case OpFieldAddr:
		if v := e.parent(st, a.a[0]); v != nil {
			et := a.typ.Underlying().(*types.Pointer).Elem()
			return e.fieldOf(v, a.aux.(int), et)
		}
	}
	return nil
}

func (e *Engine) store(st *State, a, v *Val, site ssa.Instruction) {
	for k := range st.mem {
		if k != a && baseIs(k, a) {
			delete(st.mem, k)
		}
	}
	if v.depth > maxDepth {
		v = e.fresh(st, "deep", site, 0, v.typ)
	}
	// a write through a variable index may hit any element
	if a.op == OpIndexAddr {
		if _, ok := constInt(a.a[1]); !ok {
			for k := range st.mem {
				if k != a && k.op == OpIndexAddr && k.a[0] == a.a[0] {
					delete(st.mem, k)
				}
			}
		}
	}
	// materialize the rest of an enclosing object that was written as a whole
	st.mem[a] = v
	if a.op == OpFieldAddr {
		if pv, ok := st.mem[a.a[0]]; ok {
			e.explode(st, a.a[0], pv)
			st.mem[a] = v
		}
	}
}

func (e *Engine) explode(st *State, a, v *Val) {
	var s *types.Struct
	if p, ok := a.typ.Underlying().(*types.Pointer); ok {
		s, _ = p.Elem().Underlying().(*types.Struct)
	}
	if s == nil {
		return
	}
	delete(st.mem, a)
	for i := 0; i < s.NumFields(); i++ {
		fa := e.in.mk(OpFieldAddr, types.NewPointer(s.Field(i).Type()), i, a)
		st.mem[fa] = e.fieldOf(v, i, s.Field(i).Type())
	}
}

// Maps: the content is unknown, but equal lookups without an update in
// between agree, and a lookup right after an update of the same key finds it.
// emptyMap: nothing was put into the map since it was made.
func (e *Engine) emptyMap(st *State, m *Val) bool {
	return st.mem[e.in.mk(OpPure, types.Typ[types.Bool], "mapempty", m)] != nil
}

func (e *Engine) mapVer(st *State, m *Val) *Val {
	return st.mem[e.in.mk(OpPure, nil, "mapver", m)]
}

func (e *Engine) lookup(st *State, m, k *Val, vt types.Type) (*Val, *Val) {
	bt := types.Typ[types.Bool]
	if v, ok := st.mem[e.in.mk(OpPure, nil, "mapval", m, k)]; ok {
		return v, e.cbool(true)
	}
	if isNilConst(m) {
		return e.zero(vt), e.cbool(false)
	}
	if e.emptyMap(st, m) {
		if vt == nil {
			vt = m.typ.Underlying().(*types.Map).Elem()
		}
		return e.zero(vt), e.cbool(false)
	}
	args := []*Val{m, k}
	if ver := e.mapVer(st, m); ver != nil {
		args = append(args, ver)
	}
	// an element found while ranging over the same map
	if k.op == OpSym {
		if kk := k.aux.(symKey); kk.kind == "next.k" && len(k.a) == 1 && k.a[0] == m && e.mapVer(st, m) == nil {
			kk.kind, kk.idx = "next.v", 2
			for v := range st.seen {
				if v.op == OpSym && v.aux == kk && v.a[0] == m {
					return v, e.cbool(true)
				}
			}
		}
	}
	return e.in.mk(OpPure, vt, "lookup", args...), e.in.mk(OpPure, bt, "lookupok", args...)
}

func (e *Engine) mapWrite(st *State, m, k, v *Val, site ssa.Instruction) {
	for a := range st.mem {
		if a.op == OpPure && a.aux == "mapval" && a.a[0] == m {
			delete(st.mem, a)
		}
	}
	delete(st.mem, e.in.mk(OpPure, types.Typ[types.Bool], "mapempty", m))
	ver := e.fresh(st, "mapver", site, 0, nil)
	m, k, v = e.cur(m), e.cur(k), e.cur(v)
	st.mem[e.in.mk(OpPure, nil, "mapver", m)] = ver
	if v != nil {
		st.mem[e.in.mk(OpPure, nil, "mapval", m, k)] = v
	}
}

func (e *Engine) typeAssert(st *State, fr *Frame, in *ssa.TypeAssert) bool {
	x := e.operand(st, fr, in.X)
	t := in.AssertedType
	bt := types.Typ[types.Bool]
	val := e.in.mk(OpAssert, t, "ta", x)
	_, toIface := t.Underlying().(*types.Interface)
	if toIface {
		val = x
	}
	var ok *Val
	if isNilConst(x) {
		ok = e.cbool(false)
	} else if x.op == OpIface && x.typ != nil {
		if toIface {
			ok = e.cbool(types.Implements(x.typ, t.Underlying().(*types.Interface)))
		} else {
			ok = e.cbool(types.Identical(x.typ, t))
			if c, _ := constBool(ok); c {
				val = x.a[0]
			}
		}
	} else {
		ok = e.in.mk(OpPure, bt, "typeis:"+typeKey(t), x)
	}
	if !in.CommaOk {
		fr.regs[in] = val
		fr.pc++
		if d := e.Decide(st, ok); d == 0 {
			if e.h.Panic != nil {
				e.h.Panic(e, st, in, val)
			}
			return false
		}
		return true
	}
	if b, isC := constBool(ok); isC {
		if !b {
			val = e.zero(t)
		}
		fr.regs[in] = e.in.mk(OpTuple, in.Type(), "t", val, ok)
		fr.pc++
		return true
	}
	// keep the zero value of the failing case apart
	o := st.clone()
	if e.Assume(o, ok, false) {
		o.top().regs[in] = e.in.mk(OpTuple, in.Type(), "t", e.zero(t), e.cbool(false))
		o.top().pc++
		e.forks = append(e.forks, o)
	}
	if !e.Assume(st, ok, true) {
		return false
	}
	fr.regs[in] = e.in.mk(OpTuple, in.Type(), "t", val, e.cbool(true))
	fr.pc++
	return true
}

func (e *Engine) doSelect(st *State, fr *Frame, in *ssa.Select) bool {
	tt := in.Type().(*types.Tuple)
	var cases []int
	for i, sc := range in.States {
		if !isNilConst(e.operand(st, fr, sc.Chan)) { // never ready
			cases = append(cases, i)
		}
	}
	if !in.Blocking {
		cases = append(cases, -1)
	}
	if e.h.Select != nil {
		e.h.Select(e, st, in, cases)
	}
	for c, idx := range cases {
		s := st
		if c < len(cases)-1 {
			s = st.clone()
		}
		f := s.top()
		vals := make([]*Val, tt.Len())
		vals[0] = e.cint(int64(idx))
		vals[1] = e.cbool(false)
		r := 2
		for i, sc := range in.States {
			ch := e.operand(s, f, sc.Chan)
			if sc.Dir == types.RecvOnly {
				if i == idx {
					v := e.fresh(s, "recv", in, r, tt.At(r).Type(), ch)
					ok := e.fresh(s, "recvok", in, 100+r, types.Typ[types.Bool], ch)
					vals[r], vals[1] = v, ok
					s.note(sc.Pos, "select receives from %s", ch)
					if e.h.Recv != nil {
						e.h.Recv(e, s, in, ch, v, ok)
					}
				} else {
					vals[r] = e.zero(tt.At(r).Type())
				}
				r++
			} else if i == idx {
				s.note(sc.Pos, "select sends to %s", ch)
				if e.h.Send != nil {
					e.h.Send(e, s, in, ch, e.operand(s, f, sc.Send))
				}
			}
		}
		f.regs[in] = e.in.mk(OpTuple, in.Type(), "t", vals...)
		f.pc++
		if s != st {
			e.forks = append(e.forks, s)
		}
	}
	return len(cases) > 0
}

// widenCells widens the counters of the current loop that live in memory.
func (e *Engine) widenCells(st *State, fr *Frame) {
	var cells []*Val
	for a, v := range st.mem {
		if _, ok := constInt(v); !ok && (v.typ == nil || !isIntTyped(v.typ)) {
			continue
		}
		if v.op == OpBin || v.op == OpConst && e.loopCounts(a, v) {
			cells = append(cells, a)
		}
	}
	sortVals(cells)
	for _, a := range cells {
		v := st.mem[a]
		t := v.typ
		if t == nil {
			t = types.Typ[types.Int]
		}
		w := e.fresh(st, "widened", a, 0, t)
		v = st.mem[a]
		e.moveGhosts(st, v, w, e.ghostSign)
		st.mem[a] = w
	}
}

// loopCounts: a cell held several constants at heads of loops.
func (e *Engine) loopCounts(a, v *Val) bool {
	k := fmt.Sprintf("cell.%d", a.id)
	m := e.numSeen[k]
	if m == nil {
		m = map[int]bool{}
		e.numSeen[k] = m
	}
	m[v.id] = true
	return len(m) > 1
}

// jump moves to another block and evaluates its phis.
func (e *Engine) jump(st *State, fr *Frame, to *ssa.BasicBlock) {
	from := fr.block
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	// two edges from the same block (both branches of an if): either is fine
	back := to.Dominates(from)
	n := 0
	var phis []*ssa.Phi
	var vals []*Val
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		v := e.operand(st, fr, phi.Edges[pi])
		phis = append(phis, phi)
		vals = append(vals, v)
	}
	fr.block = to
	prev := make([]*Val, len(phis))
	for i, phi := range phis {
		if back {
			prev[i] = fr.regs[phi]
		}
		fr.regs[phi] = vals[i]
	}
	if back {
		fr.pc = n
		e.prune(st) // forget what earlier iterations used
		for i, phi := range phis {
			v := fr.regs[phi]
			if v == nil {
				continue // not used any more
			}
			_ = i
			if e.unrolled(fr, phi, v) {
				continue
			} else if e.widens(phi, v) {
				w := e.fresh(st, "phi", phi, 0, phi.Type())
				e.carry(st, fr, phi, v, w)
				e.carryGhost(st, phi, fr.regs[phi], w)
				fr.regs[phi] = w
			} else if chases(phi, v, prev[i]) {
				// a pointer that walks along a list: it gets a name of its own
				w := e.fresh(st, "phi", phi, 0, phi.Type())
				delete(st.seen, w) // not in use yet
				if n := fr.regs[phi]; n != w {
					if n.op == OpLoad && st.mem[n.a[0]] == nil {
						st.mem[n.a[0]] = n // where it was found still holds it
					}
					e.rename(st, n, w)
				}
				st.seen[w] = true
			} else if outdated(v) && !isPhi(v, phi) {
				// a value of the iteration before the last: the symbols it is
				// made of are about to be reused, so it gets its own
				w := e.fresh(st, "held", phi, 0, phi.Type())
				delete(st.seen, w)
				e.rename(st, fr.regs[phi], w)
				st.seen[w] = true
			}
		}
		e.widenMem(st, fr)
	}
	fr.pc = n
	fr.fresh = true
}

// chases: the new value of a loop variable was reached from its old one.
func chases(phi *ssa.Phi, v, prev *Val) bool {
	if prev == nil || v == prev || isConst(prev) {
		return false
	}
	if _, ok := phi.Type().Underlying().(*types.Basic); ok {
		return false
	}
	switch v.op {
	case OpLoad, OpField, OpIndex, OpFieldAddr, OpIndexAddr, OpPure, OpAssert:
		return mentions(v, prev) || anyIn(v, isChase)
	}
	return isChase(v)
}

func isChase(v *Val) bool {
	if v.op != OpSym {
		return false
	}
	k, ok := v.aux.(symKey)
	return ok && k.kind == "chase"
}

func outdated(v *Val) bool {
	return anyIn(v, func(x *Val) bool {
		if x.op != OpSym && x.op != OpAlloc {
			return false
		}
		k, ok := x.aux.(symKey)
		return ok && k.gen > 0
	})
}

func isPhi(v *Val, phi *ssa.Phi) bool {
	if v.op != OpSym {
		return false
	}
	k := v.aux.(symKey)
	return k.site == interface{}(phi)
}

// widens: numbers and strings computed in a loop are replaced by unknowns.
func (e *Engine) widens(phi *ssa.Phi, v *Val) bool {
	b, ok := phi.Type().Underlying().(*types.Basic)
	if !ok {
		return v.depth > maxDepth-4
	}
	if b.Info()&types.IsBoolean != 0 {
		return v.depth > maxDepth-4
	}
	if v.op == OpConst {
		// a constant that is assigned in the loop, not computed
		for _, ed := range phi.Edges {
			if c, ok := ed.(*ssa.Const); ok && c.Value != nil {
				if e.in.Const(c.Type(), c.Value) == v {
					return false
				}
			}
		}
		return true
	}
	return v.op == OpBin || v.op == OpUn || v.op == OpSlice || v.depth > maxDepth-4
}

// carry keeps what is known about the sign of a counter.
// counts: the variable of the loop only grows, or only shrinks, by constants,
// and not in every round.
func counts(phi *ssa.Phi) (up, down, some bool) {
	up, down = true, true
	seen := map[ssa.Value]bool{}
	n := 0
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if v == ssa.Value(phi) {
			some = true
			return true
		}
		if seen[v] {
			return true
		}
		seen[v] = true
		if n++; n > 20 {
			return false
		}
		switch v := v.(type) {
		case *ssa.Phi:
			for _, ed := range v.Edges {
				if !walk(ed) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			k, ok := v.Y.(*ssa.Const)
			if !ok || k.Value == nil || v.X != ssa.Value(phi) || v.Op != token.ADD && v.Op != token.SUB {
				return false
			}
			s := constant.Sign(k.Value)
			if v.Op == token.SUB {
				s = -s
			}
			up, down = up && s >= 0, down && s <= 0
			return true
		}
		return false
	}
	for i, ed := range phi.Edges {
		if phi.Block().Dominates(phi.Block().Preds[i]) && !walk(ed) {
			return false, false, false
		}
	}
	return up, down, some
}

func (e *Engine) carry(st *State, fr *Frame, phi *ssa.Phi, v, w *Val) {
	if !isIntTyped(phi.Type()) {
		return
	}
	v = fr.regs[phi] // may have been renamed
	lo, hi := e.interval(st, v)
	// monotone counters: the lower bound of the entry value survives if the
	// loop only adds, the upper bound if it only subtracts
	entryLo, entryHi := int64(inf), -int64(inf)
	up, down := true, true
	if u, d, some := counts(phi); some {
		// a conditional counter: whether it ever counted is remembered
		up, down = u, d
		defer func() {
			if up && entryLo > -inf && entryLo < inf && lo > entryLo {
				e.Assume(st, e.lss(w, e.cint(entryLo+1)), false)
			}
		}()
	}
	for i, ed := range phi.Edges {
		if phi.Block().Dominates(phi.Block().Preds[i]) {
			if _, isPhi := ed.(*ssa.Phi); isPhi && (up || down) && ed != ssa.Value(phi) {
				if u, d, some := counts(phi); some {
					up, down = up && u, down && d
					continue
				}
			}
			if b, ok := ed.(*ssa.BinOp); ok {
				k, isK := b.Y.(*ssa.Const)
				if b.X == ssa.Value(phi) && isK && k.Value != nil && (b.Op == token.ADD || b.Op == token.SUB) {
					s := constant.Sign(k.Value)
					if b.Op == token.SUB {
						s = -s
					}
					if s < 0 {
						up = false
					}
					if s > 0 {
						down = false
					}
					continue
				}
			}
			if ed != ssa.Value(phi) {
				up, down = false, false
			}
			continue
		}
		if c, ok := ed.(*ssa.Const); ok && c.Value != nil {
			if k, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				if k < entryLo {
					entryLo = k
				}
				if k > entryHi {
					entryHi = k
				}
				continue
			}
		}
		entryLo, entryHi = -inf, inf
	}
	if up && entryLo > -inf && entryLo < inf && lo >= entryLo {
		e.Assume(st, e.lss(w, e.cint(entryLo)), false)
	}
	if down && entryHi < inf && entryHi > -inf && hi <= entryHi {
		e.Assume(st, e.lss(e.cint(entryHi), w), false)
	}
}

// widenMem: numeric cells that take more than a few constants at a loop head.
func (e *Engine) widenMem(st *State, fr *Frame) {
	// pointers in memory that walk along a list
	var deep []*Val
	for a, v := range st.mem {
		if v.op == OpLoad && v.depth >= 7 && v.typ != nil {
			if _, ok := v.typ.Underlying().(*types.Pointer); ok {
				deep = append(deep, a)
			}
		}
	}
	sortVals(deep)
	for i, a := range deep {
		v := st.mem[a]
		if v == nil || v.op != OpLoad || v.depth < 7 {
			continue
		}
		typ := v.typ
		st.p.V["§chase"] = v
		w := e.fresh(st, "chase", fr.block, i, typ)
		v = st.p.V["§chase"]
		delete(st.p.V, "§chase")
		delete(st.seen, w)
		if v != w {
			e.rename(st, v, w)
		}
		st.seen[w] = true
	}
	if e.ghostMem {
		e.widenCells(st, fr)
	}
	for a, v := range st.mem {
		c, ok := constVal(v)
		if !ok || c == nil || c.Kind() == constant.Bool {
			continue
		}
		k := fmt.Sprintf("%p.%d.%d.%d", fr.fn, fr.block.Index, fr.ctx, a.id)
		m := e.numSeen[k]
		if m == nil {
			m = map[int]bool{}
			e.numSeen[k] = m
		}
		m[v.id] = true
		if len(m) > 4 {
			st.mem[a] = e.fresh(st, "widened", a, 0, v.typ)
		}
	}
}

// ---------------------------------------------------------------- calls

func (e *Engine) callOperands(st *State, fr *Frame, c *ssa.CallCommon) (*Val, []*Val) {
	var args []*Val
	fn := e.operand(st, fr, c.Value)
	if c.IsInvoke() {
		args = append(args, fn)
	}
	for _, a := range c.Args {
		args = append(args, e.operand(st, fr, a))
	}
	return fn, args
}

// FuncName is the canonical name of a function: (*pkg.T).M or pkg.F.
func FuncName(fn *ssa.Function) string {
	return fn.String()
}

func (e *Engine) call(st *State, fr *Frame, in ssa.CallInstruction, fnv *Val, args []*Val, isDefer, isGo bool) bool {
	c := in.Common()
	ev := &CallEvent{st: st, instr: in, fnVal: fnv, args: args, isDefer: isDefer, isGo: isGo}
	ev.results = c.Signature().Results().Len()
	ev.args = append([]*Val(nil), args...)
	args = ev.args
	e.pins = append(e.pins, &ev.args)
	defer func() { e.pins = e.pins[:len(e.pins)-1] }()
	var fn *ssa.Function
	var free []*Val
	if c.IsInvoke() {
		ev.invoke = true
		ev.name = fmt.Sprintf("(%s).%s", types.TypeString(c.Value.Type(), nil), c.Method.Name())
		if fnv.op == OpIface && fnv.typ != nil {
			if m := e.pr.method(fnv.typ, c.Method); m != nil {
				fn = m
				ev.args[0] = fnv.a[0]
				ev.name = FuncName(m)
			}
		}
	} else if b, ok := c.Value.(*ssa.Builtin); ok {
		if isGo {
			fr.pc++
			return true
		}
		return e.builtin(st, fr, in, b, args, isDefer)
	} else {
		fn, free = e.callable(fnv)
		if fn != nil {
			ev.name = FuncName(fn)
		} else {
			ev.name = "dynamic"
		}
	}
	// a value that flows into an interface method of a bound function
	ev.fn = fn
	if isGo {
		if e.h.Go != nil {
			e.h.Go(e, ev)
		}
		fr.pc++
		return true
	}
	setRes := func(v *Val) {
		if call, ok := in.(*ssa.Call); ok && !isDefer && v != nil {
			fr.regs[call] = v
		}
	}
	if e.h.Call != nil {
		if r, handled := e.h.Call(e, ev); handled {
			if r == nil && ev.results > 0 {
				r = e.opaqueResult(st, in, ev)
			}
			setRes(r)
			if e.h.AfterCall != nil {
				e.h.AfterCall(e, ev, r)
			}
			if !isDefer {
				fr.pc++
			}
			return true
		}
	}
	if fn != nil && fn.Blocks != nil && e.pr.inScope(fn) && !e.onStack(st, fn) &&
		len(st.frames) < 24 && (e.h.Opaque == nil || !e.h.Opaque(st, fn)) {
		nf := &Frame{fn: fn, regs: map[ssa.Value]*Val{}, call: in, isDefer: isDefer, free: free}
		nf.ctx = e.ctx(fr.ctx, in)
		for i, p := range fn.Params {
			nf.regs[p] = args[i]
		}
		if !isDefer {
			fr.pc++ // continue after the call
		}
		st.frames = append(st.frames, nf)
		e.enterFunc(st, nf)
		return true
	}
	// opaque
	if fn != nil && fn.Blocks != nil && e.pr.inScope(fn) {
		e.clobberMods(st, ev, fn)
	}
	e.clobber(st, ev)
	r := e.model(st, ev)
	if r == nil {
		r = e.opaqueResult(st, in, ev)
	}
	setRes(r)
	if e.h.AfterCall != nil {
		if len(e.renames) > 0 {
			c := *ev
			c.args = nil
			for _, a := range ev.args {
				c.args = append(c.args, e.cur(a))
			}
			ev = &c
		}
		e.h.AfterCall(e, ev, r)
	}
	if noReturn(ev.name) {
		if e.h.Panic != nil && !strings.HasPrefix(ev.name, "os.Exit") {
			e.h.Panic(e, st, in, nil)
		}
		return false
	}
	if !isDefer {
		fr.pc++
	}
	return true
}

func noReturn(n string) bool {
	return n == "os.Exit" || n == "log.Fatal" || n == "log.Fatalf" || n == "log.Panic" || n == "runtime.Goexit"
}

func (e *Engine) onStack(st *State, fn *ssa.Function) bool {
	for _, f := range st.frames {
		if f.fn == fn {
			return true
		}
	}
	return false
}

func (e *Engine) ctx(parent int, in ssa.Instruction) int {
	k := fmt.Sprintf("%d/%p", parent, in)
	if c, ok := e.ctxs[k]; ok {
		return c
	}
	c := len(e.ctxs)
	e.ctxs[k] = c
	return c
}

func (e *Engine) opaqueResult(st *State, in ssa.CallInstruction, ev *CallEvent) *Val {
	sig := in.Common().Signature()
	n := sig.Results().Len()
	short := ev.name
	switch n {
	case 0:
		return nil
	case 1:
		return e.fresh(st, "call:"+short, in, 0, sig.Results().At(0).Type())
	}
	var vs []*Val
	for i := 0; i < n; i++ {
		vs = append(vs, e.fresh(st, "call:"+short, in, i, sig.Results().At(i).Type()))
	}
	// creating a later result never renames an earlier one: they differ in index
	return e.in.mk(OpTuple, sig.Results(), "t", vs...)
}

// clobber: an opaque call may write through the pointers it is given.
func (e *Engine) clobber(st *State, ev *CallEvent) {
	if e.pr.readOnly(ev.name) {
		return
	}
	n := 0
	var visit func(v *Val, d int)
	visit = func(v *Val, d int) {
		switch v.op {
		case OpIface, OpConv:
			visit(v.a[0], d)
		case OpSlice:
			if v.a[0].op == OpAlloc {
				// elements of an argument list
				var elems []*Val
				for a, x := range st.mem {
					if a.op == OpIndexAddr && a.a[0] == v.a[0] {
						elems = append(elems, x)
					}
				}
				sortVals(elems)
				for _, x := range elems {
					if d > 0 {
						visit(x, d-1)
					}
				}
			}
		case OpAlloc, OpFieldAddr:
			if v.typ == nil {
				return
			}
			p, ok := v.typ.Underlying().(*types.Pointer)
			if !ok {
				return
			}
			if ev.fn != nil && ev.fn.Blocks != nil && e.pr.inScope(ev.fn) {
				if _, isS := p.Elem().Underlying().(*types.Struct); isS {
					return // see clobberMods
				}
			}
			n++
			for k := range st.mem {
				if baseIs(k, v) {
					delete(st.mem, k)
				}
			}
			e.store(st, v, e.fresh(st, "out", ev.instr, n, p.Elem(), v), ev.instr)
		}
	}
	for _, a := range ev.args {
		visit(a, 2)
	}
	for a := range st.mem {
		if a.op == OpPure && a.aux == "mapempty" {
			for _, x := range ev.args {
				if mentions(x, a.a[0]) {
					delete(st.mem, a)
				}
			}
		}
	}
}

// clobberMods: an opaque function of the repository may write the fields and
// maps its body (and what it calls) writes.
func (e *Engine) clobberMods(st *State, ev *CallEvent, fn *ssa.Function) {
	m := e.pr.modsOf(fn)
	e.materialize(st, ev, m)
	var addrs []*Val
	for a := range st.mem {
		if a.op == OpFieldAddr && m.fields[fieldKey(a.a[0].typ, a.aux.(int))] {
			addrs = append(addrs, a)
		}
	}
	sortVals(addrs)
	for i, a := range addrs {
		if v, ok := st.mem[a]; ok {
			st.mem[a] = e.fresh(st, "out", ev.instr, 1000+i, v.typ, a)
		}
	}
	var ks []string
	for k := range m.fields {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		st.mem[e.in.mk(OpPure, nil, "epoch:"+k)] = e.fresh(st, "epoch:"+k, ev.instr, 0, nil)
	}
	var maps []*Val
	for a := range st.mem {
		if a.op == OpPure && (a.aux == "mapval" || a.aux == "mapver" || a.aux == "mapempty") && a.a[0].typ != nil && m.maps[typeKey(a.a[0].typ.Underlying())] {
			maps = append(maps, a)
		}
	}
	for _, a := range maps {
		delete(st.mem, a)
		if a.aux == "mapver" {
			st.mem[a] = e.fresh(st, "mapver", ev.instr, 0, nil)
		}
	}
}

// materialize gives the fields and maps that are about to be changed, but have
// their initial content so far, an entry in memory.
func (e *Engine) materialize(st *State, ev *CallEvent, m *modset) {
	done := map[*Val]bool{}
	var visit func(v *Val)
	visit = func(v *Val) {
		if v == nil || done[v] {
			return
		}
		done[v] = true
		for _, x := range v.a {
			visit(x)
		}
		if v.typ == nil {
			return
		}
		if v.op == OpAlloc {
			if t := derefStruct(v.typ); t != nil {
				for i := 0; i < t.NumFields(); i++ {
					if !m.fields[fieldKey(v.typ, i)] {
						continue
					}
					a := e.in.mk(OpFieldAddr, types.NewPointer(t.Field(i).Type()), i, v)
					if _, ok := st.mem[a]; !ok {
						st.mem[a] = e.load(st, a, t.Field(i).Type())
					}
				}
			}
		}
		if _, ok := v.typ.Underlying().(*types.Map); ok && m.maps[typeKey(v.typ.Underlying())] && !isNilConst(v) {
			a := e.in.mk(OpPure, nil, "mapver", v)
			if _, ok := st.mem[a]; !ok {
				st.mem[a] = v
			}
		}
	}
	for _, v := range ev.args {
		visit(v)
	}
	for _, fr := range st.frames {
		for _, v := range fr.regs {
			visit(v)
		}
		for _, v := range fr.free {
			visit(v)
		}
	}
	var as []*Val
	for a, v := range st.mem {
		as = append(as, a, v)
	}
	for _, v := range as {
		visit(v)
	}
}

func sortVals(vs []*Val) {
	for i := 1; i < len(vs); i++ {
		for j := i; j > 0 && vs[j].id < vs[j-1].id; j-- {
			vs[j], vs[j-1] = vs[j-1], vs[j]
		}
	}
}

// model gives results to well-known library functions.
func (e *Engine) model(st *State, ev *CallEvent) *Val {
	n := ev.name
	switch n {
	case "errors.New", "fmt.Errorf":
		return e.fresh(st, "nonnil:"+n, ev.instr, 0, ev.instr.Common().Signature().Results().At(0).Type())
	}
	if strings.HasPrefix(n, "strings.") {
		if r := e.stringsModel(st, ev); r != nil {
			return r
		}
	}
	if r := e.joinModel(st, ev); r != nil {
		return r
	}
	if e.pr.pure(n) {
		sig := ev.instr.Common().Signature()
		if sig.Results().Len() == 1 {
			args := ev.args
			if sig.Variadic() && len(args) > 0 {
				if items := e.sliceItems(st, args[len(args)-1]); items != nil {
					args = append(append([]*Val(nil), args[:len(args)-1]...), items...)
				}
			}
			return e.in.mk(OpPure, sig.Results().At(0).Type(), n, args...)
		}
	}
	return nil
}

// joinModel: strings put together by fmt.Sprintf or strings.Join are what + makes of them.
func (e *Engine) joinModel(st *State, ev *CallEvent) *Val {
	str := types.Typ[types.String]
	text := func(v *Val) *Val {
		v = unwrap(v)
		if v == nil || v.typ == nil {
			return nil
		}
		if t, ok := v.typ.(*types.Basic); ok && t.Info()&types.IsString != 0 {
			return v
		}
		return nil
	}
	var parts []*Val
	switch ev.name {
	case "fmt.Sprintf":
		f, ok := constStr(ev.args[0])
		if !ok || len(ev.args) != 2 {
			return nil
		}
		items := e.sliceItems(st, ev.args[1])
		lit := ""
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				lit += f[i : i+1]
				continue
			}
			if i++; i >= len(f) {
				return nil
			}
			if f[i] == '%' {
				lit += "%"
				continue
			}
			if f[i] != 's' && f[i] != 'v' || len(items) == 0 {
				return nil
			}
			x := text(items[0])
			if x == nil {
				return nil
			}
			if lit != "" {
				parts, lit = append(parts, e.cstr(lit)), ""
			}
			parts, items = append(parts, x), items[1:]
		}
		if len(items) > 0 {
			return nil
		}
		if lit != "" {
			parts = append(parts, e.cstr(lit))
		}
	case "strings.Join":
		items := e.sliceItems(st, ev.args[0])
		if len(items) == 0 {
			return nil
		}
		for i, x := range items {
			if i > 0 {
				parts = append(parts, ev.args[1])
			}
			if x = text(x); x == nil {
				return nil
			}
			parts = append(parts, x)
		}
	}
	if len(parts) == 0 {
		return nil
	}
	r := parts[0]
	for _, p := range parts[1:] {
		r = e.binop(token.ADD, r, p, str, str)
	}
	return r
}

// index is the position of sep in s, or -1.
func (e *Engine) index(s, sep *Val) *Val {
	if k, ok := constInt(sep); ok {
		sep = e.cstr(string(rune(k)))
	}
	return e.in.mk(OpPure, types.Typ[types.Int], "strings.Index", s, sep)
}

// stringsModel relates the functions that find a separator.
func (e *Engine) stringsModel(st *State, ev *CallEvent) *Val {
	it, bt := types.Typ[types.Int], types.Typ[types.Bool]
	rt := ev.instr.Common().Signature().Results()
	found := func() *Val { return e.not(e.binop(token.LSS, e.index(ev.args[0], ev.args[1]), e.cint(0), it, bt)) }
	switch ev.name {
	case "strings.Index", "strings.IndexByte", "strings.IndexRune":
		return e.index(ev.args[0], ev.args[1])
	case "strings.Contains", "strings.ContainsRune":
		return found()
	case "strings.Cut":
		return e.in.mk(OpTuple, rt, "t",
			e.in.mk(OpPure, rt.At(0).Type(), "cut0", ev.args[0], ev.args[1]),
			e.in.mk(OpPure, rt.At(1).Type(), "cut1", ev.args[0], ev.args[1]), found())
	case "strings.SplitN":
		sep, ok := constStr(ev.args[1])
		if k, isC := constInt(ev.args[2]); !isC || k != 2 || !ok || sep == "" || ev.isDefer {
			return nil
		}
		call, ok := ev.instr.(*ssa.Call)
		if !ok {
			return nil
		}
		s, idx := ev.args[0], e.index(ev.args[0], ev.args[1])
		slice := func(st *State, items ...*Val) *Val {
			el := rt.At(0).Type().Underlying().(*types.Slice).Elem()
			arr := e.freshOp(st, OpAlloc, "splitn", ev.instr, len(items), types.NewPointer(types.NewArray(el, int64(len(items)))))
			for i, x := range items {
				st.mem[e.in.mk(OpIndexAddr, types.NewPointer(el), "ix", arr, e.cint(int64(i)))] = x
			}
			return e.in.mk(OpSlice, rt.At(0).Type(), "all", arr)
		}
		none := e.not(found())
		o := st.clone()
		if e.Assume(o, none, true) {
			if !e.Assume(st, none, false) {
				e.Assume(st, none, true)
				return slice(st, s)
			}
			r := slice(o, s)
			o.top().regs[call] = r
			o.top().pc++
			e.forks = append(e.forks, o)
		} else {
			e.Assume(st, none, false)
		}
		return slice(st, e.in.mk(OpSlice, s.typ, "h", s, idx), e.in.mk(OpSlice, s.typ, "l", s, e.binop(token.ADD, idx, e.cint(int64(len(sep))), it, it)))
	}
	return nil
}

// sliceItems lists the elements of a slice literal (such as an argument list).
func (e *Engine) sliceItems(st *State, s *Val) []*Val {
	s = unwrapConv(s)
	if isNilConst(s) {
		return []*Val{}
	}
	if l := e.tableOf(s); l != nil && l.keys == nil && s.op == OpLoad && len(l.vals) > 0 {
		for _, v := range l.vals {
			if v == nil {
				return nil
			}
		}
		return append([]*Val{}, l.vals...)
	}
	if s.op != OpSlice || len(s.a) != 1 || s.a[0].op != OpAlloc {
		return nil
	}
	arr := s.a[0]
	at, ok := arr.typ.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil
	}
	var r []*Val
	for i := int64(0); i < at.Len(); i++ {
		r = append(r, e.load(st, e.in.mk(OpIndexAddr, types.NewPointer(at.Elem()), "ix", arr, e.cint(i)), at.Elem()))
	}
	return r
}

func unwrapConv(v *Val) *Val {
	for v.op == OpConv {
		v = v.a[0]
	}
	return v
}

func (e *Engine) builtin(st *State, fr *Frame, in ssa.CallInstruction, b *ssa.Builtin, args []*Val, isDefer bool) bool {
	var r *Val
	switch b.Name() {
	case "len", "cap":
		x := args[0]
		if s, ok := constStr(x); ok {
			r = e.cint(int64(len(s)))
		} else if isNilConst(x) {
			r = e.cint(0)
		} else if e.emptyMap(st, x) {
			r = e.cint(0)
		} else if l := e.tableOf(x); l != nil && b.Name() == "len" {
			r = e.cint(int64(len(l.vals)))
		} else if v, ok := st.mem[e.in.mk(OpPure, types.Typ[types.Int], "lenof", x)]; ok && b.Name() == "len" {
			r = v
		} else if items := e.sliceItems(st, x); items != nil {
			r = e.cint(int64(len(items)))
		} else if x.op == OpSlice && b.Name() == "len" {
			r = e.sliceLen(x)
		} else {
			args := []*Val{x}
			if x.typ != nil {
				if _, ok := x.typ.Underlying().(*types.Map); ok {
					if ver := e.mapVer(st, x); ver != nil {
						args = append(args, ver)
					}
				}
			}
			r = e.in.mk(OpPure, types.Typ[types.Int], b.Name(), args...)
		}
	case "append":
		base, items := args[0], e.zero(types.NewSlice(types.Typ[types.Int]))
		if len(args) > 1 {
			items = args[1]
		}
		call := in.(*ssa.Call)
		// the operands may be renamed by the creation of the result
		fr.regs[call] = e.in.mk(OpTuple, nil, "tmp", base, items)
		r = e.fresh(st, "make:append", in, 0, call.Type())
		tmp := fr.regs[call]
		base, items = tmp.a[0], tmp.a[1]
		fr.regs[call] = r
		if its := e.sliceItems(st, items); len(its) > 0 {
			e.Assume(st, e.lss(e.lenOf(r), e.cint(1)), false)
		} else if lo, _ := e.interval(st, e.lenOf(items)); lo > 0 {
			e.Assume(st, e.lss(e.lenOf(r), e.cint(1)), false)
		}
		if e.h.Append != nil {
			e.h.Append(e, st, in, base, items, r)
		}
	case "delete":
		if e.h.Delete != nil {
			e.h.Delete(e, st, in, args[0], args[1])
		}
		e.mapWrite(st, args[0], args[1], nil, in)
	case "close":
		if e.h.Close != nil {
			e.h.Close(e, st, in, args[0])
		}
	case "copy":
		r = e.fresh(st, "copy", in, 0, types.Typ[types.Int])
		if args[0].op == OpSlice {
			for k := range st.mem {
				if k.op == OpIndexAddr && baseIs(k, args[0].a[0]) {
					delete(st.mem, k)
				}
			}
		}
	case "recover":
		r = e.fresh(st, "recover", in, 0, types.NewInterfaceType(nil, nil))
	case "print", "println", "clear", "ssa:wrapnilchk":
		if b.Name() == "ssa:wrapnilchk" {
			r = args[0]
		}
	case "min", "max":
		t := in.(*ssa.Call).Type()
		r = e.in.mk(OpPure, t, b.Name(), args...)
		if len(args) == 2 && isIntTyped(t) {
			// min/max are case distinctions
			o := st.clone()
			c := e.lss(args[0], args[1])
			if e.Assume(o, c, false) {
				v := args[1]
				if b.Name() == "max" {
					v = args[0]
				}
				o.top().regs[in.(*ssa.Call)] = v
				o.top().pc++
				e.forks = append(e.forks, o)
			}
			if !e.Assume(st, c, true) {
				return false
			}
			r = args[0]
			if b.Name() == "max" {
				r = args[1]
			}
		}
	default:
		if call, ok := in.(*ssa.Call); ok {
			r = e.fresh(st, "builtin:"+b.Name(), in, 0, call.Type())
		}
	}
	if call, ok := in.(*ssa.Call); ok && r != nil && !isDefer {
		fr.regs[call] = r
	}
	if !isDefer {
		fr.pc++
	}
	return true
}

func (e *Engine) sliceLen(x *Val) *Val {
	it := types.Typ[types.Int]
	names, _ := x.aux.(string)
	if names == "all" {
		if x.a[0].typ != nil {
			if pt, ok := x.a[0].typ.Underlying().(*types.Pointer); ok {
				if at, ok := pt.Elem().Underlying().(*types.Array); ok {
					return e.cint(at.Len())
				}
			}
		}
		return e.in.mk(OpPure, it, "len", x)
	}
	var lo, hi *Val
	i := 1
	lo = e.cint(0)
	for _, c := range names {
		switch c {
		case 'l':
			lo = x.a[i]
		case 'h':
			hi = x.a[i]
		}
		i++
	}
	if hi == nil {
		if s, ok := constStr(x.a[0]); ok {
			hi = e.cint(int64(len(s)))
		} else {
			hi = e.lenOf(x.a[0])
		}
	}
	return e.binop(token.SUB, hi, lo, it, it)
}

// doReturn pops a frame.
func (e *Engine) doReturn(st *State, fr *Frame, in *ssa.Return, res []*Val) bool {
	if len(st.frames) == 1 {
		if e.h.Return != nil {
			e.h.Return(e, st, in, res)
		}
		return false
	}
	var args []*Val
	if e.h.AfterInline != nil {
		for _, p := range fr.fn.Params {
			args = append(args, fr.regs[p])
		}
	}
	st.frames = st.frames[:len(st.frames)-1]
	caller := st.top()
	var r *Val
	switch len(res) {
	case 0:
	case 1:
		r = res[0]
	default:
		r = e.in.mk(OpTuple, nil, "t", res...)
	}
	if call, ok := fr.call.(*ssa.Call); ok && !fr.isDefer && r != nil {
		caller.regs[call] = r
	}
	if e.h.AfterInline != nil {
		e.h.AfterInline(e, st, fr.fn, fr.call, args, r)
	}
	return true
}
