package main

// Control flow facts: natural loops and whether they visit every element of
// what they range over; reachability inside a function.

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	fn     *ssa.Function
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	// what the loop ranges over, if it is a complete traversal
	over  ssa.Value
	kind  string      // "index", "iter", "chan", ""
	elem  []ssa.Value // values of the current element (IndexAddr / Extract / Index)
	index ssa.Value
	off   int64                // what to add to index to get the index of the element
	end   *ssa.BasicBlock      // where the traversal continues after the last element
	exits [][2]*ssa.BasicBlock // edges leaving the loop other than the traversal's end
	why   string               // why it is not a complete traversal
}

// Loops finds the natural loops of a function, innermost last.
func Loops(fn *ssa.Function) []*Loop {
	byHead := map[*ssa.BasicBlock]*Loop{}
	var order []*Loop
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := byHead[s]
			if l == nil {
				l = &Loop{fn: fn, head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
				byHead[s] = l
				order = append(order, l)
			}
			stack := []*ssa.BasicBlock{b}
			for len(stack) > 0 {
				x := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				stack = append(stack, x.Preds...)
			}
		}
	}
	for _, l := range order {
		l.classify()
	}
	return order
}

func (l *Loop) classify() {
	var end *ssa.BasicBlock // successor of head taken when the traversal ends
	h := l.head
	if len(h.Instrs) == 0 {
		return
	}
	iff, _ := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if iff != nil {
		in0, in1 := l.blocks[h.Succs[0]], l.blocks[h.Succs[1]]
		switch c := iff.Cond.(type) {
		case *ssa.Extract:
			if nx, ok := c.Tuple.(*ssa.Next); ok && c.Index == 0 && in0 && !in1 && nx.Block() == h {
				if rg, ok := nx.Iter.(*ssa.Range); ok {
					l.kind, l.over = "iter", rg.X
					end = h.Succs[1]
					for _, r := range *nx.Referrers() {
						if ex, ok := r.(*ssa.Extract); ok && ex.Index > 0 {
							l.elem = append(l.elem, ex)
						}
					}
				}
			}
			if rv, ok := c.Tuple.(*ssa.UnOp); ok && rv.Op == token.ARROW && c.Index == 1 && in0 && !in1 && rv.Block() == h {
				l.kind, l.over = "chan", rv.X
				end = h.Succs[1]
				for _, r := range *rv.Referrers() {
					if ex, ok := r.(*ssa.Extract); ok && ex.Index == 0 {
						l.elem = append(l.elem, ex)
					}
				}
			}
		case *ssa.BinOp:
			op, x, y, stay := c.Op, c.X, c.Y, 0
			switch {
			case in0 && !in1:
			case in1 && !in0:
				stay = 1
				switch op {
				case token.LSS:
					op = token.GEQ
				case token.GEQ:
					op = token.LSS
				case token.GTR:
					op = token.LEQ
				case token.LEQ:
					op = token.GTR
				case token.EQL:
					op = token.NEQ
				case token.NEQ:
					op = token.EQL
				}
			default:
				op = token.ILLEGAL
			}
			if l.counter(y) && !l.counter(x) {
				x, y = y, x
				switch op {
				case token.LSS:
					op = token.GTR
				case token.GEQ:
					op = token.LEQ
				case token.GTR:
					op = token.LSS
				case token.LEQ:
					op = token.GEQ
				}
			}
			switch op {
			case token.LSS, token.LEQ, token.NEQ:
				if l.indexLoop(op, x, y) || op == token.NEQ && l.downLoop(op, x, y) {
					end = h.Succs[1-stay]
				}
			case token.GEQ, token.GTR:
				if l.downLoop(op, x, y) {
					end = h.Succs[1-stay]
				}
			}
		}
	}
	l.end = end
	for b := range l.blocks {
		for _, s := range b.Succs {
			if !l.blocks[s] && !(b == h && s == end) {
				l.exits = append(l.exits, [2]*ssa.BasicBlock{b, s})
			}
		}
	}
}

// counter: the value counts the iterations.
func (l *Loop) counter(v ssa.Value) bool {
	if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
		v = b.X
	}
	p, ok := v.(*ssa.Phi)
	return ok && p.Block() == l.head
}

// indexLoop recognises i = 0..len(x)-1 in both forms the compiler front end
// produces (range loops start at -1 and increment in the header).
func (l *Loop) indexLoop(op token.Token, cx, cy ssa.Value) bool {
	isLen := func(v ssa.Value) ssa.Value {
		call, ok := v.(*ssa.Call)
		if !ok {
			return nil
		}
		if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return call.Call.Args[0]
		}
		return nil
	}
	if op == token.LEQ {
		// i <= len(x)-1
		b, ok := cy.(*ssa.BinOp)
		if !ok || b.Op != token.SUB {
			return false
		}
		if k, ok := b.Y.(*ssa.Const); !ok || k.Value == nil || k.Value.ExactString() != "1" {
			return false
		}
		cy = b.X
	}
	x := isLen(cy)
	if x == nil {
		return false
	}
	konst := func(v ssa.Value, k int64) bool {
		cc, ok := v.(*ssa.Const)
		if !ok || cc.Value == nil || cc.Value.Kind() != constant.Int {
			return false
		}
		n, ok := constant.Int64Val(cc.Value)
		return ok && n == k
	}
	phiOf := func(v ssa.Value) *ssa.Phi {
		p, ok := v.(*ssa.Phi)
		if !ok || p.Block() != l.head {
			return nil
		}
		return p
	}
	isInc := func(v ssa.Value, p *ssa.Phi) bool {
		b, ok := v.(*ssa.BinOp)
		return ok && b.Op == token.ADD && b.X == ssa.Value(p) && konst(b.Y, 1)
	}
	if b, ok := cx.(*ssa.BinOp); ok && b.Op == token.ADD && konst(b.Y, 1) {
		// range form: phi(-1, b); b = phi+1; b < len
		if p := phiOf(b.X); p != nil {
			for i, ed := range p.Edges {
				if l.blocks[p.Block().Preds[i]] {
					if ed != ssa.Value(b) {
						return false
					}
				} else if !konst(ed, -1) {
					l.why = "the traversal does not start at the first element"
					return false
				}
			}
			l.kind, l.over, l.index = "index", x, b
		}
	} else if p := phiOf(cx); p != nil {
		for i, ed := range p.Edges {
			if l.blocks[p.Block().Preds[i]] {
				if !isInc(ed, p) {
					l.why = "the index does not advance by one"
					return false
				}
			} else if !konst(ed, 0) {
				l.why = "the traversal does not start at the first element"
				return false
			}
		}
		l.kind, l.over, l.index = "index", x, p
	}
	if l.kind == "" {
		return false
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if ia, ok := in.(*ssa.IndexAddr); ok && ia.Index == l.index && sameSlice(ia.X, l.over) {
				l.elem = append(l.elem, ia)
			}
			if ia, ok := in.(*ssa.Index); ok && ia.Index == l.index && sameSlice(ia.X, l.over) {
				l.elem = append(l.elem, ia)
			}
			if ia, ok := in.(*ssa.Lookup); ok && ia.Index == l.index && sameSlice(ia.X, l.over) {
				l.elem = append(l.elem, ia)
			}
		}
	}
	return true
}

// downLoop recognises i = len(x)-1 .. 0, and i = len(x) .. 1 for x[i-1].
func (l *Loop) downLoop(op token.Token, cx, cy ssa.Value) bool {
	p, ok := cx.(*ssa.Phi)
	k, isK := cy.(*ssa.Const)
	if !ok || p.Block() != l.head || !isK || k.Value == nil || k.Value.Kind() != constant.Int {
		return false
	}
	n, _ := constant.Int64Val(k.Value)
	if op == token.GEQ {
		n--
	}
	// the last value of the index is n+1
	isK1 := func(v ssa.Value, k int64) bool {
		cc, ok := v.(*ssa.Const)
		if !ok || cc.Value == nil || cc.Value.Kind() != constant.Int {
			return false
		}
		n, ok := constant.Int64Val(cc.Value)
		return ok && n == k
	}
	dec := func(b *ssa.BinOp) bool {
		return b.Op == token.SUB && isK1(b.Y, 1) || b.Op == token.ADD && isK1(b.Y, -1)
	}
	var x ssa.Value
	for i, ed := range p.Edges {
		b, isB := ed.(*ssa.BinOp)
		if l.blocks[p.Block().Preds[i]] {
			if !isB || b.X != ssa.Value(p) || !dec(b) {
				return false
			}
			continue
		}
		off := int64(0)
		if isB {
			if !dec(b) {
				return false
			}
			ed, off = b.X, -1
		}
		call, ok := ed.(*ssa.Call)
		if !ok || x != nil && x != call.Call.Args[0] {
			return false
		}
		if bi, ok := call.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
			return false
		}
		// from len+off down to n+1 are all elements if n+1 == off+1
		if n != off {
			return false
		}
		x = call.Call.Args[0]
		l.off = -1 - off
	}
	if x == nil {
		return false
	}
	l.kind, l.over, l.index = "index", x, p
	return true
}

// sameSlice: both registers load the same variable or are the same.
func sameSlice(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	return samePath(a, b)
}

// samePath: the two values read the same access path (x.f.g).
func samePath(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && x.Op == token.MUL && samePath(x.X, y.X)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && samePath(x.X, y.X)
	case *ssa.Field:
		y, ok := b.(*ssa.Field)
		return ok && x.Field == y.Field && samePath(x.X, y.X)
	}
	return false
}

// InLoop: blocks that lie on a cycle.
func inLoop(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	stack := append([]*ssa.BasicBlock(nil), b.Succs...)
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		stack = append(stack, x.Succs...)
	}
	return false
}

// innermost loop containing a block
func loopOf(ls []*Loop, b *ssa.BasicBlock) *Loop {
	var best *Loop
	for _, l := range ls {
		if l.blocks[b] && (best == nil || len(l.blocks) < len(best.blocks)) {
			best = l
		}
	}
	return best
}

func hasLoop(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- calls

// calleesOf lists the functions of the module a function may run: direct
// calls, calls of function literals it creates, and interface calls resolved
// over the types of the module.
func (p *Program) calleesOf(fn *ssa.Function) []*ssa.Function {
	if r, ok := p.calleeCache[fn]; ok {
		return r
	}
	var r []*ssa.Function
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok {
				r = append(r, mc.Fn.(*ssa.Function))
			}
			var ops [12]*ssa.Value
			for _, o := range in.Operands(ops[:0]) {
				if f, ok := (*o).(*ssa.Function); ok && p.inScope(f) && f.Blocks != nil {
					r = append(r, f)
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
				r = append(r, p.Implementations(c.Common())...)
			}
		}
	}
	p.calleeCache[fn] = r
	return r
}

// Implementations resolves an interface call over the types of the module.
func (p *Program) Implementations(c *ssa.CallCommon) []*ssa.Function {
	it, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var r []*ssa.Function
	for _, t := range p.named() {
		for _, rt := range []types.Type{t, types.NewPointer(t)} {
			if types.Implements(rt, it) {
				if m := p.method(rt, c.Method); m != nil && p.inScope(m) && m.Blocks != nil {
					r = append(r, m)
					break
				}
			}
		}
	}
	return r
}

// typesImplementing lists the named types of the module that implement the
// interface themselves or through their pointer.
func (p *Program) typesImplementing(it *types.Interface) []*types.Named {
	var r []*types.Named
	for _, n := range p.named() {
		if types.IsInterface(n) || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), Module) {
			continue
		}
		if types.Implements(n, it) || types.Implements(types.NewPointer(n), it) {
			r = append(r, n)
		}
	}
	return r
}

// methodOf resolves a method of a named type.
func (p *Program) methodOf(n *types.Named, name string) *ssa.Function {
	ms := types.NewMethodSet(types.NewPointer(n))
	sel := ms.Lookup(n.Obj().Pkg(), name)
	if sel == nil {
		return nil
	}
	fn := p.prog.FuncValue(sel.Obj().(*types.Func))
	if fn == nil || fn.Blocks == nil {
		return nil
	}
	return fn
}

func (p *Program) named() []*types.Named {
	if p.namedCache == nil {
		p.namedCache = p.NamedTypes()
	}
	return p.namedCache
}

// Reach is the set of module functions reachable from the roots.
func (p *Program) Reach(roots ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, g := range p.calleesOf(f) {
			walk(g)
		}
	}
	for _, f := range roots {
		walk(f)
	}
	return seen
}

// staticCallees: calls with a statically known callee only (what the engine
// would analyse in place), function literals included.
func (p *Program) staticReach(fn *ssa.Function) map[*ssa.Function]bool {
	if r, ok := p.sreach[fn]; ok {
		return r
	}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || !p.inScope(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [12]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if g, ok := (*o).(*ssa.Function); ok {
						walk(g)
					}
				}
			}
		}
	}
	walk(fn)
	p.sreach[fn] = seen
	return seen
}

// Irrelevant returns a predicate for functions that need not be analysed in
// place: they contain a loop (directly or through calls) and nothing the
// property looks at.
func (p *Program) Irrelevant(relevant func(in ssa.Instruction) bool) func(st *State, fn *ssa.Function) bool {
	cache := map[*ssa.Function]bool{}
	own := map[*ssa.Function]bool{}
	rel := func(f *ssa.Function) bool {
		if r, ok := own[f]; ok {
			return r
		}
		r := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if relevant(in) {
					r = true
				}
			}
		}
		own[f] = r
		return r
	}
	return func(_ *State, fn *ssa.Function) bool {
		if r, ok := cache[fn]; ok {
			return r
		}
		loop, r := false, false
		for f := range p.staticReach(fn) {
			if rel(f) {
				r = true
			}
			if hasLoop(f) {
				loop = true
			}
			for g := range p.staticReach(f) {
				if g == f {
					continue
				}
			}
		}
		cache[fn] = !r && loop
		return !r && loop
	}
}

// modset: the struct fields, maps and slices a function may write.
type modset struct {
	fields map[string]bool
	maps   map[string]bool
}

func fieldKey(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return types.TypeString(t, nil) + "#" + itoa(i)
}

func itoa(i int) string {
	if i < 0 {
		return "-" + itoa(-i)
	}
	if i < 10 {
		return string(rune('0' + i))
	}
	return itoa(i/10) + string(rune('0'+i%10))
}

func (p *Program) modsOf(fn *ssa.Function) *modset {
	if m, ok := p.mods[fn]; ok {
		return m
	}
	m := &modset{map[string]bool{}, map[string]bool{}}
	for f := range p.Reach(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					switch a := x.Addr.(type) {
					case *ssa.FieldAddr:
						m.fields[fieldKey(a.X.Type(), a.Field)] = true
					case *ssa.Alloc, *ssa.IndexAddr, *ssa.FreeVar, *ssa.Global:
					default:
						// *p = struct{...} writes every field
						if s := derefStruct(x.Addr.Type()); s != nil {
							for i := 0; i < s.NumFields(); i++ {
								m.fields[fieldKey(x.Addr.Type(), i)] = true
							}
						}
					}
				case *ssa.MapUpdate:
					m.maps[typeKey(x.Map.Type().Underlying())] = true
				case ssa.CallInstruction:
					if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
						m.maps[typeKey(x.Common().Args[0].Type().Underlying())] = true
					}
					// &x.f passed to a library function that writes through it
					if callee := x.Common().StaticCallee(); callee == nil || !p.inScope(callee) {
						for _, a := range x.Common().Args {
							for {
								if mi, ok := a.(*ssa.MakeInterface); ok {
									a = mi.X
									continue
								}
								break
							}
							if fa, ok := a.(*ssa.FieldAddr); ok {
								m.fields[fieldKey(fa.X.Type(), fa.Field)] = true
							}
							if _, isP := a.Type().Underlying().(*types.Pointer); isP {
								if s := derefStruct(a.Type()); s != nil && !(callee != nil && p.readOnly(callee.String())) {
									for i := 0; i < s.NumFields(); i++ {
										m.fields[fieldKey(a.Type(), i)] = true
									}
								}
							}
						}
					}
				}
			}
		}
	}
	p.mods[fn] = m
	return m
}
