package main

// Tables: package-level maps, slices and arrays that are initialised with a
// literal and only read afterwards.

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type literal struct {
	keys []*Val // of a map
	vals []*Val // nil: not known
}

const maxLiteral = 64

func (p *Program) literalOf(g *ssa.Global) *literal {
	if p.literals == nil {
		p.literals = map[*ssa.Global]*literal{}
		p.findLiterals()
	}
	return p.literals[g]
}

func (p *Program) findLiterals() {
	stored := map[*ssa.Global]ssa.Value{}
	elems := map[*ssa.Global][]*ssa.IndexAddr{} // arrays
	bad := map[*ssa.Global]bool{}
	for _, fn := range p.all {
		init := fn.Synthetic != "" && fn.Name() == "init"
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops [12]*ssa.Value
				for i, o := range in.Operands(ops[:0]) {
					g, ok := (*o).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						if !onlyRead(x) {
							bad[g] = true
						}
						continue
					case *ssa.DebugRef:
						continue
					case *ssa.Store:
						if i == 0 && init && stored[g] == nil {
							stored[g] = x.Val
							continue
						}
					case *ssa.IndexAddr:
						if init {
							elems[g] = append(elems[g], x)
							continue
						}
						if onlyReadAddr(x) {
							continue
						}
					}
					bad[g] = true
				}
			}
		}
	}
	for g, v := range stored {
		if !bad[g] {
			if l := p.literal(v); l != nil {
				p.literals[g] = l
			}
		}
	}
	for g, as := range elems {
		if bad[g] || stored[g] != nil {
			continue
		}
		if at, ok := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
			if l := p.elements(at, as); l != nil {
				p.literals[g] = l
			}
		}
	}
}

// onlyRead: nothing is changed through this value, and it goes nowhere.
func onlyRead(v ssa.Value) bool { return onlyReadIn(v, 0) }

func onlyReadIn(v ssa.Value, d int) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef, *ssa.Range:
		case *ssa.Lookup:
			if x.X != v {
				return false
			}
		case *ssa.Index:
			if x.X != v {
				return false
			}
		case *ssa.IndexAddr:
			if x.X != v || !onlyReadAddr(x) {
				return false
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				if b.Name() != "len" && b.Name() != "cap" && (b.Name() != "append" || x.Call.Args[0] == v) && (b.Name() != "copy" || x.Call.Args[0] == v) {
					return false
				}
				continue
			}
			f := x.Call.StaticCallee()
			if f == nil || d > 4 {
				return false
			}
			for i, a := range x.Call.Args {
				if a != v {
					continue
				}
				switch {
				case f.Blocks != nil && i < len(f.Params) && f.Pkg != nil && (f.Pkg.Pkg.Path() == Module || strings.HasPrefix(f.Pkg.Pkg.Path(), Module+"/")):
					if !onlyReadIn(f.Params[i], d+1) {
						return false
					}
				case readsOnly[f.String()]:
				case i == len(x.Call.Args)-1 && f.Signature.Variadic() && f.Pkg != nil && strings.Contains(f.Pkg.Pkg.Path(), "."):
					// the argument list of a library function
				default:
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

var readsOnly = map[string]bool{"strings.Join": true, "slices.Contains": true, "sort.SearchStrings": true}

func onlyReadAddr(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
		case *ssa.FieldAddr:
			if !onlyReadAddr(x) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (p *Program) literal(v ssa.Value) *literal {
	switch x := v.(type) {
	case *ssa.MakeMap:
		l := &literal{}
		seen := map[*Val]bool{}
		for _, r := range *x.Referrers() {
			switch u := r.(type) {
			case *ssa.MapUpdate:
				k := p.constVal(u.Key, 0)
				if k == nil || k.op != OpConst || seen[k] || len(l.keys) >= maxLiteral {
					return nil
				}
				seen[k] = true
				l.keys = append(l.keys, k)
				l.vals = append(l.vals, p.constVal(u.Value, 3))
			case *ssa.Store, *ssa.DebugRef:
			default:
				return nil
			}
		}
		return l
	case *ssa.Slice:
		a, ok := x.X.(*ssa.Alloc)
		if !ok || x.Low != nil || x.High != nil {
			return nil
		}
		at, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok {
			return nil
		}
		var as []*ssa.IndexAddr
		for _, r := range *a.Referrers() {
			switch u := r.(type) {
			case *ssa.IndexAddr:
				as = append(as, u)
			case *ssa.Slice, *ssa.DebugRef:
			default:
				return nil
			}
		}
		return p.elements(at, as)
	}
	return nil
}

func (p *Program) elements(at *types.Array, as []*ssa.IndexAddr) *literal {
	if at.Len() > maxLiteral {
		return nil
	}
	l := &literal{vals: make([]*Val, at.Len())}
	seen := make([]bool, at.Len())
	for _, a := range as {
		c, ok := a.Index.(*ssa.Const)
		if !ok || c.Value == nil {
			return nil
		}
		i, _ := constant.Int64Val(c.Value)
		if i < 0 || i >= at.Len() || seen[i] {
			return nil
		}
		seen[i] = true
		l.vals[i] = p.cellVal(a, at.Elem(), 3)
	}
	for i := range seen {
		if !seen[i] {
			l.vals[i] = p.zeroVal(at.Elem())
		}
	}
	return l
}

// cellVal: what is stored at an address that is only initialised.
func (p *Program) cellVal(a ssa.Value, t types.Type, d int) *Val {
	var val ssa.Value
	var fields map[int]ssa.Value
	n := 0
	for _, r := range *a.Referrers() {
		switch u := r.(type) {
		case *ssa.Store:
			if u.Addr != a {
				return nil
			}
			val = u.Val
			n++
		case *ssa.FieldAddr:
			if fields == nil {
				fields = map[int]ssa.Value{}
			}
			if fields[u.Field] != nil {
				return nil
			}
			fields[u.Field] = u
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return nil
		}
	}
	if n > 1 || n == 1 && fields != nil {
		return nil
	}
	if n == 1 {
		return p.constVal(val, d)
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok || d == 0 {
		return p.zeroVal(t)
	}
	var fs []*Val
	for i := 0; i < s.NumFields(); i++ {
		var v *Val
		if f := fields[i]; f != nil {
			v = p.cellVal(f, s.Field(i).Type(), d-1)
		} else {
			v = p.zeroVal(s.Field(i).Type())
		}
		if v == nil {
			return nil
		}
		fs = append(fs, v)
	}
	return p.in.mk(OpAgg, t, "agg", fs...)
}

func (p *Program) zeroVal(t types.Type) *Val {
	return (&Engine{pr: p, in: p.in}).zero(t)
}

// constVal: values that do not depend on anything.
func (p *Program) constVal(v ssa.Value, d int) *Val {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return p.zeroVal(x.Type())
		}
		return p.in.Const(x.Type(), x.Value)
	case *ssa.Function:
		return p.in.mk(OpFunc, x.Type(), x)
	case *ssa.ChangeType:
		if w := p.constVal(x.X, d); w != nil && (w.op == OpFunc || w.op == OpConst) {
			if w.op == OpConst {
				c, _ := constVal(w)
				if c == nil {
					return nil
				}
				return p.in.Const(x.Type(), c)
			}
			return w
		}
	case *ssa.MakeInterface:
		if d > 0 {
			if w := p.constVal(x.X, d-1); w != nil {
				return p.in.mk(OpIface, x.X.Type(), "i", w)
			}
		}
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL && d > 0 {
			return p.cellVal(a, x.Type(), d-1)
		}
	}
	return nil
}

// tableOf: the literal a value is the content of.
func (e *Engine) tableOf(v *Val) *literal {
	v = unwrapConv(v)
	if v.op == OpLoad && v.a[0].op == OpGlobal {
		if g, ok := v.a[0].aux.(*ssa.Global); ok {
			return e.pr.literalOf(g)
		}
	}
	if v.op == OpGlobal {
		if g, ok := v.aux.(*ssa.Global); ok {
			return e.pr.literalOf(g)
		}
	}
	return nil
}

// tableElem: an element of a table.
func (e *Engine) tableElem(a *Val) *Val {
	if a.op != OpIndexAddr && a.op != OpIndex {
		return nil
	}
	i, ok := constInt(a.a[1])
	if !ok {
		return nil
	}
	if l := e.tableOf(a.a[0]); l != nil && l.keys == nil && i >= 0 && i < int64(len(l.vals)) {
		return l.vals[i]
	}
	return nil
}

// tableLookup reads a map whose entries are known: one path for each entry
// that may be meant, and one for none. It reports whether it did.
func (e *Engine) tableLookup(st *State, fr *Frame, in *ssa.Lookup, m, k *Val) (handled, alive bool) {
	l := e.tableOf(m)
	if l == nil || len(l.keys) == 0 || len(l.keys) > 16 {
		return false, true
	}
	bt := types.Typ[types.Bool]
	vt := in.X.Type().Underlying().(*types.Map).Elem()
	set := func(s *State, v *Val, ok bool) {
		f := s.top()
		if in.CommaOk {
			f.regs[in] = e.in.mk(OpTuple, in.Type(), "t", v, e.cbool(ok))
		} else {
			f.regs[in] = v
		}
		if e.h.MapRead != nil {
			e.h.MapRead(e, s, in, m, k, v)
		}
		f.pc++
	}
	for i, key := range l.keys {
		v := l.vals[i]
		if v == nil {
			v = e.in.mk(OpPure, vt, "lookup", m, key)
		}
		eq := e.binop(token.EQL, k, key, k.typ, bt)
		switch e.Decide(st, eq) {
		case 1:
			set(st, v, true)
			return true, true
		case 0:
			continue
		}
		o := st.clone()
		if e.Assume(o, eq, true) {
			set(o, v, true)
			e.forks = append(e.forks, o)
		}
		if !e.Assume(st, eq, false) {
			return true, false
		}
	}
	set(st, e.zero(vt), false)
	return true, true
}

// unrolled: a counter of a loop over a few elements keeps its value.
func (e *Engine) unrolled(fr *Frame, phi *ssa.Phi, v *Val) bool {
	k, ok := constInt(v)
	if !ok || k < 0 || k > maxUnroll {
		return false
	}
	for _, in := range phi.Block().Instrs {
		cond, ok := in.(*ssa.If)
		if !ok {
			continue
		}
		b, ok := cond.Cond.(*ssa.BinOp)
		if !ok || b.Op != token.LSS {
			return false
		}
		if b.X != ssa.Value(phi) {
			if a, ok := b.X.(*ssa.BinOp); !ok || a.Op != token.ADD || a.X != ssa.Value(phi) {
				return false
			}
		}
		step := false
		for _, ed := range phi.Edges {
			if a, ok := ed.(*ssa.BinOp); ok && a.Op == token.ADD && a.X == ssa.Value(phi) {
				if c, ok := a.Y.(*ssa.Const); ok && c.Value != nil && constant.Sign(c.Value) > 0 {
					step = true
				}
			}
		}
		var bound *Val
		if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil {
			bound = e.in.Const(c.Type(), c.Value)
		} else {
			bound = fr.regs[b.Y]
		}
		if bound == nil || !step {
			return false
		}
		n, ok := constInt(bound)
		return ok && n <= maxUnroll
	}
	return false
}

const maxUnroll = 16
