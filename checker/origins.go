package main

// Flow-insensitive, field-based points-to for channels: which make(chan)
// expressions a channel value may come from.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Origins struct {
	p    *Program
	edge map[interface{}][]interface{} // flows from value to values
	base map[interface{}][]*ssa.MakeChan
	pts  map[interface{}]map[*ssa.MakeChan]bool
}

type fldNode struct{ k string }
type elemNode struct{ k string }
type retNode struct {
	fn *ssa.Function
	i  int
}

func isChanish(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Chan:
		return true
	case *types.Map:
		return isChanish(u.Elem())
	case *types.Slice:
		return isChanish(u.Elem())
	case *types.Array:
		return isChanish(u.Elem())
	case *types.Pointer:
		if c, ok := u.Elem().Underlying().(*types.Chan); ok && c != nil {
			return true
		}
	}
	return false
}

func ChanOrigins(p *Program) *Origins {
	o := &Origins{p: p, edge: map[interface{}][]interface{}{}, base: map[interface{}][]*ssa.MakeChan{}, pts: map[interface{}]map[*ssa.MakeChan]bool{}}
	add := func(from, to interface{}) { o.edge[from] = append(o.edge[from], to) }
	for _, fn := range p.all {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MakeChan:
					o.base[ssa.Value(x)] = append(o.base[ssa.Value(x)], x)
				case *ssa.Phi:
					for _, e := range x.Edges {
						add(e, ssa.Value(x))
					}
				case *ssa.ChangeType:
					add(x.X, ssa.Value(x))
				case *ssa.Convert:
					add(x.X, ssa.Value(x))
				case *ssa.Store:
					switch a := x.Addr.(type) {
					case *ssa.FieldAddr:
						add(x.Val, fldNode{fieldKey(a.X.Type(), a.Field)})
					case *ssa.IndexAddr:
						add(x.Val, elemNode{typeKey(elemOf(a.X.Type()))})
					default:
						add(x.Val, cell{x.Addr})
					}
				case *ssa.UnOp:
					switch a := x.X.(type) {
					case *ssa.FieldAddr:
						add(fldNode{fieldKey(a.X.Type(), a.Field)}, ssa.Value(x))
					case *ssa.IndexAddr:
						add(elemNode{typeKey(elemOf(a.X.Type()))}, ssa.Value(x))
					default:
						add(cell{x.X}, ssa.Value(x))
					}
				case *ssa.Field:
					add(fldNode{fieldKey(x.X.Type(), x.Field)}, ssa.Value(x))
				case *ssa.MapUpdate:
					add(x.Value, elemNode{typeKey(elemOf(x.Map.Type()))})
				case *ssa.Lookup:
					add(elemNode{typeKey(elemOf(x.X.Type()))}, ssa.Value(x))
				case *ssa.Next:
					if rg, ok := x.Iter.(*ssa.Range); ok {
						add(elemNode{typeKey(elemOf(rg.X.Type()))}, ssa.Value(x))
					}
				case *ssa.Extract:
					if c, ok := x.Tuple.(*ssa.Call); ok {
						if f := c.Call.StaticCallee(); f != nil {
							add(retNode{f, x.Index}, ssa.Value(x))
						}
					} else {
						add(x.Tuple, ssa.Value(x))
					}
				case *ssa.MakeClosure:
					f := x.Fn.(*ssa.Function)
					for i, bnd := range x.Bindings {
						add(bnd, ssa.Value(f.FreeVars[i]))
						// captured variables are shared cells
						add(cell{bnd}, cell{ssa.Value(f.FreeVars[i])})
						add(cell{ssa.Value(f.FreeVars[i])}, cell{bnd})
					}
				case *ssa.Return:
					for i, r := range x.Results {
						add(r, retNode{fn, i})
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					cc := c.Common()
					var targets []*ssa.Function
					if f := cc.StaticCallee(); f != nil {
						targets = append(targets, f)
					} else if cc.IsInvoke() {
						targets = p.Implementations(cc)
					} else if !isBuiltin(cc.Value) {
						// a function value: any function literal or method of that signature
						for _, f := range p.all {
							if types.Identical(f.Signature, cc.Signature()) {
								targets = append(targets, f)
							}
						}
					}
					for _, f := range targets {
						params := f.Params
						args := cc.Args
						if cc.IsInvoke() && len(params) == len(args)+1 {
							params = params[1:]
						}
						for i := range args {
							if i < len(params) {
								add(args[i], ssa.Value(params[i]))
							}
						}
						if v, ok := in.(*ssa.Call); ok && f.Signature.Results().Len() == 1 {
							add(retNode{f, 0}, ssa.Value(v))
						}
					}
				}
			}
		}
	}
	var work []interface{}
	for n, ms := range o.base {
		o.pts[n] = map[*ssa.MakeChan]bool{}
		for _, m := range ms {
			o.pts[n][m] = true
		}
		work = append(work, n)
	}
	for len(work) > 0 {
		n := work[len(work)-1]
		work = work[:len(work)-1]
		for _, t := range o.edge[n] {
			s := o.pts[t]
			if s == nil {
				s = map[*ssa.MakeChan]bool{}
				o.pts[t] = s
			}
			ch := false
			for m := range o.pts[n] {
				// only values that can be channels (or hold them)
				if v, ok := t.(ssa.Value); ok && !isChanish(v.Type()) {
					if _, isTuple := v.Type().(*types.Tuple); !isTuple {
						continue
					}
				}
				if !s[m] {
					s[m] = true
					ch = true
				}
			}
			if ch {
				work = append(work, t)
			}
		}
	}
	return o
}

type cell struct{ v ssa.Value }

func isBuiltin(v ssa.Value) bool { _, ok := v.(*ssa.Builtin); return ok }

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Map:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemOf(u.Elem())
	case *types.Chan:
		return u.Elem()
	}
	return nil
}

// Of lists the make(chan) sites of a channel value.
func (o *Origins) Of(v ssa.Value) []*ssa.MakeChan {
	var r []*ssa.MakeChan
	for m := range o.pts[v] {
		r = append(r, m)
	}
	for i := range r {
		for j := i + 1; j < len(r); j++ {
			if r[j].Pos() < r[i].Pos() {
				r[i], r[j] = r[j], r[i]
			}
		}
	}
	return r
}
