package main

// Effects over an over-approximating call graph, and backward slices.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callbacks: methods library code may call on values it is handed.
var callbacks = map[string]bool{}

func init() {
	for _, m := range strings.Fields(`String Error Unwrap Is As Write Read Close ReadFrom WriteTo WriteString ReadByte WriteByte
		MarshalJSON UnmarshalJSON MarshalText UnmarshalText MarshalBinary UnmarshalBinary MarshalLogObject MarshalLogArray
		Scan Value Len Less Swap Push Pop Format GoString Set IsBoolFlag IsCumulative Get Sync Seek Flush Enabled Name Fd
		Encode Decode EncodeText EncodeBinary DecodeText DecodeBinary Done Err Deadline ServeHTTP Import`) {
		callbacks[m] = true
	}
}

// Reached is the part of the module some roots may execute.
type Reached struct {
	p    *Program
	from map[*ssa.Function]*ssa.Function // nil for roots
}

// addressTaken: functions used as values, by signature.
func (p *Program) addressTaken() map[string][]*ssa.Function {
	if p.taken != nil {
		return p.taken
	}
	p.taken = map[string][]*ssa.Function{}
	seen := map[*ssa.Function]bool{}
	for _, fn := range p.all {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops [12]*ssa.Value
				for i, o := range in.Operands(ops[:0]) {
					f, ok := (*o).(*ssa.Function)
					if !ok || seen[f] || !p.inScope(f) {
						continue
					}
					if c, isCall := in.(ssa.CallInstruction); isCall && i == 0 && c.Common().Value == ssa.Value(f) {
						continue
					}
					seen[f] = true
					k := types.TypeString(dropRecv(f.Signature), nil)
					p.taken[k] = append(p.taken[k], f)
				}
			}
		}
	}
	return p.taken
}

func dropRecv(s *types.Signature) *types.Signature {
	return types.NewSignatureType(nil, nil, nil, unnamed(s.Params()), unnamed(s.Results()), s.Variadic())
}

func unnamed(t *types.Tuple) *types.Tuple {
	var vs []*types.Var
	for i := 0; i < t.Len(); i++ {
		vs = append(vs, types.NewParam(token.NoPos, nil, "", t.At(i).Type()))
	}
	return types.NewTuple(vs...)
}

// EffectReach over-approximates what the roots may execute: direct calls,
// every function value that is mentioned, interface calls over all types of
// the module, calls of function values over all functions of the type whose
// value is taken anywhere, and methods the libraries may call on values that
// are converted to an interface.
func (p *Program) EffectReach(roots ...*ssa.Function) *Reached {
	r := &Reached{p: p, from: map[*ssa.Function]*ssa.Function{}}
	var work []*ssa.Function
	add := func(f, by *ssa.Function) {
		if f == nil || !p.inScope(f) {
			return
		}
		if _, ok := r.from[f]; ok {
			return
		}
		r.from[f] = by
		work = append(work, f)
	}
	for _, f := range roots {
		add(f, nil)
	}
	for len(work) > 0 {
		fn := work[len(work)-1]
		work = work[:len(work)-1]
		for _, g := range p.calleesOf(fn) {
			add(g, fn)
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.MakeInterface:
					p.callbackMethods(in, func(m *ssa.Function) { add(m, fn) })
				case ssa.CallInstruction:
					c := in.Common()
					if c.IsInvoke() || c.StaticCallee() != nil {
						continue
					}
					if _, ok := c.Value.(*ssa.Builtin); ok {
						continue
					}
					for _, g := range p.addressTaken()[types.TypeString(dropRecv(c.Signature()), nil)] {
						add(g, fn)
					}
				}
			}
		}
	}
	return r
}

func (p *Program) callbackMethods(in *ssa.MakeInterface, f func(*ssa.Function)) {
	t := in.X.Type()
	ms := p.prog.MethodSets.MethodSet(t)
	it, _ := in.Type().Underlying().(*types.Interface)
	foreign := false
	if n, ok := in.Type().(*types.Named); ok && it.NumMethods() > 0 {
		foreign = n.Obj().Pkg() == nil || !inModule(n.Obj().Pkg().Path())
	}
	for i := 0; i < ms.Len(); i++ {
		m := ms.At(i)
		if callbacks[m.Obj().Name()] || foreign && hasMethod(it, m.Obj().Name()) {
			f(p.prog.MethodValue(m))
		}
	}
}

func hasMethod(it *types.Interface, name string) bool {
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == name {
			return true
		}
	}
	return false
}

func (r *Reached) Has(f *ssa.Function) bool { _, ok := r.from[f]; return ok }

// Path shows how a function is reached.
func (r *Reached) Path(f *ssa.Function) string {
	var s []string
	for ; f != nil && len(s) < 12; f = r.from[f] {
		s = append(s, shortName(f.String()))
	}
	for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
		s[i], s[j] = s[j], s[i]
	}
	return strings.Join(s, " -> ")
}

// Funcs lists the reached functions in a fixed order.
func (r *Reached) Funcs() []*ssa.Function {
	var fs []*ssa.Function
	for f := range r.from {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool {
		if fs[i].Pos() != fs[j].Pos() {
			return fs[i].Pos() < fs[j].Pos()
		}
		return fs[i].String() < fs[j].String()
	})
	return fs
}

// Calls visits every call in the reached functions that leaves the module:
// name is the library function, or (interface).method.
func (r *Reached) Calls(f func(fn *ssa.Function, in ssa.CallInstruction, name string)) {
	for _, fn := range r.Funcs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if n := calleeName(ci); n != "" {
						f(fn, ci, n)
					}
				}
			}
		}
	}
}

func calleeName(ci ssa.CallInstruction) string {
	c := ci.Common()
	if c.IsInvoke() {
		return fmt.Sprintf("(%s).%s", types.TypeString(c.Value.Type(), nil), c.Method.Name())
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return f.String()
	}
	return ""
}

// namePkg is the package path of a function name as calleeName gives it.
func namePkg(n string) string {
	n = strings.TrimLeft(n, "(*")
	if i := strings.Index(n, "$"); i >= 0 {
		n = n[:i]
	}
	i := strings.LastIndex(n, "/") + 1
	if j := strings.Index(n[i:], "."); j >= 0 {
		return n[:i+j]
	}
	return n
}

// ------------------------------------------------------------------ slices

// Leaf is where a value comes from.
type Leaf struct {
	kind string // const, field, global, call, param, alloc, other
	text string
	v    ssa.Value
	pos  token.Pos
}

// Slicer computes flow-insensitive backward slices over the module.
type Slicer struct {
	p *Program
	// Through: also follow the arguments of this library function.
	Through func(name string) bool
	// Field: also follow everything stored in this field ("pkg.Type.field").
	Field func(name string) bool
	// Stop makes a call a leaf.
	Stop   func(name string) bool
	leaves []Leaf
	seen   map[interface{}]bool
}

func (s *Slicer) Of(v ssa.Value) []Leaf {
	s.leaves, s.seen = nil, map[interface{}]bool{}
	s.walk(v)
	return s.leaves
}

func (s *Slicer) leaf(kind, text string, v ssa.Value) {
	s.leaves = append(s.leaves, Leaf{kind, text, v, v.Pos()})
}

// fieldID names a field of a struct type.
func fieldID(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return "?"
	}
	return shortName(types.TypeString(t, nil)) + "." + st.Field(i).Name()
}

func (s *Slicer) walk(v ssa.Value) {
	if v == nil || s.seen[v] {
		return
	}
	s.seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		t := "nil"
		if v.Value != nil {
			t = v.Value.ExactString()
			if v.Value.Kind() == constant.String {
				t = constant.StringVal(v.Value)
			}
		}
		s.leaf("const", t, v)
	case *ssa.Phi:
		for _, e := range v.Edges {
			s.walk(e)
		}
	case *ssa.ChangeType:
		s.walk(v.X)
	case *ssa.Convert:
		s.walk(v.X)
	case *ssa.ChangeInterface:
		s.walk(v.X)
	case *ssa.MakeInterface:
		s.walk(v.X)
	case *ssa.TypeAssert:
		s.walk(v.X)
	case *ssa.Slice:
		s.walk(v.X)
	case *ssa.BinOp:
		s.walk(v.X)
		s.walk(v.Y)
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			s.call(c, v.Index, v)
			return
		}
		if ta, ok := v.Tuple.(*ssa.TypeAssert); ok && v.Index == 0 {
			s.walk(ta.X)
			return
		}
		if l, ok := v.Tuple.(*ssa.Lookup); ok && v.Index == 0 {
			s.walk(l)
			return
		}
		s.leaf("other", "element", v)
	case *ssa.Call:
		s.call(v, 0, v)
	case *ssa.Parameter:
		s.param(v)
	case *ssa.FreeVar:
		fn := v.Parent()
		for i, fv := range fn.FreeVars {
			if fv != v {
				continue
			}
			for _, b := range fn.Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
						s.walk(mc.Bindings[i])
					}
				}
			}
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			s.mem(v.X, v)
		} else if v.Op == token.ARROW {
			s.leaf("other", "received", v)
		} else {
			s.walk(v.X)
		}
	case *ssa.Field:
		id := fieldID(v.X.Type(), v.Field)
		s.fieldLeaf(id, v)
	case *ssa.Alloc:
		s.allocated(v, v)
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		s.allocated(v, v)
	case *ssa.Lookup:
		s.walk(v.X)
	case *ssa.Index:
		s.walk(v.X)
	case *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Global:
		s.mem(v, v)
	case *ssa.Function, *ssa.MakeClosure:
		s.leaf("func", v.Name(), v)
	default:
		s.leaf("other", fmt.Sprintf("%T", v), v)
	}
}

func (s *Slicer) fieldLeaf(id string, v ssa.Value) {
	if s.Field != nil && s.Field(id) {
		s.stores(id)
		return
	}
	s.leaf("field", id, v)
}

// stores follows everything that is stored in a field.
func (s *Slicer) stores(id string) {
	if s.seen[id] {
		return
	}
	s.seen[id] = true
	for _, v := range s.p.fieldStores()[id] {
		s.walk(v)
	}
}

// fieldStores lists the values stored in each field anywhere in the module.
func (p *Program) fieldStores() map[string][]ssa.Value {
	if p.fstores != nil {
		return p.fstores
	}
	p.fstores = map[string][]ssa.Value{}
	for _, fn := range p.all {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						id := fieldID(fa.X.Type(), fa.Field)
						p.fstores[id] = append(p.fstores[id], st.Val)
					}
				}
			}
		}
	}
	return p.fstores
}

// mem: what a memory cell may hold.
func (s *Slicer) mem(a ssa.Value, at ssa.Value) {
	switch a := a.(type) {
	case *ssa.FieldAddr:
		s.fieldLeaf(fieldID(a.X.Type(), a.Field), at)
	case *ssa.Global:
		if c, ok := s.p.globalConst(a); ok {
			t := c.ExactString()
			if c.Kind() == constant.String {
				t = constant.StringVal(c)
			}
			s.leaf("const", t, at)
			return
		}
		s.leaf("global", a.String(), at)
	case *ssa.IndexAddr:
		s.walk(a.X)
	case *ssa.Alloc:
		s.allocated(a, at)
	default:
		s.walk(a)
	}
}

// allocated: everything that is put into an allocated object.
func (s *Slicer) allocated(a ssa.Value, at ssa.Value) {
	if s.seen[[2]interface{}{"obj", a}] {
		return
	}
	s.seen[[2]interface{}{"obj", a}] = true
	n := 0
	var uses func(v ssa.Value)
	uses = func(v ssa.Value) {
		if v.Referrers() == nil {
			return
		}
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.Store:
				if u.Addr == v {
					n++
					s.walk(u.Val)
				}
			case *ssa.IndexAddr:
				uses(u)
			case *ssa.FieldAddr:
				uses(u)
			case *ssa.Slice:
				uses(u)
			case *ssa.MapUpdate:
				if u.Map == v {
					n++
					s.walk(u.Value)
				}
			case ssa.CallInstruction:
				// written through the pointer
				if _, isPtr := v.Type().Underlying().(*types.Pointer); isPtr {
					if nm := calleeName(u); !strings.HasPrefix(nm, "builtin.") {
						n++
						s.leaf("out", nm, at)
					}
				}
			case *ssa.MakeInterface:
				uses(u)
			case *ssa.MakeClosure:
				for i, b := range u.Bindings {
					if b == v {
						uses(u.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			}
		}
	}
	uses(a)
	if n == 0 {
		s.leaf("alloc", a.Type().String(), at)
	}
}

func (s *Slicer) call(c *ssa.Call, i int, at ssa.Value) {
	n := calleeName(c)
	if s.Stop != nil && n != "" && s.Stop(n) {
		s.leaf("call", n, c)
		return
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append", "min", "max":
			for _, a := range c.Call.Args {
				s.walk(a)
			}
		case "len", "cap", "copy":
			s.leaf("other", b.Name(), at)
		}
		return
	}
	var callees []*ssa.Function
	if f := c.Call.StaticCallee(); f != nil {
		if s.p.inScope(f) && f.Blocks != nil {
			callees = append(callees, f)
		}
	} else if c.Call.IsInvoke() {
		callees = s.p.Implementations(&c.Call)
	}
	if len(callees) == 0 {
		if s.Through != nil && s.Through(n) {
			for _, a := range c.Call.Args {
				s.walk(a)
			}
			return
		}
		s.leaf("call", n, c)
		return
	}
	for _, f := range callees {
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) {
				s.walk(r.Results[i])
			}
		}
	}
}

// param: the arguments of all calls.
func (s *Slicer) param(v *ssa.Parameter) {
	fn := v.Parent()
	idx := -1
	for i, p := range fn.Params {
		if p == v {
			idx = i
		}
	}
	sites := s.p.CallSites(fn)
	if len(sites) == 0 {
		s.leaf("param", shortName(fn.String())+":"+v.Name(), v)
		return
	}
	for _, ci := range sites {
		c := ci.Common()
		args := c.Args
		if c.IsInvoke() {
			args = append([]ssa.Value{c.Value}, c.Args...)
		}
		if idx < len(args) {
			s.walk(args[idx])
		} else {
			s.leaf("param", shortName(fn.String())+":"+v.Name(), v)
		}
	}
}

// CallSites: the calls in the module that may call the function directly or
// through an interface of the module.
func (p *Program) CallSites(fn *ssa.Function) []ssa.CallInstruction {
	if p.callSites == nil {
		p.callSites = map[*ssa.Function][]ssa.CallInstruction{}
		for _, f := range p.all {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if g := ci.Common().StaticCallee(); g != nil {
						p.callSites[g] = append(p.callSites[g], ci)
					} else if ci.Common().IsInvoke() {
						for _, g := range p.Implementations(ci.Common()) {
							p.callSites[g] = append(p.callSites[g], ci)
						}
					}
				}
			}
		}
	}
	return p.callSites[fn]
}

// ------------------------------------------------------------------ text

// Template enumerates the forms a text may have; parts that are not constant
// are represented by what ident returns for them (or "\x01" + description if
// it returns "").
func (p *Program) Templates(v ssa.Value, ident func(v ssa.Value) string) []string {
	t := &templates{p: p, ident: ident, busy: map[ssa.Value]bool{}}
	return t.of(v, 0)
}

type templates struct {
	p     *Program
	ident func(v ssa.Value) string
	busy  map[ssa.Value]bool
}

func (t *templates) unknown(v ssa.Value) []string {
	return []string{"\x01" + strings.ReplaceAll(fmt.Sprintf("%s", v.Name()), "\x01", "")}
}

func (t *templates) product(parts ...[]string) []string {
	r := []string{""}
	for _, ps := range parts {
		var n []string
		for _, a := range r {
			for _, b := range ps {
				if len(n) < 200 {
					n = append(n, a+b)
				}
			}
		}
		r = n
	}
	return r
}

func (t *templates) of(v ssa.Value, d int) []string {
	if s := t.ident(v); s != "" {
		return []string{s}
	}
	if d > 20 || t.busy[v] {
		return t.unknown(v)
	}
	t.busy[v] = true
	defer delete(t.busy, v)
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.String {
			return []string{constant.StringVal(v.Value)}
		}
	case *ssa.Phi:
		var r []string
		for _, e := range v.Edges {
			r = append(r, t.of(e, d+1)...)
		}
		return r
	case *ssa.ChangeType:
		return t.of(v.X, d+1)
	case *ssa.Convert:
		return t.of(v.X, d+1)
	case *ssa.MakeInterface:
		return t.of(v.X, d+1)
	case *ssa.BinOp:
		if v.Op == token.ADD {
			return t.product(t.of(v.X, d+1), t.of(v.Y, d+1))
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if g, ok := v.X.(*ssa.Global); ok {
				if c, ok := t.p.globalConst(g); ok && c.Kind() == constant.String {
					return []string{constant.StringVal(c)}
				}
			}
			if a, ok := v.X.(*ssa.Alloc); ok {
				return t.cell(a, d)
			}
			// a package-level list of strings, or a field of one
			return t.table(v.X, v, d)
		}
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return t.call(c, v.Index, v, d)
		}
	case *ssa.Call:
		return t.call(v, 0, v, d)
	case *ssa.Parameter:
		fn := v.Parent()
		sites := t.p.CallSites(fn)
		var r []string
		for i, pr := range fn.Params {
			if pr != v {
				continue
			}
			for _, ci := range sites {
				args := ci.Common().Args
				if ci.Common().IsInvoke() || i >= len(args) {
					return t.unknown(v)
				}
				r = append(r, t.of(args[i], d+1)...)
			}
		}
		for _, f := range t.p.addressTaken()[types.TypeString(dropRecv(fn.Signature), nil)] {
			if f == fn {
				return t.unknown(v)
			}
		}
		if len(r) > 0 {
			return r
		}
	case *ssa.FreeVar:
		fn := v.Parent()
		var r []string
		for i, fv := range fn.FreeVars {
			if fv != v || fn.Parent() == nil {
				continue
			}
			for _, b := range fn.Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
						r = append(r, t.of(mc.Bindings[i], d+1)...)
					}
				}
			}
		}
		if len(r) > 0 {
			return r
		}
	case *ssa.Alloc:
		return t.cell(v, d)
	}
	return t.unknown(v)
}

// table: an element of a local or package-level array or map of constants.
func (t *templates) table(addr ssa.Value, at ssa.Value, d int) []string {
	return t.unknown(at)
}

// cell: the values stored in a variable.
func (t *templates) cell(a *ssa.Alloc, d int) []string {
	var r []string
	for _, u := range *a.Referrers() {
		switch u := u.(type) {
		case *ssa.Store:
			if u.Addr != ssa.Value(a) {
				return t.unknown(a)
			}
			r = append(r, t.of(u.Val, d+1)...)
		case *ssa.UnOp, *ssa.DebugRef, *ssa.MakeClosure:
		default:
			return t.unknown(a)
		}
	}
	if len(r) == 0 {
		return t.unknown(a)
	}
	return r
}

func (t *templates) call(c *ssa.Call, i int, at ssa.Value, d int) []string {
	f := c.Call.StaticCallee()
	if f == nil {
		return t.unknown(at)
	}
	n := f.String()
	switch n {
	case "strings.TrimSpace", "strings.Clone":
		r := t.of(c.Call.Args[0], d+1)
		if n == "strings.TrimSpace" {
			for i := range r {
				r[i] = strings.TrimSpace(r[i])
			}
		}
		return r
	case "strings.Join":
		items, ok := variadicItems(c.Call.Args[0])
		if !ok {
			return t.unknown(at)
		}
		sep := t.of(c.Call.Args[1], d+1)
		var parts [][]string
		for i, it := range items {
			if i > 0 {
				parts = append(parts, sep)
			}
			parts = append(parts, t.of(it, d+1))
		}
		return t.product(parts...)
	case "fmt.Sprint", "fmt.Sprintf":
		args := c.Call.Args
		items, ok := variadicItems(args[len(args)-1])
		if !ok {
			return t.unknown(at)
		}
		if n == "fmt.Sprint" {
			var parts [][]string
			for _, it := range items {
				parts = append(parts, t.of(it, d+1))
			}
			return t.product(parts...)
		}
		var r []string
		for _, f := range t.of(args[0], d+1) {
			r = append(r, t.format(f, items, d)...)
		}
		return r
	}
	if t.p.inScope(f) && f.Blocks != nil {
		var r []string
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(ret.Results) {
				r = append(r, t.of(ret.Results[i], d+1)...)
			}
		}
		if len(r) > 0 {
			return r
		}
	}
	return t.unknown(at)
}

func (t *templates) format(f string, items []ssa.Value, d int) []string {
	parts := [][]string{}
	lit := ""
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += f[i : i+1]
			continue
		}
		i++
		if i >= len(f) {
			break
		}
		switch f[i] {
		case '%':
			lit += "%"
		case 's', 'v', 'd':
			parts = append(parts, []string{lit})
			lit = ""
			if n >= len(items) {
				return []string{"\x01format"}
			}
			if f[i] == 'd' && isIntTyped(underIface(items[n])) {
				parts = append(parts, []string{"0"})
			} else {
				parts = append(parts, t.of(items[n], d+1))
			}
			n++
		default:
			return []string{"\x01format"}
		}
	}
	parts = append(parts, []string{lit})
	return t.product(parts...)
}

func underIface(v ssa.Value) types.Type {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		return mi.X.Type()
	}
	return v.Type()
}

// variadicItems lists the elements of an argument list.
func variadicItems(v ssa.Value) ([]ssa.Value, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value == nil {
		return nil, true
	}
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	a, ok := sl.X.(*ssa.Alloc)
	if !ok || sl.Low != nil || sl.High != nil {
		return nil, false
	}
	at, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	items := make([]ssa.Value, at.Len())
	for _, u := range *a.Referrers() {
		switch u := u.(type) {
		case *ssa.IndexAddr:
			c, ok := u.Index.(*ssa.Const)
			if !ok {
				return nil, false
			}
			k, _ := constant.Int64Val(c.Value)
			for _, w := range *u.Referrers() {
				st, ok := w.(*ssa.Store)
				if !ok || st.Addr != ssa.Value(u) || items[k] != nil {
					return nil, false
				}
				items[k] = st.Val
			}
		case *ssa.Slice:
			if u != sl {
				return nil, false
			}
		}
	}
	for _, it := range items {
		if it == nil {
			return nil, false
		}
	}
	return items, true
}

// keysOfMap lists the string keys of a map in order.
func keysOfMap(m interface{}) []string {
	var r []string
	for _, k := range reflect.ValueOf(m).MapKeys() {
		r = append(r, k.String())
	}
	sort.Strings(r)
	return r
}
