package main

// What is shared: settings nobody may change after they were declared, objects
// that have to be new, and variables used by several goroutines.

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// objOrigin is where an object (behind a pointer, a slice or a map) was made or found.
type objOrigin struct {
	kind string // fresh, param, field, global, result, other
	text string
	v    ssa.Value
}

// objOrigins computes what object a value may refer to, without context.
type objOrigins struct {
	c    *Ctx
	root func(fn *ssa.Function) bool // parameters of these functions are origins
	seen map[ssa.Value]bool
	out  []objOrigin
}

func (c *Ctx) objOrigins(v ssa.Value, root func(fn *ssa.Function) bool) []objOrigin {
	o := &objOrigins{c: c, root: root, seen: map[ssa.Value]bool{}}
	o.walk(v)
	return o.out
}

func (o *objOrigins) leaf(kind, text string, v ssa.Value) {
	o.out = append(o.out, objOrigin{kind, text, v})
}

func (o *objOrigins) walk(v ssa.Value) {
	if v == nil || o.seen[v] {
		return
	}
	o.seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeClosure, *ssa.BinOp:
		o.leaf("fresh", "", v)
	case *ssa.Convert:
		if _, ok := v.Type().Underlying().(*types.Slice); ok {
			o.leaf("fresh", "", v)
			return
		}
		o.walk(v.X)
	case *ssa.ChangeType:
		o.walk(v.X)
	case *ssa.ChangeInterface:
		o.walk(v.X)
	case *ssa.MakeInterface:
		o.walk(v.X)
	case *ssa.TypeAssert:
		o.walk(v.X)
	case *ssa.Phi:
		for _, e := range v.Edges {
			o.walk(e)
		}
	case *ssa.Slice:
		o.walk(v.X)
	case *ssa.FieldAddr:
		o.walk(v.X)
	case *ssa.IndexAddr:
		o.walk(v.X)
	case *ssa.Field:
		o.leaf("field", fieldID(v.X.Type(), v.Field), v)
	case *ssa.Global:
		o.leaf("global", v.String(), v)
	case *ssa.UnOp:
		if v.Op != token.MUL {
			o.leaf("other", v.String(), v)
			return
		}
		o.load(v.X, v)
	case *ssa.Extract:
		switch t := v.Tuple.(type) {
		case *ssa.Call:
			o.call(t, v.Index, v)
		case *ssa.TypeAssert:
			if v.Index == 0 {
				o.walk(t.X)
			}
		default:
			o.leaf("other", v.Tuple.String(), v)
		}
	case *ssa.Call:
		o.call(v, 0, v)
	case *ssa.Parameter:
		fn := v.Parent()
		idx := -1
		for i, p := range fn.Params {
			if p == v {
				idx = i
			}
		}
		if o.root(fn) {
			o.leaf("param", v.Name(), v)
			return
		}
		sites := o.c.CallSites(fn)
		if len(sites) == 0 {
			o.leaf("param", v.Name(), v)
		}
		for _, s := range sites {
			args := s.Common().Args
			if s.Common().IsInvoke() {
				args = append([]ssa.Value{s.Common().Value}, args...)
			}
			if idx < len(args) {
				o.walk(args[idx])
			} else {
				o.leaf("param", v.Name(), v)
			}
		}
	case *ssa.FreeVar:
		for _, b := range bindings(v) {
			o.walk(b)
		}
	default:
		o.leaf("other", v.String(), v)
	}
}

// bindings: what a captured variable may be.
func bindings(v *ssa.FreeVar) []ssa.Value {
	fn := v.Parent()
	var out []ssa.Value
	for i, fv := range fn.FreeVars {
		if fv != v || fn.Parent() == nil {
			continue
		}
		for _, b := range fn.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
					out = append(out, mc.Bindings[i])
				}
			}
		}
	}
	return out
}

// load: the object a variable refers to.
func (o *objOrigins) load(addr, v ssa.Value) {
	switch a := addr.(type) {
	case *ssa.Alloc:
		o.stored(a)
	case *ssa.FreeVar:
		for _, b := range bindings(a) {
			o.load(b, v)
		}
	case *ssa.FieldAddr:
		// a field of a local structure: what was stored in it
		if al, ok := a.X.(*ssa.Alloc); ok && !al.Heap {
			n := len(o.out)
			o.storedIn(al, a.Field)
			if len(o.out) > n {
				return
			}
		}
		o.leaf("field", fieldID(a.X.Type(), a.Field), v)
	case *ssa.Global:
		o.leaf("global", a.String(), v)
	case *ssa.IndexAddr:
		o.leaf("element", "", v)
	default:
		o.leaf("other", addr.String(), v)
	}
}

func (o *objOrigins) stored(a ssa.Value) {
	if a.Referrers() == nil {
		return
	}
	for _, u := range *a.Referrers() {
		switch u := u.(type) {
		case *ssa.Store:
			if u.Addr == a {
				o.walk(u.Val)
			}
		case *ssa.MakeClosure:
			for i, b := range u.Bindings {
				if b == a {
					o.stored(u.Fn.(*ssa.Function).FreeVars[i])
				}
			}
		}
	}
}

func (o *objOrigins) storedIn(a *ssa.Alloc, field int) {
	for _, u := range *a.Referrers() {
		if f, ok := u.(*ssa.FieldAddr); ok && f.Field == field {
			for _, w := range *f.Referrers() {
				if s, ok := w.(*ssa.Store); ok && s.Addr == ssa.Value(f) {
					o.walk(s.Val)
				}
			}
		}
	}
}

func (o *objOrigins) call(c *ssa.Call, i int, v ssa.Value) {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			o.appendBase(c.Call.Args[0])
			o.leaf("fresh", "", v) // or newly allocated
			return
		}
		o.leaf("other", b.Name(), v)
		return
	}
	fns := []*ssa.Function{}
	if f := c.Call.StaticCallee(); f != nil {
		fns = append(fns, f)
	} else if c.Call.IsInvoke() {
		fns = o.c.Implementations(&c.Call)
	}
	if len(fns) == 0 {
		o.leaf("result", calleeName(c), v)
	}
	for _, f := range fns {
		if f.Blocks == nil || !o.c.inScope(f) {
			o.leaf("result", calleeName(c), v)
			continue
		}
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) {
				o.walk(r.Results[i])
			}
		}
	}
}

// appendBase: an append may write behind the end of its base, unless the
// capacity is cut off there.
func (o *objOrigins) appendBase(v ssa.Value) {
	if s, ok := v.(*ssa.Slice); ok && s.Max != nil && s.Max == s.High {
		return
	}
	o.walk(v)
}

// written: the objects an instruction writes to.
func written(in ssa.Instruction) []ssa.Value {
	switch in := in.(type) {
	case *ssa.Store:
		return []ssa.Value{in.Addr}
	case *ssa.MapUpdate:
		return []ssa.Value{in.Map}
	case ssa.CallInstruction:
		if b, ok := in.Common().Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append", "copy", "delete", "clear":
				a := in.Common().Args[0]
				if s, ok := a.(*ssa.Slice); ok && b.Name() == "append" && s.Max != nil && s.Max == s.High {
					return nil
				}
				return []ssa.Value{a}
			}
		}
		if n := calleeName(in); strings.HasPrefix(n, "sort.") && len(in.Common().Args) > 0 {
			return []ssa.Value{in.Common().Args[0]}
		}
	}
	return nil
}

// addrField: the fields an address leads through, innermost first, and the
// object it starts at.
func addrField(v ssa.Value) (ids []string, base ssa.Value) {
	for {
		switch a := v.(type) {
		case *ssa.FieldAddr:
			ids = append(ids, fieldID(a.X.Type(), a.Field))
			v = a.X
		case *ssa.IndexAddr:
			v = a.X
		default:
			return ids, v
		}
	}
}

// settingTypes: the fields that are decoded from a runbook: the exported fields
// of the types and of the structures they contain.
func settingFields(ts []*types.Named) map[string]bool {
	out := map[string]bool{}
	seen := map[types.Type]bool{}
	var add func(t types.Type)
	add = func(t types.Type) {
		s, ok := t.Underlying().(*types.Struct)
		if !ok || seen[t] {
			return
		}
		seen[t] = true
		if n, ok := t.(*types.Named); ok && (n.Obj().Pkg() == nil || !inModule(n.Obj().Pkg().Path())) {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Exported() {
				out[fieldID(t, i)] = true
				add(derefType(s.Field(i).Type()))
			}
		}
	}
	for _, t := range ts {
		add(t)
	}
	return out
}

// runbookTypes: the targets and task configurations of runbooks.
func (c *Ctx) runbookTypes(rel string) (targets, tasks []*types.Named) {
	for _, n := range []string{"Target", "TaskConfig"} {
		it := c.Type(typesPkg, n)
		if it == nil {
			continue
		}
		for _, t := range c.typesImplementing(it.Underlying().(*types.Interface)) {
			if t.Obj().Pkg() == nil || !strings.HasPrefix(t.Obj().Pkg().Path(), pkgPath("internal/runbook/")) ||
				rel != "" && t.Obj().Pkg().Path() != pkgPath(rel) {
				continue
			}
			if n == "Target" {
				targets = append(targets, t)
			} else {
				tasks = append(tasks, t)
			}
		}
	}
	return
}

// settingsKept: nothing the targets and tasks do changes what was declared.
// which selects the settings.
func (c *Ctx) settingsKept(ts []*types.Named, which func(id string) bool) {
	fields := settingFields(ts)
	var roots []*ssa.Function
	isRoot := map[*ssa.Function]bool{}
	pkgs := map[*types.Package]bool{}
	for _, t := range ts {
		pkgs[t.Obj().Pkg()] = true
	}
	for _, fn := range c.all {
		if fn.Pkg == nil || !pkgs[fn.Pkg.Pkg] || fn.Parent() != nil || fn.Signature.Recv() == nil {
			continue
		}
		if rt, ok := derefType(fn.Signature.Recv().Type()).(*types.Named); ok && fields[firstField(rt)] || ok && isIn(ts, rt) {
			roots = append(roots, fn)
			isRoot[fn] = true
		}
	}
	for id := range fields {
		if which(id) {
			c.OK("setting stays as declared", id)
		}
	}
	reach := map[*ssa.Function]bool{}
	for _, r := range roots {
		for f := range c.staticReach(r) {
			reach[f] = true
		}
		reach[r] = true
	}
	for _, fn := range c.all {
		if !reach[fn] {
			continue
		}
		c.Analysed(fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, w := range written(in) {
					ids, base := addrField(w)
					bad := ""
					for _, id := range ids {
						if fields[id] && which(id) {
							bad = id
						}
					}
					_, direct := in.(*ssa.Store)
					if bad != "" && direct {
						for _, o := range c.objOrigins(base, func(f *ssa.Function) bool { return isRoot[f] }) {
							if o.kind != "fresh" {
								c.Fail("setting-changed:"+bad, instrPos(in), "%s changes %s after it was declared", shortName(fn.String()), bad)
								break
							}
						}
					}
					// the contents of lists and maps
					for _, o := range c.objOrigins(base, func(f *ssa.Function) bool { return isRoot[f] }) {
						if o.kind == "field" && fields[o.text] && which(o.text) {
							c.Fail("setting-changed:"+o.text, instrPos(in), "%s changes the content of %s after it was declared", shortName(fn.String()), o.text)
						}
					}
				}
			}
		}
	}
}

func isIn(ts []*types.Named, t *types.Named) bool {
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}

func firstField(t *types.Named) string {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Exported() {
			return fieldID(t, i)
		}
	}
	return ""
}

// inputKept: a function does not write to the object a parameter refers to.
func (c *Ctx) inputKept(fn *ssa.Function, param int, key, what string) {
	reach := c.staticReach(fn)
	for _, f := range c.all {
		if f != fn && !reach[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, w := range written(in) {
					for _, o := range c.objOrigins(w, func(x *ssa.Function) bool { return x == fn }) {
						if o.kind == "param" && o.v == ssa.Value(fn.Params[param]) {
							c.Fail(key, instrPos(in), "%s", what)
						}
					}
				}
			}
		}
	}
	c.OK("input left alone", fn.String())
}

// newObject: every call of the function returns a new object.
func (c *Ctx) newObject(fn *ssa.Function, key string) {
	c.Analysed(fn)
	for _, b := range fn.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(r.Results) == 0 {
			continue
		}
		for _, o := range c.objOrigins(r.Results[0], func(f *ssa.Function) bool { return f == fn }) {
			switch o.kind {
			case "fresh":
			case "param", "result", "other":
				if o.kind == "result" {
					break // e.g. created by reflection or a library
				}
				fallthrough
			default:
				c.Fail(key+":"+shortName(fn.String()), instrPos(r), "%s may return an object that was returned before (%s %s)", shortName(fn.String()), o.kind, o.text)
			}
		}
	}
	c.OK("object is a new one", fn.String())
}

// ---- variables shared by goroutines

// accesses: the loads and stores of a captured variable, inner closures included.
func accesses(v ssa.Value, f func(in ssa.Instruction, store bool)) {
	if v.Referrers() == nil {
		return
	}
	for _, u := range *v.Referrers() {
		switch u := u.(type) {
		case *ssa.Store:
			if u.Addr == v {
				f(u, true)
			}
		case *ssa.UnOp:
			if u.Op == token.MUL {
				f(u, false)
			}
		case *ssa.FieldAddr:
			accesses(u, f)
		case *ssa.IndexAddr:
			accesses(u, f)
		case *ssa.MakeClosure:
			for i, b := range u.Bindings {
				if b == v {
					accesses(u.Fn.(*ssa.Function).FreeVars[i], f)
				}
			}
		}
	}
}

// waits: the instruction waits for others.
func waits(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.UnOp:
		return in.Op == token.ARROW
	case *ssa.Select:
		return true
	case ssa.CallInstruction:
		n := calleeName(in)
		return n == "(*sync.WaitGroup).Wait"
	}
	return false
}

// reachesAfter: b can be executed after a, without passing a stop.
func reachesAfter(a, b ssa.Instruction, stop func(in ssa.Instruction) bool) bool {
	type at struct {
		b *ssa.BasicBlock
		i int
	}
	idx := -1
	for i, in := range a.Block().Instrs {
		if in == a {
			idx = i
		}
	}
	work := []at{{a.Block(), idx + 1}}
	seen := map[*ssa.BasicBlock]bool{}
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		stopped := false
		for _, in := range w.b.Instrs[w.i:] {
			if in == b {
				return true
			}
			if stop(in) {
				stopped = true
				break
			}
		}
		if stopped {
			continue
		}
		for _, s := range w.b.Succs {
			if !seen[s] {
				seen[s] = true
				work = append(work, at{s, 0})
			}
		}
	}
	return false
}

// locked: a mutex is locked before the instruction in the same function.
func lockedBefore(in ssa.Instruction) bool {
	for _, b := range in.Parent().Blocks {
		for _, x := range b.Instrs {
			if ci, ok := x.(*ssa.Call); ok {
				n := calleeName(ci)
				if (n == "(*sync.Mutex).Lock" || n == "(*sync.RWMutex).Lock" || n == "(*sync.RWMutex).RLock") && (b == in.Block() || b.Dominates(in.Block())) {
					return true
				}
			}
		}
	}
	return false
}

// ownVariables: what a goroutine uses was not changed by the code that started
// it since, and what it changes nobody else uses without waiting for it.
func (c *Ctx) ownVariables(pkgs ...string) {
	in := func(fn *ssa.Function) bool {
		for f := fn; f != nil; f = f.Parent() {
			if f.Pkg != nil {
				for _, p := range pkgs {
					if pp := f.Pkg.Pkg.Path(); pp == pkgPath(p) || strings.HasPrefix(pp, pkgPath(p)+"/") {
						return true
					}
				}
			}
		}
		return false
	}
	for _, fn := range c.all {
		if !in(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				g, ok := i.(*ssa.Go)
				if !ok {
					continue
				}
				c.OK("variables of a goroutine are its own", c.siteName(g))
				shared := map[ssa.Value]ssa.Value{} // variable -> its name inside
				if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
					for k, bv := range mc.Bindings {
						shared[bv] = mc.Fn.(*ssa.Function).FreeVars[k]
					}
				}
				if f := g.Call.StaticCallee(); f != nil && f.Blocks != nil {
					for k, a := range g.Call.Args {
						if _, ok := a.(*ssa.Alloc); ok && k < len(f.Params) {
							shared[a] = f.Params[k]
						}
					}
				}
				for v, inside := range shared {
					c.ownVariable(g, v, inside)
				}
			}
		}
	}
}

func (c *Ctx) ownVariable(g *ssa.Go, v, inside ssa.Value) {
	a, ok := v.(*ssa.Alloc)
	if !ok && !isFreeVar(v) {
		return
	}
	t := derefType(v.Type())
	if s, isS := t.(*types.Named); isS && s.Obj().Pkg() != nil && s.Obj().Pkg().Path() == "sync" {
		return
	}
	body := map[*ssa.Function]bool{}
	stores, loads := 0, 0
	accesses(inside, func(in ssa.Instruction, store bool) {
		body[in.Parent()] = true
		if lockedBefore(in) {
			return
		}
		if store {
			stores++
		} else {
			loads++
		}
	})
	if stores+loads == 0 {
		return
	}
	name := v.Name()
	if a != nil {
		name = a.Comment
	} else if fv, ok := v.(*ssa.FreeVar); ok {
		name = fv.Name()
	}
	stop := func(in ssa.Instruction) bool { return a != nil && in == ssa.Instruction(a) || waits(in) }
	// started again with the same variable
	if stores > 0 && reachesAfter(g, g, stop) {
		c.Fail("shared:"+name, instrPos(g), "goroutines that run at the same time change the same variable %s", name)
		return
	}
	accesses(v, func(in ssa.Instruction, store bool) {
		if body[in.Parent()] || in.Parent() != g.Parent() || lockedBefore(in) {
			return
		}
		if (store || stores > 0) && reachesAfter(g, in, stop) {
			what := "read"
			if store {
				what = "changed"
			}
			c.Fail("shared:"+name, instrPos(in), "the variable %s is %s while a goroutine uses it", name, what)
		}
	})
}

func isFreeVar(v ssa.Value) bool { _, ok := v.(*ssa.FreeVar); return ok }

// newObjects: factories and targets create a new object for every declaration.
func (c *Ctx) newObjects(typPkg string, method map[string]string) {
	n := 0
	for _, i := range sortedKeysOf(method) {
		t := c.Type(typPkg, i)
		if t == nil {
			c.Fail("anchor:"+i, token.NoPos, "there is no %s", i)
			continue
		}
		for _, impl := range c.typesImplementing(t.Underlying().(*types.Interface)) {
			if fn := c.methodOf(impl, method[i]); fn != nil && fn.Blocks != nil {
				n++
				c.newObject(fn, "shared-object")
			}
		}
	}
	c.Floor("object is a new one", n)
	if n == 0 {
		c.Fail("anchor:create", token.NoPos, "nothing creates targets and tasks")
	}
}

func sortedKeysOf(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// declaredSettings: the settings of runbooks that a check is about.
func (c *Ctx) declaredSettings(rel string, targets, tasks bool, which func(id string) bool) {
	tg, tk := c.runbookTypes(rel)
	var ts []*types.Named
	if targets {
		ts = append(ts, tg...)
	}
	if tasks {
		ts = append(ts, tk...)
	}
	c.settingsKept(ts, which)
	c.Floor("setting stays as declared", 1)
}

// noRecover: a panic is not turned into something that looks like success.
func (c *Ctx) noRecover(what string, roots ...*ssa.Function) {
	for fn := range c.Reach(roots...) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					c.Fail("recover:"+shortName(fn.String()), instrPos(in), "%s", what)
				}
			}
		}
	}
}
