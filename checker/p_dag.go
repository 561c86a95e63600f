package main

// R02, R13, R14, G01: the dependency graph.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const dagPkg = "internal/dag"

type dagA struct {
	c     *Ctx
	graph *types.Named
	list  int // field with the list of tasks that were not handed out
	maps  []int
	deps  int // node -> what it waits for
	depts int // node -> what waits for it
	id    int // fields of a list node
	next  int
}

func (d *dagA) fail(e *Engine, st *State, ids, key string, pos token.Pos, f string, a ...interface{}) {
	if strings.Contains(ids, d.c.check.ID) {
		e.Report(st, key, pos, f, a...)
	}
}

func (d *dagA) ok(e *Engine, ids, rule string, in ssa.Instruction) {
	if strings.Contains(ids, d.c.check.ID) {
		e.Site(rule, in)
	}
}

func fieldAddr(e *Engine, s *types.Named, base *Val, i int) *Val {
	f := s.Underlying().(*types.Struct).Field(i)
	return e.in.mk(OpFieldAddr, types.NewPointer(f.Type()), i, base)
}

// loadField reads a field of a struct behind a pointer.
func loadField(e *Engine, st *State, base *Val, i int) *Val {
	s := derefStruct(base.typ)
	if s == nil || i >= s.NumFields() {
		return nil
	}
	ft := s.Field(i).Type()
	return e.load(st, e.in.mk(OpFieldAddr, types.NewPointer(ft), i, base), ft)
}

// isField: the address is a field of a value of the named struct type.
func isField(addr *Val, s types.Type, i int) bool {
	if addr.op != OpFieldAddr || addr.aux.(int) != i || addr.a[0].typ == nil {
		return false
	}
	t := addr.a[0].typ
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return types.Identical(t, s)
}

func newDag(c *Ctx) *dagA {
	d := &dagA{c: c, list: -1, deps: -1, depts: -1, id: -1, next: -1}
	d.graph = c.Type(dagPkg, "DependencyGraph")
	if d.graph == nil {
		c.Fail("anchor:DependencyGraph", token.NoPos, "the type dag.DependencyGraph was not found")
		return nil
	}
	s, ok := d.graph.Underlying().(*types.Struct)
	if !ok {
		c.Fail("anchor:DependencyGraph", d.graph.Obj().Pos(), "dag.DependencyGraph is not a struct")
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		t := s.Field(i).Type()
		switch u := t.Underlying().(type) {
		case *types.Map:
			d.maps = append(d.maps, i)
		case *types.Pointer:
			n, ok := u.Elem().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for j := 0; j < n.NumFields(); j++ {
				if types.Identical(n.Field(j).Type(), t) {
					d.list, d.next = i, j
				} else if isStr(n.Field(j).Type()) {
					d.id = j
				}
			}
		}
	}
	if d.list < 0 || d.id < 0 || len(d.maps) != 2 {
		c.Fail("anchor:DependencyGraph", d.graph.Obj().Pos(), "the representation of dag.DependencyGraph (a linked list of nodes that were not handed out, and two maps of node sets) was not recognised")
		return nil
	}
	next := c.NeedMethod(dagPkg, "DependencyGraph", "Next")
	if next == nil {
		return nil
	}
	// roles of the maps: what Next removes from, and what it goes through
	h := &Hooks{}
	role := func(m *Val) int {
		if m.op == OpPure && m.aux == "lookup" && m.a[0].op == OpLoad {
			for _, i := range d.maps {
				if isField(m.a[0].a[0], d.graph, i) {
					return i
				}
			}
		}
		return -1
	}
	h.Delete = func(e *Engine, st *State, in ssa.CallInstruction, m, k *Val) {
		if i := role(m); i >= 0 {
			d.deps = i
		}
	}
	e := NewEngine(c.Program, h)
	e.Run(e.Start(next, nil, newP(), "next"))
	if d.deps < 0 {
		c.Fail("anchor:dependencies", next.Pos(), "Next does not remove the completed task from what other tasks wait for")
		return nil
	}
	for _, i := range d.maps {
		if i != d.deps {
			d.depts = i
		}
	}
	return d
}

// setSize: the bounds of the number of dependencies of a node.
func (d *dagA) setSize(e *Engine, st *State, g, id *Val) (int64, int64) {
	m := loadField(e, st, g, d.deps)
	vt := m.typ.Underlying().(*types.Map).Elem()
	v, _ := e.lookup(st, m, id, vt)
	args := []*Val{v}
	if ver := e.mapVer(st, v); ver != nil {
		args = append(args, ver)
	}
	return e.interval(st, e.in.mk(OpPure, types.Typ[types.Int], "len", args...))
}

// advance moves the frontier over nodes that are known to wait.
func (d *dagA) advance(e *Engine, st *State) {
	for i := 0; i < 4; i++ {
		f := st.p.V["F"]
		if f == nil || e.KnownNil(st, f) || f.typ == nil || derefStruct(f.typ) == nil {
			return
		}
		lo, _ := d.setSize(e, st, st.p.V["g"], loadField(e, st, f, d.id))
		if lo < 1 {
			return
		}
		st.p.V["F"] = loadField(e, st, f, d.next)
	}
}

// runDagNext checks Next and Ready.
func runDagNext(c *Ctx) {
	d := newDag(c)
	if d == nil {
		return
	}
	next := c.NeedMethod(dagPkg, "DependencyGraph", "Next")
	ready := c.Method(dagPkg, "DependencyGraph", "Ready")
	pend := c.NeedMethod(dagPkg, "DependencyGraph", "HasPending")
	if next == nil || pend == nil {
		return
	}
	for _, root := range []*ssa.Function{next, ready} {
		if root == nil || root.Blocks == nil {
			continue
		}
		d.runReady(root, root == next)
	}
	// HasPending
	if strings.Contains("R14 R01", c.check.ID) {
		h := &Hooks{}
		h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
			l := loadField(e, st, e.in.mk(OpParam, pend.Params[0].Type(), ssa.Value(pend.Params[0])), d.list)
			want := e.not(e.binop(token.EQL, l, e.in.Nil(), l.typ, types.Typ[types.Bool]))
			if res[0] != want {
				a, b := e.Decide(st, res[0]), e.Decide(st, want)
				if a < 0 || a != b {
					d.fail(e, st, "R14", "has-pending", instrPos(in), "HasPending does not tell whether tasks remain that were not handed out")
				}
			}
			d.ok(e, "R14", "HasPending", in)
		}
		e := NewEngine(c.Program, h)
		e.Run(e.Start(pend, nil, newP(), "pending"))
		c.Merge(e, "HasPending")
	}
	switch c.check.ID {
	case "R02":
		c.Floor("handed out only without open dependencies", 1)
		c.Floor("dependency removed", 1)
	case "R13":
		c.Floor("handed out node leaves the list", 1)
	case "R14":
		c.Floor("traversal of the remaining tasks is complete", 1)
	}
}

func (d *dagA) runReady(root *ssa.Function, isNext bool) {
	c := d.c
	g := c.in.mk(OpParam, root.Params[0].Type(), ssa.Value(root.Params[0]))
	var completed *Val
	if isNext {
		completed = c.in.mk(OpParam, root.Params[1].Type(), ssa.Value(root.Params[1]))
	}
	h := &Hooks{}
	lt := &LoopTrack{}
	isDepts := func(e *Engine, st *State, over *Val) bool {
		if completed == nil || over.op != OpPure || over.aux != "lookup" {
			return false
		}
		return over.a[0] == loadField(e, st, g, d.depts) && over.a[1] == completed
	}
	begin := func(e *Engine, st *State) {
		st.p.V["F"] = loadField(e, st, g, d.list)
	}
	pendingKey := func(e *Engine, st *State, pos token.Pos) {
		if k := st.p.V["k"]; k != nil {
			d.fail(e, st, "R14", "kept-dependency", pos, "a task that waits for the completed one is passed over without removing that dependency")
		}
		delete(st.p.V, "k")
	}
	lt.OnElem = func(e *Engine, st *State, l *Loop, over, k, v *Val) {
		if isDepts(e, st, over) {
			pendingKey(e, st, instrPos(l.head.Instrs[0]))
			st.p.V["k"] = k
		}
	}
	lt.OnEnd = func(e *Engine, st *State, l *Loop, over *Val) {
		if isDepts(e, st, over) {
			pendingKey(e, st, instrPos(l.head.Instrs[0]))
			st.p.F["removed"] = "1"
			begin(e, st)
		}
	}
	h.Branch = func(e *Engine, st *State, in *ssa.If, cond *Val, taken bool) {
		lt.Branch(e, st, in, taken)
		d.advance(e, st)
	}
	h.Delete = func(e *Engine, st *State, in ssa.CallInstruction, m, k *Val) {
		dm := loadField(e, st, g, d.deps)
		cur := st.p.V["k"]
		switch {
		case m.op == OpPure && m.aux == "lookup" && m.a[0] == dm && k == completed && completed != nil:
			if cur != nil && m.a[1] == cur {
				delete(st.p.V, "k")
			}
			d.ok(e, "R02 R14", "dependency removed", in)
		case m.op == OpPure && m.aux == "lookup" && m.a[0] == dm:
			d.fail(e, st, "R02", "removes-other", instrPos(in), "a dependency is removed although the task it is about is not the one that completed")
		case m == dm:
			d.fail(e, st, "R02", "removes-node", instrPos(in), "the dependencies of a task are forgotten")
		}
	}
	h.MapUpdate = func(e *Engine, st *State, in *ssa.MapUpdate, m, k, v *Val) {
		if m == loadField(e, st, g, d.deps) || m == loadField(e, st, g, d.depts) {
			d.fail(e, st, "R02 R14", "map-changed", instrPos(in), "the dependencies of a task are replaced while tasks are handed out")
		}
	}
	// result accumulators: every appended element is the id of a node
	h.Append = func(e *Engine, st *State, in ssa.CallInstruction, base, items, res *Val) {
		call, _ := in.(*ssa.Call)
		if call == nil {
			return
		}
		its := e.sliceItems(st, items)
		var nodes []*Val
		for _, it := range its {
			it = unwrapConv(it)
			if it.op == OpLoad && it.a[0].op == OpFieldAddr && it.a[0].aux.(int) == d.id {
				nodes = append(nodes, it.a[0].a[0])
			}
		}
		if len(its) == 0 || len(nodes) != len(its) {
			if types.Identical(call.Type(), root.Signature.Results().At(0).Type()) {
				d.fail(e, st, "R02 R13", "unknown-handed", instrPos(in), "something is handed out that is not one of the tasks that remain")
			}
			return
		}
		for i, n := range nodes {
			// (c) R02
			_, hi := d.setSize(e, st, g, unwrapConv(its[i]))
			if hi >= 1 {
				d.fail(e, st, "R02", "handed-waiting", instrPos(in), "a task is handed out although it is not known that it has no open dependencies left")
			}
			d.ok(e, "R02", "handed out only without open dependencies", in)
			f := st.p.V["F"]
			if f == nil || n != f {
				d.fail(e, st, "R13 R14", "out-of-order", instrPos(in), "the tasks that remain are not visited one after the other, each of them once")
			} else {
				st.p.V["F"] = loadField(e, st, n, d.next)
			}
			// obligation: the list continues behind the node
			entry := n
			for _, o := range st.p.each("unlink") {
				if o == n {
					if x := st.p.V["entry"]; x != nil {
						entry = x
					}
				} else {
					d.fail(e, st, "R13", "kept", instrPos(in), "a task that was handed out remains in the list of tasks to hand out")
				}
				st.p.del("unlink", o)
			}
			st.p.put("unlink", loadField(e, st, n, d.next), "")
			st.p.V["entry"] = entry
			d.ok(e, "R13", "handed out node leaves the list", in)
		}
		d.advance(e, st)
	}
	h.PreStore = func(e *Engine, st *State, in *ssa.Store, addr, val *Val) {
		isLink := isField(addr, d.graph, d.list)
		nodeT := d.graph.Underlying().(*types.Struct).Field(d.list).Type()
		if !isLink && addr.typ != nil {
			if p, ok := addr.typ.Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), nodeT) {
				// a local variable is not part of the list
				isLink = !(addr.op == OpAlloc)
			}
		}
		if !isLink {
			return
		}
		old := e.load(st, addr, nodeT)
		if old == val {
			return // unchanged
		}
		if _, ok := st.p.get("unlink", val); ok && st.p.V["entry"] == old {
			st.p.del("unlink", val)
			delete(st.p.V, "entry")
			return
		}
		d.fail(e, st, "R13 R14", "list-broken", instrPos(in), "the list of tasks that remain is changed other than by leaving out a task that was handed out: tasks get lost or come back")
	}
	h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
		if len(st.p.S["unlink"]) > 0 {
			d.fail(e, st, "R13", "kept", instrPos(in), "a task that was handed out remains in the list of tasks to hand out")
		}
		f := st.p.V["F"]
		if f == nil || !e.KnownNil(st, f) {
			d.fail(e, st, "R14", "incomplete", instrPos(in), "not every remaining task is examined: a task without open dependencies can be withheld")
		}
		if isNext && st.p.F["removed"] == "" {
			d.fail(e, st, "R14", "not-removed", instrPos(in), "the completed task is not removed from the dependencies of every task that waits for it before the remaining tasks are examined")
		}
		pendingKey(e, st, instrPos(in))
		d.ok(e, "R14", "traversal of the remaining tasks is complete", in)
	}
	// nodes that were passed are not looked at again: what is known about
	// their links is forgotten
	h.Block = func(e *Engine, st *State, b *ssa.BasicBlock) {
		if len(b.Preds) < 2 {
			return
		}
		used := map[*Val]bool{}
		for _, fr := range st.frames {
			live := e.liveOf(fr.fn).at(fr.block, fr.pc)
			for r, v := range fr.regs {
				if live[r] {
					used[v] = true
				}
			}
		}
		for _, v := range st.p.V {
			used[v] = true
		}
		for a := range st.mem {
			if a.op == OpFieldAddr && !used[a] && !used[a.a[0]] && a.a[0] != g && a.a[0].op != OpAlloc {
				delete(st.mem, a)
			}
		}
	}
	p := newP()
	e := NewEngine(c.Program, h)
	p.V["g"] = g
	st := e.Start(root, nil, p, root.Name())
	if !isNext {
		begin(e, st)
	}
	e.Run(st)
	c.Merge(e, root.Name())
}
