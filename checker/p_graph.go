package main

// G01: construction and sorting of dependency graphs.

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// errResult splits results into values and the last error.
func errResult(res []*Val) *Val {
	if len(res) == 0 {
		return nil
	}
	return res[len(res)-1]
}

func runGraph(c *Ctx) {
	nd := c.NeedFunc(dagPkg, "NewDirectedGraph")
	ng := c.NeedFunc(dagPkg, "NewDependencyGraph")
	ts := c.NeedFunc(dagPkg, "TSort")
	d := newDag(c)
	if nd == nil || ng == nil || ts == nil || d == nil {
		return
	}
	directedGraph(c, nd)
	d.construction(ng, nd, ts)
	sorting(c, ts)
	if c.check.ID == "G01" {
		c.Floor("edge checked", 1)
		c.Floor("edge kept", 1)
		c.Floor("node visited after its dependencies", 1)
		c.Floor("cycle reported", 1)
		c.Floor("all nodes sorted", 1)
	}
}

// directedGraph: every node and every edge is taken over, and the error is
// returned exactly for edges to nodes that do not exist.
func directedGraph(c *Ctx, fn *ssa.Function) {
	if !strings.Contains("G01 R12", c.check.ID) {
		return
	}
	nodes := c.in.mk(OpParam, fn.Params[0].Type(), ssa.Value(fn.Params[0]))
	h := &Hooks{}
	lt := &LoopTrack{}
	ids := func(e *Engine, st *State, key string, pos token.Pos, f string, a ...interface{}) {
		e.Report(st, key, pos, f, a...)
	}
	isEdges := func(st *State, v *Val) bool {
		n := st.p.V["n"]
		if n == nil {
			return false
		}
		return v == st.p.V["edges"] || v.op == OpPure && v.aux == "lookup" && v.a[0] == nodes && v.a[1] == n
	}
	endEdge := func(e *Engine, st *State, pos token.Pos) {
		if st.p.V["m"] != nil && st.p.F["kept"] == "" {
			ids(e, st, "edge-lost", pos, "an edge is left out of the graph")
		}
		delete(st.p.V, "m")
		delete(st.p.F, "kept")
	}
	endNode := func(e *Engine, st *State, pos token.Pos) {
		if st.p.V["n"] == nil {
			return
		}
		endEdge(e, st, pos)
		if st.p.F["edgesdone"] == "" {
			ids(e, st, "edges-incomplete", pos, "not every edge of a node is examined")
		}
		if st.p.V["set"] == nil || st.p.F["stored"] == "" {
			ids(e, st, "node-lost", pos, "a node is left out of the graph")
		}
		if f := st.p.V["set"]; f != nil {
			st.p.put("usedset", f, "")
		}
		for _, k := range []string{"n", "set", "edges"} {
			delete(st.p.V, k)
		}
		delete(st.p.F, "edgesdone")
		delete(st.p.F, "stored")
	}
	lt.OnElem = func(e *Engine, st *State, l *Loop, over, k, v *Val) {
		pos := instrPos(l.head.Instrs[0])
		if over == nodes {
			endNode(e, st, pos)
			st.p.V["n"], st.p.V["edges"] = k, v
		} else if isEdges(st, over) {
			endEdge(e, st, pos)
			st.p.V["m"] = v
		}
	}
	lt.OnEnd = func(e *Engine, st *State, l *Loop, over *Val) {
		pos := instrPos(l.head.Instrs[0])
		if over == nodes {
			endNode(e, st, pos)
			st.p.F["done"] = "1"
		} else if isEdges(st, over) {
			endEdge(e, st, pos)
			st.p.F["edgesdone"] = "1"
		}
	}
	h.Branch = func(e *Engine, st *State, in *ssa.If, cond *Val, taken bool) {
		lt.Branch(e, st, in, taken)
		if m := st.p.V["m"]; m != nil {
			_, ok := e.lookup(st, nodes, m, nil)
			switch e.Decide(st, ok) {
			case 1:
				st.p.F["exists"] = "1"
			case 0:
				st.p.F["exists"] = "0"
			}
		}
	}
	// a new element starts unchecked
	inner := lt.OnElem
	lt.OnElem = func(e *Engine, st *State, l *Loop, over, k, v *Val) {
		inner(e, st, l, over, k, v)
		delete(st.p.F, "exists")
	}
	h.MapUpdate = func(e *Engine, st *State, in *ssa.MapUpdate, m, k, v *Val) {
		if cur := st.p.V["m"]; cur != nil && k == cur {
			if st.p.F["exists"] != "1" {
				ids(e, st, "edge-unchecked", instrPos(in), "an edge is accepted although the node it leads to is not known to exist")
			} else {
				e.Site("edge checked", in)
			}
			if st.p.V["set"] == nil {
				st.p.V["set"] = m
			}
			if st.p.V["set"] != m || st.p.hasTag("usedset", m) {
				ids(e, st, "edge-elsewhere", instrPos(in), "the edges of a node do not end up in one set")
			}
			st.p.F["kept"] = "1"
			return
		}
		if n := st.p.V["n"]; n != nil && k == n {
			if st.p.V["set"] == nil {
				st.p.V["set"] = v
			}
			if st.p.V["set"] != v {
				ids(e, st, "edge-elsewhere", instrPos(in), "the edges of a node are not stored under the node")
			}
			st.p.F["stored"] = "1"
			st.p.V["graph"] = m
			return
		}
		if _, ok := v.typ.(*types.Named); ok || st.p.V["n"] != nil {
			ids(e, st, "other-node", instrPos(in), "something that is not a given node or edge is put into the graph")
		}
	}
	h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
		err := errResult(res)
		if e.KnownNonNil(st, err) {
			if st.p.F["exists"] != "0" {
				ids(e, st, "false-error", instrPos(in), "a graph is rejected although every edge that was examined leads to a node")
			}
			e.Site("invalid edge reported", in)
			return
		}
		if !e.KnownNil(st, err) {
			ids(e, st, "error-unknown", instrPos(in), "it cannot be told whether the graph is rejected")
			return
		}
		endEdge(e, st, instrPos(in))
		if st.p.F["done"] == "" {
			ids(e, st, "nodes-incomplete", instrPos(in), "the graph is accepted before every node was examined")
		}
	}
	e := NewEngine(c.Program, h)
	e.Run(e.Start(fn, nil, newP(), "directed"))
	c.Merge(e, "NewDirectedGraph")
	if c.check.ID == "G01" {
		c.Floor("invalid edge reported", 1)
	}
}

// construction: NewDependencyGraph keeps every edge in both directions and
// every node in the list, and reports errors and cycles.
func (d *dagA) construction(fn, nd, ts *ssa.Function) {
	c := d.c
	in := func(ids string) bool { return strings.Contains(ids, c.check.ID) }
	h := &Hooks{}
	lt := &LoopTrack{}
	h.Opaque = func(st *State, f *ssa.Function) bool { return f == nd || f == ts }
	param := c.in.mk(OpParam, fn.Params[0].Type(), ssa.Value(fn.Params[0]))
	h.AfterCall = func(e *Engine, ev *CallEvent, res *Val) {
		switch ev.fn {
		case nd:
			if ev.args[0] != param {
				d.fail(e, ev.st, "G01 R12", "other-graph", instrPos(ev.instr), "the graph that is examined is not the one that was given")
			}
			ev.st.p.V["digraph"], ev.st.p.V["nderr"] = res.a[0], res.a[1]
		case ts:
			if ev.args[0] != ev.st.p.V["digraph"] {
				d.fail(e, ev.st, "G01 R12", "other-sort", instrPos(ev.instr), "the graph that is sorted is not the one that was given")
			}
			ev.st.p.V["order"], ev.st.p.V["cycle"] = res.a[0], res.a[1]
		}
	}
	graphOf := func(e *Engine, st *State) *Val {
		g := st.p.V["digraph"]
		if g == nil {
			return nil
		}
		p, ok := g.typ.Underlying().(*types.Pointer)
		if !ok {
			return g
		}
		return e.load(st, g, p.Elem())
	}
	isEdges := func(e *Engine, st *State, v *Val) bool {
		n := st.p.V["n"]
		if n == nil {
			return false
		}
		return v == st.p.V["edges"] || v.op == OpPure && v.aux == "lookup" && v.a[0] == graphOf(e, st) && v.a[1] == n
	}
	endEdge := func(e *Engine, st *State, pos token.Pos) {
		if st.p.V["m"] == nil {
			return
		}
		if st.p.F["fwd"] == "" {
			d.fail(e, st, "R02 G01", "dependency-lost", pos, "a dependency is not recorded for the task that has it: it starts without waiting")
		}
		if st.p.F["bwd"] == "" {
			d.fail(e, st, "R14 G01", "dependent-lost", pos, "a task is not recorded as waiting for its dependency: it is never started")
		}
		delete(st.p.V, "m")
		delete(st.p.F, "fwd")
		delete(st.p.F, "bwd")
	}
	endNode := func(e *Engine, st *State, pos token.Pos) {
		if st.p.V["n"] == nil {
			return
		}
		endEdge(e, st, pos)
		if st.p.F["edgesdone"] == "" {
			d.fail(e, st, "R02 G01", "edges-incomplete", pos, "not every dependency of a task is recorded")
		}
		if st.p.V["fset"] != nil && st.p.F["fstored"] == "" {
			d.fail(e, st, "R02 G01", "dependency-lost", pos, "the dependencies of a task are not recorded: it starts without waiting")
		}
		if f := st.p.V["fset"]; f != nil {
			st.p.put("usedset", f, "")
		}
		delete(st.p.V, "fset")
		delete(st.p.F, "fstored")
		delete(st.p.V, "n")
		delete(st.p.V, "edges")
		delete(st.p.F, "edgesdone")
	}
	listElem := func(e *Engine, st *State, pos token.Pos) {
		if st.p.V["o"] != nil && st.p.F["linked"] != "2" {
			d.fail(e, st, "R01 R14 G01", "node-lost", pos, "a task is not put into the list of tasks to hand out: it never runs")
		}
		delete(st.p.V, "o")
		delete(st.p.F, "linked")
	}
	lt.OnElem = func(e *Engine, st *State, l *Loop, over, k, v *Val) {
		pos := instrPos(l.head.Instrs[0])
		switch {
		case over == graphOf(e, st):
			endNode(e, st, pos)
			st.p.V["n"], st.p.V["edges"] = k, v
		case isEdges(e, st, over):
			endEdge(e, st, pos)
			st.p.V["m"] = k
		case over == st.p.V["order"]:
			listElem(e, st, pos)
			st.p.V["o"] = v
			if st.p.V["head"] == nil {
				st.p.V["head"] = e.in.Nil()
			}
		}
	}
	lt.OnEnd = func(e *Engine, st *State, l *Loop, over *Val) {
		pos := instrPos(l.head.Instrs[0])
		switch {
		case over == graphOf(e, st):
			endNode(e, st, pos)
			st.p.F["edges"] = "1"
		case isEdges(e, st, over):
			endEdge(e, st, pos)
			st.p.F["edgesdone"] = "1"
		case over == st.p.V["order"]:
			listElem(e, st, pos)
			st.p.F["listed"] = "1"
			if st.p.V["head"] == nil {
				st.p.V["head"] = e.in.Nil()
			}
		}
	}
	h.Branch = func(e *Engine, st *State, in *ssa.If, cond *Val, taken bool) { lt.Branch(e, st, in, taken) }
	// the two maps of the graph being built
	fieldMap := func(e *Engine, st *State, i int) *Val {
		g := st.p.V["g"]
		if g == nil {
			return nil
		}
		return loadField(e, st, g, i)
	}
	h.MapUpdate = func(e *Engine, st *State, in *ssa.MapUpdate, m, k, v *Val) {
		n, cur := st.p.V["n"], st.p.V["m"]
		if n == nil {
			return
		}
		deps, depts := fieldMap(e, st, d.deps), fieldMap(e, st, d.depts)
		set := func(mm, key *Val) *Val {
			r, _ := e.lookup(st, mm, key, mm.typ.Underlying().(*types.Map).Elem())
			return r
		}
		if deps == nil || depts == nil {
			return
		}
		switch {
		case m == deps:
			if k == n && st.p.V["fset"] != nil && v == st.p.V["fset"] {
				st.p.F["fstored"] = "1"
			} else if k != n || st.p.F["fwd"] != "" || cur != nil || st.p.V["fset"] != nil {
				d.fail(e, st, "R02", "deps-reset", instrPos(in), "recorded dependencies are replaced")
			}
		case m == depts:
			// must not replace a set that exists
			old, _ := e.lookup(st, m, k, nil)
			if st.p.F["depts:"+itoa(k.id)] == "" && !st.p.hasTag("fresh", k) {
				_ = old
				d.fail(e, st, "R14", "dependents-reset", instrPos(in), "the tasks that were recorded as waiting for a task are forgotten")
			}
		case cur != nil && k == cur && m == set(deps, n):
			st.p.F["fwd"] = "1"
		case cur != nil && k == n && m == set(depts, cur):
			st.p.F["bwd"] = "1"
			if st.p.F["fwd"] != "" {
				e.Site("edge kept", in)
			}
		case cur != nil && k == cur && m.op == OpSym && m.aux.(symKey).kind == "make:map" && (st.p.V["fset"] == nil || st.p.V["fset"] == m) && !st.p.hasTag("usedset", m):
			// a set that is to be stored later
			st.p.V["fset"] = m
			st.p.F["fwd"] = "1"
		case m.typ != nil && deps.typ != nil && types.Identical(m.typ.Underlying(), deps.typ.Underlying().(*types.Map).Elem().Underlying()):
			d.fail(e, st, "R02 G01", "wrong-edge", instrPos(in), "a dependency is recorded for the wrong task or in the wrong direction")
		}
		if st.p.F["fwd"] != "" && st.p.F["bwd"] != "" {
			e.Site("edge kept", in)
		}
	}
	// an assignment to the set of dependents is fine if there was none
	branch := h.Branch
	h.Branch = func(e *Engine, st *State, in *ssa.If, cond *Val, taken bool) {
		branch(e, st, in, cond, taken)
		if cur := st.p.V["m"]; cur != nil {
			if depts := fieldMap(e, st, d.depts); depts != nil {
				v, ok := e.lookup(st, depts, cur, depts.typ.Underlying().(*types.Map).Elem())
				if e.KnownNil(st, v) || e.Decide(st, ok) == 0 {
					st.p.put("fresh", cur, "1")
				} else {
					st.p.del("fresh", cur)
				}
			}
		}
	}
	h.Store = func(e *Engine, st *State, in *ssa.Store, addr, val *Val) {
		if addr.op != OpFieldAddr {
			return
		}
		base := addr.a[0]
		if isField(addr, d.graph, d.deps) || isField(addr, d.graph, d.depts) || isField(addr, d.graph, d.list) {
			if st.p.V["g"] == nil {
				st.p.V["g"] = base
			}
		}
		if isField(addr, d.graph, d.list) {
			if st.p.F["listed"] != "" && val == st.p.V["head"] {
				st.p.F["list"] = "1"
			}
			return
		}
		if o := st.p.V["o"]; o != nil && base.op == OpAlloc {
			i := addr.aux.(int)
			if i == d.id && val == o {
				st.p.F["linked"] += "1"
				st.p.put("node", base, "id")
			}
			if i == d.next {
				if val != st.p.V["head"] {
					d.fail(e, st, "R14 R13", "list-link", instrPos(in), "the list of tasks is not linked one after the other")
				}
				st.p.put("nodelink", base, "")
			}
			_, a := st.p.get("node", base)
			_, b := st.p.get("nodelink", base)
			if a && b {
				st.p.F["linked"] = "2"
				st.p.V["head"] = base
				delete(st.p.S, "node")
				delete(st.p.S, "nodelink")
			}
		}
	}
	h.Return = func(e *Engine, st *State, inn ssa.Instruction, res []*Val) {
		err := errResult(res)
		nderr, cyc := st.p.V["nderr"], st.p.V["cycle"]
		failed := nderr != nil && e.KnownNonNil(st, nderr) || cyc != nil && (e.KnownNonNil(st, cyc) || st.p.F["cyc"] != "")
		clean := nderr != nil && e.KnownNil(st, nderr) && cyc != nil && e.KnownNil(st, cyc)
		switch {
		case e.KnownNonNil(st, err):
			if !failed {
				d.fail(e, st, "G01", "false-error", instrPos(inn), "a graph is rejected although it is neither dangling nor circular")
			}
			if in("G01") {
				e.Site("cycle reported", inn)
			}
		case e.KnownNil(st, err):
			if !clean {
				d.fail(e, st, "G01 R12 R01", "error-dropped", instrPos(inn), "a graph is accepted although it may be dangling or circular")
			}
			if st.p.F["edges"] == "" {
				d.fail(e, st, "R02 G01", "edges-missing", instrPos(inn), "a graph is returned without all dependencies being recorded")
			}
			if g, head := st.p.V["g"], st.p.V["head"]; g != nil && head != nil && st.p.F["listed"] != "" {
				if got := loadField(e, st, g, d.list); got == head || isNilConst(head) && e.KnownNil(st, got) {
					st.p.F["list"] = "1"
				}
			}
			if st.p.F["list"] == "" {
				d.fail(e, st, "R14 R01 G01", "list-missing", instrPos(inn), "a graph is returned whose list of tasks does not have all tasks")
			}
			if st.p.V["g"] != nil && res[0] != st.p.V["g"] {
				d.fail(e, st, "G01", "other-result", instrPos(inn), "the graph that is returned is not the one that was built")
			}
			if in("G01 R12 R14 R02 R13") {
				e.Site("graph built completely", inn)
			}
		default:
			d.fail(e, st, "G01 R12", "error-unknown", instrPos(inn), "it cannot be told whether the graph is rejected")
		}
	}
	e := NewEngine(c.Program, h)
	e.Run(e.Start(fn, nil, newP(), "construction"))
	c.Merge(e, "NewDependencyGraph")
	c.Floor("graph built completely", 1)
}

func (p *P) hasTag(set string, v *Val) bool {
	_, ok := p.get(set, v)
	return ok
}

type visitorA struct {
	fn                                       *ssa.Function
	visiting, visited, graph, cycle, sorted_ int
	typ                                      types.Type
}

// findVisitor recognises the recursive step of the sort and the roles of the
// fields of its state.
func findVisitor(c *Ctx, ts *ssa.Function) *visitorA {
	v := &visitorA{visiting: -1, visited: -1, graph: -1, cycle: -1, sorted_: -1}
	for f := range c.staticReach(ts) {
		for g := range c.staticReach(f) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == g {
						v.fn = g
					}
				}
			}
		}
	}
	if v.fn == nil || len(v.fn.Params) < 2 || derefStruct(v.fn.Params[0].Type()) == nil {
		c.Fail("anchor:visit", ts.Pos(), "the recursive function that visits the nodes of a graph was not recognised")
		return nil
	}
	v.typ = v.fn.Params[0].Type()
	field := func(x ssa.Value) int {
		if u, ok := x.(*ssa.UnOp); ok && u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok && types.Identical(fa.X.Type(), v.typ) {
				return fa.Field
			}
		}
		return -1
	}
	for f := range c.staticReach(v.fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
						if i := field(x.Call.Args[0]); i >= 0 {
							v.visiting = i
						}
					}
				case *ssa.MapUpdate:
					if k, ok := x.Value.(*ssa.Const); ok && isBool(k.Type()) && k.Value != nil && !constant.BoolVal(k.Value) {
						if i := field(x.Map); i >= 0 {
							v.visiting = i
						}
					}
				case *ssa.BinOp:
					if k, ok := x.Y.(*ssa.Const); ok && k.IsNil() {
						if i := field(x.X); i >= 0 {
							v.cycle = i
						}
					}
				}
			}
		}
	}
	s := derefStruct(v.typ)
	for i := 0; i < s.NumFields(); i++ {
		switch t := s.Field(i).Type().Underlying().(type) {
		case *types.Map:
			if _, ok := t.Elem().Underlying().(*types.Slice); ok {
				v.graph = i
			} else if i != v.visiting {
				v.visited = i
			}
		case *types.Slice:
			if i != v.cycle {
				v.sorted_ = i
			}
		}
	}
	if v.visiting < 0 || v.visited < 0 || v.graph < 0 || v.cycle < 0 || v.sorted_ < 0 {
		c.Fail("anchor:visit", v.fn.Pos(), "the state of the sort (nodes being visited, nodes visited, edges, cycle, result) was not recognised")
		return nil
	}
	return v
}

// member: the element is in the set; in a map of booleans, what is true is.
func (e *Engine) member(st *State, m, k *Val) int {
	v, ok := e.lookup(st, m, k, nil)
	if m.typ != nil {
		if mt, isMap := m.typ.Underlying().(*types.Map); isMap && isBool(mt.Elem()) {
			v, ok = e.lookup(st, m, k, mt.Elem())
			if e.Decide(st, ok) == 0 {
				return 0
			}
			return e.Decide(st, v)
		}
	}
	return e.Decide(st, ok)
}

func sorting(c *Ctx, ts *ssa.Function) {
	v := findVisitor(c, ts)
	if v == nil {
		return
	}
	v.visit(c)
	v.top(c, ts)
}

func (v *visitorA) visit(c *Ctx) {
	recv := c.in.mk(OpParam, v.fn.Params[0].Type(), ssa.Value(v.fn.Params[0]))
	n := c.in.mk(OpParam, v.fn.Params[1].Type(), ssa.Value(v.fn.Params[1]))
	h := &Hooks{}
	lt := &LoopTrack{}
	isEdges := func(e *Engine, st *State, x *Val) bool {
		return x.op == OpPure && x.aux == "lookup" && x.a[0] == loadField(e, st, recv, v.graph) && x.a[1] == n
	}
	in := func(e *Engine, st *State, f int) int {
		if r := st.p.F["in"+itoa(f)]; r != "" {
			return int(r[0] - '0')
		}
		return -1
	}
	// what the branches say about the node on entry
	note := func(e *Engine, st *State) {
		for _, f := range []int{v.visiting, v.visited} {
			if st.p.F["in"+itoa(f)] == "" && st.p.F["changed"+itoa(f)] == "" {
				if d := e.member(st, loadField(e, st, recv, f), n); d >= 0 {
					st.p.F["in"+itoa(f)] = itoa(d)
				}
			}
		}
		cy := loadField(e, st, recv, v.cycle)
		delete(st.p.F, "cycle")
		if e.KnownNonNil(st, cy) {
			st.p.F["cycle"] = "1"
		} else if e.KnownNil(st, cy) {
			st.p.F["cycle"] = "0"
		}
	}
	endElem := func(e *Engine, st *State, pos token.Pos) {
		if st.p.V["m"] != nil {
			e.Report(st, "edge-unvisited", pos, "a dependency of a node is not visited before the node is finished")
		}
		delete(st.p.V, "m")
		if st.p.F["recursed"] != "" && st.p.F["cycle"] != "0" {
			e.Report(st, "cycle-ignored", pos, "a node is visited further although visiting one of its dependencies may have found a cycle")
		}
		delete(st.p.F, "recursed")
	}
	lt.OnElem = func(e *Engine, st *State, l *Loop, over, k, val *Val) {
		if isEdges(e, st, over) {
			endElem(e, st, instrPos(l.head.Instrs[0]))
			st.p.V["m"] = val
		}
	}
	lt.OnEnd = func(e *Engine, st *State, l *Loop, over *Val) {
		if isEdges(e, st, over) {
			endElem(e, st, instrPos(l.head.Instrs[0]))
			st.p.F["edges"] = "1"
		}
	}
	h.Branch = func(e *Engine, st *State, i *ssa.If, cond *Val, taken bool) {
		note(e, st)
		lt.Branch(e, st, i, taken)
	}
	h.Call = func(e *Engine, ev *CallEvent) (*Val, bool) {
		if ev.fn != v.fn {
			return nil, false
		}
		st := ev.st
		if st.p.F["marked"] == "" {
			e.Report(st, "not-marked", instrPos(ev.instr), "the dependencies of a node are visited before the node is marked as being visited: a cycle through it is not noticed")
		}
		if ev.args[0] != recv || st.p.V["m"] == nil || ev.args[1] != st.p.V["m"] {
			e.Report(st, "visits-other", instrPos(ev.instr), "something other than the dependencies of the node is visited")
		}
		if in(e, st, v.visiting) == 1 {
			e.Report(st, "recursion", instrPos(ev.instr), "a node that is being visited is visited again")
		}
		delete(st.p.V, "m")
		st.p.F["recursed"] = "1"
		st.p.F["rec"] = "1"
		return nil, false
	}
	fin := func(e *Engine, st *State, i ssa.Instruction) {
		if st.p.F["edges"] == "" {
			e.Report(st, "finished-early", instrPos(i), "a node is finished before all nodes it depends on were visited")
		} else {
			e.Site("node visited after its dependencies", i)
		}
	}
	h.MapUpdate = func(e *Engine, st *State, i *ssa.MapUpdate, m, k, val *Val) {
		if isBool(i.Value.Type()) && (m == loadField(e, st, recv, v.visiting) || m == loadField(e, st, recv, v.visited)) {
			// what is marked is what is true
			switch b, isC := constBool(val); {
			case !isC:
				e.Report(st, "marks-other", instrPos(i), "it is not known whether a node is marked")
				return
			case !b && m == loadField(e, st, recv, v.visiting) && k == n:
				fin(e, st, i)
				st.p.F["unmarked"] = "1"
				st.p.F["changed"+itoa(v.visiting)] = "1"
				return
			case !b:
				e.Report(st, "unmarks-other", instrPos(i), "a mark of another node is removed")
				return
			}
		}
		switch {
		case m == loadField(e, st, recv, v.visiting):
			if k != n {
				e.Report(st, "marks-other", instrPos(i), "a node other than the visited one is marked")
			}
			st.p.F["marked"] = "1"
			st.p.F["changed"+itoa(v.visiting)] = "1"
		case m == loadField(e, st, recv, v.visited):
			if k != n {
				e.Report(st, "marks-other", instrPos(i), "a node other than the visited one is marked")
			}
			fin(e, st, i)
			st.p.F["visited"] = "1"
			st.p.F["changed"+itoa(v.visited)] = "1"
		case m == loadField(e, st, recv, v.graph):
			e.Report(st, "graph-changed", instrPos(i), "the graph is changed while it is sorted")
		}
	}
	h.Delete = func(e *Engine, st *State, i ssa.CallInstruction, m, k *Val) {
		if m == loadField(e, st, recv, v.visiting) && k == n {
			fin(e, st, i)
			st.p.F["unmarked"] = "1"
			st.p.F["changed"+itoa(v.visiting)] = "1"
			return
		}
		if m == loadField(e, st, recv, v.visited) || m == loadField(e, st, recv, v.visiting) {
			e.Report(st, "unmarks-other", instrPos(i), "a mark of another node is removed")
		}
	}
	h.Append = func(e *Engine, st *State, i ssa.CallInstruction, base, items, res *Val) {
		its := e.sliceItems(st, items)
		tag := ""
		if base == loadField(e, st, recv, v.sorted_) {
			tag = "sorted"
		}
		if base == loadField(e, st, recv, v.cycle) {
			tag = "cycle"
		}
		if len(its) == 1 && its[0] == n && tag != "" {
			st.p.put("app", res, tag)
		}
	}
	h.PreStore = func(e *Engine, st *State, i *ssa.Store, addr, val *Val) {
		if addr.op != OpFieldAddr || addr.a[0] != recv {
			return
		}
		switch addr.aux.(int) {
		case v.sorted_:
			if t, _ := st.p.get("app", val); t != "sorted" {
				e.Report(st, "sorted-other", instrPos(i), "the result of the sort is changed other than by appending the visited node")
			}
			if st.p.F["sorted"] != "" {
				e.Report(st, "sorted-twice", instrPos(i), "a node is put into the result twice")
			}
			fin(e, st, i)
			st.p.F["sorted"] = "1"
		case v.cycle:
			known := st.p.F["cycle"] == "1" && st.p.F["rec"] != ""
			if !(in(e, st, v.visiting) == 1 && st.p.F["rec"] == "") && !known {
				e.Report(st, "false-cycle", instrPos(i), "a cycle is reported for a node that is not being visited already")
			}
			if e.KnownNil(st, val) {
				e.Report(st, "cycle-lost", instrPos(i), "a cycle that was found is forgotten")
			}
			if _, ok := st.p.get("app", val); ok || neverNil(val) {
				st.p.F["cycleset"] = "1"
			}
		case v.visiting, v.visited, v.graph:
			e.Report(st, "state-replaced", instrPos(i), "the state of the sort is replaced while it is visited")
		}
	}
	h.Return = func(e *Engine, st *State, i ssa.Instruction, res []*Val) {
		note(e, st)
		pos := instrPos(i)
		switch {
		case in(e, st, v.visiting) == 1:
			if st.p.F["cycle"] != "1" && st.p.F["cycleset"] == "" {
				e.Report(st, "cycle-missed", pos, "a node that is being visited already is reached again without a cycle being reported")
			}
			e.Site("cycle reported", i)
		case st.p.F["rec"] != "" && st.p.F["edges"] == "":
			if st.p.F["cycle"] != "1" && st.p.F["cycleset"] == "" {
				e.Report(st, "stops-early", pos, "a node is left before all its dependencies were visited although no cycle is known")
			}
			e.Site("cycle reported", i)
		case in(e, st, v.visited) == 1:
			if st.p.F["marked"] != "" || st.p.F["sorted"] != "" {
				e.Report(st, "visited-again", pos, "a node that was visited is visited again")
			}
			if in(e, st, v.visiting) != 0 && st.p.F["order"] == "x" {
				return
			}
		default:
			for _, k := range []string{"edges", "marked", "unmarked", "visited", "sorted"} {
				if st.p.F[k] == "" {
					e.Report(st, "not-finished:"+k, pos, "a node can be left without being finished (%s)", k)
				}
			}
			if in(e, st, v.visiting) != 0 {
				e.Report(st, "visiting-unknown", pos, "a node is visited without examining whether it is being visited already")
			}
			if in(e, st, v.visited) != 0 {
				e.Report(st, "visited-unknown", pos, "a node is visited without examining whether it was visited before")
			}
		}
	}
	e := NewEngine(c.Program, h)
	e.Run(e.Start(v.fn, nil, newP(), "visit"))
	c.Merge(e, "visit")
}

// top: the function that visits all nodes.
func (v *visitorA) top(c *Ctx, ts *ssa.Function) {
	h := &Hooks{}
	lt := &LoopTrack{}
	gp := c.in.mk(OpParam, ts.Params[0].Type(), ssa.Value(ts.Params[0]))
	h.Opaque = func(st *State, f *ssa.Function) bool { return f == v.fn }
	graph := func(e *Engine, st *State) *Val {
		return e.load(st, gp, gp.typ.Underlying().(*types.Pointer).Elem())
	}
	isSet := func(e *Engine, st *State, x *Val) bool {
		n := st.p.V["n"]
		return n != nil && (x == st.p.V["set"] || x.op == OpPure && x.aux == "lookup" && x.a[0] == graph(e, st) && x.a[1] == n)
	}
	empty := func(e *Engine, st *State, x *Val) bool {
		if isNilConst(x) {
			return true
		}
		l, ok := st.mem[e.in.mk(OpPure, types.Typ[types.Int], "lenof", x)]
		if !ok {
			return false
		}
		k, ok := constInt(l)
		return ok && k == 0
	}
	endSet := func(e *Engine, st *State, pos token.Pos) {
		if st.p.V["m"] != nil {
			e.Report(st, "sort-edge-lost", pos, "an edge is not considered when the graph is sorted")
		}
		delete(st.p.V, "m")
	}
	endNode := func(e *Engine, st *State, pos token.Pos) {
		if st.p.V["n"] != nil {
			endSet(e, st, pos)
			if st.p.F["named"] == "" || st.p.F["edged"] == "" {
				e.Report(st, "sort-node-lost", pos, "a node or its edges are not considered when the graph is sorted")
			}
		}
		for _, k := range []string{"n", "set", "tmp"} {
			delete(st.p.V, k)
		}
		for _, k := range []string{"named", "edged", "setdone"} {
			delete(st.p.F, k)
		}
		for _, x := range st.p.each("acc") {
			if t, _ := st.p.get("acc", x); t == "edges" {
				st.p.del("acc", x)
			}
		}
	}
	endVisit := func(e *Engine, st *State, pos token.Pos) {
		if st.p.V["x"] != nil {
			if _, ok := st.p.get("known", st.p.V["x"]); !ok {
				e.Report(st, "node-unvisited", pos, "a node is not visited")
			}
		}
		if st.p.F["visits"] == "1" && st.p.F["cycle"] != "0" {
			e.Report(st, "cycle-ignored", pos, "nodes are visited further although a cycle may have been found")
		}
		delete(st.p.F, "visits")
		delete(st.p.V, "x")
		delete(st.p.S, "known")
	}
	isNodes := func(st *State, x *Val) bool {
		t, ok := st.p.get("acc", x)
		if st.p.F["nodesdone"] != "" && st.p.F["some"] == "" && x.typ != nil && isNames(x.typ) {
			return true // a graph without nodes
		}
		return ok && t == "nodes" && st.p.F["nodesdone"] != ""
	}
	lt.OnElem = func(e *Engine, st *State, l *Loop, over, k, val *Val) {
		pos := instrPos(l.head.Instrs[0])
		switch {
		case over == graph(e, st):
			endNode(e, st, pos)
			st.p.V["n"], st.p.V["set"] = k, val
			st.p.F["some"] = "1"
		case isSet(e, st, over):
			endSet(e, st, pos)
			st.p.V["m"] = k
		case isNodes(st, over):
			endVisit(e, st, pos)
			st.p.V["x"] = val
		}
	}
	lt.OnEnd = func(e *Engine, st *State, l *Loop, over *Val) {
		pos := instrPos(l.head.Instrs[0])
		switch {
		case over == graph(e, st):
			endNode(e, st, pos)
			st.p.F["nodesdone"] = "1"
		case isSet(e, st, over):
			endSet(e, st, pos)
			st.p.F["setdone"] = "1"
		case isNodes(st, over):
			endVisit(e, st, pos)
			st.p.F["all"] = "1"
		}
	}
	state := func(e *Engine, st *State) *Val { return st.p.V["v"] }
	h.Branch = func(e *Engine, st *State, in *ssa.If, cond *Val, taken bool) {
		if s := state(e, st); s != nil {
			delete(st.p.F, "cycle")
			cy := loadField(e, st, s, v.cycle)
			if e.KnownNil(st, cy) {
				st.p.F["cycle"] = "0"
			} else if e.KnownNonNil(st, cy) {
				st.p.F["cycle"] = "1"
			}
			if x := st.p.V["x"]; x != nil {
				if e.member(st, loadField(e, st, s, v.visited), x) == 1 {
					st.p.put("known", x, "")
				}
			}
		}
		lt.Branch(e, st, in, taken)
	}
	h.Store = func(e *Engine, st *State, in *ssa.Store, addr, val *Val) {
		if addr.op == OpFieldAddr && addr.a[0].typ != nil && types.Identical(addr.a[0].typ, v.typ) && st.p.V["v"] == nil {
			st.p.V["v"] = addr.a[0]
		}
	}
	h.Append = func(e *Engine, st *State, in ssa.CallInstruction, base, items, res *Val) {
		its := e.sliceItems(st, items)
		if len(its) != 1 {
			return
		}
		t, isAcc := st.p.get("acc", base)
		switch {
		case st.p.V["m"] != nil && its[0] == st.p.V["m"]:
			if isAcc && t == "edges" || empty(e, st, base) {
				st.p.put("acc", res, "edges")
				delete(st.p.V, "m")
			}
		case st.p.V["n"] != nil && its[0] == st.p.V["n"]:
			if isAcc && t == "nodes" || empty(e, st, base) {
				st.p.put("acc", res, "nodes")
				st.p.F["named"] = "1"
			}
		}
	}
	h.MapUpdate = func(e *Engine, st *State, in *ssa.MapUpdate, m, k, val *Val) {
		if n := st.p.V["n"]; n != nil && k == n {
			t, ok := st.p.get("acc", val)
			if !(ok && t == "edges" || empty(e, st, val)) || st.p.F["setdone"] == "" {
				e.Report(st, "sort-edges", instrPos(in), "the edges that are considered for a node are not all its edges")
			}
			st.p.V["edges"] = m
			st.p.F["edged"] = "1"
		}
	}
	h.Call = func(e *Engine, ev *CallEvent) (*Val, bool) {
		if ev.fn != v.fn {
			return nil, false
		}
		st := ev.st
		if st.p.V["v"] == nil {
			st.p.V["v"] = ev.args[0]
		}
		if st.p.V["v"] != ev.args[0] {
			e.Report(st, "state-split", instrPos(ev.instr), "the nodes are not visited with one common state")
		}
		if loadField(e, st, ev.args[0], v.graph) != st.p.V["edges"] {
			e.Report(st, "other-edges", instrPos(ev.instr), "the nodes are visited with other edges than those of the graph")
		}
		if st.p.V["x"] == nil || ev.args[1] != st.p.V["x"] {
			e.Report(st, "visits-other", instrPos(ev.instr), "something other than the nodes of the graph is visited")
		} else {
			st.p.put("known", st.p.V["x"], "")
		}
		st.p.F["visits"] = "1"
		st.p.F["cycle"] = ""
		return nil, false
	}
	h.AfterCall = func(e *Engine, ev *CallEvent, res *Val) {
		if ev.fn == v.fn {
			delete(ev.st.p.F, "cycle")
		}
	}
	h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
		s := state(e, st)
		pos := instrPos(in)
		if s == nil {
			// no node at all
			if st.p.F["all"] == "" {
				e.Report(st, "unsorted", pos, "the sort ends before the nodes were visited")
			}
			if !e.KnownNil(st, res[1]) {
				e.Report(st, "false-cycle", pos, "a cycle is reported for a graph without nodes")
			}
			return
		}
		cy := loadField(e, st, s, v.cycle)
		so := loadField(e, st, s, v.sorted_)
		switch {
		case e.KnownNonNil(st, cy):
			if res[1] != cy {
				e.Report(st, "cycle-dropped", pos, "a cycle that was found is not returned")
			}
			e.Site("cycle reported", in)
		case st.p.F["all"] != "":
			if res[0] != so {
				e.Report(st, "other-result", pos, "the result is not the list of sorted nodes")
			}
			if !e.KnownNil(st, res[1]) && res[1] != cy {
				e.Report(st, "false-cycle", pos, "a cycle is returned although none was found")
			}
			e.Site("all nodes sorted", in)
		default:
			e.Report(st, "unsorted", pos, "the sort ends before all nodes were visited")
		}
	}
	e := NewEngine(c.Program, h)
	e.Run(e.Start(ts, nil, newP(), "sort"))
	c.Merge(e, "TSort")
}

func isNames(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isStr(s.Elem())
}
