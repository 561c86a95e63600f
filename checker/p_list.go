package main

// C07: what list, dot, eval, ping and version print is complete.

import (
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// cover follows whether complete traversals do something for every element.
type cover struct{ name string }

func (v cover) elem(st *State) {
	if st.p.F["cv:"+v.name] == "open" {
		st.p.F["cv.bad:"+v.name] = "y"
	}
	st.p.F["cv:"+v.name] = "open"
}
func (v cover) done(st *State) {
	if st.p.F["cv:"+v.name] == "open" {
		st.p.F["cv:"+v.name] = "done"
	}
}
func (v cover) twice(st *State) bool { return st.p.F["cv:"+v.name] == "done" }
func (v cover) end(st *State) {
	if st.p.F["cv:"+v.name] == "open" {
		st.p.F["cv.bad:"+v.name] = "y"
	}
	if st.p.F["cv.bad:"+v.name] == "" {
		st.p.F["cv.all:"+v.name] = "y"
	}
	delete(st.p.F, "cv:"+v.name)
	delete(st.p.F, "cv.bad:"+v.name)
}
func (v cover) all(st *State) bool { return st.p.F["cv.all:"+v.name] != "" }
func (v cover) reset(st *State) {
	for _, k := range []string{"cv:", "cv.bad:", "cv.all:"} {
		delete(st.p.F, k+v.name)
	}
}

var verbRE = regexp.MustCompile(`%[-+# 0-9.*\[\]]*([a-zA-Z%])`)

// printed: the values a call prints, and where it prints them.
func printed(e *Engine, ev *CallEvent) (dst *Val, items []*Val, ok bool) {
	st := ev.st
	switch ev.name {
	case "fmt.Fprintln", "fmt.Fprint":
		return unwrap(ev.args[0]), e.sliceItems(st, ev.args[1]), true
	case "fmt.Fprintf":
		f, k := constStr(ev.args[1])
		if !k {
			return nil, nil, false
		}
		its := e.sliceItems(st, ev.args[2])
		n := 0
		var r []*Val
		for _, m := range verbRE.FindAllStringSubmatch(f, -1) {
			if m[1] == "%" {
				continue
			}
			n += strings.Count(m[0], "*")
			if n >= len(its) {
				return nil, nil, false
			}
			if strings.Contains("svq", m[1]) && !strings.Contains(m[0], ".") {
				r = append(r, its[n])
			}
			n++
		}
		return unwrap(ev.args[0]), r, true
	case "io.WriteString":
		return unwrap(ev.args[0]), []*Val{ev.args[1]}, true
	}
	return nil, nil, false
}

func runC07(c *Ctx) {
	c.listResult()
	c.listPrinted()
	c.drawing()
	c.evaluated()
	c.singleLine("PingCmd", func(e *Engine, st *State, v *Val) bool { _, ok := st.p.get("version", v); return ok })
	c.singleLine("VersionCmd", func(e *Engine, st *State, v *Val) bool { return strings.HasSuffix(loadID(v), ".VersionCmd.Build") })
	c.versionSource()
	c.Floor("task listed", 1)
	c.Floor("task printed", 1)
	c.Floor("drawn", 1)
	c.Floor("document printed", 1)
	c.Floor("line printed", 1)
}

func inPkg(path string) func(st *State, f *ssa.Function) bool {
	return func(st *State, f *ssa.Function) bool { return f.Pkg == nil || f.Pkg.Pkg.Path() != pkgPath(path) }
}

func failedPath(e *Engine, st *State, res []*Val) bool {
	err := errResult(res)
	return err != nil && e.KnownNonNil(st, err)
}

// listResult: List returns every task with its target.
func (c *Ctx) listResult() {
	fn := c.NeedFunc(rbPkg, "List")
	if fn == nil {
		return
	}
	cv := cover{"task"}
	lt := &LoopTrack{SkipCollectors: true}
	isTasks := func(v *Val) bool { return loadID(v) == typesPkg+".Runbook.Tasks" }
	lt.OnElem = func(e *Engine, st *State, l *Loop, over, k, v *Val) {
		if isTasks(over) {
			cv.elem(st)
			st.p.V["k"], st.p.V["v"] = k, v
		}
	}
	lt.OnEnd = func(e *Engine, st *State, l *Loop, over *Val) {
		if isTasks(over) {
			cv.end(st)
		}
	}
	h := &Hooks{Opaque: inPkg(rbPkg)}
	h.Branch = func(e *Engine, st *State, in *ssa.If, cond *Val, taken bool) { lt.Branch(e, st, in, taken) }
	h.Append = func(e *Engine, st *State, in ssa.CallInstruction, base, items, res *Val) {
		lt.Append(e, st, base, items, res)
	}
	h.PreMapUpdate = func(e *Engine, st *State, in *ssa.MapUpdate, m, k, v *Val) {
		if m.typ == nil || !types.Identical(m.typ, fn.Signature.Results().At(0).Type()) {
			return
		}
		key, task := st.p.V["k"], st.p.V["v"]
		if key == nil || task == nil || unwrapConv(k) != unwrapConv(key) {
			e.Report(st, "list:key", instrPos(in), "a list entry is added under something else than the ID of the task")
			return
		}
		if v := unwrapConv(v); loadID(v) != typesPkg+".Task.Target" || !mentions(v, task) {
			e.Report(st, "list:target", instrPos(in), "a task is listed with something else than the target of the task")
			return
		}
		cv.done(st)
		st.p.put("list", m, "y")
		e.Site("task listed", in)
	}
	h.Delete = func(e *Engine, st *State, in ssa.CallInstruction, m, k *Val) {
		e.Report(st, "list:deleted", instrPos(in), "tasks are removed from the list")
	}
	h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
		if failedPath(e, st, res) {
			return
		}
		if !cv.all(st) {
			e.Report(st, "list:incomplete", instrPos(in), "the list of tasks may be incomplete")
		} else if _, ok := st.p.get("list", res[0]); !ok && len(st.p.each("list")) > 0 {
			e.Report(st, "list:other", instrPos(in), "what is returned is not the list of the tasks")
		}
	}
	e := NewEngine(c.Program, h)
	e.Run(e.Start(fn, nil, newP(), "List"))
	c.Merge(e, "runbook.List")
}

// ascending: a comparison function that compares the elements themselves.
func ascending(f *ssa.Function) bool {
	if len(f.Blocks) != 1 || len(f.Params) != 2 {
		return false
	}
	r, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok || len(r.Results) != 1 {
		return false
	}
	b, ok := r.Results[0].(*ssa.BinOp)
	if !ok {
		return false
	}
	var over [2]ssa.Value
	elem := func(v ssa.Value, i int) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok {
			return false
		}
		ix, ok := u.X.(*ssa.IndexAddr)
		if !ok || ix.Index != ssa.Value(f.Params[i]) {
			return false
		}
		over[i] = ix.X
		if u, ok := ix.X.(*ssa.UnOp); ok {
			over[i] = u.X
		}
		return true
	}
	switch b.Op {
	case token.LSS, token.LEQ:
		ok = elem(b.X, 0) && elem(b.Y, 1)
	case token.GTR, token.GEQ:
		ok = elem(b.X, 1) && elem(b.Y, 0)
	default:
		ok = false
	}
	if ok && (b.Op == token.LEQ || b.Op == token.GEQ) {
		return false
	}
	return ok && over[0] == over[1]
}

// listPrinted: the list command prints what List returned, sorted.
func (c *Ctx) listPrinted() {
	run := c.commandRuns()["RunBookListCmd"]
	list := c.NeedFunc(rbPkg, "List")
	if run == nil || list == nil {
		c.Fail("anchor:RunBookListCmd", token.NoPos, "there is no command that lists tasks")
		return
	}
	cv := cover{"task"}
	lt := &LoopTrack{}
	lt.SkipCollectors = true
	is := func(st *State, v *Val) bool { _, ok := st.p.get("tasks", v); return ok }
	lt.OnElem = func(e *Engine, st *State, l *Loop, over, k, v *Val) {
		if !is(st, over) {
			return
		}
		if l.kind == "iter" {
			if !appendsIn(l) {
				st.p.F["unsorted"] = "y"
			}
		} else if st.p.F["sorted"] == "" {
			st.p.F["unsorted"] = "y"
		}
		cv.elem(st)
		st.p.V["k"], st.p.V["v"] = k, v
	}
	lt.OnEnd = func(e *Engine, st *State, l *Loop, over *Val) {
		if is(st, over) {
			cv.end(st)
		}
	}
	h := &Hooks{Opaque: inPkg(cmdPkg)}
	h.Branch = func(e *Engine, st *State, in *ssa.If, cond *Val, taken bool) { lt.Branch(e, st, in, taken) }
	h.Append = func(e *Engine, st *State, in ssa.CallInstruction, base, items, res *Val) {
		lt.Append(e, st, base, items, res)
		delete(st.p.F, "sorted")
	}
	h.AfterCall = func(e *Engine, ev *CallEvent, res *Val) {
		st := ev.st
		switch {
		case ev.fn == list:
			if res.op == OpTuple {
				st.p.put("tasks", res.a[0], "y")
			}
		case ev.name == "sort.Strings" || ev.name == "slices.Sort" || ev.name == "sort.Stable" || ev.name == "sort.Sort":
			st.p.F["sorted"] = "y"
			if x := unwrap(ev.args[0]); (ev.name == "sort.Sort" || ev.name == "sort.Stable") && !strings.HasSuffix(types.TypeString(x.typ, nil), "sort.StringSlice") {
				delete(st.p.F, "sorted")
			}
		case ev.name == "sort.Slice" || ev.name == "sort.SliceStable":
			if f, _ := e.callable(ev.args[1]); f != nil && ascending(f) {
				st.p.F["sorted"] = "y"
			}
		}
		_, items, ok := printed(e, ev)
		if !ok {
			return
		}
		key, val := st.p.V["k"], st.p.V["v"]
		if key == nil || val == nil || st.p.F["cv:task"] == "" {
			return
		}
		ki, vi := -1, -1
		for i, it := range items {
			switch x := unwrapConv(unwrap(it)); {
			case x == unwrapConv(key):
				ki = i
			case x == unwrapConv(val):
				vi = i
			}
		}
		if ki < 0 && vi < 0 {
			return
		}
		if ki < 0 || vi < ki {
			e.Report(st, "list:line", instrPos(ev.instr), "the line of a task does not consist of its ID and its target")
			return
		}
		if st.p.F["unsorted"] != "" {
			e.Report(st, "list:unsorted", instrPos(ev.instr), "tasks are not printed in the order of their IDs")
			return
		}
		if cv.twice(st) {
			e.Report(st, "list:twice", instrPos(ev.instr), "a task may be printed twice")
			return
		}
		cv.done(st)
		e.Site("task printed", ev.instr)
	}
	h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
		if !failedPath(e, st, res) && !cv.all(st) {
			e.Report(st, "list:not-printed", instrPos(in), "some tasks may not be printed")
		}
	}
	e := NewEngine(c.Program, h)
	e.Run(e.Start(run, nil, newP(), "ls"))
	c.Merge(e, "RunBookListCmd.Run")
}

// drawing: Dot draws every target, task and dependency.
func (c *Ctx) drawing() {
	fn := c.NeedFunc(rbPkg, "Dot")
	if fn == nil {
		return
	}
	cluster, node, edge, edges := cover{"cluster"}, cover{"node"}, cover{"edge"}, cover{"edges"}
	lt := &LoopTrack{SkipCollectors: true}
	hole := c.in.mk(OpPure, types.Typ[types.String], "hole")
	closeTask := func(e *Engine, st *State) {
		if st.p.F["cv:edges"] != "open" || st.p.V["task"] == nil {
			return
		}
		if a := e.namedField(st, st.p.V["task"], "After"); a != nil && e.emptySlice(st, a) {
			edges.done(st)
		}
	}
	lt.OnElem = func(e *Engine, st *State, l *Loop, over, k, v *Val) {
		switch loadID(over) {
		case typesPkg + ".Runbook.Targets":
			cluster.elem(st)
			st.p.V["target"] = k
		case typesPkg + ".Runbook.Tasks":
			closeTask(e, st)
			node.elem(st)
			edges.elem(st)
			edge.reset(st)
			st.p.V["taskID"], st.p.V["task"] = k, v
		case typesPkg + ".Task.After":
			edge.elem(st)
			st.p.V["before"] = v
			if st.p.V["task"] == nil || !mentions(over, st.p.V["task"]) {
				delete(st.p.V, "before")
			}
		}
	}
	lt.OnEnd = func(e *Engine, st *State, l *Loop, over *Val) {
		switch loadID(over) {
		case typesPkg + ".Runbook.Targets":
			cluster.end(st)
		case typesPkg + ".Runbook.Tasks":
			closeTask(e, st)
			node.end(st)
			edges.end(st)
		case typesPkg + ".Task.After":
			edge.end(st)
			if edge.all(st) && st.p.V["task"] != nil && mentions(over, st.p.V["task"]) {
				edges.done(st)
			}
			edge.reset(st)
		}
	}
	h := &Hooks{Opaque: inPkg(rbPkg)}
	h.Branch = func(e *Engine, st *State, in *ssa.If, cond *Val, taken bool) { lt.Branch(e, st, in, taken) }
	h.Append = func(e *Engine, st *State, in ssa.CallInstruction, base, items, res *Val) {
		lt.Append(e, st, base, items, res)
	}
	gv := "github.com/awalterschulze/gographviz."
	h.AfterCall = func(e *Engine, ev *CallEvent, res *Val) {
		st, pos := ev.st, instrPos(ev.instr)
		n := ev.name
		if strings.HasPrefix(n, "invoke ") || ev.invoke && strings.HasSuffix(n, ").Write") {
			for _, a := range ev.args {
				if _, ok := st.p.get("drawing", unwrapConv(unwrap(a))); ok {
					st.p.F["written"] = "y"
				}
			}
			return
		}
		if n == "io.WriteString" || strings.HasPrefix(n, "fmt.Fprint") {
			if _, items, ok := printed(e, ev); ok {
				for _, a := range items {
					if _, ok := st.p.get("drawing", unwrapConv(unwrap(a))); ok {
						st.p.F["written"] = "y"
					}
				}
			}
			return
		}
		if !strings.Contains(n, gv) {
			return
		}
		m := n[strings.LastIndex(n, ".")+1:]
		if strings.HasPrefix(m, "New") {
			if m != "NewEscape" {
				e.Report(st, "dot:escape", pos, "names are not escaped in the drawing")
			}
			st.p.put("graph", res, "y")
			return
		}
		g := ev.args[0]
		for g.op == OpLoad && g.a[0].op == OpFieldAddr {
			g = g.a[0].a[0]
		}
		if _, ok := st.p.get("graph", g); !ok {
			e.Report(st, "dot:graph", pos, "%s is called on something else than the drawing", m)
			return
		}
		if st.p.F["rendered"] != "" && m != "String" {
			e.Report(st, "dot:late", pos, "the drawing is changed after it was rendered")
		}
		str := func(i int) string { s, _ := constStr(ev.args[i]); return s }
		template := func(v, part *Val) string {
			t := e.subst(v, part, hole, map[*Val]*Val{})
			if t == v {
				return ""
			}
			return t.String()
		}
		cl := func(v, part *Val) bool {
			t := template(v, part)
			if t == "" || st.p.F["cluster"] != "" && st.p.F["cluster"] != t {
				e.Report(st, "dot:cluster", pos, "tasks are not drawn in the cluster of their target")
				return false
			}
			if pre := "cluster"; !e.hasPrefix(v, pre) {
				e.Report(st, "dot:cluster-name", pos, "what targets are drawn as is not a cluster")
				return false
			}
			st.p.F["cluster"] = t
			return true
		}
		switch m {
		case "SetName":
			st.p.F["name"] = str(1)
		case "SetDir":
			if e.Decide(st, ev.args[1]) == 1 {
				st.p.F["directed"] = "y"
			} else {
				delete(st.p.F, "directed")
			}
		case "SetStrict":
			if e.Decide(st, ev.args[1]) != 0 {
				e.Report(st, "dot:strict", pos, "the drawing is made strict")
			}
		case "AddAttr":
			if str(2) != "label" {
				return
			}
			if k := st.p.V["target"]; k == nil || st.p.F["cv:cluster"] == "" || ev.args[3] != k || !cl(ev.args[1], k) {
				e.Report(st, "dot:label", pos, "a target is labelled with something else than its ID")
			}
		case "AddSubGraph":
			k := st.p.V["target"]
			if k == nil || st.p.F["cv:cluster"] == "" || !mentions(ev.args[2], k) {
				e.Report(st, "dot:target", pos, "a part of the drawing does not belong to a target")
				return
			}
			if s := str(1); s == "" || st.p.F["parent"] != "" && st.p.F["parent"] != s {
				e.Report(st, "dot:parent", pos, "targets are drawn outside of the drawing")
				return
			} else {
				st.p.F["parent"] = s
			}
			if cl(ev.args[2], k) {
				cluster.done(st)
				e.Site("drawn", ev.instr)
			}
		case "AddNode":
			k, t := st.p.V["taskID"], st.p.V["task"]
			if k == nil || st.p.F["cv:node"] == "" || ev.args[2] != k {
				e.Report(st, "dot:node", pos, "what is drawn as a task is not one")
				return
			}
			tg := e.namedField(st, t, "Target")
			if tg != nil && cl(ev.args[1], tg) {
				node.done(st)
				e.Site("drawn", ev.instr)
			}
		case "AddEdge", "AddPortEdge":
			src, dst, dir := ev.args[1], ev.args[2], ev.args[3]
			if m == "AddPortEdge" {
				dst, dir = ev.args[3], ev.args[5]
			}
			if b := st.p.V["before"]; b == nil || st.p.F["cv:edge"] == "" || src != b || dst != st.p.V["taskID"] || e.Decide(st, dir) != 1 {
				e.Report(st, "dot:edge", pos, "what is drawn does not lead from a task that comes first to the one that comes after it")
				return
			}
			edge.done(st)
			e.Site("drawn", ev.instr)
		case "String":
			st.p.put("drawing", res, "y")
			st.p.F["rendered"] = "y"
			switch {
			case !cluster.all(st):
				e.Report(st, "dot:targets", pos, "some targets may not be drawn")
			case !node.all(st):
				e.Report(st, "dot:tasks", pos, "some tasks may not be drawn")
			case !edges.all(st):
				e.Report(st, "dot:edges", pos, "some dependencies may not be drawn")
			case st.p.F["directed"] == "":
				e.Report(st, "dot:undirected", pos, "the drawing is not directed")
			case st.p.F["parent"] != "" && st.p.F["name"] != st.p.F["parent"]:
				e.Report(st, "dot:name", pos, "targets are drawn outside of the drawing")
			default:
				e.Site("drawn", ev.instr)
			}
		case "WriteAst", "IsNode", "IsSubGraph", "IsEdge":
		default:
			e.Report(st, "dot:"+m, pos, "what %s does to the drawing is not known", m)
		}
	}
	h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
		if !failedPath(e, st, res) && st.p.F["written"] == "" {
			e.Report(st, "dot:not-written", instrPos(in), "the drawing may not be written")
		}
	}
	e := NewEngine(c.Program, h)
	e.Run(e.Start(fn, nil, newP(), "Dot"))
	c.Merge(e, "runbook.Dot")
}

// hasPrefix: the text starts with p.
func (e *Engine) hasPrefix(v *Val, p string) bool {
	if s, ok := constStr(v); ok {
		return strings.HasPrefix(s, p)
	}
	switch {
	case v.op == OpBin && v.aux == token.ADD:
		return e.hasPrefix(v.a[0], p)
	case v.op == OpPure && v.aux == "fmt.Sprintf" && len(v.a) > 0:
		return e.hasPrefix(v.a[0], p)
	}
	return false
}

// evaluated: Eval prints the document that was loaded, as a whole.
func (c *Ctx) evaluated() {
	fn := c.NeedFunc(rbPkg, "Eval")
	load := c.NeedMethod(parserPkg, "Parser", "Load")
	if fn == nil || load == nil {
		return
	}
	h := &Hooks{Opaque: inPkg(rbPkg)}
	h.AfterCall = func(e *Engine, ev *CallEvent, res *Val) {
		st := ev.st
		arg := func(i int) string {
			if i >= len(ev.args) {
				return ""
			}
			s, _ := st.p.get("doc", unwrapConv(unwrap(ev.args[i])))
			return s
		}
		part := func(i int) *Val {
			if res != nil && res.op == OpTuple {
				return res.a[i]
			}
			return res
		}
		switch {
		case ev.fn == load:
			st.p.put("doc", part(0), "text")
		case ev.name == "encoding/json.Unmarshal":
			if arg(0) == "text" {
				st.p.put("decoded", rootAddr(unwrap(ev.args[1])), "y")
			}
		case strings.HasSuffix(ev.name, "prettyjson.Formatter).Marshal"):
			v := unwrap(ev.args[1])
			ok := v.op == OpLoad
			if ok {
				_, ok = st.p.get("decoded", rootAddr(v.a[0]))
			}
			if !ok {
				for _, d := range st.p.each("decoded") {
					ok = ok || mentions(v, d) || e.load(st, d, d.typ.Underlying().(*types.Pointer).Elem()) == ev.args[1]
				}
			}
			if !ok {
				e.Report(st, "eval:other", instrPos(ev.instr), "what is printed is not what was loaded")
				return
			}
			st.p.put("doc", part(0), "printed")
		case strings.HasSuffix(ev.name, "prettyjson.Formatter).Format"):
			if arg(1) == "text" {
				st.p.put("doc", part(0), "printed")
			}
		case ev.invoke && strings.HasSuffix(ev.name, ").Write"):
			if arg(len(ev.args)-1) == "printed" {
				st.p.F["written"] += "y"
				e.Site("document printed", ev.instr)
			} else {
				e.Report(st, "eval:extra", instrPos(ev.instr), "something else than the document is written")
			}
		case ev.name == "io.WriteString" || strings.HasPrefix(ev.name, "fmt.Fprint"):
			_, items, _ := printed(e, ev)
			for _, it := range items {
				if s, _ := st.p.get("doc", unwrapConv(unwrap(it))); s == "printed" {
					st.p.F["written"] += "y"
					e.Site("document printed", ev.instr)
				}
			}
		}
		if len(st.p.F["written"]) > 1 {
			e.Report(st, "eval:twice", instrPos(ev.instr), "the document may be written twice")
		}
	}
	h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
		if !failedPath(e, st, res) && st.p.F["written"] == "" {
			e.Report(st, "eval:not-written", instrPos(in), "the document may not be written")
		}
	}
	e := NewEngine(c.Program, h)
	e.Run(e.Start(fn, nil, newP(), "Eval"))
	c.Merge(e, "runbook.Eval")
}

// singleLine: a command that prints one fact.
func (c *Ctx) singleLine(cmd string, is func(e *Engine, st *State, v *Val) bool) {
	run := c.commandRuns()[cmd]
	sv := c.NeedMethod("internal/pg", "Conn", "ServerVersion")
	if run == nil || sv == nil {
		c.Fail("anchor:"+cmd, token.NoPos, "there is no command %s", cmd)
		return
	}
	h := &Hooks{Opaque: inPkg(cmdPkg)}
	h.AfterCall = func(e *Engine, ev *CallEvent, res *Val) {
		st := ev.st
		if ev.fn == sv && res.op == OpTuple {
			st.p.put("version", res.a[0], "y")
		}
		if dst, items, ok := printed(e, ev); ok && loadID(dst) == "internal/sys.IO.Stdout" {
			for _, it := range items {
				if is(e, st, unwrap(it)) {
					st.p.F["printed"] = "y"
					e.Site("line printed", ev.instr)
				}
			}
		}
	}
	h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
		if !failedPath(e, st, res) && st.p.F["printed"] == "" {
			e.Report(st, "not-printed:"+cmd, instrPos(in), "%s.Run reports success without having printed the version", cmd)
		}
	}
	e := NewEngine(c.Program, h)
	e.Run(e.Start(run, nil, newP(), cmd))
	c.Merge(e, cmd+".Run")
}

// versionSource: the version that is printed is the one main registers.
func (c *Ctx) versionSource() {
	reg := c.NeedFunc(cliPkg, "RegisterCommands")
	if reg == nil {
		return
	}
	prm := c.in.mk(OpParam, reg.Params[0].Type(), ssa.Value(reg.Params[0]))
	h := &Hooks{}
	seen := false
	h.PreStore = func(e *Engine, st *State, in *ssa.Store, addr, val *Val) {
		if addr.op != OpFieldAddr || fieldID(addr.a[0].typ, addr.aux.(int)) != cmdPkg+".VersionCmd.Build" {
			return
		}
		if val != prm {
			e.Report(st, "version-source", instrPos(in), "the version command does not print the version it was registered with")
			return
		}
		seen = true
		e.Site("version passed on", in)
	}
	e := NewEngine(c.Program, h)
	e.Run(e.Start(reg, nil, newP(), "Register"))
	c.Merge(e, "RegisterCommands")
	if !seen {
		c.Fail("version-source", reg.Pos(), "the version command is not given a version")
	}
}

func init() {
	register(&Check{ID: "C07", Technique: "static analysis: path-sensitive abstract interpretation of SSA with traversal coverage",
		Explanation: "Complete traversals of the targets, tasks and dependencies of the runbook are recognised, and for every element the call that lists, prints or draws it must be reached with exactly this element; success may only be reported after all traversals were complete and their result was written.",
		Run:         runC07})
}
