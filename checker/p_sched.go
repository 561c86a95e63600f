package main

// R02, R05, R13, R14: the scheduler.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const schedPkg = "internal/runbook/scheduler"

type schedA struct {
	c                           *Ctx
	typ                         *types.Named
	tasks, pending, limit, load int // fields of the scheduler
	dagNew, dagNext             string
}

func (s *schedA) fail(e *Engine, st *State, ids, key string, pos token.Pos, f string, a ...interface{}) {
	if strings.Contains(ids, s.c.check.ID) {
		e.Report(st, key, pos, f, a...)
	}
}

func (s *schedA) ok(e *Engine, ids, rule string, in ssa.Instruction) {
	if strings.Contains(ids, s.c.check.ID) {
		e.Site(rule, in)
	}
}

const (
	dagNewName   = Module + "/internal/dag.NewDependencyGraph"
	dagNextName  = "(*" + Module + "/internal/dag.DependencyGraph).Next"
	dagReadyName = "(*" + Module + "/internal/dag.DependencyGraph).Ready"
	dagPendName  = "(*" + Module + "/internal/dag.DependencyGraph).HasPending"
)

// roles finds out what the maps of the scheduler are for.
func (s *schedA) roles() bool {
	c := s.c
	st, ok := s.typ.Underlying().(*types.Struct)
	if !ok {
		c.Fail("anchor:Scheduler", s.typ.Obj().Pos(), "scheduler.Scheduler is not a struct")
		return false
	}
	s.tasks, s.pending, s.limit, s.load = -1, -1, -1, -1
	var ints []int
	for i := 0; i < st.NumFields(); i++ {
		m, ok := st.Field(i).Type().Underlying().(*types.Map)
		if !ok {
			continue
		}
		switch {
		case isStr(m.Elem()):
			s.tasks = i
		case isIntTyped(m.Elem()):
			ints = append(ints, i)
		default:
			if _, ok := m.Elem().Underlying().(*types.Slice); ok {
				s.pending = i
			}
		}
	}
	if s.tasks < 0 || s.pending < 0 || len(ints) != 2 {
		c.Fail("anchor:Scheduler", s.typ.Obj().Pos(), "the state of the scheduler (target of each task, waiting tasks, limit and load of each target) was not recognised")
		return false
	}
	// the limit is what is set to the result of ConcurrencyLimit
	nw := c.NeedFunc(schedPkg, "New")
	if nw == nil {
		return false
	}
	h := &Hooks{Opaque: s.opaque}
	h.AfterCall = func(e *Engine, ev *CallEvent, res *Val) {
		if ev.invoke && ev.instr.Common().Method.Name() == "ConcurrencyLimit" {
			ev.st.p.put("limits", res, "")
		}
	}
	var limitMap *Val
	h.MapUpdate = func(e *Engine, st *State, in *ssa.MapUpdate, m, k, v *Val) {
		if _, ok := st.p.get("limits", v); ok {
			for _, i := range ints {
				for a, x := range st.mem {
					if x == m && isField(a, s.typ, i) {
						s.limit = i
					}
				}
				if m.op == OpLoad && isField(m.a[0], s.typ, i) {
					s.limit = i
				}
			}
			limitMap = m
		}
	}
	h.Store = func(e *Engine, st *State, in *ssa.Store, addr, val *Val) {
		for _, i := range ints {
			if isField(addr, s.typ, i) && val == limitMap {
				s.limit = i
			}
		}
	}
	e := NewEngine(c.Program, h)
	e.Run(e.Start(nw, nil, newP(), "roles"))
	if s.limit < 0 {
		c.Fail("anchor:limit", nw.Pos(), "the concurrency limits of the targets are not recorded by the scheduler")
		return false
	}
	for _, i := range ints {
		if i != s.limit {
			s.load = i
		}
	}
	return true
}

func (s *schedA) opaque(st *State, fn *ssa.Function) bool {
	return fn.Pkg != nil && strings.HasSuffix(fn.Pkg.Pkg.Path(), "/"+dagPkg)
}

func runSched(c *Ctx) {
	s := &schedA{c: c, typ: c.Type(schedPkg, "Scheduler")}
	if s.typ == nil {
		c.Fail("anchor:Scheduler", token.NoPos, "the type scheduler.Scheduler was not found")
		return
	}
	if !s.roles() {
		return
	}
	nw, nx := c.NeedFunc(schedPkg, "New"), c.NeedMethod(schedPkg, "Scheduler", "Next")
	if nw == nil || nx == nil {
		return
	}
	s.analyse(nw, true)
	s.analyse(nx, false)
	switch c.check.ID {
	case "R05":
		c.Floor("handed out within the free slots", 1)
		c.Floor("limit recorded", 1)
		c.Floor("load counted", 1)
	case "R13":
		c.Floor("handed out tasks leave the queue", 1)
	case "R14":
		c.Floor("all queues examined", 1)
		c.Floor("ready task queued", 1)
	case "R02":
		c.Floor("only ready tasks queued", 1)
	}
}

// look reads an element of a map field.
func (s *schedA) look(e *Engine, st *State, sv *Val, f int, k *Val) *Val {
	m := loadField(e, st, sv, f)
	v, _ := e.lookup(st, m, k, m.typ.Underlying().(*types.Map).Elem())
	return v
}

func (s *schedA) mapOf(e *Engine, st *State, m *Val) int {
	sv := st.p.V["s"]
	if sv == nil {
		return -1
	}
	for _, f := range []int{s.tasks, s.pending, s.limit, s.load} {
		if loadField(e, st, sv, f) == m {
			return f
		}
	}
	return -1
}

func (s *schedA) analyse(root *ssa.Function, isNew bool) {
	c := s.c
	h := &Hooks{Opaque: s.opaque}
	lt := &LoopTrack{SkipCollectors: true}
	var targets, tasks, recv, completed *Val
	prm := func(i int) *Val {
		return c.in.mk(OpParam, root.Params[i].Type(), ssa.Value(root.Params[i]))
	}
	if isNew {
		targets, tasks = prm(0), prm(1)
	} else {
		recv, completed = prm(0), prm(1)
	}
	bt, it := types.Typ[types.Bool], types.Typ[types.Int]
	le := func(e *Engine, st *State, x, y *Val) bool { // x <= y known
		return x == y || e.Decide(st, e.binop(token.GTR, x, y, it, bt)) == 0
	}

	endTarget := func(e *Engine, st *State, pos token.Pos) {
		if st.p.V["t"] != nil && st.p.F["limited"] == "" {
			s.fail(e, st, "R05 R14", "limit-missing", pos, "the concurrency limit of a target is not recorded")
		}
		delete(st.p.V, "t")
		delete(st.p.V, "tv")
		delete(st.p.F, "limited")
	}
	endTask := func(e *Engine, st *State, pos token.Pos) {
		if st.p.V["k"] != nil {
			// several loops may take over different parts of the tasks
			for _, k := range []string{"placed", "deps"} {
				if st.p.F[k] == "" {
					st.p.F["some-not-"+k] = "1"
				}
			}
		}
		for _, k := range []string{"k", "kv"} {
			delete(st.p.V, k)
		}
		delete(st.p.F, "placed")
		delete(st.p.F, "deps")
	}
	endReady := func(e *Engine, st *State, pos token.Pos) {
		if st.p.V["r"] != nil {
			s.fail(e, st, "R14", "ready-lost", pos, "a task that became ready is not queued")
		}
		delete(st.p.V, "r")
	}
	idle := func(e *Engine, st *State) bool {
		_, hl := e.interval(st, e.lenOf(st.p.V["list"]))
		free := e.binop(token.SUB, st.p.V["lim0"], st.p.V["load0"], it, it)
		_, hf := e.interval(st, free)
		return hl < 1 || hf < 1 || le(e, st, st.p.V["lim0"], st.p.V["load0"])
	}
	// one queue: either nothing can be handed out, or as much as fits
	endQueue := func(e *Engine, st *State, pos token.Pos) {
		if st.p.V["q"] == nil {
			return
		}
		if st.p.F["given"] == "" && st.p.F["cut"] == "" && st.p.F["counted"] == "" {
			if !idle(e, st) && st.p.F["idle"] == "" {
				s.fail(e, st, "R14", "withheld", pos, "waiting tasks are passed over although their target may have free slots")
			}
		} else {
			if st.p.F["given"] == "" {
				s.fail(e, st, "R14 R01", "taken-not-given", pos, "tasks are taken from a queue, or counted, but not handed out")
			}
			if st.p.F["cut"] == "" {
				s.fail(e, st, "R13", "given-not-taken", pos, "tasks that are handed out stay in their queue")
			}
			if st.p.F["counted"] == "" {
				s.fail(e, st, "R05", "given-not-counted", pos, "tasks that are handed out are not counted for the limit of their target")
			}
		}
		for _, k := range []string{"q", "list", "n", "cp", "cpi", "lim0", "load0", "copiedAll"} {
			delete(st.p.V, k)
		}
		for _, k := range []string{"given", "cut", "counted", "copied", "idle"} {
			delete(st.p.F, k)
		}
		delete(st.p.S, "acc")
		delete(st.p.S, "dst")
	}
	endCopy := func(e *Engine, st *State, pos token.Pos) {
		if st.p.V["cp"] != nil && st.p.F["copied"] == "" {
			s.fail(e, st, "R13 R14", "copy-incomplete", pos, "a task that was taken from a queue is not handed out")
		}
		delete(st.p.F, "copied")
	}
	endScan := func(e *Engine, st *State, pos token.Pos) {}
	_ = endScan
	isQueueMap := func(e *Engine, st *State, over *Val) bool {
		sv := st.p.V["s"]
		return sv != nil && over == loadField(e, st, sv, s.pending)
	}
	// a prefix of the current queue: returns its length
	prefix := func(st *State, v *Val) *Val {
		list := st.p.V["list"]
		if list == nil {
			return nil
		}
		if v.op == OpSlice && v.a[0] == list && v.aux == "h" {
			return v.a[1]
		}
		return nil
	}
	lt.OnElem = func(e *Engine, st *State, l *Loop, over, k, v *Val) {
		pos := instrPos(l.head.Instrs[0])
		switch {
		case targets != nil && over == targets:
			endTarget(e, st, pos)
			st.p.V["t"], st.p.V["tv"] = k, v
		case tasks != nil && over == tasks:
			endTask(e, st, pos)
			st.p.V["k"], st.p.V["kv"] = k, v
		case over == st.p.V["ready"]:
			endReady(e, st, pos)
			st.p.V["r"] = v
		case isQueueMap(e, st, over):
			if st.p.F["filled"] != "" {
				endQueue(e, st, pos)
				st.p.V["q"], st.p.V["list"] = k, v
				sv := st.p.V["s"]
				st.p.V["lim0"], st.p.V["load0"] = s.look(e, st, sv, s.limit, k), s.look(e, st, sv, s.load, k)
			} else {
				// looking for waiting tasks before anything completed
				if st.p.V["scan"] != nil {
					_, hi := e.interval(st, e.lenOf(st.p.V["scan"]))
					if hi >= 1 {
						st.p.F["busy"] = "1"
					}
				}
				st.p.V["scan"] = v
			}
		case prefix(st, over) != nil:
			endCopy(e, st, pos)
			st.p.V["cp"], st.p.V["cpi"] = v, k
		}
	}
	lt.OnEnd = func(e *Engine, st *State, l *Loop, over *Val) {
		pos := instrPos(l.head.Instrs[0])
		switch {
		case targets != nil && over == targets:
			endTarget(e, st, pos)
			st.p.F["targets"] = "1"
		case tasks != nil && over == tasks:
			endTask(e, st, pos)
			for _, k := range []string{"placed", "deps"} {
				if st.p.F["some-not-"+k] == "" {
					st.p.F["all-"+k] = "1"
				}
				delete(st.p.F, "some-not-"+k)
			}
			st.p.F["tasks"] = "1"
		case over == st.p.V["ready"]:
			endReady(e, st, pos)
			st.p.F["filled"] = "1"
			delete(st.p.F, "built")
		case isQueueMap(e, st, over):
			if st.p.F["filled"] != "" {
				endQueue(e, st, pos)
				st.p.F["built"] = "1"
			} else {
				if st.p.V["scan"] != nil {
					if _, hi := e.interval(st, e.lenOf(st.p.V["scan"])); hi >= 1 {
						st.p.F["busy"] = "1"
					}
				}
				delete(st.p.V, "scan")
				st.p.F["scanned"] = "1"
			}
		case prefix(st, over) != nil:
			endCopy(e, st, pos)
			st.p.V["copiedAll"] = over
			delete(st.p.V, "cp")
			delete(st.p.V, "cpi")
		}
	}
	h.Branch = func(e *Engine, st *State, in *ssa.If, cond *Val, taken bool) {
		lt.Branch(e, st, in, taken)
		if st.p.F["scanned"] != "" && st.p.F["busy"] != "" && s.sumIsZero(e, st) {
			delete(st.p.F, "busy")
		}
		if st.p.V["q"] != nil && st.p.F["given"] == "" && st.p.F["idle"] == "" && idle(e, st) {
			st.p.F["idle"] = "1"
		}
	}

	h.AfterCall = func(e *Engine, ev *CallEvent, res *Val) {
		st := ev.st
		pos := instrPos(ev.instr)
		if ev.invoke && ev.instr.Common().Method.Name() == "ConcurrencyLimit" {
			st.p.put("limits", res, "")
			if tv := st.p.V["tv"]; tv == nil || unwrap(ev.args[0]) != unwrap(tv) {
				s.fail(e, st, "R05", "limit-of-other", pos, "the concurrency limit of another target is used")
			}
		}
		switch ev.name {
		case dagNewName:
			if st.p.F["tasks"] == "" {
				s.fail(e, st, "R02 R14", "deps-incomplete", pos, "the dependency graph is built before the dependencies of all tasks were collected")
			}
			if st.p.F["tasks"] != "" && st.p.F["all-deps"] == "" {
				s.fail(e, st, "R02 R14", "deps-missing", pos, "the dependencies of a task are not passed on")
			}
			if st.p.V["deps"] != nil && ev.args[0] != st.p.V["deps"] {
				s.fail(e, st, "R02 R14", "deps-other", pos, "the dependency graph is built from something else than the dependencies of the tasks")
			}
			st.p.V["dag"], st.p.V["dagerr"] = res.a[0], res.a[1]
		case dagReadyName, dagNextName:
			if isNew && (st.p.F["all-deps"] == "" || st.p.V["dag"] == nil) {
				s.fail(e, st, "R02 R14", "deps-missing", pos, "the dependencies of a task are not passed on")
			}
			if isNew && (st.p.V["dag"] == nil || ev.args[0] != st.p.V["dag"]) {
				s.fail(e, st, "R02 R14", "graph-other", pos, "ready tasks are asked from another graph")
			}
			if ev.name == dagNextName {
				if isNew || completed == nil || unwrapConv(ev.args[1]) != completed {
					if !isNew {
						s.fail(e, st, "R02", "completes-other", pos, "a task other than the one that completed is marked as completed")
					} else if k, ok := constStr(ev.args[1]); !ok || k != "" {
						s.fail(e, st, "R02", "completes-other", pos, "a task is marked as completed before it was started")
					}
				}
				st.p.F["completed"] += "1"
			}
			if st.p.V["ready"] != nil {
				s.fail(e, st, "R14", "ready-twice", pos, "the tasks that became ready are asked for again before they were queued")
			}
			st.p.V["ready"] = res
			st.p.F["asked"] = "1"
		case dagPendName:
			st.p.V["haspending"] = res
		}
	}
	h.Append = func(e *Engine, st *State, in ssa.CallInstruction, base, items, res *Val) {
		lt.Append(e, st, base, items, res)
		its := e.sliceItems(st, items)
		if r := st.p.V["r"]; r != nil && len(its) == 1 && unwrapConv(its[0]) == r {
			st.p.V["qbase"], st.p.V["qres"], st.p.V["qitem"] = base, res, r
			return
		}
		// copying the tasks that are handed out, one by one
		if cp := st.p.V["cp"]; cp != nil && len(its) == 1 && unwrapConv(its[0]) == cp {
			_, isAcc := st.p.get("acc", base)
			if isAcc || s.empty(e, st, base) {
				st.p.put("acc", res, "")
				st.p.F["copied"] = "1"
			}
		}
	}
	h.Store = func(e *Engine, st *State, in *ssa.Store, addr, val *Val) {
		if addr.op == OpFieldAddr && addr.a[0].op == OpAlloc && st.p.V["s"] == nil && isField(addr, s.typ, addr.aux.(int)) {
			st.p.V["s"] = addr.a[0]
		}
		if cp := st.p.V["cp"]; cp != nil && addr.op == OpIndexAddr && addr.a[0].op != OpAlloc {
			dst := addr.a[0]
			if unwrapConv(val) == cp && addr.a[1] == st.p.V["cpi"] {
				st.p.put("dst", dst, "")
				st.p.F["copied"] = "1"
			} else {
				s.fail(e, st, "R13 R14", "copy-wrong", instrPos(in), "the tasks that are handed out are not the ones that were taken from the queue")
			}
		}
	}
	checkN := func(e *Engine, st *State, n *Val, pos token.Pos) {
		if o := st.p.V["n"]; o != nil {
			if o != n {
				s.fail(e, st, "R13 R14 R05", "split-count", pos, "the numbers of tasks that are taken from the queue, handed out and counted differ")
			}
			return
		}
		st.p.V["n"] = n
		free := e.binop(token.SUB, st.p.V["lim0"], st.p.V["load0"], it, it)
		ln := e.lenOf(st.p.V["list"])
		if !le(e, st, n, free) {
			s.fail(e, st, "R05", "over-limit", pos, "more tasks can be handed out than the target has free slots")
		}
		if n != free && n != ln {
			s.fail(e, st, "R14", "under-limit", pos, "fewer tasks are handed out than there are free slots and waiting tasks")
		}
		if !le(e, st, n, ln) {
			s.fail(e, st, "R14 R13", "over-queue", pos, "more tasks are handed out than are waiting")
		}
	}
	h.PreMapUpdate = func(e *Engine, st *State, in *ssa.MapUpdate, m, k, v *Val) {
		pos := instrPos(in)
		f := s.mapOf(e, st, m)
		sv := st.p.V["s"]
		var old *Val
		if sv != nil && (f == s.load || f == s.pending) {
			old = s.look(e, st, sv, f, k)
		}
		k = unwrapConv(k)
		switch {
		case f == s.limit && sv != nil:
			_, isLim := st.p.get("limits", v)
			if st.p.V["t"] == nil || k != st.p.V["t"] || !isLim {
				s.fail(e, st, "R05", "limit-changed", pos, "the recorded limit of a target is not its concurrency limit")
				return
			}
			st.p.F["limited"] = "1"
			s.ok(e, "R05", "limit recorded", in)
		case f == s.load && sv != nil:
			s.loadUpdate(e, st, in, k, v, old, completed, checkN)
		case f == s.tasks && sv != nil:
			kv := st.p.V["kv"]
			if kv == nil || k != st.p.V["k"] || !s.isTaskField(e, st, unwrapConv(v), kv, "Target") {
				s.fail(e, st, "R05 R14", "target-wrong", pos, "a task is recorded for another target than its own")
				return
			}
			st.p.F["placed"] = "1"
		case f == s.pending && sv != nil:
			if st.p.V["q"] != nil {
				// cutting a queue
				list := st.p.V["list"]
				if k != st.p.V["q"] {
					s.fail(e, st, "R13 R14", "cut-other", pos, "the queue of another target is changed")
					return
				}
				n := (*Val)(nil)
				if v.op == OpSlice && v.a[0] == list && v.aux == "l" {
					n = v.a[1]
				} else if st.p.V["n"] == e.lenOf(list) && s.empty(e, st, v) {
					n = st.p.V["n"]
				}
				if n == nil {
					s.fail(e, st, "R13 R14", "cut-wrong", pos, "what remains in the queue is not what was not handed out")
					return
				}
				checkN(e, st, n, pos)
				st.p.F["cut"] = "1"
				s.ok(e, "R13", "handed out tasks leave the queue", in)
				return
			}
			// queueing a ready task
			r := st.p.V["r"]
			if r == nil || st.p.V["qres"] == nil || v != st.p.V["qres"] || st.p.V["qitem"] != r {
				if s.empty(e, st, v) && st.p.V["scan"] != nil {
					return
				}
				s.fail(e, st, "R02 R13", "queue-wrong", pos, "something is queued that is not a task that became ready")
				return
			}
			if want := s.look(e, st, sv, s.tasks, r); k != want {
				s.fail(e, st, "R05 R14", "queue-other", pos, "a task is queued for another target than its own")
				return
			}
			if b := st.p.V["qbase"]; b != old {
				s.fail(e, st, "R14", "queue-lost", pos, "tasks that were waiting are forgotten")
				return
			}
			for _, x := range []string{"r", "qres", "qbase", "qitem"} {
				delete(st.p.V, x)
			}
			s.ok(e, "R14", "ready task queued", in)
			s.ok(e, "R02", "only ready tasks queued", in)
		default:
			// a local map: dependencies, or the result
			kv := st.p.V["kv"]
			if kv != nil && k == st.p.V["k"] && m.typ != nil && !s.isSched(m) {
				if s.isTaskField(e, st, v, kv, "After") {
					st.p.F["deps"] = "1"
					st.p.V["deps"] = m
				} else if _, ok := v.typ.(types.Type); ok || true {
					s.fail(e, st, "R02 R14", "deps-wrong", pos, "the dependencies of a task are not passed on unchanged")
				}
				return
			}
			if st.p.V["q"] != nil {
				if k != st.p.V["q"] {
					s.fail(e, st, "R14 R05", "given-other", pos, "tasks are handed out for another target than their own")
					return
				}
				n := s.givenLen(e, st, v, prefix)
				if n == nil {
					s.fail(e, st, "R13 R14", "given-wrong", pos, "what is handed out is not the beginning of the queue")
					return
				}
				checkN(e, st, n, pos)
				if st.p.F["given"] != "" {
					s.fail(e, st, "R13", "given-twice", pos, "tasks are handed out twice")
				}
				st.p.F["given"] = "1"
				st.p.V["result"] = m
				s.ok(e, "R05", "handed out within the free slots", in)
			}
		}
	}
	h.Delete = func(e *Engine, st *State, in ssa.CallInstruction, m, k *Val) {
		f := s.mapOf(e, st, m)
		if f < 0 {
			return
		}
		if f == s.pending {
			list := st.p.V["scan"]
			if list == nil {
				list = st.p.V["list"]
			}
			if list != nil {
				if _, hi := e.interval(st, e.lenOf(list)); hi < 1 {
					return
				}
			}
		}
		s.fail(e, st, "R05 R13 R14 R02", "state-removed", instrPos(in), "the scheduler forgets tasks, limits or loads")
	}
	h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
		pos := instrPos(in)
		err := errResult(res)
		if e.KnownNonNil(st, err) {
			if isNew {
				if de := st.p.V["dagerr"]; de == nil || !e.KnownNonNil(st, de) {
					s.fail(e, st, "R14", "false-error", pos, "the scheduler fails although the dependency graph is valid")
				}
				return
			}
			hp := st.p.V["haspending"]
			if hp == nil || e.Decide(st, hp) != 0 || st.p.F["scanned"] == "" || st.p.F["busy"] != "" {
				s.fail(e, st, "R14 R01", "gives-up", pos, "the scheduler ends although tasks may be waiting")
			}
			s.ok(e, "R14", "ends only without waiting tasks", in)
			return
		}
		if isNew {
			if de := st.p.V["dagerr"]; de == nil || !e.KnownNil(st, de) {
				s.fail(e, st, "R12 R14", "error-dropped", pos, "an invalid dependency graph is accepted")
			}
			if st.p.F["targets"] == "" || st.p.F["tasks"] == "" {
				s.fail(e, st, "R05 R14", "init-incomplete", pos, "not all targets and tasks are taken over")
			} else if st.p.F["all-placed"] == "" {
				s.fail(e, st, "R14 R05", "target-missing", pos, "it is not recorded which target a task belongs to")
			}
		} else {
			if st.p.F["completed"] != "1" {
				s.fail(e, st, "R14 R02", "not-completed", pos, "the completed task is not reported to the dependency graph exactly once")
			}
			if st.p.F["released"] != "1" {
				s.fail(e, st, "R14 R05", "not-released", pos, "the slot of the completed task is not freed exactly once")
			}
		}
		if !e.KnownNil(st, err) {
			s.fail(e, st, "R14", "error-unknown", pos, "it cannot be told whether the scheduler fails")
		}
		if st.p.F["asked"] == "" || st.p.F["filled"] == "" {
			s.fail(e, st, "R14", "not-filled", pos, "the tasks that became ready are not all queued")
		}
		if st.p.F["built"] == "" {
			s.fail(e, st, "R14", "not-built", pos, "not every queue is examined for tasks that can be handed out")
		}
		s.ok(e, "R14", "all queues examined", in)
		ri := 0
		if isNew {
			ri = 1
		}
		if r := st.p.V["result"]; r != nil && res[ri] != r {
			s.fail(e, st, "R14 R13", "other-result", pos, "the tasks that were taken from the queues are not what is returned")
		}
	}
	p := newP()
	if recv != nil {
		p.V["s"] = recv
	}
	e := NewEngine(c.Program, h)
	e.Run(e.Start(root, nil, p, root.Name()))
	c.Merge(e, "scheduler."+root.Name())
}

// sumIsZero: the lengths of all queues were added up, and the sum is zero.
func (s *schedA) sumIsZero(e *Engine, st *State) bool {
	for _, f := range st.frames {
		for r, v := range f.regs {
			phi, ok := r.(*ssa.Phi)
			if !ok || !isIntTyped(phi.Type()) || v == nil {
				continue
			}
			if _, hi := e.interval(st, v); hi < 1 && s.sumOfQueues(phi) {
				return true
			}
		}
	}
	return false
}

// sumOfQueues: every round of a loop over the queues adds the length of one.
func (s *schedA) sumOfQueues(phi *ssa.Phi) bool {
	l := loopOf(Loops(phi.Parent()), phi.Block())
	if l == nil || l.head != phi.Block() {
		return false
	}
	for i, ed := range phi.Edges {
		if !l.blocks[phi.Block().Preds[i]] {
			if c, ok := ed.(*ssa.Const); !ok || c.Value == nil || c.Int64() < 0 {
				return false
			}
			continue
		}
		b, ok := ed.(*ssa.BinOp)
		if !ok || b.Op != token.ADD {
			return false
		}
		o := b.Y
		if b.X != ssa.Value(phi) {
			if o = b.X; b.Y != ssa.Value(phi) {
				return false
			}
		}
		call, ok := o.(*ssa.Call)
		if !ok {
			return false
		}
		if bi, ok := call.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
			return false
		}
		ex, ok := call.Call.Args[0].(*ssa.Extract)
		if !ok || ex.Index != 2 {
			return false
		}
		nx, ok := ex.Tuple.(*ssa.Next)
		if !ok || nx.Block() != l.head {
			return false
		}
		rg, ok := nx.Iter.(*ssa.Range)
		if !ok {
			return false
		}
		ld, ok := rg.X.(*ssa.UnOp)
		if !ok || ld.Op != token.MUL {
			return false
		}
		fa, ok := ld.X.(*ssa.FieldAddr)
		if !ok || fa.Field != s.pending || !types.Identical(derefType(fa.X.Type()), s.typ) {
			return false
		}
	}
	return true
}

func (s *schedA) isSched(m *Val) bool { return m.op == OpLoad && m.a[0].op == OpFieldAddr }

func (s *schedA) empty(e *Engine, st *State, x *Val) bool { return e.emptySlice(st, x) }

// isTaskField: v is the named field of the task.
func (s *schedA) isTaskField(e *Engine, st *State, v, task *Val, name string) bool {
	t := derefStruct(task.typ)
	if t == nil {
		return false
	}
	for i := 0; i < t.NumFields(); i++ {
		if t.Field(i).Name() == name {
			return loadField(e, st, task, i) == v
		}
	}
	return false
}

// loadUpdate: the load grows by what is handed out and shrinks by one for the
// completed task.
func (s *schedA) loadUpdate(e *Engine, st *State, in *ssa.MapUpdate, k, v, old, completed *Val, checkN func(*Engine, *State, *Val, token.Pos)) {
	pos := instrPos(in)
	it := types.Typ[types.Int]
	sv := st.p.V["s"]
	if st.p.V["q"] != nil {
		if k != st.p.V["q"] {
			s.fail(e, st, "R05", "count-other", pos, "tasks that are handed out are counted for another target")
			return
		}
		var n *Val
		if old != nil {
			for _, cand := range []*Val{st.p.V["n"], e.lenOf(st.p.V["list"]), e.binop(token.SUB, st.p.V["lim0"], old, it, it)} {
				if cand != nil && (e.binop(token.ADD, old, cand, it, it) == v || e.binop(token.ADD, cand, old, it, it) == v) {
					n = cand
					break
				}
			}
		}
		if n == nil {
			s.fail(e, st, "R05", "count-wrong", pos, "the load of a target does not grow by the number of tasks that are handed out")
			return
		}
		if old != st.p.V["load0"] && st.p.F["counted"] == "" {
			s.fail(e, st, "R05", "count-base", pos, "the load of the target changed before the tasks that are handed out are counted")
		}
		checkN(e, st, n, pos)
		if st.p.F["counted"] != "" {
			s.fail(e, st, "R14", "count-twice", pos, "tasks that are handed out are counted twice")
		}
		st.p.F["counted"] = "1"
		s.ok(e, "R05", "load counted", in)
		return
	}
	if st.p.V["t"] != nil && k == st.p.V["t"] {
		if n, ok := constInt(v); !ok || n != 0 {
			s.fail(e, st, "R05 R14", "load-initial", pos, "a target starts with a load other than zero")
		}
		return
	}
	if completed != nil && k == s.look(e, st, sv, s.tasks, completed) {
		if old == nil || v != e.binop(token.SUB, old, e.cint(1), it, it) {
			s.fail(e, st, "R05 R14", "release-wrong", pos, "the load of the target does not shrink by one for a completed task")
		}
		if st.p.F["built"] != "" {
			s.fail(e, st, "R14", "release-late", pos, "the slot of the completed task is freed after tasks were handed out")
		}
		st.p.F["released"] += "1"
		return
	}
	s.fail(e, st, "R05 R14", "load-changed", pos, "the load of a target is changed although none of its tasks completed or is handed out")
}

// givenLen: the number of tasks of the queue a slice consists of.
func (s *schedA) givenLen(e *Engine, st *State, v *Val, prefix func(*State, *Val) *Val) *Val {
	all := st.p.V["copiedAll"]
	if all == nil {
		return nil
	}
	n := prefix(st, all)
	if n == nil {
		return nil
	}
	if _, ok := st.p.get("acc", v); ok {
		return n
	}
	if _, ok := st.p.get("dst", v); ok {
		if l, ok := st.mem[e.in.mk(OpPure, types.Typ[types.Int], "lenof", v)]; ok && l == n {
			return n
		}
	}
	return nil
}

// limits: every target that passes its validation has a limit of at least one.
func limits(c *Ctx) {
	tgt := c.Type(runPkg+"/types", "Target")
	if tgt == nil {
		return
	}
	n := 0
	for _, t := range c.typesImplementing(tgt.Underlying().(*types.Interface)) {
		cl, an := c.methodOf(t, "ConcurrencyLimit"), c.methodOf(t, "Analyze")
		if cl == nil || an == nil {
			continue
		}
		n++
		name := t.Obj().Pkg().Name() + "." + t.Obj().Name()
		// the limit is a constant or a field that nothing but decoding changes
		field, least := -1, int64(1)<<40
		h := &Hooks{}
		h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
			if k, ok := constInt(res[0]); ok {
				if k < least {
					least = k
				}
				return
			}
			if v := unwrapConv(res[0]); v.op == OpLoad && v.a[0].op == OpFieldAddr && v.a[0].a[0].op == OpParam {
				field = v.a[0].aux.(int)
				if lo, _ := e.interval(st, v); lo >= 1 {
					field = -2
				}
				return
			}
			e.Report(st, "limit-unknown:"+name, instrPos(in), "the concurrency limit of %s cannot be determined", name)
		}
		e := NewEngine(c.Program, h)
		e.Run(e.Start(cl, nil, newP(), "limit"))
		c.Merge(e, name+".ConcurrencyLimit")
		if least < 1 {
			c.Fail("limit-zero:"+name, cl.Pos(), "the concurrency limit of %s is below one", name)
		}
		c.OK("limit at least one", name)
		if field < 0 {
			continue
		}
		recv := c.in.mk(OpParam, an.Params[0].Type(), ssa.Value(an.Params[0]))
		h = &Hooks{}
		h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
			if e.KnownNonNil(st, res[0]) {
				return
			}
			lo, _ := e.interval(st, loadField(e, st, recv, field))
			if lo < 1 {
				e.Report(st, "limit-unchecked:"+name, instrPos(in), "%s passes its validation although its concurrency limit may be below one", name)
			}
		}
		e = NewEngine(c.Program, h)
		e.Run(e.Start(an, nil, newP(), "analyze"))
		c.Merge(e, name+".Analyze")
		// nothing else changes it
		for _, fn := range c.all {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					fa, ok := in.(*ssa.FieldAddr)
					if !ok || fa.Field != field || !types.Identical(derefType(fa.X.Type()), t) || fn == an {
						continue
					}
					_, fresh := fa.X.(*ssa.Alloc)
					for _, r := range *fa.Referrers() {
						switch r := r.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
							continue
						case *ssa.Store:
							if fresh && r.Addr == ssa.Value(fa) {
								continue
							}
						}
						c.Fail("limit-changes:"+name, instrPos(r), "the concurrency limit of %s is changed after its validation", name)
					}
				}
			}
		}
	}
	if n == 0 {
		c.Fail("anchor:targets", token.NoPos, "no target was found")
	}
	c.Floor("limit at least one", 1)
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func init() {
	tech := "static analysis: path-sensitive abstract interpretation of SSA with ghost state"
	register(&Check{ID: "R14", Technique: tech, Explanation: `The dependency graph and the scheduler are interpreted over symbolic values. For the graph, a frontier over the linked list of remaining tasks only moves over a task that is handed out or known to wait, and must have reached the end when the function returns. For the scheduler, every traversal has to be complete, and in each step of handing out either nothing is waiting, no slot is free, or as many tasks as fit are taken from the queue, returned and counted.`,
		Assumptions: []string{"ConcurrencyLimit returns the same value during a run", "task and target IDs are distinct within a runbook (they are map keys)"},
		Run:         func(c *Ctx) { runDagNext(c); dagConstruction(c); runSched(c) }})
	register(&Check{ID: "R13", Technique: tech, Explanation: `Every task that the dependency graph hands out must be unlinked from the list of remaining tasks before the function returns, and every task that is handed out by the scheduler must have been cut from its queue.`,
		Assumptions: []string{"task IDs are distinct within a runbook (they are map keys)"},
		Run:         func(c *Ctx) { runDagNext(c); dagConstruction(c); runSched(c); runRunner(c) }})
	register(&Check{ID: "G01", Technique: tech, Explanation: `Construction and sorting are interpreted over symbolic values: every edge is examined and kept in both directions, errors are returned exactly when a dangling edge or a cycle is known on the path, and the depth first search marks, finishes and appends every node in the order the proof of the algorithm needs (marked before its dependencies are visited, finished only after all of them, a cycle exactly if a marked node is reached again).`,
		Run: runGraph})
}

func dagConstruction(c *Ctx) {
	nd := c.NeedFunc(dagPkg, "NewDirectedGraph")
	ng := c.NeedFunc(dagPkg, "NewDependencyGraph")
	ts := c.NeedFunc(dagPkg, "TSort")
	d := newDag(c)
	if nd == nil || ng == nil || ts == nil || d == nil {
		return
	}
	d.construction(ng, nd, ts)
}
