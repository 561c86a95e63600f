package main

// R01-R05, R12: the runbook runner.
//
// The analysis starts at runbook.Run and follows every goroutine it starts.
// Channels are identified by where they are made, targets and tasks by the
// interface methods that are invoked on them; names inside the runner do not
// matter.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type runnerA struct {
	c      *Ctx
	id     string // property whose rules are reported
	org    *Origins
	cls    map[*ssa.MakeChan]string
	loops  map[*ssa.Function][]*Loop
	phase  int
	target *types.Named // interface types.Target

	// roles of the fields of the message that hands a task out
	idField, tgtField, cfgField int
	recvIn                      map[string]map[string]bool // class -> roots that receive
	sendIn                      map[string]map[string]bool // class -> roots that send
	closeIn                     map[string]map[string]bool
	undrained                   map[string]token.Pos
	kinds                       map[string]bool // root kinds seen
	doneClass                   string
}

const runPkg = "internal/runbook"

func (r *runnerA) fail(e *Engine, st *State, ids, key string, pos token.Pos, f string, a ...interface{}) {
	if r.phase == 0 || !strings.Contains(ids, r.id) {
		return
	}
	e.Report(st, key, pos, f, a...)
}

func (r *runnerA) ok(e *Engine, ids, rule string, in ssa.Instruction) {
	if r.phase > 0 && strings.Contains(ids, r.id) {
		e.Site(rule, in)
	}
}

func (r *runnerA) class(v ssa.Value) string {
	ms := r.org.Of(v)
	if len(ms) != 1 {
		return ""
	}
	return r.cls[ms[0]]
}

func (r *runnerA) makeOf(v ssa.Value) *ssa.MakeChan {
	ms := r.org.Of(v)
	if len(ms) != 1 {
		return nil
	}
	return ms[0]
}

func (r *runnerA) loopsOf(fn *ssa.Function) []*Loop {
	l, ok := r.loops[fn]
	if !ok {
		l = Loops(fn)
		r.loops[fn] = l
	}
	return l
}

// targetCall: an invocation of a method of the target interface.
func (r *runnerA) targetCall(c *ssa.CallCommon) string {
	if !c.IsInvoke() {
		return ""
	}
	if types.Identical(c.Value.Type().Underlying(), r.target.Underlying()) {
		return c.Method.Name()
	}
	return ""
}

// handler: root functions that run tasks.
func (r *runnerA) reaches(fn *ssa.Function, method string) bool {
	for f := range r.c.staticReach(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && r.targetCall(ci.Common()) == method {
					return true
				}
			}
		}
	}
	return false
}

func (r *runnerA) reachesCall(fn *ssa.Function, names ...string) bool {
	for f := range r.c.staticReach(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if callee := ci.Common().StaticCallee(); callee != nil {
						for _, n := range names {
							if callee.String() == n {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

const (
	schedNew  = Module + "/internal/runbook/scheduler.New"
	schedNext = "(*" + Module + "/internal/runbook/scheduler.Scheduler).Next"
	wgAdd     = "(*sync.WaitGroup).Add"
	wgDone    = "(*sync.WaitGroup).Done"
	wgWait    = "(*sync.WaitGroup).Wait"
)

func runRunner(c *Ctx) {
	id := c.check.ID
	root := c.NeedFunc(runPkg, "Run")
	tgt := c.Type(runPkg+"/types", "Target")
	if root == nil || tgt == nil {
		if tgt == nil {
			c.Fail("anchor:types.Target", token.NoPos, "the interface of targets was not found")
		}
		return
	}
	r := &runnerA{c: c, id: id, org: ChanOrigins(c.Program), cls: map[*ssa.MakeChan]string{}, loops: map[*ssa.Function][]*Loop{}, target: tgt,
		idField: -1, tgtField: -1, cfgField: -1,
		recvIn: map[string]map[string]bool{}, sendIn: map[string]map[string]bool{}, closeIn: map[string]map[string]bool{},
		undrained: map[string]token.Pos{}, kinds: map[string]bool{}}
	n := map[string]int{}
	for _, fn := range c.all {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if m, ok := in.(*ssa.MakeChan); ok {
					k := fmt.Sprintf("chan %s made in %s", types.TypeString(m.Type().Underlying().(*types.Chan).Elem(), func(p *types.Package) string { return p.Name() }), fn.Name())
					n[k]++
					if n[k] > 1 {
						k += fmt.Sprintf(" (%d)", n[k])
					}
					r.cls[m] = k
				}
			}
		}
	}
	for r.phase = 0; r.phase < 2; r.phase++ {
		e := NewEngine(c.Program, r.hooks())
		p := newP()
		e.Run(e.Start(root, nil, p, "main"))
		if r.phase == 1 {
			c.Merge(e, "runbook.Run")
			if id == "R03" {
				r.protocol(e)
			}
		} else if e.exceeded {
			c.Merge(e, "runbook.Run")
			return
		}
	}
	for _, k := range []string{"scheduler", "router", "target"} {
		if !r.kinds[k] {
			c.Fail("anchor:"+k, root.Pos(), "no goroutine with the role %q was found in the runner", k)
		}
	}
}

func (r *runnerA) relevant(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.MakeChan, *ssa.Send, *ssa.Select, *ssa.Go:
		return true
	case *ssa.UnOp:
		return x.Op == token.ARROW
	case ssa.CallInstruction:
		c := x.Common()
		switch r.targetCall(c) {
		case "Start", "Stop", "Handle":
			return true
		}
		if isBuiltin(c.Value) && c.Value.Name() == "close" {
			return true
		}
		if f := c.StaticCallee(); f != nil {
			switch f.String() {
			case schedNew, schedNext, wgAdd, wgDone, wgWait:
				return true
			}
		}
	}
	return false
}

func mark(m map[string]map[string]bool, k, v string) {
	if m[k] == nil {
		m[k] = map[string]bool{}
	}
	m[k][v] = true
}

// rootKind names the role of a goroutine by what it does.
func (r *runnerA) kindOf(fn *ssa.Function) string {
	switch {
	case r.reaches(fn, "Handle"):
		return "target"
	case r.reachesCall(fn, schedNext):
		return "scheduler"
	case r.reachesCall(fn, wgWait):
		return "router"
	}
	return "other:" + fn.Name()
}

// structOf: the struct a message value points to.
func structOf(t types.Type) *types.Struct { return derefStruct(t) }

// field reads a field of a message (a pointer to a struct, or a struct).
func (r *runnerA) field(e *Engine, st *State, msg *Val, t types.Type, i int) *Val {
	s := structOf(t)
	if s == nil || i < 0 || i >= s.NumFields() {
		return nil
	}
	ft := s.Field(i).Type()
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return e.load(st, e.in.mk(OpFieldAddr, types.NewPointer(ft), i, msg), ft)
	}
	return e.fieldOf(msg, i, ft)
}

func errFieldOf(t types.Type) int {
	if s := structOf(t); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			if types.TypeString(s.Field(i).Type(), nil) == "error" {
				return i
			}
		}
	}
	return -1
}

func strFieldOf(t types.Type) int {
	if s := structOf(t); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			if isStr(s.Field(i).Type()) {
				return i
			}
		}
	}
	return -1
}

func (r *runnerA) hooks() *Hooks {
	h := &Hooks{Opaque: r.c.Irrelevant(r.relevant)}
	root := func(st *State) string { return st.root }

	h.Call = func(e *Engine, c *CallEvent) (*Val, bool) {
		st := c.st
		cc := c.instr.Common()
		switch m := r.targetCall(cc); m {
		case "Start":
			r.checkStarted(e, st, c.instr)
			if st.p.F["startfailed"] != "" {
				r.fail(e, st, "R04", "start-after-failure", instrPos(c.instr), "a target is started although another one failed to start")
			}
			r.ok(e, "R04 R03", "target started", c.instr)
		case "Handle":
			r.handle(e, c)
		case "Stop":
			if root(st) != "target" {
				r.fail(e, st, "R04", "stop-elsewhere", instrPos(c.instr), "a target is stopped outside the goroutine that runs its tasks")
			}
			if st.p.F["stopped"] != "" {
				r.fail(e, st, "R04", "stop-twice", instrPos(c.instr), "a target is stopped twice")
			}
			if _, ok := st.p.get("started", unwrap(c.args[0])); !ok {
				r.fail(e, st, "R04", "stop-not-started", instrPos(c.instr), "Stop is called on a target that is not known to have been started successfully")
			}
			st.p.F["stopped"] = "1"
			r.ok(e, "R04", "target stopped", c.instr)
		}
		switch c.name {
		case wgAdd:
			if k, ok := constInt(c.args[1]); !ok || k != 1 {
				r.fail(e, st, "R03", "wg-add", instrPos(c.instr), "the wait group is increased by an amount that is not 1 per goroutine")
			}
			if st.p.F["wg"] != "" {
				r.fail(e, st, "R03", "wg-add-unused", instrPos(c.instr), "the wait group is increased twice for one goroutine")
			}
			st.p.F["wg"] = "1"
			r.ok(e, "R03 R04", "wait group", c.instr)
		case wgDone:
			if st.p.F["wgdone"] != "" {
				r.fail(e, st, "R03", "wg-done-twice", instrPos(c.instr), "a goroutine reports its end twice")
			}
			if root(st) == "target" && st.p.F["stopped"] == "" {
				r.fail(e, st, "R04", "done-before-stop", instrPos(c.instr), "the goroutine of a target reports its end before the target was stopped")
			}
			st.p.F["wgdone"] = "1"
			r.ok(e, "R03 R04", "wait group", c.instr)
		case wgWait:
			st.p.F["waited"] = "1"
			r.ok(e, "R03 R04", "wait group", c.instr)
		case schedNew:
			if st.p.F["go"] != "" {
				r.fail(e, st, "R12", "validate-late", instrPos(c.instr), "the graph is validated after goroutines were started")
			}
		case schedNext:
			if v := st.p.V["recv:sched"]; v == nil || unwrap(c.args[1]) != unwrap(v) {
				r.fail(e, st, "R02 R03 R05", "next-arg", instrPos(c.instr), "the scheduler is told about the completion of something that is not the task received from the channel of completed tasks")
			}
			delete(st.p.V, "recv:sched")
			r.ok(e, "R02 R03", "completion passed to the scheduler", c.instr)
		}
		return nil, false
	}
	h.AfterCall = func(e *Engine, c *CallEvent, res *Val) {
		st := c.st
		switch r.targetCall(c.instr.Common()) {
		case "Start":
			st.p.V["starterr"] = res
			st.p.V["starttgt"] = unwrap(c.args[0])
			delete(st.p.F, "launched")
		case "Handle":
			st.p.V["handled"] = res
			st.p.put("results", res, "")
		}
		switch c.name {
		case schedNew:
			st.p.F["new"] = "1"
			if res.op == OpTuple {
				st.p.V["newerr"] = res.a[len(res.a)-1]
				st.p.V["ready"] = res.a[1]
			}
		case schedNext:
			if res.op == OpTuple {
				st.p.V["nexterr"] = res.a[1]
				st.p.V["ready"] = res.a[0]
			}
		}
	}

	h.Go = func(e *Engine, c *CallEvent) {
		st := c.st
		fn, _ := e.callable(c.fnVal)
		if fn == nil {
			r.fail(e, st, "R01 R02 R03 R04 R05 R12", "go-unknown", instrPos(c.instr), "a goroutine is started whose body cannot be determined")
			return
		}
		kind := r.kindOf(fn)
		r.kinds[kind] = true
		if st.p.V["newerr"] == nil || !e.KnownNil(st, st.p.V["newerr"]) {
			r.fail(e, st, "R12", "go-before-validate:"+kind, instrPos(c.instr), "a goroutine (%s) is started before the dependency graph is known to be valid", kind)
		} else {
			r.ok(e, "R12", "goroutine started after validation", c.instr)
		}
		if root(st) == "target" || kind == "target" && root(st) != "main" {
			r.fail(e, st, "R04 R05", "nested-go", instrPos(c.instr), "tasks are run in a goroutine of their own: nothing bounds how many of them run at the same time, and the target can be stopped while they run")
		}
		if kind == "target" {
			ev := st.p.V["starterr"]
			if ev == nil || !e.KnownNil(st, ev) {
				r.fail(e, st, "R04", "go-not-started", instrPos(c.instr), "the goroutine that runs tasks is started although the target is not known to have been started")
			} else {
				st.p.put("started", st.p.V["starttgt"], "")
				r.ok(e, "R04 R05", "task goroutine started", c.instr)
			}
			if st.p.F["launched"] != "" {
				r.fail(e, st, "R05", "go-twice", instrPos(c.instr), "two goroutines run the tasks of one target")
			}
			st.p.F["launched"] = "1"
		}
		if r.reachesCall(fn, wgDone) {
			if st.p.F["wg"] == "" {
				r.fail(e, st, "R03 R04", "wg-missing:"+kind, instrPos(c.instr), "a goroutine that reports its end to a wait group is started without being added to it first")
			}
			delete(st.p.F, "wg")
		}
		st.p.F["go"] = "1"
		p := newP()
		for _, k := range []string{"startfailed", "tasks"} {
			if st.p.F[k] != "" {
				p.F[k] = st.p.F[k]
			}
		}
		if ev := st.p.V["starterr"]; ev != nil && e.KnownNonNil(st, ev) {
			p.F["startfailed"] = "1"
		} else if ev != nil && !e.KnownNil(st, ev) {
			r.fail(e, st, "R04 R01", "start-unchecked", instrPos(c.instr), "the result of starting a target is not examined")
		}
		if kind == "target" && st.p.V["starttgt"] != nil {
			p.put("started", st.p.V["starttgt"], "")
		}
		if kind == "scheduler" && st.p.V["ready"] != nil {
			p.V["ready"] = st.p.V["ready"]
		}
		if v := st.p.V["newerr"]; v != nil {
			p.V["newerr"] = v
		}
		if !e.AddRoot(st, c.fnVal, c.args, kind, p) {
			r.fail(e, st, "R03", "go-nobody", instrPos(c.instr), "the body of a goroutine is not available")
		}
	}

	h.Recv = func(e *Engine, st *State, in ssa.Instruction, ch, v, ok *Val) {
		cv := recvChan(in)
		k := r.class(cv)
		if k == "" {
			r.fail(e, st, "R03", "recv-unknown", instrPos(in), "the channel that is received from cannot be determined")
			return
		}
		mark(r.recvIn, k, root(st))
		if last := st.p.V["ok:"+k]; last != nil && e.Decide(st, last) == 0 && ok != nil {
			// nothing arrives on a channel that was closed
			e.Assume(st, ok, false)
			return
		}
		r.beforeRecv(e, st, in, k)
		if ok != nil {
			st.p.V["ok:"+k] = ok
		}
		st.p.V["msg:"+k] = v
		st.p.V["msgok:"+k] = ok
		if root(st) == "scheduler" {
			st.p.V["recv:sched"] = v
			r.doneClass = k
			r.recvGuard(e, st, in, k)
		}
		r.ok(e, "R03", "channel receive", in)
	}
	h.Send = func(e *Engine, st *State, in ssa.Instruction, ch, v *Val) {
		cv, xv := sendOperands(in)
		k := r.class(cv)
		if k == "" {
			r.fail(e, st, "R01 R02 R03 R05", "send-unknown", instrPos(in), "the channel that is sent to cannot be determined")
			return
		}
		mark(r.sendIn, k, root(st))
		if st.p.F["closed:"+k] != "" {
			r.fail(e, st, "R03", "send-closed:"+k, instrPos(in), "a value is sent on a channel that was closed (%s)", k)
		}
		if isNilConst(ch) {
			r.fail(e, st, "R03", "send-nil:"+k, instrPos(in), "a value is sent on a nil channel (%s): this blocks forever", k)
		}
		if st.p.F["wgdone"] != "" {
			r.fail(e, st, "R03 R01", "send-after-done:"+k, instrPos(in), "a value is sent after the goroutine reported its end")
		}
		r.ok(e, "R03", "channel send", in)
		switch root(st) {
		case "scheduler":
			r.schedSend(e, st, in, v, xv)
		case "router":
			r.routerSend(e, st, in, ch, v, k)
		case "target":
			r.targetSend(e, st, in, v, xv, k)
		case "main":
			r.mainSend(e, st, in, v, k)
		}
	}
	h.Close = func(e *Engine, st *State, in ssa.CallInstruction, ch *Val) {
		k := r.class(in.Common().Args[0])
		if k == "" {
			r.fail(e, st, "R03", "close-unknown", instrPos(in), "the channel that is closed cannot be determined")
			return
		}
		mark(r.closeIn, k, root(st))
		m := r.makeOf(in.Common().Args[0])
		multi := inLoop(m.Block())
		if isNilConst(ch) {
			r.fail(e, st, "R03", "close-nil:"+k, instrPos(in), "a nil channel is closed")
		}
		if st.p.F["closed:"+k] != "" && !multi {
			r.fail(e, st, "R03", "close-twice:"+k, instrPos(in), "a channel is closed twice (%s)", k)
		}
		if !multi {
			st.p.F["closed:"+k] = "1"
		} else {
			r.closeLoop(e, st, in, k)
		}
		if r.sendIn[k]["target"] && root(st) != "target" && st.p.F["waited"] == "" {
			r.fail(e, st, "R03 R01 R04", "close-before-wait:"+k, instrPos(in), "the channel the tasks' results are sent to is closed before all target goroutines ended (%s)", k)
		}
		r.ok(e, "R03", "channel close", in)
	}
	h.Block = func(e *Engine, st *State, b *ssa.BasicBlock) {
		// entering the header of a loop that closes channels made in a loop
		for _, l := range r.loopsOf(b.Parent()) {
			if l.head != b {
				continue
			}
			for blk := range l.blocks {
				for _, in := range blk.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && isBuiltin(ci.Common().Value) && ci.Common().Value.Name() == "close" {
						if k := r.class(ci.Common().Args[0]); k != "" {
							if m := r.makeOf(ci.Common().Args[0]); m != nil && inLoop(m.Block()) {
								st.p.F["closed:"+k] = "1"
							}
						}
					}
				}
			}
		}
	}
	h.MapUpdate = func(e *Engine, st *State, in *ssa.MapUpdate, m, k, v *Val) {
		if _, ok := in.Value.Type().Underlying().(*types.Chan); !ok || root(st) != "main" {
			return
		}
		// channels[id] = ch: the id of the target that is being started
		tgt := st.p.V["starttgt"]
		okKey := false
		if tgt != nil && tgt.op == OpSym {
			kk := unwrap(k)
			if kk.op == OpSym {
				a, b := kk.aux.(symKey), tgt.aux.(symKey)
				okKey = a.site == b.site && a.ctx == b.ctx && a.gen == b.gen && a.kind == "next.k" && b.kind == "next.v"
			}
		}
		if tgt != nil && tgt.op == OpPure && tgt.aux == "lookup" && len(tgt.a) > 1 && unwrap(tgt.a[1]) == unwrap(k) {
			okKey = true
		}
		if !okKey {
			r.fail(e, st, "R01 R03 R05", "route-key", instrPos(in), "the channel of a target is registered under something that is not its ID")
		}
		r.ok(e, "R01 R05", "target channel registered", in)
		st.p.V["chanmap"] = m
	}
	h.Branch = func(e *Engine, st *State, in *ssa.If, cond *Val, taken bool) { r.countTasks(e, st) }
	h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
		r.atReturn(e, st, in, res)
	}
	h.Panic = func(e *Engine, st *State, in ssa.Instruction, v *Val) {
		r.fail(e, st, "R03 R01", "panic:"+in.Parent().String(), instrPos(in), "the runner can panic")
	}
	return h
}

func recvChan(in ssa.Instruction) ssa.Value {
	switch x := in.(type) {
	case *ssa.UnOp:
		return x.X
	case *ssa.Select:
		for _, s := range x.States {
			if s.Dir == types.RecvOnly {
				return s.Chan
			}
		}
	}
	return nil
}

func sendOperands(in ssa.Instruction) (ssa.Value, ssa.Value) {
	switch x := in.(type) {
	case *ssa.Send:
		return x.Chan, x.X
	case *ssa.Select:
		for _, s := range x.States {
			if s.Dir == types.SendOnly {
				return s.Chan, s.Send
			}
		}
	}
	return nil, nil
}

// checkStarted: the previous target that was started must have its goroutine.
func (r *runnerA) checkStarted(e *Engine, st *State, in ssa.Instruction) {
	ev := st.p.V["starterr"]
	if ev == nil {
		return
	}
	switch {
	case e.KnownNonNil(st, ev):
		st.p.F["startfailed"] = "1"
	case e.KnownNil(st, ev):
		if st.p.F["launched"] == "" {
			r.fail(e, st, "R04", "started-not-run", instrPos(in), "a target was started, but no goroutine runs its tasks and stops it")
		}
	default:
		r.fail(e, st, "R04 R01", "start-unchecked", instrPos(in), "the result of starting a target is not examined")
	}
}

// recvGuard: waiting for completed tasks is safe only if a task was started.
func (r *runnerA) recvGuard(e *Engine, st *State, in ssa.Instruction, k string) {
	if st.p.F["tasks"] == "some" {
		r.ok(e, "R03", "wait for a completed task", in)
		return
	}
	r.fail(e, st, "R03", "wait-without-task", instrPos(in), "the scheduler waits for a completed task although the runbook may have none: the run would never end")
}

// beforeRecv: what was received before must have been dealt with.
func (r *runnerA) beforeRecv(e *Engine, st *State, in ssa.Instruction, k string) {
	ok := st.p.V["msgok:"+k]
	v := st.p.V["msg:"+k]
	if v == nil {
		return
	}
	if ok != nil && e.Decide(st, ok) == 0 {
		return
	}
	switch st.root {
	case "main":
		i := errFieldOf(v.typ)
		if i < 0 {
			return
		}
		ev := r.field(e, st, v, v.typ, i)
		if e.KnownNil(st, ev) {
			if st.p.F["failed"] == "" && st.p.F["done:sent"] == "" {
				r.fail(e, st, "R01 R02 R03", "success-unreported", instrPos(in), "a task that ended without an error is not reported to the scheduler: tasks that depend on it would never start")
			}
		} else {
			st.p.F["failed"] = "1"
		}
		delete(st.p.F, "done:sent")
	case "scheduler":
		if st.p.V["recv:sched"] != nil {
			r.fail(e, st, "R02 R03", "completion-lost", instrPos(in), "a completed task was received but not passed to the scheduler")
		}
	case "router":
		if st.p.F["routed"] == "" && st.p.F["startfailed"] == "" {
			r.fail(e, st, "R01 R03", "route-lost", instrPos(in), "a task that is ready was received but not passed to its target")
		}
		delete(st.p.F, "routed")
	case "target":
		r.taskDone(e, st, in)
	}
}

func (r *runnerA) taskDone(e *Engine, st *State, in ssa.Instruction) {
	h := st.p.V["handled"]
	if h != nil {
		if st.p.F["reported"] == "" {
			r.fail(e, st, "R01 R03", "result-lost", instrPos(in), "the result of a task is not reported")
		}
		delete(st.p.V, "handled")
		delete(st.p.F, "reported")
		return
	}
	for _, v := range st.p.each("results") {
		if e.KnownNonNil(st, v) {
			return
		}
	}
	r.fail(e, st, "R01 R03", "task-skipped", instrPos(in), "a task that was received is not run although no task of the target failed before")
}

func (r *runnerA) handle(e *Engine, c *CallEvent) {
	st := c.st
	in := c.instr
	if st.root != "target" {
		r.fail(e, st, "R04 R05", "handle-elsewhere:"+st.root, instrPos(in), "a task is run outside the goroutine of its target")
	}
	if _, ok := st.p.get("started", unwrap(c.args[0])); !ok {
		r.fail(e, st, "R04 R05", "handle-not-started", instrPos(in), "a task is run by a target that is not known to have been started successfully")
	}
	if st.p.F["stopped"] != "" || st.p.F["wgdone"] != "" {
		r.fail(e, st, "R04", "handle-after-stop", instrPos(in), "a task is run after its target was stopped")
	}
	for _, v := range st.p.each("results") {
		if e.KnownNonNil(st, v) {
			r.fail(e, st, "R01", "handle-after-failure", instrPos(in), "a target continues with another task after one of its tasks failed")
		}
	}
	var msg *Val
	for k, v := range st.p.V {
		if strings.HasPrefix(k, "msg:") {
			if ok := st.p.V["msgok:"+k[4:]]; ok == nil || e.Decide(st, ok) == 1 {
				msg = v
			}
		}
	}
	if msg == nil {
		r.fail(e, st, "R01 R02", "handle-nothing", instrPos(in), "a task is run that was not received from the scheduler")
		return
	}
	if st.p.V["handled"] != nil {
		r.fail(e, st, "R01 R13", "handle-twice", instrPos(in), "a task that was received once is run twice")
	}
	want := r.field(e, st, msg, msg.typ, r.cfgField)
	if want == nil || unwrap(c.args[len(c.args)-1]) != unwrap(want) {
		r.fail(e, st, "R01 R02", "handle-arg", instrPos(in), "the task that is run is not the one that was received")
	}
	r.ok(e, "R01 R02 R04 R05", "task run", in)
}

func (r *runnerA) targetSend(e *Engine, st *State, in ssa.Instruction, v *Val, xv ssa.Value, k string) {
	i := errFieldOf(xv.Type())
	if i < 0 {
		return
	}
	ev := r.field(e, st, v, xv.Type(), i)
	h := st.p.V["handled"]
	if h == nil || ev != h {
		r.fail(e, st, "R01", "result-changed", instrPos(in), "what is reported about a task is not the result of running it")
	} else if st.p.F["reported"] != "" {
		r.fail(e, st, "R01 R03", "result-twice", instrPos(in), "the result of one task is reported twice")
	}
	st.p.F["reported"] = "1"
	// the ID must be the one that was received
	id := r.field(e, st, v, xv.Type(), strFieldOf(xv.Type()))
	okID := false
	for mk, msg := range st.p.V {
		if strings.HasPrefix(mk, "msg:") && msg.typ != nil {
			if w := r.field(e, st, msg, msg.typ, r.idField); w != nil && id != nil && unwrap(w) == unwrap(id) {
				okID = true
			}
		}
	}
	if !okID {
		r.fail(e, st, "R01 R02 R05", "result-id", instrPos(in), "the result of a task is reported under the ID of something else")
	}
	r.ok(e, "R01 R02", "task result reported", in)
}

func (r *runnerA) routerSend(e *Engine, st *State, in ssa.Instruction, ch, v *Val, k string) {
	if st.p.F["startfailed"] != "" {
		r.fail(e, st, "R03 R04", "route-after-failure", instrPos(in), "a task is passed on although a target failed to start: nobody may be there to receive it")
	}
	var msg *Val
	for mk, m := range st.p.V {
		if strings.HasPrefix(mk, "msg:") {
			msg = m
		}
	}
	if msg == nil || v != msg {
		r.fail(e, st, "R01 R02", "route-changed", instrPos(in), "the router sends something other than the task it received")
		return
	}
	if ch.op == OpPure && ch.aux == "lookup" {
		w := r.field(e, st, msg, msg.typ, r.tgtField)
		if w == nil || unwrap(ch.a[1]) != unwrap(w) {
			r.fail(e, st, "R01 R03 R05", "route-target", instrPos(in), "a task is not sent to the target it belongs to")
		}
	} else {
		r.fail(e, st, "R01 R03 R05", "route-unknown", instrPos(in), "a task is sent to a channel that was not looked up by its target")
	}
	if st.p.F["routed"] != "" {
		r.fail(e, st, "R01 R13", "route-twice", instrPos(in), "a task is sent to its target twice")
	}
	st.p.F["routed"] = "1"
	r.ok(e, "R01 R02 R05", "task routed", in)
}

func (r *runnerA) mainSend(e *Engine, st *State, in ssa.Instruction, v *Val, k string) {
	okMsg := false
	for mk, msg := range st.p.V {
		if !strings.HasPrefix(mk, "msg:") || msg.typ == nil {
			continue
		}
		if ok := st.p.V["msgok:"+mk[4:]]; ok != nil && e.Decide(st, ok) != 1 {
			continue
		}
		i, j := errFieldOf(msg.typ), strFieldOf(msg.typ)
		if i < 0 || j < 0 {
			continue
		}
		if id := r.field(e, st, msg, msg.typ, j); unwrap(id) != unwrap(v) {
			continue
		}
		okMsg = true
		if !e.KnownNil(st, r.field(e, st, msg, msg.typ, i)) {
			r.fail(e, st, "R02 R01", "failed-as-done", instrPos(in), "a task is reported as completed although it may have failed: its dependents would be started")
		}
		if st.p.F["done:sent"] != "" {
			r.fail(e, st, "R02 R03 R05", "done-twice", instrPos(in), "a task is reported as completed twice")
		}
	}
	if !okMsg {
		r.fail(e, st, "R02 R03 R05", "done-unknown", instrPos(in), "a task is reported as completed whose end was not received")
	}
	st.p.F["done:sent"] = "1"
	r.ok(e, "R02", "completion reported", in)
}

// schedSend: every task of every list that is ready is handed out.
func (r *runnerA) schedSend(e *Engine, st *State, in ssa.Instruction, v *Val, xv ssa.Value) {
	s := structOf(xv.Type())
	if s == nil {
		r.fail(e, st, "R01 R02", "hand-out-type", instrPos(in), "the message that hands a task out is not a structure")
		return
	}
	// where the ID and the target come from
	cfg, id, tgt := -1, -1, -1
	var idV *Val
	for i := 0; i < s.NumFields(); i++ {
		f := r.field(e, st, v, xv.Type(), i)
		if f == nil {
			continue
		}
		u := unwrap(f)
		if strings.HasSuffix(typeKey(s.Field(i).Type()), "/runbook/types.TaskConfig") {
			// Load(FieldAddr(lookup(tasks, id), Config))
			cfg = i
			if u.op == OpLoad && u.a[0].op == OpFieldAddr {
				if lk := u.a[0].a[0]; lk.op == OpPure && lk.aux == "lookup" {
					idV = unwrap(lk.a[1])
				}
			}
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		f := r.field(e, st, v, xv.Type(), i)
		if f == nil || !isStr(s.Field(i).Type()) {
			continue
		}
		u := unwrap(f)
		if idV != nil && u == idV {
			id = i
		} else if u.op == OpSym && u.aux.(symKey).kind == "next.k" {
			tgt = i
		} else if u.op == OpLoad && u.a[0].op == OpFieldAddr && fieldName(u.a[0]) == "Target" {
			if lk := u.a[0].a[0]; lk.op == OpPure && lk.aux == "lookup" && unwrap(lk.a[1]) == idV {
				tgt = i
			}
		}
	}
	if r.phase == 0 {
		r.idField, r.tgtField, r.cfgField = id, tgt, cfg
		return
	}
	if cfg < 0 || id < 0 || tgt < 0 {
		r.fail(e, st, "R01 R02 R05", "hand-out-fields", instrPos(in), "a task is handed out with an ID, target or configuration that do not belong together")
		return
	}
	// idV is an element of one of the lists that are ready
	ready := st.p.V["ready"]
	if ready == nil || !anyIn(idV, func(x *Val) bool {
		return x == ready || x.op == OpSym && len(x.a) > 0 && x.a[0] == ready || x.op == OpPure && x.aux == "lookup" && x.a[0] == ready
	}) {
		r.fail(e, st, "R01 R02 R13", "hand-out-source", instrPos(in), "a task is handed out that is not in the latest lists of ready tasks")
	}
	if ne := st.p.V["nexterr"]; ne != nil && !e.KnownNil(st, ne) {
		r.fail(e, st, "R02 R03", "hand-out-err", instrPos(in), "tasks are handed out although the scheduler reported an error")
	}
	// loops around the send
	nTrav := 0
	for _, fr := range st.frames {
		for _, l := range r.loopsOf(fr.fn) {
			if !l.blocks[fr.block] {
				continue
			}
			if r.loopReceives(l) {
				continue
			}
			nTrav++
			if l.kind != "iter" && l.kind != "index" {
				r.fail(e, st, "R01 R03 R13", "hand-out-loop:"+fr.fn.Name(), instrPos(in), "the tasks that are ready are not all handed out: the loop does not visit every element (%s)", l.why)
				continue
			}
			if len(l.exits) > 0 {
				r.fail(e, st, "R01 R03 R13", "hand-out-exit:"+fr.fn.Name(), instrPos(in), "the loop that hands out the ready tasks can be left early")
			}
			if skips(l, mustBlock(r.loopsOf(fr.fn), l, fr.block)) {
				r.fail(e, st, "R01 R03 R13", "hand-out-skip:"+fr.fn.Name(), instrPos(in), "the loop that hands out the ready tasks can skip some")
			}
		}
	}
	if nTrav < 2 {
		r.fail(e, st, "R01 R03", "hand-out-depth", instrPos(in), "the lists of ready tasks are not visited completely")
	}
	r.ok(e, "R01 R02 R03 R05", "task handed out", in)
}

func (r *runnerA) loopReceives(l *Loop) bool {
	var fns []*ssa.Function
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
				return true
			}
			if _, ok := in.(*ssa.Select); ok {
				return true
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				if f := ci.Common().StaticCallee(); f != nil && r.c.inScope(f) {
					fns = append(fns, f)
				}
			}
		}
	}
	for _, f := range fns {
		for g := range r.c.staticReach(f) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
						return true
					}
				}
			}
		}
	}
	return false
}

// mustBlock: the block every iteration of l has to reach so that b is reached
// for every element: b itself or the header of the loop in l that contains b.
func mustBlock(ls []*Loop, l *Loop, b *ssa.BasicBlock) *ssa.BasicBlock {
	must, size := b, -1
	for _, in := range ls {
		if in != l && in.blocks[b] && l.blocks[in.head] && len(in.blocks) < len(l.blocks) && len(in.blocks) > size {
			must, size = in.head, len(in.blocks)
		}
	}
	return must
}

// skips: an iteration can avoid the block.
func skips(l *Loop, must *ssa.BasicBlock) bool {
	if must == l.head {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{l.head: true}
	stack := []*ssa.BasicBlock{}
	for _, s := range l.head.Succs {
		if l.blocks[s] {
			stack = append(stack, s)
		}
	}
	for len(stack) > 0 {
		b := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if b == must || !l.blocks[b] || seen[b] {
			if b == l.head {
				return true
			}
			continue
		}
		seen[b] = true
		for _, s := range b.Succs {
			if s == l.head {
				return true
			}
			stack = append(stack, s)
		}
	}
	return false
}

// closeLoop: a loop that closes the channels made in another loop must visit
// all of them.
func (r *runnerA) closeLoop(e *Engine, st *State, in ssa.CallInstruction, k string) {
	l := loopOf(r.loopsOf(in.Parent()), in.Block())
	switch {
	case l == nil:
		r.fail(e, st, "R03", "close-one:"+k, instrPos(in), "only one of several channels is closed (%s)", k)
	case l.kind != "iter" && l.kind != "index":
		r.fail(e, st, "R03", "close-loop:"+k, instrPos(in), "the loop that closes the channels does not visit every one of them (%s)", k)
	case len(l.exits) > 0:
		r.fail(e, st, "R03", "close-exit:"+k, instrPos(in), "the loop that closes the channels can be left early (%s)", k)
	case skips(l, in.Block()):
		r.fail(e, st, "R03", "close-skip:"+k, instrPos(in), "the loop that closes the channels can skip some (%s)", k)
	}
}

// atReturn checks the end of a root.
func (r *runnerA) atReturn(e *Engine, st *State, in ssa.Instruction, res []*Val) {
	// channels this root received from must be drained
	var ks []string
	for k := range st.p.V {
		if strings.HasPrefix(k, "msg:") {
			ks = append(ks, k[4:])
		}
	}
	sort.Strings(ks)
	switch st.root {
	case "main":
		r.checkStarted(e, st, in)
		for _, k := range ks {
			r.beforeRecv(e, st, in, k)
		}
		if len(res) != 1 {
			r.fail(e, st, "R01 R03 R12", "result", instrPos(in), "the run does not return an error value")
			return
		}
		failed := ""
		if st.p.F["failed"] != "" {
			failed = "a task may have failed"
		}
		if st.p.F["startfailed"] != "" {
			failed = "a target failed to start"
		}
		if ne := st.p.V["newerr"]; ne != nil && !e.KnownNil(st, ne) {
			failed = "the dependency graph is invalid"
			if e.KnownNil(st, res[0]) || !(e.KnownNonNil(st, res[0]) || res[0] == ne) {
				r.fail(e, st, "R12 R01", "invalid-ok", instrPos(in), "the run can succeed although the dependency graph is invalid")
			}
			r.ok(e, "R12", "invalid graph rejected", in)
		}
		if failed != "" && !e.KnownNonNil(st, res[0]) {
			r.fail(e, st, "R01", "failure-ok", instrPos(in), "the run can succeed although %s", failed)
		}
		r.ok(e, "R01", "end of the run", in)
		if st.p.F["go"] == "" {
			// nothing was started: an error, or nothing to do
			if !e.KnownNonNil(st, res[0]) && !r.noTasks(e, st) && !e.resultIsErr(st, res[0]) {
				r.fail(e, st, "R01 R03", "nothing-run", instrPos(in), "the run can succeed without having started anything although there may be tasks")
			}
			return
		}
		// all results must have been received
		drained := false
		for _, k := range ks {
			if errFieldOf(elemTypeOf(r, k)) >= 0 {
				if ok := st.p.V["ok:"+k]; ok != nil && e.Decide(st, ok) == 0 {
					drained = true
				} else {
					r.undrainedAt(e, st, in, k)
				}
			}
		}
		if !drained {
			r.fail(e, st, "R03 R04 R01", "run-not-drained", instrPos(in), "the run returns before the channel of task results was closed: goroutines are left behind, targets may not have been stopped")
		}
		r.ok(e, "R03 R04", "end of the run after goroutines were started", in)
	case "scheduler":
		r.rootReturn(e, st, in, ks)
	case "router":
		if st.p.F["waited"] == "" {
			r.fail(e, st, "R03 R04", "router-no-wait", instrPos(in), "the router ends without waiting for the target goroutines")
		}
		for _, k := range ks {
			r.beforeRecv2(e, st, in, k)
		}
		r.rootReturn(e, st, in, ks)
	case "target":
		for _, k := range ks {
			r.beforeRecv2(e, st, in, k)
		}
		if st.p.F["stopped"] == "" {
			r.fail(e, st, "R04", "target-not-stopped", instrPos(in), "the goroutine of a target can end without stopping the target")
		}
		if st.p.F["wgdone"] == "" {
			r.fail(e, st, "R03 R04", "target-no-done", instrPos(in), "the goroutine of a target can end without reporting it to the wait group")
		}
		r.ok(e, "R04", "end of a target goroutine", in)
		r.rootReturn(e, st, in, ks)
	default:
		r.rootReturn(e, st, in, ks)
	}
	// channels only this kind of root closes
	for k, roots := range r.closeIn {
		if r.phase > 0 && roots[st.root] && st.p.F["closed:"+k] == "" {
			if st.root == "main" && st.p.F["go"] == "" {
				continue
			}
			r.fail(e, st, "R03", "not-closed:"+k+":"+st.root, instrPos(in), "%s can end without closing a channel others wait for (%s)", st.root, k)
		}
	}
}

// resultIsErr: an error that is returned as received (known or unknown).
func (e *Engine) resultIsErr(st *State, v *Val) bool { return false }

func (r *runnerA) beforeRecv2(e *Engine, st *State, in ssa.Instruction, k string) {
	r.beforeRecv(e, st, in, k)
}

func (r *runnerA) noTasks(e *Engine, st *State) bool { return st.p.F["tasks"] == "none" }

// countTasks notes what a branch says about the number of tasks.
func (r *runnerA) countTasks(e *Engine, st *State) {
	for f := range st.facts {
		if f.op != OpBin {
			continue
		}
		x := f.a[0]
		if x.op != OpPure || x.aux != "len" || x.a[0].typ == nil {
			continue
		}
		mt, ok := x.a[0].typ.Underlying().(*types.Map)
		if !ok || !strings.HasSuffix(typeKey(mt.Elem()), "/runbook/types.Task") {
			continue
		}
		lo, hi := e.interval(st, x)
		if hi <= 0 {
			st.p.F["tasks"] = "none"
		} else if lo >= 1 {
			st.p.F["tasks"] = "some"
		}
	}
}

func elemTypeOf(r *runnerA, k string) types.Type {
	for m, n := range r.cls {
		if n == k {
			return m.Type().Underlying().(*types.Chan).Elem()
		}
	}
	return nil
}

func (r *runnerA) rootReturn(e *Engine, st *State, in ssa.Instruction, ks []string) {
	for _, k := range ks {
		if ok := st.p.V["ok:"+k]; ok != nil && e.Decide(st, ok) == 0 {
			continue
		}
		r.undrainedAt(e, st, in, k)
	}
	r.ok(e, "R03", "end of a goroutine", in)
}

// undrainedAt: the only receiver of a channel stops before it is closed. This
// is fine only if senders can never block.
func (r *runnerA) undrainedAt(e *Engine, st *State, in ssa.Instruction, k string) {
	var mc *ssa.MakeChan
	for m, n := range r.cls {
		if n == k {
			mc = m
		}
	}
	if ok, why := r.bounded(mc); !ok {
		r.fail(e, st, "R03", "undrained:"+k, instrPos(in), "%s stops receiving before the channel is closed, and senders can block forever: %s (%s)", st.root, why, k)
		return
	}
	r.undrained[k] = instrPos(in)
}

// bounded: the capacity of the channel is at least the sum of the concurrency
// limits of all targets, which bounds the number of tasks that are in flight.
func (r *runnerA) bounded(m *ssa.MakeChan) (bool, string) {
	if m == nil {
		return false, "unknown channel"
	}
	return r.sumOfLimits(m.Size, map[ssa.Value]bool{})
}

func (r *runnerA) sumOfLimits(v ssa.Value, seen map[ssa.Value]bool) (bool, string) {
	switch x := v.(type) {
	case *ssa.Const:
		return false, "its capacity is a constant"
	case *ssa.Convert:
		return r.sumOfLimits(x.X, seen)
	case *ssa.BinOp:
		if x.Op == token.MUL || x.Op == token.ADD {
			for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				if c, ok := p[1].(*ssa.Const); ok && c.Value != nil && c.Int64() >= b2m(x.Op == token.MUL) {
					return r.sumOfLimits(p[0], seen)
				}
			}
			if x.Op == token.ADD && x.X == x.Y {
				return r.sumOfLimits(x.X, seen)
			}
		}
		if x.Op == token.SHL {
			return r.sumOfLimits(x.X, seen)
		}
		return false, "its capacity is computed with " + x.Op.String()
	case *ssa.Parameter:
		// the argument at the only call site
		fn := x.Parent()
		var arg ssa.Value
		for _, f := range r.c.all {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == fn {
						for i, p := range fn.Params {
							if p == x {
								if arg != nil && arg != ci.Common().Args[i] {
									return false, "its capacity differs between calls"
								}
								arg = ci.Common().Args[i]
							}
						}
					}
				}
			}
		}
		if arg != nil {
			return r.sumOfLimits(arg, seen)
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && f.Blocks != nil && r.c.inScope(f) {
			for _, b := range f.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
					if ok, why := r.sumOfLimits(ret.Results[0], seen); !ok {
						return false, why
					}
				}
			}
			return true, ""
		}
	case *ssa.Phi:
		ls := r.loopsOf(x.Parent())
		l := loopOf(ls, x.Block())
		if l == nil || l.head != x.Block() || (l.kind != "iter" && l.kind != "index") || len(l.exits) > 0 {
			return false, "its capacity is not the sum over all targets"
		}
		for i, ed := range x.Edges {
			if !l.blocks[x.Block().Preds[i]] {
				continue
			}
			b, ok := ed.(*ssa.BinOp)
			if !ok || b.Op != token.ADD {
				return false, "its capacity is not a sum"
			}
			other := b.Y
			if b.X != ssa.Value(x) {
				other = b.X
				if b.Y != ssa.Value(x) {
					return false, "its capacity is not a sum"
				}
			}
			if !r.limitOrMore(other) {
				return false, "its capacity is not the sum of the concurrency limits"
			}
		}
		return true, ""
	}
	return false, "its capacity cannot be determined"
}

// limitOrMore: the concurrency limit of a target, or a multiple of it.
func (r *runnerA) limitOrMore(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Call:
		return r.targetCall(&x.Call) == "ConcurrencyLimit"
	case *ssa.BinOp:
		for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
			c, ok := p[1].(*ssa.Const)
			if ok && c.Value != nil && (x.Op == token.MUL && c.Int64() >= 1 || x.Op == token.ADD && c.Int64() >= 0) {
				return r.limitOrMore(p[0])
			}
		}
	}
	return false
}

func b2m(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// protocol: rules over all roots together.
func (r *runnerA) protocol(e *Engine) {
	c := r.c
	for k, senders := range r.sendIn {
		if len(r.recvIn[k]) == 0 {
			c.Fail("no-receiver:"+k, token.NoPos, "values are sent on a channel nobody receives from (%s)", k)
		}
		if len(r.recvIn[k]) > 1 {
			c.Fail("many-receivers:"+k, token.NoPos, "several kinds of goroutines receive from one channel (%s)", k)
		}
		_ = senders
	}
	for k := range r.recvIn {
		if len(r.closeIn[k]) == 0 {
			c.Fail("never-closed:"+k, token.NoPos, "a channel that is received from is never closed (%s)", k)
		}
		if len(r.closeIn[k]) > 1 {
			c.Fail("many-closers:"+k, token.NoPos, "several kinds of goroutines close one channel (%s)", k)
		}
	}
	// blocking sends must not form a cycle
	g := map[string][]string{}
	for k, senders := range r.sendIn {
		var mc *ssa.MakeChan
		for m, n := range r.cls {
			if n == k {
				mc = m
			}
		}
		if k == r.doneClass {
			if ok, _ := r.bounded(mc); ok {
				c.OK("send that cannot block", k)
				continue
			}
		}
		for s := range senders {
			for q := range r.recvIn[k] {
				g[s] = append(g[s], q)
			}
		}
		c.OK("send to a draining receiver", k)
	}
	var cyc []string
	state := map[string]int{}
	var visit func(n string, path []string) bool
	visit = func(n string, path []string) bool {
		if state[n] == 1 {
			cyc = append(path, n)
			return true
		}
		if state[n] == 2 {
			return false
		}
		state[n] = 1
		for _, m := range g[n] {
			if visit(m, append(path, n)) {
				return true
			}
		}
		state[n] = 2
		return false
	}
	var ns []string
	for n := range g {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		if visit(n, nil) {
			c.Fail("send-cycle", token.NoPos, "goroutines can block on each other's full channels: %s", strings.Join(cyc, " -> "))
			break
		}
	}
	c.Floor("channel send", 1)
	c.Floor("channel receive", 1)
	c.Floor("channel close", 1)
}

func init() {
	mk := func(id, expl string, more ...func(*Ctx)) {
		register(&Check{ID: id, Technique: "path-sensitive typestate and dataflow analysis over SSA, goroutine bodies included",
			Explanation: expl, Run: func(c *Ctx) {
				runRunner(c)
				for _, f := range more {
					f(c)
				}
			}})
	}
	mk("R01", "From runbook.Run every path through the runner and the goroutines it starts is interpreted over abstract values. Rules: every task the scheduler hands out is sent, routed and run; the result of running it is what is reported; a result that is not known to be nil makes the run return an error; the goroutines share no variable that changes.", func(c *Ctx) { c.ownVariables(rbPkg); runNoPanicHidden(c) })
	mk("R02", "Same analysis. Rules: the scheduler is told only about tasks whose reported result is known to be nil, under the ID that was handed out; tasks are handed out only from the scheduler's latest lists. In the scheduler only tasks that the dependency graph returned are queued, and the graph only returns tasks without open dependencies, of which only those of the completed task are removed.", runDagNext, dagConstruction, runSched)
	mk("R03", "Same analysis. Rules: every receiver drains its channel until it is closed or senders cannot block (capacity is the sum of the limits); every channel is closed exactly once on every path of its closer; no send after close; wait group paired; blocking sends form no cycle; no wait for a completed task unless there is one.", runNoPanicHidden)
	mk("R04", "Same analysis. Rules: Handle and Stop only on a target whose Start result is known to be nil, Stop exactly once on every path of the target's goroutine and before it reports its end; the run returns only after all of them ended; a goroutine keeps its own target.", func(c *Ctx) { c.ownVariables(rbPkg) })
	mk("R05", "Scheduler and runner are interpreted over symbolic values: the number of tasks handed out for a target is at most its limit minus its load, the load grows by exactly that number and shrinks by one only for a completed task, completion is only reported after the task ended, and the limit is the target's, which is at least one for every target that passed its validation.", runSched, limits)
	mk("R12", "Same analysis. Rules: no goroutine is started before the dependency graph's validation is known to have succeeded; its failure is returned. Building the graph fails for every invalid edge and for every cycle the sort finds.", runGraph)
}

// runNoPanicHidden: a panic of a task is not hidden: the run would neither
// report it nor end.
func runNoPanicHidden(c *Ctx) {
	if fn := c.NeedFunc(rbPkg, "Run"); fn != nil {
		c.noRecover("a panic while a runbook is run is hidden", fn)
	}
}
