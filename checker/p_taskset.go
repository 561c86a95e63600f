package main

// T01, T05: the loop that runs the tasks of a task set target.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	tsBasePkg  = "internal/taskset/base"
	tsTypesPkg = "internal/taskset/types"
)

type runTasksA struct {
	c              *Ctx
	fn             *ssa.Function
	task           *Val // the function that runs a task
	max            *Val // the limit
	queue, results *ssa.MakeChan
	gos            int
	track          *LoopTrack
}

func chanMake(v *Val) *ssa.MakeChan {
	v = unwrapConv(v)
	if v.op != OpSym {
		return nil
	}
	k, ok := v.aux.(symKey)
	if !ok {
		return nil
	}
	m, _ := k.site.(*ssa.MakeChan)
	return m
}

func runRunTasks(c *Ctx) {
	fn := c.NeedFunc(tsBasePkg, "RunTasks")
	if fn == nil {
		return
	}
	r := &runTasksA{c: c, fn: fn}
	// which channels are handed out
	{
		h := &Hooks{}
		h.Go = func(e *Engine, ev *CallEvent) {}
		h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
			if len(st.frames) > 1 || len(res) != 2 {
				return
			}
			q, o := chanMake(res[0]), chanMake(res[1])
			if q == nil || o == nil || q == o || r.queue != nil && (r.queue != q || r.results != o) {
				e.Report(st, "anchor:channels", instrPos(in), "the queue and the results of a target are not the same two channels on every path")
				return
			}
			r.queue, r.results = q, o
		}
		e := NewEngine(c.Program, h)
		e.Run(e.Start(fn, nil, newP(), "main"))
		c.Merge(e, "RunTasks")
	}
	if r.queue == nil {
		c.Fail("anchor:channels", fn.Pos(), "RunTasks does not return a queue and a channel of results it makes")
		return
	}
	fns := []*ssa.Function{fn}
	for i := 0; i < len(fns); i++ {
		fns = append(fns, fns[i].AnonFuncs...)
		if i == 0 {
			for f := range c.staticReach(fn) {
				if f != fn && f.Pkg == fn.Pkg && f.Parent() == nil {
					fns = append(fns, f)
				}
			}
		}
	}
	fams := intFamilies(fns)
	var best *Engine
	try := func(fam map[*ssa.Phi]bool, sign int, mem bool) bool {
		e := r.run(fam, sign, mem)
		if best == nil || best.exceeded && !e.exceeded || best.exceeded == e.exceeded && len(e.findings) < len(best.findings) {
			best = e
		}
		return len(e.findings) == 0 && !e.exceeded
	}
	for _, fam := range append(fams, nil) {
		if try(fam, 1, fam == nil) || try(fam, -1, fam == nil) {
			break
		}
	}
	c.Merge(best, "RunTasks")
	if r.gos == 0 {
		c.Fail("anchor:loop", fn.Pos(), "RunTasks does not start a goroutine that handles the queue")
	}
}

func runT01(c *Ctx) {
	runRunTasks(c)
	c.ownVariables("internal/taskset")
	if fn := c.NeedFunc(tsBasePkg, "RunTasks"); fn != nil {
		c.noRecover("a panic while tasks are run is hidden", fn)
	}
	c.Floor("task run", 1)
	c.Floor("result passed on", 1)
	c.Floor("results closed", 1)
	c.Floor("end of the queue noticed", 1)
	c.Floor("waits only for what will come", 1)
}

func runT05(c *Ctx) {
	runRunTasks(c)
	c.limitsPassed()
	c.Floor("task run within the limit", 1)
	c.Floor("limit of a target", 1)
}

func (r *runTasksA) fail(e *Engine, st *State, id, key string, pos token.Pos, f string, a ...interface{}) {
	if r.c.check.ID == id {
		e.Report(st, key, pos, f, a...)
	}
}

func (r *runTasksA) ok(e *Engine, id, rule string, in ssa.Instruction) {
	if r.c.check.ID == id {
		e.Site(rule, in)
	}
}

// run analyses the goroutine, with the number of tasks that run related to
// one family of counters.
func (r *runTasksA) run(fam map[*ssa.Phi]bool, sign int, mem bool) *Engine {
	h := &Hooks{}
	e := NewEngine(r.c.Program, h)
	e.ghostPhi, e.ghostSign, e.ghostMem = fam, sign, mem
	it, bt := types.Typ[types.Int], types.Typ[types.Bool]
	inLoop := func(st *State) bool { return st.root == "loop" }
	out := func(st *State) *Val { return st.p.V["#out"] }
	add := func(st *State, n int64) {
		st.p.V["#out"] = e.fromLinear(e.linear(st.p.V["#out"]).plus(linear{t: map[*Val]int64{}, k: n}, 1))
	}
	// some: whether tasks are known to run (1), known not to run (0)
	some := func(st *State) int {
		g := out(st)
		e.Assume(st, e.binop(token.GEQ, g, e.cint(0), it, bt), true)
		if d := e.Decide(st, e.binop(token.GTR, g, e.cint(0), it, bt)); d >= 0 {
			return d
		}
		if d := e.Decide(st, e.binop(token.EQL, g, e.cint(0), it, bt)); d >= 0 {
			return 1 - d
		}
		// as many as allowed, which is at least one
		if lo, _ := e.interval(st, r.max); lo >= 1 && e.nonNeg(st, e.linear(g).plus(e.linear(r.max), -1)) {
			return 1
		}
		return -1
	}
	class := func(st *State, ch *Val) string {
		switch m := chanMake(ch); {
		case m == nil:
			return ""
		case m == r.queue:
			return "queue"
		case m == r.results:
			return "results"
		case types.Identical(m.Type().Underlying().(*types.Chan).Elem(), r.results.Type().Underlying().(*types.Chan).Elem()):
			if x := st.p.V["relay"]; x != nil && unwrapConv(ch) != x {
				return ""
			}
			return "relay"
		}
		return ""
	}
	// noticed: what is known about the end of the queue
	noticed := func(st *State) {
		ok := st.p.V["qok"]
		if ok == nil {
			return
		}
		switch e.Decide(st, ok) {
		case 0:
			delete(st.p.V, "qok")
			delete(st.p.V, "batch")
			st.p.F["qclosed"] = "1"
		case 1:
			delete(st.p.V, "qok")
			st.p.F["batch"] = "open"
		}
	}
	// settled: nothing is left to be done before something new is received
	settled := func(st *State, in ssa.Instruction) {
		noticed(st)
		if st.p.V["qok"] != nil {
			r.fail(e, st, "T01", "closed-unnoticed", instrPos(in), "what is received from the queue is used without knowing that the queue was not closed")
			delete(st.p.V, "qok")
		}
		if st.p.F["batch"] == "open" {
			r.fail(e, st, "T01", "batch-dropped", instrPos(in), "not every task of a batch is run")
			delete(st.p.F, "batch")
		}
		if st.p.V["held"] != nil {
			r.fail(e, st, "T01", "result-dropped", instrPos(in), "a result that was received is not passed on")
			delete(st.p.V, "held")
		}
	}
	h.MakeChan = func(e *Engine, st *State, in *ssa.MakeChan, size *Val) {
		if !inLoop(st) && e.Decide(st, e.binop(token.GEQ, size, e.cint(0), it, bt)) != 1 {
			r.fail(e, st, "T01", "negative-size", instrPos(in), "a channel is made with a size that may be negative: this panics")
		} else {
			r.ok(e, "T01", "size of a channel", in)
		}
	}
	h.Go = func(e *Engine, ev *CallEvent) {
		st := ev.st
		if ev.fnVal == r.task && inLoop(st) {
			r.callTask(e, st, ev, class, add)
			return
		}
		if inLoop(st) {
			r.fail(e, st, "T01", "more-goroutines", instrPos(ev.instr), "the loop starts another goroutine, which is not understood")
			return
		}
		if st.p.F["go"] != "" {
			r.fail(e, st, "T01", "two-loops", instrPos(ev.instr), "two goroutines handle the queue")
		}
		st.p.F["go"] = "1"
		r.gos++
		p := newP()
		p.V["#out"] = e.cint(0)
		if !e.AddRoot(st, ev.fnVal, ev.args, "loop", p) {
			r.fail(e, st, "T01", "go-unknown", instrPos(ev.instr), "the goroutine that is started is not known")
		}
	}
	h.Select = func(e *Engine, st *State, in *ssa.Select, ready []int) {
		if !inLoop(st) {
			r.fail(e, st, "T01", "early-wait", instrPos(in), "RunTasks waits before it returns")
			return
		}
		noticed(st)
		for _, i := range ready {
			if i < 0 {
				return
			}
			k := class(st, e.operand(st, st.top(), in.States[i].Chan))
			if k == "queue" && st.p.F["qclosed"] == "" || k == "results" {
				r.ok(e, "T01", "waits only for what will come", in)
				return
			}
		}
		if some(st) == 1 {
			r.ok(e, "T01", "waits only for what will come", in)
			return
		}
		r.fail(e, st, "T01", "waits-forever", instrPos(in), "the loop waits for results although no task may be running")
	}
	h.Recv = func(e *Engine, st *State, in ssa.Instruction, ch, v, ok *Val) {
		if !inLoop(st) {
			r.fail(e, st, "T01", "early-wait", instrPos(in), "RunTasks waits before it returns")
			return
		}
		_, single := in.(*ssa.Select)
		single = !single
		switch class(st, ch) {
		case "queue":
			settled(st, in)
			if st.p.F["qclosed"] != "" {
				r.fail(e, st, "T01", "queue-again", instrPos(in), "the queue is read again after it was closed: the loop does not end")
			}
			if ok == nil {
				r.fail(e, st, "T01", "closed-unnoticed", instrPos(in), "the end of the queue is not noticed")
				return
			}
			if single && some(st) != 0 {
				// results cannot be taken meanwhile
				r.ok(e, "T01", "queue read", in)
			}
			st.p.V["batch"], st.p.V["qok"] = v, ok
		case "relay":
			if st.p.V["held"] != nil {
				r.fail(e, st, "T01", "result-dropped", instrPos(in), "a result that was received is not passed on")
				delete(st.p.V, "held")
			}
			if ok != nil {
				e.Assume(st, ok, true)
			}
			if single {
				if some(st) != 1 {
					r.fail(e, st, "T01", "waits-forever", instrPos(in), "the loop waits for a result although no task may be running")
				} else {
					r.ok(e, "T01", "waits only for what will come", in)
				}
			}
			if !e.Assume(st, e.binop(token.GTR, out(st), e.cint(0), it, bt), true) {
				st.dead = true // nothing runs, so nothing is received
				return
			}
			add(st, -1)
			st.p.V["held"] = v
		default:
			r.fail(e, st, "T01", "recv-other", instrPos(in), "the loop receives from a channel other than the queue and that of its tasks")
		}
	}
	h.Send = func(e *Engine, st *State, in ssa.Instruction, ch, v *Val) {
		if !inLoop(st) || class(st, ch) != "results" {
			r.fail(e, st, "T01", "send-other", instrPos(in), "something is sent on a channel other than that of the results")
			return
		}
		if st.p.F["closed"] != "" {
			r.fail(e, st, "T01", "send-closed", instrPos(in), "a result is sent after the channel of results was closed: this panics")
		}
		if x := st.p.V["held"]; x == nil || unwrapConv(v) != unwrapConv(x) {
			r.fail(e, st, "T01", "sent-twice", instrPos(in), "something other than the result that was just received is reported")
			return
		}
		delete(st.p.V, "held")
		r.ok(e, "T01", "result passed on", in)
	}
	h.Close = func(e *Engine, st *State, in ssa.CallInstruction, ch *Val) {
		noticed(st)
		if !inLoop(st) {
			r.fail(e, st, "T01", "close-other", instrPos(in), "a channel is closed outside of the loop")
			return
		}
		switch class(st, ch) {
		case "results":
			switch {
			case st.p.F["closed"] != "":
				r.fail(e, st, "T01", "closed-twice", instrPos(in), "the channel of results is closed twice: this panics")
			case st.p.F["qclosed"] == "":
				r.fail(e, st, "T01", "closed-early", instrPos(in), "the channel of results is closed although the queue is not known to be closed")
			case st.p.V["held"] != nil:
				r.fail(e, st, "T01", "result-dropped", instrPos(in), "the channel of results is closed before a received result was passed on")
			case some(st) != 0:
				r.fail(e, st, "T01", "closed-early", instrPos(in), "the channel of results is closed although tasks may still be running")
			default:
				r.ok(e, "T01", "results closed", in)
			}
			st.p.F["closed"] = "1"
		case "relay":
			if st.p.F["qclosed"] == "" || some(st) != 0 {
				r.fail(e, st, "T01", "relay-closed", instrPos(in), "the channel tasks report to is closed although tasks may still be running: this panics")
			}
		default:
			r.fail(e, st, "T01", "close-other", instrPos(in), "a channel other than that of the results is closed")
		}
	}
	r.track = &LoopTrack{SkipCollectors: true}
	r.track.OnElem = func(e *Engine, st *State, l *Loop, over, k, v *Val) {
		if !inLoop(st) || over != st.p.V["batch"] || st.p.F["batch"] == "" {
			return
		}
		if st.p.V["id"] != nil {
			r.fail(e, st, "T01", "task-skipped", l.head.Instrs[len(l.head.Instrs)-1].Pos(), "a task of a batch is not run")
		}
		st.p.V["id"], st.p.V["task"] = k, v
	}
	r.track.OnEnd = func(e *Engine, st *State, l *Loop, over *Val) {
		if !inLoop(st) || over != st.p.V["batch"] || st.p.F["batch"] == "" {
			return
		}
		if st.p.V["id"] != nil {
			r.fail(e, st, "T01", "task-skipped", l.head.Instrs[len(l.head.Instrs)-1].Pos(), "a task of a batch is not run")
			delete(st.p.V, "id")
			delete(st.p.V, "task")
		}
		delete(st.p.F, "batch")
		delete(st.p.V, "batch")
	}
	h.Branch = func(e *Engine, st *State, in *ssa.If, cond *Val, taken bool) {
		if !inLoop(st) {
			return
		}
		had := st.p.V["qok"] != nil
		noticed(st)
		if had && st.p.F["qclosed"] != "" {
			r.ok(e, "T01", "end of the queue noticed", in)
		}
		r.track.Branch(e, st, in, taken)
	}
	h.Call = func(e *Engine, ev *CallEvent) (*Val, bool) {
		st := ev.st
		if r.task != nil && ev.fnVal == r.task {
			if !inLoop(st) {
				r.fail(e, st, "T01", "early-task", instrPos(ev.instr), "a task is run before the loop was started")
			} else {
				r.callTask(e, st, ev, class, add)
			}
			return nil, true
		}
		return nil, false
	}
	h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
		if len(st.frames) > 1 {
			return
		}
		if !inLoop(st) {
			if st.p.F["go"] == "" {
				r.fail(e, st, "T01", "no-loop", instrPos(in), "RunTasks returns without starting the loop")
			}
			return
		}
		noticed(st)
		if st.p.F["closed"] == "" {
			r.fail(e, st, "T01", "never-closed", instrPos(in), "the loop ends without closing the channel of results")
		}
	}
	h.Panic = func(e *Engine, st *State, in ssa.Instruction, v *Val) {
		r.fail(e, st, "T01", "panic", instrPos(in), "the loop panics")
	}
	st := e.Start(r.fn, nil, newP(), "main")
	for i, p := range r.fn.Params {
		v := st.top().regs[p]
		switch p.Type().Underlying().(type) {
		case *types.Signature:
			r.task = v
		case *types.Basic:
			r.max = v
		}
		_ = i
	}
	e.Run(st)
	return e
}

// callTask: a task is run.
func (r *runTasksA) callTask(e *Engine, st *State, ev *CallEvent, class func(*State, *Val) string, add func(*State, int64)) {
	it, bt := types.Typ[types.Int], types.Typ[types.Bool]
	pos := instrPos(ev.instr)
	if len(ev.args) != 3 || st.p.V["id"] == nil || ev.args[0] != st.p.V["id"] || unwrap(ev.args[1]) != unwrap(st.p.V["task"]) {
		r.fail(e, st, "T01", "task-wrong", pos, "what is run is not the next task of the batch under its own ID, or it is run twice")
	} else {
		r.ok(e, "T01", "task run", ev.instr)
	}
	delete(st.p.V, "id")
	delete(st.p.V, "task")
	if len(ev.args) == 3 {
		if class(st, ev.args[2]) != "relay" {
			r.fail(e, st, "T01", "task-channel", pos, "a task does not report its result to the loop")
		} else {
			st.p.V["relay"] = unwrapConv(ev.args[2])
		}
	}
	if st.p.F["closed"] != "" {
		r.fail(e, st, "T01", "task-late", pos, "a task is run after the results were closed")
	}
	if st.p.V["held"] != nil {
		r.fail(e, st, "T01", "result-dropped", pos, "a result that was received is not passed on before the next task is run")
	}
	// the limit: fewer than max tasks are running
	g := st.p.V["#out"]
	within := false
	if r.max != nil {
		if e.Decide(st, e.binop(token.LSS, g, r.max, it, bt)) == 1 || e.nonNeg(st, e.linear(r.max).plus(e.linear(g), -1).plus(linear{t: map[*Val]int64{}, k: 1}, -1)) {
			within = true
		}
		if _, hi := e.interval(st, g); !within && hi <= 0 {
			within = true // nothing else is running
		}
	}
	if within {
		r.ok(e, "T05", "task run within the limit", ev.instr)
	} else {
		r.fail(e, st, "T05", "limit", pos, "a task is run although as many tasks as allowed may already be running")
	}
	add(st, 1)
}

// limitsPassed: the limit of each target is its own setting, or one.
func (c *Ctx) limitsPassed() {
	run := c.Func(tsBasePkg, "RunTasks")
	if run == nil {
		return
	}
	tgt := c.Type(tsTypesPkg, "Target")
	if tgt == nil {
		c.Fail("anchor:Target", token.NoPos, "there are no task set targets")
		return
	}
	for _, t := range c.typesImplementing(tgt.Underlying().(*types.Interface)) {
		if t.Obj().Pkg() == nil || !strings.HasPrefix(t.Obj().Pkg().Path(), pkgPath("internal/taskset/")) {
			continue
		}
		m := c.methodOf(t, "Start")
		if m == nil {
			continue
		}
		c.Analysed(m)
		field := -1
		if s, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if strings.Contains(s.Tag(i), `"max_concurrency`) {
					field = i
				}
			}
		}
		name := t.Obj().Pkg().Name() + "." + t.Obj().Name()
		h := &Hooks{Opaque: func(st *State, fn *ssa.Function) bool { return fn == run }}
		h.Call = func(e *Engine, ev *CallEvent) (*Val, bool) {
			if ev.fn != run || len(ev.args) != 2 {
				return nil, false
			}
			good := false
			if v, ok := constInt(ev.args[1]); ok && v == 1 {
				good = true
			} else if field >= 0 {
				recv := ev.st.p.V["recv"]
				good = ev.args[1] == loadField(e, ev.st, recv, field)
			}
			if !good {
				e.Report(ev.st, "limit-of:"+name, instrPos(ev.instr), "the tasks of %s are not limited to one at a time or to its max_concurrency", name)
			} else {
				e.Site("limit of a target", ev.instr)
			}
			return nil, false
		}
		e := NewEngine(c.Program, h)
		p := newP()
		st := e.Start(m, nil, p, name)
		st.p.V["recv"] = st.top().regs[m.Params[0]]
		e.Run(st)
		c.Merge(e, name)
	}
}

func init() {
	register(&Check{ID: "T01", Technique: "path-sensitive abstract interpretation with a counting abstraction",
		Explanation: "the loop of a task set target runs each task once, passes on each result and then closes its results",
		Assumptions: []string{"a task reports exactly one result (T03)", "the results are read, and the queue is closed, by whoever started the target"},
		Run:         runT01})
	register(&Check{ID: "T05", Technique: "path-sensitive abstract interpretation with a counting abstraction",
		Explanation: "a task set target never runs more tasks at once than allowed",
		Assumptions: []string{"a task has ended when it reported its result (T03)"},
		Run:         runT05})
}
