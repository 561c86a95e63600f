package main

// T02, T03: the tasks of task sets.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// tsTargets: the kinds of targets of task sets.
func (c *Ctx) tsTargets() []*types.Named {
	it := c.Type(tsTypesPkg, "Target")
	if it == nil {
		c.Fail("anchor:Target", token.NoPos, "there are no task set targets")
		return nil
	}
	var r []*types.Named
	for _, t := range c.typesImplementing(it.Underlying().(*types.Interface)) {
		if t.Obj().Pkg() != nil && strings.HasPrefix(t.Obj().Pkg().Path(), pkgPath("internal/taskset/")) {
			r = append(r, t)
		}
	}
	if len(r) < 3 {
		c.Fail("anchor:targets", token.NoPos, "only %d kinds of targets were found", len(r))
	}
	return r
}

func runT03(c *Ctx) {
	tc := c.Type(tsTypesPkg, "Task")
	if tc == nil {
		c.Fail("anchor:Task", token.NoPos, "there are no tasks")
		return
	}
	c.ownVariables("internal/taskset")
	for _, t := range c.tsTargets() {
		mk, start := c.methodOf(t, "NewTask"), c.methodOf(t, "Start")
		name := t.Obj().Pkg().Name()
		if mk == nil || start == nil {
			c.Fail("anchor:"+name, token.NoPos, "the target %s has no methods", t)
			continue
		}
		made := c.madeBy(mk, name)
		if made == nil {
			continue
		}
		c.classNames(t, mk, tc, made)
		methods := map[*ssa.Function]bool{}
		if run := c.methodOf(t, "Run"); run != nil && run.Signature.Params().Len() == 2 && run.Signature.Results().Len() == 1 {
			c.handled(t, run, made, name)
		}
		for _, k := range append(sortedTypes(made), "") {
			c.taskGoroutine(t, start, k, made[k], name, methods)
		}
		for _, fn := range sortedFuncs(methods) {
			c.taskErrors(fn, strings.TrimPrefix(t.Obj().Pkg().Path(), Module+"/"))
		}
	}
	c.Floor("unknown classes rejected", 1)
	c.Floor("class is the one named", 7)
	c.Floor("result reported", 10)
	c.Floor("error of the task returned", 1)
}

// taskGoroutine: what happens to a task of one type, from what the target
// hands to the loop.
func (c *Ctx) taskGoroutine(t *types.Named, start *ssa.Function, k string, mt types.Type, name string, methods map[*ssa.Function]bool) {
	run := c.NeedFunc(tsBasePkg, "RunTasks")
	if run == nil {
		return
	}
	label := name + ":" + shortName(k)
	if k == "" {
		label = name + ":other"
	}
	recv := c.in.mk(OpParam, start.Params[0].Type(), ssa.Value(start.Params[0]))
	var obj *Val
	if mt != nil {
		obj = c.in.mk(OpParam, mt, k)
	}
	isMethod := func(f *ssa.Function) bool {
		return obj != nil && f.Signature.Recv() != nil && types.Identical(f.Signature.Recv().Type(), mt)
	}
	var runner *ssa.Function
	h := &Hooks{}
	h.Opaque = func(st *State, f *ssa.Function) bool {
		return f.Pkg == nil || f == run || f.Pkg.Pkg.Path() != t.Obj().Pkg().Path() || isMethod(f) || f.Signature.Recv() != nil && obj == nil && !types.Identical(derefType(f.Signature.Recv().Type()), t)
	}
	started := 0
	h.Call = func(e *Engine, ev *CallEvent) (*Val, bool) {
		st, pos := ev.st, instrPos(ev.instr)
		if st.root == "start" && ev.fn == run && len(ev.args) == 2 {
			fn, _ := e.callable(ev.args[0])
			if fn == nil || len(fn.Params) != 3 {
				e.Report(st, label+":unknown-runner", pos, "it is not known what runs the tasks of a target")
				return nil, false
			}
			var args []*Val
			for _, p := range fn.Params {
				args = append(args, c.in.mk(OpParam, p.Type(), ssa.Value(p)))
			}
			if obj != nil {
				args[1] = c.in.mk(OpIface, mt, "i", obj)
			}
			p := newP()
			p.V["id"], p.V["task"], p.V["res"] = args[0], args[1], args[2]
			started++
			runner = fn
			e.AddRoot(st, ev.args[0], args, "task", p)
			return nil, false
		}
		if ev.invoke && obj == nil && st.root != "start" {
			st.p.F["ran"] = "y"
		}
		switch ev.name {
		case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(sync.Locker).Lock":
			st.p.F["locked"] = "y"
		case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(sync.Locker).Unlock":
			delete(st.p.F, "locked")
		}
		return nil, false
	}
	h.AfterCall = func(e *Engine, ev *CallEvent, res *Val) {
		st, pos := ev.st, instrPos(ev.instr)
		if st.root == "start" {
			if ev.fn == run {
				st.p.V["chans"] = res
			}
			return
		}
		if ev.fn == nil || !isMethod(ev.fn) {
			if ev.invoke && obj == nil && res != nil && isErr(res.typ) {
				st.p.V["err"] = res
			}
			return
		}
		switch ev.fn.Name() {
		case "Ready", "Dependencies", "Provides":
			return
		}
		if st.root != "body" {
			e.Report(st, label+":blocks", pos, "a task is run by the loop itself, which handles nothing else meanwhile")
		}
		if unwrap(ev.args[0]) != obj {
			e.Report(st, label+":other-task", pos, "another task is run")
		}
		for _, a := range ev.args[1:] {
			if types.Identical(a.typ, recv.typ) && a != recv {
				e.Report(st, label+":other-target", pos, "a task is run with another target")
			}
		}
		if st.p.F["ran"] != "" {
			e.Report(st, label+":twice", pos, "a task may be run twice")
		}
		st.p.F["ran"] = "y"
		if res == nil || !isErr(res.typ) {
			e.Report(st, label+":no-error", pos, "running a task does not return an error")
			return
		}
		st.p.V["err"] = res
		methods[ev.fn] = true
	}
	h.Go = func(e *Engine, ev *CallEvent) {
		st, pos := ev.st, instrPos(ev.instr)
		if st.root != "task" || st.p.F["go"] != "" {
			e.Report(st, label+":goroutines", pos, "more than one goroutine is started for a task")
			return
		}
		st.p.F["go"] = "y"
		p := newP()
		for _, k := range []string{"id", "task", "res"} {
			p.V[k] = st.p.V[k]
		}
		if !e.AddRoot(st, ev.fnVal, ev.args, "body", p) {
			e.Report(st, label+":goroutine", pos, "it is not known what the goroutine of a task does")
		}
	}
	h.MapUpdate = func(e *Engine, st *State, in *ssa.MapUpdate, m, k, v *Val) {
		if st.root == "start" {
			return
		}
		st.p.V["map"] = m
		if n := st.p.F["entries"]; n == "" {
			st.p.F["entries"] = "1"
			st.p.V["key"], st.p.V["val"] = k, v
		} else if st.p.V["key"] == k {
			st.p.V["val"] = v
		} else {
			st.p.F["entries"] = "more"
		}
	}
	// outer: memory that several goroutines of the target share
	outer := func(addr *Val) bool {
		r := rootAddr(addr)
		switch r.op {
		case OpGlobal:
			return true
		case OpParam:
			return r == recv
		case OpAlloc:
			k, ok := r.aux.(symKey)
			if !ok {
				return false
			}
			site, ok := k.site.(ssa.Instruction)
			if !ok {
				return false
			}
			for f := runner; f != nil; f = f.Parent() {
				if f != runner && site.Parent() == f || site.Parent() == start {
					return true
				}
			}
		}
		return false
	}
	h.Store = func(e *Engine, st *State, in *ssa.Store, addr, val *Val) {
		if st.root == "body" && st.p.F["locked"] == "" && outer(addr) {
			e.Report(st, label+":shared", instrPos(in), "a task changes a variable that it shares with other tasks that run at the same time, so that a result may be that of another task")
		}
	}
	h.Send = func(e *Engine, st *State, in ssa.Instruction, ch, v *Val) {
		pos := instrPos(in)
		if st.root != "body" {
			e.Report(st, label+":sync-send", pos, "a result is sent by the loop to itself: this blocks forever")
			return
		}
		if unwrapConv(ch) != st.p.V["res"] {
			e.Report(st, label+":channel", pos, "a result is sent to another channel than that of the results")
			return
		}
		if st.p.F["sent"] != "" {
			e.Report(st, label+":sent-twice", pos, "two results are reported for a task")
		}
		st.p.F["sent"] = "y"
		if m := st.p.V["map"]; m == nil || unwrapConv(v) != unwrapConv(m) || st.p.F["entries"] != "1" || st.p.V["key"] != st.p.V["id"] {
			e.Report(st, label+":result-id", pos, "what is reported is not one result under the ID of the task")
			return
		}
		err, got := st.p.V["val"], st.p.V["err"]
		switch {
		case st.p.F["ran"] == "" && mt != nil:
			e.Report(st, label+":not-run", pos, "tasks of type %s are created by this target, but it does not run them", k)
		case st.p.F["ran"] == "":
			if !e.KnownNonNil(st, err) {
				e.Report(st, label+":unknown", pos, "a task that the target does not know is reported as successful")
				return
			}
			e.Site("result reported", in)
			c.OK("result reported", label)
		case got != nil && (err == got || e.KnownNonNil(st, err) && e.KnownNonNil(st, got) || e.KnownNil(st, err) && e.KnownNil(st, got)):
			e.Site("result reported", in)
			c.OK("result reported", label)
		default:
			e.Report(st, label+":result", pos, "the result that is reported for a task is not that of running it")
		}
	}
	h.Close = func(e *Engine, st *State, in ssa.CallInstruction, ch *Val) {
		e.Report(st, label+":close", instrPos(in), "a task closes a channel")
	}
	h.Recv = func(e *Engine, st *State, in ssa.Instruction, ch, v, ok *Val) {
		e.Report(st, label+":recv", instrPos(in), "a task waits for a channel")
	}
	h.Panic = func(e *Engine, st *State, in ssa.Instruction, v *Val) {
		e.Report(st, label+":panic", instrPos(in), "running a task may panic")
	}
	h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
		if len(st.frames) > 1 {
			return
		}
		pos := instrPos(in)
		switch st.root {
		case "start":
			r := st.p.V["chans"]
			if r == nil || r.op != OpTuple || len(res) != 2 || unwrapConv(res[0]) != unwrapConv(r.a[0]) || unwrapConv(res[1]) != unwrapConv(r.a[1]) {
				e.Report(st, label+":channels", pos, "a target does not return the queue and the results of its loop")
			}
		case "task":
			if st.p.F["go"] == "" {
				e.Report(st, label+":not-started", pos, "a task is not run in a goroutine")
			}
		case "body":
			if st.p.F["sent"] == "" {
				e.Report(st, label+":no-result", pos, "no result may be reported for a task")
			}
		}
	}
	e := NewEngine(c.Program, h)
	e.Run(e.Start(start, []*Val{recv}, newP(), "start"))
	c.Merge(e, label)
	if started == 0 {
		c.Fail(label+":loop", start.Pos(), "the target does not start a loop that runs its tasks")
	}
}

func init() {
	register(&Check{ID: "T03", Technique: "static analysis: type-level exhaustiveness by abstract interpretation, and error-flow analysis",
		Explanation: "The concrete types each target creates are enumerated by interpreting NewTask; what the target hands to its loop is interpreted once for each of them and once for any other: one goroutine that runs that task and sends exactly one result, its error, under its own ID.",
		Run:         runT03})
}

// ------------------------------------------------------------------ T02

// lockOf: the lock that guards the state of a target: a field that is or
// points to a mutex.
func lockFields(s *types.Struct) map[int]bool {
	r := map[int]bool{}
	for i := 0; i < s.NumFields(); i++ {
		switch types.TypeString(derefType(s.Field(i).Type()), nil) {
		case "sync.Mutex", "sync.RWMutex", "sync.Locker":
			r[i] = true
		}
	}
	return r
}

func runT02(c *Ctx) {
	tc := c.Type(tsTypesPkg, "Task")
	if tc == nil {
		c.Fail("anchor:Task", token.NoPos, "there are no tasks")
		return
	}
	for _, t := range c.tsTargets() {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		// the methods of tasks that get the target: these run at the same time
		var execs []*ssa.Function
		for _, n := range c.typesImplementing(tc.Underlying().(*types.Interface)) {
			if n.Obj().Pkg() != t.Obj().Pkg() {
				continue
			}
			for i := 0; i < n.NumMethods(); i++ {
				m := c.methodOf(n, n.Method(i).Name())
				if m == nil || m.Blocks == nil {
					continue
				}
				for _, p := range m.Params[1:] {
					if types.Identical(derefType(p.Type()), t) {
						execs = append(execs, m)
						break
					}
				}
			}
		}
		if len(execs) == 0 {
			c.Fail("anchor:exec:"+t.Obj().Pkg().Name(), token.NoPos, "no task of %s uses its target", t.Obj().Pkg().Name())
			continue
		}
		// the state that tasks change, or that must not be used by two at once
		shared := map[int]bool{}
		locks := lockFields(s)
		for _, m := range execs {
			for f := range c.staticReach(m) {
				if !c.inScope(f) {
					continue
				}
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if st, ok := in.(*ssa.Store); ok {
							if types.Identical(derefType(st.Addr.Type()), t) {
								for i := 0; i < s.NumFields(); i++ {
									shared[i] = true
								}
							}
							for a := ssa.Value(st.Addr); a != nil; {
								switch x := a.(type) {
								case *ssa.FieldAddr:
									if types.Identical(derefType(x.X.Type()), t) {
										shared[x.Field] = true
									}
									a = x.X
									continue
								case *ssa.IndexAddr:
									a = x.X
									continue
								}
								break
							}
						}
					}
				}
			}
		}
		for i := 0; i < s.NumFields(); i++ {
			if types.TypeString(s.Field(i).Type(), nil) == "io.Writer" {
				shared[i] = true
			}
			if locks[i] {
				delete(shared, i)
			}
		}
		for _, m := range execs {
			c.lockset(t, s, m, locks, shared)
		}
	}
	c.Floor("state used under the lock", 1)
	c.Floor("lock released", 5)
}

// lockset: the state of the target is only used while its lock is held.
func (c *Ctx) lockset(t *types.Named, s *types.Struct, m *ssa.Function, locks, shared map[int]bool) {
	label := shortName(m.String())
	h := &Hooks{}
	held := func(st *State) bool { return st.p.F["held"] != "" }
	fieldAt := func(addr *Val) (int, bool) {
		for a := addr; a != nil; {
			switch a.op {
			case OpFieldAddr:
				if types.Identical(derefType(a.a[0].typ), t) {
					return a.aux.(int), true
				}
				a = a.a[0]
				continue
			case OpIndexAddr:
				a = a.a[0]
				continue
			}
			break
		}
		return 0, false
	}
	isLock := func(v *Val) bool {
		i, ok := fieldAt(v)
		if !ok && (v.op == OpLoad || v.op == OpIface) {
			i, ok = fieldAt(unwrap(v).a[0])
		}
		return ok && locks[i]
	}
	use := func(e *Engine, st *State, in ssa.Instruction, i int, how string) {
		if !shared[i] {
			return
		}
		if !held(st) {
			e.Report(st, label+":"+s.Field(i).Name(), instrPos(in), "%s of the target is %s while its lock is not held", s.Field(i).Name(), how)
			return
		}
		if how == "changed" && st.p.F["held"] == "r" {
			e.Report(st, label+":"+s.Field(i).Name(), instrPos(in), "%s of the target is changed while its lock is only held for reading", s.Field(i).Name())
			return
		}
		e.Site("state used under the lock", in)
	}
	writer := func(v *Val) (int, bool) {
		v = unwrap(v)
		if v.op == OpLoad {
			if i, ok := fieldAt(v.a[0]); ok && shared[i] && types.TypeString(s.Field(i).Type(), nil) == "io.Writer" {
				return i, true
			}
		}
		return 0, false
	}
	isWriter := func(i int) bool { return types.TypeString(s.Field(i).Type(), nil) == "io.Writer" }
	access := func(e *Engine, st *State, in ssa.Instruction, addr *Val, how string) {
		if addr.typ != nil && types.Identical(derefType(addr.typ), t) {
			if addr.op == OpAlloc {
				return
			}
			for i := 0; i < s.NumFields(); i++ {
				if shared[i] && !(isWriter(i) && how == "read") {
					use(e, st, in, i, how)
				}
			}
			return
		}
		if i, ok := fieldAt(addr); ok && !(isWriter(i) && how == "read") {
			use(e, st, in, i, how)
		}
	}
	h.Load = func(e *Engine, st *State, in ssa.Instruction, addr, val *Val) { access(e, st, in, addr, "read") }
	h.Store = func(e *Engine, st *State, in *ssa.Store, addr, val *Val) { access(e, st, in, addr, "changed") }
	h.Call = func(e *Engine, ev *CallEvent) (*Val, bool) {
		st, pos := ev.st, instrPos(ev.instr)
		meth := ev.name[strings.LastIndex(ev.name, ".")+1:]
		if strings.HasPrefix(ev.name, "(*sync.Mutex)") || strings.HasPrefix(ev.name, "(*sync.RWMutex)") || strings.HasPrefix(ev.name, "(sync.Locker)") {
			if !isLock(ev.args[0]) {
				return nil, false
			}
			switch meth {
			case "Lock", "RLock":
				if held(st) {
					e.Report(st, label+":lock-twice", pos, "the lock of the target is taken twice: this blocks forever")
				}
				st.p.F["held"] = map[string]string{"Lock": "w", "RLock": "r"}[meth]
			case "Unlock", "RUnlock":
				if want := map[string]string{"Unlock": "w", "RUnlock": "r"}[meth]; st.p.F["held"] != want {
					e.Report(st, label+":unlock", pos, "the lock of the target is released although it is not held")
				}
				delete(st.p.F, "held")
			default:
				e.Report(st, label+":"+meth, pos, "what %s does to the lock is not known", meth)
			}
			return nil, true
		}
		for _, a := range ev.args {
			if i, ok := writer(a); ok {
				use(e, st, ev.instr, i, "written to")
			}
		}
		return nil, false
	}
	h.Go = func(e *Engine, ev *CallEvent) {
		e.Report(ev.st, label+":goroutine", instrPos(ev.instr), "a task uses the target in another goroutine")
	}
	h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
		if len(st.frames) > 1 {
			return
		}
		if held(st) {
			e.Report(st, label+":not-released", instrPos(in), "a task may end without releasing the lock of the target: every other task then blocks forever")
			return
		}
		c.OK("lock released", label)
	}
	e := NewEngine(c.Program, h)
	e.Run(e.Start(m, nil, newP(), label))
	c.Merge(e, label)
}

func init() {
	register(&Check{ID: "T02", Technique: "static analysis: lockset analysis by path-sensitive abstract interpretation",
		Explanation: "For every method of a task that gets its target, every path is interpreted with the state of the target's lock: fields that tasks change and writers are only used while it is held, and it is free when the task ends.",
		Run:         runT02})
}
