package main

// R10, R11: executing tasks.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ------------------------------------------------------------------ R10

func runR10(c *Ctx) {
	start := c.processStarters(shPkg)
	if len(start) == 0 {
		c.Fail("anchor:exec", token.NoPos, "nothing in %s runs a command", shPkg)
	}
	streams := map[string]string{} // what of exec.Cmd comes from which field
	for _, fn := range start {
		c.commandRun(fn, streams)
	}
	c.Floor("command as validated", 1)
	c.checkArgs()
	c.Floor("command accepted or rejected", 1)
	c.targetFields(streams)
	c.declaredSettings(shPkg, false, true, func(id string) bool { return strings.Contains(id, ".Exec.") && !strings.HasSuffix(id, ".Env") })
}

// commandRun: the command, its arguments, directory and streams.
func (c *Ctx) commandRun(fn *ssa.Function, streams map[string]string) {
	h := &Hooks{Opaque: inPkg(shPkg)}
	h.AfterCall = func(e *Engine, ev *CallEvent, res *Val) {
		st, pos := ev.st, instrPos(ev.instr)
		i := 0
		switch ev.name {
		case "os/exec.CommandContext":
			i = 1
		case "os/exec.Command":
		case "os.StartProcess", "syscall.ForkExec", "syscall.Exec":
			e.Report(st, "start", pos, "a process is started by %s", ev.name)
			return
		default:
			return
		}
		name, rest := ev.args[i], ev.args[i+1]
		args := ""
		list := (*Val)(nil)
		if name.op == OpLoad && name.a[0].op == OpIndexAddr {
			if k, ok := constInt(name.a[0].a[1]); ok && k == 0 {
				list = name.a[0].a[0]
			}
		} else if name.op == OpIndex {
			if k, ok := constInt(name.a[1]); ok && k == 0 {
				list = name.a[0]
			}
		}
		if list != nil {
			args = loadID(list)
		}
		if args != shPkg+".Exec.Args" {
			e.Report(st, "command", pos, "the command that is run is not the first argument of the task")
			return
		}
		ok := false
		if rest.op == OpSlice && rest.a[0] == list && len(rest.a) > 1 {
			k, isC := constInt(rest.a[1])
			ok = isC && k == 1 && (rest.aux == "l" || rest.aux == "lh" && rest.a[2] == e.lenOf(list))
		}
		if !ok {
			e.Report(st, "arguments", pos, "the command is not run with exactly the remaining arguments of the task")
			return
		}
		st.p.put("cmd", res, "y")
		c.OK("command as validated", c.siteName(ev.instr))
	}
	h.PreStore = func(e *Engine, st *State, in *ssa.Store, addr, val *Val) {
		for x := addr; x.op == OpIndexAddr || x.op == OpSlice; x = x.a[0] {
			if f := strings.TrimPrefix(loadID(x.a[0]), "os/exec.Cmd."); f != loadID(x.a[0]) {
				e.Report(st, "sets:"+f, instrPos(in), "a part of %s of the command is changed", f)
			}
		}
		if addr.op != OpFieldAddr {
			return
		}
		id := fieldID(addr.a[0].typ, addr.aux.(int))
		if !strings.HasPrefix(id, "os/exec.Cmd.") {
			return
		}
		switch f := strings.TrimPrefix(id, "os/exec.Cmd."); f {
		case "Env", "Dir", "Stdin", "Stdout", "Stderr", "Cancel", "WaitDelay":
		default:
			e.Report(st, "sets:"+f, instrPos(in), "%s of the command is changed", f)
		}
	}
	h.Call = func(e *Engine, ev *CallEvent) (*Val, bool) {
		st, pos := ev.st, instrPos(ev.instr)
		if !strings.HasPrefix(ev.name, "(*os/exec.Cmd).") {
			return nil, false
		}
		if !runsCmd(ev.name) {
			switch ev.name {
			case "(*os/exec.Cmd).Wait", "(*os/exec.Cmd).String":
			default:
				e.Report(st, "method:"+ev.name, pos, "what %s does to the command is not known", ev.name)
			}
			return nil, false
		}
		if st.p.F["ran"] != "" {
			e.Report(st, "ran-twice", pos, "the command may be run twice")
		}
		st.p.F["ran"] = "y"
		if ev.name == "(*os/exec.Cmd).Output" || ev.name == "(*os/exec.Cmd).CombinedOutput" {
			e.Report(st, "streams", pos, "the output of the command does not go to the streams of the target directly")
			return nil, false
		}
		if _, ok := st.p.get("cmd", ev.args[0]); !ok {
			e.Report(st, "other-command", pos, "what is run is not the command of the task")
			return nil, false
		}
		for _, f := range []string{"Dir", "Stdout", "Stderr"} {
			v := e.namedField(st, ev.args[0], f)
			id := loadID(unwrap(v))
			if !strings.HasPrefix(id, shPkg+".Target.") {
				e.Report(st, "cmd:"+f, pos, "%s of the command is not the one of the target", f)
				continue
			}
			if old := streams[f]; old != "" && old != id {
				e.Report(st, "cmd:"+f, pos, "%s of the command has several sources", f)
			}
			streams[f] = id
		}
		if v := e.namedField(st, ev.args[0], "Stdin"); v != nil && !isNilConst(v) && v.op != OpZero && loadID(v) != "os/exec.Cmd.Stdin" {
			e.Report(st, "cmd:Stdin", pos, "the command can read from an input")
		}
		e.Site("command as validated", ev.instr)
		return nil, false
	}
	h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
		if !failedPath(e, st, res) && st.p.F["ran"] == "" {
			e.Report(st, "not-run", instrPos(in), "a task may succeed without its command having been run")
		}
	}
	e := NewEngine(c.Program, h)
	e.Run(e.Start(fn, nil, newP(), fn.Name()))
	c.Merge(e, fn.String())
}

// checkArgs: which commands Exec.Check accepts.
func (c *Ctx) checkArgs() {
	fn := c.NeedMethod(shPkg, "Exec", "Check")
	if fn == nil {
		return
	}
	recv := c.in.mk(OpParam, fn.Params[0].Type(), ssa.Value(fn.Params[0]))
	h := &Hooks{Opaque: inPkg(shPkg)}
	bt, it, sty := types.Typ[types.Bool], types.Typ[types.Int], types.Typ[types.String]
	h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
		pos := instrPos(in)
		list := e.namedField(st, recv, "Args")
		if list == nil {
			e.Report(st, "anchor:Args", pos, "there are no arguments")
			return
		}
		n := e.lenOf(list)
		enough := e.Decide(st, e.not(e.binop(token.LSS, n, e.cint(1), it, bt)))
		s := e.load(st, e.in.mk(OpIndexAddr, types.NewPointer(sty), "ix", list, e.cint(0)), sty)
		slash := e.index(s, e.cstr("/"))
		contains := e.Decide(st, e.not(e.binop(token.LSS, slash, e.cint(0), it, bt)))
		prefix := func(p string) int {
			d := e.Decide(st, e.in.mk(OpPure, bt, "strings.HasPrefix", s, e.cstr(p)))
			if d < 0 && p == "/" {
				d = e.Decide(st, e.binop(token.EQL, slash, e.cint(0), it, bt))
			}
			if d < 0 && contains == 0 {
				d = 0
			}
			if d < 0 {
				// s[:n] == p
				for _, sl := range []*Val{e.in.mk(OpSlice, sty, "h", s, e.cint(int64(len(p))))} {
					if x := e.Decide(st, e.binop(token.EQL, sl, e.cstr(p), sty, bt)); x >= 0 {
						d = x
					}
				}
			}
			return d
		}
		if p := prefix("/"); p < 0 {
			_ = p
		}
		ps := []int{prefix("/"), prefix("./"), prefix("../")}
		legal := contains == 0
		illegal := contains == 1
		for _, p := range ps {
			legal = legal || p == 1
			illegal = illegal && p == 0
		}
		err := errResult(res)
		switch {
		case err == nil:
			e.Report(st, "check:error", pos, "Check does not return an error")
		case e.KnownNonNil(st, err):
			if enough != 0 && !illegal {
				e.Report(st, "check:rejects", pos, "a command may be rejected although it is legal")
				return
			}
		case enough != 1:
			e.Report(st, "check:empty", pos, "an empty list of arguments may be accepted")
			return
		case !legal:
			e.Report(st, "check:accepts", pos, `a command that contains a slash, but does not start with "/", "./" or "../", may be accepted`)
			return
		}
		c.OK("command accepted or rejected", e.pr.Pos(pos))
	}
	e := NewEngine(c.Program, h)
	e.Run(e.Start(fn, nil, newP(), "Check"))
	c.Merge(e, "Exec.Check")
}

// targetFields: from the runbook through the factories to the targets.
func (c *Ctx) targetFields(streams map[string]string) {
	// what a factory hands to its targets
	factory := map[string]string{} // field of the target -> field of the factory
	types_ := c.NeedFunc(rbPkg, "Run")
	iface := c.Type(typesPkg, "TargetFactory")
	if types_ == nil || iface == nil {
		c.Fail("anchor:TargetFactory", token.NoPos, "there are no target factories")
		return
	}
	classes := map[string]bool{"pg": true, "sh": true, "demo": true}
	for _, n := range c.typesImplementing(iface.Underlying().(*types.Interface)) {
		fn := c.methodOf(n, "NewTarget")
		if fn == nil || fn.Pkg == nil || !c.inScope(fn) || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), pkgPath("internal/runbook/")) {
			continue
		}
		h := &Hooks{Opaque: inPkg(strings.TrimPrefix(fn.Pkg.Pkg.Path(), Module+"/"))}
		h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
			t := unwrap(res[0])
			s := (*types.Struct)(nil)
			if t.typ != nil {
				s = derefStruct(t.typ)
			}
			if s == nil || t.op != OpAlloc {
				e.Report(st, "target:"+n.Obj().Pkg().Name(), instrPos(in), "a factory does not create a new target")
				return
			}
			for i := 0; i < s.NumFields(); i++ {
				id := fieldID(t.typ, i)
				v := unwrap(loadField(e, st, t, i))
				if src := loadID(v); src != "" {
					if old, ok := factory[id]; ok && old != src {
						e.Report(st, "target:"+id, instrPos(in), "%s has several sources", id)
					}
					factory[id] = src
				}
			}
			e.Site("target created", in)
		}
		e := NewEngine(c.Program, h)
		e.Run(e.Start(fn, nil, newP(), "NewTarget"))
		c.Merge(e, fn.String())
	}
	c.Floor("target created", 1)
	want := map[string]string{"Dir": "Basedir", "Stdout": "Stdout", "Stderr": "Stderr"}
	for _, f := range sortedKeys(want) {
		id := streams[f]
		if id == "" {
			continue
		}
		if factory[id] != shPkg+".TargetFactory."+want[f] {
			c.Fail("factory:"+f, token.NoPos, "%s of the commands of a target (%s) is not set to %s of its factory", f, id, want[f])
			continue
		}
		c.OK("setting of the factory used", f)
		for _, v := range c.fieldStores()[id] {
			in, ok := v.(ssa.Instruction)
			if ok && in.Parent() != nil && in.Parent().Name() != "NewTarget" && in.Parent().Pkg != nil {
				if fn := c.Method(shPkg, "TargetFactory", "NewTarget"); fn == nil || !c.staticReach(fn)[in.Parent()] {
					c.Fail("factory-other:"+f, in.Pos(), "%s is also changed by %s", id, in.Parent())
				}
			}
		}
	}
	c.Floor("setting of the factory used", 3)
	// what a runbook hands to the factories
	for _, name := range []string{"Run", "List", "Dot", "Eval"} {
		fn := c.NeedFunc(rbPkg, name)
		if fn == nil {
			continue
		}
		sys := c.in.mk(OpParam, fn.Params[0].Type(), ssa.Value(fn.Params[0]))
		file := c.in.mk(OpParam, fn.Params[1].Type(), ssa.Value(fn.Params[1]))
		h := &Hooks{}
		h.Opaque = func(st *State, f *ssa.Function) bool {
			return f.Pkg == nil || f.Pkg.Pkg.Path() != pkgPath(rbPkg) || c.spawns(f)
		}
		h.Call = func(e *Engine, ev *CallEvent) (*Val, bool) {
			st := ev.st
			if ev.name == "path/filepath.Dir" || ev.name == "path/filepath.Abs" {
				k := ""
				x := ev.args[0]
				if x == file {
					k = "file"
				} else {
					k, _ = st.p.get("path", x)
				}
				rt := ev.instr.Common().Signature().Results()
				r := e.in.mk(OpPure, rt.At(0).Type(), ev.name, x)
				if ev.name == "path/filepath.Dir" {
					st.p.put("path", r, k+"d")
					return r, true
				}
				st.p.put("path", r, k+"a")
				return e.in.mk(OpTuple, rt, "t", r, e.fresh(st, "abserr", ev.instr, 0, rt.At(1).Type())), true
			}
			return nil, false
		}
		h.PreMapUpdate = func(e *Engine, st *State, in *ssa.MapUpdate, m, k, v *Val) {
			mt := m.typ.Underlying().(*types.Map)
			if !types.Identical(mt.Elem(), iface) {
				return
			}
			pos := instrPos(in)
			cl, ok := constStr(k)
			o := unwrap(v)
			nt, _ := types.Unalias(derefType(o.typ)).(*types.Named)
			if !ok || nt == nil || nt.Obj().Pkg() == nil {
				e.Report(st, "class", pos, "a class of targets is not known")
				return
			}
			if p := nt.Obj().Pkg().Path(); !classes[cl] || p != pkgPath("internal/runbook/"+cl) {
				e.Report(st, "class:"+cl, pos, "targets of the class %q are those of %s", cl, p)
				return
			}
			st.p.F["class:"+cl] = "y"
			s := derefStruct(o.typ)
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i).Name()
				x := unwrap(loadField(e, st, o, i))
				switch f {
				case "Basedir":
					if p, _ := st.p.get("path", x); p != "fileda" && p != "filead" {
						e.Report(st, "basedir", pos, "commands are not run in the directory of the runbook")
						continue
					}
				case "Stdout", "Stderr":
					if x != e.baseField(st, sys, f) {
						e.Report(st, "factory-stream:"+cl+":"+f, pos, "%s of the targets of the class %q is not the one of the command", f, cl)
						continue
					}
				default:
					continue
				}
				c.OK("setting handed to the factory", cl+"."+f)
			}
		}
		h.AfterCall = func(e *Engine, ev *CallEvent, res *Val) {
			if ev.fn == nil || ev.fn.Signature.Recv() == nil || !strings.HasSuffix(types.TypeString(ev.fn.Signature.Recv().Type(), nil), parserPkg+".Parser") || ev.fn.Name() != "Parse" {
				return
			}
			for _, cl := range sortedKeys(classes) {
				if ev.st.p.F["class:"+cl] == "" {
					e.Report(ev.st, "class:"+cl, instrPos(ev.instr), "targets of the class %q are not known when a runbook is loaded", cl)
					continue
				}
				c.OK("class known", cl)
			}
		}
		e := NewEngine(c.Program, h)
		e.Run(e.Start(fn, nil, newP(), name))
		c.Merge(e, "runbook."+name)
	}
	c.Floor("setting handed to the factory", 4)
	c.Floor("class known", 3)
}

// ------------------------------------------------------------------ R11

func runR11(c *Ctx) {
	it := c.Type(typesPkg, "Target")
	tc := c.Type(typesPkg, "TaskConfig")
	if it == nil || tc == nil {
		c.Fail("anchor:Target", token.NoPos, "there are no targets")
		return
	}
	n := 0
	for _, t := range c.typesImplementing(it.Underlying().(*types.Interface)) {
		if t.Obj().Pkg() == nil || !strings.HasPrefix(t.Obj().Pkg().Path(), pkgPath("internal/runbook/")) {
			continue
		}
		n++
		c.taskClasses(t, tc)
	}
	if n < 3 {
		c.Fail("anchor:targets", token.NoPos, "only %d kinds of targets were found", n)
	}
	c.declaredSettings(rbPgPkg, false, true, func(id string) bool { return true })
	c.Floor("unknown classes rejected", 1)
	c.Floor("task executed by its target", 7)
	c.Floor("error of the task returned", 1)
	c.Floor("class is the one named", 9)
}

func (c *Ctx) taskClasses(t *types.Named, tc *types.Named) {
	pkg := strings.TrimPrefix(t.Obj().Pkg().Path(), Module+"/")
	name := t.Obj().Pkg().Name()
	mk, handle := c.methodOf(t, "NewTaskConfig"), c.methodOf(t, "Handle")
	if mk == nil || handle == nil {
		c.Fail("anchor:"+name, token.NoPos, "the target %s has no methods", t)
		return
	}
	made := c.madeBy(mk, name)
	if made == nil {
		return
	}
	c.classNames(t, mk, tc, made)
	// what Handle does with each of them
	methods := c.handled(t, handle, made, name)
	// errors within tasks
	for _, fn := range sortedFuncs(methods) {
		c.taskErrors(fn, pkg)
	}
	if pg := c.NeedMethod(pgPkg, "Conn", "Exec"); pg != nil && strings.HasSuffix(pkg, "/pg") {
		c.taskErrors(pg, pgPkg)
	}
}

// handled: each task is run, its error returned; the methods that do it.
func (c *Ctx) handled(t *types.Named, handle *ssa.Function, made map[string]types.Type, name string) map[*ssa.Function]bool {
	methods := map[*ssa.Function]bool{}
	ctx := c.in.mk(OpParam, handle.Params[1].Type(), ssa.Value(handle.Params[1]))
	recv := c.in.mk(OpParam, handle.Params[0].Type(), ssa.Value(handle.Params[0]))
	for _, k := range append(sortedTypes(made), "") {
		mt := made[k]
		arg := c.in.mk(OpParam, handle.Params[2].Type(), ssa.Value(handle.Params[2]))
		var obj *Val
		if mt != nil {
			obj = c.in.mk(OpParam, mt, k)
			arg = c.in.mk(OpIface, mt, "i", obj)
		}
		label := name + ":" + shortName(k)
		h := &Hooks{}
		isMethod := func(f *ssa.Function) bool {
			return obj != nil && f.Signature.Recv() != nil && types.Identical(f.Signature.Recv().Type(), mt)
		}
		h.Opaque = func(st *State, f *ssa.Function) bool {
			return f.Pkg == nil || f.Pkg.Pkg.Path() != t.Obj().Pkg().Path() || isMethod(f) || f.Signature.Recv() != nil && obj == nil && !types.Identical(derefType(f.Signature.Recv().Type()), t)
		}
		// what the task was found to be
		asserted := func(f *ssa.Function) bool {
			if obj != nil || f == nil || f.Signature.Recv() == nil || f.Name() == "Check" {
				return false
			}
			for _, m := range made {
				if types.Identical(f.Signature.Recv().Type(), m) {
					return true
				}
			}
			return false
		}
		h.Call = func(e *Engine, ev *CallEvent) (*Val, bool) {
			if obj == nil && (ev.invoke || asserted(ev.fn) && mentions(ev.args[0], arg)) {
				ev.st.p.F["ran"] = "y"
			}
			if ev.isGo {
				e.Report(ev.st, label+":async", instrPos(ev.instr), "a task is run in the background")
			}
			return nil, false
		}
		h.AfterCall = func(e *Engine, ev *CallEvent, res *Val) {
			st := ev.st
			if ev.fn == nil || !isMethod(ev.fn) {
				if (ev.invoke || asserted(ev.fn)) && obj == nil && isErr(res.typ) {
					st.p.V["err"] = res
				}
				return
			}
			if ev.fn.Name() == "Check" {
				return
			}
			if unwrap(ev.args[0]) != obj {
				e.Report(st, label+":other-task", instrPos(ev.instr), "another task is run")
			}
			for _, a := range ev.args[1:] {
				if types.Identical(a.typ, recv.typ) && a != recv {
					e.Report(st, label+":other-target", instrPos(ev.instr), "a task is run with another target")
				}
				if types.Identical(a.typ, ctx.typ) && a != ctx && !mentions(a, ctx) {
					_ = a
				}
			}
			if st.p.F["ran"] != "" {
				e.Report(st, label+":twice", instrPos(ev.instr), "a task may be run twice")
			}
			st.p.F["ran"] = "y"
			if !isErr(res.typ) {
				e.Report(st, label+":no-error", instrPos(ev.instr), "running a task does not return an error")
				return
			}
			st.p.V["err"] = res
			methods[ev.fn] = true
		}
		h.Panic = func(e *Engine, st *State, in ssa.Instruction, v *Val) {
			e.Report(st, label+":panic", instrPos(in), "handling a task may panic")
		}
		h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
			pos := instrPos(in)
			err := errResult(res)
			switch {
			case st.p.F["ran"] == "" && mt != nil:
				e.Report(st, label+":not-run", pos, "tasks of type %s are created by this target, but %s does not run them", k, handle.Name())
			case st.p.F["ran"] == "":
				if !e.KnownNonNil(st, err) {
					e.Report(st, label+":unknown", pos, "a task that the target does not know is reported as successful")
				} else {
					e.Site("task executed by its target", in)
				}
			case err == st.p.V["err"] || e.KnownNonNil(st, err) && st.p.V["err"] != nil && e.KnownNonNil(st, st.p.V["err"]) || e.KnownNil(st, err) && st.p.V["err"] != nil && e.KnownNil(st, st.p.V["err"]):
				e.Site("task executed by its target", in)
				c.OK("task executed by its target", label)
			default:
				e.Report(st, label+":result", pos, "the result of a task is not the result of running it")
			}
		}
		e := NewEngine(c.Program, h)
		e.Run(e.Start(handle, []*Val{recv, ctx, arg}, newP(), label))
		c.Merge(e, label)
	}
	return methods
}

// madeBy: the types of the tasks a target creates.
func (c *Ctx) madeBy(mk *ssa.Function, name string) map[string]types.Type {
	pkg := strings.TrimPrefix(mk.Pkg.Pkg.Path(), Module+"/")
	made := map[string]types.Type{}
	class := c.in.mk(OpParam, mk.Params[1].Type(), ssa.Value(mk.Params[1]))
	h := &Hooks{Opaque: inPkg(pkg)}
	h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
		pos := instrPos(in)
		if failedPath(e, st, res) {
			e.Site("unknown classes rejected", in)
			return
		}
		if err := errResult(res); err == nil || !e.KnownNil(st, err) {
			e.Report(st, name+":class-error", pos, "whether a class is known is not decided here")
			return
		}
		v := res[0]
		if v.op != OpIface || !e.KnownNonNil(st, v) {
			e.Report(st, name+":class-nil", pos, "no task may be created for a class although no error is reported")
			return
		}
		known := false
		for f, b := range st.facts {
			if b && f.op == OpBin && f.aux == token.EQL && (f.a[0] == class && f.a[1].op == OpConst || f.a[1] == class && f.a[0].op == OpConst) {
				known = true
			}
		}
		if !known {
			known = class.op != OpParam
			anyIn(v, func(x *Val) bool { known = known || x == class; return false })
		}
		if !known {
			_, some := constStr(class)
			if !some && !c.lookedUp(st, class) {
				e.Report(st, name+":class-unknown", pos, "a task is created for a class that is not known")
				return
			}
		}
		made[types.TypeString(v.typ, nil)] = v.typ
	}
	e := NewEngine(c.Program, h)
	e.Run(e.Start(mk, nil, newP(), mk.Name()))
	c.Merge(e, mk.String())
	if len(made) == 0 {
		c.Fail(name+":no-classes", mk.Pos(), "%s creates no tasks", mk)
		return nil
	}
	return made
}

// classNames: a class is executed as the kind of task it names.
func (c *Ctx) classNames(t *types.Named, mk *ssa.Function, tc *types.Named, made map[string]types.Type) {
	pkg := t.Obj().Pkg()
	want := map[string]*types.Named{}
	for _, n := range c.typesImplementing(tc.Underlying().(*types.Interface)) {
		if n.Obj().Pkg() == pkg {
			want[strings.ToLower(n.Obj().Name())] = n
		}
	}
	if len(want) == 1 {
		for k, n := range want {
			want[""] = n // a task without a class
			if k == "task" {
				delete(want, k)
			}
		}
	}
	for _, class := range sortedKeys(want) {
		n := want[class]
		label := fmt.Sprintf("%s:class:%q", pkg.Name(), class)
		good, other := false, false
		h := &Hooks{Opaque: inPkg(strings.TrimPrefix(pkg.Path(), Module+"/"))}
		h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
			if failedPath(e, st, res) {
				return
			}
			if v := res[0]; v.op != OpIface || types.Identical(derefType(v.typ), n) {
				good = true
			} else {
				other = true
				c.Fail(label, instrPos(in), "a task of the class %q becomes one of %s", class, v.typ)
			}
		}
		e := NewEngine(c.Program, h)
		recv := c.in.mk(OpParam, mk.Params[0].Type(), ssa.Value(mk.Params[0]))
		e.Run(e.Start(mk, []*Val{recv, e.cstr(class)}, newP(), label))
		c.Merge(e, label)
		switch {
		case other:
		case !good:
			c.Fail(label, mk.Pos(), "a task of the class %q cannot be declared", class)
		default:
			c.OK("class is the one named", label)
		}
	}
}

// lookedUp: something was found under this key.
func (c *Ctx) lookedUp(st *State, k *Val) bool {
	for f, b := range st.facts {
		if b && f.op == OpPure && f.aux == "lookupok" && f.a[1] == k {
			return true
		}
	}
	return false
}

// taskErrors: a task fails if a step of it fails, and does something.
func (c *Ctx) taskErrors(fn *ssa.Function, pkg string) {
	label := shortName(fn.String())
	ef := &ErrFlow{Rule: "error of the task returned", Fail: func(e *Engine, st *State, key string, in ssa.Instruction, f string, a ...interface{}) {
		e.Report(st, label+":"+key, instrPos(in), f, a...)
	}}
	h := &Hooks{Opaque: inPkg(pkg)}
	h.AfterCall = func(e *Engine, ev *CallEvent, res *Val) {
		st := ev.st
		if strings.Contains(ev.name, "zap.SugaredLogger)") {
			return
		}
		if neverFails(e, ev) || strings.HasPrefix(ev.name, "fmt.Print") {
			return
		}
		ef.AfterCall(e, ev, res)
		switch n := ev.name; {
		case n == "(*os/exec.Cmd).Start":
			st.p.put("started", ev.args[0], "y")
		case n == "(*os/exec.Cmd).Wait":
			st.p.del("started", ev.args[0])
		case strings.HasSuffix(n, "pgx.Conn).Exec") || strings.HasSuffix(n, "internal/pg.Conn).Exec"):
			arg := ev.args[1]
			if st.p.F["sql"] != "" {
				e.Report(st, label+":sql-twice", instrPos(ev.instr), "SQL may be executed twice")
			}
			st.p.F["sql"] = "y"
			ok := loadID(arg) == "internal/runbook/pg.Exec.SQL"
			if fn.Signature.Recv() != nil && pkg == pgPkg {
				ok = arg.op == OpParam && arg.aux == ssa.Value(fn.Params[1])
			}
			if !ok {
				e.Report(st, label+":sql", instrPos(ev.instr), "what is executed is not the SQL of the task")
			} else {
				c.OK("SQL of the task executed", label)
			}
		}
	}
	h.Branch = func(e *Engine, st *State, in *ssa.If, cond *Val, taken bool) { ef.Branch(e, st) }
	sqlTask := strings.HasSuffix(pkg, "/pg") && !strings.Contains(pkg, "/taskset/") // of a runbook, or the connection itself
	h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
		if !ef.Return(e, st, in, errResult(res)) {
			return
		}
		if len(st.p.each("started")) > 0 {
			e.Report(st, label+":not-awaited", instrPos(in), "a task may end before its command")
		}
		if sqlTask && st.p.F["sql"] == "" {
			e.Report(st, label+":sql-skipped", instrPos(in), "a task may succeed without having executed its SQL")
		}
	}
	e := NewEngine(c.Program, h)
	e.Run(e.Start(fn, nil, newP(), label))
	c.Merge(e, label)
}

func sortedTypes(m map[string]types.Type) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	for i := range r {
		for j := i; j > 0 && r[j] < r[j-1]; j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
	return r
}

func sortedFuncs(m map[*ssa.Function]bool) []*ssa.Function {
	byName := map[string]*ssa.Function{}
	for f := range m {
		byName[f.String()] = f
	}
	var r []*ssa.Function
	for _, k := range sortedKeys(byName) {
		r = append(r, byName[k])
	}
	return r
}

func init() {
	register(&Check{ID: "R10", Technique: "static analysis: path-sensitive abstract interpretation of SSA and field-to-field dataflow",
		Explanation: "Every path on which a shell task starts a process is interpreted: name, arguments, directory and streams must be those of the task and the target; the fields of the target are followed through the factory to the command and the directory of the runbook. On every path of Check, what is known about the arguments determines the verdict in both directions.",
		Run:         runR10})
	register(&Check{ID: "R11", Technique: "static analysis: type-level exhaustiveness by abstract interpretation, and error-flow analysis",
		Explanation: "The concrete types each target creates are enumerated by interpreting NewTaskConfig; Handle is interpreted once for each of them and once for any other, and has to run exactly that task and return its error. The methods that run tasks are analysed for lost errors.",
		Run:         runR11})
}
