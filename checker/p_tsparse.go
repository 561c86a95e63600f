package main

// T04, T06, T07: loading task sets.

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

const tsParserPkg = "internal/taskset/parser"

type tsParseA struct {
	c    *Ctx
	recv *Val
	lt   *LoopTrack
	ef   *ErrFlow
}

func (a *tsParseA) fail(e *Engine, st *State, id, key string, pos token.Pos, f string, args ...interface{}) {
	if id == a.c.check.ID && !a.impossible(e, st) {
		e.Report(st, key, pos, "%s", fmt.Sprintf(f, args...))
	}
}

// impossible: there are no types of targets, but one was found.
func (a *tsParseA) impossible(e *Engine, st *State) bool {
	if st.p.F["notypes"] == "" {
		return false
	}
	m := e.namedField(st, a.recv, "Targets")
	for f, b := range st.facts {
		if b && f.op == OpPure && f.aux == "lookupok" && f.a[0] == m {
			st.p.F["impossible"] = "1"
		}
		if !b && f.op == OpBin && f.aux == token.EQL && isNilConst(f.a[1]) && f.a[0].op == OpPure && f.a[0].aux == "lookup" && f.a[0].a[0] == m {
			st.p.F["impossible"] = "1"
		}
	}
	return st.p.F["impossible"] != ""
}

// hclField: the field of a declaration with this role: "label0", "label1",
// "remain", or the name of an attribute or block.
func hclField(t types.Type, role string) int {
	s := derefStruct(t)
	if s == nil {
		return -1
	}
	labels := 0
	for i := 0; i < s.NumFields(); i++ {
		p := strings.Split(reflect.StructTag(s.Tag(i)).Get("hcl"), ",")
		kind := ""
		if len(p) > 1 {
			kind = p[1]
		}
		switch {
		case kind == "label":
			if role == "label"+string(rune('0'+labels)) {
				return i
			}
			labels++
		case kind == "remain":
			if role == "remain" {
				return i
			}
		case p[0] == role && p[0] != "":
			return i
		}
	}
	return -1
}

func (a *tsParseA) elemField(e *Engine, st *State, role string) *Val {
	el := st.p.V["elem"]
	if el == nil || el.typ == nil {
		return nil
	}
	i := hclField(el.typ, role)
	if i < 0 {
		return nil
	}
	return loadField(e, st, el, i)
}

func (a *tsParseA) run() {
	c := a.c
	fn := c.NeedMethod(tsParserPkg, "Parser", "Parse")
	setT, tgtT, taskT, facT := c.Type(tsTypesPkg, "TaskSet"), c.Type(tsTypesPkg, "Target"), c.Type(tsTypesPkg, "Task"), c.Type(tsTypesPkg, "TargetFactory")
	if fn == nil {
		return
	}
	if setT == nil || tgtT == nil || taskT == nil || facT == nil {
		c.Fail("anchor:types", fn.Pos(), "the types of package %s are not there", tsTypesPkg)
		return
	}
	recv := c.in.mk(OpParam, fn.Params[0].Type(), ssa.Value(fn.Params[0]))
	file := c.in.mk(OpParam, fn.Params[1].Type(), ssa.Value(fn.Params[1]))
	a.recv = recv
	bt := types.Typ[types.Bool]
	h := &Hooks{}
	a.lt = &LoopTrack{SkipCollectors: true}
	a.ef = &ErrFlow{Rule: "errors are returned",
		Skip: func(ev *CallEvent) bool { return strings.HasPrefix(ev.name, "fmt.") },
		Fail: func(e *Engine, st *State, key string, in ssa.Instruction, f string, x ...interface{}) {
			a.fail(e, st, "T04", key, instrPos(in), f, x...)
		}}
	hasErrors := func(e *Engine, d *Val) *Val { return e.in.mk(OpPure, bt, "HasErrors", unwrapConv(unwrap(d))) }
	diags := func(e *Engine, st *State) {
		a.ef.Branch(e, st)
		for _, d := range st.p.each("diag") {
			n, _ := st.p.get("diag", d)
			switch {
			case e.KnownNil(st, d):
				st.p.del("diag", d)
			case e.Decide(st, hasErrors(e, d)) == 0:
				st.p.del("diag", d)
			case e.Decide(st, hasErrors(e, d)) == 1:
				st.p.F["ef.failed"] = n
				st.p.del("diag", d)
			}
		}
	}
	clean := func(e *Engine, st *State, k string) bool { // nothing is wrong with it
		d := st.p.V[k]
		return d != nil && (e.KnownNil(st, d) || e.Decide(st, hasErrors(e, d)) == 0)
	}
	setMap := func(e *Engine, st *State, set *Val, name string) *Val { return e.namedField(st, set, name) }
	known := func(e *Engine, st *State, m, k *Val) bool {
		_, ok := e.lookup(st, m, k, m.typ.Underlying().(*types.Map).Elem())
		return e.Decide(st, ok) == 1
	}
	h.Call = func(e *Engine, ev *CallEvent) (*Val, bool) {
		if strings.HasSuffix(ev.name, "hcl.Diagnostics).HasErrors") {
			return hasErrors(e, ev.args[0]), true
		}
		if ev.invoke && strings.HasSuffix(ev.name, "TargetFactory).NewTarget") || ev.invoke && strings.HasSuffix(ev.name, "Target).NewTask") {
			// what is created is a new object; nothing else changes
			return e.opaqueResult(ev.st, ev.instr, ev), true
		}
		return nil, false
	}
	h.AfterCall = func(e *Engine, ev *CallEvent, res *Val) {
		st, pos := ev.st, instrPos(ev.instr)
		a.ef.AfterCall(e, ev, res)
		method := ev.name[strings.LastIndex(ev.name, ".")+1:]
		switch {
		case strings.HasSuffix(ev.name, "hclparse.Parser).ParseHCLFile"):
			if ev.args[1] != file {
				a.fail(e, st, "T04", "other-file", pos, "another file is read than the one that was asked for")
			}
			st.p.put("diag", res.a[1], "reading the file")
			st.p.V["file"], st.p.V["filed"] = res.a[0], res.a[1]
		case strings.HasSuffix(ev.name, "gohcl.DecodeBody"):
			dst := unwrap(ev.args[2])
			st.p.put("diag", res, "decoding")
			body := unwrap(ev.args[0])
			el := st.p.V["elem"]
			if f := st.p.V["file"]; f != nil && el == nil && derefStruct(dst.typ) != nil && body == unwrap(e.namedField(st, f, "Body")) {
				if !clean(e, st, "filed") {
					a.fail(e, st, "T04", "file-unchecked", pos, "the content of a file is used although reading it may have failed")
				}
				st.p.V["raw"], st.p.V["rawd"] = dst, res
				return
			}
			if cf := a.elemField(e, st, "remain"); cf != nil && body == unwrap(cf) && st.p.V["obj"] != nil && dst == unwrap(st.p.V["obj"]) {
				st.p.V["decd"] = res
				if a.c.check.ID == "T04" {
					e.Site("settings decoded", ev.instr)
				}
				return
			}
			a.fail(e, st, "T04", "decodes-other", pos, "something is decoded that is not the file or the settings of the target or task in question")
		case ev.invoke && method == "NewTarget":
			m := e.namedField(st, recv, "Targets")
			switch st.p.F["mode"] {
			case "D":
				if ev.args[0] != st.p.V["elem"] {
					a.fail(e, st, "T04", "default-class", pos, "a default target is not created by the factory of its type")
				}
			case "T":
				ty := a.elemField(e, st, "label0")
				if v, _ := e.lookup(st, m, ty, facT); ty == nil || ev.args[0] != v {
					a.fail(e, st, "T04", "target-class", pos, "a target is not created by the factory that is registered for its type")
				} else if !known(e, st, m, ty) && !e.KnownNonNil(st, v) {
					a.fail(e, st, "T04", "target-unregistered", pos, "it is not checked that the type of a target is registered")
				} else if c.check.ID == "T04" {
					e.Site("type of target known", ev.instr)
				}
			default:
				a.fail(e, st, "T04", "target-other", pos, "a target is created that is not declared")
			}
			st.p.V["obj"] = res
		case ev.invoke && method == "NewTask" && ev.results == 2:
			a.taskParts(e, st, ev)
			if res.op == OpTuple {
				st.p.V["obj"], st.p.V["newerr"] = res.a[0], res.a[1]
			}
		case ev.invoke && st.p.F["mode"] == "K" && st.p.V["obj"] != nil && unwrap(ev.args[0]) == unwrap(st.p.V["obj"]):
			a.declared(e, st, ev)
		}
	}
	h.Branch = func(e *Engine, st *State, in *ssa.If, cond *Val, taken bool) {
		if a.impossible(e, st) {
			st.dead = true
			return
		}
		diags(e, st)
		a.lt.Branch(e, st, in, taken)
	}
	h.Append = func(e *Engine, st *State, in ssa.CallInstruction, base, items, res *Val) {
		a.lt.Append(e, st, base, items, res)
	}
	h.Panic = func(e *Engine, st *State, in ssa.Instruction, v *Val) {
		a.fail(e, st, "T04", "panic", instrPos(in), "loading a task set may panic")
	}
	endElem := func(e *Engine, st *State, pos token.Pos) {
		if st.p.F["mode"] != "" && st.p.F["stored"] == "" {
			a.fail(e, st, "T04", "entry-lost:"+st.p.F["mode"], pos, "a declared target or task may be missing from the task set")
		}
		for _, k := range []string{"elem", "ekey", "obj", "newerr", "decd", "inner", "dupkey", "dupmap"} {
			delete(st.p.V, k)
		}
		for _, k := range []string{"mode", "stored", "dup", "declared"} {
			delete(st.p.F, k)
		}
	}
	which := func(e *Engine, st *State, over *Val) string {
		if over == e.namedField(st, recv, "Targets") {
			return "D"
		}
		if raw := st.p.V["raw"]; raw != nil {
			if i := hclField(raw.typ, "target"); i >= 0 && over == loadField(e, st, raw, i) {
				return "T"
			}
			if i := hclField(raw.typ, "task"); i >= 0 && over == loadField(e, st, raw, i) {
				return "K"
			}
		}
		return ""
	}
	before := map[string]string{"T": "D", "K": "T"}
	a.lt.OnElem = func(e *Engine, st *State, l *Loop, over, k, v *Val) {
		if m := which(e, st, over); m != "" {
			pos := instrPos(l.head.Instrs[0])
			endElem(e, st, pos)
			st.p.F["mode"] = m
			st.p.V["ekey"], st.p.V["elem"] = k, v
			if m != "D" && !clean(e, st, "rawd") {
				a.fail(e, st, "T04", "not-parsed", pos, "declarations are used although the file may not have been understood")
			}
			if b := before[m]; b != "" && st.p.F["done"+b] == "" {
				a.fail(e, st, "T04", "order:"+m, pos, "declarations are loaded before what they refer to or replace")
			}
		}
	}
	a.lt.OnEnd = func(e *Engine, st *State, l *Loop, over *Val) {
		if m := which(e, st, over); m != "" {
			endElem(e, st, instrPos(l.head.Instrs[0]))
			st.p.F["done"+m] = "1"
			if m == "D" && st.p.V["mapD"] == nil {
				st.p.F["notypes"] = "1"
			}
		}
	}
	h.PreMapUpdate = func(e *Engine, st *State, in *ssa.MapUpdate, m, k, v *Val) {
		mt, ok := in.Map.Type().Underlying().(*types.Map)
		if !ok {
			return
		}
		pos := instrPos(in)
		mode := st.p.F["mode"]
		id, ty := a.elemField(e, st, "label1"), a.elemField(e, st, "label0")
		names := func(k *Val) bool { // the key names the declaration
			if id == nil || ty == nil || !mentions(k, id) {
				return false
			}
			return mode == "K" || mentions(k, ty) && apart(k, id, ty)
		}
		fresh := func() bool { // the declaration is the first of its name
			if lv, lok := e.lookup(st, m, k, mt.Elem()); mode == "K" && (e.Decide(st, lok) == 0 || e.KnownNil(st, lv)) {
				return true
			}
			return st.p.F["dup"] != ""
		}
		switch {
		case types.Identical(mt.Elem(), tgtT):
			switch {
			case mode == "D":
				if s, ok := constStr(k); !ok || s != "" || v != st.p.V["obj"] {
					a.fail(e, st, "T04", "default-target", pos, "the default target of a type is not the nameless one its factory creates")
					return
				}
				st.p.V["inner"] = m
			case mode == "T":
				tm := st.p.V["mapD"]
				if tm == nil && m.op == OpPure && m.aux == "lookup" {
					tm = m.a[0]
					st.p.V["mapD"] = tm
				}
				if tm == nil {
					a.fail(e, st, "T04", "target-map", pos, "targets are added before there is a task set")
					return
				}
				grp, _ := e.lookup(st, tm, ty, m.typ)
				if m != grp || id == nil || unwrapConv(k) != unwrapConv(id) {
					a.fail(e, st, "T04", "target-name", pos, "a target is not added to the targets of its type under its own name")
					return
				}
				if v != st.p.V["obj"] {
					a.fail(e, st, "T04", "target-object", pos, "what is added is not the target that was created for the declaration")
					return
				}
				if !clean(e, st, "decd") {
					a.fail(e, st, "T04", "target-settings", pos, "a target is added although its settings may not have been understood")
					return
				}
				if !fresh() {
					a.fail(e, st, "T04", "target-twice", pos, "a second target of the same name silently replaces the first")
					return
				}
				st.p.F["stored"] = "1"
				if c.check.ID == "T04" {
					e.Site("entry loaded:T", in)
				}
			default:
				a.fail(e, st, "T04", "target-other", pos, "a target is added that is not declared")
			}
		case types.Identical(mt.Elem(), taskT):
			if x := st.p.V["mapK"]; mode != "K" || id == nil || unwrapConv(k) != unwrapConv(id) || x != nil && x != m {
				a.fail(e, st, "T04", "task-name", pos, "a task is not added under its own name")
				return
			}
			st.p.V["mapK"] = m
			if unwrap(v) != unwrap(st.p.V["obj"]) || !clean(e, st, "decd") || st.p.V["newerr"] == nil || !e.KnownNil(st, st.p.V["newerr"]) {
				a.fail(e, st, "T04", "task-object", pos, "what is added is not the task that was created for the declaration, with its settings")
				return
			}
			if !fresh() {
				a.fail(e, st, "T04", "task-twice", pos, "a second task of the same name silently replaces the first")
				return
			}
			st.p.F["stored"] = "1"
			if c.check.ID == "T04" {
				e.Site("entry loaded:K", in)
			}
			if c.check.ID == "T06" {
				a.mustDeclare(e, st, in)
			}
		case mt.Elem().Underlying() != nil && isTargetMap(mt.Elem(), tgtT):
			if mode != "D" || k != st.p.V["ekey"] || st.p.V["inner"] == nil || unwrapConv(v) != unwrapConv(st.p.V["inner"]) {
				a.fail(e, st, "T04", "default-target", pos, "the targets of a type are not those its factory creates")
				return
			}
			if x := st.p.V["mapD"]; x != nil && x != m {
				a.fail(e, st, "T04", "other-map", pos, "the targets do not end up in one task set")
			}
			st.p.V["mapD"] = m
			st.p.F["stored"] = "1"
			if c.check.ID == "T04" {
				e.Site("entry loaded:D", in)
			}
		default:
			// a set of the names that were seen
			if names(k) {
				lv, lok := e.lookup(st, m, k, mt.Elem())
				if e.Decide(st, lok) == 0 || isBool(mt.Elem()) && e.Decide(st, lv) == 0 {
					if b, isC := constBool(v); !isBool(mt.Elem()) || isC && b || e.Decide(st, lok) == 0 {
						st.p.F["dup"] = "1"
					}
				}
			}
		}
	}
	h.Delete = func(e *Engine, st *State, in ssa.CallInstruction, m, k *Val) {
		a.fail(e, st, "T04", "entry-removed", instrPos(in), "something is removed while a task set is loaded")
	}
	h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
		pos := instrPos(in)
		diags(e, st)
		err := errResult(res)
		if !a.ef.Return(e, st, in, err) {
			if !a.reason(e, st) {
				a.fail(e, st, "T04", "rejected", pos, "a task set may be rejected although nothing is wrong with it")
			}
			return
		}
		if !e.KnownNil(st, err) {
			a.fail(e, st, "T04", "unclear", pos, "it cannot be told whether loading succeeded")
			return
		}
		for _, d := range st.p.each("diag") {
			n, _ := st.p.get("diag", d)
			a.fail(e, st, "T04", "diagnostics-lost:"+n, pos, "a task set is returned although %s may have failed", n)
		}
		if !clean(e, st, "rawd") {
			a.fail(e, st, "T04", "not-parsed", pos, "a task set is returned that was not read from the file")
		}
		for m, n := range map[string]string{"D": "default targets", "T": "targets", "K": "tasks"} {
			if st.p.F["done"+m] == "" {
				a.fail(e, st, "T04", "incomplete:"+m, pos, "a task set is returned before all its %s were loaded", n)
			}
		}
		for k, n := range map[string]string{"mapD": "Targets", "mapK": "Tasks"} {
			if m := st.p.V[k]; m != nil {
				if got := setMap(e, st, res[0], n); got == nil || unwrapConv(got) != unwrapConv(m) {
					a.fail(e, st, "T04", "other-result:"+n, pos, "the %s of the task set are not those that were loaded", strings.ToLower(n))
				}
			}
		}
		if c.check.ID == "T04" {
			e.Site("complete task set returned", in)
		}
	}
	e := NewEngine(c.Program, h)
	e.Run(e.Start(fn, nil, newP(), "Parse"))
	c.Merge(e, "Parser.Parse")
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isTargetMap(t types.Type, el types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && types.Identical(m.Elem(), el)
}

// apart: a text made of two names says which two they are.
func apart(k, id, ty *Val) bool {
	k = unwrapConv(k)
	if k.op != OpBin || k.aux != token.ADD || ty == nil {
		return true
	}
	var parts []*Val
	var flat func(v *Val)
	flat = func(v *Val) {
		if v = unwrapConv(v); v.op == OpBin && v.aux == token.ADD {
			flat(v.a[0])
			flat(v.a[1])
			return
		}
		parts = append(parts, v)
	}
	flat(k)
	last := -1
	for i, v := range parts {
		if v != unwrapConv(id) && v != unwrapConv(ty) {
			continue
		}
		if last >= 0 && last+1 == i && parts[last] != v {
			return false
		}
		last = i
	}
	return true
}

// reason: something is wrong with the task set on this path.
func (a *tsParseA) reason(e *Engine, st *State) bool {
	if st.p.F["ef.failed"] != "" || len(st.p.each("diag")) > 0 {
		return true // reported as they are
	}
	if x := st.p.V["newerr"]; x != nil && !e.KnownNil(st, x) {
		return true
	}
	if st.p.F["notypes"] != "" && st.p.F["mode"] != "" {
		return true // no type is known
	}
	id := a.elemField(e, st, "label1")
	for f, b := range st.facts {
		if f.op == OpBin && f.aux == token.EQL && isNilConst(f.a[1]) && f.a[0].op == OpPure && f.a[0].aux == "lookup" {
			f, b = f.a[0], !b
		}
		if f.op == OpPure && (f.aux == "lookupok" || f.aux == "lookup") {
			// unknown, or declared before
			dup := id != nil && mentions(f.a[1], id) && apart(f.a[1], id, a.elemField(e, st, "label0"))
			if dup == b {
				return true
			}
		}
	}
	return false
}

// taskParts: a task is created by the target it names, of the type it names.
func (a *tsParseA) taskParts(e *Engine, st *State, ev *CallEvent) {
	pos := instrPos(ev.instr)
	bad := func(key, f string) { a.fail(e, st, "T04", key, pos, f) }
	ty, tgt := a.elemField(e, st, "label0"), a.elemField(e, st, "target")
	if st.p.F["mode"] != "K" || ty == nil || tgt == nil {
		bad("task-other", "a task is created that is not declared")
		return
	}
	split := func(v *Val) (m, k *Val, ok bool) {
		if v.op == OpPure && v.aux == "lookup" {
			if e.Decide(st, e.in.mk(OpPure, types.Typ[types.Bool], "lookupok", v.a...)) != 1 && !e.KnownNonNil(st, v) {
				bad("task-target-unchecked", "it is not checked that the target of a task is known")
			}
			return v.a[0], v.a[1], true
		}
		return nil, nil, false
	}
	grp, key, ok := split(ev.args[0])
	if !ok || unwrapConv(key) != unwrapConv(tgt) {
		bad("task-target", "a task is not created by the target it names")
		return
	}
	all, kind, ok := split(grp)
	if !ok || st.p.V["mapD"] != nil && all != st.p.V["mapD"] {
		bad("task-target", "a task is not created by one of the targets of its type")
		return
	}
	idx := e.index(ty, e.cstr("/"))
	it, bt := types.Typ[types.Int], types.Typ[types.Bool]
	d1 := e.Decide(st, e.binop(token.LSS, idx, e.cint(0), it, bt))
	d2 := e.Decide(st, e.binop(token.EQL, idx, e.cint(-1), it, bt))
	none, some := d1 == 1 || d2 == 1, d1 == 0 || d2 == 0
	cls := ev.args[1]
	s, isC := constStr(cls)
	kp, cp := slashPart(e, st, kind, ty), slashPart(e, st, cls, ty)
	byCut := func(v *Val) bool { return v.op == OpPure && (v.aux == "cut0" || v.aux == "cut1") }
	switch {
	case kp == "head" && cp == "tail" && byCut(kind) == byCut(cls) && (byCut(kind) || some):
	case none && (kp == "whole" || kp == "head" && byCut(kind)) && (isC && s == "" || cp == "tail" && byCut(cls)):
	default:
		bad("task-class", "the kind of target and of task that are used are not the parts of the declared type before and after the first slash")
		return
	}
	if a.c.check.ID == "T04" {
		e.Site("target and type of the task", ev.instr)
	}
}

// ------------------------------------------------------------------ T06

var tsLists = map[string]string{"after": "After", "provides": "Provide", "requires": "Require"}

// declared: a method of the task is given the lists of the declaration.
func (a *tsParseA) declared(e *Engine, st *State, ev *CallEvent) {
	name := ev.name[strings.LastIndex(ev.name, ".")+1:]
	roles := map[int]string{}
	for i, v := range ev.args[1:] {
		for hcl, f := range tsLists {
			if x := a.elemField(e, st, hcl); x != nil && unwrapConv(v) == unwrapConv(x) {
				roles[i] = f
			}
		}
	}
	if len(roles) == 0 {
		return
	}
	for i, f := range a.setter(name) {
		if roles[i] == f {
			st.p.F["declared"] += "," + f
		} else if roles[i] != "" {
			a.fail(e, st, "T06", "mixed-up:"+f, instrPos(ev.instr), "the list %s of a task is set to what is declared as %s", f, roles[i])
		}
	}
}

// setter: which parameter of a method of tasks ends up in which list.
func (a *tsParseA) setter(name string) map[int]string {
	c := a.c
	fn := c.Method(tsBasePkg, "Task", name)
	if fn == nil || fn.Blocks == nil {
		return nil
	}
	c.Analysed(fn)
	r := map[int]string{}
	first := true
	h := &Hooks{}
	h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
		if len(st.frames) > 1 {
			return
		}
		here := map[int]string{}
		recv := c.in.mk(OpParam, fn.Params[0].Type(), ssa.Value(fn.Params[0]))
		for _, f := range tsLists {
			v := e.namedField(st, recv, f)
			for i, p := range fn.Params[1:] {
				if v == c.in.mk(OpParam, p.Type(), ssa.Value(p)) {
					here[i] = f
				}
			}
		}
		if first {
			r, first = here, false
			return
		}
		for i := range r {
			if here[i] != r[i] {
				delete(r, i)
			}
		}
	}
	e := NewEngine(c.Program, h)
	e.Run(e.Start(fn, nil, newP(), name))
	return r
}

// mustDeclare: the task that is added knows its lists, or cannot have any.
func (a *tsParseA) mustDeclare(e *Engine, st *State, in *ssa.MapUpdate) {
	got := st.p.F["declared"]
	for hcl, f := range tsLists {
		if a.elemField(e, st, hcl) == nil {
			a.fail(e, st, "T06", "undeclarable:"+hcl, instrPos(in), "tasks cannot declare %q", hcl)
			continue
		}
		if !strings.Contains(got+",", ","+f+",") {
			if a.neverFalse(st) {
				continue
			}
			a.fail(e, st, "T06", "list-lost:"+f, instrPos(in), "what a task declares as %q is lost", hcl)
			continue
		}
		e.Site("list recorded", in)
		a.c.OK("list recorded", hcl)
	}
}

// neverFalse: on this path the task lacks methods that all tasks have.
func (a *tsParseA) neverFalse(st *State) bool {
	obj := st.p.V["obj"]
	task := a.c.Type(tsTypesPkg, "Task")
	for f, b := range st.facts {
		if b || f.op != OpPure || obj == nil || f.a[0] != obj {
			continue
		}
		s, ok := f.aux.(string)
		if !ok || !strings.HasPrefix(s, "typeis:") {
			continue
		}
		all := true
		n := 0
		for _, t := range a.c.typesImplementing(task.Underlying().(*types.Interface)) {
			if t.Obj().Pkg() == nil || !strings.HasPrefix(t.Obj().Pkg().Path(), pkgPath("internal/taskset/")) {
				continue
			}
			n++
			if !a.hasAsserted(s, t) {
				all = false
				a.c.Fail("undeclarable:"+shortName(t.String()), t.Obj().Pos(), "tasks of type %s do not record what they depend on", t)
			}
		}
		if all && n > 0 {
			return true
		}
	}
	return false
}

// hasAsserted: t implements the interface that an assertion asks for.
func (a *tsParseA) hasAsserted(key string, t *types.Named) bool {
	for _, f := range a.c.all {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != pkgPath(tsParserPkg) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ta, ok := in.(*ssa.TypeAssert)
				if !ok || "typeis:"+typeKey(ta.AssertedType) != key {
					continue
				}
				i, ok := ta.AssertedType.Underlying().(*types.Interface)
				return ok && types.Implements(types.NewPointer(t), i)
			}
		}
	}
	return false
}

// lists: what Dependencies and Provides report.
func (a *tsParseA) lists() {
	c := a.c
	dep, prov := c.NeedMethod(tsBasePkg, "Task", "Dependencies"), c.NeedMethod(tsBasePkg, "Task", "Provides")
	if dep == nil || prov == nil {
		return
	}
	{
		recv := c.in.mk(OpParam, prov.Params[0].Type(), ssa.Value(prov.Params[0]))
		h := &Hooks{}
		h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
			if len(st.frames) > 1 {
				return
			}
			if v := e.namedField(st, recv, "Provide"); v == nil || res[0] != v {
				e.Report(st, "provides", instrPos(in), "what a task provides is not what it declares")
				return
			}
			c.OK("list reported", "Provide")
		}
		e := NewEngine(c.Program, h)
		e.Run(e.Start(prov, nil, newP(), "Provides"))
		c.Merge(e, "Provides")
	}
	recv := c.in.mk(OpParam, dep.Params[0].Type(), ssa.Value(dep.Params[0]))
	prefix := map[string]string{"After": "task:", "Require": ""}
	order := []string{"After", "Require"}
	h := &Hooks{}
	lt := &LoopTrack{}
	field := func(e *Engine, st *State, over *Val) string {
		for _, f := range order {
			if over == e.namedField(st, recv, f) {
				return f
			}
		}
		return ""
	}
	lost := func(e *Engine, st *State, pos token.Pos) {
		if st.p.F["in"] != "" {
			e.Report(st, "lost:"+st.p.F["in"], pos, "an element of %s may not be reported", st.p.F["in"])
		}
		delete(st.p.F, "in")
		delete(st.p.V, "el")
	}
	lt.OnElem = func(e *Engine, st *State, l *Loop, over, k, v *Val) {
		if f := field(e, st, over); f != "" {
			lost(e, st, instrPos(l.head.Instrs[0]))
			st.p.F["in"], st.p.F["is"] = f, f
			st.p.V["el"] = v
		}
	}
	lt.OnEnd = func(e *Engine, st *State, l *Loop, over *Val) {
		if f := field(e, st, over); f != "" {
			lost(e, st, instrPos(l.head.Instrs[0]))
			if st.p.F["fed:"+f] != "" || st.p.F["is"] == "" {
				st.p.F["all:"+f] = "y"
			}
			delete(st.p.F, "is")
			delete(st.p.F, "fed:"+f)
		}
	}
	h.Branch = func(e *Engine, st *State, in *ssa.If, cond *Val, taken bool) { lt.Branch(e, st, in, taken) }
	grow := func(e *Engine, st *State, in ssa.Instruction, base *Val) bool {
		cur := st.p.V["list"]
		if cur == nil {
			if !e.emptySlice(st, base) {
				e.Report(st, "base", instrPos(in), "the dependencies of a task do not start with an empty list")
				return false
			}
			return true
		}
		if base != cur {
			e.Report(st, "base", instrPos(in), "dependencies of a task are lost")
			return false
		}
		return true
	}
	h.Append = func(e *Engine, st *State, in ssa.CallInstruction, base, items, res *Val) {
		pos := instrPos(in)
		if f := field(e, st, items); f != "" {
			if !grow(e, st, in, base) {
				return
			}
			if prefix[f] != "" {
				e.Report(st, "prefix:"+f, pos, "the elements of %s are not marked as tasks", f)
			}
			if st.p.F["all:"+f] != "" {
				e.Report(st, "twice:"+f, pos, "the elements of %s are reported twice", f)
			}
			st.p.F["all:"+f] = "y"
			st.p.V["list"] = res
			return
		}
		its := e.sliceItems(st, items)
		f := st.p.F["in"]
		if len(its) != 1 || f == "" {
			e.Report(st, "other", pos, "something else than the declared dependencies is reported")
			return
		}
		if !grow(e, st, in, base) {
			return
		}
		want := st.p.V["el"]
		ok := false
		if p := prefix[f]; p == "" {
			ok = its[0] == want
		} else {
			x := its[0]
			ok = x.op == OpBin && x.aux == token.ADD && x.a[1] == want && x.a[0] == e.cstr(p)
			if pieces, known := e.textPieces(st, x); !ok && known {
				ok = len(pieces) == 2 && pieces[0] == e.cstr(p) && pieces[1] == want
			}
		}
		if !ok {
			e.Report(st, "element:"+f, pos, "an element of %s is not reported as it should be", f)
		}
		delete(st.p.F, "in")
		st.p.F["fed:"+f] = "y"
		st.p.V["list"] = res
	}
	h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
		if len(st.frames) > 1 {
			return
		}
		for _, f := range order {
			v := e.namedField(st, recv, f)
			if st.p.F["all:"+f] == "" && !(v != nil && e.emptySlice(st, v)) {
				e.Report(st, "missing:"+f, instrPos(in), "the elements of %s may not be reported", f)
				return
			}
		}
		if l := st.p.V["list"]; l != nil && res[0] != l {
			e.Report(st, "result", instrPos(in), "what is returned is not the list of dependencies")
			return
		}
		c.OK("list reported", "After, Require")
	}
	e := NewEngine(c.Program, h)
	e.Run(e.Start(dep, nil, newP(), "Dependencies"))
	c.Merge(e, "Dependencies")
}

// textPieces: the operands of a concatenation.
func (e *Engine) textPieces(st *State, v *Val) ([]*Val, bool) {
	if v.op == OpBin && v.aux == token.ADD {
		l, _ := e.textPieces(st, v.a[0])
		r, _ := e.textPieces(st, v.a[1])
		return append(l, r...), true
	}
	if v.op == OpPure {
		if s, ok := v.aux.(string); ok && (s == "fmt.Sprint" || s == "fmt.Sprintf") {
			return nil, false
		}
	}
	return []*Val{v}, true
}

// ------------------------------------------------------------------ T07

// snake: ThisName becomes this_name.
func snake(s string) string {
	var b strings.Builder
	rs := []rune(s)
	for i, r := range rs {
		if unicode.IsUpper(r) && i > 0 && (unicode.IsLower(rs[i-1]) || i+1 < len(rs) && unicode.IsLower(rs[i+1])) {
			b.WriteByte('_')
		}
		b.WriteRune(unicode.ToLower(r))
	}
	return b.String()
}

func runT07(c *Ctx) {
	tgt, task, fac := c.Type(tsTypesPkg, "Target"), c.Type(tsTypesPkg, "Task"), c.Type(tsTypesPkg, "TargetFactory")
	if tgt == nil || task == nil || fac == nil {
		c.Fail("anchor:types", token.NoPos, "the types of package %s are not there", tsTypesPkg)
		return
	}
	mine := func(n *types.Named) bool {
		return n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), pkgPath("internal/taskset/")) && !strings.HasSuffix(n.Obj().Pkg().Path(), "/base")
	}
	for _, i := range []*types.Named{tgt, task} {
		for _, n := range c.typesImplementing(i.Underlying().(*types.Interface)) {
			if mine(n) {
				c.hclSettings(n)
			}
		}
	}
	for _, n := range c.typesImplementing(fac.Underlying().(*types.Interface)) {
		fn := c.methodOf(n, "NewTarget")
		if !mine(n) || fn == nil {
			continue
		}
		fs := derefStruct(n)
		label := n.Obj().Pkg().Name()
		recv := c.in.mk(OpParam, fn.Params[0].Type(), ssa.Value(fn.Params[0]))
		h := &Hooks{}
		h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
			if len(st.frames) > 1 {
				return
			}
			o := unwrap(res[0])
			s := (*types.Struct)(nil)
			if o.typ != nil {
				s = derefStruct(o.typ)
			}
			if s == nil || o.op != OpAlloc {
				e.Report(st, "target:"+label, instrPos(in), "a factory does not create a new target")
				return
			}
			for i := 0; i < fs.NumFields(); i++ {
				want := loadField(e, st, recv, i)
				found := false
				for j := 0; j < s.NumFields(); j++ {
					if !types.Identical(s.Field(j).Type(), fs.Field(i).Type()) || !strings.EqualFold(s.Field(j).Name(), fs.Field(i).Name()) {
						continue
					}
					found = true
					if unwrap(loadField(e, st, o, j)) != unwrap(want) {
						e.Report(st, "factory:"+label+"."+fs.Field(i).Name(), instrPos(in), "%s of a target is not the one its factory was given", fs.Field(i).Name())
					} else {
						c.OK("setting of the factory used", label+"."+fs.Field(i).Name())
					}
				}
				if !found {
					e.Report(st, "factory:"+label+"."+fs.Field(i).Name(), instrPos(in), "%s of a factory is not used", fs.Field(i).Name())
				}
			}
			// what a target is unless it is declared otherwise
			for j := 0; j < s.NumFields(); j++ {
				if strings.Contains(s.Tag(j), `"max_concurrency`) {
					v := loadField(e, st, o, j)
					if k, ok := constInt(v); !ok || k != 1 {
						e.Report(st, "default:"+label+".max_concurrency", instrPos(in), "unless declared otherwise, tasks of a target are not run one at a time")
						continue
					}
					c.OK("one task at a time by default", label)
				}
			}
		}
		e := NewEngine(c.Program, h)
		e.Run(e.Start(fn, nil, newP(), "NewTarget"))
		c.Merge(e, fn.String())
	}
	c.Floor("setting can be declared", 5)
	c.Floor("setting of the factory used", 4)
	c.Floor("one task at a time by default", 1)
}

// hclSettings: every setting can be declared under its name.
func (c *Ctx) hclSettings(n *types.Named) {
	s := derefStruct(n)
	if s == nil {
		return
	}
	seen := map[string]string{}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !f.Exported() || f.Embedded() {
			if strings.Contains(s.Tag(i), "hcl:") {
				c.Fail("hidden:"+shortName(n.String())+"."+f.Name(), f.Pos(), "%s.%s has a name for declarations, but cannot be set by them: loading panics", n, f.Name())
			}
			continue
		}
		label := shortName(n.String()) + "." + f.Name()
		p := strings.Split(reflect.StructTag(s.Tag(i)).Get("hcl"), ",")
		switch {
		case p[0] != snake(f.Name()):
			c.Fail("name:"+label, f.Pos(), "the setting %s cannot be declared as %q", label, snake(f.Name()))
		case seen[p[0]] != "":
			c.Fail("name:"+label, f.Pos(), "the settings %s and %s have the same name", label, seen[p[0]])
		case len(p) > 1 && p[1] != "optional" && p[1] != "attr":
			c.Fail("kind:"+label, f.Pos(), "the setting %s is not declared as an attribute", label)
		default:
			c.OK("setting can be declared", label)
		}
		seen[p[0]] = label
	}
}

func init() {
	register(&Check{ID: "T04", Technique: "static analysis: path-sensitive error-flow and typestate analysis",
		Explanation: "Every path of Parser.Parse of task sets is interpreted with a symbolic file: each declaration has to be created by the factory or target it names, decoded from its own settings with the diagnostics known to be free of errors, be the first of its name, and be added under it; a task set may only be returned after all declarations were traversed, and only be rejected for one of these reasons.",
		Assumptions: []string{"hclparse and gohcl behave as documented."},
		Run: func(c *Ctx) {
			(&tsParseA{c: c}).run()
			c.newObjects(tsTypesPkg, map[string]string{"TargetFactory": "NewTarget", "Target": "NewTask"})
			c.Floor("entry loaded:D", 1)
			c.Floor("entry loaded:T", 1)
			c.Floor("entry loaded:K", 1)
			c.Floor("settings decoded", 1)
			c.Floor("type of target known", 1)
			c.Floor("target and type of the task", 1)
			c.Floor("complete task set returned", 1)
		}})
	register(&Check{ID: "T06", Technique: "static analysis: path-sensitive dataflow from declarations to dependency lists",
		Explanation: "Every path of Parser.Parse that adds a task must have handed its after, provides and requires lists to it, in these roles; Dependencies and Provides are interpreted to report exactly these lists.",
		Run: func(c *Ctx) {
			a := &tsParseA{c: c}
			a.run()
			a.lists()
			c.Floor("list recorded", 3)
			c.Floor("list reported", 2)
		}})
	register(&Check{ID: "T07", Technique: "static analysis: schema analysis of struct tags and field-to-field dataflow",
		Explanation: "Every exported setting of targets and tasks is examined for the name it can be declared under; the factories are interpreted to hand their settings to their targets.",
		Run:         runT07})
}
