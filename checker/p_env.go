package main

// R09: the environment of shell tasks.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const shPkg = "internal/runbook/sh"

type envA struct {
	c             *Ctx
	recv, environ *Val
	lt            *LoopTrack
}

func runR09(c *Ctx) {
	fn := c.NeedMethod(shPkg, "Env", "Apply")
	if fn == nil {
		return
	}
	if len(fn.Params) != 2 || c.Type(shPkg, "Env") == nil {
		c.Fail("anchor:Apply", fn.Pos(), "Env.Apply does not take the variables to filter")
		return
	}
	have := map[string]bool{}
	st := c.Type(shPkg, "Env").Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		have[st.Field(i).Name()] = true
	}
	for _, n := range []string{"Allow", "Deny", "Set"} {
		if !have[n] {
			c.Fail("anchor:Env."+n, fn.Pos(), "Env has no field %s", n)
			return
		}
	}
	a := &envA{c: c, lt: &LoopTrack{SkipCollectors: true}}
	a.recv = c.in.mk(OpParam, fn.Params[0].Type(), ssa.Value(fn.Params[0]))
	a.environ = c.in.mk(OpParam, fn.Params[1].Type(), ssa.Value(fn.Params[1]))
	h := &Hooks{}
	h.Opaque = inPkg(shPkg)
	a.lt.OnElem, a.lt.OnEnd = a.elem, a.end
	h.Branch = func(e *Engine, st *State, in *ssa.If, cond *Val, taken bool) {
		a.record(e, st)
		a.contains(e, st)
		a.lt.Branch(e, st, in, taken)
	}
	h.Append = func(e *Engine, st *State, in ssa.CallInstruction, base, items, res *Val) {
		a.lt.Append(e, st, base, items, res)
		a.append(e, st, in, base, items, res)
	}
	h.PreMapUpdate = a.update
	h.Delete = func(e *Engine, st *State, in ssa.CallInstruction, m, k *Val) {
		if e.emptyMap(st, m) {
			return
		}
		if t, _ := st.p.get("member", m); strings.HasPrefix(t, "set") && (k == st.p.V["key"] || st.p.V["kv"] != nil && a.key(e, st, k, instrPos(in))) {
			if a.in(e, st, m, k) != 0 {
				st.p.F["upd"] = "del"
			}
			if !strings.HasSuffix(t, "-rest") {
				t += "-rest"
			}
			a.record(e, st)
			st.p.put("member", m, t)
			return
		}
		e.Report(st, "delete", instrPos(in), "entries are removed from a map")
	}
	h.MapRead = func(e *Engine, st *State, in *ssa.Lookup, m, k, v *Val) { a.lookup(e, st, m, k, instrPos(in)) }
	h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) { a.ret(e, st, in, res[0]) }
	e := NewEngine(c.Program, h)
	e.Run(e.Start(fn, nil, newP(), "Apply"))
	c.Merge(e, "Env.Apply")
	c.Floor("variable filtered by the rules", 1)
	c.Floor("variables set", 1)
	c.Floor("environment returned", 1)
	c.envUse(fn)
	c.inputKept(fn, 1, "input-changed", "the variables to filter are overwritten, and with them the environment of other tasks")
	c.declaredSettings(shPkg, true, true, func(id string) bool { return strings.HasPrefix(id, shPkg+".Env.") || strings.HasSuffix(id, ".Env") })
}

// kind: which of the rules a list or map is.
func (a *envA) kind(v *Val) string {
	if v == nil {
		return ""
	}
	v = unwrapConv(v)
	id := loadID(v)
	if !strings.HasPrefix(id, shPkg+".Env.") || !mentions(v, a.recv) {
		return ""
	}
	return strings.ToLower(strings.TrimPrefix(id, shPkg+".Env."))
}

func (a *envA) rule(e *Engine, st *State, name string) *Val { return e.namedField(st, a.recv, name) }

func (a *envA) elem(e *Engine, st *State, l *Loop, over, k, v *Val) {
	if over == a.environ {
		a.judge(e, st, l)
		for f := range st.p.F {
			if strings.HasPrefix(f, "d:") {
				delete(st.p.F, f)
			}
		}
		for _, f := range []string{"app", "upd", "cmp:allow", "cmp:deny"} {
			delete(st.p.F, f)
		}
		delete(st.p.V, "key")
		st.p.V["kv"] = v
		st.p.F["it"] = "open"
		return
	}
	kd := a.kind(over)
	switch kd {
	case "allow", "deny":
		st.p.F["seen:"+kd] = "y"
		cover{kd}.elem(st)
		st.p.V["el:"+kd] = v
		if st.p.F["it"] != "" {
			a.contains(e, st)
			if st.p.F["cmp:"+kd] == "" || st.p.F["cmp:"+kd] == "no" {
				st.p.F["cmp:"+kd] = "open"
			} else if st.p.F["cmp:"+kd] == "open" {
				st.p.F["cmp:"+kd] = "bad" // an element was not compared
			}
		}
		return
	}
	if t, _ := st.p.get("member", over); kd == "set" || strings.HasPrefix(t, "set") {
		if kd == "set" {
			st.p.F["seen:set"] = "y"
		}
		a.closeFinal(e, st)
		cover{"setbuild"}.elem(st)
		cover{"final"}.elem(st)
		st.p.V["fk"], st.p.V["fv"], st.p.V["fm"] = k, v, over
	}
}

func (a *envA) end(e *Engine, st *State, l *Loop, over *Val) {
	if over == a.environ {
		a.judge(e, st, l)
		st.p.F["environ"] = "all"
		delete(st.p.F, "it")
		delete(st.p.V, "kv")
		delete(st.p.V, "key")
		return
	}
	kd := a.kind(over)
	if kd != "" && st.p.F["seen:"+kd] == "" {
		st.p.F["none:"+kd] = "y"
	}
	switch kd {
	case "allow", "deny":
		cv := cover{kd}
		if st.p.F["it"] != "" {
			a.contains(e, st)
			if c := st.p.F["cmp:"+kd]; c == "no" || c == "" {
				st.p.F["d:in:"+kd] = "0"
			}
		}
		cv.end(st)
		if m := st.p.V["map:"+kd]; m != nil && cv.all(st) {
			if t, ok := st.p.get("member", m); !ok || t == kd {
				st.p.put("member", m, kd)
			} else {
				st.p.put("member", m, "mixed")
			}
		}
		delete(st.p.V, "map:"+kd)
		delete(st.p.V, "el:"+kd)
		cv.reset(st)
		return
	}
	if t, _ := st.p.get("member", over); kd == "set" || strings.HasPrefix(t, "set") {
		a.closeFinal(e, st)
		b := cover{"setbuild"}
		b.end(st)
		cover{"final"}.end(st)
		if m := st.p.V["map:set"]; m != nil && b.all(st) {
			st.p.put("member", m, "set"+st.p.F["raw"])
		}
		delete(st.p.F, "raw")
		b.reset(st)
		delete(st.p.V, "map:set")
		for _, k := range []string{"fk", "fv", "fm"} {
			delete(st.p.V, k)
		}
	}
}

// closeFinal: an element of the set rules needs no addition if it is known to have been added.
func (a *envA) closeFinal(e *Engine, st *State) {
	k := st.p.V["fk"]
	if k == nil || st.p.F["cv:final"] != "open" {
		return
	}
	for _, m := range st.p.each("upd") {
		if t, _ := st.p.get("upd", m); t == "y" && a.in(e, st, m, k) == 1 {
			cover{"final"}.done(st)
		}
	}
}

// in: whether the map has the key.
func (a *envA) in(e *Engine, st *State, m, k *Val) int {
	mt, ok := m.typ.Underlying().(*types.Map)
	if !ok {
		return -1
	}
	v, has := e.lookup(st, m, k, mt.Elem())
	if b, ok := mt.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
		if d := e.Decide(st, v); d >= 0 {
			return d
		}
	}
	return e.Decide(st, has)
}

// lookup checks that what is looked up is the name of the variable at hand.
func (a *envA) lookup(e *Engine, st *State, m, k *Val, pos token.Pos) {
	kv := st.p.V["kv"]
	if kv == nil {
		return
	}
	a.key(e, st, k, pos)
}

func (a *envA) key(e *Engine, st *State, k *Val, pos token.Pos) bool {
	kv := st.p.V["kv"]
	if old := st.p.V["key"]; old == k {
		return true
	} else if old != nil {
		e.Report(st, "name", pos, "a variable is looked up by several names")
		return false
	}
	idx := e.index(kv, e.cstr("="))
	_, hi := e.interval(st, idx)
	ok := false
	switch splitPart(e, st, k, kv, "=") {
	case "head":
		ok = true
	case "whole":
		// also when there is nothing before the first "="
		head := e.in.mk(OpSlice, kv.typ, "h", kv, idx)
		ok = hi <= 0 || e.Decide(st, e.binop(token.EQL, head, e.cstr(""), kv.typ, types.Typ[types.Bool])) == 1
	}
	if !ok {
		e.Report(st, "name", pos, "a variable is looked up by something else than its name")
		return false
	}
	st.p.V["key"] = k
	return true
}

// contains follows loops that compare the name with the entries of a list.
func (a *envA) contains(e *Engine, st *State) {
	for _, kd := range []string{"allow", "deny"} {
		x := st.p.V["el:"+kd]
		if x == nil || st.p.F["it"] == "" || st.p.F["cmp:"+kd] != "open" {
			continue
		}
		kv := st.p.V["kv"]
		cands := []*Val{st.p.V["key"]}
		if cands[0] == nil {
			idx := e.index(kv, e.cstr("="))
			cands = []*Val{e.in.mk(OpSlice, kv.typ, "h", kv, idx), e.in.mk(OpPure, kv.typ, "cut0", kv, e.cstr("="))}
			if _, hi := e.interval(st, idx); hi <= 0 {
				cands = append(cands, kv)
			}
		}
		for _, k := range cands {
			switch e.Decide(st, e.binop(token.EQL, x, k, k.typ, types.Typ[types.Bool])) {
			case 1:
				st.p.F["d:in:"+kd] = "1"
				st.p.F["cmp:"+kd] = "yes"
				st.p.V["key"] = k
			case 0:
				st.p.F["cmp:"+kd] = "no"
				st.p.V["key"] = k
			}
		}
	}
}

// record keeps what is known about the variable at hand.
func (a *envA) record(e *Engine, st *State) {
	if st.p.F["it"] == "" {
		return
	}
	set := func(n string, d int) {
		if d >= 0 {
			st.p.F["d:"+n] = itoa(d)
		}
	}
	it, bt := types.Typ[types.Int], types.Typ[types.Bool]
	some := func(v *Val) int { return e.Decide(st, e.binop(token.LSS, e.cint(0), v, it, bt)) }
	key := st.p.V["key"]
	for _, kd := range []string{"allow", "deny", "set"} {
		l := a.rule(e, st, strings.Title(kd))
		set("some:"+kd, some(e.lenOf(l)))
		if e.KnownNil(st, l) || st.p.F["none:"+kd] != "" {
			set("some:"+kd, 0)
		}
		for _, m := range st.p.each("member") {
			if t, _ := st.p.get("member", m); t == kd || t == kd+"raw" {
				if n := e.mapLen(st, m); n != nil {
					set("some:"+kd, some(n))
				}
				if key != nil {
					set("in:"+kd, a.in(e, st, m, key))
				}
			}
		}
		if kd == "set" && key != nil {
			in := a.in(e, st, l, key)
			set("in:set", in)
			if in == 1 && st.p.F["none:set"] != "" {
				st.dead = true // nothing is in a map without entries
			}
		}
		if st.p.F["d:in:"+kd] == "1" {
			st.p.F["d:some:"+kd] = "1"
		}
		if st.p.F["d:some:"+kd] == "0" {
			st.p.F["d:in:"+kd] = "0"
		}
	}
}

// mapLen: the length of a map.
func (e *Engine) mapLen(st *State, m *Val) *Val {
	if e.emptyMap(st, m) {
		return e.cint(0)
	}
	args := []*Val{m}
	if ver := e.mapVer(st, m); ver != nil {
		args = append(args, ver)
	}
	return e.in.mk(OpPure, types.Typ[types.Int], "len", args...)
}

// judge decides about the variable of an iteration.
func (a *envA) judge(e *Engine, st *State, l *Loop) {
	if st.p.F["it"] == "" {
		return
	}
	pos := instrPos(l.head.Instrs[len(l.head.Instrs)-1])
	app := st.p.F["app"]
	can := func(n string) []bool {
		switch st.p.F["d:"+n] {
		case "0":
			return []bool{false}
		case "1":
			return []bool{true}
		}
		return []bool{false, true}
	}
	for _, s := range can("in:set") {
		if s {
			if app == "kv" {
				e.Report(st, "set:old", pos, "a variable that is to be set may keep its old value")
				return
			}
			if app == "" && st.p.F["upd"] != "" {
				e.Report(st, "set:lost", pos, "a variable is noted as set although it was not")
				return
			}
			continue
		}
		if app == "set" {
			e.Report(st, "set:other", pos, "a variable that is not to be set is replaced")
			return
		}
		for _, some := range can("some:allow") {
			ins := []bool{false}
			if some {
				ins = can("in:allow")
			}
			for _, in := range ins {
				for _, deny := range can("in:deny") {
					keep := in
					if !some {
						keep = !deny
					}
					if keep == (app == "kv") {
						continue
					}
					what, why := "kept", "is on the deny list"
					if keep {
						what, why = "removed", "is not on the deny list"
					}
					if some {
						why = "is not on the allow list"
						if keep {
							why = "is on the allow list"
						}
					}
					e.Report(st, "filter:"+what, pos, "a variable that %s may be %s", why, what)
					return
				}
			}
		}
	}
	if st.p.F["upd"] == "y" && app != "set" {
		e.Report(st, "set:lost", pos, "a variable is noted as set although it was not")
		return
	}
	a.c.OK("variable filtered by the rules", "Apply:"+app)
}

func pairOf(e *Engine, v, k, val *Val) bool {
	st := types.Typ[types.String]
	for _, t := range []*Val{
		e.binop(token.ADD, e.binop(token.ADD, k, e.cstr("="), st, st), val, st, st),
		e.binop(token.ADD, k, e.binop(token.ADD, e.cstr("="), val, st, st), st, st),
	} {
		if v == t {
			return true
		}
	}
	return false
}

func (a *envA) append(e *Engine, st *State, in ssa.CallInstruction, base, items, res *Val) {
	_, isAcc := st.p.get("acc", base)
	if !isAcc && !e.emptySlice(st, base) {
		return
	}
	if !types.Identical(res.typ.Underlying(), a.environ.typ.Underlying()) {
		return
	}
	its := e.sliceItems(st, items)
	if len(its) != 1 {
		if its == nil || len(its) > 1 {
			if isAcc {
				e.Report(st, "append", instrPos(in), "several variables are added at once")
			}
			return
		}
	}
	x := unwrapConv(its[0])
	kv := st.p.V["kv"]
	fk, fv, fm := st.p.V["fk"], st.p.V["fv"], st.p.V["fm"]
	what := ""
	switch {
	case kv != nil && x == kv:
		what = "kv"
	case kv != nil && st.p.V["key"] != nil && a.isSet(e, st, x, st.p.V["key"]):
		what = "set"
	case fk != nil && (a.isSet(e, st, x, fk) || x == fv && a.kind(fm) == "" && !a.raw(st, fm) || (a.kind(fm) == "set" || a.raw(st, fm)) && pairOf(e, x, fk, fv)):
		what = "final"
	}
	if !isAcc && what == "" {
		return // some other list
	}
	switch what {
	case "":
		e.Report(st, "append", instrPos(in), "something is added to the environment that is neither a variable that existed nor one that is to be set")
		return
	case "final":
		cover{"final"}.done(st)
		a.c.OK("variables set", a.c.siteName(in))
	default:
		if old := st.p.F["app"]; old != "" {
			e.Report(st, "append-twice", instrPos(in), "a variable may be added twice")
		}
		st.p.F["app"] = what
	}
	st.p.put("acc", res, "nn")
}

// raw: the map holds the values of the variables to set, not their text.
func (a *envA) raw(st *State, m *Val) bool {
	t, _ := st.p.get("member", m)
	return strings.HasPrefix(t, "setraw")
}

// isSet: the text that sets the variable k.
func (a *envA) isSet(e *Engine, st *State, x, k *Val) bool {
	s := a.rule(e, st, "Set")
	if v, _ := e.lookup(st, s, k, s.typ.Underlying().(*types.Map).Elem()); pairOf(e, x, k, v) {
		return true
	}
	for _, m := range st.p.each("member") {
		if t, _ := st.p.get("member", m); t == "set" || t == "set-rest" || a.raw(st, m) {
			v, _ := e.lookup(st, m, k, m.typ.Underlying().(*types.Map).Elem())
			if v == x && !a.raw(st, m) || a.raw(st, m) && pairOf(e, x, k, v) {
				return true
			}
		}
	}
	return false
}

func (a *envA) update(e *Engine, st *State, in *ssa.MapUpdate, m, k, v *Val) {
	pos := instrPos(in)
	isTrue := func() bool {
		b, ok := in.Value.Type().Underlying().(*types.Basic)
		return !ok || b.Kind() != types.Bool || e.Decide(st, v) == 1
	}
	for _, kd := range []string{"allow", "deny"} {
		if x := st.p.V["el:"+kd]; x != nil && unwrapConv(k) == unwrapConv(x) && isTrue() && st.p.F["it"] == "" {
			if old := st.p.V["map:"+kd]; old != nil && old != m {
				continue
			}
			st.p.V["map:"+kd] = m
			if t, ok := st.p.get("member", m); ok && t != kd {
				st.p.put("member", m, "mixed")
			}
			cover{kd}.done(st)
			return
		}
	}
	if fk := st.p.V["fk"]; fk != nil && k == fk && (pairOf(e, v, fk, st.p.V["fv"]) || a.isSet(e, st, v, fk) || a.kind(st.p.V["fm"]) == "" && v == st.p.V["fv"]) {
		st.p.V["map:set"] = m
		cover{"setbuild"}.done(st)
		return
	} else if fk != nil && k == fk && (a.kind(st.p.V["fm"]) == "set" || a.raw(st, st.p.V["fm"])) && v == st.p.V["fv"] {
		st.p.V["map:set"], st.p.F["raw"] = m, "raw"
		cover{"setbuild"}.done(st)
		return
	}
	if st.p.F["it"] == "open" && st.p.V["kv"] != nil && a.key(e, st, k, pos) && isTrue() {
		if _, ok := st.p.get("member", m); ok {
			e.Report(st, "rules-changed", pos, "the rules are changed while they are applied")
			return
		}
		if t, _ := st.p.get("upd", m); t != "bad" {
			st.p.put("upd", m, "y")
		}
		st.p.F["upd"] = "y"
		return
	}
	st.p.put("upd", m, "bad")
	st.p.put("member", m, "mixed")
}

func (a *envA) ret(e *Engine, st *State, in ssa.Instruction, res *Val) {
	pos := instrPos(in)
	t, ok := st.p.get("acc", res)
	if !ok && e.emptySlice(st, res) {
		ok = true
		if !isNilConst(res) && res.op != OpZero {
			t = "nn"
		}
	}
	none := func(n string) bool {
		l := a.rule(e, st, n)
		_, hi := e.interval(st, e.lenOf(l))
		return e.KnownNil(st, l) || hi <= 0 || st.p.F["none:"+strings.ToLower(n)] != ""
	}
	switch {
	case !ok:
		e.Report(st, "result", pos, "what is returned is not the filtered environment")
	case t != "nn":
		e.Report(st, "nil", pos, "an empty environment may be returned as nil, which means the environment of the process")
	case st.p.F["environ"] == "":
		e.Report(st, "unfinished", pos, "not all variables were filtered")
	case !(cover{"final"}).all(st) && !none("Set"):
		e.Report(st, "set:missing", pos, "variables that are to be set may be missing")
	default:
		e.Site("environment returned", in)
	}
}

// envUse: the rules of the target, then those of the task, are applied.
func (c *Ctx) envUse(apply *ssa.Function) {
	tgt := c.Type(shPkg, "Target")
	start := c.NeedMethod(shPkg, "Target", "Start")
	if tgt == nil || start == nil {
		c.Fail("anchor:sh.Target", token.NoPos, "there is no sh.Target")
		return
	}
	// which field keeps the environment of the target?
	field := ""
	hooks := func(f func(e *Engine, ev *CallEvent, res *Val)) *Hooks {
		h := &Hooks{}
		h.Opaque = func(st *State, g *ssa.Function) bool {
			return g == apply || g.Pkg == nil || g.Pkg.Pkg.Path() != pkgPath(shPkg)
		}
		h.AfterCall = func(e *Engine, ev *CallEvent, res *Val) {
			if ev.name == "os.Environ" {
				ev.st.p.put("environ", res, "process")
			}
			if ev.fn == apply {
				src := unwrapConv(ev.args[1])
				k, _ := ev.st.p.get("environ", src)
				if k == "" {
					if id := loadID(src); id != "" && id == field {
						k = "target"
					}
				}
				who := ""
				if r := ev.args[0]; r.op == OpFieldAddr {
					who = fieldID(r.a[0].typ, r.aux.(int))
				}
				switch {
				case k == "process" && who == shPkg+".Target.Env":
					ev.st.p.put("environ", res, "target")
				case k == "target" && who == shPkg+".Exec.Env":
					ev.st.p.put("environ", res, "task")
				default:
					e.Report(ev.st, "applied:"+k, instrPos(ev.instr), "rules are not applied to what they are for: first those of the target to the environment of the process, then those of the task to the result")
				}
				c.OK("rules applied", k)
			}
			if f != nil {
				f(e, ev, res)
			}
		}
		return h
	}
	h := hooks(nil)
	recv := c.in.mk(OpParam, start.Params[0].Type(), ssa.Value(start.Params[0]))
	h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
		if failedPath(e, st, res) {
			return
		}
		n := 0
		s := derefStruct(recv.typ)
		for i := 0; i < s.NumFields(); i++ {
			if k, _ := st.p.get("environ", loadField(e, st, recv, i)); k == "target" {
				id := fieldID(recv.typ, i)
				if field != "" && field != id {
					e.Report(st, "kept", instrPos(in), "the environment of the target is kept in several places")
				}
				field = id
				n++
			}
		}
		if n == 0 {
			e.Report(st, "kept", instrPos(in), "the target may start without having filtered the environment")
		}
	}
	e := NewEngine(c.Program, h)
	e.Run(e.Start(start, nil, newP(), "Start"))
	c.Merge(e, "Target.Start")
	if field == "" {
		return
	}
	for _, v := range c.fieldStores()[field] {
		if in, ok := v.(ssa.Instruction); ok && in.Parent() != nil && in.Parent() != start && !c.staticReach(start)[in.Parent()] {
			c.Fail("kept-elsewhere", in.Pos(), "the environment of the target is also set by %s", in.Parent())
		}
	}
	n := 0
	for _, fn := range c.processStarters(shPkg) {
		n++
		h := hooks(nil)
		h.Call = func(e *Engine, ev *CallEvent) (*Val, bool) {
			if runsCmd(ev.name) && !ev.isDefer {
				env := e.namedField(ev.st, ev.args[0], "Env")
				if k, _ := ev.st.p.get("environ", env); k != "task" {
					e.Report(ev.st, "command-env", instrPos(ev.instr), "a command may be run with another environment than the filtered one")
				} else {
					e.Site("command run with the filtered environment", ev.instr)
				}
			}
			return nil, false
		}
		e := NewEngine(c.Program, h)
		e.Run(e.Start(fn, nil, newP(), fn.Name()))
		c.Merge(e, fn.String())
	}
	if n == 0 {
		c.Fail("anchor:exec", token.NoPos, "nothing in %s runs a command", shPkg)
	}
	c.Floor("rules applied", 2)
	c.Floor("command run with the filtered environment", 1)
}

// runsCmd: methods of exec.Cmd that start the process.
func runsCmd(n string) bool {
	switch n {
	case "(*os/exec.Cmd).Run", "(*os/exec.Cmd).Start", "(*os/exec.Cmd).Output", "(*os/exec.Cmd).CombinedOutput":
		return true
	}
	return false
}

// processStarters: the methods through which tasks of a package start processes.
func (c *Ctx) processStarters(pkg string) []*ssa.Function {
	starts := func(fn *ssa.Function) bool {
		for g := range c.staticReach(fn) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && (runsCmd(calleeName(ci)) || calleeName(ci) == "os.StartProcess") {
						return true
					}
				}
			}
		}
		return false
	}
	called := map[*ssa.Function]bool{}
	var all []*ssa.Function
	for _, fn := range c.all {
		if fn.Pkg == nil || fn.Pkg.Pkg.Path() != pkgPath(pkg) || !starts(fn) {
			continue
		}
		all = append(all, fn)
		for g := range c.staticReach(fn) {
			if g != fn {
				called[g] = true
			}
		}
	}
	var r []*ssa.Function
	for _, fn := range all {
		if !called[fn] && fn.Synthetic == "" {
			r = append(r, fn)
		}
	}
	return r
}

func init() {
	register(&Check{ID: "R09", Technique: "static analysis: path-sensitive abstract interpretation of SSA with set membership and traversal coverage",
		Explanation: "The filter is interpreted for an arbitrary variable: on every path of an iteration what is known about the membership of its name in the allow, deny and set rules must determine that the variable is kept, removed or replaced as the rules demand. Lookup tables are recognised by the complete traversal that fills them. The result may not be nil. The calls of the filter must be composed in the order process, target, task, and the result must be the environment of the command.",
		Run:         runR09})
}
