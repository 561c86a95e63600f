package main

// R06, R07: loading runbooks.

import (
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	parserPkg = "internal/runbook/parser"
	typesPkg  = "internal/runbook/types"
)

type parseA struct {
	c  *Ctx
	ef *ErrFlow
	lt *LoopTrack
}

func (a *parseA) fail(e *Engine, st *State, ids, key string, pos token.Pos, f string, args ...interface{}) {
	if strings.Contains(ids, a.c.check.ID) {
		e.Report(st, key, pos, f, args...)
	}
}

// slashPart classifies what part of the string s (split at its first slash)
// v is: "head", "tail", "whole", or "".
func slashPart(e *Engine, st *State, v, s *Val) string { return splitPart(e, st, v, s, "/") }

func splitPart(e *Engine, st *State, v, s *Val, sep string) string {
	if v == s {
		return "whole"
	}
	isIdx := func(x *Val) bool {
		return x == e.index(s, e.cstr(sep))
	}
	switch {
	case v.op == OpPure && v.aux == "cut0" && v.a[0] == s && v.a[1] == e.cstr(sep):
		return "head" // of a string without a slash this is the whole
	case v.op == OpPure && v.aux == "cut1" && v.a[0] == s && v.a[1] == e.cstr(sep):
		return "tail"
	}
	if v.op != OpSlice || v.a[0] != s {
		return ""
	}
	switch v.aux {
	case "h":
		if isIdx(v.a[1]) {
			return "head"
		}
	case "lh":
		if v.a[2] != e.lenOf(s) {
			return ""
		}
		fallthrough
	case "l":
		l := e.linear(v.a[1])
		if l.k == int64(len(sep)) && len(l.t) == 1 {
			for x, n := range l.t {
				if n == 1 && isIdx(x) {
					return "tail"
				}
			}
		}
	}
	return ""
}

func (a *parseA) run() {
	c := a.c
	fn := c.NeedMethod(parserPkg, "Parser", "Parse")
	if fn == nil {
		return
	}
	if c.Type(typesPkg, "Runbook") == nil || c.Type(typesPkg, "Target") == nil || c.Type(typesPkg, "TaskConfig") == nil {
		c.Fail("anchor:types", fn.Pos(), "the types of package %s are not there", typesPkg)
		return
	}
	recv := c.in.mk(OpParam, fn.Params[0].Type(), ssa.Value(fn.Params[0]))
	file := c.in.mk(OpParam, fn.Params[1].Type(), ssa.Value(fn.Params[1]))
	h := &Hooks{}
	a.lt = &LoopTrack{SkipCollectors: true}
	a.ef = &ErrFlow{Rule: "errors are returned",
		Skip: func(ev *CallEvent) bool {
			return strings.HasPrefix(ev.name, "fmt.") || strings.HasPrefix(ev.name, "(*bytes.")
		},
		Fail: func(e *Engine, st *State, key string, in ssa.Instruction, f string, x ...interface{}) {
			a.fail(e, st, "R06 R07", key, instrPos(in), f, x...)
		}}
	truth := func(e *Engine, st *State, v *Val) bool { return v != nil && e.Decide(st, v) == 1 }
	empty := func(e *Engine, st *State, v *Val) bool {
		return v != nil && (e.KnownNil(st, v) || e.emptySlice(st, v))
	}
	nilErr := func(e *Engine, st *State, k string) bool {
		v := st.p.V[k]
		return v != nil && e.KnownNil(st, v)
	}
	decoder := func(v *Val) *Val { // what a decoder reads
		if v = unwrap(v); v.op == OpPure && v.aux == "decoder" {
			if r := unwrap(v.a[0]); r.op == OpPure && r.aux == "reader" {
				return r.a[0]
			}
			return nil
		}
		return nil
	}
	h.Call = func(e *Engine, ev *CallEvent) (*Val, bool) {
		rt := ev.instr.Common().Signature().Results()
		switch ev.name {
		case "strings.NewReader", "bytes.NewReader", "bytes.NewBuffer", "bytes.NewBufferString":
			return e.in.mk(OpPure, rt.At(0).Type(), "reader", unwrapConv(ev.args[0])), true
		case "encoding/json.NewDecoder":
			d := e.in.mk(OpPure, rt.At(0).Type(), "decoder", ev.args[0])
			ev.st.p.del("strict", d)
			return d, true
		}
		return nil, false
	}
	h.AfterCall = func(e *Engine, ev *CallEvent, res *Val) {
		st := ev.st
		pos := instrPos(ev.instr)
		a.ef.AfterCall(e, ev, res)
		method := ev.name[strings.LastIndex(ev.name, ".")+1:]
		switch {
		case ev.name == "io/ioutil.ReadFile" || ev.name == "os.ReadFile":
			if ev.args[0] == file {
				st.p.put("data", res.a[0], "")
			}
		case strings.HasPrefix(ev.name, "(*github.com/google/go-jsonnet.VM).Evaluate"):
			src := unwrapConv(ev.args[len(ev.args)-1])
			if !st.p.hasTag("data", src) && !(strings.HasSuffix(ev.name, "File") && src == file) {
				a.fail(e, st, "R06", "other-file", pos, "what is evaluated is not the content of the runbook")
			}
			st.p.V["evaluated"] = res.a[0]
		case ev.name == "encoding/json.Unmarshal":
			a.fail(e, st, "R07", "lenient-decode", pos, "JSON is decoded in a way that ignores unknown fields")
			a.decoded(e, st, ev, unwrapConv(ev.args[0]), unwrap(ev.args[1]), res, empty)
		case ev.name == "(*encoding/json.Decoder).DisallowUnknownFields":
			st.p.put("strict", unwrap(ev.args[0]), "")
		case ev.name == "(*encoding/json.Decoder).Decode":
			if !st.p.hasTag("strict", unwrap(ev.args[0])) {
				a.fail(e, st, "R07", "lenient-decode", pos, "JSON is decoded without rejecting unknown fields")
			} else if c.check.ID == "R07" {
				e.Site("decoder rejects unknown fields", ev.instr)
			}
			a.decoded(e, st, ev, decoder(ev.args[0]), unwrap(ev.args[1]), res, empty)
		case ev.invoke && method == "NewTarget" && ev.results == 1:
			m := e.namedField(st, recv, "Targets")
			cls := e.namedField(st, st.p.V["elem"], "Class")
			if st.p.F["mode"] != "T" || m == nil || cls == nil {
				a.fail(e, st, "R06", "target-class", pos, "a target is created that is not the one a runbook declares")
				return
			}
			v, ok := e.lookup(st, m, cls, m.typ.Underlying().(*types.Map).Elem())
			if ev.args[0] != v {
				a.fail(e, st, "R06", "target-class", pos, "the target is not created by the factory that is registered for its class")
			} else if !truth(e, st, ok) && !e.KnownNonNil(st, v) {
				a.fail(e, st, "R06", "target-unregistered", pos, "it is not checked that the class of the target is registered")
			} else if c.check.ID == "R06" {
				e.Site("class is registered", ev.instr)
			}
			st.p.V["obj"] = res
		case ev.invoke && method == "NewTaskConfig" && ev.results == 2:
			tt := e.namedField(st, st.p.V["elem"], "Target")
			if st.p.F["mode"] != "K" || tt == nil {
				a.fail(e, st, "R06", "task-class", pos, "a task is created that is not one the runbook declares")
				return
			}
			a.taskClass(e, st, ev, tt)
			st.p.V["obj"], st.p.V["newerr"] = res.a[0], res.a[1]
		case ev.invoke && (method == "Analyze" || method == "Check") && ev.results == 1:
			if ev.args[0] == st.p.V["obj"] {
				st.p.V["chkerr"] = res
				delete(st.p.F, "stale")
			}
		}
	}
	h.Branch = func(e *Engine, st *State, in *ssa.If, cond *Val, taken bool) {
		a.ef.Branch(e, st)
		a.lt.Branch(e, st, in, taken)
	}
	h.Append = func(e *Engine, st *State, in ssa.CallInstruction, base, items, res *Val) {
		a.lt.Append(e, st, base, items, res)
	}
	h.Deref = func(e *Engine, st *State, in ssa.Instruction, ptr *Val) {
		if ptr == st.p.V["elem"] && ptr.typ != nil {
			if _, ok := ptr.typ.Underlying().(*types.Pointer); ok {
				if !e.KnownNonNil(st, ptr) {
					a.fail(e, st, "R07", "null-entry:"+st.p.F["mode"], instrPos(in), "a null entry is not rejected before it is used")
				} else if c.check.ID == "R07" {
					e.Site("entry is not null", in)
				}
			}
		}
	}
	tmpMap := func(e *Engine, st *State, name string) *Val {
		if nilErr(e, st, "tmperr") {
			return e.namedField(st, st.p.V["tmp"], name)
		}
		return nil
	}
	endElem := func(e *Engine, st *State, pos token.Pos) {
		if st.p.V["k"] != nil && st.p.F["stored"] == "" {
			a.fail(e, st, "R06", "entry-lost:"+st.p.F["mode"], pos, "a declared target or task may be missing from the runbook")
		}
		for _, k := range []string{"k", "elem", "obj", "newerr", "decerr", "chkerr", "key"} {
			delete(st.p.V, k)
		}
		for _, k := range []string{"mode", "stored", "decoded", "stale"} {
			delete(st.p.F, k)
		}
	}
	a.lt.OnElem = func(e *Engine, st *State, l *Loop, over, k, v *Val) {
		for mode, n := range map[string]string{"T": "Targets", "K": "Tasks"} {
			if m := tmpMap(e, st, n); m != nil && over == m {
				endElem(e, st, instrPos(l.head.Instrs[0]))
				st.p.F["mode"] = mode
				st.p.V["k"], st.p.V["elem"] = k, v
			}
		}
	}
	a.lt.OnEnd = func(e *Engine, st *State, l *Loop, over *Val) {
		for mode, n := range map[string]string{"T": "Targets", "K": "Tasks"} {
			if m := tmpMap(e, st, n); m != nil && over == m {
				endElem(e, st, instrPos(l.head.Instrs[0]))
				st.p.F["done"+mode] = "1"
			}
		}
	}
	kind := func(m *Val) string {
		mt, ok := m.typ.Underlying().(*types.Map)
		if !ok {
			return ""
		}
		el := mt.Elem()
		if p, ok := el.(*types.Pointer); ok {
			el = p.Elem()
		}
		switch {
		case types.Identical(el, c.Type(typesPkg, "Target")):
			return "T"
		case types.Identical(el, c.Type(typesPkg, "Task")):
			return "K"
		}
		return ""
	}
	h.Delete = func(e *Engine, st *State, in ssa.CallInstruction, m, k *Val) {
		if kind(m) != "" {
			a.fail(e, st, "R06", "entry-removed", instrPos(in), "a target or task is removed again")
		}
	}
	h.PreMapUpdate = func(e *Engine, st *State, in *ssa.MapUpdate, m, k, v *Val) {
		kd := kind(m)
		if kd == "" {
			return
		}
		pos := instrPos(in)
		if kd != st.p.F["mode"] || k != st.p.V["k"] {
			a.fail(e, st, "R06", "other-entry:"+kd, pos, "an entry is added under another name than its own")
			return
		}
		if x := st.p.V["map"+kd]; x != nil && x != m {
			a.fail(e, st, "R06", "other-map:"+kd, pos, "the entries do not end up in one runbook")
		}
		st.p.V["map"+kd] = m
		st.p.F["stored"] = "1"
		obj := st.p.V["obj"]
		elem := st.p.V["elem"]
		got := v
		if kd == "K" {
			got = e.namedField(st, v, "Config")
			for _, f := range []string{"After", "Message"} {
				if x, y := e.namedField(st, v, f), e.namedField(st, elem, f); x == nil || x != y {
					a.fail(e, st, "R06", "task-field:"+f, pos, "the field %s of a task is not the declared one", f)
				}
			}
			if x := e.namedField(st, v, "Target"); x == nil || x != st.p.V["key"] {
				a.fail(e, st, "R06", "task-field:Target", pos, "the target of the task is not the one that created its configuration")
			}
			if !nilErr(e, st, "newerr") {
				a.fail(e, st, "R06", "task-class-unknown", pos, "a task is accepted although its class may be unknown")
			}
		}
		if obj == nil || unwrap(got) != unwrap(obj) {
			a.fail(e, st, "R06", "other-object:"+kd, pos, "what is added is not what was created for the declaration")
			return
		}
		if cf := e.namedField(st, elem, "Config"); st.p.F["decoded"] == "" && !empty(e, st, cf) {
			a.fail(e, st, "R06", "not-decoded:"+kd, pos, "the configuration is not decoded")
		}
		if st.p.F["decoded"] != "" && !nilErr(e, st, "decerr") {
			a.fail(e, st, "R06 R07", "decode-failed:"+kd, pos, "an entry is accepted although its configuration may not have been understood")
		}
		if st.p.F["stale"] != "" || !nilErr(e, st, "chkerr") {
			a.fail(e, st, "R06", "not-validated:"+kd, pos, "an entry is accepted without having passed its validation after decoding")
		} else if c.check.ID == "R06" {
			e.Site("entry validated:"+kd, in)
		}
	}
	h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
		pos := instrPos(in)
		if !a.ef.Return(e, st, in, errResult(res)) {
			return
		}
		if !e.KnownNil(st, errResult(res)) {
			a.fail(e, st, "R06", "unclear", pos, "it cannot be told whether loading succeeded")
			return
		}
		if !nilErr(e, st, "tmperr") {
			a.fail(e, st, "R06 R07", "not-parsed", pos, "a runbook is returned that was not read from the file")
		}
		for kd, n := range map[string]string{"T": "Targets", "K": "Tasks"} {
			if st.p.F["done"+kd] == "" {
				a.fail(e, st, "R06", "incomplete:"+kd, pos, "a runbook is returned before all its %s were loaded", strings.ToLower(n))
			}
			got := e.namedField(st, res[0], n)
			if m := st.p.V["map"+kd]; m != nil && (got == nil || unwrapConv(got) != unwrapConv(m)) {
				a.fail(e, st, "R06", "other-result:"+kd, pos, "the %s of the runbook are not those that were loaded", strings.ToLower(n))
			}
		}
		if c.check.ID == "R06" {
			e.Site("complete runbook returned", in)
		}
	}
	e := NewEngine(c.Program, h)
	e.Run(e.Start(fn, nil, newP(), "Parse"))
	c.Merge(e, "Parser.Parse")
}

func (a *parseA) decoded(e *Engine, st *State, ev *CallEvent, src, dst, res *Val, empty func(*Engine, *State, *Val) bool) {
	pos := instrPos(ev.instr)
	switch {
	case src == nil:
	case src == st.p.V["evaluated"]:
		if _, ok := dst.typ.Underlying().(*types.Pointer); ok && derefStruct(dst.typ) != nil {
			st.p.V["tmp"], st.p.V["tmperr"] = dst, res
			return
		}
	case st.p.V["elem"] != nil && st.p.V["obj"] != nil:
		if cf := e.namedField(st, st.p.V["elem"], "Config"); cf != nil && src == unwrapConv(cf) && dst == unwrap(st.p.V["obj"]) {
			st.p.F["decoded"], st.p.F["stale"] = "1", "1"
			st.p.V["decerr"] = res
			return
		}
	}
	a.fail(e, st, "R06", "decodes-other", pos, "something is decoded that is not the runbook or the configuration of the target or task in question")
}

// taskClass: the target and the class that are used are the two parts of
// the declared target.
func (a *parseA) taskClass(e *Engine, st *State, ev *CallEvent, tt *Val) {
	pos := instrPos(ev.instr)
	bad := func(key, f string) { a.fail(e, st, "R06", key, pos, f) }
	// which key was the target found under?
	var key *Val
	f := ev.args[0]
	if f.op == OpPure && f.aux == "lookup" {
		key = f.a[1]
	} else {
		for m, x := range st.mem {
			if m.op == OpPure && m.aux == "mapval" && x == f {
				key = m.a[1]
			}
		}
	}
	if key == nil {
		bad("task-target", "the configuration is not created by a target of the runbook")
		return
	}
	if f.op == OpPure && f.aux == "lookup" {
		ok := e.in.mk(OpPure, types.Typ[types.Bool], "lookupok", f.a...)
		if e.Decide(st, ok) != 1 && !e.KnownNonNil(st, f) {
			bad("task-target-unchecked", "it is not checked that the target of a task is declared")
		}
		if m := st.p.V["mapT"]; m != nil && m != f.a[0] {
			bad("task-target", "the target of a task is not looked up among the targets that were loaded")
		}
	}
	if st.p.F["doneT"] == "" {
		bad("tasks-first", "tasks are loaded before all targets are")
	}
	st.p.V["key"] = key
	idx := e.index(tt, e.cstr("/"))
	none := e.Decide(st, e.binop(token.LSS, idx, e.cint(0), types.Typ[types.Int], types.Typ[types.Bool])) == 1 ||
		e.Decide(st, e.binop(token.EQL, idx, e.cint(-1), types.Typ[types.Int], types.Typ[types.Bool])) == 1
	some := e.Decide(st, e.binop(token.LSS, idx, e.cint(0), types.Typ[types.Int], types.Typ[types.Bool])) == 0 ||
		e.Decide(st, e.binop(token.EQL, idx, e.cint(-1), types.Typ[types.Int], types.Typ[types.Bool])) == 0
	cls := ev.args[1]
	s, isC := constStr(cls)
	kp, cp := slashPart(e, st, key, tt), slashPart(e, st, cls, tt)
	byCut := func(v *Val) bool { return v.op == OpPure && (v.aux == "cut0" || v.aux == "cut1") }
	switch {
	case kp == "head" && cp == "tail" && byCut(key) == byCut(cls) && (byCut(key) || some):
	case none && (kp == "whole" || kp == "head" && byCut(key)) && (isC && s == "" || cp == "tail" && byCut(cls)):
	default:
		bad("task-class", "the target and class that are used are not the parts of the declared target before and after the first slash")
		return
	}
	if a.c.check.ID == "R06" {
		e.Site("target and class of the task", ev.instr)
	}
}

// strictTypes: no type that is decoded gets around the rejection of unknown
// fields.
func (a *parseA) strictTypes() {
	c := a.c
	seen := map[types.Type]bool{}
	var visit func(t types.Type, where string, pos token.Pos)
	visit = func(t types.Type, where string, pos token.Pos) {
		if seen[t] {
			return
		}
		seen[t] = true
		if n, ok := t.(*types.Named); ok {
			if n.Obj().Pkg() != nil && !inModule(n.Obj().Pkg().Path()) {
				if n.Obj().Name() == "RawMessage" {
					return // decoded by the parser itself
				}
			} else {
				pos = n.Obj().Pos()
			}
			for _, m := range []string{"UnmarshalJSON", "UnmarshalText"} {
				if o, _, _ := types.LookupFieldOrMethod(types.NewPointer(n), true, n.Obj().Pkg(), m); o != nil {
					if _, ok := o.(*types.Func); ok && n.Obj().Pkg() != nil && inModule(n.Obj().Pkg().Path()) {
						c.Fail("custom-decoder:"+n.String(), o.Pos(), "%s decodes itself: unknown fields in it need not be rejected", shortName(n.String()))
					}
				}
			}
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			visit(u.Elem(), where, pos)
		case *types.Slice:
			visit(u.Elem(), where, pos)
		case *types.Array:
			visit(u.Elem(), where, pos)
		case *types.Map:
			visit(u.Elem(), where, pos)
		case *types.Interface:
			c.Fail("untyped:"+where, pos, "%s accepts anything", where)
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				if tag := reflect.StructTag(u.Tag(i)).Get("json"); tag == "-" || !f.Exported() && !f.Embedded() {
					continue
				}
				visit(f.Type(), where+"."+f.Name(), f.Pos())
			}
		}
	}
	n := 0
	for _, i := range []string{"Target", "TaskConfig"} {
		it := c.Type(typesPkg, i)
		if it == nil {
			continue
		}
		for _, t := range c.typesImplementing(it.Underlying().(*types.Interface)) {
			if !inModule(t.Obj().Pkg().Path()) {
				continue
			}
			n++
			visit(t, shortName(t.String()), t.Obj().Pos())
			c.OK("fields of "+i+" are typed", shortName(t.String()))
		}
	}
	// what the runbook itself is decoded into
	for _, f := range c.all {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != pkgPath(parserPkg) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() == nil || ci.Common().StaticCallee().String() != "(*encoding/json.Decoder).Decode" {
					continue
				}
				for _, t := range c.concrete(ci.Common().Args[1], map[ssa.Value]bool{}) {
					visit(t, "the runbook", instrPos(in))
					c.OK("fields of the runbook are typed", c.siteName(in))
				}
			}
		}
	}
}

// concrete: the types an interface value may be made of, as far as it is made
// in the functions that pass it on.
func (c *Ctx) concrete(v ssa.Value, seen map[ssa.Value]bool) []types.Type {
	if seen[v] {
		return nil
	}
	seen[v] = true
	var r []types.Type
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return []types.Type{x.X.Type()}
	case *ssa.Phi:
		for _, ed := range x.Edges {
			r = append(r, c.concrete(ed, seen)...)
		}
	case *ssa.Parameter:
		fn := x.Parent()
		for i, p := range fn.Params {
			if p != x {
				continue
			}
			for _, ci := range c.CallSites(fn) {
				if len(ci.Common().Args) == len(fn.Params) {
					r = append(r, c.concrete(ci.Common().Args[i], seen)...)
				}
			}
		}
	}
	return r
}

func init() {
	register(&Check{ID: "R06", Technique: "static analysis: path-sensitive abstract interpretation of SSA with typestate of targets and tasks",
		Explanation: "Every path of Parser.Parse is interpreted with a symbolic file. Each entry of the decoded runbook has to be created by the registered factory (or by the declared target, split at the first slash), decoded from its own configuration if that is not empty, validated afterwards with the result known to be nil, and added under its own name; a runbook may only be returned after both complete traversals.",
		Assumptions: []string{"encoding/json and go-jsonnet behave as documented."},
		Run: func(c *Ctx) {
			(&parseA{c: c}).run()
			c.newObjects(typesPkg, map[string]string{"TargetFactory": "NewTarget", "Target": "NewTaskConfig"})
			c.Floor("entry validated:T", 1)
			c.Floor("entry validated:K", 1)
			c.Floor("class is registered", 1)
			c.Floor("target and class of the task", 1)
			c.Floor("complete runbook returned", 1)
			c.Floor("errors are returned", 1)
		}})
	register(&Check{ID: "R07", Technique: "static analysis: path-sensitive typestate of decoders, nil dereferences and error flow; type analysis of what is decoded",
		Explanation: "On every path each decoder is made strict before it decodes, each entry is known not to be null where it is used, and every error is returned. The types that are decoded are examined for decoders of their own and untyped parts.",
		Run: func(c *Ctx) {
			a := &parseA{c: c}
			a.run()
			a.strictTypes()
			c.Floor("decoder rejects unknown fields", 1)
			c.Floor("entry is not null", 1)
			c.Floor("fields of Target are typed", 3)
			c.Floor("fields of TaskConfig are typed", 7)
			c.Floor("fields of the runbook are typed", 1)
			c.Floor("errors are returned", 1)
		}})
}
