package main

// P10: table storage parameters.

import (
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func runP10(c *Ctx) {
	fn := c.NeedMethod(ddlPkg, "TableStorageParameters", "Set")
	if fn == nil {
		return
	}
	if len(fn.Params) != 3 || derefStruct(fn.Params[0].Type()) == nil {
		c.Fail("anchor:Set", fn.Pos(), "TableStorageParameters.Set does not take a name and a value")
		return
	}
	st := derefStruct(fn.Params[0].Type())
	recv := c.in.mk(OpParam, fn.Params[0].Type(), ssa.Value(fn.Params[0]))
	key := c.in.mk(OpParam, fn.Params[1].Type(), ssa.Value(fn.Params[1]))
	value := c.in.mk(OpParam, fn.Params[2].Type(), ssa.Value(fn.Params[2]))
	tags := map[string]int{}
	var order []string
	for i := 0; i < st.NumFields(); i++ {
		tag := strings.Split(reflect.StructTag(st.Tag(i)).Get("hcl"), ",")[0]
		if tag == "" {
			c.Fail("untagged:"+st.Field(i).Name(), st.Field(i).Pos(), "the field %s is not written under any name", st.Field(i).Name())
			continue
		}
		if _, dup := tags[tag]; dup {
			c.Fail("duplicate:"+tag, st.Field(i).Pos(), "two fields are written as %s", tag)
		}
		tags[tag] = i
		order = append(order, tag)
	}
	ef := &ErrFlow{Rule: "parse error returned", Fail: func(e *Engine, st *State, key string, in ssa.Instruction, f string, a ...interface{}) {
		e.Report(st, key, instrPos(in), f, a...)
	}}
	h := &Hooks{}
	bt := types.Typ[types.Bool]
	isKey := func(e *Engine, s *State) (string, bool) {
		known := ""
		open := false
		for _, t := range order {
			switch e.Decide(s, e.binop(token.EQL, key, e.cstr(t), key.typ, bt)) {
			case 1:
				return t, false
			case -1:
				open = true
			}
		}
		return known, open
	}
	h.AfterCall = func(e *Engine, ev *CallEvent, res *Val) {
		ef.AfterCall(e, ev, res)
		if !strings.HasPrefix(ev.name, "strconv.Parse") && ev.name != "strconv.Atoi" || res == nil || res.op != OpTuple {
			return
		}
		kind := map[string]string{"strconv.Atoi": "int", "strconv.ParseInt": "int", "strconv.ParseBool": "bool", "strconv.ParseFloat": "float64"}[ev.name]
		arg := func(i int) int64 { k, _ := constInt(ev.args[i]); return k }
		switch {
		case ev.args[0] != value:
			kind = "something else"
		case ev.name == "strconv.ParseInt" && (arg(1) != 10 || arg(2) != 0 && arg(2) != 64):
			kind = "an integer of another kind"
		case ev.name == "strconv.ParseFloat" && arg(1) != 64:
			kind = "a number of less precision"
		}
		ev.st.p.put("parsed", res.a[0], kind)
		ev.st.p.V["err:"+res.a[0].String()] = res.a[1]
	}
	h.Branch = func(e *Engine, s *State, in *ssa.If, cond *Val, taken bool) { ef.Branch(e, s) }
	h.PreStore = func(e *Engine, s *State, in *ssa.Store, addr, val *Val) {
		if addr.op != OpFieldAddr || addr.a[0] != recv {
			return
		}
		i := addr.aux.(int)
		pos := instrPos(in)
		k, open := isKey(e, s)
		if open || k == "" {
			e.Report(s, "any-key:"+st.Field(i).Name(), pos, "%s is set without regard to the name of the parameter", st.Field(i).Name())
			return
		}
		if tags[k] != i {
			e.Report(s, "wrong-field:"+k, pos, "the parameter %s is stored in the field %s", k, st.Field(i).Name())
			return
		}
		s.p.F["stored"] = k
	}
	done := map[string]bool{}
	h.Return = func(e *Engine, s *State, in ssa.Instruction, res []*Val) {
		pos := instrPos(in)
		err := errResult(res)
		k, open := isKey(e, s)
		if !ef.Return(e, s, in, err) {
			return
		}
		if k == "" && !open {
			return // not a known parameter
		}
		if open {
			e.Report(s, "key-unknown", pos, "success is reported without the name of the parameter having been examined")
			return
		}
		i := tags[k]
		if s.p.F["stored"] != k {
			e.Report(s, "not-stored:"+k, pos, "the parameter %s is not stored", k)
			return
		}
		ptr := loadField(e, s, recv, i)
		pt, ok := ptr.typ.Underlying().(*types.Pointer)
		if !ok || ptr.op == OpConst {
			e.Report(s, "not-stored:"+k, pos, "the parameter %s is not stored", k)
			return
		}
		v := unwrapConv(e.load(s, ptr, pt.Elem()))
		kind, ok := s.p.get("parsed", v)
		want := types.TypeString(pt.Elem(), nil)
		if want == "string" && v == value {
			kind = "string"
			ok = true
		}
		if !ok {
			e.Report(s, "other-value:"+k, pos, "what is stored for the parameter %s is not its parsed value", k)
			return
		}
		if kind != want {
			e.Report(s, "other-type:"+k, pos, "the parameter %s of type %s is parsed as %s", k, want, kind)
			return
		}
		if perr := s.p.V["err:"+v.String()]; perr != nil && !e.KnownNil(s, perr) && unwrap(err) != unwrap(perr) {
			e.Report(s, "error-lost:"+k, pos, "the parameter %s may not have been understood", k)
			return
		}
		if !done[k] {
			done[k] = true
			c.OK("parameter stored in its field", k)
		}
	}
	e := NewEngine(c.Program, h)
	e.Run(e.Start(fn, nil, newP(), "Set"))
	c.Merge(e, "TableStorageParameters.Set")
	for _, t := range order {
		if !done[t] {
			c.Fail("never-stored:"+t, fn.Pos(), "the parameter %s is never stored", t)
		}
	}
	c.Floor("parameter stored in its field", 17)

	// the caller splits the options of the catalog at the first "="
	list := c.NeedMethod("internal/pg", "Conn", "ListTableStorageParameters")
	if list == nil {
		return
	}
	h = &Hooks{}
	h.Opaque = func(s *State, f *ssa.Function) bool { return f == fn }
	h.AfterCall = func(e *Engine, ev *CallEvent, res *Val) {
		s := ev.st
		pos := instrPos(ev.instr)
		if strings.HasSuffix(ev.name, "Rows).Scan") {
			items := e.sliceItems(s, ev.args[len(ev.args)-1])
			if len(items) == 1 {
				s.p.V["cell"] = unwrap(items[0])
			}
			s.p.F["unset"] = "yes"
			return
		}
		if ev.fn != fn {
			return
		}
		cell := s.p.V["cell"]
		if cell == nil || cell.typ == nil {
			e.Report(s, "set-unread", pos, "a parameter is set that was not read")
			return
		}
		text := e.load(s, cell, cell.typ.Underlying().(*types.Pointer).Elem())
		idx := e.index(text, e.cstr("="))
		it := types.Typ[types.Int]
		kp, vp := splitPart(e, s, ev.args[1], text, "="), splitPart(e, s, ev.args[2], text, "=")
		lt0 := e.binop(token.LSS, idx, e.cint(0), it, bt)
		none := e.Decide(s, lt0) == 1 || e.Decide(s, e.binop(token.EQL, idx, e.cint(-1), it, bt)) == 1
		some := e.Decide(s, lt0) == 0 || e.Decide(s, e.binop(token.EQL, idx, e.cint(-1), it, bt)) == 0 || e.Decide(s, e.binop(token.LSS, e.cint(0), idx, it, bt)) == 1
		cut := func(v *Val) bool { return v.op == OpPure && (v.aux == "cut0" || v.aux == "cut1") }
		vs, isC := constStr(ev.args[2])
		switch {
		case kp == "head" && vp == "tail" && cut(ev.args[1]) == cut(ev.args[2]) && (some || cut(ev.args[1])):
		case none && (kp == "whole" || kp == "head" && cut(ev.args[1])) && (isC && vs == "" || vp == "tail" && cut(ev.args[2])):
		default:
			e.Report(s, "split", pos, "the name and the value that are set are not the parts of the option before and after the first =")
			return
		}
		e.Site("option split at =", ev.instr)
		if ptr := ev.args[0]; s.p.V["params"] != nil && s.p.V["params"] != ptr {
			e.Report(s, "several", pos, "the parameters of one table are set in several places")
			return
		} else if s.p.F["unset"] == "yes" {
			s.p.V["params"] = ptr
		}
		delete(s.p.F, "unset")
	}
	h.Call = func(e *Engine, ev *CallEvent) (*Val, bool) {
		if strings.HasSuffix(ev.name, "Rows).Next") && ev.st.p.F["unset"] == "yes" {
			e.Report(ev.st, "not-set", instrPos(ev.instr), "the next option is read before the last one has been set")
		}
		return nil, false
	}
	h.Return = func(e *Engine, s *State, in ssa.Instruction, res []*Val) {
		if err := errResult(res); len(res) == 0 || err == nil || !e.KnownNil(s, err) {
			return
		}
		if s.p.F["unset"] == "yes" {
			e.Report(s, "not-set", instrPos(in), "success is reported although the last option read has not been set")
		}
		if ptr := s.p.V["params"]; ptr != nil && unwrap(res[0]) != unwrap(ptr) {
			e.Report(s, "other-result", instrPos(in), "what is returned is not what the options have been set on")
			return
		}
		e.Site("options returned", in)
	}
	e = NewEngine(c.Program, h)
	e.Run(e.Start(list, nil, newP(), "List"))
	c.Merge(e, "ListTableStorageParameters")
	c.Floor("option split at =", 1)
	c.Floor("options returned", 1)
}

func init() {
	register(&Check{ID: "P10", Technique: "static analysis: path-sensitive abstract interpretation of SSA, with the names taken from the struct tags",
		Explanation: "On every path of TableStorageParameters.Set what is known about the name of the parameter determines the only field that may be stored, which must then hold the result of the parser of the field's type, applied to the whole value; the parser's error must be returned. Every field needs such a path. The caller has to split each option at its first equals sign.",
		Run:         runP10})
}
