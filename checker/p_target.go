package main

// R15: the settings of targets.

import (
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func runR15(c *Ctx) {
	it := c.Type(typesPkg, "Target")
	if it == nil {
		c.Fail("anchor:Target", token.NoPos, "there are no targets")
		return
	}
	conns := 0
	for _, t := range c.typesImplementing(it.Underlying().(*types.Interface)) {
		if t.Obj().Pkg() == nil || !strings.HasPrefix(t.Obj().Pkg().Path(), pkgPath("internal/runbook/")) {
			continue
		}
		c.settingNames(t)
		c.limitDeclared(t)
		if c.connField(t) >= 0 {
			conns++
			c.targetConn(t)
		}
	}
	if tc := c.Type(typesPkg, "TaskConfig"); tc != nil {
		for _, t := range c.typesImplementing(tc.Underlying().(*types.Interface)) {
			c.settingNames(t)
		}
	}
	c.factoryUse()
	c.sqlChecked()
	c.declaredSettings("", true, false, func(id string) bool { return !strings.HasPrefix(id, shPkg+".Env.") && !strings.HasSuffix(id, ".Env") })
	if conns == 0 {
		c.Fail("anchor:connection", token.NoPos, "no target has a connection")
	}
	c.Floor("limit is the declared one", 3)
	c.Floor("setting reaches the connection", 7)
	c.Floor("start fails if connecting fails", 1)
	c.Floor("connection closed when stopped", 1)
}

// connField: the field that holds the connection of a target.
func (c *Ctx) connField(t *types.Named) int {
	s, ok := t.Underlying().(*types.Struct)
	conn := c.Type(pgPkg, "Conn")
	if !ok || conn == nil {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if types.Identical(derefType(s.Field(i).Type()), conn) {
			return i
		}
	}
	return -1
}

// settingNames: settings that are decoded have distinct names.
func (c *Ctx) settingNames(t *types.Named) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	seen := map[string]string{}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !f.Exported() {
			continue
		}
		name := f.Name()
		label := t.Obj().Pkg().Name() + "." + t.Obj().Name() + "." + name
		if tag, ok := reflect.StructTag(s.Tag(i)).Lookup("json"); ok {
			n := strings.Split(tag, ",")
			if tag == "-" {
				c.Fail("hidden:"+label, f.Pos(), "%s cannot be declared in a runbook", label)
				continue
			}
			if n[0] != "" {
				name = n[0]
			}
			if w := strings.ToLower(strings.ReplaceAll(name, "_", "")); w != strings.ToLower(f.Name()) {
				c.Fail("renamed:"+label, f.Pos(), "the setting %q sets %s", name, label)
			}
			for _, o := range n[1:] {
				if o == "string" {
					c.Fail("string:"+label, f.Pos(), "%s is declared as a string", label)
				}
			}
		}
		k := strings.ToLower(name)
		if old := seen[k]; old != "" {
			c.Fail("ambiguous:"+label, f.Pos(), "the setting %q could set %s or %s", name, old, f.Name())
		}
		seen[k] = f.Name()
		c.OK("setting has its own name", label)
	}
}

// limitDeclared: the limit is the setting, which is one by default.
func (c *Ctx) limitDeclared(t *types.Named) {
	cl := c.methodOf(t, "ConcurrencyLimit")
	name := t.Obj().Pkg().Name() + "." + t.Obj().Name()
	if cl == nil {
		c.Fail("anchor:"+name, token.NoPos, "%s has no limit", name)
		return
	}
	s, _ := t.Underlying().(*types.Struct)
	field := -1
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if f := s.Field(i); f.Exported() && strings.Contains(strings.ToLower(f.Name()), "concurrency") {
			field = i
		}
	}
	recv := c.in.mk(OpParam, cl.Params[0].Type(), ssa.Value(cl.Params[0]))
	h := &Hooks{}
	h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
		v := unwrapConv(res[0])
		if field < 0 {
			if k, ok := constInt(v); !ok || k != 1 {
				e.Report(st, "limit:"+name, instrPos(in), "a target that has no setting for it does not run one task at a time")
				return
			}
		} else if f := loadField(e, st, recv, field); v != f {
			k, ok := constInt(v)
			bt := types.Typ[types.Bool]
			if !ok || e.Decide(st, e.binop(token.EQL, f, e.cint(k), f.typ, bt)) != 1 {
				e.Report(st, "limit:"+name, instrPos(in), "the limit of a target is not the declared one")
				return
			}
		}
		c.OK("limit is the declared one", name)
	}
	e := NewEngine(c.Program, h)
	e.Run(e.Start(cl, []*Val{recv}, newP(), name))
	c.Merge(e, name+".ConcurrencyLimit")
	if field < 0 {
		return
	}
	// the default
	fi := c.Type(typesPkg, "TargetFactory")
	if fi == nil {
		return
	}
	if an := c.methodOf(t, "Analyze"); an != nil {
		recv := c.in.mk(OpParam, an.Params[0].Type(), ssa.Value(an.Params[0]))
		h := &Hooks{}
		h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
			if e.KnownNil(st, res[0]) {
				return
			}
			for i := 0; i < s.NumFields(); i++ {
				if i != field && e.decidedOn(st, loadField(e, st, recv, i)) {
					return // rejected because of something else
				}
			}
			if lo, hi := e.interval(st, loadField(e, st, recv, field)); hi >= 1 && lo <= 1 {
				e.Report(st, "limit-rejected:"+name, instrPos(in), "a limit of one or more may be rejected")
			}
		}
		e := NewEngine(c.Program, h)
		e.Run(e.Start(an, []*Val{recv}, newP(), name))
		c.Merge(e, name+".Analyze")
	}
	found := false
	for _, f := range c.typesImplementing(fi.Underlying().(*types.Interface)) {
		fn := c.methodOf(f, "NewTarget")
		if fn == nil || f.Obj().Pkg() != t.Obj().Pkg() {
			continue
		}
		h := &Hooks{}
		h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
			o := unwrap(res[0])
			if o.typ == nil || !types.Identical(derefType(o.typ), t) || derefStruct(o.typ) == nil {
				return
			}
			found = true
			if k, ok := constInt(unwrapConv(loadField(e, st, o, field))); !ok || k != 1 {
				e.Report(st, "default:"+name, instrPos(in), "a target whose runbook does not set a limit does not run one task at a time")
				return
			}
			c.OK("limit is one by default", name)
		}
		e := NewEngine(c.Program, h)
		e.Run(e.Start(fn, nil, newP(), name))
		c.Merge(e, name+" factory")
	}
	if !found {
		c.Fail("anchor:factory:"+name, token.NoPos, "nothing creates a %s", name)
	}
}

// decidedOn: the path depends on this value.
func (e *Engine) decidedOn(st *State, v *Val) bool {
	for f := range st.facts {
		if mentions(f, v) {
			return true
		}
	}
	return false
}

// factoryUse: everything a factory was given is handed to its targets.
func (c *Ctx) factoryUse() {
	fi := c.Type(typesPkg, "TargetFactory")
	if fi == nil {
		c.Fail("anchor:TargetFactory", token.NoPos, "there are no target factories")
		return
	}
	for _, f := range c.typesImplementing(fi.Underlying().(*types.Interface)) {
		fn := c.methodOf(f, "NewTarget")
		fs, ok := f.Underlying().(*types.Struct)
		if fn == nil || !ok || !strings.HasPrefix(f.Obj().Pkg().Path(), pkgPath("internal/runbook/")) {
			continue
		}
		recv := c.in.mk(OpParam, fn.Params[0].Type(), ssa.Value(fn.Params[0]))
		h := &Hooks{}
		h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
			o := unwrap(res[0])
			s := (*types.Struct)(nil)
			if o.typ != nil {
				s = derefStruct(o.typ)
			}
			if s == nil {
				return
			}
			for i := 0; i < fs.NumFields(); i++ {
				id := fieldID(fn.Params[0].Type(), i)
				n := 0
				for j := 0; j < s.NumFields(); j++ {
					if v := unwrap(loadField(e, st, o, j)); loadID(v) == id {
						n++
						if a, b := s.Field(j).Name(), fs.Field(i).Name(); !strings.EqualFold(a, b) && (hasFieldLike(s, b) || hasFieldLike(fs, a)) {
							e.Report(st, "factory:"+id, instrPos(in), "%s becomes %s of a target", id, s.Field(j).Name())
						}
					} else if anyIn(v, func(x *Val) bool { return loadID(x) == id }) {
						n++
					}
				}
				if n == 0 {
					e.Report(st, "factory:"+id, instrPos(in), "%s is not handed to the targets that are created", id)
					continue
				}
				c.OK("setting of a factory handed to its targets", id)
			}
		}
		e := NewEngine(c.Program, h)
		e.Run(e.Start(fn, []*Val{recv}, newP(), fn.String()))
		c.Merge(e, fn.String())
	}
	c.Floor("setting of a factory handed to its targets", 7)
}

func hasFieldLike(s *types.Struct, name string) bool {
	for i := 0; i < s.NumFields(); i++ {
		if strings.EqualFold(s.Field(i).Name(), name) {
			return true
		}
	}
	return false
}

// sqlChecked: a task is accepted if and only if it has SQL.
func (c *Ctx) sqlChecked() {
	fn := c.NeedMethod(rbPgPkg, "Exec", "Check")
	if fn == nil {
		return
	}
	recv := c.in.mk(OpParam, fn.Params[0].Type(), ssa.Value(fn.Params[0]))
	h := &Hooks{}
	h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
		s := e.namedField(st, recv, "SQL")
		if s == nil {
			e.Report(st, "anchor:SQL", instrPos(in), "there is no SQL")
			return
		}
		d := e.Decide(st, e.binop(token.EQL, s, e.cstr(""), s.typ, types.Typ[types.Bool]))
		switch {
		case e.KnownNonNil(st, res[0]):
			if d == 0 && !e.decidedOnPure(st, s) {
				e.Report(st, "sql-rejected", instrPos(in), "a task is rejected although it has SQL")
			}
		case d != 0 && !e.decidedOnPure(st, s):
			e.Report(st, "sql-missing", instrPos(in), "a task without SQL may be accepted")
		}
		e.Site("task accepted if it has SQL", in)
	}
	e := NewEngine(c.Program, h)
	e.Run(e.Start(fn, []*Val{recv}, newP(), "Check"))
	c.Merge(e, fn.String())
	c.Floor("task accepted if it has SQL", 1)
}

// decidedOnPure: the path depends on something computed from the value.
func (e *Engine) decidedOnPure(st *State, v *Val) bool {
	for f := range st.facts {
		if anyIn(f, func(x *Val) bool { return (x.op == OpPure && x.aux != "len" || x.op == OpSym) && mentions(x, v) }) {
			return true
		}
	}
	return false
}

// targetConn: the connection of a target.
func (c *Ctx) targetConn(t *types.Named) {
	pkg := strings.TrimPrefix(t.Obj().Pkg().Path(), Module+"/")
	name := t.Obj().Pkg().Name()
	field := c.connField(t)
	start, stop, handle := c.methodOf(t, "Start"), c.methodOf(t, "Stop"), c.methodOf(t, "Handle")
	opt := c.Type(pgPkg, "Options")
	if start == nil || stop == nil || handle == nil || opt == nil {
		c.Fail("anchor:Start", token.NoPos, "the target has no methods")
		return
	}
	so := opt.Underlying().(*types.Struct)
	ts := t.Underlying().(*types.Struct)
	recv := c.in.mk(OpParam, start.Params[0].Type(), ssa.Value(start.Params[0]))
	h := &Hooks{Opaque: inPkg(pkg)}
	h.AfterCall = func(e *Engine, ev *CallEvent, res *Val) {
		st, pos := ev.st, instrPos(ev.instr)
		if ev.fn == nil || ev.fn.Pkg == nil || ev.fn.Pkg.Pkg.Path() != pkgPath(pgPkg) || ev.fn.Name() != "New" {
			return
		}
		if st.p.F["connected"] != "" {
			e.Report(st, name+":connects-twice", pos, "a target may connect twice")
		}
		st.p.F["connected"] = "y"
		if res.op == OpTuple {
			st.p.V["conn"], st.p.V["err"] = res.a[0], res.a[1]
		}
		for i := 0; i < so.NumFields(); i++ {
			f := so.Field(i)
			v := unwrapConv(loadField(e, st, ev.args[0], i))
			want := -1
			for j := 0; j < ts.NumFields(); j++ {
				if strings.EqualFold(ts.Field(j).Name(), f.Name()) {
					want = j
				}
			}
			if want < 0 {
				if !(isNilConst(v) || v.op == OpZero || e.Decide(st, e.binop(token.EQL, v, e.zero(v.typ), v.typ, types.Typ[types.Bool])) == 1) {
					e.Report(st, name+":"+f.Name(), pos, "%s of the connection does not come from a setting of the target", f.Name())
				}
				continue
			}
			w := loadField(e, st, recv, want)
			if v != unwrapConv(w) && loadID(v) != fieldID(recv.typ, want) {
				e.Report(st, name+":"+f.Name(), pos, "%s of the connection is not the setting of the target", f.Name())
				continue
			}
			c.OK("setting reaches the connection", f.Name())
		}
	}
	h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
		pos := instrPos(in)
		err := errResult(res)
		ce := st.p.V["err"]
		switch {
		case err == nil:
			e.Report(st, name+":start-error", pos, "Start does not return an error")
		case ce == nil:
			if !e.KnownNonNil(st, err) {
				e.Report(st, name+":not-connected", pos, "a target may be started without a connection")
			}
		case e.KnownNonNil(st, ce):
			if !e.KnownNonNil(st, err) && err != ce {
				e.Report(st, name+":connect-failed", pos, "a target may be started although connecting failed")
				return
			}
			e.Site("start fails if connecting fails", in)
		case e.KnownNil(st, ce):
			if !(err == ce || e.KnownNil(st, err)) {
				return // fails for another reason
			}
			if loadField(e, st, recv, field) != st.p.V["conn"] {
				e.Report(st, name+":conn-lost", pos, "the connection is not kept")
			}
		case err == ce:
			e.Site("start fails if connecting fails", in)
			if loadField(e, st, recv, field) != st.p.V["conn"] {
				e.Report(st, name+":conn-lost", pos, "the connection is not kept")
			}
		default:
			e.Report(st, name+":connect-unknown", pos, "whether connecting failed does not decide whether the target is started")
		}
	}
	e := NewEngine(c.Program, h)
	e.Run(e.Start(start, []*Val{recv}, newP(), name))
	c.Merge(e, start.String())

	// tasks use this connection, and stopping closes it
	id := fieldID(recv.typ, field)
	conn := c.Type(pgPkg, "Conn")
	for _, fn := range c.all {
		if fn.Pkg == nil || fn.Pkg.Pkg != t.Obj().Pkg() {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() == nil || ci.Common().Signature().Recv() == nil || !types.Identical(derefType(ci.Common().Signature().Recv().Type()), conn) {
					continue
				}
				leaves := (&Slicer{p: c.Program}).Of(ci.Common().Args[0])
				for _, l := range leaves {
					if l.kind != "field" || l.text != id {
						c.Fail(name+":other-connection", instrPos(in), "a task does not use the connection of its target (%s %s)", l.kind, l.text)
					}
				}
				c.OK("connection of the target used", c.siteName(in))
			}
		}
	}
	recv = c.in.mk(OpParam, stop.Params[0].Type(), ssa.Value(stop.Params[0]))
	h = &Hooks{Opaque: inPkg(pkg)}
	h.AfterCall = func(e *Engine, ev *CallEvent, res *Val) {
		if ev.fn == nil || ev.fn.Pkg == nil || ev.fn.Pkg.Pkg.Path() != pkgPath(pgPkg) || ev.fn.Name() != "Close" {
			return
		}
		if ev.isGo {
			return
		}
		if ev.args[0] != loadField(e, ev.st, recv, field) && loadID(ev.args[0]) != id {
			return
		}
		ev.st.p.F["closed"] = "y"
		ev.st.p.V["err"] = res
	}
	h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
		err := errResult(res)
		if st.p.F["closed"] == "" {
			if v := loadField(e, st, recv, field); !e.KnownNil(st, v) {
				e.Report(st, name+":left-open", instrPos(in), "the connection may stay open when a target is stopped")
			}
			return
		}
		ce := st.p.V["err"]
		if err != ce && !(e.KnownNil(st, ce) && e.KnownNil(st, err)) && !(e.KnownNonNil(st, ce) && e.KnownNonNil(st, err)) {
			e.Report(st, name+":close-error", instrPos(in), "a failure to close the connection is not the result of stopping")
			return
		}
		e.Site("connection closed when stopped", in)
	}
	e = NewEngine(c.Program, h)
	e.Run(e.Start(stop, []*Val{recv}, newP(), name))
	c.Merge(e, stop.String())
	cl := c.NeedMethod(pgPkg, "Conn", "Close")
	if cl == nil {
		return
	}
	h = &Hooks{Opaque: inPkg(pgPkg)}
	h.AfterCall = func(e *Engine, ev *CallEvent, res *Val) {
		if ev.name == "(*"+pgx+".Conn).Close" && !ev.isGo {
			ev.st.p.F["closed"] = "y"
			ev.st.p.V["err"] = res
		}
	}
	h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
		if st.p.F["closed"] == "" {
			e.Report(st, "Close:left-open", instrPos(in), "closing a connection may leave it open")
			return
		}
		err, ce := errResult(res), st.p.V["err"]
		if err != ce && !(e.KnownNil(st, ce) && e.KnownNil(st, err)) && !(e.KnownNonNil(st, ce) && e.KnownNonNil(st, err)) {
			e.Report(st, "Close:error", instrPos(in), "a failure to close a connection is lost")
		}
	}
	e = NewEngine(c.Program, h)
	e.Run(e.Start(cl, nil, newP(), "Close"))
	c.Merge(e, cl.String())
}

func init() {
	register(&Check{ID: "R15", Technique: "static analysis: abstract interpretation of SSA, field-to-field dataflow, and struct tag rules",
		Explanation: "Starting, stopping and creating targets is interpreted: every option of the connection must be the setting of the same name, a failed connection must fail the start, and the connection is kept, used by tasks and closed. The limit must be the setting, one by default.",
		Run:         runR15})
}
