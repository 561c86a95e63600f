package main

// C01, C02, C04, C05, C06: the command line and the commands.

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const kingpin = "gopkg.in/alecthomas/kingpin.v2"

// loadID names the struct field a value was read from, or "".
func loadID(v *Val) string {
	v = unwrapConv(v)
	var b *Val
	switch {
	case v.op == OpLoad && v.a[0].op == OpFieldAddr:
		b = v.a[0]
	case v.op == OpField:
		b = v
	default:
		return ""
	}
	if b.a[0].typ == nil || derefStruct(b.a[0].typ) == nil {
		return ""
	}
	return fieldID(b.a[0].typ, b.aux.(int))
}

// option is a flag or an argument.
type option struct {
	cmd, name, short string
	kind             string // the kingpin method that binds it
	obj              *Val   // the object whose field it sets
	id               string // the field
	def              string
	enum             []string
	open             *Val // how its file is opened
	pos              token.Pos
}

func (o *option) String() string {
	s := o.name
	if o.name == "" {
		s = "-" + o.short
	} else if o.kind != "ExistingFileVar" || strings.ToUpper(o.name) != o.name {
		s = "--" + o.name
	}
	if o.cmd != "" {
		s += " of " + o.cmd
	}
	return s
}

// cliInfo is what the command line consists of.
type cliInfo struct {
	opts    map[string]*option // "command/name"
	cmdType map[string]string  // command -> struct type it runs
	cmdObj  map[string]*Val
	preset  map[string]token.Pos // fields that are set when the command line is defined
	cmdVar  string               // field that holds the selected command
}

func (ci *cliInfo) byID(id string) []*option {
	var r []*option
	for _, k := range sortedKeys(ci.opts) {
		if ci.opts[k].id == id {
			r = append(r, ci.opts[k])
		}
	}
	return r
}

// registration interprets the code that defines the command line.
func (c *Ctx) registration() *cliInfo {
	fn := c.NeedFunc(cliPkg, "RegisterCommands")
	if fn == nil {
		return nil
	}
	ci := &cliInfo{opts: map[string]*option{}, cmdType: map[string]string{}, cmdObj: map[string]*Val{}, preset: map[string]token.Pos{}}
	var infos []*option
	h := &Hooks{}
	tagOf := func(st *State, v *Val) string {
		t := ""
		anyIn(v, func(x *Val) bool {
			if s, ok := st.p.get("cli", x); ok && t == "" {
				t = s
			}
			return false
		})
		return t
	}
	h.AfterCall = func(e *Engine, ev *CallEvent, res *Val) {
		st := ev.st
		if !strings.HasPrefix(strings.TrimLeft(ev.name, "(*"), kingpin+".") {
			return
		}
		pos := instrPos(ev.instr)
		m := ev.name[strings.LastIndex(ev.name, ".")+1:]
		if ev.name == kingpin+".New" {
			st.p.put("cli", res, "app")
			return
		}
		if len(ev.args) == 0 {
			return
		}
		tag := tagOf(st, ev.args[0])
		if tag == "" {
			e.Report(st, "registration:"+m, pos, "%s is called on something that is not part of the command line", ev.name)
			return
		}
		var opt *option
		if strings.HasPrefix(tag, "#") {
			n := 0
			for _, r := range tag[1:] {
				n = n*10 + int(r-'0')
			}
			opt = infos[n]
		}
		str := func(i int) string {
			s, ok := constStr(ev.args[i])
			if !ok {
				e.Report(st, "registration:"+m, pos, "the name given to %s is not a constant", m)
			}
			return s
		}
		next := tag
		switch {
		case opt == nil && m == "Command":
			next = "cmd:" + strings.TrimSpace(strings.TrimPrefix(strings.TrimPrefix(tag, "app"), "cmd:")+" "+str(1))
		case opt == nil && (m == "Flag" || m == "Arg"):
			next = "#" + itoa(len(infos))
			infos = append(infos, &option{cmd: strings.TrimPrefix(strings.TrimPrefix(tag, "app"), "cmd:"), name: str(1), pos: pos})
		case opt == nil && m == "Action" && strings.HasPrefix(tag, "cmd:"):
			p := newP()
			p.F["command"] = strings.TrimPrefix(tag, "cmd:")
			var args []*Val
			if f, _ := e.callable(ev.args[1]); f != nil {
				for _, q := range f.Params {
					args = append(args, e.in.mk(OpParam, q.Type(), ssa.Value(q)))
				}
			}
			if !e.AddRoot(st, ev.args[1], args, "action "+p.F["command"], p) {
				e.Report(st, "action:"+p.F["command"], pos, "what selects the command %s is not known", p.F["command"])
			}
		case opt != nil && m == "Short":
			if k, ok := constInt(ev.args[1]); ok {
				opt.short = string(rune(k))
			}
		case opt != nil && (m == "Default" || m == "OverrideDefaultFromEnvar" || m == "Envar"):
			for _, it := range append(e.sliceItems(st, ev.args[1]), ev.args[1]) {
				if s, ok := constStr(it); ok {
					opt.def += m + " " + s
				}
			}
			if opt.def == "" {
				opt.def = m
			}
		case opt != nil && (m == "PreAction" || m == "Action" || m == "NoEnvar"):
			e.Report(st, "registration:"+m, pos, "what %s does for %s is not analysed", m, opt)
		case opt != nil && strings.HasSuffix(m, "Var") || opt != nil && (m == "SetValue" || res != nil && res.typ != nil && !strings.HasSuffix(res.typ.String(), "Clause")):
			if opt.name == "" && opt.short != "" {
				opt.name = "-" + opt.short
			}
			k := opt.cmd + "/" + opt.name
			if !strings.HasSuffix(m, "Var") || len(ev.args) < 2 || ev.args[1].op != OpFieldAddr {
				e.Report(st, "binding:"+k, pos, "%s is not bound to a field of a command", opt)
				return
			}
			opt.kind = m
			opt.obj = rootAddr(ev.args[1])
			opt.id = fieldID(ev.args[1].a[0].typ, ev.args[1].aux.(int))
			if m == "EnumVar" {
				for _, it := range e.sliceItems(st, ev.args[2]) {
					s, _ := constStr(it)
					opt.enum = append(opt.enum, s)
				}
				sort.Strings(opt.enum)
			}
			if m == "OpenFileVar" && len(ev.args) > 2 {
				opt.open = ev.args[2]
			}
			if old := ci.opts[k]; old != nil && (old.id != opt.id || old.obj != opt.obj) {
				e.Report(st, "binding:"+k, pos, "%s is defined twice", opt)
			}
			ci.opts[k] = opt
		}
		if res != nil {
			st.p.put("cli", res, next)
		}
	}
	iface := func(t types.Type) bool {
		it, ok := t.Underlying().(*types.Interface)
		return ok && it.NumMethods() > 0 && hasMethod(it, "Run")
	}
	h.PreStore = func(e *Engine, st *State, in *ssa.Store, addr, val *Val) {
		cmd := st.p.F["command"]
		if addr.op == OpFieldAddr && cmd == "" && val.op != OpZero && e.Decide(st, e.binop(token.EQL, val, e.zero(in.Val.Type()), in.Val.Type(), types.Typ[types.Bool])) != 1 {
			ci.preset[fieldID(addr.a[0].typ, addr.aux.(int))] = instrPos(in)
		}
		if cmd == "" || addr.op != OpFieldAddr || !iface(addr.typ.Underlying().(*types.Pointer).Elem()) {
			return
		}
		o := unwrap(val)
		if o.typ == nil || derefStruct(o.typ) == nil {
			e.Report(st, "action:"+cmd, instrPos(in), "what the command %s runs is not known", cmd)
			return
		}
		id := fieldID(addr.a[0].typ, addr.aux.(int))
		if ci.cmdVar != "" && ci.cmdVar != id {
			e.Report(st, "action:"+cmd, instrPos(in), "commands are selected in several places")
		}
		ci.cmdVar = id
		t := o.typ.Underlying().(*types.Pointer).Elem().(*types.Named).Obj().Name()
		if old := ci.cmdType[cmd]; old != "" && ci.cmdObj[cmd] != o {
			e.Report(st, "action:"+cmd, instrPos(in), "the command %s selects several commands", cmd)
		}
		ci.cmdType[cmd], ci.cmdObj[cmd] = t, o
	}
	e := NewEngine(c.Program, h)
	e.Run(e.Start(fn, nil, newP(), "Register"))
	c.Merge(e, "RegisterCommands")
	return ci
}

// ------------------------------------------------------------------ C01

// what every option is for; the second part is the only default it may have
var optionSinks = map[string]string{
	"host": "pg.Options.Host", "port": "pg.Options.Port", "dbname": "pg.Options.Database", "username": "pg.Options.Username", "sslmode": "pg.Options.SSLMode",
	"sort-columns": "pg.InspectOptions.SortColumns", "sort-check-constraints": "pg.InspectOptions.SortChecks", "sort-indexes": "pg.InspectOptions.SortIndexes",
	"output": "output", "-O": "output", "FILE": "file", "splines": "splines", "color": "color", "long": "long",
	"quiet": "verbosity", "verbose": "verbosity", "debug": "debug log",
}

var optionEnums = map[string]string{
	"sslmode": "allow disable prefer require verify-full", "splines": "curved line ortho", "color": "auto false true",
}

var optionKinds = map[string]string{"quiet": "CounterVar", "verbose": "CounterVar", "FILE": "ExistingFileVar", "debug": "OpenFileVar", "port": "Uint16Var",
	"sslmode": "EnumVar", "splines": "EnumVar", "color": "EnumVar"}

// what every command has to have
var commandOptions = map[string]string{
	"":             "quiet verbose debug",
	"ping":         "host port dbname username sslmode",
	"inspect":      "host port dbname username sslmode output sort-columns sort-check-constraints sort-indexes",
	"runbook list": "FILE", "runbook dot": "FILE output -O splines", "runbook eval": "FILE output color", "runbook run": "FILE",
	"version": "long",
}

func runC01(c *Ctx) {
	ci := c.registration()
	if ci == nil {
		return
	}
	for _, cmd := range sortedKeys(commandOptions) {
		if cmd != "" && ci.cmdType[cmd] == "" {
			c.Fail("command:"+cmd, token.NoPos, "the command %q does not exist or selects nothing", cmd)
			continue
		}
		for _, n := range strings.Fields(commandOptions[cmd]) {
			o := ci.opts[cmd+"/"+n]
			if o == nil {
				c.Fail("option:"+cmd+"/"+n, token.NoPos, "the option %s of %s does not exist", n, cmd)
				continue
			}
			if obj := ci.cmdObj[cmd]; cmd != "" && o.obj != obj {
				c.Fail("object:"+cmd+"/"+n, o.pos, "%s sets a field of something that the command %s does not run", o, cmd)
				continue
			}
			for _, p := range ci.byID(o.id) {
				if p != o && p.obj == o.obj {
					c.Fail("shared:"+cmd+"/"+n, o.pos, "%s and %s set the same field", o, p)
				}
			}
			if want := optionEnums[n]; want != "" && strings.Join(o.enum, " ") != want {
				c.Fail("values:"+cmd+"/"+n, o.pos, "%s accepts the values %s instead of %s", o, strings.Join(o.enum, ", "), want)
			}
			if want := optionKinds[n]; want != "" && o.kind != want {
				c.Fail("kind:"+cmd+"/"+n, o.pos, "%s is bound with %s", o, o.kind)
			}
			want := ""
			if n == "color" {
				want = "Default auto"
			}
			if o.def != want {
				c.Fail("default:"+cmd+"/"+n, o.pos, "%s has a default of its own (%q)", o, o.def)
			}
			if pos, ok := ci.preset[o.id]; ok {
				c.Fail("preset:"+cmd+"/"+n, pos, "what %s sets has a value before the command line is read", o)
			}
			c.OK("option bound to its command", cmd+"/"+n)
		}
	}
	for _, k := range sortedKeys(ci.opts) {
		o := ci.opts[k]
		if optionSinks[o.name] == "" {
			c.Fail("unknown-option:"+k, o.pos, "what %s is for is not known", o)
		}
	}
	for _, cmd := range sortedKeys(ci.cmdType) {
		if commandOptions[cmd] == "" {
			c.Fail("unknown-command:"+cmd, token.NoPos, "what the command %q is for is not known", cmd)
			continue
		}
		c.commandUse(ci, cmd)
	}
	c.rendererUse()
	c.Floor("option bound to its command", 24)
	c.Floor("option reaches its setting", 13)
	c.Floor("other settings are left alone", 2)
	c.Floor("output written where it belongs", 5)
	c.Floor("color decided by its option", 1)
}

// commandUse follows the options of a command to what they are for.
func (c *Ctx) commandUse(ci *cliInfo, cmd string) {
	run := c.commandRuns()[ci.cmdType[cmd]]
	if run == nil {
		c.Fail("anchor:Run:"+cmd, token.NoPos, "the command %s cannot be run", cmd)
		return
	}
	opt := func(n string) *option { return ci.opts[cmd+"/"+n] }
	recv := c.in.mk(OpParam, run.Params[0].Type(), ssa.Value(run.Params[0]))
	cmdFile := map[string]*ssa.Function{}
	for _, n := range []string{"List", "Dot", "Eval", "Run"} {
		if f := c.NeedFunc(rbPkg, n); f != nil {
			cmdFile[n] = f
		}
	}
	newConn, inspect := c.NeedFunc("internal/pg", "New"), c.NeedMethod("internal/pg", "Conn", "InspectDatabase")
	if newConn == nil || inspect == nil {
		return
	}
	field := func(e *Engine, st *State, n string) *Val {
		o := opt(n)
		if o == nil {
			return nil
		}
		s := derefStruct(recv.typ)
		for i := 0; i < s.NumFields(); i++ {
			if fieldID(recv.typ, i) == o.id {
				if v := st.p.V["given:"+o.id]; v != nil {
					return v
				}
				return loadField(e, st, recv, i)
			}
		}
		return nil
	}
	structArg := func(e *Engine, st *State, pos token.Pos, arg *Val, typ string, required bool) {
		s := derefStruct(arg.typ)
		if s == nil {
			e.Report(st, "options:"+cmd, pos, "the options of the %s command are not passed on in a structure", cmd)
			return
		}
		sinks := map[string]string{}
		for n, k := range optionSinks {
			if strings.HasPrefix(k, typ) {
				sinks[strings.TrimPrefix(k, typ)] = n
			}
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i).Name()
			v := loadField(e, st, arg, i)
			n := sinks[f]
			if n == "" {
				if f == "Log" {
					if loadID(v) != "internal/sys.IO.Log" {
						e.Report(st, "log:"+cmd, pos, "the %s command does not pass its log on", cmd)
					}
					continue
				}
				if e.Decide(st, e.binop(token.EQL, v, e.zero(s.Field(i).Type()), s.Field(i).Type(), types.Typ[types.Bool])) != 1 {
					e.Report(st, "sets:"+cmd+":"+f, pos, "the %s command sets %s%s, which no option is for", cmd, typ, f)
				}
				continue
			}
			want := field(e, st, n)
			if want == nil || v != want && e.Decide(st, e.binop(token.EQL, v, want, want.typ, types.Typ[types.Bool])) != 1 {
				e.Report(st, "lost:"+cmd+":"+n, pos, "%s%s is not set to the value of --%s", typ, f, n)
				continue
			}
			c.OK("option reaches its setting", cmd+"/"+n)
		}
		c.OK("other settings are left alone", cmd+":"+typ)
	}
	h := &Hooks{}
	h.Opaque = func(st *State, f *ssa.Function) bool { return f.Pkg == nil || f.Pkg.Pkg.Path() != pkgPath(cmdPkg) }
	empty := func(e *Engine, st *State, v *Val) int {
		if v == nil {
			return 1
		}
		bt := types.Typ[types.Bool]
		a := e.Decide(st, e.binop(token.EQL, v, e.cstr(""), v.typ, bt))
		b := e.Decide(st, e.binop(token.EQL, v, e.cstr("-"), v.typ, bt))
		switch {
		case a == 1 || b == 1:
			return 1
		case a == 0 && b == 0:
			return 0
		}
		return -1
	}
	toStdout := func(e *Engine, st *State, pos token.Pos, what string) {
		out := field(e, st, "output")
		if out == nil {
			return
		}
		if empty(e, st, out) != 1 {
			e.Report(st, "output:"+cmd, pos, "output is written to the standard output although --output may name a file")
			return
		}
		if o := field(e, st, "-O"); o != nil && e.Decide(st, o) != 0 && e.Decide(st, e.binop(token.EQL, out, e.cstr("-"), out.typ, types.Typ[types.Bool])) != 1 {
			e.Report(st, "output:"+cmd, pos, "output is written to the standard output although -O may be given")
			return
		}
		st.p.F["written"] += what
		c.OK("output written where it belongs", cmd+": standard output")
	}
	toFile := func(e *Engine, st *State, pos token.Pos, name *Val) {
		out := field(e, st, "output")
		if out == nil {
			e.Report(st, "output:"+cmd, pos, "a file is written by a command that has no option to name it")
			return
		}
		st.p.F["written"] += "f"
		switch {
		case unwrapConv(name) == out || e.Decide(st, e.binop(token.EQL, name, out, out.typ, types.Typ[types.Bool])) == 1:
			if empty(e, st, out) != 0 {
				e.Report(st, "output:"+cmd, pos, "a file is written although --output is not known to name one")
				return
			}
			c.OK("output written where it belongs", cmd+": file")
		default:
			auto, src := field(e, st, "-O"), field(e, st, "FILE")
			if auto == nil || src == nil || !derivedName(e, name, src) {
				e.Report(st, "output:"+cmd, pos, "the file that is written is not the one named by --output")
				return
			}
			if e.Decide(st, auto) != 1 {
				e.Report(st, "auto-output:"+cmd, pos, "the name of the output file is derived from the name of the input file without -O")
				return
			}
			if e.Decide(st, e.binop(token.EQL, out, e.cstr(""), out.typ, types.Typ[types.Bool])) != 1 {
				e.Report(st, "auto-output:"+cmd, pos, "-O takes precedence over --output")
				return
			}
			c.OK("output written where it belongs", cmd+": derived file")
		}
	}
	h.AfterCall = func(e *Engine, ev *CallEvent, res *Val) {
		st, pos := ev.st, instrPos(ev.instr)
		switch {
		case ev.fn == newConn:
			structArg(e, st, pos, ev.args[0], "pg.Options.", true)
			st.p.F["connected"] = "y"
		case ev.fn == inspect:
			structArg(e, st, pos, ev.args[1], "pg.InspectOptions.", true)
			st.p.F["inspected"] = "y"
		case strings.HasSuffix(ev.name, "isatty.IsTerminal"):
			st.p.put("tty", res, "y")
		}
		for _, n := range sortedKeys(cmdFile) {
			if ev.fn != cmdFile[n] {
				continue
			}
			st.p.F["ran"] = n
			if want := field(e, st, "FILE"); want == nil || ev.args[1] != want {
				e.Report(st, "file:"+cmd, pos, "the file the %s command works on is not the one on the command line", cmd)
			} else {
				c.OK("option reaches its setting", cmd+"/FILE")
			}
			for i, p := range ev.fn.Params {
				if i < 2 {
					continue
				}
				if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
					if want := field(e, st, "splines"); want == nil || ev.args[i] != want {
						e.Report(st, "splines:"+cmd, pos, "--splines is not passed on")
					} else {
						c.OK("option reaches its setting", cmd+"/splines")
					}
				} else if ok && b.Kind() == types.Bool {
					c.colorArg(e, st, pos, ev.args[i], field(e, st, "color"), field(e, st, "output"), empty)
				}
			}
		}
		switch {
		case (strings.HasPrefix(ev.name, "fmt.Fprint") || ev.invoke && strings.HasSuffix(ev.name, ").Write") || ev.name == "io.WriteString" || ev.name == "io.Copy") && loadID(unwrap(ev.args[0])) == "internal/sys.IO.Stdout":
			toStdout(e, st, pos, "s")
		case ev.name == "(*bytes.Buffer).WriteTo" && loadID(unwrap(ev.args[1])) == "internal/sys.IO.Stdout":
			toStdout(e, st, pos, "s")
		case ev.name == "(*os.File).Write" || ev.name == "(*os.File).Close":
		}
		if i, ok := fileWriters[ev.name]; ok && i == 0 {
			toFile(e, st, pos, ev.args[0])
		}
	}
	want := map[string]string{"runbook list": "List", "runbook dot": "Dot", "runbook eval": "Eval", "runbook run": "Run"}[cmd]
	h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
		if err := errResult(res); err == nil || e.KnownNonNil(st, err) {
			return
		}
		switch {
		case want != "" && st.p.F["ran"] != want:
			if st.p.F["ran"] == "" {
				e.Report(st, "nothing-done:"+cmd, instrPos(in), "%s reports success without having done anything", cmd)
			} else {
				e.Report(st, "other-done:"+cmd, instrPos(in), "%s does what runbook.%s is for", cmd, st.p.F["ran"])
			}
		case (cmd == "ping" || cmd == "inspect") && st.p.F["connected"] == "", cmd == "inspect" && st.p.F["inspected"] == "":
			e.Report(st, "nothing-done:"+cmd, instrPos(in), "%s reports success without having done anything", cmd)
		case opt("output") != nil && st.p.F["written"] == "":
			e.Report(st, "not-written:"+cmd, instrPos(in), "%s reports success without having written its output", cmd)
		case opt("output") != nil && len(st.p.F["written"]) > 1:
			e.Report(st, "written-twice:"+cmd, instrPos(in), "%s writes its output several times", cmd)
		}
	}
	if cmd == "version" {
		c.versionUse(h, opt("long"), recv)
	}
	e := NewEngine(c.Program, h)
	st := e.Start(run, nil, newP(), cmd)
	if s := derefStruct(recv.typ); s != nil {
		// what was given on the command line, whatever the command makes of it
		for i := 0; i < s.NumFields(); i++ {
			if id := fieldID(recv.typ, i); len(ci.byID(id)) > 0 {
				st.p.V["given:"+id] = loadField(e, st, recv, i)
			}
		}
	}
	e.Run(st)
	c.Merge(e, "the "+cmd+" command")
}

// derivedName: the name of the file with its extension replaced by ".dot".
func derivedName(e *Engine, name, src *Val) bool {
	if name.op != OpBin || name.aux != token.ADD || len(name.a) != 2 {
		return false
	}
	if s, ok := constStr(name.a[1]); !ok || s != ".dot" {
		return false
	}
	it := types.Typ[types.Int]
	ext := e.in.mk(OpPure, src.typ, "path/filepath.Ext", src)
	base := name.a[0]
	if base.op == OpPure && base.aux == "strings.TrimSuffix" && base.a[0] == src && base.a[1].op == OpPure && base.a[1].aux == "path/filepath.Ext" && base.a[1].a[0] == src {
		return true
	}
	if base.op != OpSlice || base.a[0] != src || len(base.a) < 2 {
		return false
	}
	for _, x := range base.a[1:] {
		if x == e.binop(token.SUB, e.lenOf(src), e.lenOf(ext), it, it) {
			return true
		}
	}
	return false
}

// colorArg: whether colors are used, for each value of the option.
func (c *Ctx) colorArg(e *Engine, st *State, pos token.Pos, arg, opt, out *Val, empty func(*Engine, *State, *Val) int) {
	if opt == nil || out == nil {
		e.Report(st, "color", pos, "there is no option for colors")
		return
	}
	bt := types.Typ[types.Bool]
	for _, x := range []string{"true", "false", "auto"} {
		s := st.clone()
		if !e.Assume(s, e.binop(token.EQL, opt, e.cstr(x), opt.typ, bt), true) {
			continue
		}
		switch x {
		case "true":
			if e.Decide(s, arg) != 1 {
				e.Report(st, "color:true", pos, "--color=true does not always turn colors on")
				return
			}
		case "false":
			if e.Decide(s, arg) != 0 {
				e.Report(st, "color:false", pos, "--color=false does not always turn colors off")
				return
			}
		default:
			tty := false
			anyIn(arg, func(v *Val) bool {
				if _, ok := s.p.get("tty", v); ok {
					tty = true
				}
				return false
			})
			if e.Decide(s, arg) == 0 {
				continue
			}
			if !tty {
				e.Report(st, "color:auto", pos, "--color=auto turns colors on without the output being a terminal")
				return
			}
			if empty(e, s, out) != 1 {
				e.Report(st, "color:auto", pos, "--color=auto may write colors to a file")
				return
			}
			c.OK("color decided by its option", "auto")
		}
	}
}

// versionUse: details are printed if and only if they are asked for.
func (c *Ctx) versionUse(h *Hooks, long *option, recv *Val) {
	if long == nil {
		return
	}
	lt := &LoopTrack{}
	flag := func(e *Engine, st *State) int {
		s := derefStruct(recv.typ)
		for i := 0; i < s.NumFields(); i++ {
			if fieldID(recv.typ, i) == long.id {
				if v := st.p.V["given:"+long.id]; v != nil {
					return e.Decide(st, v)
				}
				return e.Decide(st, loadField(e, st, recv, i))
			}
		}
		return -1
	}
	isDeps := func(v *Val) bool { return loadID(v) == "runtime/debug.BuildInfo.Deps" }
	lt.OnElem = func(e *Engine, st *State, l *Loop, over, k, v *Val) {
		if !isDeps(over) {
			return
		}
		if st.p.F["dep"] == "open" {
			e.Report(st, "version-detail", instrPos(l.head.Instrs[0]), "version --long leaves out modules")
		}
		st.p.F["dep"] = "open"
		if flag(e, st) != 1 {
			e.Report(st, "version-detail", instrPos(l.head.Instrs[0]), "the version command prints details it was not asked for")
		}
		c.OK("option reaches its setting", "version/long")
	}
	lt.OnEnd = func(e *Engine, st *State, l *Loop, over *Val) {
		if isDeps(over) {
			if st.p.F["dep"] == "open" {
				e.Report(st, "version-detail", instrPos(l.head.Instrs[0]), "version --long leaves out modules")
			}
			st.p.F["dep"] = "all"
		}
	}
	after, ret := h.AfterCall, h.Return
	h.AfterCall = func(e *Engine, ev *CallEvent, res *Val) {
		after(e, ev, res)
		if strings.HasPrefix(ev.name, "fmt.Fprint") {
			s := map[string]bool{}
			for _, it := range e.sliceItems(ev.st, ev.args[len(ev.args)-1]) {
				s[loadID(unwrap(it))] = true
			}
			if s["runtime/debug.Module.Path"] && s["runtime/debug.Module.Version"] {
				ev.st.p.F["dep"] = "shown"
			}
		}
	}
	h.Branch = func(e *Engine, st *State, in *ssa.If, cond *Val, taken bool) { lt.Branch(e, st, in, taken) }
	h.Append = func(e *Engine, st *State, in ssa.CallInstruction, base, items, res *Val) {
		lt.Append(e, st, base, items, res)
	}
	h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
		ret(e, st, in, res)
		err := errResult(res)
		if err == nil || e.KnownNonNil(st, err) || flag(e, st) == 0 {
			return
		}
		info := e.namedField(st, recv, "BuildInfo")
		if st.p.F["dep"] != "all" && (info == nil || !e.KnownNil(st, info)) {
			e.Report(st, "version-detail", instrPos(in), "version --long reports success without having printed all details")
		}
	}
}

// rendererUse: what Dot and Eval do with their options.
func (c *Ctx) rendererUse() {
	dot, eval := c.NeedFunc(rbPkg, "Dot"), c.NeedFunc(rbPkg, "Eval")
	if dot == nil || eval == nil {
		return
	}
	param := func(fn *ssa.Function, k types.BasicKind) *Val {
		for i, p := range fn.Params {
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == k && i > 1 {
				return c.in.mk(OpParam, p.Type(), ssa.Value(p))
			}
		}
		return nil
	}
	splines, color := param(dot, types.String), param(eval, types.Bool)
	if splines == nil || color == nil {
		c.Fail("anchor:renderer", dot.Pos(), "Dot or Eval has no parameter for its option")
		return
	}
	bt := types.Typ[types.Bool]
	h := &Hooks{}
	outside := func(st *State, f *ssa.Function) bool { return f.Pkg == nil || f.Pkg.Pkg.Path() != pkgPath(rbPkg) }
	h.Opaque = outside
	h.AfterCall = func(e *Engine, ev *CallEvent, res *Val) {
		if strings.HasSuffix(ev.name, ".SetName") && strings.Contains(ev.name, "gographviz") {
			ev.st.p.F["name"], _ = constStr(ev.args[1])
		}
		if !strings.HasSuffix(ev.name, ".AddAttr") {
			return
		}
		if n, ok := constStr(ev.args[2]); ok && n == "splines" {
			if g, _ := constStr(ev.args[1]); ev.args[3] != splines || g == "" || ev.st.p.F["name"] != "" && g != ev.st.p.F["name"] {
				e.Report(ev.st, "splines-value", instrPos(ev.instr), "the graph does not use the splines it was asked for")
				return
			}
			ev.st.p.F["splines"] = "y"
			c.OK("option reaches its setting", "Dot/splines")
		}
	}
	h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
		if err := errResult(res); err == nil || e.KnownNonNil(st, err) {
			return
		}
		if st.p.F["splines"] == "" && e.Decide(st, e.binop(token.EQL, splines, e.cstr(""), splines.typ, bt)) != 1 {
			e.Report(st, "splines-lost", instrPos(in), "the splines that were asked for may not be used")
		}
	}
	e := NewEngine(c.Program, h)
	e.Run(e.Start(dot, nil, newP(), "Dot"))
	c.Merge(e, "Dot")

	h = &Hooks{Opaque: outside}
	h.Call = func(e *Engine, ev *CallEvent) (*Val, bool) {
		if !strings.HasSuffix(ev.name, "prettyjson.Formatter).Marshal") && !strings.HasSuffix(ev.name, "prettyjson.Formatter).Format") {
			return nil, false
		}
		st := ev.st
		v := e.namedField(st, ev.args[0], "DisabledColor")
		for _, on := range []bool{true, false} {
			s := st.clone()
			if v == nil || !e.Assume(s, color, on) {
				continue
			}
			d := e.Decide(s, v)
			if d == b2i(!on) || on && v.op == OpLoad {
				continue
			}
			e.Report(st, "color-value", instrPos(ev.instr), "colors are not used if and only if they were asked for")
			return nil, false
		}
		if v == nil {
			e.Report(st, "color-value", instrPos(ev.instr), "the setting for colors is not known")
		}
		c.OK("option reaches its setting", "Eval/color")
		return nil, false
	}
	e = NewEngine(c.Program, h)
	e.Run(e.Start(eval, nil, newP(), "Eval"))
	c.Merge(e, "Eval")
}

// ------------------------------------------------------------------ C02

// neverFails: calls whose error is always nil.
func neverFails(e *Engine, ev *CallEvent) bool {
	n := ev.name
	buffer := func(v *Val) bool {
		v = unwrap(v)
		if v.typ == nil {
			return false
		}
		t := types.TypeString(v.typ, nil)
		return t == "*bytes.Buffer" || t == "*strings.Builder"
	}
	switch {
	case strings.HasPrefix(n, "(*bytes.Buffer).") && n != "(*bytes.Buffer).ReadFrom" && n != "(*bytes.Buffer).WriteTo", strings.HasPrefix(n, "(*strings.Builder)."):
		return true
	case (strings.HasPrefix(n, "fmt.Fprint") || n == "io.WriteString") && len(ev.args) > 0 && buffer(ev.args[0]):
		return true
	case strings.Contains(n, "awalterschulze/gographviz."):
		if len(ev.args) == 0 {
			return false
		}
		switch n[strings.LastIndex(n, ".")+1:] {
		case "SetDir", "SetName", "SetStrict":
			return true
		case "AddAttr":
			_, ok := constStr(ev.args[2])
			return ok
		}
		last := ev.args[len(ev.args)-1]
		return isNilConst(last) || last.op == OpZero
	case strings.HasSuffix(n, "zap.SugaredLogger).Sync"), strings.HasSuffix(n, "internal/pg.Conn).Close"):
		return true // not a step of the command
	}
	return false
}

func runC02(c *Ctx) {
	c.mainExit()
	roots := map[string]*ssa.Function{}
	for n, f := range c.commandRuns() {
		roots[n+".Run"] = f
	}
	if len(roots) < 7 {
		c.Fail("anchor:commands", token.NoPos, "only %d commands were found", len(roots))
	}
	for _, n := range []string{"List", "Dot", "Eval", "Run"} {
		if f := c.NeedFunc(rbPkg, n); f != nil {
			roots["runbook."+n] = f
		}
	}
	if f := c.NeedMethod(parserPkg, "Parser", "Load"); f != nil {
		roots["Parser.Load"] = f
	}
	if f := c.NeedMethod(ddlPkg, "Database", "Write"); f != nil {
		roots["Database.Write"] = f
	}
	if f := c.NeedMethod("internal/pg", "Conn", "ServerVersion"); f != nil {
		roots["Conn.ServerVersion"] = f
	}
	if p := c.ssap[Module]; p != nil && p.Func("main") != nil {
		all := []*ssa.Function{p.Func("main")}
		for _, f := range roots {
			all = append(all, f)
		}
		c.noRecover("a panic is hidden: the command may end with status zero", all...)
	}
	for _, name := range sortedKeys(roots) {
		root := roots[name]
		ef := &ErrFlow{Rule: "success only if every step succeeded", Fail: func(e *Engine, st *State, key string, in ssa.Instruction, f string, a ...interface{}) {
			e.Report(st, name+":"+key, instrPos(in), f, a...)
		}}
		h := &Hooks{}
		h.Opaque = func(st *State, f *ssa.Function) bool {
			return f.Pkg != nil && f.Pkg != root.Pkg || c.spawns(f)
		}
		h.AfterCall = func(e *Engine, ev *CallEvent, res *Val) {
			if !neverFails(e, ev) {
				ef.AfterCall(e, ev, res)
			}
			c.buffered(e, ev, res)
		}
		h.Branch = func(e *Engine, st *State, in *ssa.If, cond *Val, taken bool) { ef.Branch(e, st) }
		h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
			if ef.Return(e, st, in, errResult(res)) {
				for _, v := range st.p.each("unflushed") {
					n, _ := st.p.get("unflushed", v)
					e.Report(st, name+":unflushed", instrPos(in), "success is reported although what was written to the %s may not have been passed on", n)
				}
			}
		}
		e := NewEngine(c.Program, h)
		e.Run(e.Start(root, nil, newP(), name))
		c.Merge(e, name)
	}
	c.Floor("success only if every step succeeded", 1)
	c.Floor("exit status", 1)
}

// buffered: writers that have to be flushed.
func (c *Ctx) buffered(e *Engine, ev *CallEvent, res *Val) {
	st := ev.st
	switch {
	case strings.HasPrefix(ev.name, "bufio.NewWriter") || ev.name == "text/tabwriter.NewWriter":
		if res != nil {
			st.p.put("unflushed", res, ev.name)
		}
		return
	case ev.name == "(*bufio.Writer).Flush" || ev.name == "(*text/tabwriter.Writer).Flush":
		if ev.isDefer {
			return
		}
		st.p.del("unflushed", ev.args[0])
		st.p.put("flushed", ev.args[0], ev.name)
		return
	}
	for _, a := range ev.args {
		if n, ok := st.p.get("flushed", unwrap(a)); ok {
			st.p.put("unflushed", unwrap(a), n)
		}
	}
}

// spawns: the function may start goroutines.
func (c *Ctx) spawns(f *ssa.Function) bool {
	for g := range c.staticReach(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok {
					return true
				}
			}
		}
	}
	return false
}

// mainRun interprets the main function; at is told about the calls.
func (c *Ctx) mainRun(h *Hooks, label string) *Engine {
	main := c.NeedFunc("", "main")
	reg := c.NeedFunc(cliPkg, "RegisterCommands")
	if main == nil || reg == nil {
		return nil
	}
	h.Opaque = func(st *State, f *ssa.Function) bool {
		return f == reg || f.Pkg != nil && f.Pkg != main.Pkg && f.Pkg != reg.Pkg
	}
	e := NewEngine(c.Program, h)
	e.Run(e.Start(main, nil, newP(), label))
	c.Merge(e, "main")
	return e
}

// isRunCall: the call that runs the selected command.
func isRunCall(ev *CallEvent) bool {
	return ev.invoke && strings.HasSuffix(ev.name, ").Run") && strings.Contains(ev.name, pkgPath(cliPkg))
}

func (c *Ctx) mainExit() {
	ef := &ErrFlow{}
	h := &Hooks{}
	judge := func(e *Engine, st *State, in ssa.Instruction, code *Val) {
		ef.Branch(e, st)
		failed := st.p.F["ef.failed"]
		zero := 1
		if code != nil {
			zero = e.Decide(st, e.binop(token.EQL, code, e.cint(0), types.Typ[types.Int], types.Typ[types.Bool]))
		}
		pos := instrPos(in)
		switch {
		case zero == -1:
			e.Report(st, "exit-unknown", pos, "the exit status is not known")
		case zero == 1 && failed != "":
			e.Report(st, "exit-zero", pos, "the exit status is zero although %s failed", failed)
		case zero == 1 && len(st.p.each("ef.err")) > 0:
			n, _ := st.p.get("ef.err", st.p.each("ef.err")[0])
			e.Report(st, "exit-zero", pos, "the exit status is zero whether or not %s failed", n)
		case zero == 1 && st.p.F["ran"] == "":
			e.Report(st, "exit-zero", pos, "the exit status is zero although no command was run")
		case zero == 0 && failed == "":
			e.Report(st, "exit-nonzero", pos, "the exit status is not zero although nothing is known to have failed")
		default:
			e.Site("exit status", in)
		}
	}
	h.Call = func(e *Engine, ev *CallEvent) (*Val, bool) {
		switch ev.name {
		case "os.Exit":
			if !ev.isDefer {
				judge(e, ev.st, ev.instr, ev.args[0])
			}
		case "log.Fatal", "log.Fatalf", "log.Fatalln":
			judge(e, ev.st, ev.instr, e.cint(1))
		}
		return nil, false
	}
	h.AfterCall = func(e *Engine, ev *CallEvent, res *Val) {
		if strings.HasPrefix(ev.name, "fmt.") || neverFails(e, ev) {
			return
		}
		if isRunCall(ev) {
			if ev.st.p.F["ran"] != "" {
				e.Report(ev.st, "run-twice", instrPos(ev.instr), "a command is run twice")
			}
			ev.st.p.F["ran"] = "y"
			if len(ev.st.p.each("ef.err")) > 0 || ev.st.p.F["ef.failed"] != "" {
				e.Report(ev.st, "run-after-error", instrPos(ev.instr), "a command is run although the command line may not have been understood")
			}
		}
		ef.AfterCall(e, ev, res)
	}
	h.Branch = func(e *Engine, st *State, in *ssa.If, cond *Val, taken bool) { ef.Branch(e, st) }
	h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) { judge(e, st, in, nil) }
	c.mainRun(h, "exit")
}

// ------------------------------------------------------------------ C04

func runC04(c *Ctx) {
	runs := c.commandRuns()
	if len(runs) < 7 {
		c.Fail("anchor:commands", token.NoPos, "only %d commands were found", len(runs))
	}
	for _, name := range sortedKeys(runs) {
		root := runs[name]
		ef := &ErrFlow{}
		h := &Hooks{}
		h.Opaque = func(st *State, f *ssa.Function) bool { return f.Pkg != nil && f.Pkg != root.Pkg }
		content := func(e *Engine, st *State, pos token.Pos, data *Val) bool {
			d := unwrapConv(unwrap(data))
			b, ok := st.p.get("content", d)
			switch {
			case !ok:
				e.Report(st, name+":not-content", pos, "what is written to the file is not the complete content that was produced")
			case b != "" && st.p.F["grown:"+b] != "":
				e.Report(st, name+":grown", pos, "what is written to the file was taken before everything was produced")
			default:
				return true
			}
			return false
		}
		open := func(e *Engine, st *State, in ssa.CallInstruction) {
			ef.Branch(e, st)
			pos := instrPos(in)
			if f := st.p.F["ef.failed"]; f != "" {
				e.Report(st, name+":after-failure", pos, "a file is opened for writing although %s failed", f)
				return
			}
			for _, v := range st.p.each("ef.err") {
				n, _ := st.p.get("ef.err", v)
				e.Report(st, name+":before-check", pos, "a file is opened for writing before %s is known to have succeeded", n)
				return
			}
			if st.p.F["opened"] != "" {
				e.Report(st, name+":opened-twice", pos, "files are opened for writing several times")
				return
			}
			if st.p.F["produced"] == "" {
				e.Report(st, name+":before-content", pos, "a file is opened for writing before its content was produced")
				return
			}
			st.p.F["opened"] = "y"
			e.Site("file opened after its content was produced", in)
		}
		h.Call = func(e *Engine, ev *CallEvent) (*Val, bool) {
			st, pos := ev.st, instrPos(ev.instr)
			if i, ok := fileWriters[ev.name]; ok && i == 0 {
				open(e, st, ev.instr)
				switch ev.name {
				case "io/ioutil.WriteFile", "os.WriteFile":
					if content(e, st, pos, ev.args[1]) {
						e.Site("complete content written", ev.instr)
					}
				case "os.OpenFile":
					k, ok := constInt(ev.args[1])
					if !ok || k&3 == 0 || k&0x200 == 0 || k&0x400 != 0 || k&0x40 == 0 {
						e.Report(st, name+":flags", pos, "the file is not opened so that its content is replaced")
					}
				case "os.Truncate":
					e.Report(st, name+":truncate", pos, "the file is truncated")
				}
				return nil, false
			}
			return nil, false
		}
		h.AfterCall = func(e *Engine, ev *CallEvent, res *Val) {
			st, pos := ev.st, instrPos(ev.instr)
			n := ev.name
			if i, ok := fileWriters[n]; ok && i == 0 {
				if res != nil && res.op == OpTuple {
					st.p.put("file", res.a[0], "y")
				}
				return
			}
			buf := func(v *Val) *Val {
				v = unwrap(v)
				if v.typ != nil && types.TypeString(v.typ, nil) == "*bytes.Buffer" || v.typ != nil && types.TypeString(v.typ, nil) == "*strings.Builder" {
					return v
				}
				return nil
			}
			file := func(v *Val) bool { _, ok := st.p.get("file", unwrap(v)); return ok }
			if len(ev.args) > 0 {
				b := buf(ev.args[0])
				switch {
				case n == "(*bytes.Buffer).Bytes" || n == "(*bytes.Buffer).String" || n == "(*strings.Builder).String":
					if _, ok := st.p.get("buffer", b); ok {
						st.p.put("content", res, "b"+itoa(b.id))
						delete(st.p.F, "grown:b"+itoa(b.id))
					}
					return
				case n == "(*bytes.Buffer).WriteTo":
					if _, ok := st.p.get("buffer", b); ok && file(ev.args[1]) {
						e.Site("complete content written", ev.instr)
					}
					return
				case n == "io.Copy" && file(ev.args[0]):
					if b := buf(ev.args[1]); b != nil {
						if _, ok := st.p.get("buffer", b); ok {
							e.Site("complete content written", ev.instr)
							return
						}
					}
					e.Report(st, name+":not-content", pos, "what is written to the file is not the complete content that was produced")
					return
				case n == "(*os.File).Write" || n == "(*os.File).WriteString":
					if file(ev.args[0]) && content(e, st, pos, ev.args[1]) {
						e.Site("complete content written", ev.instr)
					}
					return
				case n == "(*os.File).Close" || n == "(*os.File).Sync":
					return
				case (n == "fmt.Fprint" || n == "io.WriteString") && file(ev.args[0]):
					for _, it := range append(e.sliceItems(st, ev.args[1]), ev.args[1]) {
						if _, ok := st.p.get("content", unwrapConv(unwrap(it))); ok {
							e.Site("complete content written", ev.instr)
							return
						}
					}
					e.Report(st, name+":not-content", pos, "what is written to the file is not the complete content that was produced")
					return
				case (strings.HasPrefix(n, "(*bytes.Buffer).Write") || strings.HasPrefix(n, "(*strings.Builder).Write") || strings.HasPrefix(n, "fmt.Fprint")) && b != nil:
					st.p.put("buffer", b, "y")
					st.p.F["grown:b"+itoa(b.id)] = "y"
					st.p.F["produced"] = "y"
					return
				case (strings.HasPrefix(n, "(*bytes.Buffer).") && n != "(*bytes.Buffer).Len" && n != "(*bytes.Buffer).Cap" && n != "(*bytes.Buffer).Grow" && n != "(*bytes.Buffer).Available") && b != nil:
					st.p.del("buffer", b)
					e.Report(st, name+":consumed", pos, "the content that was produced is changed by %s before it is written", n)
					return
				}
			}
			if strings.HasPrefix(n, "(*os.File).") || neverFails(e, ev) {
				return
			}
			// anything else may produce content
			isProducer := ev.fn != nil && c.inScope(ev.fn)
			for _, a := range ev.args {
				if b := buf(a); b != nil {
					st.p.put("buffer", b, "y")
					st.p.F["grown:b"+itoa(b.id)] = "y"
					st.p.F["produced"] = "y"
					isProducer = true
				}
				if file(a) {
					e.Report(st, name+":into-file", pos, "content is produced into the file itself by %s", shortName(n))
				}
			}
			if st.p.F["opened"] != "" && isProducer {
				e.Report(st, name+":produced-late", pos, "%s is called after the file was opened", shortName(n))
			}
			ef.AfterCall(e, ev, res)
		}
		h.Branch = func(e *Engine, st *State, in *ssa.If, cond *Val, taken bool) { ef.Branch(e, st) }
		e := NewEngine(c.Program, h)
		e.Run(e.Start(root, nil, newP(), name))
		c.Merge(e, name)
	}
	c.Floor("file opened after its content was produced", 1)
	c.Floor("complete content written", 1)
}

// ------------------------------------------------------------------ C05, C06

func runLogging(c *Ctx, id string) {
	ci := c.registration()
	newLog := c.NeedFunc("internal/logger", "New")
	if ci == nil || newLog == nil {
		return
	}
	optID := func(n string) string {
		if o := ci.opts["/"+n]; o != nil {
			return o.id
		}
		c.Fail("option:"+n, token.NoPos, "the option --%s does not exist", n)
		return "?"
	}
	// the command line to logger.New
	verbose, quiet, debug := optID("verbose"), optID("quiet"), optID("debug")
	for _, n := range []string{"verbose", "quiet"} {
		if o := ci.opts["/"+n]; id == "C05" && o != nil && (o.kind != "CounterVar" || o.def != "") {
			c.Fail("counter:"+n, o.pos, "--%s is not a plain counter", n)
		}
	}
	h := &Hooks{}
	h.AfterCall = func(e *Engine, ev *CallEvent, res *Val) {
		st, pos := ev.st, instrPos(ev.instr)
		if isRunCall(ev) {
			log := e.baseField(st, ev.args[1], "Log")
			if log == nil {
				e.Report(st, "no-log", pos, "the command does not get a log")
				return
			}
			if _, ok := st.p.get("log", log); !ok {
				e.Report(st, "other-log", pos, "the log a command is given is not the one that was set up according to the command line")
				return
			}
			e.Site("log handed to the command", ev.instr)
			return
		}
		if ev.fn != newLog {
			return
		}
		st.p.put("log", res, "y")
		if id == "C05" {
			l := e.linear(ev.args[0])
			ok := l.k == 1 && len(l.t) == 2
			for v, k := range l.t {
				switch loadID(v) {
				case verbose:
					ok = ok && k == 1
				case quiet:
					ok = ok && k == -1
				default:
					ok = false
				}
			}
			if !ok {
				e.Report(st, "verbosity", pos, "the verbosity of the log is not one plus the number of -v minus the number of -q")
				return
			}
			e.Site("verbosity from the command line", ev.instr)
			return
		}
		d := ev.args[2]
		f := unwrap(d)
		switch {
		case isNilConst(f) || f.op == OpZero:
			// only if there is no file
			known := false
			for a := range st.facts {
				anyIn(a, func(v *Val) bool {
					if loadID(v) == debug && e.KnownNil(st, v) {
						known = true
					}
					return false
				})
			}
			if !known {
				e.Report(st, "debug-lost", pos, "the debug log may have been asked for, but is not used")
				return
			}
		case loadID(f) == debug:
			if !e.KnownNonNil(st, f) {
				e.Report(st, "debug-nil", pos, "without a debug log, the logger is given one that cannot be written to")
				return
			}
		default:
			e.Report(st, "debug-other", pos, "the debug log is not the file given on the command line")
			return
		}
		e.Site("debug log from the command line", ev.instr)
	}
	c.mainRun(h, "log")
	c.Floor("log handed to the command", 1)
	if id == "C05" {
		c.Floor("verbosity from the command line", 1)
	} else {
		c.Floor("debug log from the command line", 1)
		if o := ci.opts["/debug"]; o != nil && o.kind != "OpenFileVar" {
			c.Fail("debug-kind", o.pos, "--debug does not open a file")
		} else if o != nil {
			k, ok := int64(0), false
			if o.open != nil {
				k, ok = constInt(o.open)
			}
			switch {
			case !ok:
				c.Fail("debug-flags", o.pos, "how the debug log is opened is not a constant")
			case k&3 == 0:
				c.Fail("debug-flags", o.pos, "the debug log is not opened for writing")
			case k&0x400 == 0 || k&0x200 != 0:
				c.Fail("debug-flags", o.pos, "the debug log is not appended to, so messages of other runs are lost")
			case k&0x40 == 0 || k&0x80 != 0:
				c.Fail("debug-flags", o.pos, "the debug log is not created if it does not exist, or only then")
			default:
				c.OK("debug log is appended to", "--debug")
			}
		}
	}

	// the logger
	if len(newLog.Params) != 3 {
		c.Fail("anchor:logger.New", newLog.Pos(), "logger.New does not take a verbosity and two writers")
		return
	}
	var prm []*Val
	for _, p := range newLog.Params {
		prm = append(prm, c.in.mk(OpParam, p.Type(), ssa.Value(p)))
	}
	h = &Hooks{}
	zc := "go.uber.org/zap/zapcore."
	h.AfterCall = func(e *Engine, ev *CallEvent, res *Val) {
		st, pos := ev.st, instrPos(ev.instr)
		switch n := ev.name; {
		case n == zc+"AddSync" || n == zc+"Lock":
			w := unwrap(ev.args[0])
			if t, ok := st.p.get("writer", w); ok {
				st.p.put("writer", res, t)
			} else if w == prm[1] {
				st.p.put("writer", res, "default")
			} else if w == prm[2] {
				st.p.put("writer", res, "debug")
			}
		case strings.HasSuffix(n, "zap.NewAtomicLevelAt"):
			st.p.put("level", res, "y")
			st.p.V["level:"+itoa(res.id)] = ev.args[0]
		case n == zc+"NewCore":
			w, _ := st.p.get("writer", unwrap(ev.args[1]))
			lvl := unwrap(ev.args[2])
			if _, ok := st.p.get("level", lvl); ok {
				lvl = st.p.V["level:"+itoa(lvl.id)]
			}
			switch w {
			case "default":
				if id == "C05" {
					if s := levelFits(e, st, prm[0], lvl); s != "" {
						e.Report(st, "level:"+s, pos, "the standard log does not have the level that belongs to the verbosity (%s)", s)
						return
					}
					e.Site("level of the standard log", ev.instr)
				}
				st.p.put("core", res, "default")
			case "debug":
				if k, ok := constInt(unwrapConv(lvl)); !ok || k > -1 {
					if id == "C06" {
						e.Report(st, "debug-level", pos, "the debug log does not receive all messages")
						return
					}
				}
				if !e.KnownNonNil(st, prm[2]) {
					e.Report(st, "debug-unchecked", pos, "the debug log is used without having been given")
					return
				}
				st.p.put("core", res, "debug")
				e.Site("debug log receives everything", ev.instr)
			default:
				e.Report(st, "other-writer", pos, "messages are written to something that is neither the standard nor the debug log")
			}
		case n == zc+"NewTee":
			t := ""
			for _, it := range e.sliceItems(st, ev.args[0]) {
				s, ok := st.p.get("core", unwrap(it))
				if !ok {
					e.Report(st, "tee", pos, "messages are passed on to something unknown")
				}
				for _, w := range strings.Split(s, "+") {
					if !strings.Contains(t, w) {
						t += "+" + w
					} else {
						e.Report(st, "tee-twice", pos, "messages are passed on to the %s log twice", w)
					}
				}
			}
			st.p.put("core", res, strings.TrimPrefix(t, "+"))
		case n == "go.uber.org/zap.New":
			s, _ := st.p.get("core", unwrap(ev.args[0]))
			for _, o := range e.sliceItems(st, ev.args[1]) {
				if t, _ := st.p.get("option", unwrap(o)); t == "" {
					e.Report(st, "option", pos, "the logger has an option that is not known to keep all messages")
				}
			}
			if !isNilConst(ev.args[1]) && ev.args[1].op != OpZero && len(e.sliceItems(st, ev.args[1])) == 0 {
				e.Report(st, "option", pos, "the options of the logger are not known")
			}
			st.p.put("logger", res, s)
		case strings.HasPrefix(n, "go.uber.org/zap.Add") || n == "go.uber.org/zap.Development" || n == "go.uber.org/zap.ErrorOutput" || n == "go.uber.org/zap.Fields":
			st.p.put("option", res, "y")
		case strings.HasSuffix(n, "zap.Logger).Sugar") || strings.HasSuffix(n, "zap.Logger).Named") || strings.HasSuffix(n, "zap.Logger).With") ||
			strings.HasSuffix(n, "zap.SugaredLogger).Named") || strings.HasSuffix(n, "zap.SugaredLogger).With") || strings.HasSuffix(n, "zap.SugaredLogger).Desugar"):
			if s, ok := st.p.get("logger", ev.args[0]); ok {
				st.p.put("logger", res, s)
			}
		}
	}
	h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
		pos := instrPos(in)
		s, ok := st.p.get("logger", res[0])
		if !ok {
			e.Report(st, "result", pos, "what logger.New returns is not the logger it has set up")
			return
		}
		if !strings.Contains(s, "default") {
			e.Report(st, "no-default", pos, "the standard log receives nothing")
			return
		}
		if id == "C06" && !strings.Contains(s, "debug") && !e.KnownNil(st, prm[2]) {
			e.Report(st, "no-debug", pos, "the debug log receives nothing although it was given")
			return
		}
		e.Site("log set up", in)
	}
	e := NewEngine(c.Program, h)
	e.Run(e.Start(newLog, nil, newP(), "New"))
	c.Merge(e, "logger.New")
	c.Floor("log set up", 1)
	if id == "C05" {
		c.Floor("level of the standard log", 1)
		return
	}
	c.Floor("debug log receives everything", 1)
	c.logPassed()
}

// levelFits: the level is the one of the verbosity on this path.
func levelFits(e *Engine, st *State, v, lvl *Val) string {
	bt := types.Typ[types.Bool]
	lo, hi := e.interval(st, v)
	is := func(k int64) int { return e.Decide(st, e.binop(token.EQL, v, e.cint(k), v.typ, bt)) }
	for n := 0; n < 10 && hi < inf && is(hi) == 0; n++ {
		hi--
	}
	for n := 0; n < 10 && lo > -inf && is(lo) == 0; n++ {
		lo++
	}
	name := map[int64]string{-1: "debug", 0: "info", 1: "warn", 2: "error"}
	k, ok := constInt(unwrapConv(lvl))
	if lvl.op == OpZero {
		k, ok = 0, true
	}
	if !ok {
		l := e.linear(unwrapConv(lvl)).plus(e.linear(v), 1)
		if len(l.t) == 0 && l.k == 2 && lo >= 0 && hi <= 3 {
			return ""
		}
		return "unknown"
	}
	fits := false
	switch k {
	case -1:
		fits = lo >= 3
	case 2:
		fits = hi <= 0
	case 0, 1:
		fits = lo == 2-k && hi == 2-k
	}
	if fits {
		return ""
	}
	if s := name[k]; s != "" {
		return s
	}
	return "unknown"
}

// baseField reads a field of a structure or of one embedded in it.
func (e *Engine) baseField(st *State, o *Val, name string) *Val {
	if v := e.namedField(st, o, name); v != nil {
		return v
	}
	s := derefStruct(o.typ)
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if !s.Field(i).Embedded() {
			continue
		}
		ft := s.Field(i).Type()
		in := e.in.mk(OpFieldAddr, types.NewPointer(ft), i, o)
		if _, ok := ft.Underlying().(*types.Pointer); ok {
			in = e.load(st, in, ft)
		}
		if v := e.baseField(st, in, name); v != nil {
			return v
		}
	}
	return nil
}

// logPassed: everything that logs is given the log of the command.
func (c *Ctx) logPassed() {
	newConn := c.NeedFunc("internal/pg", "New")
	if newConn == nil {
		return
	}
	isLog := func(id string) bool {
		return id == "internal/sys.IO.Log" || strings.HasPrefix(id, "internal/runbook/") && (strings.HasSuffix(id, ".log") || strings.HasSuffix(id, ".Log"))
	}
	s := &Slicer{p: c.Program}
	stores := c.fieldStores()
	for _, id := range sortedKeys(stores) {
		if !strings.HasSuffix(id, ".Log") && !strings.HasSuffix(id, ".log") {
			continue
		}
		for _, v := range stores[id] {
			if types.TypeString(v.Type(), nil) != "*go.uber.org/zap.SugaredLogger" {
				continue
			}
			for _, l := range s.Of(v) {
				ok := false
				switch l.kind {
				case "field":
					ok = isLog(l.text) || strings.HasPrefix(l.text, "internal/") && (strings.HasSuffix(l.text, ".Log") || strings.HasSuffix(l.text, ".log"))
				case "call":
					ok = strings.HasSuffix(l.text, "internal/logger.New") || strings.Contains(l.text, "zap.SugaredLogger).") || strings.HasSuffix(l.text, ").Sugar")
				case "param":
					ok = true
				}
				if !ok {
					c.Fail("other-log:"+id, v.Pos(), "%s is set to a log that is not the one of the command (%s %s)", id, l.kind, l.text)
					continue
				}
				c.OK("log passed on", id)
			}
		}
	}
	// who logs through a field that is never set?
	for _, fn := range c.all {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || !strings.Contains(calleeName(ci), "zap.SugaredLogger).") || len(ci.Common().Args) == 0 {
					continue
				}
				u, ok := ci.Common().Args[0].(*ssa.UnOp)
				if !ok {
					continue
				}
				fa, ok := u.X.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				id := fieldID(fa.X.Type(), fa.Field)
				if s := c.unsetLog(id, map[string]bool{}); s != "" {
					c.Fail("unset-log:"+id, instrPos(in), "messages are written to %s, but %s is never set", id, s)
					continue
				}
				c.OK("log passed on", "use of "+id)
			}
		}
	}
	c.Floor("log passed on", 5)
}

// unsetLog: a field the log is taken from that nobody sets.
func (c *Ctx) unsetLog(id string, seen map[string]bool) string {
	if seen[id] {
		return ""
	}
	seen[id] = true
	vs := c.fieldStores()[id]
	if len(vs) == 0 {
		return id
	}
	s := &Slicer{p: c.Program}
	for _, v := range vs {
		for _, l := range s.Of(v) {
			if l.kind == "field" {
				if r := c.unsetLog(l.text, seen); r != "" {
					return r
				}
			}
		}
	}
	return ""
}

func init() {
	register(&Check{ID: "C01", Technique: "static analysis: abstract interpretation of the flag definitions and of every command, joined by the fields they share",
		Explanation: "The code that defines the command line is interpreted, which gives the object and field every option sets, and the object every command runs. Every command is then interpreted with symbolic options, and at the calls that connect, inspect, render and write, each setting has to be the field its option sets and nothing else.",
		Run:         runC01})
	register(&Check{ID: "C02", Technique: "static analysis: path-sensitive error-flow analysis",
		Explanation: "The main function is interpreted together with the command line code: every exit with status zero must be on a path where the command was run and every error is known to be nil, every other exit on one where something is known to have failed. Every command, and what it calls, must return a non-nil error whenever a step failed, and flush what it buffers.",
		Run:         runC02})
	register(&Check{ID: "C04", Technique: "static analysis: path-sensitive abstract interpretation of SSA with typestate rules",
		Explanation: "On every path of every command on which a file is opened for writing, every earlier step is known to have succeeded, what is written is the complete content of the buffer everything was produced into, and nothing is produced afterwards.",
		Run:         runC04})
	register(&Check{ID: "C05", Technique: "static analysis: path-sensitive abstract interpretation of SSA with linear arithmetic",
		Explanation: "The verbosity passed to the logger is a linear combination of the counters that -v and -q are bound to; in the logger, what is known about the verbosity on each path determines the level of the only core that writes to the standard log.",
		Run:         func(c *Ctx) { runLogging(c, "C05") }})
	register(&Check{ID: "C06", Technique: "static analysis: path-sensitive abstract interpretation of SSA and slicing",
		Explanation: "The logger gets the file that --debug opens if and only if there is one; it then passes every message on to a core without a level of its own; everything that logs has been given this logger.",
		Run:         func(c *Ctx) { runLogging(c, "C06") }})
}
