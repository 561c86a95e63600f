package main

// R08, C03, P03, P04, S01: what commands may do to the world.

import (
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	cmdPkg  = "internal/commands"
	cliPkg  = "internal/cli"
	rbPkg   = "internal/runbook"
	rbPgPkg = "internal/runbook/pg"
)

// commandRuns: the Run methods of the commands.
func (c *Ctx) commandRuns() map[string]*ssa.Function {
	r := map[string]*ssa.Function{}
	for _, n := range c.named() {
		if n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != pkgPath(cmdPkg) || types.IsInterface(n) {
			continue
		}
		if m := c.methodOf(n, "Run"); m != nil && m.Signature.Params().Len() == 1 {
			r[n.Obj().Name()] = m
		}
	}
	return r
}

// executes: calls that start a process or talk to a server.
func executes(n string) string {
	switch {
	case strings.HasPrefix(n, "os/exec.") || strings.HasPrefix(n, "(*os/exec.") || n == "os.StartProcess" || strings.HasPrefix(n, "syscall.") || strings.HasPrefix(n, "plugin."):
		return "starts a process"
	case strings.HasPrefix(namePkg(n), "net") && (namePkg(n) == "net" || namePkg(n) == "net/http" || namePkg(n) == "net/rpc" || namePkg(n) == "net/smtp"):
		return "uses the network"
	case strings.HasPrefix(namePkg(n), "github.com/jackc/pgx") || namePkg(n) == "database/sql":
		return "talks to a database"
	}
	return ""
}

// harmless: packages without effects of their own that matter here.
func harmlessPkg(p string) bool {
	for _, s := range strings.Fields(`github.com/awalterschulze/gographviz github.com/hokaccha/go-prettyjson github.com/google/go-jsonnet
		github.com/mattn/go-isatty go.uber.org/zap github.com/hashicorp/hcl github.com/zclconf/go-cty gopkg.in/alecthomas/kingpin gopkg.in/alecthomas/kingpin.v2
		github.com/pkg/errors go.uber.org/multierr github.com/fatih/color`) {
		if p == s || strings.HasPrefix(p, s+"/") {
			return true
		}
	}
	return !strings.Contains(p, ".") // the standard library; see executes
}

func runR08(c *Ctx) {
	runs := c.commandRuns()
	targets := c.Type(typesPkg, "Target")
	if targets == nil {
		c.Fail("anchor:types.Target", token.NoPos, "the interface of targets is not there")
		return
	}
	tif := targets.Underlying().(*types.Interface)
	isTargetCall := func(ci ssa.CallInstruction) string {
		cc := ci.Common()
		name := ""
		var t types.Type
		if cc.IsInvoke() {
			name, t = cc.Method.Name(), cc.Value.Type()
		} else if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil {
			name, t = f.Name(), f.Signature.Recv().Type()
		}
		if name != "Start" && name != "Handle" || t == nil {
			return ""
		}
		if types.Implements(t, tif) {
			return name
		}
		return ""
	}
	roots := map[string]*ssa.Function{}
	for _, n := range []string{"RunBookListCmd", "RunBookDotCmd", "RunBookEvalCmd", "VersionCmd"} {
		if runs[n] == nil {
			c.Fail("anchor:"+n, token.NoPos, "there is no command %s", n)
			continue
		}
		roots[n] = runs[n]
	}
	for _, n := range []string{"List", "Dot", "Eval"} {
		if f := c.NeedFunc(rbPkg, n); f != nil {
			roots["runbook."+n] = f
		}
	}
	for _, n := range []string{"Load", "Parse"} {
		if f := c.NeedMethod(parserPkg, "Parser", n); f != nil {
			roots["Parser."+n] = f
		}
	}
	if f := c.NeedFunc(cliPkg, "RegisterCommands"); f != nil {
		roots["RegisterCommands"] = f
	}
	if f := c.NeedMethod(cliPkg, "ArgParser", "Parse"); f != nil {
		// Parse returns the function that runs the command; that is not part of parsing
		roots["ArgParser.Parse"] = f
	}
	bad := func(fn *ssa.Function, in ssa.CallInstruction, n string) string {
		if s := isTargetCall(in); s != "" {
			return "calls " + s + " of a target"
		}
		if s := executes(n); s != "" {
			return s
		}
		if p := namePkg(n); !harmlessPkg(p) && !inModule(p) && !strings.HasPrefix(n, "builtin") {
			return "calls a library that is not known to be without effects (" + p + ")"
		}
		return ""
	}
	for _, name := range sortedKeys(roots) {
		r := c.EffectReach(roots[name])
		if name == "ArgParser.Parse" || name == "RegisterCommands" {
			r = c.parseOnly(roots[name])
		}
		n := 0
		r.Calls(func(fn *ssa.Function, in ssa.CallInstruction, callee string) {
			n++
			if s := bad(fn, in, callee); s != "" {
				c.Fail("executes:"+name+":"+shortName(fn.String())+":"+shortName(callee), instrPos(in), "%s %s (%s)", name, s, r.Path(fn))
			}
		})
		for _, f := range r.Funcs() {
			c.Analysed(f)
		}
		if n > 0 {
			c.OK("nothing is executed", name+": "+itoa(n)+" calls")
		}
	}
	// only Run leads to targets being started
	may := map[*ssa.Function]bool{}
	for _, f := range c.all {
		r := c.EffectReach(f)
		hit := false
		r.Calls(func(fn *ssa.Function, in ssa.CallInstruction, callee string) {
			if isTargetCall(in) != "" {
				hit = true
			}
		})
		if hit {
			may[f] = true
		}
	}
	run := c.NeedFunc(rbPkg, "Run")
	parse := c.Method(parserPkg, "Parser", "Parse")
	if run == nil || parse == nil {
		return
	}
	h := &Hooks{}
	h.Opaque = func(st *State, fn *ssa.Function) bool {
		return fn == parse || may[fn] && fn != run && !leadsOnlyTo(c, fn, may)
	}
	h.AfterCall = func(e *Engine, ev *CallEvent, res *Val) {
		st := ev.st
		if ev.fn == parse {
			st.p.V["book"], st.p.V["err"] = res.a[0], res.a[1]
			return
		}
		if !(ev.fn != nil && may[ev.fn]) && isTargetCall(ev.instr) == "" {
			return
		}
		pos := instrPos(ev.instr)
		if err := st.p.V["err"]; err == nil || !e.KnownNil(st, err) {
			e.Report(st, "runs-unloaded", pos, "targets may be started before the complete runbook was loaded")
			return
		}
		want := map[string]*Val{}
		for _, n := range []string{"Targets", "Tasks"} {
			want[n] = e.namedField(st, st.p.V["book"], n)
		}
		for _, n := range []string{"Targets", "Tasks"} {
			found := false
			for _, a := range ev.args {
				if unwrapConv(a) == want[n] || a == st.p.V["book"] {
					found = true
				}
				if a.typ == nil {
					continue
				}
				if s := derefStruct(a.typ); s != nil {
					for i := 0; i < s.NumFields(); i++ {
						if x := loadField(e, st, a, i); x != nil && (unwrapConv(x) == want[n] || x == st.p.V["book"]) {
							found = true
						}
					}
				}
			}
			if !found {
				e.Report(st, "runs-other:"+n, pos, "what is run does not have the %s of the runbook that was loaded", strings.ToLower(n))
			}
		}
		e.Site("run after loading", ev.instr)
	}
	e := NewEngine(c.Program, h)
	e.Run(e.Start(run, nil, newP(), "Run"))
	c.Merge(e, "runbook.Run")
	c.Floor("run after loading", 1)
	c.Floor("nothing is executed", 9)
}

// leadsOnlyTo: a wrapper worth looking into (it does not start anything
// itself and is not a method of something that was built before).
func leadsOnlyTo(c *Ctx, fn *ssa.Function, may map[*ssa.Function]bool) bool {
	return c.staticReach(fn)[c.Method(parserPkg, "Parser", "Parse")]
}

// parseOnly: what is executed while the command line is parsed. The function
// value Parse returns and the values registered for later are not called by
// it.
func (c *Ctx) parseOnly(fn *ssa.Function) *Reached {
	r := &Reached{p: c.Program, from: map[*ssa.Function]*ssa.Function{}}
	var walk func(f, by *ssa.Function)
	walk = func(f, by *ssa.Function) {
		if _, ok := r.from[f]; ok || f.Blocks == nil || !c.inScope(f) {
			return
		}
		r.from[f] = by
		returned := map[ssa.Value]bool{}
		var back func(v ssa.Value)
		back = func(v ssa.Value) {
			if returned[v] {
				return
			}
			returned[v] = true
			switch v := v.(type) {
			case *ssa.Phi:
				for _, e := range v.Edges {
					back(e)
				}
			case *ssa.ChangeType:
				back(v.X)
			}
		}
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				for _, x := range ret.Results {
					back(x)
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && !returned[mc] {
					walk(mc.Fn.(*ssa.Function), f)
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil {
						walk(g, f)
					}
					for _, a := range ci.Common().Args {
						if g, ok := a.(*ssa.Function); ok {
							walk(g, f)
						}
					}
				}
			}
		}
	}
	walk(fn, nil)
	return r
}

// ------------------------------------------------------------------ C03

var fileWriters = map[string]int{ // argument with the filename, -1: none allowed
	"io/ioutil.WriteFile": 0, "os.WriteFile": 0, "os.Create": 0, "os.OpenFile": 0,
	"os.Rename": 1, "os.Truncate": 0,
	"os.Remove": -1, "os.RemoveAll": -1, "os.Mkdir": -1, "os.MkdirAll": -1, "os.Chmod": -1, "os.Chown": -1, "os.Chtimes": -1,
	"os.Link": -1, "os.Symlink": -1, "os.Chdir": -1, "os.Setenv": -1, "os.Unsetenv": -1, "os.Clearenv": -1, "os.Lchown": -1,
	"io/ioutil.TempFile": -1, "io/ioutil.TempDir": -1, "os.CreateTemp": -1, "os.MkdirTemp": -1, "os.NewFile": -1, "os.CopyFS": -1,
	"os.Pipe": -1,
}

func runC03(c *Ctx) {
	h := &Hooks{}
	h.AfterCall = func(e *Engine, ev *CallEvent, res *Val) {
		if !isRunCall(ev) {
			return
		}
		for _, n := range []string{"Stdout", "Stderr"} {
			v := e.baseField(ev.st, ev.args[1], n)
			ok := false
			if v != nil {
				if v = unwrap(v); v.op == OpLoad && v.a[0].op == OpGlobal {
					g, _ := v.a[0].aux.(ssa.Value)
					ok = g != nil && g.String() == "os."+n
				}
			}
			if !ok {
				e.Report(ev.st, "stream:"+n, instrPos(ev.instr), "the command is not given os.%s as its %s", n, n)
				continue
			}
			c.OK("streams handed to the command", n)
		}
	}
	c.mainRun(h, "streams")
	c.Floor("streams handed to the command", 2)
	runs := c.commandRuns()
	if len(runs) < 6 {
		c.Fail("anchor:commands", token.NoPos, "only %d commands were found", len(runs))
	}
	outputField := regexp.MustCompile(`^internal/commands\.\w+Cmd\.(Output|File)$`)
	for _, name := range sortedKeys(runs) {
		r := c.EffectReach(runs[name])
		for _, fn := range r.Funcs() {
			c.Analysed(fn)
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					var ops [12]*ssa.Value
					for _, o := range in.Operands(ops[:0]) {
						if g, ok := (*o).(*ssa.Global); ok {
							switch g.String() {
							case "os.Stdout", "os.Stderr":
								c.Fail("direct-stream:"+shortName(fn.String())+":"+g.Name(), instrPos(in), "%s is used directly (%s)", g.String(), r.Path(fn))
							case "os.Stdin":
								c.Fail("direct-stream:"+shortName(fn.String())+":"+g.Name(), instrPos(in), "standard input is read (%s)", r.Path(fn))
							}
						}
					}
				}
			}
		}
		r.Calls(func(fn *ssa.Function, in ssa.CallInstruction, n string) {
			switch {
			case n == "builtin.print" || n == "builtin.println" || n == "fmt.Print" || n == "fmt.Println" || n == "fmt.Printf" || strings.HasPrefix(n, "log.") || strings.HasPrefix(n, "(*log.Logger)") ||
				n == "go.uber.org/zap.NewProduction" || n == "go.uber.org/zap.NewDevelopment" || n == "go.uber.org/zap.NewExample" || n == "go.uber.org/zap.S" || n == "go.uber.org/zap.L" ||
				strings.HasPrefix(n, "(go.uber.org/zap.Config)"):
				c.Fail("direct-output:"+shortName(fn.String())+":"+shortName(n), instrPos(in), "%s writes to the standard streams of the process instead of those of the command (%s)", n, r.Path(fn))
			case strings.HasPrefix(n, "syscall."):
				c.Fail("direct-output:"+shortName(fn.String())+":"+n, instrPos(in), "%s is called (%s)", n, r.Path(fn))
			}
			i, ok := fileWriters[n]
			if !ok {
				return
			}
			if i < 0 {
				c.Fail("file-effect:"+shortName(fn.String())+":"+n, instrPos(in), "%s is called (%s)", n, r.Path(fn))
				return
			}
			s := &Slicer{p: c.Program, Through: func(n string) bool {
				return strings.HasPrefix(n, "strings.") || strings.HasPrefix(n, "path/filepath.") || strings.HasPrefix(n, "path.")
			}}
			chosen := false
			for _, l := range s.Of(in.Common().Args[i]) {
				switch {
				case l.kind == "field" && outputField.MatchString(l.text):
					chosen = true
				case l.kind == "const" && (l.text == "-" || l.text == "" || strings.HasPrefix(l.text, ".") && !strings.Contains(l.text, "/") || isDigits(l.text)):
				case l.kind == "other" && l.text == "len":
				default:
					c.Fail("other-file:"+shortName(fn.String())+":"+l.kind+":"+shortName(l.text), instrPos(in), "a file is written whose name comes from %s %s, not from the command line (%s)", l.kind, l.text, r.Path(fn))
				}
			}
			if chosen {
				c.OK("file chosen by the user", c.siteName(in))
			}
		})
		c.OK("only given streams and files", name)
	}
	c.Floor("only given streams and files", 7)
	c.Floor("file chosen by the user", 1)
}

func isDigits(s string) bool {
	for _, r := range s {
		if r < '0' || r > '9' {
			return r == '-' && len(s) > 1
		}
	}
	return true
}

// ------------------------------------------------------------------ P03, P04

var (
	sqlToken   = regexp.MustCompile(`(?s)'(?:[^']|'')*'|"(?:[^"]|"")*"|--[^\n]*|/\*.*?\*/|[A-Za-z_][A-Za-z0-9_$.]*|[0-9.]+|\$[0-9]+|\x01[A-Za-z0-9]*|\s+|.`)
	sqlWriting = map[string]bool{}
	sqlFuncs   = map[string]bool{}
	sqlKeyword = map[string]bool{}
)

func init() {
	for _, k := range strings.Fields(`insert update delete create drop alter truncate into set lock grant revoke copy do call merge vacuum analyze
		reindex cluster refresh notify listen unlisten execute prepare deallocate discard load reset security comment import checkpoint
		begin commit rollback savepoint start abort end_transaction declare fetch move close reassign`) {
		sqlWriting[k] = true
	}
	for _, k := range strings.Fields(`format_type current_schema current_database current_user version array_agg string_agg coalesce nullif count min max
		sum bool_and bool_or array_to_string array_length array_position array_upper array_lower unnest generate_series generate_subscripts
		lower upper length btrim trim ltrim rtrim replace regexp_replace regexp_matches substring substr split_part position strpos quote_ident quote_literal
		concat concat_ws format to_regclass obj_description col_description shobj_description has_table_privilege has_schema_privilege
		row_number rank dense_rank lag lead exists greatest least abs json_agg json_build_object row_to_json array row cast extract
		current_setting txid_current_snapshot now oidvectortypes information_schema._pg_expandarray _pg_expandarray char_length to_json ascii chr`) {
		sqlFuncs[k] = true
	}
	for _, k := range strings.Fields(`in any all some and or not on as select from where join using over filter when then else case by values lateral union
		intersect except distinct with within order interval between is like having limit offset end returning only left right inner outer full cross natural
		varchar char numeric decimal bit character time timestamp float text[] `) {
		sqlKeyword[k] = true
	}
}

// readOnlySQL says why a statement may not just read, or "".
func readOnlySQL(text string) string {
	toks := []string{}
	for _, t := range sqlToken.FindAllString(text, -1) {
		if strings.TrimSpace(t) == "" || strings.HasPrefix(t, "--") || strings.HasPrefix(t, "/*") {
			continue
		}
		toks = append(toks, t)
	}
	for len(toks) > 0 && toks[len(toks)-1] == ";" {
		toks = toks[:len(toks)-1]
	}
	if len(toks) == 0 {
		return "it is empty"
	}
	switch strings.ToLower(toks[0]) {
	case "select", "with", "values", "table":
	case "show":
		if len(toks) != 2 {
			return "it is not a plain SHOW"
		}
		return ""
	default:
		return "it does not start with SELECT or SHOW"
	}
	for i, t := range toks {
		l := strings.ToLower(t)
		switch {
		case t == ";":
			return "it has several statements"
		case t[0] == '\x01':
			return "part of it is not constant"
		case t[0] == '\'' && len(t) == 1 || t[0] == '"' && len(t) == 1:
			return "it has an unterminated literal"
		case t[0] == '$' && (len(t) == 1 || t == "$$"):
			return "it uses dollar quotes"
		case sqlWriting[l]:
			return "it contains " + strings.ToUpper(t)
		case l == "for" && i+1 < len(toks):
			switch strings.ToLower(toks[i+1]) {
			case "update", "share", "no", "key":
				return "it locks rows"
			}
		case i+1 < len(toks) && toks[i+1] == "(" && (t[0] >= 'a' && t[0] <= 'z' || t[0] >= 'A' && t[0] <= 'Z' || t[0] == '_' || t[0] == '"'):
			f := strings.TrimPrefix(l, "pg_catalog.")
			if !sqlFuncs[f] && !sqlKeyword[f] && !strings.HasPrefix(f, "pg_get_") && !strings.HasSuffix(f, "_is_visible") && f != "pg_encoding_to_char" &&
				f != "pg_is_in_recovery" && f != "pg_table_is_visible" && f != "pg_typeof" && !(i > 0 && strings.ToLower(toks[i-1]) == "as") && !(i > 1 && toks[i-1] == ")") && !isAlias(toks, i) {
				return "it calls " + t
			}
		}
	}
	return ""
}

// isAlias: "name (" that defines a CTE or column aliases.
func isAlias(toks []string, i int) bool {
	d := 0
	for j := i + 1; j < len(toks); j++ {
		switch toks[j] {
		case "(":
			d++
		case ")":
			d--
			if d == 0 {
				return j+1 < len(toks) && strings.EqualFold(toks[j+1], "as") && i > 0 && (strings.EqualFold(toks[i-1], "with") || strings.EqualFold(toks[i-1], "recursive") || toks[i-1] == ",") && j+2 < len(toks) && toks[j+2] == "("
			}
		}
	}
	return false
}

type sqlSite struct {
	fn   *ssa.Function
	in   ssa.CallInstruction
	m    string // pgx method
	text ssa.Value
}

// sqlSites: everything in the module that sends SQL.
func (c *Ctx) sqlSites() []sqlSite {
	var r []sqlSite
	for _, fn := range c.all {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n := calleeName(ci)
				if m := pgMethodName(n); m != "" {
					if i, ok := sqlSink[m]; ok {
						args := ci.Common().Args
						if i < len(args) {
							r = append(r, sqlSite{fn, ci, m, args[i]})
							continue
						}
					}
				}
				// an interface or another library in front of pgx
				if i := strings.LastIndex(n, "."); i >= 0 && (ci.Common().IsInvoke() || namePkg(n) == "database/sql") {
					switch n[i+1:] {
					case "Query", "QueryRow", "QueryContext", "QueryRowContext", "ExecContext", "QueryEx", "QueryRowEx", "ExecEx", "Exec", "Prepare":
						for _, a := range ci.Common().Args {
							if isStr(a.Type()) {
								r = append(r, sqlSite{fn, ci, "interface." + n[i+1:], a})
								break
							}
						}
					}
				}
				// SQL methods as values
				var ops [12]*ssa.Value
				for j, o := range in.Operands(ops[:0]) {
					f, ok := (*o).(*ssa.Function)
					if !ok || j == 0 && ci != nil && ci.Common().Value == ssa.Value(f) {
						continue
					}
					if _, ok := sqlSink[pgMethodName(f.String())]; ok {
						r = append(r, sqlSite{fn, ci, "value." + f.Name(), nil})
					}
				}
			}
		}
	}
	return r
}

// quotedIdent recognises identifiers that are quoted by pgx.
func (c *Ctx) quotedIdent(v ssa.Value) string {
	call, ok := v.(*ssa.Call)
	if !ok || call.Call.StaticCallee() == nil {
		return ""
	}
	f := call.Call.StaticCallee()
	switch f.String() {
	case "(" + pgx + ".Identifier).Sanitize":
		return `"quoted"`
	case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint":
		return "0"
	}
	return ""
}

var rawTask = regexp.MustCompile(`^internal/(runbook|taskset)/pg\.\w+\.SQL$`)

// textOf: the forms of a statement, or the task fields it comes from.
func (c *Ctx) textOf(s sqlSite) (forms []string, raw bool) {
	sl := &Slicer{p: c.Program}
	fields, other := 0, 0
	for _, l := range sl.Of(s.text) {
		if l.kind == "field" && rawTask.MatchString(l.text) {
			fields++
		} else {
			other++
		}
	}
	if fields > 0 && other == 0 {
		return nil, true
	}
	return c.Templates(s.text, c.quotedIdent), false
}

func runP03(c *Ctx) {
	runs := c.commandRuns()
	sites := c.sqlSites()
	reach := map[string]*Reached{}
	for _, n := range sortedKeys(runs) {
		reach[n] = c.EffectReach(runs[n])
	}
	for _, n := range []string{"InspectCmd", "PingCmd", "RunBookRunCmd"} {
		if runs[n] == nil {
			c.Fail("anchor:"+n, token.NoPos, "there is no command %s", n)
		}
	}
	for _, s := range sites {
		var by []string
		for _, n := range sortedKeys(reach) {
			if n != "RunBookRunCmd" && reach[n].Has(s.fn) {
				by = append(by, n)
			}
		}
		c.Analysed(s.fn)
		where := shortName(s.fn.String())
		if s.text == nil {
			c.Fail("statement-unknown:"+where, instrPos(s.in), "a method that sends SQL is used as a value: what it sends cannot be determined")
			continue
		}
		forms, raw := c.textOf(s)
		write := ""
		if raw {
			write = "it is the SQL of a task"
		}
		if strings.Contains(s.m, "Copy") {
			write = "it copies data"
		}
		for _, f := range forms {
			if w := readOnlySQL(f); w != "" {
				write = w + " (" + clip(f) + ")"
			}
		}
		switch {
		case write == "":
			c.OK("statement only reads", c.siteName(s.in))
		case len(by) > 0:
			c.Fail("writes:"+where, instrPos(s.in), "%s may send a statement that does more than read: %s; path %s", by[0], write, reach[by[0]].Path(s.fn))
		case raw:
			if !reach["RunBookRunCmd"].Has(s.fn) {
				c.OK("raw statement unreachable from commands", c.siteName(s.in))
			} else {
				c.OK("raw statement only from run", c.siteName(s.in))
			}
		default:
			c.Fail("writes:"+where, instrPos(s.in), "a statement that is not the SQL of a task may do more than read: %s", write)
		}
	}
	c.Floor("statement only reads", 1)
	c.Floor("raw statement only from run", 1)
}

func clip(s string) string {
	s = strings.Join(strings.Fields(strings.ReplaceAll(s, "\x01", "?")), " ")
	if len(s) > 80 {
		s = s[:80] + "..."
	}
	return s
}

func runP04(c *Ctx) {
	for _, s := range c.sqlSites() {
		c.Analysed(s.fn)
		where := shortName(s.fn.String())
		if s.text == nil {
			c.Fail("statement-unknown:"+where, instrPos(s.in), "a method that sends SQL is used as a value: what it sends cannot be determined")
			continue
		}
		forms, raw := c.textOf(s)
		if raw {
			c.OK("SQL of a task sent unchanged", c.siteName(s.in))
			continue
		}
		bad := ""
		for _, f := range forms {
			if i := strings.IndexByte(f, 1); i >= 0 {
				bad = f
			}
			// a quoted identifier inside of a literal is not quoted
			if strings.Contains(f, `"quoted"`) {
				for _, t := range sqlToken.FindAllString(f, -1) {
					if t[0] == '\'' && strings.Contains(t, `"quoted"`) || t == "'" {
						bad = f
					}
				}
				if strings.Contains(f, `"quoted""quoted"`) || strings.Contains(f, `""quoted"`) || strings.Contains(f, `"quoted""`) {
					bad = f
				}
			}
		}
		if bad == "" && len(forms) > 0 {
			c.OK("text is constant", c.siteName(s.in))
			continue
		}
		sl := &Slicer{p: c.Program}
		src := []string{}
		for _, l := range sl.Of(s.text) {
			if l.kind != "const" {
				src = append(src, l.kind+" "+shortName(l.text))
			}
		}
		c.Fail("unquoted:"+where, instrPos(s.in), "something that is neither constant nor quoted becomes part of a query (%s; from %s)", clip(bad), strings.Join(src, ", "))
	}
	c.Floor("text is constant", 1)
	c.Floor("SQL of a task sent unchanged", 1)
}

func sortedKeys(m interface{}) []string { return keysOfMap(m) }

func init() {
	register(&Check{ID: "R08", Technique: "static analysis: effect analysis over an over-approximating call graph; path-sensitive interpretation of runbook.Run",
		Explanation: "The functions reachable from the commands that list, draw and evaluate runbooks, from the parser and from the command line are computed over a call graph that contains every possible callee; none of them may start a process, use the network or a database, or start or use a target. On every path of runbook.Run the runbook is completely loaded before anything that may start a target, and it is that runbook's targets and tasks that are run.",
		Assumptions: []string{"The libraries for jsonnet, GraphViz, JSON, logging and HCL start no processes and open no connections."},
		Run:         runR08})
	register(&Check{ID: "C03", Technique: "static analysis: effect analysis over an over-approximating call graph; backward slices of file names",
		Explanation: "In every function reachable from the Run method of a command, the process's own streams must not be used, and every file that is written must have a name that comes from the command's Output or File setting.",
		Run:         runC03})
	register(&Check{ID: "P03", Technique: "static analysis: effect analysis over an over-approximating call graph and classification of the constant text of all statements",
		Explanation: "All calls of the database driver that send SQL are enumerated. Their text is resolved to the constant forms it can have and classified token by token; only the SQL of a runbook task may be anything but a single reading statement, and only the run command may reach it.",
		Assumptions: []string{"The listed PostgreSQL functions have no side effects."},
		Run:         runP03})
	register(&Check{ID: "P04", Technique: "static analysis: taint analysis (backward slices of the text of all statements)",
		Explanation: "The text of every statement is resolved, through variables, calls, concatenation and formatting, to constants and identifiers quoted by pgx; anything else is a violation, apart from the SQL of a task when it is sent as a whole.",
		Run:         runP04})
}
