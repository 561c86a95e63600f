package main

// The SQL that is generated from descriptions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// piece is a part of generated text: constant, a name with its quotes
// doubled, or something else.
type piece struct {
	text string // constant text
	val  *Val   // or a value
	dbl  bool   // with embedded quotes doubled
	bad  string // the value is formatted in an unsuitable way
}

// nameField tells whether a field of a description holds an object name.
func nameField(id string) bool {
	i := strings.LastIndex(id, ".")
	if i < 0 || !strings.HasPrefix(id, ddlPkg+".") {
		return false
	}
	switch id[len(ddlPkg)+1:] {
	case "Table.Schema", "Table.Name", "Table.Owner", "Column.Name", "Check.Name",
		"ForeignKey.Name", "ForeignKey.Table", "ForeignKey.Columns", "ForeignKey.Referenced",
		"Index.Schema", "Index.Table", "Index.Name", "IndexKey.Column", "IndexKey.OpClass",
		"Trigger.Schema", "Trigger.Table", "Trigger.Name", "Trigger.Function", "Trigger.Columns",
		"Schema.Name", "Sequence.Name", "Sequence.Schema":
		return true
	}
	return false
}

// nameIn finds an object name in a value.
func nameIn(v *Val) string {
	id := ""
	anyIn(v, func(x *Val) bool {
		if i := loadID(x); nameField(i) {
			id = i
			return true
		}
		return false
	})
	return id
}

// pieces splits text into its parts.
func (e *Engine) pieces(st *State, v *Val) []piece {
	v = unwrap(unwrapConv(v))
	if s, ok := constStr(v); ok {
		return []piece{{text: s}}
	}
	if k, ok := constInt(v); ok {
		return []piece{{text: string(rune(k))}}
	}
	switch {
	case v.op == OpBin && v.aux == token.ADD:
		return append(e.pieces(st, v.a[0]), e.pieces(st, v.a[1])...)
	case v.op == OpPure && (v.aux == "strings.Replace" || v.aux == "strings.ReplaceAll"):
		from, _ := constStr(v.a[1])
		to, _ := constStr(v.a[2])
		if n := len(v.a); n == 4 {
			if k, ok := constInt(v.a[3]); !ok || k >= 0 {
				return []piece{{val: v}}
			}
		}
		if from == `"` && to == `""` {
			return []piece{{val: unwrap(unwrapConv(v.a[0])), dbl: true}}
		}
	case v.op == OpPure && v.aux == "strings.Join" && len(v.a) == 2:
		if items := e.sliceItems(st, v.a[0]); items != nil {
			var r []piece
			for i, it := range items {
				if i > 0 {
					r = append(r, e.pieces(st, v.a[1])...)
				}
				r = append(r, e.pieces(st, it)...)
			}
			return r
		}
	case v.op == OpPure && v.aux == "fmt.Sprint":
		var r []piece
		for _, it := range v.a {
			r = append(r, e.pieces(st, it)...)
		}
		return r
	case v.op == OpPure && v.aux == "fmt.Sprintf":
		if f, ok := constStr(v.a[0]); ok {
			return e.format(st, f, v.a[1:])
		}
	}
	return []piece{{val: v}}
}

func (e *Engine) format(st *State, f string, items []*Val) []piece {
	var r []piece
	at, n := 0, 0
	for _, m := range verbRE.FindAllStringSubmatchIndex(f, -1) {
		r = append(r, piece{text: f[at:m[0]]})
		verb := f[m[2]:m[3]]
		whole := f[m[0]:m[1]]
		at = m[1]
		if verb == "%" {
			r = append(r, piece{text: "%"})
			continue
		}
		if strings.Contains(whole, "*") || strings.Contains(whole, "[") || n >= len(items) {
			return []piece{{bad: "formatted by " + f}}
		}
		it := items[n]
		n++
		if len(whole) == 2 && (verb == "s" || verb == "v") {
			r = append(r, e.pieces(st, it)...)
		} else {
			r = append(r, piece{val: unwrap(it), bad: "formatted by " + whole})
		}
	}
	return append(r, piece{text: f[at:]})
}

// emitted: the text a call adds to a text being built.
func (e *Engine) emitted(ev *CallEvent) ([]piece, bool) {
	st := ev.st
	switch ev.name {
	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune",
		"(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteRune", "io.WriteString", "(*strings.Builder).Write", "(*bytes.Buffer).Write":
		return e.pieces(st, ev.args[1]), true
	case "fmt.Fprint":
		var r []piece
		for _, it := range e.sliceItems(st, ev.args[1]) {
			r = append(r, e.pieces(st, it)...)
		}
		return r, true
	case "fmt.Fprintf":
		items := e.sliceItems(st, ev.args[2])
		f, ok := constStr(ev.args[1])
		if !ok {
			return []piece{{val: ev.args[1]}}, true
		}
		return e.format(st, f, items), true
	}
	return nil, false
}

// toSQL lists the methods that generate SQL for an object.
func (c *Ctx) toSQL() map[string]*ssa.Function {
	r := map[string]*ssa.Function{}
	for _, t := range c.NamedTypes() {
		if t.Obj().Pkg().Path() != pkgPath(ddlPkg) {
			continue
		}
		if fn := c.methodOf(t, "ToSQL"); fn != nil && fn.Blocks != nil {
			r[t.Obj().Name()] = fn
		}
	}
	return r
}

// replacer models strings.NewReplacer(`"`, `""`).
func replacer(e *Engine, ev *CallEvent) (*Val, bool) {
	st := ev.st
	switch ev.name {
	case "strings.NewReplacer":
		its := e.sliceItems(st, ev.args[0])
		if len(its) == 2 {
			return e.in.mk(OpPure, ev.instr.Common().Signature().Results().At(0).Type(), "replacer", its...), true
		}
	case "(*strings.Replacer).Replace":
		r := unwrap(ev.args[0])
		if r.op == OpPure && r.aux == "replacer" {
			return e.in.mk(OpPure, types.Typ[types.String], "strings.ReplaceAll", ev.args[1], r.a[0], r.a[1]), true
		}
	}
	return nil, false
}

func runD06(c *Ctx) {
	all := c.toSQL()
	for _, name := range []string{"Table", "Index", "Trigger"} {
		fn := all[name]
		if fn == nil {
			c.Fail("anchor:"+name, token.NoPos, "there is no method ToSQL of %s", name)
			continue
		}
		name := name
		// spell walks text that is written: parity of quotes, and names
		spell := func(e *Engine, st *State, pos token.Pos, ps []piece, in string, site ssa.Instruction) string {
			for _, p := range ps {
				if p.val == nil && p.bad == "" {
					for _, ch := range p.text {
						if ch == '"' {
							if in == "" {
								in = "in"
							} else {
								in = ""
							}
						}
					}
					continue
				}
				if p.val == nil {
					e.Report(st, "format:"+name, pos, "the SQL of %s is %s, which is not understood", name, p.bad)
					continue
				}
				id := nameIn(p.val)
				if id == "" {
					continue
				}
				short := strings.TrimPrefix(id, ddlPkg+".")
				switch {
				case p.bad != "":
					e.Report(st, "unquoted:"+short, pos, "the name %s is %s, which is not how SQL quotes identifiers", short, p.bad)
				case loadID(p.val) == "" && !nameElem(p.val):
					e.Report(st, "unquoted:"+short, pos, "the name %s is changed before it is written to the SQL of %s", short, name)
				case in == "" && !p.dbl:
					e.Report(st, "unquoted:"+short, pos, "the name %s is written to the SQL of %s without quotes", short, name)
				case in == "":
					e.Report(st, "unquoted:"+short, pos, "the name %s is written to the SQL of %s without surrounding quotes", short, name)
				case !p.dbl:
					e.Report(st, "undoubled:"+short, pos, "quotes in the name %s are not doubled in the SQL of %s", short, name)
				default:
					e.Site("name quoted", site)
				}
			}
			return in
		}
		h := &Hooks{}
		h.Call = func(e *Engine, ev *CallEvent) (*Val, bool) {
			if r, ok := replacer(e, ev); ok {
				return r, true
			}
			ps, ok := e.emitted(ev)
			if !ok {
				return nil, false
			}
			ev.st.p.F["quote"] = spell(e, ev.st, instrPos(ev.instr), ps, ev.st.p.F["quote"], ev.instr)
			if ev.st.p.F["quote"] == "" {
				delete(ev.st.p.F, "quote")
			}
			return nil, false
		}
		h.Append = func(e *Engine, st *State, in ssa.CallInstruction, base, items, res *Val) {
			for _, it := range e.sliceItems(st, items) {
				if b, ok := it.typ.(*types.Basic); it.typ == nil || ok && b.Info()&types.IsString == 0 {
					continue
				}
				if spell(e, st, instrPos(in), e.pieces(st, it), "", in) != "" {
					e.Report(st, "open:"+name, instrPos(in), "a quoted name is not closed in the SQL of %s", name)
				}
			}
		}
		h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
			if len(res) == 0 {
				return
			}
			if spell(e, st, instrPos(in), e.pieces(st, res[0]), st.p.F["quote"], in) != "" {
				e.Report(st, "open:"+name, instrPos(in), "a quoted name is not closed in the SQL of %s", name)
			}
		}
		e := NewEngine(c.Program, h)
		e.Run(e.Start(fn, nil, newP(), name))
		c.Merge(e, name+".ToSQL")
	}
	c.Floor("name quoted", 1)
}

// nameElem: an element of a list of names.
func nameElem(v *Val) bool {
	v = unwrapConv(v)
	switch v.op {
	case OpIndex:
		return nameField(loadID(v.a[0]))
	case OpLoad:
		return v.a[0].op == OpIndexAddr && nameField(loadID(v.a[0].a[0]))
	}
	return false
}

// ---- what the statements say

// ddlTokens splits constant text.
func ddlTokens(s string) []string {
	var r []string
	cur := ""
	flush := func() {
		if cur != "" {
			r = append(r, strings.ToUpper(cur))
			cur = ""
		}
	}
	for _, ch := range s {
		switch {
		case ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r':
			flush()
		case ch == '(' || ch == ')' || ch == ',' || ch == ';' || ch == '"' || ch == '\'' || ch == '.':
			flush()
			r = append(r, string(ch))
		default:
			cur += string(ch)
		}
	}
	flush()
	return r
}

type sqlLoop struct {
	over  string // the field that is traversed
	conds []sqlCond
	want  func(has map[string]bool) []string // acceptable texts
}

type sqlCond struct {
	name  string
	field string // of the object or the element
}

type sqlShape struct {
	obj   string
	conds []string
	loops []sqlLoop
	want  func(has map[string]bool) []string
}

var sqlShapes = []sqlShape{
	{obj: "Table",
		loops: []sqlLoop{
			{over: "Columns", conds: []sqlCond{{"NotNull", "NotNull"}, {"Default", "Default"}},
				want: func(has map[string]bool) []string {
					s := `" {Name} " {Type}`
					if !has["first"] {
						s = ", " + s
					}
					nn, df := "", ""
					if has["NotNull"] {
						nn = " NOT NULL"
					}
					if has["Default"] {
						df = " DEFAULT {Default}"
					}
					return []string{s + nn + df, s + df + nn}
				}},
			{over: "Checks", want: func(has map[string]bool) []string { return []string{", CHECK ( {Expression} )"} }},
		},
		want: func(has map[string]bool) []string {
			return []string{`CREATE TABLE " {Name} " ( [Columns] [Checks] ) ;`}
		}},
	{obj: "Index", conds: []string{"Primary", "Name"},
		loops: []sqlLoop{{over: "Keys", want: func(has map[string]bool) []string {
			if has["first"] {
				return []string{`" {Column} "`}
			}
			return []string{`, " {Column} "`}
		}}},
		want: func(has map[string]bool) []string {
			if !has["Primary"] {
				return nil
			}
			n := ""
			if has["Name"] {
				n = `CONSTRAINT " {Name} " `
			}
			return []string{`ALTER TABLE " {Table} " ADD ` + n + `PRIMARY KEY ( [Keys] ) ;`}
		}},
	{obj: "Trigger", conds: []string{"Update", "ForEachRow"},
		want: func(has map[string]bool) []string {
			s := `CREATE TRIGGER " {Name} " {When}`
			if !has["Update"] {
				return nil // no event is known
			}
			s += ` UPDATE ON " {Table} "`
			if has["ForEachRow"] {
				s += " FOR EACH ROW"
			}
			var r []string
			for _, f := range []string{`{Function}`, `" {Function} "`} {
				for _, w := range []string{"PROCEDURE", "FUNCTION"} {
					r = append(r, s+" EXECUTE "+w+" "+f+" ( ) ;")
				}
			}
			return r
		}},
	{obj: "Function",
		want: func(has map[string]bool) []string {
			var r []string
			for _, f := range []string{`{Name}`, `" {Name} "`} {
				r = append(r, `CREATE OR REPLACE FUNCTION `+f+` ( ) RETURNS {Returns} AS $$ {Definition} $$ LANGUAGE ' {Language} ' ;`,
					`CREATE OR REPLACE FUNCTION `+f+` ( ) RETURNS {Returns} AS $$ {Definition} $$ LANGUAGE {Language} ;`)
			}
			return r
		}},
}

func runD07(c *Ctx) {
	all := c.toSQL()
	for i := range sqlShapes {
		sh := &sqlShapes[i]
		fn := all[sh.obj]
		if fn == nil {
			c.Fail("anchor:"+sh.obj, token.NoPos, "there is no method ToSQL of %s", sh.obj)
			continue
		}
		c.shape(sh, fn)
	}
	c.Floor("statement complete", 6)
}

func (c *Ctx) shape(sh *sqlShape, fn *ssa.Function) {
	self := c.in.mk(OpParam, fn.Params[0].Type(), ssa.Value(fn.Params[0]))
	field := func(e *Engine, st *State, base *Val, name string) *Val {
		s := derefStruct(base.typ)
		if s == nil {
			return nil
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return loadField(e, st, base, i)
			}
		}
		return nil
	}
	loopOver := func(over *Val) *sqlLoop {
		id := loadID(over)
		for i := range sh.loops {
			if id == ddlPkg+"."+sh.obj+"."+sh.loops[i].over {
				return &sh.loops[i]
			}
		}
		return nil
	}
	// is a condition on a description's field decided?
	decide := func(e *Engine, st *State, base *Val, name string) int {
		v := field(e, st, base, name)
		if v == nil {
			return -1
		}
		if b, ok := v.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			q := e.binop(token.NEQ, v, e.cstr(""), types.Typ[types.String], types.Typ[types.Bool])
			if d := e.Decide(st, q); d >= 0 {
				return d
			}
			lo, hi := e.interval(st, e.lenOf(v))
			if lo > 0 {
				return 1
			}
			if hi == 0 {
				return 0
			}
			return -1
		}
		return e.Decide(st, v)
	}
	seg := func(st *State) string {
		if st.p.F["seg"] == "elem" {
			return "elem"
		}
		return "out"
	}
	write := func(st *State, toks ...string) {
		k := seg(st)
		for _, t := range toks {
			if len(st.p.F[k]) > 600 {
				// no such statement is that long: a loop that writes
				// something else
				st.p.F[k] = "(too long)"
				return
			}
			if st.p.F[k] == "(too long)" {
				return
			}
			if st.p.F[k] != "" {
				st.p.F[k] += " "
			}
			st.p.F[k] += t
		}
	}
	tokens := func(e *Engine, st *State, ps []piece) []string {
		var r []string
		for _, p := range ps {
			switch {
			case p.val == nil && p.bad == "":
				r = append(r, ddlTokens(p.text)...)
			case p.bad != "":
				r = append(r, "{?}")
			default:
				v := p.val
				if v.op == OpPure && v.aux == "strings.Join" {
					if o, ok := st.p.get("list", v.a[0]); ok {
						r = append(r, "["+o+"]")
						continue
					}
					if e.emptySlice(st, v.a[0]) && len(sh.loops) == 1 && st.p.F["none:"+sh.loops[0].over] != "" {
						r = append(r, "["+sh.loops[0].over+"]")
						continue
					}
				}
				id := loadID(v)
				base := self
				t := "{?}"
				if el := st.p.V["elem"]; el != nil && st.p.F["seg"] == "elem" {
					base = el
					if s := baseOf(v); s == el {
						t = "{" + id[strings.LastIndex(id, ".")+1:] + "}"
					} else if s == self {
						t = "{." + id[strings.LastIndex(id, ".")+1:] + "}"
					}
				} else if baseOf(v) == base {
					t = "{" + id[strings.LastIndex(id, ".")+1:] + "}"
				}
				r = append(r, t)
			}
		}
		return r
	}
	match := func(e *Engine, st *State, pos token.Pos, what, got string, want []string) {
		for _, w := range want {
			if got == w {
				return
			}
		}
		if len(want) == 0 {
			return
		}
		var has []string
		for k, v := range st.p.F {
			if strings.HasPrefix(k, "c:") {
				has = append(has, k[2:]+"="+v)
			}
		}
		sort.Strings(has)
		e.Report(st, "text:"+sh.obj+":"+what, pos, "the SQL of %s is not complete (%s): %s instead of %s", what, strings.Join(has, " "), got, want[0])
	}
	lt := &LoopTrack{}
	// endElem compares the text of an iteration.
	endElem := func(e *Engine, st *State, pos token.Pos, l *sqlLoop) {
		if st.p.F["seg"] != "elem" {
			return
		}
		got := st.p.F["elem"]
		has := map[string]bool{"first": st.p.F["e:first"] == "1"}
		for _, cd := range l.conds {
			has[cd.name] = st.p.F["e:"+cd.name] == "1"
			if st.p.F["e:"+cd.name] == "" {
				// either case must be fine
				e.Report(st, "text:"+sh.obj+":"+l.over, pos, "whether %s has %s makes no difference to its SQL", l.over, cd.name)
			}
		}
		if st.p.F["via"] != "" {
			has["first"] = true
		}
		if st.p.F["e:first"] == "" && st.p.F["via"] == "" {
			// the separator must be right for both
			has["first"] = false
		}
		match(e, st, pos, l.over, got, l.want(has))
		for k := range st.p.F {
			if strings.HasPrefix(k, "e:") {
				delete(st.p.F, k)
			}
		}
		delete(st.p.F, "elem")
		delete(st.p.F, "seg")
		delete(st.p.V, "elem")
	}
	lt.OnElem = func(e *Engine, st *State, l *Loop, over, k, v *Val) {
		sl := loopOver(over)
		if sl == nil {
			return
		}
		pos := l.head.Instrs[0].Pos()
		if !pos.IsValid() {
			pos = fn.Pos()
		}
		endElem(e, st, pos, sl)
		st.p.F["seg"] = "elem"
		if v != nil {
			st.p.V["elem"] = v
		}
		if k != nil {
			st.p.V["idx"] = k
		}
	}
	lt.OnEnd = func(e *Engine, st *State, l *Loop, over *Val) {
		sl := loopOver(over)
		if sl == nil {
			return
		}
		endElem(e, st, fn.Pos(), sl)
		delete(st.p.V, "idx")
		if st.p.F["via"] == "" {
			if appendsIn(l) {
				// nothing was collected
				st.p.F["none:"+sl.over] = "y"
			} else {
				write(st, "["+sl.over+"]")
			}
		}
		delete(st.p.F, "via")
	}
	h := &Hooks{}
	h.Call = func(e *Engine, ev *CallEvent) (*Val, bool) {
		if r, ok := replacer(e, ev); ok {
			return r, true
		}
		if ps, ok := e.emitted(ev); ok {
			write(ev.st, tokens(e, ev.st, ps)...)
		}
		return nil, false
	}
	h.Append = func(e *Engine, st *State, in ssa.CallInstruction, base, items, res *Val) {
		for _, it := range e.sliceItems(st, items) {
			if b, ok := it.typ.(*types.Basic); ok && b.Info()&types.IsString != 0 {
				write(st, tokens(e, st, e.pieces(st, it))...)
				st.p.F["via"] = "y"
				if el := st.p.V["elem"]; el != nil && len(sh.loops) == 1 {
					st.p.put("list", res, sh.loops[0].over)
				}
			}
		}
	}
	h.Branch = func(e *Engine, st *State, in *ssa.If, cond *Val, taken bool) {
		note := func(k string, d int) {
			if d >= 0 && st.p.F[k] == "" {
				st.p.F[k] = fmt.Sprint(d)
			}
		}
		for _, n := range sh.conds {
			note("c:"+n, decide(e, st, self, n))
		}
		if el := st.p.V["elem"]; el != nil && st.p.F["seg"] == "elem" {
			for i := range sh.loops {
				for _, cd := range sh.loops[i].conds {
					note("e:"+cd.name, decide(e, st, el, cd.field))
				}
			}
			if k := st.p.V["idx"]; k != nil {
				lo, hi := e.interval(st, k)
				if hi == 0 {
					note("e:first", 1)
				} else if lo > 0 {
					note("e:first", 0)
				}
			}
		}
		lt.Branch(e, st, in, taken)
	}
	h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
		if failedPath(e, st, res) {
			return
		}
		// text that is returned without a builder
		if len(res) > 0 {
			ps := e.pieces(st, res[0])
			if len(ps) > 1 || len(ps) == 1 && ps[0].val == nil {
				write(st, tokens(e, st, ps)...)
			}
		}
		has := map[string]bool{}
		for _, n := range sh.conds {
			has[n] = st.p.F["c:"+n] == "1"
		}
		match(e, st, instrPos(in), sh.obj, st.p.F["out"], sh.want(has))
		e.Site("statement complete", in)
		c.OK("statement complete", sh.obj+": "+st.p.F["out"])
	}
	e := NewEngine(c.Program, h)
	e.Run(e.Start(fn, []*Val{self}, newP(), sh.obj))
	c.Merge(e, sh.obj+".ToSQL")
}

func baseOf(v *Val) *Val {
	v = unwrapConv(v)
	switch {
	case v.op == OpLoad && v.a[0].op == OpFieldAddr:
		return v.a[0].a[0]
	case v.op == OpField:
		return v.a[0]
	}
	return nil
}

var _ = constant.MakeBool

func init() {
	register(&Check{ID: "D06", Technique: "static analysis: abstract interpretation of SSA with symbolic text",
		Explanation: "Every path of the methods that generate SQL for tables, indexes and triggers is interpreted with symbolic names: wherever an object name is written, it must stand between double quotes with its own quotes doubled.",
		Run:         runD06})
	register(&Check{ID: "D07", Technique: "static analysis: abstract interpretation of SSA with symbolic text and traversal coverage",
		Explanation: "Every path of the methods that generate SQL is interpreted with symbolic descriptions; the text of each path, and of each iteration over columns, checks and keys, is compared with the statement that the description calls for.",
		Run:         runD07})
}
