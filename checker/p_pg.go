package main

// P05, P06, P07, P08 (queries): reading the catalog.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	pgPkg  = "internal/pg"
	pgx    = "github.com/jackc/pgx"
	ddlPkg = "internal/ddl"
)

// pgMethod: the method of a pgx type that is called, e.g. "Conn.Query".
func pgMethod(ev *CallEvent) string { return pgMethodName(ev.name) }

func pgMethodName(n string) string {
	n = strings.TrimPrefix(n, "(*")
	n = strings.TrimPrefix(n, "(")
	if !strings.HasPrefix(n, pgx+".") {
		return ""
	}
	return strings.Replace(strings.TrimPrefix(n, pgx+"."), ").", ".", 1)
}

// sqlSink: the methods of pgx that send SQL, and the index of the text.
var sqlSink = map[string]int{
	"Conn.Query": 1, "Conn.QueryRow": 1, "Conn.Exec": 1, "Conn.Prepare": 2, "Conn.QueryEx": 2, "Conn.QueryRowEx": 2, "Conn.ExecEx": 2,
	"Conn.PrepareEx": 3, "Tx.Query": 1, "Tx.QueryRow": 1, "Tx.Exec": 1, "ConnPool.Query": 1, "ConnPool.QueryRow": 1, "ConnPool.Exec": 1,
	"Tx.QueryEx": 2, "Tx.QueryRowEx": 2, "Tx.ExecEx": 2, "Tx.Prepare": 2, "Batch.Queue": 1, "Conn.CopyFrom": 1, "Conn.CopyFromReader": 2, "Conn.CopyToWriter": 2,
}

type catalogSpec struct {
	elem   string            // ddl type
	fields map[string]string // path -> canonical column, "$n" parameter n, "def" from the definition, 'const'
	def    string            // column with the definition text
	conds  []string
	order  []string
	params map[string]int // column -> parameter (1-based)
}

var inTable = []string{"pg_class.relname = $2", "pg_class.relnamespace = pg_namespace.oid", "pg_namespace.nspname = $1"}
var byTable = map[string]int{"pg_namespace.nspname": 1, "pg_class.relname": 2}
var seqConds = []string{
	"left:pg_class.oid = pg_depend.objid", "pg_attribute.attnum = pg_depend.refobjsubid", "pg_attribute.attrelid = pg_class#2.oid",
	"pg_class#2.oid = pg_depend.refobjid", "pg_class#2.relnamespace = pg_namespace#2.oid",
	"pg_class.relkind = 'S'", "pg_class.relnamespace = pg_namespace.oid", "pg_depend.classid = 'pg_catalog.pg_class' :: regclass",
	"pg_depend.deptype in ( 'a' , 'i' )", "pg_depend.refclassid = 'pg_catalog.pg_class' :: regclass",
	"pg_namespace.nspname !~ '^pg_toast'", "pg_namespace.nspname <> 'information_schema'", "pg_namespace.nspname <> 'pg_catalog'",
	"pg_table_is_visible ( pg_class.oid )",
}
var seqFields = map[string]string{
	"Schema": "pg_namespace.nspname", "Name": "pg_class.relname", "Owner": "pg_get_userbyid ( pg_class.relowner )",
	"Comment":        "obj_description ( pg_class.oid , 'pg_class' )",
	"OwnedBy.Schema": "pg_namespace#2.nspname", "OwnedBy.Table": "pg_class#2.relname", "OwnedBy.Column": "pg_attribute.attname",
}
var seqValues = map[string][2]string{ // with and without the pg_sequence catalog
	"DataType": {"format_type ( pg_sequence.seqtypid , null )", "'bigint'"},
	"Start":    {"pg_sequence.seqstart", "start_value"}, "Minimum": {"pg_sequence.seqmin", "min_value"}, "Maximum": {"pg_sequence.seqmax", "max_value"},
	"Increment": {"pg_sequence.seqincrement", "increment_by"}, "Cache": {"pg_sequence.seqcache", "cache_value"}, "Cycle": {"pg_sequence.seqcycle", "is_cycled"},
}

func cat(a []string, b ...string) []string { return append(append([]string(nil), a...), b...) }

var catalog = map[string]*catalogSpec{
	"ListChecks": {elem: "Check", def: "pg_get_constraintdef ( pg_constraint.oid , true )",
		fields: map[string]string{"Name": "pg_constraint.conname"},
		conds:  cat(inTable, "pg_class.oid = pg_constraint.conrelid", "pg_constraint.contype = 'c'"), params: byTable,
		order: []string{"pg_constraint.conname"}},
	"ListColumns": {elem: "Column", fields: map[string]string{
		"Name": "pg_attribute.attname", "Type": "format_type ( pg_attribute.atttypid , pg_attribute.atttypmod )", "NotNull": "pg_attribute.attnotnull",
		"Default": "select pg_get_expr ( pg_attrdef.adbin , pg_attrdef.adrelid ) from pg_attrdef d where pg_attrdef.adrelid = pg_attribute.attrelid and pg_attrdef.adnum = pg_attribute.attnum and pg_attribute.atthasdef",
		"Comment": "col_description ( pg_attribute.attrelid , pg_attribute.attnum )"},
		conds: cat(inTable, "not pg_attribute.attisdropped", "pg_attribute.attnum > 0", "pg_attribute.attrelid = pg_class.oid"), params: byTable,
		order: []string{"pg_attribute.attnum"}},
	"ListForeignKeys": {elem: "ForeignKey", def: "pg_get_constraintdef ( pg_constraint.oid )",
		fields: map[string]string{"Name": "pg_constraint.conname"},
		conds:  cat(inTable, "pg_class#2.oid = pg_constraint.confrelid", "pg_class.oid = pg_constraint.conrelid", "pg_constraint.contype = 'f'"), params: byTable,
		order: []string{"pg_class#2.relname", "pg_constraint.conkey"}},
	"ListIndexes": {elem: "Index", def: "pg_get_indexdef ( pg_index.indexrelid , 0 , true )",
		fields: map[string]string{"Schema": "$1", "Primary": "pg_index.indisprimary"},
		conds:  cat(inTable, "pg_class#2.oid = pg_index.indexrelid", "pg_class.oid = pg_index.indrelid"), params: byTable,
		order: []string{"pg_index.indisprimary desc", "pg_index.indisunique desc", "pg_class#2.relname"}},
	"ListTriggers": {elem: "Trigger", def: "pg_get_triggerdef ( pg_trigger.oid , true )",
		fields: map[string]string{"Schema": "$1"},
		conds:  cat(inTable, "not pg_trigger.tgisinternal", "pg_class.oid = pg_trigger.tgrelid"), params: byTable,
		order: []string{"pg_trigger.tgname"}},
	"DescribeTrigger": {elem: "Trigger", def: "pg_get_triggerdef ( pg_trigger.oid , true )",
		fields: map[string]string{"Schema": "$1"},
		conds:  cat(inTable, "pg_class.oid = pg_trigger.tgrelid", "pg_trigger.tgname = $3"),
		params: map[string]int{"pg_namespace.nspname": 1, "pg_class.relname": 2, "pg_trigger.tgname": 3}},
	"ListTableStorageParameters": {elem: "TableStorageParameters", conds: inTable, params: byTable, order: []string{"unnest ( pg_class.reloptions )"}},
	"ListFunctions": {elem: "Function", fields: map[string]string{
		"Schema": "pg_namespace.nspname", "Name": "pg_proc.proname", "Owner": "pg_get_userbyid ( pg_proc.proowner )", "Comment": "obj_description ( pg_proc.oid , 'pg_proc' )",
		"Returns": "pg_get_function_result ( pg_proc.oid )", "Language": "pg_language.lanname", "Definition": "pg_proc.prosrc"},
		conds: []string{"pg_language.oid = pg_proc.prolang", "pg_namespace.oid = pg_proc.pronamespace", "pg_function_is_visible ( pg_proc.oid )",
			"pg_namespace.nspname <> 'information_schema'", "pg_namespace.nspname <> 'pg_catalog'"},
		order: []string{"pg_namespace.nspname", "pg_proc.proname"}},
	"DescribeFunction": {elem: "Function", fields: map[string]string{
		"Schema": "$1", "Name": "$2", "Owner": "pg_get_userbyid ( pg_proc.proowner )", "Comment": "obj_description ( pg_proc.oid , 'pg_proc' )",
		"Returns": "pg_get_function_result ( pg_proc.oid )", "Language": "pg_language.lanname", "Definition": "pg_proc.prosrc"},
		conds: []string{"pg_language.oid = pg_proc.prolang", "pg_namespace.oid = pg_proc.pronamespace",
			"pg_namespace.nspname = $1", "pg_proc.proname = $2"},
		params: map[string]int{"pg_namespace.nspname": 1, "pg_proc.proname": 2}},
	"ListSchemas": {elem: "Schema", fields: map[string]string{"Name": "pg_namespace.nspname", "Owner": "pg_get_userbyid ( pg_namespace.nspowner )",
		"Comment": "obj_description ( pg_namespace.oid , 'pg_namespace' )"},
		conds: []string{"pg_namespace.nspname !~ '^pg_'", "pg_namespace.nspname <> 'information_schema'"}, order: []string{"pg_namespace.nspname"}},
	"ListTables": {elem: "Table", fields: map[string]string{"Schema": "pg_namespace.nspname", "Name": "pg_class.relname",
		"Owner": "pg_get_userbyid ( pg_class.relowner )", "Comment": "obj_description ( pg_class.oid , 'pg_class' )"},
		conds: []string{"pg_class.relnamespace = pg_namespace.oid", "pg_class.relkind in ( 'r' , 'p' , '' )", "pg_namespace.nspname !~ '^pg_toast'",
			"pg_namespace.nspname <> 'information_schema'", "pg_namespace.nspname <> 'pg_catalog'", "pg_table_is_visible ( pg_class.oid )"},
		order: []string{"pg_namespace.nspname", "pg_class.relname"}},
	"ListSequences":  {elem: "Sequence", order: []string{"pg_namespace.nspname", "pg_class.relname"}},
	"ListParameters": {elem: "Parameters", fields: map[string]string{"SearchPath": "split show search_path", "Timezone": "show timezone"}},
	"ServerVersion":  {},
}

// mayBeNull: columns that are NULL for some objects.
func mayBeNull(col string) bool {
	for _, p := range []string{"obj_description", "col_description", "select pg_get_expr", "pg_get_function_result"} {
		if strings.HasPrefix(col, p) {
			return true
		}
	}
	return false
}

type pgA struct {
	c     *Ctx
	sinks map[ssa.Instruction]bool
}

func (a *pgA) fail(e *Engine, st *State, ids, key string, pos token.Pos, f string, args ...interface{}) {
	if strings.Contains(ids, a.c.check.ID) {
		e.Report(st, key, pos, f, args...)
	}
}

func (a *pgA) ok(e *Engine, ids, rule string, in ssa.Instruction) {
	if strings.Contains(ids, a.c.check.ID) {
		e.Site(rule, in)
	}
}

func init() {
	run := func(floor map[string]int) func(c *Ctx) {
		return func(c *Ctx) {
			a := &pgA{c: c, sinks: map[ssa.Instruction]bool{}}
			a.lists()
			if c.check.ID == "P08" || c.check.ID == "P05" {
				a.inspect()
			}
			for r, n := range floor {
				c.Floor(r, n)
			}
		}
	}
	register(&Check{ID: "P05", Technique: "path-sensitive error-flow analysis over SSA",
		Explanation: "Every path of every exported method of pg.Conn that reads from the server is interpreted: an error result that may be non-nil at a return has to make the returned error non-nil; a row loop may only end successfully after Next was false and Err was consulted; every row has to be scanned and to contribute one object to the result.",
		Assumptions: []string{"pgx reports failures through the error results of Query, Scan and Err as documented."},
		Run:         run(map[string]int{"errors are returned": 1, "rows are read to the end": 9, "every row is kept": 8})})
	register(&Check{ID: "P06", Technique: "agreement of SQL select lists, scan targets and description fields, by abstract interpretation",
		Explanation: "The text of every query is resolved to its constant, its select list is parsed, and every Scan gives its targets the symbolic value of the column at that position; when an object is added to the result or returned, each field is compared with the column of that meaning. Query arguments are compared with the columns they are matched against.",
		Assumptions: []string{"The table of catalog columns and field meanings in p_pg.go."},
		Run:         run(map[string]int{"scan matches select list": 10, "fields have their column": 8, "query parameters": 6})})
	register(&Check{ID: "P07", Technique: "typestate analysis of query results on all paths",
		Explanation: "On every path of every exported method of pg.Conn: no query is sent while rows are open, and rows are closed (explicitly, deferred, or by reading to the end) when the method returns.",
		Run:         run(map[string]int{"no rows are open when a query is sent": 10, "rows are closed at return": 8})})
	register(&Check{ID: "P08", Technique: "abstract interpretation of InspectDatabase, and comparison of query conditions",
		Explanation: "Every successful path of InspectDatabase has to store the result of each list function in the field of the database description it belongs to, for every table with that table's own schema and name. The sources and conditions of each catalog query are compared with the set that selects all objects of its kind.",
		Assumptions: []string{"The table of catalog conditions in p_pg.go."},
		Run:         run(map[string]int{"query selects all objects of its kind": 9, "result is stored in its field": 9, "for the table's own schema and name": 6})})
}

func (a *pgA) lists() {
	c := a.c
	conn := c.Type(pgPkg, "Conn")
	if conn == nil {
		c.Fail("anchor:Conn", token.NoPos, "pg.Conn was not found")
		return
	}
	ms := types.NewMethodSet(types.NewPointer(conn))
	seen := map[string]bool{}
	for i := 0; i < ms.Len(); i++ {
		fn := c.prog.MethodValue(ms.At(i))
		if fn == nil || fn.Blocks == nil || !fn.Object().Exported() {
			continue
		}
		switch fn.Name() {
		case "InspectDatabase", "Close":
			continue
		case "Exec":
			a.markSinks(fn)
			continue
		}
		if !a.queries(fn) {
			continue
		}
		seen[fn.Name()] = true
		c.Analysed(fn)
		a.list(fn, catalog[fn.Name()])
	}
	var names []string
	for n := range catalog {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if !seen[n] {
			c.Fail("anchor:"+n, token.NoPos, "pg.Conn.%s was not found, or it sends no query", n)
		}
	}
	// nothing queries outside of what was analysed
	for _, fn := range c.all {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() == nil {
					continue
				}
				if _, ok := sqlSink[pgMethodName(ci.Common().StaticCallee().String())]; ok && !a.sinks[in] {
					c.Fail("query-unanalysed:"+fn.String(), instrPos(in), "this query is not reached from an exported method of pg.Conn that was analysed")
				}
			}
		}
	}
}

func (a *pgA) markSinks(fn *ssa.Function) {
	for f := range a.c.staticReach(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				a.sinks[in] = true
			}
		}
	}
}

func (a *pgA) queries(fn *ssa.Function) bool {
	for f := range a.c.staticReach(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() != nil {
					if _, ok := sqlSink[pgMethodName(ci.Common().StaticCallee().String())]; ok {
						return true
					}
				}
			}
		}
	}
	return false
}

// sqlText resolves the text of a query: its constant part, and the quoted
// identifiers that follow.
func sqlText(v *Val) (text string, ids []*Val, ok bool) {
	if s, ok := constStr(v); ok {
		return s, nil, true
	}
	switch v.op {
	case OpConv:
		return sqlText(v.a[0])
	case OpBin:
		if v.aux == token.ADD {
			l, li, ok1 := sqlText(v.a[0])
			r, ri, ok2 := sqlText(v.a[1])
			return l + r, append(append([]*Val(nil), li...), ri...), ok1 && ok2
		}
	case OpPure:
		switch v.aux {
		case "sanitize":
			return ` "?" `, v.a, true
		case "fmt.Sprintf":
			f, ok := constStr(v.a[0])
			if !ok {
				return "", nil, false
			}
			out, k := "", 1
			for i := 0; i < len(f); i++ {
				if f[i] == '%' && i+1 < len(f) {
					if f[i+1] == '%' {
						out += "%"
						i++
						continue
					}
					if (f[i+1] == 's' || f[i+1] == 'v') && k < len(v.a) {
						t, id, ok := sqlText(unwrap(v.a[k]))
						if !ok {
							return "", nil, false
						}
						out += t
						ids = append(ids, id...)
						k++
						i++
						continue
					}
					return "", nil, false
				}
				out += string(f[i])
			}
			return out, ids, k == len(v.a)
		case "strings.Join":
			return "", nil, false
		}
	}
	return "", nil, false
}

// column: the canonical column a value was scanned from, "" if none.
func column(v *Val) string {
	for {
		switch v.op {
		case OpLoad, OpConv:
			v = v.a[0]
			continue
		case OpSym:
			k := v.aux.(symKey)
			if strings.HasPrefix(k.kind, "col:") {
				return strings.TrimPrefix(k.kind, "col:")
			}
		case OpPure:
			if v.aux == "strings.Split" && len(v.a) == 2 {
				if s, ok := constStr(v.a[1]); ok && s == "," {
					if c := column(v.a[0]); c != "" {
						return "split " + c
					}
				}
			}
		}
		return ""
	}
}

func fromColumn(v *Val) bool {
	return anyIn(v, func(x *Val) bool { return x.op == OpSym && strings.HasPrefix(x.aux.(symKey).kind, "col:") })
}

type listA struct {
	*pgA
	root   *ssa.Function
	spec   *catalogSpec
	params []*ssa.Parameter
	lt     *LoopTrack
	ef     *ErrFlow
}

func (a *pgA) list(fn *ssa.Function, spec *catalogSpec) {
	l := &listA{pgA: a, root: fn, spec: spec}
	if spec == nil {
		// an unknown query method: the generic rules still apply
		l.spec = &catalogSpec{}
	}
	for _, p := range fn.Params[1:] {
		if isStr(p.Type()) {
			l.params = append(l.params, p)
		}
	}
	l.ef = &ErrFlow{Rule: "errors are returned",
		Skip: func(ev *CallEvent) bool { return pgMethod(ev) == "Conn.Close" },
		Fail: func(e *Engine, st *State, key string, in ssa.Instruction, f string, args ...interface{}) {
			a.fail(e, st, "P05", key+":"+fn.Name(), instrPos(in), f, args...)
		}}
	l.lt = &LoopTrack{OnElem: func(e *Engine, st *State, lp *Loop, over, k, v *Val) {
		if st.p.V["list"] == over && st.p.F["missing"] != "" {
			if st.p.F["filling"] == "1" {
				l.filled(e, st)
			}
			st.p.F["filling"] = "1"
			st.p.F["got"] = ""
			st.p.V["elem"] = v
		}
	}, OnEnd: func(e *Engine, st *State, lp *Loop, over *Val) {
		if st.p.V["list"] == over && st.p.F["missing"] != "" {
			if st.p.F["filling"] == "1" {
				l.filled(e, st)
			}
			st.p.F["missing"] = ""
			delete(st.p.V, "elem")
		} else if st.p.V["list"] == nil && st.p.F["missing"] != "" {
			st.p.F["missing"] = ""
		}
	}}
	h := &Hooks{}
	h.Opaque = func(st *State, f *ssa.Function) bool {
		return f.Pkg != nil && f.Pkg.Pkg.Path() == pkgPath(ddlPkg)
	}
	h.Call = l.call
	h.AfterCall = l.after
	h.Append = func(e *Engine, st *State, in ssa.CallInstruction, base, items, res *Val) {
		l.lt.Append(e, st, base, items, res)
		l.append(e, st, in, base, items, res)
	}
	h.Branch = func(e *Engine, st *State, in *ssa.If, cond *Val, taken bool) {
		l.ef.Branch(e, st)
		l.settle(e, st)
		l.lt.Branch(e, st, in, taken)
	}
	h.Store = func(e *Engine, st *State, in *ssa.Store, addr, val *Val) { l.fill(e, st, in, addr, val) }
	h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
		if len(st.frames) == 1 {
			l.ret(e, st, in, res)
		}
	}
	e := NewEngine(a.c.Program, h)
	e.Run(e.Start(fn, nil, nil, fn.Name()))
	a.c.Merge(e, fn.Name())
}

func describe(v *Val) string {
	if c := column(v); c != "" {
		return "the column " + c
	}
	if s, ok := constStr(v); ok {
		return fmt.Sprintf("%q", s)
	}
	return "a value that is not this column"
}

// fill: a value is stored in an object that is completed after it was added.
func (l *listA) fill(e *Engine, st *State, in ssa.Instruction, addr, val *Val) {
	el := st.p.V["elem"]
	if el == nil || addr.op != OpFieldAddr || addr.a[0] != el {
		return
	}
	f := fieldName(addr)
	want := seqValues[f][1]
	if want == "" {
		return
	}
	if got := column(val); got == want {
		st.p.F["got"] += f + ","
	} else {
		l.fail(e, st, "P06", "field:"+l.root.Name()+"."+f, instrPos(in), "%s is filled with %s instead of the column %s", f, describe(val), want)
	}
}

// filled checks that the iteration that ends set all missing fields.
func (l *listA) filled(e *Engine, st *State) {
	got := map[string]bool{}
	for _, f := range strings.Split(st.p.F["got"], ",") {
		got[f] = true
	}
	for _, f := range strings.Split(strings.TrimSuffix(st.p.F["missing"], ","), ",") {
		if !got[f] {
			l.fail(e, st, "P06", "field:"+l.root.Name()+"."+f, l.root.Pos(), "%s of an object is not filled", f)
		}
	}
}

// settle drops rows whose query is known to have failed.
func (l *listA) settle(e *Engine, st *State) {
	if st.p.F["rows"] == "open" && st.p.V["rows.err"] != nil && e.KnownNonNil(st, st.p.V["rows.err"]) {
		delete(st.p.F, "rows")
		delete(st.p.V, "rows")
		delete(st.p.V, "rows.err")
	}
	if v := st.p.V["rows.err"]; v != nil && e.KnownNil(st, v) {
		delete(st.p.V, "rows.err")
	}
}

func (l *listA) query(e *Engine, ev *CallEvent, i int) *Query {
	st := ev.st
	pos := instrPos(ev.instr)
	l.sinks[ev.instr] = true
	l.settle(e, st)
	if st.p.F["rows"] == "open" {
		l.fail(e, st, "P07", "busy:"+l.root.Name(), pos, "a query is sent while the result of another one is still open")
	} else if st.p.F["row"] == "open" {
		l.fail(e, st, "P07", "busy:"+l.root.Name(), pos, "a query is sent while a single-row result has not been scanned")
	} else {
		l.ok(e, "P07", "no rows are open when a query is sent", ev.instr)
	}
	if i >= len(ev.args) {
		return nil
	}
	text, ids, ok := sqlText(ev.args[i])
	if !ok {
		l.fail(e, st, "P06 P08", "sql:"+l.root.Name(), pos, "the text of this query is not a constant followed by quoted identifiers")
		return nil
	}
	q := ParseSQL(text)
	q.dynamic = len(ids) > 0
	l.checkQuery(e, ev, q, ids)
	return q
}

func (l *listA) checkQuery(e *Engine, ev *CallEvent, q *Query, ids []*Val) {
	st, pos, name := ev.st, instrPos(ev.instr), l.root.Name()
	var args []*Val
	if n := len(ev.args); n > 0 {
		args = e.sliceItems(st, ev.args[n-1])
	}
	want := l.spec.conds
	order := l.spec.order
	if name == "ListSequences" {
		switch {
		case q.dynamic:
			// the sequence itself
			want, order = nil, nil
			el := st.p.V["elem"]
			okIDs := len(ids) == 2 && el != nil && len(q.tables) == 1
			for i, f := range []string{"Schema", "Name"} {
				if okIDs && !l.isField(e, st, ids[i], el, f) {
					okIDs = false
				}
			}
			if !okIDs {
				l.fail(e, st, "P06", "sequence-name", pos, "the values of a sequence are not read from the sequence with the object's own schema and name")
			}
		case len(q.tables) == 0:
			want = nil
			order = nil
			x := strings.Join(q.cols, "")
			if !strings.HasPrefix(x, "exists (") || !strings.Contains(x, "'pg_catalog'") || !strings.Contains(x, "'pg_sequence'") {
				l.fail(e, st, "P06 P08", "sequence-probe", pos, "the probe for the catalog pg_sequence does not ask for pg_catalog.pg_sequence")
			}
		default:
			want = seqConds
			modern := false
			for _, t := range q.tables {
				if t == "pg_sequence" {
					modern = true
				}
			}
			if modern {
				want = cat(seqConds, "pg_class.oid = pg_sequence.seqrelid")
			}
			st.p.F["modern"] = fmt.Sprint(modern)
			known := false
			for f, b := range st.facts {
				if strings.HasPrefix(column(f), "exists (") && b == modern {
					known = true
				}
			}
			if !known && st.p.F["probe"] != fmt.Sprint(modern) {
				l.fail(e, st, "P06 P08", fmt.Sprintf("sequence-catalog:%v", modern), pos, "whether the catalog pg_sequence exists does not decide which query is used")
			}
			for _, t := range q.tables {
				if t == "pg_depend" && contains(q.conds, "pg_depend.deptype in ( 'a' , 'i' )") {
					l.fail(e, st, "P08", fmt.Sprintf("sequence-unowned:modern=%v", modern), pos, "sequences that are not owned by a column are not reported: the outer join of pg_depend is undone by the conditions")
				}
			}
		}
	}
	if strings.HasPrefix(q.verb, "show") || name == "ServerVersion" {
		return
	}
	norm := func(cs []string) []string {
		var r []string
		for _, c := range cs {
			r = append(r, strings.TrimPrefix(c, "left:"))
		}
		sort.Strings(r)
		return r
	}
	if len(want) > 0 {
		w, g := norm(want), norm(q.conds)
		bad := false
		for _, x := range g {
			if !contains(w, x) {
				bad = true
				l.fail(e, st, "P08", "cond-extra:"+name+":"+x, pos, "the query has the additional condition %q: objects may be missing or wrong", x)
			}
		}
		for _, x := range w {
			if !contains(g, x) {
				bad = true
				l.fail(e, st, "P08", "cond-missing:"+name+":"+x, pos, "the query lacks the condition %q: it reports other objects too", x)
			}
		}
		if q.rest != "" {
			bad = true
			l.fail(e, st, "P08", "cond-rest:"+name, pos, "the query restricts its result with %q", q.rest)
		}
		if !bad {
			l.ok(e, "P08", "query selects all objects of its kind", ev.instr)
		}
		if strings.Join(order, ",") != strings.Join(q.order, ",") && order != nil {
			l.fail(e, st, "P06", "order:"+name, pos, "the result is ordered by %q instead of %q", q.order, order)
		}
	}
	// parameters
	var ps []string
	for p := range q.params {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	good := len(args) == len(ps)
	if !good {
		l.fail(e, st, "P06", "params:"+name, pos, "the query has %d parameters, but %d values are passed", len(ps), len(args))
	}
	for _, p := range ps {
		i := int(p[1] - '1')
		if i < 0 || i >= len(args) {
			continue
		}
		col := q.params[p]
		n := l.spec.params[col]
		v := unwrap(args[i])
		if n == 0 || n > len(l.params) || v.op != OpParam || v.aux != ssa.Value(l.params[n-1]) {
			good = false
			l.fail(e, st, "P06", "param:"+name+":"+col, pos, "the parameter that is compared with %s is not given the value it stands for", col)
		}
	}
	if good && len(ps) > 0 {
		l.ok(e, "P06", "query parameters", ev.instr)
	}
}

func contains(s []string, x string) bool {
	for _, y := range s {
		if x == y {
			return true
		}
	}
	return false
}

// isField: v is the content of field f of the object el points to.
func (l *listA) isField(e *Engine, st *State, v, el *Val, f string) bool {
	s := derefStruct(el.typ)
	if s == nil {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			return e.load(st, e.in.mk(OpFieldAddr, types.NewPointer(s.Field(i).Type()), i, el), s.Field(i).Type()) == v
		}
	}
	return false
}

func (l *listA) scan(e *Engine, ev *CallEvent, cols string, rule string) {
	st, pos := ev.st, instrPos(ev.instr)
	dests := e.sliceItems(st, ev.args[len(ev.args)-1])
	names := strings.Split(cols, "\x00")
	if dests == nil {
		l.fail(e, st, "P06", "scan:"+l.root.Name(), pos, "the targets of this scan cannot be determined")
		return
	}
	if cols == "" {
		return
	}
	if len(dests) != len(names) {
		l.fail(e, st, "P06", "scan:"+l.root.Name(), pos, "the query selects %d columns, but %d variables are scanned", len(names), len(dests))
	} else {
		l.ok(e, "P06", "scan matches select list", ev.instr)
	}
	for i, d := range dests {
		d = unwrap(e.cur(d))
		p, ok := d.typ.Underlying().(*types.Pointer)
		if !ok || i >= len(names) {
			continue
		}
		if _, isPtr := p.Elem().Underlying().(*types.Pointer); mayBeNull(names[i]) && !isPtr {
			l.fail(e, st, "P06", "null:"+l.root.Name()+":"+names[i], pos, "the column %s may be NULL, but it is scanned into a variable that cannot be", names[i])
		}
		v := e.fresh(st, "col:"+names[i], ev.instr, i, p.Elem())
		e.store(st, e.cur(d), v, ev.instr)
		l.fill(e, st, ev.instr, e.cur(d), v)
	}
}

func (l *listA) call(e *Engine, ev *CallEvent) (*Val, bool) {
	st := ev.st
	m := pgMethod(ev)
	switch m {
	case "":
		return nil, false
	case "Conn.Query", "Conn.QueryEx":
		q := l.query(e, ev, sqlSink[m])
		r := e.opaqueResult(st, ev.instr, ev)
		st.p.F["rows"] = "open"
		delete(st.p.F, "item")
		st.p.F["rows.cols"] = ""
		if q != nil {
			st.p.F["rows.cols"] = strings.Join(q.cols, "\x00")
		}
		st.p.V["rows"], st.p.V["rows.err"] = r.a[0], r.a[1]
		return r, true
	case "Conn.QueryRow", "Conn.QueryRowEx":
		q := l.query(e, ev, sqlSink[m])
		r := e.opaqueResult(st, ev.instr, ev)
		st.p.F["row"] = "open"
		st.p.F["row.cols"] = ""
		if q != nil {
			st.p.F["row.cols"] = strings.Join(q.cols, "\x00")
		}
		return r, true
	case "Conn.Exec", "Conn.ExecEx", "Conn.Prepare", "Conn.Ping":
		if i, ok := sqlSink[m]; ok {
			l.query(e, ev, i)
		}
		return nil, false
	case "Rows.Next":
		l.settle(e, st)
		if ev.args[0] != st.p.V["rows"] {
			l.fail(e, st, "P05 P07", "rows-unknown:"+l.root.Name(), instrPos(ev.instr), "Next is called for rows that are not those of the last query")
			return nil, false
		}
		l.endItem(e, st, instrPos(ev.instr))
		for _, k := range []string{"def.arg", "def.res"} {
			delete(st.p.V, k)
		}
		if st.p.F["rows"] == "closed" || st.p.F["rows"] == "ended" {
			return e.cbool(false), true
		}
		e.Fork(ev, e.cbool(false), func(o *State) {
			o.p.F["rows"] = "ended"
			o.p.F["rows.chk"] = "no"
			o.note(instrPos(ev.instr), "there are no more rows")
		})
		st.p.F["item"] = "next"
		st.note(instrPos(ev.instr), "there is another row")
		return e.cbool(true), true
	case "Rows.Scan", "Rows.Values":
		if m == "Rows.Scan" {
			l.scan(e, ev, st.p.F["rows.cols"], "")
			if st.p.F["item"] == "next" {
				st.p.F["item"] = "scanned"
			}
		}
		return nil, true
	case "Row.Scan":
		delete(st.p.F, "row")
		cols := st.p.F["row.cols"]
		delete(st.p.F, "row.cols")
		l.scan(e, ev, cols, "")
		return nil, true
	case "Rows.Err":
		if ev.args[0] == st.p.V["rows"] && st.p.F["rows"] != "open" {
			st.p.F["rows.chk"] = "yes"
		}
		return nil, true
	case "Rows.Close":
		if ev.args[0] == st.p.V["rows"] {
			if st.p.F["rows"] == "open" {
				st.p.F["rows"] = "closed"
				if st.p.F["item"] == "next" || st.p.F["item"] == "scanned" {
					st.p.F["item"] = "broken"
				}
			}
		}
		return nil, true
	case "Identifier.Sanitize":
		items := e.sliceItems(st, ev.args[0])
		if items == nil {
			return nil, false
		}
		return e.in.mk(OpPure, types.Typ[types.String], "sanitize", items...), true
	}
	return nil, false
}

// endItem: the row that was being processed has to be part of the result.
func (l *listA) endItem(e *Engine, st *State, pos token.Pos) {
	switch st.p.F["item"] {
	case "next":
		l.fail(e, st, "P05", "row-unread:"+l.root.Name(), pos, "a row is skipped without being scanned")
	case "scanned":
		l.fail(e, st, "P05", "row-dropped:"+l.root.Name(), pos, "a row was scanned, but nothing was added to the result for it")
	}
	delete(st.p.F, "item")
}

func (l *listA) after(e *Engine, ev *CallEvent, res *Val) {
	l.ef.AfterCall(e, ev, res)
	st := ev.st
	if pgMethod(ev) == "Row.Scan" || ev.fn == nil || ev.fn.Pkg == nil || ev.fn.Pkg.Pkg.Path() != pkgPath(ddlPkg) {
		return
	}
	sig := ev.fn.Signature
	if sig.Recv() == nil && res != nil && res.op == OpTuple && strings.HasPrefix(ev.fn.Name(), "Parse") {
		st.p.V["def.res"], st.p.V["def.arg"] = res.a[0], ev.args[0]
		return
	}
	if sig.Recv() != nil && ev.fn.Name() == "Set" && len(ev.args) == 3 {
		l.set(e, ev)
	}
}

// set: a storage parameter is recorded.
func (l *listA) set(e *Engine, ev *CallEvent) {
	st, pos := ev.st, instrPos(ev.instr)
	if l.root.Name() != "ListTableStorageParameters" {
		return
	}
	if st.p.V["obj"] != nil && st.p.V["obj"] != ev.args[0] {
		l.fail(e, st, "P05", "set-object", pos, "storage parameters are recorded in different objects")
	}
	st.p.V["obj"] = ev.args[0]
	n, v := ev.args[1], ev.args[2]
	part := func(x *Val) (int64, *Val) { // element k of the split text
		if x.op == OpLoad && x.a[0].op == OpIndexAddr {
			if k, ok := constInt(x.a[0].a[1]); ok {
				return k, x.a[0].a[0]
			}
		}
		return -1, nil
	}
	good := fromColumn(n)
	if k, s := part(n); s != nil && s.op == OpPure {
		good = good && k == 0
		sep, _ := constStr(s.a[1])
		switch s.aux {
		case "strings.SplitN":
			m, _ := constInt(s.a[2])
			good = good && sep == "=" && m == 2
		default:
			good = false
		}
		if w, ok := constStr(v); ok {
			lo, hi := e.interval(st, e.lenOf(s))
			_ = lo
			good = good && w == "" && hi < 2
		} else {
			k2, s2 := part(v)
			good = good && k2 == 1 && s2 == s
		}
	} else if _, isC := constStr(v); !isC {
		good = good && fromColumn(v) && v != n
	}
	if !good {
		l.fail(e, st, "P05 P06", "set-args", pos, "a storage parameter is not recorded with the text before and after the first \"=\" as its name and value")
	} else {
		l.ok(e, "P06", "fields have their column", ev.instr)
	}
	if st.p.F["item"] == "scanned" {
		st.p.F["item"] = "done"
		l.ok(e, "P05", "every row is kept", ev.instr)
	}
}

func (l *listA) append(e *Engine, st *State, in ssa.CallInstruction, base, items, res *Val) {
	if st.p.F["item"] == "" {
		return
	}
	its := e.sliceItems(st, items)
	if len(its) != 1 {
		return
	}
	o := its[0]
	if !l.isElem(o.typ) {
		return
	}
	if old := st.p.V["list"]; old != nil && old != base || old == nil && !e.emptySlice(st, base) {
		l.fail(e, st, "P05", "list-broken:"+l.root.Name(), instrPos(in), "an object is not appended to the list of the objects before it")
	}
	st.p.V["list"] = res
	switch st.p.F["item"] {
	case "scanned":
		l.ok(e, "P05", "every row is kept", in)
	case "done":
		l.fail(e, st, "P05", "row-twice:"+l.root.Name(), instrPos(in), "a row is added to the result twice")
	case "next":
		l.fail(e, st, "P05", "row-unread:"+l.root.Name(), instrPos(in), "an object is added before the row was scanned")
	}
	st.p.F["item"] = "done"
	if _, ok := st.p.get("added", o); ok {
		l.fail(e, st, "P05 P06", "object-shared:"+l.root.Name(), instrPos(in), "several rows are added to the result as the same object")
	}
	st.p.put("added", o, "y")
	parts := map[*Val]bool{}
	if s := derefStruct(o.typ); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			if _, isPtr := s.Field(i).Type().Underlying().(*types.Pointer); !isPtr {
				continue
			}
			v := unwrapConv(loadField(e, st, o, i))
			if isNilConst(v) || e.KnownNil(st, v) {
				continue
			}
			if _, ok := st.p.get("added", v); ok {
				l.fail(e, st, "P05 P06", "part-shared:"+l.root.Name()+"."+s.Field(i).Name(), instrPos(in), "several rows are added to the result with the same %s", s.Field(i).Name())
			}
			st.p.put("added", v, "y")
			parts[v] = true
		}
	}
	l.fields(e, st, in, o, true)
	// the object is complete; forget what it looks like
	for k := range st.mem {
		if r := rootAddr(k); r == o || parts[r] {
			delete(st.mem, k)
		}
	}
	for _, k := range []string{"def.arg", "def.res"} {
		delete(st.p.V, k)
	}
}

func (l *listA) isElem(t types.Type) bool {
	if t == nil {
		return false
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkgPath(ddlPkg)
}

// fields compares the fields of a finished object with the columns they
// stand for.
func (l *listA) fields(e *Engine, st *State, in ssa.Instruction, o *Val, inList bool) {
	name, pos := l.root.Name(), instrPos(in)
	want := map[string]string{}
	for f, w := range l.spec.fields {
		want[f] = w
	}
	legacy := false
	if name == "ListSequences" {
		i := 0
		if st.p.F["modern"] != "true" {
			i, legacy = 1, true
		}
		for f, w := range seqFields {
			want[f] = w
		}
		for f, w := range seqValues {
			want[f] = w[i]
		}
	}
	if len(want) == 0 && l.spec.def == "" {
		return
	}
	good := true
	if l.spec.def != "" {
		if st.p.V["def.res"] != o || column(st.p.V["def.arg"]) != l.spec.def {
			good = false
			l.fail(e, st, "P06", "definition:"+name, pos, "the object is not the result of parsing the column %s of its row", l.spec.def)
		}
	}
	var fs []string
	for f := range want {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	missing := ""
	for _, f := range fs {
		w := want[f]
		v := l.fieldVal(e, st, o, strings.Split(f, "."))
		if v == nil {
			good = false
			l.fail(e, st, "P06", "field:"+name+"."+f, pos, "the field %s was not found", f)
			continue
		}
		if strings.HasPrefix(w, "$") {
			n := int(w[1] - '1')
			x := unwrap(v)
			if n >= len(l.params) || x.op != OpParam || x.aux != ssa.Value(l.params[n]) {
				good = false
				l.fail(e, st, "P06", "field:"+name+"."+f, pos, "%s is not the %s that was asked for", f, strings.ToLower(f))
			}
			continue
		}
		if strings.HasPrefix(w, "'") {
			if s, ok := constStr(v); !ok || "'"+s+"'" != w {
				good = false
				l.fail(e, st, "P06", "field:"+name+"."+f, pos, "%s is not %s", f, w)
			}
			continue
		}
		if column(v) == w {
			continue
		}
		if legacy && inList && seqValues[f][1] == w && isZero(v) {
			missing += f + ","
			continue
		}
		if s, ok := constStr(v); ok && s == "" && l.colNil(e, st, w) {
			continue
		}
		good = false
		l.fail(e, st, "P06", "field:"+name+"."+f, pos, "%s is filled with %s instead of the column %s", f, describe(v), w)
	}
	if missing != "" {
		st.p.F["missing"] = missing
	}
	if good {
		l.ok(e, "P06", "fields have their column", in)
	}
}

func isZero(v *Val) bool {
	if v.op == OpZero || isNilConst(v) {
		return true
	}
	if c, ok := constVal(v); ok && c != nil {
		switch c.Kind() {
		case constant.Bool:
			return !constant.BoolVal(c)
		case constant.String:
			return constant.StringVal(c) == ""
		}
		return constant.Sign(c) == 0
	}
	return false
}

// colNil: the path knows that the column is NULL.
func (l *listA) colNil(e *Engine, st *State, col string) bool {
	for f, b := range st.facts {
		if b && f.op == OpBin && f.aux == token.EQL && isNilConst(f.a[1]) && column(f.a[0]) == col {
			return true
		}
	}
	return false
}

func (l *listA) fieldVal(e *Engine, st *State, o *Val, path []string) *Val {
	s := derefStruct(o.typ)
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() != path[0] {
			continue
		}
		v := e.load(st, e.in.mk(OpFieldAddr, types.NewPointer(s.Field(i).Type()), i, o), s.Field(i).Type())
		if len(path) == 1 {
			return v
		}
		if v.typ == nil {
			return nil
		}
		return l.fieldVal(e, st, v, path[1:])
	}
	return nil
}

func (l *listA) ret(e *Engine, st *State, in ssa.Instruction, res []*Val) {
	l.settle(e, st)
	pos, name := instrPos(in), l.root.Name()
	var err *Val
	if n := len(res); n > 0 && isErr(l.root.Signature.Results().At(n-1).Type()) {
		err = res[n-1]
	}
	success := l.ef.Return(e, st, in, err)
	if st.p.F["rows"] == "open" {
		l.fail(e, st, "P07", "rows-open:"+name, pos, "the rows of a query are still open when the function returns")
	} else if st.p.F["row"] == "open" {
		l.fail(e, st, "P07", "row-open:"+name, pos, "the result of a query was not read when the function returns")
	} else if st.p.F["rows"] != "" || name == "ServerVersion" {
		l.ok(e, "P07", "rows are closed at return", in)
	}
	if !success {
		return
	}
	l.endItem(e, st, pos)
	if st.p.F["missing"] != "" {
		l.fail(e, st, "P05 P06", "unfilled:"+name, pos, "%s of the objects are not filled", st.p.F["missing"])
	}
	if st.p.V["rows"] != nil || st.p.F["rows"] != "" {
		switch {
		case st.p.F["rows"] != "ended":
			l.fail(e, st, "P05", "rows-unfinished:"+name, pos, "success is reported without having read all rows")
		case st.p.F["rows.chk"] != "yes":
			l.fail(e, st, "P05", "rows-unchecked:"+name, pos, "success is reported without asking whether the rows ended because of an error")
		default:
			l.ok(e, "P05", "rows are read to the end", in)
		}
	}
	if len(res) == 0 {
		return
	}
	r := res[0]
	if r.typ == nil && !isNilConst(r) {
		return
	}
	if _, isSlice := l.root.Signature.Results().At(0).Type().Underlying().(*types.Slice); isSlice {
		if lst := st.p.V["list"]; lst != nil && r != lst || lst == nil && !e.emptySlice(st, r) {
			l.fail(e, st, "P05", "result:"+name, pos, "the returned list is not the list of the objects that were read")
		}
		return
	}
	if o := st.p.V["obj"]; o != nil && o != r {
		l.fail(e, st, "P05", "result:"+name, pos, "the returned object is not the one that was filled")
	}
	if isNilConst(r) {
		l.fail(e, st, "P05", "result:"+name, pos, "nothing is returned")
		return
	}
	if l.isElem(r.typ) {
		l.fields(e, st, in, r, false)
	}
	if name == "ServerVersion" {
		if column(r) == "" {
			l.fail(e, st, "P06", "result:"+name, pos, "the returned version is not what the server sent")
		}
	}
}
