package main

// P05, P08, P09: InspectDatabase.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// inspectFields: list function -> field of the database or the table.
var inspectFields = []struct {
	list, field string
	table       bool // listed per table
	inTable     bool // kept in the table
}{
	{"ListParameters", "Parameters", false, false},
	{"ListSchemas", "Schemas", false, false},
	{"ListFunctions", "Functions", false, false},
	{"ListSequences", "Sequences", false, false},
	{"ListTables", "Tables", false, false},
	{"ListColumns", "Columns", true, true},
	{"ListChecks", "Checks", true, true},
	{"ListForeignKeys", "ForeignKeys", true, true},
	{"ListTableStorageParameters", "StorageParameters", true, true},
	{"ListIndexes", "Indexes", true, false},
	{"ListTriggers", "Triggers", true, false},
}

var sortKeys = map[string]struct {
	option string
	keys   []string
}{
	"ListColumns": {"SortColumns", []string{"Name"}},
	"ListChecks":  {"SortChecks", []string{"Expression"}},
	"ListIndexes": {"SortIndexes", []string{"Schema", "Table", "Name"}},
}

func init() {
	register(&Check{ID: "P09", Technique: "abstract interpretation of InspectDatabase with sortedness typestate; comparators decided over all key orderings",
		Explanation: "On every path of InspectDatabase the list that ends up in the description has been sorted exactly if the path has the option set, and with a comparator whose result agrees with the lexicographic order of the documented keys for every combination of their orderings.",
		Assumptions: []string{"sort.Slice, sort.SliceStable, sort.Sort and sort.Stable sort by the comparator they are given."},
		Run: func(c *Ctx) {
			a := &pgA{c: c, sinks: map[ssa.Instruction]bool{}}
			a.inspect()
			c.Floor("sorted exactly if asked for", 3)
			c.Floor("comparator", 2)
		}})
}

type inspectA struct {
	*pgA
	root *ssa.Function
	lt   *LoopTrack
	ef   *ErrFlow
	cmp  map[string]string // comparator function -> list function it is right for
}

func (a *pgA) inspect() {
	c := a.c
	root := c.NeedMethod(pgPkg, "Conn", "InspectDatabase")
	if root == nil {
		return
	}
	x := &inspectA{pgA: a, root: root, cmp: map[string]string{}}
	x.ef = &ErrFlow{Rule: "errors are returned", Fail: func(e *Engine, st *State, key string, in ssa.Instruction, f string, args ...interface{}) {
		a.fail(e, st, "P05", key+":InspectDatabase", instrPos(in), f, args...)
	}}
	x.lt = &LoopTrack{OnElem: x.elem, OnEnd: x.end}
	h := &Hooks{}
	h.Opaque = func(st *State, f *ssa.Function) bool {
		return x.listName(f) != "" || f.Pkg != nil && f.Pkg.Pkg.Path() == pkgPath(ddlPkg)
	}
	h.Call = x.call
	h.AfterCall = func(e *Engine, ev *CallEvent, res *Val) {
		x.ef.AfterCall(e, ev, res)
		if n := x.listName(ev.fn); n != "" {
			x.listed(e, ev, n, res)
		}
	}
	h.Append = x.append
	h.Branch = func(e *Engine, st *State, in *ssa.If, cond *Val, taken bool) {
		x.ef.Branch(e, st)
		x.lt.Branch(e, st, in, taken)
	}
	h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
		if len(st.frames) == 1 {
			x.ret(e, st, in, res)
		}
	}
	e := NewEngine(c.Program, h)
	e.Run(e.Start(root, nil, nil, "InspectDatabase"))
	c.Merge(e, "InspectDatabase")
}

func (x *inspectA) listName(f *ssa.Function) string {
	if f == nil || f.Signature.Recv() == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != pkgPath(pgPkg) || !f.Object().Exported() || f == x.root {
		return ""
	}
	return f.Name()
}

// field loads x.F of the object a pointer points to.
func (e *Engine) namedField(st *State, o *Val, name string) *Val {
	if o == nil || o.typ == nil {
		return nil
	}
	s := derefStruct(o.typ)
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return e.load(st, e.in.mk(OpFieldAddr, types.NewPointer(s.Field(i).Type()), i, o), s.Field(i).Type())
		}
	}
	return nil
}

func (x *inspectA) db(e *Engine, st *State) *Val {
	// the description under construction: the only ddl.Database in use
	return st.p.V["db"]
}

func (x *inspectA) listed(e *Engine, ev *CallEvent, n string, res *Val) {
	st, pos := ev.st, instrPos(ev.instr)
	if res != nil && res.op == OpTuple {
		res = res.a[0]
	}
	var per bool
	found := false
	for _, f := range inspectFields {
		if f.list == n {
			found, per = true, f.table
		}
	}
	if !found {
		return
	}
	st.p.V["res:"+n] = res
	delete(st.p.F, "all:"+n)
	if !per {
		return
	}
	t := st.p.V["table"]
	if t == nil || len(ev.args) < 3 {
		x.fail(e, st, "P08", "table:"+n, pos, "%s is not called for a table of the list of tables", n)
		return
	}
	if ev.args[1] != e.namedField(st, t, "Schema") || ev.args[2] != e.namedField(st, t, "Name") {
		x.fail(e, st, "P08", "table-args:"+n, pos, "%s is not called with the schema and the name of the table being inspected", n)
		return
	}
	x.ok(e, "P08", "for the table's own schema and name", ev.instr)
}

// Sorting.
func (x *inspectA) call(e *Engine, ev *CallEvent) (*Val, bool) {
	st := ev.st
	var s *Val
	var less *ssa.Function
	var free []*Val
	switch ev.name {
	case "sort.Slice", "sort.SliceStable":
		s = unwrap(ev.args[0])
		less, free = e.callable(ev.args[1])
	case "sort.Sort", "sort.Stable":
		i := ev.args[0]
		s = unwrap(i)
		if i.op == OpIface {
			if sel := types.NewMethodSet(i.typ).Lookup(nil, "Less"); sel != nil {
				less = x.c.prog.MethodValue(sel)
			}
		}
	default:
		return nil, false
	}
	key := x.comparator(less)
	_ = free
	if key == "" {
		x.fail(e, st, "P09", "sort-unknown", instrPos(ev.instr), "the order this sorts by cannot be determined")
		return nil, true
	}
	if !isNilConst(s) {
		st.p.put("sorted", s, key)
	}
	return nil, true
}

func (x *inspectA) append(e *Engine, st *State, in ssa.CallInstruction, base, items, res *Val) {
	x.lt.Append(e, st, base, items, res)
	for _, f := range inspectFields {
		r := st.p.V["res:"+f.list]
		if r == nil || !f.table {
			continue
		}
		owner := st.p.V["table"]
		if !f.inTable {
			owner = x.findDB(e, st)
		}
		cur := e.namedField(st, owner, f.field)
		if items == r {
			if base == cur || f.inTable && e.emptySlice(st, base) {
				st.p.V["app:"+f.list] = res
				st.p.F["all:"+f.list] = "1"
				if t, ok := st.p.get("sorted", items); ok {
					st.p.put("sorted", res, t)
				}
			}
			return
		}
		if its := e.sliceItems(st, items); len(its) == 1 && its[0] == st.p.V["elem:"+f.list] {
			if base == cur || base == st.p.V["app:"+f.list] {
				st.p.V["app:"+f.list] = res
				st.p.F["el:"+f.list] = "done"
				if t, ok := st.p.get("sorted", r); ok {
					st.p.put("sorted", res, t)
				}
			}
			return
		}
	}
}

// findDB: the ddl.Database the root returns; it is allocated by the analysed
// code (or a parameter of it).
func (x *inspectA) findDB(e *Engine, st *State) *Val {
	if d := st.p.V["db"]; d != nil {
		return d
	}
	isDB := func(t types.Type) bool {
		if t == nil {
			return false
		}
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		n, ok := p.Elem().(*types.Named)
		return ok && n.Obj().Name() == "Database" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkgPath(ddlPkg)
	}
	var best *Val
	look := func(v *Val) {
		if v != nil && v.op == OpAlloc && isDB(v.typ) && (best == nil || v.id < best.id) {
			best = v
		}
	}
	for _, fr := range st.frames {
		for _, v := range fr.regs {
			look(v)
		}
	}
	for a, v := range st.mem {
		look(v)
		look(rootAddr(a))
	}
	if best != nil {
		st.p.V["db"] = best
	}
	return best
}

func (x *inspectA) elem(e *Engine, st *State, l *Loop, over, k, v *Val) {
	if over == st.p.V["res:ListTables"] {
		if st.p.V["table"] != nil {
			x.tableDone(e, st, l)
		}
		st.p.V["table"] = v
		st.p.F["tables"] = "open"
		x.resetTable(e, st)
		return
	}
	for _, f := range inspectFields {
		if f.table && st.p.V["res:"+f.list] == over && st.p.V["table"] != nil {
			if st.p.F["el:"+f.list] == "open" {
				st.p.F["el:"+f.list] = "skipped"
			}
			if st.p.F["el:"+f.list] != "skipped" {
				st.p.F["el:"+f.list] = "open"
			}
			st.p.V["elem:"+f.list] = v
		}
	}
}

func (x *inspectA) end(e *Engine, st *State, l *Loop, over *Val) {
	if over == st.p.V["res:ListTables"] {
		if st.p.V["table"] != nil {
			x.tableDone(e, st, l)
		}
		delete(st.p.V, "table")
		st.p.F["tables"] = "done"
		return
	}
	for _, f := range inspectFields {
		if f.table && st.p.V["res:"+f.list] == over && st.p.V["table"] != nil {
			if st.p.F["el:"+f.list] == "done" {
				st.p.F["all:"+f.list] = "1"
			}
			delete(st.p.F, "el:"+f.list)
			delete(st.p.V, "elem:"+f.list)
		}
	}
}

func (x *inspectA) resetTable(e *Engine, st *State) {
	db := x.findDB(e, st)
	for _, f := range inspectFields {
		if !f.table {
			continue
		}
		delete(st.p.V, "res:"+f.list)
		delete(st.p.V, "app:"+f.list)
		delete(st.p.V, "elem:"+f.list)
		delete(st.p.F, "all:"+f.list)
		delete(st.p.F, "el:"+f.list)
		if !f.inTable && db != nil {
			st.p.V["old:"+f.list] = e.namedField(st, db, f.field)
		}
	}
	for _, v := range st.p.each("sorted") {
		st.p.del("sorted", v)
	}
}

// option: 1 set, 0 not set, -1 unknown on this path.
func (x *inspectA) option(e *Engine, st *State, name string) int {
	var prm *ssa.Parameter
	for _, p := range x.root.Params[1:] {
		if _, ok := p.Type().Underlying().(*types.Pointer); ok {
			prm = p
		}
	}
	if prm == nil {
		return -1
	}
	o := e.in.mk(OpParam, prm.Type(), ssa.Value(prm))
	if e.KnownNil(st, o) {
		return 0
	}
	v := e.namedField(st, o, name)
	if v == nil {
		return -1
	}
	return e.Decide(st, v)
}

func (x *inspectA) sortedRight(e *Engine, st *State, list string, v *Val, empty bool, pos token.Pos, in ssa.Instruction) {
	sk, ok := sortKeys[list]
	if !ok {
		if t, s := st.p.get("sorted", v); s {
			x.fail(e, st, "P09", "sort-unasked:"+list, pos, "the result of %s is sorted (by %s) although no option asks for it", list, t)
		}
		return
	}
	tag, is := st.p.get("sorted", v)
	switch x.option(e, st, sk.option) {
	case 1:
		if empty {
			return
		}
		if !is {
			x.fail(e, st, "P09", "unsorted:"+list, pos, "%s is set, but the reported list is not the sorted one", sk.option)
		} else if tag != list && tag != "?" {
			x.fail(e, st, "P09", "sorted-by:"+list, pos, "%s sorts by the wrong keys", sk.option)
		} else {
			x.sortOK(list)
		}
	case 0:
		if is {
			x.fail(e, st, "P09", "sort-unasked:"+list, pos, "the result of %s is sorted although %s is not set", list, sk.option)
		} else {
			x.sortOK(list)
		}
	default:
		x.fail(e, st, "P09", "sort-option:"+list, pos, "%s does not decide whether the result of %s is sorted", sk.option, list)
	}
}

func (x *inspectA) tableDone(e *Engine, st *State, l *Loop) {
	pos := l.head.Parent().Pos()
	in := l.head.Instrs[len(l.head.Instrs)-1]
	t, db := st.p.V["table"], x.findDB(e, st)
	for _, f := range inspectFields {
		if !f.table {
			continue
		}
		r := st.p.V["res:"+f.list]
		if r == nil {
			x.fail(e, st, "P08", "not-listed:"+f.list, pos, "%s is not called for every table", f.list)
			continue
		}
		owner := t
		if !f.inTable {
			owner = db
		}
		cur := e.namedField(st, owner, f.field)
		empty := !strings.Contains(f.list, "Storage") && e.emptySlice(st, r)
		good := cur == r && f.inTable ||
			st.p.V["app:"+f.list] != nil && cur == st.p.V["app:"+f.list] && st.p.F["all:"+f.list] == "1" ||
			empty && (f.inTable || cur == st.p.V["old:"+f.list])
		if !good {
			x.fail(e, st, "P08", "not-stored:"+f.list, pos, "the result of %s is not completely added to %s", f.list, f.field)
			continue
		}
		x.ok(e, "P08", "result is stored in its field", in)
		x.c.OK("result is stored in its field", f.list)
		if f.inTable && !strings.Contains(f.list, "Storage") {
			x.sortedRight(e, st, f.list, cur, empty, pos, in)
		}
	}
	// the table is complete; forget what it looks like
	for k := range st.mem {
		if mentions(k, t) {
			delete(st.mem, k)
		}
	}
	delete(st.p.V, "table")
	x.resetTable(e, st)
}

func (x *inspectA) ret(e *Engine, st *State, in ssa.Instruction, res []*Val) {
	pos := instrPos(in)
	var err *Val
	if len(res) == 2 {
		err = res[1]
	}
	if !x.ef.Return(e, st, in, err) {
		return
	}
	if err != nil && !e.KnownNil(st, err) && !isNilConst(err) {
		// possibly an error; as the rules before cover it, judge it as success
	}
	db := res[0]
	if isNilConst(db) || db.typ == nil {
		x.fail(e, st, "P05 P08", "no-result", pos, "success is reported without a description")
		return
	}
	for _, f := range inspectFields {
		if f.table {
			continue
		}
		r := st.p.V["res:"+f.list]
		if r == nil || e.namedField(st, db, f.field) != r {
			x.fail(e, st, "P08", "not-stored:"+f.list, pos, "the result of %s is not stored in %s", f.list, f.field)
			continue
		}
		x.c.OK("result is stored in its field", f.list)
	}
	if st.p.F["tables"] != "done" {
		x.fail(e, st, "P05 P08", "tables", pos, "success is reported without having inspected every table")
	}
	if d := x.findDB(e, st); d != nil && d != db {
		x.fail(e, st, "P08", "result", pos, "the returned description is not the one that was filled")
	}
	cur := e.namedField(st, db, "Indexes")
	if cur != nil {
		x.sortedRight(e, st, "ListIndexes", cur, e.emptySlice(st, cur), pos, in)
	}
	if cur := e.namedField(st, db, "Triggers"); cur != nil {
		x.sortedRight(e, st, "ListTriggers", cur, false, pos, in)
	}
	if cur := e.namedField(st, db, "Tables"); cur != nil {
		x.sortedRight(e, st, "ListTables", cur, false, pos, in)
	}
}

// ---------------------------------------------------------------- comparators

// comparator decides what list a comparator is right for: the name of the
// list function, or "?" if it is reported as wrong, "" if it is not understood.
func (x *inspectA) comparator(less *ssa.Function) string {
	if less == nil || less.Blocks == nil {
		return ""
	}
	if r, ok := x.cmp[less.String()]; ok {
		return r
	}
	n := len(less.Params)
	if n < 2 {
		return ""
	}
	pi, pj := ssa.Value(less.Params[n-2]), ssa.Value(less.Params[n-1])
	type outcome struct {
		facts map[*Val]bool
		res   *Val
	}
	var outs []outcome
	var e *Engine
	e = NewEngine(x.c.Program, &Hooks{Return: func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
		if len(st.frames) == 1 {
			fs := map[*Val]bool{}
			for a, b := range st.facts {
				fs[a] = b
			}
			outs = append(outs, outcome{fs, res[0]})
		}
	}})
	e.Run(e.Start(less, nil, nil, "less"))
	x.c.Analysed(less)
	// which element, which field
	side := func(v *Val) (string, string) { // field, i or j
		if v.op != OpLoad || v.a[0].op != OpFieldAddr {
			return "", ""
		}
		f := fieldName(v.a[0])
		el := v.a[0].a[0]
		if el.op == OpLoad {
			el = el.a[0]
		}
		if el.op != OpIndexAddr || el.a[1].op != OpParam {
			return "", ""
		}
		switch el.a[1].aux {
		case pi:
			return f, "i"
		case pj:
			return f, "j"
		}
		return "", ""
	}
	keys := map[string]bool{}
	var elemType string
	note := func(v *Val) {
		anyIn(v, func(y *Val) bool {
			if f, s := side(y); s != "" {
				keys[f] = true
				if st := y.a[0].a[0].typ; st != nil {
					elemType = typeKey(st)
				}
			}
			return false
		})
	}
	for _, o := range outs {
		note(o.res)
		for a := range o.facts {
			note(a)
		}
	}
	list := ""
	switch {
	case strings.HasSuffix(elemType, ".Column"):
		list = "ListColumns"
	case strings.HasSuffix(elemType, ".Check"):
		list = "ListChecks"
	case strings.HasSuffix(elemType, ".Index"):
		list = "ListIndexes"
	default:
		return ""
	}
	want := sortKeys[list].keys
	for k := range keys {
		if !contains(want, k) {
			x.reportCmp(list, "key:"+k, less, "%s compares by %s, which is not what it names", sortKeys[list].option, k)
			x.cmp[less.String()] = "?"
			return "?"
		}
	}
	// every ordering of the keys
	table := ""
	wrong, undecided := "", false
	total := 1
	for range want {
		total *= 3
	}
	for c := 0; c < total; c++ {
		ord := map[string]int{} // -1 <, 0 =, 1 >
		r := c
		exp := 0
		desc := ""
		for _, k := range want {
			ord[k] = r%3 - 1
			r /= 3
			if exp == 0 {
				exp = ord[k]
			}
			desc += k + map[int]string{-1: "<", 0: "=", 1: ">"}[ord[k]] + " "
		}
		var eval func(v *Val) (int, bool)
		eval = func(v *Val) (int, bool) {
			if b, ok := constBool(v); ok {
				return b2i(b), true
			}
			if v.op == OpUn && v.aux == token.NOT {
				r, ok := eval(v.a[0])
				return 1 - r, ok
			}
			if v.op == OpPure && v.aux == "strings.Compare" {
				f, s := side(v.a[0])
				g, t := side(v.a[1])
				if f == "" || f != g || s == t {
					return 0, f == g && s == t && f != ""
				}
				if s == "i" {
					return ord[f], true
				}
				return -ord[f], true
			}
			if n, ok := constInt(v); ok {
				return int(n), true
			}
			if v.op != OpBin {
				return 0, false
			}
			f, s := side(v.a[0])
			g, t := side(v.a[1])
			if f != "" && f == g {
				o := ord[f]
				if s == t {
					o = 0
				} else if s == "j" {
					o = -o
				}
				switch v.aux {
				case token.LSS:
					return b2i(o < 0), true
				case token.EQL:
					return b2i(o == 0), true
				}
				return 0, false
			}
			a, ok1 := eval(v.a[0])
			b, ok2 := eval(v.a[1])
			if !ok1 || !ok2 {
				return 0, false
			}
			switch v.aux {
			case token.LSS:
				return b2i(a < b), true
			case token.EQL:
				return b2i(a == b), true
			}
			return 0, false
		}
		got := -1
		for _, o := range outs {
			match := true
			for a, b := range o.facts {
				if r, ok := eval(a); ok && (r == 1) != b {
					match = false
				}
			}
			if !match {
				continue
			}
			r, ok := eval(o.res)
			if !ok || got >= 0 && got != r {
				undecided = true
				continue
			}
			got = r
		}
		if got < 0 {
			undecided = true
			table += "?"
			continue
		}
		table += itoa(got)
		if got != b2i(exp < 0) && wrong == "" {
			wrong = desc
		}
	}
	switch {
	case undecided:
		x.reportCmp(list, "undecided", less, "the comparator of %s cannot be decided", sortKeys[list].option)
		x.cmp[less.String()] = "?"
	case wrong != "":
		x.reportCmp(list, table, less, "the comparator of %s is not the lexicographic order of %s: wrong for %s", sortKeys[list].option, strings.Join(want, ", "), wrong)
		x.cmp[less.String()] = "?"
	default:
		x.c.OK("comparator", list)
		x.cmp[less.String()] = list
	}
	return x.cmp[less.String()]
}

func (x *inspectA) reportCmp(list, key string, less *ssa.Function, f string, args ...interface{}) {
	if x.c.check.ID == "P09" {
		x.c.Fail("comparator:"+sortKeys[list].option+":"+key, less.Pos(), f, args...)
	}
}

func (x *inspectA) sortOK(list string) {
	if x.c.check.ID == "P09" {
		x.c.OK("sorted exactly if asked for", list)
	}
}
