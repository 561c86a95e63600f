package main

// Configuration files: what a description looks like in HCL.

import (
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const hclPkg = "github.com/hashicorp/hcl2/"

// hclTypes walks the types a database description is made of.
func (c *Ctx) hclTypes() {
	root := c.Type(ddlPkg, "Database")
	if root == nil {
		c.Fail("anchor:Database", token.NoPos, "there is no database description")
		return
	}
	seen := map[*types.Named]bool{root: true}
	work := []*types.Named{root}
	for len(work) > 0 {
		t := work[0]
		work = work[1:]
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			c.Fail("type:"+t.Obj().Name(), t.Obj().Pos(), "%s is not a struct, so it cannot be written as a block", t.Obj().Name())
			continue
		}
		names := map[string]string{}
		label := 0
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			id := t.Obj().Name() + "." + f.Name()
			tag, ok := reflect.StructTag(s.Tag(i)).Lookup("hcl")
			if !f.Exported() {
				if ok {
					c.Fail("tag:"+id, f.Pos(), "the field %s has an hcl tag but is not exported", id)
				}
				continue
			}
			if !ok {
				c.Fail("tag:"+id, f.Pos(), "the field %s is neither written to configuration files nor read from them", id)
				continue
			}
			name, kind := tag, "attr"
			if j := strings.Index(tag, ","); j >= 0 {
				name, kind = tag[:j], tag[j+1:]
			}
			if name == "" || strings.IndexFunc(name, func(r rune) bool {
				return !(r == '_' || 'a' <= r && r <= 'z' || 'A' <= r && r <= 'Z' || '0' <= r && r <= '9')
			}) >= 0 || '0' <= name[0] && name[0] <= '9' {
				c.Fail("tag:"+id, f.Pos(), "the field %s is written under the name %q, which is not an identifier", id, name)
			}
			own := strings.ToLower(f.Name())
			got := strings.ReplaceAll(name, "_", "")
			switch {
			case kind == "label":
				// the labels are read by position: what contains comes before what it contains
				if k := map[string]int{"Schema": 1, "Table": 2, "Name": 3}[f.Name()]; k > 0 {
					if k < label {
						c.Fail("label:"+id, f.Pos(), "the label %s of a block is not in the place it has in configuration files", id)
					}
					label = k
				}
			case got == own || kind == "block" && (got+"s" == own || got+"es" == own):
			default:
				c.Fail("name:"+id, f.Pos(), "the field %s is read and written as %q", id, name)
			}
			space := kind
			if kind == "optional" || kind == "attr" || kind == "block" {
				space = "body"
			}
			if other := names[space+" "+name]; other != "" {
				c.Fail("tag:"+id, f.Pos(), "the fields %s and %s are written under the same name %q", id, other, name)
			}
			names[space+" "+name] = id
			ft := f.Type()
			elem := ft
			list := false
			if sl, ok := ft.Underlying().(*types.Slice); ok {
				elem, list = sl.Elem(), true
			}
			pointer := false
			if p, ok := elem.Underlying().(*types.Pointer); ok {
				elem, pointer = p.Elem(), true
			}
			_, isStruct := elem.Underlying().(*types.Struct)
			basic, isBasic := elem.Underlying().(*types.Basic)
			switch kind {
			case "block":
				switch {
				case !isStruct:
					c.Fail("tag:"+id, f.Pos(), "the field %s is tagged as a block but is not a struct", id)
				case !list && !pointer:
					c.Fail("tag:"+id, f.Pos(), "the block %s is required, so descriptions without it cannot be read", id)
				}
			case "label":
				if !isBasic || basic.Kind() != types.String || list || pointer {
					c.Fail("tag:"+id, f.Pos(), "the label %s is not a string", id)
				}
			case "attr", "optional":
				switch {
				case isStruct:
					c.Fail("tag:"+id, f.Pos(), "the struct %s is tagged as an attribute", id)
				case !isBasic || basic.Info()&(types.IsString|types.IsBoolean|types.IsInteger|types.IsFloat) == 0:
					c.Fail("tag:"+id, f.Pos(), "the field %s has a type that cannot be an attribute", id)
				case kind == "attr" && pointer && !list:
					c.Fail("tag:"+id, f.Pos(), "the attribute %s may be absent when written but is required when read", id)
				}
			default:
				c.Fail("tag:"+id, f.Pos(), "the field %s is tagged %q, which is not read back", id, kind)
			}
			c.OK("field in configuration files", id)
			if isStruct {
				n, ok := elem.(*types.Named)
				if !ok {
					c.Fail("tag:"+id, f.Pos(), "the field %s has an unnamed struct type, which is not analysed", id)
				} else if !seen[n] {
					seen[n] = true
					work = append(work, n)
				}
			}
		}
	}
	c.Floor("field in configuration files", 60)
}

// hclRead: the functions that read a description.
func (c *Ctx) hclRead() {
	db := c.Type(ddlPkg, "Database")
	if db == nil {
		return
	}
	want := types.NewPointer(db)
	n := 0
	var names []string
	fns := map[string]*ssa.Function{}
	for _, fn := range c.all {
		if fn.Pkg == nil || fn.Pkg.Pkg.Path() != pkgPath(ddlPkg) || fn.Object() == nil || !fn.Object().Exported() || fn.Blocks == nil || fn.Signature.Recv() != nil {
			continue
		}
		r := fn.Signature.Results()
		if r.Len() == 2 && types.Identical(r.At(0).Type(), want) {
			names = append(names, fn.Name())
			fns[fn.Name()] = fn
		}
	}
	sort.Strings(names)
	for _, name := range names {
		fn := fns[name]
		n++
		c.Analysed(fn)
		params := map[*Val]string{}
		var args []*Val
		for _, p := range fn.Params {
			v := c.in.mk(OpParam, p.Type(), ssa.Value(p))
			args = append(args, v)
			params[v] = p.Name()
		}
		clean := func(e *Engine, st *State, d *Val) bool {
			if e.KnownNil(st, d) {
				return true
			}
			if e.Decide(st, e.in.mk(OpPure, types.Typ[types.Bool], "diags failed", d)) == 0 {
				return true
			}
			_, hi := e.interval(st, e.lenOf(d))
			return hi == 0
		}
		h := &Hooks{}
		h.Call = func(e *Engine, ev *CallEvent) (*Val, bool) {
			if strings.HasPrefix(ev.name, "("+hclPkg+"hcl.Diagnostics).HasErrors") {
				return e.in.mk(OpPure, types.Typ[types.Bool], "diags failed", ev.args[0]), true
			}
			return nil, false
		}
		h.AfterCall = func(e *Engine, ev *CallEvent, res *Val) {
			st := ev.st
			switch {
			case strings.HasPrefix(ev.name, "(*"+hclPkg+"hclparse.Parser).ParseHCL") && res.op == OpTuple:
				ok := len(ev.args) > 1
				for i, a := range ev.args {
					if i > 0 && (params[unwrapConv(a)] == "" || unwrapConv(a) != args[i-1]) {
						ok = false
					}
				}
				if !ok {
					e.Report(st, "source:"+name, instrPos(ev.instr), "%s parses something else than it was given", name)
				}
				st.p.V["file"] = res.a[0]
				st.p.put("diags", res.a[1], "parsed")
				st.p.F["parsed"] = "y"
				e.Site("file parsed", ev.instr)
			case ev.name == hclPkg+"gohcl.DecodeBody":
				if f := st.p.V["file"]; f == nil || !mentions(unwrap(ev.args[0]), f) {
					e.Report(st, "body:"+name, instrPos(ev.instr), "%s decodes something else than the file it parsed", name)
				}
				for _, d := range st.p.each("diags") {
					if !clean(e, st, d) {
						e.Report(st, "unchecked:"+name, instrPos(ev.instr), "%s goes on although the file may not have been parsed", name)
					}
				}
				st.p.put("decoded", unwrap(ev.args[2]), "y")
				st.p.put("diags", res, "decoded")
				e.Site("file decoded", ev.instr)
			}
		}
		h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
			if len(res) != 2 {
				return
			}
			dirty := false
			for _, d := range st.p.each("diags") {
				if !clean(e, st, d) {
					dirty = true
				}
			}
			err := unwrapConv(res[1])
			if e.KnownNil(st, err) || isNilConst(err) {
				if dirty {
					e.Report(st, "ignored:"+name, instrPos(in), "%s reports success although the file may be invalid", name)
				}
				if _, ok := st.p.get("decoded", unwrap(res[0])); !ok {
					e.Report(st, "result:"+name, instrPos(in), "%s returns something else than the decoded description", name)
				}
				e.Site("description read", in)
				return
			}
			if st.p.F["parsed"] == "" {
				return
			}
			// a failure must have a reason
			if !dirty {
				e.Report(st, "fails:"+name, instrPos(in), "%s reports an error although the file is valid", name)
			}
		}
		e := NewEngine(c.Program, h)
		e.Run(e.Start(fn, args, newP(), name))
		c.Merge(e, name)
	}
	if n < 2 {
		c.Fail("anchor:Parse", token.NoPos, "the functions that read descriptions were not found")
	}
	c.Floor("description read", 1)
	c.Floor("file parsed", 1)
	c.Floor("file decoded", 1)
}

// hclWrite: the method that writes a description.
func (c *Ctx) hclWrite() {
	fn := c.NeedMethod(ddlPkg, "Database", "Write")
	if fn == nil {
		return
	}
	self := c.in.mk(OpParam, fn.Params[0].Type(), ssa.Value(fn.Params[0]))
	w := c.in.mk(OpParam, fn.Params[1].Type(), ssa.Value(fn.Params[1]))
	h := &Hooks{}
	of := func(e *Engine, st *State, v *Val, set string) *Val {
		v = unwrap(unwrapConv(v))
		if _, ok := st.p.get(set, v); ok {
			return v
		}
		return nil
	}
	h.AfterCall = func(e *Engine, ev *CallEvent, res *Val) {
		st := ev.st
		file := func(v *Val) bool { return st.p.V["file"] != nil && unwrap(v) == st.p.V["file"] }
		wrote := func(full bool, err *Val) {
			if st.p.F["wrote"] != "" {
				e.Report(st, "twice", instrPos(ev.instr), "the description may be written twice")
			}
			if !full {
				e.Report(st, "content", instrPos(ev.instr), "something else than the description is written")
			}
			st.p.F["wrote"] = "y"
			st.p.V["werr"] = err
			e.Site("description written", ev.instr)
		}
		switch {
		case ev.name == hclPkg+"hclwrite.NewEmptyFile":
			st.p.V["file"] = res
		case ev.name == "(*"+hclPkg+"hclwrite.File).Body" && file(ev.args[0]):
			st.p.put("body", res, "y")
		case ev.name == hclPkg+"gohcl.EncodeIntoBody":
			if unwrap(ev.args[0]) != self {
				e.Report(st, "object", instrPos(ev.instr), "something else than the description is encoded")
			}
			if of(e, st, ev.args[1], "body") == nil {
				e.Report(st, "object", instrPos(ev.instr), "the description is encoded into something else than the file that is written")
			}
			st.p.F["encoded"] = "y"
			e.Site("description encoded", ev.instr)
		case ev.name == "(*"+hclPkg+"hclwrite.File).Bytes" && file(ev.args[0]):
			if st.p.F["encoded"] != "" {
				st.p.put("bytes", res, "y")
			}
		case ev.invoke && strings.HasSuffix(ev.name, ").Write") && unwrap(ev.args[0]) == w:
			wrote(of(e, st, ev.args[1], "bytes") != nil, res.a[1])
		case ev.name == "(*"+hclPkg+"hclwrite.File).WriteTo" && file(ev.args[0]) && unwrap(ev.args[1]) == w:
			wrote(st.p.F["encoded"] != "", res.a[1])
		case ev.name == "io.WriteString" && unwrap(ev.args[0]) == w:
			wrote(of(e, st, ev.args[1], "bytes") != nil, res.a[1])
		case (ev.name == "fmt.Fprint" || ev.name == "fmt.Fprintf" || ev.name == "fmt.Fprintln") && unwrap(ev.args[0]) == w:
			_, items, _ := printed(e, ev)
			wrote(len(items) == 1 && of(e, st, items[0], "bytes") != nil, res.a[1])
		}
	}
	h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
		err := errResult(res)
		if err == nil || e.KnownNonNil(st, err) {
			return
		}
		if st.p.F["wrote"] == "" {
			e.Report(st, "not-written", instrPos(in), "success may be reported although nothing was written")
			return
		}
		if we := st.p.V["werr"]; err != we && !(we != nil && e.KnownNil(st, we)) {
			e.Report(st, "write-error", instrPos(in), "success may be reported although the description was not written completely")
		}
	}
	e := NewEngine(c.Program, h)
	e.Run(e.Start(fn, []*Val{self, w}, newP(), "Write"))
	c.Merge(e, "Database.Write")
	c.Floor("description written", 1)
	c.Floor("description encoded", 1)
}

func init() {
	register(&Check{ID: "D05", Technique: "static analysis: type-level schema rules over struct tags, and abstract interpretation of the reader and the writer",
		Explanation: "Every field of every struct reachable from the database description is examined: it is in configuration files, under a name that is unique in its block, and in a form the reader accepts. The reading and writing functions are interpreted on all paths: what was parsed is decoded, what was encoded is written, and every problem is reported.",
		Assumptions: []string{"the HCL library reads back what it writes for the tag forms that are accepted here"},
		Run: func(c *Ctx) {
			c.hclTypes()
			c.hclRead()
			c.hclWrite()
		}})
}
