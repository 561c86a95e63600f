package main

// S01: passwords.

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type secretA struct {
	c       *Ctx
	fields  map[string]bool      // fields that may hold a secret
	globals map[*ssa.Global]bool // and variables
	free    map[*ssa.FreeVar]bool
	cells   map[ssa.Value]bool // captured variables
	ctxs    map[secretKey]*secretCtx
	order   []*secretCtx
	changed bool
	report  bool
	holds   map[types.Type]int // types that contain a secret: 1 yes, 2 no
	sources int
	calls   map[string]bool
}

type secretKey struct {
	fn   *ssa.Function
	mask string
}

type secretCtx struct {
	key  secretKey
	vals map[ssa.Value]string // why
	ret  map[int]bool
	out  map[int]bool // parameters whose content became secret
}

func secretName(n string) bool {
	n = strings.ToLower(n)
	return strings.Contains(n, "password") || strings.Contains(n, "passwd") || strings.Contains(n, "passphrase")
}

func textual(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && (b.Kind() == types.Byte || b.Kind() == types.Rune)
	case *types.Pointer:
		return textual(u.Elem())
	}
	return false
}

// secretField: a field that is declared to hold a password.
func secretField(t types.Type, i int) bool {
	s := derefStruct(t)
	return s != nil && secretName(s.Field(i).Name()) && textual(s.Field(i).Type())
}

// contains: printing a value of this type would print a password.
func (a *secretA) contains(t types.Type) bool {
	t = types.Unalias(t)
	switch a.holds[t] {
	case 1:
		return true
	case 2:
		return false
	}
	a.holds[t] = 2 // recursive types
	r := a.containsIn(t)
	if r {
		a.holds[t] = 1
	} else {
		delete(a.holds, t)
	}
	return r
}

func (a *secretA) containsIn(t types.Type) bool {
	if n, ok := t.(*types.Named); ok {
		p := n.Obj().Pkg()
		if p == nil {
			return false
		}
		if in := strings.HasPrefix(p.Path(), Module) || p.Path() == pgx; !in {
			return false
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return a.contains(u.Elem())
	case *types.Slice:
		return a.contains(u.Elem())
	case *types.Array:
		return a.contains(u.Elem())
	case *types.Map:
		return a.contains(u.Elem()) || a.contains(u.Key())
	case *types.Chan:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if secretName(f.Name()) && textual(f.Type()) || a.contains(f.Type()) {
				return true
			}
		}
	case *types.Interface:
		if u.NumMethods() == 0 || types.Identical(t, types.Universe.Lookup("error").Type()) {
			return false
		}
		if n, ok := t.(*types.Named); !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), Module) {
			return false
		}
		for _, n := range a.c.typesImplementing(u) {
			if a.contains(n) {
				return true
			}
		}
	}
	return false
}

func emptyInterface(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

func (a *secretA) ctx(fn *ssa.Function, mask string) *secretCtx {
	k := secretKey{fn, mask}
	if x := a.ctxs[k]; x != nil {
		return x
	}
	x := &secretCtx{key: k, vals: map[ssa.Value]string{}, ret: map[int]bool{}, out: map[int]bool{}}
	for i := range fn.Params {
		if i < len(mask) && mask[i] == '1' {
			x.vals[fn.Params[i]] = "parameter " + fn.Params[i].Name()
		}
	}
	a.ctxs[k] = x
	a.order = append(a.order, x)
	a.changed = true
	return x
}

func (a *secretA) taint(x *secretCtx, v ssa.Value, why string) {
	if v == nil || x.vals[v] != "" {
		return
	}
	if _, ok := v.(*ssa.Const); ok {
		return
	}
	x.vals[v] = why
	a.changed = true
}

// into: the secret is kept in what v refers to.
func (a *secretA) into(x *secretCtx, v ssa.Value, why string) {
	switch u := v.(type) {
	case *ssa.FieldAddr:
		if id := fieldID(u.X.Type(), u.Field); !a.fields[id] {
			a.fields[id] = true
			a.changed = true
		}
	case *ssa.Global:
		if !a.globals[u] {
			a.globals[u] = true
			a.changed = true
		}
	case *ssa.IndexAddr:
		a.into(x, u.X, why)
	case *ssa.UnOp:
		if u.Op == token.MUL {
			a.into(x, u.X, why)
		}
		a.taint(x, v, why)
	case *ssa.Slice:
		a.taint(x, v, why)
		a.into(x, u.X, why)
	case *ssa.FreeVar:
		if !a.free[u] {
			a.free[u] = true
			a.changed = true
		}
	case *ssa.Parameter:
		for i, p := range x.key.fn.Params {
			if p == u && !x.out[i] {
				x.out[i] = true
				a.changed = true
			}
		}
		a.taint(x, v, why)
	case *ssa.Phi:
		if x.vals[v] == "" {
			a.taint(x, v, why)
			for _, e := range u.Edges {
				a.into(x, e, why)
			}
		}
	default:
		a.taint(x, v, why)
		if !a.cells[v] {
			a.cells[v] = true
			a.changed = true
		}
	}
}

func (a *secretA) step(x *secretCtx) {
	fn := x.key.fn
	for _, fv := range fn.FreeVars {
		if a.free[fv] {
			a.taint(x, fv, "captured variable "+fv.Name())
		}
	}
	is := func(v ssa.Value) string { return x.vals[v] }
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch v := in.(type) {
			case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
				if a.cells[v.(ssa.Value)] {
					a.taint(x, v.(ssa.Value), "variable")
				}
			case *ssa.FieldAddr:
				// the address itself is not secret, unless it is handed on
				if secretField(v.X.Type(), v.Field) || a.fields[fieldID(v.X.Type(), v.Field)] {
					for _, r := range *v.Referrers() {
						if _, call := r.(ssa.CallInstruction); call {
							a.taint(x, v, "the address of field "+fieldID(v.X.Type(), v.Field))
						}
					}
				}
			case *ssa.Field:
				if secretField(v.X.Type(), v.Field) || a.fields[fieldID(v.X.Type(), v.Field)] {
					a.taint(x, v, "field "+fieldID(v.X.Type(), v.Field))
				}
			case *ssa.UnOp:
				switch v.Op {
				case token.MUL:
					switch p := v.X.(type) {
					case *ssa.FieldAddr:
						id := fieldID(p.X.Type(), p.Field)
						if secretField(p.X.Type(), p.Field) || a.fields[id] {
							a.taint(x, v, "field "+id)
						}
					case *ssa.Global:
						if a.globals[p] {
							a.taint(x, v, "variable "+p.Name())
						}
					case *ssa.IndexAddr:
						if w := is(p.X); w != "" {
							a.taint(x, v, w)
						}
						if w := is(p); w != "" {
							a.taint(x, v, w)
						}
					default:
						if w := is(v.X); w != "" {
							a.taint(x, v, w)
						}
					}
				case token.ARROW:
					if w := is(v.X); w != "" {
						a.taint(x, v, w)
					}
				}
			case *ssa.Phi:
				for _, e := range v.Edges {
					if w := is(e); w != "" {
						a.taint(x, v, w)
					}
				}
			case *ssa.BinOp:
				if v.Op == token.ADD {
					for _, o := range []ssa.Value{v.X, v.Y} {
						if w := is(o); w != "" {
							a.taint(x, v, w)
						}
					}
				}
			case *ssa.MakeInterface:
				if w := is(v.X); w != "" {
					a.taint(x, v, w)
				} else if emptyInterface(v.Type()) && a.contains(v.X.Type()) {
					a.taint(x, v, "a value of type "+shortName(types.TypeString(v.X.Type(), nil)))
				}
			case *ssa.ChangeInterface:
				if w := is(v.X); w != "" {
					a.taint(x, v, w)
				} else if emptyInterface(v.Type()) && a.contains(v.X.Type()) {
					a.taint(x, v, "a value of type "+shortName(types.TypeString(v.X.Type(), nil)))
				}
			case *ssa.TypeAssert:
				if w := is(v.X); w != "" && (emptyInterface(v.AssertedType) || textual(v.AssertedType)) {
					a.taint(x, v, w)
				}
			case *ssa.ChangeType, *ssa.Convert, *ssa.Slice, *ssa.SliceToArrayPointer, *ssa.MultiConvert, *ssa.Extract, *ssa.Index, *ssa.IndexAddr, *ssa.Range, *ssa.Next:
				if e, ok := v.(*ssa.Extract); ok {
					if _, call := e.Tuple.(*ssa.Call); call {
						break // by result, below
					}
				}
				if w := is(*in.Operands(nil)[0]); w != "" {
					a.taint(x, in.(ssa.Value), w)
				}
			case *ssa.Lookup:
				if w := is(v.X); w != "" {
					a.taint(x, v, w)
				}
			case *ssa.Select:
				for _, s := range v.States {
					if s.Dir == types.SendOnly && is(s.Send) != "" {
						a.into(x, s.Chan, is(s.Send))
					} else if s.Dir == types.RecvOnly && is(s.Chan) != "" {
						a.taint(x, v, is(s.Chan))
					}
				}
			case *ssa.Store:
				if w := is(v.Val); w != "" {
					a.into(x, v.Addr, w)
				}
			case *ssa.MapUpdate:
				for _, o := range []ssa.Value{v.Value, v.Key} {
					if w := is(o); w != "" {
						a.into(x, v.Map, w)
					}
				}
			case *ssa.Send:
				if w := is(v.X); w != "" {
					a.into(x, v.Chan, w)
				}
			case *ssa.MakeClosure:
				f := v.Fn.(*ssa.Function)
				for i, bnd := range v.Bindings {
					if (is(bnd) != "" || a.cells[bnd]) && !a.free[f.FreeVars[i]] {
						a.free[f.FreeVars[i]] = true
						a.changed = true
					}
					if a.free[f.FreeVars[i]] {
						a.taint(x, bnd, "captured variable")
					}
				}
			case *ssa.Return:
				for i, r := range v.Results {
					if is(r) != "" && !x.ret[i] {
						x.ret[i] = true
						a.changed = true
					}
				}
			case *ssa.Panic:
				if w := is(v.X); w != "" && a.report {
					a.c.Fail("panic:"+fn.String(), instrPos(in), "a password may become part of a panic message (%s)", w)
				}
			case ssa.CallInstruction:
				a.call(x, v)
			}
		}
	}
}

// known library functions: what they do with a secret.
func secretUse(name string) string {
	switch name {
	case "builtin:len", "builtin:cap", "builtin:delete", "builtin:close", "builtin:clear":
		return "none"
	case "builtin:append", "builtin:copy", "builtin:min", "builtin:max":
		return "result"
	case "encoding/json.Unmarshal", "(*encoding/json.Decoder).Decode":
		return "fills"
	case "strconv.Itoa", "os.Getenv", "os.LookupEnv", "os.Unsetenv":
		return "none"
	case "os/exec.Command", "os/exec.CommandContext":
		return ""
	}
	if strings.HasPrefix(name, "github.com/hashicorp/hcl2/gohcl.Decode") {
		return "fills"
	}
	if name == pgx+".Connect" || strings.HasPrefix(name, "("+pgx+".ConnConfig)") || strings.HasPrefix(name, "(*"+pgx+".ConnConfig)") {
		return "connects"
	}
	switch namePkg(name) {
	case "strings", "bytes", "unicode", "unicode/utf8", "net/url", "path", "path/filepath":
		if strings.HasPrefix(name, "(*strings.Builder)") || strings.HasPrefix(name, "(*bytes.Buffer)") {
			return "receiver"
		}
		return "result"
	case "sort", "sync", "context", "reflect":
		return "none"
	}
	return ""
}

func (a *secretA) call(x *secretCtx, ci ssa.CallInstruction) {
	c := ci.Common()
	args := c.Args
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, c.Args...)
	}
	res, _ := ci.(ssa.Value)
	tainted := func(i int, why string) {
		if res == nil {
			return
		}
		if _, ok := res.Type().(*types.Tuple); !ok {
			a.taint(x, res, why)
			return
		}
		for _, r := range *res.Referrers() {
			if e, ok := r.(*ssa.Extract); ok && (i < 0 || e.Index == i) {
				if textual(e.Type()) || i >= 0 || emptyInterface(e.Type()) {
					a.taint(x, e, why)
				}
			}
		}
	}
	mask, why := "", ""
	for _, v := range args {
		if w := x.vals[v]; w != "" {
			mask += "1"
			why = w
		} else {
			mask += "0"
		}
	}
	name := calleeName(ci)
	if b, ok := c.Value.(*ssa.Builtin); ok {
		name = "builtin:" + b.Name()
	}
	if name == "os.Getenv" || name == "os.LookupEnv" {
		if k, ok := args[0].(*ssa.Const); ok && k.Value != nil && (secretName(k.Value.String()) || strings.Contains(k.Value.String(), "PGPASS")) {
			a.sources++
			tainted(0, "the environment variable "+k.Value.String())
		}
		return
	}
	// the functions of the module that may be called
	var fns []*ssa.Function
	external := false
	switch {
	case c.IsInvoke():
		fns = a.c.Implementations(c)
		n := namePkg(name)
		external = len(fns) == 0 || !strings.HasPrefix(n, Module) && n != ""
	case c.StaticCallee() != nil:
		f := c.StaticCallee()
		if f.Blocks != nil && a.c.inScope(f) {
			fns = []*ssa.Function{f}
		} else {
			external = true
		}
	default:
		if _, ok := c.Value.(*ssa.Builtin); ok {
			external = true
			break
		}
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			fns = []*ssa.Function{mc.Fn.(*ssa.Function)}
			break
		}
		for _, f := range a.c.addressTaken()[types.TypeString(dropRecv(c.Signature()), nil)] {
			if f.Blocks != nil && a.c.inScope(f) && len(f.Params) == len(args) {
				fns = append(fns, f)
			}
		}
		external = len(fns) == 0
	}
	for _, f := range fns {
		y := a.ctx(f, mask)
		for i := range y.ret {
			if f.Signature.Results().Len() == 1 {
				tainted(-2, "result of "+shortName(f.String()))
			} else {
				tainted(i, "result of "+shortName(f.String()))
			}
		}
		for i := range y.out {
			if i < len(args) {
				a.into(x, args[i], "filled by "+shortName(f.String()))
			}
		}
	}
	if !external || !strings.Contains(mask, "1") {
		return
	}
	switch secretUse(name) {
	case "none":
		return
	case "result":
		tainted(-1, why)
		if name == "builtin:copy" && mask[1] == '1' {
			a.into(x, args[0], why)
		}
		return
	case "receiver":
		if len(args) > 0 && strings.Contains(mask[1:], "1") {
			a.into(x, args[0], why)
		}
		if mask[0] == '1' {
			tainted(-1, why)
		}
		return
	case "fills":
		if mask[0] == '1' && x.vals[args[0]] != "" && textual(args[0].Type()) {
			// decoding a secret text: ends up in a field
		}
		return
	case "connects":
		if a.report {
			a.calls[a.c.siteName(ci)] = true
		}
		return
	}
	if a.report {
		if name == "" {
			name = "a function that is not known"
		}
		a.c.Fail("leak:"+shortName(x.key.fn.String())+":"+name, instrPos(ci), "a password may be passed to %s (%s)", name, why)
	}
}

func runS01(c *Ctx) {
	a := &secretA{c: c, fields: map[string]bool{}, globals: map[*ssa.Global]bool{}, free: map[*ssa.FreeVar]bool{}, cells: map[ssa.Value]bool{}, ctxs: map[secretKey]*secretCtx{}, holds: map[types.Type]int{}, calls: map[string]bool{}}
	for _, fn := range c.all {
		a.ctx(fn, strings.Repeat("0", len(fn.Params)))
	}
	for n := 0; ; n++ {
		a.changed = false
		for i := 0; i < len(a.order); i++ {
			a.step(a.order[i])
		}
		if !a.changed {
			break
		}
		if n > 200 || len(a.order) > 20000 {
			c.Fail("limit", token.NoPos, "the flow of passwords could not be determined")
			return
		}
	}
	a.report = true
	for i := 0; i < len(a.order); i++ {
		a.step(a.order[i])
	}
	// passwords are read at all, and used to connect
	sources, uses := 0, 0
	for _, fn := range c.all {
		c.Analysed(fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch v := in.(type) {
				case *ssa.FieldAddr:
					if !secretField(v.X.Type(), v.Field) {
						continue
					}
					sources++
					for _, r := range *v.Referrers() {
						switch u := r.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
							continue
						case ssa.CallInstruction:
							if f := u.Common().StaticCallee(); f != nil && f.Blocks != nil && c.inScope(f) {
								continue // followed into f
							}
						case *ssa.Store:
							if u.Addr == ssa.Value(v) {
								if _, konst := u.Val.(*ssa.Const); konst {
									if k := u.Val.(*ssa.Const); k.Value != nil && k.Value.ExactString() != `""` {
										c.Fail("constant:"+shortName(fn.String()), instrPos(u), "a password is part of the program")
									}
								}
								continue
							}
						}
						c.Fail("address:"+shortName(fn.String()), instrPos(in), "the address of a password is passed on by %s", fn)
					}
				case ssa.CallInstruction:
					n := calleeName(v)
					for _, x := range v.Common().Args {
						if a.contains(x.Type()) && secretUse(n) == "connects" {
							uses++
							c.OK("password used to connect", c.siteName(v))
						} else if a.contains(x.Type()) && v.Common().StaticCallee() != nil && !c.inScope(v.Common().StaticCallee()) {
							if i := namePkg(n); i != pgx && secretUse(n) == "" {
								c.Fail("passed:"+shortName(fn.String())+":"+n, instrPos(v), "a value that contains a password is passed to %s", n)
							}
						}
					}
				}
			}
		}
	}
	ids := map[string]bool{}
	for id := range a.fields {
		ids[id] = true
	}
	var list []string
	for id := range ids {
		list = append(list, id)
	}
	sort.Strings(list)
	for _, id := range list {
		c.OK("field that holds passwords followed", id)
	}
	if sources == 0 {
		c.Fail("anchor:password", token.NoPos, "no field for passwords was found")
	}
	// the command line
	ci := c.registration()
	for _, k := range sortedKeys(ci.opts) {
		o := ci.opts[k]
		parts := strings.Split(o.id, ".")
		if secretName(parts[len(parts)-1]) || a.fields[o.id] || secretName(o.name) {
			c.Fail("option:"+k, o.pos, "a password can be given on the command line with %s", o)
			continue
		}
		c.OK("option does not set a password", k)
	}
	c.Floor("password used to connect", 1)
	c.Floor("field that holds passwords followed", 1)
	c.Floor("option does not set a password", 10)
}

func init() {
	register(&Check{ID: "S01", Technique: "static analysis: interprocedural field-based taint analysis over SSA with call contexts, and type containment",
		Explanation: "Everything read from a field that is declared to hold a password, or from the environment variable for it, and every value of a type that contains such a field and is converted to the empty interface, is followed through the module. Any call of a library function that receives it, other than those that connect, decode into it, or compute with text, is reported, and so is any option of the command line that sets such a field.",
		Assumptions: []string{"pgx.Connect and its configuration methods do not log or print the password", "errors of jsonnet and of the JSON decoder do not quote the values of a runbook", "the eval command shows the runbook it is given, which is its purpose"},
		Run:         runS01})
}
