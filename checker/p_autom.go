package main

// The definition parsers of internal/ddl as automata. The compiled recogniser
// is turned into a transducer: a configuration is a place in its code at which
// it needs the next character, with the values that are still used; from there
// every one of the 256 bytes, and the end of the input, leads to exactly one
// next configuration, with an effect on the description being built. The
// configurations are finite, so the transducer is explored completely; it is
// compared step by step with the grammar.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// av is an abstract value of the recogniser.
type av struct {
	k     byte // i int, b bool, s string constant, n nil, p position, L length of the input, D the input, & address, l list, t term, f function
	i     int64
	s     string
	norms string // normalisations applied to a text
	items []av
}

func (v av) String() string {
	switch v.k {
	case 'i':
		return fmt.Sprint(v.i)
	case 'b':
		return fmt.Sprint(v.i != 0)
	case 's':
		return fmt.Sprintf("%q", v.s)
	case 'n':
		return "nil"
	case 'p':
		return fmt.Sprintf("@%d", v.i)
	case 'L':
		return "len(input)"
	case 'D':
		return "input"
	case 'l':
		var x []string
		for _, it := range v.items {
			x = append(x, it.String())
		}
		return v.s + "[" + strings.Join(x, ",") + "]"
	}
	s := v.s
	if v.k == '&' {
		s = "&" + s
	}
	if v.norms != "" {
		s = v.norms + "(" + s + ")"
	}
	return s
}

type autoFail struct {
	prop string // which property the problem concerns: "D02" or "" (not understood)
	key  string
	msg  string
	pos  token.Pos
}

// config is a place in the recogniser that needs a character.
type config struct {
	block  *ssa.BasicBlock
	idx    int
	env    map[ssa.Value]av
	filled map[string]bool // lists known to have an element
	max    int64           // the current position
}

type autom struct {
	c    *Ctx
	fn   *ssa.Function
	name string
	live *liveInfo
	pos  map[ssa.Value]bool // registers holding positions

	// one step
	sym    int // the character, -1 for the end, -2 not known
	cur    int64
	mem    map[string]av
	filled map[string]bool
	fresh  map[string]bool
	count  map[string]int
	steps  int
	at     ssa.Instruction

	calls map[string]bool
}

type paused struct {
	block *ssa.BasicBlock
	idx   int
	env   map[ssa.Value]av
	cur   int64
}

func (a *autom) fail(prop, key, format string, args ...interface{}) {
	pos := a.fn.Pos()
	if a.at != nil {
		pos = instrPos(a.at)
	}
	panic(autoFail{prop, key, fmt.Sprintf(format, args...), pos})
}

// positions finds the registers that hold positions in the input.
func (a *autom) positions() {
	parent := map[ssa.Value]ssa.Value{}
	var find func(v ssa.Value) ssa.Value
	find = func(v ssa.Value) ssa.Value {
		if parent[v] == nil || parent[v] == v {
			return v
		}
		r := find(parent[v])
		parent[v] = r
		return r
	}
	union := func(x, y ssa.Value) {
		if trackable(x) && trackable(y) {
			parent[find(x)] = find(y)
		}
	}
	var seeds []ssa.Value
	isD := func(v ssa.Value) bool { return len(a.fn.Params) > 0 && v == ssa.Value(a.fn.Params[0]) }
	for _, b := range a.fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				for _, e := range x.Edges {
					union(x, e)
				}
			case *ssa.BinOp:
				if x.Op == token.ADD || x.Op == token.SUB {
					if _, ok := x.Y.(*ssa.Const); ok {
						union(x, x.X)
					}
				}
			case *ssa.Lookup:
				if isD(x.X) {
					seeds = append(seeds, x.Index)
				}
			case *ssa.Index:
				if isD(x.X) {
					seeds = append(seeds, x.Index)
				}
			case *ssa.Slice:
				if isD(x.X) {
					seeds = append(seeds, x.Low, x.High)
				}
			}
		}
	}
	roots := map[ssa.Value]bool{}
	for _, s := range seeds {
		if s != nil && trackable(s) {
			roots[find(s)] = true
		}
	}
	a.pos = map[ssa.Value]bool{}
	for _, b := range a.fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok && roots[find(v)] {
				a.pos[v] = true
			}
		}
	}
}

func (a *autom) toPos(v av) av {
	if v.k == 'i' && v.i == 0 {
		return av{k: 'p', i: 0}
	}
	if v.k == 'i' {
		a.fail("", "position", "a fixed position other than the start of the input is used")
	}
	return v
}

type frameEnd struct {
	vals []av
}

func (a *autom) val(env map[ssa.Value]av, v ssa.Value) av {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if b, ok := x.Type().Underlying().(*types.Basic); ok {
				switch {
				case b.Info()&types.IsString != 0:
					return av{k: 's'}
				case b.Info()&types.IsBoolean != 0:
					return av{k: 'b'}
				case b.Info()&types.IsInteger != 0:
					return av{k: 'i'}
				}
			}
			return av{k: 'n'}
		}
		switch x.Value.Kind() {
		case constant.Int:
			n, _ := constant.Int64Val(x.Value)
			return av{k: 'i', i: n}
		case constant.Bool:
			if constant.BoolVal(x.Value) {
				return av{k: 'b', i: 1}
			}
			return av{k: 'b'}
		case constant.String:
			return av{k: 's', s: constant.StringVal(x.Value)}
		}
	case *ssa.Function:
		return av{k: 'f', s: x.String()}
	case *ssa.Global:
		return av{k: '&', s: "global " + x.String()}
	}
	r, ok := env[v]
	if !ok {
		a.fail("", "value", "a value of unknown origin (%s) is used", v.Name())
	}
	return r
}

func zeroAv(t types.Type) (av, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return av{k: 's'}, true
		case u.Info()&types.IsBoolean != 0:
			return av{k: 'b'}, true
		case u.Info()&types.IsInteger != 0:
			return av{k: 'i'}, true
		}
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature:
		return av{k: 'n'}, true
	}
	return av{}, false
}

func (a *autom) load(loc string, t types.Type) av {
	if v, ok := a.mem[loc]; ok {
		return v
	}
	root := loc
	if i := strings.IndexAny(loc, ".["); i >= 0 {
		root = loc[:i]
	}
	if a.fresh[root] {
		if z, ok := zeroAv(t); ok {
			return z
		}
	}
	return av{k: 't', s: loc}
}

// run executes from a place until the next character is needed or the
// function returns.
func (a *autom) run(fn *ssa.Function, b *ssa.BasicBlock, idx int, env map[ssa.Value]av, top bool) (end *frameEnd, p *paused) {
	var prev *ssa.BasicBlock
	for {
		if idx == 0 {
			// phis read their edges before any of them is written
			vals := map[ssa.Value]av{}
			n := 0
			for _, in := range b.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				n++
				for i, q := range b.Preds {
					if q == prev {
						v := a.val(env, phi.Edges[i])
						if top && a.pos[phi] {
							v = a.toPos(v)
						}
						vals[phi] = v
						break
					}
				}
			}
			for k, v := range vals {
				env[k] = v
			}
			idx = n
		}
		next := (*ssa.BasicBlock)(nil)
		for ; idx < len(b.Instrs); idx++ {
			in := b.Instrs[idx]
			a.at = in
			a.steps++
			if a.steps > 20000 {
				a.fail("D02", "loop", "the parser does not reach the next character: a loop consumes no input")
			}
			switch x := in.(type) {
			case *ssa.DebugRef:
			case *ssa.If:
				v := a.val(env, x.Cond)
				if v.k != 'b' {
					a.fail("", "branch", "a branch on a condition that is not understood (%s)", v)
				}
				next = b.Succs[0]
				if v.i == 0 {
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				end = &frameEnd{}
				for _, r := range x.Results {
					end.vals = append(end.vals, a.val(env, r))
				}
				return end, nil
			case *ssa.Panic:
				a.fail("D02", "panic", "the parser panics")
			case *ssa.Store:
				ad := a.val(env, x.Addr)
				a.store(ad, a.val(env, x.Val))
			case ssa.Value:
				v, need := a.eval(fn, x, env, top)
				if need {
					return nil, &paused{b, idx, env, a.cur}
				}
				env[x] = v
			default:
				a.fail("", "instruction", "the instruction %s is not understood", in)
			}
			if next != nil {
				break
			}
		}
		if next == nil {
			a.fail("", "block", "a block without an end")
		}
		prev, b, idx = b, next, 0
	}
}

func (a *autom) store(ad, v av) {
	switch {
	case ad.k == 'n':
		a.fail("D02", "nil", "the parser writes through a nil pointer")
	case ad.k != '&':
		a.fail("", "store", "a write through %s is not understood", ad)
	}
	if v.k == 't' && v.norms == "" && a.fresh[v.s] && v.s != ad.s {
		// a copy of an object
		a.reset(ad.s)
		for _, k := range sortedKeys(a.mem) {
			if strings.HasPrefix(k, v.s+".") {
				a.mem[ad.s+k[len(v.s):]] = a.mem[k]
			}
		}
		return
	}
	if v.k == 'n' && a.fresh[ad.s] && !strings.HasPrefix(ad.s, "list#") && !strings.HasPrefix(ad.s, "cell#") {
		// the zero value of a struct
		a.reset(ad.s)
		return
	}
	a.mem[ad.s] = v
	if v.k == 'l' && len(v.items) > 0 {
		a.filled[ad.s] = true
	} else {
		delete(a.filled, ad.s)
	}
}

// reset forgets what the fields of an object hold.
func (a *autom) reset(name string) {
	for _, k := range sortedKeys(a.mem) {
		if k == name || strings.HasPrefix(k, name+".") {
			delete(a.mem, k)
		}
	}
}

// nonEmpty decides whether a list has an element.
func (a *autom) nonEmpty(v av) bool {
	return v.k == 'l' && len(v.items) > 0 || v.k == 't' && a.filled[v.s]
}

func (a *autom) boolAv(b bool) (av, bool) {
	if b {
		return av{k: 'b', i: 1}, false
	}
	return av{k: 'b'}, false
}

func fieldLabel(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		return s.Field(i).Name()
	}
	return fmt.Sprint(i)
}

// eval computes a register; need is set when the next character is needed.
func (a *autom) eval(fn *ssa.Function, x ssa.Value, env map[ssa.Value]av, top bool) (r av, need bool) {
	switch x := x.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		base := "list"
		if n, ok := t.(*types.Named); ok {
			base = n.Obj().Name()
		} else if _, ok := t.Underlying().(*types.Array); !ok {
			base = "cell"
		}
		name := fmt.Sprintf("%s#%d", base, a.count[base])
		a.count[base]++
		a.fresh[name] = true
		for k := range a.mem {
			if strings.HasPrefix(k, name+".") || k == name {
				delete(a.mem, k)
			}
		}
		return av{k: '&', s: name}, false
	case *ssa.FieldAddr:
		b := a.val(env, x.X)
		switch {
		case b.k == 'n':
			a.fail("D02", "nil", "the parser uses a nil pointer")
		case b.k != '&' && b.k != 't':
			a.fail("", "address", "the address of a field of %s is not understood", b)
		}
		return av{k: '&', s: b.s + "." + fieldLabel(x.X.Type(), x.Field)}, false
	case *ssa.UnOp:
		v := a.val(env, x.X)
		switch x.Op {
		case token.MUL:
			if v.k == 'n' {
				a.fail("D02", "nil", "the parser reads through a nil pointer")
			}
			if v.k != '&' {
				a.fail("", "load", "a read through %s is not understood", v)
			}
			return a.load(v.s, x.Type()), false
		case token.NOT:
			if v.k == 'b' {
				return a.boolAv(v.i == 0)
			}
		case token.SUB:
			if v.k == 'i' {
				return av{k: 'i', i: -v.i}, false
			}
		}
	case *ssa.BinOp:
		return a.binop(x, a.val(env, x.X), a.val(env, x.Y), top)
	case *ssa.Lookup:
		return a.char(a.val(env, x.X), a.val(env, x.Index), top)
	case *ssa.Index:
		return a.char(a.val(env, x.X), a.val(env, x.Index), top)
	case *ssa.IndexAddr:
		b, i := a.val(env, x.X), a.val(env, x.Index)
		if b.k == '&' && i.k == 'i' {
			return av{k: '&', s: fmt.Sprintf("%s[%d]", b.s, i.i)}, false
		}
		if i.k == 't' && i.s == "last("+b.String()+")" {
			if !a.nonEmpty(b) {
				a.fail("D02", "index", "the last element of %s is used, which may have no elements", b)
			}
			if b.k == 'l' {
				a.mem["slot "+b.String()] = b.items[len(b.items)-1]
				return av{k: '&', s: "slot " + b.String()}, false
			}
			return av{k: '&', s: "last(" + b.s + ")"}, false
		}
		a.fail("", "index", "the element %s of %s is not understood", i, b)
	case *ssa.Slice:
		return a.slice(x, env), false
	case *ssa.Convert:
		v := a.val(env, x.X)
		if v.k == 'i' {
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return av{k: 's', s: string(rune(v.i))}, false
			}
		}
		return v, false
	case *ssa.ChangeType:
		return a.val(env, x.X), false
	case *ssa.MakeInterface:
		return a.val(env, x.X), false
	case *ssa.ChangeInterface:
		return a.val(env, x.X), false
	case *ssa.Extract:
		v := a.val(env, x.Tuple)
		if v.k == 'T' && x.Index < len(v.items) {
			return v.items[x.Index], false
		}
	case *ssa.Call:
		return a.call(fn, x, env), false
	}
	a.fail("", "instruction", "the instruction %s (%T) is not understood", x, x)
	return
}

// char reads a character of the input.
func (a *autom) char(d, i av, top bool) (av, bool) {
	if d.k == 's' && i.k == 'i' && i.i >= 0 && int(i.i) < len(d.s) {
		return av{k: 'i', i: int64(d.s[i.i])}, false
	}
	if d.k != 'D' {
		a.fail("", "read", "reading a character of %s is not understood", d)
	}
	i = a.toPos(i)
	if i.k == 'L' {
		a.fail("D02", "read", "the parser reads a character past the end of the input")
	}
	if i.k != 'p' {
		a.fail("", "read", "reading the character at %s is not understood", i)
	}
	return a.known(i, top, func() (av, bool) {
		if a.sym < 0 {
			a.fail("D02", "read", "the parser reads a character past the end of the input")
		}
		return av{k: 'i', i: int64(a.sym)}, false
	})
}

// known asks for the character at a position.
func (a *autom) known(i av, top bool, then func() (av, bool)) (av, bool) {
	switch {
	case i.i == a.cur && a.sym != -2:
		return then()
	case i.i == a.cur || i.i == a.cur+1 && a.sym >= 0:
		if !top {
			a.fail("", "read", "the input is read outside the parser function")
		}
		a.cur = i.i
		a.sym = -2
		return av{}, true
	case i.i > a.cur && a.sym == -1:
		a.fail("D02", "read", "the parser goes on after the end of the input")
	case i.i > a.cur:
		a.fail("D02", "skip", "the parser skips a character without looking at it, which may be past the end of the input")
	}
	a.fail("", "read", "the parser looks at an earlier character again")
	return av{}, false
}

func (a *autom) binop(x *ssa.BinOp, l, r av, top bool) (av, bool) {
	cmp := func(c int) (av, bool) {
		switch x.Op {
		case token.EQL:
			return a.boolAv(c == 0)
		case token.NEQ:
			return a.boolAv(c != 0)
		case token.LSS:
			return a.boolAv(c < 0)
		case token.LEQ:
			return a.boolAv(c <= 0)
		case token.GTR:
			return a.boolAv(c > 0)
		case token.GEQ:
			return a.boolAv(c >= 0)
		}
		a.fail("", "operator", "the operation %s is not understood", x)
		return av{}, false
	}
	switch {
	case l.k == 'L' && r.k == 'L':
		return cmp(0)
	case r.k == 'L' && (l.k == 'p' || l.k == 'i'):
		return a.toEnd(a.toPos(l), top, cmp, 1)
	case l.k == 'L' && (r.k == 'p' || r.k == 'i'):
		return a.toEnd(a.toPos(r), top, cmp, -1)
	}
	if l.k == 'p' || r.k == 'p' {
		if x.Op == token.ADD && l.k == 'p' && r.k == 'i' && r.i >= 0 {
			return av{k: 'p', i: l.i + r.i}, false
		}
		if x.Op == token.ADD && r.k == 'p' && l.k == 'i' && l.i >= 0 {
			return av{k: 'p', i: l.i + r.i}, false
		}
		if x.Op == token.SUB || x.Op == token.ADD {
			a.fail("", "position", "the position %s is not understood", x)
		}
		l, r = a.toPos(l), a.toPos(r)
		if l.k == 'p' && r.k == 'p' {
			return cmp(sign(l.i - r.i))
		}
	}
	if l.k == 'i' && r.k == 'i' {
		switch x.Op {
		case token.ADD:
			if top && a.pos[x] {
				l, r = a.toPos(l), r
				return av{k: 'p', i: l.i + r.i}, false
			}
			return av{k: 'i', i: l.i + r.i}, false
		case token.SUB:
			return av{k: 'i', i: l.i - r.i}, false
		case token.AND:
			return av{k: 'i', i: l.i & r.i}, false
		case token.OR:
			return av{k: 'i', i: l.i | r.i}, false
		case token.XOR:
			return av{k: 'i', i: l.i ^ r.i}, false
		}
		return cmp(sign(l.i - r.i))
	}
	if l.k == 's' && r.k == 's' {
		if x.Op == token.ADD {
			return av{k: 's', s: l.s + r.s}, false
		}
		return cmp(strings.Compare(l.s, r.s))
	}
	if l.k == 'b' && r.k == 'b' {
		return cmp(sign(l.i - r.i))
	}
	if l.k == 'n' && r.k == 'n' {
		return cmp(0)
	}
	if (l.k == 'n' && r.k == '&' || l.k == '&' && r.k == 'n') && (x.Op == token.EQL || x.Op == token.NEQ) {
		return cmp(1)
	}
	if x.Op == token.SUB && l.k == 't' && strings.HasPrefix(l.s, "len(") && r.k == 'i' && r.i == 1 {
		return av{k: 't', s: "last(" + l.s[4:]}, false
	}
	a.fail("", "operator", "the operation %s on %s and %s is not understood", x.Op, l, r)
	return av{}, false
}

func sign(n int64) int {
	switch {
	case n < 0:
		return -1
	case n > 0:
		return 1
	}
	return 0
}

// toEnd compares a position with the end of the input.
func (a *autom) toEnd(i av, top bool, cmp func(int) (av, bool), dir int) (av, bool) {
	if i.i < a.cur {
		return cmp(-dir)
	}
	if a.sym == -1 && i.i > a.cur {
		return cmp(dir)
	}
	return a.known(i, top, func() (av, bool) {
		if a.sym == -1 {
			return cmp(0)
		}
		return cmp(-dir)
	})
}

func (a *autom) slice(x *ssa.Slice, env map[ssa.Value]av) av {
	b := a.val(env, x.X)
	if b.k == 'D' {
		lo, hi := av{k: 'p'}, av{k: 'L'}
		if x.Low != nil {
			lo = a.toPos(a.val(env, x.Low))
		}
		if x.High != nil {
			hi = a.val(env, x.High)
			if hi.k != 'L' {
				hi = a.toPos(hi)
			}
		}
		if hi.k == 'L' && a.sym == -1 {
			hi = av{k: 'p', i: a.cur}
		}
		if lo.k == 'L' && a.sym == -1 {
			lo = av{k: 'p', i: a.cur}
		}
		if lo.k != 'p' || hi.k != 'p' && hi.k != 'L' {
			a.fail("", "slice", "a part of the input from %s to %s is not understood", lo, hi)
		}
		if hi.k == 'p' && lo.i > hi.i {
			a.fail("D02", "slice", "a part of the input is taken that ends before it starts")
		}
		if hi.k == 'p' && (hi.i > a.cur || hi.i == a.cur && a.sym == -2) {
			a.fail("D02", "slice", "a part of the input is taken that ends after the last character seen")
		}
		return av{k: 't', s: fmt.Sprintf("input[%s:%s]", lo, hi)}
	}
	if b.k == '&' && x.Low == nil && x.High == nil {
		if at, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if arr, ok := at.Elem().Underlying().(*types.Array); ok {
				l := av{k: 'l'}
				for i := int64(0); i < arr.Len(); i++ {
					l.items = append(l.items, a.load(fmt.Sprintf("%s[%d]", b.s, i), arr.Elem()))
				}
				return l
			}
		}
	}
	a.fail("", "slice", "the slice %s is not understood", x)
	return av{}
}

func withNorm(v av, n string) av {
	have := map[string]bool{n: true}
	for _, x := range strings.Split(v.norms, "+") {
		if x != "" {
			have[x] = true
		}
	}
	var l []string
	for k := range have {
		l = append(l, k)
	}
	sort.Strings(l)
	v.norms = strings.Join(l, "+")
	return v
}

// spaceRegexp tells whether a global is a pattern matching runs of spaces.
func (a *autom) spaceRegexp(g string) bool {
	for _, fn := range a.c.all {
		if fn.Name() != "init" && !strings.HasPrefix(fn.Name(), "init#") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || st.Addr.String() != g && "global "+st.Addr.String() != g {
					continue
				}
				call, ok := st.Val.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || call.Call.StaticCallee().String() != "regexp.MustCompile" {
					return false
				}
				k, ok := call.Call.Args[0].(*ssa.Const)
				if !ok {
					return false
				}
				p := constant.StringVal(k.Value)
				return p == `\s+` || p == `[\s]+` || p == `[ \t\n\r\f]+` || p == `\s\s*`
			}
		}
	}
	return false
}

func (a *autom) call(fn *ssa.Function, x *ssa.Call, env map[ssa.Value]av) av {
	if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
		var args []av
		for _, y := range x.Call.Args {
			args = append(args, a.val(env, y))
		}
		switch bi.Name() {
		case "len":
			switch args[0].k {
			case 'D':
				return av{k: 'L'}
			case 's':
				return av{k: 'i', i: int64(len(args[0].s))}
			}
			return av{k: 't', s: "len(" + args[0].String() + ")"}
		case "append":
			base, more := args[0], args[1]
			if more.k != 'l' || more.s != "" {
				a.fail("", "append", "appending %s is not understood", more)
			}
			l := av{k: 'l'}
			switch base.k {
			case 'n':
			case 't':
				l.s = base.s
			case 'l':
				l.s = base.s
				l.items = append(l.items, base.items...)
			default:
				a.fail("", "append", "appending to %s is not understood", base)
			}
			l.items = append(l.items, more.items...)
			return l
		}
		a.fail("", "call", "the call of %s is not understood", bi.Name())
	}
	callee := x.Call.StaticCallee()
	if callee == nil {
		a.fail("", "call", "a dynamic call is not understood")
	}
	var args []av
	for _, y := range x.Call.Args {
		args = append(args, a.val(env, y))
	}
	name := callee.String()
	a.calls[name] = true
	cell := func() string {
		if args[0].k == 'n' {
			a.fail("D02", "nil", "the parser uses a nil pointer")
		}
		if args[0].k != '&' {
			a.fail("", "call", "the buffer %s is not understood", args[0])
		}
		return args[0].s + " text"
	}
	text := func(c string) av {
		if v, ok := a.mem[c]; ok {
			return v
		}
		if a.fresh[args[0].s] {
			return av{k: 's'}
		}
		return av{k: 't', s: c}
	}
	add := func(c, s string) {
		v := text(c)
		if v.norms != "" {
			a.fail("", "call", "the buffer is not understood")
		}
		v.s += s
		if v.k == 't' {
			v.s = strings.Replace(v.s, s, "", 0)
		}
		a.mem[c] = v
	}
	switch name {
	case "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteRune", "(*strings.Builder).WriteRune":
		if args[1].k != 'i' {
			a.fail("", "call", "writing %s to the buffer is not understood", args[1])
		}
		s := string([]byte{byte(args[1].i)})
		if strings.HasSuffix(name, "Rune") {
			s = string(rune(args[1].i))
		}
		c := cell()
		if text(c).k == 't' {
			s = "+" + fmt.Sprintf("%q", s)
		}
		add(c, s)
		return av{k: 'T', items: []av{{k: 'i', i: 1}, {k: 'n'}}}
	case "(*bytes.Buffer).String", "(*strings.Builder).String":
		return text(cell())
	case "(*bytes.Buffer).Reset", "(*strings.Builder).Reset":
		a.mem[cell()] = av{k: 's'}
		return av{}
	case "(*bytes.Buffer).Truncate":
		if args[1].k == 'i' && args[1].i == 0 {
			a.mem[cell()] = av{k: 's'}
			return av{}
		}
	case "strings.TrimSpace":
		return withNorm(args[0], "trim")
	case "strings.ToUpper":
		return withNorm(args[0], "upper")
	case "strings.ToLower":
		return withNorm(args[0], "lower")
	case "strings.Fields":
		v := withNorm(args[0], "fields")
		return v
	case "strings.Join":
		if strings.Contains(args[0].norms, "fields") && args[1].k == 's' && args[1].s == " " {
			v := args[0]
			v.norms = strings.Trim(strings.Replace(v.norms, "fields", "", 1), "+")
			v.norms = strings.Replace(v.norms, "++", "+", -1)
			return withNorm(withNorm(v, "collapse"), "trim")
		}
	case "(*regexp.Regexp).ReplaceAllString":
		if args[0].k == 't' && args[2].k == 's' && args[2].s == " " && a.spaceRegexp(args[0].s) {
			return withNorm(args[1], "collapse")
		}
	}
	if a.c.inScope(callee) && callee.Blocks != nil {
		sub := map[ssa.Value]av{}
		for i, p := range callee.Params {
			sub[p] = args[i]
		}
		at := a.at
		a.c.Analysed(callee)
		end, _ := a.run(callee, callee.Blocks[0], 0, sub, false)
		a.at = at
		switch len(end.vals) {
		case 0:
			return av{}
		case 1:
			return end.vals[0]
		}
		return av{k: 'T', items: end.vals}
	}
	a.fail("", "call", "the call of %s is not understood", name)
	return av{}
}

// ---- the meaning of the grammars' actions

type textSpec struct {
	req, allow string // normalisations that must and may be applied
}

type defSpec struct {
	fn, obj string
	// action -> what it does
	text  map[string][2]string // set a field to the collected text: field, required normalisation
	list  map[string]string    // append the collected text to a field
	flag  map[string]string    // set a field to true
	key   map[string]string    // append a new key with this field
	last  map[string]string    // set this field of the last key
	mark  map[string]int
	final map[string][2]string // at acceptance: field, required normalisation of input[mark1:mark2]
}

var defSpecs = []defSpec{
	{fn: "ParseCheck", obj: "Check",
		flag:  map[string]string{"matchDeferrable": "Deferrable", "matchInitiallyDeferred": "InitiallyDeferred"},
		mark:  map[string]int{"setMark1": 1, "setMark2": 2},
		final: map[string][2]string{"Expression": {"trim", ""}}},
	{fn: "ParseForeignKey", obj: "ForeignKey",
		text: map[string][2]string{"setMatch": {"Match", "upper"}, "setOnDelete": {"OnDelete", "collapse+upper"}, "setOnUpdate": {"OnUpdate", "collapse+upper"}, "setTable": {"Table", ""}},
		list: map[string]string{"addColumn": "Columns", "addReferenced": "Referenced"},
		flag: map[string]string{"matchDeferrable": "Deferrable", "matchInitiallyDeferred": "InitiallyDeferred"}},
	{fn: "ParseIndex", obj: "Index",
		text: map[string][2]string{"setName": {"Name", ""}, "setTable": {"Table", ""}, "setUsing": {"Using", ""}, "setWhere": {"Where", "trim"}},
		key:  map[string]string{"addColumn": "Column", "addExpression": "Expression"},
		last: map[string]string{"setOpClass": "OpClass"},
		flag: map[string]string{"matchUnique": "Unique"}},
	{fn: "ParseTrigger", obj: "Trigger",
		text: map[string][2]string{"setFunction": {"Function", ""}, "setName": {"Name", ""}, "setTable": {"Table", ""}, "setWhen": {"When", "collapse+upper"}},
		list: map[string]string{"addColumn": "Columns"},
		flag: map[string]string{"matchConstraint": "Constraint", "matchDeferrable": "Deferrable", "matchInitiallyDeferred": "InitiallyDeferred",
			"matchForEachRow": "ForEachRow", "matchDelete": "Delete", "matchInsert": "Insert", "matchTruncate": "Truncate", "matchUpdate": "Update"}},
}

// effects of a list of grammar actions on a description, in the same terms as
// those of the recogniser.
func (sp *defSpec) effects(acts []rlAct, sym int, cur int64, marks *[3]int64) (map[string]av, string) {
	mem := map[string]av{}
	bufName := "Buffer#0 text"
	buf := func() av {
		if v, ok := mem[bufName]; ok {
			return v
		}
		return av{k: 't', s: bufName}
	}
	norm := func(v av, n string) av {
		if n != "" {
			for _, x := range strings.Split(n, "+") {
				v = withNorm(v, x)
			}
		}
		return v
	}
	obj := sp.obj + "#0."
	keys := 0
	for _, a := range acts {
		if a.name == "addToBuffer" {
			if sym < 0 {
				return nil, "an action uses a character at the end of the input"
			}
			v := buf()
			s := string([]byte{byte(sym)})
			if v.k == 't' {
				s = "+" + fmt.Sprintf("%q", s)
			}
			v.s += s
			mem[bufName] = v
			continue
		}
		if n, ok := sp.mark[a.name]; ok {
			marks[n] = cur
			continue
		}
		if f, ok := sp.flag[a.name]; ok {
			mem[obj+f] = av{k: 'b', i: 1}
			continue
		}
		app := func(f string, it av) {
			l, ok := mem[obj+f]
			if !ok {
				l = av{k: 'l', s: obj + f}
			}
			l.items = append(append([]av{}, l.items...), it)
			mem[obj+f] = l
		}
		if t, ok := sp.text[a.name]; ok {
			mem[obj+t[0]] = norm(buf(), t[1])
		} else if f, ok := sp.list[a.name]; ok {
			app(f, buf())
		} else if f, ok := sp.key[a.name]; ok {
			k := fmt.Sprintf("IndexKey#%d", keys)
			keys++
			mem[k+"."+f] = buf()
			app("Keys", av{k: '&', s: k})
		} else if f, ok := sp.last[a.name]; ok {
			loc := "last(" + obj + "Keys)." + f
			if l, ok := mem[obj+"Keys"]; ok {
				loc = l.items[len(l.items)-1].s + "." + f
			}
			mem[loc] = buf()
		} else {
			return nil, "the grammar action " + a.name + " is not known"
		}
		mem[bufName] = av{k: 's'}
	}
	return mem, ""
}

// agree compares a value with the expected one: further trimming and
// collapsing of collected tokens does not matter.
func agree(got, want av) bool {
	if got.k != want.k || got.i != want.i || got.s != want.s || len(got.items) != len(want.items) {
		return false
	}
	for i := range got.items {
		if !agree(got.items[i], want.items[i]) {
			return false
		}
	}
	have := map[string]bool{}
	for _, n := range strings.Split(got.norms, "+") {
		have[n] = n != ""
	}
	need := map[string]bool{}
	for _, n := range strings.Split(want.norms, "+") {
		if n == "" {
			continue
		}
		need[n] = true
		if !have[n] {
			return false
		}
	}
	input := strings.HasPrefix(got.s, "input[")
	for n, is := range have {
		if is && !need[n] && (input || n != "trim" && n != "collapse") {
			return false
		}
	}
	return true
}

type pairState struct {
	cf    *config
	rl    *rlState
	marks [3]int64
	via   *pairState
	sym   int
}

func (p *pairState) sample() string {
	var b []byte
	for q := p; q != nil && q.via != nil; q = q.via {
		if q.sym >= 0 {
			b = append([]byte{byte(q.sym)}, b...)
		}
	}
	return string(b)
}

type autoReport struct {
	lang, effect, safety []autoFail
	configs, steps       int
	actions              map[string]bool
	returns              int
}

func grammarOf(c *Ctx, fn *ssa.Function) (*rlMachine, string, error) {
	// generated code carries line directives: look at the package directory
	dir := filepath.Join(c.dir, strings.TrimPrefix(strings.TrimPrefix(fn.Pkg.Pkg.Path(), Module), "/"))
	l, _ := filepath.Glob(filepath.Join(dir, "*.rl"))
	sort.Strings(l)
	for _, f := range l {
		data, err := os.ReadFile(f)
		if err != nil {
			return nil, "", err
		}
		if strings.Contains(string(data), "func "+fn.Name()+"(") {
			m, err := parseRagel(string(data))
			return m, filepath.Base(f), err
		}
	}
	return nil, "", fmt.Errorf("no grammar file contains %s", fn.Name())
}

// explore runs a recogniser, with its grammar if there is one.
func explore(c *Ctx, sp *defSpec, m *rlMachine) *autoReport {
	rep := &autoReport{actions: map[string]bool{}}
	fn := c.Func(ddlPkg, sp.fn)
	if fn == nil || fn.Blocks == nil || len(fn.Params) != 1 || fn.Signature.Results().Len() != 2 {
		rep.safety = append(rep.safety, autoFail{"", "anchor:" + sp.fn, "the parser " + sp.fn + " was not found", token.NoPos})
		return rep
	}
	c.Analysed(fn)
	a := &autom{c: c, fn: fn, name: sp.fn, live: liveness(fn), calls: map[string]bool{}}
	a.positions()
	var live map[int]bool
	if m != nil {
		live = m.liveStates()
	}
	seen := map[string]bool{}
	reported := map[string]bool{}
	add := func(l *[]autoFail, f autoFail) {
		if !reported[f.key] {
			reported[f.key] = true
			*l = append(*l, f)
		}
	}
	var work []*pairState

	// one step from a configuration (nil: the start)
	step := func(from *pairState, sym int) {
		var cf *config
		if from != nil {
			cf = from.cf
		}
		a.mem = map[string]av{}
		a.fresh = map[string]bool{}
		a.count = map[string]int{}
		a.filled = map[string]bool{}
		a.steps = 0
		a.at = nil
		where := ""
		if from != nil {
			where = atInput(from.sample(), sym)
		}
		var marks [3]int64
		if from != nil {
			marks = from.marks
		}
		var nextRl *rlState
		var want map[string]av
		rejects, ends := false, false
		if m != nil && from != nil {
			var acts []rlAct
			if sym >= 0 {
				nextRl, acts = m.step(from.rl, byte(sym), live)
				rejects = nextRl == nil
			} else {
				ends, acts = m.accepts(from.rl)
				rejects = !ends
			}
			for _, x := range acts {
				rep.actions[x.name] = true
			}
			if !rejects {
				var why string
				want, why = sp.effects(acts, sym, cf.max, &marks)
				if why != "" {
					add(&rep.effect, autoFail{"D04", sp.fn + ":action", why, fn.Pos()})
					want = nil
				}
				if ends && want != nil {
					for f, n := range sp.final {
						v := av{k: 't', s: fmt.Sprintf("input[@%d:@%d]", marks[1], marks[2])}
						want[sp.obj+"#0."+f] = withNorm(v, n[0])
					}
				}
			}
		}
		var end *frameEnd
		var p *paused
		ok := func() (ok bool) {
			defer func() {
				if r := recover(); r != nil {
					f, is := r.(autoFail)
					if !is {
						panic(r)
					}
					f.key = sp.fn + ":" + f.key
					f.msg = sp.fn + " " + where + ": " + f.msg
					add(&rep.safety, f)
					ok = false
				}
			}()
			if cf == nil {
				a.cur, a.sym = 0, -2
				env := map[ssa.Value]av{fn.Params[0]: {k: 'D'}}
				end, p = a.run(fn, fn.Blocks[0], 0, env, true)
			} else {
				a.cur, a.sym = cf.max, sym
				for k := range cf.filled {
					a.filled[k] = true
				}
				env := map[ssa.Value]av{}
				for k, v := range cf.env {
					env[k] = v
				}
				end, p = a.run(fn, cf.block, cf.idx, env, true)
			}
			return true
		}()
		rep.steps++
		if !ok {
			return
		}
		pos := fn.Pos()
		if a.at != nil {
			pos = instrPos(a.at)
		}
		if end != nil {
			rep.returns++
			val, err := end.vals[0], end.vals[1]
			got := val.k == '&' && err.k == 'n'
			failed := val.k == 'n' && err.k == '&'
			switch {
			case !got && !failed:
				add(&rep.safety, autoFail{"D02", sp.fn + ":result", fmt.Sprintf("%s %s: the parser returns neither a description nor an error, or both (%s, %s)", sp.fn, where, val, err), pos})
				return
			case got && val.s != sp.obj+"#0":
				add(&rep.effect, autoFail{"D04", sp.fn + ":object", fmt.Sprintf("%s %s: the parser returns another object than the one it filled", sp.fn, where), pos})
			case got && sym >= 0:
				add(&rep.safety, autoFail{"D02", sp.fn + ":early", fmt.Sprintf("%s %s: a description is returned before the whole input was read", sp.fn, where), pos})
			case got && from == nil:
				add(&rep.safety, autoFail{"D02", sp.fn + ":early", fmt.Sprintf("%s: a description is returned without reading the input", sp.fn), pos})
			}
			if failed {
				// the error names the place
				var at, data *av
				for k, v := range a.mem {
					v := v
					if strings.HasPrefix(k, err.s+".") {
						switch v.k {
						case 'p', 'i', 'L':
							at = &v
						case 'D':
							data = &v
						}
					}
				}
				if at == nil || data == nil {
					add(&rep.safety, autoFail{"D03", sp.fn + ":where", fmt.Sprintf("%s %s: the error does not carry the input and the place of the problem", sp.fn, where), pos})
				} else if cf != nil && !(at.k == 'p' && at.i == cf.max || at.k == 'L' && sym == -1 || at.k == 'i' && at.i == 0 && cf.max == 0) {
					add(&rep.safety, autoFail{"D03", sp.fn + ":where", fmt.Sprintf("%s %s: the error names another place than the character that was not accepted", sp.fn, where), pos})
				}
			}
			if m == nil || from == nil {
				return
			}
			switch {
			case got && !ends && sym == -1:
				add(&rep.lang, autoFail{"D01", sp.fn + ":accepts", fmt.Sprintf("%s accepts %q, which its grammar does not describe", sp.fn, from.sample()), pos})
			case failed && ends:
				add(&rep.lang, autoFail{"D01", sp.fn + ":rejects", fmt.Sprintf("%s rejects %q, which its grammar describes", sp.fn, from.sample()), pos})
			case failed && sym >= 0 && !rejects:
				add(&rep.lang, autoFail{"D01", sp.fn + ":rejects", fmt.Sprintf("%s rejects definitions starting with %q, which its grammar describes", sp.fn, from.sample()+string([]byte{byte(sym)})), pos})
			case got && ends:
				compareEffects(rep, sp, a, want, where, pos, add)
			}
			return
		}
		// paused: at least one character was consumed, or this is the start
		if cf != nil && p.cur != cf.max+1 {
			add(&rep.safety, autoFail{"D02", sp.fn + ":loop", fmt.Sprintf("%s %s: the parser asks for the same character again", sp.fn, where), pos})
			return
		}
		if cf != nil && sym < 0 {
			add(&rep.safety, autoFail{"D02", sp.fn + ":read", fmt.Sprintf("%s %s: the parser goes on after the end of the input", sp.fn, where), pos})
			return
		}
		if m != nil {
			if from == nil {
				nextRl = m.initial(live)
			} else if rejects {
				add(&rep.lang, autoFail{"D01", sp.fn + ":accepts", fmt.Sprintf("%s goes on reading after %q, which no definition of its grammar starts with", sp.fn, from.sample()+string([]byte{byte(sym)})), pos})
				return
			}
			if from != nil {
				compareEffects(rep, sp, a, want, where, pos, add)
			}
		}
		// the next configuration
		n := &config{block: p.block, idx: p.idx, env: map[ssa.Value]av{}, filled: map[string]bool{}}
		lv := a.live.at(p.block, p.idx)
		held := map[int64]bool{p.cur: true}
		bad := false
		for v := range p.env {
			if !lv[v] {
				continue
			}
			x := p.env[v]
			switch x.k {
			case 'p':
				held[x.i] = true
			case 't', 'l', 'T':
				add(&rep.safety, autoFail{"", sp.fn + ":held", fmt.Sprintf("%s %s: a value (%s) is kept from one character to the next, which is not understood", sp.fn, where, x), pos})
				bad = true
			}
			n.env[v] = x
		}
		if bad {
			return
		}
		if m != nil {
			held[marks[1]], held[marks[2]] = true, true
		}
		ren := map[int64]int64{0: 0}
		var l []int64
		for h := range held {
			if h != 0 {
				l = append(l, h)
			}
		}
		sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
		for i, h := range l {
			ren[h] = int64(i + 1)
		}
		for v, x := range n.env {
			if x.k == 'p' {
				x.i = ren[x.i]
				n.env[v] = x
			}
		}
		n.max = ren[p.cur]
		var nm [3]int64
		if m != nil {
			nm = [3]int64{0, ren[marks[1]], ren[marks[2]]}
		}
		for k := range a.filled {
			root := k
			if i := strings.IndexAny(k, ".["); i >= 0 {
				root = k[:i]
			}
			if root == sp.obj+"#0" {
				n.filled[k] = true
			}
		}
		ps := &pairState{cf: n, rl: nextRl, marks: nm, via: from, sym: sym}
		k := configKey(n) + fmt.Sprint(nm)
		if nextRl != nil {
			k += nextRl.key()
		}
		if !seen[k] {
			seen[k] = true
			work = append(work, ps)
		}
	}
	step(nil, -2)
	for i := 0; i < len(work); i++ {
		if len(work) > 20000 {
			add(&rep.safety, autoFail{"", sp.fn + ":budget", sp.fn + " has too many configurations; the property is undecided", fn.Pos()})
			break
		}
		ps := work[i]
		for s := -1; s < 256; s++ {
			step(ps, s)
		}
	}
	rep.configs = len(work)
	return rep
}

func atInput(s string, sym int) string {
	if sym < 0 {
		return fmt.Sprintf("at the end of the input %q", s)
	}
	return fmt.Sprintf("after %q, reading %q", s, string([]byte{byte(sym)}))
}

func compareEffects(rep *autoReport, sp *defSpec, a *autom, want map[string]av, where string, pos token.Pos, add func(*[]autoFail, autoFail)) {
	if want == nil {
		return
	}
	got := map[string]av{}
	for k, v := range a.mem {
		if strings.HasPrefix(k, "list#") || strings.HasPrefix(k, "slot ") || strings.HasPrefix(k, "cell#") || strings.HasPrefix(k, "parseError#") {
			continue
		}
		root := k
		if i := strings.IndexAny(k, ".["); i >= 0 {
			root = k[:i]
		}
		if a.fresh[root] && (v.k == 's' && v.s == "" || v.k == 'b' && v.i == 0 || v.k == 'n') {
			continue
		}
		got[k] = v
	}
	got = canonical(got, sp.obj)
	keys := map[string]bool{}
	for k := range got {
		keys[k] = true
	}
	for k := range want {
		keys[k] = true
	}
	for _, k := range sortedKeys(keys) {
		g, gok := got[k]
		w, wok := want[k]
		same := func(v av) bool { return v.k == 't' && v.s == k && v.norms == "" }
		if !gok && same(w) || !wok && same(g) {
			continue
		}
		name := k
		switch {
		case k == "Buffer#0 text":
			name = "the collected text"
		case strings.Contains(k, "#"):
			name = strings.Replace(k, "#0", "", -1)
		}
		key := sp.fn + ":" + strings.TrimSuffix(strings.Replace(name, " ", "-", -1), "")
		switch {
		case gok && !wok:
			add(&rep.effect, autoFail{"D04", key, fmt.Sprintf("%s %s: %s is set to %s, which the grammar does not say", sp.fn, where, name, g), pos})
		case !gok:
			add(&rep.effect, autoFail{"D04", key, fmt.Sprintf("%s %s: %s is not set to %s", sp.fn, where, name, w), pos})
		case !agree(g, w):
			add(&rep.effect, autoFail{"D04", key, fmt.Sprintf("%s %s: %s is set to %s instead of %s", sp.fn, where, name, g, w), pos})
		}
	}
}

// canonical names new objects in the order in which they are referred to, and
// leaves out those that are not referred to.
func canonical(m map[string]av, obj string) map[string]av {
	names := map[string]string{}
	count := map[string]int{}
	root := func(k string) string {
		if strings.HasPrefix(k, "last(") {
			return ""
		}
		if i := strings.IndexAny(k, ".[ "); i >= 0 {
			k = k[:i]
		}
		if !strings.Contains(k, "#") || k == obj+"#0" || strings.HasPrefix(k, "Buffer#") || strings.HasPrefix(k, "Builder#") {
			return ""
		}
		return k
	}
	var rename func(v av) av
	rename = func(v av) av {
		if v.k == '&' {
			if r := root(v.s); r != "" {
				if names[r] == "" {
					base := r[:strings.Index(r, "#")]
					names[r] = fmt.Sprintf("%s#%d", base, count[base])
					count[base]++
				}
				v.s = names[r] + v.s[len(r):]
			}
		}
		if len(v.items) > 0 {
			var items []av
			for _, it := range v.items {
				items = append(items, rename(it))
			}
			v.items = items
		}
		return v
	}
	r := map[string]av{}
	done := map[string]bool{}
	for changed := true; changed; {
		changed = false
		for _, k := range sortedKeys(m) {
			if done[k] {
				continue
			}
			n := k
			if rt := root(k); rt != "" {
				if names[rt] == "" {
					continue
				}
				n = names[rt] + k[len(rt):]
			}
			done[k] = true
			changed = true
			r[n] = rename(m[k])
		}
	}
	return r
}

func configKey(n *config) string {
	var l []string
	for v, x := range n.env {
		l = append(l, v.Name()+"="+string(x.k)+x.String())
	}
	sort.Strings(l)
	return fmt.Sprintf("%d.%d %d %s %v ", n.block.Index, n.idx, n.max, strings.Join(l, " "), sortedKeys(n.filled))
}

func init() {
	run := func(c *Ctx, withGrammar bool, each func(sp *defSpec, m *rlMachine, rep *autoReport)) {
		for i := range defSpecs {
			sp := &defSpecs[i]
			var m *rlMachine
			if withGrammar {
				fn := c.Func(ddlPkg, sp.fn)
				if fn == nil {
					c.Fail("anchor:"+sp.fn, token.NoPos, "the parser %s was not found", sp.fn)
					continue
				}
				var err error
				var file string
				m, file, err = grammarOf(c, fn)
				if err != nil {
					c.Fail("grammar:"+sp.fn, fn.Pos(), "the grammar of %s was not understood: %v", sp.fn, err)
					continue
				}
				_ = file
			}
			rep := explore(c, sp, m)
			c.stats["parser configurations"] += rep.configs
			c.stats["parser steps"] += rep.steps
			each(sp, m, rep)
		}
	}
	report := func(c *Ctx, l []autoFail, props string) {
		for _, f := range l {
			if f.prop == "" || strings.Contains(props, f.prop) {
				c.Fail(f.key, f.pos, "%s", f.msg)
			}
		}
	}
	register(&Check{
		ID:          "D01",
		Technique:   "automaton extraction from SSA, lock-step comparison with the grammar",
		Explanation: "Every configuration of every compiled definition parser is explored for all 256 bytes and the end of input, in lock-step with the grammar file's machine: both accept and reject at the same places.",
		Assumptions: []string{"the grammar file next to the parser is the definition of its language", "ragel's operators mean what its manual says"},
		Run: func(c *Ctx) {
			run(c, true, func(sp *defSpec, m *rlMachine, rep *autoReport) {
				report(c, rep.lang, "D01")
				report(c, rep.safety, "D01")
				if rep.configs < 20 {
					c.Fail("floor:"+sp.fn, token.NoPos, "only %d configurations of %s were found", rep.configs, sp.fn)
				}
				c.OK("parser equivalent to its grammar", fmt.Sprintf("%s: %d configurations, %d steps", sp.fn, rep.configs, rep.steps))
			})
			c.Floor("parser equivalent to its grammar", 4)
		},
	})
	register(&Check{
		ID:          "D02",
		Technique:   "automaton extraction from SSA, dataflow over its configurations",
		Explanation: "Every configuration of every compiled definition parser is explored for all 256 bytes and the end of input: no read past the end, no slice with inverted bounds, no element of an empty list, progress in every step, and a description exactly at the end of the input.",
		Run: func(c *Ctx) {
			run(c, false, func(sp *defSpec, m *rlMachine, rep *autoReport) {
				report(c, rep.safety, "D02")
				if rep.configs < 20 {
					c.Fail("floor:"+sp.fn, token.NoPos, "only %d configurations of %s were found", rep.configs, sp.fn)
				}
				c.OK("parser ends without crashing", fmt.Sprintf("%s: %d configurations, %d steps", sp.fn, rep.configs, rep.steps))
			})
			c.Floor("parser ends without crashing", 4)
		},
	})
	register(&Check{
		ID:          "D03",
		Technique:   "automaton extraction from SSA; abstract interpretation of the error's text over positions in the input",
		Explanation: "Wherever one of the parsers fails, for every configuration and every byte, the error carries the input and the place of the character that was not accepted; and for every text and place, the error's text is the line around that place with a marker under it.",
		Assumptions: []string{"terminals show one column per character"},
		Run: func(c *Ctx) {
			run(c, true, func(sp *defSpec, m *rlMachine, rep *autoReport) {
				report(c, rep.safety, "D03")
				for _, f := range rep.lang {
					if f.key == sp.fn+":accepts" {
						c.Fail(f.key, f.pos, "%s", f.msg) // the problem is found too late
					}
				}
				c.OK("failures carry their place", fmt.Sprintf("%s: %d configurations, %d steps", sp.fn, rep.configs, rep.steps))
			})
			c.Floor("failures carry their place", 4)
			c.parseErrors()
		},
	})
	register(&Check{
		ID:          "D04",
		Technique:   "automaton extraction from SSA, lock-step comparison of effects with the grammar's actions",
		Explanation: "For every step of every compiled definition parser, the effect on the description, computed by symbolic execution of the actions and of the methods they call, is compared with what the grammar says happens at that place.",
		Assumptions: []string{"the grammar file next to the parser says which clause is where"},
		Run: func(c *Ctx) {
			run(c, true, func(sp *defSpec, m *rlMachine, rep *autoReport) {
				report(c, rep.effect, "D04")
				report(c, rep.safety, "D04")
				if len(rep.lang) > 0 {
					return // D01's business; the effects beyond it are not comparable
				}
				for _, mp := range []map[string]string{sp.list, sp.flag, sp.key, sp.last} {
					for act := range mp {
						if !rep.actions[act] {
							c.Fail("unused:"+sp.fn+":"+act, token.NoPos, "no definition of the grammar of %s leads to %s", sp.fn, act)
						}
					}
				}
				for act := range sp.text {
					if !rep.actions[act] {
						c.Fail("unused:"+sp.fn+":"+act, token.NoPos, "no definition of the grammar of %s leads to %s", sp.fn, act)
					}
				}
				for act := range rep.actions {
					c.OK("action compared", sp.fn+":"+act)
				}
			})
			c.Floor("action compared", 30)
		},
	})
}
