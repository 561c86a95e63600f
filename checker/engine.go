package main

// A path-sensitive forward dataflow engine over go/ssa.
//
// The engine computes, for one entry function, the set of abstract states
// that can reach every program point: registers and memory cells hold
// hash-consed terms (val.go), branch outcomes are kept as facts about terms,
// and states are partitioned by trace until they agree (a state that has been
// seen at a block entry is not explored again). Calls of functions of the
// repository are analysed in place, interface calls are resolved where the
// dynamic type is known, everything else is opaque and returns fresh unknowns.
// Loops reach a fixpoint because unknowns are identified by their site and the
// two most recent executions of it, and because numbers that change in a loop
// are widened. No constraint solver is involved: a branch is pruned only if a
// fact of the path decides it.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- client state

// P is the part of the state that belongs to the property.
type P struct {
	F map[string]string          // flags
	V map[string]*Val            // named values
	S map[string]map[*Val]string // named sets of values, with a tag each
}

func newP() *P {
	return &P{map[string]string{}, map[string]*Val{}, map[string]map[*Val]string{}}
}

func (p *P) clone() *P {
	q := newP()
	for k, v := range p.F {
		q.F[k] = v
	}
	for k, v := range p.V {
		q.V[k] = v
	}
	for k, s := range p.S {
		m := make(map[*Val]string, len(s))
		for v, t := range s {
			m[v] = t
		}
		q.S[k] = m
	}
	return q
}

func (p *P) put(set string, v *Val, tag string) {
	m := p.S[set]
	if m == nil {
		m = map[*Val]string{}
		p.S[set] = m
	}
	m[v] = tag
}

func (p *P) del(set string, v *Val) { delete(p.S[set], v) }

func (p *P) get(set string, v *Val) (string, bool) {
	t, ok := p.S[set][v]
	return t, ok
}

func (p *P) each(set string) []*Val {
	var r []*Val
	for v := range p.S[set] {
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

func (p *P) key(sb *strings.Builder) {
	var ks []string
	for k := range p.F {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(sb, "%s=%s;", k, p.F[k])
	}
	ks = ks[:0]
	for k := range p.V {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if p.V[k] != nil {
			fmt.Fprintf(sb, "%s:%d;", k, p.V[k].id)
		}
	}
	ks = ks[:0]
	for k := range p.S {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if len(p.S[k]) == 0 {
			continue
		}
		sb.WriteString(k + "{")
		for _, v := range p.each(k) {
			fmt.Fprintf(sb, "%d/%s,", v.id, p.S[k][v])
		}
		sb.WriteString("}")
	}
}

// ---------------------------------------------------------------- states

type deferRec struct {
	call ssa.CallInstruction
	fn   *Val
	args []*Val
	next *deferRec
}

type Frame struct {
	fn      *ssa.Function
	block   *ssa.BasicBlock
	pc      int
	regs    map[ssa.Value]*Val
	defers  *deferRec
	call    ssa.Instruction // call instruction in the caller; nil for the root
	isDefer bool
	ctx     int
	free    []*Val // closure bindings
	fresh   bool   // a block was just entered
}

type Trace struct {
	pos  token.Pos
	text string
	up   *Trace
}

type State struct {
	frames []*Frame
	mem    map[*Val]*Val
	facts  map[*Val]bool
	p      *P
	trace  *Trace
	seen   map[*Val]bool // generation-0 unknowns/allocations that may occur in the state
	root   string        // label of the analysed root (main or a goroutine)
	dead   bool          // a hook found that this cannot happen
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) clone() *State {
	t := &State{p: s.p.clone(), trace: s.trace, root: s.root}
	t.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		g := *f
		g.regs = make(map[ssa.Value]*Val, len(f.regs))
		for k, v := range f.regs {
			g.regs[k] = v
		}
		t.frames[i] = &g
	}
	t.mem = make(map[*Val]*Val, len(s.mem))
	for k, v := range s.mem {
		t.mem[k] = v
	}
	t.facts = make(map[*Val]bool, len(s.facts))
	for k, v := range s.facts {
		t.facts[k] = v
	}
	t.seen = make(map[*Val]bool, len(s.seen))
	for k := range s.seen {
		t.seen[k] = true
	}
	return t
}

// ---------------------------------------------------------------- events

// CallEvent describes a call that is about to be executed.
type CallEvent struct {
	st      *State
	instr   ssa.CallInstruction
	name    string        // canonical name of the callee
	fn      *ssa.Function // statically known callee, or nil
	invoke  bool
	fnVal   *Val
	args    []*Val // receiver first
	results int
	isDefer bool
	isGo    bool
}

// Hooks are the transfer functions a property adds.
type Hooks struct {
	// Opaque keeps a function of the repository from being analysed in place.
	Opaque func(st *State, fn *ssa.Function) bool
	// Call may handle a call completely: it returns the result (a tuple for
	// several) and true. Returning several outcomes is done via Fork.
	Call func(e *Engine, c *CallEvent) (*Val, bool)
	// AfterCall sees the results of calls that were not analysed in place.
	AfterCall func(e *Engine, c *CallEvent, res *Val)
	// AfterInline sees the results of calls that were analysed in place.
	AfterInline  func(e *Engine, st *State, fn *ssa.Function, call ssa.Instruction, args []*Val, res *Val)
	Store        func(e *Engine, st *State, in *ssa.Store, addr, val *Val)
	PreStore     func(e *Engine, st *State, in *ssa.Store, addr, val *Val)
	Load         func(e *Engine, st *State, in ssa.Instruction, addr, val *Val)
	MapUpdate    func(e *Engine, st *State, in *ssa.MapUpdate, m, k, v *Val)
	PreMapUpdate func(e *Engine, st *State, in *ssa.MapUpdate, m, k, v *Val)
	MapRead      func(e *Engine, st *State, in *ssa.Lookup, m, k, v *Val)
	Delete       func(e *Engine, st *State, in ssa.CallInstruction, m, k *Val)
	Send         func(e *Engine, st *State, in ssa.Instruction, ch, v *Val)
	Recv         func(e *Engine, st *State, in ssa.Instruction, ch, v, ok *Val)
	Close        func(e *Engine, st *State, in ssa.CallInstruction, ch *Val)
	Append       func(e *Engine, st *State, in ssa.CallInstruction, base, items, res *Val)
	Go           func(e *Engine, c *CallEvent)
	Select       func(e *Engine, st *State, in *ssa.Select, ready []int) // the cases that can happen; -1 is the default
	MakeChan     func(e *Engine, st *State, in *ssa.MakeChan, size *Val)
	Branch       func(e *Engine, st *State, in *ssa.If, cond *Val, taken bool)
	Return       func(e *Engine, st *State, in ssa.Instruction, res []*Val)
	Panic        func(e *Engine, st *State, in ssa.Instruction, v *Val)
	Deref        func(e *Engine, st *State, in ssa.Instruction, ptr *Val)
	RangeNext    func(e *Engine, st *State, in *ssa.Next, over, ok, k, v *Val)
	Enter        func(e *Engine, st *State, fn *ssa.Function, args []*Val)
	Block        func(e *Engine, st *State, b *ssa.BasicBlock)
}

type Finding struct {
	Key   string // rule and construct, independent of line numbers
	Msg   string
	Pos   token.Pos
	Trace []string
}

type Engine struct {
	ghostPhi  map[*ssa.Phi]bool // the counter that ghosts are related to, if ghostSign is set
	ghostSign int
	ghostMem  bool
	pr        *Program
	in        *Interner
	h         *Hooks
	work      []*State
	memo      map[string]struct{}
	ctxs      map[string]int
	live      map[*ssa.Function]*liveInfo
	budget    int
	steps     int
	states    int
	Funcs     map[*ssa.Function]bool
	Branches  map[*ssa.If]int
	exceeded  bool
	findings  map[string]*Finding
	renames   [][2]*Val // of the current instruction
	numSeen   map[string]map[int]bool
	roots     map[string]bool
	pending   []*State // roots (goroutines) still to be analysed
	counts    map[string]int
	sites     map[string]map[ssa.Instruction]bool
	forks     []*State
	pins      []*[]*Val // values held by the transfer function being executed
}

func NewEngine(pr *Program, h *Hooks) *Engine {
	return &Engine{
		pr: pr, in: pr.in, h: h,
		memo: map[string]struct{}{}, ctxs: map[string]int{"": 0},
		live: pr.live, budget: 3000000,
		Funcs: map[*ssa.Function]bool{}, Branches: map[*ssa.If]int{},
		findings: map[string]*Finding{}, numSeen: map[string]map[int]bool{},
		roots: map[string]bool{}, counts: map[string]int{},
		sites: map[string]map[ssa.Instruction]bool{},
	}
}

// Site records that an instance of a rule was decided at an instruction.
func (e *Engine) Site(rule string, in ssa.Instruction) {
	m := e.sites[rule]
	if m == nil {
		m = map[ssa.Instruction]bool{}
		e.sites[rule] = m
	}
	m[in] = true
}

func (e *Engine) Report(st *State, key string, pos token.Pos, format string, args ...interface{}) {
	if _, ok := e.findings[key]; ok {
		return
	}
	f := &Finding{Key: key, Msg: fmt.Sprintf(format, args...), Pos: pos}
	if st != nil {
		if pos == token.NoPos {
			for i := len(st.frames) - 1; i >= 0 && f.Pos == token.NoPos; i-- {
				f.Pos = st.frames[i].fn.Pos()
			}
		}
		for _, fr := range st.frames {
			f.Trace = append(f.Trace, "in "+fr.fn.String())
		}
		n := 0
		var steps []string
		for t := st.trace; t != nil && n < 40; t = t.up {
			steps = append(steps, e.pr.Pos(t.pos)+": "+t.text)
			n++
		}
		for i := len(steps) - 1; i >= 0; i-- {
			f.Trace = append(f.Trace, steps[i])
		}
	}
	e.findings[key] = f
}

func (st *State) note(pos token.Pos, format string, args ...interface{}) {
	st.trace = &Trace{pos, fmt.Sprintf(format, args...), st.trace}
}

// ---------------------------------------------------------------- running

// Start creates the state for a root function.
func (e *Engine) Start(fn *ssa.Function, args []*Val, p *P, label string) *State {
	st := &State{mem: map[*Val]*Val{}, facts: map[*Val]bool{}, p: p, seen: map[*Val]bool{}, root: label}
	if p == nil {
		st.p = newP()
	}
	fr := &Frame{fn: fn, regs: map[ssa.Value]*Val{}}
	for i, prm := range fn.Params {
		if i < len(args) && args[i] != nil {
			fr.regs[prm] = args[i]
		} else {
			fr.regs[prm] = e.in.mk(OpParam, prm.Type(), ssa.Value(prm))
		}
	}
	for _, fv := range fn.FreeVars {
		fr.free = append(fr.free, e.in.mk(OpParam, fv.Type(), ssa.Value(fv)))
	}
	st.frames = []*Frame{fr}
	e.enterFunc(st, fr)
	return st
}

func (e *Engine) enterFunc(st *State, fr *Frame) {
	e.Funcs[fr.fn] = true
	for i, fv := range fr.fn.FreeVars {
		fr.regs[fv] = fr.free[i]
	}
	fr.block = fr.fn.Blocks[0]
	fr.pc = 0
	fr.fresh = true
	if e.h.Enter != nil {
		var args []*Val
		for _, p := range fr.fn.Params {
			args = append(args, fr.regs[p])
		}
		e.h.Enter(e, st, fr.fn, args)
	}
}

func (e *Engine) Run(states ...*State) {
	for _, s := range states {
		e.states++
		e.work = append(e.work, s)
	}
	for len(e.work) > 0 {
		st := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		e.runState(st)
		if e.steps > e.budget {
			e.exceeded = true
			e.work = nil
		}
	}
}

// AddRoot schedules a goroutine body: it is analysed with a snapshot of the
// memory at the go statement.
func (e *Engine) AddRoot(from *State, fn *Val, args []*Val, label string, p *P) bool {
	f, free := e.callable(fn)
	if f == nil || f.Blocks == nil {
		return false
	}
	st := from.clone()
	st.frames = nil
	st.root = label
	st.p = p
	if p == nil {
		st.p = newP()
	}
	fr := &Frame{fn: f, regs: map[ssa.Value]*Val{}, free: free}
	for i, prm := range f.Params {
		fr.regs[prm] = args[i]
	}
	st.frames = []*Frame{fr}
	e.enterFunc(st, fr)
	e.prune(st)
	k := "root|" + label + "|" + e.key(st)
	if e.roots[k] {
		return true
	}
	e.roots[k] = true
	e.states++
	e.work = append(e.work, st)
	return true
}

func (e *Engine) callable(fn *Val) (*ssa.Function, []*Val) {
	switch fn.op {
	case OpFunc:
		return fn.aux.(*ssa.Function), nil
	case OpClosure:
		return fn.aux.(*ssa.Function), fn.a
	case OpConv, OpIface:
		return e.callable(fn.a[0])
	}
	return nil, nil
}

// runState executes one state until it ends or is merged.
func (e *Engine) runState(st *State) {
	for {
		fr := st.top()
		if fr.fresh {
			fr.fresh = false
			if !e.blockEntry(st, fr) {
				return
			}
		}
		e.steps++
		if e.steps > e.budget {
			return
		}
		in := fr.block.Instrs[fr.pc]
		cont := e.step(st, fr, in)
		for _, f := range e.forks {
			if f.dead {
				continue
			}
			e.states++
			e.work = append(e.work, f)
		}
		e.forks = e.forks[:0]
		if !cont || st.dead {
			return
		}
	}
}

// blockEntry prunes and memoizes; false if the state has been seen.
func (e *Engine) blockEntry(st *State, fr *Frame) bool {
	b := fr.block
	if e.h.Block != nil {
		e.h.Block(e, st, b)
	}
	if len(b.Preds) < 2 {
		return true
	}
	e.prune(st)
	k := e.key(st)
	if _, ok := e.memo[k]; ok {
		return false
	}
	e.memo[k] = struct{}{}
	return true
}

func (e *Engine) key(st *State) string {
	var sb strings.Builder
	sb.WriteString(st.root)
	for _, fr := range st.frames {
		fmt.Fprintf(&sb, "|%p.%d.%d.%d[", fr.fn, fr.block.Index, fr.pc, fr.ctx)
		type rv struct {
			n string
			v *Val
		}
		var rs []rv
		for r, v := range fr.regs {
			rs = append(rs, rv{r.Name(), v})
		}
		sort.Slice(rs, func(i, j int) bool { return rs[i].n < rs[j].n })
		for _, r := range rs {
			fmt.Fprintf(&sb, "%s:%d,", r.n, r.v.id)
		}
		for d := fr.defers; d != nil; d = d.next {
			fmt.Fprintf(&sb, "d%p", d.call)
			for _, a := range d.args {
				fmt.Fprintf(&sb, ",%d", a.id)
			}
			if d.fn != nil {
				fmt.Fprintf(&sb, ",f%d", d.fn.id)
			}
		}
		sb.WriteString("]")
	}
	var ms []string
	for a, v := range st.mem {
		ms = append(ms, fmt.Sprintf("%d=%d", a.id, v.id))
	}
	sort.Strings(ms)
	sb.WriteString("M" + strings.Join(ms, ","))
	ms = ms[:0]
	for a, v := range st.facts {
		if v {
			ms = append(ms, fmt.Sprintf("%d", a.id))
		} else {
			ms = append(ms, fmt.Sprintf("!%d", a.id))
		}
	}
	sort.Strings(ms)
	sb.WriteString("F" + strings.Join(ms, ","))
	sb.WriteString("P")
	st.p.key(&sb)
	return sb.String()
}

// ---------------------------------------------------------------- values

func (e *Engine) operand(st *State, fr *Frame, v ssa.Value) *Val {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return e.zero(x.Type())
		}
		return e.in.Const(x.Type(), x.Value)
	case *ssa.Global:
		return e.in.mk(OpGlobal, x.Type(), x)
	case *ssa.Function:
		return e.in.mk(OpFunc, x.Type(), x)
	case *ssa.Builtin:
		return e.in.mk(OpBuiltin, x.Type(), x)
	}
	r := fr.regs[v]
	if r == nil {
		// a register that was pruned by mistake would be an engine error
		panic(fmt.Sprintf("engine: no value for %s = %s in %s", v.Name(), v, fr.fn))
	}
	return r
}

func (e *Engine) zero(t types.Type) *Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.in.Const(t, constant.MakeBool(false))
		case u.Info()&types.IsString != 0:
			return e.in.Const(t, constant.MakeString(""))
		case u.Info()&types.IsInteger != 0:
			return e.in.Const(t, constant.MakeInt64(0))
		case u.Info()&types.IsFloat != 0:
			return e.in.Const(t, constant.MakeFloat64(0))
		}
		if u.Kind() == types.UntypedNil {
			return e.in.Nil()
		}
		return e.in.mk(OpZero, t, "zero")
	case *types.Struct, *types.Array, *types.Tuple:
		return e.in.mk(OpZero, t, "zero")
	}
	return e.in.Nil()
}

func (e *Engine) cbool(b bool) *Val { return e.in.Const(types.Typ[types.Bool], constant.MakeBool(b)) }
func (e *Engine) cint(i int64) *Val { return e.in.Const(types.Typ[types.Int], constant.MakeInt64(i)) }
func (e *Engine) cstr(s string) *Val {
	return e.in.Const(types.Typ[types.String], constant.MakeString(s))
}

// fresh makes the unknown for this execution of a site. An unknown of an
// earlier execution that is still in use becomes the "previous" one.
func (e *Engine) fresh(st *State, kind string, site interface{}, idx int, typ types.Type, args ...*Val) *Val {
	return e.freshOp(st, OpSym, kind, site, idx, typ, args...)
}

func (e *Engine) freshOp(st *State, op Op, kind string, site interface{}, idx int, typ types.Type, args ...*Val) *Val {
	ctx := 0
	if len(st.frames) > 0 {
		ctx = st.top().ctx
	}
	k0 := symKey{kind, site, ctx, idx, 0}
	// args take part in the identity, so that k1/v1 of different maps differ
	v0 := e.in.mk(op, typ, k0, args...)
	if st.seen[v0] {
		k1 := k0
		k1.gen = 1
		v1 := e.in.mk(op, typ, k1, args...)
		e.rename(st, v0, v1)
	}
	st.seen[v0] = true
	return v0
}

// substitute rebuilds v with from replaced by to.
func (e *Engine) subst(v, from, to *Val, memo map[*Val]*Val) *Val {
	if v == from {
		return to
	}
	if len(v.a) == 0 || v.id < from.id {
		return v
	}
	if r, ok := memo[v]; ok {
		return r
	}
	changed := false
	args := make([]*Val, len(v.a))
	for i, x := range v.a {
		args[i] = e.subst(x, from, to, memo)
		if args[i] != x {
			changed = true
		}
	}
	r := v
	if changed {
		if v.op == OpBin && args[1].op != OpConst && args[0].id > args[1].id {
			switch v.aux {
			case token.EQL:
				args[0], args[1] = args[1], args[0]
			case token.ADD, token.MUL:
				if isIntTyped(v.typ) {
					args[0], args[1] = args[1], args[0]
				}
			}
		}
		r = e.in.mk(v.op, v.typ, v.aux, args...)
	}
	memo[v] = r
	return r
}

// cur is what a value that was read at the beginning of the current
// instruction is called now.
func (e *Engine) cur(v *Val) *Val {
	if v == nil {
		return nil
	}
	for _, r := range e.renames {
		v = e.subst(v, r[0], r[1], map[*Val]*Val{})
	}
	return v
}

func (e *Engine) rename(st *State, from, to *Val) {
	e.renames = append(e.renames, [2]*Val{from, to})
	memo := map[*Val]*Val{}
	f := func(v *Val) *Val {
		if v == nil {
			return nil
		}
		return e.subst(v, from, to, memo)
	}
	// "to" may be in use already (by the execution before the previous one):
	// then it stands for either, and only what holds for both is kept
	merged := map[*Val]bool{}
	newSeen := map[*Val]bool{to: true}
	for v := range st.seen {
		n := f(v)
		if n != v && st.seen[n] {
			merged[n] = true
		}
		newSeen[n] = true
	}
	isMerged := func(v *Val) bool {
		return len(merged) > 0 && anyIn(v, func(x *Val) bool { return merged[x] })
	}
	newFacts := make(map[*Val]bool, len(st.facts))
	for a, b := range st.facts {
		na := f(a)
		if isMerged(na) {
			if na == a {
				continue // kept through its renamed counterpart, if any
			}
			if o, ok := st.facts[na]; !ok || o != b {
				continue
			}
		}
		newFacts[na] = b
	}
	st.facts = newFacts
	newMem := make(map[*Val]*Val, len(st.mem))
	for a, v := range st.mem {
		na, nv := f(a), f(v)
		if isMerged(na) {
			if na == a {
				if _, ok := newMem[na]; ok {
					continue
				}
				// no counterpart, or one that is visited later
				newMem[na] = e.in.mk(OpSym, v.typ, symKey{"merged", a, 0, 0, 0})
				continue
			}
			if o, ok := st.mem[na]; !ok || f(o) != nv {
				nv = e.in.mk(OpSym, v.typ, symKey{"merged", na, 0, 0, 0})
			}
		}
		newMem[na] = nv
	}
	st.mem = newMem
	for _, fr := range st.frames {
		for r, v := range fr.regs {
			fr.regs[r] = f(v)
		}
		for i := range fr.free {
			if n := f(fr.free[i]); n != fr.free[i] {
				free := append([]*Val(nil), fr.free...)
				free[i] = n
				fr.free = free
			}
		}
		var nd []*deferRec
		for d := fr.defers; d != nil; d = d.next {
			c := *d
			c.fn = f(d.fn)
			c.args = nil
			for _, a := range d.args {
				c.args = append(c.args, f(a))
			}
			nd = append(nd, &c)
		}
		for i := range nd {
			if i+1 < len(nd) {
				nd[i].next = nd[i+1]
			} else {
				nd[i].next = nil
			}
		}
		if len(nd) > 0 {
			fr.defers = nd[0]
		}
	}
	for k, v := range st.p.V {
		st.p.V[k] = f(v)
	}
	for k, s := range st.p.S {
		m := make(map[*Val]string, len(s))
		for v, t := range s {
			n := f(v)
			if o, ok := m[n]; ok && o < t {
				continue
			}
			m[n] = t
		}
		st.p.S[k] = m
	}
	st.seen = newSeen
	for _, p := range e.pins {
		for i := range *p {
			(*p)[i] = f((*p)[i])
		}
	}
}

// ---------------------------------------------------------------- facts

// canon brings a condition into a canonical form.
func (e *Engine) canon(v *Val) (atom *Val, neg bool) {
	for v.op == OpUn && v.aux == token.NOT {
		v = v.a[0]
		neg = !neg
	}
	return v, neg
}

func isIntTyped(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// lin splits x + k.
func (e *Engine) lin(v *Val) (*Val, int64) {
	if v.op == OpBin && v.aux == token.ADD {
		if k, ok := constInt(v.a[1]); ok {
			return v.a[0], k
		}
	}
	return v, 0
}

// binop builds the canonical term for x op y.
func (e *Engine) binop(op token.Token, x, y *Val, xt types.Type, rt types.Type) *Val {
	cx, okx := constVal(x)
	cy, oky := constVal(y)
	switch op {
	case token.EQL, token.NEQ:
		neg := op == token.NEQ
		r := e.equal(x, y)
		if r == nil {
			a, b := x, y
			if isIntTyped(xt) {
				ax, ka := e.lin(a)
				if k, ok := constInt(b); ok && ka != 0 {
					a, b = ax, e.cint(k-ka)
				} else if bx, kb := e.lin(b); kb != 0 {
					if k, ok := constInt(a); ok {
						a, b = e.cint(k-kb), bx
					}
				}
			}
			if a.op == OpConst || (b.op != OpConst && a.id > b.id) {
				a, b = b, a
			}
			if c, ok := constBool(b); ok {
				// x == true
				r = a
				if !c {
					r = e.not(a)
				}
			} else {
				r = e.in.mk(OpBin, types.Typ[types.Bool], token.EQL, a, b)
			}
		}
		if neg {
			return e.not(r)
		}
		return r
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if okx && oky && cx != nil && cy != nil {
			return e.cbool(constant.Compare(cx, op, cy))
		}
		if !isIntTyped(xt) {
			switch op {
			case token.LSS:
				return e.in.mk(OpBin, types.Typ[types.Bool], token.LSS, x, y)
			case token.GTR:
				return e.in.mk(OpBin, types.Typ[types.Bool], token.LSS, y, x)
			case token.LEQ:
				return e.not(e.in.mk(OpBin, types.Typ[types.Bool], token.LSS, y, x))
			}
			return e.not(e.in.mk(OpBin, types.Typ[types.Bool], token.LSS, x, y))
		}
		switch op {
		case token.GTR:
			return e.lss(y, x)
		case token.LEQ:
			return e.not(e.lss(y, x))
		case token.GEQ:
			return e.not(e.lss(x, y))
		}
		return e.lss(x, y)
	}
	if okx && oky && cx != nil && cy != nil {
		if r := foldBin(op, cx, cy, rt); r != nil {
			return e.in.Const(rt, r)
		}
	}
	if isIntTyped(rt) {
		// x + k in canonical form
		if op == token.SUB && oky && cy != nil && cy.Kind() == constant.Int {
			k, _ := constant.Int64Val(cy)
			return e.binop(token.ADD, x, e.cint(-k), xt, rt)
		}
		if op == token.ADD {
			if okx && !oky {
				x, y = y, x
				oky, cy = okx, cx
			}
			if k, ok := constInt(y); ok {
				b, kb := e.lin(x)
				if b.op == OpConst {
					break_, _ := constInt(b)
					return e.cint(break_ + kb + k)
				}
				if kb+k == 0 {
					return b
				}
				return e.in.mk(OpBin, rt, token.ADD, b, e.cint(kb+k))
			}
			if x.id > y.id {
				x, y = y, x
			}
		}
		if op == token.SUB && x == y {
			return e.cint(0)
		}
		if op == token.MUL && x.id > y.id {
			x, y = y, x
		}
	}
	if op == token.ADD && isStr(rt) {
		if s, ok := constStr(x); ok && s == "" {
			return y
		}
		if s, ok := constStr(y); ok && s == "" {
			return x
		}
	}
	return e.in.mk(OpBin, rt, op, x, y)
}

func isStr(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func foldBin(op token.Token, x, y constant.Value, t types.Type) (r constant.Value) {
	defer func() {
		if recover() != nil {
			r = nil
		}
	}()
	switch op {
	case token.SHL, token.SHR:
		s, ok := constant.Uint64Val(y)
		if !ok || s > 100 {
			return nil
		}
		return constant.Shift(x, op, uint(s))
	case token.QUO:
		if isIntTyped(t) {
			if constant.Sign(y) == 0 {
				return nil
			}
			return constant.BinaryOp(x, token.QUO_ASSIGN, y)
		}
	}
	return constant.BinaryOp(x, op, y)
}

// lss is x < y over integers, normalised to term < constant where possible.
func (e *Engine) lss(x, y *Val) *Val {
	bt := types.Typ[types.Bool]
	if x == y {
		return e.cbool(false)
	}
	if k, ok := constInt(y); ok {
		b, kb := e.lin(x)
		if c, ok := constInt(b); ok {
			return e.cbool(c+kb < k)
		}
		return e.in.mk(OpBin, bt, token.LSS, b, e.cint(k-kb))
	}
	if k, ok := constInt(x); ok {
		// k < y  <=>  !(y < k+1)
		b, kb := e.lin(y)
		return e.not(e.in.mk(OpBin, bt, token.LSS, b, e.cint(k+1-kb)))
	}
	bx, kx := e.lin(x)
	by, ky := e.lin(y)
	if bx == by {
		return e.cbool(kx < ky)
	}
	if kx != 0 && ky != 0 {
		kx -= ky
		ky = 0
	}
	// bx + kx < by + ky, move the constant to the left
	if ky != 0 {
		kx -= ky
	}
	l := bx
	if kx != 0 {
		l = e.in.mk(OpBin, bx.typ, token.ADD, bx, e.cint(kx))
	}
	return e.in.mk(OpBin, bt, token.LSS, l, by)
}

func (e *Engine) not(v *Val) *Val {
	if b, ok := constBool(v); ok {
		return e.cbool(!b)
	}
	if v.op == OpUn && v.aux == token.NOT {
		return v.a[0]
	}
	return e.in.mk(OpUn, types.Typ[types.Bool], token.NOT, v)
}

// equal decides x == y structurally; nil if undecided.
func (e *Engine) equal(x, y *Val) *Val {
	if x == y {
		return e.cbool(true)
	}
	if x.op == OpConst && y.op == OpConst {
		cx, _ := constVal(x)
		cy, _ := constVal(y)
		if cx == nil || cy == nil {
			return e.cbool(cx == nil && cy == nil)
		}
		if cx.Kind() == cy.Kind() || numeric(cx) && numeric(cy) {
			return e.cbool(constant.Compare(cx, token.EQL, cy))
		}
	}
	if t, ok := constStr(x); ok {
		if _, ok := constStr(y); !ok && !textFits(y, t) {
			return e.cbool(false)
		}
	} else if t, ok := constStr(y); ok && !textFits(x, t) {
		return e.cbool(false)
	}
	if isNilConst(y) {
		x, y = y, x
	}
	if isNilConst(x) && neverNil(y) {
		return e.cbool(false)
	}
	if x.op == OpAlloc && y.op == OpAlloc {
		return nil
	}
	return nil
}

// textFits: the concatenation may be the text t.
func textFits(v *Val, t string) bool {
	if v.op != OpBin || v.aux != token.ADD {
		return true
	}
	if s, ok := constStr(v.a[1]); ok {
		return strings.HasSuffix(t, s) && textFits(v.a[0], t[:len(t)-len(s)])
	}
	if s, ok := constStr(v.a[0]); ok {
		return strings.HasPrefix(t, s) && textFits(v.a[1], t[len(s):])
	}
	return true
}

func numeric(c constant.Value) bool {
	return c.Kind() == constant.Int || c.Kind() == constant.Float
}

func neverNil(v *Val) bool {
	switch v.op {
	case OpAlloc, OpFieldAddr, OpIndexAddr, OpFunc, OpClosure, OpGlobal, OpIface:
		return true
	case OpConv:
		return neverNil(v.a[0])
	case OpSym:
		k := v.aux.(symKey).kind
		return strings.HasPrefix(k, "make:") || k == "nonnil" || strings.HasPrefix(k, "nonnil:")
	case OpSlice:
		return v.a[0].op == OpAlloc
	case OpPure:
		return strings.HasPrefix(v.aux.(string), "nonnil:")
	}
	return false
}

// Decide evaluates a condition under the facts of the path:
// 1 true, 0 false, -1 unknown.
func (e *Engine) Decide(st *State, cond *Val) int {
	if b, ok := constBool(cond); ok {
		if b {
			return 1
		}
		return 0
	}
	atom, neg := e.canon(cond)
	r := e.decideAtom(st, atom)
	if r >= 0 && neg {
		r = 1 - r
	}
	return r
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (e *Engine) decideAtom(st *State, a *Val) int {
	if b, ok := constBool(a); ok {
		return b2i(b)
	}
	if b, ok := st.facts[a]; ok {
		return b2i(b)
	}
	if a.op != OpBin {
		return -1
	}
	x, y := a.a[0], a.a[1]
	switch a.aux {
	case token.EQL:
		if y.op == OpConst {
			// another constant?
			for f, b := range st.facts {
				if b && f.op == OpBin && f.aux == token.EQL && f.a[0] == x && f.a[1].op == OpConst && f.a[1] != y {
					if r := e.equal(f.a[1], y); r != nil {
						if c, ok := constBool(r); ok && !c {
							return 0
						}
					}
				}
			}
			if k, ok := constInt(y); ok {
				lo, hi := e.interval(st, x)
				if k < lo || k > hi {
					return 0
				}
				if lo == hi && lo == k {
					return 1
				}
			}
			if isNilConst(y) {
				if e.KnownNil(st, x) {
					return 1
				}
				// values derived from it
				if x.op == OpConv || x.op == OpSlice && false {
					return e.decideAtom(st, e.in.mk(OpBin, a.typ, token.EQL, x.a[0], y))
				}
			}
			if s, ok := constStr(y); ok {
				// x == "" and len(x)
				lo, hi := e.interval(st, e.lenOf(x))
				n := int64(len(s))
				if n < lo || n > hi {
					return 0
				}
				if n == 0 && hi == 0 {
					return 1
				}
			}
		}
	case token.LSS:
		if k, ok := constInt(y); ok {
			lo, hi := e.interval(st, x)
			if hi < k {
				return 1
			}
			if lo >= k {
				return 0
			}
		} else {
			// x < y with y < x or x==y known
			if b, ok := st.facts[e.in.mk(OpBin, a.typ, token.LSS, y, x)]; ok && b {
				return 0
			}
			l1, h1 := e.interval(st, x)
			l2, h2 := e.interval(st, y)
			if h1 < l2 {
				return 1
			}
			if l1 >= h2 {
				return 0
			}
		}
	}
	return -1
}

const inf = int64(1) << 60

func (e *Engine) lenOf(x *Val) *Val {
	return e.in.mk(OpPure, types.Typ[types.Int], "len", x)
}

// interval computes the bounds of an integer term from the facts.
func (e *Engine) interval(st *State, x *Val) (int64, int64) {
	return e.intervalD(st, x, 3)
}

func (e *Engine) intervalD(st *State, x *Val, d int) (int64, int64) {
	if k, ok := constInt(x); ok {
		return k, k
	}
	lo, hi := -inf, inf
	if x.op == OpPure && x.aux == "strings.Index" {
		lo = -1
	}
	if x.op == OpPure && (x.aux == "len" || x.aux == "cap") {
		lo = 0
		arg := x.a[0]
		if s, ok := constStr(arg); ok {
			return int64(len(s)), int64(len(s))
		}
		if isNilConst(arg) {
			return 0, 0
		}
		// s == "" facts
		for f, b := range st.facts {
			if f.op == OpBin && f.aux == token.EQL && f.a[0] == arg {
				if s, ok := constStr(f.a[1]); ok {
					if b {
						return int64(len(s)), int64(len(s))
					} else if s == "" {
						lo = 1
					}
				}
				if isNilConst(f.a[1]) && b {
					return 0, 0
				}
			}
		}
	}
	if x.typ != nil {
		if b, ok := x.typ.Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Uint8:
				lo, hi = 0, 255
			case types.Uint16:
				lo, hi = 0, 65535
			case types.Uint32, types.Uint, types.Uint64, types.Uintptr:
				lo = 0
			}
		}
	}
	var ne []int64
	for f, b := range st.facts {
		if f.op != OpBin || f.a[0] != x {
			continue
		}
		k, ok := constInt(f.a[1])
		if !ok {
			continue
		}
		switch f.aux {
		case token.LSS:
			if b {
				if k-1 < hi {
					hi = k - 1
				}
			} else if k > lo {
				lo = k
			}
		case token.EQL:
			if b {
				return k, k
			}
			ne = append(ne, k)
		}
	}
	if x.op == OpBin && x.aux == token.ADD && d > 0 {
		if k, ok := constInt(x.a[1]); ok {
			l, h := e.intervalD(st, x.a[0], d-1)
			if l > -inf && l+k > lo {
				lo = l + k
			}
			if h < inf && h+k < hi {
				hi = h + k
			}
		}
	}
	for again := true; again; {
		again = false
		for _, k := range ne {
			if k == lo {
				lo++
				again = true
			}
			if k == hi {
				hi--
				again = true
			}
		}
	}
	return lo, hi
}

// Assume adds a fact; false if it contradicts the path.
func (e *Engine) Assume(st *State, cond *Val, truth bool) bool {
	atom, neg := e.canon(cond)
	if neg {
		truth = !truth
	}
	if d := e.decideAtom(st, atom); d >= 0 {
		return d == b2i(truth)
	}
	st.facts[atom] = truth
	if atom.op == OpBin && atom.aux == token.LSS {
		if lo, hi := e.interval(st, atom.a[0]); lo > hi {
			return false
		}
	}
	if atom.op == OpBin && atom.aux == token.EQL {
		if _, ok := constInt(atom.a[1]); ok {
			if lo, hi := e.interval(st, atom.a[0]); lo > hi {
				return false
			}
		}
		if isNilConst(atom.a[1]) {
			// facts propagate through conversions
			x := atom.a[0]
			if x.op == OpConv {
				return e.Assume(st, e.in.mk(OpBin, atom.typ, token.EQL, x.a[0], atom.a[1]), truth)
			}
		}
	}
	return true
}

// KnownNil / KnownNonNil: what the path knows about a value.
func (e *Engine) KnownNil(st *State, v *Val) bool {
	if isNilConst(v) {
		return true
	}
	if b, ok := st.facts[e.nilAtom(v)]; ok && b {
		return true
	}
	if v.op == OpConv {
		return e.KnownNil(st, v.a[0])
	}
	return false
}

func (e *Engine) KnownNonNil(st *State, v *Val) bool {
	if neverNil(v) {
		return true
	}
	if b, ok := st.facts[e.nilAtom(v)]; ok && !b {
		return true
	}
	if v.op == OpConv {
		return e.KnownNonNil(st, v.a[0])
	}
	// equal to a value that is known to be different from nil (err == ErrX)
	for f, b := range st.facts {
		if b && f.op == OpBin && f.aux == token.EQL {
			if f.a[0] == v && e.sentinel(f.a[1]) || f.a[1] == v && e.sentinel(f.a[0]) {
				return true
			}
		}
	}
	if e.sentinel(v) {
		return true
	}
	return false
}

// sentinel: an exported package-level error variable (ErrX) is never nil.
func (e *Engine) sentinel(v *Val) bool {
	if v.op == OpLoad && v.a[0].op == OpGlobal {
		g := v.a[0].aux.(*ssa.Global)
		if strings.HasPrefix(g.Name(), "Err") || strings.HasPrefix(g.Name(), "err") || g.Name() == "EOF" {
			return types.TypeString(g.Type().(*types.Pointer).Elem(), nil) == "error"
		}
	}
	return false
}

func (e *Engine) nilAtom(v *Val) *Val {
	return e.in.mk(OpBin, types.Typ[types.Bool], token.EQL, v, e.in.Nil())
}
