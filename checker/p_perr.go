package main

// D03: how a parse error is shown. The text of the error is computed over
// positions in the input: every string is a part of the input (or a text put
// together from such parts), every number a linear expression, and the facts
// of a path are inequalities, places of line breaks and parts without line
// breaks. Invariants of loops are found by elimination from a fixed set of
// candidates.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// lin is a linear expression over positions.
type lin struct {
	k int64
	t map[string]int64
}

func linC(k int64) lin      { return lin{k: k} }
func linA(n string) lin     { return lin{t: map[string]int64{n: 1}} }
func (x lin) sub(y lin) lin { return x.plus(y, -1) }
func (x lin) add(y lin) lin { return x.plus(y, 1) }
func (x lin) plus(y lin, n int64) lin {
	r := lin{k: x.k + n*y.k, t: map[string]int64{}}
	for a, c := range x.t {
		r.t[a] = c
	}
	for a, c := range y.t {
		if r.t[a] += n * c; r.t[a] == 0 {
			delete(r.t, a)
		}
	}
	return r
}

func (x lin) String() string {
	var l []string
	for a, c := range x.t {
		l = append(l, fmt.Sprintf("%+d*%s", c, a))
	}
	sort.Strings(l)
	return strings.Join(l, "") + fmt.Sprintf("%+d", x.k)
}

// pv is an abstract value: i number, s part of the input, c text, b condition
// with what it means if true and if false, & receiver, f field of it, h
// character of the input, t several values.
type pv struct {
	k     byte
	n     lin // the number, the start of the part, the place of the character
	end   lin
	text  []pv // 's' parts, 'q' constants, 'w' spaces
	str   string
	yes   func(st *pst)
	no    func(st *pst)
	cst   int // of a condition: -1 not known
	field int
	items []pv
}

type span struct{ from, to lin }

type pst struct {
	env   map[ssa.Value]pv
	le    []lin  // what is <= 0
	none  []span // parts without line breaks
	nl    []lin  // places of line breaks
	start []lin  // places where a line starts
}

func (s *pst) clone() *pst {
	n := &pst{env: map[ssa.Value]pv{}, le: append([]lin(nil), s.le...), none: append([]span(nil), s.none...), nl: append([]lin(nil), s.nl...), start: append([]lin(nil), s.start...)}
	for k, v := range s.env {
		n.env[k] = v
	}
	return n
}

// leq: x <= y follows from the facts.
func (s *pst) leq(x, y lin) bool { return s.neg(x.sub(y), 5) }
func (s *pst) eq(x, y lin) bool  { return s.leq(x, y) && s.leq(y, x) }

// neg: g <= 0 follows from the facts.
func (s *pst) neg(g lin, depth int) bool { return s.negm(g, depth, map[string]int{}) }
func (s *pst) negm(g lin, depth int, failed map[string]int) bool {
	if len(g.t) == 0 {
		return g.k <= 0
	}
	if depth == 0 {
		return false
	}
	key := g.String()
	if failed[key] >= depth {
		return false
	}
	a := ""
	for n := range g.t {
		if n > a {
			a = n
		}
	}
	for _, f := range s.le {
		if c := f.t[a]; c != 0 && (c > 0) == (g.t[a] > 0) {
			if s.negm(g.sub(f), depth-1, failed) {
				return true
			}
		}
	}
	failed[key] = depth
	return false
}

func (s *pst) dead() bool { return s.neg(linC(1), 5) || s.contradiction() }
func (s *pst) contradiction() bool {
	for _, f := range s.le {
		// f <= 0, and the facts say f >= 1
		if len(f.t) > 0 && s.leq(linC(1), f) {
			return true
		}
	}
	return false
}

// lineStart: a line of the input starts at x.
func (s *pst) lineStart(x lin) bool {
	if s.eq(x, linC(0)) {
		return true
	}
	for _, n := range s.nl {
		if s.eq(x, n.add(linC(1))) {
			return true
		}
	}
	for _, n := range s.start {
		if s.eq(x, n) {
			return true
		}
	}
	return false
}

// outside: a line break is not in a part without line breaks.
func (s *pst) outside(pos lin) {
	for _, sp := range s.none {
		if s.leq(sp.from, pos) {
			s.le = append(s.le, sp.to.sub(pos))
		}
	}
}

func (s *pst) isBreak(x lin) bool {
	for _, n := range s.nl {
		if s.eq(x, n) {
			return true
		}
	}
	return false
}

// clear: there is no line break between the places.
func (s *pst) clear(from, to lin) bool {
	used := map[int]bool{}
	cur := from
	for !s.leq(to, cur) {
		found := false
		for i, sp := range s.none {
			if !used[i] && s.leq(sp.from, cur) && !s.leq(sp.to, cur) && s.leq(cur, sp.to) {
				used[i], found, cur = true, true, sp.to
				break
			}
		}
		if !found {
			return false
		}
	}
	return true
}

type perr struct {
	c       *Ctx
	at, txt int // fields
	atoms   int
	steps   int
	quiet   int // > 0: looking for invariants
	shown   map[string]bool
	counts  map[string]span // of characters
	began   time.Time
	lost    bool // a text is put together in a way that is not followed
}

type pframe struct {
	fn    *ssa.Function
	depth int
	loops map[*ssa.BasicBlock]*Loop
	back  map[*ssa.BasicBlock]func(st *pst, pred *ssa.BasicBlock)
	// loops being looked at, by what is known of their variables
	active map[*ssa.BasicBlock]map[string]func(st *pst, vals []pv)
	ret    func(st *pst, vals []pv, in ssa.Instruction)
}

// loopCase tells apart what is known of the variables of a loop: flags, and
// numbers that are not a place (-1).
func loopCase(vals []pv) string {
	r := ""
	for i, v := range vals {
		if fixedVal(v) {
			r += fmt.Sprintf("%d=%d/%d ", i, v.cst, v.n.k)
		}
	}
	return r
}

func fixedVal(v pv) bool {
	return v.k == 'b' && v.cst >= 0 || v.k == 'i' && len(v.n.t) == 0 && v.n.k < 0
}

func (fr *pframe) looking(b *ssa.BasicBlock, key string, f func(st *pst, vals []pv)) *pframe {
	n := *fr
	n.active = map[*ssa.BasicBlock]map[string]func(*pst, []pv){}
	for k, v := range fr.active {
		n.active[k] = v
	}
	m := map[string]func(*pst, []pv){key: f}
	for k, v := range fr.active[b] {
		if k != key {
			m[k] = v
		}
	}
	n.active[b] = m
	return &n
}

func (a *perr) atom(p string) lin {
	a.atoms++
	return linA(fmt.Sprintf("%s%d", p, a.atoms))
}

func (a *perr) fail(key string, in ssa.Instruction, format string, args ...interface{}) {
	if a.quiet > 0 || a.lost {
		return
	}
	a.c.Fail(key, instrPos(in), format, args...)
}

func (fr *pframe) with(b *ssa.BasicBlock, f func(st *pst, pred *ssa.BasicBlock)) *pframe {
	n := *fr
	n.back = map[*ssa.BasicBlock]func(st *pst, pred *ssa.BasicBlock){}
	for k, v := range fr.back {
		n.back[k] = v
	}
	n.back[b] = f
	return &n
}

func newFrame(fn *ssa.Function, depth int, ret func(st *pst, vals []pv, in ssa.Instruction)) *pframe {
	fr := &pframe{fn: fn, depth: depth, loops: map[*ssa.BasicBlock]*Loop{}, back: map[*ssa.BasicBlock]func(*pst, *ssa.BasicBlock){}, ret: ret}
	for _, l := range Loops(fn) {
		fr.loops[l.head] = l
	}
	return fr
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var r []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			r = append(r, p)
		}
	}
	return r
}

func edgeOf(b, pred *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == pred {
			return i
		}
	}
	return -1
}

func (a *perr) enter(fr *pframe, b, pred *ssa.BasicBlock, st *pst) {
	if f := fr.back[b]; f != nil {
		f(st, pred)
		return
	}
	phis := phisOf(b)
	in := make([]pv, len(phis))
	for i, p := range phis {
		in[i] = a.val(st, p.Edges[edgeOf(b, pred)])
	}
	if f := fr.active[b][loopCase(in)]; f != nil {
		f(st, in)
		return
	}
	if fr.loops[b] == nil {
		for i, p := range phis {
			st.env[p] = in[i]
		}
		a.block(fr, b, len(phis), st)
		return
	}
	a.loop(fr, b, phis, in, st)
}

// cand is a candidate of an invariant, over the values of the loop's variables.
type cand struct {
	assume func(st *pst, vals []pv)
	holds  func(st *pst, vals []pv) bool
}

func (a *perr) loop(fr *pframe, b *ssa.BasicBlock, phis []*ssa.Phi, in []pv, st *pst) {
	P, L := linA("P"), linA("L")
	var cands []cand
	le := func(f func(v []pv) lin) {
		cands = append(cands, cand{func(st *pst, v []pv) { st.le = append(st.le, f(v)) }, func(st *pst, v []pv) bool { return st.neg(f(v), 5) }})
	}
	none := func(f func(v []pv) (lin, lin)) {
		cands = append(cands, cand{func(st *pst, v []pv) { x, y := f(v); st.none = append(st.none, span{x, y}) }, func(st *pst, v []pv) bool { x, y := f(v); return st.clear(x, y) }})
	}
	begin := func(f func(v []pv) lin) {
		cands = append(cands, cand{func(st *pst, v []pv) { st.start = append(st.start, f(v)) }, func(st *pst, v []pv) bool { return st.lineStart(f(v)) }})
	}
	// the numbers of the loop: those of the variables, and where strings start and end
	var nums []func(v []pv) lin
	for i := range phis {
		i := i
		switch in[i].k {
		case 'i':
			nums = append(nums, func(v []pv) lin { return v[i].n })
		case 's':
			nums = append(nums, func(v []pv) lin { return v[i].n }, func(v []pv) lin { return v[i].end })
		}
	}
	breakAt := func(f func(v []pv) lin) {
		cands = append(cands, cand{func(st *pst, v []pv) { st.nl = append(st.nl, f(v)) }, func(st *pst, v []pv) bool { return st.isBreak(f(v)) }})
	}
	for i, x := range nums {
		x := x
		x0 := x(in)
		le(func(v []pv) lin { return x(v).sub(x0) })
		le(func(v []pv) lin { return x0.sub(x(v)) })
		le(func(v []pv) lin { return linC(0).sub(x(v)) })
		le(func(v []pv) lin { return x(v).sub(P) })
		le(func(v []pv) lin { return P.sub(x(v)) })
		le(func(v []pv) lin { return x(v).sub(L) })
		none(func(v []pv) (lin, lin) { return x(v), P })
		none(func(v []pv) (lin, lin) { return P, x(v) })
		begin(x)
		for _, y := range nums[:i] {
			y := y
			for _, n := range []int64{1, -1} {
				n := n
				d := x0.plus(y(in), n)
				le(func(v []pv) lin { return x(v).plus(y(v), n).sub(d) })
				le(func(v []pv) lin { return d.sub(x(v).plus(y(v), n)) })
				none(func(v []pv) (lin, lin) { return x(v), y(v) })
				none(func(v []pv) (lin, lin) { return y(v), x(v) })
			}
			le(func(v []pv) lin { return x(v).sub(y(v)) })
			le(func(v []pv) lin { return y(v).sub(x(v)) })
			breakAt(func(v []pv) lin { return x(v).add(y(v)) })
			none(func(v []pv) (lin, lin) { return x(v), x(v).add(y(v)) })
			none(func(v []pv) (lin, lin) { return y(v), y(v).add(x(v)) })
			for _, z := range nums {
				z := z
				le(func(v []pv) lin { return x(v).add(y(v)).sub(z(v)) })
			}
		}
		breakAt(x)
	}
	var keep []cand
	for _, c := range cands {
		if c.holds(st, in) {
			keep = append(keep, c)
		}
	}
	head := func() (*pst, []pv) {
		n := st.clone()
		vals := make([]pv, len(phis))
		for i, p := range phis {
			switch {
			case fixedVal(in[i]):
				vals[i] = in[i]
			case in[i].k == 'i':
				vals[i] = pv{k: 'i', n: a.atom("x")}
			case in[i].k == 's':
				vals[i] = pv{k: 's', n: a.atom("x"), end: a.atom("x")}
			default:
				vals[i] = pv{k: '?'}
			}
			n.env[p] = vals[i]
		}
		for _, c := range keep {
			c.assume(n, vals)
		}
		return n, vals
	}
	l, key := fr.loops[b], loopCase(in)
	for round := 0; round < 30; round++ {
		n, _ := head()
		bad := map[int]bool{}
		a.quiet++
		f2 := fr.looking(b, key, func(st *pst, out []pv) {
			for i := range phis {
				if out[i].k != in[i].k {
					out[i] = pv{k: in[i].k, n: a.atom("?"), end: a.atom("?")}
				}
			}
			for i, c := range keep {
				if !bad[i] && !c.holds(st, out) {
					bad[i] = true
				}
			}
		})
		f2.ret = func(*pst, []pv, ssa.Instruction) {}
		for _, e := range b.Parent().Blocks { // only the loop itself matters here
			if !l.blocks[e] {
				f2 = f2.with(e, func(*pst, *ssa.BasicBlock) {})
			}
		}
		a.block(f2, b, len(phis), n)
		a.quiet--
		if len(bad) == 0 {
			break
		}
		var k2 []cand
		for i, c := range keep {
			if !bad[i] {
				k2 = append(k2, c)
			}
		}
		keep = k2
	}
	n, _ := head()
	a.block(fr.looking(b, key, func(*pst, []pv) {}), b, len(phis), n)
}

func (a *perr) val(st *pst, v ssa.Value) pv {
	if x, ok := st.env[v]; ok {
		return x
	}
	if c, ok := v.(*ssa.Const); ok && c.Value != nil {
		switch c.Value.Kind() {
		case constant.Int:
			k, _ := constant.Int64Val(c.Value)
			return pv{k: 'i', n: linC(k)}
		case constant.String:
			return pv{k: 'c', text: []pv{{k: 'q', str: constant.StringVal(c.Value)}}}
		case constant.Bool:
			k := 0
			if constant.BoolVal(c.Value) {
				k = 1
			}
			return pv{k: 'b', cst: k}
		}
	}
	return pv{k: '?'}
}

func textOfPv(v pv) ([]pv, bool) {
	switch v.k {
	case 'c':
		return v.text, true
	case 's':
		return []pv{v}, true
	}
	return nil, false
}

func (a *perr) block(fr *pframe, b *ssa.BasicBlock, idx int, st *pst) {
	for i := idx; i < len(b.Instrs); i++ {
		if a.steps++; a.steps > 400000 || time.Since(a.began) > 2*time.Minute {
			a.lost = true // computed in too many ways
			return
		}
		switch x := b.Instrs[i].(type) {
		case *ssa.If:
			c := a.val(st, x.Cond)
			for n, s := range b.Succs {
				if c.k == 'b' && c.cst >= 0 && c.cst == n {
					continue
				}
				t := st.clone()
				if c.k == 'b' && c.cst < 0 {
					if n == 0 {
						c.yes(t)
					} else {
						c.no(t)
					}
					if t.dead() {
						continue
					}
				}
				a.enter(fr, s, b, t)
			}
			return
		case *ssa.Jump:
			a.enter(fr, b.Succs[0], b, st)
			return
		case *ssa.Return:
			vals := make([]pv, len(x.Results))
			for i, r := range x.Results {
				vals[i] = a.val(st, r)
			}
			fr.ret(st, vals, x)
			return
		case *ssa.Panic:
			a.fail("panic", x, "showing a parse error may panic")
			return
		case *ssa.Call:
			a.call(fr, b, i, x, st)
			return // continued there
		case ssa.Value:
			st.env[x] = a.eval(st, x)
		}
	}
}

func (a *perr) eval(st *pst, v ssa.Value) pv {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if r := a.val(st, x.X); r.k == '&' {
			return pv{k: 'f', field: x.Field}
		}
	case *ssa.Field:
		if r := a.val(st, x.X); r.k == '&' {
			return a.fieldVal(x.Field)
		}
	case *ssa.UnOp:
		r := a.val(st, x.X)
		switch {
		case x.Op == token.MUL && r.k == 'f':
			return a.fieldVal(r.field)
		case x.Op == token.MUL && r.k == '&':
			return r
		case x.Op == token.NOT && r.k == 'b':
			if r.cst >= 0 {
				r.cst = 1 - r.cst
			}
			r.yes, r.no = r.no, r.yes
			return r
		case x.Op == token.SUB && r.k == 'i':
			return pv{k: 'i', n: linC(0).sub(r.n)}
		}
	case *ssa.Convert:
		r := a.val(st, x.X)
		if sl, ok := x.Type().Underlying().(*types.Slice); ok && r.k == 's' {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
				return pv{k: 'R', n: r.n, end: r.end}
			}
		}
		return r
	case *ssa.ChangeType:
		return a.val(st, x.X)
	case *ssa.MakeInterface:
		return a.val(st, x.X)
	case *ssa.Extract:
		if r := a.val(st, x.Tuple); r.k == 't' && x.Index < len(r.items) {
			return r.items[x.Index]
		}
	case *ssa.Slice:
		if _, ok := x.X.Type().Underlying().(*types.Basic); !ok {
			break
		}
		r := a.val(st, x.X)
		if r.k != 's' {
			break
		}
		from, to := r.n, r.end
		ok := true
		get := func(v ssa.Value, dst *lin) {
			if v == nil {
				return
			}
			if n := a.val(st, v); n.k == 'i' {
				*dst = r.n.add(n.n)
			} else {
				ok = false
			}
		}
		get(x.Low, &from)
		get(x.High, &to)
		if !ok {
			break
		}
		if !st.leq(r.n, from) || !st.leq(from, to) || !st.leq(to, r.end) {
			a.fail("bounds", x, "showing a parse error may slice a text outside its bounds")
		}
		return pv{k: 's', n: from, end: to}
	case *ssa.Lookup:
		r, i := a.val(st, x.X), a.val(st, x.Index)
		if r.k == 's' && i.k == 'i' {
			at := r.n.add(i.n)
			if !st.leq(r.n, at) || !st.leq(at.add(linC(1)), r.end) {
				a.fail("bounds", x, "showing a parse error may read a character outside the text")
			}
			return pv{k: 'h', n: at}
		}
	case *ssa.Index:
		r, i := a.val(st, x.X), a.val(st, x.Index)
		if r.k == 's' && i.k == 'i' {
			at := r.n.add(i.n)
			if !st.leq(r.n, at) || !st.leq(at.add(linC(1)), r.end) {
				a.fail("bounds", x, "showing a parse error may read a character outside the text")
			}
			return pv{k: 'h', n: at}
		}
	case *ssa.BinOp:
		return a.binop(st, x.Op, a.val(st, x.X), a.val(st, x.Y))
	}
	return pv{k: '?'}
}

func (a *perr) fieldVal(i int) pv {
	switch i {
	case a.at:
		return pv{k: 'i', n: linA("P")}
	case a.txt:
		return pv{k: 's', n: linC(0), end: linA("L")}
	}
	return pv{k: '?'}
}

func (a *perr) binop(st *pst, op token.Token, x, y pv) pv {
	cond := func(yes, no func(st *pst)) pv { return pv{k: 'b', cst: -1, yes: yes, no: no} }
	less := func(d lin, yes, no func(st *pst)) pv { // d <= 0
		if st.neg(d, 5) {
			return pv{k: 'b', cst: 1}
		}
		if st.leq(linC(1), d) {
			return pv{k: 'b', cst: 0}
		}
		return cond(func(s *pst) { s.le = append(s.le, d) }, func(s *pst) { s.le = append(s.le, linC(1).sub(d)) })
	}
	not := func(v pv) pv {
		if v.cst >= 0 {
			v.cst = 1 - v.cst
		}
		v.yes, v.no = v.no, v.yes
		return v
	}
	if x.k == 'i' && y.k == 'i' {
		switch op {
		case token.ADD:
			return pv{k: 'i', n: x.n.add(y.n)}
		case token.SUB:
			return pv{k: 'i', n: x.n.sub(y.n)}
		case token.LEQ:
			return less(x.n.sub(y.n), nil, nil)
		case token.LSS:
			return less(x.n.sub(y.n).add(linC(1)), nil, nil)
		case token.GEQ:
			return less(y.n.sub(x.n), nil, nil)
		case token.GTR:
			return less(y.n.sub(x.n).add(linC(1)), nil, nil)
		case token.EQL, token.NEQ:
			d := x.n.sub(y.n)
			var r pv
			switch {
			case st.eq(x.n, y.n):
				r = pv{k: 'b', cst: 1}
			case st.leq(linC(1), d) || st.leq(d, linC(-1)):
				r = pv{k: 'b', cst: 0}
			default:
				r = cond(func(s *pst) { s.le = append(s.le, d, linC(0).sub(d)) }, func(s *pst) {
					// one side may be excluded
					if s.neg(d, 5) {
						s.le = append(s.le, d.add(linC(1)))
					} else if s.neg(linC(0).sub(d), 5) {
						s.le = append(s.le, linC(1).sub(d))
					}
				})
			}
			if op == token.NEQ {
				return not(r)
			}
			return r
		}
	}
	if y.k == 'h' {
		x, y = y, x
	}
	if x.k == 'h' && y.k == 'i' && len(y.n.t) == 0 && (op == token.EQL || op == token.NEQ) {
		at := x.n
		nl, other := func(s *pst) { s.nl = append(s.nl, at) }, func(s *pst) { s.none = append(s.none, span{at, at.add(linC(1))}) }
		if y.n.k != '\n' {
			nl = func(*pst) {}
			return cond(other, nl)
		}
		r := cond(nl, other)
		if op == token.NEQ {
			return not(r)
		}
		return r
	}
	if op == token.ADD {
		l, ok1 := textOfPv(x)
		r, ok2 := textOfPv(y)
		if ok1 && ok2 {
			return pv{k: 'c', text: append(append([]pv(nil), l...), r...)}
		}
	}
	if (op == token.EQL || op == token.NEQ) && (x.k == 'b' || x.k == 's' || x.k == 'c' || x.k == '?') {
		return cond(func(*pst) {}, func(*pst) {})
	}
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return cond(func(*pst) {}, func(*pst) {})
	}
	return pv{k: '?'}
}

// newline: the argument is a line break.
func newlineArg(v pv) bool {
	switch v.k {
	case 'i':
		return len(v.n.t) == 0 && v.n.k == '\n'
	case 'c':
		return len(v.text) == 1 && v.text[0].k == 'q' && v.text[0].str == "\n"
	}
	return false
}

func (a *perr) call(fr *pframe, b *ssa.BasicBlock, i int, x *ssa.Call, st *pst) {
	next := func(st *pst, v pv) {
		if st.dead() {
			return
		}
		st.env[x] = v
		a.block(fr, b, i+1, st)
	}
	args := make([]pv, len(x.Call.Args))
	for i, v := range x.Call.Args {
		args[i] = a.val(st, v)
	}
	if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
		if bi.Name() == "len" && args[0].k == 's' {
			next(st, pv{k: 'i', n: args[0].end.sub(args[0].n)})
			return
		}
		if bi.Name() == "len" && args[0].k == 'R' {
			next(st, pv{k: 'i', n: a.runes(st, args[0])})
			return
		}
		if (bi.Name() == "min" || bi.Name() == "max") && len(args) == 2 && args[0].k == 'i' && args[1].k == 'i' {
			lo, hi := args[0].n, args[1].n
			s1, s2 := st.clone(), st.clone()
			s1.le = append(s1.le, lo.sub(hi))
			s2.le = append(s2.le, hi.sub(lo).add(linC(1)))
			if bi.Name() == "max" {
				lo, hi = hi, lo
			}
			next(s1, pv{k: 'i', n: lo})
			next(s2, pv{k: 'i', n: hi})
			return
		}
		next(st, pv{k: '?'})
		return
	}
	f := x.Call.StaticCallee()
	if f == nil {
		next(st, pv{k: '?'})
		return
	}
	switch n := f.String(); n {
	case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.IndexAny", "strings.LastIndex", "strings.LastIndexByte", "strings.LastIndexAny":
		s := args[0]
		if s.k != 's' || !newlineArg(args[1]) {
			break
		}
		miss := st.clone()
		miss.none = append(miss.none, span{s.n, s.end})
		at := a.atom("n")
		pos := s.n.add(at)
		st.le = append(st.le, linC(0).sub(at), pos.add(linC(1)).sub(s.end))
		st.outside(pos)
		st.nl = append(st.nl, pos)
		if strings.HasPrefix(n, "strings.Last") {
			st.none = append(st.none, span{pos.add(linC(1)), s.end})
		} else {
			st.none = append(st.none, span{s.n, pos})
		}
		next(miss, pv{k: 'i', n: linC(-1)})
		next(st, pv{k: 'i', n: at})
		return
	case "strings.Cut":
		s := args[0]
		if s.k != 's' || !newlineArg(args[1]) {
			break
		}
		miss := st.clone()
		miss.none = append(miss.none, span{s.n, s.end})
		pos := a.atom("n")
		st.le = append(st.le, s.n.sub(pos), pos.add(linC(1)).sub(s.end))
		st.outside(pos)
		st.nl = append(st.nl, pos)
		st.none = append(st.none, span{s.n, pos})
		next(miss, pv{k: 't', items: []pv{s, {k: 's', n: s.end, end: s.end}, {k: 'b', cst: 0}}})
		next(st, pv{k: 't', items: []pv{{k: 's', n: s.n, end: pos}, {k: 's', n: pos.add(linC(1)), end: s.end}, {k: 'b', cst: 1}}})
		return
	case "unicode/utf8.RuneCountInString":
		if s := args[0]; s.k == 's' {
			next(st, pv{k: 'i', n: a.runes(st, s)})
			return
		}
	case "strings.Repeat":
		t, ok := textOfPv(args[0])
		if ok && len(t) == 1 && t[0].k == 'q' && t[0].str == " " && args[1].k == 'i' {
			next(st, pv{k: 'c', text: []pv{{k: 'w', n: args[1].n}}})
			return
		}
	case "fmt.Sprintf", "fmt.Sprint", "strings.Join":
		if t, ok := a.format(st, n, x); ok {
			next(st, pv{k: 'c', text: t})
			return
		}
	}
	if a.c.inScope(f) && f.Blocks != nil && fr.depth < 6 {
		a.c.Analysed(f)
		in := st.clone()
		in.env = map[ssa.Value]pv{}
		for i, p := range f.Params {
			if i < len(args) {
				in.env[p] = args[i]
			}
		}
		caller := st.env
		sub := newFrame(f, fr.depth+1, func(s *pst, vals []pv, _ ssa.Instruction) {
			s = s.clone()
			s.env = map[ssa.Value]pv{}
			for k, v := range caller {
				s.env[k] = v
			}
			r := pv{k: 't', items: vals}
			if len(vals) == 1 {
				r = vals[0]
			}
			next(s, r)
		})
		a.block(sub, f.Blocks[0], 0, in)
		return
	}
	next(st, pv{k: '?'})
}

// runes: how many characters a part has.
func (a *perr) runes(st *pst, s pv) lin {
	from, to := s.n, s.end
	// what is shown ends at the place of the problem: name it that way
	if P := linA("P"); st.eq(to, P) {
		to = P
	}
	n := "R[" + from.String() + ":" + to.String() + "]"
	if a.counts == nil {
		a.counts = map[string]span{}
	}
	a.counts[n] = span{from, to}
	return linA(n)
}

func (a *perr) format(st *pst, n string, x *ssa.Call) ([]pv, bool) {
	args := x.Call.Args
	list := args[len(args)-1]
	if n == "strings.Join" {
		list = args[0]
	}
	items, ok := variadicItems(list)
	if !ok {
		return nil, false
	}
	var vals []pv
	for _, it := range items {
		vals = append(vals, a.val(st, it))
	}
	var out []pv
	if n == "strings.Join" || n == "fmt.Sprint" {
		sep := []pv{}
		if n == "strings.Join" {
			if sep, ok = textOfPv(a.val(st, args[1])); !ok {
				return nil, false
			}
		}
		for i, v := range vals {
			t, ok := textOfPv(v)
			if !ok {
				return nil, false
			}
			if i > 0 {
				out = append(out, sep...)
			}
			out = append(out, t...)
		}
		return out, true
	}
	f, ok := textOfPv(a.val(st, args[0]))
	if !ok || len(f) != 1 || f[0].k != 'q' {
		return nil, false
	}
	s := f[0].str
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			out = append(out, pv{k: 'q', str: s[i : i+1]})
			continue
		}
		i++
		star := i < len(s) && s[i] == '*'
		if star {
			i++
		}
		if i >= len(s) {
			return nil, false
		}
		if s[i] == '%' && !star {
			out = append(out, pv{k: 'q', str: "%"})
			continue
		}
		if s[i] == 'c' && !star && len(vals) > 0 && vals[0].k == 'i' && len(vals[0].n.t) == 0 {
			out = append(out, pv{k: 'q', str: string(rune(vals[0].n.k))})
			vals = vals[1:]
			continue
		}
		if s[i] != 's' && s[i] != 'v' {
			return nil, false
		}
		var w pv
		if star {
			if len(vals) == 0 || vals[0].k != 'i' {
				return nil, false
			}
			w, vals = vals[0], vals[1:]
		}
		if len(vals) == 0 {
			return nil, false
		}
		t, ok := textOfPv(vals[0])
		if !ok {
			return nil, false
		}
		vals = vals[1:]
		if star {
			if len(t) != 1 || t[0].k == 's' {
				if len(t) > 1 || len(t) == 1 {
					return nil, false
				}
			}
			width := int64(0)
			if len(t) == 1 {
				width = int64(len([]rune(t[0].str)))
			}
			out = append(out, pv{k: 'w', n: w.n.sub(linC(width))})
		}
		out = append(out, t...)
	}
	return out, len(vals) == 0
}

// shownAs checks the text of an error.
func (a *perr) shownAs(st *pst, v pv, in ssa.Instruction) {
	P, L := linA("P"), linA("L")
	t, ok := textOfPv(v)
	if !ok {
		if a.quiet == 0 {
			a.lost = true
		}
		return
	}
	var parts []pv
	for _, x := range t { // neighbouring constants are one
		if n := len(parts); x.k == 'q' && n > 0 && parts[n-1].k == 'q' {
			parts[n-1].str += x.str
			continue
		}
		if x.k == 'q' && x.str == "" {
			continue
		}
		parts = append(parts, x)
	}
	onlyText := true
	for _, x := range parts {
		if x.k != 'q' {
			onlyText = false
		}
	}
	if onlyText && len(parts) > 0 {
		if !st.leq(L, P) {
			a.fail("no-place", in, "the place of a problem inside of the text may not be shown")
			return
		}
		a.c.OK("problem after the end reported", a.c.siteName(in))
		return
	}
	if len(parts) < 3 || parts[0].k != 's' || parts[1].k != 'q' || parts[1].str != "\n" && !(len(parts) == 3 && strings.HasPrefix(parts[1].str, "\n")) {
		a.fail("form", in, "a parse error is not shown as a line and a marker below it")
		return
	}
	line := parts[0]
	pad := linC(0)
	rest := parts[2:]
	switch {
	case len(rest) == 2 && rest[0].k == 'w':
		pad, rest = rest[0].n, rest[1:]
	}
	if len(rest) != 1 || rest[0].k != 'q' || rest[0].str != "^" {
		a.fail("form", in, "a parse error is not shown as a line and a marker below it")
		return
	}
	switch {
	case !st.lineStart(line.n):
		a.fail("line-start", in, "what is shown may not start where a line of the input starts")
	case !st.leq(line.n, P) || !st.leq(P, line.end):
		a.fail("line", in, "the line that is shown may not be the one with the problem")
	case !st.leq(P.add(linC(1)), L):
		a.fail("after-end", in, "a problem after the end of the text may be shown as if there was a character")
	case !st.clear(line.n, line.end):
		a.fail("lines", in, "several lines may be shown")
	case !a.lineEnd(st, line.end):
		a.fail("line-end", in, "the line may not be shown to its end")
	case !st.eq(pad, P.sub(line.n)) && a.counted(pad):
		if a.quiet == 0 {
			a.lost = true
		}
	case !st.eq(pad, P.sub(line.n)) && !a.column(st, pad, line.n):
		a.fail("column", in, "the marker may not be below the character that was not accepted")
	case st.eq(pad, P.sub(line.n)):
		a.fail("column", in, "the marker is placed by counting bytes, so it is not below the character that was not accepted if the line contains multi-byte characters")
	default:
		a.c.OK("problem shown in its line", a.c.siteName(in))
	}
}

func (a *perr) lineEnd(st *pst, x lin) bool {
	if st.eq(x, linA("L")) {
		return true
	}
	for _, n := range st.nl {
		if st.eq(x, n) {
			return true
		}
	}
	return false
}

// column: the number of characters before the place of the problem.
func (a *perr) column(st *pst, pad, start lin) bool {
	if pad.k != 0 || len(pad.t) != 1 {
		return false
	}
	for n, k := range pad.t {
		if sp, ok := a.counts[n]; ok && k == 1 {
			return st.eq(sp.from, start) && st.eq(sp.to, linA("P"))
		}
	}
	return false
}

// counted: a number that a loop counts up; what it counts is not followed.
func (a *perr) counted(x lin) bool {
	for n := range x.t {
		if n[0] == 'x' || n[0] == '?' {
			return true
		}
	}
	return false
}

// parseErrors: how the errors of the parsers are shown.
func (c *Ctx) parseErrors() {
	seen, lost := map[types.Type]bool{}, false
	for i := range defSpecs {
		fn := c.Func(ddlPkg, defSpecs[i].fn)
		if fn == nil {
			continue
		}
		for g := range c.staticReach(fn) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					m, ok := in.(*ssa.MakeInterface)
					if !ok || !isErr(m.Type()) {
						continue
					}
					t := m.X.Type()
					s := derefStruct(t)
					if s == nil {
						if p, ok := t.Underlying().(*types.Struct); ok {
							s = p
						}
					}
					n, ok := derefType(t).(*types.Named)
					if s == nil || !ok || seen[n] {
						continue
					}
					em := c.methodOf(n, "Error")
					if em == nil || em.Blocks == nil || !c.inScope(em) {
						continue
					}
					seen[n] = true
					lost = c.parseError(n, s, em) || lost
				}
			}
		}
	}
	if !lost {
		c.Floor("problem shown in its line", 1)
		c.Floor("problem after the end reported", 1)
	}
}

func (c *Ctx) parseError(t *types.Named, s *types.Struct, fn *ssa.Function) bool {
	a := &perr{c: c, began: time.Now(), at: -1, txt: -1, shown: map[string]bool{}}
	for i := 0; i < s.NumFields(); i++ {
		if b, ok := s.Field(i).Type().Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsInteger != 0 && a.at < 0:
				a.at = i
			case b.Info()&types.IsString != 0 && a.txt < 0:
				a.txt = i
			}
		}
	}
	if a.at < 0 || a.txt < 0 {
		c.Fail("anchor:fields", fn.Pos(), "%s does not keep the place and the text of the problem", t)
		return false
	}
	c.Analysed(fn)
	st := &pst{env: map[ssa.Value]pv{}}
	st.env[fn.Params[0]] = pv{k: '&'}
	st.le = append(st.le, linC(0).sub(linA("P")), linC(0).sub(linA("L")))
	fr := newFrame(fn, 0, func(st *pst, vals []pv, in ssa.Instruction) { a.shownAs(st, vals[0], in) })
	a.block(fr, fn.Blocks[0], 0, st)
	c.stats["steps of showing an error"] += a.steps
	if a.lost {
		c.stats["ways to show an error that are not followed"]++
	}
	return a.lost
}
