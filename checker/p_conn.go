package main

// P01, P02: connecting to PostgreSQL.

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// linear is a sum of integer terms.
type linear struct {
	t map[*Val]int64
	k int64
}

func (e *Engine) linear(v *Val) linear {
	r := linear{t: map[*Val]int64{}}
	var add func(v *Val, c int64)
	add = func(v *Val, c int64) {
		if k, ok := constInt(v); ok {
			r.k += c * k
			return
		}
		if v.op == OpBin && isIntTyped(v.typ) {
			switch v.aux {
			case token.ADD:
				add(v.a[0], c)
				add(v.a[1], c)
				return
			case token.SUB:
				add(v.a[0], c)
				add(v.a[1], -c)
				return
			}
		}
		if r.t[v] += c; r.t[v] == 0 {
			delete(r.t, v)
		}
	}
	add(v, 1)
	return r
}

func (e *Engine) fromLinear(l linear) *Val {
	it := types.Typ[types.Int]
	var pos, neg []*Val
	for v, c := range l.t {
		for ; c > 0; c-- {
			pos = append(pos, v)
		}
		for ; c < 0; c++ {
			neg = append(neg, v)
		}
	}
	sort.Slice(pos, func(i, j int) bool { return pos[i].id < pos[j].id })
	sort.Slice(neg, func(i, j int) bool { return neg[i].id < neg[j].id })
	r := e.cint(l.k)
	for _, v := range pos {
		r = e.binop(token.ADD, v, r, it, it)
	}
	for _, v := range neg {
		r = e.binop(token.SUB, r, v, it, it)
	}
	return r
}

func (l linear) plus(m linear, c int64) linear {
	r := linear{t: map[*Val]int64{}, k: l.k + c*m.k}
	for v, n := range l.t {
		r.t[v] = n
	}
	for v, n := range m.t {
		if r.t[v] += c * n; r.t[v] == 0 {
			delete(r.t, v)
		}
	}
	return r
}

// nonNeg: the sum is known to be at least zero.
func (e *Engine) nonNeg(st *State, l linear) bool {
	var pos, neg *Val
	lo := l.k
	n := 0
	for v, c := range l.t {
		n++
		a, b := e.interval(st, v)
		switch {
		case c > 0 && a > -inf:
			lo += c * a
		case c < 0 && b < inf:
			lo += c * b
		default:
			lo = -inf
		}
		if c == 1 {
			pos = v
		}
		if c == -1 {
			neg = v
		}
		if lo <= -inf {
			break
		}
	}
	if n == len(l.t) && lo >= 0 {
		return true
	}
	if len(l.t) == 2 {
		pos, neg = nil, nil
		for v, c := range l.t {
			if c == 1 {
				pos = v
			} else if c == -1 {
				neg = v
			}
		}
		if pos != nil && neg != nil {
			it, bt := types.Typ[types.Int], types.Typ[types.Bool]
			// pos - neg + k >= 0, in the forms facts have
			for d := int64(0); d <= 2; d++ {
				x := e.binop(token.ADD, pos, e.cint(l.k-d), it, it)
				if e.Decide(st, e.binop(token.LSS, x, neg, it, bt)) == 0 {
					return true
				}
				x = e.binop(token.ADD, neg, e.cint(-l.k-1+d), it, it)
				if e.Decide(st, e.binop(token.LSS, x, pos, it, bt)) == 1 {
					return true
				}
			}
		}
	}
	return false
}

// carryGhost keeps the relation of counters of the analysis ("#...") to the
// counter of a loop when that is widened from v to w.
func (e *Engine) carryGhost(st *State, phi *ssa.Phi, v, w *Val) {
	if !isIntTyped(phi.Type()) {
		return
	}
	step := e.ghostSign
	if step != 0 {
		if !e.ghostPhi[phi] {
			return
		}
	} else {
		step = ghostStep(phi)
	}
	if step == 0 {
		return
	}
	e.moveGhosts(st, v, w, step)
}

// ghostStep guesses in which direction a counter moves with the relation.
func ghostStep(phi *ssa.Phi) int {
	step := 0
	for _, ed := range phi.Edges {
		if b, ok := ed.(*ssa.BinOp); ok && b.X == ssa.Value(phi) {
			if k, ok := b.Y.(*ssa.Const); ok && k.Value != nil {
				switch s := k.Value.ExactString(); {
				case b.Op == token.ADD && s == "1", b.Op == token.SUB && s == "-1":
					step = 1
				case b.Op == token.SUB && s == "1", b.Op == token.ADD && s == "-1":
					step = -1
				}
			}
		}
	}
	return step
}

func (e *Engine) moveGhosts(st *State, v, w *Val, step int) {
	for k, g := range st.p.V {
		if !strings.HasPrefix(k, "#") {
			continue
		}
		d := e.linear(g).plus(e.linear(v), int64(-step))
		if len(d.t) > 2 {
			continue
		}
		varying := false
		for t := range d.t {
			if anyIn(t, func(x *Val) bool { return x.op == OpSym && x.aux.(symKey).kind == "phi" }) {
				varying = true
			}
		}
		if varying {
			continue
		}
		st.p.V[k] = e.fromLinear(d.plus(e.linear(w), int64(step)))
	}
}

// intFamilies groups the counters of functions: variables that are copied to
// each other or differ by constants.
func intFamilies(fns []*ssa.Function) []map[*ssa.Phi]bool {
	up := map[*ssa.Phi]*ssa.Phi{}
	var find func(p *ssa.Phi) *ssa.Phi
	find = func(p *ssa.Phi) *ssa.Phi {
		for up[p] != p {
			p = up[p]
		}
		return p
	}
	var order []*ssa.Phi
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if p, ok := in.(*ssa.Phi); ok && isIntTyped(p.Type()) {
					up[p] = p
					order = append(order, p)
				}
			}
		}
	}
	for _, p := range order {
		for _, ed := range p.Edges {
			for {
				b, ok := ed.(*ssa.BinOp)
				if !ok || b.Op != token.ADD && b.Op != token.SUB {
					break
				}
				ed = b.X
			}
			if q, ok := ed.(*ssa.Phi); ok && up[q] != nil {
				up[find(p)] = find(q)
			}
		}
	}
	idx := map[*ssa.Phi]int{}
	var r []map[*ssa.Phi]bool
	for _, p := range order {
		f := find(p)
		i, ok := idx[f]
		if !ok {
			i = len(r)
			idx[f] = i
			r = append(r, map[*ssa.Phi]bool{})
		}
		r[i][p] = true
	}
	return r
}

// ------------------------------------------------------------------

var tlsModes = []string{"disable", "allow", "prefer", "require", "verify-full"}

type connA struct {
	c       *Ctx
	connect int
}

func (a *connA) fail(e *Engine, st *State, id, key string, pos token.Pos, f string, args ...interface{}) {
	if a.c.check.ID == id {
		e.Report(st, key, pos, f, args...)
	}
}

func (a *connA) ok(e *Engine, id, rule string, in ssa.Instruction) {
	if a.c.check.ID == id {
		e.Site(rule, in)
	}
}

// structField: the named field of a struct value.
func (e *Engine) structField(v *Val, name string) *Val {
	s, ok := v.typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return e.fieldOf(v, i, s.Field(i).Type())
		}
	}
	return nil
}

// mode: the SSL modes a path may be about; "" for none requested, "?" for
// others.
func (a *connA) modes(e *Engine, st *State, s *Val) []string {
	var r []string
	bt := types.Typ[types.Bool]
	open := true
	for _, m := range append([]string{""}, tlsModes...) {
		switch e.Decide(st, e.binop(token.EQL, s, e.cstr(m), s.typ, bt)) {
		case 1:
			return []string{m}
		case -1:
			r = append(r, m)
		case 0:
		}
	}
	if open {
		r = append(r, "?")
	}
	return r
}

func (a *connA) run() {
	c := a.c
	fn := c.NeedFunc(pgPkg, "New")
	if fn == nil {
		return
	}
	if len(fn.Params) != 1 || derefStruct(fn.Params[0].Type()) == nil {
		c.Fail("anchor:New", fn.Pos(), "pg.New does not take a pointer to the options")
		return
	}
	o := c.in.mk(OpParam, fn.Params[0].Type(), ssa.Value(fn.Params[0]))
	h := &Hooks{}
	bt := types.Typ[types.Bool]
	known := func(e *Engine, st *State, v *Val, zero *Val) int {
		return e.Decide(st, e.binop(token.EQL, v, zero, v.typ, bt))
	}
	zeroOf := func(e *Engine, v *Val) *Val { return e.zero(v.typ) }
	var invalid func(e *Engine, st *State) bool // the path is about an unknown mode only
	invalid = func(e *Engine, st *State) bool {
		s := e.namedField(st, o, "SSLMode")
		if s == nil {
			return false
		}
		m := a.modes(e, st, s)
		return len(m) == 1 && m[0] == "?"
	}
	h.AfterCall = func(e *Engine, ev *CallEvent, res *Val) {
		st := ev.st
		pos := instrPos(ev.instr)
		if last := st.p.V["lasterr"]; last != nil && ev.results > 0 {
			for i, x := range ev.args {
				xs := []*Val{x}
				if i == len(ev.args)-1 {
					xs = append(xs, e.sliceItems(st, x)...)
				}
				for _, y := range xs {
					if unwrap(y) == unwrap(last) && res != nil && isErr(res.typ) {
						st.p.put("wraps", res, "")
					}
				}
			}
		}
		switch strings.TrimPrefix(ev.name, pgx+".") {
		case "ParseEnvLibpq":
			if res != nil && res.op == OpTuple {
				st.p.V["env"], st.p.V["enverr"] = res.a[0], res.a[1]
			}
		case "Connect":
			if res == nil || res.op != OpTuple {
				return
			}
			a.checkConnect(e, st, ev, o, known, zeroOf)
			it := types.Typ[types.Int]
			if st.p.F["tried"] != "" {
				if last := st.p.V["lasterr"]; st.p.F["failed"] == "" && (last == nil || !e.KnownNonNil(st, last)) {
					a.fail(e, st, "P02", "connect-again", pos, "connecting is attempted again although the previous attempt may have succeeded")
				}
				if st.p.F["may"] == "" {
					a.fail(e, st, "P02", "retries-unbounded", pos, "connecting is attempted again without the number of attempts being known to be within the configured retries")
				} else {
					a.ok(e, "P02", "attempts are counted", ev.instr)
				}
			}
			st.p.F["tried"] = "1"
			delete(st.p.F, "may")
			delete(st.p.F, "failed")
			delete(st.p.F, "spent")
			st.p.V["#att"] = e.binop(token.ADD, st.p.V["#att"], e.cint(1), it, it)
			st.p.V["conn"], st.p.V["lasterr"] = res.a[0], res.a[1]
		}
	}
	h.Branch = func(e *Engine, st *State, in *ssa.If, cond *Val, taken bool) {
		if st.p.F["tried"] == "" {
			return
		}
		if last := st.p.V["lasterr"]; last != nil && e.KnownNonNil(st, last) {
			st.p.F["failed"] = "1"
		}
		r := e.namedField(st, o, "ConnectRetries")
		g := st.p.V["#att"]
		if r == nil || g == nil {
			return
		}
		d := e.linear(r).plus(e.linear(g), -1) // retries - attempts
		if e.nonNeg(st, d) {
			st.p.F["may"] = "1"
		}
		d = linear{t: map[*Val]int64{}, k: -1}.plus(d, -1) // attempts - retries - 1
		if e.nonNeg(st, d) {
			st.p.F["spent"] = "1"
		}
	}
	h.Return = func(e *Engine, st *State, in ssa.Instruction, res []*Val) {
		pos := instrPos(in)
		err := errResult(res)
		last := st.p.V["lasterr"]
		enverr := st.p.V["enverr"]
		if e.KnownNonNil(st, err) {
			switch {
			case st.p.F["tried"] == "":
				if !(enverr != nil && e.KnownNonNil(st, enverr)) && !invalid(e, st) {
					a.fail(e, st, "P01", "mode-rejected", pos, "connecting fails without an attempt although the SSL mode may be valid")
				}
				a.ok(e, "P01", "rejected before connecting", in)
			default:
				if last != nil && unwrap(err) != unwrap(last) && !st.p.hasTag("wraps", err) && !st.p.hasTag("wraps", unwrap(err)) {
					a.fail(e, st, "P02", "other-error", pos, "the error that is reported is not that of the last attempt")
				}
				if st.p.F["failed"] == "" && !(last != nil && e.KnownNonNil(st, last)) {
					a.fail(e, st, "P02", "success-dropped", pos, "an attempt that may have succeeded is reported as a failure")
				}
				if st.p.F["spent"] == "" {
					a.fail(e, st, "P02", "gives-up", pos, "connecting fails although not all configured retries were used")
				}
				a.ok(e, "P02", "last error reported", in)
			}
			return
		}
		if last == nil || !(e.KnownNil(st, last) || unwrap(err) == unwrap(last)) {
			a.fail(e, st, "P02", "false-success", pos, "success is reported although the last attempt may have failed")
			return
		}
		if !e.KnownNil(st, err) {
			// return conn, err
			a.fail(e, st, "P02", "error-unknown", pos, "it cannot be told whether connecting succeeded")
			return
		}
		found := false
		if s := derefStruct(res[0].typ); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				if loadField(e, st, res[0], i) == st.p.V["conn"] {
					found = true
				}
			}
		}
		if !found {
			a.fail(e, st, "P02", "other-connection", pos, "the connection that is returned is not the one that was made")
		}
		a.ok(e, "P02", "connection returned", in)
	}
	p := newP()
	e := NewEngine(c.Program, h)
	p.V["#att"] = e.cint(0)
	e.Run(e.Start(fn, nil, p, "New"))
	c.Merge(e, "pg.New")
	// nothing else connects
	for _, f := range c.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() == nil {
					continue
				}
				n := ci.Common().StaticCallee().String()
				if strings.HasPrefix(n, pgx+".") && (strings.Contains(n, "Connect") || strings.Contains(n, "NewConnPool")) || strings.HasPrefix(n, "database/sql.Open") || strings.HasPrefix(n, "net.Dial") {
					if !c.staticReach(fn)[f] {
						c.Fail("connects-elsewhere:"+f.String(), instrPos(in), "a connection is made outside of pg.New")
					}
					c.OK("connections are made by pg.New", c.siteName(in))
				}
			}
		}
	}
}

func (a *connA) checkConnect(e *Engine, st *State, ev *CallEvent, o *Val, known func(*Engine, *State, *Val, *Val) int, zeroOf func(*Engine, *Val) *Val) {
	pos := instrPos(ev.instr)
	cfg := ev.args[0]
	env := st.p.V["env"]
	if env == nil {
		a.fail(e, st, "P02", "no-environment", pos, "the environment is not consulted before connecting")
		return
	}
	if ee := st.p.V["enverr"]; ee == nil || !e.KnownNil(st, ee) {
		a.fail(e, st, "P02", "environment-error", pos, "connecting is attempted although the environment could not be understood")
	}
	for _, f := range [][2]string{{"Host", "Host"}, {"Port", "Port"}, {"Username", "User"}, {"Password", "Password"}, {"Database", "Database"}} {
		ov, ev2, got := e.namedField(st, o, f[0]), e.structField(env, f[1]), e.structField(cfg, f[1])
		if ov == nil || got == nil {
			a.fail(e, st, "P02", "option-missing:"+f[0], pos, "there is no option %s", f[0])
			continue
		}
		got = unwrapConv(got)
		switch known(e, st, ov, zeroOf(e, ov)) {
		case 1:
			if got != ev2 && known(e, st, ev2, got) != 1 {
				a.fail(e, st, "P02", "environment-lost:"+f[0], pos, "the %s from the environment is not used although none was given explicitly", f[0])
				continue
			}
		case 0:
			if got != ov && known(e, st, ov, got) != 1 {
				a.fail(e, st, "P02", "option-lost:"+f[0], pos, "the %s that was given explicitly is not used", f[0])
				continue
			}
		default:
			a.fail(e, st, "P02", "option-blind:"+f[0], pos, "the %s is chosen without regard to whether it was given explicitly", f[0])
			continue
		}
		if a.c.check.ID == "P02" {
			a.c.OK("option wins over environment", f[0])
		}
	}
	s := e.namedField(st, o, "SSLMode")
	pw := e.structField(cfg, "Password")
	if s == nil || pw == nil {
		a.fail(e, st, "P01", "option-missing:SSLMode", pos, "there is no option SSLMode")
		return
	}
	for _, m := range a.modes(e, st, s) {
		eff := m
		if m == "" {
			switch known(e, st, pw, e.cstr("")) {
			case 1:
				eff = "env"
			case 0:
				eff = "verify-full"
			default:
				eff = "unclear"
			}
		}
		a.checkTLS(e, st, ev, cfg, env, eff)
	}
}

func (a *connA) checkTLS(e *Engine, st *State, ev *CallEvent, cfg, env *Val, mode string) {
	pos := instrPos(ev.instr)
	main, fb, use := e.structField(cfg, "TLSConfig"), e.structField(cfg, "FallbackTLSConfig"), e.structField(cfg, "UseFallbackTLS")
	bad := func(f string) {
		a.fail(e, st, "P01", "mode:"+mode+":"+f, pos, "with SSL mode %s %s", mode, f)
	}
	isTrue := func(v *Val) bool { return e.Decide(st, v) == 1 }
	isFalse := func(v *Val) bool { return e.Decide(st, v) == 0 }
	none := func(v *Val) bool { return isNilConst(v) || e.KnownNil(st, v) }
	// which fields of a TLS configuration are set
	tls := func(v *Val) (insecure, server *Val, other string) {
		s := derefStruct(v.typ)
		if s == nil || v.op != OpAlloc {
			return nil, nil, "?"
		}
		for i := 0; i < s.NumFields(); i++ {
			x := loadField(e, st, v, i)
			switch s.Field(i).Name() {
			case "InsecureSkipVerify":
				insecure = x
			case "ServerName":
				server = x
			case "MinVersion", "RootCAs":
			default:
				if x.op != OpZero && x != e.zero(s.Field(i).Type()) && !isNilConst(x) {
					other = s.Field(i).Name()
				}
			}
		}
		return
	}
	lax := func(v *Val, what string) {
		in, _, other := tls(v)
		if other != "" {
			bad("the TLS configuration of " + what + " cannot be determined")
		} else if in == nil || !isTrue(in) {
			bad("the certificate is verified by " + what + " although no host name is known to be checked")
		}
	}
	strict := func(v *Val, what string) {
		in, sn, other := tls(v)
		if other != "" {
			bad("the TLS configuration of " + what + " cannot be determined")
			return
		}
		if in == nil || !isFalse(in) {
			bad("the certificate is not verified by " + what)
		}
		if host := e.structField(cfg, "Host"); sn != host {
			bad("the certificate is not verified against the host name by " + what)
		}
	}
	n := len(e.findings)
	switch mode {
	case "env":
		for _, f := range []string{"TLSConfig", "FallbackTLSConfig", "UseFallbackTLS"} {
			if e.structField(cfg, f) != e.structField(env, f) {
				bad("from the environment, " + f + " is changed")
			}
		}
	case "disable":
		if !none(main) {
			bad("the first attempt may use TLS")
		}
		if !isFalse(use) && !none(fb) {
			bad("the second attempt may use TLS")
		}
	case "allow":
		if !none(main) {
			bad("the first attempt may use TLS")
		}
		if !isTrue(use) || none(fb) {
			bad("there may be no second attempt with TLS")
		} else {
			lax(fb, "the second attempt")
		}
	case "prefer":
		if none(main) || main.op != OpAlloc {
			bad("the first attempt may not use TLS")
		} else {
			lax(main, "the first attempt")
		}
		if !isTrue(use) || !none(fb) {
			bad("there may be no second attempt without TLS")
		}
	case "require":
		if none(main) || main.op != OpAlloc {
			bad("the first attempt may not use TLS")
		} else {
			lax(main, "the first attempt")
		}
		if !isFalse(use) {
			bad("there may be a second attempt")
		}
	case "verify-full":
		if none(main) || main.op != OpAlloc {
			bad("the first attempt may not use TLS")
		} else {
			strict(main, "the first attempt")
		}
		if !isFalse(use) {
			bad("there may be a second attempt")
		}
	case "?":
		bad("that is not known, connecting is attempted")
	default:
		bad("connecting is attempted without regard to the password")
	}
	if len(e.findings) == n && a.c.check.ID == "P01" {
		a.c.OK("mode has its meaning", mode)
	}
}

func init() {
	tech := "static analysis: path-sensitive abstract interpretation of SSA over symbolic configurations"
	register(&Check{ID: "P01", Technique: tech,
		Explanation: "Every path of pg.New to a connection attempt is interpreted with symbolic options and environment. What is known about the requested mode and the password on the path determines which TLS settings are allowed in the configuration that is passed to pgx.Connect; unknown modes must not reach an attempt, and valid ones must.",
		Assumptions: []string{"pgx honours TLSConfig, UseFallbackTLS and FallbackTLSConfig as documented."},
		Run: func(c *Ctx) {
			(&connA{c: c}).run()
			c.Floor("mode has its meaning", 6)
			c.Floor("rejected before connecting", 1)
		}})
	register(&Check{ID: "P02", Technique: tech + ", with a ghost counter of attempts related to the loop counter",
		Explanation: "For every attempt the configuration has to hold the explicit value if it is known to be given and that of the environment if it is known not to be. Attempts are counted by a ghost variable that is related to the counter of the loop; a further attempt needs a failed previous one and a known bound, a failure needs exhausted retries and the last error.",
		Run: func(c *Ctx) {
			(&connA{c: c}).run()
			c.Floor("option wins over environment", 5)
			c.Floor("attempts are counted", 1)
			c.Floor("last error reported", 1)
			c.Floor("connection returned", 1)
		}})
}
