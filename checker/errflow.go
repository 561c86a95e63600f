package main

// Errors must not get lost: every error result that may be non-nil where the
// function returns has to make the returned error non-nil.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ErrFlow struct {
	// Skip: errors of these calls are not part of the property.
	Skip func(ev *CallEvent) bool
	Rule string
	Fail func(e *Engine, st *State, key string, in ssa.Instruction, f string, a ...interface{})
}

var errType = types.Universe.Lookup("error").Type()

func isErr(t types.Type) bool { return t != nil && types.Identical(t, errType) }

func shortName(n string) string {
	return strings.ReplaceAll(strings.ReplaceAll(n, Module+"/", ""), "github.com/jackc/", "")
}

// AfterCall is to be called from the AfterCall hook.
func (x *ErrFlow) AfterCall(e *Engine, ev *CallEvent, res *Val) {
	if x.Skip != nil && x.Skip(ev) || ev.name == "errors.New" || ev.name == "fmt.Errorf" {
		return
	}
	sig := ev.instr.Common().Signature().Results()
	for i := 0; i < sig.Len(); i++ {
		if !isErr(sig.At(i).Type()) {
			continue
		}
		v := res
		if sig.Len() > 1 {
			if res == nil || res.op != OpTuple {
				continue
			}
			v = res.a[i]
		}
		if ev.isDefer || v == nil {
			// the result of a deferred call cannot be used
			if !ev.isDefer {
				continue
			}
			if x.Fail != nil && ev.isDefer {
				ev.st.p.F["ef.lost"] = shortName(ev.name)
			}
			continue
		}
		if e.KnownNil(ev.st, v) {
			continue
		}
		if e.KnownNonNil(ev.st, v) {
			ev.st.p.F["ef.failed"] = shortName(ev.name)
			continue
		}
		ev.st.p.put("ef.err", v, shortName(ev.name))
	}
}

// Branch is to be called from the Branch hook.
func (x *ErrFlow) Branch(e *Engine, st *State) {
	for _, v := range st.p.each("ef.err") {
		if e.KnownNil(st, v) {
			st.p.del("ef.err", v)
		} else if e.KnownNonNil(st, v) {
			st.p.F["ef.failed"], _ = st.p.get("ef.err", v)
			st.p.del("ef.err", v)
		}
	}
}

// Return judges the error a root function returns; nil if it returns none.
// It reports whether the return is a (possible) success.
func (x *ErrFlow) Return(e *Engine, st *State, in ssa.Instruction, err *Val) bool {
	x.Branch(e, st)
	if err != nil && e.KnownNonNil(st, err) {
		e.Site(x.Rule, in)
		return false
	}
	ok := true
	if f := st.p.F["ef.failed"]; f != "" {
		x.Fail(e, st, "error-lost:"+f, in, "%s failed, but no error is returned", f)
		ok = false
	}
	if f := st.p.F["ef.lost"]; f != "" {
		x.Fail(e, st, "error-ignored:"+f, in, "the error of the deferred call of %s is ignored", f)
		ok = false
	}
	for _, v := range st.p.each("ef.err") {
		if v == err || err != nil && unwrap(err) == unwrap(v) {
			continue
		}
		n, _ := st.p.get("ef.err", v)
		x.Fail(e, st, "error-lost:"+n, in, "the error of %s is neither nil nor returned here", n)
		ok = false
	}
	if ok {
		e.Site(x.Rule, in)
	}
	return true
}

// Fork adds another outcome of a call: result res, and whatever f does.
func (e *Engine) Fork(ev *CallEvent, res *Val, f func(st *State)) {
	if ev.isDefer {
		return
	}
	o := ev.st.clone()
	fr := o.top()
	if c, ok := ev.instr.(*ssa.Call); ok && res != nil {
		fr.regs[c] = res
	}
	fr.pc++
	f(o)
	e.forks = append(e.forks, o)
}
