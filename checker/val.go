package main

// Abstract values: hash-consed terms. Two registers that hold the same
// *Val hold the same run-time value on the path under consideration.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Op uint8

const (
	OpConst Op = iota
	OpParam
	OpGlobal
	OpFunc
	OpSym // unknown result of one execution of a site (two most recent generations are kept apart)
	OpAlloc
	OpFieldAddr
	OpIndexAddr
	OpField
	OpIndex
	OpLoad // content of memory the analysed region has not written
	OpPure // application of a pure function
	OpBin
	OpUn
	OpIface
	OpAssert
	OpConv
	OpClosure
	OpSlice
	OpAgg
	OpTuple
	OpZero
	OpBuiltin
)

type symKey struct {
	kind string
	site interface{}
	ctx  int
	idx  int
	gen  int
}

type Val struct {
	id    int
	op    Op
	typ   types.Type
	aux   interface{}
	a     []*Val
	depth int
}

type vkey struct {
	op  Op
	aux interface{}
	typ string
	a   string
}

type Interner struct {
	m    map[vkey]*Val
	list []*Val
}

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, nil)
}

func (in *Interner) mk(op Op, typ types.Type, aux interface{}, args ...*Val) *Val {
	var sb strings.Builder
	d := 0
	for _, x := range args {
		if x == nil {
			panic("nil arg to mk")
		}
		fmt.Fprintf(&sb, "%d,", x.id)
		if x.depth > d {
			d = x.depth
		}
	}
	tk := ""
	switch op {
	case OpConst, OpZero, OpIface, OpAssert, OpConv, OpAgg:
		tk = typeKey(typ)
	}
	k := vkey{op, aux, tk, sb.String()}
	if v := in.m[k]; v != nil {
		return v
	}
	v := &Val{id: len(in.list), op: op, typ: typ, aux: aux, a: args, depth: d + 1}
	in.m[k] = v
	in.list = append(in.list, v)
	return v
}

func (v *Val) String() string { return v.str(6) }

func (v *Val) str(d int) string {
	if d == 0 {
		return "…"
	}
	arg := func(i int) string {
		if i < len(v.a) {
			return v.a[i].str(d - 1)
		}
		return "?"
	}
	args := func() string {
		var s []string
		for i := range v.a {
			s = append(s, arg(i))
		}
		return strings.Join(s, ", ")
	}
	switch v.op {
	case OpConst:
		return fmt.Sprint(v.aux)
	case OpZero:
		return "zero(" + typeKey(v.typ) + ")"
	case OpParam:
		return v.aux.(ssa.Value).Name()
	case OpGlobal:
		return "&" + v.aux.(*ssa.Global).Name()
	case OpFunc:
		return v.aux.(*ssa.Function).Name()
	case OpSym:
		k := v.aux.(symKey)
		s := fmt.Sprintf("%s#%d.%d", k.kind, k.idx, k.gen)
		if k.gen > 0 {
			s += "'"
		}
		if len(v.a) > 0 {
			s += "(" + args() + ")"
		}
		return s
	case OpAlloc:
		k := v.aux.(symKey)
		return "new:" + k.kind
	case OpFieldAddr, OpField:
		return arg(0) + "." + fieldName(v)
	case OpIndexAddr, OpIndex:
		return arg(0) + "[" + arg(1) + "]"
	case OpLoad:
		return "*" + arg(0)
	case OpPure:
		return v.aux.(string) + "(" + args() + ")"
	case OpBin:
		return "(" + arg(0) + " " + v.aux.(token.Token).String() + " " + arg(1) + ")"
	case OpUn:
		return v.aux.(token.Token).String() + arg(0)
	case OpIface:
		return "iface(" + arg(0) + ")"
	case OpAssert:
		return arg(0) + ".(" + typeKey(v.typ) + ")"
	case OpConv:
		return typeKey(v.typ) + "(" + arg(0) + ")"
	case OpClosure:
		return "closure " + v.aux.(*ssa.Function).Name()
	case OpSlice:
		return "slice(" + args() + ")"
	case OpAgg:
		return "{" + args() + "}"
	case OpTuple:
		return "(" + args() + ")"
	case OpBuiltin:
		return v.aux.(*ssa.Builtin).Name()
	}
	return "?"
}

func derefStruct(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func fieldName(v *Val) string {
	i, ok := v.aux.(int)
	if !ok {
		return "?"
	}
	if len(v.a) == 1 {
		if s := derefStruct(v.a[0].typ); s != nil && i < s.NumFields() {
			return s.Field(i).Name()
		}
	}
	return fmt.Sprint(i)
}

func isConst(v *Val) bool { return v.op == OpConst || v.op == OpZero && false }

// constVal returns the constant value, nil constant.Value for a nil constant.
func constVal(v *Val) (constant.Value, bool) {
	if v.op != OpConst {
		return nil, false
	}
	if v.aux == "nil" {
		return nil, true
	}
	return v.aux.(cval).v, true
}

// cval makes constants comparable by content.
type cval struct {
	s string
	v constant.Value
}

func (c cval) String() string { return c.s }

// constants are interned through their exact string
var cvals = map[string]cval{}

func mkc(v constant.Value) cval {
	s := v.Kind().String() + ":" + v.ExactString()
	if c, ok := cvals[s]; ok {
		return c
	}
	c := cval{v.ExactString(), v}
	cvals[s] = c
	return c
}

func (in *Interner) Const(t types.Type, v constant.Value) *Val {
	// the type of a constant is irrelevant for comparisons
	x := in.mk2const(v)
	return x
}

func (in *Interner) mk2const(v constant.Value) *Val {
	c := mkc(v)
	k := vkey{OpConst, c.s + "|" + v.Kind().String(), "", ""}
	if x := in.m[k]; x != nil {
		return x
	}
	x := &Val{id: len(in.list), op: OpConst, aux: c, depth: 1}
	in.m[k] = x
	in.list = append(in.list, x)
	return x
}

func (in *Interner) Nil() *Val {
	k := vkey{OpConst, "nil", "", ""}
	if x := in.m[k]; x != nil {
		return x
	}
	x := &Val{id: len(in.list), op: OpConst, aux: "nil", depth: 1}
	in.m[k] = x
	in.list = append(in.list, x)
	return x
}

func isNilConst(v *Val) bool { return v.op == OpConst && v.aux == "nil" }

func constInt(v *Val) (int64, bool) {
	if c, ok := constVal(v); ok && c != nil && c.Kind() == constant.Int {
		return constant.Int64Val(c)
	}
	return 0, false
}

func constStr(v *Val) (string, bool) {
	if c, ok := constVal(v); ok && c != nil && c.Kind() == constant.String {
		return constant.StringVal(c), true
	}
	return "", false
}

func constBool(v *Val) (bool, bool) {
	if c, ok := constVal(v); ok && c != nil && c.Kind() == constant.Bool {
		return constant.BoolVal(c), true
	}
	return false, false
}

// Unwrap strips interface boxing and type conversions.
func unwrap(v *Val) *Val {
	for v.op == OpIface || v.op == OpConv {
		v = v.a[0]
	}
	return v
}

// mentions reports whether sub occurs in v.
func mentions(v, sub *Val) bool {
	if v == sub {
		return true
	}
	for _, x := range v.a {
		if mentions(x, sub) {
			return true
		}
	}
	return false
}

// anyIn reports whether a subterm of v satisfies p.
func anyIn(v *Val, p func(*Val) bool) bool {
	if p(v) {
		return true
	}
	for _, x := range v.a {
		if anyIn(x, p) {
			return true
		}
	}
	return false
}

func sortedVals(m map[*Val]bool) []*Val {
	r := make([]*Val, 0, len(m))
	for v := range m {
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}
