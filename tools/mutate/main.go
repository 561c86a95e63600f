// mutate lists small changes of a Go file: mutate FILE prints the number of
// mutants, mutate FILE N OUT writes mutant N to OUT and describes it.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	desc string
	do   func()
}

var fset = token.NewFileSet()

func src(n ast.Node) string {
	var b bytes.Buffer
	format.Node(&b, fset, n)
	s := b.String()
	if len(s) > 90 {
		s = s[:90] + "..."
	}
	return s
}

func collect(f *ast.File) []mut {
	var ms []mut
	add := func(n ast.Node, what string, do func()) {
		ms = append(ms, mut{fmt.Sprintf("%d: %s: %s", fset.Position(n.Pos()).Line, what, src(n)), do})
	}
	swap := map[token.Token][]token.Token{
		token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LEQ}, token.GEQ: {token.GTR},
		token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.ADD: {token.SUB}, token.SUB: {token.ADD},
	}
	list := func(l []ast.Stmt, set func([]ast.Stmt)) {
		for i, s := range l {
			i := i
			del := func() {
				n := append(append([]ast.Stmt{}, l[:i]...), l[i+1:]...)
				set(n)
			}
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt, *ast.GoStmt:
				add(s, "delete", del)
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					add(s, "delete", del)
				}
			case *ast.IfStmt:
				add(x.Cond, "delete if", del)
			case *ast.BranchStmt:
				add(s, "delete", del)
				if x.Tok == token.CONTINUE && x.Label == nil {
					add(s, "break", func() { x.Tok = token.BREAK })
				} else if x.Tok == token.BREAK && x.Label == nil {
					add(s, "continue", func() { x.Tok = token.CONTINUE })
				}
			case *ast.ForStmt, *ast.RangeStmt:
				add(s, "delete loop", del)
			case *ast.ReturnStmt:
				add(s, "delete", del)
				for k, r := range x.Results {
					k := k
					if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
						add(s, "return nil error", func() { x.Results[k] = ast.NewIdent("nil") })
					}
				}
			}
			if i+1 < len(l) {
				add(s, "swap with next", func() {
					n := append([]ast.Stmt{}, l...)
					n[i], n[i+1] = n[i+1], n[i]
					set(n)
				})
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			list(x.List, func(l []ast.Stmt) { x.List = l })
		case *ast.CaseClause:
			list(x.Body, func(l []ast.Stmt) { x.Body = l })
			for i := range x.List {
				i := i
				if len(x.List) > 1 {
					add(x.List[i], "drop case", func() { x.List = append(append([]ast.Expr{}, x.List[:i]...), x.List[i+1:]...) })
				}
			}
		case *ast.SwitchStmt:
			for i, c := range x.Body.List {
				i := i
				add(c, "drop clause", func() {
					x.Body.List = append(append([]ast.Stmt{}, x.Body.List[:i]...), x.Body.List[i+1:]...)
				})
			}
		case *ast.CommClause:
			list(x.Body, func(l []ast.Stmt) { x.Body = l })
		case *ast.BinaryExpr:
			for _, t := range swap[x.Op] {
				t := t
				add(x, x.Op.String()+" -> "+t.String(), func() { x.Op = t })
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				add(x, "left operand only", func() { x.Y = x.X })
				add(x, "right operand only", func() { x.X = x.Y })
			}
		case *ast.IfStmt:
			add(x.Cond, "negate", func() { x.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: x.Cond}} })
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x, "drop !", func() { x.Op = token.ADD; x.X = &ast.ParenExpr{X: x.X}; *x = ast.UnaryExpr{Op: token.NOT, X: &ast.UnaryExpr{Op: token.NOT, X: x.X}} })
			}
		case *ast.BasicLit:
			switch x.Kind {
			case token.INT:
				v, err := strconv.Atoi(x.Value)
				if err == nil {
					add(x, "+1", func() { x.Value = strconv.Itoa(v + 1) })
					if v > 0 {
						add(x, "-1", func() { x.Value = strconv.Itoa(v - 1) })
					}
				}
			case token.STRING:
				if len(x.Value) > 2 {
					add(x, "change string", func() { x.Value = x.Value[:len(x.Value)-1] + "~" + x.Value[len(x.Value)-1:] })
					add(x, "empty string", func() { x.Value = `""` })
				}
			}
		case *ast.Ident:
			if x.Name == "true" {
				add(x, "false", func() { x.Name = "false" })
			} else if x.Name == "false" {
				add(x, "true", func() { x.Name = "true" })
			}
		case *ast.CallExpr:
			for i := 0; i+1 < len(x.Args); i++ {
				i := i
				add(x, fmt.Sprintf("swap args %d", i), func() { x.Args[i], x.Args[i+1] = x.Args[i+1], x.Args[i] })
			}
			for i, a := range x.Args {
				i := i
				if _, ok := a.(*ast.Ident); ok {
					if len(x.Args) > 1 {
						add(x, fmt.Sprintf("drop arg %d", i), func() { x.Args = append(append([]ast.Expr{}, x.Args[:i]...), x.Args[i+1:]...) })
					}
				}
			}
		case *ast.CompositeLit:
			for i := 0; i < len(x.Elts); i++ {
				i := i
				add(x.Elts[i], "drop element", func() { x.Elts = append(append([]ast.Expr{}, x.Elts[:i]...), x.Elts[i+1:]...) })
				if i+1 < len(x.Elts) {
					a, ok := x.Elts[i].(*ast.KeyValueExpr)
					b, ok2 := x.Elts[i+1].(*ast.KeyValueExpr)
					if ok && ok2 {
						add(a, "swap values with next", func() { a.Value, b.Value = b.Value, a.Value })
					}
				}
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 {
				if id, ok := x.Lhs[1].(*ast.Ident); ok && id.Name == "err" && x.Tok == token.ASSIGN {
					add(x, "ignore error", func() { x.Lhs[1] = ast.NewIdent("_") })
				}
			}
		case *ast.RangeStmt:
			switch e := x.X.(type) {
			case *ast.Ident, *ast.SelectorExpr:
				add(x.X, "skip first", func() { x.X = &ast.SliceExpr{X: e, Low: &ast.BasicLit{Kind: token.INT, Value: "1"}} })
			}
		}
		return true
	})
	return ms
}

func main() {
	f, err := parser.ParseFile(fset, os.Args[1], nil, parser.ParseComments)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	ms := collect(f)
	if len(os.Args) == 2 {
		fmt.Println(len(ms))
		return
	}
	n, _ := strconv.Atoi(os.Args[2])
	fmt.Println(ms[n].desc)
	ms[n].do()
	var b bytes.Buffer
	if err := format.Node(&b, fset, f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.WriteFile(os.Args[3], b.Bytes(), 0o644)
}
