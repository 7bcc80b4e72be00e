// mutate lists or applies small syntactic changes to a Go file.
// usage: mutate FILE            prints the number of mutants and one line for each
//        mutate FILE N          prints the file with mutant N applied
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	what string
	pos  token.Pos
	do   func()
}

func main() {
	file := os.Args[1]
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, nil, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var ms []mutant
	add := func(n ast.Node, what string, do func()) {
		ms = append(ms, mutant{what, n.Pos(), do})
	}
	swap := map[token.Token][]token.Token{
		token.EQL: {token.NEQ}, token.NEQ: {token.EQL},
		token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS, token.GTR}, token.GTR: {token.GEQ, token.LSS}, token.GEQ: {token.GTR, token.LSS},
		token.LAND: {token.LOR}, token.LOR: {token.LAND},
		token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.QUO}, token.QUO: {token.MUL},
	}
	text := func(n ast.Node) string {
		var b bytes.Buffer
		format.Node(&b, fset, n)
		s := b.String()
		if len(s) > 60 {
			s = s[:60]
		}
		return strconv.Quote(s)
	}
	list := func(l *[]ast.Stmt) {
		for i := range *l {
			i := i
			s := (*l)[i]
			switch s := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
				add(s, "delete "+text(s), func() { *l = append(append([]ast.Stmt{}, (*l)[:i]...), (*l)[i+1:]...) })
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					add(s, "delete "+text(s), func() {
						(*l)[i] = &ast.AssignStmt{Lhs: blanks(len(s.Rhs)), Tok: token.ASSIGN, Rhs: s.Rhs}
					})
				}
			case *ast.BranchStmt:
				add(s, "delete "+text(s), func() { (*l)[i] = &ast.EmptyStmt{} })
				if s.Tok == token.CONTINUE {
					add(s, "continue to break", func() { s.Tok = token.BREAK })
				}
				if s.Tok == token.BREAK {
					add(s, "break to continue", func() { s.Tok = token.CONTINUE })
				}
			case *ast.IfStmt:
				add(s, "delete "+text(s), func() { (*l)[i] = &ast.IfStmt{Init: s.Init, Cond: &ast.BinaryExpr{X: s.Cond, Op: token.LAND, Y: ast.NewIdent("false")}, Body: s.Body, Else: s.Else} })
				add(s, "always "+text(s), func() { (*l)[i] = &ast.IfStmt{Init: s.Init, Cond: &ast.BinaryExpr{X: s.Cond, Op: token.LOR, Y: ast.NewIdent("true")}, Body: s.Body, Else: s.Else} })
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.BlockStmt:
			list(&n.List)
		case *ast.CaseClause:
			list(&n.Body)
			for i := range n.List {
				i := i
				if len(n.List) > 1 {
					add(n.List[i], "delete case "+text(n.List[i]), func() { n.List = append(append([]ast.Expr{}, n.List[:i]...), n.List[i+1:]...) })
				}
			}
		case *ast.BinaryExpr:
			for _, op := range swap[n.Op] {
				op := op
				add(n, text(n)+" with "+op.String(), func() { n.Op = op })
			}
			if n.Op == token.LAND || n.Op == token.LOR {
				add(n, "left only "+text(n), func() {
					id := "true"
					if n.Op == token.LOR {
						id = "false"
					}
					n.Y = &ast.ParenExpr{X: &ast.BinaryExpr{X: ast.NewIdent(id), Op: n.Op, Y: n.Y}}
					if n.Op == token.LOR {
						n.Y = &ast.BinaryExpr{X: ast.NewIdent("false"), Op: token.LAND, Y: n.Y}
					} else {
						n.Y = &ast.BinaryExpr{X: ast.NewIdent("true"), Op: token.LOR, Y: n.Y}
						n.Y = &ast.ParenExpr{X: n.Y}
					}
				})
				add(n, "right only "+text(n), func() {
					if n.Op == token.LOR {
						n.X = &ast.ParenExpr{X: &ast.BinaryExpr{X: ast.NewIdent("false"), Op: token.LAND, Y: n.X}}
					} else {
						n.X = &ast.ParenExpr{X: &ast.BinaryExpr{X: ast.NewIdent("true"), Op: token.LOR, Y: n.X}}
					}
				})
			}
		case *ast.UnaryExpr:
			if n.Op == token.NOT {
				add(n, "drop ! in "+text(n), func() {
					n.X = &ast.UnaryExpr{Op: token.NOT, X: n.X}
				})
			}
		case *ast.BasicLit:
			switch n.Kind {
			case token.INT:
				v, err := strconv.Atoi(n.Value)
				if err == nil {
					add(n, n.Value+" + 1", func() { n.Value = strconv.Itoa(v + 1) })
					if v > 0 {
						add(n, n.Value+" - 1", func() { n.Value = strconv.Itoa(v - 1) })
					}
				}
			case token.STRING:
				if n.Value != `""` {
					add(n, n.Value+" to empty", func() { n.Value = `""` })
				}
			}
		case *ast.Ident:
			if n.Name == "true" {
				add(n, "true to false", func() { n.Name = "false" })
			}
			if n.Name == "false" {
				add(n, "false to true", func() { n.Name = "true" })
			}
		}
		return true
	})
	if len(os.Args) == 2 {
		for i, m := range ms {
			fmt.Printf("%d %d %s\n", i, fset.Position(m.pos).Line, strconv.Quote(m.what))
		}
		return
	}
	i, _ := strconv.Atoi(os.Args[2])
	ms[i].do()
	var b bytes.Buffer
	if err := format.Node(&b, fset, f); err != nil {
		panic(err)
	}
	os.Stdout.Write(b.Bytes())
}

func blanks(n int) []ast.Expr {
	var out []ast.Expr
	for i := 0; i < n; i++ {
		out = append(out, ast.NewIdent("_"))
	}
	return out
}
