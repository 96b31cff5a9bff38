// mutate lists or applies small changes to Go files, to see which of them the
// checks notice: mutate FILE prints how many there are, mutate FILE N applies
// the Nth.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type edit struct {
	from, to int
	text     string
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.MUL: {"+"}, token.QUO: {"*"},
	token.REM: {"/"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"},
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	at := func(p token.Pos) int { return fs.Position(p).Offset }
	var es []edit
	add := func(a, b token.Pos, s string) { es = append(es, edit{at(a), at(b), s}) }
	text := func(n ast.Node) string { return string(src[at(n.Pos()):at(n.End())]) }
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.BinaryExpr:
			for _, s := range swaps[n.Op] {
				add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s)
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
					add(n.Pos(), n.End(), fmt.Sprint(v+1))
					if v > 0 {
						add(n.Pos(), n.End(), fmt.Sprint(v-1))
					}
				}
			}
		case *ast.IfStmt:
			add(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")")
			add(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")")
			add(n.Cond.Pos(), n.Cond.End(), "true || ("+text(n.Cond)+")")
		case *ast.BlockStmt:
			for _, s := range n.List {
				switch s := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt, *ast.DeferStmt, *ast.IfStmt:
					add(s.Pos(), s.End(), "{}")
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						add(s.Pos(), s.End(), "{}")
					}
				}
			}
		case *ast.CaseClause:
			for _, s := range n.Body {
				switch s := s.(type) {
				case *ast.ExprStmt, *ast.AssignStmt, *ast.IfStmt:
					add(s.Pos(), s.End(), "{}")
				}
			}
		}
		return true
	})
	if len(os.Args) == 2 {
		fmt.Println(len(es))
		return
	}
	i, _ := strconv.Atoi(os.Args[2])
	e := es[i]
	out := string(src[:e.from]) + e.text + string(src[e.to:])
	if err := os.WriteFile(os.Args[1], []byte(out), 0644); err != nil {
		panic(err)
	}
}
