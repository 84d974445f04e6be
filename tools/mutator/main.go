// mutator FILE [N]: without N lists the mutants of a Go file, one per line; with N writes the mutated file to stdout.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	from, to int
	text     string
	what     string
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var ms []mut
	add := func(from, to token.Pos, text, what string) {
		ms = append(ms, mut{off(from), off(to), text, fmt.Sprintf("%d: %s", fs.Position(from).Line, what)})
	}
	short := func(s string) string {
		s = strings.Join(strings.Fields(s), " ")
		if len(s) > 70 {
			s = s[:70] + "..."
		}
		return s
	}
	swap := map[token.Token][]string{
		token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
		token.ADD: {"-"}, token.SUB: {"+"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"},
	}
	stmts := func(list []ast.Stmt) {
		for i, s := range list {
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt:
				add(s.Pos(), s.End(), "", "delete "+short(txt(s)))
			case *ast.DeferStmt:
				add(s.Pos(), s.End(), "", "delete "+short(txt(s)))
			case *ast.GoStmt:
				add(s.Pos(), s.End(), "", "delete "+short(txt(s)))
				add(s.Pos(), x.Call.Pos(), "", "inline "+short(txt(s)))
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					add(s.Pos(), s.End(), "", "delete "+short(txt(s)))
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 0 {
					add(s.Pos(), s.End(), "", "delete return")
				}
			case *ast.BranchStmt:
				add(s.Pos(), s.End(), "", "delete "+txt(s))
			case *ast.IfStmt:
				if x.Init == nil && x.Else == nil {
					add(s.Pos(), s.End(), "", "delete if "+short(txt(x.Cond))+" {...}")
				}
				add(x.Cond.Pos(), x.Cond.End(), "!("+txt(x.Cond)+")", "negate "+short(txt(x.Cond)))
			}
			// two neighbouring calls or assignments the other way round
			if i+1 < len(list) {
				n := list[i+1]
				plain := func(s ast.Stmt) bool {
					switch x := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt:
						return true
					case *ast.AssignStmt:
						return x.Tok != token.DEFINE
					}
					return false
				}
				if plain(s) && plain(n) {
					add(s.Pos(), n.End(), txt(n)+"\n"+txt(s), "swap "+short(txt(s))+" / "+short(txt(n)))
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				return false
			}
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
			if len(x.Body) > 0 {
				last := x.Body[len(x.Body)-1]
				add(x.Pos(), last.End(), "", "delete case "+short(txt(x)))
			}
		case *ast.CommClause:
			stmts(x.Body)
		case *ast.BinaryExpr:
			if l, ok := x.X.(*ast.BasicLit); ok && l.Kind == token.STRING {
				return true
			}
			for _, o := range swap[x.Op] {
				add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, x.Op.String()+" -> "+o+" in "+short(txt(x)))
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				add(x.Pos(), x.End(), "("+x.Value+"+1)", x.Value+" -> "+x.Value+"+1")
			}
		case *ast.Ident:
			if x.Name == "true" {
				add(x.Pos(), x.End(), "false", "true -> false")
			} else if x.Name == "false" {
				add(x.Pos(), x.End(), "true", "false -> true")
			}
		}
		return true
	})
	if len(os.Args) < 3 {
		for i, m := range ms {
			fmt.Printf("%d\t%s\n", i, m.what)
		}
		return
	}
	k, _ := strconv.Atoi(os.Args[2])
	m := ms[k]
	os.Stdout.Write(src[:m.from])
	os.Stdout.WriteString(m.text)
	os.Stdout.Write(src[m.to:])
}
