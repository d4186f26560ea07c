// Command mutate lists small changes of Go source files, one JSON object per line:
// {"file","off","end","new","desc"}. survey.py applies them one at a time.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	Line int    `json:"line"`
	Desc string `json:"desc"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		tree, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(from, to token.Pos, neu, desc string) {
			enc.Encode(mutant{f, off(from), off(to), neu, fset.Position(from).Line, desc})
		}
		swap := map[token.Token][]token.Token{
			token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS, token.GTR}, token.GTR: {token.GEQ, token.LEQ}, token.GEQ: {token.GTR, token.LSS},
			token.EQL: {token.NEQ, token.GEQ, token.LEQ}, token.NEQ: {token.EQL, token.LSS, token.GTR}, token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.ADD}, token.QUO: {token.MUL}, token.REM: {token.QUO},
			token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.AND: {token.OR}, token.OR: {token.AND}, token.SHL: {token.SHR}, token.SHR: {token.SHL},
		}
		stmts := func(list []ast.Stmt) {
			for i, s := range list {
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.SendStmt:
					emit(s.Pos(), s.End(), "", "delete "+text(s))
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						neu := ""
						for _, l := range x.Lhs {
							_ = l
						}
						emit(s.Pos(), s.End(), neu, "delete "+text(s))
					}
				case *ast.IfStmt:
					if x.Else == nil && x.Init == nil {
						emit(s.Pos(), s.End(), "", "delete if "+text(x.Cond))
					}
					if x.Init != nil && x.Else == nil {
						emit(s.Pos(), s.End(), text(x.Init), "drop the test of "+text(x.Init))
					}
				case *ast.BranchStmt:
					if x.Tok == token.CONTINUE {
						emit(s.Pos(), s.End(), "break", "continue -> break")
						emit(s.Pos(), s.End(), "", "delete continue")
					} else if x.Tok == token.BREAK {
						emit(s.Pos(), s.End(), "", "delete break")
					}
				case *ast.RangeStmt:
					// skip the first or last element of a slice
					emit(x.X.Pos(), x.X.End(), "("+text(x.X)+")[1:]", "skip the first of "+text(x.X))
					emit(x.X.Pos(), x.X.End(), "("+text(x.X)+")[:len("+text(x.X)+")-1]", "skip the last of "+text(x.X))
				}
				if i+1 < len(list) {
					a, b := s, list[i+1]
					_, e1 := a.(*ast.ReturnStmt)
					_, e2 := b.(*ast.ReturnStmt)
					if !e1 && !e2 {
						emit(a.Pos(), b.End(), text(b)+"\n"+text(a), "swap with the next statement: "+text(a))
					}
				}
			}
		}
		ast.Inspect(tree, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.BinaryExpr:
				for _, t := range swap[x.Op] {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), t.String(), x.Op.String()+" -> "+t.String()+" in "+text(x))
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x.Pos(), x.End(), text(x.X), "only the left of "+text(x))
					emit(x.Pos(), x.End(), text(x.Y), "only the right of "+text(x))
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						emit(x.Pos(), x.End(), fmt.Sprint(v+1), x.Value+" -> +1")
						if v > 0 {
							emit(x.Pos(), x.End(), fmt.Sprint(v-1), x.Value+" -> -1")
						}
					}
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit(x.Pos(), x.End(), text(x.X), "drop ! of "+text(x))
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "false", "true -> false")
				} else if x.Name == "false" {
					emit(x.Pos(), x.End(), "true", "false -> true")
				}
			case *ast.CallExpr:
				for i := 0; i+1 < len(x.Args); i++ {
					a, b := x.Args[i], x.Args[i+1]
					if text(a) != text(b) {
						emit(a.Pos(), b.End(), text(b)+", "+text(a), "swap arguments of "+text(x))
					}
				}
				if sel, ok := x.Fun.(*ast.SelectorExpr); ok {
					if sel.Sel.Name == "Copy" && len(x.Args) == 0 {
						emit(x.Pos(), x.End(), text(sel.X), "no copy of "+text(sel.X))
					}
				}
				if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && len(x.Args) == 2 {
					emit(x.Pos(), x.End(), text(x.Args[0]), "drop "+text(x))
				}
			case *ast.ReturnStmt:
				if k := len(x.Results); k > 0 {
					l := x.Results[k-1]
					if t := text(l); t != "nil" {
						emit(l.Pos(), l.End(), "nil", "return nil instead of "+t)
					}
				}
			case *ast.SliceExpr:
				if x.Low != nil && x.High == nil {
					emit(x.Low.Pos(), x.Low.End(), "", "drop the low bound of "+text(x))
				}
				if x.High != nil && x.Low == nil && !x.Slice3 {
					emit(x.High.Pos(), x.High.End(), "", "drop the high bound of "+text(x))
				}
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
				if len(x.List) > 1 {
					for i := range x.List {
						neu := ""
						for j, e := range x.List {
							if j != i {
								if neu != "" {
									neu += ", "
								}
								neu += text(e)
							}
						}
						emit(x.List[0].Pos(), x.List[len(x.List)-1].End(), neu, "drop the case "+text(x.List[i]))
					}
				}
			}
			return true
		})
	}
}
