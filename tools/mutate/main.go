// Command mutate writes small source mutants of a repository: one directory entry per mutant in a JSON list
// {file, off, end, new, what}. Used to find changes that no check notices; not part of any check.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	What string `json:"what"`
	Line int    `json:"line"`
}

func main() {
	root := os.Args[1]
	var out []mut
	filepath.Walk(root, func(p string, st os.FileInfo, err error) error {
		if err != nil || st.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, _ := os.ReadFile(p)
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, 0)
		if err != nil {
			panic(err)
		}
		rel, _ := filepath.Rel(root, p)
		off := func(x token.Pos) int { return fs.Position(x).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		add := func(a, b token.Pos, n, what string) {
			out = append(out, mut{rel, off(a), off(b), n, what, fs.Position(a).Line})
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BinaryExpr:
				alt := map[token.Token][]string{token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}}
				for _, a := range alt[x.Op] {
					add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a, x.Op.String()+" -> "+a)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					add(x.Pos(), x.End(), text(x.X), "drop right of "+x.Op.String())
					add(x.Pos(), x.End(), text(x.Y), "drop left of "+x.Op.String())
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					add(x.Pos(), x.End(), "("+x.Value+"+1)", x.Value+" + 1")
					if x.Value != "0" {
						add(x.Pos(), x.End(), "("+x.Value+"-1)", x.Value+" - 1")
					}
				}
			case *ast.IfStmt:
				add(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "if false")
				add(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "if true")
			case *ast.BlockStmt:
				for _, s := range x.List {
					switch s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt, *ast.BranchStmt:
						add(s.Pos(), s.End(), "", "drop "+strings.SplitN(text(s), "\n", 2)[0])
					case *ast.AssignStmt:
						if s.(*ast.AssignStmt).Tok != token.DEFINE {
							add(s.Pos(), s.End(), "", "drop "+strings.SplitN(text(s), "\n", 2)[0])
						}
					case *ast.ReturnStmt:
						if len(s.(*ast.ReturnStmt).Results) == 0 {
							add(s.Pos(), s.End(), "", "drop return")
						}
					}
					if d, ok := s.(*ast.DeferStmt); ok {
						add(d.Pos(), d.End(), text(d.Call), "defer removed: at once")
					}
					if d, ok := s.(*ast.GoStmt); ok {
						add(d.Pos(), d.End(), text(d.Call), "go removed: inline")
					}
				}
			case *ast.CaseClause:
				for _, s := range x.Body {
					if _, ok := s.(*ast.AssignStmt); ok {
						add(s.Pos(), s.End(), "", "drop "+text(s))
					}
				}
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					if id, ok := r.(*ast.Ident); ok {
						switch id.Name {
						case "err":
							add(r.Pos(), r.End(), "nil", "return nil error")
						case "true":
							add(r.Pos(), r.End(), "false", "return false")
						case "false":
							add(r.Pos(), r.End(), "true", "return true")
						}
					}
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					add(x.Low.Pos(), x.Low.End(), "("+text(x.Low)+")+1", "slice low+1")
				}
				if x.High != nil {
					add(x.High.Pos(), x.High.End(), "("+text(x.High)+")-1", "slice high-1")
				}
			}
			return true
		})
		return nil
	})
	b, _ := json.Marshal(out)
	fmt.Println(string(b))
}
