// mutate lists or applies small changes to the Go files of a copy of /repo (development only).
// usage: mutate <repo> list | mutate <repo> <n>
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type mutant struct {
	file     string
	from, to int
	with     string
	what     string
}

func main() {
	root := os.Args[1]
	var files []string
	filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") && !strings.Contains(p, "/.git/") {
			files = append(files, p)
		}
		return nil
	})
	sort.Strings(files)
	var l []mutant
	for _, f := range files {
		src, _ := os.ReadFile(f)
		fset := token.NewFileSet()
		a, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		add := func(from, to token.Pos, with, what string) {
			l = append(l, mutant{f, off(from), off(to), with, fmt.Sprintf("%s:%d %s", strings.TrimPrefix(f, root+"/"), fset.Position(from).Line, what)})
		}
		swap := map[token.Token][]string{
			token.LSS: {"<=", "!="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!=", "<="}, token.NEQ: {"==", "<"},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"},
		}
		ast.Inspect(a, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.GenDecl:
				return n.Tok == token.VAR
			case *ast.BinaryExpr:
				for _, o := range swap[n.Op] {
					add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o, text(n)+" => "+o)
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					v, _ := strconv.Atoi(n.Value)
					add(n.Pos(), n.End(), strconv.Itoa(v+1), n.Value+" => "+strconv.Itoa(v+1))
				}
			case *ast.IncDecStmt:
				add(n.Pos(), n.End(), "", "drop "+text(n))
			case *ast.ExprStmt:
				add(n.Pos(), n.End(), "", "drop "+text(n))
			case *ast.DeferStmt:
				add(n.Pos(), n.End(), "", "drop "+text(n))
			case *ast.AssignStmt:
				if n.Tok != token.DEFINE {
					add(n.Pos(), n.End(), "", "drop "+text(n))
				}
				switch n.Tok {
				case token.ADD_ASSIGN:
					add(n.TokPos, n.TokPos+2, "-=", text(n)+" => -=")
				case token.SUB_ASSIGN:
					add(n.TokPos, n.TokPos+2, "+=", text(n)+" => +=")
				}
			case *ast.IfStmt:
				add(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "not "+text(n.Cond))
				add(n.Cond.Pos(), n.Cond.End(), text(n.Cond)+" && false", "never "+text(n.Cond))
			case *ast.BranchStmt:
				if n.Label == nil {
					if n.Tok == token.BREAK {
						add(n.Pos(), n.End(), "continue", "break => continue")
					} else if n.Tok == token.CONTINUE {
						add(n.Pos(), n.End(), "break", "continue => break")
					}
				}
			case *ast.CallExpr:
				for i := 0; i+1 < len(n.Args); i++ {
					x, y := n.Args[i], n.Args[i+1]
					if text(x) != text(y) {
						add(x.Pos(), y.End(), text(y)+", "+text(x), "swap "+text(n))
					}
				}
				if s, ok := n.Fun.(*ast.SelectorExpr); ok {
					o := map[string]string{"Rows": "Columns", "Columns": "Rows", "RowsAt": "ColumnsAt", "ColumnsAt": "RowsAt", "RLock": "Lock", "Lock": "RLock", "RUnlock": "Unlock", "Unlock": "RUnlock"}[s.Sel.Name]
					if o != "" {
						add(s.Sel.Pos(), s.Sel.End(), o, text(n)+" => "+o)
					}
				}
			case *ast.SelectorExpr:
				if o := map[string]string{"r": "c", "c": "r"}[n.Sel.Name]; o != "" {
					add(n.Sel.Pos(), n.Sel.End(), o, text(n)+" => "+o)
				}
			case *ast.ReturnStmt:
				if len(n.Results) == 1 {
					switch text(n.Results[0]) {
					case "true":
						add(n.Results[0].Pos(), n.Results[0].End(), "false", "return true => false")
					case "false":
						add(n.Results[0].Pos(), n.Results[0].End(), "true", "return false => true")
					}
				}
			}
			return true
		})
	}
	if os.Args[2] == "list" {
		for i, m := range l {
			fmt.Println(i, strings.ReplaceAll(m.what, "\n", " "))
		}
		return
	}
	n, _ := strconv.Atoi(os.Args[2])
	m := l[n]
	src, _ := os.ReadFile(m.file)
	os.WriteFile(m.file, []byte(string(src[:m.from])+m.with+string(src[m.to:])), 0o644)
	fmt.Println(strings.ReplaceAll(m.what, "\n", " "))
}
