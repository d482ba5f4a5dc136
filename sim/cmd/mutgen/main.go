// Mutgen lists small mechanical changes ("mutants") of Go source files, one
// JSON object per line.  It is a development tool: tools/mutate.py uses it to
// find out what the checks miss.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
)

type mut struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	Len  int    `json:"len"`
	New  string `json:"new"`
	Line int    `json:"line"`
	Func string `json:"func"`
	Desc string `json:"desc"`
}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, file := range os.Args[2:] {
		src, err := os.ReadFile(filepath.Join(root, file))
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		short := func(s string) string {
			if len(s) > 70 {
				s = s[:70] + "..."
			}
			return s
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			emit := func(n ast.Node, repl, desc string) {
				enc.Encode(mut{file, off(n.Pos()), off(n.End()) - off(n.Pos()), repl,
					fset.Position(n.Pos()).Line, fd.Name.Name, desc})
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.IfStmt:
					c := text(n.Cond)
					if c == "err != nil" {
						return true
					}
					emit(n.Cond, "false && ("+c+")", "if never: "+short(c))
					emit(n.Cond, "true || ("+c+")", "if always: "+short(c))
				case *ast.BinaryExpr:
					x, y := text(n.X), text(n.Y)
					var ops []string
					switch n.Op {
					case token.LSS:
						ops = []string{"<="}
					case token.LEQ:
						ops = []string{"<"}
					case token.GTR:
						ops = []string{">="}
					case token.GEQ:
						ops = []string{">"}
					case token.LAND:
						emit(n, x, "drop && "+short(y))
						emit(n, y, "drop "+short(x)+" &&")
					case token.LOR:
						emit(n, x, "drop || "+short(y))
						emit(n, y, "drop "+short(x)+" ||")
					case token.ADD:
						ops = []string{"-"}
					case token.SUB:
						ops = []string{"+"}
					case token.EQL:
						if y != "nil" {
							ops = []string{"!="}
						}
					case token.NEQ:
						if y != "nil" {
							ops = []string{"=="}
						}
					}
					for _, o := range ops {
						emit(n, x+" "+o+" "+y, short(text(n))+" -> "+o)
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil && v > 0 && v < 1<<31 {
							emit(n, fmt.Sprint(v+1), n.Value+" -> +1")
							emit(n, fmt.Sprint(v-1), n.Value+" -> -1")
						}
					}
				case *ast.BlockStmt:
					for _, s := range n.List {
						switch s := s.(type) {
						case *ast.AssignStmt:
							if s.Tok != token.DEFINE {
								emit(s, "", "delete "+short(text(s)))
							}
						case *ast.ExprStmt, *ast.IncDecStmt:
							emit(s, "", "delete "+short(text(s)))
						case *ast.BranchStmt:
							if s.Label == nil {
								emit(s, "", "delete "+short(text(s)))
							}
						}
					}
				}
				return true
			})
		}
	}
}
