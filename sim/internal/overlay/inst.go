package overlay

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const impName = "simrt__"

// Instrument inserts a yield point in front of every statement of every
// function body in the given source file.
func Instrument(path string, src []byte) ([]byte, int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, 0, err
	}
	type ins struct {
		off  int
		text string
	}
	var inss []ins
	off := func(p token.Pos) int { return fset.PositionFor(p, false).Offset }
	call := impName + ".SimY();"

	skip := map[*ast.BlockStmt]bool{}
	doList := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			inss = append(inss, ins{off(s.Pos()), call})
		}
	}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Doc != nil {
			bad := false
			for _, c := range fd.Doc.List {
				if strings.HasPrefix(c.Text, "//go:nosplit") || strings.HasPrefix(c.Text, "//go:linkname") {
					bad = true
				}
			}
			if bad {
				continue
			}
		}
		ast.Inspect(d, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.SwitchStmt:
				skip[n.Body] = true
			case *ast.TypeSwitchStmt:
				skip[n.Body] = true
			case *ast.SelectStmt:
				skip[n.Body] = true
			case *ast.ForStmt:
				if len(n.Body.List) == 0 {
					inss = append(inss, ins{off(n.Body.Lbrace) + 1, call})
				}
			case *ast.RangeStmt:
				if len(n.Body.List) == 0 {
					inss = append(inss, ins{off(n.Body.Lbrace) + 1, call})
				}
			case *ast.BlockStmt:
				if !skip[n] {
					doList(n.List)
				}
			case *ast.CaseClause:
				doList(n.Body)
			case *ast.CommClause:
				doList(n.Body)
			}
			return true
		})
	}
	if len(inss) == 0 {
		return src, 0, nil
	}
	count := len(inss)
	inss = append(inss, ins{off(f.Name.End()), ";import " + impName + " \"runtime\""})
	sort.SliceStable(inss, func(i, j int) bool { return inss[i].off < inss[j].off })
	var out []byte
	pos := 0
	for _, in := range inss {
		out = append(out, src[pos:in.off]...)
		out = append(out, in.text...)
		pos = in.off
	}
	out = append(out, src[pos:]...)
	out = append(out, ("\nvar _ = " + impName + ".SimY\n")...)
	return out, count, nil
}

// InstrumentTree instruments all non-test Go files below root (skipping the
// directories named in skip) and records the copies in repl.
func InstrumentTree(root, dstDir, tag string, skip func(rel string) bool, repl map[string]string) (files, points int, err error) {
	err = filepath.WalkDir(root, func(path string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(root, path)
		if d.IsDir() {
			base := d.Name()
			if rel != "." && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" || base == "vendor" || skip(rel)) {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		out, n, err := Instrument(path, src)
		if err != nil {
			return fmt.Errorf("instrumenting %s: %w", path, err)
		}
		if n == 0 {
			return nil
		}
		dst := filepath.Join(dstDir, tag+"_"+strings.ReplaceAll(rel, "/", "__"))
		if err := os.WriteFile(dst, out, 0o644); err != nil {
			return err
		}
		repl[path] = dst
		files++
		points += n
		return nil
	})
	return
}
