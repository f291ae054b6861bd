// Command yield writes copies of a package's source files in which every statement is preceded by a
// call of verifYield, and an overlay for the go command that puts them in place of the originals.
// The harness uses the calls to stop a parse at any statement and let another one run.
//
//	yield REPO OUT
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const hook = `package rfc5322

// VerifYield is called before every statement, if it is not nil.
var VerifYield func()

func verifYield() {
	if VerifYield != nil {
		VerifYield()
	}
}
`

func main() {
	repo, out := os.Args[1], os.Args[2]
	files, err := filepath.Glob(filepath.Join(repo, "*.go"))
	check(err)
	replace := map[string]string{}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		check(err)
		text := string(src)
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, src, 0)
		check(err)
		if file.Name.Name != "rfc5322" {
			continue
		}
		var at []int
		list := func(stmts []ast.Stmt) {
			for _, s := range stmts {
				if _, ok := s.(*ast.EmptyStmt); !ok {
					at = append(at, fset.PositionFor(s.Pos(), false).Offset)
				}
			}
		}
		ast.Inspect(file, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				list(n.List)
			case *ast.CaseClause:
				list(n.Body)
			case *ast.CommClause:
				list(n.Body)
			}
			return true
		})
		// The clauses of a switch or select are statements of its body, but nothing may precede them.
		clauses := map[int]bool{}
		ast.Inspect(file, func(n ast.Node) bool {
			switch n.(type) {
			case *ast.CaseClause, *ast.CommClause:
				clauses[fset.PositionFor(n.Pos(), false).Offset] = true
			}
			return true
		})
		sort.Ints(at)
		var b bytes.Buffer
		last := 0
		for _, i := range at {
			if clauses[i] {
				continue
			}
			b.WriteString(text[last:i])
			b.WriteString("verifYield(); ")
			last = i
		}
		b.WriteString(text[last:])
		to := filepath.Join(out, filepath.Base(f))
		check(os.WriteFile(to, b.Bytes(), 0o644))
		replace[f] = to
	}
	to := filepath.Join(out, "zz_verif_yield.go")
	check(os.WriteFile(to, []byte(hook), 0o644))
	replace[filepath.Join(repo, "zz_verif_yield.go")] = to
	p, err := json.Marshal(map[string]any{"Replace": replace})
	check(err)
	check(os.WriteFile(filepath.Join(out, "overlay.json"), p, 0o644))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
