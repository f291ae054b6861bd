// Command mine lists the string, character and number literals in a package's source files. The
// generators use them as a dictionary: a condition on a particular text or number is then met.
//
//	mine REPO
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

func main() {
	files, err := filepath.Glob(filepath.Join(os.Args[1], "*.go"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "mine:", err)
		os.Exit(1)
	}
	texts, nums := map[string]bool{}, map[int]bool{}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		file, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
		if err != nil {
			continue
		}
		ast.Inspect(file, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BasicLit:
				switch n.Kind {
				case token.STRING:
					if s, err := strconv.Unquote(n.Value); err == nil && s != "" && len(s) <= 200 {
						texts[strconv.QuoteToASCII(s)] = true
					}
				case token.CHAR:
					if r, _, _, err := strconv.UnquoteChar(n.Value[1:len(n.Value)-1], '\''); err == nil {
						texts[strconv.QuoteToASCII(string(r))] = true
						nums[int(r)] = true
					}
				case token.INT:
					if v, err := strconv.ParseInt(n.Value, 0, 32); err == nil {
						nums[int(v)] = true
					}
				}
			}
			return true
		})
	}
	out := struct {
		Texts []string
		Nums  []int
	}{}
	for s := range texts {
		out.Texts = append(out.Texts, s)
	}
	for v := range nums {
		out.Nums = append(out.Nums, v)
	}
	sort.Strings(out.Texts)
	sort.Ints(out.Nums)
	json.NewEncoder(os.Stdout).Encode(out)
}
