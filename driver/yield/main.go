// yield DIR OUT: copies the Go files of DIR to OUT with a possible switch to
// another goroutine before every statement, and writes OUT/overlay.json for
// go build -overlay.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func main() {
	dir, out := os.Args[1], os.Args[2]
	files, err := filepath.Glob(filepath.Join(dir, "*.go"))
	check(err)
	replace := map[string]string{}
	pkg := ""
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		check(err)
		fset := token.NewFileSet()
		tree, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		check(err)
		pkg = tree.Name.Name
		at := map[int]bool{}
		list := func(l []ast.Stmt) {
			for _, s := range l {
				switch s.(type) {
				case *ast.EmptyStmt:
					continue
				}
				at[fset.Position(s.Pos()).Offset] = true
			}
		}
		ast.Inspect(tree, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				// the clauses of a switch are no statements of their own
				if len(x.List) > 0 {
					switch x.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.CommClause:
				list(x.Body)
			}
			return true
		})
		offs := []int{}
		for o := range at {
			offs = append(offs, o)
		}
		sort.Ints(offs)
		var b strings.Builder
		last := 0
		for _, o := range offs {
			b.Write(src[last:o])
			b.WriteString("verifSwitch(); ")
			last = o
		}
		b.Write(src[last:])
		to := filepath.Join(out, filepath.Base(f))
		check(os.WriteFile(to, []byte(b.String()), 0o644))
		abs, err := filepath.Abs(f)
		check(err)
		replace[abs] = to
	}
	sw := filepath.Join(out, "switch.go")
	check(os.WriteFile(sw, []byte("package "+pkg+`

import (
	"math/rand/v2"
	"runtime"
)

func verifSwitch() {
	if rand.Uint32()&7 == 0 {
		runtime.Gosched()
	}
}
`), 0o644))
	abs, err := filepath.Abs(filepath.Join(dir, "verif_switch.go"))
	check(err)
	replace[abs] = sw
	b, err := json.Marshal(map[string]any{"Replace": replace})
	check(err)
	check(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644))
}
