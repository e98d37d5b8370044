// instrument writes a `go build -overlay` file that replaces the import of "sync" by verifharness/verifsync in every
// non-test Go file below <repo>/pkg and, with "points", lets every statement outside the id arithmetic be preceded by a
// call of verifsync.Point, where the scheduler may be made to switch. Nothing in <repo> is touched.
//
//	instrument <repo> <outdir> [points]
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"slices"
	"strings"
)

func main() {
	repo, out := os.Args[1], os.Args[2]
	points := len(os.Args) > 3 && os.Args[3] == "points"
	repl := map[string]string{}
	n := 0
	err := filepath.WalkDir(filepath.Join(repo, "pkg"), func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		type edit struct {
			off, end int
			text     string
		}
		var edits []edit
		for _, im := range f.Imports {
			if im.Path.Value != `"sync"` {
				continue
			}
			name := "sync"
			if im.Name != nil {
				name = im.Name.Name
			}
			edits = append(edits, edit{fset.Position(im.Pos()).Offset, fset.Position(im.End()).Offset, name + ` "verifharness/verifsync"`})
			break
		}
		if points && !strings.HasPrefix(filepath.Base(filepath.Dir(p)), "id") || points && strings.HasPrefix(filepath.Base(filepath.Dir(p)), "idxtable") {
			list := func(l []ast.Stmt) {
				for _, st := range l {
					switch st.(type) {
					case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
						continue
					}
					off := fset.Position(st.Pos()).Offset
					edits = append(edits, edit{off, off, "verifsync_points.Point(); "})
				}
			}
			ast.Inspect(f, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BlockStmt:
					list(n.List)
				case *ast.CaseClause:
					list(n.Body)
				case *ast.CommClause:
					list(n.Body)
				}
				return true
			})
			if k := len(edits); k > 0 && edits[k-1].off > 0 && strings.Contains(edits[k-1].text, "Point()") {
				off := fset.Position(f.Name.End()).Offset
				edits = append(edits, edit{off, off, `; import verifsync_points "verifharness/verifsync"`})
			}
		}
		if len(edits) > 0 {
			slices.SortStableFunc(edits, func(a, b edit) int { return b.off - a.off })
			res := string(src)
			for _, e := range edits {
				res = res[:e.off] + e.text + res[e.end:]
			}
			n++
			o := filepath.Join(out, fmt.Sprintf("i%03d_%s", n, filepath.Base(p)))
			if err := os.WriteFile(o, []byte(res), 0o644); err != nil {
				return err
			}
			repl[p] = o
		}
		return nil
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	fmt.Println(n)
}
