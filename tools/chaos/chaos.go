// chaos REPO OUT copies the sources of a module, with places between their statements where the schedule may be stirred,
// and prints the overlay (a JSON object of paths) that puts the copies in the place of the sources.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const shim = "github.com/dball/destructive/internal/verifsync"

type edit struct {
	at, end int
	text    string
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	overlay := map[string]string{}
	err := filepath.WalkDir(repo, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			if name := d.Name(); path != repo && (strings.HasPrefix(name, ".") || name == "testdata" || name == "vendor" || strings.HasPrefix(name, "verif")) {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		text, ok := stirred(path, src)
		if !ok {
			return nil
		}
		to := filepath.Join(out, strconv.Itoa(len(overlay))+"-"+d.Name())
		overlay[path] = to
		return os.WriteFile(to, text, 0o644)
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	json.NewEncoder(os.Stdout).Encode(overlay)
}

func stirred(path string, src []byte) (text []byte, ok bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil || f.Name.Name == "main" {
		return
	}
	at := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			name := "sync "
			if im.Name != nil {
				name = ""
			}
			edits = append(edits, edit{at(im.Path.Pos()), at(im.Path.End()), name + strconv.Quote(shim)})
		}
	}
	points := 0
	ast.Inspect(f, func(n ast.Node) bool {
		// Line directives would not matter: the text stays on its lines.
		if b, is := n.(*ast.BlockStmt); is {
			for _, s := range b.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				default:
					edits = append(edits, edit{at(s.Pos()), at(s.Pos()), "verifpoint.Point(); "})
					points++
				}
			}
		}
		return true
	})
	if points > 0 {
		edits = append(edits, edit{at(f.Name.End()), at(f.Name.End()), "; import verifpoint " + strconv.Quote(shim)})
	}
	if len(edits) == 0 {
		return
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].at < edits[j].at })
	last := 0
	for _, e := range edits {
		text = append(text, src[last:e.at]...)
		text = append(text, e.text...)
		last = e.end
	}
	return append(text, src[last:]...), true
}
