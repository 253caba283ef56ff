package main

// Makes an instrumented copy of the library for C10: an overlay in which the
// packages sync and sync/atomic are replaced by packages that do the same and
// are scheduling points. Nothing else of the code changes.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	goparser "go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var shims = map[string]string{"sync": "verifmc/shim/sync", "sync/atomic": "verifmc/shim/atomic"}

// instrument writes the changed files and overlay.json to out. An error means that the
// code synchronises in a way the scheduler cannot control.
func instrument(repo, out string) error {
	replace := map[string]string{}
	err := filepath.WalkDir(repo, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		name := d.Name()
		if d.IsDir() {
			if path != repo {
				if strings.HasPrefix(name, ".") || strings.HasPrefix(name, "_") || name == "testdata" || name == "vendor" {
					return filepath.SkipDir
				}
				if _, err := os.Stat(filepath.Join(path, "go.mod")); err == nil {
					return filepath.SkipDir
				}
			}
			return nil
		}
		if !strings.HasSuffix(name, ".go") || strings.HasSuffix(name, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := goparser.ParseFile(fset, path, src, goparser.SkipObjectResolution)
		if err != nil {
			return err
		}
		if f.Name.Name == "main" {
			return nil
		}
		var bad error
		ast.Inspect(f, func(n ast.Node) bool {
			switch n.(type) {
			case *ast.GoStmt, *ast.SelectStmt, *ast.SendStmt:
				bad = fmt.Errorf("%s: goroutines or channels", fset.Position(n.Pos()))
			}
			return bad == nil
		})
		if bad != nil {
			return bad
		}
		type edit struct {
			pos, end int
			text     string
		}
		var edits []edit
		for _, imp := range f.Imports {
			p, err := strconv.Unquote(imp.Path.Value)
			if err != nil {
				return err
			}
			if to, ok := shims[p]; ok {
				edits = append(edits, edit{fset.Position(imp.Path.Pos()).Offset, fset.Position(imp.Path.End()).Offset, strconv.Quote(to)})
			}
		}
		if len(edits) == 0 {
			return nil
		}
		sort.Slice(edits, func(i, j int) bool { return edits[i].pos > edits[j].pos })
		for _, e := range edits {
			src = append(src[:e.pos:e.pos], append([]byte(e.text), src[e.end:]...)...)
		}
		to := filepath.Join(out, fmt.Sprintf("f%d_%s", len(replace), name))
		if err := os.WriteFile(to, src, 0o600); err != nil {
			return err
		}
		replace[path] = to
		return nil
	})
	if err != nil {
		return err
	}
	if len(replace) == 0 {
		return fmt.Errorf("no synchronisation found")
	}
	var b bytes.Buffer
	if err := json.NewEncoder(&b).Encode(map[string]any{"Replace": replace}); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(out, "overlay.json"), b.Bytes(), 0o600)
}
