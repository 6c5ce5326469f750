// Command perturb writes a build overlay of a module in which goroutines
// hesitate at the places where the order of goroutines could matter: around
// synchronisation and around accesses to package variables that functions
// write. It only adds calls between statements, so the code means the same.
//
//	perturb MODULE-DIR OUT-DIR    writes OUT-DIR/overlay.json
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const helper = `
import (
	vpRand "math/rand/v2"
	vpRuntime "runtime"
	vpTime "time"
)

func vpHesitate() {
	switch r := vpRand.Uint32(); {
	case r&7 == 0:
		vpRuntime.Gosched()
	case r&15 == 1:
		vpTime.Sleep(vpTime.Duration(r>>8%100000) * vpTime.Nanosecond)
	}
}
`

var syncNames = map[string]bool{"Lock": true, "Unlock": true, "RLock": true, "RUnlock": true, "TryLock": true, "Do": true, "Wait": true, "Done": true,
	"Load": true, "Store": true, "Swap": true, "CompareAndSwap": true, "LoadOrStore": true, "LoadAndDelete": true, "Get": true, "Put": true, "Range": true}

func main() {
	if err := run(os.Args[1], os.Args[2]); err != nil {
		fmt.Fprintln(os.Stderr, "perturb:", err)
		os.Exit(1)
	}
}

func run(mod, out string) error {
	replace := map[string]string{}
	sites := 0
	dirs := map[string]bool{}
	err := filepath.Walk(mod, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if n := fi.Name(); p != mod && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			dirs[filepath.Dir(p)] = true
		}
		return nil
	})
	if err != nil {
		return err
	}
	var list []string
	for d := range dirs {
		list = append(list, d)
	}
	sort.Strings(list)
	for i, d := range list {
		n, err := instrument(d, out, i, replace)
		if err != nil {
			return err
		}
		sites += n
	}
	b, err := json.Marshal(map[string]any{"Replace": replace})
	if err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(out, "sites"), []byte(fmt.Sprint(sites)), 0o644)
}

type file struct {
	path string
	src  []byte
	ast  *ast.File
}

func instrument(dir, out string, k int, replace map[string]string) (int, error) {
	fset := token.NewFileSet()
	names, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return 0, err
	}
	var files []*file
	globals := map[string]bool{}
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		src, err := os.ReadFile(n)
		if err != nil {
			return 0, err
		}
		f, err := parser.ParseFile(fset, n, src, parser.ParseComments)
		if err != nil {
			return 0, err
		}
		files = append(files, &file{n, src, f})
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					for _, id := range s.(*ast.ValueSpec).Names {
						globals[id.Name] = true
					}
				}
			}
		}
	}
	if len(files) == 0 || files[0].ast.Name.Name == "main" {
		return 0, nil
	}
	// package variables that some function writes, takes the address of or
	// calls a method on
	written := map[string]bool{}
	mark := func(e ast.Expr) {
		if n := root(e); n != "" && globals[n] {
			written[n] = true
		}
	}
	for _, f := range files {
		for _, d := range f.ast.Decls {
			fn, ok := d.(*ast.FuncDecl)
			if !ok || fn.Body == nil {
				continue
			}
			ast.Inspect(fn.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						for _, l := range x.Lhs {
							mark(l)
						}
					}
				case *ast.IncDecStmt:
					mark(x.X)
				case *ast.UnaryExpr:
					if x.Op == token.AND {
						mark(x.X)
					}
				case *ast.CallExpr:
					if s, ok := x.Fun.(*ast.SelectorExpr); ok {
						if n := root(s.X); n != "" && globals[n] && syncNames[s.Sel.Name] {
							written[n] = true
						}
					}
					if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "copy" || id.Name == "delete") && len(x.Args) > 0 {
						mark(x.Args[0])
					}
				}
				return true
			})
		}
	}
	sites := 0
	for j, f := range files {
		tf := fset.File(f.ast.Pos())
		at := map[int]bool{}
		var block func(l []ast.Stmt)
		block = func(l []ast.Stmt) {
			pending := false
			for _, s := range l {
				h := hot(s, written)
				if h || pending {
					at[tf.Offset(s.Pos())] = true
				}
				pending = h
			}
		}
		for _, d := range f.ast.Decls {
			fn, ok := d.(*ast.FuncDecl)
			if !ok || fn.Body == nil || fn.Name.Name == "init" {
				continue
			}
			ast.Inspect(fn.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt:
					block(x.List)
				case *ast.CaseClause:
					block(x.Body)
				case *ast.CommClause:
					block(x.Body)
				}
				return true
			})
		}
		if len(at) == 0 {
			continue
		}
		var offs []int
		for o := range at {
			offs = append(offs, o)
		}
		sort.Ints(offs)
		var b []byte
		last := 0
		for _, o := range offs {
			b = append(b, f.src[last:o]...)
			b = append(b, "vpHesitate(); "...)
			last = o
		}
		b = append(b, f.src[last:]...)
		p := filepath.Join(out, fmt.Sprintf("p%d_%d.go", k, j))
		if err := os.WriteFile(p, b, 0o644); err != nil {
			return 0, err
		}
		replace[f.path] = p
		sites += len(offs)
	}
	if sites > 0 {
		p := filepath.Join(out, fmt.Sprintf("p%d_helper.go", k))
		if err := os.WriteFile(p, []byte("package "+files[0].ast.Name.Name+"\n"+helper), 0o644); err != nil {
			return 0, err
		}
		replace[filepath.Join(dir, "zz_vp_hesitate.go")] = p
	}
	return sites, nil
}

// root names the variable an expression starts from.
func root(e ast.Expr) string {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			return x.Name
		case *ast.SelectorExpr:
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		case *ast.ParenExpr:
			e = x.X
		case *ast.TypeAssertExpr:
			e = x.X
		default:
			return ""
		}
	}
}

// hot says whether a statement itself, without the blocks inside it, has to
// do with synchronisation or written package variables.
func hot(s ast.Stmt, written map[string]bool) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.SendStmt, *ast.GoStmt, *ast.SelectStmt:
			found = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		case *ast.Ident:
			if written[x.Name] {
				found = true
			}
		case *ast.CallExpr:
			if sel, ok := x.Fun.(*ast.SelectorExpr); ok {
				if id, ok := sel.X.(*ast.Ident); ok && id.Name == "atomic" {
					found = true
				}
				switch sel.Sel.Name {
				case "Lock", "Unlock", "RLock", "RUnlock", "TryLock", "Load", "Store", "CompareAndSwap", "LoadOrStore":
					found = true
				}
			}
		}
		return !found
	})
	return found
}
