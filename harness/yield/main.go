// yield writes a copy of the library's source in which every statement that
// touches state that may change between calls (a package-level variable that is
// not a plain constant in disguise, or an object of sync or sync/atomic) is surrounded by scheduling points, and an overlay
// file that builds it instead of the original. The scheduling points do nothing
// but pass time: they widen the windows between two such accesses, in which
// another goroutine may come between.
//
//	yield OUTDIR  ->  OUTDIR/overlay.json; prints the number of points
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const module = "github.com/phoreproject/bls"

type pkg struct {
	ImportPath, Dir, Name string
	GoFiles               []string
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

var syncMethods = map[string]bool{"Load": true, "Store": true, "Swap": true, "CompareAndSwap": true, "Lock": true, "Unlock": true,
	"RLock": true, "RUnlock": true, "TryLock": true, "Do": true, "Get": true, "Put": true, "LoadOrStore": true, "LoadAndDelete": true,
	"Range": true, "Delete": true, "Wait": true, "Done": true}

const runtimeSrc = `package %s

import (
	"math/rand/v2"
	"runtime"
	"sync/atomic"
	"time"
)

var verifSites [%d]struct {
	last int64
	_    [7]int64
}
var verifStart = time.Now()

// verifYield passes some time, at each site at most once in a while.
func verifYield(site int) {
	s := &verifSites[site].last
	now := int64(time.Since(verifStart))
	if now-atomic.LoadInt64(s) < 50000 {
		return
	}
	switch r := rand.Uint64(); r %% 8 {
	case 0, 1, 2:
	case 3:
		atomic.StoreInt64(s, now)
		runtime.Gosched()
	case 7:
		atomic.StoreInt64(s, now)
		time.Sleep(time.Duration(r>>8%%20) * time.Microsecond)
	default:
		atomic.StoreInt64(s, now)
		for end := now + int64(r>>8%%15000); int64(time.Since(verifStart)) < end; {
		}
	}
}
`

func main() {
	out := os.Args[1]
	cmd := exec.Command("go", "list", "-deps", "-json=ImportPath,Dir,Name,GoFiles", "./run")
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	die(err)
	rep := map[string]string{}
	total := 0
	for d := json.NewDecoder(strings.NewReader(string(b))); d.More(); {
		var p pkg
		die(d.Decode(&p))
		if p.ImportPath != module && !strings.HasPrefix(p.ImportPath, module+"/") {
			continue
		}
		total += instrument(p, out, rep)
	}
	b, _ = json.Marshal(map[string]any{"Replace": rep})
	die(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644))
	fmt.Println(total)
}

func instrument(p pkg, out string, rep map[string]string) int {
	fset := token.NewFileSet()
	files := map[string]*ast.File{}
	src := map[string][]byte{}
	vars := map[string]bool{}
	for _, n := range p.GoFiles {
		f := filepath.Join(p.Dir, n)
		b, err := os.ReadFile(f)
		die(err)
		a, err := parser.ParseFile(fset, f, b, parser.ParseComments)
		die(err)
		files[f], src[f] = a, b
	}
	mutableVars(files, vars)
	delete(vars, "_")
	// touches looks at a statement, but not into the blocks and functions inside
	var touches func(n ast.Node) bool
	touches = func(n ast.Node) bool {
		found := false
		ast.Inspect(n, func(m ast.Node) bool {
			switch m := m.(type) {
			case *ast.BlockStmt:
				return false
			case *ast.Ident:
				found = found || vars[m.Name]
			case *ast.SelectorExpr:
				if id, ok := m.X.(*ast.Ident); ok && id.Name == "atomic" {
					found = true
				}
				if syncMethods[m.Sel.Name] {
					found = true
				}
			}
			return true
		})
		return found
	}
	n := 0
	var names []string
	for f := range files {
		names = append(names, f)
	}
	sort.Strings(names)
	for _, f := range names {
		type ins struct {
			at   int
			text string
		}
		var list []ins
		add := func(stmts []ast.Stmt) {
			for _, s := range stmts {
				if l, ok := s.(*ast.LabeledStmt); ok {
					s = l.Stmt
				}
				switch s.(type) {
				case *ast.EmptyStmt, *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
					continue
				}
				if !touches(s) {
					continue
				}
				switch s.(type) {
				case *ast.LabeledStmt:
					continue
				case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
					// may carry a label, which has to stay next to it
					if fset.Position(s.Pos()).Column > 0 && labelled(stmts, s) {
						continue
					}
				}
				list = append(list, ins{fset.Position(s.Pos()).Offset, fmt.Sprintf("verifYield(%d); ", n)})
				n++
				switch s.(type) {
				case *ast.ExprStmt, *ast.AssignStmt, *ast.IncDecStmt, *ast.DeclStmt:
					list = append(list, ins{fset.Position(s.End()).Offset, fmt.Sprintf("; verifYield(%d)", n)})
					n++
				}
			}
		}
		for _, d := range files[f].Decls {
			fn, ok := d.(*ast.FuncDecl)
			if !ok || fn.Body == nil || (fn.Recv == nil && fn.Name.Name == "init") {
				continue
			}
			ast.Inspect(fn.Body, func(m ast.Node) bool {
				switch m := m.(type) {
				case *ast.BlockStmt:
					add(m.List)
				case *ast.CaseClause:
					add(m.Body)
				case *ast.CommClause:
					add(m.Body)
				}
				return true
			})
		}
		if len(list) == 0 {
			continue
		}
		sort.SliceStable(list, func(a, b int) bool { return list[a].at < list[b].at })
		var w strings.Builder
		pos := 0
		for _, i := range list {
			w.Write(src[f][pos:i.at])
			w.WriteString(i.text)
			pos = i.at
		}
		w.Write(src[f][pos:])
		g := filepath.Join(out, "y-"+p.Name+"-"+filepath.Base(f))
		die(os.WriteFile(g, []byte(w.String()), 0o644))
		rep[f] = g
	}
	if n > 0 {
		g := filepath.Join(out, "y-"+p.Name+"-runtime.go")
		die(os.WriteFile(g, []byte(fmt.Sprintf(runtimeSrc, p.Name, n)), 0o644))
		rep[filepath.Join(p.Dir, "zz_verif_yield.go")] = g
	}
	return n
}

func labelled(stmts []ast.Stmt, s ast.Stmt) bool {
	for _, t := range stmts {
		if l, ok := t.(*ast.LabeledStmt); ok && l.Stmt == s {
			return true
		}
	}
	return false
}

// mutableVars finds the package-level variables that can change after the
// package is initialised, as far as the syntax tells: those without a value,
// those holding something of sync or sync/atomic, a map or a channel, and those
// that a function assigns to (or into) or takes the address of.
func mutableVars(files map[string]*ast.File, vars map[string]bool) {
	all := map[string]bool{}
	types := map[string]bool{} // named types that hold such things
	suspect := func(n ast.Node) bool {
		found := false
		if n == nil {
			return false
		}
		ast.Inspect(n, func(m ast.Node) bool {
			switch m := m.(type) {
			case *ast.MapType, *ast.ChanType:
				found = true
			case *ast.SelectorExpr:
				if id, ok := m.X.(*ast.Ident); ok && (id.Name == "sync" || id.Name == "atomic") {
					found = true
				}
			case *ast.Ident:
				found = found || types[m.Name]
			}
			return true
		})
		return found
	}
	each := func(f func(g *ast.GenDecl, s ast.Spec)) {
		for _, a := range files {
			for _, d := range a.Decls {
				if g, ok := d.(*ast.GenDecl); ok {
					for _, s := range g.Specs {
						f(g, s)
					}
				}
			}
		}
	}
	for again := true; again; {
		again = false
		each(func(g *ast.GenDecl, s ast.Spec) {
			if t, ok := s.(*ast.TypeSpec); ok && !types[t.Name.Name] && suspect(t.Type) {
				types[t.Name.Name], again = true, true
			}
		})
	}
	each(func(g *ast.GenDecl, s ast.Spec) {
		v, ok := s.(*ast.ValueSpec)
		if !ok || g.Tok != token.VAR {
			return
		}
		m := len(v.Values) == 0 || (v.Type != nil && suspect(v.Type))
		for _, x := range v.Values {
			m = m || suspect(x)
		}
		for _, id := range v.Names {
			all[id.Name] = true
			if m {
				vars[id.Name] = true
			}
		}
	})
	var root func(e ast.Expr) string
	root = func(e ast.Expr) string {
		switch e := e.(type) {
		case *ast.Ident:
			return e.Name
		case *ast.IndexExpr:
			return root(e.X)
		case *ast.SelectorExpr:
			return root(e.X)
		case *ast.StarExpr:
			return root(e.X)
		case *ast.ParenExpr:
			return root(e.X)
		case *ast.SliceExpr:
			return root(e.X)
		}
		return ""
	}
	hit := func(e ast.Expr) {
		if r := root(e); all[r] {
			vars[r] = true
		}
	}
	for _, a := range files {
		for _, d := range a.Decls {
			fn, ok := d.(*ast.FuncDecl)
			if !ok || fn.Body == nil || (fn.Recv == nil && fn.Name.Name == "init") {
				continue
			}
			ast.Inspect(fn.Body, func(m ast.Node) bool {
				switch m := m.(type) {
				case *ast.AssignStmt:
					if m.Tok != token.DEFINE {
						for _, e := range m.Lhs {
							hit(e)
						}
					}
				case *ast.IncDecStmt:
					hit(m.X)
				case *ast.UnaryExpr:
					if m.Op == token.AND {
						hit(m.X)
					}
				}
				return true
			})
		}
	}
}
