package main

import (
	"encoding/json"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// Statements whose outcome the Go runtime leaves to chance are redirected to
// package hook: goroutines, channel operations, walks over maps, the clock,
// random numbers, the number of processors.

// redirected names: import path -> selector -> replacement in hook. With call
// set, the replacement is a call that gives the generator to use.
var redirect = map[string]map[string]string{
	"time":        {"Now": "Now", "Since": "Since", "Until": "Until", "Sleep": "Sleep"},
	"runtime":     {"NumCPU": "NumCPU", "GOMAXPROCS": "GOMAXPROCS", "Gosched": "Nap"},
	"crypto/rand": {"Reader": "RandReader()", "Read": "RandRead"},
	"math/rand": {"Int": "Rand()", "Intn": "Rand()", "Int31": "Rand()", "Int31n": "Rand()", "Int63": "Rand()", "Int63n": "Rand()",
		"Uint32": "Rand()", "Uint64": "Rand()", "Float32": "Rand()", "Float64": "Rand()", "NormFloat64": "Rand()", "ExpFloat64": "Rand()",
		"Perm": "Rand()", "Shuffle": "Rand()", "Read": "Rand()", "Seed": "Rand()"},
	"math/rand/v2": {"Int": "Rand2()", "IntN": "Rand2()", "Int32": "Rand2()", "Int32N": "Rand2()", "Int64": "Rand2()", "Int64N": "Rand2()",
		"Uint": "Rand2()", "UintN": "Rand2()", "Uint32": "Rand2()", "Uint32N": "Rand2()", "Uint64": "Rand2()", "Uint64N": "Rand2()",
		"Float32": "Rand2()", "Float64": "Rand2()", "NormFloat64": "Rand2()", "ExpFloat64": "Rand2()", "Perm": "Rand2()", "Shuffle": "Rand2()"},
}

// keep is an expression that uses a redirected import, which may have no
// other use left.
var keep = map[string]string{
	"time": "UTC", "runtime": "GOOS", "crypto/rand": "Int", "math/rand": "NewSource", "math/rand/v2": "NewPCG",
}

func hookSel(name string) *ast.SelectorExpr {
	return &ast.SelectorExpr{X: ast.NewIdent("verifsim_hook"), Sel: ast.NewIdent(name)}
}

func hookCall(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: hookSel(name), Args: args}
}

// nondet rewrites one file and reports whether it changed anything. isMap and
// isChan tell the type of a range operand (from the type checker).
func nondet(f *ast.File, isMap, isChan func(ast.Expr) bool) bool {
	n := 0
	// Selectors of redirected packages.
	names := map[string]string{} // local name -> path
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if redirect[p] == nil {
			continue
		}
		name := p[strings.LastIndexByte(p, '/')+1:]
		if p == "math/rand/v2" {
			name = "rand"
		}
		if im.Name != nil {
			name = im.Name.Name
		}
		names[name] = p
	}
	used := map[string]bool{}
	concurrent := false
	raw := map[ast.Expr]bool{} // receives that have to stay as they are
	ast.Inspect(f, func(nd ast.Node) bool {
		switch x := nd.(type) {
		case *ast.GoStmt:
			concurrent = true
		case *ast.ChanType:
			concurrent = true
		case *ast.ExprStmt:
			raw[x.X] = true
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				raw[x.Rhs[0]] = true
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				raw[x.Values[0]] = true
			}
		case *ast.CommClause:
			switch c := x.Comm.(type) {
			case *ast.ExprStmt:
				raw[c.X] = true
			case *ast.AssignStmt:
				raw[c.Rhs[0]] = true
			}
		}
		return true
	})
	replaceExprs(f, func(e ast.Expr) ast.Expr {
		switch x := e.(type) {
		case *ast.SelectorExpr:
			id, ok := x.X.(*ast.Ident)
			if !ok || id.Obj != nil || names[id.Name] == "" {
				return e
			}
			to := redirect[names[id.Name]][x.Sel.Name]
			if to == "" {
				return e
			}
			used[id.Name] = true
			n++
			if fn, ok := strings.CutSuffix(to, "()"); ok {
				if strings.HasSuffix(fn, "Reader") {
					return hookCall(fn)
				}
				return &ast.SelectorExpr{X: hookCall(fn), Sel: x.Sel}
			}
			return hookSel(to)
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !raw[x] {
				n++
				return hookCall("R", x)
			}
		}
		return e
	})
	ast.Inspect(f, func(nd ast.Node) bool {
		if r, ok := nd.(*ast.RangeStmt); ok && isMap(r.X) {
			r.X = hookCall("MapRange", r.X)
			n++
		}
		return true
	})
	if concurrent {
		ast.Inspect(f, func(nd ast.Node) bool {
			switch b := nd.(type) {
			case *ast.BlockStmt:
				b.List = regain(b.List, isChan, &n)
			case *ast.CaseClause:
				b.Body = regain(b.Body, isChan, &n)
			case *ast.CommClause:
				b.Body = append([]ast.Stmt{&ast.ExprStmt{X: hookCall("Regain")}}, regain(b.Body, isChan, &n)...)
				n++
			}
			return true
		})
	}
	for _, name := range sorted(used) {
		f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{
			Names:  []*ast.Ident{ast.NewIdent("_")},
			Values: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(name), Sel: ast.NewIdent(keep[names[name]])}}}}})
	}
	return n > 0
}

func sorted(m map[string]bool) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}

// regain puts a Regain after the channel operations of a statement list and
// turns go statements into simulated tasks.
func regain(list []ast.Stmt, isChan func(ast.Expr) bool, n *int) (out []ast.Stmt) {
	re := func() ast.Stmt { *n++; return &ast.ExprStmt{X: hookCall("Regain")} }
	for _, s := range list {
		inner := s
		for {
			l, ok := inner.(*ast.LabeledStmt)
			if !ok {
				break
			}
			inner = l.Stmt
		}
		after := false
		switch x := inner.(type) {
		case *ast.GoStmt:
			*n++
			if l, ok := s.(*ast.LabeledStmt); ok {
				for {
					if ll, ok := l.Stmt.(*ast.LabeledStmt); ok {
						l = ll
						continue
					}
					break
				}
				l.Stmt = spawn(x)
			} else {
				s = spawn(x)
			}
		case *ast.SendStmt:
			after = true
		case *ast.ExprStmt:
			after = isReceive(x.X)
		case *ast.AssignStmt:
			after = len(x.Rhs) == 1 && isReceive(x.Rhs[0])
		case *ast.DeclStmt:
			after = true
		case *ast.IfStmt:
			if a, ok := x.Init.(*ast.AssignStmt); ok && len(a.Rhs) == 1 && isReceive(a.Rhs[0]) {
				x.Body.List = append([]ast.Stmt{re()}, x.Body.List...)
				if b, ok := x.Else.(*ast.BlockStmt); ok {
					b.List = append([]ast.Stmt{re()}, b.List...)
				}
				after = true
			}
		case *ast.RangeStmt:
			if isChan(x.X) {
				x.Body.List = append([]ast.Stmt{re()}, x.Body.List...)
				after = true
			}
		}
		out = append(out, s)
		if after {
			out = append(out, re())
		}
	}
	return
}

// isRegain: nothing of the code under test may run between a channel operation
// and its Regain.
func isRegain(s ast.Stmt) bool {
	e, ok := s.(*ast.ExprStmt)
	if !ok {
		return false
	}
	c, ok := e.X.(*ast.CallExpr)
	if !ok {
		return false
	}
	sel, ok := c.Fun.(*ast.SelectorExpr)
	if !ok || sel.Sel.Name != "Regain" {
		return false
	}
	id, ok := sel.X.(*ast.Ident)
	return ok && id.Name == "verifsim_hook"
}

func isReceive(e ast.Expr) bool {
	for {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X
			continue
		}
		u, ok := e.(*ast.UnaryExpr)
		return ok && u.Op == token.ARROW
	}
}

// spawn: the function and its arguments are evaluated by the starter, as the
// language asks.
func spawn(g *ast.GoStmt) ast.Stmt {
	c := g.Call
	if _, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		return &ast.ExprStmt{X: hookCall("Go", c.Fun)}
	}
	var lhs, rhs []ast.Expr
	name := func(e ast.Expr) ast.Expr {
		if _, ok := e.(*ast.BasicLit); ok {
			return e
		}
		if id, ok := e.(*ast.Ident); ok && (id.Name == "nil" || id.Name == "true" || id.Name == "false") {
			return e
		}
		v := ast.NewIdent("verifsim_a" + strconv.Itoa(len(lhs)))
		lhs, rhs = append(lhs, v), append(rhs, e)
		return ast.NewIdent(v.Name)
	}
	fun := c.Fun
	if id, ok := fun.(*ast.Ident); !ok || id.Obj != nil && id.Obj.Kind != ast.Fun {
		fun = name(c.Fun)
	}
	var args []ast.Expr
	for _, a := range c.Args {
		args = append(args, name(a))
	}
	call := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: c.Ellipsis}
	do := &ast.ExprStmt{X: hookCall("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}})}
	if len(lhs) == 0 {
		return do
	}
	return &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}, do}}
}

// replaceExprs applies fn to every expression below root, innermost first.
func replaceExprs(root ast.Node, fn func(ast.Expr) ast.Expr) {
	exprT := reflect.TypeOf((*ast.Expr)(nil)).Elem()
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface:
			if v.IsNil() {
				return
			}
			walk(v.Elem())
			if v.Type() == exprT && v.CanSet() {
				v.Set(reflect.ValueOf(fn(v.Interface().(ast.Expr))))
			}
		case reflect.Pointer:
			if v.IsNil() {
				return
			}
			switch v.Interface().(type) {
			case *ast.Object, *ast.Scope, *ast.CommentGroup, *ast.ImportSpec:
				return
			}
			walk(v.Elem())
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					walk(v.Field(i))
				}
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		}
	}
	for i := range root.(*ast.File).Decls {
		walk(reflect.ValueOf(root.(*ast.File).Decls).Index(i))
	}
}

// typer answers questions about the types of range operands. It only runs the
// type checker for packages that use maps or channels.
type typer struct {
	repo    string
	exports map[string]string
	fset    *token.FileSet
	std     types.Importer
	pkgs    map[string]*types.Package
	mod     map[string]string // module path prefix -> directory
}

func newTyper(repo string) *typer {
	return &typer{repo: repo, pkgs: map[string]*types.Package{}}
}

// kinds type-checks the package formed by files (already parsed, untouched).
func (t *typer) check(fset *token.FileSet, path string, files []*ast.File) *types.Info {
	need := false
	for _, f := range files {
		ast.Inspect(f, func(nd ast.Node) bool {
			if r, ok := nd.(*ast.RangeStmt); ok {
				switch r.X.(type) {
				case *ast.BasicLit, *ast.CompositeLit:
				default:
					need = true
				}
			}
			return !need
		})
	}
	if !need {
		return nil
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	conf := types.Config{Importer: (*imp)(t), Error: func(error) {}, DisableUnusedImportCheck: true}
	func() {
		defer func() { recover() }()
		conf.Check(path, fset, files, info)
	}()
	return info
}

type imp typer

func (i *imp) Import(path string) (*types.Package, error) {
	t := (*typer)(i)
	if p := t.pkgs[path]; p != nil {
		return p, nil
	}
	if t.exports == nil {
		t.load()
	}
	const mod = "github.com/apparentlymart/go-textseg/v17/"
	if rest, ok := strings.CutPrefix(path, mod); ok {
		dir := filepath.Join(t.repo, rest)
		fset := token.NewFileSet()
		var files []*ast.File
		ents, err := os.ReadDir(dir)
		if err != nil {
			return nil, err
		}
		for _, e := range ents {
			n := e.Name()
			if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			src, err := os.ReadFile(filepath.Join(dir, n))
			if err != nil || ignored(src) {
				continue
			}
			if f, err := parser.ParseFile(fset, n, src, 0); err == nil {
				files = append(files, f)
			}
		}
		conf := types.Config{Importer: i, Error: func(error) {}, IgnoreFuncBodies: true}
		p, _ := conf.Check(path, fset, files, nil)
		if p == nil {
			return nil, os.ErrNotExist
		}
		t.pkgs[path] = p
		return p, nil
	}
	return t.std.Import(path)
}

// load finds the export data of the standard library packages in question.
func (t *typer) load() {
	t.exports = map[string]string{}
	t.fset = token.NewFileSet()
	t.std = importer.ForCompiler(t.fset, "gc", func(path string) (io.ReadCloser, error) {
		f := t.exports[path]
		if f == "" {
			return nil, os.ErrNotExist
		}
		return os.Open(f)
	})
	paths := map[string]bool{}
	filepath.WalkDir(filepath.Join(t.repo, "textseg"), func(p string, d os.DirEntry, err error) error {
		if err == nil && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			if f, err := parser.ParseFile(token.NewFileSet(), p, nil, parser.ImportsOnly); err == nil {
				for _, im := range f.Imports {
					if s, _ := strconv.Unquote(im.Path.Value); s != "C" && s != "unsafe" && !strings.Contains(strings.SplitN(s, "/", 2)[0], ".") {
						paths[s] = true
					}
				}
			}
		}
		return nil
	})
	gocmd := os.Getenv("VERIF_GO")
	if gocmd == "" {
		gocmd = "go"
	}
	if len(paths) == 0 {
		return
	}
	cmd := exec.Command(gocmd, append([]string{"list", "-e", "-export", "-deps", "-json=ImportPath,Export"}, sorted(paths)...)...)
	cmd.Env = append(os.Environ(), "GOWORK=off", "GOFLAGS=")
	cmd.Dir = os.Getenv("VERIF_SIM")
	out, _ := cmd.Output()
	dec := json.NewDecoder(strings.NewReader(string(out)))
	for {
		var p struct{ ImportPath, Export string }
		if dec.Decode(&p) != nil {
			break
		}
		t.exports[p.ImportPath] = p.Export
	}
}
