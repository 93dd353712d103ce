// instrument prepares the overlay through which every check builds the
// current working tree of the repository:
//
//   - each non-test source file of the packages under simulation is replaced
//     by a copy with hook.Yield(site) before every statement, "sync" replaced
//     by the simulated locks and (generator only) "os" by the simulated file
//     system;
//   - the generator command, which has a build constraint that excludes it,
//     becomes an importable package whose main is exported;
//   - bridge packages give the simulator access to internal packages.
//
// With -plain the statements are left alone (used when instrumented sources
// do not compile). Files of /repo are only read.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var (
	site  = 1
	sites []string
)

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "build directory")
	bridge := flag.String("bridge", "", "directory of bridge packages")
	plain := flag.Bool("plain", false, "no yield points")
	table := flag.String("table", "", "replacement for property_table_raw.go")
	flag.Parse()
	replace := map[string]string{}
	sites = append(sites, "simulator")
	must(os.MkdirAll(*out, 0o755))

	ty := newTyper(*repo)
	instr := func(dir string, simos bool) {
		ents, err := os.ReadDir(filepath.Join(*repo, dir))
		must(err)
		fset := token.NewFileSet()
		type unit struct {
			name string
			src  []byte
			f    *ast.File
		}
		var units []unit
		var files []*ast.File
		for _, e := range ents {
			n := e.Name()
			if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			path := filepath.Join(*repo, dir, n)
			src, err := os.ReadFile(path)
			must(err)
			if ignored(src) {
				continue
			}
			f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
			must(err)
			units = append(units, unit{n, src, f})
			files = append(files, f)
		}
		var info *types.Info
		if !*plain && len(files) > 0 {
			info = ty.check(fset, files[0].Name.Name, files)
		}
		for _, u := range units {
			path := filepath.Join(*repo, dir, u.name)
			res, err := rewrite(fset, u.f, path, u.src, !*plain, simos, "", info)
			if err != nil && !*plain {
				fmt.Println("note: no yield points in", u.name, "-", err)
				f, err1 := parser.ParseFile(fset, path, u.src, parser.ParseComments)
				must(err1)
				res, err = rewrite(fset, f, path, u.src, false, simos, "", nil)
			}
			must(err)
			if res == nil {
				continue
			}
			dst := filepath.Join(*out, strings.ReplaceAll(dir, "/", "_")+"__"+u.name)
			must(os.WriteFile(dst, res, 0o644))
			replace[path] = dst
		}
	}
	var dirs []string
	must(filepath.WalkDir(*repo, func(p string, d os.DirEntry, err error) error {
		if err == nil && d.IsDir() {
			n := d.Name()
			if p != *repo && (n == "testdata" || n == "vendor" || strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_")) {
				return filepath.SkipDir
			}
			if l, _ := filepath.Glob(filepath.Join(p, "*.go")); len(l) > 0 {
				rel, _ := filepath.Rel(*repo, p)
				dirs = append(dirs, rel)
			}
		}
		return err
	}))
	sort.Strings(dirs)
	gen, genFiles, genArgs := generator(*repo)
	uses := map[string]bool{} // directories of the packages the generator consists of
	imports(*repo, genFiles, uses)
	inGen := func(d string) bool { return uses[d] || strings.Contains(d, "/internal/charprops") }
	for _, d := range dirs {
		instr(d, inGen(d))
	}
	// The generator command: a package where it may import what it imports, and
	// one that the simulators may import.
	if len(genFiles) > 0 {
		fset := token.NewFileSet()
		var files []*ast.File
		var srcs [][]byte
		for _, g := range genFiles {
			src, err := os.ReadFile(g)
			must(err)
			f, err := parser.ParseFile(fset, g, src, parser.ParseComments)
			must(err)
			files, srcs = append(files, f), append(srcs, src)
		}
		var info *types.Info
		if !*plain {
			info = ty.check(fset, "main", files)
		}
		for i, f := range files {
			res, err := rewrite(fset, f, genFiles[i], srcs[i], !*plain, true, "verifgenmain", info)
			must(err)
			n := "genmain_" + filepath.Base(genFiles[i])
			dst := filepath.Join(*out, n)
			must(os.WriteFile(dst, res, 0o644))
			replace[filepath.Join(*repo, gen, "verifgenmain", n)] = dst
		}
		dst := filepath.Join(*out, "genmain.go")
		must(os.WriteFile(dst, fmt.Appendf(nil, "package genmain\n\nimport g %q\n\nfunc GenMain() { g.GenMain() }\n\nvar Args = %#v\n",
			modulePath(*repo)+"/"+gen+"/verifgenmain", append([]string{"generate"}, genArgs...)), 0o644))
		replace[filepath.Join(*repo, "textseg/verifbridge/genmain/genmain.go")] = dst
	}
	// Bridges.
	ents, err := os.ReadDir(*bridge)
	must(err)
	for _, e := range ents {
		n := strings.TrimSuffix(e.Name(), ".go.txt")
		if n == e.Name() {
			continue
		}
		dst := filepath.Join(*out, "bridge_"+n+".go")
		b, err := os.ReadFile(filepath.Join(*bridge, e.Name()))
		must(err)
		must(os.WriteFile(dst, b, 0o644))
		replace[filepath.Join(*repo, "textseg/verifbridge", n, n+".go")] = dst
	}
	// The dictionary: literals of the packages in question.
	dict, genDict := &dictionary{}, &dictionary{}
	for _, d := range dirs {
		if inGen(d) {
			genDict.dir(filepath.Join(*repo, d), strings.HasSuffix(d, "/charprops"))
		}
		if !strings.Contains(d, "/charprops/") {
			dict.dir(filepath.Join(*repo, d), false)
		}
	}
	dst := filepath.Join(*out, "dict.go")
	must(os.WriteFile(dst, append(dict.source("dict", "package workload\n"), genDict.source("gen", "")...), 0o644))
	replace[filepath.Join(filepath.Dir(*bridge), "workload", "dict.go")] = dst
	if *table != "" {
		replace[filepath.Join(*repo, "textseg/internal/charprops/property_table_raw.go")] = *table
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644))
	j, _ = json.Marshal(sites)
	must(os.WriteFile(filepath.Join(*out, "sites.json"), j, 0o644))
}

// generator finds the command that makes the table: what the go:generate
// directive runs. It returns the directory of the directive, the command's
// source files and its arguments.
func generator(repo string) (dir string, files, args []string) {
	dir = "textseg/internal/charprops"
	l, _ := filepath.Glob(filepath.Join(repo, dir, "*.go"))
	for _, n := range l {
		src, _ := os.ReadFile(n)
		for _, line := range strings.Split(string(src), "\n") {
			rest, ok := strings.CutPrefix(line, "//go:generate go run ")
			if !ok {
				continue
			}
			files, args = nil, strings.Fields(rest)
			for len(args) > 0 && strings.HasSuffix(args[0], ".go") {
				files = append(files, filepath.Join(repo, dir, args[0]))
				args = args[1:]
			}
			if len(files) == 0 && len(args) > 0 && strings.HasPrefix(args[0], ".") {
				g, _ := filepath.Glob(filepath.Join(repo, dir, args[0], "*.go"))
				for _, f := range g {
					if src, err := os.ReadFile(f); err == nil && !strings.HasSuffix(f, "_test.go") && !ignored(src) {
						files = append(files, f)
					}
				}
				args = args[1:]
			}
			found := false
			for _, f := range files {
				src, err := os.ReadFile(f)
				if err != nil {
					found = false
					break
				}
				found = found || strings.Contains(string(src), "property_table_raw") || strings.Contains(string(src), "BuildRawPropertyTree")
			}
			if found {
				return dir, files, args
			}
		}
	}
	f := filepath.Join(repo, dir, "generate.go")
	if _, err := os.Stat(f); err != nil {
		return dir, nil, nil
	}
	return dir, []string{f}, nil
}

func modulePath(repo string) string {
	b, _ := os.ReadFile(filepath.Join(repo, "go.mod"))
	for _, l := range strings.Split(string(b), "\n") {
		if m, ok := strings.CutPrefix(l, "module "); ok {
			return strings.TrimSpace(m)
		}
	}
	return "github.com/apparentlymart/go-textseg/v17"
}

// imports adds the directories of the module's packages that files import,
// directly or not.
func imports(repo string, files []string, seen map[string]bool) {
	mod := modulePath(repo) + "/"
	for _, n := range files {
		f, err := parser.ParseFile(token.NewFileSet(), n, nil, parser.ImportsOnly)
		if err != nil {
			continue
		}
		for _, im := range f.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			dir, ok := strings.CutPrefix(p, mod)
			if !ok || seen[dir] {
				continue
			}
			seen[dir] = true
			var more []string
			l, _ := filepath.Glob(filepath.Join(repo, dir, "*.go"))
			for _, g := range l {
				if src, err := os.ReadFile(g); err == nil && !strings.HasSuffix(g, "_test.go") && !ignored(src) {
					more = append(more, g)
				}
			}
			imports(repo, more, seen)
		}
	}
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(2)
	}
}

// ignored reports a "go:build ignore" file (a command run by go generate).
func ignored(src []byte) bool {
	for _, l := range strings.Split(string(src), "\n") {
		if strings.HasPrefix(l, "package ") {
			return false
		}
		if strings.HasPrefix(l, "//go:build") && strings.Contains(l, "ignore") {
			return true
		}
	}
	return false
}

func rewrite(fset *token.FileSet, f *ast.File, path string, src []byte, yield, simos bool, genPkg string, info *types.Info) ([]byte, error) {
	changed := false
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		repl := ""
		switch {
		case p == "sync":
			repl = "verifsim/simsync"
		case p == "maps" && yield:
			repl = "verifsim/simmaps"
		case p == "os" && simos:
			repl = "verifsim/simos"
		case p == "log" && simos:
			repl = "verifsim/simlog"
		case p == "path/filepath" && simos:
			repl = "verifsim/simfilepath"
		case p == "io/ioutil" && simos:
			repl = "verifsim/simioutil"
		}
		if repl != "" {
			if im.Name == nil {
				im.Name = ast.NewIdent(filepath.Base(p))
			}
			im.Path.Value = strconv.Quote(repl)
			im.EndPos = 0
			changed = true
		}
	}
	if genPkg != "" {
		f.Name = ast.NewIdent(genPkg)
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
				fd.Name = ast.NewIdent("GenMain")
			}
		}
		changed = true
	}
	n := 0
	// Files whose comments mean something to the compiler keep them, and so
	// get no yield points.
	if !changed {
		for _, g := range f.Comments {
			for _, c := range g.List {
				if strings.HasPrefix(c.Text, "//go:embed") || strings.HasPrefix(c.Text, "//go:linkname") {
					return nil, nil
				}
			}
		}
	}
	if yield {
		under := func(e ast.Expr) types.Type {
			if info == nil || info.Types[e].Type == nil {
				return nil
			}
			return info.Types[e].Type.Underlying()
		}
		if nondet(f, func(e ast.Expr) bool { _, ok := under(e).(*types.Map); return ok },
			func(e ast.Expr) bool { _, ok := under(e).(*types.Chan); return ok }) {
			n++
		}
		rel := path
		if i := strings.Index(path, "/textseg/"); i >= 0 {
			rel = path[i+1:]
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || pragma(fd) {
				continue
			}
			clauses := map[*ast.BlockStmt]bool{}
			ast.Inspect(fd.Body, func(nd ast.Node) bool {
				switch b := nd.(type) {
				case *ast.SwitchStmt:
					clauses[b.Body] = true
				case *ast.TypeSwitchStmt:
					clauses[b.Body] = true
				case *ast.SelectStmt:
					clauses[b.Body] = true
				case *ast.BlockStmt:
					if clauses[b] {
						return true
					}
					b.List = ins(fset, rel, fd.Name.Name, b.List, b.Lbrace, &n)
				case *ast.CaseClause:
					if len(b.Body) > 0 {
						b.Body = ins(fset, rel, fd.Name.Name, b.Body, b.Colon, &n)
					}
				case *ast.CommClause:
					if len(b.Body) > 0 {
						b.Body = ins(fset, rel, fd.Name.Name, b.Body, b.Colon, &n)
					}
				}
				return true
			})
		}
	}
	if n == 0 && !changed {
		return nil, nil
	}
	if n > 0 {
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{
			Name: ast.NewIdent("verifsim_hook"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verifsim/hook"`}}}}}, f.Decls...)
	}
	// Comments are dropped except build constraints: their positions would
	// end up in odd places among inserted statements.
	var head strings.Builder
	for _, l := range strings.Split(string(src), "\n") {
		if strings.HasPrefix(l, "package ") {
			break
		}
		if strings.HasPrefix(l, "//go:build") && genPkg == "" {
			head.WriteString(l + "\n\n")
		}
	}
	f.Comments = nil
	f.Doc = nil
	var buf bytes.Buffer
	buf.WriteString(head.String())
	if err := format.Node(&buf, fset, f); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}

func pragma(fd *ast.FuncDecl) bool {
	if fd.Doc == nil {
		return false
	}
	for _, c := range fd.Doc.List {
		if strings.HasPrefix(c.Text, "//go:nosplit") || strings.HasPrefix(c.Text, "//go:linkname") {
			return true
		}
	}
	return false
}

func ins(fset *token.FileSet, rel, fn string, list []ast.Stmt, at token.Pos, n *int) []ast.Stmt {
	var outl []ast.Stmt
	y := func(pos token.Pos) {
		p := fset.Position(pos)
		sites = append(sites, fmt.Sprintf("%s:%d (%s)", rel, p.Line, fn))
		outl = append(outl, &ast.ExprStmt{X: &ast.CallExpr{
			Fun:  &ast.SelectorExpr{X: ast.NewIdent("verifsim_hook"), Sel: ast.NewIdent("Yield")},
			Args: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(site)}}}})
		site++
		*n++
	}
	if len(list) == 0 {
		y(at)
		return outl
	}
	for _, s := range list {
		if !isRegain(s) {
			y(s.Pos())
		}
		outl = append(outl, s)
	}
	return outl
}
