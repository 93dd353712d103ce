package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// dictionary collects the literals of source files, for the workload.
type dictionary struct {
	strs  map[string]bool
	ints  map[int]bool
	bytes []string
}

func (d *dictionary) dir(dir string, commands bool) {
	if d.strs == nil {
		d.strs, d.ints = map[string]bool{}, map[int]bool{}
	}
	ents, _ := os.ReadDir(dir)
	for _, e := range ents {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		src, err := os.ReadFile(filepath.Join(dir, n))
		if err != nil || ignored(src) && !commands {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), n, src, 0)
		if err != nil {
			continue
		}
		for _, x := range f.Decls {
			if g, ok := x.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
				continue
			}
			d.decl(x)
		}
	}
}

// decl collects from one declaration. The long literal lists of tables and of
// generated machines are data, not conditions: they are left out.
func (d *dictionary) decl(x ast.Decl) {
	var ints []int
	var strs []string
	val := func(e ast.Expr) constant.Value { return eval(e) }
	add := func(v constant.Value) bool {
		if v == nil {
			return false
		}
		switch v.Kind() {
		case constant.String:
			if s := constant.StringVal(v); len(s) > 0 && len(s) <= 64 {
				strs = append(strs, s)
			}
			return true
		case constant.Int:
			if n, ok := constant.Int64Val(v); ok && n > 1 && n < 1<<31 {
				ints = append(ints, int(n))
			}
			return true
		}
		return false
	}
	var walk func(n ast.Node) bool
	walk = func(n ast.Node) bool {
		switch e := n.(type) {
		case *ast.CompositeLit:
			if len(e.Elts) > 24 {
				return false
			}
			b := []byte{}
			for _, el := range e.Elts {
				if v := val(el); v != nil && v.Kind() == constant.Int {
					if x, ok := constant.Int64Val(v); ok && x >= 0 && x < 256 {
						b = append(b, byte(x))
						continue
					}
				}
				b = nil
				break
			}
			if len(b) > 1 {
				strs = append(strs, string(b))
			}
		case *ast.BinaryExpr:
			if add(val(e)) {
				return false
			}
		case *ast.BasicLit:
			add(val(e))
		}
		return true
	}
	ast.Inspect(x, walk)
	if len(ints) > 200 {
		return
	}
	for _, s := range strs {
		d.strs[s] = true
	}
	var bs []byte
	for _, n := range ints {
		d.ints[n] = true
		if n < 256 {
			bs = append(bs, byte(n))
		}
	}
	if len(bs) > 0 {
		d.bytes = append(d.bytes, string(bs))
	}
}

// eval gives the value of an expression of literals only.
func eval(e ast.Expr) constant.Value {
	switch x := e.(type) {
	case *ast.BasicLit:
		if x.Kind == token.INT || x.Kind == token.CHAR || x.Kind == token.STRING {
			if v := constant.MakeFromLiteral(x.Value, x.Kind, 0); v.Kind() != constant.Unknown {
				return v
			}
		}
	case *ast.ParenExpr:
		return eval(x.X)
	case *ast.BinaryExpr:
		a, b := eval(x.X), eval(x.Y)
		if a == nil || b == nil || a.Kind() != constant.Int || b.Kind() != constant.Int {
			return nil
		}
		switch x.Op {
		case token.SHL:
			if n, ok := constant.Uint64Val(b); ok && n < 40 {
				return constant.Shift(a, token.SHL, uint(n))
			}
		case token.ADD, token.SUB, token.MUL, token.OR:
			return constant.BinaryOp(a, x.Op, b)
		}
	}
	return nil
}

func (d *dictionary) source(name, head string) []byte {
	var b strings.Builder
	b.WriteString(head + "\nvar " + name + "Strings = []string{\n")
	var ss []string
	for s := range d.strs {
		ss = append(ss, s)
	}
	sort.Strings(ss)
	for _, s := range ss {
		fmt.Fprintf(&b, "\t%q,\n", s)
	}
	b.WriteString("}\n\nvar " + name + "Ints = []int{")
	var is []int
	for n := range d.ints {
		is = append(is, n)
	}
	sort.Ints(is)
	for _, n := range is {
		fmt.Fprintf(&b, "%d, ", n)
	}
	b.WriteString("}\n\nvar " + name + "Bytes = [][]byte{\n")
	for _, s := range d.bytes {
		fmt.Fprintf(&b, "\t[]byte(%q),\n", s)
	}
	b.WriteString("}\n")
	return []byte(b.String())
}
