// Xform writes copies of a package's source files, instrumented for vsched, and
// an overlay file that substitutes them: a Yield before every statement, and the
// shim packages in place of sync and sync/atomic.
package main

import (
	"bytes"
	"encoding/json"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

// bubble selects coarse instrumentation: yields only in loops and at the start of
// function literals, go statements managed, package atomic left alone.
var bubble bool

func main() {
	dir, out := os.Args[1], os.Args[2]
	bubble = len(os.Args) > 3 && os.Args[3] == "bubble"
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	over := map[string]string{}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		dst := filepath.Join(out, filepath.Base(f))
		xform(f, dst)
		over[f] = dst
	}
	b, _ := json.Marshal(map[string]any{"Replace": over})
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		panic(err)
	}
}

func xform(src, dst string) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, src, nil, parser.SkipObjectResolution)
	if err != nil {
		panic(err)
	}
	shim := map[string]string{"sync": "verif/shim/vsync", "sync/atomic": "verif/shim/vatomic"}
	if bubble {
		delete(shim, "sync/atomic")
	}
	base := map[string]string{"sync": "sync", "sync/atomic": "atomic"}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if s, ok := shim[p]; ok {
			im.Path.Value = strconv.Quote(s)
			if im.Name == nil {
				im.Name = ast.NewIdent(base[p])
			}
		}
	}
	yield := func() ast.Stmt {
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("vsched_"), Sel: ast.NewIdent("Yield")}}}
	}
	weave := func(list []ast.Stmt) []ast.Stmt {
		var n []ast.Stmt
		for _, s := range list {
			n = append(n, yield(), s)
		}
		return n
	}
	if bubble {
		instrumentBubble(f)
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if bubble {
			return false
		}
		switch n := n.(type) {
		case *ast.BlockStmt:
			if len(n.List) > 0 {
				switch n.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause: // a switch or select body
					return true
				}
			}
			n.List = weave(n.List)
		case *ast.CaseClause:
			n.Body = weave(n.Body)
		case *ast.CommClause:
			n.Body = weave(n.Body)
		}
		return true
	})
	im := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("vsched_"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verif/shim/vsched"`}}}}
	f.Decls = append([]ast.Decl{im}, f.Decls...)
	f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent("vsched_"), Sel: ast.NewIdent("Yield")}}}}})
	f.Comments = nil
	var b bytes.Buffer
	if err := format.Node(&b, fset, f); err != nil {
		panic(err)
	}
	if err := os.WriteFile(dst, b.Bytes(), 0o644); err != nil {
		panic(err)
	}
}

func call(name string, args ...ast.Expr) ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("vsched_"), Sel: ast.NewIdent(name)}, Args: args}}
}

func instrumentBubble(f *ast.File) {
	inLit := 0
	var visit func(n ast.Node)
	first := func(b *ast.BlockStmt) {
		b.List = append([]ast.Stmt{call("BYield")}, b.List...)
	}
	visit = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == n {
				return true
			}
			switch m := m.(type) {
			case *ast.FuncLit:
				inLit++
				visit(m)
				inLit--
				if inLit > 0 || hasLoop(m.Body) {
					first(m.Body)
				}
				return false
			case *ast.ForStmt:
				visit(m)
				if inLit > 0 {
					first(m.Body)
				}
				return false
			case *ast.RangeStmt:
				visit(m)
				if inLit > 0 {
					first(m.Body)
				}
				return false
			case *ast.BlockStmt:
				rewriteGo(m.List)
			case *ast.CaseClause:
				rewriteGo(m.Body)
			case *ast.CommClause:
				rewriteGo(m.Body)
			}
			return true
		})
	}
	visit(f)
}

func hasLoop(b *ast.BlockStmt) bool {
	found := false
	ast.Inspect(b, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.ForStmt, *ast.RangeStmt:
			found = true
		}
		return !found
	})
	return found
}

// rewriteGo turns go f(args) into a managed goroutine, evaluating f and the
// arguments first, as the language does.
func rewriteGo(list []ast.Stmt) {
	for i, s := range list {
		g, ok := s.(*ast.GoStmt)
		if !ok {
			continue
		}
		var stmts []ast.Stmt
		c := &ast.CallExpr{Ellipsis: g.Call.Ellipsis}
		if lit, ok := g.Call.Fun.(*ast.FuncLit); ok {
			c.Fun = lit
		} else {
			c.Fun = g.Call.Fun
		}
		for k, a := range g.Call.Args {
			id := ast.NewIdent("vsched_arg" + strconv.Itoa(k))
			stmts = append(stmts, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
			c.Args = append(c.Args, id)
		}
		stmts = append(stmts, call("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}}))
		list[i] = &ast.BlockStmt{List: stmts}
	}
}
