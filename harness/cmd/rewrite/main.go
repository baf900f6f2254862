// Command rewrite takes a build overlay (JSON on stdin) and prints one in which
// the goroutines of the packages of REPO report their start and end to the
// harness, which delays them, and which has points of delay around
// synchronisation calls. Usage: rewrite REPO WORKDIR < overlay.json
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

const pkg = "polverif/shim/sched"

func main() {
	repo, work := os.Args[1], os.Args[2]
	var ov struct{ Replace map[string]string }
	if err := json.NewDecoder(os.Stdin).Decode(&ov); err != nil {
		panic(err)
	}
	if ov.Replace == nil {
		ov.Replace = map[string]string{}
	}
	n := 0
	filepath.Walk(repo, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if info.IsDir() && strings.HasPrefix(info.Name(), ".") {
			return filepath.SkipDir
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src := p
		if q, ok := ov.Replace[p]; ok {
			src = q
		}
		b, err := os.ReadFile(src)
		if err != nil {
			return nil
		}
		out, ok := rewrite(b)
		if !ok {
			return nil
		}
		n++
		q := filepath.Join(work, fmt.Sprintf("sched%d_%s", n, filepath.Base(p)))
		if os.WriteFile(q, out, 0o644) == nil {
			ov.Replace[p] = q
		}
		return nil
	})
	json.NewEncoder(os.Stdout).Encode(ov)
}

func call(name string) *ast.CallExpr {
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("polverifsched"), Sel: ast.NewIdent(name)}}
}

var points = map[string]bool{"Wait": true, "Done": true, "Lock": true, "Unlock": true, "RLock": true, "RUnlock": true, "Store": true, "Load": true}

func rewrite(src []byte) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "", src, parser.ParseComments)
	if err != nil || f.Name.Name == "main" || bytes.Contains(src, []byte("\n//go:")) || bytes.HasPrefix(src, []byte("//go:")) {
		return nil, false
	}
	changes := 0
	handled := map[ast.Stmt]bool{} // those written below are inspected in turn
	ident := func() ast.Expr { return ast.NewIdent("polverifTask") }
	prologue := func() []ast.Stmt {
		s, e := call("Start"), call("End")
		s.Args, e.Args = []ast.Expr{ident()}, []ast.Expr{ident()}
		return []ast.Stmt{&ast.ExprStmt{X: s}, &ast.DeferStmt{Call: e}}
	}
	// spawn is { task := Spawn(); s; Spawned() } with what comes before it
	spawn := func(s ast.Stmt, before ...ast.Stmt) ast.Stmt {
		changes++
		handled[s] = true
		l := append(before, &ast.AssignStmt{Lhs: []ast.Expr{ident()}, Tok: token.DEFINE, Rhs: []ast.Expr{call("Spawn")}}, s, &ast.ExprStmt{X: call("Spawned")})
		return &ast.BlockStmt{List: l}
	}
	list := func(l []ast.Stmt) []ast.Stmt {
		var res []ast.Stmt
		for _, s := range l {
			if handled[s] {
				res = append(res, s)
				continue
			}
			switch x := s.(type) {
			case *ast.GoStmt:
				if fl, ok := x.Call.Fun.(*ast.FuncLit); ok {
					fl.Body.List = append(prologue(), fl.Body.List...)
					res = append(res, spawn(s))
					continue
				}
				usable := x.Call.Ellipsis == token.NoPos
				for _, a := range x.Call.Args {
					switch a := a.(type) {
					case *ast.Ident:
						usable = usable && a.Name != "nil"
					case *ast.BasicLit: // its type is that of the parameter
						usable = false
					}
				}
				if !usable {
					break
				}
				lhs := []ast.Expr{ast.NewIdent("polverifF")}
				rhs := []ast.Expr{x.Call.Fun}
				inner := &ast.CallExpr{Fun: ast.NewIdent("polverifF")}
				for i, a := range x.Call.Args {
					id := fmt.Sprintf("polverifA%d", i)
					lhs, rhs = append(lhs, ast.NewIdent(id)), append(rhs, a)
					inner.Args = append(inner.Args, ast.NewIdent(id))
				}
				body := append(prologue(), &ast.ExprStmt{X: inner})
				g := &ast.GoStmt{Call: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}}}
				res = append(res, spawn(g, &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}))
				continue
			case *ast.DeferStmt: // Points run before what is deferred before them
				if sel, ok := x.Call.Fun.(*ast.SelectorExpr); ok && points[sel.Sel.Name] {
					changes++
					handled[s] = true
					res = append(res, s, &ast.DeferStmt{Call: call("Point")})
					continue
				}
			case *ast.ExprStmt:
				c, ok := x.X.(*ast.CallExpr)
				if !ok {
					break
				}
				sel, ok := c.Fun.(*ast.SelectorExpr)
				if !ok {
					break
				}
				if sel.Sel.Name == "Go" && len(c.Args) == 1 { // of a group
					if fl, ok := c.Args[0].(*ast.FuncLit); ok {
						fl.Body.List = append(prologue(), fl.Body.List...)
						res = append(res, spawn(s))
						continue
					}
				}
				if points[sel.Sel.Name] {
					changes++
					handled[s] = true
					res = append(res, &ast.ExprStmt{X: call("Point")}, s)
					continue
				}
			case *ast.SendStmt:
				changes++
				handled[s] = true
				res = append(res, &ast.ExprStmt{X: call("Point")}, s)
				continue
			}
			res = append(res, s)
		}
		return res
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			x.List = list(x.List)
		case *ast.CaseClause:
			x.Body = list(x.Body)
		case *ast.CommClause:
			x.Body = list(x.Body)
		}
		return true
	})
	if changes == 0 {
		return nil, false
	}
	f.Comments = nil
	f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("polverifsched"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(pkg)}}}}}, f.Decls...)
	var buf bytes.Buffer
	if format.Node(&buf, fset, f) != nil {
		return nil, false
	}
	return buf.Bytes(), true
}
