package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"reflect"

	"vjcheck/absint"
	"vjcheck/scen"
)

// where renders an emitted position.
func (u *Unit) where(pos token.Pos) string {
	if !pos.IsValid() {
		return ""
	}
	p := u.Main.Fset.Position(pos)
	return fmt.Sprintf("%s:%d", p.Filename, p.Line)
}

// repo names the construct of the generator that made the code at pos.
func (u *Unit) repo(pos token.Pos) string {
	if !pos.IsValid() || len(u.Path.Printed) == 0 {
		return ""
	}
	out := scen.Render(u.Case.Atoms, u.Case.Output)
	f := u.Main.Files[out]
	if f == nil || pos < f.Pos() || pos > f.End() {
		return "utilities template (generator/static)"
	}
	// functions of the printed tree in order
	var printed *ast.File
	var prov map[ast.Node]absint.Prov
	for _, p := range u.Path.Printed {
		if g, ok := p.File.(*ast.File); ok && (printed == nil || len(p.Prov) > len(prov)) {
			printed, prov = g, p.Prov
		}
	}
	if printed == nil {
		return ""
	}
	var pf, ff []*ast.FuncDecl
	for _, d := range printed.Decls {
		if x, ok := d.(*ast.FuncDecl); ok {
			pf = append(pf, x)
		}
	}
	idx := -1
	for _, d := range f.Decls {
		if x, ok := d.(*ast.FuncDecl); ok {
			if x.Pos() <= pos && pos <= x.End() {
				idx = len(ff)
			}
			ff = append(ff, x)
		}
	}
	if idx < 0 || len(pf) != len(ff) {
		return ""
	}
	best := ""
	var walk func(a, b ast.Node)
	walk = func(a, b ast.Node) {
		if a == nil || b == nil || reflect.TypeOf(a) != reflect.TypeOf(b) || pos < a.Pos() || pos > a.End() {
			return
		}
		if p, ok := prov[b]; ok && p.Pos != "" {
			best = p.Fn + " (" + p.Pos + ")"
		}
		ca, cb := children(a), children(b)
		if len(ca) != len(cb) {
			return
		}
		for i := range ca {
			walk(ca[i], cb[i])
		}
	}
	walk(ff[idx], pf[idx])
	return best
}

func children(n ast.Node) []ast.Node {
	var out []ast.Node
	first := true
	ast.Inspect(n, func(x ast.Node) bool {
		if x == nil {
			return false
		}
		if first {
			first = false
			return true
		}
		switch x.(type) {
		case *ast.CommentGroup, *ast.Comment:
			return false
		}
		out = append(out, x)
		return false
	})
	return out
}
