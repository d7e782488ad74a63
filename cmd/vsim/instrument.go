package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"sort"
	"strings"
)

// instrument inserts call in front of every statement of every function body
// in the file, on the same line, so that line numbers do not change. It
// returns the new text and the number of preemption points. If imp is not
// empty it is added to the package clause line when something was inserted.
func instrument(name, text, call, imp string) (string, int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, text, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return "", 0, err
	}
	tf := fset.File(f.Pos())
	offs := make(map[int]bool)
	add := func(list []ast.Stmt) {
		for _, s := range list {
			if e, ok := s.(*ast.EmptyStmt); ok && e.Implicit {
				continue
			}
			offs[tf.Offset(s.Pos())] = true
		}
	}
	after := make(map[int]bool)
	skip := func(d *ast.FuncDecl) bool {
		if d.Doc == nil {
			return false
		}
		for _, c := range d.Doc.List {
			if strings.HasPrefix(c.Text, "//go:nosplit") || strings.HasPrefix(c.Text, "//go:systemstack") || strings.HasPrefix(c.Text, "//go:nowritebarrier") {
				return true
			}
		}
		return false
	}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && (fd.Body == nil || skip(fd) || fd.Name.Name == "init") {
			continue
		}
		ast.Inspect(d, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				add(n.List)
			case *ast.CaseClause:
				add(n.Body)
			case *ast.CommClause:
				add(n.Body)
			case *ast.ForStmt:
				if len(n.Body.List) == 0 {
					after[tf.Offset(n.Body.Lbrace)+1] = true
				}
			case *ast.RangeStmt:
				if len(n.Body.List) == 0 {
					after[tf.Offset(n.Body.Lbrace)+1] = true
				}
			}
			return true
		})
		// Bodies of switch and select statements are lists of clauses, in
		// front of which nothing may stand.
		ast.Inspect(d, func(n ast.Node) bool {
			var b *ast.BlockStmt
			switch n := n.(type) {
			case *ast.SwitchStmt:
				b = n.Body
			case *ast.TypeSwitchStmt:
				b = n.Body
			case *ast.SelectStmt:
				b = n.Body
			}
			if b != nil {
				for _, s := range b.List {
					delete(offs, tf.Offset(s.Pos()))
				}
			}
			return true
		})
	}
	for o := range after {
		offs[o] = true
	}
	if len(offs) == 0 {
		return text, 0, nil
	}
	type edit struct {
		off int
		s   string
	}
	var list []edit
	for o := range offs {
		list = append(list, edit{o, call + "; "})
	}
	if imp != "" {
		list = append(list, edit{tf.Offset(f.Name.End()), "; " + imp})
	}
	sort.Slice(list, func(i, j int) bool { return list[i].off < list[j].off })
	var b strings.Builder
	last := 0
	for _, e := range list {
		b.WriteString(text[last:e.off])
		b.WriteString(e.s)
		last = e.off
	}
	b.WriteString(text[last:])
	return b.String(), len(offs), nil
}
