package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"strings"
)

// redirectAtomics replaces the import of sync/atomic by the harness's package
// of the same name, which performs the same operations with a preemption point
// before and after each. If the file uses a name that package does not have,
// the file is left as it is.
func redirectAtomics(name, text string) (string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, text, parser.SkipObjectResolution)
	if err != nil {
		return "", err
	}
	var spec *ast.ImportSpec
	local := "atomic"
	for _, s := range f.Imports {
		if s.Path.Value == `"sync/atomic"` {
			spec = s
			if s.Name != nil {
				local = s.Name.Name
			}
		}
	}
	if spec == nil || local == "_" || local == "." {
		return text, nil
	}
	ok := true
	ast.Inspect(f, func(n ast.Node) bool {
		if s, is := n.(*ast.SelectorExpr); is {
			if x, is := s.X.(*ast.Ident); is && x.Name == local && !atomicName(s.Sel.Name) {
				ok = false
			}
		}
		return true
	})
	if !ok {
		return text, nil
	}
	tf := fset.File(f.Pos())
	a, b := tf.Offset(spec.Path.Pos()), tf.Offset(spec.Path.End())
	return text[:a] + `"` + modPath + `/internal/zzverif/atomic"` + text[b:], nil
}

func atomicName(s string) bool {
	for _, op := range []string{"Add", "Load", "Store", "Swap", "CompareAndSwap", "And", "Or"} {
		if t, ok := strings.CutPrefix(s, op); ok {
			switch t {
			case "Int32", "Int64", "Uint32", "Uint64", "Uintptr":
				return true
			}
		}
	}
	switch s {
	case "Bool", "Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer", "Value":
		return true
	}
	return false
}
