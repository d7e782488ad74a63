package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

var grainRE = regexp.MustCompile(`(?i)grain`)

// scaleConsts divides the values of package-level constants and variables whose
// name contains "grain", so that small inputs reach the parallel code.
func scaleConsts(name, text string) (string, int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, text, parser.SkipObjectResolution)
	if err != nil {
		return "", 0, err
	}
	tf := fset.File(f.Pos())
	type edit struct {
		a, b int
		s    string
	}
	var list []edit
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || (gd.Tok != token.CONST && gd.Tok != token.VAR) {
			continue
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			for i, n := range vs.Names {
				if i >= len(vs.Values) || !grainRE.MatchString(n.Name) {
					continue
				}
				lit, ok := vs.Values[i].(*ast.BasicLit)
				if !ok || lit.Kind != token.INT {
					continue
				}
				v, err := strconv.ParseInt(lit.Value, 0, 64)
				if err != nil || v < 256 {
					continue
				}
				if v >= 4096 {
					v /= 128
				} else {
					v /= 32
				}
				list = append(list, edit{tf.Offset(lit.Pos()), tf.Offset(lit.End()), fmt.Sprint(max(v, 32))})
			}
		}
	}
	sort.Slice(list, func(i, j int) bool { return list[i].a > list[j].a })
	for _, e := range list {
		text = text[:e.a] + e.s + text[e.b:]
	}
	return text, len(list), nil
}

// addSmallSort adds a copy of package psort with scaled grain sizes.
func (b *builder) addSmallSort(o *overlay, dir string) error {
	src := filepath.Join(b.repo, "psort")
	es, err := os.ReadDir(src)
	if err != nil {
		return err
	}
	scaled := 0
	for _, e := range es {
		name := e.Name()
		if e.IsDir() || !strings.HasSuffix(name, ".go") || strings.HasSuffix(name, "_test.go") {
			continue
		}
		raw, err := os.ReadFile(filepath.Join(src, name))
		if err != nil {
			return err
		}
		text, n, err := scaleConsts(name, string(raw))
		if err != nil {
			return err
		}
		scaled += n
		if text, _, err = instrument(name, text, "zzsimYield()", ""); err != nil {
			return err
		}
		if text, err = redirectAtomics(name, text); err != nil {
			return err
		}
		if err = o.put(dir, filepath.Join(b.repo, "internal/zzverif/psortsmall", name), "psortsmall/"+name, text); err != nil {
			return err
		}
	}
	return o.put(dir, filepath.Join(b.repo, "internal/zzverif/psortsmall/zzsim_decl.go"), "psortsmall/zzsim_decl.go", fmt.Sprintf(repoDecl, "psort")+
		fmt.Sprintf("\n// ZZScaled tells how many thresholds were made smaller.\nconst ZZScaled = %d\n", scaled))
}
