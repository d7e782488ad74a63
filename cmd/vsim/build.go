package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

const modPath = "github.com/intel/forGoParallel"

const repoDecl = `package %s

import _ "unsafe"

//go:linkname zzsimYield runtime.simYield
func zzsimYield()
`

type builder struct {
	repo, verif, work string
	goroot            string
}

func (b *builder) env() []string {
	env := os.Environ()
	env = append(env,
		"GOTOOLCHAIN=local", "GOSUMDB=off", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "GO111MODULE=on",
		"GOCACHE="+filepath.Join(b.work, "gocache"), "CGO_ENABLED=1")
	return env
}

// instrumentRepo adds every non-test Go file of the repository's working tree,
// with preemption points, to the overlay. It returns what it found.
func (b *builder) instrumentRepo(o *overlay, dir string) (points int, files []string, err error) {
	decl := make(map[string]string) // directory -> package name
	err = filepath.WalkDir(b.repo, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		name := d.Name()
		if d.IsDir() {
			if path != b.repo && (strings.HasPrefix(name, ".") || strings.HasPrefix(name, "_") || name == "testdata" || name == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(name, ".go") || strings.HasSuffix(name, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(b.repo, path)
		text, n, err := instrument(path, string(src), "zzsimYield()", "")
		if err != nil {
			return err
		}
		text, err = redirectAtomics(path, text)
		if err != nil {
			return err
		}
		files = append(files, rel)
		points += n
		if n > 0 {
			f, err := parser.ParseFile(token.NewFileSet(), path, src, parser.PackageClauseOnly)
			if err != nil {
				return err
			}
			decl[filepath.Dir(path)] = f.Name.Name
		}
		return o.put(dir, path, "repo/"+rel, text)
	})
	if err != nil {
		return
	}
	for d, pkg := range decl {
		rel, _ := filepath.Rel(b.repo, d)
		if err = o.put(dir, filepath.Join(d, "zzsim_decl.go"), "repo/"+rel+"/zzsim_decl.go", fmt.Sprintf(repoDecl, pkg)); err != nil {
			return
		}
	}
	return
}

// addHarness maps /verif/harness/* to virtual packages of the module.
func (b *builder) addHarness(o *overlay) error {
	root := filepath.Join(b.verif, "harness")
	return filepath.WalkDir(root, func(path string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() || !strings.HasSuffix(path, ".go") {
			return err
		}
		rel, _ := filepath.Rel(root, path)
		o.Replace[filepath.Join(b.repo, "internal", "zzverif", rel)] = path
		return nil
	})
}

// build produces the worker binary, with or without the race detector.
func (b *builder) build(race bool) (bin string, points int, err error) {
	// An overlay directory of its own per process keeps concurrent checks apart.
	dir := filepath.Join(b.work, fmt.Sprintf("ov-%d", os.Getpid()))
	o := &overlay{Replace: make(map[string]string)}
	if err = patchStd(o, b.goroot, b.verif, dir); err != nil {
		return
	}
	if points, _, err = b.instrumentRepo(o, dir); err != nil {
		return
	}
	if err = b.addSmallSort(o, dir); err != nil {
		return
	}
	if err = b.addHarness(o); err != nil {
		return
	}
	js, _ := json.MarshalIndent(o, "", " ")
	ov := filepath.Join(dir, "overlay.json")
	if err = os.WriteFile(ov, js, 0o644); err != nil {
		return
	}
	bin = filepath.Join(dir, "worker")
	args := []string{"build", "-trimpath", "-overlay", ov, "-o", bin}
	if race {
		bin += "-race"
		args = []string{"build", "-trimpath", "-race", "-overlay", ov, "-o", bin}
	}
	args = append(args, "./internal/zzverif/worker")
	cmd := exec.Command(filepath.Join(b.goroot, "bin", "go"), args...)
	cmd.Dir = b.repo
	cmd.Env = b.env()
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	if e := cmd.Run(); e != nil {
		err = fmt.Errorf("go build failed: %v\n%s", e, buf.String())
	}
	return
}
