package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// A patch replaces the only occurrence of old by new in one file of GOROOT/src.
// An anchor that is missing or ambiguous is an error of the check, never a
// silent omission.
type patch struct{ file, old, new string }

var stdPatches = []patch{
	// g
	{"runtime/runtime2.go", "\tvalgrindStackID uintptr\n", "\tvalgrindStackID uintptr\n\n\tsimID uint32\n\tsimPrio uint64\n\tsimStarve bool\n\tsimPool bool\n\tsimQuiet int32\n"},
	// scheduler
	{"runtime/proc.go", "top:\n\tpp := mp.p.ptr()\n\tpp.preempt = false\n\n\t// Safety check: if we are spinning, the run queue should be empty.",
		"top:\n\tif simOn {\n\t\tsimSchedule()\n\t}\n\tpp := mp.p.ptr()\n\tpp.preempt = false\n\n\t// Safety check: if we are spinning, the run queue should be empty."},
	{"runtime/proc.go", "func runqput(pp *p, gp *g, next bool) {\n", "func runqput(pp *p, gp *g, next bool) {\n\tif gp.simID != 0 {\n\t\tsimPut(gp)\n\t\treturn\n\t}\n"},
	{"runtime/proc.go", "func globrunqput(gp *g) {\n", "func globrunqput(gp *g) {\n\tif gp.simID != 0 {\n\t\tsimPut(gp)\n\t\treturn\n\t}\n"},
	{"runtime/proc.go", "\tnewg.goid = pp.goidcache\n\tcasgstatus(newg, _Gdead, status)\n\tpp.goidcache++\n", "\tnewg.goid = pp.goidcache\n\tcasgstatus(newg, _Gdead, status)\n\tpp.goidcache++\n\tsimNewG(newg, callergp)\n"},
	{"runtime/proc.go", "func gdestroy(gp *g) {\n", "func gdestroy(gp *g) {\n\tsimExitG(gp)\n"},
	{"runtime/proc.go", "func goexit1() {\n\tif raceenabled {\n", "func goexit1() {\n\tif raceenabled {\n\t\tif simOn {\n\t\t\tsimRaceEnd()\n\t\t}\n"},
	{"runtime/proc.go", "func preemptone(pp *p) bool {\n", "func preemptone(pp *p) bool {\n\tif simOn {\n\t\treturn false\n\t}\n"},
	// crashes
	{"runtime/panic.go", "func fatalpanic(msgs *_panic) {\n", "func fatalpanic(msgs *_panic) {\n\tsimFatalPanic(msgs.arg)\n"},
	{"runtime/panic.go", "func fatal(s string) {\n", "func fatal(s string) {\n\tsimFatal(s)\n"},
	// randomness
	{"runtime/rand.go", "\tseed := &globalRand.seed\n\tif len(startupRand) >= 16 &&", "\tseed := &globalRand.seed\n\tif simConstSeed(seed) {\n\t} else if len(startupRand) >= 16 &&"},
	{"runtime/select.go", "\t\tj := cheaprandn(uint32(norder + 1))\n", "\t\tj := simSelect(uint32(norder + 1))\n"},
	{"runtime/select.go", "func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {\n", "func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {\n\tsimYield()\n"},
	{"runtime/chan.go", "func chansend1(c *hchan, elem unsafe.Pointer) {\n", "func chansend1(c *hchan, elem unsafe.Pointer) {\n\tsimYield()\n"},
	{"runtime/chan.go", "func closechan(c *hchan) {\n", "func closechan(c *hchan) {\n\tsimYield()\n"},
	{"runtime/chan.go", "func chanrecv1(c *hchan, elem unsafe.Pointer) {\n", "func chanrecv1(c *hchan, elem unsafe.Pointer) {\n\tsimYield()\n"},
	{"runtime/chan.go", "func chanrecv2(c *hchan, elem unsafe.Pointer) (received bool) {\n", "func chanrecv2(c *hchan, elem unsafe.Pointer) (received bool) {\n\tsimYield()\n"},
	{"runtime/chan.go", "func selectnbsend(c *hchan, elem unsafe.Pointer) (selected bool) {\n", "func selectnbsend(c *hchan, elem unsafe.Pointer) (selected bool) {\n\tsimYield()\n"},
	{"runtime/chan.go", "func selectnbrecv(elem unsafe.Pointer, c *hchan) (selected, received bool) {\n", "func selectnbrecv(elem unsafe.Pointer, c *hchan) (selected, received bool) {\n\tsimYield()\n"},
	// time
	{"runtime/time.go", "\t\tnow = bubble.now\n\t} else {\n\t\tnow = nanotime()\n", "\t\tnow = bubble.now\n\t} else {\n\t\tnow = simNanotime()\n"},
	{"runtime/time.go", "\tif now == 0 {\n\t\tnow = nanotime()\n", "\tif now == 0 {\n\t\tnow = simNanotime()\n"},
	{"runtime/time.go", "\tnow := nanotime()\n\tif t.isFake {\n", "\tnow := simNanotime()\n\tif t.isFake {\n"},
	{"runtime/time.go", "\treturn time_now()\n}\n\n//go:linkname crypto", "\tif simOn {\n\t\tn := simNow()\n\t\treturn 1700000000 + n/1000000000, int32(n % 1000000000), n\n\t}\n\treturn time_now()\n}\n\n//go:linkname crypto"},
	{"runtime/time.go", "\t\treturn gp.bubble.now\n\t}\n\treturn nanotime()\n", "\t\treturn gp.bubble.now\n\t}\n\treturn simNanotime()\n"},
	{"runtime/time.go", "\t\tts = &bubble.timers\n\t} else {\n", "\t\tts = &bubble.timers\n\t} else if simOn {\n\t\tts = &simTimers\n\t} else {\n"},
	{"runtime/time.go", "\treleasem(mp)\n\tif wake {\n\t\twakeNetPoller(when)\n\t}\n}\n", "\treleasem(mp)\n\tif simOn {\n\t\tsimTimerAdded()\n\t\treturn\n\t}\n\tif wake {\n\t\twakeNetPoller(when)\n\t}\n}\n"},
	{"runtime/time.go", "\tif add {\n\t\tt.maybeAdd()\n\t}\n\tif wake {\n\t\twakeNetPoller(when)\n\t}\n\n\treturn pending\n", "\tif add {\n\t\tt.maybeAdd()\n\t}\n\tif simOn {\n\t\tsimTimerAdded()\n\t} else if wake {\n\t\twakeNetPoller(when)\n\t}\n\n\treturn pending\n"},
	{"runtime/sema.go", "func internal_sync_nanotime() int64 {\n\treturn nanotime()\n", "func internal_sync_nanotime() int64 {\n\treturn simNanotime()\n"},
	// configuration
	{"runtime/debug.go", "\treturn int(numCPUStartup)\n", "\tif simOn && simCfgV.ncpu > 0 {\n\t\treturn int(simCfgV.ncpu)\n\t}\n\tn := 0\n\tfor _, c := range []byte(gogetenv(\"SIM_NCPU\")) {\n\t\tn = n*10 + int(c-'0')\n\t}\n\tif n > 0 {\n\t\treturn n\n\t}\n\treturn int(numCPUStartup)\n"},
	{"runtime/debug.go", "\tret := int(gomaxprocs)\n\tif n <= 0 {\n", "\tret := int(gomaxprocs)\n\tif simOn && simCfgV.ncpu > 0 {\n\t\tunlock(&sched.lock)\n\t\treturn int(simCfgV.ncpu)\n\t}\n\tif n <= 0 {\n"},
	// sync.Pool may drop any item at any time.
	{"sync/pool.go", "\tif x == nil {\n\t\treturn\n\t}\n\tif race.Enabled {\n\t\tif runtime_randn(4) == 0 {", "\tif x == nil {\n\t\treturn\n\t}\n\tif simPoolDrop(0) {\n\t\treturn\n\t}\n\tif race.Enabled {\n\t\tif !simActive() && runtime_randn(4) == 0 {"},
	{"sync/pool.go", "func (p *Pool) pinSlow() (*poolLocal, int) {\n", "func (p *Pool) pinSlow() (*poolLocal, int) {\n\tsimQuiet(1)\n\tdefer simQuiet(-1)\n"},
	{"sync/pool.go", "\tl, pid := p.pin()\n\tx := l.private\n\tl.private = nil\n", "\tl, pid := p.pin()\n\tif simPoolDrop(1) {\n\t\tl.private = nil\n\t}\n\tx := l.private\n\tl.private = nil\n"},
}

// stdYield lists the standard-library files in which a preemption point is put
// in front of every statement.
var stdYield = map[string][]string{
	"sync":          {"cond.go", "map.go", "mutex.go", "once.go", "oncefunc.go", "rwmutex.go", "waitgroup.go"},
	"internal/sync": {"hashtriemap.go", "mutex.go"},
	"context":       {"context.go"},
}

// stdDecl lists the packages that get declarations of the sim functions.
var stdDecl = []string{"sync", "internal/sync", "context"}

const stdDeclText = `package %s

import _ "unsafe"

//go:linkname simYield runtime.simYield
func simYield()

//go:linkname simActive runtime.simActive
func simActive() bool

//go:linkname simPoolDrop runtime.simPoolDrop
func simPoolDrop(int) bool

//go:linkname simQuiet runtime.simQuiet
func simQuiet(int32)
`

type overlay struct {
	Replace map[string]string
}

func (o *overlay) put(dir, virtual, name, text string) error {
	file := filepath.Join(dir, name)
	if err := os.MkdirAll(filepath.Dir(file), 0o755); err != nil {
		return err
	}
	if old, err := os.ReadFile(file); err != nil || string(old) != text {
		if err := os.WriteFile(file, []byte(text), 0o644); err != nil {
			return err
		}
	}
	o.Replace[virtual] = file
	return nil
}

// patchStd adds the patched standard library to the overlay.
func patchStd(o *overlay, goroot, verif, dir string) error {
	src := filepath.Join(goroot, "src")
	texts := make(map[string]string)
	load := func(name string) error {
		if _, ok := texts[name]; ok {
			return nil
		}
		b, err := os.ReadFile(filepath.Join(src, name))
		if err != nil {
			return err
		}
		texts[name] = string(b)
		return nil
	}
	for pkg, files := range stdYield {
		for _, f := range files {
			name := pkg + "/" + f
			if err := load(name); err != nil {
				return err
			}
			text, n, err := instrument(name, texts[name], "simYield()", "")
			if err != nil {
				return err
			}
			if n == 0 {
				continue
			}
			texts[name] = text
		}
	}
	for _, p := range stdPatches {
		if err := load(p.file); err != nil {
			return err
		}
		if c := strings.Count(texts[p.file], p.old); c != 1 {
			return fmt.Errorf("std patch: anchor occurs %d times in %s: %q", c, p.file, p.old)
		}
		texts[p.file] = strings.Replace(texts[p.file], p.old, p.new, 1)
	}
	b, err := os.ReadFile(filepath.Join(verif, "simrt", "zsim.go.txt"))
	if err != nil {
		return err
	}
	texts["runtime/zsim.go"] = string(b)
	for _, pkg := range stdDecl {
		texts[pkg+"/zsim.go"] = fmt.Sprintf(stdDeclText, filepath.Base(pkg))
	}
	for name, text := range texts {
		if err := o.put(dir, filepath.Join(src, name), "std/"+name, text); err != nil {
			return err
		}
	}
	return nil
}
