// Command worker executes simulated runs of the code under test.
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"syscall"
	"time"
)

var (
	mode    = flag.String("mode", "search", "search, replay, min, hash or list")
	prop    = flag.String("prop", "", "property")
	seed    = flag.Uint64("seed", 1, "VERIF_SEED")
	shard   = flag.Int("shard", 0, "shard")
	secs    = flag.Float64("time", 10, "seconds")
	maxRuns = flag.Int64("runs", 1<<60, "number of runs")
	outFile = flag.String("out", "", "result file")
	inFile  = flag.String("file", "", "replay file")
	known   = flag.String("known", "", "comma-separated classes of known findings")
	only    = flag.String("scen", "", "only this scenario")
	minRuns = flag.Int64("minruns", 0, "number of runs to reach even if the time is over (at most four times)")
	posFile = flag.String("pos", "", "file for the number of the current run")
	fixCPUs = flag.Int("ncpu", 0, "number of CPUs of all runs, if not 0")
	hists   = flag.Int("hists", 400000, "how many distinct hashes to remember")
)

// Result is what a search reports.
type Result struct {
	Runs, Steps, SimTimeNs, Switches, Choices, Goroutines int64
	TimerJumps                                            int64
	WallS                                                 float64
	Faults, Probes, PerScen, KnownHits                    map[string]int64
	Hists, Scheds                                         []uint64 `json:"-"`
	NHists, NScheds                                       int64
	NonTrivial                                            int64
	Saturated                                             bool
	MaxGoroutines                                         int64
	Samples                                               []json.RawMessage
	KnownSamples                                          map[string]*Replay
	Violation                                             *Replay
}

func heap() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// cpus is n, or the number of CPUs that all runs of this process have.
func cpus(n int) int {
	if *fixCPUs > 0 {
		return *fixCPUs
	}
	return n
}

// freshCPUs starts this process anew, unless runtime.NumCPU has reported from
// its start what it is to report in the run of the replay file, or in all
// runs: the code may ask for it once and for all.
func freshCPUs() {
	const env = "SIM_NCPU"
	n := cpus(4)
	if *mode == "replay" || *mode == "min" {
		b, err := os.ReadFile(*inFile)
		if err != nil {
			fatal(err)
		}
		var rp struct {
			NCPU int `json:"ncpu"`
			Plan struct{ NCPU int }
		}
		json.Unmarshal(b, &rp)
		if rp.NCPU > 0 {
			n = rp.NCPU
			*fixCPUs = n
		} else if rp.Plan.NCPU > 0 {
			n = rp.Plan.NCPU
		}
	}
	if want := fmt.Sprint(n); os.Getenv(env) != want {
		os.Setenv(env, want)
		exe, err := os.Executable()
		if err == nil {
			err = syscall.Exec(exe, os.Args, os.Environ())
		}
		fatal(err)
	}
}

// exec performs one run.
func exec(s *Scen, plan any, sc *Sched, ncpuOf func() int32, wantStk bool) *Env {
	e := &Env{faults: map[string]int64{}, probes: map[string]int64{}, WantStk: wantStk}
	sc.config(&e.Cfg)
	e.Cfg.NCPU = int32(cpus(4))
	before := raceErrors()
	s.Run(e, plan)
	if n := raceErrors() - before; n > 0 {
		e.Fail("data-race", "the race detector reports %d conflicting accesses without a happens-before edge", n)
	}
	return e
}

func runSeed(prop string, seed uint64, shard int, i int64) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d/%d/%v", prop, seed, shard, i, raceOn)
	return h.Sum64()
}

func propScens(prop string) (list []*Scen, total int) {
	for _, s := range scens {
		if s.Prop == prop && (*only == "" || *only == s.Name) && (raceOn && s.Race || !raceOn && !s.NoPlain) {
			list = append(list, s)
			total += s.Weight
		}
	}
	return
}

type draw struct {
	s     *Scen
	plan  any
	sched *Sched
}

func drawRun(list []*Scen, total int, typical map[string]uint64, rs uint64) draw {
	r := &Rand{rs}
	r.U64()
	k := r.N(total)
	var s *Scen
	for _, s = range list {
		if k < s.Weight {
			break
		}
		k -= s.Weight
	}
	plan := s.Gen(r)
	return draw{s, plan, genSched(r, typical[s.Name])}
}

func mkReplay(e *Env, d draw, i int64) *Replay {
	pj, _ := json.Marshal(d.plan)
	return &Replay{Property: d.s.Prop, Scenario: d.s.Name, Race: raceOn, Class: e.Class, Message: e.Msg,
		Seed: *seed, Shard: *shard, Run: i, Plan: pj, Sched: d.sched, Hash: e.Out.Hash, Hist: e.Out.Hist, NCPU: *fixCPUs}
}

var gcTick int

func maybeGC() {
	gcTick++
	if gcTick&63 == 0 && heap() > 256<<20 {
		runtime.GC()
		runtime.GC()
	}
}

func search() {
	list, total := propScens(*prop)
	res := &Result{Faults: map[string]int64{}, Probes: map[string]int64{}, PerScen: map[string]int64{}, KnownHits: map[string]int64{}, KnownSamples: map[string]*Replay{}}
	if total == 0 {
		writeJSON(*outFile, res)
		return
	}
	knownSet := map[string]bool{}
	for _, k := range strings.Split(*known, ",") {
		if k != "" {
			knownSet[k] = true
		}
	}
	typical := map[string]uint64{}
	hset := map[uint64]struct{}{}
	sset := map[uint64]struct{}{}
	sampled := map[string]bool{}
	t0 := time.Now()
	for i := int64(0); i < *maxRuns; i++ {
		if i&7 == 0 {
			if t := time.Since(t0).Seconds(); t > *secs && (i >= *minRuns || t > *secs*4) {
				break
			}
		}
		setPos(i)
		d := drawRun(list, total, typical, runSeed(*prop, *seed, *shard, i))
		e := exec(d.s, d.plan, d.sched, nil, false)
		typical[d.s.Name] = e.Out.Steps
		res.Runs++
		res.Steps += int64(e.Out.Steps)
		res.SimTimeNs += e.Out.SimTime
		res.Switches += int64(e.Out.Switches)
		res.Choices += int64(e.Out.Choices)
		res.Goroutines += e.Out.Created
		res.TimerJumps += e.Out.Jumps
		if e.Out.Created > res.MaxGoroutines {
			res.MaxGoroutines = e.Out.Created
		}
		res.PerScen[d.s.Name]++
		for k, v := range e.faults {
			res.Faults[k] += v
		}
		for k, v := range e.probes {
			res.Probes[k] += v
		}
		if e.Out.Created > 1 && e.Out.Switches > 2 {
			res.NonTrivial++
			if len(hset) < *hists {
				hset[e.Out.Hist^uint64(len(d.s.Name))<<3] = struct{}{}
			} else {
				res.Saturated = true
			}
			if len(sset) < *hists {
				sset[e.Out.Hash] = struct{}{}
			}
		}
		if !sampled[d.s.Name] && e.Out.Created > 1 && len(res.Samples) < 8 {
			sampled[d.s.Name] = true
			pj, _ := json.Marshal(map[string]any{"scenario": d.s.Name, "run": i, "plan": d.plan,
				"policy": d.sched.Policy, "steps": e.Out.Steps, "goroutines": e.Out.Created, "preemptions": e.Out.Preempts, "history": e.traceText(12)})
			res.Samples = append(res.Samples, pj)
		}
		if e.Class != "" {
			if knownSet[e.Class] {
				res.KnownHits[e.Class]++
				if res.KnownSamples[e.Class] == nil {
					res.KnownSamples[e.Class] = mkReplay(e, d, i)
				}
			} else {
				res.Violation = mkReplay(e, d, i)
				break
			}
		}
		maybeGC()
	}
	res.WallS = time.Since(t0).Seconds()
	res.NHists, res.NScheds = int64(len(hset)), int64(len(sset))
	writeJSON(*outFile, res)
}

var pos *os.File

// setPos records which run is about to start, in case the process dies in it.
func setPos(i int64) {
	if *posFile == "" {
		return
	}
	if pos == nil {
		var err error
		if pos, err = os.Create(*posFile); err != nil {
			fatal(err)
		}
	}
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], uint64(i+1))
	if _, err := pos.WriteAt(b[:], 0); err != nil {
		fatal(err)
	}
}

// one writes the replay file of run number -runs of a shard without executing it.
func one() {
	list, total := propScens(*prop)
	typical := map[string]uint64{}
	for i := int64(0); ; i++ {
		d := drawRun(list, total, typical, runSeed(*prop, *seed, *shard, i))
		if i == *maxRuns {
			writeJSON(*outFile, mkReplay(&Env{}, d, i))
			return
		}
		e := exec(d.s, d.plan, d.sched, nil, false)
		typical[d.s.Name] = e.Out.Steps
		maybeGC()
	}
}

func writeJSON(file string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fatal(err)
	}
	if file == "" || file == "-" {
		os.Stdout.Write(append(b, '\n'))
		return
	}
	tmp := file + ".tmp"
	if err := os.WriteFile(tmp, b, 0o644); err != nil {
		fatal(err)
	}
	if err := os.Rename(tmp, file); err != nil {
		fatal(err)
	}
}

func fatal(err any) {
	fmt.Fprintln(os.Stderr, "worker:", err)
	os.Exit(4)
}

func readReplay() (*Replay, *Scen, any) {
	b, err := os.ReadFile(*inFile)
	if err != nil {
		fatal(err)
	}
	rp := new(Replay)
	if err := json.Unmarshal(b, rp); err != nil {
		fatal(err)
	}
	if rp.Race != raceOn {
		fatal("the replay file is for the other binary (race detector)")
	}
	s := findScen(rp.Property, rp.Scenario)
	if s == nil {
		fatal("no such scenario: " + rp.Scenario)
	}
	plan := s.New()
	if err := json.Unmarshal(rp.Plan, plan); err != nil {
		fatal(err)
	}
	s.Norm(plan)
	return rp, s, plan
}

// replay executes a replay file and writes what happened.
func replay() {
	rp, s, plan := readReplay()
	sc := rp.Sched
	if rp.Prefix {
		*seed, *shard = rp.Seed, rp.Shard
		list, total := propScens(rp.Property)
		typical := map[string]uint64{}
		for i := int64(0); i < rp.Run; i++ {
			d := drawRun(list, total, typical, runSeed(rp.Property, rp.Seed, rp.Shard, i))
			e := exec(d.s, d.plan, d.sched, nil, false)
			typical[d.s.Name] = e.Out.Steps
			maybeGC()
		}
	}
	e := exec(s, plan, sc, nil, true)
	out := *rp
	out.Class, out.Message, out.Hash, out.Hist = e.Class, e.Msg, e.Out.Hash, e.Out.Hist
	out.Trace = e.traceText(400)
	if e.Stacks != "" {
		out.Stacks = strings.Split(e.Stacks, "\n")
	}
	if strings.Contains(e.Class, "race") {
		out.Stacks = raceLog()
	}
	writeJSON(*outFile, &out)
}

func raceLog() []string {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if p, ok := strings.CutPrefix(f, "log_path="); ok {
			b, _ := os.ReadFile(fmt.Sprintf("%s.%d", p, os.Getpid()))
			lines := strings.Split(string(b), "\n")
			if len(lines) > 120 {
				lines = lines[:120]
			}
			for i, l := range lines {
				if j := strings.Index(l, "github.com/intel/forGoParallel"); j > 0 {
					_ = j
				}
				lines[i] = l
			}
			return lines
		}
	}
	return nil
}

// hashes prints the hash of every run of a shard, for the determinism test.
func hashes() {
	list, total := propScens(*prop)
	if total == 0 {
		return
	}
	f := os.Stdout
	if *outFile != "" {
		var err error
		if f, err = os.Create(*outFile); err != nil {
			fatal(err)
		}
	}
	typical := map[string]uint64{}
	var b strings.Builder
	for i := int64(0); i < *maxRuns; i++ {
		d := drawRun(list, total, typical, runSeed(*prop, *seed, *shard, i))
		e := exec(d.s, d.plan, d.sched, nil, false)
		typical[d.s.Name] = e.Out.Steps
		fmt.Fprintf(&b, "%d %s %x %x %d %s\n", i, d.s.Name, e.Out.Hash, e.Out.Hist, e.Out.Steps, e.Class)
		maybeGC()
	}
	f.WriteString(b.String())
}

func main() {
	flag.Parse()
	freshCPUs()
	debug.SetGCPercent(-1)
	debug.SetMaxStack(64 << 20)
	runtime.MemProfileRate = 0
	if runtime.GOMAXPROCS(0) != 1 {
		fatal("GOMAXPROCS must be 1")
	}
	if *outFile != "" {
		os.MkdirAll(filepath.Dir(*outFile), 0o755)
	}
	switch *mode {
	case "search":
		search()
	case "replay":
		replay()
	case "min":
		minimise()
	case "hash":
		hashes()
	case "one":
		one()
	case "list":
		m := map[string]int{}
		for _, s := range scens {
			if (raceOn && s.Race) || (!raceOn && !s.NoPlain) {
				m[s.Prop]++
			}
		}
		ks := sortedKeys(m)
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println(k, m[k])
		}
	default:
		fatal("unknown mode")
	}
}
