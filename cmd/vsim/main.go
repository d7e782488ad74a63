// Command vsim builds the simulator from /repo's working tree and decides the
// properties with it.
//
//	vsim setup           build both workers once, to fill the build cache
//	vsim check ID        decide a property; VERIF_SEED and VERIF_TIER apply
//	vsim replay FILE     execute a replay file
//	vsim selftest [N]    compare the histories of runs across processes
package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

const (
	repoDir  = "/repo"
	goroot   = "/opt/veriftools/go1.27.3"
	findings = "known_findings.txt"
)

func verifDir() string {
	if d, err := os.Getwd(); err == nil {
		if _, err := os.Stat(filepath.Join(d, "simrt", "zsim.go.txt")); err == nil {
			return d
		}
	}
	return "/verif"
}

// trouble ends the check without an answer.
func trouble(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "vsim: "+format+"\n", args...)
	cleanup()
	os.Exit(2)
}

var scratch string

func cleanup() {
	if scratch != "" {
		os.RemoveAll(scratch)
	}
}

type bins struct {
	plain, race string
	points      int
	buildS      float64
}

func (b *bins) of(race bool) string {
	if race {
		return b.race
	}
	return b.plain
}

func newBuilder() *builder {
	verif := verifDir()
	repo := repoDir
	if d := os.Getenv("VSIM_REPO"); d != "" { // for development: a scratch copy
		repo = d
	}
	b := &builder{repo: repo, verif: verif, work: filepath.Join(verif, ".work"), goroot: goroot}
	scratch = filepath.Join(b.work, fmt.Sprintf("ov-%d", os.Getpid()))
	return b
}

func buildBoth(b *builder) *bins {
	t0 := time.Now()
	r := &bins{}
	var err error
	if r.plain, r.points, err = b.build(false); err == nil && os.Getenv("VSIM_PLAIN") == "" {
		r.race, _, err = b.build(true)
	}
	if err != nil {
		trouble("%v", err)
	}
	r.buildS = time.Since(t0).Seconds()
	return r
}

// worker runs a worker process.
func worker(bin string, limit time.Duration, args ...string) (stdout, stderr string, err error) {
	cmd := exec.Command(bin, args...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GOGC=off", "GOTRACEBACK=all",
		"GORACE=log_path="+filepath.Join(scratch, "race")+" exitcode=0 halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0")
	var o, e strings.Builder
	cmd.Stdout, cmd.Stderr = &o, &e
	if err = cmd.Start(); err != nil {
		return
	}
	t := time.AfterFunc(limit, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	if !t.Stop() && err != nil {
		err = fmt.Errorf("watchdog: the worker did not end within %v", limit)
	}
	return o.String(), e.String(), err
}

type result struct {
	Runs, Steps, SimTimeNs, Switches, Choices, Goroutines int64
	TimerJumps                                            int64
	WallS                                                 float64
	Faults, Probes, PerScen, KnownHits                    map[string]int64
	NHists, NScheds                                       int64
	NonTrivial                                            int64
	Saturated                                             bool
	MaxGoroutines                                         int64
	Samples                                               []json.RawMessage
	Violation                                             json.RawMessage
}

type replayFile struct {
	Property string `json:"property"`
	Scenario string `json:"scenario"`
	Race     bool   `json:"race"`
	Class    string `json:"class"`
	Message  string `json:"message"`
	Shard    int    `json:"shard"`
	Run      int64  `json:"run"`
	Hash     uint64 `json:"schedule_hash"`
	Hist     uint64 `json:"history_hash"`
	Prefix   bool   `json:"prefix"`
}

const classDeath = "process-death"

type finding struct{ class, text string }

// knownFindings reads the lines "known: property=ID class=CLASS text".
func knownFindings(verif, id string) (list []finding) {
	b, err := os.ReadFile(filepath.Join(verif, findings))
	if err != nil {
		trouble("%v", err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 4 || f[0] != "known:" || f[1] != "property="+id {
			continue
		}
		c, ok := strings.CutPrefix(f[2], "class=")
		if !ok {
			trouble("%s: bad line %q", findings, l)
		}
		list = append(list, finding{c, strings.Join(f[3:], " ")})
	}
	return
}

type shard struct {
	n    int
	race bool
	cpus int // the number of CPUs of all runs, if fixed
	res  result
	dead string // the fatal error that ended the process
	at   int64
}

// fixedCPUs are the numbers of CPUs of the shards of the second search.
var fixedCPUs = [8]int{1, 2, 3, 4, 2, 8, 2, 4}

func check(id string) {
	t0 := time.Now()
	seed := 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.Atoi(s)
		if err != nil {
			trouble("VERIF_SEED: %v", err)
		}
		seed = n
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	secs, minRuns := 16.0, int64(0)
	if tier == "thorough" {
		secs = 600
	}
	if s := os.Getenv("VSIM_SECONDS"); s != "" {
		secs, _ = strconv.ParseFloat(s, 64)
	}
	b := newBuilder()
	defer cleanup()
	evid := filepath.Join(b.verif, "evidence")
	os.MkdirAll(evid, 0o755)
	os.Remove(filepath.Join(evid, id+".json"))
	bin := buildBoth(b)
	kf := knownFindings(b.verif, id)
	var classes []string
	for _, f := range kf {
		classes = append(classes, f.class)
	}

	has := func(race bool) bool {
		out, stderr, err := worker(bin.of(race), time.Minute, "-mode", "list")
		if err != nil {
			trouble("%v\n%s", err, stderr)
		}
		for _, l := range strings.Split(out, "\n") {
			if f := strings.Fields(l); len(f) == 2 && f[0] == id {
				return true
			}
		}
		return false
	}
	plain, race := has(false), has(true)
	if !plain && !race {
		trouble("no check for property %s", id)
	}
	if tier == "quick" {
		minRuns = quickRuns
	}
	limit := time.Duration(secs*5+120) * time.Second
	search := func(fixed bool) (shards []*shard, errs []error) {
		for i := 0; i < 8; i++ {
			s := &shard{n: i, race: race && (i >= 6 || !plain)}
			if fixed {
				s.cpus = fixedCPUs[i]
			}
			if s.race || plain {
				shards = append(shards, s)
			}
		}
		errs = make([]error, len(shards))
		var wg sync.WaitGroup
		for i, s := range shards {
			wg.Add(1)
			go func() {
				defer wg.Done()
				out := filepath.Join(scratch, fmt.Sprintf("res-%d.json", s.n))
				pos := filepath.Join(scratch, fmt.Sprintf("pos-%d", s.n))
				n := minRuns
				if s.race {
					n /= 5
				}
				_, stderr, err := worker(bin.of(s.race), limit, "-prop", id, "-seed", fmt.Sprint(seed), "-time", fmt.Sprint(secs),
					"-known", strings.Join(classes, ","), "-shard", fmt.Sprint(s.n), "-ncpu", fmt.Sprint(s.cpus),
					"-out", out, "-pos", pos, "-minruns", fmt.Sprint(n))
				if err != nil {
					if f := fatalError(stderr); f != "" {
						p, e := os.ReadFile(pos)
						if e == nil && len(p) == 8 {
							s.dead, s.at = f, int64(binary.LittleEndian.Uint64(p))-1
							return
						}
					}
					errs[i] = fmt.Errorf("shard %d: %v\n%s", s.n, err, tail(stderr, 4000))
					return
				}
				js, err := os.ReadFile(out)
				if err == nil {
					err = json.Unmarshal(js, &s.res)
				}
				errs[i] = err
			}()
		}
		wg.Wait()
		return
	}

	// A violation that does not show in a process of its own depends on earlier
	// runs. It may be due to runs with different numbers of CPUs in one process,
	// which no real process sees, so a second search decides, in which each
	// process has one number of CPUs.
	replay := ""
	var rf replayFile
	var shards []*shard
	for _, fixed := range []bool{false, true} {
		var errs []error
		shards, errs = search(fixed)
		// A shard that found a violation decides even if another one had trouble.
		var found []*shard
		for _, s := range shards {
			if len(s.res.Violation) > 4 || s.dead != "" {
				found = append(found, s)
			}
		}
		unconfirmed := ""
		dir := filepath.Join(evid, "replays")
		if len(found) > 0 {
			os.MkdirAll(dir, 0o755)
		}
		for _, s := range found {
			file := filepath.Join(dir, fmt.Sprintf("%s-seed%d-shard%d.json", id, seed, s.n))
			ok := false
			if s.dead != "" {
				ok = confirmDeath(bin, s, id, seed, file)
			} else {
				ok = confirm(bin, s, file, tier)
			}
			if ok {
				replay = file
				js, _ := os.ReadFile(file)
				json.Unmarshal(js, &rf)
				break
			}
			unconfirmed += fmt.Sprintf("shard %d: a violation could not be reproduced: %s%s\n", s.n, s.dead, tail(string(s.res.Violation), 600))
		}
		if replay != "" {
			break
		}
		for _, e := range errs {
			if e != nil {
				trouble("%v", e)
			}
		}
		if unconfirmed == "" {
			break
		}
		if fixed {
			trouble("%s", unconfirmed)
		}
		fmt.Fprintf(os.Stderr, "vsim: searching again, with one number of CPUs per process, because of\n%s", unconfirmed)
	}

	// Known findings.
	hits := map[string]int64{}
	for _, s := range shards {
		for k, v := range s.res.KnownHits {
			hits[k] += v
		}
	}
	det := map[string]any{}
	if replay == "" {
		det = determinism(bin, id, seed, plain, race)
	}
	writeEvidence(b, bin, id, tier, seed, shards, hits, det, replay, &rf, time.Since(t0).Seconds())
	for _, f := range kf {
		if hits[f.class] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.text)
		} else if replay == "" {
			fmt.Fprintf(os.Stderr, "vsim: the known finding %s of %s did not show\n", f.class, id)
		}
	}
	if replay != "" {
		fmt.Printf("%s: %s\n", rf.Class, rf.Message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		cleanup()
		os.Exit(1)
	}
	var runs int64
	for _, s := range shards {
		runs += s.res.Runs
	}
	fmt.Printf("property %s held on %d simulated runs (seed %d, %.1f s)\n", id, runs, seed, time.Since(t0).Seconds())
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + " ... " + s[len(s)-n/2:]
	}
	return s
}

// fatalError extracts the error by which the Go runtime ended the process.
// Panics of the harness itself do not count.
func fatalError(stderr string) string {
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.Contains(l, "out of memory") || strings.Contains(l, "cannot allocate") {
			return ""
		}
	}
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "fatal error: ") {
			return l
		}
	}
	return ""
}

// confirm minimises a violation and reproduces it in a process of its own.
func confirm(bin *bins, s *shard, file, tier string) bool {
	raw := file + ".raw"
	defer os.Remove(raw)
	if os.WriteFile(raw, s.res.Violation, 0o644) != nil {
		return false
	}
	budget := "25"
	if tier == "thorough" {
		budget = "90"
	}
	if reproduces(bin, raw, file) {
		min := file + ".min"
		defer os.Remove(min)
		if _, _, err := worker(bin.of(s.race), 4*time.Minute, "-mode", "min", "-file", raw, "-out", min, "-time", budget); err == nil {
			reproduces(bin, min, file)
		}
		return true
	}
	if s.cpus == 0 {
		return false
	}
	// Perhaps it depends on what happened before in the same process.
	var m map[string]any
	if json.Unmarshal(s.res.Violation, &m) != nil {
		return false
	}
	// Numbers must keep their precision.
	dec := json.NewDecoder(strings.NewReader(string(s.res.Violation)))
	dec.UseNumber()
	if dec.Decode(&m) != nil {
		return false
	}
	m["prefix"] = true
	js, _ := json.MarshalIndent(m, "", " ")
	if os.WriteFile(raw, js, 0o644) != nil {
		return false
	}
	return reproduces(bin, raw, file)
}

// reproduces replays in twice. Both processes must fail in the same way. The
// second result becomes the replay file.
func reproduces(bin *bins, in, file string) bool {
	want, ok := readReplayFile(in)
	if !ok {
		return false
	}
	for i := 0; i < 2; i++ {
		out := file + ".out"
		defer os.Remove(out)
		if _, _, err := worker(bin.of(want.Race), 10*time.Minute, "-mode", "replay", "-file", in, "-out", out); err != nil {
			return false
		}
		got, ok := readReplayFile(out)
		if !ok || got.Class != want.Class || got.Hash != want.Hash || got.Hist != want.Hist {
			return false
		}
		if i == 1 && os.Rename(out, file) != nil {
			return false
		}
	}
	return true
}

func readReplayFile(name string) (r replayFile, ok bool) {
	js, err := os.ReadFile(name)
	return r, err == nil && json.Unmarshal(js, &r) == nil
}

// confirmDeath handles runs that end the whole process.
func confirmDeath(bin *bins, s *shard, id string, seed int, file string) bool {
	raw := file + ".raw"
	defer os.Remove(raw)
	if _, _, err := worker(bin.of(s.race), 10*time.Minute, "-mode", "one", "-prop", id, "-seed", fmt.Sprint(seed), "-shard", fmt.Sprint(s.n),
		"-ncpu", fmt.Sprint(s.cpus), "-runs", fmt.Sprint(s.at), "-out", raw); err != nil {
		return false
	}
	for i := 0; i < 2; i++ {
		_, stderr, err := worker(bin.of(s.race), 10*time.Minute, "-mode", "replay", "-file", raw, "-out", file+".out")
		if err == nil || fatalError(stderr) != s.dead {
			return false
		}
	}
	js, err := os.ReadFile(raw)
	if err != nil {
		return false
	}
	dec := json.NewDecoder(strings.NewReader(string(js)))
	dec.UseNumber()
	m := map[string]any{}
	if dec.Decode(&m) != nil {
		return false
	}
	m["class"], m["message"] = classDeath, "the process dies in this run: "+s.dead
	js, _ = json.MarshalIndent(m, "", " ")
	return os.WriteFile(file, js, 0o644) == nil
}

// determinism executes the first runs of two shards again, each in two
// processes of their own, and compares schedules and histories.
func determinism(bin *bins, id string, seed int, plain, race bool) map[string]any {
	n, diff := compareRuns(bin, id, seed, 0, 120, plain, race)
	if diff != "" {
		fmt.Fprintf(os.Stderr, "vsim: runs are not deterministic: %s\n", diff)
	}
	return map[string]any{"runs_executed_twice_in_separate_processes": n, "differences": diff}
}

func compareRuns(bin *bins, id string, seed, sh, runs int, plain, race bool) (n int, diff string) {
	type job struct {
		race bool
		out  [2]string
		err  error
	}
	var jobs []*job
	if plain {
		jobs = append(jobs, &job{race: false})
	}
	if race {
		jobs = append(jobs, &job{race: true})
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	for _, j := range jobs {
		for k := 0; k < 2; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				n := runs
				if j.race {
					n /= 4
				}
				o, stderr, err := worker(bin.of(j.race), 10*time.Minute, "-mode", "hash", "-prop", id, "-seed", fmt.Sprint(seed), "-shard", fmt.Sprint(sh), "-runs", fmt.Sprint(n))
				mu.Lock()
				defer mu.Unlock()
				j.out[k] = o
				if err != nil {
					j.err = fmt.Errorf("%v: %s", err, tail(stderr, 1000))
				}
			}()
		}
	}
	wg.Wait()
	for _, j := range jobs {
		if j.err != nil {
			return n, j.err.Error()
		}
		a, b := strings.Split(j.out[0], "\n"), strings.Split(j.out[1], "\n")
		for i := range a {
			if a[i] == "" {
				continue
			}
			n++
			if i >= len(b) || a[i] != b[i] {
				return n, fmt.Sprintf("property %s seed %d shard %d race %v: %q and %q", id, seed, sh, j.race, a[i], b[min(i, len(b)-1)])
			}
		}
	}
	return
}

func writeEvidence(b *builder, bin *bins, id, tier string, seed int, shards []*shard, known map[string]int64, det map[string]any, replay string, rf *replayFile, wall float64) {
	sum := result{Faults: map[string]int64{}, Probes: map[string]int64{}, PerScen: map[string]int64{}}
	var raceRuns int64
	var searchS float64
	addTo := func(a, b map[string]int64) {
		for k, v := range b {
			a[k] += v
		}
	}
	for _, s := range shards {
		r := &s.res
		sum.Runs += r.Runs
		sum.Steps += r.Steps
		sum.SimTimeNs += r.SimTimeNs
		sum.Switches += r.Switches
		sum.Choices += r.Choices
		sum.Goroutines += r.Goroutines
		sum.TimerJumps += r.TimerJumps
		sum.NHists += r.NHists
		sum.NScheds += r.NScheds
		sum.NonTrivial += r.NonTrivial
		sum.MaxGoroutines = max(sum.MaxGoroutines, r.MaxGoroutines)
		sum.Saturated = sum.Saturated || r.Saturated
		addTo(sum.Faults, r.Faults)
		addTo(sum.Probes, r.Probes)
		addTo(sum.PerScen, r.PerScen)
		if s.race {
			raceRuns += r.Runs
		}
		searchS = max(searchS, r.WallS)
		if len(sum.Samples) == 0 || (s.race && s.n == 6) {
			sum.Samples = append(sum.Samples, r.Samples...)
		}
	}
	if len(sum.Samples) > 6 {
		sum.Samples = sum.Samples[:6]
	}
	perHour := 0.0
	if searchS > 0 {
		perHour = float64(sum.Runs) / searchS * 3600
	}
	cov := map[string]any{
		"evaluations":         sum.Runs,
		"distinct_nontrivial": sum.NHists,
		"rule": "Each run draws a workload, a fault plan and a scheduling policy from one seed and executes the real code in the simulator. " +
			"A run is non-trivial if more than one goroutine ran and the scheduler switched more than twice. Distinct counts different hashes of the recorded history " +
			"(calls, returns, faults, and their order over goroutines) among the non-trivial runs, per shard; shards draw from disjoint seeds.",
		"samples":                          sum.Samples,
		"runs_per_hour":                    int64(perHour),
		"seeds_per_hour":                   int64(perHour),
		"search_wall_s":                    searchS,
		"build_wall_s":                     bin.buildS,
		"runs_under_race_detector":         raceRuns,
		"nontrivial_runs":                  sum.NonTrivial,
		"distinct_schedules":               sum.NScheds,
		"distinct_counts_capped_at_memory": sum.Saturated,
		"scheduling_points_passed":         sum.Steps,
		"context_switches":                 sum.Switches,
		"scheduler_decisions":              sum.Choices,
		"goroutines_simulated":             sum.Goroutines,
		"most_goroutines_in_a_run":         sum.MaxGoroutines,
		"simulated_time_s":                 float64(sum.SimTimeNs) / 1e9,
		"clock_jumps_to_next_timer":        sum.TimerJumps,
		"faults_injected":                  sum.Faults,
		"probes":                           sum.Probes,
		"runs_per_scenario":                sum.PerScen,
		"preemption_points_in_repo":        bin.points,
		"shards":                           len(shards),
		"known_finding_hits":               known,
		"determinism_spot_check":           det,
		"components_real":                  realParts,
		"components_stubbed_or_simulated":  stubParts,
	}
	v := 0
	if replay != "" {
		v = 1
		cov["violation"] = map[string]any{"class": rf.Class, "message": rf.Message, "replay": replay}
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"The simulator executes one goroutine at a time and is sequentially consistent; weaker memory orders are only covered by the race detector's happens-before check in the -race shards.",
			"Preemption happens in front of every statement of the repository's code and of the instrumented files of sync, internal/sync and context, and at channel and atomic operations; not inside single expressions without calls.",
			"A clean result is evidence from sampled schedules, inputs and faults, not a proof.",
		},
		"wall_s": wall, "violations": v,
	}
	js, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		err = os.WriteFile(filepath.Join(b.verif, "evidence", id+".json"), append(js, '\n'), 0o644)
	}
	if err != nil {
		trouble("evidence: %v", err)
	}
}

var realParts = []string{
	"every package of the repository, from the working tree (preemption points added in front of statements, otherwise unchanged)",
	"the Go runtime's channels, select, defer, panic and recover, semaphores, goroutine creation and exit",
	"sync, internal/sync, sync/atomic, context, sort, slices, bufio, math/rand of the standard library",
}

var stubParts = []string{
	"goroutine scheduler: replaced by the seeded simulator in the runtime of the worker binary",
	"clock and timers: simulated time, advances per scheduling point and jumps when nothing can run",
	"runtime.NumCPU and GOMAXPROCS: chosen per run",
	"random numbers of select, maps and math/rand: derived from the seed",
	"sync.Pool: may lose objects at any time, decided by the seed",
	"readers, channels and fetch functions behind pipeline sources: faulty stand-ins of the harness",
}

func replay(file string) {
	b := newBuilder()
	defer cleanup()
	rf, ok := readReplayFile(file)
	if !ok {
		trouble("cannot read %s", file)
	}
	bin := buildBoth(b)
	out := filepath.Join(scratch, "replay.json")
	_, stderr, err := worker(bin.of(rf.Race), 20*time.Minute, "-mode", "replay", "-file", file, "-out", out)
	if rf.Class == classDeath {
		if f := fatalError(stderr); err != nil && f != "" {
			fmt.Println(f)
			fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, file)
			cleanup()
			os.Exit(1)
		}
		if err == nil {
			fmt.Println("the process survives this run")
			return
		}
	}
	if err != nil {
		trouble("%v\n%s", err, stderr)
	}
	js, _ := os.ReadFile(out)
	var m struct {
		Class, Message string
		Hist           uint64 `json:"history_hash"`
		Trace, Stacks  []string
	}
	if err := json.Unmarshal(js, &m); err != nil {
		trouble("%v", err)
	}
	for _, l := range append(m.Trace, m.Stacks...) {
		fmt.Println(l)
	}
	if m.Class == "" {
		fmt.Println("the property holds in this run")
		return
	}
	fmt.Printf("%s: %s\n", m.Class, m.Message)
	fmt.Printf("same history as recorded: %v\n", m.Hist == rf.Hist && m.Class == rf.Class)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, file)
	cleanup()
	os.Exit(1)
}

func selftest(seeds int) {
	b := newBuilder()
	defer cleanup()
	bin := buildBoth(b)
	ids := map[string][2]bool{}
	for i, r := range []bool{false, true} {
		out, stderr, err := worker(bin.of(r), time.Minute, "-mode", "list")
		if err != nil {
			trouble("%v\n%s", err, stderr)
		}
		for _, l := range strings.Split(out, "\n") {
			if f := strings.Fields(l); len(f) == 2 {
				p := ids[f[0]]
				p[i] = true
				ids[f[0]] = p
			}
		}
	}
	var names []string
	for k := range ids {
		names = append(names, k)
	}
	sort.Strings(names)
	total, bad := 0, 0
	var mu sync.Mutex
	for _, par := range []int{1, 4, 8} {
		sem := make(chan bool, par)
		var wg sync.WaitGroup
		for s := 1; s <= seeds; s++ {
			for _, id := range names {
				wg.Add(1)
				sem <- true
				go func() {
					defer func() { <-sem; wg.Done() }()
					n, diff := compareRuns(bin, id, s*10+par, s%8, 80, ids[id][0], ids[id][1])
					mu.Lock()
					defer mu.Unlock()
					total += n
					if diff != "" {
						bad++
						fmt.Println("DIFFERENT", diff)
					}
				}()
			}
		}
		wg.Wait()
	}
	fmt.Printf("selftest: %d runs executed twice, %d differences\n", total, bad)
	if bad > 0 {
		cleanup()
		os.Exit(2)
	}
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vsim setup | check ID | replay FILE | selftest [N]")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "setup":
		b := newBuilder()
		bin := buildBoth(b)
		for _, r := range []bool{false, true} {
			if _, stderr, err := worker(bin.of(r), time.Minute, "-mode", "list"); err != nil {
				trouble("%v\n%s", err, stderr)
			}
		}
		cleanup()
		fmt.Printf("built in %.1f s\n", bin.buildS)
	case "check":
		check(os.Args[2])
	case "replay":
		replay(os.Args[2])
	case "selftest":
		n := 2
		if len(os.Args) > 2 {
			n, _ = strconv.Atoi(os.Args[2])
		}
		selftest(n)
	case "build": // for development: keep the binaries
		b := newBuilder()
		bin := buildBoth(b)
		fmt.Println(bin.plain, bin.race)
	default:
		trouble("unknown command %s", os.Args[1])
	}
}

// quickRuns is how many runs per shard a quick check performs even if the
// machine is slow (up to four times the usual time).
const quickRuns = 400
