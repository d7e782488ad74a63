package main

import (
	"encoding/json"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/intel/forGoParallel/internal/zzverif/sim"
)

// Rand is the generator of workloads.
type Rand struct{ s uint64 }

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a number in [0, n).
func (r *Rand) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// In returns a number in [a, b].
func (r *Rand) In(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability 1/n.
func (r *Rand) P(n int) bool { return r.N(n) == 0 }

func (r *Rand) Pick(xs ...int) int { return xs[r.N(len(xs))] }

// Scen is one kind of simulated run.
type Scen struct {
	Prop, Name string
	Weight     int
	Race       bool // worth running under the race detector
	NoPlain    bool // only under the race detector
	New        func() any
	Gen        func(*Rand) any
	Norm       func(any)
	Run        func(*Env, any)
}

var scens []*Scen

// add registers a scenario whose plan has type P. norm brings any plan into
// the range run accepts; the minimiser relies on it.
func add[P any](prop, name string, weight int, race bool, gen func(*Rand) *P, norm func(*P), run func(*Env, *P)) *Scen {
	s := &Scen{Prop: prop, Name: name, Weight: weight, Race: race,
		New:  func() any { return new(P) },
		Gen:  func(r *Rand) any { p := gen(r); norm(p); return p },
		Norm: func(p any) { norm(p.(*P)) },
		Run:  func(e *Env, p any) { run(e, p.(*P)) },
	}
	scens = append(scens, s)
	return s
}

func findScen(prop, name string) *Scen {
	for _, s := range scens {
		if s.Prop == prop && s.Name == name {
			return s
		}
	}
	return nil
}

// Fault kinds. Each is counted when it actually happens.
type Stats struct {
	Faults map[string]int64
	Probes map[string]int64
}

// Env is one simulated execution.
type Env struct {
	Cfg     sim.Config
	Out     sim.Out
	Log     []sim.Event
	Status  int
	RootEnd bool
	Class   string
	Msg     string
	Stacks  string
	Known   string // id of a known finding that this run shows
	LeakOK  bool
	WantStk bool
	faults  map[string]int64
	probes  map[string]int64
	ran     bool
	logger
	sub    []func()
	inside func(root func()) // executes the root as a part of another run
}

// A logger writes the history of one part of a run; 0 is the only one if the
// run is not composed of parts.
type logger struct{ tag uint32 }

func (l logger) log(kind uint32, a, b, c int64) { sim.Log(kind|l.tag<<16, a, b, c) }

// Fail records the first violation of the run.
func (e *Env) Fail(class, format string, args ...any) {
	if e.Class == "" {
		e.Class = class
		e.Msg = fmt.Sprintf(format, args...)
	}
}

func (e *Env) Failed() bool { return e.Class != "" }

func (e *Env) Fault(kind string, n int) {
	if n != 0 {
		e.faults[kind] += int64(n)
	}
}

func (e *Env) Probe(name string, hit bool) {
	if hit {
		e.probes[name]++
	} else if _, ok := e.probes[name]; !ok {
		e.probes[name] = 0
	}
}

const kFault = 255 // log kind: a fault happened; A is its kind

// Kinds of faults logged from inside a run.
const (
	fCancel = iota
	fDeadline
	fParentCancel
	fSetErr
	fSourceErr
	fShortRead
	fReadErr
	fZeroRead
	fChanClose
	fChanStall
	fPanic
	fGoexit
	fStall
	fPoolDrop
	fNotifyStall
	fSplitErr
	nFaults
)

var faultNames = [nFaults]string{"cancel", "deadline", "parent_cancel", "set_err", "source_error", "short_read", "read_error", "empty_read",
	"channel_close", "channel_stall", "panic", "goexit", "stalled_function", "pool_loss", "stalled_notifier", "split_error"}

// F logs a fault from inside the run.
func F(kind int) { sim.Log(kFault, int64(kind), 0, 0) }

var (
	recStep = make([]uint64, 1<<16)
	recVal  = make([]uint32, 1<<16)
	logBuf  = make([]sim.Event, 1<<19)
)

// Exec runs root in the simulator. Whenever nothing can run, idle is called
// with the number of times this has happened before; it may open gates and
// return true to go on. Exec fails the run for a crash, for a root that never
// returns, for an exhausted step budget and for goroutines left behind.
func (e *Env) Exec(root func(), idle func(k int) bool) {
	if e.ran {
		panic("Exec called twice")
	}
	e.ran = true
	if e.inside != nil {
		e.inside(root)
		return
	}
	c := &e.Cfg
	c.RecStep, c.RecVal, c.Log = recStep, recVal, logBuf
	var done atomic.Int32
	sim.Begin(c)
	sim.Go(func() {
		root()
		done.Store(1)
	})
	for k := 0; ; k++ {
		e.Status = sim.Run()
		if e.Status != sim.Idle || idle == nil || !idle(k) {
			break
		}
	}
	sim.Result(&e.Out)
	e.RootEnd = done.Load() == 1
	e.Log = logBuf[:e.Out.NLog]
	for i := range e.Log {
		if e.Log[i].Kind == kFault {
			e.faults[faultNames[e.Log[i].A]]++
		}
	}
	e.Fault("pool_loss", int(e.Out.Drops))
	e.Fault("preemption", int(e.Out.Preempts))
	switch {
	case e.Out.Overflow&2 != 0:
		e.Fail("livelock", "not finished after %d events and %d steps", len(e.Log), e.Out.Steps)
		e.stacks()
	case e.Status == sim.Crash:
		if e.Out.Panicked == 2 {
			e.Fail("crash", "fatal error: %s\n%s", e.Out.Fatal, e.frames())
		} else {
			e.Fail("crash", "a goroutine died of an unrecovered panic: %v\n%s", e.Out.Arg, e.frames())
		}
	case e.Status == sim.Limit:
		e.Fail("livelock", "not finished after %d steps", e.Out.Steps)
		e.stacks()
	case !e.RootEnd:
		e.Fail("deadlock", "the call never returns: nothing can run any more, %d goroutines are blocked", e.Out.Live)
		e.stacks()
	case e.Out.Live > 0 && !e.LeakOK:
		e.Fail("leak", "%d goroutines never end", e.Out.Live)
		e.stacks()
	}
}

func (e *Env) frames() string {
	var b strings.Builder
	fr := runtime.CallersFrames(e.Out.PCs[:e.Out.NPC])
	for {
		f, more := fr.Next()
		if f.Function != "" && !strings.HasPrefix(f.Function, "runtime.") {
			fmt.Fprintf(&b, "\t%s %s:%d\n", f.Function, trimPath(f.File), f.Line)
		}
		if !more {
			break
		}
	}
	return b.String()
}

func trimPath(s string) string {
	if i := strings.Index(s, "/repo/"); i >= 0 {
		return s[i+6:]
	}
	return strings.TrimPrefix(s, "github.com/intel/forGoParallel/")
}

func (e *Env) stacks() {
	if !e.WantStk {
		return
	}
	buf := make([]byte, 1<<18)
	buf = buf[:runtime.Stack(buf, true)]
	var keep []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "forGoParallel") && !strings.Contains(g, "main.(*Env).stacks") {
			keep = append(keep, g)
		}
	}
	if len(keep) > 12 {
		keep = keep[len(keep)-12:]
	}
	e.Stacks = strings.Join(keep, "\n\n")
}

// Count returns how many events of the given kind satisfy f (nil: all).
func (e *Env) Count(kind uint32, f func(*sim.Event) bool) (n int) {
	for i := range e.Log {
		if e.Log[i].Kind == kind && (f == nil || f(&e.Log[i])) {
			n++
		}
	}
	return
}

// Sched is the part of a replay file that determines the schedule.
type Sched struct {
	Seed     uint64   `json:"seed"`
	Policy   uint32   `json:"policy"`
	Gap      uint32   `json:"gap"`
	Depth    uint32   `json:"depth"`
	Span     uint32   `json:"span"`
	Starve   uint32   `json:"starve"`
	Tick     int64    `json:"tick_ns"`
	MaxSteps uint64   `json:"max_steps"`
	Pool     uint32   `json:"pool_loss_1_in"`
	Replay   bool     `json:"replay"`
	Steps    []uint64 `json:"decision_steps,omitempty"`
	Vals     []uint32 `json:"decision_values,omitempty"`
}

// genSched draws a scheduling policy. steps is the length of a typical run of
// the scenario, if one is known.
func genSched(r *Rand, steps uint64) *Sched {
	s := &Sched{Seed: r.U64(), Tick: int64(r.Pick(1, 10, 100, 1000, 1000, 20000)), MaxSteps: 2000000}
	switch k := r.N(20); {
	case k < 7:
		s.Policy = 0
		s.Gap = uint32(r.Pick(1, 2, 2, 3, 3, 5, 5, 8, 12, 20, 50, 200))
	case k < 14:
		s.Policy = 1
		s.Depth = uint32(r.In(1, 6))
		if steps > 0 && !r.P(4) {
			s.Span = uint32(steps)
		} else {
			s.Span = uint32(r.Pick(50, 150, 500, 1500, 5000))
		}
	case k < 18:
		s.Policy = 2
		s.Gap = uint32(r.Pick(1, 2, 3, 5, 8, 20, 60))
		s.Starve = uint32(r.Pick(2, 3, 4, 6))
	case k < 19:
		s.Policy = 3
	default:
		s.Policy = 4
	}
	s.Pool = uint32(r.Pick(0, 2, 3, 6))
	return s
}

func (s *Sched) config(c *sim.Config) {
	*c = sim.Config{Seed: s.Seed, Policy: s.Policy, Gap: s.Gap, Depth: s.Depth, Span: s.Span, Starve: s.Starve,
		Tick: s.Tick, MaxSteps: s.MaxSteps, Pool: s.Pool, DevStep: s.Steps, DevVal: s.Vals}
	if s.Replay {
		c.Replay = 1
	}
}

// recorded returns the schedule of the run as a list of decisions.
func (e *Env) recorded(s *Sched) *Sched {
	if e.Out.Overflow&1 != 0 {
		return nil
	}
	t := *s
	t.Replay = true
	t.Steps = append([]uint64(nil), recStep[:e.Out.NRec]...)
	t.Vals = append([]uint32(nil), recVal[:e.Out.NRec]...)
	return &t
}

// traceText renders the history of a run.
func (e *Env) traceText(max int) []string {
	var out []string
	for i := range e.Log {
		ev := &e.Log[i]
		name := kindNames[ev.Kind&0xffff]
		if ev.Kind == kFault {
			out = append(out, fmt.Sprintf("step %d g%d FAULT %s", ev.Step, ev.G, faultNames[ev.A]))
			continue
		}
		if name == "" {
			name = fmt.Sprintf("event%d", ev.Kind)
		}
		if ev.Kind>>16 != 0 {
			name = fmt.Sprintf("part%d %s", ev.Kind>>16, name)
		}
		out = append(out, fmt.Sprintf("step %d g%d %s %d %d %d", ev.Step, ev.G, name, ev.A, ev.B, ev.C))
		if len(out) >= max {
			out = append(out, "...")
			break
		}
	}
	return out
}

var kindNames = map[uint32]string{}

// Replay is a replay file.
type Replay struct {
	Property string          `json:"property"`
	Scenario string          `json:"scenario"`
	Race     bool            `json:"race"`
	Class    string          `json:"class"`
	Message  string          `json:"message"`
	Seed     uint64          `json:"verif_seed"`
	Shard    int             `json:"shard"`
	Run      int64           `json:"run"`
	Plan     json.RawMessage `json:"plan"`
	Sched    *Sched          `json:"schedule"`
	NCPU     int             `json:"ncpu,omitempty"`   // number of CPUs of all runs of the shard, if fixed
	Prefix   bool            `json:"prefix,omitempty"` // replay all runs of the shard up to Run
	Hash     uint64          `json:"schedule_hash"`
	Hist     uint64          `json:"history_hash"`
	Trace    []string        `json:"trace,omitempty"`
	Stacks   []string        `json:"stacks,omitempty"`
	Notes    []string        `json:"notes,omitempty"`
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
