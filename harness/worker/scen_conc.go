package main

import (
	"fmt"
	"sync"
	"sync/atomic"

	"github.com/intel/forGoParallel/internal/zzverif/sim"
)

// ConcPart is one use of the library among several that are in progress at
// the same time.
type ConcPart struct {
	Kind  int // cCall, cPanics, cSpec, cPipe, cCancel, cSort, cIsSorted
	Call  *CallPlan
	Pipe  *PipePlan
	Sort  *SortPlan
	Delay int // -1: until the part before has ended
	Host  int // the part whose functions execute this one, +1; 0: a goroutine of its own
}

const (
	cJoin = iota
	cResult
	cPanics
	cSpec
	cPipe
	cCancel
	cSort
	nConc
)

// ConcPlan is a program that uses several parts of the library at once.
type ConcPlan struct {
	NCPU  int
	Parts []ConcPart
}

var concNames = [nConc]string{"call", "call (result)", "call that may panic", "speculative call", "pipeline", "pipeline that may be canceled", "sort"}

func (q *ConcPart) name() string {
	switch q.Kind {
	case cPipe, cCancel:
		return concNames[q.Kind]
	case cSort:
		return "psort." + sortNames[q.Sort.Call]
	case cSpec:
		return "speculative." + formNames[q.Call.Form]
	}
	return "parallel." + formNames[q.Call.Form]
}

// check executes the part with its own environment.
func (q *ConcPart) check(e *Env) {
	switch q.Kind {
	case cJoin:
		runJoin(e, q.Call, 1)
	case cResult:
		runJoin(e, q.Call, 2)
	case cPanics:
		runPanics(e, q.Call)
	case cSpec:
		runSpec(e, q.Call)
	case cPipe:
		runPipe(ckOnce|ckOrder|ckFin|ckAfter|ckLib|ckSizes)(e, q.Pipe)
	case cCancel:
		runPipe(ckOnce|ckOrder|ckFin|ckAfter|ckErr)(e, q.Pipe)
	default:
		runSort(true, true)(e, q.Sort)
	}
}

// runConc starts all parts inside one simulated run and then lets each of them
// check its part of the history as if it had been alone.
func runConc(e *Env, p *ConcPlan) {
	e.Cfg.NCPU = int32(p.NCPU)
	n := len(p.Parts)
	type helper struct {
		env    *Env
		root   func()
		ready  chan bool // the root is known
		resume chan bool // the run is over
		done   chan any
		taken  atomic.Bool
	}
	hs := make([]*helper, n)
	subs := make([]func(), n)
	var nested atomic.Int32
	var own, over sync.WaitGroup
	for i := range hs {
		hs[i] = &helper{ready: make(chan bool), resume: make(chan bool), done: make(chan any, 1)}
		subs[i] = func() {
			if hs[i].taken.CompareAndSwap(false, true) {
				nested.Add(1)
				hs[i].root()
				over.Done()
			}
		}
	}
	hosted := make([]bool, n)
	for i := range hs {
		h, q := hs[i], &p.Parts[i]
		hosted[i] = q.Host > 0
		h.env = &Env{Cfg: e.Cfg, faults: map[string]int64{}, probes: map[string]int64{}, logger: logger{uint32(i + 1)}, sub: subs}
		h.env.inside = func(root func()) {
			h.root = root
			h.ready <- true
			<-h.resume
		}
		go func() {
			defer func() {
				h.done <- recover()
			}()
			q.check(h.env)
		}()
		<-h.ready
		e.Cfg.MaxSteps += h.env.Cfg.MaxSteps
	}
	e.Exec(func() {
		over.Add(n)
		var previous chan bool
		for i := range hs {
			if hosted[i] {
				continue
			}
			hs[i].taken.Store(true)
			own.Add(1)
			before, after := previous, make(chan bool)
			previous = after
			go func() {
				defer over.Done()
				defer own.Done()
				if p.Parts[i].Delay >= 0 {
					sim.Work(p.Parts[i].Delay)
				} else if before != nil {
					<-before
				}
				hs[i].root()
				close(after)
			}()
		}
		own.Wait()
		// The functions that should have executed these parts were not invoked.
		for i := range hs {
			if hs[i].taken.CompareAndSwap(false, true) {
				hs[i].root()
				over.Done()
			}
		}
		over.Wait()
	}, nil)
	logs := make([][]sim.Event, n+1)
	for i := range e.Log {
		ev := e.Log[i]
		tag := int(ev.Kind >> 16)
		ev.Kind &= 0xffff
		if tag <= n {
			logs[tag] = append(logs[tag], ev)
		}
	}
	failed := e.Failed()
	for i, h := range hs {
		h.env.Log, h.env.Out, h.env.Status = logs[i+1], e.Out, e.Status
		h.env.RootEnd = e.RootEnd
		if failed {
			h.env.Class = "composite"
		}
		h.resume <- true
		if r := <-h.done; r != nil && !failed {
			panic(r)
		}
		if !failed && h.env.Failed() {
			e.Fail(h.env.Class, "part %d of %d uses that are in progress at the same time: %s: %s", i+1, n, p.Parts[i].name(), h.env.Msg)
		}
	}
	// Did the uses overlap?
	overlap := 0
	for i := 1; i <= n; i++ {
		for k := 1; k <= n; k++ {
			if i != k && len(logs[i]) > 0 && len(logs[k]) > 0 && logs[i][0].Step < logs[k][0].Step && logs[k][0].Step < logs[i][len(logs[i])-1].Step {
				overlap++
			}
		}
	}
	e.Probe("overlapping_uses", overlap > 0)
	e.Probe("three_overlapping_uses", overlap > 2)
	e.Probe("nested_uses", nested.Load() > 0)
	for i := range p.Parts {
		e.Probe(fmt.Sprint("with_", []string{"parallel", "parallel", "panics", "speculative", "pipeline", "canceled_pipeline", "sort"}[p.Parts[i].Kind]), true)
	}
}

var concPipe = gopt{stages: []int{sOrd, sSeq, sPar, sLim, sStrict, sLimit, sSkip}, filters: []int{fRecv, fRecv, fBoth, fAppend, fCount, fEvery, fSome}, srcs: []int{srcSlice, srcSlice, srcFunc, srcFuncSized, srcMulti, srcChan, srcScanner}, xform: 9, maxStage: 4, maxItems: 16}

func genConc(kinds []int) func(*Rand) *ConcPlan {
	return func(r *Rand) *ConcPlan {
		p := &ConcPlan{NCPU: cpus(r.In(1, 4))}
		same := r.N(3) == 0
		first := kinds[r.N(len(kinds))]
		for k := r.Pick(2, 2, 2, 3, 3, 4); k > 0; k-- {
			q := ConcPart{Kind: kinds[r.N(len(kinds))], Delay: r.Pick(0, 0, 0, 3, 10, 40, -1)}
			if same {
				q.Kind = first
			}
			switch q.Kind {
			case cJoin:
				q.Call = genCall(r, parForms, 0, 8)
			case cResult:
				q.Call = genCall(r, parForms[1:], 0, 8)
			case cPanics:
				q.Call = genCall(r, parForms, 1, 6)
				for j := r.N(3); j > 0; j-- {
					q.Call.Fns[r.N(len(q.Call.Fns))].Panic = r.In(1, 5)
				}
			case cSpec:
				q.Call = genCall(r, specForms, 0, 6)
				if len(q.Call.Fns) > 0 && r.P(2) {
					f := &q.Call.Fns[r.N(len(q.Call.Fns))]
					if f.Decide = !r.P(3); !f.Decide {
						f.Panic = r.In(1, 5)
					}
				}
			case cPipe:
				q.Pipe = genPipe(r, concPipe)
			case cCancel:
				q.Pipe = genPipe(r, concPipe)
				genFaults(r, q.Pipe, []int{xCancel, xSetErr, xExtern, xDeadline}, 1)
			default:
				q.Sort = &SortPlan{Call: r.Pick(0, 1, 1, 2), Type: r.Pick(0, 0, 1, 2, 3), Seed: r.U64(), Pattern: r.N(nPatterns), N: r.Pick(r.N(60), 97, r.In(40, 250), r.In(96, 300)), Yield: r.Pick(0, 1, 2, 7)}
				q.Sort.Keys = r.Pick(1, 2, 5, max(q.Sort.N/4, 1), q.Sort.N+1)
			}
			if len(p.Parts) > 0 && r.P(3) {
				q.Host = 1 + r.N(len(p.Parts))
			}
			p.Parts = append(p.Parts, q)
			if q.Host > 0 {
				h := &p.Parts[q.Host-1]
				if h.Call != nil && len(h.Call.Fns) > 0 {
					h.Call.Fns[r.N(len(h.Call.Fns))].Sub = len(p.Parts)
				} else if h.Pipe != nil {
					s := &h.Pipe.Stages[r.N(len(h.Pipe.Stages))]
					if len(s.Filters) > 0 {
						s.Filters[r.N(len(s.Filters))].Sub = len(p.Parts)
					}
				}
			}
		}
		return p
	}
}

// normConc brings a plan into shape. A part is executed by functions of
// earlier parts only.
func normConc(kinds []int) func(*ConcPlan) {
	callN := [...]func(*CallPlan){cJoin: normCall(parForms, 0, false), cResult: normCall(parForms[1:], 0, false), cPanics: normCall(parForms, 0, false), cSpec: normCall(specForms, 0, true)}
	pipeN := normPipe(concPipe)
	return func(p *ConcPlan) {
		p.NCPU = clamp(p.NCPU, 1, 8)
		if len(p.Parts) > 6 {
			p.Parts = p.Parts[:6]
		}
		var keep []ConcPart
		for i := range p.Parts {
			q := p.Parts[i]
			q.Delay = clamp(q.Delay, -1, 200)
			q.Host = clamp(q.Host, 0, i)
			sub := func(s *int) {
				if *s <= i+1 || *s > len(p.Parts) || p.Parts[*s-1].Host != i+1 {
					*s = 0
				}
			}
			switch q.Kind = clamp(q.Kind, 0, nConc-1); q.Kind {
			case cPipe, cCancel:
				if q.Pipe == nil {
					q.Pipe = &PipePlan{}
				}
				q.Call, q.Sort = nil, nil
				pipeN(q.Pipe)
				q.Pipe.NCPU, q.Pipe.Notify, q.Pipe.Src.ErrAt = p.NCPU, nil, 0
				q.Pipe.Src.N = clamp(q.Pipe.Src.N, 0, 40)
				q.Pipe.Bare = false
				q.Pipe.noHolds()
				if q.Kind == cPipe {
					q.Pipe.Faults, q.Pipe.Src.Stay = nil, false
				}
				for k := range q.Pipe.Stages {
					for j := range q.Pipe.Stages[k].Filters {
						f := &q.Pipe.Stages[k].Filters[j]
						f.Gate = false
						sub(&f.Sub)
					}
				}
			case cSort:
				if q.Sort == nil {
					q.Sort = &SortPlan{Keys: 1}
				}
				q.Call, q.Pipe = nil, nil
				s := q.Sort
				s.N, s.Call, s.Type, s.Pattern = clamp(s.N, 0, 300), clamp(s.Call, 0, 2), clamp(s.Type, 0, 3), clamp(s.Pattern, 0, nPatterns-1)
				s.Keys, s.Yield, s.PanicAt = clamp(s.Keys, 1, 1<<30), clamp(s.Yield, 0, 1<<20), 0
			default:
				if q.Call == nil {
					q.Call = &CallPlan{}
				}
				q.Pipe, q.Sort = nil, nil
				callN[q.Kind](q.Call)
				q.Call.NCPU = p.NCPU
				if len(q.Call.Fns) > 12 {
					q.Call.Fns = q.Call.Fns[:12]
				}
				for k := range q.Call.Fns {
					f := &q.Call.Fns[k]
					f.Block = false
					if q.Kind < cPanics {
						f.Panic = 0
						f.Decide = f.Decide && q.Kind == cResult
					}
					if q.Kind == cPanics {
						f.Decide = false
					}
					sub(&f.Sub)
				}
				q.Call.JoinTrue = q.Call.JoinTrue && q.Kind == cSpec
			}
			keep = append(keep, q)
		}
		p.Parts = keep
	}
}

func init() {
	all := []int{cJoin, cResult, cPanics, cSpec, cPipe, cCancel, cSort}
	add("C01", "mixed", 10, true, genConc(all), normConc(all), runConc)
	sorts := []int{cSort}
	add("C01", "sorts", 3, true, genConc(sorts), normConc(sorts), runConc)
	pipes := []int{cPipe, cPipe, cCancel}
	add("C01", "pipelines", 4, true, genConc(pipes), normConc(pipes), runConc)
}
