package main

import (
	"fmt"

	"github.com/intel/forGoParallel/internal/zzverif/sim"
	"github.com/intel/forGoParallel/parallel"
	"github.com/intel/forGoParallel/pipeline"
	"github.com/intel/forGoParallel/speculative"
)

// CrowdUse is one use of the library whose functions all make the use of the
// next level, if there is one, and wait otherwise.
type CrowdUse struct{ Kind, Width int }

const (
	wDo = iota
	wRange
	wAnd
	wReduceSum
	wSpecDo
	wSpecRange
	wPar
	wLim
	wSeq
	wOrdPar
	wStrict
	nCrowd
)

var crowdNames = [nCrowd]string{"parallel.Do", "parallel.Range", "parallel.And", "parallel.ReduceSum", "speculative.Do", "speculative.Range", "a Par stage", "a LimitedPar stage", "a Seq stage", "a Par stage behind an Ord stage", "a LimitedPar stage before a StrictOrd stage"}

// CrowdPlan is a set of nested uses side by side, each with its levels.
type CrowdPlan struct {
	NCPU int
	Tops [][]CrowdUse
}

// width is the number of functions that can be in progress at the same time.
func (u CrowdUse) width(ncpu int) int {
	switch u.Kind {
	case wLim, wStrict:
		return min(u.Width, ncpu)
	case wSeq:
		return 1
	}
	return u.Width
}

func (u CrowdUse) run(f func(k int)) (ok bool) {
	fs := func() (fs []func()) {
		for k := 0; k < u.Width; k++ {
			fs = append(fs, func() { f(k) })
		}
		return
	}
	switch u.Kind {
	case wDo:
		parallel.Do(fs()...)
		return true
	case wRange:
		parallel.Range(0, u.Width, u.Width, func(a, b int) {
			for k := a; k < b; k++ {
				f(k)
			}
		})
		return true
	case wAnd:
		var ps []func() bool
		for _, f := range fs() {
			ps = append(ps, func() bool { f(); return true })
		}
		return parallel.And(ps...)
	case wReduceSum:
		var ps []func() int
		for _, f := range fs() {
			ps = append(ps, func() int { f(); return 1 })
		}
		return parallel.ReduceSum(ps...) == u.Width
	case wSpecDo:
		var ps []func() bool
		for _, f := range fs() {
			ps = append(ps, func() bool { f(); return false })
		}
		return !speculative.Do(ps...)
	case wSpecRange:
		return !speculative.Range(0, u.Width, u.Width, func(a, b int) bool {
			for k := a; k < b; k++ {
				f(k)
			}
			return false
		})
	}
	items := make([]int, u.Width)
	for i := range items {
		items[i] = i
	}
	p := pipeline.New[[]int](pipeline.NewSlice(items))
	p.NofBatches(u.Width)
	var got []int
	recv := pipeline.Receive(func(_ int, data []int) []int {
		for _, k := range data {
			f(k)
		}
		return data
	})
	switch u.Kind {
	case wPar:
		p.Add(pipeline.Par(recv))
	case wLim, wStrict:
		p.Add(pipeline.LimitedPar(recv))
	case wOrdPar:
		p.Add(pipeline.Ord(pipeline.Receive(func(_ int, data []int) []int { return data })), pipeline.Par(recv))
	default:
		p.Add(pipeline.Seq(recv))
	}
	if u.Kind == wStrict {
		p.Add(pipeline.StrictOrd(pipeline.Append(&got)))
	} else {
		p.Add(pipeline.Ord(pipeline.Append(&got)))
	}
	p.Run()
	if p.Err() != nil || len(got) != u.Width {
		return false
	}
	for i := range got {
		if got[i] != i {
			return false
		}
	}
	return true
}

func runCrowd(e *Env, p *CrowdPlan) {
	e.Cfg.NCPU = int32(p.NCPU)
	e.Cfg.MaxSteps *= 10
	var nest func(us []CrowdUse)
	nest = func(us []CrowdUse) {
		if len(us) == 0 {
			sim.Log(kStart, 0, 0, 0)
			sim.GateWait(0)
			sim.Log(kEnd, 0, 0, 0)
			return
		}
		if !us[0].run(func(int) { nest(us[1:]) }) {
			sim.Log(kBad, int64(us[0].Kind), 0, 0)
		}
	}
	want, total := 0, 0
	what := ""
	for _, us := range p.Tops {
		w, t := 1, 1
		s := ""
		for _, u := range us {
			w *= u.width(p.NCPU)
			t *= u.Width
			if s != "" {
				s += " of "
			}
			s += fmt.Sprintf("%s with %d functions", crowdNames[u.Kind], u.Width)
		}
		want += w
		total += t
		if what != "" {
			what += ", beside "
		}
		what += s
	}
	got := -1
	e.Exec(func() {
		done := make(chan bool)
		for _, us := range p.Tops[1:] {
			go func() {
				nest(us)
				done <- true
			}()
		}
		nest(p.Tops[0])
		for range p.Tops[1:] {
			<-done
		}
	}, func(k int) bool {
		if k > 0 {
			return false
		}
		got = sim.GateWaiting(0)
		sim.Log(kGate, int64(got), 0, 0)
		sim.GateOpen(0)
		return true
	})
	if e.Failed() {
		return
	}
	if n := e.Count(kBad, nil); n > 0 {
		e.Fail("result", "a use gives a wrong result: %s", what)
		return
	}
	if n := e.Count(kStart, nil); n != total {
		e.Fail("calls", "%d innermost calls, want %d: %s", n, total, what)
		return
	}
	if got >= 0 && got != want {
		e.Fail("crowd", "%d innermost functions are in progress when all of them wait, want %d as each use alone allows, with %d CPUs: %s", got, want, p.NCPU, what)
	}
	e.Probe("crowd_above_16", want > 16)
	e.Probe("crowd_above_64", want > 64)
}

func init() {
	add("C01", "crowd", 4, false, func(r *Rand) *CrowdPlan {
		p := &CrowdPlan{NCPU: cpus(r.In(1, 8))}
		for k := r.Pick(1, 1, 2, 3); k > 0; k-- {
			var us []CrowdUse
			kind := r.N(nCrowd)
			for l := r.In(1, 3); l > 0; l-- {
				us = append(us, CrowdUse{kind, r.Pick(2, 3, 4, 8, 12, r.In(1, 40))})
				if r.P(2) {
					kind = r.N(nCrowd)
				}
			}
			p.Tops = append(p.Tops, us)
		}
		return p
	}, func(p *CrowdPlan) {
		p.NCPU = clamp(p.NCPU, 1, 8)
		if len(p.Tops) == 0 {
			p.Tops = [][]CrowdUse{nil}
		}
		if len(p.Tops) > 3 {
			p.Tops = p.Tops[:3]
		}
		for i, us := range p.Tops {
			if len(us) == 0 {
				us = []CrowdUse{{}}
			}
			if len(us) > 3 {
				us = us[:3]
			}
			left := 120
			for j := range us {
				us[j].Kind = clamp(us[j].Kind, 0, nCrowd-1)
				us[j].Width = clamp(us[j].Width, 1, left)
				left /= us[j].Width
				if us[j].Width == 1 && (us[j].Kind == wReduceSum) {
					us[j].Kind = wDo
				}
			}
			p.Tops[i] = us
		}
	}, runCrowd)
}
