package main

import (
	"fmt"

	"github.com/intel/forGoParallel/internal/zzverif/sim"
)

// firstEvent returns the left-most function or element that decides or panics.
func firstEvent(p *CallPlan) int {
	for i := range p.Fns {
		if p.Fns[i].Decide || p.Fns[i].Panic > 0 {
			return i
		}
	}
	return -1
}

// checkSpecResult compares the outcome with that of the left-most event.
func (st *callState) checkSpecResult(e *Env) {
	p := st.p
	name := "speculative." + formNames[p.Form]
	first := firstEvent(p)
	if first >= 0 && p.Fns[first].Panic > 0 {
		if !st.didRaise {
			e.Fail("lost-panic", "%s returns normally although function %d panicked and no function to its left decided the result", name, first)
			return
		}
		if got := raisedBy(st.raised); got != first && (p.Fns[first].Panic != 6 || got >= 0) {
			e.Fail("wrong-panic", "%s panics with the value of function %d; the left-most panicking function is %d: %.160v", name, got, first, st.raised)
			return
		}
		if s := kept(p.Fns[first].Panic, first, st.raised); s != "" {
			e.Fail("panic-value", "%s: %s", name, s)
		}
		return
	}
	if st.didRaise {
		e.Fail("panic", "%s panics (%.160v) although function %d, to the left of every panicking one, decided the result", name, st.raised, first)
		return
	}
	decided := first >= 0
	n := len(p.Fns)
	switch p.Form {
	case fAnd, fRangeAnd:
		if st.resB != !decided {
			e.Fail("result", "%s = %v, want %v", name, st.resB, !decided)
		}
	case fDo, fOr, fRange, fRangeOr:
		if st.resB != decided {
			e.Fail("result", "%s = %v, want %v", name, st.resB, decided)
		}
	case fReduce, fRangeReduce:
		joined := -1
		for i := range e.Log {
			if ev := &e.Log[i]; ev.Kind == kJoin && st.joins(int(ev.A), int(ev.B)) && (joined < 0 || ev.A < e.Log[joined].A) {
				joined = i
			}
		}
		e.Probe("joins_decide", joined >= 0)
		e.Probe("joins_do_not_decide", joined < 0 && p.JoinTrue && e.Count(kJoin, nil) > 0)
		switch {
		case joined >= 0:
			// The result is that of a function or of a join that decides, and
			// no other one that decides is further left.
			if !st.resF {
				e.Fail("result", "%s = %q, false although a join returned true", name, st.resS)
				return
			}
			if decided && st.resS == "!"+letter(first) {
				if int(e.Log[joined].B) <= first {
					e.Fail("result", "%s = %q, true although the join of [%d,%d), further left, returned true", name, st.resS, e.Log[joined].A, e.Log[joined].B)
				}
				return
			}
			a, b := spanOf(st.resS)
			ok := false
			for i := range e.Log {
				ev := &e.Log[i]
				ok = ok || ev.Kind == kJoin && int(ev.A) == a && int(ev.B) == b && st.joins(a, b) && st.resS == letters(a, b)
			}
			switch {
			case !ok:
				e.Fail("result", "%s = %q, true, which is the result neither of the left-most function that returned true nor of a join that did", name, st.resS)
			case decided && b > first:
				e.Fail("result", "%s = %q, true although function %d decided", name, st.resS, first)
			case a >= int(e.Log[joined].B):
				e.Fail("result", "%s = %q, true although the join of [%d,%d), further left, returned true", name, st.resS, e.Log[joined].A, e.Log[joined].B)
			}
		case decided:
			if want := "!" + letter(first); !st.resF || st.resS != want {
				e.Fail("result", "%s = %q, %v, want %q, true", name, st.resS, st.resF, want)
			}
		default:
			if want := letters(0, n); st.resF || st.resS != want {
				e.Fail("result", "%s = %q, %v, want %q, false", name, st.resS, st.resF, want)
			}
		}
	}
}

// S01: outcome of speculative calls under every schedule.
func runSpec(e *Env, p *CallPlan) {
	e.Cfg.NCPU = int32(p.NCPU)
	st := newCall(e, p)
	e.Exec(func() { st.call(true) }, nil)
	if e.Failed() {
		return
	}
	st.checkSpecResult(e)
	if e.Failed() {
		return
	}
	quiet := st.mayRead(true, 0) && !st.didRaise
	e.checkPartition(p, !quiet)
	if quiet {
		e.checkJoined(p)
		if st.reads != len(st.cells) && !e.Failed() {
			e.Fail("effects", "speculative.%s: the caller sees %d of %d effects", formNames[p.Form], st.reads, len(st.cells))
		}
	}
	first := firstEvent(p)
	e.Probe("decided", first >= 0 && p.Fns[max(first, 0)].Decide)
	e.Probe("panicked", st.didRaise)
	e.Probe("undecided", first < 0)
	late := false
	ret := false
	for i := range e.Log {
		switch e.Log[i].Kind {
		case kReturn, kRaised:
			ret = true
		case kEnd:
			late = late || ret
		}
	}
	e.Probe("function_outlives_call", late)
}

// S02: functions that never finish by themselves do not hold up a decided call.
func runEarly(e *Env, p *CallPlan) {
	e.Cfg.NCPU = int32(p.NCPU)
	st := newCall(e, p)
	blockedLeft := false
	decided := -1
	for i := range p.Fns {
		if p.Fns[i].Decide {
			decided = i
			break
		}
		blockedLeft = blockedLeft || p.Fns[i].Block
	}
	if decided < 0 {
		panic("S02: no deciding function")
	}
	e.Exec(func() { st.call(true) }, func(k int) bool {
		if k > 0 {
			return false
		}
		sim.Log(kGate, 0, 0, 0)
		sim.GateOpen(0)
		return true
	})
	if e.Failed() {
		return
	}
	gate := -1
	ret := -1
	ended := false
	for i := range e.Log {
		switch e.Log[i].Kind {
		case kGate:
			gate = i
		case kReturn, kRaised:
			ret = i
		case kEnd:
			if gate < 0 && e.Log[i].C == 2 {
				ended = true
			}
		}
	}
	if gate >= 0 && (ret < 0 || ret > gate) {
		if blockedLeft {
			if !ended {
				return
			}
			e.Fail("waits-left:"+formNames[p.Form], "speculative.%s does not return although function %d returned a deciding result: it waits for a function to its left", formNames[p.Form], decided)
		} else {
			e.Fail("waits-right", "speculative.%s does not return although function %d returned a deciding result and every function to its left has terminated: it waits for functions to its right", formNames[p.Form], decided)
		}
		return
	}
	st.checkSpecResult(e)
	e.checkPartition(p, true)
	e.Probe("returned_with_functions_blocked", gate >= 0 && ret < gate)
}

// S03: what happens to functions the call did not wait for.
func runAbandoned(e *Env, p *CallPlan) {
	e.Cfg.NCPU = int32(p.NCPU)
	st := newCall(e, p)
	e.Exec(func() { st.call(true) }, func(k int) bool {
		if k > 0 {
			return false
		}
		sim.Log(kGate, 0, 0, 0)
		sim.GateOpen(0)
		return true
	})
	if e.Failed() {
		return
	}
	e.checkPartition(p, true)
	starts, ends := 0, 0
	latePanic := false
	ret := false
	for i := range e.Log {
		switch e.Log[i].Kind {
		case kStart:
			starts++
		case kReturn, kRaised:
			ret = true
		case kEnd:
			ends++
			latePanic = latePanic || ret && e.Log[i].C == 1
		}
	}
	if starts != ends {
		e.Fail("unfinished", "speculative.%s: %d functions were started, %d ended", formNames[p.Form], starts, ends)
		return
	}
	st.checkSpecResult(e)
	e.Probe("late_panic", latePanic)
	e.Probe("early_return", ret && e.Log[len(e.Log)-1].Kind != kReturn)
	_ = fmt.Sprint
}

func init() {
	norm := normCall(specForms, 0, true)
	genEvents := func(r *Rand, p *CallPlan) {
		n := len(p.Fns)
		if n == 0 {
			return
		}
		switch r.N(6) {
		case 0: // nothing decides
		case 1, 2:
			for k := r.In(1, 3); k > 0; k-- {
				p.Fns[r.N(n)].Decide = true
			}
		case 3:
			for k := r.In(1, 3); k > 0; k-- {
				p.Fns[r.N(n)].Panic = r.In(1, 6)
			}
		default:
			for k := r.In(2, 4); k > 0; k-- {
				if r.P(2) {
					p.Fns[r.N(n)].Decide = true
				} else {
					p.Fns[r.N(n)].Panic = r.In(1, 6)
				}
			}
		}
	}
	fix := func(p *CallPlan) {
		norm(p)
		for i := range p.Fns {
			f := &p.Fns[i]
			if p.JoinTrue {
				// A join can be the left-most event, and then the panics
				// to its right are skipped legitimately.
				f.Panic = 0
			}
			if f.Panic > 0 {
				f.Decide = false
			}
			f.Block = false
		}
	}
	add("S01", "calls", 10, true, func(r *Rand) *CallPlan {
		p := genCall(r, specForms, 0, 13)
		genEvents(r, p)
		if p.JoinTrue = isJoinForm(p.Form) && r.P(3); p.JoinTrue {
			p.JoinAt = r.Pick(0, 2, 3, r.In(2, 6), len(p.Fns), len(p.Fns)/2)
			p.JoinFrom = r.Pick(0, 0, 1, r.N(len(p.Fns)+1), len(p.Fns)/2)
		}
		return p
	}, fix, runSpec)

	// S02: everything right of the left-most deciding function may block.
	early := func(left bool) func(p *CallPlan) {
		return func(p *CallPlan) {
			norm(p)
			if len(p.Fns) == 0 {
				p.Fns = append(p.Fns, FN{})
			}
			d := -1
			for i := range p.Fns {
				f := &p.Fns[i]
				f.Panic = 0
				if f.Decide && d < 0 {
					d = i
				}
				if d < 0 || d == i {
					f.Block = f.Block && left && d < 0
				} else {
					f.Decide = f.Decide && !f.Block
				}
			}
			if d < 0 {
				d = len(p.Fns) - 1
				p.Fns[d].Decide, p.Fns[d].Block = true, false
			}
			p.JoinTrue = false
			if left {
				// The functions must be separate invocations for one of them
				// to be held up while another decides.
				if isRange(p.Form) {
					p.N = max(len(p.Fns), 1)
				}
			}
		}
	}
	genEarly := func(r *Rand) *CallPlan {
		p := genCall(r, specForms, 1, 13)
		d := r.N(len(p.Fns))
		p.Fns[d].Decide = true
		style := r.N(3)
		for i := d + 1; i < len(p.Fns); i++ {
			switch style {
			case 0:
				p.Fns[i].Block = true
			default:
				p.Fns[i].Block = r.P(2)
				p.Fns[i].Decide = !p.Fns[i].Block && r.P(4)
			}
		}
		return p
	}
	add("S02", "right", 12, false, genEarly, early(false), runEarly)
	add("S02", "left", 2, false, func(r *Rand) *CallPlan {
		p := genEarly(r)
		for i := range p.Fns {
			if p.Fns[i].Decide {
				break
			}
			p.Fns[i].Block = r.P(2)
		}
		return p
	}, early(true), runEarly)

	add("S03", "abandoned", 10, true, func(r *Rand) *CallPlan {
		p := genCall(r, specForms, 1, 13)
		d := r.N(len(p.Fns))
		if r.P(4) {
			p.Fns[d].Panic = r.In(1, 6)
		} else {
			p.Fns[d].Decide = true
		}
		for i := d + 1; i < len(p.Fns); i++ {
			f := &p.Fns[i]
			f.Block = r.P(2)
			if r.P(2) {
				f.Panic = r.In(1, 6)
			} else {
				f.Decide = r.P(4)
			}
		}
		return p
	}, func(p *CallPlan) {
		norm(p)
		seen := false
		for i := range p.Fns {
			f := &p.Fns[i]
			if f.Panic > 0 {
				f.Decide = false
			}
			f.Block = f.Block && seen
			seen = seen || f.Decide || f.Panic > 0
		}
		p.JoinTrue = false
	}, runAbandoned)
}
