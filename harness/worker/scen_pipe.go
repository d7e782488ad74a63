package main

import (
	"fmt"
	"math"
	"slices"
	"strconv"
	"strings"

	"github.com/intel/forGoParallel/internal/zzverif/sim"
)

// call is one invocation of a receiver.
type call struct {
	seq     int
	in, out int // positions in the history, out -1: never
	len     int
	dig     int64
}

// pipeHist is the history of a pipeline run.
type pipeHist struct {
	calls  map[int][]call // per receiver
	fins   map[int][]int
	preds  map[int][2]int // per predicate: evaluated to false, to true
	sizes  map[int]int64
	runRet int
	ctxEnd int64 // 0: unknown, 1: the context was not canceled, 2: it was
	fault  bool  // something canceled the pipeline or made it fail
	setErr bool  // somebody called SetErr
}

func (st *pipeState) history(e *Env) *pipeHist {
	h := &pipeHist{calls: map[int][]call{}, fins: map[int][]int{}, preds: map[int][2]int{}, sizes: map[int]int64{}, runRet: -1}
	open := map[[2]int64]int{}
	for i := range e.Log {
		ev := &e.Log[i]
		switch ev.Kind {
		case kIn:
			id := int(ev.A)
			open[[2]int64{ev.A, ev.B}] = len(h.calls[id])
			c := call{seq: int(ev.B), in: i, out: -1, len: int(ev.C)}
			if i+1 < len(e.Log) && e.Log[i+1].Kind == kDig {
				c.dig = e.Log[i+1].C
			}
			h.calls[id] = append(h.calls[id], c)
		case kOut:
			if k, ok := open[[2]int64{ev.A, ev.B}]; ok {
				h.calls[int(ev.A)][k].out = i
			}
		case kFin:
			h.fins[int(ev.A)] = append(h.fins[int(ev.A)], i)
		case kPred:
			p := h.preds[int(ev.A)]
			p[ev.B]++
			h.preds[int(ev.A)] = p
		case kSize:
			h.sizes[int(ev.A)] = ev.B
		case kRunRet:
			h.runRet = i
			h.ctxEnd = ev.B
		case kSetErr:
			h.setErr = true
			h.fault = true
		case kFault:
			switch ev.A {
			case fCancel, fDeadline, fParentCancel, fSetErr, fSourceErr, fReadErr, fChanStall:
				h.fault = true
			}
		}
	}
	return h
}

// active is a filter or transformation as the model sees it.
type active struct {
	id, stage int
	kind      int // of the stage
	f         *PFilter
	lib       *libRes
	optional  bool // an implementation may leave it out
	limit     bool
	skip      bool
	n         int
	cancel    bool
}

// elements lists the effective filters of the plan in order.
func (st *pipeState) elements() (list []active) {
	p := st.p
	for i := range p.Stages {
		s := &p.Stages[i]
		if s.Transform > 0 {
			f := &PFilter{}
			if len(s.Filters) > 0 {
				g := s.Filters[0]
				f = &g
			}
			f.Kind = fRecv
			kind := [...]int{sPass, sPass, sOrd, sSeq, sPar, sLim, sStrict}[s.Transform]
			list = append(list, active{id: i * 16, stage: i, kind: kind, f: f, optional: !st.kept(i)})
			continue
		}
		if s.Kind == sLimit || s.Kind == sSkip {
			if st.res[i*16+14] != nil {
				list = append(list, active{id: i*16 + 14, stage: i, kind: sOrd, limit: s.Kind == sLimit, skip: s.Kind == sSkip, n: s.N, cancel: s.Cancel})
			}
			continue
		}
		if s.declines() {
			continue
		}
		for k := range s.Filters {
			f := &s.Filters[k]
			if f.Kind == fIdent || f.Kind == fNil {
				continue
			}
			a := active{id: i*16 + k, stage: i, kind: s.kind(), f: f}
			if r := st.res[a.id]; r != nil && r.typed > 0 {
				a.lib = r
			}
			list = append(list, a)
		}
	}
	return
}

// kept reports whether some node follows the transformation in stage i.
func (st *pipeState) kept(i int) bool {
	for j := i + 1; j < len(st.p.Stages); j++ {
		s := &st.p.Stages[j]
		if s.Transform > 1 {
			return true
		}
		if s.Transform == 1 {
			return st.kept(j)
		}
		if s.declines() || s.Kind == sLimit || s.Kind == sSkip {
			continue // These may know that they have nothing to do.
		}
		for k := range s.Filters {
			if kd := s.Filters[k].Kind; kd != fIdent && kd != fNil && kd != fCount {
				return true
			}
		}
	}
	return false
}

// kind returns the kind of node that determines the order of the calls.
func (s *PStage) kind() int {
	if s.Kind == sPass && s.Transform == 0 {
		switch s.N {
		case uStrict:
			return sStrict
		case uOrd:
			return sOrd
		case uSeq:
			return sSeq
		case uLim:
			return sLim
		case uPar:
			return sPar
		}
	}
	return s.Kind
}

func (s *PStage) declines() bool { return s.Transform == 0 && s.Kind == sPass && s.N == uDecline }

func (a *active) isRecv() bool {
	return a.f != nil && a.lib == nil && a.f.Kind != fFin && a.f.Kind < fEvery
}

func (a *active) name() string {
	switch {
	case a.limit:
		return fmt.Sprintf("stage %d (Limit(%d))", a.stage, a.n)
	case a.skip:
		return fmt.Sprintf("stage %d (Skip(%d))", a.stage, a.n)
	case a.lib != nil || !a.isRecv() && a.f.Kind >= fEvery:
		return fmt.Sprintf("%s in stage %d (%s)", filterNames[a.f.Kind], a.stage, stageNames[a.kind])
	}
	return fmt.Sprintf("filter %d of stage %d (%s)", a.id&15, a.stage, stageNames[a.kind])
}

// What a property checks.
const (
	ckOnce = 1 << iota
	ckOrder
	ckFin
	ckLimited
	ckLib
	ckErr
	ckSizes
	ckNotify
	ckSource
	ckAfter
	ckNodes
	ckStops
	ckNothing
)

// anyCancel reports whether something in the plan can cancel the pipeline.
func (p *PipePlan) anyCancel() bool { return p.cancels(true) }

// cancels is the same, with or without the filters that can do it.
func (p *PipePlan) cancels(filters bool) bool {
	for i := range p.Faults {
		if p.Faults[i].Kind != xNone {
			return true
		}
	}
	for i := range p.Stages {
		s := &p.Stages[i]
		if s.Transform == 0 && (s.Kind == sLimit && s.Cancel && filters || s.Kind == sSkip && s.N < 0) {
			return true
		}
		for k := range s.Filters {
			if f := &s.Filters[k]; f.Cancel && f.Kind >= fEvery && filters {
				return true
			}
		}
	}
	for _, n := range p.Notify {
		if n.Act == 2 || n.Act == 3 {
			return true
		}
	}
	return p.Src.ErrAt > 0 || p.Early || p.Beside > 0 || p.Src.tooLong()
}

func (st *pipeState) check(e *Env, what int) {
	h := st.history(e)
	p := st.p
	full := !p.anyCancel()
	list := st.elements()
	failed := st.final != nil
	exact, behind := -1, -1
	if !full && what&ckLib != 0 && !p.Bare && !p.cancels(false) {
		full, behind, exact = st.checkLimits(e, h, list)
		if e.Failed() {
			return
		}
	}
	if full && failed {
		e.Fail("spurious-error", "the pipeline reports %q although nothing failed", st.final)
		return
	}
	src := srcNames[p.Src.Kind]
	// The batches.
	contents := st.fetched
	if p.Bare {
		contents = nil
		if !full {
			return
		}
		for _, a := range list {
			if !a.isRecv() || a.optional {
				continue
			}
			cs := slices.Clone(h.calls[a.id])
			slices.SortFunc(cs, func(x, y call) int { return x.seq - y.seq })
			pos := 0
			for i, c := range cs {
				if c.seq != i {
					e.Fail("sequence", "%s is called for the sequence numbers %v", a.name(), seqs(cs))
					return
				}
				if pos+c.len > len(st.items) {
					e.Fail("content", "%s receives more than the %d elements of the %s source", a.name(), p.Src.N, src)
					return
				}
				contents = append(contents, slices.Clone(st.items[pos:pos+c.len]))
				pos += c.len
			}
			if pos != len(st.items) {
				e.Fail("lost-data", "%s receives %d of the %d elements of the %s source", a.name(), pos, p.Src.N, src)
				return
			}
			break
		}
	}
	if what&ckSource != 0 && len(list) > 0 && !p.Bare {
		st.checkSource(e, h, full)
		if e.Failed() {
			return
		}
	}
	if full && !p.Bare && len(contents) == 0 && st.srcSize > 0 {
		// Nothing needs to be fetched if the results are already known.
		contents = [][]int{st.items}
	}
	B := len(contents)
	total := func() (n int) {
		for _, c := range contents {
			n += len(c)
		}
		return
	}
	cur := make([][]int, B)
	for i := range contents {
		cur[i] = slices.Clone(contents[i])
	}
	contents = cur
	for k := range list {
		a := &list[k]
		if what&ckSizes != 0 && full && a.f != nil && !a.optional {
			if s, ok := h.sizes[a.id]; ok && s >= 0 && int(s) != total() {
				e.Fail("size", "%s is told to expect %d elements, but it receives %d", a.name(), s, total())
				return
			}
		}
		switch {
		case a.limit, a.skip:
			apply(a, contents)
		case a.isRecv():
			st.checkCalls(e, h, a, contents, full, what)
			if e.Failed() {
				return
			}
			if st.directly(behind, a) {
				for i := 0; i <= exact && i < len(contents); i++ {
					if !slices.ContainsFunc(h.calls[a.id], func(c call) bool { return c.seq == i }) {
						e.Fail("limit-loses", "%s directly behind a limit is not called for batch %d, although the limit was reached in batch %d", a.name(), i, exact)
						return
					}
				}
			}
			apply(a, contents)
		case a.lib != nil && what&ckLib != 0:
			st.checkLib(e, h, a, contents, full)
			if e.Failed() {
				return
			}
			if st.directly(behind, a) && (a.f.Kind == fAppend || a.f.Kind == fCount) {
				least := 0
				for i := 0; i <= exact && i < len(contents); i++ {
					least += len(contents[i])
				}
				e.Probe("limit_then_collect", true)
				if got := a.lib.count(); got < least {
					e.Fail("limit-loses", "%s directly behind a limit gets %d elements, although %d were passed on until the limit was reached", a.name(), got, least)
					return
				}
			}
		}
		if what&ckFin != 0 && a.f != nil && (a.f.Kind == fFin || a.f.Kind == fBoth) {
			st.checkFin(e, h, a, list, failed, full)
			if e.Failed() {
				return
			}
		}
	}
	st.checkStages(e, h, list, what)
	if e.Failed() {
		return
	}
	if what&ckAfter != 0 && h.ctxEnd == 3 {
		e.Fail("not-cancelled", "Run has returned, but the context of the pipeline is not canceled")
		return
	}
	if what&ckAfter != 0 && h.ctxEnd == 1 {
		seen := 0
		for i := range e.Log[:h.runRet] {
			if ev := &e.Log[i]; ev.Kind == kErrCall && ev.G == e.Log[h.runRet].G {
				seen = i // The context is examined after this.
			}
		}
		for i := range e.Log[:seen] {
			if ev := &e.Log[i]; ev.Kind == kCancelRet {
				e.Fail("not-cancelled", "the pipeline has been canceled, but the context that it was run with is not")
				return
			}
		}
	}
	if what&ckStops != 0 {
		since := -1
		for i := range e.Log {
			switch ev := &e.Log[i]; {
			case ev.Kind == kCancelled && since < 0:
				since = 0
			case ev.Kind == kSrc && ev.A == sFetch && since >= 0:
				since++
			}
		}
		e.Probe("batches_left_when_cancelled", since >= 0 && len(st.fetched)*2 < p.Src.N)
		if since > 8 {
			e.Fail("goes-on", "%d batches are fetched from the %s source after the context has been canceled", since, src)
			return
		}
	}
	if what&ckAfter != 0 && !failed {
		for _, a := range list {
			for _, c := range h.calls[a.id] {
				if h.runRet >= 0 && (c.in > h.runRet || c.out > h.runRet || c.out < 0) {
					e.Fail("runs-after-return", "%s is still called for batch %d after Run has returned without an error", a.name(), c.seq)
					return
				}
			}
		}
	}
	if what&ckNotify != 0 {
		st.checkNotify(e, h)
	}
	if what&ckNodes != 0 {
		st.checkNodes(e, h, list, full)
	}
	if what&ckErr != 0 {
		st.checkErr(e, h)
	}
	e.Probe("several_batches", B > 1)
	e.Probe("cancelled_or_failed", h.fault)
	e.Probe("complete", full)
}

// checkLimits checks pipelines that nothing but limits and predicates can
// cancel. It tells whether the pipeline is not canceled at all, and otherwise, if there is just
// one limit that can have been reached, its stage and the batch in which it was.
func (st *pipeState) checkLimits(e *Env, h *pipeHist, list []active) (full bool, stage, batch int) {
	stage, batch = -1, -1
	src := srcNames[st.p.Src.Kind]
	all := 0
	for _, b := range st.fetched {
		all += len(b)
	}
	data := st.fetched
	if len(data) == 0 && len(st.items) > 0 {
		data = [][]int{st.items}
	}
	cur := make([][]int, len(data))
	for i := range data {
		cur[i] = slices.Clone(data[i])
	}
	may, must := 0, ""
	for k := range list {
		a := &list[k]
		total := 0
		for i := range cur {
			total += len(cur[i])
		}
		if a.limit && a.cancel && a.n >= 0 && total >= a.n {
			if may++; may == 1 {
				stage = a.stage
				for i, seen := 0, 0; i < len(cur) && seen < a.n; i++ {
					seen += len(cur[i])
					batch = i
				}
			}
			if total > a.n {
				must = a.name()
			}
		}
		if a.lib != nil && a.f.Cancel && a.f.Kind >= fEvery {
			against := 0
			if a.f.Kind == fSome || a.f.Kind == fNotAny {
				against = 1
			}
			if h.preds[a.id][against] > 0 {
				may += 2
			}
		}
		apply(a, cur)
	}
	if may != 1 {
		stage, batch = -1, -1
	}
	e.Probe("limit_reached", must != "")
	e.Probe("limit_not_reached", may == 0)
	switch {
	case may == 0 && h.ctxEnd == 2:
		e.Fail("cancels", "the pipeline is canceled although no limit is reached and no predicate is decided")
	case may == 0 && all < len(st.items) && len(st.fetched) > 0:
		e.Fail("stops-early", "%d of %d elements are fetched from the %s source although no limit is reached and no predicate is decided", all, len(st.items), src)
	case must != "" && may == 1 && h.ctxEnd == 1:
		e.Fail("limit-not-cancelled", "%s is reached, but the pipeline is not canceled", must)
	}
	return may == 0, stage, batch
}

// directly reports whether the element is in an ordered stage that follows the
// limit in the given stage with nothing but ordered stages that have filters between them.
func (st *pipeState) directly(stage int, a *active) bool {
	if stage < 0 || a.stage <= stage {
		return false
	}
	for i := stage + 1; i <= a.stage; i++ {
		if s := &st.p.Stages[i]; s.Kind != sOrd || s.Transform != 0 || len(s.Filters) == 0 {
			return false
		}
	}
	return true
}

// apply changes the batches like the element does.
func apply(a *active, contents [][]int) {
	switch {
	case a.limit:
		seen := 0
		for i := range contents {
			if a.n >= 0 {
				if len(contents[i]) > a.n-seen {
					contents[i] = contents[i][:a.n-seen]
				}
				seen += len(contents[i])
			}
		}
	case a.skip:
		seen := 0
		for i := range contents {
			l := len(contents[i])
			if a.n < 0 {
				contents[i] = nil
			} else {
				contents[i] = contents[i][min(l, max(a.n-seen, 0)):]
			}
			seen += l
		}
	case a.isRecv():
		for i := range contents {
			contents[i] = applyOp(a.f, i, slices.Clone(contents[i]))
		}
	}
}

func seqs(cs []call) (r []int) {
	for _, c := range cs {
		r = append(r, c.seq)
	}
	if len(r) > 40 {
		r = r[:40]
	}
	return
}

func (st *pipeState) checkCalls(e *Env, h *pipeHist, a *active, contents [][]int, full bool, what int) {
	cs := h.calls[a.id]
	seen := make([]bool, len(contents))
	if what&ckOnce != 0 {
		for _, c := range cs {
			switch {
			case c.seq < 0 || c.seq >= len(contents):
				e.Fail("sequence", "%s is called for batch %d, but the source delivered %d batches", a.name(), c.seq, len(contents))
				return
			case seen[c.seq]:
				e.Fail("duplicate", "%s is called twice for batch %d", a.name(), c.seq)
				return
			}
			seen[c.seq] = true
			if c.len != len(contents[c.seq]) || c.dig != digest(contents[c.seq]) {
				e.Fail("content", "%s receives a wrong batch %d: it has %d elements, expected %v", a.name(), c.seq, c.len, contents[c.seq])
				return
			}
		}
		if full && !(a.optional && len(cs) == 0) {
			for i := range seen {
				if !seen[i] {
					e.Fail("lost-batch", "%s is never called for batch %d of %d (called for %v)", a.name(), i, len(seen), seqs(cs))
					return
				}
			}
		}
	}
	if what&ckOrder != 0 && (a.kind == sOrd || a.kind == sStrict) {
		for i, c := range cs {
			if c.seq != i {
				e.Fail("order", "%s is called for the batches in the order %v", a.name(), seqs(cs))
				return
			}
		}
	}
}

// checkStages checks how calls of one stage overlap.
func (st *pipeState) checkStages(e *Env, h *pipeHist, list []active, what int) {
	type span struct{ a, b, id, seq int }
	for i := 0; i < len(list); {
		j := i
		var spans []span
		for j < len(list) && list[j].stage == list[i].stage {
			if list[j].isRecv() {
				for _, c := range h.calls[list[j].id] {
					out := c.out
					if out < 0 {
						out = 1 << 60
					}
					spans = append(spans, span{c.in, out, list[j].id, c.seq})
				}
			}
			j++
		}
		kind := list[i].kind
		name := fmt.Sprintf("stage %d (%s)", list[i].stage, stageNames[kind])
		i = j
		slices.SortFunc(spans, func(x, y span) int { return x.a - y.a })
		switch {
		case what&ckOrder != 0 && (kind == sOrd || kind == sSeq || kind == sStrict):
			end := -1
			for k, s := range spans {
				if s.a < end {
					e.Fail("overlap", "the receivers of %s run concurrently: for batch %d before batch %d is done", name, s.seq, spans[k-1].seq)
					return
				}
				end = max(end, s.b)
			}
		case what&ckLimited != 0 && kind == sLim:
			var ends []int
			for _, s := range spans {
				ends = slices.DeleteFunc(ends, func(x int) bool { return x < s.a })
				ends = append(ends, s.b)
				e.Probe("limit_reached", len(ends) == st.p.NCPU)
				if len(ends) > st.p.NCPU {
					e.Fail("limit", "%d receivers of %s run at the same time, the limit is %d", len(ends), name, st.p.NCPU)
					return
				}
			}
		}
	}
}

func (st *pipeState) checkFin(e *Env, h *pipeHist, a *active, list []active, failed, full bool) {
	f := h.fins[a.id]
	if len(f) > 1 {
		e.Fail("finalizer-twice", "the finalizer of %s is called %d times", a.name(), len(f))
		return
	}
	if len(f) == 0 {
		if !failed {
			e.Fail("finalizer-lost", "the finalizer of %s is not called although Run returned without an error", a.name())
		}
		return
	}
	if h.runRet >= 0 && f[0] > h.runRet {
		e.Fail("finalizer-late", "the finalizer of %s is called after Run has returned", a.name())
		return
	}
	for _, b := range list {
		if b.stage > a.stage || b.stage < a.stage && !full {
			continue
		}
		for _, c := range h.calls[b.id] {
			if c.out > f[0] || c.out < 0 {
				e.Fail("finalizer-early", "the finalizer of %s is called before %s is done with batch %d", a.name(), b.name(), c.seq)
				return
			}
		}
	}
}

func (st *pipeState) checkLib(e *Env, h *pipeHist, a *active, contents [][]int, full bool) {
	if st.final != nil {
		return
	}
	r := a.lib
	switch a.f.Kind {
	case fAppend:
		got := r.ints
		if r.typed == 2 {
			got = strCodec.dec(r.strs)
		}
		var want []int
		for _, c := range contents {
			want = append(want, c...)
		}
		if !full {
			if a.kind == sOrd || a.kind == sStrict {
				if len(got) > len(want) || !slices.Equal(got, want[:len(got)]) {
					e.Fail("append", "%s has collected %v, which is not a prefix of %v", a.name(), got, want)
				}
			}
			return
		}
		if a.kind != sOrd && a.kind != sStrict {
			got, want = slices.Clone(got), slices.Clone(want)
			slices.Sort(got)
			slices.Sort(want)
		}
		if !slices.Equal(got, want) {
			e.Fail("append", "%s has collected %v, want %v", a.name(), got, want)
		}
	case fCount:
		n := 0
		for _, c := range contents {
			n += len(c)
		}
		if full && r.n != n {
			e.Fail("count", "%s has counted %d elements, want %d", a.name(), r.n, n)
		}
	case fEvery, fNotEvery, fSome, fNotAny:
		no, yes := h.preds[a.id][0], h.preds[a.id][1]
		if full && no+yes != len(contents) {
			e.Fail("predicate-calls", "%s evaluates its predicate for %d of %d batches", a.name(), no+yes, len(contents))
			return
		}
		var want, decided bool
		switch a.f.Kind {
		case fEvery:
			want, decided = no == 0, no > 0
		case fNotEvery:
			want, decided = no > 0, no > 0
		case fSome:
			want, decided = yes > 0, yes > 0
		case fNotAny:
			want, decided = yes == 0, yes > 0
		}
		if r.b != want {
			e.Fail("predicate", "%s = %v, want %v: the predicate was true for %d batches and false for %d", a.name(), r.b, want, yes, no)
			return
		}
		e.Probe("predicate_decided", decided)
		if decided && a.f.Cancel && h.ctxEnd == 1 {
			e.Fail("not-cancelled", "%s knows its result, but the pipeline is not canceled", a.name())
			return
		}
		if full {
			t, f := 0, 0
			for _, c := range contents {
				if holds(a.f, c) {
					t++
				} else {
					f++
				}
			}
			if t != yes || f != no {
				e.Fail("predicate", "the predicate of %s was evaluated to true %d times, want %d of %d", a.name(), yes, t, len(contents))
			}
		}
	}
}

// checkData compares what a source has delivered with what it is made of.
func (st *pipeState) checkData(e *Env, full bool) bool {
	p := st.p
	for _, x := range st.behind {
		if x != 0 {
			e.Fail("behind", "appending to a batch of a slice source changes what lies behind the slice")
			return false
		}
	}
	src := srcNames[p.Src.Kind]
	pos := 0
	for k, b := range st.fetched {
		for _, x := range b {
			if k == len(st.fetched)-1 && p.Src.ErrAt > 0 && (p.Src.Kind == srcScanner || p.Src.Kind == srcBytes) {
				// The last token may be incomplete.
				if pos < len(st.items) && (p.Src.Long > 0 && x == 0 || strings.HasPrefix(strconv.Itoa(st.items[pos]), strconv.Itoa(x))) {
					pos++
					continue
				}
			}
			if pos >= len(st.items) || x != st.items[pos] {
				e.Fail("source-data", "the %s source delivers a wrong element %d in batch %d: %v", src, pos, k, b)
				return false
			}
			pos++
		}
	}
	if full && pos != len(st.items) {
		e.Fail("lost-data", "the %s source delivers %d of %d elements", src, pos, len(st.items))
		return false
	}
	return true
}

// runDirect uses a source without a pipeline.
func runDirect(e *Env, p *PipePlan) {
	st := newPipe(e, p)
	e.Exec(st.root, nil)
	if e.Failed() {
		return
	}
	src := srcNames[p.Src.Kind]
	if st.direct != "" {
		e.Fail("direct", "the %s source is wrong: %s", src, st.direct)
		return
	}
	if !st.checkData(e, !st.directEnd && !st.failed && !p.Src.tooLong() && !p.Src.Once) || p.Src.Kind >= srcFunc && p.Src.Kind != srcMulti {
		return
	}
	for k, b := range st.fetched {
		if k < len(st.fetched)-1 && len(b) != st.requests[k] {
			e.Fail("direct", "the %s source delivers %d elements for a request of %d, and more later", src, len(b), st.requests[k])
			return
		}
	}
}

func (st *pipeState) checkSource(e *Env, h *pipeHist, full bool) {
	p := st.p
	src := srcNames[p.Src.Kind]
	if st.nofWrong != "" {
		e.Fail("nof-batches", "%s", st.nofWrong)
		return
	}
	if !st.checkData(e, full) {
		return
	}
	for i := range e.Log {
		if ev := &e.Log[i]; ev.Kind == kFetch {
			if p.Src.Kind != srcChan && ev.B > 0 && ev.B != ev.C {
				e.Fail("fetched", "the %s source says it has fetched %d elements, but the batch has %d", src, ev.B, ev.C)
				return
			}
			if p.Src.Kind != srcChan && ev.B > ev.A {
				e.Fail("fetched", "the %s source has fetched %d elements for a request of %d", src, ev.B, ev.A)
				return
			}
		}
	}
	if st.srcSize >= 0 {
		nof := p.Nof
		if nof < 1 {
			nof = p.NCPU
		}
		if full && len(st.fetched) > nof && len(p.Src.Chunks) == 0 {
			e.Fail("batches", "%d elements of a %s source are split into %d batches instead of at most %d", p.Src.N, src, len(st.fetched), nof)
		}
		return
	}
	inc, limit := p.Inc, p.Max
	if inc < 1 {
		inc = 512
	}
	if limit < 1 {
		limit = 4096
	}
	for k, n := range st.requests {
		want := limit
		if inc <= limit/(k+1) {
			want = (k + 1) * inc
		}
		if n != want {
			e.Fail("batch-size", "batch %d is requested with size %d; with an increment of %d and a maximum of %d it should be %d", k, n, inc, limit, want)
			return
		}
	}
	if full && (p.Src.Kind == srcScanner || p.Src.Kind == srcBytes || p.Src.Kind == srcMulti) {
		for k, b := range st.fetched {
			if k < len(st.fetched)-1 && len(b) != st.requests[k] {
				e.Fail("batch-size", "batch %d of the %s source has %d elements instead of %d although there are more", k, src, len(b), st.requests[k])
				return
			}
		}
	}
}

// checkNodes checks how user-defined sources, nodes and filters are used.
func (st *pipeState) checkNodes(e *Env, h *pipeHist, list []active, full bool) {
	type life struct {
		begin, begun, end, ended, merged int
		fed                              map[int]bool
		open                             map[int]bool
	}
	ls := map[int]*life{}
	firstFetch, prepare := -1, -1
	at := func(stage int) *life {
		if ls[stage] == nil {
			ls[stage] = &life{-1, -1, -1, -1, -1, map[int]bool{}, map[int]bool{}}
		}
		return ls[stage]
	}
	src := srcNames[st.p.Src.Kind]
	name := func(stage int) string {
		s := &st.p.Stages[stage]
		if s.Kind == sPass && s.Transform == 0 {
			return fmt.Sprintf("the user-defined node of stage %d (%s)", stage, variantNames[s.N])
		}
		return fmt.Sprintf("stage %d (%s)", stage, stageNames[s.Kind])
	}
	lastBegin := -1
	composed := map[int]int{}
	for i := range e.Log {
		ev := &e.Log[i]
		switch ev.Kind {
		case kSrc:
			switch ev.A {
			case sPrepare:
				prepare = i
				if lastBegin >= 0 {
					e.Fail("prepare-late", "Begin of %s is called before the source is prepared", name(lastBegin))
				}
			case sFetch:
				if firstFetch < 0 {
					firstFetch = i
				}
			case sWrong:
				e.Fail("source-protocol", "%s source: %s", src, wrongNames[ev.B])
			}
		case kSize:
			composed[int(ev.A)]++
			if composed[int(ev.A)] > 1 {
				e.Fail("filter-twice", "filter %d of %s is called twice", ev.A&15, name(int(ev.A)/16))
			}
			s := &st.p.Stages[ev.A/16]
			wrong := false
			switch s.kind() {
			case sOrd, sStrict:
				wrong = ev.C != 0
			case sSeq:
				wrong = ev.C != 0 && ev.C != 1
			default:
				wrong = ev.C != 2
			}
			if wrong {
				e.Fail("filter-kind", "filter %d of %s is told that it belongs to a node of kind %d", ev.A&15, name(int(ev.A)/16), ev.C)
			}
		case kNode:
			l := at(int(ev.A))
			n := name(int(ev.A))
			switch {
			case ev.B == nWrongPipe && ev.C == 1:
				e.Fail("wrong-pipeline", "a filter of %s gets another pipeline", n)
			case ev.B == nWrongPipe:
				e.Fail("wrong-pipeline", "a method of %s gets another pipeline", n)
			case l.merged >= 0:
				e.Fail("used-after-merge", "%s is still used after it has been merged with another one", n)
			case ev.B == nMerged:
				l.merged = i
			case ev.B == nBegin:
				if l.begin >= 0 {
					e.Fail("begin-twice", "Begin of %s is called twice", n)
				}
				if int(ev.A) < lastBegin {
					e.Fail("begin-order", "Begin of %s is called after Begin of %s", n, name(lastBegin))
				}
				if firstFetch >= 0 {
					e.Fail("begin-late", "Begin of %s is called after the first Fetch", n)
				}
				lastBegin = int(ev.A)
				l.begin = i
			case ev.B == nBegun:
				l.begun = int(ev.C)
			case ev.B == nFeed || ev.B == nEnd:
				if l.begun == 0 {
					e.Fail("used-after-decline", "%s is used although its Begin has returned false", n)
				}
				if l.begin < 0 {
					e.Fail("begin-missing", "%s is used before Begin", n)
				}
				if l.end >= 0 {
					e.Fail("used-after-end", "%s is used after End", n)
				}
				if ev.B == nEnd {
					l.end = i
					for seq := range l.open {
						e.Fail("end-early", "End of %s is called while batch %d is passed to it", n, seq)
					}
					break
				}
				if l.fed[int(ev.C)] {
					e.Fail("fed-twice", "batch %d is passed twice to %s", ev.C, n)
				}
				l.fed[int(ev.C)] = true
				l.open[int(ev.C)] = true
			case ev.B == nFed:
				delete(l.open, int(ev.C))
			case ev.B == nEnded:
				l.ended = i
			}
		}
		if e.Failed() {
			return
		}
	}
	if st.ctxWrong != "" {
		e.Fail("source-context", "%s", st.ctxWrong)
		return
	}
	if h.runRet < 0 {
		return
	}
	if prepare < 0 && !st.p.Bare {
		e.Fail("not-prepared", "the %s source is not prepared", src)
	}
	nodes := 0
	for i := range st.p.Stages {
		s := &st.p.Stages[i]
		if s.Transform > 0 || s.Kind != sPass {
			continue
		}
		nodes++
		l := at(i)
		if l.merged >= 0 {
			e.Probe("merged", true)
			continue
		}
		switch {
		case l.begin < 0:
			e.Fail("begin-missing", "Begin of %s is not called", name(i))
		case l.begun == 1 && l.end < 0 && st.final == nil:
			e.Fail("end-missing", "End of %s is not called although the pipeline did not fail", name(i))
		case l.end > h.runRet:
			e.Fail("end-late", "End of %s is called after the pipeline has returned", name(i))
		case l.begun == 1 && full && !st.p.Bare && st.final == nil:
			for seq := range st.fetched {
				if !l.fed[seq] {
					e.Fail("not-fed", "batch %d is not passed to %s", seq, name(i))
				}
			}
			if len(l.fed) > len(st.fetched) {
				e.Fail("fed", "%s sees %d batches, but the source delivered %d", name(i), len(l.fed), len(st.fetched))
			}
		}
		if s.N == uDecline {
			e.Probe("node_declining", l.begun == 0)
			continue
		}
		e.Probe(strings.ReplaceAll("node_"+variantNames[s.N], " ", "_"), l.end >= 0)
	}
	e.Probe("several_nodes", nodes > 1)
	// Receivers may rely on the kind their filter was told.
	for i := range e.Log {
		ev := &e.Log[i]
		if ev.Kind != kSize || ev.C == 2 {
			continue
		}
		end, last := -1, -1
		for _, c := range h.calls[int(ev.A)] {
			if c.in < end {
				e.Fail("kind-concurrent", "filter %d of %s was told that its node is not parallel, but its receiver is called concurrently", ev.A&15, name(int(ev.A)/16))
				return
			}
			if ev.C == 0 && c.seq != last+1 {
				e.Fail("kind-order", "filter %d of %s was told that its node is ordered, but its receiver is called for batch %d after batch %d", ev.A&15, name(int(ev.A)/16), c.seq, last)
				return
			}
			last, end = c.seq, c.out
			if c.out < 0 {
				end = 1 << 60
			}
		}
	}
}

func (st *pipeState) checkNotify(e *Env, h *pipeHist) {
	n := make([]int, len(st.p.Notify))
	gs := map[uint32]int{}
	begin, root := -1, uint32(0)
	for i := range e.Log {
		ev := &e.Log[i]
		switch ev.Kind {
		case kBegin:
			begin, root = i, ev.G
		case kNotify:
			if int(ev.A) >= len(n) {
				continue
			}
			n[ev.A]++
			gs[ev.G]++
			if begin < 0 {
				e.Fail("notify-early", "notifier %d is invoked before the pipeline is started", ev.A)
			}
			if ev.G == root || gs[ev.G] > 1 {
				e.Fail("notify-goroutine", "notifier %d does not run in a goroutine of its own", ev.A)
			}
		}
	}
	for i, k := range n {
		if k != 1 {
			e.Fail("notify-count", "notifier %d is invoked %d times", i, k)
		}
	}
}

// checkErr checks the history of SetErr and Err.
func (st *pipeState) checkErr(e *Env, h *pipeHist) {
	winners := 0
	var winner int64
	for i := range e.Log {
		if ev := &e.Log[i]; ev.Kind == kSetErr && ev.B == 1 {
			winners++
			winner = 1 + ev.A
		}
	}
	if winners > 1 {
		e.Fail("two-errors", "SetErr has returned true %d times", winners)
		return
	}
	// Every call takes place between its two events.
	last := int64(0)  // an error that was seen
	somewhat := false // SetErr has returned false
	type seen struct {
		v int64
		f bool
	}
	calls := map[uint32]seen{}
	for i := range e.Log {
		ev := &e.Log[i]
		switch ev.Kind {
		case kErrCall:
			calls[ev.G] = seen{last, somewhat}
		case kSetErr:
			c := calls[ev.G]
			switch {
			case ev.B == 1 && (c.v != 0 || c.f):
				e.Fail("error-changes", "SetErr returns true although the pipeline already had an error")
				return
			case ev.B == 1:
				last = 1 + ev.A
			default:
				somewhat = true
			}
		case kErr, kRunRet:
			c := calls[ev.G]
			switch {
			case c.v != 0 && ev.A != c.v:
				e.Fail("error-changes", "Err has returned %s and returns %s later", errName(c.v), errName(ev.A))
				return
			case c.f && ev.A == 0:
				e.Fail("error-lost", "SetErr has returned false, but Err returns nil later")
				return
			case ev.A != 0:
				last = ev.A
			}
		}
	}
	final := st.errCode(st.h(hErr).getErr())
	if last != 0 && final != last {
		e.Fail("error-changes", "Err has returned %s and returns %s later", errName(last), errName(final))
		return
	}
	if winners == 1 && final != winner {
		e.Fail("error-lost", "SetErr has returned true for %s, but Err returns %s in the end", errName(winner), errName(final))
		return
	}
	if h.setErr && final == 0 {
		e.Fail("error-lost", "SetErr was called, but Err returns nil in the end")
		return
	}
	if (st.srcErr || st.failed) && final == 0 {
		e.Fail("source-error-lost", "the source failed, but Err returns nil in the end")
		return
	}
	if winners == 0 && !st.srcErr && !st.failed && final != 0 && !st.p.hasSkip() {
		e.Fail("spurious-error", "Err returns %s although nothing failed", errName(final))
	}
	if winners == 0 && st.failed && final != 1+bySource && !st.p.hasSkip() {
		e.Fail("spurious-error", "the source has failed, and Err returns %s", errName(final))
	}
	if winners == 1 && h.ctxEnd == 1 && e.Count(kRunRet, nil) == 1 {
		// SetErr by a receiver cancels the pipeline before Run can return.
		before := 0
		for i := range e.Log {
			ev := &e.Log[i]
			if ev.Kind == kErrCall && i < h.runRet && ev.G == e.Log[h.runRet].G {
				before = i
			}
		}
		ctx := false // there is a context to be canceled
		for i := range e.Log {
			ev := &e.Log[i]
			if ev.Kind == kIn {
				ctx = true
			}
			if ev.Kind == kErrCall && ev.G == e.Log[e.setErrAt()].G && !ctx && winner > 200 {
				break
			}
			if ev.Kind == kSetErr && ev.B == 1 && i < before && ev.A != 200 {
				e.Fail("not-cancelled", "SetErr has returned true, but the context of the pipeline is not canceled")
			}
		}
	}
	e.Probe("error_set", winners == 1)
	e.Probe("error_set_before_run", winner == 201)
	e.Probe("error_set_from_outside", winner == 202)
	e.Probe("source_failed", st.srcErr)
}

// setErrAt is the position at which SetErr has returned true.
func (e *Env) setErrAt() int {
	for i := range e.Log {
		if e.Log[i].Kind == kSetErr && e.Log[i].B == 1 {
			return i
		}
	}
	return 0
}

func (p *PipePlan) hasSkip() bool {
	for i := range p.Stages {
		if p.Stages[i].Transform == 0 && p.Stages[i].Kind == sSkip && p.Stages[i].N < 0 {
			return true
		}
	}
	return false
}

func errName(v int64) string {
	switch {
	case v == 0:
		return "nil"
	case v == 1+bySource:
		return "the error of the source"
	case v == 2000:
		return "an error that nobody has raised"
	case v > 200:
		return "the error set from outside"
	case v > 100:
		return fmt.Sprintf("the error set by notifier %d", v-101)
	}
	return fmt.Sprintf("the error set by receiver fault %d", v-1)
}

func runPipe(what int) func(*Env, *PipePlan) {
	return func(e *Env, p *PipePlan) {
		st := newPipe(e, p)
		e.Exec(st.root, st.release)
		if e.Failed() {
			return
		}
		if what&ckNothing != 0 {
			st.checkNothing(e)
			return
		}
		st.check(e, what)
	}
}

// checkNothing checks what a negative Skip promises.
func (st *pipeState) checkNothing(e *Env) {
	h := st.history(e)
	behind := false
	for _, a := range st.elements() {
		if a.skip && a.n < 0 {
			behind = true
		}
		if !behind || !a.isRecv() {
			continue
		}
		for _, c := range h.calls[a.id] {
			if c.len > 0 {
				e.Fail("skip-passes", "%s behind Skip(-1) receives %d elements", a.name(), c.len)
				return
			}
		}
	}
	e.Probe("negative_skip", behind)
	if behind && st.final == nil {
		e.Fail("skip-no-error", "Skip with a negative argument has not set the error of the pipeline")
	}
}

// Generators.

type gopt struct {
	stages   []int // kinds to choose from
	filters  []int
	srcs     []int
	xform    int // one in so many stages is a transformation; 0: none
	maxStage int
	maxItems int
	grow     bool // receivers may change the size of batches
	pass     bool
}

func genPipe(r *Rand, o gopt) *PipePlan {
	p := &PipePlan{NCPU: cpus(r.Pick(1, 2, 2, 3, 4))}
	if r.P(16) {
		p.NCPU = cpus(r.Pick(6, 8, 12, 16, 24))
	}
	p.Src.Kind = o.srcs[r.N(len(o.srcs))]
	if r.P(3) {
		p.Carve = r.In(1, 1<<20)
	}
	if o.maxItems == 0 {
		o.maxItems = 24
	}
	p.Src.N = r.Pick(0, 1, 2, 3, r.N(o.maxItems+1), r.N(o.maxItems+1), r.N(o.maxItems+1), r.N(o.maxItems+1))
	p.Src.Work = r.Pick(0, 0, 0, 1, 3)
	p.Src.Words = r.P(2)
	switch p.Src.Kind {
	case srcScanner, srcBytes:
		for k := r.N(6); k > 0; k-- {
			p.Src.Chunks = append(p.Src.Chunks, r.Pick(0, 1, 1, 2, 3, 5, 17))
		}
		p.Src.Blank = r.P(3)
		if r.P(8) {
			p.Src.Long = r.Pick(r.In(20, 100), r.In(200, 5000), r.In(200, 5000), r.In(8000, 60000))
		}
	case srcFunc, srcChan, srcFuncSized:
		p.Src.Blank = p.Src.Kind == srcChan && r.P(4)
		p.Src.Any = p.Src.Kind == srcChan && r.P(3)
		for k := r.N(6); k > 0; k-- {
			p.Src.Chunks = append(p.Src.Chunks, r.In(1, 5))
		}
	}
	if r.P(3) {
		p.Nof = r.In(1, 12)
	} else if r.P(2) {
		p.Nof = p.Src.N
	}
	if !r.P(6) {
		p.Inc, p.Max = r.In(1, 4), r.In(1, 8)
	} else {
		p.Inc, p.Max = r.In(-1, 3), r.In(-1, 6)
	}
	for k := r.In(1, o.maxStage); k > 0; k-- {
		s := PStage{Separate: r.P(2)}
		if o.xform > 0 && r.P(o.xform) {
			s.Transform = r.In(1, 6)
			s.To = r.N(3)
			s.Filters = []PFilter{{Op: r.Pick(opKeep, opMap, opSeq), C: r.N(7), Pre: r.Pick(0, 0, 1, 2)}}
			if o.grow && r.P(2) {
				s.Filters[0].Op = r.Pick(opDrop, opEmpty, opGrow)
			}
		} else {
			s.Kind = o.stages[r.N(len(o.stages))]
			s.N = r.Pick(0, r.N(p.Src.N+2), r.N(p.Src.N+2), r.N(p.Src.N+2), -1)
			if s.Kind == sSkip {
				s.N = max(s.N, 0)
			}
			if s.Kind == sPass {
				s.N = r.N(nVariants)
			}
			for j := r.Pick(0, 1, 1, 1, 1, 2, 2, 3); j > 0; j-- {
				f := PFilter{Kind: o.filters[r.N(len(o.filters))], C: r.N(9), Pre: r.Pick(0, 0, 1, 2, 6), Post: r.Pick(0, 0, 0, 1, 2)}
				f.Op = r.Pick(opKeep, opKeep, opMap, opSeq)
				if o.grow && r.P(3) {
					f.Op = r.Pick(opDrop, opEmpty, opGrow)
				}
				s.Filters = append(s.Filters, f)
			}
		}
		p.Stages = append(p.Stages, s)
	}
	if r.P(10) {
		// Stages that have nothing to do, and neighbours of the same kind.
		if slices.Contains(o.stages, sPar) && o.maxStage > 3 && r.P(2) {
			// Neighbours that appear when the pipeline is started.
			i := r.N(len(p.Stages) + 1)
			twin := func(k int) PStage {
				return PStage{Kind: k, Filters: []PFilter{{Kind: o.filters[r.N(len(o.filters))], Op: r.Pick(opMap, opSeq), C: r.N(9)}}}
			}
			k := o.stages[r.N(len(o.stages))]
			if r.P(2) || k == sPass || k == sLimit || k == sSkip {
				k = sPar
			}
			p.Stages = slices.Insert(p.Stages, i, twin(k), PStage{Kind: r.Pick(sOrd, sSeq, sLim, sStrict, sPar)}, twin(k))
			if r.P(3) && k != sPar {
				p.Stages = slices.Insert(p.Stages, i, twin(sPar))
			}
		}
		k := o.stages[r.N(len(o.stages))]
		for i := range p.Stages {
			s := &p.Stages[i]
			if s.Transform > 0 || s.Kind == sPass || s.Kind == sLimit || s.Kind == sSkip {
				continue
			}
			if k != sPass && k != sLimit && k != sSkip && r.P(2) {
				s.Kind = k
			}
			if r.P(2) {
				s.Filters = nil
				if r.P(2) && slices.Contains(o.filters, fIdent) {
					s.Filters = []PFilter{{Kind: fIdent}}
				}
			}
		}
	}
	if o.xform > 0 && r.P(12) {
		// Chains of transformations.
		for i := range p.Stages {
			if r.P(2) {
				p.Stages[i] = PStage{Transform: r.In(1, 6), To: r.N(3), Filters: []PFilter{{Op: r.Pick(opKeep, opMap, opSeq), C: r.N(7), Pre: r.Pick(0, 0, 1, 2)}}}
			}
		}
	}
	if r.P(40) {
		// Many filters in one stage.
		if s := &p.Stages[r.N(len(p.Stages))]; s.Transform == 0 && len(s.Filters) > 0 {
			for k := r.In(3, 12); k > 0 && len(s.Filters) < 13; k-- {
				f := s.Filters[r.N(len(s.Filters))]
				f.C = r.N(9)
				s.Filters = append(s.Filters, f)
			}
		}
	}
	p.AskNof = r.P(6)
	if r.P(30) {
		// Large batches.
		p.Src.N = r.Pick(r.In(50, 300), r.In(100, 1500))
		if p.Src.Kind == srcMulti {
			p.Src.N = min(p.Src.N, 300)
		}
		p.Src.Work, p.Nof, p.Inc, p.Max = 0, r.In(1, 8), r.Pick(0, r.In(20, 300), r.In(50, 600)), r.Pick(0, r.In(20, 300), r.In(100, 1000))
		for i := range p.Src.Chunks {
			p.Src.Chunks[i] *= 40
		}
		for i := range p.Stages {
			if s := &p.Stages[i]; s.N > 0 && s.Kind != sPass {
				s.N = r.Pick(s.N, r.N(p.Src.N+2))
			}
		}
	} else if r.P(40) {
		// Many small batches.
		p.Src.N = r.Pick(r.In(40, 80), r.In(60, 120), r.In(60, 200), r.In(200, 400))
		p.Src.Work, p.Nof, p.Inc, p.Max = 0, p.Src.N, 1, r.In(1, 2)
		if len(p.Stages) > 3 {
			p.Stages = p.Stages[:3]
		}
	}
	if r.P(3) {
		p.ErrKind = r.In(1, 6)
		p.ErrWho = r.Pick(bySource, 0, 0, 1, 100, 200)
	}
	if r.P(2) {
		p.Handle = r.N(1 << 14)
	}
	if r.P(4) {
		// Batches that take very long in some stage, fetches and finalizers that do.
		for k := r.Pick(1, 1, 2, 3); k > 0; k-- {
			if s := &p.Stages[r.N(len(p.Stages))]; len(s.Filters) > 0 {
				s.Filters[r.N(len(s.Filters))].Slow = 1 + r.Pick(0, 0, 0, 1, r.N(6), r.N(p.Src.N+1))
			}
		}
		if r.P(5) {
			p.Src.Slow = 1 + r.Pick(0, 1, r.N(6))
			p.Src.Late = p.Src.Kind >= srcMulti && !r.P(3)
		}
		if r.P(2) {
			p.Nof, p.Inc, p.Max = p.Src.N, 1, r.In(1, 2)
		}
		p.LateFirst = r.P(2)
	}
	p.NoCancel = r.P(3)
	p.Bare = r.P(5) && p.Src.Kind == srcSlice
	return p
}

// genFaults adds what can cancel the pipeline or make it fail.
func genFaults(r *Rand, p *PipePlan, kinds []int, n int) {
	for ; n > 0; n-- {
		f := PFault{Kind: kinds[r.N(len(kinds))], Stage: r.N(len(p.Stages) + 1), Seq: r.N(6)}
		if p.Src.N > 12 && r.P(2) {
			f.Seq = r.N(p.Src.N)
		}
		if f.Kind <= xSetErr && r.P(4) {
			f.Where = r.N(nWheres)
		}
		switch f.Kind {
		case xDeadline:
			f.After = r.Pick(0, 10, 100, 1000, 10000, 100000, r.N(300000))
		default:
			f.After = r.Pick(0, 1, 5, 20, 50, r.N(100), r.N(400), r.N(1500))
		}
		p.Faults = append(p.Faults, f)
	}
	if p.Src.Kind >= srcMulti && r.P(3) {
		p.Src.Stay = true
	}
}

func normPipe(o gopt) func(p *PipePlan) {
	allowed := func(list []int, k int) int {
		if slices.Contains(list, k) {
			return k
		}
		return list[0]
	}
	lim := func(p *int, a, b int) { *p = min(max(*p, a), b) }
	return func(p *PipePlan) {
		lim(&p.NCPU, 1, 32)
		lim(&p.ErrKind, 0, 6)
		if p.ErrKind < 3 {
			p.ErrWho = 0
		}
		lim(&p.Beside, 0, 4000)
		s := &p.Src
		s.Kind = allowed(o.srcs, s.Kind)
		lim(&s.N, 0, 2000)
		lim(&s.Long, 0, 70000)
		if s.Long > 0 {
			lim(&s.N, 0, 40+200000/s.Long)
		}
		lim(&s.Work, 0, 20)
		lim(&s.Slow, 0, 1<<20)
		lim(&s.ErrAt, 0, 1<<20)
		for i := range s.Chunks {
			lim(&s.Chunks[i], 0, 1000)
		}
		lim(&p.Nof, 0, 400)
		lim(&p.Handle, 0, 1<<14-1)
		lim(&p.Carve, 0, 1<<30)
		lim(&p.Inc, -5, math.MaxInt)
		lim(&p.Max, -5, math.MaxInt)
		if len(p.Stages) > 10 {
			p.Stages = p.Stages[:10]
		}
		for i := range p.Stages {
			t := &p.Stages[i]
			if len(o.stages) > 0 {
				t.Kind = allowed(o.stages, t.Kind)
			}
			lim(&t.Transform, 0, 6)
			if o.xform == 0 {
				t.Transform = 0
			}
			lim(&t.To, 0, 2)
			lim(&t.N, -1, 1<<20)
			if len(t.Filters) > 13 {
				t.Filters = t.Filters[:13]
			}
			for k := range t.Filters {
				f := &t.Filters[k]
				f.Kind = allowed(o.filters, f.Kind)
				lim(&f.Op, 0, nOps-1)
				if f.Kind >= fAppend {
					f.Op = opKeep
				}
				if !o.grow && (f.Op == opDrop || f.Op == opEmpty || f.Op == opGrow) {
					f.Op = opMap
				}
				lim(&f.C, 0, 50)
				lim(&f.Pre, 0, 50)
				lim(&f.Sub, 0, 8)
				lim(&f.Slow, 0, 1<<20)
				lim(&f.Post, 0, 50)
			}
		}
		strict := false
		for i := len(p.Stages) - 1; i >= 0; i-- {
			t := &p.Stages[i]
			if t.Kind == sPass && t.Transform == 0 {
				lim(&t.N, 0, nVariants-1)
				// A node that handles batches in arbitrary order one after the
				// other, or some of them, cannot be in front of a StrictOrd node
				// unless the pipeline knows its type.
				if strict {
					t.N = [nVariants]int{uWorker: uSpawn, uLim: uPar, uSeq: uOrd, uSpawn: uSpawn, uDecline: uDecline, uMerge: uMerge, uStrict: uStrict, uOrd: uOrd, uPar: uPar}[t.N]
				}
			}
			strict = strict || t.kind() == sStrict || t.Transform == 6
		}
		if strict {
			// Hundreds of batches that wait for their turn wake each other.
			lim(&p.Nof, 0, 200)
			if s.Kind != srcSlice {
				lim(&s.N, 0, 200)
			}
		}
		ext := false
		for i := range p.Faults {
			f := &p.Faults[i]
			lim(&f.Kind, 0, nFaultKinds-1)
			lim(&f.Where, 0, nWheres-1)
			lim(&f.After, 0, 1<<30)
			ext = ext || f.Kind == xExtern || f.Kind == xDeadline || f.Kind == xParent
		}
		if s.Kind < srcMulti || !ext {
			s.Stay = false
		}
		if s.Kind < srcMulti {
			s.Late = false
		}
		for i := range p.Notify {
			lim(&p.Notify[i].Act, 0, 5)
			if p.NoCancel && p.Notify[i].Act == 5 {
				p.Notify[i].Act = 0
			}
			lim(&p.Notify[i].Delay, 0, 1<<12)
		}
	}
}

var (
	allKinds  = []int{sOrd, sSeq, sPar, sLim, sStrict, sPass}
	userF     = []int{fRecv, fRecv, fRecv, fBoth, fFin, fIdent, fRaw, fNil}
	recvF     = []int{fRecv, fRecv, fRecv, fRaw, fBoth, fIdent}
	allSrcs   = []int{srcSlice, srcSlice, srcFunc, srcFuncSized, srcScanner, srcBytes, srcMulti, srcChan}
	plainSrcs = []int{srcSlice, srcSlice, srcSlice, srcFunc, srcFuncSized, srcMulti}
)

func addPipe(prop, name string, weight int, o gopt, gen func(*Rand) *PipePlan, what int, fix func(*PipePlan)) {
	norm := normPipe(o)
	add(prop, name, weight, true, gen, func(p *PipePlan) {
		norm(p)
		if fix != nil {
			fix(p)
		}
	}, runPipe(what))
}

func init() {
	// L01: every batch passes through every receiver once.
	o1 := gopt{stages: allKinds, filters: userF, srcs: allSrcs, xform: 7, maxStage: 6, grow: true}
	noFaults := func(p *PipePlan) {
		p.Faults, p.Notify, p.Src.ErrAt, p.Src.Stay = nil, nil, 0, false
		p.Src.Long = min(p.Src.Long, 60000)
	}
	watch := func(p *PipePlan) { p.Bare = false }
	addPipe("L01", "graph", 10, o1, func(r *Rand) *PipePlan { return genPipe(r, o1) }, ckOnce, noFaults)

	// L02: ordered and sequential stages.
	o2 := gopt{stages: []int{sOrd, sOrd, sSeq, sSeq, sPar, sPar, sLim, sStrict, sPass}, filters: recvF, srcs: plainSrcs, xform: 8, maxStage: 5}
	addPipe("L02", "order", 10, o2, func(r *Rand) *PipePlan {
		p := genPipe(r, o2)
		if r.P(4) {
			genFaults(r, p, []int{xCancel, xExtern}, 1)
		}
		return p
	}, ckOrder|ckOnce, nil)

	// L03: strict stages.
	o3 := gopt{stages: []int{sStrict, sStrict, sLim, sLim, sSeq, sSeq, sPar, sOrd}, filters: recvF, srcs: plainSrcs, xform: 7, maxStage: 6}
	addPipe("L03", "strict", 10, o3, func(r *Rand) *PipePlan {
		p := genPipe(r, o3)
		k := r.N(len(p.Stages))
		p.Stages[k].Kind = sStrict
		return p
	}, ckOrder|ckOnce, noFaults)

	// L05: finalizers.
	o5 := gopt{stages: []int{sOrd, sSeq, sPar, sPar, sLim, sStrict}, filters: []int{fBoth, fBoth, fFin, fRecv, fIdent}, srcs: plainSrcs, xform: 7, maxStage: 5, grow: true}
	addPipe("L05", "finalizers", 10, o5, func(r *Rand) *PipePlan {
		p := genPipe(r, o5)
		if r.P(3) {
			genFaults(r, p, []int{xCancel, xExtern, xDeadline, xCancel}, 1)
		}
		return p
	}, ckFin|ckAfter, nil)

	// L06: termination.
	o6 := gopt{stages: allKinds, filters: userF, srcs: allSrcs, xform: 7, maxStage: 6, grow: true}
	addPipe("L06", "faults", 10, o6, func(r *Rand) *PipePlan {
		p := genPipe(r, o6)
		genFaults(r, p, []int{xCancel, xSetErr, xExtern, xDeadline, xParent}, r.In(1, 2))
		if r.P(12) {
			p.Beside = 1 + r.Pick(0, 3, 30, r.N(300))
		}
		if r.P(4) {
			p.Src.ErrAt = r.In(1, 12)
			p.Src.ErrBy, p.Src.Once = r.P(2), r.P(2)
		}
		if r.P(4) {
			p.Notify = append(p.Notify, PNotifier{r.Pick(5, 5, 1, 2, 3), r.Pick(0, 5, 50)})
		}
		return p
	}, ckAfter|ckStops, nil)
	addPipe("L06", "stops", 2, o6, func(r *Rand) *PipePlan {
		p := genPipe(r, o6)
		p.Src.N = r.In(20, 40)
		p.Nof, p.Inc, p.Max = p.Src.N, 1, 1
		genFaults(r, p, []int{xCancel, xCancel, xSetErr, xExtern, xDeadline, xParent}, 1)
		return p
	}, ckAfter|ckStops, watch)
	addPipe("L06", "quiet", 2, o6, func(r *Rand) *PipePlan { return genPipe(r, o6) }, ckAfter, noFaults)

	// L07: errors.
	o7 := gopt{stages: allKinds, filters: userF, srcs: allSrcs, xform: 9, maxStage: 4}
	addPipe("L07", "errors", 10, o7, func(r *Rand) *PipePlan {
		p := genPipe(r, o7)
		genFaults(r, p, []int{xSetErr, xSetErr, xSetErr, xExtern, xCancel}, r.N(4))
		for k := r.Pick(0, 0, 1, 2); k > 0; k-- {
			p.Notify = append(p.Notify, PNotifier{r.Pick(2, 2, 4, 5), r.Pick(0, 5, 50, 200, r.N(1500))})
		}
		if r.P(2) {
			p.Src.ErrAt = r.In(1, 8)
			if p.Src.Kind == srcScanner || p.Src.Kind == srcBytes {
				p.Src.ErrAt = r.In(1, 60)
			}
			p.Src.ErrBy, p.Src.Once = r.P(2), r.P(2)
		}
		if p.Src.Long > 0 && p.Src.ErrAt == 0 && r.P(3) {
			p.Src.Long = 70000
		}
		p.Early = r.P(25)
		if r.P(6) || p.Early && r.P(2) {
			p.Beside = 1 + r.Pick(0, 0, 3, 10, 30, r.N(300), r.N(3000))
		}
		return p
	}, ckErr, nil)

	// L08: cancellation.
	o8 := gopt{stages: allKinds, filters: recvF, srcs: allSrcs, xform: 8, maxStage: 5}
	addPipe("L08", "cancel", 10, o8, func(r *Rand) *PipePlan {
		p := genPipe(r, o8)
		genFaults(r, p, []int{xCancel, xCancel, xExtern, xDeadline, xParent}, r.In(1, 2))
		return p
	}, ckOnce|ckOrder|ckAfter, nil)

	// L09: predicates.
	o9 := gopt{stages: allKinds, filters: []int{fEvery, fNotEvery, fSome, fNotAny, fRecv}, srcs: plainSrcs, xform: 9, maxStage: 4, grow: true}
	addPipe("L09", "predicates", 10, o9, func(r *Rand) *PipePlan {
		p := genPipe(r, o9)
		p.NoCancel = r.P(2)
		if r.P(2) {
			for i := range p.Stages {
				for k := range p.Stages[i].Filters {
					p.Stages[i].Filters[k].Cancel = r.P(3)
				}
			}
		}
		return p
	}, ckLib, watch)

	// L10: Append, Count, Limit, Skip.
	o10 := gopt{stages: []int{sOrd, sSeq, sPar, sLim, sStrict, sLimit, sSkip, sLimit, sSkip}, filters: []int{fAppend, fCount, fAppend, fCount, fRecv}, srcs: []int{srcSlice, srcSlice, srcFunc, srcFuncSized, srcScanner, srcBytes, srcMulti, srcChan}, xform: 12, maxStage: 6, grow: true}
	addPipe("L10", "collect", 10, o10, func(r *Rand) *PipePlan {
		p := genPipe(r, o10)
		if r.P(5) {
			for i := range p.Stages {
				p.Stages[i].Cancel = r.P(2)
			}
			p.NoCancel = r.P(2)
		}
		return p
	}, ckLib|ckOnce|ckSizes, watch)
	addPipe("L10", "limits", 4, o10, func(r *Rand) *PipePlan {
		p := genPipe(r, o10)
		i := r.N(len(p.Stages) + 1)
		l := PStage{Kind: sLimit, Cancel: true, N: r.N(p.Src.N + 3)}
		p.Stages = slices.Insert(p.Stages, i, l)
		if r.P(2) {
			o := PStage{Kind: sOrd, Filters: []PFilter{{Kind: fAppend}}}
			if r.P(2) {
				o.Filters = append(o.Filters, PFilter{Kind: fRecv, Op: r.N(6)})
			}
			p.Stages = slices.Insert(p.Stages, i+1, o)
		}
		p.NoCancel = r.P(2)
		return p
	}, ckLib|ckOnce|ckSizes, watch)

	addPipe("L10", "nothing", 1, o10, func(r *Rand) *PipePlan {
		p := genPipe(r, o10)
		p.Stages = slices.Insert(p.Stages, r.N(len(p.Stages)+1), PStage{Kind: sSkip, N: -1})
		return p
	}, ckNothing, func(p *PipePlan) {
		p.Faults, p.Notify, p.Src.ErrAt, p.Src.Stay = nil, nil, 0, false
		p.Src.Long = min(p.Src.Long, 60000)
	})

	// L11: sources.
	o11 := gopt{stages: []int{sOrd, sSeq, sPar, sLim}, filters: []int{fRecv}, srcs: allSrcs, maxStage: 2, maxItems: 60, grow: true}
	addPipe("L11", "sources", 10, o11, func(r *Rand) *PipePlan {
		p := genPipe(r, o11)
		if r.P(4) {
			genFaults(r, p, []int{xExtern, xCancel}, 1)
		}
		if r.P(4) {
			p.Src.ErrAt = r.In(1, 60)
			p.Src.ErrBy, p.Src.Once = r.P(2), r.P(2)
		} else if r.P(40) {
			p.Src.Long = 70000 // longer than the buffer of the scanner
		}
		if r.P(16) {
			huge := func() int { return math.MaxInt>>r.Pick(0, 0, 1, 2) - r.Pick(0, 0, 1, 5) }
			p.Inc, p.Max = r.Pick(p.Inc, huge()), huge()
		}
		return p
	}, ckSource|ckOnce|ckErr, nil)

	o11d := gopt{stages: []int{sOrd}, filters: []int{fRecv}, srcs: allSrcs, maxStage: 1, maxItems: 60}
	add("L11", "direct", 2, false, func(r *Rand) *PipePlan {
		p := genPipe(r, o11d)
		for k := r.In(1, 6); k > 0; k-- {
			p.Direct = append(p.Direct, r.Pick(1, 1, 2, 3, r.In(1, 8), r.In(1, 100), math.MaxInt))
		}
		if r.P(4) {
			p.Src.ErrAt = r.In(1, 60)
			p.Src.ErrBy, p.Src.Once = r.P(2), r.P(2)
		} else if r.P(40) {
			p.Src.Long = 70000
		}
		p.Src.Stay = r.P(3)
		if r.P(2) {
			p.Faults = []PFault{{Kind: xExtern, After: r.N(60)}}
		}
		return p
	}, func(p *PipePlan) {
		normPipe(o11d)(p)
		p.Stages, p.Notify = p.Stages[:1], nil
		p.Nof, p.Inc, p.Max, p.Beside, p.Early = 0, 0, 0, 0, false
		p.Faults = p.Faults[:min(1, len(p.Faults))]
		if len(p.Direct) == 0 {
			p.Direct = []int{1}
		}
		for i := range p.Direct {
			p.Direct[i] = max(p.Direct[i], 1)
		}
		if len(p.Faults) == 0 {
			p.Src.Stay = false
		}
		if p.Src.ErrAt == 0 {
			p.Src.Once, p.Src.ErrBy = false, false
		}
		p.noHolds()
	}, runDirect)

	// L13: user-defined nodes and sources.
	o13 := gopt{stages: []int{sPass, sPass, sPass, sPass, sOrd, sSeq, sPar, sLim, sStrict, sLimit}, filters: userF, srcs: allSrcs, xform: 7, maxStage: 6, grow: true}
	addPipe("L13", "nodes", 10, o13, func(r *Rand) *PipePlan {
		p := genPipe(r, o13)
		if r.P(2) {
			// Neighbours that may be merged.
			v := r.Pick(uMerge, uMerge, r.N(nVariants))
			for i := range p.Stages {
				if p.Stages[i].Kind == sPass && !r.P(4) {
					p.Stages[i].N = v
				}
			}
		}
		if r.P(4) {
			genFaults(r, p, []int{xCancel, xExtern, xSetErr, xDeadline}, 1)
		}
		if r.P(6) {
			p.Src.ErrAt = r.In(1, 12)
			p.Src.ErrBy, p.Src.Once = r.P(2), r.P(2)
		}
		return p
	}, ckNodes|ckOnce|ckOrder|ckFin|ckAfter, watch)

	// L12: notifiers.
	o12 := gopt{stages: []int{sOrd, sSeq, sPar, sLim, sStrict}, filters: recvF, srcs: plainSrcs, maxStage: 3}
	addPipe("L12", "notify", 10, o12, func(r *Rand) *PipePlan {
		p := genPipe(r, o12)
		for k := r.Pick(r.In(1, 4), r.In(1, 4), r.In(1, 4), r.In(4, 20)); k > 0; k-- {
			p.Notify = append(p.Notify, PNotifier{r.Pick(0, 1, 1, 2, 3, 4, 5), r.Pick(0, 0, 5, 50, r.N(500))})
		}
		return p
	}, ckNotify|ckErr, nil)
}

// modeOf is the kind of node that a stage or a transformation consists of.
func (s *PStage) modeOf() int {
	if s.Transform > 0 {
		return [...]int{sPass, sPass, sOrd, sSeq, sPar, sLim, sStrict}[s.Transform]
	}
	return s.Kind
}

// noHolds removes what only runPipe supports.
func (p *PipePlan) noHolds() {
	p.Src.Slow = 0
	for i := range p.Stages {
		for k := range p.Stages[i].Filters {
			p.Stages[i].Filters[k].Slow = 0
		}
	}
}

// runParallel checks that receivers of parallel stages can all be in progress
// at the same time: they wait until nothing else can happen.
func runParallel(e *Env, p *PipePlan) {
	st := newPipe(e, p)
	waiting := -1
	e.Exec(st.root, func(k int) bool {
		if k > 0 {
			return false
		}
		waiting = 0
		for i := range p.Stages {
			for j := range p.Stages[i].Filters {
				if p.Stages[i].Filters[j].Gate {
					waiting++
				}
			}
		}
		sim.Log(kGate, 0, 0, 0)
		sim.GateOpen(0)
		return true
	})
	if e.Failed() {
		return
	}
	st.check(e, ckLimited)
	if e.Failed() || waiting <= 0 {
		return
	}
	h := st.history(e)
	gate := -1
	for i := range e.Log {
		if e.Log[i].Kind == kGate {
			gate = i
		}
	}
	for i := range p.Stages {
		for j := range p.Stages[i].Filters {
			if !p.Stages[i].Filters[j].Gate {
				continue
			}
			n := 0
			for _, c := range h.calls[i*16+j] {
				if c.in < gate {
					n++
				}
			}
			want := len(h.calls[i*16+j])
			if p.Stages[i].modeOf() == sLim {
				want = min(want, p.NCPU)
			}
			e.Probe("several_at_once", n > 1)
			if n < want {
				e.Fail("not-parallel", "only %d calls of the receiver of stage %d (%s) are in progress while all of them wait and %d batches are available, want %d", n, i, stageNames[p.Stages[i].modeOf()], len(h.calls[i*16+j]), want)
				return
			}
		}
	}
}

// runPaced checks that each batch is processed completely without any help
// from later batches.
func runPaced(e *Env, p *PipePlan) {
	st := newPipe(e, p)
	e.Exec(st.root, func(k int) bool {
		if sim.GateWaiting(0) == 0 {
			return false
		}
		sim.Log(kPaced, 0, 0, 0)
		sim.GateOpen(0)
		return true
	})
	if e.Failed() {
		return
	}
	st.check(e, ckOnce)
	if e.Failed() {
		return
	}
	h := st.history(e)
	list := st.elements()
	n := 0
	for i := range e.Log {
		if e.Log[i].Kind == kFetch && e.Log[i].B > 0 {
			n++
		}
		if e.Log[i].Kind != kPaced {
			continue
		}
		e.Probe("several_paced", n > 1)
		for k := range list {
			a := &list[k]
			if !a.isRecv() || a.optional {
				continue
			}
			done := 0
			for _, c := range h.calls[a.id] {
				if c.out >= 0 && c.out < i {
					done++
				}
			}
			if done < n {
				e.Fail("held-back", "%s has processed %d of the %d batches fetched so far, and nothing goes on until more of them are fetched", a.name(), done, n)
				return
			}
		}
	}
}

// runStrict checks that a stage that cannot go on stops the source.
func runStalled(e *Env, p *PipePlan) {
	st := newPipe(e, p)
	before := -1
	e.Exec(st.root, func(k int) bool {
		if k > 0 {
			return false
		}
		before = len(st.fetched)
		sim.Log(kGate, 0, 0, 0)
		sim.GateOpen(0)
		return true
	})
	if e.Failed() {
		return
	}
	st.check(e, ckOrder|ckOnce)
	if e.Failed() || before < 0 {
		return
	}
	bound := 2 + len(p.Stages)*(p.NCPU+2)
	e.Probe("source_stopped", before < len(st.fetched))
	if before > bound {
		e.Fail("unbounded", "a StrictOrd stage that makes no progress does not stop the source: %d of %d batches were fetched, expected at most %d", before, len(st.fetched), bound)
	}
}

func init() {
	o4 := gopt{stages: []int{sPar, sLim, sOrd, sSeq}, filters: []int{fRecv}, srcs: []int{srcSlice, srcFunc}, maxStage: 4}
	norm4 := normPipe(gopt{stages: []int{sOrd, sPar, sLim, sSeq, sStrict}, filters: []int{fRecv}, srcs: []int{srcSlice, srcFunc}, xform: 1})
	add("L04", "parallel", 10, true, func(r *Rand) *PipePlan {
		p := genPipe(r, o4)
		p.Src.N = r.In(1, 12)
		if r.P(8) {
			p.Src.N = r.In(12, 80)
		}
		many := r.P(70)
		if many {
			p.Src.N = r.Pick(r.In(80, 400), r.In(80, 400), r.In(400, 1500))
		}
		if p.NCPU > 4 || many {
			p.Src.N += p.NCPU
			p.Nof, p.Inc, p.Max = p.Src.N, 1, 1
		}
		for i := range p.Stages {
			p.Stages[i].Kind = r.Pick(sOrd, sSeq, sPar, sLim)
			p.Stages[i].Filters = []PFilter{{Op: opMap, Pre: r.N(3)}}
		}
		k := r.N(len(p.Stages))
		if r.P(2) {
			k = len(p.Stages) - 1
		}
		p.Stages[k].Kind = r.Pick(sPar, sLim)
		p.Stages[k].Filters[0].Gate = true
		for i := range p.Stages {
			for j := r.Pick(0, 0, 0, 1, 2, 5); j > 0; j-- {
				p.Stages[i].Filters = append(p.Stages[i].Filters, PFilter{Op: opMap})
			}
		}
		if r.P(3) {
			p.Stages = append(p.Stages, PStage{Kind: r.Pick(sStrict, sOrd), Filters: []PFilter{{}}})
		}
		if r.P(4) {
			// Transformations, which may be the ones that wait.
			for i := range p.Stages {
				if s := &p.Stages[i]; s.Kind != sStrict && (i == k || r.P(2)) {
					s.Filters = s.Filters[:1]
					s.To = r.N(3)
					s.Transform = map[int]int{sOrd: 2, sSeq: 3, sPar: 4, sLim: 5}[s.Kind]
					if !s.Filters[0].Gate && r.P(4) {
						s.Transform = 1
					}
				}
			}
			p.Stages = append(p.Stages, PStage{Kind: r.Pick(sPar, sOrd), Filters: []PFilter{{}}})
		}
		return p
	}, func(p *PipePlan) {
		norm4(p)
		noGate := true
		for i := range p.Stages {
			s := &p.Stages[i]
			if s.Kind == sStrict && i != len(p.Stages)-1 {
				s.Kind = sOrd
			}
			if s.Transform == 6 {
				s.Transform = 2
			}
			if s.Transform > 0 && len(s.Filters) > 1 {
				s.Filters = s.Filters[:1]
			}
			for k := range s.Filters {
				f := &s.Filters[k]
				f.Gate = f.Gate && noGate && (s.modeOf() == sPar || s.modeOf() == sLim)
				if f.Gate {
					noGate = false
				}
			}
		}
		// A limited stage in front restricts the parallelism of the stages behind it.
		seen := false
		for i := len(p.Stages) - 1; i >= 0; i-- {
			s := &p.Stages[i]
			for k := range s.Filters {
				seen = seen || s.Filters[k].Gate
			}
			gate := len(s.Filters) > 0 && s.Filters[0].Gate
			if seen && !gate && s.modeOf() == sLim {
				s.Kind = sPar
				if s.Transform > 0 {
					s.Transform = 4
				}
			}
		}
		p.Faults, p.Notify, p.Src.ErrAt, p.Src.Stay = nil, nil, 0, false
		p.Bare = false
		p.noHolds()
	}, runParallel)

	o14 := gopt{stages: allKinds, filters: recvF, srcs: allSrcs, xform: 7, maxStage: 6, maxItems: 12, grow: true}
	norm14 := normPipe(o14)
	add("L14", "paced", 10, true, func(r *Rand) *PipePlan {
		p := genPipe(r, o14)
		if r.P(2) {
			p.Nof, p.Inc, p.Max = p.Src.N, 1, r.In(1, 2)
		}
		return p
	}, func(p *PipePlan) {
		norm14(p)
		p.Src.N = min(p.Src.N, 40)
		p.Faults, p.Notify, p.Src.ErrAt, p.Src.Stay = nil, nil, 0, false
		p.Paced, p.Bare = true, false
		p.noHolds()
	}, runPaced)

	norm3 := normPipe(gopt{stages: []int{sOrd, sSeq, sLim, sStrict, sPar}, filters: []int{fRecv}, srcs: []int{srcSlice, srcFunc}, xform: 1})
	add("L03", "stalled", 3, false, func(r *Rand) *PipePlan {
		p := genPipe(r, o4)
		p.Src.N = r.In(1, 60)
		p.Nof = p.Src.N
		p.Inc, p.Max = 1, 1
		for i := range p.Stages {
			p.Stages[i].Kind = r.Pick(sOrd, sSeq, sLim, sStrict)
			p.Stages[i].Filters = []PFilter{{Op: opMap, Pre: r.N(3)}}
		}
		p.Stages = append(p.Stages, PStage{Kind: sStrict, Filters: []PFilter{{Gate: r.P(2), First: r.P(2)}}})
		if r.P(2) {
			p.NCPU = cpus(r.In(1, 4))
			p.Src.N = r.In(30, 120)
			p.Nof = p.Src.N
			k := r.N(len(p.Stages))
			p.Stages[k].Kind = r.Pick(sLim, sLim, sLim, sStrict)
			p.Stages[k].Filters[0].Gate, p.Stages[k].Filters[0].First = true, r.P(4) == false
			for i := range p.Stages {
				if s := &p.Stages[i]; r.P(4) {
					s.To = r.N(3)
					s.Transform = map[int]int{sOrd: 2, sSeq: 3, sLim: 5, sStrict: 6}[s.Kind]
					if i != k && r.P(4) {
						s.Transform = 1
					}
				}
			}
			for r.P(3) {
				p.Stages = append(p.Stages, PStage{Kind: r.Pick(sPar, sOrd, sSeq, sLim), Filters: []PFilter{{Op: opMap, Pre: r.N(3)}}})
			}
		}
		return p
	}, func(p *PipePlan) {
		norm3(p)
		if len(p.Stages) == 0 {
			p.Stages = []PStage{{}}
		}
		if len(p.Stages) > 9 {
			p.Stages = p.Stages[:9]
		}
		last, gated := -1, -1
		for i := range p.Stages {
			s := &p.Stages[i]
			if len(s.Filters) == 0 {
				s.Filters = []PFilter{{}}
			}
			if s.Transform > 0 {
				s.Filters = s.Filters[:1]
			}
			if s.modeOf() == sStrict {
				last = i
			}
		}
		if last < 0 {
			last = len(p.Stages) - 1
			p.Stages[last].Kind, p.Stages[last].Transform = sStrict, 0
		}
		for i := range p.Stages {
			s := &p.Stages[i]
			for k := range s.Filters {
				f := &s.Filters[k]
				if f.Gate = f.Gate && gated < 0 && i <= last && (s.modeOf() == sLim || s.modeOf() == sStrict); f.Gate {
					gated = i
				}
				f.First = f.First && f.Gate
			}
		}
		if gated < 0 {
			gated = last
			p.Stages[last].Filters[0].Gate = true
		}
		// Transformations that lead nowhere are never executed.
		if p.Stages[len(p.Stages)-1].Transform > 0 {
			p.Stages = append(p.Stages, PStage{Kind: sOrd, Filters: []PFilter{{}}})
		}
		// An Ord or Seq stage behind a parallel one has to keep batches that arrive early.
		lim := false
		for i := range p.Stages[:last] {
			s := &p.Stages[i]
			if k := s.modeOf(); k == sPar || lim && (k == sOrd || k == sSeq) {
				s.Kind = sLim
				if s.Transform > 0 {
					s.Transform = 5
				}
			}
			lim = lim || s.modeOf() == sLim
		}
		p.Faults, p.Notify, p.Src.ErrAt, p.Src.Stay = nil, nil, 0, false
		p.Bare = false
		p.noHolds()
	}, runStalled)
}
