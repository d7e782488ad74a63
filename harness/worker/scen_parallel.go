package main

import (
	"errors"
	"fmt"
	"math"
	"regexp"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/intel/forGoParallel/internal/zzverif/sim"
	"github.com/intel/forGoParallel/parallel"
	"github.com/intel/forGoParallel/speculative"
)

// Event kinds of package parallel and speculative.
const (
	kStart  = 1 + iota // A: function or low, B: high
	kEnd               // same
	kReturn            // the call under test returned
	kRaised            // the call under test panicked
	kGate              // the driver opened the gate
	kJoin
	kBad // a check inside the run failed; A: code, B, C: details
	kBadArgs
)

func init() {
	for k, s := range map[uint32]string{kStart: "start", kEnd: "end", kReturn: "call-returned", kRaised: "call-panicked", kGate: "gate-opened", kJoin: "join", kBad: "bad", kBadArgs: "arguments"} {
		kindNames[k] = s
	}
}

// FN is one user function, or what happens at one element of a range.
type FN struct {
	Pre, Post int // scheduling points before and after the effect
	Panic     int // 0: none; 1: string; 2: error; 3: runtime error; 4: wrapped error; 5: value; 6: a value that looks like nothing
	Decide    bool
	Zero      bool // contributes the zero value of the result type
	Block     bool // waits at the gate
	Nest      int  // calls parallel.Do with this many functions
	Long      bool // takes very long
	Sub       int  // executes this part of the plan (C01)
}

// CallPlan is one call of package parallel or speculative.
type CallPlan struct {
	Form      int
	Low, N    int
	NCPU      int
	Fns       []FN // one per function or per element of the range
	JoinTrue  bool // joins may return true,
	JoinAt    int  // if the result has so many elements
	JoinFrom  int  // and does not begin further left
	Panicky   bool
	EmptyPara bool
}

const (
	fDo = iota
	fAnd
	fOr
	fReduce
	fReduceSum
	fReduceStr
	fReduceProduct
	fRange
	fRangeAnd
	fRangeOr
	fRangeReduce
	fRangeReduceSum
	fRangeReduceStr
	fRangeReduceProduct
	nForms
)

var formNames = [nForms]string{"Do", "And", "Or", "Reduce", "ReduceSum", "ReduceSum[string]", "ReduceProduct", "Range", "RangeAnd", "RangeOr", "RangeReduce", "RangeReduceSum", "RangeReduceSum[string]", "RangeReduceProduct"}

func isRange(form int) bool { return form >= fRange }

type boomErr struct{ i int }

func boomText(i int) string {
	if i%2 == 1 {
		return fmt.Sprintf("boom%d# 100%% %%d %%v\n\"\\\x00%%!", i)
	}
	return fmt.Sprintf("boom%d#", i)
}

// dullValues are panic values that look like nothing.
var dullValues = [...]any{"", 0, false, []int(nil), (*int)(nil), (*dullErr)(nil), struct{}{}, "<nil>", 0.0, dullErr{}, map[string]int(nil), error((*dullErr)(nil))}

type dullErr struct{}

func (*dullErr) Error() string { return "" }

func (b *boomErr) Error() string { return fmt.Sprintf("boom%d#", b.i) }

func raise(kind, i int) {
	F(fPanic)
	switch kind {
	case 1:
		panic(boomText(i))
	case 2:
		panic(&boomErr{i})
	case 3:
		var a []int
		_ = a[i+1000]
	case 4:
		panic(fmt.Errorf("outer: %w", &boomErr{i}))
	case 6:
		panic(dullValues[i%len(dullValues)])
	default:
		panic(boomVal{i})
	}
}

type boomVal struct{ I int }

func (b boomVal) String() string { return fmt.Sprintf("boom%d#", b.I) }

var (
	boomRE  = regexp.MustCompile(`boom(\d+)#`)
	indexRE = regexp.MustCompile(`index out of range \[(\d+)\]`)
)

// raisedBy identifies the function whose panic value v is; -1: unknown.
func raisedBy(v any) int {
	s := fmt.Sprint(v)
	a, b := boomRE.FindStringSubmatchIndex(s), indexRE.FindStringSubmatchIndex(s)
	if a != nil && (b == nil || a[0] < b[0]) {
		n, _ := strconv.Atoi(s[a[2]:a[3]])
		return n
	}
	if b != nil {
		n, _ := strconv.Atoi(s[b[2]:b[3]])
		return n - 1000
	}
	return -1
}

// kept reports whether an error value raised by function i is still found in v.
func kept(kind, i int, v any) string {
	switch kind {
	case 6:
		d := dullValues[i%len(dullValues)]
		if de, isErr := d.(error); isErr {
			if err, ok := v.(error); !ok || !errors.Is(err, de) {
				return fmt.Sprintf("the error raised by function %d is not wrapped in the recovered value", i)
			}
		} else if s := fmt.Sprint(v); !strings.Contains(s, fmt.Sprint(d)) {
			return fmt.Sprintf("the panic value of function %d was %v, but the recovered value is %.40q", i, d, s)
		}
	case 1:
		if s := fmt.Sprint(v); !strings.Contains(s, boomText(i)) {
			return fmt.Sprintf("the panic value of function %d was %q, but the recovered value is %.40q", i, boomText(i), s)
		}
	case 2, 4:
		err, ok := v.(error)
		if !ok {
			return fmt.Sprintf("the panic value of function %d was an error, but the recovered value is a %T", i, v)
		}
		var be *boomErr
		if !errors.As(err, &be) || be.i != i {
			return fmt.Sprintf("the error raised by function %d is not wrapped in the recovered value", i)
		}
	case 3:
		err, ok := v.(error)
		var re runtime.Error
		if !ok || !errors.As(err, &re) {
			return fmt.Sprintf("the runtime error raised by function %d is not wrapped in the recovered value", i)
		}
	}
	return ""
}

var primes = [...]int{3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113, 127, 131, 137, 139, 149, 151, 157, 163, 167, 173, 179, 181, 191, 193, 197, 199, 211, 223, 227, 229, 233, 239, 241, 251, 257, 263, 269, 271, 277, 281, 283}

// state is the data the user functions work on.
type callState struct {
	logger
	sub      []func() // parts to be executed by functions
	p        *CallPlan
	cells    []int
	raised   any
	didRaise bool
	resB     bool
	resI     int
	resS     string
	resF     bool
	reads    int
}

func newCall(e *Env, p *CallPlan) *callState {
	return &callState{logger: e.logger, sub: e.sub, p: p, cells: make([]int, len(p.Fns))}
}

// body is one user function; it handles elements [a, b).
func (st *callState) body(a, b int) (decided bool) {
	st.log(kStart, int64(a), int64(b), 0)
	for i := a; i < b; i++ {
		f := &st.p.Fns[i]
		sim.Work(f.Pre)
		if f.Long {
			F(fStall)
			time.Sleep(1000 * time.Hour)
		}
		if f.Block {
			F(fStall)
			sim.GateWait(0)
		}
		st.cells[i]++
		if f.Sub > 0 && f.Sub <= len(st.sub) {
			st.sub[f.Sub-1]()
		}
		if f.Nest > 0 {
			sub := make([]int, f.Nest)
			var thunks []func()
			for k := range sub {
				thunks = append(thunks, func() { sim.Work(1); sub[k] = k + 1 })
			}
			parallel.Do(thunks...)
			for k := range sub {
				if sub[k] != k+1 {
					st.log(kBad, 1, int64(i), int64(k))
				}
			}
		}
		sim.Work(f.Post)
		if f.Panic > 0 {
			st.log(kEnd, int64(a), int64(b), 1)
			raise(f.Panic, i)
		}
		if f.Decide {
			st.log(kEnd, int64(a), int64(b), 2)
			return true
		}
	}
	st.log(kEnd, int64(a), int64(b), 0)
	return false
}

// join concatenates results. Its operands must be results of functions or joins.
func (st *callState) join(x, y string) string {
	a, b := spanOf(x)
	c, d := spanOf(y)
	st.log(kJoin, int64(a), int64(d), 0)
	if a < 0 || c < 0 {
		st.log(kBad, 2, int64(len(x)), int64(len(y)))
	} else if b != c {
		st.log(kBad, 4, int64(b), int64(c))
	}
	sim.Work(1)
	return x + y
}

// joins reports whether the join that yields the elements [a, b) decides.
func (st *callState) joins(a, b int) bool {
	return st.p.JoinTrue && b-a >= st.p.JoinAt && a >= st.p.JoinFrom
}

// spanOf returns the first element that a result consists of and the one
// behind its last one, or -1.
func spanOf(s string) (a, b int) {
	at := func(s string) int {
		if len(s) < 2 || strings.Contains(s, "!") {
			return -1
		}
		i, err := strconv.Atoi(s[1:])
		if err != nil {
			return -1
		}
		return i
	}
	l := strings.Split(strings.TrimSuffix(s, "."), ".")
	if a, b = at(l[0]), at(l[len(l)-1]); a < 0 || b < 0 {
		return -1, -1
	}
	return a, b + 1
}

func letter(i int) string { return string(rune('A'+i%26)) + strconv.Itoa(i) + "." }

func letters(a, b int) string {
	var s strings.Builder
	for i := a; i < b; i++ {
		s.WriteString(letter(i))
	}
	return s.String()
}

// value, sum and product of the elements [a, b) of a call.
func (st *callState) letters(a, b int) string {
	var s strings.Builder
	for i := a; i < b; i++ {
		if !st.p.Fns[i].Zero {
			s.WriteString(letter(i))
		}
	}
	return s.String()
}

func (st *callState) sum(a, b int) int {
	r := 0
	for i := a; i < b; i++ {
		if !st.p.Fns[i].Zero {
			r += sum(i, i+1)
		}
	}
	return r
}

func (st *callState) product(a, b int) int {
	r := product(a, b)
	for i := a; i < b; i++ {
		if st.p.Fns[i].Zero {
			return 0
		}
	}
	return r
}

func product(a, b int) int {
	r := 1
	for i := a; i < b; i++ {
		r *= primes[i%len(primes)]
	}
	return r
}

func sum(a, b int) int {
	r := 0
	for i := a; i < b; i++ {
		r += 1 << uint(i%60)
	}
	return r
}

// call performs the call under test, recovering its panic.
func (st *callState) call(spec bool) {
	p := st.p
	n := len(p.Fns)
	lo := p.Low
	defer func() {
		if st.didRaise {
			st.raised = recover()
			st.log(kRaised, int64(raisedBy(st.raised)), 0, 0)
		}
	}()
	st.didRaise = true
	rng := func(a, b int) (int, int) {
		if a < lo || b > lo+n || a > b {
			st.log(kBadArgs, int64(a), int64(b), 0)
			return 0, 0
		}
		return a - lo, b - lo
	}
	if !spec {
		switch p.Form {
		case fDo:
			var fs []func()
			for i := range n {
				fs = append(fs, func() { st.body(i, i+1) })
			}
			parallel.Do(fs...)
		case fAnd:
			var fs []func() bool
			for i := range n {
				fs = append(fs, func() bool { return !st.body(i, i+1) })
			}
			st.resB = parallel.And(fs...)
		case fOr:
			var fs []func() bool
			for i := range n {
				fs = append(fs, func() bool { return st.body(i, i+1) })
			}
			st.resB = parallel.Or(fs...)
		case fReduce:
			var fs []func() string
			for i := range n {
				fs = append(fs, func() string { st.body(i, i+1); return letter(i) })
			}
			st.resS = parallel.Reduce(st.join, fs[0], fs[1:]...)
		case fReduceSum:
			var fs []func() int
			for i := range n {
				fs = append(fs, func() int { st.body(i, i+1); return st.sum(i, i+1) })
			}
			st.resI = parallel.ReduceSum(fs...)
		case fReduceStr:
			var fs []func() string
			for i := range n {
				fs = append(fs, func() string { st.body(i, i+1); return st.letters(i, i+1) })
			}
			st.resS = parallel.ReduceSum(fs...)
		case fReduceProduct:
			var fs []func() int
			for i := range n {
				fs = append(fs, func() int { st.body(i, i+1); return st.product(i, i+1) })
			}
			st.resI = parallel.ReduceProduct(fs...)
		case fRange:
			parallel.Range(lo, lo+n, p.N, func(a, b int) { a, b = rng(a, b); st.body(a, b) })
		case fRangeAnd:
			st.resB = parallel.RangeAnd(lo, lo+n, p.N, func(a, b int) bool { a, b = rng(a, b); return !st.body(a, b) })
		case fRangeOr:
			st.resB = parallel.RangeOr(lo, lo+n, p.N, func(a, b int) bool { a, b = rng(a, b); return st.body(a, b) })
		case fRangeReduce:
			st.resS = parallel.RangeReduce(lo, lo+n, p.N, func(a, b int) string { a, b = rng(a, b); st.body(a, b); return letters(a, b) },
				st.join)
		case fRangeReduceSum:
			st.resI = parallel.RangeReduceSum(lo, lo+n, p.N, func(a, b int) int { a, b = rng(a, b); st.body(a, b); return st.sum(a, b) })
		case fRangeReduceStr:
			st.resS = parallel.RangeReduceSum(lo, lo+n, p.N, func(a, b int) string { a, b = rng(a, b); st.body(a, b); return st.letters(a, b) })
		case fRangeReduceProduct:
			st.resI = parallel.RangeReduceProduct(lo, lo+n, p.N, func(a, b int) int { a, b = rng(a, b); st.body(a, b); return st.product(a, b) })
		}
	} else {
		join := func(x, y string) (string, bool) {
			s := st.join(x, y)
			return s, st.joins(spanOf(s))
		}
		switch p.Form {
		case fDo, fOr, fAnd:
			var fs []func() bool
			neg := p.Form == fAnd
			for i := range n {
				fs = append(fs, func() bool { return st.body(i, i+1) != neg })
			}
			switch p.Form {
			case fDo:
				st.resB = speculative.Do(fs...)
			case fOr:
				st.resB = speculative.Or(fs...)
			default:
				st.resB = speculative.And(fs...)
			}
		case fReduce:
			var fs []func() (string, bool)
			for i := range n {
				fs = append(fs, func() (string, bool) {
					if st.body(i, i+1) {
						return "!" + letter(i), true
					}
					return letter(i), false
				})
			}
			st.resS, st.resF = speculative.Reduce(join, fs[0], fs[1:]...)
		case fRange:
			st.resB = speculative.Range(lo, lo+n, p.N, func(a, b int) bool { a, b = rng(a, b); return st.body(a, b) })
		case fRangeAnd:
			st.resB = speculative.RangeAnd(lo, lo+n, p.N, func(a, b int) bool { a, b = rng(a, b); return !st.body(a, b) })
		case fRangeOr:
			st.resB = speculative.RangeOr(lo, lo+n, p.N, func(a, b int) bool { a, b = rng(a, b); return st.body(a, b) })
		case fRangeReduce:
			st.resS, st.resF = speculative.RangeReduce(lo, lo+n, p.N, func(a, b int) (string, bool) {
				a, b = rng(a, b)
				if st.body(a, b) {
					// The deciding element is the first of the batch.
					for i := a; i < b; i++ {
						if p.Fns[i].Decide {
							return "!" + letter(i), true
						}
					}
				}
				return letters(a, b), false
			}, join)
		}
	}
	st.didRaise = false
	st.log(kReturn, 0, 0, 0)
	for i := range st.cells {
		if st.mayRead(spec, i) {
			st.reads += st.cells[i]
		}
	}
}

// mayRead reports whether the effects of element i must be visible once the
// call has returned normally.
func (st *callState) mayRead(spec bool, i int) bool {
	if !spec {
		// Elements behind a deciding one in the same batch are not visited.
		return true
	}
	for k := range st.p.Fns {
		if st.p.Fns[k].Decide || st.p.Fns[k].Panic > 0 {
			return false
		}
	}
	return !st.p.JoinTrue || !isJoinForm(st.p.Form)
}

func isJoinForm(f int) bool { return f == fReduce || f == fRangeReduce }

var parForms = []int{fDo, fAnd, fOr, fReduce, fReduceSum, fReduceStr, fReduceProduct, fRange, fRangeAnd, fRangeOr, fRangeReduce, fRangeReduceSum, fRangeReduceStr, fRangeReduceProduct}
var specForms = []int{fDo, fAnd, fOr, fReduce, fRange, fRangeAnd, fRangeOr, fRangeReduce}

func genCall(r *Rand, forms []int, min, max int) *CallPlan {
	p := &CallPlan{Form: forms[r.N(len(forms))], NCPU: cpus(r.In(1, 5))}
	if r.P(20) {
		p.NCPU = cpus(r.In(6, 40))
	}
	n := r.In(min, max)
	if r.P(3) {
		n = r.In(min, min+3)
	}
	style := r.N(4)
	if r.P(80) {
		n, style = r.In(30, 300), 0
	}
	zero := r.P(4)
	for i := 0; i < n; i++ {
		var f FN
		switch style {
		case 0:
		case 1:
			f.Pre, f.Post = r.N(4), r.N(4)
		case 2:
			if r.P(3) {
				f.Pre = r.N(30)
			}
		default:
			f.Post = r.Pick(0, 0, 1, 12)
		}
		if r.P(25) && n < 30 {
			f.Nest = r.In(1, 4)
		}
		f.Zero = zero && r.P(4)
		p.Fns = append(p.Fns, f)
	}
	if isRange(p.Form) {
		p.N = r.Pick(0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 40)
		if n >= 30 && r.P(2) {
			p.N = r.In(20, 320)
		}
		p.Low = r.Pick(0, 0, 0, 1, 5, 17, 1000, -3, -1000, math.MinInt, math.MaxInt-512)
	}
	if n > 0 && r.P(12) {
		p.Fns[r.N(n)].Long = true
	}
	return p
}

func normCall(forms []int, min int, spec bool) func(*CallPlan) {
	return func(p *CallPlan) {
		ok := false
		for _, f := range forms {
			ok = ok || f == p.Form
		}
		if !ok {
			p.Form = forms[0]
		}
		if len(p.Fns) > 400 {
			p.Fns = p.Fns[:400]
		}
		if p.Form == fReduce && min < 1 && len(p.Fns) == 0 {
			p.Fns = append(p.Fns, FN{})
		}
		for len(p.Fns) < min {
			p.Fns = append(p.Fns, FN{})
		}
		p.NCPU = clamp(p.NCPU, 1, 64)
		p.N = clamp(p.N, 0, 400)
		p.JoinAt, p.JoinFrom = clamp(p.JoinAt, 0, 400), clamp(p.JoinFrom, 0, 400)
		if p.Low > math.MaxInt-512 {
			p.Low = 0
		}
		if !isRange(p.Form) {
			p.Low, p.N = 0, 0
		}
		for i := range p.Fns {
			f := &p.Fns[i]
			f.Pre, f.Post = clamp(f.Pre, 0, 100), clamp(f.Post, 0, 100)
			f.Panic = clamp(f.Panic, 0, 6)
			f.Nest = clamp(f.Nest, 0, 6)
			switch p.Form {
			case fReduceSum, fReduceStr, fReduceProduct, fRangeReduceSum, fRangeReduceStr, fRangeReduceProduct:
			default:
				f.Zero = false
			}
			f.Sub = clamp(f.Sub, 0, 8)
		}
	}
}

func clamp(x, a, b int) int {
	if x < a {
		return a
	}
	if x > b {
		return b
	}
	return x
}

// batches returns the sub-ranges the functions were started with, sorted.
func (e *Env) batches() (list [][2]int) {
	for i := range e.Log {
		if e.Log[i].Kind == kStart {
			list = append(list, [2]int{int(e.Log[i].A), int(e.Log[i].B)})
		}
	}
	sort.Slice(list, func(i, j int) bool {
		if list[i][0] != list[j][0] {
			return list[i][0] < list[j][0]
		}
		return list[i][1] < list[j][1]
	})
	return
}

// checkPartition: every function started exactly once; ranges are a partition.
func (e *Env) checkPartition(p *CallPlan, atMost bool) {
	for i := range e.Log {
		if e.Log[i].Kind == kBadArgs {
			e.Fail("range-bounds", "%s: a range function was called with [%d,%d), outside [%d,%d)", formNames[p.Form], e.Log[i].A, e.Log[i].B, p.Low, p.Low+len(p.Fns))
			return
		}
		if e.Log[i].Kind == kBad && e.Log[i].A == 2 {
			e.Fail("join", "%s: a join is invoked for a value that no function or join has returned as a result to be joined", formNames[p.Form])
			return
		}
		if e.Log[i].Kind == kBad && e.Log[i].A == 4 {
			e.Fail("join", "%s: a join is invoked for values that are not those of neighbours: one ends at %d and the other begins at %d", formNames[p.Form], e.Log[i].B, e.Log[i].C)
			return
		}
		if e.Log[i].Kind == kBad {
			e.Fail("nested", "a nested parallel.Do returned before its function %d had run", e.Log[i].C)
			return
		}
	}
	n := len(p.Fns)
	bs := e.batches()
	next := 0
	for k, b := range bs {
		if b[0] < next {
			e.Fail("twice", "%s: element %d is passed to more than one invocation", formNames[p.Form], b[0])
			return
		}
		if b[0] > next && !atMost {
			e.Fail("missed", "%s: element %d is passed to no invocation", formNames[p.Form], next)
			return
		}
		if b[0] == b[1] && n > 0 {
			e.Fail("empty-batch", "%s: an invocation received the empty range [%d,%d)", formNames[p.Form], b[0]+p.Low, b[1]+p.Low)
			return
		}
		if b[0] == b[1] && k > 0 {
			e.Fail("twice", "%s: the empty range is passed to more than one invocation", formNames[p.Form])
			return
		}
		next = b[1]
	}
	if next < n && !atMost {
		e.Fail("missed", "%s: element %d is passed to no invocation", formNames[p.Form], next)
	}
	if isRange(p.Form) && p.N > 0 && len(bs) > p.N {
		e.Fail("too-many-batches", "%s: %d invocations for %d batches", formNames[p.Form], len(bs), p.N)
	}
}

// checkJoined: all started functions ended before the call returned.
func (e *Env) checkJoined(p *CallPlan) {
	open := map[int64]bool{}
	ret := false
	for i := range e.Log {
		ev := &e.Log[i]
		switch ev.Kind {
		case kStart:
			if ret {
				e.Fail("early-return", "%s returned before function %d was started", formNames[p.Form], ev.A)
				return
			}
			open[ev.A] = true
		case kEnd:
			delete(open, ev.A)
		case kReturn:
			ret = true
			for f := range open {
				e.Fail("early-return", "%s returned while function %d was still running", formNames[p.Form], f)
				return
			}
		}
	}
}

// P01 (what=1) and P02 (what=2).
func runJoin(e *Env, p *CallPlan, what int) {
	e.Cfg.NCPU = int32(p.NCPU)
	st := newCall(e, p)
	e.Exec(func() { st.call(false) }, nil)
	if e.Failed() {
		return
	}
	if st.didRaise {
		e.Fail("panic", "%s panics although no function does: %.200v", formNames[p.Form], st.raised)
		return
	}
	e.checkPartition(p, false)
	if what == 2 {
		st.checkResult(e)
		e.Probe("several_batches", len(e.batches()) > 2)
		e.Probe("default_batches", isRange(p.Form) && p.N == 0)
		return
	}
	e.checkJoined(p)
	// Deciding elements end their batch early.
	decided := false
	for i := range p.Fns {
		decided = decided || p.Fns[i].Decide
	}
	if !decided {
		for i, c := range st.cells {
			if c != 1 {
				e.Fail("effects", "%s: the effect of element %d happened %d times", formNames[p.Form], i, c)
			}
		}
		if st.reads != len(st.cells) {
			e.Fail("effects", "%s: the caller sees %d of %d effects", formNames[p.Form], st.reads, len(st.cells))
		}
	}
	e.Probe("several_batches", len(e.batches()) > 2)
	e.Probe("out_of_order_end", outOfOrder(e))
}

func outOfOrder(e *Env) bool {
	last := int64(-1)
	for i := range e.Log {
		if e.Log[i].Kind == kEnd {
			if e.Log[i].A < last {
				return true
			}
			last = e.Log[i].A
		}
	}
	return false
}

func (st *callState) checkResult(e *Env) {
	p := st.p
	n := len(p.Fns)
	decided := false
	for i := range p.Fns {
		decided = decided || p.Fns[i].Decide
	}
	name := formNames[p.Form]
	switch p.Form {
	case fAnd, fRangeAnd:
		if st.resB != !decided {
			e.Fail("result", "%s = %v, want %v", name, st.resB, !decided)
		}
	case fOr, fRangeOr:
		if st.resB != decided {
			e.Fail("result", "%s = %v, want %v", name, st.resB, decided)
		}
	case fReduce, fReduceStr, fRangeReduce, fRangeReduceStr:
		if want := st.letters(0, n); st.resS != want {
			e.Fail("result", "%s = %q, want %q", name, st.resS, want)
		}
	case fReduceSum, fRangeReduceSum:
		if want := st.sum(0, n); st.resI != want {
			e.Fail("result", "%s = %d, want %d", name, st.resI, want)
		}
	case fReduceProduct, fRangeReduceProduct:
		if want := st.product(0, n); st.resI != want {
			e.Fail("result", "%s = %d, want %d", name, st.resI, want)
		}
	}
}

// P03: panics.
func runPanics(e *Env, p *CallPlan) {
	e.Cfg.NCPU = int32(p.NCPU)
	st := newCall(e, p)
	e.Exec(func() { st.call(false) }, nil)
	if e.Failed() {
		return
	}
	// A deciding element ends its invocation, so what panics depends on how
	// the range is divided: it is read off the history.
	first := -1
	count := 0
	for i := range e.Log {
		if ev := &e.Log[i]; ev.Kind == kEnd && ev.C == 1 {
			count++
			for k := int(ev.A); k < int(ev.B); k++ {
				if p.Fns[k].Panic > 0 {
					if first < 0 || k < first {
						first = k
					}
					break
				}
			}
		}
	}
	if first < 0 {
		if st.didRaise {
			e.Fail("panic", "%s panics although no function does: %.200v", formNames[p.Form], st.raised)
		}
		return
	}
	st.checkRaised(e, first)
	e.checkPartition(p, false)
	e.Probe("several_panics", count > 1)
	e.Probe("leftmost_panics_last", lastPanic(e) == first && count > 1)
	e.Probe("error_value", p.Fns[first].Panic == 2 || p.Fns[first].Panic == 4)
}

func lastPanic(e *Env) int {
	last := int64(-1)
	for i := range e.Log {
		if e.Log[i].Kind == kEnd && e.Log[i].C == 1 {
			last = e.Log[i].A
		}
	}
	return int(last)
}

func (st *callState) checkRaised(e *Env, first int) {
	p := st.p
	name := formNames[p.Form]
	if !st.didRaise {
		e.Fail("lost-panic", "%s returns normally although function %d panicked", name, first)
		return
	}
	if st.raised == nil {
		e.Fail("lost-panic", "%s: the goroutine was ended without a panic value", name)
		return
	}
	if got := raisedBy(st.raised); got != first && (p.Fns[first].Panic != 6 || got >= 0) {
		e.Fail("wrong-panic", "%s panics with the value of function %d; the left-most panicking function is %d: %.160v", name, got, first, st.raised)
		return
	}
	if s := kept(p.Fns[first].Panic, first, st.raised); s != "" {
		e.Fail("panic-value", "%s: %s", name, s)
	}
}

// P04: everything can be in progress at once.
func runTogether(e *Env, p *CallPlan, spec bool) {
	e.Cfg.NCPU = int32(p.NCPU)
	for i := range p.Fns {
		p.Fns[i].Block = true
	}
	st := newCall(e, p)
	e.Exec(func() { st.call(spec) }, func(k int) bool {
		if k > 0 {
			return false
		}
		sim.Log(kGate, 0, 0, 0)
		sim.GateOpen(0)
		return true
	})
	if e.Failed() {
		return
	}
	name := "parallel." + formNames[p.Form]
	if spec {
		name = "speculative." + formNames[p.Form]
	}
	gate := false
	for i := range e.Log {
		switch e.Log[i].Kind {
		case kGate:
			gate = true
		case kStart:
			if gate && e.Log[i].B > e.Log[i].A {
				e.Fail("serialised", "%s: the invocation for [%d,%d) is started only after another one has ended, so functions that wait for each other never finish", name, e.Log[i].A, e.Log[i].B)
			}
		}
	}
	e.checkPartition(p, false)
	e.Probe("several_blocked", len(e.batches()) > 2)
}

// PrefixPlan is a call of parallel.PrefixSum.
type PrefixPlan struct {
	Len, NCPU int
	Str       bool
}

func runPrefix(e *Env, p *PrefixPlan) {
	e.Cfg.NCPU = int32(p.NCPU)
	var ints []int
	var strs []string
	// The slices are parts of larger arrays.
	for i := 0; i < p.Len+2; i++ {
		ints = append(ints, sum(i, i+1))
		strs = append(strs, letter(i))
	}
	ints0, strs0 := slices.Clone(ints), slices.Clone(strs)
	var ri []int
	var rs []string
	raised := true
	e.Exec(func() {
		defer func() {
			if raised {
				if v := recover(); v != nil {
					sim.Log(kRaised, 0, 0, 0)
				}
			}
		}()
		if p.Str {
			rs = parallel.PrefixSum(strs[:p.Len])
		} else {
			ri = parallel.PrefixSum(ints[:p.Len])
		}
		raised = false
	}, nil)
	if e.Failed() {
		return
	}
	if raised {
		e.Fail("panic", "PrefixSum panics for a slice of length %d", p.Len)
		return
	}
	if p.Str {
		if len(rs) != p.Len {
			e.Fail("prefix", "PrefixSum returns %d elements for %d", len(rs), p.Len)
			return
		}
		for i := range rs {
			if want := letters(0, i+1); rs[i] != want {
				e.Fail("prefix", "PrefixSum[string] of %d elements with %d CPUs: element %d is %q, want %q", p.Len, p.NCPU, i, rs[i], want)
				return
			}
		}
	} else {
		if len(ri) != p.Len {
			e.Fail("prefix", "PrefixSum returns %d elements for %d", len(ri), p.Len)
			return
		}
		for i := range ri {
			if want := sum(0, i+1); ri[i] != want {
				e.Fail("prefix", "PrefixSum of %d elements with %d CPUs: element %d is %d, want %d", p.Len, p.NCPU, i, ri[i], want)
				return
			}
		}
	}
	for i := range ints {
		if ints[i] != ints0[i] || strs[i] != strs0[i] {
			where := "its argument"
			if i >= p.Len {
				where = "what follows its argument"
			}
			e.Fail("prefix-argument", "PrefixSum of %d elements changes element %d of %s", p.Len, i, where)
			return
		}
	}
	e.Probe("not_power_of_two", p.Len&(p.Len-1) != 0)
}

// ArgsPlan is a range call with invalid arguments.
type ArgsPlan struct {
	Form, Low, High, N int
	Spec               bool
}

func runArgs(e *Env, p *ArgsPlan) {
	calls := 0
	raised := true
	var v any
	e.Exec(func() {
		defer func() {
			if raised {
				v = recover()
			}
		}()
		b := func(a, b int) bool { calls++; return false }
		if p.Spec {
			switch p.Form {
			case fRange:
				speculative.Range(p.Low, p.High, p.N, b)
			case fRangeAnd:
				speculative.RangeAnd(p.Low, p.High, p.N, b)
			case fRangeOr:
				speculative.RangeOr(p.Low, p.High, p.N, b)
			default:
				speculative.RangeReduce(p.Low, p.High, p.N, func(a, b int) (int, bool) { calls++; return 0, false }, func(x, y int) (int, bool) { return x + y, false })
			}
		} else {
			i := func(a, b int) int { calls++; return 0 }
			switch p.Form {
			case fRange:
				parallel.Range(p.Low, p.High, p.N, func(a, b int) { calls++ })
			case fRangeAnd:
				parallel.RangeAnd(p.Low, p.High, p.N, b)
			case fRangeOr:
				parallel.RangeOr(p.Low, p.High, p.N, b)
			case fRangeReduce:
				parallel.RangeReduce(p.Low, p.High, p.N, i, func(x, y int) int { return x + y })
			case fRangeReduceSum:
				parallel.RangeReduceSum(p.Low, p.High, p.N, i)
			default:
				parallel.RangeReduceProduct(p.Low, p.High, p.N, i)
			}
		}
		raised = false
	}, nil)
	if e.Failed() {
		return
	}
	_ = v
	bad := p.High < p.Low || p.N < 0
	if bad && !raised {
		e.Fail("accepted", "%s(%d, %d, %d) does not panic", formNames[p.Form], p.Low, p.High, p.N)
	}
	if bad && calls > 0 {
		e.Fail("accepted", "%s(%d, %d, %d) calls the range function", formNames[p.Form], p.Low, p.High, p.N)
	}
}

// HugePlan is a call for a range of any size: the functions only report their
// bounds.
type HugePlan struct {
	Form, Low, Size, N, NCPU int
	Spec                     bool
}

func runHuge(e *Env, p *HugePlan, even bool) {
	e.Cfg.NCPU = int32(p.NCPU)
	lo, hi := p.Low, p.Low+p.Size
	var res string
	raised := true
	var v any
	body := func(a, b int) {
		sim.Log(kStart, int64(a), int64(b), 0)
		sim.Work(1)
	}
	str := func(a, b int) string { return fmt.Sprintf("%d:%d;", a, b) }
	cat := func(x, y string) string { return x + y }
	e.Exec(func() {
		defer func() {
			if raised {
				v = recover()
			}
		}()
		if p.Spec {
			no := func(a, b int) bool { body(a, b); return false }
			switch p.Form {
			case fRange:
				speculative.Range(lo, hi, p.N, no)
			case fRangeAnd:
				speculative.RangeAnd(lo, hi, p.N, func(a, b int) bool { return !no(a, b) })
			case fRangeOr:
				speculative.RangeOr(lo, hi, p.N, no)
			default:
				res, _ = speculative.RangeReduce(lo, hi, p.N, func(a, b int) (string, bool) { body(a, b); return str(a, b), false },
					func(x, y string) (string, bool) { return x + y, false })
			}
		} else {
			switch p.Form {
			case fRange:
				parallel.Range(lo, hi, p.N, body)
			case fRangeAnd:
				parallel.RangeAnd(lo, hi, p.N, func(a, b int) bool { body(a, b); return true })
			case fRangeOr:
				parallel.RangeOr(lo, hi, p.N, func(a, b int) bool { body(a, b); return false })
			case fRangeReduce:
				res = parallel.RangeReduce(lo, hi, p.N, func(a, b int) string { body(a, b); return str(a, b) }, cat)
			case fRangeReduceStr:
				res = parallel.RangeReduceSum(lo, hi, p.N, func(a, b int) string { body(a, b); return str(a, b) })
			case fRangeReduceSum:
				parallel.RangeReduceSum(lo, hi, p.N, func(a, b int) int { body(a, b); return 0 })
			default:
				parallel.RangeReduceProduct(lo, hi, p.N, func(a, b int) int { body(a, b); return 1 })
			}
		}
		raised = false
	}, nil)
	if e.Failed() {
		return
	}
	name := fmt.Sprintf("%s(%d, %d, %d)", formNames[p.Form], lo, hi, p.N)
	if raised {
		e.Fail("panic", "%s panics although no function does: %.200v", name, v)
		return
	}
	next := lo
	var want strings.Builder
	bs := e.batches()
	for _, b := range bs {
		if b[0] != next || b[1] <= b[0] || b[1] > hi {
			e.Fail("partition", "%s: the invocations do not partition the range: [%d,%d) follows on %d", name, b[0], b[1], next)
			return
		}
		next = b[1]
		want.WriteString(str(b[0], b[1]))
	}
	if next != hi {
		e.Fail("missed", "%s: no invocation gets %d", name, next)
		return
	}
	if p.N > 0 && len(bs) > p.N {
		e.Fail("too-many-batches", "%s: %d invocations for %d batches", name, len(bs), p.N)
	}
	if (p.Form == fRangeReduce || p.Form == fRangeReduceStr) && res != want.String() {
		e.Fail("result", "%s: the results are not joined from left to right: %.200s", name, res)
	}
	e.Probe("several_batches", len(bs) > 2)
	if even {
		// The size is divided by n; n=0 stands for at least one batch per CPU.
		n := p.N
		if n == 0 {
			n = p.NCPU
		}
		n = min(n, p.Size)
		most := (p.Size-1)/n + 1
		for _, b := range bs {
			if b[1]-b[0] > most {
				e.Fail("uneven", "%s: a batch of %d elements, [%d,%d), where dividing the %d elements by %d gives batches of %d (%d CPUs)", name, b[1]-b[0], b[0], b[1], p.Size, n, most, p.NCPU)
				return
			}
		}
		e.Probe("batch_per_element", len(bs) == p.Size)
		e.Probe("odd_n", n&(n-1) != 0)
	}
}

// genEven favours sizes that are not much larger than the number of batches.
func genEven(r *Rand) *HugePlan {
	p := genHuge(r, r.P(2))
	if p.Spec && p.Form > fRangeReduce {
		p.Form = fRangeReduce
	}
	if r.P(3) {
		return p
	}
	p.N = r.Pick(0, r.In(1, 10), r.In(1, 40), r.In(1, 150))
	p.Size = r.Pick(r.In(1, 10), r.In(1, 200), p.N+r.In(0, p.N/4+2), max(1, p.N*r.In(1, 5)+r.In(-2, 2)))
	p.Low = r.Pick(0, 1, r.N(1000), math.MaxInt-p.Size, -r.N(p.Size+1), -r.N(1000), math.MinInt)
	if r.P(6) {
		p.NCPU = cpus(r.In(16, 100))
	}
	return p
}

func genHuge(r *Rand, spec bool) *HugePlan {
	p := &HugePlan{Form: fRange + r.N(nForms-fRange), NCPU: cpus(r.In(1, 16)), Spec: spec}
	bits := r.In(1, 62)
	p.Size = 1 + int(r.U64()>>(64-uint(bits)))
	p.Low = r.Pick(0, 0, 1, r.N(1000), math.MaxInt-p.Size, r.N(math.MaxInt-p.Size), -r.N(1000), -p.Size/2, math.MinInt)
	p.N = r.Pick(0, 1, 2, 3, 7, r.N(17), r.N(65), r.N(300))
	if r.P(6) {
		p.NCPU = cpus(r.In(16, 100))
	}
	if r.P(40) {
		p.N = r.In(300, 3000)
	}
	return p
}

func normHuge(p *HugePlan) {
	p.Form = clamp(p.Form, fRange, nForms-1)
	if p.Spec && p.Form > fRangeReduce {
		p.Form = fRangeReduce
	}
	p.NCPU, p.N = clamp(p.NCPU, 1, 128), clamp(p.N, 0, 3000)
	p.Size = max(p.Size, 1)
	if p.Low > math.MaxInt-p.Size {
		p.Low = 0
	}
}

func init() {
	huge := func(e *Env, p *HugePlan) { runHuge(e, p, false) }
	add("P05", "division", 10, false, genEven, normHuge, func(e *Env, p *HugePlan) { runHuge(e, p, true) })
	for _, prop := range []string{"P01", "P02"} {
		add(prop, "huge", 1, false, func(r *Rand) *HugePlan { return genHuge(r, false) }, normHuge, huge)
	}
	add("S01", "huge", 1, false, func(r *Rand) *HugePlan { return genHuge(r, true) }, normHuge, huge)
	decide := func(p *CallPlan, r *Rand) {
		switch p.Form {
		case fAnd, fOr, fRangeAnd, fRangeOr:
			if r.P(2) && len(p.Fns) > 0 {
				p.Fns[r.N(len(p.Fns))].Decide = true
			}
		}
	}
	// Deciding and panicking are meaningless for the other forms.
	strip := func(f func(*CallPlan), noPanic bool) func(*CallPlan) {
		return func(p *CallPlan) {
			f(p)
			for i := range p.Fns {
				switch p.Form {
				case fAnd, fOr, fRangeAnd, fRangeOr:
				default:
					p.Fns[i].Decide = false
				}
				p.Fns[i].Block = false
				if noPanic {
					p.Fns[i].Panic = 0
				}
			}
		}
	}
	genJoin := func(r *Rand) *CallPlan {
		p := genCall(r, parForms, 0, 14)
		decide(p, r)
		return p
	}
	for i, prop := range []string{"P01", "P02"} {
		add(prop, "calls", 10, true, genJoin, strip(normCall(parForms, 0, false), true), func(e *Env, p *CallPlan) { runJoin(e, p, i+1) })
	}
	add("P02", "prefix", 3, true, func(r *Rand) *PrefixPlan {
		if r.P(60) {
			return &PrefixPlan{r.In(500, 4200), cpus(r.In(1, 40)), false}
		}
		return &PrefixPlan{r.Pick(r.N(34), r.N(34), r.N(34), r.N(34), r.N(34), r.N(34), r.N(34), r.N(500)), cpus(r.In(1, 5)), r.P(2)}
	},
		func(p *PrefixPlan) { p.Len, p.NCPU = clamp(p.Len, 0, 5000), clamp(p.NCPU, 1, 64) }, runPrefix)
	add("P02", "arguments", 1, false, func(r *Rand) *ArgsPlan {
		p := &ArgsPlan{Form: fRange + r.N(6), Low: r.In(-4, 5), High: r.In(-4, 5), N: r.In(-3, 3)}
		if r.P(3) {
			p.Form, p.Spec = specForms[4+r.N(4)], true
		}
		if r.P(4) {
			p.Low, p.High = math.MaxInt-r.N(4), math.MinInt+r.N(4)
		}
		return p
	}, func(p *ArgsPlan) {
		if p.Form < fRange || p.Form > fRangeReduceProduct || p.Form == fRangeReduceStr {
			p.Form = fRange
		}
	}, runArgs)
	add("P03", "panics", 10, true, func(r *Rand) *CallPlan {
		p := genCall(r, parForms, 1, 12)
		k := r.Pick(1, 1, 2, 2, 3, 5)
		for i := 0; i < k; i++ {
			p.Fns[r.N(len(p.Fns))].Panic = r.In(1, 6)
		}
		decide(p, r)
		return p
	}, strip(normCall(parForms, 1, false), false), runPanics)
	add("P04", "together", 10, false, func(r *Rand) *CallPlan { return genCall(r, parForms, 1, 14) },
		strip(normCall(parForms, 1, false), true), func(e *Env, p *CallPlan) { runTogether(e, p, false) })
	specNorm := normCall(specForms, 1, true)
	add("P04", "together-speculative", 6, false, func(r *Rand) *CallPlan { return genCall(r, specForms, 1, 14) },
		func(p *CallPlan) {
			specNorm(p)
			p.JoinTrue = false
			for i := range p.Fns {
				f := &p.Fns[i]
				f.Decide, f.Panic, f.Block = false, 0, false
			}
		}, func(e *Env, p *CallPlan) { runTogether(e, p, true) })
}
