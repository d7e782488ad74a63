package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	psortsmall "github.com/intel/forGoParallel/internal/zzverif/psortsmall"
	"github.com/intel/forGoParallel/internal/zzverif/sim"
	"github.com/intel/forGoParallel/psort"
)

// Event kinds of package psort.
const (
	kConflict = 20 + iota // two operations use one element at the same time; A: element
	kLate                 // the collection was used after the call had returned
	kUnset                // an element of a temporary collection is used before anything was assigned to it
)

func init() {
	kindNames[kConflict] = "conflicting-access"
	kindNames[kLate] = "access-after-return"
	kindNames[kUnset] = "access-before-assignment"
}

// SortPlan is one call of package psort.
type SortPlan struct {
	Call    int // 0: Sort, 1: StableSort, 2: IsSorted
	Type    int // 0: user-defined collection; 1: IntSlice; 2: Float64Slice; 3: StringSlice
	N       int
	Pattern int
	Keys    int // number of different keys
	Seed    uint64
	Yield   int // the collection yields in one of so many operations
	PanicAt int // the k-th comparison panics
	NaN     bool
	Odd     bool  // elements of extreme values, in the middle of a larger array
	Defects []int // for patterns that are sorted except for these positions
}

const nPatterns = 9

func (p *SortPlan) keys() []int {
	r := &Rand{p.Seed}
	a := make([]int, p.N)
	k := max(p.Keys, 1)
	var blocks []int
	if p.Pattern == 8 {
		blocks = make([]int, r.Pick(2, 3, 4, 4, 4, 8, 16))
		for i := range blocks {
			j := r.N(i + 1)
			blocks[i], blocks[j] = blocks[j], i
		}
	}
	for i := range a {
		switch p.Pattern {
		case 0, 1:
			a[i] = r.N(k)
		case 2: // sorted
			a[i] = i * k / max(p.N, 1)
		case 3: // reversed
			a[i] = (p.N - i) * k / max(p.N, 1)
		case 4: // organ pipe
			a[i] = min(i, p.N-i)
		case 5: // saw tooth
			a[i] = i % k
		case 6: // sorted with some random elements
			a[i] = i
			if r.P(40) {
				a[i] = r.N(p.N)
			}
		case 8: // blocks of disjoint keys
			a[i] = blocks[i*len(blocks)/p.N]*k + r.N(k)
		case 7: // sorted except for the defects
			a[i] = i * k / max(p.N, 1)
		}
	}
	if p.Pattern == 7 {
		for _, d := range p.Defects {
			if d >= 0 && d < len(a) {
				a[d]--
				if k > p.N {
					a[d]-- // less than its neighbour
				}
			}
		}
	}
	return a
}

// odd maps the keys to integers of any size, in the same order.
func odd(keys []int) []int {
	if len(keys) == 0 {
		return nil
	}
	lo, hi := keys[0], keys[0]
	for _, k := range keys {
		lo, hi = min(lo, k), max(hi, k)
	}
	step := math.MaxUint64 / (uint64(hi-lo) + 1)
	a := make([]int, len(keys))
	for i, k := range keys {
		a[i] = int(uint64(k-lo)*step ^ 1<<63)
	}
	return a
}

// guarded is a copy of a inside a larger array.
func guarded[T any](a []T, guard T, left, right int) (all, part []T) {
	for range left {
		all = append(all, guard)
	}
	all = append(all, a...)
	for range right {
		all = append(all, guard)
	}
	return all, all[left : left+len(a)]
}

func intact[T comparable](all []T, guard T, left, n int) bool {
	for i, x := range all {
		if (i < left || i >= left+n) && x != guard {
			return false
		}
	}
	return true
}

type rec struct{ key, id int }

// recs is a user-defined collection that notices overlapping uses of one element.
type recs struct {
	v    []rec
	busy []int16
	set  []bool // of a temporary collection
	st   *sortState
}

type sortState struct {
	logger
	p      *SortPlan
	stable bool
	closed bool
	ops    uint32
}

func newRecs(v []rec, st *sortState) *recs { return &recs{v, make([]int16, len(v)), nil, st} }

func (c *recs) pause() {
	if y := uint32(c.st.p.Yield); y > 0 {
		if y == 1 || sim.Steps()%uint64(y) == 0 {
			sim.Yield()
		}
	}
}

// need checks that the elements have been assigned to.
func (c *recs) need(i, n int) {
	if raceOn || c.set == nil {
		return
	}
	for k := i; k < i+n; k++ {
		if !c.set[k] {
			c.st.log(kUnset, int64(k), 0, 0)
			return
		}
	}
}

func (c *recs) rd(i, n int) {
	if raceOn {
		return
	}
	c.need(i, n)
	if c.st.closed {
		c.st.log(kLate, int64(i), 0, 0)
	}
	for k := i; k < i+n; k++ {
		if c.busy[k] < 0 {
			c.st.log(kConflict, int64(k), 0, 0)
		}
		c.busy[k]++
	}
}

func (c *recs) rdEnd(i, n int) {
	if raceOn {
		return
	}
	for k := i; k < i+n; k++ {
		c.busy[k]--
	}
}

func (c *recs) wr(i, n int) {
	if raceOn {
		return
	}
	if c.st.closed {
		c.st.log(kLate, int64(i), 1, 0)
	}
	for k := i; k < i+n; k++ {
		if c.busy[k] != 0 {
			c.st.log(kConflict, int64(k), 1, 0)
		}
		c.busy[k] -= 1000
	}
}

func (c *recs) wrEnd(i, n int) {
	if raceOn {
		return
	}
	for k := i; k < i+n; k++ {
		c.busy[k] += 1000
	}
}

func (c *recs) Len() int { return len(c.v) }

func (c *recs) Less(i, j int) bool {
	_, _ = c.v[i], c.v[j]
	c.rd(i, 1)
	c.rd(j, 1)
	c.pause()
	if c.st.p.PanicAt > 0 && sim.Count(0, 1) == int64(c.st.p.PanicAt) {
		c.rdEnd(i, 1)
		c.rdEnd(j, 1)
		raise(2, 0)
	}
	r := c.v[i].key < c.v[j].key
	c.rdEnd(i, 1)
	c.rdEnd(j, 1)
	return r
}

func (c *recs) Swap(i, j int) {
	_, _ = c.v[i], c.v[j]
	c.need(i, 1)
	c.need(j, 1)
	c.wr(i, 1)
	if i != j {
		c.wr(j, 1)
	}
	c.pause()
	c.v[i], c.v[j] = c.v[j], c.v[i]
	if i != j {
		c.wrEnd(j, 1)
	}
	c.wrEnd(i, 1)
}

func (c *recs) SequentialSort(i, j int) {
	s := c.v[i:j]
	c.need(i, j-i)
	c.wr(i, j-i)
	c.pause()
	if c.st.stable {
		sort.SliceStable(s, func(a, b int) bool { return s[a].key < s[b].key })
	} else {
		sort.Slice(s, func(a, b int) bool { return s[a].key < s[b].key })
	}
	c.pause()
	c.wrEnd(i, j-i)
}

func (c *recs) temp() *recs {
	c.pause()
	if c.st.closed && !raceOn {
		c.st.log(kLate, 0, 2, 0)
	}
	t := newRecs(make([]rec, len(c.v)), c.st)
	if !raceOn {
		t.set = make([]bool, len(c.v))
	}
	return t
}

func (c *recs) assign(src *recs) func(i, j, n int) {
	if c.st.closed && !raceOn {
		c.st.log(kLate, 0, 2, 0)
	}
	return func(i, j, n int) {
		d, s := c.v[i:i+n], src.v[j:j+n]
		c.wr(i, n)
		src.rd(j, n)
		c.pause()
		copy(d, s)
		if c.set != nil {
			for k := i; k < i+n; k++ {
				c.set[k] = true
			}
		}
		src.rdEnd(j, n)
		c.wrEnd(i, n)
	}
}

type recsReal struct{ *recs }

func (c recsReal) NewTemp() psort.StableSorter { return recsReal{c.temp()} }
func (c recsReal) Assign(s psort.StableSorter) func(i, j, n int) {
	return c.assign(s.(recsReal).recs)
}

type recsSmall struct{ *recs }

func (c recsSmall) NewTemp() psortsmall.StableSorter { return recsSmall{c.temp()} }
func (c recsSmall) Assign(s psortsmall.StableSorter) func(i, j, n int) {
	return c.assign(s.(recsSmall).recs)
}

var sortNames = [3]string{"Sort", "StableSort", "IsSorted"}

// runSort performs the call and checks its result.
func runSort(small, checkStable bool) func(e *Env, p *SortPlan) {
	return func(e *Env, p *SortPlan) {
		e.Cfg.MaxSteps = 3e6 + uint64(p.N)*4000
		keys := p.keys()
		st := &sortState{logger: e.logger, p: p, stable: p.Call == 1}
		name := "psort." + sortNames[p.Call]
		v := make([]rec, len(keys))
		for i, k := range keys {
			v[i] = rec{k, i}
		}
		var fs []float64
		var ss []string
		switch p.Type {
		case 2:
			for i, k := range keys {
				x := float64(k) / 3
				switch {
				case k%11 == 3 && p.NaN:
					x = math.NaN()
				case k%13 == 5 && p.NaN:
					x = math.Inf(k%2*2 - 1)
				case k == 0 && i%2 == 0:
					x = math.Copysign(0, -1)
				}
				fs = append(fs, x)
			}
		case 3:
			for _, k := range keys {
				s := fmt.Sprintf("%06d", k)[:3+k%4]
				if p.Odd {
					// any bytes
					b := []byte(s)
					for i := range b {
						b[i] = 255 - ('9'-b[i])*25
					}
					if s = string(b); k%9 == 8 {
						s = ""
					}
				}
				ss = append(ss, s)
			}
		}
		fs0 := append([]float64(nil), fs...)
		ss0 := append([]string(nil), ss...)
		ints0 := keys
		left, right := 0, 0
		if p.Odd {
			ints0 = odd(keys)
			left = int(p.Seed % 3)
			right = int(p.Seed>>8) % 2 * (len(keys) + 2)
		}
		allInts, ints := guarded(ints0, 77, left, right)
		allFs, fs := guarded(fs0, 0.77, left, right)
		allSs, ss := guarded(ss0, "guard", left, right)
		r := newRecs(v, st)
		var res, ended bool
		var raised any
		e.Exec(func() {
			defer func() {
				if !ended {
					raised = recover()
					st.log(kRaised, 0, 0, 0)
				}
			}()
			switch {
			case p.Type == 0 && small:
				switch p.Call {
				case 0:
					psortsmall.Sort(recsSmall{r})
				case 1:
					psortsmall.StableSort(recsSmall{r})
				default:
					res = psortsmall.IsSorted(recsSmall{r})
				}
			case p.Type == 0:
				switch p.Call {
				case 0:
					psort.Sort(recsReal{r})
				case 1:
					psort.StableSort(recsReal{r})
				default:
					res = psort.IsSorted(recsReal{r})
				}
			case p.Type == 1 && small:
				switch p.Call {
				case 0:
					psortsmall.Sort(psortsmall.IntSlice(ints))
				case 1:
					psortsmall.StableSort(psortsmall.IntSlice(ints))
				default:
					res = psortsmall.IntsAreSorted(ints)
				}
			case p.Type == 1:
				switch p.Call {
				case 0:
					psort.Sort(psort.IntSlice(ints))
				case 1:
					psort.StableSort(psort.IntSlice(ints))
				default:
					res = psort.IntsAreSorted(ints)
				}
			case p.Type == 2 && small:
				switch p.Call {
				case 0:
					psortsmall.Sort(psortsmall.Float64Slice(fs))
				case 1:
					psortsmall.StableSort(psortsmall.Float64Slice(fs))
				default:
					res = psortsmall.Float64sAreSorted(fs)
				}
			case p.Type == 2:
				switch p.Call {
				case 0:
					psort.Sort(psort.Float64Slice(fs))
				case 1:
					psort.StableSort(psort.Float64Slice(fs))
				default:
					res = psort.Float64sAreSorted(fs)
				}
			case small:
				switch p.Call {
				case 0:
					psortsmall.Sort(psortsmall.StringSlice(ss))
				case 1:
					psortsmall.StableSort(psortsmall.StringSlice(ss))
				default:
					res = psortsmall.StringsAreSorted(ss)
				}
			default:
				switch p.Call {
				case 0:
					psort.Sort(psort.StringSlice(ss))
				case 1:
					psort.StableSort(psort.StringSlice(ss))
				default:
					res = psort.StringsAreSorted(ss)
				}
			}
			ended = true
			st.log(kReturn, 0, 0, 0)
			if raceOn {
				// The caller may use its data again.
				for i := range v {
					v[i].id += 0
					v[i].key += 0
				}
				touch(ints)
				touch(fs)
				touch(ss)
			} else {
				st.closed = true
			}
		}, nil)
		if e.Failed() {
			return
		}
		par := e.Out.Created > 1
		e.Probe("parallel", par)
		if p.PanicAt > 0 && p.Type == 0 {
			happened := e.Count(kFault, nil) > 0
			e.Probe("comparison_panicked", happened)
			if !ended {
				if !happened || raisedBy(raised) != 0 {
					e.Fail("panic", "%s of %d elements panics: %.200v", name, p.N, raised)
				}
				return
			}
		} else if !ended {
			e.Fail("panic", "%s of %d elements panics: %.200v", name, p.N, raised)
			return
		}
		if n := e.Count(kConflict, nil); n > 0 && p.PanicAt == 0 {
			e.Fail("conflict", "%s of %d elements: two goroutines use one element of the collection at the same time and one of them changes it (%d times)", name, p.N, n)
			return
		}
		if n := e.Count(kUnset, nil); n > 0 && p.PanicAt == 0 {
			e.Fail("unset", "%s uses elements of a temporary collection before anything has been assigned to them", name)
			return
		}
		if n := e.Count(kLate, nil); n > 0 {
			e.Fail("access-after-return", "%s of %d elements still uses the collection after it has returned (%d times)", name, p.N, n)
			return
		}
		if !intact(allInts, 77, left, len(ints)) || !intact(allFs, 0.77, left, len(fs)) || !intact(allSs, "guard", left, len(ss)) {
			e.Fail("outside", "%s of %d elements changes elements of the array that are not part of the slice", name, p.N)
			return
		}
		if p.Call == 2 {
			var want bool
			switch p.Type {
			case 2:
				want = sort.Float64sAreSorted(fs)
			case 3:
				want = sort.StringsAreSorted(ss)
			default:
				want = sort.IntsAreSorted(ints0)
			}
			e.Probe("sorted", want)
			e.Probe("unsorted", !want)
			if res != want {
				e.Fail("result", "%s of %d elements (type %d) = %v, want %v", name, p.N, p.Type, res, want)
			}
			for i := range v {
				if v[i] != (rec{keys[i], i}) || len(fs) > 0 && math.Float64bits(fs[i]) != math.Float64bits(fs0[i]) || len(ss) > 0 && ss[i] != ss0[i] || ints[i] != ints0[i] {
					e.Fail("modified", "%s changes element %d", name, i)
					break
				}
			}
			return
		}
		switch p.Type {
		case 0:
			seen := make([]bool, p.N)
			for i := range v {
				if id := v[i].id; id < 0 || id >= p.N || seen[id] || keys[id] != v[i].key {
					e.Fail("permutation", "%s of %d elements: the result is not a permutation of the input (element %d: %v)", name, p.N, i, v[i])
					return
				}
				seen[v[i].id] = true
			}
			for i := 1; i < p.N; i++ {
				if v[i-1].key > v[i].key {
					e.Fail("unsorted", "%s of %d elements: element %d has key %d, element %d has key %d", name, p.N, i-1, v[i-1].key, i, v[i].key)
					return
				}
				if checkStable && p.Call == 1 && v[i-1].key == v[i].key && v[i-1].id > v[i].id {
					e.Fail("unstable", "%s of %d elements: elements %d and %d of the input are equal and were exchanged", name, p.N, v[i].id, v[i-1].id)
					return
				}
			}
		case 1:
			want := append([]int(nil), ints0...)
			sort.Ints(want)
			for i := range want {
				if want[i] != ints[i] {
					e.Fail("unsorted", "%s(IntSlice) of %d elements: element %d is %d, want %d", name, p.N, i, ints[i], want[i])
					return
				}
			}
		case 2:
			want := fs0
			sort.Stable(sort.Float64Slice(want))
			for i := range want {
				if want[i] != fs[i] && !(want[i] != want[i] && fs[i] != fs[i]) {
					e.Fail("unsorted", "%s(Float64Slice) of %d elements: element %d is %v, want %v", name, p.N, i, fs[i], want[i])
					return
				}
				if checkStable && p.Call == 1 && math.Signbit(want[i]) != math.Signbit(fs[i]) && want[i] == want[i] {
					e.Fail("unstable", "%s(Float64Slice) of %d elements: zeros of different sign were exchanged at %d", name, p.N, i)
					return
				}
			}
		case 3:
			want := ss0
			sort.Strings(want)
			for i := range want {
				if want[i] != ss[i] {
					e.Fail("unsorted", "%s(StringSlice) of %d elements: element %d is %q, want %q", name, p.N, i, ss[i], want[i])
					return
				}
			}
		}
	}
}

func touch[T any](a []T) {
	for i := range a {
		x := a[i]
		a[i] = x
	}
}

func init() {
	_ = strings.Builder{}
	gen := func(small bool, calls []int) func(r *Rand) *SortPlan {
		return func(r *Rand) *SortPlan {
			p := &SortPlan{Call: calls[r.N(len(calls))], Seed: r.U64(), Pattern: r.N(nPatterns)}
			if small {
				switch r.N(6) {
				case 0:
					p.N = r.N(60)
				case 1:
					p.N = r.Pick(39, 40, 41, 50, 79, 80, 81, 95, 96, 97, 160, 192, 384, 385, 400)
				case 2, 3:
					p.N = r.In(40, 200)
				case 4:
					p.N = r.In(96, 500)
					if r.P(12) {
						p.N = r.In(1200, 3000)
					}
				default:
					p.N = r.In(96, 1200)
				}
			} else {
				p.N = r.Pick(1279, 1280, 1281, 1300, 2559, 2560, 2561, r.In(1280, 6000), r.In(1280, 6000), r.In(5000, 12500), 12287, 12288, 12289, r.In(12288, 26000), 24577, 50000)
			}
			p.Keys = r.Pick(1, 2, 3, 5, 20, max(p.N/4, 1), p.N+1, 1000000)
			p.Type = r.Pick(0, 0, 0, 0, 1, 2, 3)
			p.Yield = r.Pick(0, 1, 1, 2, 7)
			p.NaN = r.P(2)
			p.Odd = r.P(2)
			if p.Pattern == 7 {
				for k := r.N(4); k > 0; k-- {
					d := r.N(max(p.N, 1))
					if r.P(3) {
						// around the places where ranges are likely to be split
						d = p.N*r.N(9)/8 + r.In(-2, 2)
					}
					p.Defects = append(p.Defects, d)
				}
				if r.P(2) {
					p.Keys = p.N + 1
				}
			}
			if p.Type == 0 && r.P(12) {
				p.PanicAt = 1 + r.N(p.N*4+1)
			}
			return p
		}
	}
	norm := func(maxN int, only ...int) func(p *SortPlan) {
		return func(p *SortPlan) {
			p.N = min(max(p.N, 0), maxN)
			ok := false
			for _, c := range only {
				ok = ok || c == p.Call
			}
			if !ok {
				p.Call = only[0]
			}
			p.Type = min(max(p.Type, 0), 3)
			p.Pattern = min(max(p.Pattern, 0), nPatterns-1)
			p.Keys = min(max(p.Keys, 1), 1<<30)
			p.Yield = max(p.Yield, 0)
			if p.Type != 0 {
				p.PanicAt = 0
			}
			p.PanicAt = max(p.PanicAt, 0)
		}
	}
	// Q01 sorted permutation, Q02 stability, Q03 IsSorted.
	add("Q01", "scaled", 40, true, gen(true, []int{0, 0, 0, 1, 1}), norm(3000, 0, 1), runSort(true, false))
	add("Q01", "real", 2, true, gen(false, []int{0, 0, 0, 1}), norm(60000, 0, 1), runSort(false, false))
	add("Q02", "scaled", 40, false, func(r *Rand) *SortPlan {
		p := gen(true, []int{1})(r)
		p.Type, p.PanicAt = r.Pick(0, 0, 0, 0, 2), 0
		p.Keys = r.Pick(1, 2, 3, 5, 10, 20, max(p.N/4, 1), p.N)
		return p
	}, norm(3000, 1), runSort(true, true))
	add("Q02", "real", 2, false, func(r *Rand) *SortPlan {
		p := gen(false, []int{1})(r)
		p.Type, p.PanicAt = 0, 0
		p.Keys = r.Pick(1, 2, 3, 5, 10, 20, max(p.N/4, 1))
		if r.P(2) {
			p.N = max(p.N, r.In(12288, 30000))
		}
		return p
	}, norm(60000, 1), runSort(false, true))
	genIs := func(small bool) func(r *Rand) *SortPlan {
		return func(r *Rand) *SortPlan {
			p := gen(small, []int{2})(r)
			p.PanicAt = 0
			if r.P(2) {
				p.Pattern = r.Pick(2, 7)
			}
			if p.Pattern == 7 && len(p.Defects) == 0 {
				p.Defects = append(p.Defects, r.N(max(p.N, 1)))
			}
			if p.N > 5000 && r.P(3) {
				// a single violation near an end of a large collection
				p.Pattern, p.Keys = 7, p.N+1
				p.Defects = []int{r.Pick(1, p.N-1, p.N-1, p.N-2, p.N-r.In(1, 40))}
			}
			return p
		}
	}
	add("Q03", "scaled", 40, true, genIs(true), norm(3000, 2), runSort(true, false))
	add("Q03", "real", 3, true, genIs(false), norm(60000, 2), runSort(false, false))
}
