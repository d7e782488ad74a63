package main

import (
	"sort"

	psortsmall "github.com/intel/forGoParallel/internal/zzverif/psortsmall"
	"github.com/intel/forGoParallel/internal/zzverif/sim"
	"github.com/intel/forGoParallel/psort"
)

// SortParPlan is a call of package psort on a collection whose methods wait
// until nothing else can make progress.
type SortParPlan struct {
	Call  int // 0: Sort, 1: StableSort, 2: IsSorted, 3: StableSort, merging
	Small bool
	N     int
	Seed  uint64
	Block int // of the elements that come from one quarter in a row, when merging
}

const kAssign = 26 // a range is assigned; A: round, B: elements

func init() { kindNames[kAssign] = "assign" }

// Sizes that are well above the thresholds of the package.
const (
	sortParSmall, stableParSmall = 40 * 20, 96 * 20
	sortParReal, stableParReal   = 1280 * 20, 12288 * 10
)

type parColl struct {
	v      []int
	p      *SortParPlan
	round  *int
	assign *int
	leaf   *int // largest sequential part
	temp   bool
}

func (c *parColl) hold() { sim.GateWait(*c.round % 200) }

func (c *parColl) Len() int { return len(c.v) }

func (c *parColl) Less(i, j int) bool {
	if c.p.Call == 2 && *c.round == 0 {
		sim.Log(kStart, int64(i), int64(j), 0)
		// The comparisons that the caller makes itself in advance are
		// few; those of the different parts meet at the gate.
		if i > len(c.v)/64 {
			c.hold()
		}
	}
	return c.v[i] < c.v[j]
}

func (c *parColl) Swap(i, j int) { c.v[i], c.v[j] = c.v[j], c.v[i] }

func (c *parColl) SequentialSort(i, j int) {
	sim.Log(kStart, int64(i), int64(j), 0)
	*c.leaf = max(*c.leaf, j-i)
	if c.p.Call < 2 && j > i {
		c.hold()
	}
	sort.Ints(c.v[i:j])
	sim.Log(kEnd, int64(i), int64(j), 0)
}

func (c *parColl) newTemp() *parColl {
	t := *c
	t.v, t.temp = make([]int, len(c.v)), true
	return &t
}

func (c *parColl) assigner(src *parColl) func(i, j, n int) {
	return func(i, j, n int) {
		if n > 0 && c.p.Call == 3 {
			*c.assign++
			sim.Log(kAssign, int64(*c.round), int64(n), 0)
			c.hold()
		}
		copy(c.v[i:i+n], src.v[j:j+n])
	}
}

type parReal struct{ *parColl }

func (c parReal) NewTemp() psort.StableSorter { return parReal{c.newTemp()} }
func (c parReal) Assign(s psort.StableSorter) func(i, j, n int) {
	return c.assigner(s.(parReal).parColl)
}

type parSmall struct{ *parColl }

func (c parSmall) NewTemp() psortsmall.StableSorter { return parSmall{c.newTemp()} }
func (c parSmall) Assign(s psortsmall.StableSorter) func(i, j, n int) {
	return c.assigner(s.(parSmall).parColl)
}

func runSortPar(e *Env, p *SortParPlan) {
	e.Cfg.MaxSteps = 5e6 + uint64(p.N)*4000
	round, assign, leaf := 0, 0, 0
	c := &parColl{v: make([]int, p.N), p: p, round: &round, assign: &assign, leaf: &leaf}
	r := &Rand{p.Seed}
	for i := range c.v {
		c.v[i] = i
	}
	switch p.Call {
	case 0, 1:
		for i := len(c.v) - 1; i > 0; i-- {
			j := r.N(i + 1)
			c.v[i], c.v[j] = c.v[j], c.v[i]
		}
	case 3:
		// The quarters are sorted, and blocks of them alternate in the result.
		q := p.N / 4
		block := max(p.N/400*p.Block, 1)
		for i := range c.v {
			k := min(i/q, 3)
			x := i - k*q
			c.v[i] = (x/block*4+k)*block + x%block
			if k == 3 && x >= q {
				c.v[i] = 4*p.N + x
			}
		}
	}
	res, ended := false, false
	most := 0
	e.Exec(func() {
		switch {
		case p.Call == 0 && p.Small:
			psortsmall.Sort(parSmall{c})
		case p.Call == 0:
			psort.Sort(parReal{c})
		case p.Call == 2 && p.Small:
			res = psortsmall.IsSorted(parSmall{c})
		case p.Call == 2:
			res = psort.IsSorted(parReal{c})
		case p.Small:
			psortsmall.StableSort(parSmall{c})
		default:
			psort.StableSort(parReal{c})
		}
		ended = true
		sim.Log(kReturn, 0, 0, 0)
	}, func(k int) bool {
		n := sim.GateWaiting(round % 200)
		if n == 0 {
			return false
		}
		most = max(most, n)
		sim.Log(kGate, int64(n), 0, 0)
		sim.GateClose((round + 100) % 200)
		old := round
		round++
		if p.Call < 2 {
			// Whatever is not yet in progress is not held any more, and counted as late.
			for i := 0; i < 100; i++ {
				sim.GateOpen((old + i) % 200)
			}
			return k < 50
		}
		sim.GateOpen(old % 200)
		return true
	})
	if e.Failed() {
		return
	}
	name := [...]string{"psort.Sort", "psort.StableSort", "psort.IsSorted", "psort.StableSort"}[p.Call]
	if !ended {
		e.Fail("unfinished", "%s does not return", name)
		return
	}
	switch p.Call {
	case 2:
		if !res {
			e.Fail("result", "%s of a sorted collection is false", name)
			return
		}
		if most < 2 {
			e.Fail("serial", "%s of %d elements: no two comparisons are ever in progress at the same time", name, p.N)
		}
		return
	case 3:
		if leaf > p.N/2 {
			e.Fail("undivided", "%s of %d elements: one sequential part has %d elements", name, p.N, leaf)
			return
		}
		// The last merge assigns all elements once more.
		last, rounds, left := 0, map[int64]bool{}, p.N
		for i := len(e.Log) - 1; i >= 0 && left > 0; i-- {
			if ev := &e.Log[i]; ev.Kind == kAssign {
				last++
				rounds[ev.A] = true
				left -= int(ev.B)
			}
		}
		if last < 3*len(rounds) {
			e.Fail("serial-last-merge", "%s of %d elements: the last merge takes %d assignments of ranges in %d successive rounds, so that on average fewer than 3 of them are in progress at the same time", name, p.N, last, len(rounds))
		} else if assign < 3*round {
			e.Fail("serial-merge", "%s of %d elements: merging takes %d assignments of ranges in %d successive rounds, so that on average fewer than 3 of them are in progress at the same time", name, p.N, assign, round)
		}
	default:
		if leaf > p.N/2 {
			e.Fail("undivided", "%s of %d elements in random order: one sequential part has %d elements", name, p.N, leaf)
			return
		}
		if most < 2 {
			e.Fail("serial", "%s of %d elements in random order: no two sequential parts are ever in progress at the same time", name, p.N)
			return
		}
		gate := false
		for i := range e.Log {
			switch ev := &e.Log[i]; ev.Kind {
			case kGate:
				gate = true
			case kStart:
				if gate && ev.B > ev.A {
					e.Fail("serialised", "%s of %d elements in random order: the sequential part [%d,%d) is started only after another one has ended, so parts that wait for each other never finish", name, p.N, ev.A, ev.B)
					return
				}
			}
		}
	}
	if !sort.IntsAreSorted(c.v) {
		e.Fail("unsorted", "%s of %d elements: the result is not sorted", name, p.N)
	}
	e.Probe("several_in_progress", most > 3)
}

func init() {
	add("Q04", "sort", 10, false, func(r *Rand) *SortParPlan {
		p := &SortParPlan{Call: r.N(4), Small: !r.P(10), Seed: r.U64(), Block: r.In(1, 4)}
		p.N = 1 << r.N(20)
		p.N += r.N(p.N)
		return p
	}, func(p *SortParPlan) {
		p.Call = clamp(p.Call, 0, 3)
		if psortsmall.ZZScaled < 2 {
			p.Small = false
		}
		least := stableParReal
		switch {
		case p.Small && (p.Call == 0 || p.Call == 2):
			least = sortParSmall
		case p.Small:
			least = stableParSmall
		case p.Call == 0 || p.Call == 2:
			least = sortParReal
		}
		if p.Call == 3 {
			least *= 2
		}
		p.N = least + max(p.N, 0)%least
		p.Block = clamp(p.Block, 1, 4)
	}, runSortPar)
}
