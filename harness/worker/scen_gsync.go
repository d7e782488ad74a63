package main

import (
	"fmt"
	"slices"
	"strconv"

	"github.com/intel/forGoParallel/gsync"
	"github.com/intel/forGoParallel/internal/zzverif/sim"
)

// Event kinds of package gsync.
const (
	kInv    = 30 + iota // A: operation
	kRes                // A: operation
	kHeld               // Get returned an object somebody holds; A: object, B: holder
	kNil                // Get returned nil
	kNilNew             // the constructor returned nil
	kAlien
	kNew
	kGet
	kPut
)

func init() {
	for k, s := range map[uint32]string{kInv: "invoke", kRes: "response", kHeld: "object-held-twice", kNil: "nil-object", kNilNew: "constructor-returns-nil", kAlien: "foreign-object", kNew: "new-object", kGet: "get", kPut: "put"} {
		kindNames[k] = s
	}
}

const (
	oLoad = iota
	oStore
	oSwap
	oLoadOrStore
	oLoadAndDelete
	oDelete
	oCAS
	oCAD
	oRange
	nMapOps
)

var mapOpNames = [nMapOps]string{"Load", "Store", "Swap", "LoadOrStore", "LoadAndDelete", "Delete", "CompareAndSwap", "CompareAndDelete", "Range"}

// MOp is one operation on a map.
type MOp struct {
	Op, Key, A, B int
	In            []MOp // Range: one operation per visit
}

// MapPlan is a concurrent workload on one map.
type MapPlan struct {
	Types   int // 0: int/int, 1: any/any with nil, 2: string/pointer, 3: interface values that can be nil
	Init    []MOp
	Threads [][]MOp
}

type mapEv struct {
	op       MOp
	in       []*mapEv
	done     bool
	v        int // value read, -1: none
	ok       bool
	inv, res int
	thread   int
	seen     []int // Range: value per key, -1: not visited
	dup      int   // Range: key visited twice, or -1
	stopped  bool
}

const mapKeys, mapVals = 24, 4

// mapAPI hides the type parameters. Values and keys are small numbers.
type mapAPI struct {
	load        func(k int) (int, bool)
	store       func(k, v int)
	swap        func(k, v int) (int, bool)
	loadOrStore func(k, v int) (int, bool)
	loadAndDel  func(k int) (int, bool)
	del         func(k int)
	cas         func(k, o, n int) bool
	cad         func(k, o int) bool
	rng         func(f func(k, v int) bool)
}

func mkMap[K comparable, V any](key func(int) K, unkey func(K) int, val func(int) V, unval func(V) int) *mapAPI {
	m := new(gsync.Map[K, V])
	opt := func(v V, ok bool) (int, bool) {
		if !ok {
			return -1, false
		}
		return unval(v), true
	}
	return &mapAPI{
		load:  func(k int) (int, bool) { return opt(m.Load(key(k))) },
		store: func(k, v int) { m.Store(key(k), val(v)) },
		swap:  func(k, v int) (int, bool) { return opt(m.Swap(key(k), val(v))) },
		loadOrStore: func(k, v int) (int, bool) {
			x, ok := m.LoadOrStore(key(k), val(v))
			return unval(x), ok
		},
		loadAndDel: func(k int) (int, bool) { return opt(m.LoadAndDelete(key(k))) },
		del:        func(k int) { m.Delete(key(k)) },
		cas:        func(k, o, n int) bool { return m.CompareAndSwap(key(k), val(o), val(n)) },
		cad:        func(k, o int) bool { return m.CompareAndDelete(key(k), val(o)) },
		rng: func(f func(k, v int) bool) {
			m.Range(func(k K, v V) bool { return f(unkey(k), unval(v)) })
		},
	}
}

type cell struct{ val, check int }

type numErr int

func (n numErr) Error() string { return fmt.Sprint(int(n)) }

func newMapAPI(types int) *mapAPI {
	nilable := func(i int) any {
		if i == 0 {
			return nil
		}
		return i
	}
	unnil := func(x any) int {
		if x == nil {
			return 0
		}
		return x.(int)
	}
	switch types {
	case 1:
		return mkMap(nilable, unnil, nilable, unnil)
	case 2:
		// Pointers to data written just before the pointer is published.
		cells := make([]*cell, 0, mapVals)
		for i := range mapVals {
			cells = append(cells, &cell{i, i * 7})
		}
		return mkMap(func(i int) string { return fmt.Sprint("k", i) }, func(s string) int { n, _ := strconv.Atoi(s[1:]); return n },
			func(i int) *cell { return cells[i] }, func(c *cell) int {
				if c.check != c.val*7 {
					return 99
				}
				return c.val
			})
	case 3:
		return mkMap(func(i int) int { return i << 32 }, func(i int) int { return i >> 32 },
			func(i int) error {
				if i == 0 {
					return nil
				}
				return numErr(i)
			}, func(e error) int {
				if e == nil {
					return 0
				}
				return int(e.(numErr))
			})
	}
	return mkMap(func(i int) int { return i }, func(i int) int { return i }, func(i int) int { return i * 3 }, func(i int) int {
		if i%3 != 0 {
			return 99
		}
		return i / 3
	})
}

func (a *mapAPI) do(ev *mapEv) {
	o := ev.op
	ev.done = true
	ev.v, ev.dup = -1, -1
	switch o.Op {
	case oLoad:
		ev.v, ev.ok = a.load(o.Key)
	case oStore:
		a.store(o.Key, o.A)
	case oSwap:
		ev.v, ev.ok = a.swap(o.Key, o.A)
	case oLoadOrStore:
		ev.v, ev.ok = a.loadOrStore(o.Key, o.A)
	case oLoadAndDelete:
		ev.v, ev.ok = a.loadAndDel(o.Key)
	case oDelete:
		a.del(o.Key)
	case oCAS:
		ev.ok = a.cas(o.Key, o.A, o.B)
	case oCAD:
		ev.ok = a.cad(o.Key, o.A)
	case oRange:
		ev.seen = slices.Repeat([]int{-1}, mapKeys)
		n := 0
		a.rng(func(k, v int) bool {
			if k < 0 || k >= mapKeys || ev.stopped {
				ev.dup = 100
				return false
			}
			if ev.seen[k] >= 0 {
				ev.dup = k
			}
			ev.seen[k] = v
			if n < len(ev.in) {
				a.step(ev.in[n])
			}
			n++
			if o.A > 0 && n >= o.A {
				ev.stopped = true
				return false
			}
			return true
		})
	}
}

func (a *mapAPI) step(ev *mapEv) {
	sim.Log(kInv, int64(ev.inv), 0, 0)
	a.do(ev)
	sim.Log(kRes, int64(ev.inv), int64(ev.v), 0)
}

// apply is the sequential specification for one key; cur -1 is absent. It
// reports whether the observed result is possible.
func (ev *mapEv) apply(cur int) (next int, ok bool) {
	o := ev.op
	match := func() bool { return ev.ok == (cur >= 0) && ev.v == cur }
	switch o.Op {
	case oLoad:
		return cur, match()
	case oStore:
		return o.A, true
	case oSwap:
		return o.A, match()
	case oLoadOrStore:
		if cur >= 0 {
			return cur, ev.ok && ev.v == cur
		}
		return o.A, !ev.ok && ev.v == o.A
	case oLoadAndDelete:
		return -1, match()
	case oDelete:
		return -1, true
	case oCAS:
		if cur >= 0 && cur == o.A {
			return o.B, ev.ok
		}
		return cur, !ev.ok
	case oCAD:
		if cur >= 0 && cur == o.A {
			return -1, ev.ok
		}
		return cur, !ev.ok
	}
	panic("apply")
}

// linearizable searches for a sequential order of the operations on one key.
func linearizable(evs []*mapEv, init int) bool {
	n := len(evs)
	if n > 60 {
		return true
	}
	type node struct {
		done uint64
		cur  int
	}
	seen := map[node]bool{}
	var search func(done uint64, cur int) bool
	search = func(done uint64, cur int) bool {
		if done == 1<<uint(n)-1 {
			return true
		}
		k := node{done, cur}
		if seen[k] {
			return false
		}
		seen[k] = true
		first := 1 << 60
		for i, e := range evs {
			if done>>uint(i)&1 == 0 && e.res < first {
				first = e.res
			}
		}
		for i, e := range evs {
			if done>>uint(i)&1 == 0 && e.inv < first {
				if next, ok := e.apply(cur); ok && search(done|1<<uint(i), next) {
					return true
				}
			}
		}
		return false
	}
	return search(0, init)
}

func (ev *mapEv) String() string {
	o := ev.op
	switch o.Op {
	case oRange:
		return fmt.Sprintf("[%d,%d] t%d Range saw %v", ev.inv, ev.res, ev.thread, ev.seen)
	}
	return fmt.Sprintf("[%d,%d] t%d %s(k%d, %d, %d) = %d, %v", ev.inv, ev.res, ev.thread, mapOpNames[o.Op], o.Key, o.A, o.B, ev.v, ev.ok)
}

func runMap(e *Env, p *MapPlan) {
	a := newMapAPI(p.Types)
	var evs []*mapEv
	var per [][]*mapEv
	for _, o := range p.Init {
		evs = append(evs, &mapEv{op: o, thread: -1})
	}
	ini := evs
	for t, ops := range p.Threads {
		var l []*mapEv
		for _, o := range ops {
			ev := &mapEv{op: o, thread: t}
			l = append(l, ev)
			evs = append(evs, ev)
			for _, x := range o.In {
				in := &mapEv{op: x, thread: t}
				ev.in = append(ev.in, in)
				evs = append(evs, in)
			}
		}
		per = append(per, l)
	}
	for i, ev := range evs {
		ev.inv = i
	}
	e.Exec(func() {
		for _, ev := range ini {
			a.step(ev)
		}
		for _, l := range per {
			go func() {
				for _, ev := range l {
					a.step(ev)
				}
			}()
		}
	}, nil)
	if e.Failed() {
		return
	}
	inv := make([]int, len(evs))
	res := make([]int, len(evs))
	for i := range e.Log {
		switch e.Log[i].Kind {
		case kInv:
			inv[e.Log[i].A] = i
		case kRes:
			res[e.Log[i].A] = i
		}
	}
	overlaps := 0
	for i, ev := range evs {
		ev.inv, ev.res = inv[i], res[i]
	}
	evs = slices.DeleteFunc(evs, func(ev *mapEv) bool { return !ev.done })
	for i, x := range evs {
		for _, y := range evs[i+1:] {
			if x.inv < y.res && y.inv < x.res {
				overlaps++
			}
		}
	}
	e.Probe("overlapping_operations", overlaps > 0)
	for _, ev := range evs {
		if ev.dup >= 0 {
			e.Fail("range", "gsync.Map.Range visits a key twice, goes on after false, or yields a foreign key (%d): %v", ev.dup, ev)
			return
		}
	}
	for k := range mapKeys {
		var l []*mapEv
		for _, ev := range evs {
			if ev.op.Op == oRange {
				if ev.seen[k] < 0 && ev.stopped {
					continue
				}
				l = append(l, &mapEv{op: MOp{Op: oLoad, Key: k}, v: ev.seen[k], ok: ev.seen[k] >= 0, inv: ev.inv, res: ev.res, thread: ev.thread})
			} else if ev.op.Key == k {
				l = append(l, ev)
			}
		}
		if !linearizable(l, -1) {
			e.Fail("not-linearizable", "gsync.Map: no sequential order of the operations on one key explains their results: %v", l)
			return
		}
	}
}

// PoolPlan is a concurrent workload on pools.
type PoolPlan struct {
	Pools   int
	NoNew   bool
	NilNew  int  // the constructor returns nil so often; 0: never
	Late    bool // the pools are used before the constructor is set
	Threads [][]POp
}

// POp: Op 0 gets an object, 1 puts the object held longest, 2 puts the one held
// shortest, 3 works on the held objects, 4 puts nil.
type POp struct{ Op, Pool, Work int }

type obj struct {
	id, pool int
	holder   int
	data     int
}

func runPool(e *Env, p *PoolPlan) {
	pools := make([]gsync.Pool[obj], p.Pools)
	news := make([]func() *obj, p.Pools)
	invented := false
	for i := range pools {
		if p.NoNew {
			continue
		}
		news[i] = func() *obj {
			sim.Work(1)
			if p.NilNew > 0 && int(sim.Count(2, 1))%p.NilNew == 0 {
				sim.Log(kNilNew, 0, 0, 0)
				return nil
			}
			o := &obj{id: int(sim.Count(1, 1)), pool: i, holder: -1}
			sim.Log(kNew, int64(o.id), 0, 0)
			return o
		}
	}
	e.Exec(func() {
		for i := range pools {
			if p.Late && pools[i].Get() != nil {
				invented = true
			}
			pools[i].New = news[i]
		}
		for t, ops := range p.Threads {
			go func() {
				sim.PoolFaults(true)
				var held []*obj
				put := func(i int) {
					o := held[i]
					held = append(held[:i:i], held[i+1:]...)
					o.data++
					if !raceOn {
						o.holder = -1
					}
					sim.Log(kPut, int64(o.id), 0, 0)
					pools[o.pool].Put(o)
				}
				for _, op := range ops {
					switch op.Op {
					case 0:
						o := pools[op.Pool].Get()
						if o == nil {
							sim.Log(kNil, 0, 0, 0)
							if p.NoNew {
								o = &obj{id: int(sim.Count(1, 1)), pool: op.Pool, holder: -1}
								sim.Log(kNew, int64(o.id), 0, 0)
							} else {
								continue
							}
						}
						sim.Log(kGet, int64(o.id), 0, 0)
						o.data++
						if o.pool != op.Pool {
							sim.Log(kAlien, int64(o.id), int64(o.pool), int64(op.Pool))
						}
						if !raceOn {
							if o.holder >= 0 {
								sim.Log(kHeld, int64(o.id), int64(o.holder), int64(t))
							}
							o.holder = t
						}
						held = append(held, o)
						sim.Work(op.Work)
					case 1:
						if len(held) > 0 {
							put(0)
						}
					case 2:
						if len(held) > 0 {
							put(len(held) - 1)
						}
					case 3:
						for _, o := range held {
							o.data++
							sim.Work(op.Work)
						}
					case 4:
						pools[op.Pool].Put(nil)
					}
				}
			}()
		}
	}, nil)
	if e.Failed() {
		return
	}
	if invented {
		e.Fail("invented", "gsync.Pool.Get returns an object although the pool is empty and has no constructor")
	}
	puts, born, nils := map[int64]int{}, map[int64]bool{}, 0
	reuse := false
	for i := range e.Log {
		ev := &e.Log[i]
		switch ev.Kind {
		case kHeld:
			e.Fail("shared", "gsync.Pool.Get returns object %d to one goroutine while another one holds it", ev.A)
		case kNil:
			if nils--; !p.NoNew && nils < 0 {
				e.Fail("nil", "gsync.Pool.Get returns nil although New is set and has not returned nil")
			}
		case kAlien:
			e.Fail("foreign", "gsync.Pool.Get returns object %d, which belongs to another pool", ev.A)
		case kNilNew:
			nils++
		case kNew:
			puts[ev.A]++
			born[ev.A] = true
		case kPut:
			puts[ev.A]++
			reuse = true
		case kGet:
			if puts[ev.A]--; puts[ev.A] < 0 {
				if !born[ev.A] {
					e.Fail("invented", "gsync.Pool.Get returns an object that was not made by the constructor of the pool nor put into it")
				}
				e.Fail("duplicate", "gsync.Pool.Get returns object %d more often than it was put into the pool", ev.A)
			}
		}
	}
	_ = reuse
	e.Probe("object_reused", e.Count(kGet, nil) > e.Count(kNew, nil) && !p.NoNew)
}

func init() {
	var normOps func(ops []MOp, limit int) []MOp
	normOps = func(ops []MOp, limit int) []MOp {
		if len(ops) > limit {
			ops = ops[:limit]
		}
		for i := range ops {
			o := &ops[i]
			o.Op = min(max(o.Op, 0), nMapOps-1)
			o.Key = min(max(o.Key, 0), mapKeys-1)
			o.A = min(max(o.A, 0), mapVals-1)
			o.B = min(max(o.B, 0), mapVals-1)
			if o.Op != oRange || limit < 8 || limit > 20 {
				o.In = nil
			}
			o.In = normOps(o.In, 4)
			for k := range o.In {
				if o.In[k].Op == oRange {
					o.In[k].Op = oLoad
				}
			}
		}
		return ops
	}
	add("G01", "map", 10, true, func(r *Rand) *MapPlan {
		p := &MapPlan{Types: r.N(4)}
		keys := r.In(1, 4)
		many := 0
		if r.P(12) {
			keys = r.In(5, mapKeys)
			many = keys
		}
		one := func() MOp {
			o := MOp{r.Pick(oLoad, oLoad, oStore, oSwap, oLoadOrStore, oLoadOrStore, oLoadAndDelete, oLoadAndDelete, oDelete, oCAS, oCAS, oCAD, oRange), r.N(keys), r.N(mapVals), r.N(mapVals), nil}
			if o.Op == oRange && r.P(2) {
				for k := r.In(1, 3); k > 0; k-- {
					o.In = append(o.In, MOp{Op: r.Pick(oLoad, oStore, oSwap, oLoadOrStore, oLoadAndDelete, oDelete, oCAS, oCAD), Key: r.N(keys), A: r.N(mapVals), B: r.N(mapVals)})
				}
			}
			return o
		}
		for k := r.N(3 + many); k > 0; k-- {
			p.Init = append(p.Init, MOp{Op: oStore, Key: r.N(keys), A: r.N(mapVals)})
		}
		for t := r.In(1, 4); t > 0; t-- {
			var ops []MOp
			for k := r.In(1, 5); k > 0; k-- {
				ops = append(ops, one())
			}
			p.Threads = append(p.Threads, ops)
		}
		return p
	}, func(p *MapPlan) {
		p.Types = min(max(p.Types, 0), 3)
		p.Init = normOps(p.Init, 30)
		if len(p.Threads) > 5 {
			p.Threads = p.Threads[:5]
		}
		for i := range p.Threads {
			p.Threads[i] = normOps(p.Threads[i], 8)
		}
	}, runMap)
	add("G02", "pool", 10, true, func(r *Rand) *PoolPlan {
		p := &PoolPlan{Pools: r.In(1, 2), NoNew: r.P(6), Late: r.P(6)}
		if r.P(5) {
			p.NilNew = r.In(1, 3)
		}
		for t := r.In(1, 5); t > 0; t-- {
			var ops []POp
			for k := r.In(1, 8); k > 0; k-- {
				ops = append(ops, POp{r.Pick(0, 0, 0, 1, 1, 2, 3, 4), r.N(p.Pools), r.N(3)})
			}
			p.Threads = append(p.Threads, ops)
		}
		return p
	}, func(p *PoolPlan) {
		p.Pools = min(max(p.Pools, 1), 4)
		p.NilNew = min(max(p.NilNew, 0), 10)
		for i := range p.Threads {
			for j := range p.Threads[i] {
				o := &p.Threads[i][j]
				o.Op = min(max(o.Op, 0), 4)
				o.Pool = min(max(o.Pool, 0), p.Pools-1)
				o.Work = min(max(o.Work, 0), 10)
			}
		}
	}, runPool)
}
