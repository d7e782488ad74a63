package main

import (
	"encoding/json"
	"sort"
	"time"
)

// minimise shrinks the plan of a replay file, then its schedule.
func minimise() {
	rp, s, plan := readReplay()
	deadline := time.Now().Add(time.Duration(*secs * float64(time.Second)))
	half := time.Now().Add(time.Duration(*secs * 0.6 * float64(time.Second)))
	runs := 0
	// try reports whether the plan fails in the same class under some schedule.
	rng := &Rand{rp.Sched.Seed ^ 0xabcdef}
	try := func(plan any, first *Sched, n int) *Sched {
		for i := 0; i < n; i++ {
			sc := first
			if i > 0 {
				sc = genSched(rng, 0)
			}
			e := exec(s, plan, sc, nil, false)
			runs++
			maybeGC()
			if e.Class == rp.Class {
				return sc
			}
			if i&15 == 15 && time.Now().After(half) {
				break
			}
		}
		return nil
	}
	sched := rp.Sched
	if try(plan, sched, 1) == nil {
		rp.Notes = append(rp.Notes, "not minimised: the run did not fail again in a process of its own")
		writeJSON(*outFile, rp)
		return
	}
	cur, _ := json.Marshal(plan)
	for changed := true; changed && time.Now().Before(half); {
		changed = false
		var tree any
		json.Unmarshal(cur, &tree)
		for _, cand := range shrinks(tree) {
			if time.Now().After(half) {
				break
			}
			cj, _ := json.Marshal(cand)
			p := s.New()
			if json.Unmarshal(cj, p) != nil {
				continue
			}
			s.Norm(p)
			nj, _ := json.Marshal(p)
			if string(nj) == string(cur) || len(nj) > len(cur)+4 {
				continue
			}
			if sc := try(p, sched, 60); sc != nil {
				cur, sched, plan = nj, sc, p
				changed = true
				break
			}
		}
	}
	// The schedule.
	e := exec(s, plan, sched, nil, false)
	if rec := e.recorded(sched); rec != nil && e.Class == rp.Class {
		if sched.Replay {
			rec = sched
		}
		e2 := exec(s, plan, rec, nil, false)
		if e2.Class == rp.Class {
			sched = ddmin(s, plan, rec, rp.Class, deadline, &runs)
		}
	}
	e = exec(s, plan, sched, nil, true)
	out := *rp
	out.Plan, _ = json.Marshal(plan)
	out.Sched = sched
	out.Class, out.Message, out.Hash, out.Hist = e.Class, e.Msg, e.Out.Hash, e.Out.Hist
	out.Trace = e.traceText(400)
	writeJSON(*outFile, &out)
}

// ddmin removes decisions from a recorded schedule.
func ddmin(s *Scen, plan any, sc *Sched, class string, deadline time.Time, runs *int) *Sched {
	type dec struct {
		step uint64
		val  uint32
	}
	var ds []dec
	for i := range sc.Steps {
		ds = append(ds, dec{sc.Steps[i], sc.Vals[i]})
	}
	mk := func(ds []dec) *Sched {
		t := *sc
		t.Steps, t.Vals = nil, nil
		for _, d := range ds {
			t.Steps = append(t.Steps, d.step)
			t.Vals = append(t.Vals, d.val)
		}
		return &t
	}
	fails := func(ds []dec) bool {
		*runs++
		maybeGC()
		return exec(s, plan, mk(ds), nil, false).Class == class
	}
	n := 2
	for len(ds) > 0 && time.Now().Before(deadline) {
		if fails(nil) {
			ds = nil
			break
		}
		chunk := (len(ds) + n - 1) / n
		reduced := false
		for a := 0; a < len(ds) && time.Now().Before(deadline); a += chunk {
			b := min(a+chunk, len(ds))
			cand := append(append([]dec(nil), ds[:a]...), ds[b:]...)
			if fails(cand) {
				ds = cand
				n = max(n-1, 2)
				reduced = true
				break
			}
		}
		if !reduced {
			if chunk == 1 {
				break
			}
			n = min(n*2, len(ds))
		}
	}
	return mk(ds)
}

// shrinks returns simpler variants of a JSON value, the boldest first.
func shrinks(v any) []any {
	var out []any
	switch v := v.(type) {
	case bool:
		if v {
			out = append(out, false)
		}
	case float64:
		for _, c := range []float64{0, 1, float64(int64(v / 2)), v - 1} {
			if (v > 0 && c < v && c >= 0) || (v < 0 && c == 0) {
				out = append(out, c)
			}
		}
	case []any:
		n := len(v)
		for size := n; size >= 1; size /= 2 {
			for a := 0; a+size <= n; a += size {
				c := append(append([]any{}, v[:a]...), v[a+size:]...)
				out = append(out, c)
			}
		}
		for i := range v {
			for _, c := range shrinks(v[i]) {
				w := append([]any{}, v...)
				w[i] = c
				out = append(out, w)
			}
		}
	case map[string]any:
		var ks []string
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			for _, c := range shrinks(v[k]) {
				w := make(map[string]any, len(v))
				for k2, v2 := range v {
					w[k2] = v2
				}
				w[k] = c
				out = append(out, w)
			}
		}
	}
	return out
}
