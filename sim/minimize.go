package main

// Minimisation: delta debugging over operations, then over faults, interleaved
// operations and sizes.

import "time"

func cloneOps(ops []*Op) []*Op {
	out := make([]*Op, len(ops))
	for i, o := range ops {
		c := *o
		c.Faults = append([]Fault(nil), o.Faults...)
		c.Par = cloneOps(o.Par)
		if len(c.Par) == 0 {
			c.Par = nil
		}
		if len(c.Faults) == 0 {
			c.Faults = nil
		}
		out[i] = &c
	}
	return out
}

// replayOps carries out recorded operations and returns the first violation.
func replayOps(cfg Config, ops []*Op, st *Stats, log func(string)) (v *Violation) {
	s := newSim(cfg, st)
	s.log = log
	watch(func() (Config, []*Op) { return cfg, ops })
	for _, op := range ops {
		if log != nil {
			log(op.String())
		}
		beat(op)
		ok, v := s.exec(op)
		if !ok && log != nil {
			log("  (does not apply)")
		}
		if v != nil {
			return v
		}
		if s.over {
			break
		}
	}
	return nil
}

func minimize(cfg Config, ops []*Op, want *Violation, prop string, limit time.Duration) []*Op {
	end := time.Now().Add(limit)
	test := func(cand []*Op) (ok bool) {
		if time.Now().After(end) {
			return false
		}
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(internalError); is {
					ok = false
					return
				}
				panic(r)
			}
		}()
		v := replayOps(cfg, cloneOps(cand), newStats(), nil)
		return v != nil && v.Oracle == want.Oracle && v.has(prop)
	}
	cur := cloneOps(ops)
	if !test(cur) {
		return ops
	}
	for n := 2; len(cur) > 1; {
		size := (len(cur) + n - 1) / n
		done := false
		for from := 0; from < len(cur); from += size {
			to := min(from+size, len(cur))
			cand := append(append([]*Op(nil), cur[:from]...), cur[to:]...)
			if test(cand) {
				cur = cand
				n = max(n-1, 2)
				done = true
				break
			}
		}
		if !done {
			if n >= len(cur) {
				break
			}
			n = min(n*2, len(cur))
		}
		if time.Now().After(end) {
			break
		}
	}
	for i := range cur {
		for j := 0; j < len(cur[i].Faults); {
			cand := cloneOps(cur)
			cand[i].Faults = append(cand[i].Faults[:j], cand[i].Faults[j+1:]...)
			if test(cand) {
				cur = cand
			} else {
				j++
			}
		}
		for j := 0; len(cur[i].Par) > 2 && j < len(cur[i].Par); {
			cand := cloneOps(cur)
			cand[i].Par = append(cand[i].Par[:j], cand[i].Par[j+1:]...)
			if test(cand) {
				cur = cand
			} else {
				j++
			}
		}
		if cur[i].Kind == "send" || cur[i].Kind == "gsend" {
			for _, k := range []int{0, 1, 16} {
				if cur[i].K > k {
					cand := cloneOps(cur)
					cand[i].K = k
					if test(cand) {
						cur = cand
						break
					}
				}
			}
		}
	}
	return cur
}
