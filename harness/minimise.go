package main

import (
	"strings"
	"time"

	"SIMROOT/simrt"
)

// minimise shrinks a failing plan while it keeps failing in the same way.
func minimise(pr *Prop, p *Plan, v *Violation, limit time.Duration, better func(*Plan, *Violation)) (*Plan, *Violation) {
	deadline := time.Now().Add(limit)
	tries := 0
	var lastV *Violation
	fails := func(q *Plan) bool {
		if tries > 3000 || time.Now().After(deadline) {
			return false
		}
		tries++
		w := tryExec(pr, q)
		if w != nil && w.Kind == v.Kind {
			lastV = w
			return true
		}
		return false
	}
	best := clonePlan(p)
	if !fails(best) {
		return best, nil
	}
	try := func(edit func(q *Plan) bool) bool {
		q := clonePlan(best)
		if !edit(q) {
			return false
		}
		if fails(q) {
			best = q
			better(best, lastV)
			return true
		}
		return false
	}
	if best.Prop == "C16" { // long histories: only what they consist of
		for _, k := range strings.Split(best.Mode, "+") {
			if k != best.Mode && try(func(q *Plan) bool { q.Mode = k; return true }) {
				break
			}
		}
		if best.Ints["age"] == 1 {
			try(func(q *Plan) bool { delete(q.Ints, "age"); return true })
		}
		return best, lastV
	}
	for round := 0; round < 6; round++ {
		changed := false
		// whole threads
		for i := len(best.Threads) - 1; i >= 0; i-- {
			i := i
			if i < len(best.Threads) && len(best.Threads) > 1 && len(best.Threads[i]) > 0 {
				if try(func(q *Plan) bool { q.Threads[i] = []Op{}; return true }) {
					changed = true
				}
			}
		}
		// ops
		for t := range best.Threads {
			if ddOps(func() []Op { return best.Threads[t] }, func(l []Op) bool {
				return try(func(q *Plan) bool { q.Threads[t] = l; return true })
			}) {
				changed = true
			}
		}
		if ddOps(func() []Op { return best.Post }, func(l []Op) bool { return try(func(q *Plan) bool { q.Post = l; return true }) }) {
			changed = true
		}
		if ddOps(func() []Op { return best.Pre }, func(l []Op) bool { return try(func(q *Plan) bool { q.Pre = l; return true }) }) {
			changed = true
		}
		// schedule
		if best.Sched.Kind == simrt.Replay {
			for n := len(best.Sched.Switches) / 2; n >= 1; n /= 2 {
				for i := 0; i < len(best.Sched.Switches); {
					i0, n0 := i, n
					if try(func(q *Plan) bool {
						l := q.Sched.Switches
						e := i0 + n0
						if e > len(l) {
							e = len(l)
						}
						q.Sched.Switches = append(append([]simrt.Switch{}, l[:i0]...), l[e:]...)
						return true
					}) {
						changed = true
					} else {
						i += n
					}
				}
			}
		}
		// repetition counts
		for x := best.Ints["quits"]; x > 0; x = best.Ints["quits"] {
			if !try(func(q *Plan) bool { q.Ints["quits"] = x / 2; return true }) && !try(func(q *Plan) bool { q.Ints["quits"] = x - x/8 - 1; return true }) {
				break
			}
			changed = true
		}
		eachOp(best, func(get func(q *Plan) *Op) {
			for {
				o := get(best)
				if o == nil || (o.K != "storm" && o.K != "burst") || o.X <= 1 {
					break
				}
				x := o.X
				if !try(func(q *Plan) bool { get(q).X = x / 2; return true }) && !try(func(q *Plan) bool { get(q).X = x - x/8 - 1; return true }) {
					break
				}
				changed = true
			}
		})
		// lists inside ops
		eachOp(best, func(get func(q *Plan) *Op) {
			for k := 0; ; {
				o := get(best)
				if o == nil || k >= len(o.Ps) || len(o.Ps) <= 1 {
					break
				}
				k0 := k
				if try(func(q *Plan) bool {
					x := get(q)
					x.Ps = append(append([]S{}, x.Ps[:k0]...), x.Ps[k0+1:]...)
					if len(x.Vs) > k0 {
						x.Vs = append(append([]Val{}, x.Vs[:k0]...), x.Vs[k0+1:]...)
					}
					return true
				}) {
					changed = true
				} else {
					k++
				}
			}
			for k := 0; ; {
				o := get(best)
				if o == nil || k >= len(o.C) {
					break
				}
				k0 := k
				if try(func(q *Plan) bool {
					x := get(q)
					x.C = append(append([]Step{}, x.C[:k0]...), x.C[k0+1:]...)
					return true
				}) {
					changed = true
				} else {
					k++
				}
			}
		})
		// documents
		for d := range best.Docs {
			for n := len(best.Docs[d]) / 2; n >= 1; n /= 2 {
				for i := 0; i < len(best.Docs[d]); {
					i0, n0 := i, n
					if try(func(q *Plan) bool {
						s := q.Docs[d]
						e := i0 + n0
						if e > len(s) {
							e = len(s)
						}
						q.Docs[d] = s[:i0] + s[e:]
						return true
					}) {
						changed = true
					} else {
						i += n
					}
				}
				if n < 8 && round > 0 {
					break
				}
			}
		}
		if !changed {
			break
		}
	}
	return best, lastV
}

// tryExec executes a candidate; a candidate that upsets the harness does not count.
func tryExec(pr *Prop, p *Plan) (v *Violation) {
	defer func() {
		if r := recover(); r != nil {
			v = nil
		}
	}()
	return pr.run(clonePlan(p), newStats())
}

func ddOps(get func() []Op, set func([]Op) bool) bool {
	changed := false
	for n := len(get()) / 2; n >= 1; n /= 2 {
		for i := 0; i < len(get()); {
			l := get()
			e := i + n
			if e > len(l) {
				e = len(l)
			}
			c := append(append([]Op{}, l[:i]...), l[e:]...)
			if set(c) {
				changed = true
			} else {
				i += n
			}
		}
	}
	if len(get()) == 1 && set([]Op{}) {
		changed = true
	}
	return changed
}

func eachOp(p *Plan, f func(get func(q *Plan) *Op)) {
	for t := range p.Threads {
		for i := range p.Threads[t] {
			t, i := t, i
			f(func(q *Plan) *Op {
				if t < len(q.Threads) && i < len(q.Threads[t]) {
					return &q.Threads[t][i]
				}
				return nil
			})
		}
	}
}
