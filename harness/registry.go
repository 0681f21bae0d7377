package main

import (
	"fmt"
	"sort"
	"strings"
)

// rop is one operation on a name of the modifier table.
type rop struct {
	kind      string // reg, unreg, read
	mod       int    // reg: what; read: what was seen, -1 for nothing
	ok        bool
	call, ret int64
	optional  bool // lost call: may or may not have happened
	text      string
}

// explain looks for an order of atomic steps that explains the history of one
// name, starting with state init (-1: free).
func explain(ops []rop, init int) bool {
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].call < ops[j].call })
	n := len(ops)
	if n > 62 {
		return true
	}
	type key struct {
		mask  uint64
		state int
	}
	seen := map[key]bool{}
	var need uint64
	for i := range ops {
		if !ops[i].optional {
			need |= 1 << uint(i)
		}
	}
	var rec func(mask uint64, state int) bool
	rec = func(mask uint64, state int) bool {
		if mask&need == need {
			return true
		}
		k := key{mask, state}
		if seen[k] {
			return false
		}
		seen[k] = true
		// an op can be next if no other pending op returned before it was called
		minRet := int64(1) << 62
		for i := 0; i < n; i++ {
			if mask&(1<<uint(i)) == 0 && !ops[i].optional && ops[i].ret < minRet {
				minRet = ops[i].ret
			}
		}
		for i := 0; i < n; i++ {
			if mask&(1<<uint(i)) != 0 || ops[i].call > minRet {
				continue
			}
			o := &ops[i]
			next := state
			switch o.kind {
			case "reg":
				if o.optional {
					if state < 0 {
						next = o.mod
					}
				} else if o.ok {
					if state >= 0 {
						continue
					}
					next = o.mod
				} else if state < 0 {
					continue
				}
			case "unreg":
				next = -1
			case "read":
				if !o.optional && state != o.mod {
					continue
				}
			}
			if rec(mask|1<<uint(i), next) {
				return true
			}
		}
		return false
	}
	return rec(0, init)
}

// regHistory turns finished registry calls into per-name histories.
func regHistory(e *Env, h map[string][]rop) *Violation {
	for _, d := range e.outcomes() {
		n := string(d.Op.N)
		r := rop{call: d.Call, ret: d.Ret, optional: d.Lost}
		if d.Lost {
			r.ret = 1 << 61
		}
		op := d.Op
		r.text = fmt.Sprintf("t%d %s(%q) [%d,%d] %s", d.Thread, d.Op.K, n, d.Call, d.Ret, d.Out.Enc)
		switch d.Op.K {
		case "reg":
			r.kind, r.mod, r.ok = "reg", d.Op.M, d.Out.Enc == "ok"
			if n == "" {
				if !d.Lost && r.ok {
					return &Violation{Kind: "empty-name", Detail: "registering an empty name succeeded", Op: &op}
				}
				continue
			}
			if d.Out.Panic {
				return &Violation{Kind: "panic", Detail: "registering panicked: " + d.Out.Enc, Op: &op}
			}
		case "unreg":
			r.kind = "unreg"
			if !d.Lost && d.Out.Enc != "ok" {
				return &Violation{Kind: "removal-refused", Detail: "removing a custom or unknown name was refused", Op: &op, Got: d.Out.Enc}
			}
		case "getmod":
			r.kind, r.mod = "read", -1
			if d.Out.Enc != "none" && !d.Lost {
				if _, err := fmt.Sscanf(d.Out.Enc, "m%d", &r.mod); err != nil {
					return &Violation{Kind: "foreign-modifier", Detail: "a lookup returned something never registered", Op: &op, Got: d.Out.Enc}
				}
			}
		default:
			continue
		}
		h[n] = append(h[n], r)
	}
	return nil
}

// initial returns the table the plan's setup creates.
func initial(p *Plan) map[string]int {
	m := map[string]int{}
	for i := range p.Pre {
		o := &p.Pre[i]
		n := string(o.N)
		switch o.K {
		case "reg":
			if _, ok := m[n]; !ok && n != "" {
				m[n] = o.M
			}
		case "unreg":
			delete(m, n)
		}
	}
	return m
}

// judge checks every name's history.
func judge(p *Plan, h map[string][]rop, st *Stats) *Violation {
	init := initial(p)
	var names []string
	for n := range h {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		s, ok := init[n]
		if !ok {
			s = -1
		}
		l := h[n]
		over := 0
		for i := range l {
			for j := range l {
				if i != j && l[i].call < l[j].ret && l[j].call < l[i].ret {
					over++
				}
			}
		}
		if over > 0 {
			st.Probes["name-with-overlapping-calls"]++
		}
		if len(l) > 62 {
			st.Inconclusive++
			continue
		}
		if !explain(l, s) {
			var b []string
			for i := range l {
				b = append(b, l[i].text)
			}
			return &Violation{Kind: "not-linearizable", Detail: fmt.Sprintf("no order of atomic steps explains the history of name %q (initially %d): %s", n, s, strings.Join(b, "; "))}
		}
	}
	return nil
}
