package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"sort"
	"strings"

	"SIMROOT/simrt"
)

// Stats is what a worker measured.
type Stats struct {
	Runs         int            `json:"runs"`
	Sims         int            `json:"sims"`
	Ops          int            `json:"ops"`
	Steps        int64          `json:"steps"`
	Preempts     int64          `json:"preempts"`
	LockOps      int64          `json:"lock_ops"`
	LockWaits    int64          `json:"lock_waits"`
	MapOrders    int64          `json:"map_orders"`
	PoolGets     int64          `json:"pool_gets"`
	Faults       map[string]int `json:"faults"`
	Probes       map[string]int `json:"probes"`
	Strategies   map[string]int `json:"strategies"`
	Inconclusive int            `json:"inconclusive"`
	Replayed     int            `json:"determinism_replays"`
	Inter        map[uint64]struct{}
	Cases        map[uint64]struct{}
	NonTrivial   map[uint64]struct{}
	InterList    []uint64 `json:"inter"`
	CaseList     []uint64 `json:"cases"`
	NTList       []uint64 `json:"nontrivial"`
	Samples      []string `json:"samples"`
	SitesHit     []int    `json:"sites_hit"`

	last       simrt.Report
	lastPlan   uint64
	trivialNow bool
}

func newStats() *Stats {
	return &Stats{Faults: map[string]int{}, Probes: map[string]int{}, Strategies: map[string]int{}, Inter: map[uint64]struct{}{}, Cases: map[uint64]struct{}{}, NonTrivial: map[uint64]struct{}{}}
}

func planHash(p *Plan) uint64 {
	q := *p
	q.Seed = 0
	q.Sched.Switches = nil
	b, _ := json.Marshal(&q)
	h := fnv.New64a()
	_, _ = h.Write(b)
	return h.Sum64()
}

var stratNames = []string{"none", "uniform", "globals", "sites", "pct", "replay"}

// add accounts for one simulated execution.
func (st *Stats) add(p *Plan, e *Env, rep simrt.Report) {
	st.last = rep
	e.fold(&st.last.Digest)
	st.Sims++
	st.Steps += rep.Steps
	st.Preempts += rep.Preempts
	st.LockOps += rep.LockCalls
	st.LockWaits += rep.LockWaits
	st.MapOrders += rep.MapCalls
	st.PoolGets += rep.PoolCalls
	st.Strategies[stratNames[p.Sched.Kind]]++
	for _, t := range e.ths {
		st.Ops += len(t.done)
		for k, n := range t.counts {
			st.Faults[k] += n
			t.counts[k] = 0
		}
	}
	h := fnv.New64a()
	inside := false
	for _, s := range rep.Switches {
		fmt.Fprintf(h, "%d,%d,%d;", s.T, s.Site, s.To)
		if !s.Forced && s.Site >= 0 {
			inside = true
		}
	}
	st.Inter[h.Sum64()] = struct{}{}
	if rep.LockWaits > 0 {
		st.Probes["run-with-lock-contention"]++
	}
	ph := planHash(p)
	c := ph ^ h.Sum64()*1099511628211
	st.Cases[c] = struct{}{}
	ok := false
	active := 0
	ops := 0
	for _, t := range e.ths {
		n := 0
		for i := range t.done {
			if !t.done[i].Lost {
				n++
			}
		}
		ops += n
		if n > 0 {
			active++
		}
	}
	if len(p.Threads) > 1 {
		ok = active >= 2 && inside
	} else {
		ok = ops >= 20 || (len(p.Threads) <= 1 && ops > 0 && p.Prop != "C03")
	}
	if ok {
		st.NonTrivial[c] = struct{}{}
	}
}

// fold adds outcomes to the run digest used for determinism checks.
func (e *Env) fold(d *uint64) {
	for _, x := range e.outcomes() {
		for i := 0; i < len(x.Out.Enc); i++ {
			*d = (*d ^ uint64(x.Out.Enc[i])) * 1099511628211
		}
		*d = (*d ^ uint64(x.Call)<<20 ^ uint64(x.Ret)) * 1099511628211
	}
}

func keys(m map[uint64]struct{}) []uint64 {
	l := make([]uint64, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

func (st *Stats) seal() {
	st.InterList, st.CaseList, st.NTList = keys(st.Inter), keys(st.Cases), keys(st.NonTrivial)
	for i := 0; i < nSites; i++ {
		if simrt.Covered[i] > 0 {
			st.SitesHit = append(st.SitesHit, i)
		}
	}
}

func (st *Stats) merge(o *Stats) {
	st.Runs += o.Runs
	st.Sims += o.Sims
	st.Ops += o.Ops
	st.Steps += o.Steps
	st.Preempts += o.Preempts
	st.LockOps += o.LockOps
	st.LockWaits += o.LockWaits
	st.MapOrders += o.MapOrders
	st.PoolGets += o.PoolGets
	st.Inconclusive += o.Inconclusive
	st.Replayed += o.Replayed
	for k, n := range o.Faults {
		st.Faults[k] += n
	}
	for k, n := range o.Probes {
		st.Probes[k] += n
	}
	for k, n := range o.Strategies {
		st.Strategies[k] += n
	}
	for _, k := range o.InterList {
		st.Inter[k] = struct{}{}
	}
	for _, k := range o.CaseList {
		st.Cases[k] = struct{}{}
	}
	for _, k := range o.NTList {
		st.NonTrivial[k] = struct{}{}
	}
	st.Samples = append(st.Samples, o.Samples...)
	m := map[int]bool{}
	for _, s := range append(st.SitesHit, o.SitesHit...) {
		m[s] = true
	}
	st.SitesHit = nil
	for s := range m {
		st.SitesHit = append(st.SitesHit, s)
	}
	sort.Ints(st.SitesHit)
}

// raceTexts returns the last n reports of the happens-before monitor, without
// those about the simulator's own state; known is false when there is no log.
func raceTexts(n int) (texts []string, known bool) {
	dir := os.Getenv("SIM_RACE_LOG")
	if dir == "" {
		return nil, false
	}
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", dir, os.Getpid()))
	if err != nil {
		return nil, false
	}
	l := strings.Split(string(b), "WARNING: DATA RACE")[1:]
	if len(l) < n {
		return nil, false
	}
	for _, s := range l[len(l)-n:] {
		if !raceInside(s) {
			texts = append(texts, raceText(s))
		}
	}
	return texts, true
}

// raceInside reports whether one of the two accesses was made by the
// scheduler or the channel table.
func raceInside(s string) bool {
	access, runtime := false, false
	for _, l := range strings.Split(s, "\n") {
		switch t := strings.TrimSpace(l); {
		case strings.HasPrefix(l, "Goroutine "):
			return false
		case strings.Contains(l, " at 0x") && strings.HasSuffix(l, ":"):
			access = true
		case !access || t == "":
		case strings.HasPrefix(l, "      "):
			if runtime {
				continue
			}
			if strings.Contains(t, "/zzsim/simrt/simrt.go:") || strings.Contains(t, "/zzsim/simrt/chan.go:") {
				return true
			}
			access = false
		default:
			runtime = strings.HasPrefix(t, "runtime.")
		}
	}
	return false
}

func raceText(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "MODNAME") || strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Previous") {
			l = strings.Split(l, " by goroutine")[0]
			if k := strings.Index(l, " at 0x"); k > 0 {
				l = l[:k]
			}
			if !strings.Contains(l, "zzharness") && !strings.Contains(l, "zzsim") {
				out = append(out, l)
			}
		}
		if len(out) > 14 {
			break
		}
	}
	return strings.Join(out, " | ")
}
