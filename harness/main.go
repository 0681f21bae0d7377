// Command harness runs the simulated deployments of the library and decides
// the properties.
package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"SIMROOT/simrt"
)

type siteInfo struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
	G    bool   `json:"g"`
}

type metaInfo struct {
	Module   string     `json:"module"`
	Packages []string   `json:"packages"`
	Sites    []siteInfo `json:"sites"`
	Knobs    []string   `json:"knobs"`
	Globals  []string   `json:"globals"`
	MapLoops int        `json:"map_loops"`
	GoStmts  int        `json:"go_stmts"`
	Chans    int        `json:"chan_ops"`
}

var meta metaInfo

func loadMeta(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		die("meta: %v", err)
	}
	if err := json.Unmarshal(b, &meta); err != nil {
		die("meta: %v", err)
	}
	nSites = len(meta.Sites)
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "harness error: "+f+"\n", a...)
	os.Exit(3)
}

func propHash(id string) uint64 {
	h := fnv.New64a()
	_, _ = h.Write([]byte(id))
	return h.Sum64()
}

func runSeed(verifSeed uint64, prop string, idx int) uint64 {
	return simrt.Mix(simrt.Mix(verifSeed, propHash(prop)), uint64(idx)+1)
}

func makePlan(pr *Prop, seed uint64) *Plan {
	g := Gen{simrt.NewRng(seed)}
	p := pr.Gen(g)
	p.Prop = pr.ID
	p.Seed = seed
	if pr.Age && g.p(1, 12) {
		age(g, p)
	}
	return p
}

// age lets the clock jump while the clients run.
func age(g Gen, p *Plan) {
	for i := g.n(1, 3); i > 0 && len(p.Threads) > 0; i-- {
		k := g.Intn(len(p.Threads))
		t := p.Threads[k]
		at := g.n(0, len(t))
		op := Op{ID: 7000 + i, K: "age", X: pick(g, []int{1, 61, 3601, 86401})}
		p.Threads[k] = append(append(append([]Op(nil), t[:at]...), op), t[at:]...)
	}
}

// WorkerResult is what a worker hands to the coordinator.
type WorkerResult struct {
	Stats    *Stats  `json:"stats"`
	Viol     *Replay `json:"viol,omitempty"`
	Error    string  `json:"error,omitempty"`
	LastIdx  int     `json:"last_idx"`
	TimedOut bool    `json:"timed_out"`
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	step := fs.Int("step", 1, "")
	total := fs.Int("total", 1, "")
	out := fs.String("out", "", "")
	metaF := fs.String("meta", "", "")
	secs := fs.Int("secs", 600, "")
	digests := fs.String("digests", "", "write run digests to this file")
	_ = fs.Parse(args)
	loadMeta(*metaF)
	pr := props[*prop]
	if pr == nil {
		die("no property %s", *prop)
	}
	debug.SetMaxStack(256 << 20)
	fmt.Fprintf(os.Stderr, "worker prop=%s seed=%d from=%d step=%d total=%d\n", *prop, *seed, *from, *step, *total)
	st := newStats()
	res := WorkerResult{Stats: st}
	var dg strings.Builder
	start := time.Now()
	deadline := start.Add(time.Duration(*secs) * time.Second)
	prog, _ := os.Create(*out + ".prog")
	stop := filepath.Join(filepath.Dir(*out), "stop")
	for idx, k := *from, 0; idx < *total; idx, k = idx+*step, k+1 {
		if time.Now().After(deadline) {
			res.TimedOut = true
			break
		}
		if b, err := os.ReadFile(stop); err == nil {
			first := idx
			if _, _ = fmt.Sscan(string(b), &first); first < idx {
				break // another worker has found an earlier violation
			}
		}
		res.LastIdx = idx
		if prog != nil {
			_, _ = prog.WriteAt([]byte(fmt.Sprintf("%12d\n", idx)), 0)
		}
		rs := runSeed(*seed, pr.ID, idx)
		p := makePlan(pr, rs)
		if len(st.Samples) < 1 && *from < 3 {
			b, _ := json.Marshal(p)
			if len(b) > 1800 {
				b = append(b[:1800], "..."...)
			}
			st.Samples = append(st.Samples, string(b))
		}
		v := pr.run(p, st)
		st.Runs++
		d1 := st.last.Digest
		if *digests != "" {
			fmt.Fprintf(&dg, "%d %x %x %d\n", idx, rs, d1, st.last.Steps)
		}
		if v != nil {
			res.Viol = record(pr, p, v, st, *seed, idx)
			_ = os.WriteFile(stop, []byte(fmt.Sprintln(idx)), 0o644)
			break
		}
		if k%64 == 7 {
			keepF := st.snapshot()
			q := makePlan(pr, rs)
			w := pr.run(q, st)
			d2 := st.last.Digest
			st.restore(keepF)
			st.Replayed++
			if w == nil && d1 != d2 {
				res.Error = fmt.Sprintf("run %d is not repeatable: digest %x then %x", idx, d1, d2)
				break
			}
		}
	}
	st.seal()
	b, err := json.Marshal(res)
	if err != nil {
		die("%v", err)
	}
	if *digests != "" {
		_ = os.WriteFile(*digests, []byte(dg.String()), 0o644)
	}
	if err := os.WriteFile(*out, b, 0o644); err != nil {
		die("%v", err)
	}
}

// snapshot and restore keep second executions out of the counts.
func (st *Stats) snapshot() Stats {
	c := *st
	c.Faults, c.Probes, c.Strategies = cp(st.Faults), cp(st.Probes), cp(st.Strategies)
	return c
}

func (st *Stats) restore(c Stats) {
	inter, cases, nt := st.Inter, st.Cases, st.NonTrivial
	*st = c
	st.Inter, st.Cases, st.NonTrivial = inter, cases, nt
}

func cp(m map[string]int) map[string]int {
	o := map[string]int{}
	for k, v := range m {
		o[k] = v
	}
	return o
}

func planSize(p *Plan) string {
	n := 0
	for _, t := range p.Threads {
		n += len(t)
	}
	d := 0
	for _, x := range p.Docs {
		d += len(x)
	}
	forced, free := 0, 0
	for _, s := range p.Sched.Switches {
		if s.Forced {
			forced++
		} else {
			free++
		}
	}
	return fmt.Sprintf("%d threads, %d setup ops, %d ops, %d final ops, %d document bytes, %d preemptions, %d forced switches", len(p.Threads), len(p.Pre), n, len(p.Post), d, free, forced)
}

// record writes a violation down together with the schedule that led to it.
func record(pr *Prop, p *Plan, v *Violation, st *Stats, seed uint64, idx int) *Replay {
	r := &Replay{Property: pr.ID, Seed: p.Seed, RunIndex: idx, VerifSeed: seed, Violation: v}
	q := clonePlan(p)
	if p.Sched.Kind != simrt.Replay && len(st.last.Switches) > 0 && len(st.last.Switches) < simrt.MaxSwitches-simrt.MaxThreads*4-1 {
		q.Sched = simrt.Sched{Kind: simrt.Replay, Seed: p.Sched.Seed, Switches: append([]simrt.Switch(nil), st.last.Switches...)}
		if w := pr.run(clonePlan(q), newStats()); w == nil || w.Kind != v.Kind {
			q = clonePlan(p)
			r.Note = "kept the seeded schedule: the recorded list alone does not reproduce it"
		}
	}
	r.Original = planSize(q)
	r.setPlan(q)
	return r
}

func (r *Replay) setPlan(q *Plan) {
	r.Plan = q
	r.Minimised = planSize(q)
	r.Trace = nil
	for _, s := range q.Sched.Switches {
		r.Trace = append(r.Trace, describe(s))
	}
}

func (r *Replay) save(path string) {
	b, _ := json.MarshalIndent(r, "", " ")
	if err := os.WriteFile(path+".new", b, 0o644); err != nil {
		die("%v", err)
	}
	if err := os.Rename(path+".new", path); err != nil {
		die("%v", err)
	}
}

// shrink minimises the plan in a replay file in place. The file always holds
// the smallest failing plan so far, so the process may be ended at any time.
func shrink(args []string) {
	fs := flag.NewFlagSet("shrink", flag.ExitOnError)
	metaF := fs.String("meta", "", "")
	secs := fs.Int("secs", 45, "")
	_ = fs.Parse(args)
	loadMeta(*metaF)
	r := loadReplay(fs.Arg(0))
	pr := props[r.Property]
	debug.SetMaxStack(256 << 20)
	last := time.Now()
	q, v := minimise(pr, r.Plan, r.Violation, time.Duration(*secs)*time.Second, func(q *Plan, v *Violation) {
		if time.Since(last) > time.Second {
			last = time.Now()
			r.Violation = v
			r.setPlan(q)
			r.save(fs.Arg(0))
		}
	})
	if v != nil {
		r.Violation = v
		r.setPlan(q)
		r.save(fs.Arg(0))
	}
}

func loadReplay(path string) *Replay {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	r := &Replay{}
	if err := json.Unmarshal(b, r); err != nil {
		die("%v", err)
	}
	if props[r.Property] == nil || r.Plan == nil {
		die("bad replay file")
	}
	return r
}

func describe(s simrt.Switch) string {
	where := ""
	switch {
	case s.Site >= 0 && int(s.Site) < len(meta.Sites):
		x := meta.Sites[s.Site]
		where = fmt.Sprintf("%s:%d (%s)", x.File, x.Line, x.Func)
	case s.Site == simrt.SiteOp:
		where = "before the call"
	case s.Site == simrt.SiteLock:
		where = "at a lock operation"
	case s.Site == simrt.SiteBlock:
		where = "blocked"
	case s.Site == simrt.SiteDone:
		where = "finished"
	case s.Site == simrt.SiteStart:
		return fmt.Sprintf("start with thread %d", s.To)
	default:
		where = "in a callback"
	}
	f := "preempted"
	if s.Forced {
		f = "gives way"
	}
	return fmt.Sprintf("thread %d %s in call %d at step %d, %s -> thread %d", s.T, f, s.Op, s.Y, where, s.To)
}

func main() {
	if len(os.Args) < 2 {
		die("usage: harness check|worker|replay|list")
	}
	switch os.Args[1] {
	case "worker":
		worker(os.Args[2:])
	case "check":
		check(os.Args[2:])
	case "shrink":
		shrink(os.Args[2:])
	case "replay":
		replay(os.Args[2:])
	case "selftest":
		selftest(os.Args[2:])
	case "list":
		var l []string
		for k := range props {
			l = append(l, k)
		}
		sort.Strings(l)
		fmt.Println(strings.Join(l, " "))
	default:
		die("unknown command %s", os.Args[1])
	}
}

func replay(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	metaF := fs.String("meta", "", "")
	_ = fs.Parse(args)
	loadMeta(*metaF)
	r := loadReplay(fs.Arg(0))
	pr := props[r.Property]
	debug.SetMaxStack(256 << 20)
	st := newStats()
	v := pr.run(r.Plan, st)
	if v == nil {
		fmt.Printf("not reproduced: property=%s held on this execution (steps %d, digest %x)\n", r.Property, st.last.Steps, st.last.Digest)
		os.Exit(0)
	}
	fmt.Printf("reproduced: %s: %s\n", v.Kind, v.Detail)
	if v.Op != nil {
		o, _ := json.Marshal(v.Op)
		fmt.Printf("  call     %s\n", o)
	}
	if v.Expected != "" || v.Got != "" {
		fmt.Printf("  expected %s\n  got      %s\n", v.Expected, v.Got)
	}
	for _, s := range st.last.Switches {
		if len(st.last.Switches) < 60 {
			fmt.Println("  " + describe(s))
		}
	}
	same := v.Kind == r.Violation.Kind && v.Expected == r.Violation.Expected && v.Got == r.Violation.Got
	fmt.Printf("exactly as recorded: %v (steps %d, digest %x)\n", same, st.last.Steps, st.last.Digest)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, fs.Arg(0))
	os.Exit(1)
}

func check(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	tier := fs.String("tier", "quick", "")
	evid := fs.String("evidence", "", "")
	replays := fs.String("replays", "", "")
	metaF := fs.String("meta", "", "")
	work := fs.String("work", "", "")
	jobs := fs.Int("jobs", runtime.NumCPU(), "")
	runs := fs.Int("runs", 0, "")
	secs := fs.Int("secs", 0, "")
	known := fs.String("known", "", "")
	_ = fs.Parse(args)
	loadMeta(*metaF)
	pr := props[*prop]
	if pr == nil {
		die("no property %s", *prop)
	}
	total := pr.Quick
	limit := 300
	if *tier == "thorough" {
		total = pr.Thorough
		limit = 3000
	}
	if *runs > 0 {
		total = *runs
	}
	if *secs > 0 {
		limit = *secs
	}
	if *jobs < 1 {
		*jobs = 1
	}
	if *jobs > total {
		*jobs = total
	}
	fmt.Printf("seed %d: property %s, %d simulated runs on %d workers\n", *seed, pr.ID, total, *jobs)
	start := time.Now()
	self, err := os.Executable()
	if err != nil {
		die("%v", err)
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	results := make([]*WorkerResult, *jobs)
	var trouble []string
	var crashed []int
	cmds := make([]*exec.Cmd, *jobs)
	for w := 0; w < *jobs; w++ {
		out := filepath.Join(*work, fmt.Sprintf("w%d.json", w))
		cmd := exec.Command(self, "worker", "-prop", pr.ID, "-seed", fmt.Sprint(*seed), "-from", fmt.Sprint(w), "-step", fmt.Sprint(*jobs), "-total", fmt.Sprint(total), "-out", out, "-meta", *metaF, "-secs", fmt.Sprint(limit))
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=2600MiB", "SIM_RACE_LOG="+filepath.Join(*work, "race"),
			"GORACE=log_path="+filepath.Join(*work, "race")+" halt_on_error=0 exitcode=0 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=2")
		var eb strings.Builder
		cmd.Stderr = &limitWriter{b: &eb, n: 1 << 20}
		cmds[w] = cmd
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			if err := cmd.Start(); err != nil {
				mu.Lock()
				trouble = append(trouble, err.Error())
				mu.Unlock()
				return
			}
			done := make(chan error, 1)
			go func() { done <- cmd.Wait() }()
			var err error
			select {
			case err = <-done:
			case <-time.After(time.Duration(limit+240) * time.Second):
				_ = cmd.Process.Kill()
				err = fmt.Errorf("worker %d made no progress and was ended", w)
				<-done
			}
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				idx := -1
				if pb, e := os.ReadFile(out + ".prog"); e == nil {
					_, _ = fmt.Sscan(string(pb), &idx)
				}
				msg := eb.String()
				if fatalGo(msg) && idx >= 0 {
					crashed = append(crashed, idx)
				}
				trouble = append(trouble, fmt.Sprintf("worker %d at run %d: %v\n%s", w, idx, err, tail(msg, 3000)))
				return
			}
			b, err := os.ReadFile(out)
			if err == nil {
				var r WorkerResult
				if err = json.Unmarshal(b, &r); err == nil {
					results[w] = &r
					if r.Error != "" {
						trouble = append(trouble, r.Error)
					}
					return
				}
			}
			trouble = append(trouble, err.Error())
		}(w)
	}
	wg.Wait()
	all := newStats()
	timedOut := 0
	var viol *Replay
	for _, r := range results {
		if r == nil {
			continue
		}
		all.merge(r.Stats)
		if r.TimedOut {
			timedOut++
		}
		if r.Viol != nil && (viol == nil || r.Viol.RunIndex < viol.RunIndex) {
			viol = r.Viol
		}
	}
	if viol == nil && len(crashed) > 0 {
		sort.Ints(crashed)
		idx := crashed[0]
		p := makePlan(pr, runSeed(*seed, pr.ID, idx))
		viol = &Replay{Property: pr.ID, Seed: p.Seed, RunIndex: idx, VerifSeed: *seed, Plan: p,
			Violation: &Violation{Kind: "process-died", Detail: "the process executing the calls died: " + tail(trouble[0], 600)}, Original: planSize(p), Minimised: planSize(p)}
	}
	wall := time.Since(start).Seconds()
	knownHit := ""
	if viol != nil {
		if k := matchKnown(*known, viol); k != "" {
			knownHit = k
		}
	}
	nviol := 0
	if viol != nil && knownHit == "" {
		nviol = 1
	}
	writeEvidence(*evid, pr, *tier, *seed, all, wall, nviol, timedOut, *jobs)
	if knownHit != "" {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", pr.ID, knownHit)
		os.Exit(0)
	}
	if viol != nil {
		path := filepath.Join(*replays, fmt.Sprintf("%s-%d-%d.json", pr.ID, *seed, viol.RunIndex))
		_ = os.MkdirAll(*replays, 0o755)
		viol.save(path)
		env := append(os.Environ(), "GOMAXPROCS=2", "SIM_RACE_LOG="+filepath.Join(*work, "race"), "GORACE=log_path="+filepath.Join(*work, "race")+" halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=2")
		if viol.Violation.Kind != "process-died" {
			ctx, end := context.WithTimeout(context.Background(), 90*time.Second)
			min := exec.CommandContext(ctx, self, "shrink", "-meta", *metaF, path)
			min.Env = env
			if b, err := min.CombinedOutput(); err != nil {
				fmt.Fprintf(os.Stderr, "minimisation ended early: %v %s\n", err, tail(string(b), 300))
			}
			end()
			viol = loadReplay(path)
		}
		fmt.Printf("run %d (run seed %d): %s: %s\n", viol.RunIndex, viol.Seed, viol.Violation.Kind, viol.Violation.Detail)
		if viol.Violation.Op != nil {
			o, _ := json.Marshal(viol.Violation.Op)
			fmt.Printf("  call     %s\n", o)
		}
		if viol.Violation.Expected != "" || viol.Violation.Got != "" {
			fmt.Printf("  expected %s\n  got      %s\n", viol.Violation.Expected, viol.Violation.Got)
		}
		fmt.Printf("  original  %s\n  minimised %s\n", viol.Original, viol.Minimised)
		ctx, end := context.WithTimeout(context.Background(), 120*time.Second)
		defer end()
		conf := exec.CommandContext(ctx, self, "replay", "-meta", *metaF, path)
		conf.Env = env
		co, cerr := conf.CombinedOutput()
		fmt.Printf("  replay in a fresh process: reproduced=%v\n", cerr != nil && (strings.Contains(string(co), "reproduced:") || fatalGo(string(co))))
		fmt.Printf("VIOLATION property=%s replay=%s\n", pr.ID, path)
		os.Exit(1)
	}
	if len(trouble) > 0 {
		for _, t := range trouble {
			fmt.Fprintln(os.Stderr, t)
		}
		die("the check could not finish")
	}
	fmt.Printf("held: %d runs, %d distinct interleavings, %d steps, %.1f s\n", all.Runs, len(all.Inter), all.Steps, wall)
}

func fatalGo(s string) bool {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error: ") && !strings.Contains(l, "all goroutines are asleep") && !strings.Contains(l, "out of memory") {
			return true
		}
		if strings.HasPrefix(l, "runtime: goroutine stack exceeds") || strings.HasPrefix(l, "unexpected fault address") || strings.HasPrefix(l, "SIGSEGV") {
			return true
		}
	}
	return false
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

type limitWriter struct {
	b *strings.Builder
	n int
}

func (w *limitWriter) Write(p []byte) (int, error) {
	if w.b.Len() < w.n {
		w.b.Write(p)
	}
	return len(p), nil
}

// matchKnown looks a violation up in the known-findings file. Lines are
// "known: property=ID kind=KIND call=SUBSTRING what".
func matchKnown(path string, r *Replay) string {
	b, err := os.ReadFile(path)
	if err != nil {
		return ""
	}
	op := ""
	if r.Violation.Op != nil {
		o, _ := json.Marshal(r.Violation.Op)
		op = string(o)
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		var id, kind, call string
		rest := strings.Fields(strings.TrimPrefix(l, "known: "))
		var what []string
		for _, f := range rest {
			switch {
			case strings.HasPrefix(f, "property="):
				id = f[9:]
			case strings.HasPrefix(f, "kind="):
				kind = f[5:]
			case strings.HasPrefix(f, "call="):
				call = f[5:]
			default:
				what = append(what, f)
			}
		}
		if id == r.Property && kind == r.Violation.Kind && call != "" && strings.Contains(op, call) {
			return strings.Join(what, " ")
		}
	}
	return ""
}

func writeEvidence(path string, pr *Prop, tier string, seed uint64, st *Stats, wall float64, nviol, timedOut, jobs int) {
	if path == "" {
		return
	}
	comp := map[string]any{
		"real":      append([]string{"every package of the library, compiled from the working tree after instrumentation: "}, meta.Packages...),
		"simulated": []string{"goroutine scheduler (one thread at a time)", "sync and sync/atomic", "map iteration order", "sync.Pool reuse", "clock and math/rand (not used by the library today)"},
		"stub":      []string{"client programs", "custom modifiers and iterators", "document storage"},
	}
	faults := st.Faults
	cov := map[string]any{
		"evaluations":                   st.Runs,
		"distinct_nontrivial":           len(st.NonTrivial),
		"rule":                          pr.Rule,
		"samples":                       st.Samples,
		"simulated_executions":          st.Sims,
		"runs_per_hour":                 int(float64(st.Runs) / wall * 3600),
		"seeds":                         fmt.Sprintf("one 64-bit seed per run, derived from VERIF_SEED=%d, the property and the run index", seed),
		"simulated_time_steps":          st.Steps,
		"simulated_time_unit":           "one library statement or synchronisation operation; the library has no clock",
		"calls_completed":               st.Ops,
		"preemptions":                   st.Preempts,
		"lock_operations":               st.LockOps,
		"lock_waits":                    st.LockWaits,
		"map_enumerations_ordered":      st.MapOrders,
		"pool_gets":                     st.PoolGets,
		"fault_injections":              faults,
		"probes":                        st.Probes,
		"strategies":                    st.Strategies,
		"distinct_interleavings":        len(st.Inter),
		"interleaving_measure":          "hash of the sequence (from thread, code site, to thread) of all context switches of a run",
		"distinct_cases":                len(st.Cases),
		"yield_sites_total":             len(meta.Sites),
		"yield_sites_reached":           len(st.SitesHit),
		"determinism_replays_identical": st.Replayed,
		"inconclusive_runs":             st.Inconclusive,
		"workers":                       jobs,
		"workers_stopped_by_time_limit": timedOut,
		"components":                    comp,
	}
	ev := map[string]any{"property": pr.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": wall, "violations": nviol}
	if len(pr.Assume) > 0 {
		ev["assumptions"] = pr.Assume
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Dir(path), 0o755)
	if err := os.WriteFile(path, b, 0o644); err != nil {
		die("%v", err)
	}
}

// selftest executes the same runs in several processes and worker counts and
// compares the digests of their event logs.
func selftest(args []string) {
	fs := flag.NewFlagSet("selftest", flag.ExitOnError)
	metaF := fs.String("meta", "", "")
	work := fs.String("work", "", "")
	n := fs.Int("n", 200, "")
	seed := fs.Uint64("seed", 1, "")
	race := fs.Bool("race", false, "")
	_ = fs.Parse(args)
	self, _ := os.Executable()
	var ids []string
	for k, p := range props {
		if p.Race == *race {
			ids = append(ids, k)
		}
	}
	sort.Strings(ids)
	bad := 0
	for _, id := range ids {
		var ref map[string]string
		procs := 0
		total := min(*n, props[id].Quick/8)
		for _, step := range []int{1, 3, 7} {
			got := map[string]string{}
			var wg sync.WaitGroup
			var mu sync.Mutex
			for w := 0; w < step; w++ {
				wg.Add(1)
				procs++
				go func(w int) {
					defer wg.Done()
					out := filepath.Join(*work, fmt.Sprintf("st-%s-%d-%d", id, step, w))
					c := exec.Command(self, "worker", "-prop", id, "-seed", fmt.Sprint(*seed), "-from", fmt.Sprint(w), "-step", fmt.Sprint(step), "-total", fmt.Sprint(total), "-out", out, "-digests", out+".dg", "-meta", *metaF)
					c.Env = append(os.Environ(), fmt.Sprintf("GOMAXPROCS=%d", 1+w%4))
					if b, err := c.CombinedOutput(); err != nil {
						fmt.Println(id, err, tail(string(b), 500))
					}
					b, _ := os.ReadFile(out + ".dg")
					mu.Lock()
					for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
						f := strings.SplitN(l, " ", 2)
						if len(f) == 2 {
							got[f[0]] = f[1]
						}
					}
					mu.Unlock()
				}(w)
			}
			wg.Wait()
			if ref == nil {
				ref = got
				continue
			}
			if len(got) != len(ref) {
				fmt.Printf("%s: %d runs vs %d\n", id, len(got), len(ref))
				bad++
			}
			for k, v := range ref {
				if got[k] != v {
					fmt.Printf("%s run %s differs: %s vs %s\n", id, k, v, got[k])
					bad++
					break
				}
			}
		}
		fmt.Printf("%s: %d runs, %d processes, worker counts 1/3/7\n", id, len(ref), procs)
	}
	if bad > 0 {
		os.Exit(3)
	}
	fmt.Println("deterministic")
}
