// Package simrt is the runtime of the simulator: one process, real goroutines,
// exactly one of them running at a time, every switch decided by a seeded
// generator or by a recorded list of switches.
//
// Functions that touch simulator state are marked norace and the handoff hides
// itself from the race detector, so that the detector sees only the ordering
// that the simulated program creates.
package simrt

import (
	"fmt"
	"math"
	"unsafe"
)

// Strategy kinds.
const (
	None    = iota // never preempt, switch only when blocked or done
	Uniform        // preempt at every yield with probability Num/Den
	Globals        // as Uniform, at package-state and lock sites only
	Sites          // a seeded subset of sites, with decaying probability per site
	PCT            // random priorities, Depth change points in Steps steps
	Replay         // follow Switches
)

// Sched describes how one run is scheduled.
type Sched struct {
	Kind     int      `json:"kind"`
	Num      uint32   `json:"num,omitempty"`
	Den      uint32   `json:"den,omitempty"`
	Depth    int      `json:"depth,omitempty"`
	Steps    int64    `json:"steps,omitempty"`
	Seed     uint64   `json:"seed"`
	Switches []Switch `json:"switches,omitempty"`
}

// Switch is one scheduling decision: thread T, in its op Op, at the Y-th yield
// of that op, gives way to thread To. Forced switches happen where T cannot go
// on (blocked, finished).
type Switch struct {
	T      int32 `json:"t"`
	Op     int32 `json:"op"`
	Y      int64 `json:"y"`
	To     int32 `json:"to"`
	Forced bool  `json:"forced,omitempty"`
	Site   int32 `json:"site"`
}

// Pseudo sites.
const (
	SiteOp    = -1
	SiteLock  = -2
	SiteBlock = -3
	SiteDone  = -4
	SiteStart = -5
	SiteUser  = -6
)

const (
	stReady = iota
	stBlocked
	stStalled
	stDone
	stGone // its process was restarted
)

// Waiter is something a thread can be blocked on.
type Waiter interface{ Ready() bool }

// Thread is one simulated thread.
type Thread struct {
	ID      int32
	sem     chan struct{}
	state   int
	wait    Waiter
	what    string
	op      int32
	y       int64
	prio    uint64
	mapRng  Rng
	aborted bool
	client  bool  // one of the functions given to Run
	root    int32 // the client it works for
	base    int64 // yields before it was last woken
	fn      func()
}

// Limits.
const (
	MaxThreads  = 128
	room        = 96 // goroutines of the program at one time
	MaxSwitches = 1 << 15
	MaxSites    = 1 << 16
)

// State of the running simulation. Only the running thread touches it.
var (
	on        bool
	aborting  bool
	cur       *Thread
	threads   [MaxThreads]*Thread
	nThreads  int
	sched     Sched
	rng       Rng
	steps     int64
	opLimit   int64
	rec       [MaxSwitches]Switch
	nRec      int
	swPerT    [MaxThreads][]int32 // replay: indexes into sched.Switches
	hits      [MaxSites]uint32
	active    [MaxSites]bool
	changeAt  [16]int64
	nChange   int
	lowPrio   uint64
	seq       int64
	mapSeed   uint64
	poolRng   Rng
	poolSeed  uint64
	digest    uint64
	fin       chan struct{}
	deadlock  bool
	starved   bool
	overrun   bool
	piled     bool
	blockedAt [MaxThreads]string
	nBlocked  int
	preempts  int64
	poolCalls int64
	mapCalls  int64
	lockCalls int64
	lockWaits int64
	clock     int64
	clockBase int64

	timersFired int64
	clients     int // unfinished ones
	spawned     int32
	crashed     bool
	crashText   string
	daemons     []*Thread // threads of the program that outlive a run

	// Piles counts runs in which goroutines of the program accumulated.
	Piles int

	// Covered counts yields per site over the life of the process.
	Covered [MaxSites]uint32
)

// AbortPanic unwinds threads of a run that cannot finish.
type AbortPanic struct{ Why string }

// Rng is a splitmix64 generator.
type Rng struct{ s uint64 }

// NewRng returns a generator for seed.
func NewRng(seed uint64) *Rng { return &Rng{seed} }

// Next returns the next 64 bits.
//
//go:norace
func (r *Rng) Next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn returns a number in [0,n).
//
//go:norace
func (r *Rng) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Next() % uint64(n))
}

// Mix combines numbers into a seed.
//
//go:norace
func Mix(a, b uint64) uint64 {
	r := Rng{a ^ (b * 0xd6e8feb86659fd93)}
	r.Next()
	return r.Next() ^ b
}

// Config of a run besides its schedule.
type Config struct {
	Sched    Sched
	MapSeed  uint64 // 0: sorted order
	PoolSeed uint64 // 0: newest first
	OpLimit  int64  // yields one op may take
	NSites   int
}

// Report of a finished run.
type Report struct {
	Deadlock  bool     // nobody could run
	Starved   bool     // somebody was blocked by a stalled thread
	Overrun   bool     // an op exceeded its step budget
	Piled     bool     // goroutines of the program accumulated
	Crashed   string   // a goroutine of the program panicked
	Blocked   []string // what the stuck threads waited for
	Switches  []Switch
	Steps     int64
	Preempts  int64
	Digest    uint64
	MapCalls  int64
	PoolCalls int64
	LockCalls int64
	LockWaits int64
}

// Run executes the functions as simulated threads to completion.
//
//go:norace
func Run(c Config, fns []func()) Report {
	if on {
		panic("simrt: nested run")
	}
	reset(c)
	for i, f := range fns {
		t := spawn(f)
		t.client, t.root = true, int32(i)
	}
	clients = len(fns)
	adopt()
	fin = make(chan struct{}, 1)
	on = true
	first := pickStart()
	recordSwitch(nil, first, SiteStart, true)
	cur = first
	handTo(first)
	waitFin()
	on = false
	retire()
	r := Report{Deadlock: deadlock, Starved: starved, Overrun: overrun, Piled: piled, Crashed: crashText, Steps: steps, Preempts: preempts, Digest: digest,
		MapCalls: mapCalls, PoolCalls: poolCalls, LockCalls: lockCalls, LockWaits: lockWaits}
	for i := 0; i < nBlocked; i++ {
		r.Blocked = append(r.Blocked, blockedAt[i])
	}
	r.Switches = append(r.Switches, rec[:nRec]...)
	cur = nil
	return r
}

//go:norace
func reset(c Config) {
	sched = c.Sched
	rng = Rng{c.Sched.Seed}
	clockBase += steps * 1000
	nThreads, nRec, steps, seq, preempts = 0, 0, 0, 0, 0
	mapCalls, poolCalls, lockCalls, lockWaits = 0, 0, 0, 0
	digest = 14695981039346656037
	deadlock, starved, overrun, piled, aborting = false, false, false, false, false
	crashed, crashText, spawned, idle = false, "", 0, 0
	nBlocked = 0
	mapSeed, poolSeed = c.MapSeed, c.PoolSeed
	poolRng = Rng{Mix(c.PoolSeed, 77)}
	opLimit = c.OpLimit
	n := c.NSites
	if n > MaxSites {
		n = MaxSites
	}
	switch c.Sched.Kind {
	case Sites:
		for i := 0; i < n; i++ {
			hits[i] = 0
			active[i] = uint32(rng.Next()%uint64(c.Sched.Den)) < c.Sched.Num
		}
	case PCT:
		nChange = c.Sched.Depth
		if nChange > len(changeAt) {
			nChange = len(changeAt)
		}
		st := c.Sched.Steps
		if st < 1 {
			st = 1
		}
		for i := 0; i < nChange; i++ {
			changeAt[i] = int64(rng.Next() % uint64(st))
		}
		lowPrio = 1 << 20
	}
	for i := range swPerT {
		swPerT[i] = nil
	}
	if c.Sched.Kind == Replay {
		for i, s := range c.Sched.Switches {
			if s.T >= 0 && int(s.T) < MaxThreads {
				swPerT[s.T] = append(swPerT[s.T], int32(i))
			}
		}
	}
}

//go:norace
func spawn(f func()) *Thread {
	if nThreads >= MaxThreads {
		panic("simrt: too many threads")
	}
	t := &Thread{ID: int32(nThreads), sem: make(chan struct{}, 1), fn: f}
	t.prio = rng.Next() | 1<<40
	threads[nThreads] = t
	nThreads++
	go t.main()
	return t
}

// adopt lets goroutines the program left behind take part in the run.
//
//go:norace
func adopt() {
	old := daemons
	daemons = nil
	for _, t := range old {
		if t.state == stGone {
			daemons = append(daemons, t)
			continue
		}
		t.ID, t.root, t.base = int32(nThreads), 0, t.y
		t.prio = rng.Next() | 1<<40
		threads[nThreads] = t
		nThreads++
		if t.sem == nil {
			t.sem = make(chan struct{}, 1)
			go t.main()
		}
	}
}

// retire keeps the goroutines that are still there for the next run.
//
//go:norace
func retire() {
	for i := 0; i < nThreads; i++ {
		if t := threads[i]; !t.client && t.state != stDone {
			daemons = append(daemons, t)
		}
	}
}

// OnRestart ends what is left of the old process.
//
//go:norace
func OnRestart() {
	if on {
		for i := 0; i < nThreads; i++ {
			if t := threads[i]; !t.client && t.state != stDone {
				t.state = stGone
			}
		}
		return
	}
	killDaemons()
	chans = [64]*chanState{}
	alarms, nextAt = nil, math.MaxInt64
	clock, clockBase, steps = 0, bootAt, 0
}

//go:norace
func killDaemons() {
	l := daemons
	daemons = nil
	for _, t := range l {
		if t.sem == nil {
			continue
		}
		nThreads = 1
		threads[0] = t
		t.ID = 0
		fin = make(chan struct{}, 1)
		aborting, clients = true, 0
		on, cur = true, t
		t.state = stReady
		handTo(t)
		waitFin()
		on, cur, aborting = false, nil, false
	}
}

//go:norace
func (t *Thread) main() {
	park(t)
	defer finish(t)
	if !aborting {
		t.fn()
	}
}

//go:norace
func finish(t *Thread) {
	if r := recover(); r != nil {
		if _, ok := r.(AbortPanic); !ok {
			if t.client {
				panic(r)
			}
			if !crashed {
				crashed, crashText = true, crashString(r)
			}
			aborting = true
		}
	}
	t.state = stDone
	if t.client {
		clients--
	}
	ReleaseMerge(unsafe.Pointer(&finAddr))
	if clients <= 0 && !aborting {
		signalFin()
		return
	}
	n := choose(t, SiteDone, true)
	if n == nil {
		signalFin()
		return
	}
	recordSwitch(t, n, SiteDone, true)
	cur = n
	handTo(n)
}

// Go starts another simulated thread (a go statement of the program).
//
//go:norace
func Go(f func()) {
	if !on || cur == nil {
		// started while the process starts up: runs with the first run
		daemons = append(daemons, &Thread{fn: f, op: 90000 + int32(len(daemons))})
		return
	}
	if aborting {
		return
	}
	root := cur.root
	makeRoom()
	launch(f).root = root
	Yield(SiteUser)
}

// makeRoom lets goroutines of the program finish when there are too many.
//
//go:norace
func makeRoom() {
	for i := 0; nThreads >= room && i < 1000000; i++ {
		var next *Thread
		for k := nThreads - 1; k >= 0; k-- {
			t := threads[k]
			if t.client || t == cur {
				continue
			}
			if t.state == stDone {
				return
			}
			if isReady(t) {
				next = t
			}
		}
		if next == nil {
			break
		}
		giveWay(next)
	}
	if nThreads >= room {
		piled, aborting = true, true
		Piles++
		panic(AbortPanic{"goroutines"})
	}
}

// giveWay lets n run instead of the running thread, which stays ready.
//
//go:norace
func giveWay(n *Thread) {
	t := cur
	recordSwitch(t, n, SiteUser, true)
	cur = n
	handTo(n)
	park(t)
	if aborting && !t.aborted {
		t.aborted = true
		panic(AbortPanic{"abort"})
	}
}

//go:norace
func launch(f func()) *Thread {
	t := reuse(f)
	if t == nil {
		t = spawn(f)
	}
	spawned++
	t.op = 100000 + spawned
	t.mapRng = Rng{Mix(mapSeed, uint64(t.op))}
	return t
}

// reuse takes the place of a finished goroutine of the program.
//
//go:norace
func reuse(f func()) *Thread {
	for i := 0; i < nThreads; i++ {
		if !threads[i].client && threads[i].state == stDone {
			t := &Thread{ID: int32(i), sem: make(chan struct{}, 1), fn: f}
			t.prio = rng.Next() | 1<<40
			threads[i] = t
			go t.main()
			return t
		}
	}
	return nil
}

func crashString(r any) string {
	s := fmt.Sprint(r)
	if len(s) > 300 {
		s = s[:300]
	}
	return "panic: " + s
}

//go:norace
func pickStart() *Thread {
	if sched.Kind == Replay {
		for i := range sched.Switches {
			s := &sched.Switches[i]
			if s.T < 0 && int(s.To) < nThreads {
				return threads[s.To]
			}
		}
		return threads[0]
	}
	if sched.Kind == None {
		return threads[0]
	}
	if sched.Kind == PCT {
		b := threads[0]
		for i := 1; i < nThreads; i++ {
			if threads[i].prio > b.prio {
				b = threads[i]
			}
		}
		return b
	}
	return threads[rng.Intn(nThreads)]
}

//go:norace
func isReady(t *Thread) bool {
	switch t.state {
	case stReady:
		return true
	case stBlocked:
		return t.wait == nil || t.wait.Ready()
	}
	return false
}

// choose picks the next thread to run instead of me; nil means nobody else.
//
//go:norace
func choose(me *Thread, site int32, forced bool) *Thread {
	var r [MaxThreads]*Thread
	n := 0
	stalled := 0
	stuck := 0
	if aborting {
		for i := 0; i < nThreads; i++ {
			if threads[i] != me && threads[i].state != stDone {
				return threads[i]
			}
		}
		return nil
	}
	for i := 0; i < nThreads; i++ {
		t := threads[i]
		if t == me {
			continue
		}
		switch t.state {
		case stDone, stGone:
		case stStalled:
			stalled++
		default:
			if isReady(t) {
				r[n] = t
				n++
				if t.client {
					idle = 0
				}
			} else if t.client {
				stuck++
			}
		}
	}
	if n == 0 {
		if !forced {
			return nil
		}
		meStuck := me != nil && me.state == stBlocked && !isReady(me)
		if me != nil && me.state == stBlocked && !meStuck {
			return me
		}
		meStuck = meStuck && me.client
		if (stuck > 0 || meStuck) && idle < maxIdle && fireTimer(true) {
			idle++
			return choose(me, site, forced)
		}
		meStalled := me != nil && me.state == stStalled
		if meStalled {
			stalled++
		}
		if stalled > 0 {
			if held() {
				if !starved {
					noteBlocked()
				}
				starved = true
			}
			// resume the stalled thread with the smallest id
			for i := 0; i < nThreads; i++ {
				if threads[i].state == stStalled {
					threads[i].state = stReady
					return threads[i]
				}
			}
		}
		if stuck > 0 || meStuck {
			deadlock = true
			noteBlocked()
			aborting = true
			for i := 0; i < nThreads; i++ {
				if threads[i].state == stBlocked {
					return threads[i]
				}
			}
		}
		return nil
	}
	switch sched.Kind {
	case Replay:
		if me != nil {
			if s := replayAt(me, forced); s != nil {
				for i := 0; i < n; i++ {
					if r[i].ID == s.To {
						return r[i]
					}
				}
			}
		}
		if !forced {
			return nil
		}
		return r[0]
	case PCT:
		b := r[0]
		for i := 1; i < n; i++ {
			if r[i].prio > b.prio {
				b = r[i]
			}
		}
		return b
	case None: // goroutines of the program first
		for i := 0; i < n; i++ {
			if !r[i].client {
				return r[i]
			}
		}
		if !forced {
			return nil
		}
		return r[0]
	}
	return r[rng.Intn(n)]
}

// held reports whether a client waits although none of the threads that work
// for it is stalled.
//
//go:norace
func held() bool {
	var own [MaxThreads]bool
	for i := 0; i < nThreads; i++ {
		if threads[i].state == stStalled {
			own[threads[i].root] = true
		}
	}
	for i := 0; i < nThreads; i++ {
		if t := threads[i]; t.client && t.state == stBlocked && !isReady(t) && !own[t.root] {
			return true
		}
	}
	return false
}

//go:norace
func noteBlocked() {
	nBlocked = 0
	for i := 0; i < nThreads; i++ {
		if threads[i].client && threads[i].state == stBlocked && !isReady(threads[i]) {
			blockedAt[nBlocked] = threads[i].what
			nBlocked++
		}
	}
}

// replayAt returns the recorded switch of thread t at its current position.
//
//go:norace
func replayAt(t *Thread, forced bool) *Switch {
	l := swPerT[t.ID]
	for i := 0; i < len(l); i++ {
		s := &sched.Switches[l[i]]
		if s.Op == t.op && s.Y == t.y && s.Forced == forced {
			return s
		}
	}
	return nil
}

//go:norace
func recordSwitch(from, to *Thread, site int32, forced bool) {
	f, op, y := int32(-1), int32(0), int64(0)
	if from != nil {
		f, op, y = from.ID, from.op, from.y
	}
	digest = (digest ^ uint64(uint32(f)) ^ uint64(uint32(site))<<8 ^ uint64(uint32(op))<<24 ^ uint64(y)<<40 ^ uint64(uint32(to.ID))<<56) * 1099511628211
	if nRec < MaxSwitches {
		rec[nRec] = Switch{f, op, y, to.ID, forced, site}
		nRec++
	}
}

// Y is a yield point before an ordinary statement.
//
//go:norace
func Y(site int32) {
	if on {
		step(site, false)
	}
}

// G is a yield point before a statement that mentions package-level state.
//
//go:norace
func G(site int32) {
	if on {
		step(site, true)
	}
}

// Yield is a yield point of the simulated primitives and the harness.
//
//go:norace
func Yield(site int32) {
	if on {
		step(site, true)
	}
}

//go:norace
func step(site int32, g bool) {
	t := cur
	if t == nil {
		return
	}
	if aborting {
		return
	}
	steps++
	t.y++
	if site >= 0 && site < MaxSites {
		Covered[site]++
	}
	if clockNow() >= nextAt {
		fireTimer(false)
	}
	if t.y-t.base > opLimit {
		overrun = true
		aborting = true
		panic(AbortPanic{"step budget"})
	}
	var sw bool
	switch sched.Kind {
	case None:
		sw = site == SiteOp && nThreads > clients
	case Uniform:
		sw = uint32(rng.Next()>>32)%sched.Den < sched.Num
	case Globals:
		sw = g && uint32(rng.Next()>>32)%sched.Den < sched.Num
	case Sites:
		if site < 0 {
			sw = rng.Next()&3 == 0
		} else if active[site] {
			hits[site]++
			h := hits[site]
			sw = uint32(rng.Next()>>32)%(1+h/2) == 0
		}
	case PCT:
		for i := 0; i < nChange; i++ {
			if changeAt[i] == steps {
				lowPrio--
				t.prio = lowPrio
				sw = true
			}
		}
		if site == SiteLock {
			sw = true
		}
	case Replay:
		sw = replayAt(t, false) != nil
	}
	if !sw || nRec >= MaxSwitches-MaxThreads*4 {
		return
	}
	n := choose(t, site, false)
	if n == nil || n == t {
		return
	}
	if sched.Kind == PCT && n.prio < t.prio {
		return
	}
	preempts++
	recordSwitch(t, n, site, false)
	cur = n
	handTo(n)
	park(t)
	if aborting && !t.aborted {
		t.aborted = true
		panic(AbortPanic{"abort"})
	}
}

// Block parks the running thread until w is ready.
//
//go:norace
func Block(w Waiter, what string) {
	t := cur
	if !on || t == nil || aborting {
		return
	}
	lockWaits++
	for !w.Ready() {
		t.state, t.wait, t.what = stBlocked, w, what
		t.y++
		n := choose(t, SiteBlock, true)
		if n == nil || n == t {
			t.state, t.wait = stReady, nil
		} else {
			recordSwitch(t, n, SiteBlock, true)
			cur = n
			handTo(n)
			park(t)
		}
		t.state, t.wait = stReady, nil
		if aborting {
			if !t.aborted {
				t.aborted = true
				panic(AbortPanic{"deadlock"})
			}
			return
		}
	}
	t.state, t.wait = stReady, nil
	if !t.client {
		t.base = t.y
	}
}

// Stall parks the running thread until every other thread has finished, is
// stalled, or cannot go on.
//
//go:norace
func Stall() {
	t := cur
	if !on || t == nil || aborting {
		return
	}
	t.y++
	t.state = stStalled
	n := choose(t, SiteUser, true)
	if n == nil || n == t {
		t.state = stReady
		return
	}
	recordSwitch(t, n, SiteUser, true)
	cur = n
	handTo(n)
	park(t)
	t.state = stReady
	if aborting && !t.aborted {
		t.aborted = true
		panic(AbortPanic{"abort"})
	}
}

// Gosched is runtime.Gosched: somebody else runs next if anybody can.
//
//go:norace
func Gosched() {
	t := cur
	if !on || t == nil || aborting {
		return
	}
	steps++
	t.y++
	if t.y-t.base > opLimit {
		overrun = true
		aborting = true
		panic(AbortPanic{"step budget"})
	}
	if sched.Kind == PCT {
		lowPrio--
		t.prio = lowPrio
	}
	if n := choose(t, SiteUser, true); n != nil && n != t {
		giveWay(n)
	}
}

// OpBegin marks the start of op id on the running thread.
//
//go:norace
func OpBegin(id int) {
	t := cur
	if !on || t == nil {
		return
	}
	t.op = int32(id)
	t.y, t.base = 0, 0
	t.mapRng = Rng{Mix(mapSeed, uint64(id)+1)}
	step(SiteOp, true)
}

// OpSteps returns the yields of the running op so far.
//
//go:norace
func OpSteps() int64 {
	if cur == nil {
		return 0
	}
	return cur.y
}

// Seq returns the next number of the global event order.
//
//go:norace
func Seq() int64 {
	seq++
	return seq
}

// Note adds to the run digest.
//
//go:norace
func Note(s string) {
	for i := 0; i < len(s); i++ {
		digest = (digest ^ uint64(s[i])) * 1099511628211
	}
}

// Running reports whether a simulation is in progress.
//
//go:norace
func Running() bool { return on && cur != nil }

// Aborting reports whether the run is being torn down.
//
//go:norace
func Aborting() bool { return aborting }

// ThreadID returns the id of the running thread, -1 outside a run.
//
//go:norace
func ThreadID() int {
	if cur == nil {
		return -1
	}
	return int(cur.ID)
}

// RootID returns the client the running thread works for, -1 outside a run.
//
//go:norace
func RootID() int {
	if cur == nil {
		return -1
	}
	return int(cur.root)
}

// PoolChoice returns a choice in [0,n) for object recycling, 0 when unseeded.
//
//go:norace
func PoolChoice(n int) int {
	poolCalls++
	if poolSeed == 0 {
		return 0
	}
	return poolRng.Intn(n)
}

// CountLock counts lock operations.
//
//go:norace
func CountLock() { lockCalls++ }

//go:norace
func handTo(t *Thread) {
	raceOff()
	t.sem <- struct{}{}
	raceOn()
}

//go:norace
func park(t *Thread) {
	raceOff()
	<-t.sem
	raceOn()
}

// signalFin and waitFin order everything threads did before what the caller of
// Run does next; that edge is real.
func signalFin() { fin <- struct{}{} }

func waitFin() {
	<-fin
	Acquire(unsafe.Pointer(&finAddr))
}

var finAddr [8]byte
