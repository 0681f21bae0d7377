package simrt

import (
	"math"
	"time"
	"unsafe"
)

// Timers run on the virtual clock: one fires when the clock has reached it, and
// the clock jumps ahead to the earliest one when the clients can only wait.

type alarm struct {
	next   *alarm
	at     int64
	period int64
	c      chan time.Time
	f      func()
	set    bool
	root   int32
	addr   [8]byte
}

const maxIdle = 20000 // timers in a row that bring no client further

var (
	alarms *alarm
	nextAt int64 = math.MaxInt64
	idle   int
)

// Timer is time.Timer on the virtual clock.
type Timer struct {
	C <-chan time.Time
	a *alarm
}

// Ticker is time.Ticker on the virtual clock.
type Ticker struct {
	C <-chan time.Time
	a *alarm
}

//go:norace
func clockNow() int64 { return clockBase + steps*1000 + clock }

//go:norace
func (a *alarm) start(d time.Duration) {
	ReleaseMerge(unsafe.Pointer(&a.addr))
	if d < 0 {
		d = 0
	}
	a.at, a.set = clockNow()+int64(d), true
	if cur != nil {
		a.root = cur.root
	}
	a.next = alarms
	alarms = a
	if a.at < nextAt {
		nextAt = a.at
	}
}

//go:norace
func (a *alarm) stop() bool {
	was := a.set
	for h := &alarms; *h != nil; h = &(*h).next {
		if *h == a {
			*h = a.next
			break
		}
	}
	a.set, a.next = false, nil
	if a.c != nil {
		select {
		case <-a.c:
		default:
		}
	}
	return was
}

// fireTimer lets the earliest timer fire if its time has come; jump makes it
// come.
//
//go:norace
func fireTimer(jump bool) bool {
	var b **alarm
	for h := &alarms; *h != nil; h = &(*h).next {
		if b == nil || (*h).at <= (*b).at {
			b = h
		}
	}
	if b == nil {
		nextAt = math.MaxInt64
		return false
	}
	a := *b
	nextAt = a.at
	if n := clockNow(); n < a.at {
		if !jump {
			return false
		}
		clock += a.at - n
	}
	*b, a.next, a.set = a.next, nil, false
	nextAt = math.MinInt64
	if a.period > 0 {
		a.at += a.period * (1 + (clockNow()-a.at)/a.period)
		a.set = true
		a.next = alarms
		alarms = a
	}
	timersFired++
	if a.f != nil && full() { // later
		a.at, a.set = clockNow()+1e6, true
		a.next = alarms
		alarms = a
		return false
	}
	if a.f != nil {
		f := a.f
		launch(func() {
			Acquire(unsafe.Pointer(&a.addr))
			f()
		}).root = a.root
		return true
	}
	raceOff()
	select {
	case a.c <- epoch.Add(time.Duration(clockNow())):
	default:
	}
	raceOn()
	return true
}

//go:norace
func full() bool {
	for i := 0; i < nThreads; i++ {
		if !threads[i].client && threads[i].state == stDone {
			return false
		}
	}
	return nThreads >= room
}

// NewTimer is time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	a := &alarm{c: make(chan time.Time, 1)}
	a.start(d)
	return &Timer{a.c, a}
}

// AfterFunc is time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	a := &alarm{f: f}
	a.start(d)
	return &Timer{nil, a}
}

// Stop is Timer.Stop.
func (t *Timer) Stop() bool { return t.a.stop() }

// Reset is Timer.Reset.
func (t *Timer) Reset(d time.Duration) bool {
	was := t.a.stop()
	t.a.start(d)
	return was
}

// NewTicker is time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	a := &alarm{c: make(chan time.Time, 1), period: int64(d)}
	a.start(d)
	return &Ticker{a.c, a}
}

// Stop is Ticker.Stop.
func (t *Ticker) Stop() { t.a.stop() }

// Reset is Ticker.Reset.
func (t *Ticker) Reset(d time.Duration) {
	t.a.stop()
	t.a.period = int64(d)
	t.a.start(d)
}

// TimeTick is time.Tick.
func TimeTick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

// TimeAfter is time.After.
func TimeAfter(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// TimeNow is the virtual clock: one microsecond per step.
func TimeNow() time.Time { return epoch.Add(now()) }

// TimeSince is time.Since on the virtual clock.
func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }

// TimeUntil is time.Until on the virtual clock.
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

// TimeSleep waits on the virtual clock.
func TimeSleep(d time.Duration) {
	if !Running() || d <= 0 {
		Jump(int64(max(d, 0)))
		Yield(SiteUser)
		return
	}
	ChanRecv(TimeAfter(d))
}

var epoch = time.Date(2025, 1, 1, 0, 0, 0, 0, time.UTC)

//go:norace
func now() time.Duration {
	clock += 1 + int64(steps%7)
	return time.Duration(clockNow())
}

// Jump advances the virtual clock.
//
//go:norace
func Jump(ns int64) { clock += ns }
