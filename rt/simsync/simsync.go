// Package sync simulates package sync on top of the simulator's scheduler.
package sync

import (
	"fmt"
	"sort"
	real "sync"
	"unsafe"

	"SIMROOT/simrt"
)

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex is a simulated mutex.
type Mutex struct {
	held bool
	_    [8]byte
}

// Ready reports whether the mutex is free.
//
//go:norace
func (m *Mutex) Ready() bool { return !m.held }

// Lock locks m.
//
//go:norace
func (m *Mutex) Lock() {
	simrt.CountLock()
	simrt.Yield(simrt.SiteLock)
	if m.held {
		simrt.Block(m, "Mutex.Lock")
		if !simrt.Running() && m.held {
			panic("simsync: Mutex.Lock would block outside a simulation")
		}
	}
	m.held = true
	simrt.Acquire(unsafe.Pointer(m))
}

// TryLock tries to lock m.
//
//go:norace
func (m *Mutex) TryLock() bool {
	simrt.CountLock()
	simrt.Yield(simrt.SiteLock)
	if m.held {
		return false
	}
	m.held = true
	simrt.Acquire(unsafe.Pointer(m))
	return true
}

// Unlock unlocks m.
//
//go:norace
func (m *Mutex) Unlock() {
	if !m.held {
		if simrt.Aborting() {
			return
		}
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	simrt.Release(unsafe.Pointer(m))
	m.held = false
	simrt.Yield(simrt.SiteLock)
}

// RWMutex is a simulated read-write mutex. As in package sync a waiting writer
// keeps new readers out.
type RWMutex struct {
	readers  int
	writer   bool
	waiting  int
	granted  int // readers let in by an Unlock while writers wait
	rAddr    [8]byte
	wAddr    [8]byte
	readerQ  rwReader
	writerQ  rwWriter
	waitersR int
}

type rwReader struct{ m *RWMutex }
type rwWriter struct{ m *RWMutex }

// Ready reports whether a reader may enter.
//
//go:norace
func (r rwReader) Ready() bool {
	return !r.m.writer && (r.m.waiting == 0 || r.m.granted > 0)
}

// Ready reports whether a writer may enter.
//
//go:norace
func (w rwWriter) Ready() bool { return !w.m.writer && w.m.readers == 0 && w.m.granted == 0 }

// RLock locks m for reading.
//
//go:norace
func (m *RWMutex) RLock() {
	simrt.CountLock()
	simrt.Yield(simrt.SiteLock)
	if m.writer || m.waiting > 0 {
		m.waitersR++
		simrt.Block(rwReader{m}, "RWMutex.RLock")
		if m.waitersR > 0 {
			m.waitersR--
		}
		if m.granted > 0 {
			m.granted--
		}
		if !simrt.Running() && m.writer {
			panic("simsync: RWMutex.RLock would block outside a simulation")
		}
	}
	m.readers++
	simrt.Acquire(unsafe.Pointer(&m.rAddr))
}

// TryRLock tries to lock m for reading.
//
//go:norace
func (m *RWMutex) TryRLock() bool {
	simrt.CountLock()
	simrt.Yield(simrt.SiteLock)
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	simrt.Acquire(unsafe.Pointer(&m.rAddr))
	return true
}

// RUnlock undoes a single RLock.
//
//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		if simrt.Aborting() {
			return
		}
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	simrt.ReleaseMerge(unsafe.Pointer(&m.wAddr))
	m.readers--
	simrt.Yield(simrt.SiteLock)
}

// Lock locks m for writing.
//
//go:norace
func (m *RWMutex) Lock() {
	simrt.CountLock()
	simrt.Yield(simrt.SiteLock)
	if m.writer || m.readers > 0 || m.granted > 0 {
		m.waiting++
		simrt.Block(rwWriter{m}, "RWMutex.Lock")
		m.waiting--
		if !simrt.Running() && (m.writer || m.readers > 0) {
			panic("simsync: RWMutex.Lock would block outside a simulation")
		}
	}
	m.writer = true
	simrt.Acquire(unsafe.Pointer(&m.rAddr))
	simrt.Acquire(unsafe.Pointer(&m.wAddr))
}

// TryLock tries to lock m for writing.
//
//go:norace
func (m *RWMutex) TryLock() bool {
	simrt.CountLock()
	simrt.Yield(simrt.SiteLock)
	if m.writer || m.readers > 0 || m.waiting > 0 {
		return false
	}
	m.writer = true
	simrt.Acquire(unsafe.Pointer(&m.rAddr))
	simrt.Acquire(unsafe.Pointer(&m.wAddr))
	return true
}

// Unlock unlocks m for writing. Readers already waiting go before the next writer.
//
//go:norace
func (m *RWMutex) Unlock() {
	if !m.writer {
		if simrt.Aborting() {
			return
		}
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	simrt.Release(unsafe.Pointer(&m.rAddr))
	m.writer = false
	m.granted = m.waitersR
	simrt.Yield(simrt.SiteLock)
}

// RLocker returns a Locker for the read side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once is a simulated sync.Once.
type Once struct {
	done    bool
	running bool
	_       [8]byte
}

// Ready reports whether the first call has returned.
//
//go:norace
func (o *Once) Ready() bool { return !o.running }

// Do calls f once.
//
//go:norace
func (o *Once) Do(f func()) {
	simrt.Yield(simrt.SiteLock)
	if o.running {
		simrt.Block(o, "Once.Do")
	}
	if o.done {
		simrt.Acquire(unsafe.Pointer(o))
		return
	}
	o.running = true
	defer o.finish()
	f()
}

//go:norace
func (o *Once) finish() {
	o.done = true
	o.running = false
	simrt.ReleaseMerge(unsafe.Pointer(o))
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// WaitGroup is a simulated sync.WaitGroup.
type WaitGroup struct {
	n int
	_ [8]byte
}

// Ready reports whether the counter is zero.
//
//go:norace
func (w *WaitGroup) Ready() bool { return w.n <= 0 }

// Add adds delta.
//
//go:norace
func (w *WaitGroup) Add(delta int) {
	if delta < 0 {
		simrt.ReleaseMerge(unsafe.Pointer(w))
	}
	w.n += delta
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	simrt.Yield(simrt.SiteLock)
}

// Done subtracts one.
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait blocks until the counter is zero.
//
//go:norace
func (w *WaitGroup) Wait() {
	simrt.Yield(simrt.SiteLock)
	if w.n > 0 {
		simrt.Block(w, "WaitGroup.Wait")
	}
	simrt.Acquire(unsafe.Pointer(w))
}

// Go runs f in a new simulated thread.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() { defer w.Done(); f() })
}

// Cond is a simulated sync.Cond.
type Cond struct {
	L      Locker
	ticket int
	served int
}

// NewCond returns a Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

type condWait struct {
	c *Cond
	t int
}

// Ready reports whether the waiter was signalled.
//
//go:norace
func (w condWait) Ready() bool { return w.c.served > w.t }

// Wait waits for a signal.
//
//go:norace
func (c *Cond) Wait() {
	t := c.ticket
	c.ticket++
	c.L.Unlock()
	simrt.Block(condWait{c, t}, "Cond.Wait")
	c.L.Lock()
}

// Signal wakes one waiter.
//
//go:norace
func (c *Cond) Signal() {
	if c.served < c.ticket {
		c.served++
	}
	simrt.Yield(simrt.SiteLock)
}

// Broadcast wakes all waiters.
//
//go:norace
func (c *Cond) Broadcast() {
	c.served = c.ticket
	simrt.Yield(simrt.SiteLock)
}

// Pool is a simulated sync.Pool shared by all threads; which object comes back,
// or none, is the simulator's choice.
type Pool struct {
	New  func() any
	head *poolNode
	n    int
}

type poolNode struct {
	v    any
	next *poolNode
	hb   [8]byte
}

// Get takes an object.
//
//go:norace
func (p *Pool) Get() any {
	simrt.Yield(simrt.SiteLock)
	if p.head != nil {
		k := simrt.PoolChoice(p.n + 1)
		if k < p.n {
			pp := &p.head
			for ; k > 0; k-- {
				pp = &(*pp).next
			}
			nd := *pp
			*pp = nd.next
			p.n--
			simrt.Acquire(unsafe.Pointer(&nd.hb))
			return nd.v
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put returns an object.
//
//go:norace
func (p *Pool) Put(x any) {
	if x == nil || p.n >= 64 {
		return
	}
	nd := &poolNode{v: x}
	simrt.ReleaseMerge(unsafe.Pointer(&nd.hb))
	nd.next = p.head
	p.head = nd
	p.n++
	simrt.Yield(simrt.SiteLock)
}

// Map is sync.Map with yield points and a stable Range order.
type Map struct{ m real.Map }

func (m *Map) Load(k any) (any, bool) { simrt.Yield(simrt.SiteLock); return m.m.Load(k) }
func (m *Map) Store(k, v any)         { simrt.Yield(simrt.SiteLock); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	simrt.Yield(simrt.SiteLock)
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	simrt.Yield(simrt.SiteLock)
	return m.m.LoadAndDelete(k)
}
func (m *Map) Delete(k any)              { simrt.Yield(simrt.SiteLock); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool) { simrt.Yield(simrt.SiteLock); return m.m.Swap(k, v) }
func (m *Map) Clear()                    { simrt.Yield(simrt.SiteLock); m.m.Clear() }
func (m *Map) CompareAndSwap(k, a, b any) bool {
	simrt.Yield(simrt.SiteLock)
	return m.m.CompareAndSwap(k, a, b)
}
func (m *Map) CompareAndDelete(k, a any) bool {
	simrt.Yield(simrt.SiteLock)
	return m.m.CompareAndDelete(k, a)
}

// Range visits the entries present, in a stable order.
func (m *Map) Range(f func(k, v any) bool) {
	simrt.Yield(simrt.SiteLock)
	type kv struct {
		s    string
		k, v any
	}
	var l []kv
	m.m.Range(func(k, v any) bool { l = append(l, kv{fmt.Sprint(k), k, v}); return true })
	sort.SliceStable(l, func(i, j int) bool { return l[i].s < l[j].s })
	for _, e := range l {
		if !f(e.k, e.v) {
			return
		}
	}
}
