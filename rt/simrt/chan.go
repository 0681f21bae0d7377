package simrt

import (
	"iter"
	"reflect"
	"unsafe"
)

// Channels stay real channels. Buffered ones keep their values in the real
// buffer, which the running thread fills and empties without ever blocking;
// for unbuffered ones the parties meet in a table of waiting senders and
// receivers. Waiting itself is always the scheduler's.

// The tables are made of plain structs: the race monitor looks inside maps and
// append even where it is told not to.

type chanState struct {
	next  *chanState
	at    unsafe.Pointer
	ref   any // keeps the address from being reused
	sendq queue
	recvq queue
	from  queue // buffered: who sent what is in the buffer
}

// party is a waiting sender or receiver of an unbuffered channel. The cases of
// one select share a group, of which only one case happens.
type party struct {
	next *party
	g    *group
	t    *Thread
	root int32
	idx  int
	v    any
	ok   bool
	addr [8]byte
}

type group struct {
	done bool
	idx  int
	addr [8]byte
}

type queue struct{ head, tail *party }

//go:norace
func (q *queue) push(x *party) {
	if q.tail == nil {
		q.head = x
	} else {
		q.tail.next = x
	}
	q.tail = x
}

//go:norace
func (q *queue) remove(x *party) {
	var prev *party
	for y := q.head; y != nil; prev, y = y, y.next {
		if y != x {
			continue
		}
		if prev == nil {
			q.head = y.next
		} else {
			prev.next = y.next
		}
		if q.tail == y {
			q.tail = prev
		}
		y.next = nil
		return
	}
}

// other returns the first waiting party outside group g.
//
//go:norace
func (q *queue) other(g *group) *party {
	for x := q.head; x != nil; x = x.next {
		if x.g != g && !x.g.done {
			return x
		}
	}
	return nil
}

var chans [64]*chanState

//go:norace
func slot(p unsafe.Pointer) **chanState {
	return &chans[uint64(uintptr(p))*0x9e3779b97f4a7c15>>58]
}

//go:norace
func find(p unsafe.Pointer) *chanState {
	for s := *slot(p); s != nil; s = s.next {
		if s.at == p {
			return s
		}
	}
	return nil
}

//go:norace
func stateOf(p unsafe.Pointer, ref any) *chanState {
	s := find(p)
	if s == nil {
		h := slot(p)
		s = &chanState{at: p, ref: ref, next: *h}
		*h = s
	}
	return s
}

//go:norace
func dropState(p unsafe.Pointer) {
	for h := slot(p); *h != nil; h = &(*h).next {
		if s := *h; s.at == p {
			if s.from.head == nil && s.sendq.head == nil && s.recvq.head == nil {
				*h = s.next
			}
			return
		}
	}
}

// serve notes that a goroutine of the program now works on what a client's
// thread has sent.
//
//go:norace
func serve(t *Thread, root int32) {
	if !t.client {
		t.root = root
	}
}

// Case is one case of a select.
type Case interface {
	peek(g *group) bool // could happen now
	do(g *group)        // happens
	enter(g *group, idx int)
	leave()
	taken() // happened through the other party
	real() reflect.SelectCase
	realDone(v reflect.Value, ok bool)
}

// RecvCase receives.
type RecvCase[T any] struct {
	c      <-chan T
	V      T
	OK     bool
	stash  bool
	isShut bool
	me     *party
}

// CaseRecv makes a receiving case.
func CaseRecv[T any](c <-chan T) *RecvCase[T] { return &RecvCase[T]{c: c} }

//go:norace
func (r *RecvCase[T]) ptr() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&r.c)) }

//go:norace
func (r *RecvCase[T]) peek(g *group) bool {
	if r.c == nil {
		return false
	}
	if r.stash || r.isShut || len(r.c) > 0 {
		return true
	}
	if s := find(r.ptr()); s != nil && s.sendq.other(g) != nil {
		return true
	}
	// closed, or filled from outside the simulation
	raceOff()
	defer raceOn()
	select {
	case v, ok := <-r.c:
		if ok {
			r.V, r.OK, r.stash = v, true, true
		} else {
			r.isShut = true
		}
		return true
	default:
	}
	return false
}

//go:norace
func (r *RecvCase[T]) do(g *group) {
	if r.stash {
		return
	}
	if s := find(r.ptr()); s != nil {
		if x := s.sendq.other(g); x != nil {
			x.g.done, x.g.idx = true, x.idx
			s.sendq.remove(x)
			Acquire(unsafe.Pointer(&x.addr))
			ReleaseMerge(unsafe.Pointer(&x.g.addr))
			r.V, r.OK = as[T](x.v), true
			serve(cur, x.t.root)
			dropState(r.ptr())
			return
		}
	}
	select {
	case r.V, r.OK = <-r.c:
		if s := find(r.ptr()); s != nil && r.OK && s.from.head != nil {
			serve(cur, s.from.head.root)
			s.from.remove(s.from.head)
			dropState(r.ptr())
		}
	default:
	}
}

//go:norace
func as[T any](v any) T {
	t, _ := v.(T)
	return t
}

//go:norace
func (r *RecvCase[T]) enter(g *group, idx int) {
	if r.c == nil || cap(r.c) > 0 {
		return
	}
	r.me = &party{g: g, t: cur, idx: idx}
	ReleaseMerge(unsafe.Pointer(&r.me.addr))
	s := stateOf(r.ptr(), r.c)
	s.recvq.push(r.me)
}

//go:norace
func (r *RecvCase[T]) leave() {
	if r.me == nil {
		return
	}
	if s := find(r.ptr()); s != nil {
		s.recvq.remove(r.me)
		dropState(r.ptr())
	}
}

//go:norace
func (r *RecvCase[T]) taken() { r.V, r.OK = as[T](r.me.v), true }

func (r *RecvCase[T]) real() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(r.c)}
}

func (r *RecvCase[T]) realDone(v reflect.Value, ok bool) {
	if ok {
		r.V, r.OK = v.Interface().(T), true
	}
}

// SendCase sends.
type SendCase[T any] struct {
	c  chan<- T
	v  T
	me *party
}

// CaseSend makes a sending case; the value follows so that its type is known.
func CaseSend[T any](c chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{c: c, v: v} }
}

//go:norace
func (s *SendCase[T]) ptr() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&s.c)) }

//go:norace
func (s *SendCase[T]) peek(g *group) bool {
	if s.c == nil {
		return false
	}
	if len(s.c) < cap(s.c) {
		return true
	}
	if st := find(s.ptr()); st != nil && st.recvq.other(g) != nil {
		return true
	}
	return s.shut()
}

// shut reports whether a channel that takes nothing now is closed.
//
//go:norace
func (s *SendCase[T]) shut() (yes bool) {
	raceOff()
	defer raceOn()
	defer func() {
		if recover() != nil {
			yes = true
		}
	}()
	select {
	case s.c <- s.v:
		panic("simrt: value taken from outside the simulation")
	default:
	}
	return false
}

//go:norace
func (s *SendCase[T]) do(g *group) {
	if st := find(s.ptr()); st != nil && cap(s.c) == 0 && !s.shut() {
		if x := st.recvq.other(g); x != nil {
			x.g.done, x.g.idx = true, x.idx
			st.recvq.remove(x)
			x.v, x.ok = s.v, true
			serve(x.t, cur.root)
			Acquire(unsafe.Pointer(&x.addr))
			ReleaseMerge(unsafe.Pointer(&x.g.addr))
			dropState(s.ptr())
			return
		}
	}
	select {
	case s.c <- s.v: // panics when closed
		stateOf(s.ptr(), s.c).from.push(&party{root: cur.root})
	default:
	}
}

//go:norace
func (s *SendCase[T]) enter(g *group, idx int) {
	if s.c == nil || cap(s.c) > 0 {
		return
	}
	s.me = &party{g: g, t: cur, idx: idx, v: s.v}
	ReleaseMerge(unsafe.Pointer(&s.me.addr))
	st := stateOf(s.ptr(), s.c)
	st.sendq.push(s.me)
}

//go:norace
func (s *SendCase[T]) leave() {
	if s.me == nil {
		return
	}
	if st := find(s.ptr()); st != nil {
		st.sendq.remove(s.me)
		dropState(s.ptr())
	}
}

func (s *SendCase[T]) taken() {}

func (s *SendCase[T]) real() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(s.c), Send: reflect.ValueOf(&s.v).Elem()}
}

func (s *SendCase[T]) realDone(reflect.Value, bool) {}

type selWait struct {
	g  *group
	cs []Case
}

// Ready reports whether one of the cases can happen or has happened.
//
//go:norace
func (w selWait) Ready() bool {
	if w.g.done {
		return true
	}
	for _, c := range w.cs {
		if c.peek(w.g) {
			return true
		}
	}
	return false
}

// Select waits for one of the cases and lets it happen; -1 is the default case.
//
//go:norace
func Select(def bool, cs ...Case) int {
	if !on || cur == nil {
		return realSelect(def, cs)
	}
	Yield(SiteLock)
	for {
		if aborting {
			panic(AbortPanic{"abort"})
		}
		g := &group{}
		ready := 0
		for _, c := range cs {
			if c.peek(g) {
				ready++
			}
		}
		if ready > 0 {
			k := 0
			if ready > 1 {
				k = int(Mix(uint64(uint32(cur.op)), uint64(cur.y)) % uint64(ready))
			}
			for i, c := range cs {
				if c.peek(g) {
					if k == 0 {
						c.do(g)
						return i
					}
					k--
				}
			}
		}
		if def {
			return -1
		}
		for i, c := range cs {
			c.enter(g, i)
		}
		func() {
			defer func() {
				for _, c := range cs {
					c.leave()
				}
			}()
			Block(selWait{g, cs}, "channel")
		}()
		if g.done {
			Acquire(unsafe.Pointer(&g.addr))
			cs[g.idx].taken()
			return g.idx
		}
	}
}

func realSelect(def bool, cs []Case) int {
	var l []reflect.SelectCase
	for _, c := range cs {
		l = append(l, c.real())
	}
	if def {
		l = append(l, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(l)
	if i == len(cs) {
		return -1
	}
	cs[i].realDone(v, ok)
	return i
}

// ChanSend is a send statement.
func ChanSend[T any](c chan<- T) func(T) {
	return func(v T) {
		if !Running() {
			c <- v
			return
		}
		Select(false, CaseSend(c)(v))
	}
}

// ChanRecv is a receive expression.
func ChanRecv[T any](c <-chan T) T {
	v, _ := ChanRecv2(c)
	return v
}

// ChanRecv2 is the receive expression with two results.
func ChanRecv2[T any](c <-chan T) (T, bool) {
	if !Running() {
		v, ok := <-c
		return v, ok
	}
	r := CaseRecv(c)
	Select(false, r)
	return r.V, r.OK
}

// ChanSeq is a range over a channel.
func ChanSeq[T any](c <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := ChanRecv2(c)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// ChanClose closes a channel.
//
//go:norace
func ChanClose[T any](c chan<- T) {
	if on && cur != nil {
		Yield(SiteLock)
	}
	close(c)
}
