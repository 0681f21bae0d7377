package simrt

import (
	"context"
	"fmt"
	"iter"
	"sort"
	"sync/atomic"
	"time"
)

// MapSeq enumerates m in an order decided by the simulator. Keys deleted during
// the loop are not visited; keys added during the loop are not visited, which the
// language allows.
func MapSeq[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		if !Running() {
			for k, v := range m {
				if !yield(k, v) {
					return
				}
			}
			return
		}
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sortKeys(keys)
		permute(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		for _, k := range keys {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

func sortKeys[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
	case []int:
		sort.Ints(ks)
	default:
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	}
}

//go:norace
func permute(n int, swap func(i, j int)) {
	t := cur
	mapCalls++
	if t == nil || mapSeed == 0 {
		return
	}
	for i := n - 1; i > 0; i-- {
		swap(i, t.mapRng.Intn(i+1))
	}
}

// MapsKeys is maps.Keys in simulator order.
func MapsKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range MapSeq(m) {
			if !yield(k) {
				return
			}
		}
	}
}

// MapsValues is maps.Values in simulator order.
func MapsValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range MapSeq(m) {
			if !yield(v) {
				return
			}
		}
	}
}

// Uint64 is a random number of the running op, or of the starting process.
//
//go:norace
func Uint64() uint64 {
	if cur == nil && bootSeed != 0 {
		return bootRng.Next()
	}
	if cur == nil || mapSeed == 0 {
		return 4
	}
	return cur.mapRng.Next()
}

// What differs from one process to the next: the random numbers drawn at program
// start, the start time, the process id and the number of processors.
var (
	bootSeed uint64
	bootRng  Rng
	bootAt   int64
	pid      = 4711
	procs    = 8
)

// NextBoot sets the choices of the next process.
//
//go:norace
func NextBoot(seed uint64) {
	bootSeed, bootRng = seed, Rng{Mix(seed, 991)}
	bootAt, pid, procs = 0, 4711, 8
	if seed != 0 {
		r := Rng{Mix(seed, 992)}
		bootAt = int64(r.Next() % (5 * 365 * 86400 * 1e9))
		pid = 2 + r.Intn(4000000)
		procs = []int{1, 2, 4, 8, 64}[r.Intn(5)]
	}
}

// Getpid is os.Getpid of the simulated process.
//
//go:norace
func Getpid() int { return pid }

// NumCPU is runtime.NumCPU of the simulated machine.
//
//go:norace
func NumCPU() int { return procs }

// GOMAXPROCS is runtime.GOMAXPROCS of the simulated machine.
//
//go:norace
func GOMAXPROCS(n int) int {
	old := procs
	if n > 0 {
		procs = n
	}
	return old
}

// deadlineCtx is a context with a deadline on the virtual clock.
type deadlineCtx struct {
	context.Context
	at time.Time
}

func (c deadlineCtx) Deadline() (time.Time, bool) { return c.at, true }

func (c deadlineCtx) Err() error {
	err := c.Context.Err()
	if err != nil && c.Context.Value(timedOut{}) != nil && c.Context.Value(timedOut{}).(*atomic.Bool).Load() {
		return context.DeadlineExceeded
	}
	return err
}

type timedOut struct{}

// WithDeadlineCause is context.WithDeadlineCause on the virtual clock.
func WithDeadlineCause(parent context.Context, at time.Time, cause error) (context.Context, context.CancelFunc) {
	if d, ok := parent.Deadline(); ok && d.Before(at) {
		return context.WithCancel(parent)
	}
	var out atomic.Bool
	ctx, cancel := context.WithCancelCause(context.WithValue(parent, timedOut{}, &out))
	t := AfterFunc(TimeUntil(at), func() {
		if ctx.Err() == nil {
			out.Store(true)
		}
		if cause == nil {
			cause = context.DeadlineExceeded
		}
		cancel(cause)
	})
	return deadlineCtx{ctx, at}, func() { t.Stop(); cancel(context.Canceled) }
}

// WithDeadline is context.WithDeadline on the virtual clock.
func WithDeadline(parent context.Context, at time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, at, nil)
}

// WithTimeout is context.WithTimeout on the virtual clock.
func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, TimeNow().Add(d), nil)
}

// WithTimeoutCause is context.WithTimeoutCause on the virtual clock.
func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, TimeNow().Add(d), cause)
}
