// Package atomic wraps sync/atomic with yield points.
package atomic

import (
	real "sync/atomic"
	"unsafe"

	"SIMROOT/simrt"
)

func y() { simrt.Yield(simrt.SiteLock) }

// Int32 is atomic.Int32.
type Int32 struct{ v real.Int32 }

func (x *Int32) Load() int32                    { y(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { y(); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32             { y(); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(a, b int32) bool { y(); return x.v.CompareAndSwap(a, b) }
func (x *Int32) Add(d int32) int32              { y(); return x.v.Add(d) }
func (x *Int32) And(m int32) int32              { y(); return x.v.And(m) }
func (x *Int32) Or(m int32) int32               { y(); return x.v.Or(m) }

func LoadInt32(p *int32) int32                      { y(); return real.LoadInt32(p) }
func StoreInt32(p *int32, v int32)                  { y(); real.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32             { y(); return real.SwapInt32(p, v) }
func AddInt32(p *int32, d int32) int32              { y(); return real.AddInt32(p, d) }
func CompareAndSwapInt32(p *int32, a, b int32) bool { y(); return real.CompareAndSwapInt32(p, a, b) }

// Int64 is atomic.Int64.
type Int64 struct{ v real.Int64 }

func (x *Int64) Load() int64                    { y(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { y(); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64             { y(); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(a, b int64) bool { y(); return x.v.CompareAndSwap(a, b) }
func (x *Int64) Add(d int64) int64              { y(); return x.v.Add(d) }
func (x *Int64) And(m int64) int64              { y(); return x.v.And(m) }
func (x *Int64) Or(m int64) int64               { y(); return x.v.Or(m) }

func LoadInt64(p *int64) int64                      { y(); return real.LoadInt64(p) }
func StoreInt64(p *int64, v int64)                  { y(); real.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64             { y(); return real.SwapInt64(p, v) }
func AddInt64(p *int64, d int64) int64              { y(); return real.AddInt64(p, d) }
func CompareAndSwapInt64(p *int64, a, b int64) bool { y(); return real.CompareAndSwapInt64(p, a, b) }

// Uint32 is atomic.Uint32.
type Uint32 struct{ v real.Uint32 }

func (x *Uint32) Load() uint32                    { y(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { y(); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32            { y(); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(a, b uint32) bool { y(); return x.v.CompareAndSwap(a, b) }
func (x *Uint32) Add(d uint32) uint32             { y(); return x.v.Add(d) }
func (x *Uint32) And(m uint32) uint32             { y(); return x.v.And(m) }
func (x *Uint32) Or(m uint32) uint32              { y(); return x.v.Or(m) }

func LoadUint32(p *uint32) uint32           { y(); return real.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { y(); real.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { y(); return real.SwapUint32(p, v) }
func AddUint32(p *uint32, d uint32) uint32  { y(); return real.AddUint32(p, d) }
func CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	y()
	return real.CompareAndSwapUint32(p, a, b)
}

// Uint64 is atomic.Uint64.
type Uint64 struct{ v real.Uint64 }

func (x *Uint64) Load() uint64                    { y(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { y(); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64            { y(); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(a, b uint64) bool { y(); return x.v.CompareAndSwap(a, b) }
func (x *Uint64) Add(d uint64) uint64             { y(); return x.v.Add(d) }
func (x *Uint64) And(m uint64) uint64             { y(); return x.v.And(m) }
func (x *Uint64) Or(m uint64) uint64              { y(); return x.v.Or(m) }

func LoadUint64(p *uint64) uint64           { y(); return real.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { y(); real.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { y(); return real.SwapUint64(p, v) }
func AddUint64(p *uint64, d uint64) uint64  { y(); return real.AddUint64(p, d) }
func CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	y()
	return real.CompareAndSwapUint64(p, a, b)
}

// Uintptr is atomic.Uintptr.
type Uintptr struct{ v real.Uintptr }

func (x *Uintptr) Load() uintptr                    { y(); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                  { y(); x.v.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { y(); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(a, b uintptr) bool { y(); return x.v.CompareAndSwap(a, b) }
func (x *Uintptr) Add(d uintptr) uintptr            { y(); return x.v.Add(d) }
func (x *Uintptr) And(m uintptr) uintptr            { y(); return x.v.And(m) }
func (x *Uintptr) Or(m uintptr) uintptr             { y(); return x.v.Or(m) }

func LoadUintptr(p *uintptr) uintptr            { y(); return real.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { y(); real.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { y(); return real.SwapUintptr(p, v) }
func AddUintptr(p *uintptr, d uintptr) uintptr  { y(); return real.AddUintptr(p, d) }
func CompareAndSwapUintptr(p *uintptr, a, b uintptr) bool {
	y()
	return real.CompareAndSwapUintptr(p, a, b)
}

// Bool is atomic.Bool.
type Bool struct{ v real.Bool }

func (x *Bool) Load() bool                    { y(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { y(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { y(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(a, b bool) bool { y(); return x.v.CompareAndSwap(a, b) }

// Pointer is atomic.Pointer.
type Pointer[T any] struct{ v real.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { y(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { y(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { y(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(a, b *T) bool { y(); return x.v.CompareAndSwap(a, b) }

// Value is atomic.Value.
type Value struct{ v real.Value }

func (x *Value) Load() any                    { y(); return x.v.Load() }
func (x *Value) Store(v any)                  { y(); x.v.Store(v) }
func (x *Value) Swap(v any) any               { y(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(a, b any) bool { y(); return x.v.CompareAndSwap(a, b) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { y(); return real.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { y(); real.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	y()
	return real.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, a, b unsafe.Pointer) bool {
	y()
	return real.CompareAndSwapPointer(p, a, b)
}
