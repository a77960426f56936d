// Package vatomic stands in for sync/atomic in the code under test: every
// operation is a scheduling point.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"go.f110.dev/go-memcached/internal/zverif/vsched"
)

func pt(p unsafe.Pointer) {
	vsched.Point("atomic")
	vsched.Acquire(p)
	vsched.Release(p)
}

type Bool struct{ v atomic.Bool }

func (a *Bool) Load() bool                    { pt(unsafe.Pointer(a)); return a.v.Load() }
func (a *Bool) Store(b bool)                  { pt(unsafe.Pointer(a)); a.v.Store(b) }
func (a *Bool) Swap(b bool) bool              { pt(unsafe.Pointer(a)); return a.v.Swap(b) }
func (a *Bool) CompareAndSwap(o, n bool) bool { pt(unsafe.Pointer(a)); return a.v.CompareAndSwap(o, n) }

type Int32 struct{ v atomic.Int32 }

func (a *Int32) Load() int32        { pt(unsafe.Pointer(a)); return a.v.Load() }
func (a *Int32) Store(b int32)      { pt(unsafe.Pointer(a)); a.v.Store(b) }
func (a *Int32) Swap(b int32) int32 { pt(unsafe.Pointer(a)); return a.v.Swap(b) }
func (a *Int32) Add(b int32) int32  { pt(unsafe.Pointer(a)); return a.v.Add(b) }
func (a *Int32) CompareAndSwap(o, n int32) bool {
	pt(unsafe.Pointer(a))
	return a.v.CompareAndSwap(o, n)
}

type Int64 struct{ v atomic.Int64 }

func (a *Int64) Load() int64        { pt(unsafe.Pointer(a)); return a.v.Load() }
func (a *Int64) Store(b int64)      { pt(unsafe.Pointer(a)); a.v.Store(b) }
func (a *Int64) Swap(b int64) int64 { pt(unsafe.Pointer(a)); return a.v.Swap(b) }
func (a *Int64) Add(b int64) int64  { pt(unsafe.Pointer(a)); return a.v.Add(b) }
func (a *Int64) CompareAndSwap(o, n int64) bool {
	pt(unsafe.Pointer(a))
	return a.v.CompareAndSwap(o, n)
}

type Uint32 struct{ v atomic.Uint32 }

func (a *Uint32) Load() uint32         { pt(unsafe.Pointer(a)); return a.v.Load() }
func (a *Uint32) Store(b uint32)       { pt(unsafe.Pointer(a)); a.v.Store(b) }
func (a *Uint32) Swap(b uint32) uint32 { pt(unsafe.Pointer(a)); return a.v.Swap(b) }
func (a *Uint32) Add(b uint32) uint32  { pt(unsafe.Pointer(a)); return a.v.Add(b) }
func (a *Uint32) CompareAndSwap(o, n uint32) bool {
	pt(unsafe.Pointer(a))
	return a.v.CompareAndSwap(o, n)
}

type Uint64 struct{ v atomic.Uint64 }

func (a *Uint64) Load() uint64         { pt(unsafe.Pointer(a)); return a.v.Load() }
func (a *Uint64) Store(b uint64)       { pt(unsafe.Pointer(a)); a.v.Store(b) }
func (a *Uint64) Swap(b uint64) uint64 { pt(unsafe.Pointer(a)); return a.v.Swap(b) }
func (a *Uint64) Add(b uint64) uint64  { pt(unsafe.Pointer(a)); return a.v.Add(b) }
func (a *Uint64) CompareAndSwap(o, n uint64) bool {
	pt(unsafe.Pointer(a))
	return a.v.CompareAndSwap(o, n)
}

type Uintptr = atomic.Uintptr

type Value struct{ v atomic.Value }

func (a *Value) Load() any                    { pt(unsafe.Pointer(a)); return a.v.Load() }
func (a *Value) Store(b any)                  { pt(unsafe.Pointer(a)); a.v.Store(b) }
func (a *Value) Swap(b any) any               { pt(unsafe.Pointer(a)); return a.v.Swap(b) }
func (a *Value) CompareAndSwap(o, n any) bool { pt(unsafe.Pointer(a)); return a.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (a *Pointer[T]) Load() *T     { pt(unsafe.Pointer(a)); return a.v.Load() }
func (a *Pointer[T]) Store(b *T)   { pt(unsafe.Pointer(a)); a.v.Store(b) }
func (a *Pointer[T]) Swap(b *T) *T { pt(unsafe.Pointer(a)); return a.v.Swap(b) }
func (a *Pointer[T]) CompareAndSwap(o, n *T) bool {
	pt(unsafe.Pointer(a))
	return a.v.CompareAndSwap(o, n)
}

func AddInt32(p *int32, d int32) int32      { pt(unsafe.Pointer(p)); return atomic.AddInt32(p, d) }
func AddInt64(p *int64, d int64) int64      { pt(unsafe.Pointer(p)); return atomic.AddInt64(p, d) }
func AddUint32(p *uint32, d uint32) uint32  { pt(unsafe.Pointer(p)); return atomic.AddUint32(p, d) }
func AddUint64(p *uint64, d uint64) uint64  { pt(unsafe.Pointer(p)); return atomic.AddUint64(p, d) }
func LoadInt32(p *int32) int32              { pt(unsafe.Pointer(p)); return atomic.LoadInt32(p) }
func LoadInt64(p *int64) int64              { pt(unsafe.Pointer(p)); return atomic.LoadInt64(p) }
func LoadUint32(p *uint32) uint32           { pt(unsafe.Pointer(p)); return atomic.LoadUint32(p) }
func LoadUint64(p *uint64) uint64           { pt(unsafe.Pointer(p)); return atomic.LoadUint64(p) }
func StoreInt32(p *int32, v int32)          { pt(unsafe.Pointer(p)); atomic.StoreInt32(p, v) }
func StoreInt64(p *int64, v int64)          { pt(unsafe.Pointer(p)); atomic.StoreInt64(p, v) }
func StoreUint32(p *uint32, v uint32)       { pt(unsafe.Pointer(p)); atomic.StoreUint32(p, v) }
func StoreUint64(p *uint64, v uint64)       { pt(unsafe.Pointer(p)); atomic.StoreUint64(p, v) }
func SwapInt32(p *int32, v int32) int32     { pt(unsafe.Pointer(p)); return atomic.SwapInt32(p, v) }
func SwapInt64(p *int64, v int64) int64     { pt(unsafe.Pointer(p)); return atomic.SwapInt64(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { pt(unsafe.Pointer(p)); return atomic.SwapUint32(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { pt(unsafe.Pointer(p)); return atomic.SwapUint64(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	pt(unsafe.Pointer(p))
	return atomic.CompareAndSwapInt32(p, o, n)
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	pt(unsafe.Pointer(p))
	return atomic.CompareAndSwapInt64(p, o, n)
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	pt(unsafe.Pointer(p))
	return atomic.CompareAndSwapUint32(p, o, n)
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	pt(unsafe.Pointer(p))
	return atomic.CompareAndSwapUint64(p, o, n)
}
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	pt(unsafe.Pointer(p))
	return atomic.LoadPointer(p)
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	pt(unsafe.Pointer(p))
	atomic.StorePointer(p, v)
}
