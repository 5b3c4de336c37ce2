// Package vatomic replaces package sync/atomic in instrumented code: each operation is preceded by
// a scheduling point.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"kverif/vsched"
)

type Pointer[T any] struct{ v atomic.Pointer[T] }

//go:norace
func (p *Pointer[T]) Load() *T { vsched.Op("atomic.load"); return p.v.Load() }

//go:norace
func (p *Pointer[T]) Store(x *T) { vsched.Op("atomic.store"); p.v.Store(x) }

//go:norace
func (p *Pointer[T]) Swap(x *T) *T { vsched.Op("atomic.swap"); return p.v.Swap(x) }

//go:norace
func (p *Pointer[T]) CompareAndSwap(a, b *T) bool {
	vsched.Op("atomic.cas")
	return p.v.CompareAndSwap(a, b)
}

type Value struct{ v atomic.Value }

//go:norace
func (p *Value) Load() any { vsched.Op("atomic.load"); return p.v.Load() }

//go:norace
func (p *Value) Store(x any) { vsched.Op("atomic.store"); p.v.Store(x) }

//go:norace
func (p *Value) Swap(x any) any { vsched.Op("atomic.swap"); return p.v.Swap(x) }

//go:norace
func (p *Value) CompareAndSwap(a, b any) bool {
	vsched.Op("atomic.cas")
	return p.v.CompareAndSwap(a, b)
}

type Bool struct{ v atomic.Bool }

//go:norace
func (p *Bool) Load() bool { vsched.Op("atomic.load"); return p.v.Load() }

//go:norace
func (p *Bool) Store(x bool) { vsched.Op("atomic.store"); p.v.Store(x) }

//go:norace
func (p *Bool) Swap(x bool) bool { vsched.Op("atomic.swap"); return p.v.Swap(x) }

//go:norace
func (p *Bool) CompareAndSwap(a, b bool) bool {
	vsched.Op("atomic.cas")
	return p.v.CompareAndSwap(a, b)
}

type Int32 struct{ v atomic.Int32 }
type Int64 struct{ v atomic.Int64 }
type Uint32 struct{ v atomic.Uint32 }
type Uint64 struct{ v atomic.Uint64 }
type Uintptr struct{ v atomic.Uintptr }

//go:norace
func (p *Int32) Load() int32 { vsched.Op("atomic.load"); return p.v.Load() }

//go:norace
func (p *Int32) Store(x int32) { vsched.Op("atomic.store"); p.v.Store(x) }

//go:norace
func (p *Int32) Add(x int32) int32 { vsched.Op("atomic.add"); return p.v.Add(x) }

//go:norace
func (p *Int32) Swap(x int32) int32 { vsched.Op("atomic.swap"); return p.v.Swap(x) }

//go:norace
func (p *Int32) CompareAndSwap(a, b int32) bool {
	vsched.Op("atomic.cas")
	return p.v.CompareAndSwap(a, b)
}

//go:norace
func LoadInt32(p *int32) int32 { vsched.Op("atomic.load"); return atomic.LoadInt32(p) }

//go:norace
func StoreInt32(p *int32, x int32) { vsched.Op("atomic.store"); atomic.StoreInt32(p, x) }

//go:norace
func AddInt32(p *int32, x int32) int32 { vsched.Op("atomic.add"); return atomic.AddInt32(p, x) }

//go:norace
func SwapInt32(p *int32, x int32) int32 { vsched.Op("atomic.swap"); return atomic.SwapInt32(p, x) }

//go:norace
func CompareAndSwapInt32(p *int32, a, b int32) bool {
	vsched.Op("atomic.cas")
	return atomic.CompareAndSwapInt32(p, a, b)
}

//go:norace
func (p *Int64) Load() int64 { vsched.Op("atomic.load"); return p.v.Load() }

//go:norace
func (p *Int64) Store(x int64) { vsched.Op("atomic.store"); p.v.Store(x) }

//go:norace
func (p *Int64) Add(x int64) int64 { vsched.Op("atomic.add"); return p.v.Add(x) }

//go:norace
func (p *Int64) Swap(x int64) int64 { vsched.Op("atomic.swap"); return p.v.Swap(x) }

//go:norace
func (p *Int64) CompareAndSwap(a, b int64) bool {
	vsched.Op("atomic.cas")
	return p.v.CompareAndSwap(a, b)
}

//go:norace
func LoadInt64(p *int64) int64 { vsched.Op("atomic.load"); return atomic.LoadInt64(p) }

//go:norace
func StoreInt64(p *int64, x int64) { vsched.Op("atomic.store"); atomic.StoreInt64(p, x) }

//go:norace
func AddInt64(p *int64, x int64) int64 { vsched.Op("atomic.add"); return atomic.AddInt64(p, x) }

//go:norace
func SwapInt64(p *int64, x int64) int64 { vsched.Op("atomic.swap"); return atomic.SwapInt64(p, x) }

//go:norace
func CompareAndSwapInt64(p *int64, a, b int64) bool {
	vsched.Op("atomic.cas")
	return atomic.CompareAndSwapInt64(p, a, b)
}

//go:norace
func (p *Uint32) Load() uint32 { vsched.Op("atomic.load"); return p.v.Load() }

//go:norace
func (p *Uint32) Store(x uint32) { vsched.Op("atomic.store"); p.v.Store(x) }

//go:norace
func (p *Uint32) Add(x uint32) uint32 { vsched.Op("atomic.add"); return p.v.Add(x) }

//go:norace
func (p *Uint32) Swap(x uint32) uint32 { vsched.Op("atomic.swap"); return p.v.Swap(x) }

//go:norace
func (p *Uint32) CompareAndSwap(a, b uint32) bool {
	vsched.Op("atomic.cas")
	return p.v.CompareAndSwap(a, b)
}

//go:norace
func LoadUint32(p *uint32) uint32 { vsched.Op("atomic.load"); return atomic.LoadUint32(p) }

//go:norace
func StoreUint32(p *uint32, x uint32) { vsched.Op("atomic.store"); atomic.StoreUint32(p, x) }

//go:norace
func AddUint32(p *uint32, x uint32) uint32 { vsched.Op("atomic.add"); return atomic.AddUint32(p, x) }

//go:norace
func SwapUint32(p *uint32, x uint32) uint32 { vsched.Op("atomic.swap"); return atomic.SwapUint32(p, x) }

//go:norace
func CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	vsched.Op("atomic.cas")
	return atomic.CompareAndSwapUint32(p, a, b)
}

//go:norace
func (p *Uint64) Load() uint64 { vsched.Op("atomic.load"); return p.v.Load() }

//go:norace
func (p *Uint64) Store(x uint64) { vsched.Op("atomic.store"); p.v.Store(x) }

//go:norace
func (p *Uint64) Add(x uint64) uint64 { vsched.Op("atomic.add"); return p.v.Add(x) }

//go:norace
func (p *Uint64) Swap(x uint64) uint64 { vsched.Op("atomic.swap"); return p.v.Swap(x) }

//go:norace
func (p *Uint64) CompareAndSwap(a, b uint64) bool {
	vsched.Op("atomic.cas")
	return p.v.CompareAndSwap(a, b)
}

//go:norace
func LoadUint64(p *uint64) uint64 { vsched.Op("atomic.load"); return atomic.LoadUint64(p) }

//go:norace
func StoreUint64(p *uint64, x uint64) { vsched.Op("atomic.store"); atomic.StoreUint64(p, x) }

//go:norace
func AddUint64(p *uint64, x uint64) uint64 { vsched.Op("atomic.add"); return atomic.AddUint64(p, x) }

//go:norace
func SwapUint64(p *uint64, x uint64) uint64 { vsched.Op("atomic.swap"); return atomic.SwapUint64(p, x) }

//go:norace
func CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	vsched.Op("atomic.cas")
	return atomic.CompareAndSwapUint64(p, a, b)
}

//go:norace
func (p *Uintptr) Load() uintptr { vsched.Op("atomic.load"); return p.v.Load() }

//go:norace
func (p *Uintptr) Store(x uintptr) { vsched.Op("atomic.store"); p.v.Store(x) }

//go:norace
func (p *Uintptr) Add(x uintptr) uintptr { vsched.Op("atomic.add"); return p.v.Add(x) }

//go:norace
func (p *Uintptr) Swap(x uintptr) uintptr { vsched.Op("atomic.swap"); return p.v.Swap(x) }

//go:norace
func (p *Uintptr) CompareAndSwap(a, b uintptr) bool {
	vsched.Op("atomic.cas")
	return p.v.CompareAndSwap(a, b)
}

//go:norace
func LoadUintptr(p *uintptr) uintptr { vsched.Op("atomic.load"); return atomic.LoadUintptr(p) }

//go:norace
func StoreUintptr(p *uintptr, x uintptr) { vsched.Op("atomic.store"); atomic.StoreUintptr(p, x) }

//go:norace
func AddUintptr(p *uintptr, x uintptr) uintptr {
	vsched.Op("atomic.add")
	return atomic.AddUintptr(p, x)
}

//go:norace
func SwapUintptr(p *uintptr, x uintptr) uintptr {
	vsched.Op("atomic.swap")
	return atomic.SwapUintptr(p, x)
}

//go:norace
func CompareAndSwapUintptr(p *uintptr, a, b uintptr) bool {
	vsched.Op("atomic.cas")
	return atomic.CompareAndSwapUintptr(p, a, b)
}

//go:norace
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	vsched.Op("atomic.load")
	return atomic.LoadPointer(p)
}

//go:norace
func StorePointer(p *unsafe.Pointer, x unsafe.Pointer) {
	vsched.Op("atomic.store")
	atomic.StorePointer(p, x)
}
