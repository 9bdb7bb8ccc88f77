// Package vatomic stands for package sync/atomic in instrumented code
// (generated by gen_vatomic.sh).
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"verifharness/vkrt"
)

func y() { vkrt.YieldOp("atomic") }

// Value is scheduled.
type Value struct{ v atomic.Value }

// Load loads.
func (x *Value) Load() any { y(); return x.v.Load() }

// Store stores.
func (x *Value) Store(v any) { y(); x.v.Store(v); vkrt.After() }

// Swap swaps.
func (x *Value) Swap(v any) any { y(); o := x.v.Swap(v); vkrt.After(); return o }

// CompareAndSwap swaps.
func (x *Value) CompareAndSwap(a, b any) bool {
	y()
	ok := x.v.CompareAndSwap(a, b)
	if ok {
		vkrt.After()
	}
	return ok
}

// Pointer is scheduled.
type Pointer[T any] struct{ v atomic.Pointer[T] }

// Load loads.
func (x *Pointer[T]) Load() *T { y(); return x.v.Load() }

// Store stores.
func (x *Pointer[T]) Store(v *T) { y(); x.v.Store(v); vkrt.After() }

// Swap swaps.
func (x *Pointer[T]) Swap(v *T) *T { y(); o := x.v.Swap(v); vkrt.After(); return o }

// CompareAndSwap swaps.
func (x *Pointer[T]) CompareAndSwap(a, b *T) bool {
	y()
	ok := x.v.CompareAndSwap(a, b)
	if ok {
		vkrt.After()
	}
	return ok
}

// LoadPointer loads.
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer { y(); return atomic.LoadPointer(p) }

// StorePointer stores.
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { y(); atomic.StorePointer(p, v); vkrt.After() }

// Bool is scheduled.
type Bool struct{ v atomic.Bool }

// Load loads.
func (x *Bool) Load() bool { y(); return x.v.Load() }

// Store stores.
func (x *Bool) Store(v bool) { y(); x.v.Store(v); vkrt.After() }

// Swap swaps.
func (x *Bool) Swap(v bool) bool { y(); o := x.v.Swap(v); vkrt.After(); return o }

// CompareAndSwap swaps.
func (x *Bool) CompareAndSwap(a, b bool) bool {
	y()
	ok := x.v.CompareAndSwap(a, b)
	if ok {
		vkrt.After()
	}
	return ok
}

// Int32 is scheduled.
type Int32 struct{ v atomic.Int32 }

// Load loads.
func (x *Int32) Load() int32 { y(); return x.v.Load() }

// Store stores.
func (x *Int32) Store(v int32) { y(); x.v.Store(v); vkrt.After() }

// Swap swaps.
func (x *Int32) Swap(v int32) int32 { y(); o := x.v.Swap(v); vkrt.After(); return o }

// CompareAndSwap swaps.
func (x *Int32) CompareAndSwap(a, b int32) bool {
	y()
	ok := x.v.CompareAndSwap(a, b)
	if ok {
		vkrt.After()
	}
	return ok
}

// Add adds.
func (x *Int32) Add(d int32) int32 { y(); o := x.v.Add(d); vkrt.After(); return o }

// LoadInt32 loads.
func LoadInt32(p *int32) int32 { y(); return atomic.LoadInt32(p) }

// StoreInt32 stores.
func StoreInt32(p *int32, v int32) { y(); atomic.StoreInt32(p, v); vkrt.After() }

// SwapInt32 swaps.
func SwapInt32(p *int32, v int32) int32 { y(); o := atomic.SwapInt32(p, v); vkrt.After(); return o }

// AddInt32 adds.
func AddInt32(p *int32, d int32) int32 { y(); o := atomic.AddInt32(p, d); vkrt.After(); return o }

// CompareAndSwapInt32 swaps.
func CompareAndSwapInt32(p *int32, a, b int32) bool {
	y()
	ok := atomic.CompareAndSwapInt32(p, a, b)
	if ok {
		vkrt.After()
	}
	return ok
}

// Int64 is scheduled.
type Int64 struct{ v atomic.Int64 }

// Load loads.
func (x *Int64) Load() int64 { y(); return x.v.Load() }

// Store stores.
func (x *Int64) Store(v int64) { y(); x.v.Store(v); vkrt.After() }

// Swap swaps.
func (x *Int64) Swap(v int64) int64 { y(); o := x.v.Swap(v); vkrt.After(); return o }

// CompareAndSwap swaps.
func (x *Int64) CompareAndSwap(a, b int64) bool {
	y()
	ok := x.v.CompareAndSwap(a, b)
	if ok {
		vkrt.After()
	}
	return ok
}

// Add adds.
func (x *Int64) Add(d int64) int64 { y(); o := x.v.Add(d); vkrt.After(); return o }

// LoadInt64 loads.
func LoadInt64(p *int64) int64 { y(); return atomic.LoadInt64(p) }

// StoreInt64 stores.
func StoreInt64(p *int64, v int64) { y(); atomic.StoreInt64(p, v); vkrt.After() }

// SwapInt64 swaps.
func SwapInt64(p *int64, v int64) int64 { y(); o := atomic.SwapInt64(p, v); vkrt.After(); return o }

// AddInt64 adds.
func AddInt64(p *int64, d int64) int64 { y(); o := atomic.AddInt64(p, d); vkrt.After(); return o }

// CompareAndSwapInt64 swaps.
func CompareAndSwapInt64(p *int64, a, b int64) bool {
	y()
	ok := atomic.CompareAndSwapInt64(p, a, b)
	if ok {
		vkrt.After()
	}
	return ok
}

// Uint32 is scheduled.
type Uint32 struct{ v atomic.Uint32 }

// Load loads.
func (x *Uint32) Load() uint32 { y(); return x.v.Load() }

// Store stores.
func (x *Uint32) Store(v uint32) { y(); x.v.Store(v); vkrt.After() }

// Swap swaps.
func (x *Uint32) Swap(v uint32) uint32 { y(); o := x.v.Swap(v); vkrt.After(); return o }

// CompareAndSwap swaps.
func (x *Uint32) CompareAndSwap(a, b uint32) bool {
	y()
	ok := x.v.CompareAndSwap(a, b)
	if ok {
		vkrt.After()
	}
	return ok
}

// Add adds.
func (x *Uint32) Add(d uint32) uint32 { y(); o := x.v.Add(d); vkrt.After(); return o }

// LoadUint32 loads.
func LoadUint32(p *uint32) uint32 { y(); return atomic.LoadUint32(p) }

// StoreUint32 stores.
func StoreUint32(p *uint32, v uint32) { y(); atomic.StoreUint32(p, v); vkrt.After() }

// SwapUint32 swaps.
func SwapUint32(p *uint32, v uint32) uint32 {
	y()
	o := atomic.SwapUint32(p, v)
	vkrt.After()
	return o
}

// AddUint32 adds.
func AddUint32(p *uint32, d uint32) uint32 { y(); o := atomic.AddUint32(p, d); vkrt.After(); return o }

// CompareAndSwapUint32 swaps.
func CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	y()
	ok := atomic.CompareAndSwapUint32(p, a, b)
	if ok {
		vkrt.After()
	}
	return ok
}

// Uint64 is scheduled.
type Uint64 struct{ v atomic.Uint64 }

// Load loads.
func (x *Uint64) Load() uint64 { y(); return x.v.Load() }

// Store stores.
func (x *Uint64) Store(v uint64) { y(); x.v.Store(v); vkrt.After() }

// Swap swaps.
func (x *Uint64) Swap(v uint64) uint64 { y(); o := x.v.Swap(v); vkrt.After(); return o }

// CompareAndSwap swaps.
func (x *Uint64) CompareAndSwap(a, b uint64) bool {
	y()
	ok := x.v.CompareAndSwap(a, b)
	if ok {
		vkrt.After()
	}
	return ok
}

// Add adds.
func (x *Uint64) Add(d uint64) uint64 { y(); o := x.v.Add(d); vkrt.After(); return o }

// LoadUint64 loads.
func LoadUint64(p *uint64) uint64 { y(); return atomic.LoadUint64(p) }

// StoreUint64 stores.
func StoreUint64(p *uint64, v uint64) { y(); atomic.StoreUint64(p, v); vkrt.After() }

// SwapUint64 swaps.
func SwapUint64(p *uint64, v uint64) uint64 {
	y()
	o := atomic.SwapUint64(p, v)
	vkrt.After()
	return o
}

// AddUint64 adds.
func AddUint64(p *uint64, d uint64) uint64 { y(); o := atomic.AddUint64(p, d); vkrt.After(); return o }

// CompareAndSwapUint64 swaps.
func CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	y()
	ok := atomic.CompareAndSwapUint64(p, a, b)
	if ok {
		vkrt.After()
	}
	return ok
}

// Uintptr is scheduled.
type Uintptr struct{ v atomic.Uintptr }

// Load loads.
func (x *Uintptr) Load() uintptr { y(); return x.v.Load() }

// Store stores.
func (x *Uintptr) Store(v uintptr) { y(); x.v.Store(v); vkrt.After() }

// Swap swaps.
func (x *Uintptr) Swap(v uintptr) uintptr { y(); o := x.v.Swap(v); vkrt.After(); return o }

// CompareAndSwap swaps.
func (x *Uintptr) CompareAndSwap(a, b uintptr) bool {
	y()
	ok := x.v.CompareAndSwap(a, b)
	if ok {
		vkrt.After()
	}
	return ok
}

// Add adds.
func (x *Uintptr) Add(d uintptr) uintptr { y(); o := x.v.Add(d); vkrt.After(); return o }

// LoadUintptr loads.
func LoadUintptr(p *uintptr) uintptr { y(); return atomic.LoadUintptr(p) }

// StoreUintptr stores.
func StoreUintptr(p *uintptr, v uintptr) { y(); atomic.StoreUintptr(p, v); vkrt.After() }

// SwapUintptr swaps.
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	y()
	o := atomic.SwapUintptr(p, v)
	vkrt.After()
	return o
}

// AddUintptr adds.
func AddUintptr(p *uintptr, d uintptr) uintptr {
	y()
	o := atomic.AddUintptr(p, d)
	vkrt.After()
	return o
}

// CompareAndSwapUintptr swaps.
func CompareAndSwapUintptr(p *uintptr, a, b uintptr) bool {
	y()
	ok := atomic.CompareAndSwapUintptr(p, a, b)
	if ok {
		vkrt.After()
	}
	return ok
}
