#!/bin/bash
# writes vatomic/vatomic.go
cd "$(dirname "$0")/vatomic"
{
cat <<'H'
// Package vatomic stands for package sync/atomic in instrumented code
// (generated by gen_vatomic.sh).
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"verifharness/vkrt"
)

func y() { vkrt.YieldOp("atomic") }

// Value is scheduled.
type Value struct{ v atomic.Value }

// Load loads.
func (x *Value) Load() any { y(); return x.v.Load() }

// Store stores.
func (x *Value) Store(v any) { y(); x.v.Store(v); vkrt.After() }

// Swap swaps.
func (x *Value) Swap(v any) any { y(); o := x.v.Swap(v); vkrt.After(); return o }

// CompareAndSwap swaps.
func (x *Value) CompareAndSwap(a, b any) bool {
	y()
	ok := x.v.CompareAndSwap(a, b)
	if ok {
		vkrt.After()
	}
	return ok
}

// Pointer is scheduled.
type Pointer[T any] struct{ v atomic.Pointer[T] }

// Load loads.
func (x *Pointer[T]) Load() *T { y(); return x.v.Load() }

// Store stores.
func (x *Pointer[T]) Store(v *T) { y(); x.v.Store(v); vkrt.After() }

// Swap swaps.
func (x *Pointer[T]) Swap(v *T) *T { y(); o := x.v.Swap(v); vkrt.After(); return o }

// CompareAndSwap swaps.
func (x *Pointer[T]) CompareAndSwap(a, b *T) bool {
	y()
	ok := x.v.CompareAndSwap(a, b)
	if ok {
		vkrt.After()
	}
	return ok
}

// LoadPointer loads.
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer { y(); return atomic.LoadPointer(p) }

// StorePointer stores.
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { y(); atomic.StorePointer(p, v); vkrt.After() }
H
for t in Bool:bool Int32:int32 Int64:int64 Uint32:uint32 Uint64:uint64 Uintptr:uintptr; do
N=${t%:*}; T=${t#*:}
cat <<H

// $N is scheduled.
type $N struct{ v atomic.$N }

// Load loads.
func (x *$N) Load() $T { y(); return x.v.Load() }

// Store stores.
func (x *$N) Store(v $T) { y(); x.v.Store(v); vkrt.After() }

// Swap swaps.
func (x *$N) Swap(v $T) $T { y(); o := x.v.Swap(v); vkrt.After(); return o }

// CompareAndSwap swaps.
func (x *$N) CompareAndSwap(a, b $T) bool {
	y()
	ok := x.v.CompareAndSwap(a, b)
	if ok {
		vkrt.After()
	}
	return ok
}
H
[ $N = Bool ] && continue
cat <<H

// Add adds.
func (x *$N) Add(d $T) $T { y(); o := x.v.Add(d); vkrt.After(); return o }

// Load$N loads.
func Load$N(p *$T) $T { y(); return atomic.Load$N(p) }

// Store$N stores.
func Store$N(p *$T, v $T) { y(); atomic.Store$N(p, v); vkrt.After() }

// Swap$N swaps.
func Swap$N(p *$T, v $T) $T { y(); o := atomic.Swap$N(p, v); vkrt.After(); return o }

// Add$N adds.
func Add$N(p *$T, d $T) $T { y(); o := atomic.Add$N(p, d); vkrt.After(); return o }

// CompareAndSwap$N swaps.
func CompareAndSwap$N(p *$T, a, b $T) bool {
	y()
	ok := atomic.CompareAndSwap$N(p, a, b)
	if ok {
		vkrt.After()
	}
	return ok
}
H
done
} > vatomic.go
gofmt -l -w vatomic.go
