// Package vatomic stands in for package sync/atomic in verification builds: the operations are
// the real ones, each preceded by a scheduling point.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	v "github.com/xeipuuv/gojsonschema/verifshim"
)

// LoadInt32 loads.
func LoadInt32(a *int32) int32 { v.Yield(); return atomic.LoadInt32(a) }

// StoreInt32 stores.
func StoreInt32(a *int32, x int32) { v.Yield(); atomic.StoreInt32(a, x) }

// SwapInt32 swaps.
func SwapInt32(a *int32, x int32) int32 { v.Yield(); return atomic.SwapInt32(a, x) }

// CompareAndSwapInt32 compares and swaps.
func CompareAndSwapInt32(a *int32, x, y int32) bool {
	v.Yield()
	return atomic.CompareAndSwapInt32(a, x, y)
}

// AddInt32 adds.
func AddInt32(a *int32, x int32) int32 { v.Yield(); return atomic.AddInt32(a, x) }

// Int32 is atomic.Int32.
type Int32 struct{ x atomic.Int32 }

// Load loads.
func (a *Int32) Load() int32 { v.Yield(); return a.x.Load() }

// Store stores.
func (a *Int32) Store(x int32) { v.Yield(); a.x.Store(x) }

// Swap swaps.
func (a *Int32) Swap(x int32) int32 { v.Yield(); return a.x.Swap(x) }

// Add adds.
func (a *Int32) Add(x int32) int32 { v.Yield(); return a.x.Add(x) }

// CompareAndSwap compares and swaps.
func (a *Int32) CompareAndSwap(x, y int32) bool { v.Yield(); return a.x.CompareAndSwap(x, y) }

// LoadInt64 loads.
func LoadInt64(a *int64) int64 { v.Yield(); return atomic.LoadInt64(a) }

// StoreInt64 stores.
func StoreInt64(a *int64, x int64) { v.Yield(); atomic.StoreInt64(a, x) }

// SwapInt64 swaps.
func SwapInt64(a *int64, x int64) int64 { v.Yield(); return atomic.SwapInt64(a, x) }

// CompareAndSwapInt64 compares and swaps.
func CompareAndSwapInt64(a *int64, x, y int64) bool {
	v.Yield()
	return atomic.CompareAndSwapInt64(a, x, y)
}

// AddInt64 adds.
func AddInt64(a *int64, x int64) int64 { v.Yield(); return atomic.AddInt64(a, x) }

// Int64 is atomic.Int64.
type Int64 struct{ x atomic.Int64 }

// Load loads.
func (a *Int64) Load() int64 { v.Yield(); return a.x.Load() }

// Store stores.
func (a *Int64) Store(x int64) { v.Yield(); a.x.Store(x) }

// Swap swaps.
func (a *Int64) Swap(x int64) int64 { v.Yield(); return a.x.Swap(x) }

// Add adds.
func (a *Int64) Add(x int64) int64 { v.Yield(); return a.x.Add(x) }

// CompareAndSwap compares and swaps.
func (a *Int64) CompareAndSwap(x, y int64) bool { v.Yield(); return a.x.CompareAndSwap(x, y) }

// LoadUint32 loads.
func LoadUint32(a *uint32) uint32 { v.Yield(); return atomic.LoadUint32(a) }

// StoreUint32 stores.
func StoreUint32(a *uint32, x uint32) { v.Yield(); atomic.StoreUint32(a, x) }

// SwapUint32 swaps.
func SwapUint32(a *uint32, x uint32) uint32 { v.Yield(); return atomic.SwapUint32(a, x) }

// CompareAndSwapUint32 compares and swaps.
func CompareAndSwapUint32(a *uint32, x, y uint32) bool {
	v.Yield()
	return atomic.CompareAndSwapUint32(a, x, y)
}

// AddUint32 adds.
func AddUint32(a *uint32, x uint32) uint32 { v.Yield(); return atomic.AddUint32(a, x) }

// Uint32 is atomic.Uint32.
type Uint32 struct{ x atomic.Uint32 }

// Load loads.
func (a *Uint32) Load() uint32 { v.Yield(); return a.x.Load() }

// Store stores.
func (a *Uint32) Store(x uint32) { v.Yield(); a.x.Store(x) }

// Swap swaps.
func (a *Uint32) Swap(x uint32) uint32 { v.Yield(); return a.x.Swap(x) }

// Add adds.
func (a *Uint32) Add(x uint32) uint32 { v.Yield(); return a.x.Add(x) }

// CompareAndSwap compares and swaps.
func (a *Uint32) CompareAndSwap(x, y uint32) bool { v.Yield(); return a.x.CompareAndSwap(x, y) }

// LoadUint64 loads.
func LoadUint64(a *uint64) uint64 { v.Yield(); return atomic.LoadUint64(a) }

// StoreUint64 stores.
func StoreUint64(a *uint64, x uint64) { v.Yield(); atomic.StoreUint64(a, x) }

// SwapUint64 swaps.
func SwapUint64(a *uint64, x uint64) uint64 { v.Yield(); return atomic.SwapUint64(a, x) }

// CompareAndSwapUint64 compares and swaps.
func CompareAndSwapUint64(a *uint64, x, y uint64) bool {
	v.Yield()
	return atomic.CompareAndSwapUint64(a, x, y)
}

// AddUint64 adds.
func AddUint64(a *uint64, x uint64) uint64 { v.Yield(); return atomic.AddUint64(a, x) }

// Uint64 is atomic.Uint64.
type Uint64 struct{ x atomic.Uint64 }

// Load loads.
func (a *Uint64) Load() uint64 { v.Yield(); return a.x.Load() }

// Store stores.
func (a *Uint64) Store(x uint64) { v.Yield(); a.x.Store(x) }

// Swap swaps.
func (a *Uint64) Swap(x uint64) uint64 { v.Yield(); return a.x.Swap(x) }

// Add adds.
func (a *Uint64) Add(x uint64) uint64 { v.Yield(); return a.x.Add(x) }

// CompareAndSwap compares and swaps.
func (a *Uint64) CompareAndSwap(x, y uint64) bool { v.Yield(); return a.x.CompareAndSwap(x, y) }

// LoadUintptr loads.
func LoadUintptr(a *uintptr) uintptr { v.Yield(); return atomic.LoadUintptr(a) }

// StoreUintptr stores.
func StoreUintptr(a *uintptr, x uintptr) { v.Yield(); atomic.StoreUintptr(a, x) }

// SwapUintptr swaps.
func SwapUintptr(a *uintptr, x uintptr) uintptr { v.Yield(); return atomic.SwapUintptr(a, x) }

// CompareAndSwapUintptr compares and swaps.
func CompareAndSwapUintptr(a *uintptr, x, y uintptr) bool {
	v.Yield()
	return atomic.CompareAndSwapUintptr(a, x, y)
}

// AddUintptr adds.
func AddUintptr(a *uintptr, x uintptr) uintptr { v.Yield(); return atomic.AddUintptr(a, x) }

// Uintptr is atomic.Uintptr.
type Uintptr struct{ x atomic.Uintptr }

// Load loads.
func (a *Uintptr) Load() uintptr { v.Yield(); return a.x.Load() }

// Store stores.
func (a *Uintptr) Store(x uintptr) { v.Yield(); a.x.Store(x) }

// Swap swaps.
func (a *Uintptr) Swap(x uintptr) uintptr { v.Yield(); return a.x.Swap(x) }

// Add adds.
func (a *Uintptr) Add(x uintptr) uintptr { v.Yield(); return a.x.Add(x) }

// CompareAndSwap compares and swaps.
func (a *Uintptr) CompareAndSwap(x, y uintptr) bool { v.Yield(); return a.x.CompareAndSwap(x, y) }

// LoadPointer loads.
func LoadPointer(a *unsafe.Pointer) unsafe.Pointer { v.Yield(); return atomic.LoadPointer(a) }

// StorePointer stores.
func StorePointer(a *unsafe.Pointer, x unsafe.Pointer) { v.Yield(); atomic.StorePointer(a, x) }

// SwapPointer swaps.
func SwapPointer(a *unsafe.Pointer, x unsafe.Pointer) unsafe.Pointer {
	v.Yield()
	return atomic.SwapPointer(a, x)
}

// CompareAndSwapPointer compares and swaps.
func CompareAndSwapPointer(a *unsafe.Pointer, x, y unsafe.Pointer) bool {
	v.Yield()
	return atomic.CompareAndSwapPointer(a, x, y)
}

// Bool is atomic.Bool.
type Bool struct{ x atomic.Bool }

// Load loads.
func (a *Bool) Load() bool { v.Yield(); return a.x.Load() }

// Store stores.
func (a *Bool) Store(x bool) { v.Yield(); a.x.Store(x) }

// Swap swaps.
func (a *Bool) Swap(x bool) bool { v.Yield(); return a.x.Swap(x) }

// CompareAndSwap compares and swaps.
func (a *Bool) CompareAndSwap(x, y bool) bool { v.Yield(); return a.x.CompareAndSwap(x, y) }

// Value is atomic.Value.
type Value struct{ x atomic.Value }

// Load loads.
func (a *Value) Load() interface{} { v.Yield(); return a.x.Load() }

// Store stores.
func (a *Value) Store(x interface{}) { v.Yield(); a.x.Store(x) }

// Swap swaps.
func (a *Value) Swap(x interface{}) interface{} { v.Yield(); return a.x.Swap(x) }

// CompareAndSwap compares and swaps.
func (a *Value) CompareAndSwap(x, y interface{}) bool { v.Yield(); return a.x.CompareAndSwap(x, y) }
