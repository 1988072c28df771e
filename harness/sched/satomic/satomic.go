// Package atomic stands in for sync/atomic in instrumented code: the same
// operations, each preceded by a scheduling point.
package atomic

import (
	"sync/atomic"
	"unsafe"

	"ninepverif/sched"
)

// Types as in the standard package.
type (
	Int32   = atomic.Int32
	Int64   = atomic.Int64
	Uint32  = atomic.Uint32
	Uint64  = atomic.Uint64
	Uintptr = atomic.Uintptr
	Bool    = atomic.Bool
	Value   = atomic.Value
)

// Pointer as in the standard package.
type Pointer[T any] = atomic.Pointer[T]

// AddInt32 as in the standard package.
func AddInt32(p *int32, d int32) int32 {
	sched.Sync()
	return atomic.AddInt32(p, d)
}

// LoadInt32 as in the standard package.
func LoadInt32(p *int32) int32 {
	sched.Sync()
	return atomic.LoadInt32(p)
}

// StoreInt32 as in the standard package.
func StoreInt32(p *int32, v int32) {
	sched.Sync()
	atomic.StoreInt32(p, v)
}

// SwapInt32 as in the standard package.
func SwapInt32(p *int32, v int32) int32 {
	sched.Sync()
	return atomic.SwapInt32(p, v)
}

// CompareAndSwapInt32 as in the standard package.
func CompareAndSwapInt32(p *int32, a, b int32) bool {
	sched.Sync()
	return atomic.CompareAndSwapInt32(p, a, b)
}

// AddInt64 as in the standard package.
func AddInt64(p *int64, d int64) int64 {
	sched.Sync()
	return atomic.AddInt64(p, d)
}

// LoadInt64 as in the standard package.
func LoadInt64(p *int64) int64 {
	sched.Sync()
	return atomic.LoadInt64(p)
}

// StoreInt64 as in the standard package.
func StoreInt64(p *int64, v int64) {
	sched.Sync()
	atomic.StoreInt64(p, v)
}

// SwapInt64 as in the standard package.
func SwapInt64(p *int64, v int64) int64 {
	sched.Sync()
	return atomic.SwapInt64(p, v)
}

// CompareAndSwapInt64 as in the standard package.
func CompareAndSwapInt64(p *int64, a, b int64) bool {
	sched.Sync()
	return atomic.CompareAndSwapInt64(p, a, b)
}

// AddUint32 as in the standard package.
func AddUint32(p *uint32, d uint32) uint32 {
	sched.Sync()
	return atomic.AddUint32(p, d)
}

// LoadUint32 as in the standard package.
func LoadUint32(p *uint32) uint32 {
	sched.Sync()
	return atomic.LoadUint32(p)
}

// StoreUint32 as in the standard package.
func StoreUint32(p *uint32, v uint32) {
	sched.Sync()
	atomic.StoreUint32(p, v)
}

// SwapUint32 as in the standard package.
func SwapUint32(p *uint32, v uint32) uint32 {
	sched.Sync()
	return atomic.SwapUint32(p, v)
}

// CompareAndSwapUint32 as in the standard package.
func CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	sched.Sync()
	return atomic.CompareAndSwapUint32(p, a, b)
}

// AddUint64 as in the standard package.
func AddUint64(p *uint64, d uint64) uint64 {
	sched.Sync()
	return atomic.AddUint64(p, d)
}

// LoadUint64 as in the standard package.
func LoadUint64(p *uint64) uint64 {
	sched.Sync()
	return atomic.LoadUint64(p)
}

// StoreUint64 as in the standard package.
func StoreUint64(p *uint64, v uint64) {
	sched.Sync()
	atomic.StoreUint64(p, v)
}

// SwapUint64 as in the standard package.
func SwapUint64(p *uint64, v uint64) uint64 {
	sched.Sync()
	return atomic.SwapUint64(p, v)
}

// CompareAndSwapUint64 as in the standard package.
func CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	sched.Sync()
	return atomic.CompareAndSwapUint64(p, a, b)
}

// AddUintptr as in the standard package.
func AddUintptr(p *uintptr, d uintptr) uintptr {
	sched.Sync()
	return atomic.AddUintptr(p, d)
}

// LoadUintptr as in the standard package.
func LoadUintptr(p *uintptr) uintptr {
	sched.Sync()
	return atomic.LoadUintptr(p)
}

// StoreUintptr as in the standard package.
func StoreUintptr(p *uintptr, v uintptr) {
	sched.Sync()
	atomic.StoreUintptr(p, v)
}

// SwapUintptr as in the standard package.
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	sched.Sync()
	return atomic.SwapUintptr(p, v)
}

// CompareAndSwapUintptr as in the standard package.
func CompareAndSwapUintptr(p *uintptr, a, b uintptr) bool {
	sched.Sync()
	return atomic.CompareAndSwapUintptr(p, a, b)
}

// LoadPointer as in the standard package.
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	sched.Sync()
	return atomic.LoadPointer(p)
}

// StorePointer as in the standard package.
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	sched.Sync()
	atomic.StorePointer(p, v)
}

// SwapPointer as in the standard package.
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	sched.Sync()
	return atomic.SwapPointer(p, v)
}

// CompareAndSwapPointer as in the standard package.
func CompareAndSwapPointer(p *unsafe.Pointer, a, b unsafe.Pointer) bool {
	sched.Sync()
	return atomic.CompareAndSwapPointer(p, a, b)
}
