// Package vatomic has the same types and functions as package sync/atomic. Each operation is a place where control can
// be handed over to another thread
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"verif/mc/vsync"
)

func rd(p unsafe.Pointer) { vsync.Point(uintptr(p), nil, vsync.Read) }
func wr(p unsafe.Pointer) { vsync.Point(uintptr(p), nil, vsync.Write) }

// Value is an atomic.Value
type Value struct{ v atomic.Value }

func (v *Value) Load() interface{}              { rd(unsafe.Pointer(v)); return v.v.Load() }
func (v *Value) Store(x interface{})            { wr(unsafe.Pointer(v)); v.v.Store(x) }
func (v *Value) Swap(x interface{}) interface{} { wr(unsafe.Pointer(v)); return v.v.Swap(x) }
func (v *Value) CompareAndSwap(o, n interface{}) bool {
	wr(unsafe.Pointer(v))
	return v.v.CompareAndSwap(o, n)
}

// Pointer is an atomic.Pointer
type Pointer[T any] struct{ v atomic.Pointer[T] }

func (v *Pointer[T]) Load() *T     { rd(unsafe.Pointer(v)); return v.v.Load() }
func (v *Pointer[T]) Store(x *T)   { wr(unsafe.Pointer(v)); v.v.Store(x) }
func (v *Pointer[T]) Swap(x *T) *T { wr(unsafe.Pointer(v)); return v.v.Swap(x) }
func (v *Pointer[T]) CompareAndSwap(o, n *T) bool {
	wr(unsafe.Pointer(v))
	return v.v.CompareAndSwap(o, n)
}

// Bool is an atomic.Bool
type Bool struct{ v atomic.Bool }

func (v *Bool) Load() bool                    { rd(unsafe.Pointer(v)); return v.v.Load() }
func (v *Bool) Store(x bool)                  { wr(unsafe.Pointer(v)); v.v.Store(x) }
func (v *Bool) Swap(x bool) bool              { wr(unsafe.Pointer(v)); return v.v.Swap(x) }
func (v *Bool) CompareAndSwap(o, n bool) bool { wr(unsafe.Pointer(v)); return v.v.CompareAndSwap(o, n) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	rd(unsafe.Pointer(p))
	return atomic.LoadPointer(p)
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	wr(unsafe.Pointer(p))
	atomic.StorePointer(p, v)
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	wr(unsafe.Pointer(p))
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	wr(unsafe.Pointer(p))
	return atomic.CompareAndSwapPointer(p, o, n)
}

// Int32 is an atomic.Int32
type Int32 struct{ v atomic.Int32 }

func (v *Int32) Load() int32        { rd(unsafe.Pointer(v)); return v.v.Load() }
func (v *Int32) Store(x int32)      { wr(unsafe.Pointer(v)); v.v.Store(x) }
func (v *Int32) Swap(x int32) int32 { wr(unsafe.Pointer(v)); return v.v.Swap(x) }
func (v *Int32) Add(x int32) int32  { wr(unsafe.Pointer(v)); return v.v.Add(x) }
func (v *Int32) And(x int32) int32  { wr(unsafe.Pointer(v)); return v.v.And(x) }
func (v *Int32) Or(x int32) int32   { wr(unsafe.Pointer(v)); return v.v.Or(x) }
func (v *Int32) CompareAndSwap(o, n int32) bool {
	wr(unsafe.Pointer(v))
	return v.v.CompareAndSwap(o, n)
}

func LoadInt32(p *int32) int32          { rd(unsafe.Pointer(p)); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, x int32)      { wr(unsafe.Pointer(p)); atomic.StoreInt32(p, x) }
func SwapInt32(p *int32, x int32) int32 { wr(unsafe.Pointer(p)); return atomic.SwapInt32(p, x) }
func AddInt32(p *int32, x int32) int32  { wr(unsafe.Pointer(p)); return atomic.AddInt32(p, x) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	wr(unsafe.Pointer(p))
	return atomic.CompareAndSwapInt32(p, o, n)
}

// Int64 is an atomic.Int64
type Int64 struct{ v atomic.Int64 }

func (v *Int64) Load() int64        { rd(unsafe.Pointer(v)); return v.v.Load() }
func (v *Int64) Store(x int64)      { wr(unsafe.Pointer(v)); v.v.Store(x) }
func (v *Int64) Swap(x int64) int64 { wr(unsafe.Pointer(v)); return v.v.Swap(x) }
func (v *Int64) Add(x int64) int64  { wr(unsafe.Pointer(v)); return v.v.Add(x) }
func (v *Int64) And(x int64) int64  { wr(unsafe.Pointer(v)); return v.v.And(x) }
func (v *Int64) Or(x int64) int64   { wr(unsafe.Pointer(v)); return v.v.Or(x) }
func (v *Int64) CompareAndSwap(o, n int64) bool {
	wr(unsafe.Pointer(v))
	return v.v.CompareAndSwap(o, n)
}

func LoadInt64(p *int64) int64          { rd(unsafe.Pointer(p)); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, x int64)      { wr(unsafe.Pointer(p)); atomic.StoreInt64(p, x) }
func SwapInt64(p *int64, x int64) int64 { wr(unsafe.Pointer(p)); return atomic.SwapInt64(p, x) }
func AddInt64(p *int64, x int64) int64  { wr(unsafe.Pointer(p)); return atomic.AddInt64(p, x) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	wr(unsafe.Pointer(p))
	return atomic.CompareAndSwapInt64(p, o, n)
}

// Uint32 is an atomic.Uint32
type Uint32 struct{ v atomic.Uint32 }

func (v *Uint32) Load() uint32         { rd(unsafe.Pointer(v)); return v.v.Load() }
func (v *Uint32) Store(x uint32)       { wr(unsafe.Pointer(v)); v.v.Store(x) }
func (v *Uint32) Swap(x uint32) uint32 { wr(unsafe.Pointer(v)); return v.v.Swap(x) }
func (v *Uint32) Add(x uint32) uint32  { wr(unsafe.Pointer(v)); return v.v.Add(x) }
func (v *Uint32) And(x uint32) uint32  { wr(unsafe.Pointer(v)); return v.v.And(x) }
func (v *Uint32) Or(x uint32) uint32   { wr(unsafe.Pointer(v)); return v.v.Or(x) }
func (v *Uint32) CompareAndSwap(o, n uint32) bool {
	wr(unsafe.Pointer(v))
	return v.v.CompareAndSwap(o, n)
}

func LoadUint32(p *uint32) uint32           { rd(unsafe.Pointer(p)); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, x uint32)       { wr(unsafe.Pointer(p)); atomic.StoreUint32(p, x) }
func SwapUint32(p *uint32, x uint32) uint32 { wr(unsafe.Pointer(p)); return atomic.SwapUint32(p, x) }
func AddUint32(p *uint32, x uint32) uint32  { wr(unsafe.Pointer(p)); return atomic.AddUint32(p, x) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	wr(unsafe.Pointer(p))
	return atomic.CompareAndSwapUint32(p, o, n)
}

// Uint64 is an atomic.Uint64
type Uint64 struct{ v atomic.Uint64 }

func (v *Uint64) Load() uint64         { rd(unsafe.Pointer(v)); return v.v.Load() }
func (v *Uint64) Store(x uint64)       { wr(unsafe.Pointer(v)); v.v.Store(x) }
func (v *Uint64) Swap(x uint64) uint64 { wr(unsafe.Pointer(v)); return v.v.Swap(x) }
func (v *Uint64) Add(x uint64) uint64  { wr(unsafe.Pointer(v)); return v.v.Add(x) }
func (v *Uint64) And(x uint64) uint64  { wr(unsafe.Pointer(v)); return v.v.And(x) }
func (v *Uint64) Or(x uint64) uint64   { wr(unsafe.Pointer(v)); return v.v.Or(x) }
func (v *Uint64) CompareAndSwap(o, n uint64) bool {
	wr(unsafe.Pointer(v))
	return v.v.CompareAndSwap(o, n)
}

func LoadUint64(p *uint64) uint64           { rd(unsafe.Pointer(p)); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, x uint64)       { wr(unsafe.Pointer(p)); atomic.StoreUint64(p, x) }
func SwapUint64(p *uint64, x uint64) uint64 { wr(unsafe.Pointer(p)); return atomic.SwapUint64(p, x) }
func AddUint64(p *uint64, x uint64) uint64  { wr(unsafe.Pointer(p)); return atomic.AddUint64(p, x) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	wr(unsafe.Pointer(p))
	return atomic.CompareAndSwapUint64(p, o, n)
}

// Uintptr is an atomic.Uintptr
type Uintptr struct{ v atomic.Uintptr }

func (v *Uintptr) Load() uintptr          { rd(unsafe.Pointer(v)); return v.v.Load() }
func (v *Uintptr) Store(x uintptr)        { wr(unsafe.Pointer(v)); v.v.Store(x) }
func (v *Uintptr) Swap(x uintptr) uintptr { wr(unsafe.Pointer(v)); return v.v.Swap(x) }
func (v *Uintptr) Add(x uintptr) uintptr  { wr(unsafe.Pointer(v)); return v.v.Add(x) }
func (v *Uintptr) And(x uintptr) uintptr  { wr(unsafe.Pointer(v)); return v.v.And(x) }
func (v *Uintptr) Or(x uintptr) uintptr   { wr(unsafe.Pointer(v)); return v.v.Or(x) }
func (v *Uintptr) CompareAndSwap(o, n uintptr) bool {
	wr(unsafe.Pointer(v))
	return v.v.CompareAndSwap(o, n)
}

func LoadUintptr(p *uintptr) uintptr     { rd(unsafe.Pointer(p)); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, x uintptr) { wr(unsafe.Pointer(p)); atomic.StoreUintptr(p, x) }
func SwapUintptr(p *uintptr, x uintptr) uintptr {
	wr(unsafe.Pointer(p))
	return atomic.SwapUintptr(p, x)
}
func AddUintptr(p *uintptr, x uintptr) uintptr { wr(unsafe.Pointer(p)); return atomic.AddUintptr(p, x) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	wr(unsafe.Pointer(p))
	return atomic.CompareAndSwapUintptr(p, o, n)
}
