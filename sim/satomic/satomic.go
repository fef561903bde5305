// Package satomic replaces package sync/atomic in instrumented sources: the
// same operations with a preemption point before and after each.
package satomic

import (
	"sync/atomic"
	"unsafe"

	"verif.local/sim/vsim"
)

var _ unsafe.Pointer

func y() { vsim.Yield(vsim.KSync, 0xe0000001) }

// Bool replaces atomic.Bool.
type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { y(); return x.v.Load() }
func (x *Bool) Store(b bool)                  { y(); x.v.Store(b); y() }
func (x *Bool) Swap(b bool) bool              { y(); defer y(); return x.v.Swap(b) }
func (x *Bool) CompareAndSwap(o, n bool) bool { y(); defer y(); return x.v.CompareAndSwap(o, n) }

// Pointer replaces atomic.Pointer.
type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { y(); return x.v.Load() }
func (x *Pointer[T]) Store(b *T)                  { y(); x.v.Store(b); y() }
func (x *Pointer[T]) Swap(b *T) *T                { y(); defer y(); return x.v.Swap(b) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { y(); defer y(); return x.v.CompareAndSwap(o, n) }

// Value replaces atomic.Value.
type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { y(); return x.v.Load() }
func (x *Value) Store(b any)                  { y(); x.v.Store(b); y() }
func (x *Value) Swap(b any) any               { y(); defer y(); return x.v.Swap(b) }
func (x *Value) CompareAndSwap(o, n any) bool { y(); defer y(); return x.v.CompareAndSwap(o, n) }

// Int32 replaces atomic.Int32.
type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { y(); return x.v.Load() }
func (x *Int32) Store(b int32)                  { y(); x.v.Store(b); y() }
func (x *Int32) Swap(b int32) int32             { y(); defer y(); return x.v.Swap(b) }
func (x *Int32) Add(b int32) int32              { y(); defer y(); return x.v.Add(b) }
func (x *Int32) And(b int32) int32              { y(); defer y(); return x.v.And(b) }
func (x *Int32) Or(b int32) int32               { y(); defer y(); return x.v.Or(b) }
func (x *Int32) CompareAndSwap(o, n int32) bool { y(); defer y(); return x.v.CompareAndSwap(o, n) }

func LoadInt32(p *int32) int32          { y(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { y(); atomic.StoreInt32(p, v); y() }
func SwapInt32(p *int32, v int32) int32 { y(); defer y(); return atomic.SwapInt32(p, v) }
func AddInt32(p *int32, v int32) int32  { y(); defer y(); return atomic.AddInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	y()
	defer y()
	return atomic.CompareAndSwapInt32(p, o, n)
}

// Int64 replaces atomic.Int64.
type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { y(); return x.v.Load() }
func (x *Int64) Store(b int64)                  { y(); x.v.Store(b); y() }
func (x *Int64) Swap(b int64) int64             { y(); defer y(); return x.v.Swap(b) }
func (x *Int64) Add(b int64) int64              { y(); defer y(); return x.v.Add(b) }
func (x *Int64) And(b int64) int64              { y(); defer y(); return x.v.And(b) }
func (x *Int64) Or(b int64) int64               { y(); defer y(); return x.v.Or(b) }
func (x *Int64) CompareAndSwap(o, n int64) bool { y(); defer y(); return x.v.CompareAndSwap(o, n) }

func LoadInt64(p *int64) int64          { y(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { y(); atomic.StoreInt64(p, v); y() }
func SwapInt64(p *int64, v int64) int64 { y(); defer y(); return atomic.SwapInt64(p, v) }
func AddInt64(p *int64, v int64) int64  { y(); defer y(); return atomic.AddInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	y()
	defer y()
	return atomic.CompareAndSwapInt64(p, o, n)
}

// Uint32 replaces atomic.Uint32.
type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { y(); return x.v.Load() }
func (x *Uint32) Store(b uint32)                  { y(); x.v.Store(b); y() }
func (x *Uint32) Swap(b uint32) uint32            { y(); defer y(); return x.v.Swap(b) }
func (x *Uint32) Add(b uint32) uint32             { y(); defer y(); return x.v.Add(b) }
func (x *Uint32) And(b uint32) uint32             { y(); defer y(); return x.v.And(b) }
func (x *Uint32) Or(b uint32) uint32              { y(); defer y(); return x.v.Or(b) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { y(); defer y(); return x.v.CompareAndSwap(o, n) }

func LoadUint32(p *uint32) uint32           { y(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { y(); atomic.StoreUint32(p, v); y() }
func SwapUint32(p *uint32, v uint32) uint32 { y(); defer y(); return atomic.SwapUint32(p, v) }
func AddUint32(p *uint32, v uint32) uint32  { y(); defer y(); return atomic.AddUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	y()
	defer y()
	return atomic.CompareAndSwapUint32(p, o, n)
}

// Uint64 replaces atomic.Uint64.
type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { y(); return x.v.Load() }
func (x *Uint64) Store(b uint64)                  { y(); x.v.Store(b); y() }
func (x *Uint64) Swap(b uint64) uint64            { y(); defer y(); return x.v.Swap(b) }
func (x *Uint64) Add(b uint64) uint64             { y(); defer y(); return x.v.Add(b) }
func (x *Uint64) And(b uint64) uint64             { y(); defer y(); return x.v.And(b) }
func (x *Uint64) Or(b uint64) uint64              { y(); defer y(); return x.v.Or(b) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { y(); defer y(); return x.v.CompareAndSwap(o, n) }

func LoadUint64(p *uint64) uint64           { y(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { y(); atomic.StoreUint64(p, v); y() }
func SwapUint64(p *uint64, v uint64) uint64 { y(); defer y(); return atomic.SwapUint64(p, v) }
func AddUint64(p *uint64, v uint64) uint64  { y(); defer y(); return atomic.AddUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	y()
	defer y()
	return atomic.CompareAndSwapUint64(p, o, n)
}

// Uintptr replaces atomic.Uintptr.
type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr                    { y(); return x.v.Load() }
func (x *Uintptr) Store(b uintptr)                  { y(); x.v.Store(b); y() }
func (x *Uintptr) Swap(b uintptr) uintptr           { y(); defer y(); return x.v.Swap(b) }
func (x *Uintptr) Add(b uintptr) uintptr            { y(); defer y(); return x.v.Add(b) }
func (x *Uintptr) And(b uintptr) uintptr            { y(); defer y(); return x.v.And(b) }
func (x *Uintptr) Or(b uintptr) uintptr             { y(); defer y(); return x.v.Or(b) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { y(); defer y(); return x.v.CompareAndSwap(o, n) }

func LoadUintptr(p *uintptr) uintptr            { y(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { y(); atomic.StoreUintptr(p, v); y() }
func SwapUintptr(p *uintptr, v uintptr) uintptr { y(); defer y(); return atomic.SwapUintptr(p, v) }
func AddUintptr(p *uintptr, v uintptr) uintptr  { y(); defer y(); return atomic.AddUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	y()
	defer y()
	return atomic.CompareAndSwapUintptr(p, o, n)
}
