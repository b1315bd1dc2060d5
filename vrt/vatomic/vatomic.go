// Package vatomic replaces package sync/atomic in instrumented code.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/tg123/phabrik/zzverif/vrt"
)

func at(p unsafe.Pointer, what string) {
	if vrt.X == nil {
		return
	}
	vrt.Point(what)
	vc := vrt.AtomicVC(p)
	vrt.Acquire(vc)
	vrt.Release(vc)
}

func AddInt32(p *int32, d int32) int32 {
	at(unsafe.Pointer(p), "atomic.Add")
	return atomic.AddInt32(p, d)
}
func AddInt64(p *int64, d int64) int64 {
	at(unsafe.Pointer(p), "atomic.Add")
	return atomic.AddInt64(p, d)
}
func AddUint32(p *uint32, d uint32) uint32 {
	at(unsafe.Pointer(p), "atomic.Add")
	return atomic.AddUint32(p, d)
}
func AddUint64(p *uint64, d uint64) uint64 {
	at(unsafe.Pointer(p), "atomic.Add")
	return atomic.AddUint64(p, d)
}
func AddUintptr(p *uintptr, d uintptr) uintptr {
	at(unsafe.Pointer(p), "atomic.Add")
	return atomic.AddUintptr(p, d)
}
func LoadInt32(p *int32) int32    { at(unsafe.Pointer(p), "atomic.Load"); return atomic.LoadInt32(p) }
func LoadInt64(p *int64) int64    { at(unsafe.Pointer(p), "atomic.Load"); return atomic.LoadInt64(p) }
func LoadUint32(p *uint32) uint32 { at(unsafe.Pointer(p), "atomic.Load"); return atomic.LoadUint32(p) }
func LoadUint64(p *uint64) uint64 { at(unsafe.Pointer(p), "atomic.Load"); return atomic.LoadUint64(p) }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	at(unsafe.Pointer(p), "atomic.Load")
	return atomic.LoadPointer(p)
}
func StoreInt32(p *int32, v int32) { at(unsafe.Pointer(p), "atomic.Store"); atomic.StoreInt32(p, v) }
func StoreInt64(p *int64, v int64) { at(unsafe.Pointer(p), "atomic.Store"); atomic.StoreInt64(p, v) }
func StoreUint32(p *uint32, v uint32) {
	at(unsafe.Pointer(p), "atomic.Store")
	atomic.StoreUint32(p, v)
}
func StoreUint64(p *uint64, v uint64) {
	at(unsafe.Pointer(p), "atomic.Store")
	atomic.StoreUint64(p, v)
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	at(unsafe.Pointer(p), "atomic.Store")
	atomic.StorePointer(p, v)
}
func SwapInt32(p *int32, v int32) int32 {
	at(unsafe.Pointer(p), "atomic.Swap")
	return atomic.SwapInt32(p, v)
}
func SwapInt64(p *int64, v int64) int64 {
	at(unsafe.Pointer(p), "atomic.Swap")
	return atomic.SwapInt64(p, v)
}
func SwapUint32(p *uint32, v uint32) uint32 {
	at(unsafe.Pointer(p), "atomic.Swap")
	return atomic.SwapUint32(p, v)
}
func SwapUint64(p *uint64, v uint64) uint64 {
	at(unsafe.Pointer(p), "atomic.Swap")
	return atomic.SwapUint64(p, v)
}
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	at(unsafe.Pointer(p), "atomic.CAS")
	return atomic.CompareAndSwapInt32(p, o, n)
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	at(unsafe.Pointer(p), "atomic.CAS")
	return atomic.CompareAndSwapInt64(p, o, n)
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	at(unsafe.Pointer(p), "atomic.CAS")
	return atomic.CompareAndSwapUint32(p, o, n)
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	at(unsafe.Pointer(p), "atomic.CAS")
	return atomic.CompareAndSwapUint64(p, o, n)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	at(unsafe.Pointer(p), "atomic.CAS")
	return atomic.CompareAndSwapPointer(p, o, n)
}

type Int32 struct{ v atomic.Int32 }

func (a *Int32) Load() int32        { at(unsafe.Pointer(a), "atomic.Load"); return a.v.Load() }
func (a *Int32) Store(v int32)      { at(unsafe.Pointer(a), "atomic.Store"); a.v.Store(v) }
func (a *Int32) Add(d int32) int32  { at(unsafe.Pointer(a), "atomic.Add"); return a.v.Add(d) }
func (a *Int32) Swap(v int32) int32 { at(unsafe.Pointer(a), "atomic.Swap"); return a.v.Swap(v) }
func (a *Int32) CompareAndSwap(o, n int32) bool {
	at(unsafe.Pointer(a), "atomic.CAS")
	return a.v.CompareAndSwap(o, n)
}

type Int64 struct{ v atomic.Int64 }

func (a *Int64) Load() int64        { at(unsafe.Pointer(a), "atomic.Load"); return a.v.Load() }
func (a *Int64) Store(v int64)      { at(unsafe.Pointer(a), "atomic.Store"); a.v.Store(v) }
func (a *Int64) Add(d int64) int64  { at(unsafe.Pointer(a), "atomic.Add"); return a.v.Add(d) }
func (a *Int64) Swap(v int64) int64 { at(unsafe.Pointer(a), "atomic.Swap"); return a.v.Swap(v) }
func (a *Int64) CompareAndSwap(o, n int64) bool {
	at(unsafe.Pointer(a), "atomic.CAS")
	return a.v.CompareAndSwap(o, n)
}

type Uint32 struct{ v atomic.Uint32 }

func (a *Uint32) Load() uint32         { at(unsafe.Pointer(a), "atomic.Load"); return a.v.Load() }
func (a *Uint32) Store(v uint32)       { at(unsafe.Pointer(a), "atomic.Store"); a.v.Store(v) }
func (a *Uint32) Add(d uint32) uint32  { at(unsafe.Pointer(a), "atomic.Add"); return a.v.Add(d) }
func (a *Uint32) Swap(v uint32) uint32 { at(unsafe.Pointer(a), "atomic.Swap"); return a.v.Swap(v) }
func (a *Uint32) CompareAndSwap(o, n uint32) bool {
	at(unsafe.Pointer(a), "atomic.CAS")
	return a.v.CompareAndSwap(o, n)
}

type Uint64 struct{ v atomic.Uint64 }

func (a *Uint64) Load() uint64         { at(unsafe.Pointer(a), "atomic.Load"); return a.v.Load() }
func (a *Uint64) Store(v uint64)       { at(unsafe.Pointer(a), "atomic.Store"); a.v.Store(v) }
func (a *Uint64) Add(d uint64) uint64  { at(unsafe.Pointer(a), "atomic.Add"); return a.v.Add(d) }
func (a *Uint64) Swap(v uint64) uint64 { at(unsafe.Pointer(a), "atomic.Swap"); return a.v.Swap(v) }
func (a *Uint64) CompareAndSwap(o, n uint64) bool {
	at(unsafe.Pointer(a), "atomic.CAS")
	return a.v.CompareAndSwap(o, n)
}

type Bool struct{ v atomic.Bool }

func (a *Bool) Load() bool       { at(unsafe.Pointer(a), "atomic.Load"); return a.v.Load() }
func (a *Bool) Store(v bool)     { at(unsafe.Pointer(a), "atomic.Store"); a.v.Store(v) }
func (a *Bool) Swap(v bool) bool { at(unsafe.Pointer(a), "atomic.Swap"); return a.v.Swap(v) }
func (a *Bool) CompareAndSwap(o, n bool) bool {
	at(unsafe.Pointer(a), "atomic.CAS")
	return a.v.CompareAndSwap(o, n)
}

type Value struct{ v atomic.Value }

func (a *Value) Load() any      { at(unsafe.Pointer(a), "atomic.Load"); return a.v.Load() }
func (a *Value) Store(v any)    { at(unsafe.Pointer(a), "atomic.Store"); a.v.Store(v) }
func (a *Value) Swap(v any) any { at(unsafe.Pointer(a), "atomic.Swap"); return a.v.Swap(v) }
func (a *Value) CompareAndSwap(o, n any) bool {
	at(unsafe.Pointer(a), "atomic.CAS")
	return a.v.CompareAndSwap(o, n)
}

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (a *Pointer[T]) Load() *T     { at(unsafe.Pointer(a), "atomic.Load"); return a.v.Load() }
func (a *Pointer[T]) Store(v *T)   { at(unsafe.Pointer(a), "atomic.Store"); a.v.Store(v) }
func (a *Pointer[T]) Swap(v *T) *T { at(unsafe.Pointer(a), "atomic.Swap"); return a.v.Swap(v) }
func (a *Pointer[T]) CompareAndSwap(o, n *T) bool {
	at(unsafe.Pointer(a), "atomic.CAS")
	return a.v.CompareAndSwap(o, n)
}

// ---------------------------------------------------------------- the rest of the package

func AndInt32(p *int32, m int32) int32 {
	at(unsafe.Pointer(p), "atomic.And")
	return atomic.AndInt32(p, m)
}
func OrInt32(p *int32, m int32) int32 {
	at(unsafe.Pointer(p), "atomic.Or")
	return atomic.OrInt32(p, m)
}
func AndInt64(p *int64, m int64) int64 {
	at(unsafe.Pointer(p), "atomic.And")
	return atomic.AndInt64(p, m)
}
func OrInt64(p *int64, m int64) int64 {
	at(unsafe.Pointer(p), "atomic.Or")
	return atomic.OrInt64(p, m)
}
func AndUint32(p *uint32, m uint32) uint32 {
	at(unsafe.Pointer(p), "atomic.And")
	return atomic.AndUint32(p, m)
}
func OrUint32(p *uint32, m uint32) uint32 {
	at(unsafe.Pointer(p), "atomic.Or")
	return atomic.OrUint32(p, m)
}
func AndUint64(p *uint64, m uint64) uint64 {
	at(unsafe.Pointer(p), "atomic.And")
	return atomic.AndUint64(p, m)
}
func OrUint64(p *uint64, m uint64) uint64 {
	at(unsafe.Pointer(p), "atomic.Or")
	return atomic.OrUint64(p, m)
}
func AndUintptr(p *uintptr, m uintptr) uintptr {
	at(unsafe.Pointer(p), "atomic.And")
	return atomic.AndUintptr(p, m)
}
func OrUintptr(p *uintptr, m uintptr) uintptr {
	at(unsafe.Pointer(p), "atomic.Or")
	return atomic.OrUintptr(p, m)
}
func LoadUintptr(p *uintptr) uintptr {
	at(unsafe.Pointer(p), "atomic.Load")
	return atomic.LoadUintptr(p)
}
func StoreUintptr(p *uintptr, v uintptr) {
	at(unsafe.Pointer(p), "atomic.Store")
	atomic.StoreUintptr(p, v)
}
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	at(unsafe.Pointer(p), "atomic.Swap")
	return atomic.SwapUintptr(p, v)
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	at(unsafe.Pointer(p), "atomic.Swap")
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	at(unsafe.Pointer(p), "atomic.CompareAndSwap")
	return atomic.CompareAndSwapUintptr(p, o, n)
}
func (a *Int32) And(m int32) int32       { at(unsafe.Pointer(a), "atomic.And"); return a.v.And(m) }
func (a *Int32) Or(m int32) int32        { at(unsafe.Pointer(a), "atomic.Or"); return a.v.Or(m) }
func (a *Int64) And(m int64) int64       { at(unsafe.Pointer(a), "atomic.And"); return a.v.And(m) }
func (a *Int64) Or(m int64) int64        { at(unsafe.Pointer(a), "atomic.Or"); return a.v.Or(m) }
func (a *Uint32) And(m uint32) uint32    { at(unsafe.Pointer(a), "atomic.And"); return a.v.And(m) }
func (a *Uint32) Or(m uint32) uint32     { at(unsafe.Pointer(a), "atomic.Or"); return a.v.Or(m) }
func (a *Uint64) And(m uint64) uint64    { at(unsafe.Pointer(a), "atomic.And"); return a.v.And(m) }
func (a *Uint64) Or(m uint64) uint64     { at(unsafe.Pointer(a), "atomic.Or"); return a.v.Or(m) }
func (a *Uintptr) And(m uintptr) uintptr { at(unsafe.Pointer(a), "atomic.And"); return a.v.And(m) }
func (a *Uintptr) Or(m uintptr) uintptr  { at(unsafe.Pointer(a), "atomic.Or"); return a.v.Or(m) }

type Uintptr struct{ v atomic.Uintptr }

func (a *Uintptr) Load() uintptr          { at(unsafe.Pointer(a), "atomic.Load"); return a.v.Load() }
func (a *Uintptr) Store(v uintptr)        { at(unsafe.Pointer(a), "atomic.Store"); a.v.Store(v) }
func (a *Uintptr) Add(d uintptr) uintptr  { at(unsafe.Pointer(a), "atomic.Add"); return a.v.Add(d) }
func (a *Uintptr) Swap(v uintptr) uintptr { at(unsafe.Pointer(a), "atomic.Swap"); return a.v.Swap(v) }
func (a *Uintptr) CompareAndSwap(o, n uintptr) bool {
	at(unsafe.Pointer(a), "atomic.CompareAndSwap")
	return a.v.CompareAndSwap(o, n)
}
