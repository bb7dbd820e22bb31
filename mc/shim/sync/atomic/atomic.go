// Package atomic replaces sync/atomic in instrumented code: every operation is a scheduling point.
package atomic

import (
	real "sync/atomic"
	"unsafe"

	"verif/mc/vs"
)

func AddInt32(addr *int32, delta int32) (new int32) {
	vs.Point("atomic Add")
	return real.AddInt32(addr, delta)
}
func AndInt32(addr *int32, mask int32) (old int32) {
	vs.Point("atomic And")
	return real.AndInt32(addr, mask)
}
func OrInt32(addr *int32, mask int32) (old int32) {
	vs.Point("atomic Or")
	return real.OrInt32(addr, mask)
}
func LoadInt32(addr *int32) int32          { vs.Point("atomic Load"); return real.LoadInt32(addr) }
func StoreInt32(addr *int32, v int32)      { vs.Point("atomic Store"); real.StoreInt32(addr, v) }
func SwapInt32(addr *int32, v int32) int32 { vs.Point("atomic Swap"); return real.SwapInt32(addr, v) }
func CompareAndSwapInt32(addr *int32, o, n int32) bool {
	vs.Point("atomic CompareAndSwap")
	return real.CompareAndSwapInt32(addr, o, n)
}

type Int32 struct{ r real.Int32 }

func (x *Int32) Load() int32        { vs.Point("atomic Load"); return x.r.Load() }
func (x *Int32) Store(v int32)      { vs.Point("atomic Store"); x.r.Store(v) }
func (x *Int32) Swap(v int32) int32 { vs.Point("atomic Swap"); return x.r.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool {
	vs.Point("atomic CompareAndSwap")
	return x.r.CompareAndSwap(o, n)
}
func (x *Int32) Add(v int32) int32 { vs.Point("atomic Add"); return x.r.Add(v) }
func (x *Int32) And(v int32) int32 { vs.Point("atomic And"); return x.r.And(v) }
func (x *Int32) Or(v int32) int32  { vs.Point("atomic Or"); return x.r.Or(v) }
func AddInt64(addr *int64, delta int64) (new int64) {
	vs.Point("atomic Add")
	return real.AddInt64(addr, delta)
}
func AndInt64(addr *int64, mask int64) (old int64) {
	vs.Point("atomic And")
	return real.AndInt64(addr, mask)
}
func OrInt64(addr *int64, mask int64) (old int64) {
	vs.Point("atomic Or")
	return real.OrInt64(addr, mask)
}
func LoadInt64(addr *int64) int64          { vs.Point("atomic Load"); return real.LoadInt64(addr) }
func StoreInt64(addr *int64, v int64)      { vs.Point("atomic Store"); real.StoreInt64(addr, v) }
func SwapInt64(addr *int64, v int64) int64 { vs.Point("atomic Swap"); return real.SwapInt64(addr, v) }
func CompareAndSwapInt64(addr *int64, o, n int64) bool {
	vs.Point("atomic CompareAndSwap")
	return real.CompareAndSwapInt64(addr, o, n)
}

type Int64 struct{ r real.Int64 }

func (x *Int64) Load() int64        { vs.Point("atomic Load"); return x.r.Load() }
func (x *Int64) Store(v int64)      { vs.Point("atomic Store"); x.r.Store(v) }
func (x *Int64) Swap(v int64) int64 { vs.Point("atomic Swap"); return x.r.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool {
	vs.Point("atomic CompareAndSwap")
	return x.r.CompareAndSwap(o, n)
}
func (x *Int64) Add(v int64) int64 { vs.Point("atomic Add"); return x.r.Add(v) }
func (x *Int64) And(v int64) int64 { vs.Point("atomic And"); return x.r.And(v) }
func (x *Int64) Or(v int64) int64  { vs.Point("atomic Or"); return x.r.Or(v) }
func AddUint32(addr *uint32, delta uint32) (new uint32) {
	vs.Point("atomic Add")
	return real.AddUint32(addr, delta)
}
func AndUint32(addr *uint32, mask uint32) (old uint32) {
	vs.Point("atomic And")
	return real.AndUint32(addr, mask)
}
func OrUint32(addr *uint32, mask uint32) (old uint32) {
	vs.Point("atomic Or")
	return real.OrUint32(addr, mask)
}
func LoadUint32(addr *uint32) uint32     { vs.Point("atomic Load"); return real.LoadUint32(addr) }
func StoreUint32(addr *uint32, v uint32) { vs.Point("atomic Store"); real.StoreUint32(addr, v) }
func SwapUint32(addr *uint32, v uint32) uint32 {
	vs.Point("atomic Swap")
	return real.SwapUint32(addr, v)
}
func CompareAndSwapUint32(addr *uint32, o, n uint32) bool {
	vs.Point("atomic CompareAndSwap")
	return real.CompareAndSwapUint32(addr, o, n)
}

type Uint32 struct{ r real.Uint32 }

func (x *Uint32) Load() uint32         { vs.Point("atomic Load"); return x.r.Load() }
func (x *Uint32) Store(v uint32)       { vs.Point("atomic Store"); x.r.Store(v) }
func (x *Uint32) Swap(v uint32) uint32 { vs.Point("atomic Swap"); return x.r.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	vs.Point("atomic CompareAndSwap")
	return x.r.CompareAndSwap(o, n)
}
func (x *Uint32) Add(v uint32) uint32 { vs.Point("atomic Add"); return x.r.Add(v) }
func (x *Uint32) And(v uint32) uint32 { vs.Point("atomic And"); return x.r.And(v) }
func (x *Uint32) Or(v uint32) uint32  { vs.Point("atomic Or"); return x.r.Or(v) }
func AddUint64(addr *uint64, delta uint64) (new uint64) {
	vs.Point("atomic Add")
	return real.AddUint64(addr, delta)
}
func AndUint64(addr *uint64, mask uint64) (old uint64) {
	vs.Point("atomic And")
	return real.AndUint64(addr, mask)
}
func OrUint64(addr *uint64, mask uint64) (old uint64) {
	vs.Point("atomic Or")
	return real.OrUint64(addr, mask)
}
func LoadUint64(addr *uint64) uint64     { vs.Point("atomic Load"); return real.LoadUint64(addr) }
func StoreUint64(addr *uint64, v uint64) { vs.Point("atomic Store"); real.StoreUint64(addr, v) }
func SwapUint64(addr *uint64, v uint64) uint64 {
	vs.Point("atomic Swap")
	return real.SwapUint64(addr, v)
}
func CompareAndSwapUint64(addr *uint64, o, n uint64) bool {
	vs.Point("atomic CompareAndSwap")
	return real.CompareAndSwapUint64(addr, o, n)
}

type Uint64 struct{ r real.Uint64 }

func (x *Uint64) Load() uint64         { vs.Point("atomic Load"); return x.r.Load() }
func (x *Uint64) Store(v uint64)       { vs.Point("atomic Store"); x.r.Store(v) }
func (x *Uint64) Swap(v uint64) uint64 { vs.Point("atomic Swap"); return x.r.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	vs.Point("atomic CompareAndSwap")
	return x.r.CompareAndSwap(o, n)
}
func (x *Uint64) Add(v uint64) uint64 { vs.Point("atomic Add"); return x.r.Add(v) }
func (x *Uint64) And(v uint64) uint64 { vs.Point("atomic And"); return x.r.And(v) }
func (x *Uint64) Or(v uint64) uint64  { vs.Point("atomic Or"); return x.r.Or(v) }
func AddUintptr(addr *uintptr, delta uintptr) (new uintptr) {
	vs.Point("atomic Add")
	return real.AddUintptr(addr, delta)
}
func AndUintptr(addr *uintptr, mask uintptr) (old uintptr) {
	vs.Point("atomic And")
	return real.AndUintptr(addr, mask)
}
func OrUintptr(addr *uintptr, mask uintptr) (old uintptr) {
	vs.Point("atomic Or")
	return real.OrUintptr(addr, mask)
}
func LoadUintptr(addr *uintptr) uintptr     { vs.Point("atomic Load"); return real.LoadUintptr(addr) }
func StoreUintptr(addr *uintptr, v uintptr) { vs.Point("atomic Store"); real.StoreUintptr(addr, v) }
func SwapUintptr(addr *uintptr, v uintptr) uintptr {
	vs.Point("atomic Swap")
	return real.SwapUintptr(addr, v)
}
func CompareAndSwapUintptr(addr *uintptr, o, n uintptr) bool {
	vs.Point("atomic CompareAndSwap")
	return real.CompareAndSwapUintptr(addr, o, n)
}

type Uintptr struct{ r real.Uintptr }

func (x *Uintptr) Load() uintptr          { vs.Point("atomic Load"); return x.r.Load() }
func (x *Uintptr) Store(v uintptr)        { vs.Point("atomic Store"); x.r.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr { vs.Point("atomic Swap"); return x.r.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	vs.Point("atomic CompareAndSwap")
	return x.r.CompareAndSwap(o, n)
}
func (x *Uintptr) Add(v uintptr) uintptr { vs.Point("atomic Add"); return x.r.Add(v) }
func (x *Uintptr) And(v uintptr) uintptr { vs.Point("atomic And"); return x.r.And(v) }
func (x *Uintptr) Or(v uintptr) uintptr  { vs.Point("atomic Or"); return x.r.Or(v) }
func LoadPointer(addr *unsafe.Pointer) unsafe.Pointer {
	vs.Point("atomic Load")
	return real.LoadPointer(addr)
}
func StorePointer(addr *unsafe.Pointer, v unsafe.Pointer) {
	vs.Point("atomic Store")
	real.StorePointer(addr, v)
}
func SwapPointer(addr *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	vs.Point("atomic Swap")
	return real.SwapPointer(addr, v)
}
func CompareAndSwapPointer(addr *unsafe.Pointer, o, n unsafe.Pointer) bool {
	vs.Point("atomic CompareAndSwap")
	return real.CompareAndSwapPointer(addr, o, n)
}

type Bool struct{ r real.Bool }

func (x *Bool) Load() bool       { vs.Point("atomic Load"); return x.r.Load() }
func (x *Bool) Store(v bool)     { vs.Point("atomic Store"); x.r.Store(v) }
func (x *Bool) Swap(v bool) bool { vs.Point("atomic Swap"); return x.r.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	vs.Point("atomic CompareAndSwap")
	return x.r.CompareAndSwap(o, n)
}

type Pointer[T any] struct{ r real.Pointer[T] }

func (x *Pointer[T]) Load() *T     { vs.Point("atomic Load"); return x.r.Load() }
func (x *Pointer[T]) Store(v *T)   { vs.Point("atomic Store"); x.r.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T { vs.Point("atomic Swap"); return x.r.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	vs.Point("atomic CompareAndSwap")
	return x.r.CompareAndSwap(o, n)
}

type Value struct{ r real.Value }

func (x *Value) Load() any      { vs.Point("atomic Load"); return x.r.Load() }
func (x *Value) Store(v any)    { vs.Point("atomic Store"); x.r.Store(v) }
func (x *Value) Swap(v any) any { vs.Point("atomic Swap"); return x.r.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool {
	vs.Point("atomic CompareAndSwap")
	return x.r.CompareAndSwap(o, n)
}
