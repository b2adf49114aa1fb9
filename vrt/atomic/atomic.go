// Package atomic stands in for sync/atomic: a scheduling point, then the real operation.
package atomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/zijiren233/gencontainer/zz_verif/vrt/core"
)

func LoadInt32(p *int32) int32         { core.Point("atomic.LoadInt32"); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)     { core.Point("atomic.StoreInt32"); atomic.StoreInt32(p, v) }
func AddInt32(p *int32, d int32) int32 { core.Point("atomic.AddInt32"); return atomic.AddInt32(p, d) }
func SwapInt32(p *int32, v int32) int32 {
	core.Point("atomic.SwapInt32")
	return atomic.SwapInt32(p, v)
}
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	core.Point("atomic.CompareAndSwapInt32")
	return atomic.CompareAndSwapInt32(p, o, n)
}
func AndInt32(p *int32, m int32) int32 { core.Point("atomic.AndInt32"); return atomic.AndInt32(p, m) }
func OrInt32(p *int32, m int32) int32  { core.Point("atomic.OrInt32"); return atomic.OrInt32(p, m) }

type Int32 struct{ v int32 }

func (x *Int32) Load() int32        { core.Point("Int32.Load"); return atomic.LoadInt32(&x.v) }
func (x *Int32) Store(v int32)      { core.Point("Int32.Store"); atomic.StoreInt32(&x.v, v) }
func (x *Int32) Add(d int32) int32  { core.Point("Int32.Add"); return atomic.AddInt32(&x.v, d) }
func (x *Int32) Swap(v int32) int32 { core.Point("Int32.Swap"); return atomic.SwapInt32(&x.v, v) }
func (x *Int32) CompareAndSwap(o, n int32) bool {
	core.Point("Int32.CompareAndSwap")
	return atomic.CompareAndSwapInt32(&x.v, o, n)
}
func (x *Int32) And(m int32) int32 { core.Point("Int32.And"); return atomic.AndInt32(&x.v, m) }
func (x *Int32) Or(m int32) int32  { core.Point("Int32.Or"); return atomic.OrInt32(&x.v, m) }

func LoadInt64(p *int64) int64         { core.Point("atomic.LoadInt64"); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)     { core.Point("atomic.StoreInt64"); atomic.StoreInt64(p, v) }
func AddInt64(p *int64, d int64) int64 { core.Point("atomic.AddInt64"); return atomic.AddInt64(p, d) }
func SwapInt64(p *int64, v int64) int64 {
	core.Point("atomic.SwapInt64")
	return atomic.SwapInt64(p, v)
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	core.Point("atomic.CompareAndSwapInt64")
	return atomic.CompareAndSwapInt64(p, o, n)
}
func AndInt64(p *int64, m int64) int64 { core.Point("atomic.AndInt64"); return atomic.AndInt64(p, m) }
func OrInt64(p *int64, m int64) int64  { core.Point("atomic.OrInt64"); return atomic.OrInt64(p, m) }

type Int64 struct{ v int64 }

func (x *Int64) Load() int64        { core.Point("Int64.Load"); return atomic.LoadInt64(&x.v) }
func (x *Int64) Store(v int64)      { core.Point("Int64.Store"); atomic.StoreInt64(&x.v, v) }
func (x *Int64) Add(d int64) int64  { core.Point("Int64.Add"); return atomic.AddInt64(&x.v, d) }
func (x *Int64) Swap(v int64) int64 { core.Point("Int64.Swap"); return atomic.SwapInt64(&x.v, v) }
func (x *Int64) CompareAndSwap(o, n int64) bool {
	core.Point("Int64.CompareAndSwap")
	return atomic.CompareAndSwapInt64(&x.v, o, n)
}
func (x *Int64) And(m int64) int64 { core.Point("Int64.And"); return atomic.AndInt64(&x.v, m) }
func (x *Int64) Or(m int64) int64  { core.Point("Int64.Or"); return atomic.OrInt64(&x.v, m) }

func LoadUint32(p *uint32) uint32     { core.Point("atomic.LoadUint32"); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32) { core.Point("atomic.StoreUint32"); atomic.StoreUint32(p, v) }
func AddUint32(p *uint32, d uint32) uint32 {
	core.Point("atomic.AddUint32")
	return atomic.AddUint32(p, d)
}
func SwapUint32(p *uint32, v uint32) uint32 {
	core.Point("atomic.SwapUint32")
	return atomic.SwapUint32(p, v)
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	core.Point("atomic.CompareAndSwapUint32")
	return atomic.CompareAndSwapUint32(p, o, n)
}
func AndUint32(p *uint32, m uint32) uint32 {
	core.Point("atomic.AndUint32")
	return atomic.AndUint32(p, m)
}
func OrUint32(p *uint32, m uint32) uint32 {
	core.Point("atomic.OrUint32")
	return atomic.OrUint32(p, m)
}

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32         { core.Point("Uint32.Load"); return atomic.LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)       { core.Point("Uint32.Store"); atomic.StoreUint32(&x.v, v) }
func (x *Uint32) Add(d uint32) uint32  { core.Point("Uint32.Add"); return atomic.AddUint32(&x.v, d) }
func (x *Uint32) Swap(v uint32) uint32 { core.Point("Uint32.Swap"); return atomic.SwapUint32(&x.v, v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	core.Point("Uint32.CompareAndSwap")
	return atomic.CompareAndSwapUint32(&x.v, o, n)
}
func (x *Uint32) And(m uint32) uint32 { core.Point("Uint32.And"); return atomic.AndUint32(&x.v, m) }
func (x *Uint32) Or(m uint32) uint32  { core.Point("Uint32.Or"); return atomic.OrUint32(&x.v, m) }

func LoadUint64(p *uint64) uint64     { core.Point("atomic.LoadUint64"); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64) { core.Point("atomic.StoreUint64"); atomic.StoreUint64(p, v) }
func AddUint64(p *uint64, d uint64) uint64 {
	core.Point("atomic.AddUint64")
	return atomic.AddUint64(p, d)
}
func SwapUint64(p *uint64, v uint64) uint64 {
	core.Point("atomic.SwapUint64")
	return atomic.SwapUint64(p, v)
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	core.Point("atomic.CompareAndSwapUint64")
	return atomic.CompareAndSwapUint64(p, o, n)
}
func AndUint64(p *uint64, m uint64) uint64 {
	core.Point("atomic.AndUint64")
	return atomic.AndUint64(p, m)
}
func OrUint64(p *uint64, m uint64) uint64 {
	core.Point("atomic.OrUint64")
	return atomic.OrUint64(p, m)
}

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64         { core.Point("Uint64.Load"); return atomic.LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)       { core.Point("Uint64.Store"); atomic.StoreUint64(&x.v, v) }
func (x *Uint64) Add(d uint64) uint64  { core.Point("Uint64.Add"); return atomic.AddUint64(&x.v, d) }
func (x *Uint64) Swap(v uint64) uint64 { core.Point("Uint64.Swap"); return atomic.SwapUint64(&x.v, v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	core.Point("Uint64.CompareAndSwap")
	return atomic.CompareAndSwapUint64(&x.v, o, n)
}
func (x *Uint64) And(m uint64) uint64 { core.Point("Uint64.And"); return atomic.AndUint64(&x.v, m) }
func (x *Uint64) Or(m uint64) uint64  { core.Point("Uint64.Or"); return atomic.OrUint64(&x.v, m) }

func LoadUintptr(p *uintptr) uintptr { core.Point("atomic.LoadUintptr"); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr) {
	core.Point("atomic.StoreUintptr")
	atomic.StoreUintptr(p, v)
}
func AddUintptr(p *uintptr, d uintptr) uintptr {
	core.Point("atomic.AddUintptr")
	return atomic.AddUintptr(p, d)
}
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	core.Point("atomic.SwapUintptr")
	return atomic.SwapUintptr(p, v)
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	core.Point("atomic.CompareAndSwapUintptr")
	return atomic.CompareAndSwapUintptr(p, o, n)
}
func AndUintptr(p *uintptr, m uintptr) uintptr {
	core.Point("atomic.AndUintptr")
	return atomic.AndUintptr(p, m)
}
func OrUintptr(p *uintptr, m uintptr) uintptr {
	core.Point("atomic.OrUintptr")
	return atomic.OrUintptr(p, m)
}

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr   { core.Point("Uintptr.Load"); return atomic.LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr) { core.Point("Uintptr.Store"); atomic.StoreUintptr(&x.v, v) }
func (x *Uintptr) Add(d uintptr) uintptr {
	core.Point("Uintptr.Add")
	return atomic.AddUintptr(&x.v, d)
}
func (x *Uintptr) Swap(v uintptr) uintptr {
	core.Point("Uintptr.Swap")
	return atomic.SwapUintptr(&x.v, v)
}
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	core.Point("Uintptr.CompareAndSwap")
	return atomic.CompareAndSwapUintptr(&x.v, o, n)
}
func (x *Uintptr) And(m uintptr) uintptr {
	core.Point("Uintptr.And")
	return atomic.AndUintptr(&x.v, m)
}
func (x *Uintptr) Or(m uintptr) uintptr { core.Point("Uintptr.Or"); return atomic.OrUintptr(&x.v, m) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	core.Point("atomic.LoadPointer")
	return atomic.LoadPointer(p)
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	core.Point("atomic.StorePointer")
	atomic.StorePointer(p, v)
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	core.Point("atomic.SwapPointer")
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	core.Point("atomic.CompareAndSwapPointer")
	return atomic.CompareAndSwapPointer(p, o, n)
}

type Bool struct{ v uint32 }

func b32(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}
func (x *Bool) Load() bool   { core.Point("Bool.Load"); return atomic.LoadUint32(&x.v) != 0 }
func (x *Bool) Store(v bool) { core.Point("Bool.Store"); atomic.StoreUint32(&x.v, b32(v)) }
func (x *Bool) Swap(v bool) bool {
	core.Point("Bool.Swap")
	return atomic.SwapUint32(&x.v, b32(v)) != 0
}
func (x *Bool) CompareAndSwap(o, n bool) bool {
	core.Point("Bool.CompareAndSwap")
	return atomic.CompareAndSwapUint32(&x.v, b32(o), b32(n))
}

type Pointer[T any] struct{ p *T }

func (x *Pointer[T]) a() *unsafe.Pointer { return (*unsafe.Pointer)(unsafe.Pointer(&x.p)) }
func (x *Pointer[T]) Load() *T           { core.Point("Pointer.Load"); return (*T)(atomic.LoadPointer(x.a())) }
func (x *Pointer[T]) Store(v *T) {
	core.Point("Pointer.Store")
	atomic.StorePointer(x.a(), unsafe.Pointer(v))
}
func (x *Pointer[T]) Swap(v *T) *T {
	core.Point("Pointer.Swap")
	return (*T)(atomic.SwapPointer(x.a(), unsafe.Pointer(v)))
}
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	core.Point("Pointer.CompareAndSwap")
	return atomic.CompareAndSwapPointer(x.a(), unsafe.Pointer(o), unsafe.Pointer(n))
}

type box struct{ v any }

// Value keeps the last stored value behind a pointer.
type Value struct{ p *box }

func (x *Value) a() *unsafe.Pointer { return (*unsafe.Pointer)(unsafe.Pointer(&x.p)) }
func (x *Value) Load() any {
	core.Point("Value.Load")
	if b := (*box)(atomic.LoadPointer(x.a())); b != nil {
		return b.v
	}
	return nil
}
func (x *Value) Store(v any) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	core.Point("Value.Store")
	atomic.StorePointer(x.a(), unsafe.Pointer(&box{v}))
}
func (x *Value) Swap(v any) any {
	if v == nil {
		panic("sync/atomic: swap of nil value into Value")
	}
	core.Point("Value.Swap")
	if b := (*box)(atomic.SwapPointer(x.a(), unsafe.Pointer(&box{v}))); b != nil {
		return b.v
	}
	return nil
}
func (x *Value) CompareAndSwap(o, n any) bool {
	if n == nil {
		panic("sync/atomic: compare and swap of nil value into Value")
	}
	core.Point("Value.CompareAndSwap")
	for {
		b := (*box)(atomic.LoadPointer(x.a()))
		if (b == nil) != (o == nil) || (b != nil && b.v != o) {
			return false
		}
		if atomic.CompareAndSwapPointer(x.a(), unsafe.Pointer(b), unsafe.Pointer(&box{n})) {
			return true
		}
	}
}
