// Package atomic has the API of sync/atomic with a preemption point before and
// after every operation.
package atomic

import (
	real "sync/atomic"
	"unsafe"

	"github.com/intel/forGoParallel/internal/zzverif/sim"
)

type Int32 struct {
	v real.Int32
}

func LoadInt32(p *int32) (r int32) {
	sim.Yield()
	r = real.LoadInt32(p)
	sim.Yield()
	return
}

func (x *Int32) Load() (r int32) {
	sim.Yield()
	r = x.v.Load()
	sim.Yield()
	return
}

func StoreInt32(p *int32, v int32) {
	sim.Yield()
	real.StoreInt32(p, v)
	sim.Yield()
}

func (x *Int32) Store(v int32) {
	sim.Yield()
	x.v.Store(v)
	sim.Yield()
}

func SwapInt32(p *int32, v int32) (r int32) {
	sim.Yield()
	r = real.SwapInt32(p, v)
	sim.Yield()
	return
}

func (x *Int32) Swap(v int32) (r int32) {
	sim.Yield()
	r = x.v.Swap(v)
	sim.Yield()
	return
}

func AddInt32(p *int32, v int32) (r int32) {
	sim.Yield()
	r = real.AddInt32(p, v)
	sim.Yield()
	return
}

func (x *Int32) Add(v int32) (r int32) {
	sim.Yield()
	r = x.v.Add(v)
	sim.Yield()
	return
}

func CompareAndSwapInt32(p *int32, old, new int32) (r bool) {
	sim.Yield()
	r = real.CompareAndSwapInt32(p, old, new)
	sim.Yield()
	return
}

func (x *Int32) CompareAndSwap(old, new int32) (r bool) {
	sim.Yield()
	r = x.v.CompareAndSwap(old, new)
	sim.Yield()
	return
}

func AndInt32(p *int32, v int32) (r int32) {
	sim.Yield()
	r = real.AndInt32(p, v)
	sim.Yield()
	return
}

func (x *Int32) And(v int32) (r int32) {
	sim.Yield()
	r = x.v.And(v)
	sim.Yield()
	return
}

func OrInt32(p *int32, v int32) (r int32) {
	sim.Yield()
	r = real.OrInt32(p, v)
	sim.Yield()
	return
}

func (x *Int32) Or(v int32) (r int32) {
	sim.Yield()
	r = x.v.Or(v)
	sim.Yield()
	return
}

type Int64 struct {
	v real.Int64
}

func LoadInt64(p *int64) (r int64) {
	sim.Yield()
	r = real.LoadInt64(p)
	sim.Yield()
	return
}

func (x *Int64) Load() (r int64) {
	sim.Yield()
	r = x.v.Load()
	sim.Yield()
	return
}

func StoreInt64(p *int64, v int64) {
	sim.Yield()
	real.StoreInt64(p, v)
	sim.Yield()
}

func (x *Int64) Store(v int64) {
	sim.Yield()
	x.v.Store(v)
	sim.Yield()
}

func SwapInt64(p *int64, v int64) (r int64) {
	sim.Yield()
	r = real.SwapInt64(p, v)
	sim.Yield()
	return
}

func (x *Int64) Swap(v int64) (r int64) {
	sim.Yield()
	r = x.v.Swap(v)
	sim.Yield()
	return
}

func AddInt64(p *int64, v int64) (r int64) {
	sim.Yield()
	r = real.AddInt64(p, v)
	sim.Yield()
	return
}

func (x *Int64) Add(v int64) (r int64) {
	sim.Yield()
	r = x.v.Add(v)
	sim.Yield()
	return
}

func CompareAndSwapInt64(p *int64, old, new int64) (r bool) {
	sim.Yield()
	r = real.CompareAndSwapInt64(p, old, new)
	sim.Yield()
	return
}

func (x *Int64) CompareAndSwap(old, new int64) (r bool) {
	sim.Yield()
	r = x.v.CompareAndSwap(old, new)
	sim.Yield()
	return
}

func AndInt64(p *int64, v int64) (r int64) {
	sim.Yield()
	r = real.AndInt64(p, v)
	sim.Yield()
	return
}

func (x *Int64) And(v int64) (r int64) {
	sim.Yield()
	r = x.v.And(v)
	sim.Yield()
	return
}

func OrInt64(p *int64, v int64) (r int64) {
	sim.Yield()
	r = real.OrInt64(p, v)
	sim.Yield()
	return
}

func (x *Int64) Or(v int64) (r int64) {
	sim.Yield()
	r = x.v.Or(v)
	sim.Yield()
	return
}

type Uint32 struct {
	v real.Uint32
}

func LoadUint32(p *uint32) (r uint32) {
	sim.Yield()
	r = real.LoadUint32(p)
	sim.Yield()
	return
}

func (x *Uint32) Load() (r uint32) {
	sim.Yield()
	r = x.v.Load()
	sim.Yield()
	return
}

func StoreUint32(p *uint32, v uint32) {
	sim.Yield()
	real.StoreUint32(p, v)
	sim.Yield()
}

func (x *Uint32) Store(v uint32) {
	sim.Yield()
	x.v.Store(v)
	sim.Yield()
}

func SwapUint32(p *uint32, v uint32) (r uint32) {
	sim.Yield()
	r = real.SwapUint32(p, v)
	sim.Yield()
	return
}

func (x *Uint32) Swap(v uint32) (r uint32) {
	sim.Yield()
	r = x.v.Swap(v)
	sim.Yield()
	return
}

func AddUint32(p *uint32, v uint32) (r uint32) {
	sim.Yield()
	r = real.AddUint32(p, v)
	sim.Yield()
	return
}

func (x *Uint32) Add(v uint32) (r uint32) {
	sim.Yield()
	r = x.v.Add(v)
	sim.Yield()
	return
}

func CompareAndSwapUint32(p *uint32, old, new uint32) (r bool) {
	sim.Yield()
	r = real.CompareAndSwapUint32(p, old, new)
	sim.Yield()
	return
}

func (x *Uint32) CompareAndSwap(old, new uint32) (r bool) {
	sim.Yield()
	r = x.v.CompareAndSwap(old, new)
	sim.Yield()
	return
}

func AndUint32(p *uint32, v uint32) (r uint32) {
	sim.Yield()
	r = real.AndUint32(p, v)
	sim.Yield()
	return
}

func (x *Uint32) And(v uint32) (r uint32) {
	sim.Yield()
	r = x.v.And(v)
	sim.Yield()
	return
}

func OrUint32(p *uint32, v uint32) (r uint32) {
	sim.Yield()
	r = real.OrUint32(p, v)
	sim.Yield()
	return
}

func (x *Uint32) Or(v uint32) (r uint32) {
	sim.Yield()
	r = x.v.Or(v)
	sim.Yield()
	return
}

type Uint64 struct {
	v real.Uint64
}

func LoadUint64(p *uint64) (r uint64) {
	sim.Yield()
	r = real.LoadUint64(p)
	sim.Yield()
	return
}

func (x *Uint64) Load() (r uint64) {
	sim.Yield()
	r = x.v.Load()
	sim.Yield()
	return
}

func StoreUint64(p *uint64, v uint64) {
	sim.Yield()
	real.StoreUint64(p, v)
	sim.Yield()
}

func (x *Uint64) Store(v uint64) {
	sim.Yield()
	x.v.Store(v)
	sim.Yield()
}

func SwapUint64(p *uint64, v uint64) (r uint64) {
	sim.Yield()
	r = real.SwapUint64(p, v)
	sim.Yield()
	return
}

func (x *Uint64) Swap(v uint64) (r uint64) {
	sim.Yield()
	r = x.v.Swap(v)
	sim.Yield()
	return
}

func AddUint64(p *uint64, v uint64) (r uint64) {
	sim.Yield()
	r = real.AddUint64(p, v)
	sim.Yield()
	return
}

func (x *Uint64) Add(v uint64) (r uint64) {
	sim.Yield()
	r = x.v.Add(v)
	sim.Yield()
	return
}

func CompareAndSwapUint64(p *uint64, old, new uint64) (r bool) {
	sim.Yield()
	r = real.CompareAndSwapUint64(p, old, new)
	sim.Yield()
	return
}

func (x *Uint64) CompareAndSwap(old, new uint64) (r bool) {
	sim.Yield()
	r = x.v.CompareAndSwap(old, new)
	sim.Yield()
	return
}

func AndUint64(p *uint64, v uint64) (r uint64) {
	sim.Yield()
	r = real.AndUint64(p, v)
	sim.Yield()
	return
}

func (x *Uint64) And(v uint64) (r uint64) {
	sim.Yield()
	r = x.v.And(v)
	sim.Yield()
	return
}

func OrUint64(p *uint64, v uint64) (r uint64) {
	sim.Yield()
	r = real.OrUint64(p, v)
	sim.Yield()
	return
}

func (x *Uint64) Or(v uint64) (r uint64) {
	sim.Yield()
	r = x.v.Or(v)
	sim.Yield()
	return
}

type Uintptr struct {
	v real.Uintptr
}

func LoadUintptr(p *uintptr) (r uintptr) {
	sim.Yield()
	r = real.LoadUintptr(p)
	sim.Yield()
	return
}

func (x *Uintptr) Load() (r uintptr) {
	sim.Yield()
	r = x.v.Load()
	sim.Yield()
	return
}

func StoreUintptr(p *uintptr, v uintptr) {
	sim.Yield()
	real.StoreUintptr(p, v)
	sim.Yield()
}

func (x *Uintptr) Store(v uintptr) {
	sim.Yield()
	x.v.Store(v)
	sim.Yield()
}

func SwapUintptr(p *uintptr, v uintptr) (r uintptr) {
	sim.Yield()
	r = real.SwapUintptr(p, v)
	sim.Yield()
	return
}

func (x *Uintptr) Swap(v uintptr) (r uintptr) {
	sim.Yield()
	r = x.v.Swap(v)
	sim.Yield()
	return
}

func AddUintptr(p *uintptr, v uintptr) (r uintptr) {
	sim.Yield()
	r = real.AddUintptr(p, v)
	sim.Yield()
	return
}

func (x *Uintptr) Add(v uintptr) (r uintptr) {
	sim.Yield()
	r = x.v.Add(v)
	sim.Yield()
	return
}

func CompareAndSwapUintptr(p *uintptr, old, new uintptr) (r bool) {
	sim.Yield()
	r = real.CompareAndSwapUintptr(p, old, new)
	sim.Yield()
	return
}

func (x *Uintptr) CompareAndSwap(old, new uintptr) (r bool) {
	sim.Yield()
	r = x.v.CompareAndSwap(old, new)
	sim.Yield()
	return
}

func AndUintptr(p *uintptr, v uintptr) (r uintptr) {
	sim.Yield()
	r = real.AndUintptr(p, v)
	sim.Yield()
	return
}

func (x *Uintptr) And(v uintptr) (r uintptr) {
	sim.Yield()
	r = x.v.And(v)
	sim.Yield()
	return
}

func OrUintptr(p *uintptr, v uintptr) (r uintptr) {
	sim.Yield()
	r = real.OrUintptr(p, v)
	sim.Yield()
	return
}

func (x *Uintptr) Or(v uintptr) (r uintptr) {
	sim.Yield()
	r = x.v.Or(v)
	sim.Yield()
	return
}

type Bool struct {
	v real.Bool
}

func (x *Bool) Load() (r bool) {
	sim.Yield()
	r = x.v.Load()
	sim.Yield()
	return
}

func (x *Bool) Store(v bool) {
	sim.Yield()
	x.v.Store(v)
	sim.Yield()
}

func (x *Bool) Swap(v bool) (r bool) {
	sim.Yield()
	r = x.v.Swap(v)
	sim.Yield()
	return
}

func (x *Bool) CompareAndSwap(old, new bool) (r bool) {
	sim.Yield()
	r = x.v.CompareAndSwap(old, new)
	sim.Yield()
	return
}

type Value struct {
	v real.Value
}

func (x *Value) Load() (r any) {
	sim.Yield()
	r = x.v.Load()
	sim.Yield()
	return
}

func (x *Value) Store(v any) {
	sim.Yield()
	x.v.Store(v)
	sim.Yield()
}

func (x *Value) Swap(v any) (r any) {
	sim.Yield()
	r = x.v.Swap(v)
	sim.Yield()
	return
}

func (x *Value) CompareAndSwap(old, new any) (r bool) {
	sim.Yield()
	r = x.v.CompareAndSwap(old, new)
	sim.Yield()
	return
}

type Pointer[T any] struct {
	v real.Pointer[T]
}

func (x *Pointer[T]) Load() (r *T) {
	sim.Yield()
	r = x.v.Load()
	sim.Yield()
	return
}

func (x *Pointer[T]) Store(v *T) {
	sim.Yield()
	x.v.Store(v)
	sim.Yield()
}

func (x *Pointer[T]) Swap(v *T) (r *T) {
	sim.Yield()
	r = x.v.Swap(v)
	sim.Yield()
	return
}

func (x *Pointer[T]) CompareAndSwap(old, new *T) (r bool) {
	sim.Yield()
	r = x.v.CompareAndSwap(old, new)
	sim.Yield()
	return
}

func LoadPointer(p *unsafe.Pointer) (r unsafe.Pointer) {
	sim.Yield()
	r = real.LoadPointer(p)
	sim.Yield()
	return
}

func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	sim.Yield()
	real.StorePointer(p, v)
	sim.Yield()
}

func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) (r unsafe.Pointer) {
	sim.Yield()
	r = real.SwapPointer(p, v)
	sim.Yield()
	return
}

func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) (r bool) {
	sim.Yield()
	r = real.CompareAndSwapPointer(p, o, n)
	sim.Yield()
	return
}
