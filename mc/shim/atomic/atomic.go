// Package atomic stands in for sync/atomic: the same operations, each a scheduling point.
package atomic

import (
	"sync/atomic"
	"unsafe"

	"verifmc/sched"
)

func ld() { sched.Point(sched.KAtomicLoad) }
func st() { sched.Point(sched.KAtomicStore) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T           { ld(); return x.v.Load() }
func (x *Pointer[T]) Store(p *T)         { st(); x.v.Store(p) }
func (x *Pointer[T]) Swap(p *T) (old *T) { st(); return x.v.Swap(p) }
func (x *Pointer[T]) CompareAndSwap(old, new *T) bool {
	st()
	return x.v.CompareAndSwap(old, new)
}

type Value struct{ v atomic.Value }

func (x *Value) Load() any                        { ld(); return x.v.Load() }
func (x *Value) Store(p any)                      { st(); x.v.Store(p) }
func (x *Value) Swap(p any) any                   { st(); return x.v.Swap(p) }
func (x *Value) CompareAndSwap(old, new any) bool { st(); return x.v.CompareAndSwap(old, new) }

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                        { ld(); return x.v.Load() }
func (x *Bool) Store(p bool)                      { st(); x.v.Store(p) }
func (x *Bool) Swap(p bool) bool                  { st(); return x.v.Swap(p) }
func (x *Bool) CompareAndSwap(old, new bool) bool { st(); return x.v.CompareAndSwap(old, new) }

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                        { ld(); return x.v.Load() }
func (x *Int32) Store(p int32)                      { st(); x.v.Store(p) }
func (x *Int32) Swap(p int32) int32                 { st(); return x.v.Swap(p) }
func (x *Int32) CompareAndSwap(old, new int32) bool { st(); return x.v.CompareAndSwap(old, new) }
func (x *Int32) Add(d int32) int32                  { st(); return x.v.Add(d) }
func (x *Int32) And(m int32) int32                  { st(); return x.v.And(m) }
func (x *Int32) Or(m int32) int32                   { st(); return x.v.Or(m) }

func LoadInt32(p *int32) int32                      { ld(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)                  { st(); atomic.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32             { st(); return atomic.SwapInt32(p, v) }
func AddInt32(p *int32, v int32) int32              { st(); return atomic.AddInt32(p, v) }
func AndInt32(p *int32, v int32) int32              { st(); return atomic.AndInt32(p, v) }
func OrInt32(p *int32, v int32) int32               { st(); return atomic.OrInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool { st(); return atomic.CompareAndSwapInt32(p, o, n) }

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                        { ld(); return x.v.Load() }
func (x *Int64) Store(p int64)                      { st(); x.v.Store(p) }
func (x *Int64) Swap(p int64) int64                 { st(); return x.v.Swap(p) }
func (x *Int64) CompareAndSwap(old, new int64) bool { st(); return x.v.CompareAndSwap(old, new) }
func (x *Int64) Add(d int64) int64                  { st(); return x.v.Add(d) }
func (x *Int64) And(m int64) int64                  { st(); return x.v.And(m) }
func (x *Int64) Or(m int64) int64                   { st(); return x.v.Or(m) }

func LoadInt64(p *int64) int64                      { ld(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)                  { st(); atomic.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64             { st(); return atomic.SwapInt64(p, v) }
func AddInt64(p *int64, v int64) int64              { st(); return atomic.AddInt64(p, v) }
func AndInt64(p *int64, v int64) int64              { st(); return atomic.AndInt64(p, v) }
func OrInt64(p *int64, v int64) int64               { st(); return atomic.OrInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool { st(); return atomic.CompareAndSwapInt64(p, o, n) }

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                        { ld(); return x.v.Load() }
func (x *Uint32) Store(p uint32)                      { st(); x.v.Store(p) }
func (x *Uint32) Swap(p uint32) uint32                { st(); return x.v.Swap(p) }
func (x *Uint32) CompareAndSwap(old, new uint32) bool { st(); return x.v.CompareAndSwap(old, new) }
func (x *Uint32) Add(d uint32) uint32                 { st(); return x.v.Add(d) }
func (x *Uint32) And(m uint32) uint32                 { st(); return x.v.And(m) }
func (x *Uint32) Or(m uint32) uint32                  { st(); return x.v.Or(m) }

func LoadUint32(p *uint32) uint32           { ld(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { st(); atomic.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { st(); return atomic.SwapUint32(p, v) }
func AddUint32(p *uint32, v uint32) uint32  { st(); return atomic.AddUint32(p, v) }
func AndUint32(p *uint32, v uint32) uint32  { st(); return atomic.AndUint32(p, v) }
func OrUint32(p *uint32, v uint32) uint32   { st(); return atomic.OrUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	st()
	return atomic.CompareAndSwapUint32(p, o, n)
}

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                        { ld(); return x.v.Load() }
func (x *Uint64) Store(p uint64)                      { st(); x.v.Store(p) }
func (x *Uint64) Swap(p uint64) uint64                { st(); return x.v.Swap(p) }
func (x *Uint64) CompareAndSwap(old, new uint64) bool { st(); return x.v.CompareAndSwap(old, new) }
func (x *Uint64) Add(d uint64) uint64                 { st(); return x.v.Add(d) }
func (x *Uint64) And(m uint64) uint64                 { st(); return x.v.And(m) }
func (x *Uint64) Or(m uint64) uint64                  { st(); return x.v.Or(m) }

func LoadUint64(p *uint64) uint64           { ld(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { st(); atomic.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { st(); return atomic.SwapUint64(p, v) }
func AddUint64(p *uint64, v uint64) uint64  { st(); return atomic.AddUint64(p, v) }
func AndUint64(p *uint64, v uint64) uint64  { st(); return atomic.AndUint64(p, v) }
func OrUint64(p *uint64, v uint64) uint64   { st(); return atomic.OrUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	st()
	return atomic.CompareAndSwapUint64(p, o, n)
}

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr                        { ld(); return x.v.Load() }
func (x *Uintptr) Store(p uintptr)                      { st(); x.v.Store(p) }
func (x *Uintptr) Swap(p uintptr) uintptr               { st(); return x.v.Swap(p) }
func (x *Uintptr) CompareAndSwap(old, new uintptr) bool { st(); return x.v.CompareAndSwap(old, new) }
func (x *Uintptr) Add(d uintptr) uintptr                { st(); return x.v.Add(d) }
func (x *Uintptr) And(m uintptr) uintptr                { st(); return x.v.And(m) }
func (x *Uintptr) Or(m uintptr) uintptr                 { st(); return x.v.Or(m) }

func LoadUintptr(p *uintptr) uintptr            { ld(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { st(); atomic.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { st(); return atomic.SwapUintptr(p, v) }
func AddUintptr(p *uintptr, v uintptr) uintptr  { st(); return atomic.AddUintptr(p, v) }
func AndUintptr(p *uintptr, v uintptr) uintptr  { st(); return atomic.AndUintptr(p, v) }
func OrUintptr(p *uintptr, v uintptr) uintptr   { st(); return atomic.OrUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	st()
	return atomic.CompareAndSwapUintptr(p, o, n)
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { ld(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { st(); atomic.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	st()
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	st()
	return atomic.CompareAndSwapPointer(p, o, n)
}
