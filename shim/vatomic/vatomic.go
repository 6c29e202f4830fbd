// Package vatomic stands in for sync/atomic: the same operations, each a
// scheduling point.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/crimist/trakx/zz_verif/vsync"
)

type Value = atomic.Value

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { vsync.Yield(); return x.v.Load() }
func (x *Pointer[T]) Store(n *T)                  { vsync.Yield(); x.v.Store(n) }
func (x *Pointer[T]) Swap(n *T) *T                { vsync.Yield(); return x.v.Swap(n) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { vsync.Yield(); return x.v.CompareAndSwap(o, n) }

type Int32 struct{ v atomic.Int32 }
type Int64 struct{ v atomic.Int64 }
type Uint32 struct{ v atomic.Uint32 }
type Uint64 struct{ v atomic.Uint64 }
type Uintptr struct{ v atomic.Uintptr }
type Bool struct{ v atomic.Bool }

func (x *Int32) Load() int32                      { vsync.Yield(); return x.v.Load() }
func (x *Int32) Store(n int32)                    { vsync.Yield(); x.v.Store(n) }
func (x *Int32) Add(n int32) int32                { vsync.Yield(); return x.v.Add(n) }
func (x *Int32) Swap(n int32) int32               { vsync.Yield(); return x.v.Swap(n) }
func (x *Int32) CompareAndSwap(o, n int32) bool   { vsync.Yield(); return x.v.CompareAndSwap(o, n) }
func (x *Int32) And(n int32) int32                { vsync.Yield(); return x.v.And(n) }
func (x *Int32) Or(n int32) int32                 { vsync.Yield(); return x.v.Or(n) }
func (x *Int64) Load() int64                      { vsync.Yield(); return x.v.Load() }
func (x *Int64) Store(n int64)                    { vsync.Yield(); x.v.Store(n) }
func (x *Int64) Add(n int64) int64                { vsync.Yield(); return x.v.Add(n) }
func (x *Int64) Swap(n int64) int64               { vsync.Yield(); return x.v.Swap(n) }
func (x *Int64) CompareAndSwap(o, n int64) bool   { vsync.Yield(); return x.v.CompareAndSwap(o, n) }
func (x *Int64) And(n int64) int64                { vsync.Yield(); return x.v.And(n) }
func (x *Int64) Or(n int64) int64                 { vsync.Yield(); return x.v.Or(n) }
func (x *Uint32) Load() uint32                    { vsync.Yield(); return x.v.Load() }
func (x *Uint32) Store(n uint32)                  { vsync.Yield(); x.v.Store(n) }
func (x *Uint32) Add(n uint32) uint32             { vsync.Yield(); return x.v.Add(n) }
func (x *Uint32) Swap(n uint32) uint32            { vsync.Yield(); return x.v.Swap(n) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { vsync.Yield(); return x.v.CompareAndSwap(o, n) }
func (x *Uint64) Load() uint64                    { vsync.Yield(); return x.v.Load() }
func (x *Uint64) Store(n uint64)                  { vsync.Yield(); x.v.Store(n) }
func (x *Uint64) Add(n uint64) uint64             { vsync.Yield(); return x.v.Add(n) }
func (x *Uint64) Swap(n uint64) uint64            { vsync.Yield(); return x.v.Swap(n) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { vsync.Yield(); return x.v.CompareAndSwap(o, n) }
func (x *Uintptr) Load() uintptr                  { vsync.Yield(); return x.v.Load() }
func (x *Uintptr) Store(n uintptr)                { vsync.Yield(); x.v.Store(n) }
func (x *Uintptr) Add(n uintptr) uintptr          { vsync.Yield(); return x.v.Add(n) }
func (x *Bool) Load() bool                        { vsync.Yield(); return x.v.Load() }
func (x *Bool) Store(n bool)                      { vsync.Yield(); x.v.Store(n) }
func (x *Bool) Swap(n bool) bool                  { vsync.Yield(); return x.v.Swap(n) }
func (x *Bool) CompareAndSwap(o, n bool) bool     { vsync.Yield(); return x.v.CompareAndSwap(o, n) }

func AddInt32(p *int32, d int32) int32      { vsync.Yield(); return atomic.AddInt32(p, d) }
func AddInt64(p *int64, d int64) int64      { vsync.Yield(); return atomic.AddInt64(p, d) }
func AddUint32(p *uint32, d uint32) uint32  { vsync.Yield(); return atomic.AddUint32(p, d) }
func AddUint64(p *uint64, d uint64) uint64  { vsync.Yield(); return atomic.AddUint64(p, d) }
func LoadInt32(p *int32) int32              { vsync.Yield(); return atomic.LoadInt32(p) }
func LoadInt64(p *int64) int64              { vsync.Yield(); return atomic.LoadInt64(p) }
func LoadUint32(p *uint32) uint32           { vsync.Yield(); return atomic.LoadUint32(p) }
func LoadUint64(p *uint64) uint64           { vsync.Yield(); return atomic.LoadUint64(p) }
func StoreInt32(p *int32, n int32)          { vsync.Yield(); atomic.StoreInt32(p, n) }
func StoreInt64(p *int64, n int64)          { vsync.Yield(); atomic.StoreInt64(p, n) }
func StoreUint32(p *uint32, n uint32)       { vsync.Yield(); atomic.StoreUint32(p, n) }
func StoreUint64(p *uint64, n uint64)       { vsync.Yield(); atomic.StoreUint64(p, n) }
func SwapInt32(p *int32, n int32) int32     { vsync.Yield(); return atomic.SwapInt32(p, n) }
func SwapInt64(p *int64, n int64) int64     { vsync.Yield(); return atomic.SwapInt64(p, n) }
func SwapUint32(p *uint32, n uint32) uint32 { vsync.Yield(); return atomic.SwapUint32(p, n) }
func SwapUint64(p *uint64, n uint64) uint64 { vsync.Yield(); return atomic.SwapUint64(p, n) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	vsync.Yield()
	return atomic.CompareAndSwapInt32(p, o, n)
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	vsync.Yield()
	return atomic.CompareAndSwapInt64(p, o, n)
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	vsync.Yield()
	return atomic.CompareAndSwapUint32(p, o, n)
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	vsync.Yield()
	return atomic.CompareAndSwapUint64(p, o, n)
}
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { vsync.Yield(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, n unsafe.Pointer) { vsync.Yield(); atomic.StorePointer(p, n) }

func AddUintptr(p *uintptr, d uintptr) uintptr { vsync.Yield(); return atomic.AddUintptr(p, d) }
func LoadUintptr(p *uintptr) uintptr           { vsync.Yield(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, n uintptr)       { vsync.Yield(); atomic.StoreUintptr(p, n) }
func SwapUintptr(p *uintptr, n uintptr) uintptr {
	vsync.Yield()
	return atomic.SwapUintptr(p, n)
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	vsync.Yield()
	return atomic.CompareAndSwapUintptr(p, o, n)
}
func SwapPointer(p *unsafe.Pointer, n unsafe.Pointer) unsafe.Pointer {
	vsync.Yield()
	return atomic.SwapPointer(p, n)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	vsync.Yield()
	return atomic.CompareAndSwapPointer(p, o, n)
}
func AndInt32(p *int32, m int32) int32         { vsync.Yield(); return atomic.AndInt32(p, m) }
func OrInt32(p *int32, m int32) int32          { vsync.Yield(); return atomic.OrInt32(p, m) }
func AndInt64(p *int64, m int64) int64         { vsync.Yield(); return atomic.AndInt64(p, m) }
func OrInt64(p *int64, m int64) int64          { vsync.Yield(); return atomic.OrInt64(p, m) }
func AndUint32(p *uint32, m uint32) uint32     { vsync.Yield(); return atomic.AndUint32(p, m) }
func OrUint32(p *uint32, m uint32) uint32      { vsync.Yield(); return atomic.OrUint32(p, m) }
func AndUint64(p *uint64, m uint64) uint64     { vsync.Yield(); return atomic.AndUint64(p, m) }
func OrUint64(p *uint64, m uint64) uint64      { vsync.Yield(); return atomic.OrUint64(p, m) }
func AndUintptr(p *uintptr, m uintptr) uintptr { vsync.Yield(); return atomic.AndUintptr(p, m) }
func OrUintptr(p *uintptr, m uintptr) uintptr  { vsync.Yield(); return atomic.OrUintptr(p, m) }
