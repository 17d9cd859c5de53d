//go:build go1.22

// Package vkatomic is package sync/atomic with a scheduling point before every operation.
package vkatomic

import (
	ra "sync/atomic"
	"unsafe"

	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vksched"
)

type Int32 struct{ v ra.Int32 }

func (x *Int32) Load() int32                    { vksched.P(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { vksched.P(); x.v.Store(v) }
func (x *Int32) Add(v int32) int32              { vksched.P(); return x.v.Add(v) }
func (x *Int32) Swap(v int32) int32             { vksched.P(); return x.v.Swap(v) }
func (x *Int32) And(v int32) int32              { vksched.P(); return x.v.And(v) }
func (x *Int32) Or(v int32) int32               { vksched.P(); return x.v.Or(v) }
func (x *Int32) CompareAndSwap(a, b int32) bool { vksched.P(); return x.v.CompareAndSwap(a, b) }
func LoadInt32(p *int32) int32                  { vksched.P(); return ra.LoadInt32(p) }
func StoreInt32(p *int32, v int32)              { vksched.P(); ra.StoreInt32(p, v) }
func AddInt32(p *int32, v int32) int32          { vksched.P(); return ra.AddInt32(p, v) }
func SwapInt32(p *int32, v int32) int32         { vksched.P(); return ra.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, a, b int32) bool {
	vksched.P()
	return ra.CompareAndSwapInt32(p, a, b)
}

type Int64 struct{ v ra.Int64 }

func (x *Int64) Load() int64                    { vksched.P(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { vksched.P(); x.v.Store(v) }
func (x *Int64) Add(v int64) int64              { vksched.P(); return x.v.Add(v) }
func (x *Int64) Swap(v int64) int64             { vksched.P(); return x.v.Swap(v) }
func (x *Int64) And(v int64) int64              { vksched.P(); return x.v.And(v) }
func (x *Int64) Or(v int64) int64               { vksched.P(); return x.v.Or(v) }
func (x *Int64) CompareAndSwap(a, b int64) bool { vksched.P(); return x.v.CompareAndSwap(a, b) }
func LoadInt64(p *int64) int64                  { vksched.P(); return ra.LoadInt64(p) }
func StoreInt64(p *int64, v int64)              { vksched.P(); ra.StoreInt64(p, v) }
func AddInt64(p *int64, v int64) int64          { vksched.P(); return ra.AddInt64(p, v) }
func SwapInt64(p *int64, v int64) int64         { vksched.P(); return ra.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, a, b int64) bool {
	vksched.P()
	return ra.CompareAndSwapInt64(p, a, b)
}

type Uint32 struct{ v ra.Uint32 }

func (x *Uint32) Load() uint32                    { vksched.P(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { vksched.P(); x.v.Store(v) }
func (x *Uint32) Add(v uint32) uint32             { vksched.P(); return x.v.Add(v) }
func (x *Uint32) Swap(v uint32) uint32            { vksched.P(); return x.v.Swap(v) }
func (x *Uint32) And(v uint32) uint32             { vksched.P(); return x.v.And(v) }
func (x *Uint32) Or(v uint32) uint32              { vksched.P(); return x.v.Or(v) }
func (x *Uint32) CompareAndSwap(a, b uint32) bool { vksched.P(); return x.v.CompareAndSwap(a, b) }
func LoadUint32(p *uint32) uint32                 { vksched.P(); return ra.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)             { vksched.P(); ra.StoreUint32(p, v) }
func AddUint32(p *uint32, v uint32) uint32        { vksched.P(); return ra.AddUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32       { vksched.P(); return ra.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	vksched.P()
	return ra.CompareAndSwapUint32(p, a, b)
}

type Uint64 struct{ v ra.Uint64 }

func (x *Uint64) Load() uint64                    { vksched.P(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { vksched.P(); x.v.Store(v) }
func (x *Uint64) Add(v uint64) uint64             { vksched.P(); return x.v.Add(v) }
func (x *Uint64) Swap(v uint64) uint64            { vksched.P(); return x.v.Swap(v) }
func (x *Uint64) And(v uint64) uint64             { vksched.P(); return x.v.And(v) }
func (x *Uint64) Or(v uint64) uint64              { vksched.P(); return x.v.Or(v) }
func (x *Uint64) CompareAndSwap(a, b uint64) bool { vksched.P(); return x.v.CompareAndSwap(a, b) }
func LoadUint64(p *uint64) uint64                 { vksched.P(); return ra.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)             { vksched.P(); ra.StoreUint64(p, v) }
func AddUint64(p *uint64, v uint64) uint64        { vksched.P(); return ra.AddUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64       { vksched.P(); return ra.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	vksched.P()
	return ra.CompareAndSwapUint64(p, a, b)
}

type Uintptr struct{ v ra.Uintptr }

func (x *Uintptr) Load() uintptr                    { vksched.P(); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                  { vksched.P(); x.v.Store(v) }
func (x *Uintptr) Add(v uintptr) uintptr            { vksched.P(); return x.v.Add(v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { vksched.P(); return x.v.Swap(v) }
func (x *Uintptr) And(v uintptr) uintptr            { vksched.P(); return x.v.And(v) }
func (x *Uintptr) Or(v uintptr) uintptr             { vksched.P(); return x.v.Or(v) }
func (x *Uintptr) CompareAndSwap(a, b uintptr) bool { vksched.P(); return x.v.CompareAndSwap(a, b) }
func LoadUintptr(p *uintptr) uintptr                { vksched.P(); return ra.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)            { vksched.P(); ra.StoreUintptr(p, v) }
func AddUintptr(p *uintptr, v uintptr) uintptr      { vksched.P(); return ra.AddUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr     { vksched.P(); return ra.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, a, b uintptr) bool {
	vksched.P()
	return ra.CompareAndSwapUintptr(p, a, b)
}

type Bool struct{ v ra.Bool }

func (x *Bool) Load() bool                    { vksched.P(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { vksched.P(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { vksched.P(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(a, b bool) bool { vksched.P(); return x.v.CompareAndSwap(a, b) }

type Pointer[T any] struct{ v ra.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { vksched.P(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { vksched.P(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { vksched.P(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(a, b *T) bool { vksched.P(); return x.v.CompareAndSwap(a, b) }

type Value struct{ v ra.Value }

func (x *Value) Load() any                    { vksched.P(); return x.v.Load() }
func (x *Value) Store(v any)                  { vksched.P(); x.v.Store(v) }
func (x *Value) Swap(v any) any               { vksched.P(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(a, b any) bool { vksched.P(); return x.v.CompareAndSwap(a, b) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { vksched.P(); return ra.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { vksched.P(); ra.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	vksched.P()
	return ra.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, a, b unsafe.Pointer) bool {
	vksched.P()
	return ra.CompareAndSwapPointer(p, a, b)
}
