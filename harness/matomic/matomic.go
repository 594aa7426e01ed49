// Package matomic is sync/atomic under the controlled scheduler.
package matomic

import (
	"unsafe"

	"github.com/michaelmacinnis/oh/internal/zzverif/mc"
)

var ep int
var objs = map[unsafe.Pointer]*mc.Obj{}

func do(p unsafe.Pointer, k uint8, f func()) {
	if ep != mc.Epoch() {
		ep, objs = mc.Epoch(), map[unsafe.Pointer]*mc.Obj{}
	}
	o := objs[p]
	if o == nil {
		o = &mc.Obj{Name: "atomic"}
		objs[p] = o
	}
	mc.Do(&mc.Op{Kind: "atomic", Foot: []mc.Foot{{O: o, K: k}}, Alts: func() int { return 1 }, Run: func(int) { mc.Acquire(o, true); f(); mc.Release(o, true) }})
}

type num interface{ ~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr }

func load[T any](p *T) (v T) { do(unsafe.Pointer(p), mc.R, func() { v = *p }); return }
func store[T any](p *T, v T) { do(unsafe.Pointer(p), mc.W, func() { *p = v }) }
func swap[T any](p *T, v T) (o T) {
	do(unsafe.Pointer(p), mc.W, func() { o = *p; *p = v })
	return
}
func cas[T comparable](p *T, o, n T) (ok bool) {
	do(unsafe.Pointer(p), mc.W, func() {
		if *p == o {
			*p, ok = n, true
		}
	})
	return
}
func add[T num](p *T, d T) (v T) { do(unsafe.Pointer(p), mc.W, func() { *p += d; v = *p }); return }

func LoadInt32(p *int32) int32                    { return load(p) }
func LoadInt64(p *int64) int64                    { return load(p) }
func LoadUint32(p *uint32) uint32                 { return load(p) }
func LoadUint64(p *uint64) uint64                 { return load(p) }
func StoreInt32(p *int32, v int32)                { store(p, v) }
func StoreInt64(p *int64, v int64)                { store(p, v) }
func StoreUint32(p *uint32, v uint32)             { store(p, v) }
func StoreUint64(p *uint64, v uint64)             { store(p, v) }
func AddInt32(p *int32, d int32) int32            { return add(p, d) }
func AddInt64(p *int64, d int64) int64            { return add(p, d) }
func AddUint32(p *uint32, d uint32) uint32        { return add(p, d) }
func AddUint64(p *uint64, d uint64) uint64        { return add(p, d) }
func SwapInt32(p *int32, v int32) int32           { return swap(p, v) }
func SwapInt64(p *int64, v int64) int64           { return swap(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool { return cas(p, o, n) }
func CompareAndSwapInt64(p *int64, o, n int64) bool { return cas(p, o, n) }

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                      { return load(&x.v) }
func (x *Int32) Store(v int32)                    { store(&x.v, v) }
func (x *Int32) Add(d int32) int32                { return add(&x.v, d) }
func (x *Int32) Swap(v int32) int32               { return swap(&x.v, v) }
func (x *Int32) CompareAndSwap(o, n int32) bool   { return cas(&x.v, o, n) }

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                      { return load(&x.v) }
func (x *Int64) Store(v int64)                    { store(&x.v, v) }
func (x *Int64) Add(d int64) int64                { return add(&x.v, d) }
func (x *Int64) Swap(v int64) int64               { return swap(&x.v, v) }
func (x *Int64) CompareAndSwap(o, n int64) bool   { return cas(&x.v, o, n) }

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return load(&x.v) }
func (x *Uint32) Store(v uint32)                  { store(&x.v, v) }
func (x *Uint32) Add(d uint32) uint32             { return add(&x.v, d) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return cas(&x.v, o, n) }

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return load(&x.v) }
func (x *Uint64) Store(v uint64)                  { store(&x.v, v) }
func (x *Uint64) Add(d uint64) uint64             { return add(&x.v, d) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return cas(&x.v, o, n) }

type Bool struct{ v int32 }

func (x *Bool) Load() bool { return load(&x.v) != 0 }
func (x *Bool) Store(b bool) {
	v := int32(0)
	if b {
		v = 1
	}
	store(&x.v, v)
}
func (x *Bool) Swap(b bool) bool {
	v := int32(0)
	if b {
		v = 1
	}
	return swap(&x.v, v) != 0
}
func (x *Bool) CompareAndSwap(o, n bool) bool {
	f := func(b bool) int32 {
		if b {
			return 1
		}
		return 0
	}
	return cas(&x.v, f(o), f(n))
}

type Value struct{ v interface{} }

func (x *Value) Load() interface{}   { return load(&x.v) }
func (x *Value) Store(v interface{}) { store(&x.v, v) }

type Pointer[T any] struct{ v *T }

func (x *Pointer[T]) Load() *T                    { return load(&x.v) }
func (x *Pointer[T]) Store(v *T)                  { store(&x.v, v) }
func (x *Pointer[T]) Swap(v *T) *T                { return swap(&x.v, v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { return cas(&x.v, o, n) }
