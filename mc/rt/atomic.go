//go:build go1.21

package mc

import (
	"fmt"
	"unsafe"
)

type ahdr struct {
	ex int
	o  *object
}

func (h *ahdr) do(name string, class uint8, f func()) {
	if s == nil {
		f()
		return
	}
	if s.aborting {
		f()
		return
	}
	if h.ex != s.execNo {
		h.ex, h.o = s.execNo, newObject()
	}
	atomicOp(h.o, name, class, f)
}

func atomicOp(o *object, name string, class uint8, f func()) {
	s.simple(fmt.Sprintf("atomic%d.%s", o.id, name), []fp{{o, class}}, func() {
		acquireRel(s.cur, o)
		f()
		if class == 0 {
			release(s.cur, o)
		}
	})
}

type integer interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

type aint[T integer] struct {
	h ahdr
	v T
}

func (a *aint[T]) Load() (r T)    { a.h.do("Load", 1, func() { r = a.v }); return }
func (a *aint[T]) Store(v T)      { a.h.do("Store", 0, func() { a.v = v }) }
func (a *aint[T]) Swap(v T) (r T) { a.h.do("Swap", 0, func() { r = a.v; a.v = v }); return }
func (a *aint[T]) Add(d T) (r T)  { a.h.do("Add", 0, func() { a.v += d; r = a.v }); return }
func (a *aint[T]) And(d T) (r T)  { a.h.do("And", 0, func() { r = a.v; a.v &= d }); return }
func (a *aint[T]) Or(d T) (r T)   { a.h.do("Or", 0, func() { r = a.v; a.v |= d }); return }
func (a *aint[T]) CompareAndSwap(o, n T) (ok bool) {
	a.h.do("CompareAndSwap", 0, func() {
		if a.v == o {
			a.v, ok = n, true
		}
	})
	return
}

type (
	// Int32 is atomic.Int32.
	Int32 struct{ aint[int32] }
	// Int64 is atomic.Int64.
	Int64 struct{ aint[int64] }
	// Uint32 is atomic.Uint32.
	Uint32 struct{ aint[uint32] }
	// Uint64 is atomic.Uint64.
	Uint64 struct{ aint[uint64] }
	// Uintptr is atomic.Uintptr.
	Uintptr struct{ aint[uintptr] }
)

// Bool is atomic.Bool.
type Bool struct {
	h ahdr
	v bool
}

func (a *Bool) Load() (r bool)       { a.h.do("Load", 1, func() { r = a.v }); return }
func (a *Bool) Store(v bool)         { a.h.do("Store", 0, func() { a.v = v }) }
func (a *Bool) Swap(v bool) (r bool) { a.h.do("Swap", 0, func() { r = a.v; a.v = v }); return }
func (a *Bool) CompareAndSwap(o, n bool) (ok bool) {
	a.h.do("CompareAndSwap", 0, func() {
		if a.v == o {
			a.v, ok = n, true
		}
	})
	return
}

// AValue is atomic.Value.
type AValue struct {
	h ahdr
	v interface{}
}

func (a *AValue) Load() (r interface{}) { a.h.do("Load", 1, func() { r = a.v }); return }
func (a *AValue) Store(v interface{}) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	a.h.do("Store", 0, func() { a.v = v })
}
func (a *AValue) Swap(v interface{}) (r interface{}) {
	a.h.do("Swap", 0, func() { r = a.v; a.v = v })
	return
}
func (a *AValue) CompareAndSwap(o, n interface{}) (ok bool) {
	a.h.do("CompareAndSwap", 0, func() {
		if a.v == o {
			a.v, ok = n, true
		}
	})
	return
}

// APointer is atomic.Pointer.
type APointer[T any] struct {
	h ahdr
	v *T
}

func (a *APointer[T]) Load() (r *T)     { a.h.do("Load", 1, func() { r = a.v }); return }
func (a *APointer[T]) Store(v *T)       { a.h.do("Store", 0, func() { a.v = v }) }
func (a *APointer[T]) Swap(v *T) (r *T) { a.h.do("Swap", 0, func() { r = a.v; a.v = v }); return }
func (a *APointer[T]) CompareAndSwap(o, n *T) (ok bool) {
	a.h.do("CompareAndSwap", 0, func() {
		if a.v == o {
			a.v, ok = n, true
		}
	})
	return
}

func addrOp(p unsafe.Pointer, keep interface{}, name string, class uint8, f func()) {
	if s == nil || s.aborting {
		f()
		return
	}
	k := "atomic"
	key := [2]interface{}{k, uintptr(p)}
	o, _ := s.globals[fmt.Sprint(key)].(*object)
	if o == nil {
		o = newObject()
		s.globals[fmt.Sprint(key)] = o
		s.keep = append(s.keep, keep)
	}
	atomicOp(o, name, class, f)
}

func AtomicLoad[T integer](p *T) (r T) {
	addrOp(unsafe.Pointer(p), p, "Load", 1, func() { r = *p })
	return
}
func AtomicStore[T integer](p *T, v T) { addrOp(unsafe.Pointer(p), p, "Store", 0, func() { *p = v }) }
func AtomicAdd[T integer](p *T, v T) (r T) {
	addrOp(unsafe.Pointer(p), p, "Add", 0, func() { *p += v; r = *p })
	return
}
func AtomicSwap[T integer](p *T, v T) (r T) {
	addrOp(unsafe.Pointer(p), p, "Swap", 0, func() { r = *p; *p = v })
	return
}
func AtomicCAS[T integer](p *T, o, n T) (ok bool) {
	addrOp(unsafe.Pointer(p), p, "CompareAndSwap", 0, func() {
		if *p == o {
			*p, ok = n, true
		}
	})
	return
}

// Typed variants, named after the functions of sync/atomic.
func AddInt32(p *int32, v int32) int32                 { return AtomicAdd(p, v) }
func AddInt64(p *int64, v int64) int64                 { return AtomicAdd(p, v) }
func AddUint32(p *uint32, v uint32) uint32             { return AtomicAdd(p, v) }
func AddUint64(p *uint64, v uint64) uint64             { return AtomicAdd(p, v) }
func LoadInt32(p *int32) int32                         { return AtomicLoad(p) }
func LoadInt64(p *int64) int64                         { return AtomicLoad(p) }
func LoadUint32(p *uint32) uint32                      { return AtomicLoad(p) }
func LoadUint64(p *uint64) uint64                      { return AtomicLoad(p) }
func StoreInt32(p *int32, v int32)                     { AtomicStore(p, v) }
func StoreInt64(p *int64, v int64)                     { AtomicStore(p, v) }
func StoreUint32(p *uint32, v uint32)                  { AtomicStore(p, v) }
func StoreUint64(p *uint64, v uint64)                  { AtomicStore(p, v) }
func SwapInt32(p *int32, v int32) int32                { return AtomicSwap(p, v) }
func SwapInt64(p *int64, v int64) int64                { return AtomicSwap(p, v) }
func SwapUint32(p *uint32, v uint32) uint32            { return AtomicSwap(p, v) }
func SwapUint64(p *uint64, v uint64) uint64            { return AtomicSwap(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool    { return AtomicCAS(p, o, n) }
func CompareAndSwapInt64(p *int64, o, n int64) bool    { return AtomicCAS(p, o, n) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool { return AtomicCAS(p, o, n) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool { return AtomicCAS(p, o, n) }
