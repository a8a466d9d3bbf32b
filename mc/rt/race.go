//go:build go1.21

package mc

import (
	"fmt"
	"reflect"
	"unsafe"
)

// Data race detection: instrumented reads and writes of shared memory are
// checked against vector clocks of the Go memory model.  They are not
// scheduling points: in a race-free program they need not be, and a race is
// reported in the first explored execution in which it is not ordered.

type shadow struct {
	wtid  int
	wclk  int32
	wsite int
	reads []racc
	keep  unsafe.Pointer
}

type racc struct {
	tid  int
	clk  int32
	site int
}

// Sites maps the site numbers used by instrumented code to source positions.
var sites []string

// Site registers a source position.
func Site(pos string) int {
	sites = append(sites, pos)
	return len(sites) - 1
}

func siteName(i int) string {
	if i >= 0 && i < len(sites) {
		return sites[i]
	}
	return "?"
}

type leaf struct {
	off uintptr
}

var leafCache = map[reflect.Type][]uintptr{}

func leaves(t reflect.Type) []uintptr {
	if l, ok := leafCache[t]; ok {
		return l
	}
	var l []uintptr
	switch t.Kind() {
	case reflect.Struct:
		if t.PkgPath() == rtPkg {
			break // synchronisation object
		}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.Type.Size() == 0 {
				continue
			}
			for _, o := range leaves(f.Type) {
				l = append(l, f.Offset+o)
			}
		}
	case reflect.Array:
		if t.Len() > 64 {
			l = []uintptr{0}
			break
		}
		for i := 0; i < t.Len(); i++ {
			for _, o := range leaves(t.Elem()) {
				l = append(l, uintptr(i)*t.Elem().Size()+o)
			}
		}
	default:
		l = []uintptr{0}
	}
	leafCache[t] = l
	return l
}

var rtPkg = reflect.TypeOf(Mutex{}).PkgPath()

func (x *sched) access(p unsafe.Pointer, write bool, site int) {
	t := x.cur
	a := uintptr(p)
	sh := x.shadow[a]
	if sh == nil {
		sh = &shadow{wtid: -1, keep: p}
		x.shadow[a] = sh
	}
	clk := t.rvc.get(t.id)
	if sh.wtid >= 0 && sh.wtid != t.id && t.rvc.get(sh.wtid) < sh.wclk {
		x.race(sh.wtid, "write", sh.wsite, t, write, site)
	}
	if write {
		for _, r := range sh.reads {
			if r.tid != t.id && t.rvc.get(r.tid) < r.clk {
				x.race(r.tid, "read", r.site, t, write, site)
			}
		}
		sh.wtid, sh.wclk, sh.wsite = t.id, clk, site
		sh.reads = sh.reads[:0]
		return
	}
	for i := range sh.reads {
		if sh.reads[i].tid == t.id {
			sh.reads[i].clk, sh.reads[i].site = clk, site
			return
		}
	}
	sh.reads = append(sh.reads, racc{t.id, clk, site})
}

func (x *sched) race(tid int, what string, site int, t *thread, write bool, site2 int) {
	w := "read"
	if write {
		w = "write"
	}
	if x.over {
		return
	}
	a := fmt.Sprintf("%s at %s", what, siteName(site))
	b := fmt.Sprintf("%s at %s", w, siteName(site2))
	Fail("data race", "%s by %s is concurrent with %s by %s", b, t.label(), a, x.threads[tid].label())
}

func tracked() bool { return s != nil && !s.aborting && !s.over && s.cfg.Race && s.cur != nil }

func touch[T any](p *T, write bool, site int) {
	if p == nil {
		return
	}
	var z *T
	t := reflect.TypeOf(z).Elem()
	for _, o := range leaves(t) {
		s.access(unsafe.Add(unsafe.Pointer(p), o), write, site)
	}
}

// R marks a read of *p.
func R[T any](p *T, site int) *T {
	if tracked() {
		touch(p, false, site)
	}
	return p
}

// W marks a write of *p.
func W[T any](p *T, site int) *T {
	if tracked() {
		touch(p, true, site)
	}
	return p
}

// RW marks a read and a write of *p.
func RW[T any](p *T, site int) *T {
	if tracked() {
		touch(p, false, site)
		touch(p, true, site)
	}
	return p
}

// RS marks a read of all elements of a slice.
func RS[S ~[]T, T any](x S, site int) S {
	if tracked() {
		for i := range x {
			touch(&x[i], false, site)
		}
	}
	return x
}

func mapPtr[M any](m M) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&m)) }

// MR marks a read of a map.
func MR[M ~map[K]V, K comparable, V any](m M, site int) M {
	if tracked() && m != nil {
		s.access(mapPtr(m), false, site)
	}
	return m
}

// MW marks a write of a map.
func MW[M ~map[K]V, K comparable, V any](m M, site int) M {
	if tracked() && m != nil {
		s.access(mapPtr(m), true, site)
	}
	return m
}

// Append is append(x, v...) with its reads and writes marked.
func Append[S ~[]T, T any](x S, site int) func(v ...T) S {
	return func(v ...T) S {
		if !tracked() {
			return append(x, v...)
		}
		for i := range v {
			_ = i
		}
		if len(x)+len(v) > cap(x) {
			for i := range x {
				touch(&x[i], false, site)
			}
			return append(x, v...)
		}
		y := append(x, v...)
		for i := len(x); i < len(y); i++ {
			touch(&y[i], true, site)
		}
		return y
	}
}

// AppendSlice is append(x, v...) for a slice v.
func AppendSlice[S ~[]T, T any](x S, site int) func(v []T) S {
	return func(v []T) S {
		if tracked() {
			for i := range v {
				touch(&v[i], false, site)
			}
		}
		return Append[S, T](x, site)(v...)
	}
}

// CopySlice is copy(dst, src).
func CopySlice[T any](dst, src []T, site int) int {
	if tracked() {
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		for i := 0; i < n; i++ {
			touch(&src[i], false, site)
			touch(&dst[i], true, site)
		}
	}
	return copy(dst, src)
}

// Deep marks a read of everything reachable from v, as by a serialiser.
func Deep[T any](v T, site int) T {
	if tracked() {
		deep(reflect.ValueOf(&v).Elem(), site, 0, false)
	}
	return v
}

func deep(v reflect.Value, site, depth int, heap bool) {
	if depth > 12 || !v.IsValid() {
		return
	}
	if v.Kind() == reflect.Struct && v.Type().PkgPath() == rtPkg {
		return
	}
	if heap && v.CanAddr() {
		switch v.Kind() {
		case reflect.Struct, reflect.Array:
		default:
			s.access(unsafe.Pointer(v.UnsafeAddr()), false, site)
		}
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() && v.Elem().Type().PkgPath() != "regexp" {
			deep(v.Elem(), site, depth+1, true)
		}
	case reflect.Interface:
		if !v.IsNil() {
			deep(v.Elem(), site, depth+1, false)
		}
	case reflect.Struct:
		if v.Type().PkgPath() == "time" || v.Type().PkgPath() == "regexp" {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			deep(v.Field(i), site, depth+1, heap)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			deep(v.Index(i), site, depth+1, true)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			deep(v.Index(i), site, depth+1, heap)
		}
	case reflect.Map:
		if !v.IsNil() {
			s.access(v.UnsafePointer(), false, site)
		}
	}
}
