//go:build go1.21

package mc

import (
	"fmt"
	"reflect"
	"sort"
)

// Iter iterates over a map in an order that is explored.
type Iter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	rev  bool
	init bool
	K    K
	V    V
}

// RangeMap starts a range over a map.
func RangeMap[M ~map[K]V, K comparable, V any](m M, site int) (*Iter[K, V], K, V) {
	var k K
	var v V
	MR(m, site)
	return &Iter[K, V]{m: m}, k, v
}

// Next advances; false at the end.
func (it *Iter[K, V]) Next() bool {
	if !it.init {
		it.init = true
		for k := range it.m {
			it.keys = append(it.keys, k)
		}
		sortKeys(it.keys)
		if s != nil && !s.aborting && len(it.keys) > 1 && s.cfg.MapOrders == 2 {
			it.rev = Choose(2, "map order") == 1
		}
	}
	for len(it.keys) > 0 {
		i := 0
		switch {
		case s == nil || s.aborting || s.cfg.MapOrders == 1:
		case s.cfg.MapOrders == 0 && len(it.keys) <= 4:
			i = Choose(len(it.keys), "map key")
		case it.rev:
			i = len(it.keys) - 1
		}
		k := it.keys[i]
		it.keys = append(append([]K(nil), it.keys[:i]...), it.keys[i+1:]...)
		v, ok := it.m[k]
		if !ok {
			continue
		}
		it.K, it.V = k, v
		return true
	}
	return false
}

func sortKeys[K comparable](keys []K) {
	if len(keys) < 2 {
		return
	}
	var rank func(v reflect.Value) string
	rank = func(v reflect.Value) string {
		switch v.Kind() {
		case reflect.String:
			return "s" + v.String()
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return fmt.Sprintf("i%020d", uint64(v.Int())+1<<63)
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			return fmt.Sprintf("u%020d", v.Uint())
		case reflect.Ptr, reflect.Chan, reflect.UnsafePointer:
			// identity: order of first appearance in this execution
			if s == nil {
				return ""
			}
			key := interface{}(v.Pointer())
			id, ok := s.ptrIDs[key]
			if !ok {
				id = len(s.ptrIDs) + 1
				s.ptrIDs[key] = id
				s.keep = append(s.keep, v.Interface())
			}
			return fmt.Sprintf("p%020d", id)
		case reflect.Interface:
			return rank(v.Elem())
		}
		return fmt.Sprintf("%v", v)
	}
	r := make(map[K]string, len(keys))
	for _, k := range keys {
		r[k] = rank(reflect.ValueOf(&k).Elem())
	}
	sort.SliceStable(keys, func(i, j int) bool { return r[keys[i]] < r[keys[j]] })
}

// Identify gives a pointer or channel its rank in iteration orders (first come).
func Identify(p interface{}) {
	if s != nil && !s.aborting {
		sortKeysIdent(p)
	}
}

func sortKeysIdent(p interface{}) {
	key := interface{}(reflect.ValueOf(p).Pointer())
	if _, ok := s.ptrIDs[key]; !ok {
		s.ptrIDs[key] = len(s.ptrIDs) + 1
		s.keep = append(s.keep, p)
	}
}
