//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/eventbus"
	"github.com/BTBurke/monny/vh/busx"
	"github.com/BTBurke/monny/vh/lib"
)

type flat struct {
	A int
	B string
}

type nested struct {
	T  string
	F  *flat
	L  []flat
	M  map[string][]int
	By []byte
}

type logLine struct {
	Timestamp time.Time
	Line      []byte
}

type named string
type small int8

// twoTypes have the same name.
func local1() interface{} {
	type payload struct{ X int }
	return payload{7}
}

func local2() interface{} {
	type payload struct{ X string }
	return payload{"seven"}
}

// kind is a type of payload with values; types of one class may be
// convertible into each other, of different classes never.
type kind struct {
	class string
	vals  []interface{}
}

func seqs(alphabet []string, n int) []string {
	out := []string{""}
	last := out
	for i := 0; i < n; i++ {
		var next []string
		for _, p := range last {
			for _, a := range alphabet {
				next = append(next, p+a)
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

func ints(n int) [][]int {
	out := [][]int{{}}
	last := out
	for i := 0; i < n; i++ {
		var next [][]int
		for _, p := range last {
			for _, a := range []int{0, 1, -1, 300} {
				next = append(next, append(append([]int{}, p...), a))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

func kinds(deep bool) []kind {
	depth := 2
	if deep {
		depth = 4
	}
	var k []kind
	add := func(class string, vals ...interface{}) { k = append(k, kind{class, vals}) }
	add("bool", true, false)
	add("int", 0, 1, -1, 63, 64, 127, 128, -128, -129, 255, 256, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64)
	add("int", int8(0), int8(127), int8(-128))
	add("int", int16(0), int16(math.MaxInt16), int16(math.MinInt16))
	add("int", int32(0), int32(math.MaxInt32), int32(math.MinInt32))
	add("int", int64(0), int64(math.MaxInt64), int64(math.MinInt64))
	add("int", small(0), small(-5))
	add("int", time.Duration(0), time.Second, time.Duration(-1))
	add("uint", uint(0), uint(1), uint(127), uint(128), uint(math.MaxUint32), uint(math.MaxUint64))
	add("uint", uint8(0), uint8(255))
	add("uint", uint64(0), uint64(math.MaxUint64))
	add("float", 0.0, math.Copysign(0, -1), 1.5, -1.5, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN())
	add("float", float32(0), float32(1.25), float32(math.MaxFloat32))
	add("complex", complex(1, -2), complex(0, 0))
	var strs, bytes, nameds, lists, il, maps, structs []interface{}
	for _, s := range seqs([]string{"a", "\x00", "\xff", "é", "\n"}, depth) {
		strs = append(strs, s)
		bytes = append(bytes, []byte(s))
		nameds = append(nameds, named(s))
	}
	for _, n := range []int{63, 64, 127, 128, 4096, 70000} {
		strs = append(strs, strings.Repeat("x", n))
		bytes = append(bytes, []byte(strings.Repeat("x", n)))
	}
	for _, a := range []string{"", "a", "b c"} {
		lists = append(lists, []string{a})
		for _, b := range []string{"", "a", "\xff"} {
			lists = append(lists, []string{a, b})
		}
	}
	lists = append(lists, []string{}, []string(nil))
	for _, s := range ints(depth) {
		il = append(il, s)
		m := map[string]int{}
		for i, v := range s {
			m[fmt.Sprint("k", i)] = v
		}
		maps = append(maps, m)
	}
	for _, a := range []int{0, 1, -1, 1 << 40} {
		for _, b := range []string{"", "x", "\x00\xff"} {
			structs = append(structs, flat{a, b})
		}
	}
	add("string", strs...)
	add("string", nameds...)
	add("bytes", bytes...)
	add("slice string", lists...)
	add("slice int", il...)
	add("map string int", maps...)
	add("array", [2]int{}, [2]int{1, 2})
	add("array3", [3]int{1, 2, 3})
	add("struct flat", structs...)
	var nest []interface{}
	for _, f := range []*flat{nil, {1, "x"}} {
		for _, l := range [][]flat{nil, {{0, ""}}, {{1, "a"}, {2, "b"}}} {
			for _, m := range []map[string][]int{nil, {"a": {1}}, {"": {}, "b": {0, 1}}} {
				for _, t := range []string{"", "t"} {
					nest = append(nest, nested{t, f, l, m, []byte(t)})
				}
			}
		}
	}
	add("struct nested", nest...)
	add("struct log", logLine{time.Unix(1, 2).UTC(), []byte("line")}, logLine{time.Unix(0, 0).UTC(), nil})
	add("time", time.Unix(1, 2).UTC(), time.Unix(-1, 999999999).UTC())
	add("map int map", map[int]map[string]bool{}, map[int]map[string]bool{1: {"a": true, "b": false}, 2: {}})
	return k
}

// same compares up to what gob does not distinguish: nil and empty, a
// pointer and what it points to.
func same(a, b reflect.Value) bool {
	for a.IsValid() && a.Kind() == reflect.Ptr {
		a = a.Elem()
	}
	for b.IsValid() && b.Kind() == reflect.Ptr {
		b = b.Elem()
	}
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid() || (a.IsValid() && a.IsZero()) || (b.IsValid() && b.IsZero())
	}
	if a.Type() != b.Type() {
		return false
	}
	if t, ok := a.Interface().(time.Time); ok {
		return t.Equal(b.Interface().(time.Time))
	}
	switch a.Kind() {
	case reflect.Float32, reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float()) || (a.Float() == 0 && b.Float() == 0) || (math.IsNaN(a.Float()) && math.IsNaN(b.Float()))
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			v := b.MapIndex(k)
			if !v.IsValid() || !same(a.MapIndex(k), v) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

func short(v interface{}) string {
	s := fmt.Sprintf("%T(%v)", v, v)
	if len(s) > 80 {
		s = s[:80]
	}
	return s
}

// dup is a deep copy, to keep what the payload was.
func dup(v reflect.Value) reflect.Value {
	n := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Slice:
		if v.IsNil() {
			return n
		}
		n.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(dup(v.Index(i)))
		}
	case reflect.Map:
		if v.IsNil() {
			return n
		}
		n.Set(reflect.MakeMap(v.Type()))
		for _, k := range v.MapKeys() {
			n.SetMapIndex(k, dup(v.MapIndex(k)))
		}
	case reflect.Ptr:
		if v.IsNil() {
			return n
		}
		n.Set(reflect.New(v.Type().Elem()))
		n.Elem().Set(dup(v.Elem()))
	case reflect.Struct:
		n.Set(v)
		if _, ok := v.Interface().(time.Time); ok {
			return n
		}
		for i := 0; i < v.NumField(); i++ {
			n.Field(i).Set(dup(v.Field(i)))
		}
	default:
		n.Set(v)
	}
	return n
}

// scribble changes everything reachable through a reference.
func scribble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			e := v.Index(i)
			scribble(e)
			if e.CanSet() {
				switch e.Kind() {
				case reflect.Uint8:
					e.SetUint(e.Uint() ^ 0x55)
				case reflect.Int:
					e.SetInt(e.Int() + 1)
				case reflect.String:
					e.SetString(e.String() + "!")
				}
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			scribble(v.MapIndex(k))
			v.SetMapIndex(k, reflect.Value{})
		}
	case reflect.Ptr:
		if !v.IsNil() {
			scribble(v.Elem())
		}
	case reflect.Struct:
		if _, ok := v.Interface().(time.Time); ok {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			scribble(f)
			if f.CanSet() {
				switch f.Kind() {
				case reflect.Int:
					f.SetInt(f.Int() + 1)
				case reflect.String:
					f.SetString(f.String() + "!")
				}
			}
		}
	}
}

// roundTrip: payloads of every kind.
func roundTrip(c *lib.Cases) {
	for ki, k := range kinds(!c.Quick) {
		for vi, v := range k.vals {
			v := v
			for ptr := 0; ptr < 2; ptr++ {
				ptr := ptr
				c.Add(fmt.Sprintf("kind%d value%d pointer%d", ki, vi, ptr), func() {
					name := eventbus.EventType(fmt.Sprint("type", vi))
					want := dup(reflect.ValueOf(v))
					// the sender's own value, which it changes afterwards
					mine := reflect.New(want.Type())
					mine.Elem().Set(dup(want))
					payload := mine.Elem().Interface()
					if ptr == 1 {
						payload = mine.Interface()
					}
					e, err := eventbus.NewEvent(name, payload)
					if err != nil {
						mc.Fail("create", "NewEvent of %s: %v", short(v), err)
					}
					scribble(reflect.ValueOf(payload))
					for i := 0; i < 2; i++ {
						r := reflect.New(want.Type())
						if err := e.Decode(r.Interface()); err != nil {
							mc.Fail("decode", "decoding %s: %v", short(v), err)
						}
						if !same(r.Elem(), want) {
							mc.Fail("decode", "%s decoded as %s (decoding number %d)", short(v), short(r.Elem().Interface()), i+1)
						}
						scribble(r)
					}
					if e.Type() != name || e.String() != string(name) {
						mc.Fail("type", "type of event %s is %s", name, e.Type())
					}
					c.Step(3)
					c.State("%d %d", ki, vi)
				})
			}
		}
	}
}

// receivers: every payload into receivers of every other type.
func receivers(c *lib.Cases) {
	ks := kinds(!c.Quick)
	type r struct {
		class string
		t     reflect.Type
	}
	var rs []r
	for _, k := range ks {
		rs = append(rs, r{k.class, reflect.TypeOf(k.vals[0])})
	}
	rs = append(rs, r{"chan", reflect.TypeOf(make(chan int))}, r{"func", reflect.TypeOf(func() {})}, r{"error", reflect.TypeOf((*error)(nil)).Elem()}, r{"any", reflect.TypeOf((*interface{})(nil)).Elem()}, r{"stringer", reflect.TypeOf((*fmt.Stringer)(nil)).Elem()}, r{"unexported", reflect.TypeOf(struct{ a int }{})}, r{"slice struct", reflect.TypeOf([]flat{})}, r{"map string string", reflect.TypeOf(map[string]string{})})
	for ki, k := range ks {
		for vi, v := range k.vals {
			if c.Quick && vi > 40 {
				break
			}
			for ri, x := range rs {
				k, v, x := k, v, x
				c.Add(fmt.Sprintf("kind%d value%d receiver%d", ki, vi, ri), func() {
					e, err := eventbus.NewEvent("x", v)
					if err != nil {
						mc.Fail("create", "NewEvent of %s: %v", short(v), err)
					}
					to := reflect.New(x.t)
					err = e.Decode(to.Interface())
					c.Step(1)
					c.State("%d %d %v", ki, ri, err == nil)
					if x.class != k.class {
						if err == nil {
							mc.Fail("incompatible", "%s was decoded into a %v without an error", short(v), x.t)
						}
						if !to.Elem().IsZero() && x.t.Kind() != reflect.Struct {
							mc.Fail("incompatible", "%s was refused for a %v, which became %v", short(v), x.t, to.Elem())
						}
					} else if err == nil && k.class != "float" && to.Elem().Type().ConvertibleTo(reflect.TypeOf(v)) && !same(to.Elem().Convert(reflect.TypeOf(v)), reflect.ValueOf(v)) {
						mc.Fail("decode", "%s decoded as %s", short(v), short(to.Elem().Interface()))
					}
					// not a pointer
					if err := e.Decode(to.Elem().Interface()); err == nil && to.Elem().Kind() != reflect.Interface && to.Elem().Kind() != reflect.Ptr {
						mc.Fail("incompatible", "%s was decoded into something that is no pointer", short(v))
					}
					// nil pointer
					if err := e.Decode(reflect.Zero(reflect.PtrTo(x.t)).Interface()); err == nil {
						mc.Fail("incompatible", "%s was decoded into a nil pointer", short(v))
					}
				})
			}
		}
	}
}

// unsupported payloads, in any order with supported ones.
func unsupported(c *lib.Cases) {
	type op struct {
		name string
		v    func() interface{}
		ok   int // 1: must work, 0: must fail, -1: anything but a crash
	}
	ops := []op{
		{"chan", func() interface{} { return make(chan int) }, 0},
		{"func", func() interface{} { return func() {} }, 0},
		{"nil *int", func() interface{} { return (*int)(nil) }, 0},
		{"nil *flat", func() interface{} { return (*flat)(nil) }, 0},
		{"no exported fields", func() interface{} { return struct{ a int }{1} }, 0},
		{"empty struct", func() interface{} { return struct{}{} }, -1},
		{"slice of nil pointers", func() interface{} { return []*flat{nil, {1, "a"}} }, 0},
		{"map to chan", func() interface{} { return map[string]chan int{"a": nil} }, 0},
		{"unregistered interface", func() interface{} { return []fmt.Stringer{time.Month(1)} }, -1},
		{"flat", func() interface{} { return flat{1, "a"} }, 1},
		{"*flat", func() interface{} { return &flat{2, "b"} }, 1},
		{"**flat", func() interface{} { f := &flat{2, "b"}; return &f }, 1},
		{"payload", local1, 1},
		{"other payload", local2, 1},
		{"int", func() interface{} { return 5 }, 1},
		{"nothing", func() interface{} { return nil }, 2},
	}
	depth := 2
	if !c.Quick {
		depth = 3
	}
	c.Seqs("", len(ops), depth, func(seq []int) func() {
		return func() {
			for _, i := range seq {
				o := ops[i]
				v := o.v()
				e, err := eventbus.NewEvent("x", v)
				c.Step(1)
				if o.ok == 0 && err == nil {
					mc.Fail("unsupported", "a %s (%s) was accepted as a payload", o.name, short(v))
				}
				if o.ok >= 1 && err != nil {
					mc.Fail("create", "NewEvent of %s: %v", short(v), err)
				}
				if err != nil || o.ok < 1 {
					continue
				}
				if e.Type() != "x" {
					mc.Fail("type", "type of event x is %s", e.Type())
				}
				if v == nil {
					var x int
					if err := e.Decode(&x); err == nil {
						mc.Fail("incompatible", "an int was decoded from nothing")
					}
					continue
				}
				t := reflect.TypeOf(v)
				for t.Kind() == reflect.Ptr {
					t = t.Elem()
				}
				r := reflect.New(t)
				if err := e.Decode(r.Interface()); err != nil {
					mc.Fail("decode", "decoding %s: %v", short(v), err)
				}
				if !same(r, reflect.ValueOf(v)) {
					mc.Fail("decode", "%s decoded as %s", short(v), short(r.Elem().Interface()))
				}
			}
			c.State("%v", seq)
		}
	})
}

type myErr struct{ code int }

func (e myErr) Error() string { return fmt.Sprint("code ", e.code) }

type ptrErr struct{ text string }

func (e *ptrErr) Error() string { return e.text }

type unencodable struct{ C chan int }

func (e unencodable) Error() string { return "unencodable" }

// errorEvents: any error, its text arrives.
func errorEvents(c *lib.Cases) {
	var errs []error
	for _, s := range seqs([]string{"a", "%", "\n", "\xff", ": "}, 3) {
		errs = append(errs, errors.New(s), fmt.Errorf("w: %w", errors.New(s)), &ptrErr{s})
	}
	errs = append(errs, myErr{0}, myErr{3}, &myErr{3}, unencodable{make(chan int)}, errors.Join(errors.New("a"), errors.New("b")), eventbus.ErrShutdownTimeout, errors.New(strings.Repeat("x", 70000)))
	for i, err := range errs {
		i, err := i, err
		c.Add(fmt.Sprintf("error%d", i), func() {
			name := eventbus.EventType(fmt.Sprint("e", i))
			e, cerr := eventbus.NewErrorEvent(name, err)
			if cerr != nil {
				mc.Fail("create", "no event for the error %q of type %T: %v", err, err, cerr)
			}
			for n := 0; n < 2; n++ {
				var got error
				if derr := e.Decode(&got); derr != nil {
					mc.Fail("decode", "decoding an error event: %v", derr)
				}
				if got == nil || got.Error() != err.Error() {
					mc.Fail("decode", "the error %q arrived as %v", err, got)
				}
			}
			if e.Type() != name {
				mc.Fail("type", "type of event %s is %s", name, e.Type())
			}
			for _, r := range []interface{}{new(int), new([]byte), new(flat), new(interface{}), new(chan int), (*error)(nil)} {
				if derr := e.Decode(r); derr == nil {
					mc.Fail("incompatible", "an error was decoded into a %T", r)
				}
			}
			c.Step(8)
			c.State("%d", i)
		})
	}
}

// names: the type is the name given.
func names(c *lib.Cases) {
	depth := 3
	if !c.Quick {
		depth = 5
	}
	for i, s := range seqs([]string{"a", "\x00", "é", " ", "_", "A"}, depth) {
		s := s
		c.Add(fmt.Sprint(i), func() {
			for _, v := range []interface{}{nil, 1, "x"} {
				e, err := eventbus.NewEvent(eventbus.EventType(s), v)
				if err != nil || string(e.Type()) != s || e.String() != s {
					mc.Fail("type", "type %q became %q (%v)", s, e.Type(), err)
				}
			}
			c.Step(3)
			c.State("%s", s)
		})
	}
}

// several: events created after each other, decoded in another order.
func several(c *lib.Cases) {
	vals := []interface{}{"a", "bc", "", 7, []byte("xyz"), flat{1, "q"}, flat{2, "longer"}, map[string]int{"k": 1}, errors.New("e")}
	depth := 3
	if !c.Quick {
		depth = 4
	}
	big := func(x string, n int) string { return strings.Repeat(x, n) }
	several1(c, "", vals, depth)
	// larger payloads
	vals = []interface{}{"a", big("b", 300), []byte(big("c", 5000)), flat{1, big("d", 5001)}, big("e", 70000), big("f", 70001), errors.New(big("g", 9000))}
	several1(c, "large ", vals, depth)
	vals = []interface{}{7, big("b", 2000000), []byte(big("c", 1100000))}
	several1(c, "very large ", vals, 2)
}

func several1(c *lib.Cases, prefix string, vals []interface{}, depth int) {
	c.Seqs(prefix, len(vals), depth, func(seq []int) func() {
		return func() {
			for _, back := range []bool{false, true} {
				var evs []eventbus.Event
				for i, k := range seq {
					var e eventbus.Event
					var err error
					if x, ok := vals[k].(error); ok {
						e, err = eventbus.NewErrorEvent(eventbus.EventType(fmt.Sprint(i)), x)
					} else {
						e, err = eventbus.NewEvent(eventbus.EventType(fmt.Sprint(i)), vals[k])
					}
					if err != nil {
						mc.Fail("create", "%v", err)
					}
					evs = append(evs, e)
				}
				for n := range evs {
					i := n
					if back {
						i = len(evs) - 1 - n
					}
					want := vals[seq[i]]
					if x, ok := want.(error); ok {
						want = x.Error()
					}
					r := reflect.New(reflect.TypeOf(want))
					if err := evs[i].Decode(r.Interface()); err != nil || !same(r.Elem(), reflect.ValueOf(want)) {
						mc.Fail("decode", "event %d of %d: %s decoded as %s (%v)", i+1, len(evs), short(want), short(r.Elem().Interface()), err)
					}
					if evs[i].Type() != eventbus.EventType(fmt.Sprint(i)) {
						mc.Fail("type", "type of event %d is %s", i, evs[i].Type())
					}
				}
				c.Step(2 * len(evs))
			}
			c.State("%v", seq)
		}
	})
}

// concurrent: events created and decoded in several goroutines.
func concurrent() {
	var j lib.Join
	for i := 0; i < 3; i++ {
		text := strings.Repeat(fmt.Sprint(i), i+1)
		j.Go("creator", func() {
			for k := 0; k < 2; k++ {
				e, err := eventbus.NewEvent(eventbus.EventType(text), text)
				mc.Gosched()
				var got string
				if err == nil {
					err = e.Decode(&got)
				}
				if err != nil || got != text || string(e.Type()) != text {
					mc.Fail("decode", "%q decoded as %q (%v)", text, got, err)
				}
			}
		})
	}
	j.Wait()
}

// shared: one event decoded by several subscribers at once while its sender
// changes the payload.
func shared() {
	bus := eventbus.New()
	data := []byte("payload of e")
	ev, err := eventbus.NewEvent("e", data)
	if err != nil {
		mc.Fail("create", "%v", err)
	}
	var subs []*busx.Sub
	got := make([][]byte, 3)
	for i := 0; i < 3; i++ {
		i := i
		ch, done := bus.Subscribe()
		s := &busx.Sub{Name: fmt.Sprint("s", i), C: ch, Done: done, Got: map[string]int{}}
		subs = append(subs, s)
		mc.GoNamed(s.Name, func() {
			for {
				e, ok := mc.Recv2(ch)
				if !ok {
					break
				}
				var b []byte
				if err := e.Decode(&b); err != nil {
					mc.Fail("decode", "%v", err)
				}
				got[i] = append(got[i], b...)
				for k := range b {
					b[k] = '!'
				}
			}
			s.Closed++
			s.Confirm()
		})
	}
	bus.Dispatch(ev)
	for k := range data {
		data[k] = '?'
	}
	mc.Settle()
	for i := range got {
		if string(got[i]) != "payload of e" {
			mc.Fail("decode", "subscriber %d got %q", i, got[i])
		}
	}
	busx.Finish(bus, subs...)
}

func main() {
	lib.Main("C18", []lib.Scenario{
		{Name: "round-trip", What: "every value of 28 payload types up to a bounded shape, by value and by pointer, decoded twice while sender and receivers change their values", Seq: roundTrip},
		{Name: "receivers", What: "every payload into receivers of every type", Seq: receivers},
		{Name: "unsupported", What: "all sequences of supported and unsupported payloads of length 2 (3 in depth), including pointers, types of the same name and nil pointers", Seq: unsupported},
		{Name: "error-events", What: "error events for errors of 7 types and all texts up to 3 symbols", Seq: errorEvents},
		{Name: "names", What: "all event type names up to 3 (5) symbols", Seq: names},
		{Name: "several", What: "all sequences of up to 3 (4) events created after each other and then decoded forwards and backwards, also with payloads up to 2 MB", Seq: several},
		{Name: "concurrent", What: "three goroutines create and decode events, all schedules", Cfg: mc.Config{Race: true}, Body: concurrent},
		{Name: "shared", What: "one event received and decoded by three subscribers while its sender changes the payload, all schedules", Cfg: mc.Config{Race: true, MapOrders: 2}, Body: shared},
	})
}
