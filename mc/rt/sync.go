//go:build go1.21

package mc

import (
	"fmt"
	"runtime"
	"sort"
	"sync"
)

func (x *sched) simple(name string, fps []fp, f func()) {
	x.announce(&op{name: name, fps: fps, exec: func() ([]fp, *thread) { f(); return nil, nil }})
}

// Go starts a goroutine.
func Go(f func()) {
	if s == nil || s.aborting {
		if s == nil {
			panic("mc: go statement outside an execution")
		}
		return
	}
	if s.over {
		runtime.Goexit()
	}
	_, file, line, _ := runtime.Caller(1)
	GoNamed(fmt.Sprintf("%s:%d", base(file), line), f)
}

func base(f string) string {
	for i := len(f) - 1; i >= 0; i-- {
		if f[i] == '/' {
			return f[i+1:]
		}
	}
	return f
}

// GoNamed starts a named goroutine and runs it to its first operation.
func GoNamed(name string, f func()) {
	if aborted(); s.over {
		runtime.Goexit()
	}
	cur := s.cur
	t := s.spawn(name, f)
	s.runInline(t, cur)
}

// Gosched is runtime.Gosched.
func Gosched() {
	aborted()
	s.simple("gosched", nil, func() {})
}

// Mutex is sync.Mutex.
type Mutex struct {
	ex     int
	o      *object
	locked bool
}

func (m *Mutex) get() *object {
	if m.ex != s.execNo {
		*m = Mutex{ex: s.execNo, o: newObject()}
	}
	return m.o
}

func acquireRel(t *thread, o *object) {
	if o.rel != nil {
		t.rvc = t.rvc.join(o.rel)
	}
	if o.drl != nil {
		t.dvc = t.dvc.join(o.drl)
	}
}

func release(t *thread, o *object) {
	o.rel = o.rel.join(t.rvc)
	o.drl = o.drl.join(t.dvc)
	t.tick()
}

// tryLocks is set for programs that use TryLock: then a lock that is held can be
// observed, and unlocking is a step of its own.
var tryLocks = false

func unlocking(o *object) {
	if tryLocks {
		s.simple(fmt.Sprintf("unlock m%d", o.id), []fp{{o, 0}}, func() {})
	}
}

// Lock locks m.
func (m *Mutex) Lock() {
	if s == nil {
		return
	}
	aborted()
	o := m.get()
	s.announce(&op{name: fmt.Sprintf("lock m%d", o.id), fps: []fp{{o, 0}}, enabling: tryLocks,
		enabled: func() bool { return !m.locked },
		exec: func() ([]fp, *thread) {
			m.locked = true
			acquireRel(s.cur, o)
			return nil, nil
		}})
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	if s == nil {
		return true
	}
	aborted()
	o := m.get()
	ok := false
	s.simple(fmt.Sprintf("trylock m%d", o.id), []fp{{o, 0}}, func() {
		if !m.locked {
			ok, m.locked = true, true
			acquireRel(s.cur, o)
		}
	})
	return ok
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	if s == nil || s.aborting {
		return
	}
	o := m.get()
	if !m.locked {
		fatal("unlock of unlocked mutex")
	}
	unlocking(o)
	m.locked = false
	release(s.cur, o)
}

func fatal(msg string) {
	if s.over {
		runtime.Goexit()
	}
	s.failNow("fatal", msg+"\n"+shortStack())
	runtime.Goexit()
}

// RWMutex is sync.RWMutex.
type RWMutex struct {
	ex      int
	o       *object
	r       *object // reader releases
	readers int
	writer  bool // held or pending
	held    bool
}

func (m *RWMutex) get() *object {
	if m.ex != s.execNo {
		*m = RWMutex{ex: s.execNo, o: newObject(), r: newObject()}
	}
	return m.o
}

// Lock locks m for writing.
func (m *RWMutex) Lock() {
	if s == nil {
		return
	}
	aborted()
	o := m.get()
	got := false
	s.announce(&op{name: fmt.Sprintf("lock rw%d", o.id), fps: []fp{{o, 0}}, enabling: tryLocks,
		enabled: func() bool { return !m.writer },
		exec: func() ([]fp, *thread) {
			m.writer = true
			acquireRel(s.cur, o)
			if m.readers == 0 {
				m.held = true
				acquireRel(s.cur, m.r)
				got = true
			}
			return nil, nil
		}})
	if got {
		return
	}
	s.announce(&op{name: fmt.Sprintf("lock rw%d (wait for readers)", o.id), fps: []fp{{o, 0}}, enabling: tryLocks,
		enabled: func() bool { return m.readers == 0 },
		exec: func() ([]fp, *thread) {
			m.held = true
			acquireRel(s.cur, o)
			acquireRel(s.cur, m.r)
			return nil, nil
		}})
}

// TryLock tries to lock m for writing.
func (m *RWMutex) TryLock() bool {
	if s == nil {
		return true
	}
	aborted()
	o := m.get()
	ok := false
	s.simple(fmt.Sprintf("trylock rw%d", o.id), []fp{{o, 0}}, func() {
		if !m.writer && m.readers == 0 {
			ok, m.writer, m.held = true, true, true
			acquireRel(s.cur, o)
			acquireRel(s.cur, m.r)
		}
	})
	return ok
}

// Unlock unlocks m for writing.
func (m *RWMutex) Unlock() {
	if s == nil || s.aborting {
		return
	}
	o := m.get()
	if !m.held {
		fatal("sync: Unlock of unlocked RWMutex")
	}
	unlocking(o)
	m.held, m.writer = false, false
	release(s.cur, o)
}

// RLock locks m for reading.
func (m *RWMutex) RLock() {
	if s == nil {
		return
	}
	aborted()
	o := m.get()
	s.announce(&op{name: fmt.Sprintf("rlock rw%d", o.id), fps: []fp{{o, 1}}, enabling: tryLocks,
		enabled: func() bool { return !m.writer },
		exec: func() ([]fp, *thread) {
			m.readers++
			acquireRel(s.cur, o)
			return nil, nil
		}})
}

// TryRLock tries to lock m for reading.
func (m *RWMutex) TryRLock() bool {
	if s == nil {
		return true
	}
	aborted()
	o := m.get()
	ok := false
	s.simple(fmt.Sprintf("tryrlock rw%d", o.id), []fp{{o, 0}}, func() {
		if !m.writer {
			ok = true
			m.readers++
			acquireRel(s.cur, o)
		}
	})
	return ok
}

// RUnlock undoes RLock.
func (m *RWMutex) RUnlock() {
	if s == nil || s.aborting {
		return
	}
	o := m.get()
	if m.readers == 0 {
		fatal("sync: RUnlock of unlocked RWMutex")
	}
	unlocking(o)
	m.readers--
	release(s.cur, m.r)
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() sync.Locker { return rlocker{m} }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	ex int
	o  *object
	n  int
}

func (w *WaitGroup) get() *object {
	if w.ex != s.execNo {
		*w = WaitGroup{ex: s.execNo, o: newObject()}
	}
	return w.o
}

// Add adds n.
func (w *WaitGroup) Add(n int) {
	if s == nil {
		return
	}
	aborted()
	o := w.get()
	class := uint8(1)
	if n < 0 {
		class = 3
	}
	bad := false
	s.simple(fmt.Sprintf("wg%d.Add(%d)", o.id, n), []fp{{o, class}}, func() {
		w.n += n
		bad = w.n < 0
		if n < 0 {
			release(s.cur, o)
		}
	})
	if bad {
		panic("sync: negative WaitGroup counter")
	}
}

// Done is Add(-1).
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits until the counter is zero.
func (w *WaitGroup) Wait() {
	if s == nil {
		return
	}
	aborted()
	o := w.get()
	s.announce(&op{name: fmt.Sprintf("wg%d.Wait", o.id), fps: []fp{{o, 2}},
		enabling: true,
		enabled:  func() bool { return w.n == 0 },
		exec: func() ([]fp, *thread) {
			acquireRel(s.cur, o)
			return nil, nil
		}})
}

// Go runs f in a goroutine counted by w.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Once is sync.Once.
type Once struct {
	ex      int
	o       *object
	running bool
	done    bool
}

func (c *Once) get() *object {
	if c.ex != s.execNo {
		*c = Once{ex: s.execNo, o: newObject()}
	}
	return c.o
}

// Do calls f once.
func (c *Once) Do(f func()) {
	if s == nil {
		if !c.done {
			c.done = true
			f()
		}
		return
	}
	aborted()
	o := c.get()
	class := uint8(0)
	if c.done {
		class = 1
	}
	mine := false
	s.announce(&op{name: fmt.Sprintf("once%d.Do", o.id), fps: []fp{{o, class}},
		enabled: func() bool { return !c.running },
		exec: func() ([]fp, *thread) {
			if !c.done {
				mine, c.running = true, true
			}
			acquireRel(s.cur, o)
			return nil, nil
		}})
	if mine {
		defer func() {
			if s == nil || s.aborting {
				return
			}
			c.running, c.done = false, true
			release(s.cur, o)
		}()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	o := &Once{}
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	o := &Once{}
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	o := &Once{}
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Cond is sync.Cond.
type Cond struct {
	L  sync.Locker
	ex int
	o  *object
	q  []*condW
}

type condW struct {
	woken bool
	rvc   vc
	dvc   vc
}

// NewCond returns a new Cond.
func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

func (c *Cond) get() *object {
	if c.ex != s.execNo {
		*c = Cond{L: c.L, ex: s.execNo, o: newObject()}
	}
	return c.o
}

// Wait waits for a signal.
func (c *Cond) Wait() {
	aborted()
	o := c.get()
	w := &condW{}
	s.simple(fmt.Sprintf("cond%d.Wait", o.id), []fp{{o, 0}}, func() { c.q = append(c.q, w) })
	c.L.Unlock()
	s.announce(&op{name: fmt.Sprintf("cond%d.Wait (parked)", o.id),
		enabled: func() bool { return w.woken },
		exec: func() ([]fp, *thread) {
			s.cur.rvc = s.cur.rvc.join(w.rvc)
			s.cur.dvc = s.cur.dvc.join(w.dvc)
			return nil, nil
		}})
	c.L.Lock()
}

func (c *Cond) wake(n int, name string) {
	aborted()
	o := c.get()
	s.simple(fmt.Sprintf("cond%d.%s", o.id, name), []fp{{o, 0}}, func() {
		for ; n != 0 && len(c.q) > 0; n-- {
			w := c.q[0]
			c.q = c.q[1:]
			w.woken, w.rvc, w.dvc = true, s.cur.rvc.clone(), s.cur.dvc.clone()
		}
		s.cur.tick()
	})
}

// Signal wakes one waiter.
func (c *Cond) Signal() { c.wake(1, "Signal") }

// Broadcast wakes all waiters.
func (c *Cond) Broadcast() { c.wake(-1, "Broadcast") }

// SyncMap is sync.Map.
type SyncMap struct {
	ex int
	o  *object
	m  map[interface{}]interface{}
	ks []interface{}
}

func (m *SyncMap) get() *object {
	if m.ex != s.execNo {
		*m = SyncMap{ex: s.execNo, o: newObject(), m: map[interface{}]interface{}{}}
	}
	return m.o
}

func (m *SyncMap) op(name string, class uint8, f func()) {
	aborted()
	o := m.get()
	s.simple(fmt.Sprintf("syncmap%d.%s", o.id, name), []fp{{o, class}}, func() {
		acquireRel(s.cur, o)
		f()
		if class == 0 {
			release(s.cur, o)
		}
	})
}

func (m *SyncMap) put(k, v interface{}) {
	if _, ok := m.m[k]; !ok {
		m.ks = append(m.ks, k)
	}
	m.m[k] = v
}

func (m *SyncMap) del(k interface{}) {
	delete(m.m, k)
	for i, q := range m.ks {
		if q == k {
			m.ks = append(append([]interface{}(nil), m.ks[:i]...), m.ks[i+1:]...)
			break
		}
	}
}

func (m *SyncMap) Load(k interface{}) (v interface{}, ok bool) {
	m.op("Load", 1, func() { v, ok = m.m[k] })
	return
}
func (m *SyncMap) Store(k, v interface{}) { m.op("Store", 0, func() { m.put(k, v) }) }
func (m *SyncMap) LoadOrStore(k, v interface{}) (r interface{}, loaded bool) {
	m.op("LoadOrStore", 0, func() {
		if r, loaded = m.m[k]; !loaded {
			m.put(k, v)
			r = v
		}
	})
	return
}
func (m *SyncMap) LoadAndDelete(k interface{}) (v interface{}, ok bool) {
	m.op("LoadAndDelete", 0, func() { v, ok = m.m[k]; m.del(k) })
	return
}
func (m *SyncMap) Delete(k interface{}) { m.op("Delete", 0, func() { m.del(k) }) }
func (m *SyncMap) Swap(k, v interface{}) (p interface{}, ok bool) {
	m.op("Swap", 0, func() { p, ok = m.m[k]; m.put(k, v) })
	return
}
func (m *SyncMap) CompareAndSwap(k, o, n interface{}) (ok bool) {
	m.op("CompareAndSwap", 0, func() {
		if v, has := m.m[k]; has && v == o {
			m.put(k, n)
			ok = true
		}
	})
	return
}
func (m *SyncMap) Range(f func(k, v interface{}) bool) {
	var ks []interface{}
	m.op("Range", 1, func() { ks = append(ks, m.ks...) })
	for _, k := range ks {
		v, ok := m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}

// Pool is sync.Pool.
type Pool struct {
	New func() interface{}
	ex  int
	o   *object
	l   []interface{}
}

func (p *Pool) get() *object {
	if p.ex != s.execNo {
		*p = Pool{New: p.New, ex: s.execNo, o: newObject()}
	}
	return p.o
}

// Get takes an item.
func (p *Pool) Get() interface{} {
	aborted()
	o := p.get()
	var v interface{}
	s.simple(fmt.Sprintf("pool%d.Get", o.id), []fp{{o, 0}}, func() {
		acquireRel(s.cur, o)
		if n := len(p.l); n > 0 {
			v = p.l[n-1]
			p.l = p.l[:n-1]
		}
	})
	if v == nil && p.New != nil {
		v = p.New()
	}
	return v
}

// Put returns an item.
func (p *Pool) Put(v interface{}) {
	aborted()
	o := p.get()
	s.simple(fmt.Sprintf("pool%d.Put", o.id), []fp{{o, 0}}, func() {
		p.l = append(p.l, v)
		release(s.cur, o)
	})
}

// Obj is an object of an environment model or harness with explicit operations.
// Its operations order executions but are no synchronisation for the data race
// detector, like writes to a file.
type Obj struct {
	ex   int
	o    *object
	name string
}

func (e *Obj) get() *object {
	if e.ex != s.execNo {
		*e = Obj{ex: s.execNo, o: newObject(), name: e.name}
	}
	return e.o
}

// Do performs f as one atomic operation on e, conflicting with all others on e.
func (e *Obj) Do(name string, f func()) { e.DoClass(name, 0, f) }

// DoClass is Do, commuting with operations of the same non-zero class.
func (e *Obj) DoClass(name string, class uint8, f func()) {
	aborted()
	o := e.get()
	s.simple(name, []fp{{o, class}}, f)
}

// Await performs f once cond holds; cond must only depend on state changed by operations on e.
func (e *Obj) Await(name string, cond func() bool, f func()) {
	aborted()
	o := e.get()
	s.announce(&op{name: name, fps: []fp{{o, 0}}, enabled: cond, enabling: true, exec: func() ([]fp, *thread) {
		if f != nil {
			f()
		}
		return nil, nil
	}})
}

// sortedInts is a helper for deterministic output.
func sortedInts(m map[int]bool) []int {
	var out []int
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}
