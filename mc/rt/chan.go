//go:build go1.21

package mc

import (
	"fmt"
	"runtime"
	"unsafe"
)

// Channels stay Go channels in the instrumented program; their contents and
// blocking behaviour live in chanState.

type msg struct {
	v        interface{}
	dvc, rvc vc
}

type chanState struct {
	S, R     *object
	cap      int
	buf      []msg
	closed   bool
	nsend    int
	freed    []msg // clocks of receives, in order
	keep     interface{}
	name     string
	internal bool
}

func chanPtr[T any](ch T) uintptr { return uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&ch))) }

func stateOf(p uintptr, capacity int, keep interface{}) *chanState {
	if p == 0 {
		return nil
	}
	c := s.chans[p]
	if c == nil {
		c = &chanState{S: newObject(), R: newObject(), cap: capacity, keep: keep}
		c.name = fmt.Sprintf("chan%d", c.S.id)
		s.chans[p] = c
	}
	return c
}

func recvState[T any](ch <-chan T) *chanState { return stateOf(chanPtr(ch), cap(ch), ch) }
func sendState[T any](ch chan<- T) *chanState { return stateOf(chanPtr(ch), cap(ch), ch) }

// Case is one case of a select.
type Case interface{ sc() *selCase }

type selCase struct {
	ch   *chanState
	send bool
	v    interface{}
	ok   bool
}

func (c *selCase) sc() *selCase { return c }

type selState struct {
	cases    []*selCase
	nonblock bool
	chosen   int
	panics   string
	rvc      vc
}

// RecvC is a receive case.
type RecvC[T any] struct {
	selCase
}

// V is the received value.
func (c *RecvC[T]) V() T { v, _ := c.v.(T); return v }

// OK is false if the channel was closed.
func (c *RecvC[T]) OK() bool { return c.ok }

// RecvCase makes a receive case for Select.
func RecvCase[T any](ch <-chan T) *RecvC[T] {
	aborted()
	return &RecvC[T]{selCase{ch: recvState(ch)}}
}

// SendCase makes a send case for Select.
func SendCase[T any](ch chan<- T) func(T) Case {
	aborted()
	st := sendState(ch)
	return func(v T) Case { return &selCase{ch: st, send: true, v: v} }
}

func (x *sched) partner(c *selCase, t *thread, wantSend bool) []*thread {
	var out []*thread
	for _, q := range x.threads {
		if q == t || q.done || q.op == nil || q.op.sel == nil || q.op.sel.nonblock {
			continue
		}
		for _, k := range q.op.sel.cases {
			if k.ch == c.ch && k.send == wantSend {
				out = append(out, q)
				break
			}
		}
	}
	return out
}

func (x *sched) ready(c *selCase, t *thread, nonblock bool) bool {
	ch := c.ch
	if ch == nil {
		return false
	}
	if c.send {
		if ch.closed || len(ch.buf) < ch.cap {
			return true
		}
		return ch.cap == 0 && len(x.partner(c, t, false)) > 0
	}
	if len(ch.buf) > 0 || ch.closed {
		return true
	}
	return ch.cap == 0 && nonblock && len(x.partner(c, t, true)) > 0
}

// chanOp performs a select of the current thread.
func chanOp(name string, sel *selState, fps []fp) {
	x := s
	t := x.cur
	o := &op{name: name, fps: fps, sel: sel, enabling: true}
	o.enabled = func() bool {
		if sel.nonblock {
			return true
		}
		for _, c := range sel.cases {
			if x.ready(c, t, false) {
				return true
			}
		}
		return false
	}
	o.exec = func() ([]fp, *thread) { return x.doSelect(t, sel) }
	sel.rvc = t.rvc.clone()
	if sel.nonblock || len(sel.cases) > 0 {
		x.announce(o)
	} else {
		o.enabled = func() bool { return false }
		x.announce(o)
	}
	if sel.panics != "" {
		panic(runtimeError(sel.panics))
	}
}

type runtimeError string

func (e runtimeError) Error() string { return string(e) }
func (e runtimeError) RuntimeError() {}

var _ runtime.Error = runtimeError("")

func (x *sched) doSelect(t *thread, sel *selState) ([]fp, *thread) {
	var rd []int
	maybeDefault := sel.nonblock
	for i, c := range sel.cases {
		if x.ready(c, t, sel.nonblock) {
			rd = append(rd, i)
			if sel.nonblock && c.ch.cap == 0 && !c.ch.closed {
				for _, q := range x.partner(c, t, !c.send) {
					if q.annTime < x.now || q.op.sel.rvc.leq(t.rvc) {
						maybeDefault = false
					}
				}
			} else {
				maybeDefault = false
			}
		}
	}
	if maybeDefault || len(rd) == 0 {
		rd = append(rd, -1)
	}
	k := rd[0]
	if len(rd) > 1 {
		k = rd[Choose(len(rd), "select")]
	}
	sel.chosen = k
	if k < 0 {
		return nil, nil
	}
	c := sel.cases[k]
	ch := c.ch
	if c.send {
		if ch.closed {
			sel.panics = "send on closed channel"
			return nil, nil
		}
		if len(ch.buf) < ch.cap {
			if ch.nsend >= ch.cap {
				m := ch.freed[ch.nsend-ch.cap]
				t.rvc = t.rvc.join(m.rvc)
				t.dvc = t.dvc.join(m.dvc)
			}
			ch.nsend++
			ch.buf = append(ch.buf, msg{c.v, t.dvc.clone(), t.rvc.clone()})
			t.tick()
			return nil, nil
		}
		return x.rendezvous(t, c, x.partner(c, t, false), true)
	}
	if len(ch.buf) > 0 {
		m := ch.buf[0]
		ch.buf = append([]msg(nil), ch.buf[1:]...)
		t.rvc = t.rvc.join(m.rvc)
		t.dvc = t.dvc.join(m.dvc)
		c.v, c.ok = m.v, true
		ch.freed = append(ch.freed, msg{nil, t.dvc.clone(), t.rvc.clone()})
		t.tick()
		return nil, nil
	}
	if ch.closed {
		t.rvc = t.rvc.join(ch.S.rel)
		t.dvc = t.dvc.join(ch.S.drl)
		c.v, c.ok = nil, false
		return nil, nil
	}
	return x.rendezvous(t, c, x.partner(c, t, true), false)
}

func (x *sched) rendezvous(t *thread, c *selCase, ps []*thread, sending bool) ([]fp, *thread) {
	q := ps[0]
	if len(ps) > 1 {
		q = ps[Choose(len(ps), "partner")]
	}
	for i, k := range q.op.sel.cases {
		if k.ch == c.ch && k.send != sending {
			q.op.sel.chosen = i
			if sending {
				k.v, k.ok = c.v, true
			} else {
				c.v, c.ok = k.v, true
			}
			break
		}
	}
	t.rvc = t.rvc.join(q.rvc)
	q.rvc = q.rvc.join(t.rvc)
	t.dvc = t.dvc.join(q.dvc)
	t.tick()
	q.tick()
	q.matched = true
	extra := q.op.fps
	q.op = nil
	return extra, q
}

func (t *thread) tick() { t.rvc = t.rvc.set(t.id, t.rvc.get(t.id)+1) }

func bothFps(c *chanState) []fp { return []fp{{c.S, 0}, {c.R, 0}} }

// SendTo returns a function sending on ch.
func SendTo[T any](ch chan<- T) func(T) {
	aborted()
	st := sendState(ch)
	return func(v T) {
		aborted()
		c := &selCase{ch: st, send: true, v: v}
		if st == nil {
			chanOp("send on nil channel", &selState{}, nil)
			return
		}
		f := []fp{{st.S, 0}}
		if st.cap == 0 {
			f = bothFps(st)
		}
		chanOp("send "+st.name, &selState{cases: []*selCase{c}}, f)
	}
}

// Recv receives from ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 receives from ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	aborted()
	st := recvState(ch)
	c := &selCase{ch: st}
	if st == nil {
		chanOp("receive from nil channel", &selState{}, nil)
	}
	chanOp("receive "+st.name, &selState{cases: []*selCase{c}}, []fp{{st.R, 0}})
	v, _ := c.v.(T)
	return v, c.ok
}

// Select performs a select statement and returns the chosen case, -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	aborted()
	sel := &selState{nonblock: hasDefault}
	var fps []fp
	name := "select"
	for _, c := range cases {
		k := c.sc()
		sel.cases = append(sel.cases, k)
		if k.ch != nil {
			fps = append(fps, bothFps(k.ch)...)
			if k.send {
				name += " send " + k.ch.name
			} else {
				name += " recv " + k.ch.name
			}
		}
	}
	chanOp(name, sel, fps)
	return sel.chosen
}

// Close closes ch.
func Close[T any](ch chan<- T) {
	aborted()
	st := sendState(ch)
	if st == nil {
		panic(runtimeError("close of nil channel"))
	}
	closeState(st)
}

func closeState(st *chanState) {
	x := s
	bad := false
	x.announce(&op{name: "close " + st.name, fps: []fp{{st.S, 0}}, exec: func() ([]fp, *thread) {
		bad = !st.closeNow(x.cur)
		return nil, nil
	}})
	if bad {
		panic(runtimeError("close of closed channel"))
	}
}

func (st *chanState) closeNow(t *thread) bool {
	if st.closed {
		return false
	}
	st.closed = true
	st.S.rel = t.rvc.clone()
	st.S.drl = t.dvc.clone()
	t.tick()
	return true
}

// ChanLen is len(ch).
func ChanLen[T any](ch <-chan T) int {
	aborted()
	st := recvState(ch)
	if st == nil {
		return 0
	}
	n := 0
	s.announce(&op{name: "len " + st.name, fps: []fp{{st.S, 3}, {st.R, 3}}, exec: func() ([]fp, *thread) {
		n = len(st.buf)
		return nil, nil
	}})
	return n
}

// RangeChan starts a range over a channel.
func RangeChan[T any](ch <-chan T) (<-chan T, bool, T) { var z T; return ch, true, z }

// PlainSend sends on a channel without being a program operation of its own
// thread's code; used by environment models.
func PlainSend[T any](ch chan<- T, v T) { SendTo(ch)(v) }
