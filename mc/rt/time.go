//go:build go1.21

package mc

import (
	"context"
	"fmt"
	"time"
)

// Virtual time: it advances only when no operation is enabled, to the next
// deadline.  Timers due at the same instant are pseudo-threads that interleave
// with each other and with everything else that happens at that instant.

// Epoch is the virtual time at the start of every execution.
var Epoch = time.Date(2020, 3, 4, 5, 6, 7, 0, time.UTC)

type timer struct {
	o        *object
	deadline time.Duration
	period   time.Duration
	active   bool
	ch       chan time.Time
	fn       func()
	th       *thread
	name     string
}

func (x *sched) newTimer(name string) *timer {
	tm := &timer{o: newObject(), name: name}
	t := &thread{id: len(x.threads), name: name, timer: tm, wake: make(chan struct{}, 1)}
	x.threads = append(x.threads, t)
	p := x.cur
	t.dvc = p.dvc.clone().set(t.id, 0)
	t.rvc = p.rvc.clone().set(t.id, 1)
	tm.th = t
	x.timers = append(x.timers, tm)
	return tm
}

func (x *sched) arm(tm *timer, d time.Duration) {
	if d < 0 {
		d = 0
	}
	tm.deadline = x.now + d
	tm.active = true
	tm.th.dvc = tm.th.dvc.join(x.cur.dvc)
	tm.th.rvc = tm.th.rvc.join(x.cur.rvc)
	x.armOp(tm)
}

func (x *sched) armOp(tm *timer) {
	t := tm.th
	fps := []fp{{tm.o, 0}}
	var st *chanState
	if tm.ch != nil {
		st = stateOf(chanPtr(tm.ch), cap(tm.ch), tm.ch)
		fps = append(fps, bothFps(st)...)
	}
	t.op = &op{name: "fire " + tm.name, fps: fps,
		enabled: func() bool { return tm.active && tm.deadline <= x.now },
		exec: func() ([]fp, *thread) {
			due := tm.deadline
			if tm.period > 0 {
				tm.deadline += tm.period
				x.armOp(tm)
			} else {
				tm.active = false
				t.op = nil
			}
			if st != nil {
				if len(st.buf) < st.cap {
					if st.nsend >= st.cap {
						m := st.freed[st.nsend-st.cap]
						t.dvc = t.dvc.join(m.dvc)
						t.rvc = t.rvc.join(m.rvc)
					}
					st.nsend++
					st.buf = append(st.buf, msg{Epoch.Add(due), t.dvc.clone(), t.rvc.clone()})
					t.tick()
				}
				return nil, nil
			}
			if tm.fn != nil {
				return nil, x.spawn(tm.name, tm.fn)
			}
			return nil, nil
		}}
	tm.markDue(x)
}

func (tm *timer) due(x *sched) bool { return tm.active && tm.deadline <= x.now }

func (tm *timer) markDue(x *sched) {
	if tm.due(x) && !tm.th.fresh {
		tm.th.fresh = true
		x.fresh = append(x.fresh, tm.th)
	}
}

// advance moves time to the next deadline.
func (x *sched) advance() bool {
	found := false
	var min time.Duration
	for _, tm := range x.timers {
		if tm.active && tm.deadline > x.now && (!found || tm.deadline < min) {
			found, min = true, tm.deadline
		}
	}
	if !found {
		return false
	}
	if min > x.cfg.Horizon+x.baseTime {
		x.failNow("livelock", fmt.Sprintf("still not finished at virtual time %v: %s", x.now, x.describe()))
		return false
	}
	x.now = min
	// time is a barrier: everything before is ordered before everything after
	var g vc
	for _, t := range x.threads {
		if noClocks {
			break
		}
		g = g.join(t.dvc)
	}
	for _, t := range x.threads {
		if noClocks {
			break
		}
		own := t.dvc.get(t.id)
		t.dvc = g.clone().set(t.id, own)
	}
	for _, tm := range x.timers {
		tm.markDue(x)
	}
	if x.cfg.KeepTrace {
		x.traceLog = append(x.traceLog, fmt.Sprintf("-- time advances to %v", x.now))
	}
	return true
}

// TimeNow is time.Now.
func TimeNow() time.Time {
	if s == nil {
		return Epoch
	}
	return Epoch.Add(s.now)
}

// Elapsed is the virtual time since the start of the execution.
func Elapsed() time.Duration {
	if s == nil {
		return 0
	}
	return s.now
}

// Since is time.Since.
func Since(t time.Time) time.Duration { return TimeNow().Sub(t) }

// Until is time.Until.
func Until(t time.Time) time.Duration { return t.Sub(TimeNow()) }

// Sleep is time.Sleep.
func Sleep(d time.Duration) {
	aborted()
	if d <= 0 {
		Gosched()
		return
	}
	x := s
	tm := x.newTimer("sleep")
	woken := false
	tm.fn = nil
	x.arm(tm, d)
	// wait for the timer: the timer's operation is the wake-up itself
	inner := tm.th.op.exec
	tm.th.op.exec = func() ([]fp, *thread) {
		woken = true
		return inner()
	}
	o := tm.o
	x.announce(&op{name: fmt.Sprintf("sleep %v", d), fps: []fp{{o, 0}}, enabled: func() bool { return woken },
		exec: func() ([]fp, *thread) { return nil, nil }})
}

// Timer is time.Timer.
type Timer struct {
	C  <-chan time.Time
	tm *timer
}

// NewTimer is time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	aborted()
	ch := make(chan time.Time, 1)
	tm := s.newTimer("timer")
	tm.ch = ch
	s.arm(tm, d)
	return &Timer{C: ch, tm: tm}
}

// AfterFunc is time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	aborted()
	tm := s.newTimer("afterfunc")
	tm.fn = f
	s.arm(tm, d)
	return &Timer{tm: tm}
}

// After is time.After.
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Stop stops the timer.
func (t *Timer) Stop() bool {
	if s == nil || s.aborting {
		return false
	}
	was := false
	s.simple("stop timer", tmFps(t.tm), func() {
		was = t.tm.active
		t.tm.drop()
	})
	return was
}

func tmFps(tm *timer) []fp {
	f := []fp{{tm.o, 0}}
	if tm.ch != nil {
		f = append(f, bothFps(stateOf(chanPtr(tm.ch), cap(tm.ch), tm.ch))...)
	}
	return f
}

func (tm *timer) drop() {
	tm.active = false
	tm.th.op = nil
	if tm.ch != nil {
		// since Go 1.23 no stale value remains after Stop or Reset
		st := stateOf(chanPtr(tm.ch), cap(tm.ch), tm.ch)
		for range st.buf {
			st.freed = append(st.freed, msg{nil, s.cur.dvc.clone(), s.cur.rvc.clone()})
		}
		st.buf = nil
	}
}

// Reset re-arms the timer.
func (t *Timer) Reset(d time.Duration) bool {
	if s == nil || s.aborting {
		return false
	}
	was := false
	s.simple("reset timer", tmFps(t.tm), func() {
		was = t.tm.active
		t.tm.drop()
		s.arm(t.tm, d)
	})
	return was
}

// Ticker is time.Ticker.
type Ticker struct {
	C  <-chan time.Time
	tm *timer
}

// NewTicker is time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	aborted()
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	ch := make(chan time.Time, 1)
	tm := s.newTimer("ticker")
	tm.ch = ch
	tm.period = d
	s.arm(tm, d)
	return &Ticker{C: ch, tm: tm}
}

// Stop stops the ticker.
func (t *Ticker) Stop() {
	if s == nil || s.aborting {
		return
	}
	s.simple("stop ticker", tmFps(t.tm), func() { t.tm.drop() })
}

// Reset changes the period.
func (t *Ticker) Reset(d time.Duration) {
	if s == nil || s.aborting {
		return
	}
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	s.simple("reset ticker", tmFps(t.tm), func() {
		t.tm.drop()
		t.tm.period = d
		s.arm(t.tm, d)
	})
}

// Tick is time.Tick.
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

// ---- context

type mctx struct {
	parent   context.Context
	done     chan struct{}
	st       *chanState
	err      error
	cause    error
	deadline time.Time
	hasDl    bool
	children []*mctx
	key, val interface{}
	tm       *timer
	ex       int
}

type deadlineErr struct{}

func (c *mctx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	return c.parent.Deadline()
}

func (c *mctx) Done() <-chan struct{} {
	if c.done != nil {
		return c.done
	}
	return c.parent.Done()
}

func (c *mctx) Err() error {
	if c.done == nil {
		return c.parent.Err()
	}
	if s == nil || s.aborting {
		return c.err
	}
	var e error
	s.simple("ctx.Err", []fp{{c.st.S, 3}}, func() { e = c.err })
	return e
}

func (c *mctx) Value(k interface{}) interface{} {
	if c.key != nil && c.key == k {
		return c.val
	}
	return c.parent.Value(k)
}

func (c *mctx) String() string { return "mc.context" }

func nearest(p context.Context) *mctx {
	for {
		m, ok := p.(*mctx)
		if !ok {
			return nil
		}
		if m.done != nil {
			return m
		}
		p = m.parent
	}
}

func (c *mctx) all(out []*mctx) []*mctx {
	out = append(out, c)
	for _, k := range c.children {
		out = k.all(out)
	}
	return out
}

func (c *mctx) cancelNow(t *thread, err, cause error) {
	for _, k := range c.all(nil) {
		if k.err == nil {
			k.err = err
			k.cause = cause
			if cause == nil {
				k.cause = err
			}
			k.st.closeNow(t)
			if k.tm != nil {
				k.tm.active = false
				k.tm.th.op = nil
			}
		}
	}
}

func (c *mctx) cancel(err, cause error) {
	if s == nil || s.aborting {
		return
	}
	var fps []fp
	for _, k := range c.all(nil) {
		fps = append(fps, fp{k.st.S, 0})
		if k.tm != nil {
			fps = append(fps, fp{k.tm.o, 0})
		}
	}
	s.simple("ctx cancel", fps, func() { c.cancelNow(s.cur, err, cause) })
}

func newCtx(parent context.Context) *mctx {
	aborted()
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &mctx{parent: parent, done: make(chan struct{})}
	c.st = stateOf(chanPtr(c.done), 0, c.done)
	if p := nearest(parent); p != nil {
		bad := false
		var e, cs error
		s.simple("ctx link", []fp{{p.st.S, 0}}, func() {
			if p.err != nil {
				bad, e, cs = true, p.err, p.cause
				return
			}
			p.children = append(p.children, c)
		})
		if bad {
			c.err, c.cause = e, cs
			c.st.closeNow(s.cur)
		}
	}
	return c
}

// WithCancel is context.WithCancel.
func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	return c, func() { c.cancel(context.Canceled, nil) }
}

// WithCancelCause is context.WithCancelCause.
func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(e error) { c.cancel(context.Canceled, e) }
}

// Cause is context.Cause.
func Cause(c context.Context) error {
	if m := nearest(c); m != nil {
		return m.cause
	}
	return c.Err()
}

// WithDeadline is context.WithDeadline.
func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

// WithTimeoutCause is context.WithTimeoutCause.
func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, TimeNow().Add(d), cause)
}

type withoutCancel struct{ context.Context }

func (withoutCancel) Deadline() (t time.Time, ok bool) { return }
func (withoutCancel) Done() <-chan struct{}            { return nil }
func (withoutCancel) Err() error                       { return nil }

// WithoutCancel is context.WithoutCancel.
func WithoutCancel(parent context.Context) context.Context { return withoutCancel{parent} }

// WithDeadlineCause is context.WithDeadlineCause.
func WithDeadlineCause(parent context.Context, d time.Time, cause error) (context.Context, context.CancelFunc) {
	if cur, ok := parent.Deadline(); ok && cur.Before(d) {
		return WithCancel(parent)
	}
	c := newCtx(parent)
	c.deadline, c.hasDl = d, true
	if c.err == nil {
		dur := d.Sub(TimeNow())
		if dur <= 0 {
			c.cancelNow(s.cur, context.DeadlineExceeded, cause)
		} else {
			tm := s.newTimer("ctx deadline")
			s.arm(tm, dur)
			tm.th.op.fps = append(tm.th.op.fps, fp{c.st.S, 0})
			inner := tm.th.op.exec
			tm.th.op.exec = func() ([]fp, *thread) {
				inner()
				var extra []fp
				for _, k := range c.all(nil) {
					extra = append(extra, fp{k.st.S, 0})
				}
				c.cancelNow(tm.th, context.DeadlineExceeded, cause)
				return extra, nil
			}
			c.tm = tm
		}
	}
	return c, func() { c.cancel(context.Canceled, nil) }
}

// WithTimeout is context.WithTimeout.
func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, TimeNow().Add(d))
}

// WithValue is context.WithValue.
func WithValue(parent context.Context, k, v interface{}) context.Context {
	return &mctx{parent: parent, key: k, val: v}
}

// Tickers counts the tickers that have not been stopped.
func Tickers() int {
	n := 0
	for _, tm := range s.timers {
		if tm.active && tm.period > 0 {
			n++
		}
	}
	return n
}
