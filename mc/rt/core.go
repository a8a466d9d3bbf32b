//go:build go1.21

// Package mc is a stateless model checker for instrumented Go code.
//
// Instrumented goroutines are real goroutines, of which exactly one runs at a
// time.  Every synchronisation operation is announced to the scheduler with its
// footprint (the objects it touches) before it takes effect, and the scheduler
// decides which announced, enabled operation happens next.  The explorer
// enumerates all schedules up to commutation of independent operations
// (dynamic partial-order reduction with sleep sets) and all values of Choose.
package mc

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// vc is a vector clock indexed by thread id.
type vc []int32

// noClocks turns off vector clocks, for single executions that look for no data races.
var noClocks bool

func (a vc) get(i int) int32 {
	if i < len(a) {
		return a[i]
	}
	return 0
}

func (a vc) join(b vc) vc {
	if noClocks {
		return a
	}
	if len(b) > len(a) {
		n := make(vc, len(b))
		copy(n, a)
		a = n
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}

func (a vc) set(i int, v int32) vc {
	if noClocks {
		return a
	}
	if i >= len(a) {
		n := make(vc, i+1)
		copy(n, a)
		a = n
	}
	a[i] = v
	return a
}

func (a vc) clone() vc { return append(vc(nil), a...) }

// leq reports whether a is pointwise at most b.
func (a vc) leq(b vc) bool {
	for i, x := range a {
		if x > b.get(i) {
			return false
		}
	}
	return true
}

// object is one thing operations can conflict on.
type object struct {
	id  int
	acc []access
	dep [4]vc // joined dependence clocks of accesses per class
	rel vc    // release clock: Go memory model
	drl vc    // release clock: dependence
}

type access struct {
	trans int
	tid   int
	class uint8
}

// fp is one element of a footprint.  Two operations conflict if they touch the
// same object and not both with the same non-zero class.
type fp struct {
	o     *object
	class uint8
}

func conflict(a, b []fp) bool {
	for _, x := range a {
		for _, y := range b {
			if x.o == y.o && (x.class == 0 || x.class != y.class) {
				return true
			}
		}
	}
	return false
}

type sfp struct {
	id    int
	class uint8
}

func sleepConflict(a []sfp, b []fp) bool {
	for _, x := range a {
		for _, y := range b {
			if x.id == y.o.id && (x.class == 0 || x.class != y.class) {
				return true
			}
		}
	}
	return false
}

// op is an announced operation.
type op struct {
	name    string
	fps     []fp
	enabled func() bool            // nil: always
	exec    func() ([]fp, *thread) // performs the effect; returns additional footprint and a thread to resume
	sel     *selState              // waiting channel operation, visible to partners
	blocked string
	// enabling: some conflicting operations enable this one, so that a
	// conflict with the operation that enabled it must not hide earlier ones
	enabling bool
	at       int // announce number (for FIFO matching)
}

type thread struct {
	id       int
	name     string
	wake     chan struct{}
	op       *op
	done     bool
	matched  bool // op was completed by a partner
	ret      *thread
	retCtl   bool
	dvc      vc
	rvc      vc
	seq      int32
	timer    *timer // pseudo-thread of a timer
	fresh    bool
	daemon   bool
	annTime  time.Duration
	panicVal interface{}
	site     string
	nobj     int
}

type trans struct {
	tid  int
	seq  int32
	node *node // nil if there was no alternative
	dvc  vc
	name string
}

type sleepEntry struct {
	tid int
	fps []sfp
}

type node struct {
	choice bool
	// scheduling node
	enabled []int
	pend    map[int][]sfp
	chosen  int
	back    map[int]bool
	done    map[int]bool
	sleep   []sleepEntry
	seq     []int32
	dev     int // deviations before this node
	deflt   int
	// choice node
	n, cur int
	label  string
}

// Violation describes a failed execution.
type Violation struct {
	Kind  string
	Msg   string
	Trace []string
}

func (v *Violation) Error() string { return v.Kind + ": " + v.Msg }

// Config of an exploration.
type Config struct {
	MaxSteps   int           // transitions per execution before it counts as a livelock
	Horizon    time.Duration // virtual time before it counts as a livelock
	Race       bool          // data race detection
	MapOrders  int           // iteration orders tried per map: 1 sorted, 2 sorted and reversed, 0 all (up to 3 elements), else as 2
	KeepTrace  bool
	LeaksOK    bool
	Bound      int // deviation bound; <0: none (full DPOR)
	Naive      bool
	AllowFatal bool
	Known      func(v *Violation) string // names a listed finding
}

type sched struct {
	cfg      Config
	threads  []*thread
	cur      *thread
	ctl      chan struct{}
	over     bool
	aborting bool
	seqOnly  bool

	stack     []*node
	depth     int
	replay    int // number of stack entries forced
	sleep     []sleepEntry
	trans     []trans
	lastFps   []fp
	lastT     *thread
	fresh     []*thread
	nobj      int
	nann      int
	now       time.Duration
	timers    []*timer
	steps     int
	base      int           // operations before the case that runs
	baseTime  time.Duration // and time
	consec    int
	viol      *Violation
	cut       bool
	devs      int
	traceLog  []string
	outcome   string
	outcomeFn func() string
	shadow    map[uintptr]*shadow
	keep      []interface{}
	chans     map[uintptr]*chanState
	execNo    int
	forced    []int // replay of recorded decisions (Replay)
	forcedI   int
	decs      []int
	diverged  string
	ptrIDs    map[interface{}]int
	globals   map[string]interface{}
	marks     map[string]int
}

var s *sched
var execCounter int

type abortT struct{}

func (c *Config) defaults() {
	if c.MaxSteps == 0 {
		c.MaxSteps = 20000
	}
	if c.Horizon == 0 {
		c.Horizon = 400 * time.Hour
	}
}

func newObject() *object {
	s.nobj++
	return &object{id: s.nobj}
}

// active reports whether code runs under the scheduler.
func active() bool { return s != nil && !s.aborting }

// aborted must be called first in every blocking operation.
func aborted() bool {
	if s == nil {
		panic("mc: operation outside an execution")
	}
	if s.aborting {
		runtime.Goexit()
	}
	return false
}

func (t *thread) park() {
	<-t.wake
	if s.aborting {
		runtime.Goexit()
	}
}

func (x *sched) spawn(name string, f func()) *thread {
	t := &thread{id: len(x.threads), name: name, wake: make(chan struct{}, 1)}
	x.threads = append(x.threads, t)
	if p := x.cur; p != nil {
		t.dvc = p.dvc.clone()
		t.rvc = p.rvc.clone()
		t.dvc = t.dvc.set(t.id, 0)
		t.rvc = t.rvc.set(t.id, 1)
		p.rvc = p.rvc.set(p.id, p.rvc.get(p.id)+1)
	} else {
		t.dvc = vc(nil).set(t.id, 0)
		t.rvc = vc(nil).set(t.id, 1)
	}
	go func() {
		<-t.wake
		defer x.exit(t)
		if x.aborting {
			return
		}
		defer func() {
			if x.aborting {
				return
			}
			if r := recover(); r != nil {
				x.failNow("panic", fmt.Sprintf("%v in goroutine %q\n%s", r, t.name, shortStack()))
			}
		}()
		f()
	}()
	return t
}

func shortStack() string {
	lines := strings.Split(string(debug.Stack()), "\n")
	var out []string
	for i := 0; i+1 < len(lines); i++ {
		if strings.HasPrefix(lines[i], "\t") {
			continue
		}
		if strings.Contains(lines[i], "runtime.") || strings.Contains(lines[i], "/rt.") || strings.Contains(lines[i], "debug.") || strings.HasPrefix(lines[i], "panic(") {
			continue
		}
		if strings.Contains(lines[i+1], "\t") {
			f := lines[i]
			if j := strings.LastIndex(f, "("); j > 0 {
				f = f[:j]
			}
			out = append(out, "  "+f)
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// exit runs when a thread's goroutine ends.
func (x *sched) exit(t *thread) {
	t.done = true
	t.op = nil
	if x.aborting {
		x.ctl <- struct{}{}
		return
	}
	if x.over {
		x.ctl <- struct{}{}
		return
	}
	if t.ret != nil {
		p := t.ret
		t.ret = nil
		x.cur = p
		p.wake <- struct{}{}
		return
	}
	if t.id == 0 {
		x.over = true
		x.ctl <- struct{}{}
		return
	}
	x.schedule(t)
}

// runInline lets q run until its next announcement and then continues the
// current thread.
func (x *sched) runInline(q, real *thread) {
	p := x.cur
	q.ret = real
	x.cur = q
	q.wake <- struct{}{}
	<-real.wake
	if x.aborting {
		runtime.Goexit()
	}
	x.cur = p
}

// endExec ends the execution from the current thread, which never continues.
func (x *sched) endExec() {
	x.over = true
}

func (x *sched) failNow(kind, msg string) {
	if x.viol == nil {
		x.viol = &Violation{Kind: kind, Msg: msg, Trace: append([]string(nil), x.traceLog...)}
	}
	x.over = true
}

// Fail reports a property violation and ends the execution.
func Fail(kind, format string, args ...interface{}) {
	if s.aborting {
		runtime.Goexit()
	}
	s.failNow(kind, fmt.Sprintf(format, args...))
	runtime.Goexit()
}

// meets reports whether a can send to b directly.
func meets(a, b *selState) bool {
	for _, c := range a.cases {
		for _, d := range b.cases {
			if c.send && !d.send && c.ch != nil && c.ch == d.ch && c.ch.cap == 0 {
				return true
			}
		}
	}
	return false
}

// announce publishes the current thread's next operation and returns when it
// has been executed.
func (x *sched) announce(o *op) {
	t := x.cur
	if x.over {
		runtime.Goexit()
	}
	x.nann++
	o.at = x.nann
	t.op = o
	t.matched = false
	t.annTime = x.now
	if !t.fresh {
		t.fresh = true
		x.fresh = append(x.fresh, t)
	}
	if o.sel != nil && !o.sel.nonblock && len(x.sleep) > 0 {
		// parking on a channel is visible to non-blocking operations and to senders
		var ns []sleepEntry
		for _, e := range x.sleep {
			q := x.threads[e.tid]
			if q.op != nil && q.op.sel != nil && (q.op.sel.nonblock && sleepConflict(e.fps, o.fps) || meets(q.op.sel, o.sel)) {
				continue
			}
			ns = append(ns, e)
		}
		x.sleep = ns
	}
	if t.ret != nil {
		p := t.ret
		t.ret = nil
		x.cur = p
		p.wake <- struct{}{}
		t.park()
	} else {
		x.schedule(t)
	}
	// woken: either chosen or matched by a partner
	if t.matched {
		t.matched = false
		t.op = nil
		return
	}
	x.perform(t)
}

// perform executes the pending operation of t, which has just been chosen.
func (x *sched) perform(t *thread) {
	o := t.op
	x.step(t, o, t)
	t.op = nil
}

// step performs operation o of t; real is the thread whose goroutine runs it.
func (x *sched) step(t *thread, o *op, real *thread) {
	t.seq++
	t.dvc = t.dvc.set(t.id, t.seq)
	for _, f := range o.fps {
		x.acquireDep(t, f)
	}
	ti := len(x.trans) - 1
	var extra []fp
	var resume *thread
	if o.exec != nil {
		extra, resume = o.exec()
		for _, f := range extra {
			x.acquireDep(t, f)
		}
	}
	fps := o.fps
	if len(extra) > 0 {
		fps = append(append([]fp(nil), fps...), extra...)
	}
	for _, f := range fps {
		if noClocks {
			break
		}
		f.o.acc = append(f.o.acc, access{ti, t.id, f.class})
		f.o.dep[f.class] = f.o.dep[f.class].join(t.dvc)
	}
	x.trans[ti].dvc = t.dvc.clone()
	x.lastFps = fps
	x.lastT = t
	// sleep set filtering
	if len(x.sleep) > 0 {
		var ns []sleepEntry
		for _, e := range x.sleep {
			if e.tid != t.id && !sleepConflict(e.fps, fps) {
				ns = append(ns, e)
			}
		}
		x.sleep = ns
	}
	if resume != nil {
		// the partner of a rendezvous could have gone another way instead
		if n := x.trans[ti].node; n != nil && n.back != nil && !inSleep(n.sleep, resume.id) {
			for _, id := range n.enabled {
				if id == resume.id {
					n.back[id] = true
				}
			}
		}
		resume.dvc = resume.dvc.join(t.dvc)
		x.runInline(resume, real)
	}
}

func (x *sched) acquireDep(t *thread, f fp) {
	for c := range f.o.dep {
		if f.class == 0 || uint8(c) != f.class {
			if f.o.dep[c] != nil {
				t.dvc = t.dvc.join(f.o.dep[c])
			}
		}
	}
}

// races finds the executed operations in a reversible race with the pending
// operation of p (all of them, or only the last executed one) and makes sure
// that the other order will be explored (source-set DPOR).
func (x *sched) races(p *thread, all bool) {
	if p.op == nil {
		return
	}
	last := len(x.trans) - 1
	var cand []int
	isCand := map[int]bool{}
	for _, f := range p.op.fps {
		acc := f.o.acc
		for k := len(acc) - 1; k >= 0; k-- {
			a := acc[k]
			if a.tid == p.id || (f.class != 0 && f.class == a.class) || isCand[a.trans] {
				continue
			}
			isCand[a.trans] = true
			cand = append(cand, a.trans)
		}
	}
	sort.Sort(sort.Reverse(sort.IntSlice(cand)))
	j := p.dvc.clone()
	for _, e := range cand {
		te := &x.trans[e]
		if j.get(te.tid) >= te.seq {
			continue
		}
		if !all && e != last {
			break
		}
		x.reverse(p, e, isCand)
		if !p.op.enabling {
			j = j.join(te.dvc)
		}
	}
}

// pendingRaces handles the races of operations that have not been executed.
func (x *sched) pendingRaces() {
	if x.cfg.Naive || x.cfg.Bound >= 0 || x.forced != nil || x.depth < x.replay {
		return
	}
	for _, p := range x.threads {
		if !p.done && (p.timer == nil || p.timer.due(x)) {
			x.races(p, true)
		}
	}
}

func (x *sched) reverse(p *thread, e int, isCand map[int]bool) {
	te := &x.trans[e]
	n := te.node
	if n == nil {
		return
	}
	// v: events after e that do not depend on it, then the operation of p
	var v []int
	var initials []int
	seen := map[int]bool{}
	for k := e + 1; k < len(x.trans); k++ {
		tk := &x.trans[k]
		if tk.tid == te.tid || tk.dvc.get(te.tid) >= te.seq {
			continue
		}
		if !seen[tk.tid] {
			seen[tk.tid] = true
			ini := true
			for _, g := range v {
				tg := &x.trans[g]
				if tk.dvc.get(tg.tid) >= tg.seq {
					ini = false
					break
				}
			}
			if ini {
				initials = append(initials, tk.tid)
			}
		}
		v = append(v, k)
	}
	if !seen[p.id] {
		ini := true
		for _, g := range v {
			tg := &x.trans[g]
			if isCand[g] || p.dvc.get(tg.tid) >= tg.seq {
				ini = false
				break
			}
		}
		if ini {
			initials = append([]int{p.id}, initials...)
		}
	}
	pick := -1
	for _, q := range initials {
		if n.back[q] || inSleep(n.sleep, q) {
			return
		}
		if pick < 0 {
			for _, r := range n.enabled {
				if r == q {
					pick = q
				}
			}
		}
	}
	if pick >= 0 {
		n.back[pick] = true
		return
	}
	for _, q := range n.enabled {
		n.back[q] = true
	}
}

// beat counts operations, for hang detection.
var beat atomic.Int64

// Beat returns a number that changes while executions make progress.
func Beat() int64 { return beat.Load() }

// Current describes the running execution, for reports about hangs only.
func Current() (decs []int, desc string) {
	defer func() { recover() }()
	x := s
	if x == nil {
		return nil, ""
	}
	if x.forced != nil {
		return append([]int(nil), x.forced...), x.describe()
	}
	return append([]int(nil), x.decs...), x.describe()
}

// schedule picks and starts the next operation.  Called by thread t which has
// announced its operation (or ended); returns when t has been chosen or
// matched.
func (x *sched) schedule(t *thread) {
	for {
		next := x.pick()
		if next == nil { // execution over
			x.over = true
			x.ctl <- struct{}{}
			if t.done {
				return
			}
			t.park()
			return
		}
		if next.timer != nil {
			x.cur = next
			o := next.op
			x.step(next, o, t)
			continue
		}
		x.cur = next
		if next == t {
			return
		}
		next.wake <- struct{}{}
		if t.done {
			return
		}
		t.park()
		return
	}
}

func (x *sched) isEnabled(t *thread) bool {
	if t.done || t.op == nil {
		return false
	}
	return t.op.enabled == nil || t.op.enabled()
}

func (x *sched) pick() *thread {
	for {
		if x.over {
			return nil
		}
		if full := !x.cfg.Naive && x.cfg.Bound < 0; full && x.depth >= x.replay {
			// channel operations may be completed by a partner: check them while they wait
			if x.lastT != nil {
				for _, p := range x.threads {
					if p != x.lastT && !p.fresh && p.op != nil && p.op.sel != nil && !p.done && conflict(p.op.fps, x.lastFps) {
						x.races(p, false)
					}
				}
			}
			for _, p := range x.fresh {
				if p.op != nil && p.op.sel != nil {
					x.races(p, true)
				}
			}
		}
		for _, p := range x.fresh {
			p.fresh = false
		}
		x.fresh = x.fresh[:0]
		last := x.lastT
		x.lastT = nil
		var en []int
		for _, p := range x.threads {
			if x.isEnabled(p) {
				en = append(en, p.id)
			}
		}
		if len(en) == 0 {
			x.pendingRaces()
			if x.advance() {
				continue
			}
			x.deadlock()
			return nil
		}
		x.steps++
		beat.Add(1)
		if x.steps > x.base+x.cfg.MaxSteps {
			x.failNow("livelock", fmt.Sprintf("no end after %d operations; running: %s", x.cfg.MaxSteps, x.describe()))
			return nil
		}
		id := x.decide(en, last)
		if id < 0 {
			x.cut = true
			return nil
		}
		t := x.threads[id]
		if !x.cfg.Naive && x.cfg.Bound < 0 && x.depth >= x.replay {
			tr := x.trans
			x.trans = tr[:len(tr)-1]
			x.races(t, true)
			x.trans = tr
		}
		if x.cfg.KeepTrace {
			x.traceLog = append(x.traceLog, fmt.Sprintf("%d@%v %s: %s", len(x.trans), x.now, t.label(), t.op.name))
		}
		x.trans[len(x.trans)-1].name = t.op.name
		return t
	}
}

func (t *thread) label() string {
	if t.name != "" {
		return fmt.Sprintf("g%d(%s)", t.id, t.name)
	}
	return fmt.Sprintf("g%d", t.id)
}

func (x *sched) describe() string {
	var out []string
	for _, p := range x.threads {
		if p.done || p.timer != nil {
			continue
		}
		if p.op == nil {
			out = append(out, p.label()+": running")
			continue
		}
		out = append(out, p.label()+": "+p.op.name)
	}
	return strings.Join(out, "; ")
}

func (x *sched) deadlock() {
	main := x.threads[0]
	if main.done {
		return
	}
	x.failNow("deadlock", "nothing can make progress: "+x.describe())
}

var noSleep bool

func inSleep(sl []sleepEntry, id int) bool {
	if noSleep {
		return false
	}
	for _, e := range sl {
		if e.tid == id {
			return true
		}
	}
	return false
}

// decide chooses among the enabled threads.
func (x *sched) decide(en []int, last *thread) int {
	full := !x.cfg.Naive && x.cfg.Bound < 0
	if x.forced != nil {
		id := en[0]
		if len(en) > 1 {
			if x.forcedI >= len(x.forced) {
				x.diverged = "ran out of recorded decisions"
				return -1
			}
			id = x.forced[x.forcedI]
			x.forcedI++
			ok := false
			for _, e := range en {
				ok = ok || e == id
			}
			if !ok {
				x.diverged = fmt.Sprintf("recorded thread %d not enabled (enabled %v)", id, en)
				return -1
			}
			x.decs = append(x.decs, id)
		}
		x.trans = append(x.trans, trans{tid: id, seq: x.threads[id].seq + 1})
		return id
	}
	if len(en) == 1 {
		id := en[0]
		if full && inSleep(x.sleep, id) {
			return -1
		}
		x.trans = append(x.trans, trans{tid: id, seq: x.threads[id].seq + 1})
		return id
	}
	var n *node
	if x.depth < x.replay {
		n = x.stack[x.depth]
		if n.choice || !sameInts(n.enabled, en) {
			x.diverged = fmt.Sprintf("replay diverged at depth %d: enabled %v, expected %v (choice %v)", x.depth, en, n.enabled, n.choice)
			return -1
		}
		if full {
			// sleep set for the chosen alternative: initial plus explored siblings
			x.sleep = append([]sleepEntry(nil), n.sleep...)
			for id := range n.done {
				if id != n.chosen {
					x.sleep = append(x.sleep, sleepEntry{id, n.pend[id]})
				}
			}
			sort.Slice(x.sleep, func(i, j int) bool { return x.sleep[i].tid < x.sleep[j].tid })
		}
		if n.chosen != n.deflt {
			x.devs++
		}
	} else {
		pick := -1
		// default: continue the last thread (fairly), else the lowest id
		if last != nil && x.consec < 60 {
			for _, id := range en {
				if id == last.id && (!full || !inSleep(x.sleep, id)) {
					pick = id
				}
			}
		}
		if pick < 0 {
			start := 0
			if last != nil {
				for i, id := range en {
					if id > last.id {
						start = i
						break
					}
				}
			}
			for k := range en {
				id := en[(start+k)%len(en)]
				if !full || !inSleep(x.sleep, id) {
					pick = id
					break
				}
			}
		}
		if pick < 0 {
			return -1
		}
		n = &node{enabled: append([]int(nil), en...), chosen: pick, deflt: pick, dev: x.devs}
		if full {
			n.pend = make(map[int][]sfp, len(en))
			for _, id := range en {
				n.pend[id] = toSfp(x.threads[id].op.fps)
			}
			n.back = map[int]bool{pick: true}
			n.done = map[int]bool{}
			n.sleep = append([]sleepEntry(nil), x.sleep...)
			n.seq = make([]int32, len(x.threads))
			for i, p := range x.threads {
				n.seq[i] = p.seq
			}
		} else {
			n.done = map[int]bool{}
		}
		x.stack = append(x.stack, n)
	}
	x.depth++
	if last != nil && n.chosen == last.id {
		x.consec++
	} else {
		x.consec = 0
	}
	x.decs = append(x.decs, n.chosen)
	x.trans = append(x.trans, trans{tid: n.chosen, seq: x.threads[n.chosen].seq + 1, node: n})
	return n.chosen
}

func toSfp(f []fp) []sfp {
	out := make([]sfp, len(f))
	for i, x := range f {
		out[i] = sfp{x.o.id, x.class}
	}
	return out
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Choose returns a value in [0,n); all values are explored.
func Choose(n int, label string) int {
	aborted()
	if n <= 1 {
		return 0
	}
	x := s
	v := 0
	switch {
	case x.forced != nil:
		if x.forcedI >= len(x.forced) {
			x.diverged = "ran out of recorded decisions at choice " + label
		} else {
			v = x.forced[x.forcedI]
			x.forcedI++
			if v >= n {
				x.diverged = "recorded choice out of range at " + label
				v = 0
			}
		}
	case x.depth < x.replay:
		nd := x.stack[x.depth]
		if !nd.choice || nd.n != n {
			x.diverged = fmt.Sprintf("replay diverged at choice %s depth %d", label, x.depth)
		} else {
			v = nd.cur
		}
		x.depth++
	default:
		x.stack = append(x.stack, &node{choice: true, n: n, label: label})
		x.depth++
	}
	x.decs = append(x.decs, v)
	if x.cfg.KeepTrace {
		x.traceLog = append(x.traceLog, fmt.Sprintf("   choose %s = %d of %d (%s)", label, v, n, x.cur.label()))
	}
	return v
}

// Log adds a line to the trace of the execution.
func Log(format string, args ...interface{}) {
	if s != nil && !s.aborting && s.cfg.KeepTrace {
		s.traceLog = append(s.traceLog, fmt.Sprintf("   %s: "+format, append([]interface{}{s.cur.label()}, args...)...))
	}
}

var resets []func()

// OnReset registers the initialisation of package variables, repeated for every execution.
func OnReset(f func()) { resets = append(resets, f) }

// runOnce performs one execution.
func runOnce(x *sched, body func()) {
	execCounter++
	x.execNo = execCounter
	x.ctl = make(chan struct{}, 1)
	x.chans = map[uintptr]*chanState{}
	for _, f := range resets {
		f()
	}
	s = x
	x.cur = nil
	t := x.spawn("main", body)
	x.cur = t
	t.wake <- struct{}{}
	<-x.ctl
	if !noClocks && !x.cut && x.diverged == "" {
		x.pendingRaces()
	}
	// abort what is left
	x.aborting = true
	for i := 0; i < len(x.threads); i++ {
		p := x.threads[i]
		if p.done || p.timer != nil {
			continue
		}
		x.cur = p
		p.wake <- struct{}{}
		<-x.ctl
	}
	s = nil
}
