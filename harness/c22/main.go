//go:build go1.22

package main

import (
	"fmt"
	"time"

	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/metric"
	"github.com/BTBurke/monny/vh/lib"
)

const ms = time.Millisecond

type win struct {
	start time.Duration
	sum   int
}

// model is a windowed counter.
type model struct {
	now, dur time.Duration
	max      int
	age      time.Duration
	cur      win
	hist     []win
}

func (m *model) over() bool { return m.dur > 0 && m.now > m.cur.start+m.dur }

func (m *model) limit(h []win) []win {
	var o []win
	for _, w := range h {
		if m.age == 0 || m.now-w.start <= m.age {
			o = append(o, w)
		}
	}
	if m.max > 0 && len(o) > m.max {
		o = o[len(o)-m.max:]
	}
	return o
}

func (m *model) add(n int) {
	if m.over() {
		m.hist = m.limit(append(append([]win(nil), m.hist...), m.cur))
		m.cur = win{start: m.now}
	}
	m.cur.sum += n
}

func (m *model) value() int {
	if m.over() {
		return 0
	}
	return m.cur.sum
}

func (m *model) history(incl bool) []win {
	h := append([]win(nil), m.hist...)
	if incl || m.over() {
		h = append(h, m.cur)
	}
	return m.limit(h)
}

type counterT interface {
	metric.CounterI
	History() []metric.Counter
	HistoryInclusive() []metric.Counter
}

func show(h []metric.Counter, t0 time.Time) string {
	s := ""
	for i := range h {
		s += fmt.Sprintf("[%v+%v]=%d ", h[i].Start().Sub(t0), h[i].Duration(), h[i].Value())
	}
	return s
}

func (m *model) show(h []win) string {
	s := ""
	for _, w := range h {
		s += fmt.Sprintf("[%v+%v]=%d ", w.start, m.dur, w.sum)
	}
	return s
}

type snap struct {
	h    []metric.Counter
	want string
}

// operations: 0..1 add, 2 short wait, 3 wait past the window, 4 long wait, 5 history, 6 inclusive history, 7 reset
const nOps = 8

func drive(c *lib.Cases, w counterT, m *model, seq []int, where string) {
	t0 := mc.TimeNow().Add(-m.now)
	var snaps []snap
	n := 0
	for i, op := range seq {
		when := func() string { return fmt.Sprintf("%s operation %d of %v", where, i, lib.Part(seq)) }
		check := func(h []metric.Counter, want string, what string) {
			if got := show(h, t0); got != want {
				mc.Fail("history", "%s: %s %s, want %s", when(), what, got, want)
			}
			snaps = append(snaps, snap{h, want})
		}
		switch op {
		case 0:
			n++
			w.Add(uint(n))
			m.add(n)
		case 1:
			w.Add(0)
			m.add(0)
		case 2, 3, 4:
			d := []time.Duration{4 * ms, 11 * ms, 37 * ms}[op-2]
			mc.Sleep(d)
			m.now += d
		case 5:
			if m.dur > 0 { // without windows it is open whether the only one counts as closed
				check(w.History(), m.show(m.history(false)), "history")
			} else {
				h := w.History()
				snaps = append(snaps, snap{h, show(h, t0)})
			}
		case 6:
			check(w.HistoryInclusive(), m.show(m.history(true)), "inclusive history")
		case 7:
			w.Reset()
			m.hist, m.cur = nil, win{start: m.now}
		}
		if v := w.Value(); v != m.value() {
			mc.Fail("value", "%s: value %d, want %d", when(), v, m.value())
		}
		c.State("%s %v %v", where, m.over(), len(m.hist))
	}
	check := snaps
	if m.dur > 0 {
		if got, want := show(w.History(), t0), m.show(m.history(false)); got != want {
			mc.Fail("history", "%s after %v: history %s, want %s", where, lib.Part(seq), got, want)
		}
	}
	for _, x := range check {
		if got := show(x.h, t0); got != x.want {
			mc.Fail("copy", "%s, %v: a history returned earlier changed to %s, was %s", where, lib.Part(seq), got, x.want)
		}
	}
}

type conf struct {
	dur  time.Duration
	max  int
	age  time.Duration
	kind int // 0 windowed, 1 concurrent, 2 zero value of the type
}

func confs() []conf {
	var o []conf
	for _, d := range []time.Duration{10 * ms, 0} {
		for _, k := range []int{0, 1, 2} {
			for _, max := range []int{0, 1, 2, 3} {
				for _, age := range []time.Duration{0, 30500 * time.Microsecond, 60500 * time.Microsecond} {
					if k == 1 && (max != 0 || age != 0) || k == 2 && d != 0 || d == 0 && (max > 1 || age > 31*ms) {
						continue
					}
					o = append(o, conf{d, max, age, k})
				}
			}
		}
	}
	return o
}

func (k conf) mk() (counterT, *model) {
	m := &model{dur: k.dur, max: k.max, age: k.age}
	switch k.kind {
	case 1:
		return metric.NewConcurrentWindowedCounter(k.dur), m
	case 2:
		return &metric.WindowedCounter{MaxHistory: k.max, MaxHistoryDuration: k.age}, m
	}
	w := metric.NewWindowedCounter(k.dur)
	w.MaxHistory, w.MaxHistoryDuration = k.max, k.age
	return w, m
}

func (k conf) String() string {
	return fmt.Sprintf("kind%d,%v,max%d,age%v", k.kind, k.dur, k.max, k.age)
}

func main() {
	win := func(name string, kinds func(k conf) bool, dq, dt int) lib.Scenario {
		return lib.Scenario{Name: name, Weight: 2,
			What: fmt.Sprintf("windowed counters (%s), all history limits, all sequences of %d (thorough: %d) operations over add, add 0, three waits, history, inclusive history, reset in virtual time", name, dq, dt),
			Seq: func(c *lib.Cases) {
				d := dq
				if !c.Quick {
					d = dt
				}
				for _, k := range confs() {
					k := k
					if !kinds(k) {
						continue
					}
					c.Seqs(k.String()+":", nOps, d, func(q []int) func() {
						return func() {
							w, m := k.mk()
							if k.kind == 2 { // its start is not a point in time
								for _, op := range q {
									if op == 6 {
										return
									}
								}
							}
							drive(c, w, m, q, k.String())
						}
					})
				}
			}}
	}
	lib.Main("C22", []lib.Scenario{
		win("window", func(k conf) bool { return k.dur > 0 && k.kind == 0 }, 5, 6),
		win("concurrent-type", func(k conf) bool { return k.dur > 0 && k.kind == 1 }, 5, 6),
		win("no-window", func(k conf) bool { return k.dur == 0 }, 5, 6),
		{Name: "histories", What: "windows filled and closed one after another: for 7 (thorough: 9) windows, every history limit, and every pattern of idle gaps of up to three windows", Weight: 2,
			Seq: func(c *lib.Cases) {
				n := 7
				if !c.Quick {
					n = 9
				}
				for _, k := range confs() {
					k := k
					if k.kind == 2 || k.dur == 0 {
						continue
					}
					c.Seqs(k.String()+":", 3, n, func(q []int) func() {
						return func() {
							w, m := k.mk()
							var seq []int
							for _, x := range q {
								seq = append(seq, 0, 0, 6, []int{3, 4, 2}[x], 5)
							}
							drive(c, w, m, seq, k.String())
						}
					})
				}
			}},
		{Name: "long", What: "1300 (thorough: 4000) windows closed one after another, for no limit and limits of 3, 150, 1100 windows and of 0.5 s and 9 s: the histories at every 93rd window and at the end, and those returned before are unchanged; then a reset and 20 more",
			Seq: func(c *lib.Cases) {
				n := 1300
				if !c.Quick {
					n = 4000
				}
				for _, k := range []conf{{10 * ms, 0, 0, 0}, {10 * ms, 0, 0, 1}, {10 * ms, 3, 0, 0}, {10 * ms, 150, 0, 0}, {10 * ms, 1100, 0, 0},
					{10 * ms, 0, 500 * ms, 0}, {10 * ms, 0, 9000 * ms, 0}, {10 * ms, 150, 9000 * ms, 0}} {
					k := k
					c.Step(n)
					c.Add(k.String(), func() {
						w, m := k.mk()
						var seq []int
						for i := 0; i < n; i++ {
							seq = append(seq, 0, 3)
							if i%93 == 92 {
								seq = append(seq, 5, 6)
							}
						}
						seq = append(seq, 5, 6, 7, 5)
						for i := 0; i < 20; i++ {
							seq = append(seq, 0, 4)
						}
						drive(c, w, m, append(seq, 5, 6), k.String())
					})
				}
			}},
		{Name: "plain", What: "plain and concurrent counters: all sequences of 8 adds of 0-2, large values and resets",
			Seq: func(c *lib.Cases) {
				for kind := 0; kind < 2; kind++ {
					kind := kind
					c.Seqs(fmt.Sprintf("kind%d:", kind), 5, 6+lib.Bit(!c.Quick), func(q []int) func() {
						return func() {
							var x, other metric.CounterI = metric.NewCounter(), metric.NewCounter()
							if kind == 1 {
								x, other = metric.NewConcurrentCounter(), metric.NewConcurrentCounter()
							}
							other.Add(7)
							sum := 0
							for _, op := range q {
								switch op {
								case 0, 1, 2:
									x.Add(uint(op))
									sum += op
								case 3:
									x.Add(1 << 31)
									sum += 1 << 31
								case 4:
									x.Reset()
									sum = 0
								}
								if x.Value() != sum {
									mc.Fail("value", "%v: value %d, want %d", q, x.Value(), sum)
								}
								c.State("%d %d", kind, sum)
							}
							if other.Value() != 7 {
								mc.Fail("value", "another counter changed to %d", other.Value())
							}
						}
					})
				}
			}},
	})
}
