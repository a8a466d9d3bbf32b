//go:build go1.22

package main

import (
	"fmt"
	"time"

	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/metric"
	"github.com/BTBurke/monny/vh/lib"
)

const ms = time.Millisecond
const window = 10 * ms

type win struct {
	start time.Duration
	sum   int
}

type state struct {
	cur  win
	hist []win
	dur  time.Duration
}

func (s state) over(now time.Duration) bool { return s.dur > 0 && now > s.cur.start+s.dur }

func (s state) show(now time.Duration, incl bool) string {
	h := append([]win(nil), s.hist...)
	if incl || s.over(now) {
		h = append(h, s.cur)
	}
	r := ""
	for _, w := range h {
		r += fmt.Sprintf("[%v]=%d ", w.start, w.sum)
	}
	return r
}

func show(h []metric.Counter, t0 time.Time) string {
	s := ""
	for i := range h {
		s += fmt.Sprintf("[%v]=%d ", h[i].Start().Sub(t0), h[i].Value())
	}
	return s
}

type counterT interface {
	metric.CounterI
	History() []metric.Counter
	HistoryInclusive() []metric.Counter
}

type snap struct {
	h []metric.Counter
	s string
}

type run struct {
	h     lib.LinHist
	c     metric.CounterI
	t0    time.Time
	start time.Duration
	snaps []snap
}

// ops: 0 add 1, 1 add 2, 2 value, 3 reset, 4 history, 5 inclusive history
func (r *run) do(thread, op int) {
	now := mc.Elapsed() - r.start
	wc, _ := r.c.(counterT)
	add := func(n int) {
		r.h.Do(thread, fmt.Sprintf("Add(%d)", n), func(x interface{}) (interface{}, string) {
			s := x.(state)
			if s.over(now) {
				s.hist = append(append([]win(nil), s.hist...), s.cur)
				s.cur = win{start: now}
			}
			s.cur.sum += n
			return s, ""
		}, func() string { r.c.Add(uint(n)); return "" })
	}
	switch op {
	case 0, 1:
		add(op + 1)
	case 2:
		r.h.Do(thread, "Value", func(x interface{}) (interface{}, string) {
			s := x.(state)
			if s.over(now) {
				return s, "0"
			}
			return s, fmt.Sprint(s.cur.sum)
		}, func() string { return fmt.Sprint(r.c.Value()) })
	case 3:
		r.h.Do(thread, "Reset", func(x interface{}) (interface{}, string) {
			return state{cur: win{start: now}, dur: x.(state).dur}, ""
		}, func() string { r.c.Reset(); return "" })
	case 4, 5:
		name := []string{"History", "HistoryInclusive"}[op-4]
		r.h.Do(thread, name, func(x interface{}) (interface{}, string) {
			return x, x.(state).show(now, op == 5)
		}, func() string {
			var h []metric.Counter
			if op == 4 {
				h = wc.History()
			} else {
				h = wc.HistoryInclusive()
			}
			s := show(h, r.t0)
			r.snaps = append(r.snaps, snap{h, s})
			return s
		})
	}
}

func (r *run) finish(init state, progs string) {
	// what everybody sees at the end
	r.do(9, 2)
	if r.snaps != nil || init.dur > 0 {
		r.do(9, 5)
	}
	if !r.h.Linearizable(init) {
		mc.Fail("linearizability", "%s: no sequential order explains %s", progs, r.h.String())
	}
	for _, s := range r.snaps {
		if now := show(s.h, r.t0); now != s.s {
			mc.Fail("copy", "%s: a history changed after it was returned: %s, was %s", progs, now, s.s)
		}
	}
	mc.Outcome(progs + r.h.Outcome())
}

// programs runs all programs of the given shape concurrently.
func programs(windowed, rt bool, threads, ops, nops int, prefix bool) func() {
	return func() {
		r := &run{start: mc.Elapsed(), t0: mc.TimeNow()}
		r.h.RealTime = rt
		init := state{}
		if windowed {
			r.c = metric.NewConcurrentWindowedCounter(window)
			init.dur = window
		} else {
			r.c = metric.NewConcurrentCounter()
		}
		desc := ""
		if windowed && prefix {
			// a history exists, and the current window may be over
			r.do(8, 1)
			mc.Sleep(11 * ms)
			r.do(8, 0)
			mc.Sleep(11 * ms)
			r.do(8, 0)
			if mc.Choose(2, "window") == 1 {
				mc.Sleep(11 * ms)
				desc = "closed: "
			}
		}
		prog := make([][]int, threads)
		for i := range prog {
			for k := 0; k < ops; k++ {
				op := mc.Choose(nops, "op")
				if windowed && nops == 4 { // writers and readers that matter most with windows
					op = []int{0, 2, 4, 5}[op]
				}
				prog[i] = append(prog[i], op)
			}
		}
		desc += fmt.Sprint(prog, " ")
		var j lib.Join
		for i := range prog {
			i := i
			j.Go(fmt.Sprint("user", i), func() {
				for _, op := range prog[i] {
					r.do(i, op)
				}
			})
		}
		j.Wait()
		r.finish(init, desc)
	}
}

func main() {
	cfg := mc.Config{Race: true, MapOrders: 1}
	lib.Main("C23", []lib.Scenario{
		{Name: "counter-2x2", What: "2 goroutines with 2 calls each, all programs over Add(1), Add(2), Value, Reset on a concurrent counter, real-time order explored", Cfg: cfg, Body: programs(false, true, 2, 2, 4, false)},
		{Name: "counter-3x2", What: "3 goroutines with 2 calls each, all programs over Add(1), Add(2), Value on a concurrent counter", Weight: 2, Cfg: cfg, Body: programs(false, false, 3, 2, 3, false)},
		{Name: "windowed-2x2", What: "2 goroutines with 2 calls each, all programs over the six operations of a concurrent windowed counter, window open or over", Weight: 2, Cfg: cfg, Body: programs(true, false, 2, 2, 6, true)},
		{Name: "windowed-2x2-fresh", What: "the same on a new counter, real-time order explored", Weight: 2, Cfg: cfg, Body: programs(true, true, 2, 2, 4, false)},
		{Name: "windowed-3x1", What: "3 goroutines with one call each, all programs over the six operations, window open or over", Cfg: cfg, Body: programs(true, true, 3, 1, 6, true)},
		{Name: "windowed-2x3", Thorough: true, What: "2 goroutines with 3 calls each over Add, Value, History, HistoryInclusive", Weight: 2, Cfg: cfg, Body: programs(true, false, 2, 3, 4, true)},
		{Name: "windowed-3x2", Thorough: true, What: "3 goroutines with 2 calls each over Add, Value, History, HistoryInclusive", Weight: 4, Cfg: cfg, Body: programs(true, false, 3, 2, 4, true)},
		{Name: "counter-4x1", What: "4 goroutines with one call each, all programs on a concurrent counter", Cfg: cfg, Body: programs(false, false, 4, 1, 3, false)},
		{Name: "across-windows", What: "two goroutines that add, wait past the end of the window and add or read histories again", Cfg: cfg, Body: func() {
			r := &run{start: mc.Elapsed(), t0: mc.TimeNow(), c: metric.NewConcurrentWindowedCounter(window)}
			var j lib.Join
			a, b := mc.Choose(6, "op"), mc.Choose(6, "op")
			for i, op := range []int{a, b} {
				i, op := i, op
				j.Go(fmt.Sprint("user", i), func() {
					r.do(i, 0)
					mc.Sleep(11 * ms)
					r.do(i, op)
					r.do(i, 4)
				})
			}
			j.Wait()
			r.finish(state{dur: window}, fmt.Sprint("across ", a, b, " "))
		}},
	})
}
