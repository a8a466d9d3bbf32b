//go:build go1.22

package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/BTBurke/monny/mc/env"
	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/pb"
	"github.com/BTBurke/monny/vh/lib"
	"github.com/BTBurke/monny/vh/monx"
)

const ms = time.Millisecond

type change struct {
	at time.Duration
	kb []uint64
}

type plan struct {
	end    time.Duration
	code   int
	warn   time.Duration // time warning
	limit  time.Duration // kill timeout
	mwarn  uint64
	mkill  uint64
	units  string
	mem    []change
	daemon bool
	server func(a *env.Attempt) env.Reply
	args   []string
}

func (p plan) String() string {
	return fmt.Sprintf("command that ends at %v, time warning %v, kill timeout %v, memory warning %d kB, memory limit %d kB, memory %v, daemon %v %s", p.end, p.warn, p.limit, p.mwarn, p.mkill, p.mem, p.daemon, strings.Join(p.args, " "))
}

func (p plan) every() time.Duration {
	if p.daemon {
		return 30 * time.Second
	}
	return time.Second
}

// at is the memory that a check at t measures.
func (p plan) at(t time.Duration) (m uint64) {
	for _, c := range p.mem {
		if c.at < t {
			m = 0
			for _, x := range c.kb {
				m += x
			}
		}
	}
	return
}

func (p plan) run() {
	world := &env.World{Server: p.server, Child: func(c *env.Proc) {
		if len(p.mem) > 0 && p.mem[0].at == 0 {
			c.Mem(p.mem[0].kb...)
		} else {
			c.Mem()
		}
		c.Sleep(p.end)
		c.Exit(p.code)
	}}
	args := append([]string(nil), p.args...)
	mem := func(n uint64) string {
		switch p.units {
		case "K":
			return fmt.Sprint(n, "K")
		case "M":
			return fmt.Sprint(n/1000, "M")
		}
		return fmt.Sprint(n)
	}
	if p.warn > 0 {
		args = append(args, "--timeout-warn", p.warn.String())
	}
	if p.limit > 0 {
		args = append(args, "--timeout-kill", p.limit.String())
	}
	if p.mwarn > 0 {
		args = append(args, "--memory-warn", mem(p.mwarn))
	}
	if p.mkill > 0 {
		args = append(args, "--memory-kill", mem(p.mkill))
	}
	if p.daemon {
		args = append(args, "--daemon")
	}
	monx.Begin(world, monx.Args(args...)...)
	if len(p.mem) > 1 {
		mc.GoNamed("memory", func() {
			for _, c := range p.mem[1:] {
				mc.Sleep(c.at - env.Elapsed())
				env.W.Procs[0].Mem(c.kb...)
			}
		})
	}
	env.W.AwaitExit()
}

func (p plan) check() {
	w := env.W
	if !w.Exited {
		mc.Fail("crash", "%v: the monitor died: %s", p, w.Died)
	}
	// the specification: what happens in time
	stop := p.end
	stopped := false
	if p.limit > 0 && p.limit <= stop {
		stop, stopped = p.limit, p.limit < p.end
	}
	var memAt, killAt time.Duration
	var max, maybe uint64
	for t := p.every(); t <= stop; t += p.every() {
		m := p.at(t)
		if m > maybe {
			maybe = m
		}
		if t < stop && m > max {
			max = m
		}
		if p.mwarn > 0 && m >= p.mwarn && memAt == 0 {
			memAt = t
		}
		if p.mkill > 0 && m >= p.mkill {
			killAt = t
			break
		}
	}
	certain := killAt > 0 && killAt < stop
	if certain {
		stop, stopped = killAt, true
		max = maybe
	}
	tieKill := killAt > 0 && killAt == stop || p.limit > 0 && p.limit == p.end && p.end == stop
	var times, mems, kills, ends []monx.Report
	for _, r := range monx.Received() {
		switch r.ReportReason {
		case pb.ReportReason_TimeWarning:
			times = append(times, r)
		case pb.ReportReason_MemoryWarning:
			mems = append(mems, r)
		case pb.ReportReason_Killed:
			kills = append(kills, r)
		case pb.ReportReason_Success, pb.ReportReason_Failure:
			ends = append(ends, r)
		}
	}
	desc := fmt.Sprintf("%v: %s", p, monx.Reasons(monx.Received()))
	// a warning at the time of the end may or may not be seen
	count := func(what string, n int, at time.Duration, certain bool) {
		lo, hi := 0, 0
		if at > 0 && at <= stop {
			hi = 1
			if at < stop || certain {
				lo = 1
			}
		}
		if n < lo || n > hi {
			mc.Fail("count", "%s: %d %s warnings, want %d to %d", desc, n, what, lo, hi)
		}
	}
	count("time", len(times), p.warn, false)
	// the check that finds the limit exceeded warns, too
	count("memory", len(mems), memAt, certain && killAt == memAt)
	for _, r := range append(append([]monx.Report(nil), times...), mems...) {
		if r.Killed || r.Success {
			mc.Fail("flag", "%s: a warning has the flags killed %v, success %v", desc, r.Killed, r.Success)
		}
	}
	if p.server == nil {
		for _, r := range times {
			if r.A.At != p.warn {
				mc.Fail("time", "%s: the time warning was sent at %v", desc, r.A.At)
			}
		}
		for _, r := range mems {
			if r.A.At != memAt {
				mc.Fail("time", "%s: the memory warning was sent at %v, want %v", desc, r.A.At, memAt)
			}
			if r.MaxMemory < p.mwarn {
				mc.Fail("max", "%s: the memory warning says %d kB", desc, r.MaxMemory)
			}
		}
	}
	// warnings do not stop a command
	switch {
	case tieKill:
		if len(kills)+len(ends) != 1 {
			mc.Fail("stop", "%s", desc)
		}
	case stopped:
		if len(kills) != 1 || len(ends) != 0 {
			mc.Fail("stop", "%s, want a kill", desc)
		}
	default:
		if len(kills) != 0 || len(ends) != 1 || len(w.Procs[0].Signals) > 0 {
			mc.Fail("stop", "%s, signals %v, want the normal end", desc, w.Procs[0].Signals)
		}
		if int(ends[0].ExitCode) != p.code {
			mc.Fail("stop", "%s: exit status %d, want %d", desc, ends[0].ExitCode, p.code)
		}
		if p.server == nil && ends[0].A.At != p.end {
			mc.Fail("stop", "%s: the end was reported at %v", desc, ends[0].A.At)
		}
	}
	for _, r := range append(kills, ends...) {
		if r.MaxMemory < max || r.MaxMemory > maybe {
			mc.Fail("max", "%s: the maximum memory is %d kB, want %d to %d", desc, r.MaxMemory, max, maybe)
		}
	}
	mc.Outcome(fmt.Sprintf("%d %d %d %d", len(times), len(mems), len(kills), len(ends)))
}

var grid = []time.Duration{500 * ms, 1000 * ms, 1500 * ms, 2000 * ms, 3000 * ms}

// timelines: all combinations of times and limits.
func timelines(c *lib.Cases) {
	for _, end := range append([]time.Duration{4200 * ms}, grid...) {
		for _, warn := range append([]time.Duration{0, 5 * time.Second}, grid...) {
			for _, limit := range append([]time.Duration{0}, grid...) {
				for mode := 0; mode < 8; mode++ {
					p := plan{end: end, warn: warn, limit: limit, code: mode % 3}
					if mode > 0 {
						p.mem = []change{{0, []uint64{500}}, {1200 * ms, []uint64{1000, 1000}}, {2200 * ms, []uint64{700}}}
						p.mwarn = []uint64{0, 400, 500, 501, 2000, 2001, 600, 600}[mode]
					}
					if mode == 6 {
						p.mkill = 2000
					}
					if mode == 7 {
						p.daemon = true
					}
					c.Add(fmt.Sprint(end, warn, limit, mode), func() {
						p.run()
						p.check()
						c.State("%v", p)
						c.Step(1)
					})
				}
			}
		}
	}
}

// memory: all series of measurements.
func memory(c *lib.Cases) {
	depth := 4
	if !c.Quick {
		depth = 6
	}
	vals := [][]uint64{{}, {400, 599}, {999, 1}, {2000}, {3000, 7}}
	for cfg := 0; cfg < 5; cfg++ {
		c.Seqs(fmt.Sprint(cfg, " "), len(vals), depth, func(seq []int) func() {
			return func() {
				p := plan{mwarn: 1000, units: []string{"", "K", "M", "", ""}[cfg], daemon: cfg == 3}
				if cfg == 4 {
					p.mwarn = 0
					p.warn = 1700 * ms
				}
				if cfg == 1 {
					p.mkill = 3000
				}
				for i, k := range seq {
					at := p.every() * time.Duration(i)
					if i > 0 {
						at += p.every() / 3
					}
					p.mem = append(p.mem, change{at, vals[k]})
				}
				p.end = p.every()*time.Duration(len(seq)) + p.every()/2
				p.run()
				p.check()
				c.State("%d %v", cfg, seq)
				c.Step(len(seq))
			}
		})
	}
}

// servers: warnings while earlier reports can not be delivered.
func servers(c *lib.Cases) {
	replies := []env.Reply{{}, {Nack: true}, {Delay: 2500 * ms}, {Nack: true, Delay: 1300 * ms}}
	depth := 4
	if !c.Quick {
		depth = 5
	}
	c.Seqs("", len(replies), depth, func(seq []int) func() {
		return func() {
			p := plan{end: 5500 * ms, warn: 1500 * ms, mwarn: 1000, mem: []change{{0, []uint64{2000}}, {1200 * ms, nil}, {2200 * ms, []uint64{3000}}}}
			p.args = []string{"--rule", "x"}
			p.server = func(a *env.Attempt) env.Reply {
				if a.N < len(seq) {
					return replies[seq[a.N]]
				}
				return env.Reply{}
			}
			p.run()
			p.check()
			c.State("%v", seq)
			c.Step(len(seq))
		}
	})
}

// long runs: warnings stay single however often a limit is exceeded.
func long(c *lib.Cases) {
	for _, daemon := range []bool{false, true} {
		for _, n := range []int{10, 60, 130} {
			for k := 0; k < 3; k++ {
				c.Add(fmt.Sprint(daemon, n, k), func() {
					p := plan{warn: 7 * time.Second, mwarn: 1000, daemon: daemon}
					for i := 0; i < n; i++ {
						at := p.every() * time.Duration(i)
						if i > 0 {
							at += p.every() / 3
						}
						m := uint64(2000 + i)
						if k == 1 && i%2 == 1 || k == 2 && i < n-2 {
							m = 10
						}
						p.mem = append(p.mem, change{at, []uint64{m}})
					}
					p.end = p.every()*time.Duration(n) + p.every()/2
					p.run()
					p.check()
					c.State("%v %d %d", daemon, n, k)
					c.Step(n)
				})
			}
		}
	}
}

func body(p plan) func() {
	return func() {
		p.run()
		p.check()
	}
}

func main() {
	cfg := mc.Config{LeaksOK: true}
	over := []change{{0, []uint64{2000}}}
	lib.Main("C05", []lib.Scenario{
		{Name: "timelines", Weight: 3, What: "all combinations of end, warning time, kill timeout and memory warnings on a grid of times", Seq: timelines},
		{Name: "memory", Weight: 3, What: "all series of 4 (6) measurements of 5 values with several limits", Seq: memory},
		{Name: "servers", What: "all sequences of 4 (5) answers of 4 kinds while limits are exceeded", Seq: servers},
		{Name: "long", What: "long runs in which limits are exceeded many times", Seq: long},
		{Name: "warning-end", Cfg: cfg, MaxBound: 3, What: "schedules of a time warning and the end at the same time", Body: body(plan{end: 500 * ms, warn: 500 * ms})},
		{Name: "memory-end", Cfg: cfg, MaxBound: 3, What: "schedules of a memory warning and the end at the same time", Body: body(plan{end: time.Second, mwarn: 1000, mem: over})},
		{Name: "memory-kill", Cfg: cfg, MaxBound: 3, What: "schedules of a memory warning and a kill by the same check", Body: body(plan{end: 1500 * ms, mwarn: 1000, mkill: 2000, mem: over})},
		{Name: "both", Cfg: cfg, MaxBound: 3, Weight: 2, What: "schedules of both warnings at the same time", Body: body(plan{end: 1500 * ms, warn: time.Second, mwarn: 1000, mem: over})},
		{Name: "twice", Cfg: cfg, MaxBound: 3, What: "schedules of two checks that exceed the limit", Body: body(plan{end: 2500 * ms, mwarn: 1000, mem: over})},
	})
}
