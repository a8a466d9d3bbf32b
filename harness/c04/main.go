//go:build go1.22

package main

import (
	"fmt"
	"strings"
	"syscall"
	"time"

	"github.com/BTBurke/monny/mc/env"
	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/pb"
	"github.com/BTBurke/monny/vh/lib"
	"github.com/BTBurke/monny/vh/monx"
)

const ms = time.Millisecond

// change sets the memory of the command.
type change struct {
	at time.Duration
	kb []uint64
}

// plan is what happens during a run.
type plan struct {
	end    time.Duration // when the command ends on its own
	code   int
	limit  time.Duration // kill timeout
	sig    syscall.Signal
	sigAt  time.Duration
	max    uint64 // memory limit in kB
	maxArg string
	mem    []change
	daemon bool
	traps  bool // the command handles signals and ends successfully
	delay  time.Duration
	args   []string
}

func (p plan) String() string {
	var s []string
	if p.end > 0 {
		s = append(s, fmt.Sprintf("ends at %v with %d", p.end, p.code))
	}
	if p.limit > 0 {
		s = append(s, fmt.Sprintf("kill timeout %v", p.limit))
	}
	if p.sig != 0 {
		s = append(s, fmt.Sprintf("%v at %v", p.sig, p.sigAt))
	}
	if p.max > 0 {
		s = append(s, fmt.Sprintf("memory limit %d kB, memory %v", p.max, p.mem))
	}
	if p.daemon {
		s = append(s, "daemon")
	}
	if p.traps {
		s = append(s, "handles signals")
	}
	return strings.Join(append(s, p.args...), ", ")
}

// outcome is one way in which a run may go.
type outcome struct {
	at     time.Duration
	killed bool
	reason pb.KillReason
	sig    syscall.Signal
}

const never = time.Duration(1<<63 - 1)

// allowed are the specified outcomes: whatever comes first, any if several
// come at the same time.
func (p plan) allowed() (out []outcome) {
	var all []outcome
	if p.end > 0 {
		all = append(all, outcome{at: p.end})
	}
	if p.limit > 0 {
		all = append(all, outcome{p.limit, true, pb.KillReason_Timeout, syscall.SIGKILL})
	}
	if p.sig != 0 {
		all = append(all, outcome{p.sigAt, true, pb.KillReason_Signal, p.sig})
	}
	if p.max > 0 {
		every := time.Second
		if p.daemon {
			every = 30 * time.Second
		}
		for k := 1; k <= 20; k++ {
			t := every * time.Duration(k)
			var m uint64
			for _, c := range p.mem {
				if c.at < t {
					m = 0
					for _, x := range c.kb {
						m += x
					}
				}
			}
			if m >= p.max {
				all = append(all, outcome{t, true, pb.KillReason_Memory, syscall.SIGKILL})
				break
			}
		}
	}
	first := never
	for _, o := range all {
		if o.at < first {
			first = o.at
		}
	}
	for _, o := range all {
		if o.at == first {
			out = append(out, o)
		}
	}
	return
}

func (p plan) run() {
	world := &env.World{Child: func(c *env.Proc) {
		if p.traps {
			c.OnSignal = func(s syscall.Signal) {}
		}
		if len(p.mem) > 0 && p.mem[0].at == 0 {
			c.Mem(p.mem[0].kb...)
		}
		if p.end == 0 {
			c.Forever()
		}
		c.Sleep(p.end)
		c.Exit(p.code)
	}}
	if p.delay > 0 {
		world.Server = func(a *env.Attempt) env.Reply {
			if a.N == 0 {
				return env.Reply{Nack: true, Delay: p.delay}
			}
			return env.Reply{}
		}
	}
	args := append([]string(nil), p.args...)
	if p.limit > 0 {
		args = append(args, "--timeout-kill", p.limit.String())
	}
	if p.max > 0 {
		a := p.maxArg
		if a == "" {
			a = fmt.Sprint(p.max)
		}
		args = append(args, "--memory-kill", a)
	}
	if p.daemon {
		args = append(args, "--daemon")
	}
	monx.Begin(world, monx.Args(args...)...)
	if p.sig != 0 {
		mc.GoNamed("user", func() {
			mc.Sleep(p.sigAt)
			env.W.Kill(p.sig)
		})
	}
	if len(p.mem) > 1 {
		mc.GoNamed("memory", func() {
			for _, c := range p.mem[1:] {
				mc.Sleep(c.at - env.Elapsed())
				env.W.Procs[0].Mem(c.kb...)
			}
		})
	}
	env.W.AwaitExit()
}

func (p plan) check() {
	w := env.W
	if !w.Exited {
		mc.Fail("crash", "%v: the monitor died: %s", p, w.Died)
	}
	if len(w.Procs) != 1 {
		mc.Fail("start", "%v: %d commands were started", p, len(w.Procs))
	}
	var kills, done []monx.Report
	for _, r := range monx.Received() {
		switch r.ReportReason {
		case pb.ReportReason_Killed:
			kills = append(kills, r)
		case pb.ReportReason_Success, pb.ReportReason_Failure:
			done = append(done, r)
		}
	}
	sigs := w.Procs[0].Signals
	al := p.allowed()
	desc := fmt.Sprintf("%v: %d kill and %d completion reports, signals %v", p, len(kills), len(done), sigs)
	if len(kills)+len(done) != 1 {
		mc.Fail("count", "%s, want one report", desc)
	}
	r := append(kills, done...)[0]
	var o *outcome
	for i := range al {
		if al[i].killed == (len(kills) == 1) && (!al[i].killed || al[i].reason == r.KillReason) {
			o = &al[i]
		}
	}
	if o == nil {
		mc.Fail("outcome", "%s (reason %v at %v), want one of %v", desc, r.KillReason, r.A.At, al)
	}
	if r.Killed != o.killed {
		mc.Fail("flag", "%s: the killed flag is %v", desc, r.Killed)
	}
	if o.killed {
		ended := false
		for _, x := range al {
			ended = ended || !x.killed
		}
		if len(sigs) > 1 || len(sigs) == 0 && !ended || len(sigs) == 1 && sigs[0] != o.sig {
			mc.Fail("signal", "%s, want %v", desc, o.sig)
		}
	} else if len(sigs) > 0 {
		mc.Fail("signal", "%s, want none", desc)
	}
	if r.A.At != o.at && p.delay == 0 {
		mc.Fail("time", "%s at %v, want %v", desc, r.A.At, o.at)
	}
	d, err := time.ParseDuration(r.Duration)
	if err != nil || d < 0 || d != o.at {
		mc.Fail("duration", "%s: the duration is %s, want %v", desc, r.Duration, o.at)
	}
	if n := time.Duration(r.Finish-r.Start) * time.Second; n < 0 || n > d+time.Second || n < d-time.Second {
		mc.Fail("duration", "%s: start %d, finish %d, duration %v", desc, r.Start, r.Finish, d)
	}
	if o.killed && r.Success {
		mc.Fail("flag", "%s: a success", desc)
	}
	mc.Outcome(fmt.Sprintf("%v %v %v", o.killed, o.reason, sigs))
}

var grid = []time.Duration{500 * ms, 1000 * ms, 1500 * ms, 2000 * ms, 3000 * ms}

// timelines: all combinations of the end, the timeout, a signal and memory.
func timelines(c *lib.Cases) {
	sigs := []syscall.Signal{0, syscall.SIGINT, syscall.SIGTERM}
	mems := [][2]uint64{{0, 0}, {999, 999}, {999, 1000}, {999, 5000}, {1000, 0}, {5000, 5000}}
	for _, end := range append([]time.Duration{4200 * ms}, grid...) {
		for _, limit := range append([]time.Duration{0}, grid...) {
			for _, sig := range sigs {
				for si, at := range grid {
					if sig == 0 && si > 0 {
						break
					}
					for mi, m := range mems {
						p := plan{end: end, limit: limit, sig: sig, sigAt: at, code: mi % 2}
						if mi > 0 {
							p.max = 1000
							p.mem = []change{{0, []uint64{m[0]}}, {1200 * ms, []uint64{m[1]}}}
						}
						c.Add(fmt.Sprint(end, limit, sig, at, mi), func() {
							p.run()
							p.check()
							c.State("%v", p)
							c.Step(1)
						})
					}
				}
			}
		}
	}
}

// memory: all series of measurements.
func memory(c *lib.Cases) {
	depth := 4
	if !c.Quick {
		depth = 5
	}
	vals := [][]uint64{{}, {400, 500, 99}, {999, 1}, {2000}, {0, 999}}
	for cfg := 0; cfg < 4; cfg++ {
		c.Seqs(fmt.Sprint(cfg, " "), len(vals), depth, func(seq []int) func() {
			return func() {
				p := plan{max: 1000, maxArg: []string{"1M", "1000", "1000K", ""}[cfg], daemon: cfg == 3}
				every := time.Second
				if p.daemon {
					every = 30 * time.Second
				}
				for i, k := range seq {
					at := every * time.Duration(i)
					if i > 0 {
						at += every / 3
					}
					p.mem = append(p.mem, change{at, vals[k]})
				}
				p.end = every*time.Duration(len(seq)) + every/2
				p.run()
				p.check()
				c.State("%d %v", cfg, seq)
				c.Step(len(seq))
			}
		})
	}
}

// timeouts: timeouts and durations in all units, very short and long ones.
func timeouts(c *lib.Cases) {
	ds := []time.Duration{1, time.Microsecond, 1 * ms, 999 * ms, time.Second, 1001 * ms, 59 * time.Second, 61 * time.Second, 10 * time.Minute, time.Hour}
	for _, limit := range append(ds, 0) {
		for _, end := range ds {
			if limit > time.Minute && end > 2*time.Minute && limit != end && c.Quick {
				continue
			}
			p := plan{limit: limit, end: end, code: 2}
			c.Add(fmt.Sprint(limit, end), func() {
				p.run()
				p.check()
				c.State("%v", p)
				c.Step(1)
			})
		}
	}
}

// others: commands that handle signals, slow servers, other options.
func others(c *lib.Cases) {
	for _, traps := range []bool{false, true} {
		for _, delay := range []time.Duration{0, 5 * time.Second, 20 * time.Minute} {
			for how := 0; how < 5; how++ {
				for oi, args := range [][]string{nil, {"--no-notify-on-success", "--no-notify-on-failure"}, {"--creates", "/none", "--timeout-warn", "1s", "--memory-warn", "1"}, {"--rule", "x", "--daemon"}} {
					p := plan{end: 7 * time.Second, traps: traps, delay: delay, args: args}
					switch how {
					case 0:
						p.limit = 2500 * ms
					case 1:
						p.sig, p.sigAt = syscall.SIGINT, 2500*ms
					case 2:
						p.sig, p.sigAt = syscall.SIGTERM, 2500*ms
					case 3:
						if oi == 3 {
							continue
						}
						p.max, p.mem = 10, []change{{0, []uint64{5, 5}}}
					case 4:
						p.end = 0
						p.limit = 5 * time.Second
						p.sig, p.sigAt = syscall.SIGTERM, 2500*ms
					}
					c.Add(fmt.Sprint(traps, delay, how, oi), func() {
						p.run()
						p.check()
						for _, r := range monx.Received() {
							if r.ReportReason == pb.ReportReason_FileNotCreated {
								mc.Fail("files", "%v: a missing file of a killed command was reported", p)
							}
						}
						c.State("%v %v %d %d", traps, delay, how, oi)
						c.Step(1)
					})
				}
			}
		}
	}
}

func body(p plan) func() {
	return func() {
		p.run()
		p.check()
	}
}

func main() {
	cfg := mc.Config{LeaksOK: true}
	over := []change{{0, []uint64{2000}}}
	lib.Main("C04", []lib.Scenario{
		{Name: "timelines", Weight: 4, What: "all combinations of end, kill timeout, signal and memory on a grid of times", Seq: timelines},
		{Name: "memory", Weight: 3, What: "all series of 4 (5) measurements of 5 values with several limits", Seq: memory},
		{Name: "timeouts", What: "timeouts and run times from nanoseconds to hours", Seq: timeouts},
		{Name: "others", What: "commands that handle signals, slow servers and other options", Seq: others},
		{Name: "end-timeout", Cfg: cfg, MaxBound: 3, What: "schedules of end and timeout at the same time", Body: body(plan{end: 500 * ms, limit: 500 * ms})},
		{Name: "end-signal", Cfg: cfg, MaxBound: 3, What: "schedules of end and signal at the same time", Body: body(plan{end: 500 * ms, sig: syscall.SIGTERM, sigAt: 500 * ms})},
		{Name: "end-memory", Cfg: cfg, MaxBound: 3, What: "schedules of end and memory limit at the same time", Body: body(plan{end: time.Second, max: 1000, mem: over})},
		{Name: "timeout-signal", Cfg: cfg, MaxBound: 3, What: "schedules of timeout and signal at the same time", Body: body(plan{limit: 500 * ms, sig: syscall.SIGINT, sigAt: 500 * ms})},
		{Name: "all", Cfg: cfg, MaxBound: 3, Weight: 2, What: "schedules of end, timeout, signal and memory limit at the same time", Body: body(plan{end: time.Second, code: 3, limit: time.Second, sig: syscall.SIGTERM, sigAt: time.Second, max: 1000, mem: over})},
		{Name: "signal-and-warnings", Cfg: cfg, MaxBound: 3, Weight: 2, What: "schedules of a signal and both warnings at the same time, the command does not end by itself", Body: body(plan{sig: syscall.SIGTERM, sigAt: time.Second, mem: over, args: []string{"--timeout-warn", "1s", "--memory-warn", "1M"}})},
		{Name: "timeout-and-warnings", Cfg: cfg, MaxBound: 3, Weight: 2, What: "schedules of the timeout and both warnings at the same time", Body: body(plan{limit: time.Second, mem: over, args: []string{"--timeout-warn", "1s", "--memory-warn", "1M"}})},
	})
}
