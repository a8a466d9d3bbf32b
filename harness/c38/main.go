//go:build go1.22

package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"syscall"
	"time"

	"github.com/BTBurke/monny/mc/env"
	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/eventbus"
	"github.com/BTBurke/monny/pkg/monny/proc"
	"github.com/BTBurke/monny/pkg/pb"
	"github.com/BTBurke/monny/vh/lib"
	"github.com/BTBurke/monny/vh/monx"
)

const (
	ms = time.Millisecond
	// at once: nothing but the passing of no time is needed
	slack = 50 * ms
)

// step is something the program does.
type step struct {
	gap  time.Duration
	err  bool
	text string
	kb   uint64 // memory from now on
}

// plan is a run of the client.
type plan struct {
	steps  []step
	tail   time.Duration // sleeps before the end
	end    int           // an exit status, or never, or the signal by which it dies
	daemon bool
	args   []string
	server func(a *env.Attempt, r monx.Report) env.Reply
	term   time.Duration // the monitor gets a termination signal
	files  map[string]*env.FileData

	warn, limit  time.Duration
	mwarn, mkill uint64
	missing      int

	wrote [2][]mark
	over  [2]time.Duration
	mems  []mark
	endAt time.Duration
}

type mark struct {
	at   time.Duration
	text string
	kb   uint64
}

const forever = -1

func (p *plan) String() string {
	var s []string
	for _, x := range p.steps {
		switch {
		case x.kb > 0:
			s = append(s, fmt.Sprintf("%v: memory %d kB", x.gap, x.kb))
		default:
			s = append(s, fmt.Sprintf("%v: %s on %d", x.gap, monx.Short(x.text), 1+lib.Bit(x.err)))
		}
	}
	return fmt.Sprintf("[%s; %v, end %d] daemon %v %s", strings.Join(s, ", "), p.tail, p.end, p.daemon, strings.Join(p.args, " "))
}

func (p *plan) child(c *env.Proc) {
	c.Mem(100)
	p.mems = append(p.mems, mark{env.Elapsed(), "", 100})
	for _, s := range p.steps {
		if s.gap > 0 {
			c.Sleep(s.gap)
		}
		switch {
		case s.kb > 0:
			c.Mem(s.kb)
			p.mems = append(p.mems, mark{env.Elapsed(), "", s.kb})
		case s.text == "":
		case s.err:
			p.wrote[1] = append(p.wrote[1], mark{env.Elapsed(), s.text, 0})
			c.Stderr(s.text)
		default:
			p.wrote[0] = append(p.wrote[0], mark{env.Elapsed(), s.text, 0})
			c.Stdout(s.text)
		}
	}
	if p.tail > 0 {
		c.Sleep(p.tail)
	}
	if p.end == forever {
		c.Forever()
	}
	c.Exit(p.end)
}

func (p *plan) run() {
	args := append([]string(nil), p.args...)
	if p.daemon {
		args = append(args, "--daemon")
	}
	if p.warn > 0 {
		args = append(args, "--timeout-warn", p.warn.String())
	}
	if p.limit > 0 {
		args = append(args, "--timeout-kill", p.limit.String())
	}
	if p.mwarn > 0 {
		args = append(args, "--memory-warn", fmt.Sprint(p.mwarn))
	}
	if p.mkill > 0 {
		args = append(args, "--memory-kill", fmt.Sprint(p.mkill))
	}
	w := &env.World{Child: p.child, Files: p.files}
	if p.server != nil {
		w.Server = func(a *env.Attempt) env.Reply { return p.server(a, monx.Decode(a)) }
	}
	monx.Begin(w, monx.Args(args...)...)
	if p.term > 0 {
		mc.GoNamed("user", func() {
			mc.Sleep(p.term)
			if !w.Exited {
				w.Kill(syscall.SIGTERM)
			}
		})
	}
	w.AwaitExit()
	p.endAt = env.Elapsed()
	if !w.Exited {
		mc.Fail("crash", "%s: the monitor died: %s", p, w.Died)
	}
	if len(w.Procs) != 1 {
		mc.Fail("run", "%s: %d programs were run", p, len(w.Procs))
	}
}

// echo checks that every line was echoed when it was complete.
func (p *plan) echo() {
	ended := env.W.Procs[0].Ended
	for fd := 1; fd <= 2; fd++ {
		var text strings.Builder
		var at []time.Duration
		for _, m := range p.wrote[fd-1] {
			text.WriteString(m.text)
			for range []byte(m.text) {
				at = append(at, m.at)
			}
		}
		var out strings.Builder
		var when []time.Duration
		for _, c := range env.W.Output {
			if c.FD == fd {
				out.WriteString(c.Data)
				for range []byte(c.Data) {
					when = append(when, c.At)
				}
			}
		}
		t := text.String()
		if len(t) > 0 && !strings.HasSuffix(t, "\n") {
			t += "\n"
			at = append(at, ended)
		}
		if out.String() != t {
			mc.Fail("echo", "%s: output %d is %s, the program wrote %s", p, fd, monx.Short(out.String()), monx.Short(t))
		}
		// a line is complete when its end has been written
		due := ended
		for i := len(t) - 1; i >= 0; i-- {
			if t[i] == '\n' {
				due = at[i]
			}
			if when[i] > due+slack {
				mc.Fail("echo-late", "%s: the line written to %d at %v was echoed at %v", p, fd, due, when[i])
			}
		}
	}
}

// lines are the lines of the output with the times when they were complete.
func (p *plan) lines() (out []mark) {
	ended := env.W.Procs[0].Ended
	for s := range p.wrote {
		cur := ""
		for _, m := range p.wrote[s] {
			for _, x := range strings.SplitAfter(m.text, "\n") {
				cur += x
				if strings.HasSuffix(cur, "\n") {
					out = append(out, mark{m.at, strings.TrimSuffix(cur, "\n"), 0})
					cur = ""
				}
			}
		}
		if cur != "" {
			out = append(out, mark{ended, cur, 0})
		}
	}
	return
}

// sent finds an attempt to deliver a report at a time.
func (p *plan) sent(reason pb.ReportReason, at time.Duration, ok func(r monx.Report) bool) bool {
	for _, a := range env.W.Attempts {
		if a.At < at || a.At > at+slack {
			continue
		}
		if r := monx.Decode(a); r.ReportReason == reason && (ok == nil || ok(r)) {
			return true
		}
	}
	return false
}

func (p *plan) all() string {
	var out []string
	for _, a := range env.W.Attempts {
		r := monx.Decode(a)
		out = append(out, fmt.Sprintf("%v %s %q", a.At, r.ReportReason, r.Lines()))
	}
	return strings.Join(out, ", ")
}

func (p *plan) every() time.Duration {
	if p.daemon {
		return 30 * time.Second
	}
	return time.Second
}

// reports checks that everything that came due was sent at once.
func (p *plan) reports(reason pb.ReportReason, rule string) {
	ended := env.W.Procs[0].Ended
	need := func(reason pb.ReportReason, at time.Duration, what string, ok func(r monx.Report) bool) {
		// without the daemon option this may wait for the end of the program
		if p.sent(reason, at, ok) || !p.daemon && p.sent(reason, ended, ok) {
			return
		}
		if !p.daemon {
			for _, a := range env.W.Attempts {
				if r := monx.Decode(a); a.At >= at && a.At <= ended+slack && r.ReportReason == reason && (ok == nil || ok(r)) {
					return
				}
			}
		}
		mc.Fail("report-late", "%s: %s was due at %v, the program ended at %v, sent were: %s", p, what, at, ended, p.all())
	}
	if rule != "" {
		for _, l := range p.lines() {
			if strings.Contains(l.text, rule) {
				l := l
				need(reason, l.at, fmt.Sprintf("a report about the line %q", l.text), func(r monx.Report) bool {
					for _, m := range r.Matched {
						if m.Line == l.text {
							return true
						}
					}
					return false
				})
			}
		}
	}
	if p.warn > 0 && p.warn < ended {
		need(pb.ReportReason_TimeWarning, p.warn, "the time warning", nil)
	}
	kill := time.Duration(-1)
	first := func(limit uint64) time.Duration {
		for t := p.every(); t < ended+p.every(); t += p.every() {
			var now uint64
			tie := false
			for _, m := range p.mems {
				if m.at < t {
					now = m.kb
				}
				tie = tie || m.at == t
			}
			if tie {
				return -1
			}
			if now >= limit {
				return t
			}
		}
		return -1
	}
	if p.mwarn > 0 {
		if t := first(p.mwarn); t > 0 && t < ended {
			need(pb.ReportReason_MemoryWarning, t, "the memory warning", nil)
		}
	}
	for _, t := range []time.Duration{p.limit, p.term} {
		if t > 0 && t <= ended && (kill < 0 || t < kill) {
			kill = t
		}
	}
	if p.mkill > 0 {
		if t := first(p.mkill); t > 0 && t <= ended && (kill < 0 || t < kill) {
			kill = t
		}
	}
	switch {
	case kill >= 0:
		if ended > kill+slack {
			mc.Fail("kill-late", "%s: to be killed at %v, ended at %v", p, kill, ended)
		}
		if !p.sent(pb.ReportReason_Killed, kill, nil) {
			mc.Fail("report-late", "%s: killed at %v, sent were: %s", p, kill, p.all())
		}
	default:
		completion := pb.ReportReason_Failure
		if p.end == 0 {
			completion = pb.ReportReason_Success
		}
		if !p.sent(completion, ended, nil) {
			mc.Fail("report-late", "%s: the program ended at %v, sent were: %s", p, ended, p.all())
		}
		for i := 0; i < p.missing; i++ {
			name := fmt.Sprintf("/missing%d", i)
			if !p.sent(pb.ReportReason_FileNotCreated, ended, func(r monx.Report) bool {
				return strings.Contains(strings.Join(r.Messages, " "), name)
			}) {
				mc.Fail("report-late", "%s: the file %s was missing at %v, sent were: %s", p, name, ended, p.all())
			}
		}
	}
}

// exit checks that the monitor exits when all reports are delivered or given up.
func (p *plan) exit() {
	last := env.W.Procs[0].Ended
	for _, a := range env.W.Attempts {
		t := a.Done
		if a.Outcome == "" {
			t = a.At + time.Hour
		}
		if t > last {
			last = t
		}
	}
	if p.endAt > last+slack {
		mc.Fail("exit-late", "%s: the program ended at %v and the last report was decided at %v, the monitor exited at %v", p, env.W.Procs[0].Ended, last, p.endAt)
	}
}

// texts: everything a program may write, with and without pauses.
func texts(c *lib.Cases) {
	gaps := []time.Duration{0, 10 * time.Second}
	ts := []string{"ax\n", "b", "c\ndx\n", "\n"}
	hang := func(a *env.Attempt, r monx.Report) env.Reply {
		return env.Reply{Hang: r.ReportReason == pb.ReportReason_Alert}
	}
	fail := func(a *env.Attempt, r monx.Report) env.Reply {
		if a.N < 3 {
			return env.Reply{Err: errors.New("rpc error: code = Unavailable desc = down")}
		}
		return env.Reply{}
	}
	modes := []func() *plan{
		func() *plan { return &plan{} },
		func() *plan { return &plan{daemon: true, args: []string{"--rule", "x"}} },
		func() *plan { return &plan{daemon: true, args: []string{"--rule", "x"}, server: hang} },
		func() *plan { return &plan{args: []string{"--rule", "x", "--stdout-history", "0"}, server: hang} },
		func() *plan { return &plan{daemon: true, args: []string{"--rule", "x"}, server: fail} },
		func() *plan { return &plan{args: []string{"--rule", "x"}} },
	}
	for mi := range modes {
		mi := mi
		depth := c.Depth(2, 3)
		if mi == 0 {
			depth = 3
		}
		for n := 1; n <= depth; n++ {
			c.Seqs(fmt.Sprintf("m%d", mi), len(gaps)*len(ts)*2, n, func(seq []int) func() {
				seq = append([]int(nil), seq...)
				return func() {
					p := modes[mi]()
					for _, k := range seq {
						p.steps = append(p.steps, step{gap: gaps[k&1], err: k&2 > 0, text: ts[k>>2]})
					}
					p.tail = 5 * time.Second
					p.run()
					p.echo()
					rule := "x"
					if mi == 0 {
						rule = ""
					}
					p.reports(pb.ReportReason_Alert, rule)
					p.exit()
					c.Step(n)
					c.State("%d %d %d %d", mi, n, len(env.W.Output), len(env.W.Attempts))
				}
			})
		}
	}
}

// timelines: what comes due, with reports that can not be delivered.
func timelines(c *lib.Cases) {
	servers := []struct {
		name string
		f    func(a *env.Attempt, r monx.Report) env.Reply
	}{
		{"ok", nil},
		{"alerts hang", func(a *env.Attempt, r monx.Report) env.Reply {
			return env.Reply{Hang: r.ReportReason == pb.ReportReason_Alert}
		}},
		{"warnings hang", func(a *env.Attempt, r monx.Report) env.Reply {
			return env.Reply{Hang: r.ReportReason == pb.ReportReason_TimeWarning || r.ReportReason == pb.ReportReason_MemoryWarning}
		}},
		{"first hangs", func(a *env.Attempt, r monx.Report) env.Reply { return env.Reply{Hang: a.N == 0} }},
		{"all hang", func(a *env.Attempt, r monx.Report) env.Reply { return env.Reply{Hang: true} }},
		{"slow", func(a *env.Attempt, r monx.Report) env.Reply { return env.Reply{Delay: 7 * time.Second} }},
		{"down at first", func(a *env.Attempt, r monx.Report) env.Reply {
			if a.At < 40*time.Second {
				return env.Reply{Err: errors.New("rpc error: code = Unavailable desc = down")}
			}
			return env.Reply{}
		}},
	}
	steps := []step{{gap: 3300 * ms, text: "x\n"}, {gap: 40300 * ms, err: true, text: "y\n"}, {gap: 300 * ms, kb: 5000}, {text: "an x\nb\n", gap: 35 * time.Second}}
	ends := []func(p *plan){
		func(p *plan) { p.tail = 33 * time.Second },
		func(p *plan) { p.end, p.tail = 3, 500*ms },
		func(p *plan) {
			p.missing, p.args = 2, append(p.args, "--creates", "/missing0", "--creates", "/missing1")
		},
		func(p *plan) { p.end, p.limit = forever, 61*time.Second },
		func(p *plan) { p.end, p.mkill, p.tail = 0, 5000, 95*time.Second },
		func(p *plan) { p.end, p.term = forever, 70500*ms },
	}
	for si := range servers {
		for ei := range ends {
			for d := 0; d < 2; d++ {
				for n := 1; n <= c.Depth(2, 4); n++ {
					si, ei, d, n := si, ei, d, n
					c.Seqs(fmt.Sprintf("s%de%dd%d", si, ei, d), len(steps), n, func(seq []int) func() {
						seq = append([]int(nil), seq...)
						return func() {
							p := &plan{daemon: d == 1, args: []string{"--rule", "x"}, server: servers[si].f, warn: 20200 * ms, mwarn: 4000}
							for _, k := range seq {
								p.steps = append(p.steps, steps[k])
							}
							ends[ei](p)
							p.run()
							p.echo()
							p.reports(pb.ReportReason_Alert, "x")
							p.exit()
							c.Step(n)
							c.State("%d %d %d %d %s", si, ei, d, n, p.all())
						}
					})
				}
			}
		}
	}
}

// long: daemons that run for days.
func long(c *lib.Cases) {
	for _, days := range []int{1, c.Depth(2, 5)} {
		for _, gap := range []time.Duration{time.Minute, 7*time.Hour + time.Second} {
			for rate := 0; rate < 2; rate++ {
				days, gap, rate := days, gap, rate
				c.Add(fmt.Sprint(days, gap, rate), func() {
					p := &plan{daemon: true, args: []string{"--rule", "x"}, warn: 25 * time.Hour}
					cfg, reason := "x\n", pb.ReportReason_Alert
					if rate == 1 {
						reason = pb.ReportReason_AlertRate
						p.args = []string{"-c", "/rate.yml"}
						p.files = map[string]*env.FileData{"/rate.yml": {Data: []byte("rule: x\n")}}
						reason = pb.ReportReason_Alert
					}
					n := 0
					for at := time.Duration(0); at < time.Duration(days)*24*time.Hour; at += gap {
						n++
						if n%9 == 0 || gap > time.Hour {
							p.steps = append(p.steps, step{gap: gap, err: n%2 == 0, text: fmt.Sprintf("%d %s", n, cfg)})
						} else {
							p.steps = append(p.steps, step{gap: gap, err: n%2 == 0, text: fmt.Sprintf("%d\n", n)})
						}
					}
					p.run()
					p.echo()
					p.reports(reason, "x")
					p.exit()
					c.Step(n)
					c.State("%d %v %d", days, gap, len(env.W.Attempts))
				})
			}
		}
	}
}

// logs: the log processor publishes and echoes a line as soon as it is complete.
func logs(c *lib.Cases) {
	ts := []string{"a\n", "b", "c\nd\n", "\n"}
	for n := 1; n <= c.Depth(3, 4); n++ {
		c.Seqs("l", 2*2*len(ts), n, func(seq []int) func() {
			seq = append([]int(nil), seq...)
			return func() {
				p := &plan{}
				for _, k := range seq {
					p.steps = append(p.steps, step{gap: time.Duration(k&1) * 10 * time.Second, err: k&2 > 0, text: ts[k>>2]})
				}
				p.tail = 5 * time.Second
				env.Reset(&env.World{Child: p.child})
				bus := eventbus.New()
				var got []mark
				ch, done := bus.Subscribe(proc.LogTopic)
				mc.GoNamed("log subscriber", func() {
					defer done()
					for {
						e, ok := mc.Recv2(ch)
						if !ok {
							return
						}
						var l proc.LogEvent
						if err := e.Decode(&l); err != nil {
							mc.Fail("events", "%v", err)
						}
						got = append(got, mark{env.Elapsed(), string(l.Line), 0})
					}
				})
				cmd := env.Command("prog")
				l, err := proc.NewLogProcessor(bus, proc.WithCommand(cmd))
				if err != nil {
					mc.Fail("create", "%v", err)
				}
				if err := cmd.Start(); err != nil {
					mc.Fail("create", "%v", err)
				}
				ctx, cancel := mc.WithTimeout(context.Background(), time.Hour)
				defer cancel()
				if err := l.Wait(ctx); err != nil {
					mc.Fail("wait", "%v", err)
				}
				waited := env.Elapsed()
				mc.Settle()
				if at := env.W.Procs[0].Ended; waited > at+slack {
					mc.Fail("wait-late", "%s: the program ended at %v, waiting at %v", p, at, waited)
				}
				p.echo()
				used := make([]bool, len(got))
			next:
				for _, w := range p.lines() {
					for i, g := range got {
						if !used[i] && g.text == w.text && g.at >= w.at && g.at <= w.at+slack {
							used[i] = true
							continue next
						}
					}
					mc.Fail("event-late", "%s: the line %q was complete at %v, the events are %v", p, w.text, w.at, got)
				}
				bus.Shutdown(ctx)
				c.Step(n)
				c.State("%d %d", n, len(got))
			}
		})
	}
}

// schedule explores the schedules of a run.
func schedule(mk func() *plan, rule string) func() {
	return func() {
		p := mk()
		p.run()
		p.echo()
		p.reports(pb.ReportReason_Alert, rule)
		p.exit()
		mc.Outcome(fmt.Sprint(monx.Reasons(monx.Received()), len(env.W.Attempts)))
	}
}

func main() {
	cfg := mc.Config{Race: true, LeaksOK: true}
	first := func(a *env.Attempt, r monx.Report) env.Reply {
		if a.N == 0 {
			return env.Reply{Delay: 5 * time.Second}
		}
		return env.Reply{}
	}
	lib.Main("C38", []lib.Scenario{
		{Name: "texts", Weight: 3, What: "all sequences of up to 3 pieces of output (complete, partial and several lines, on both streams, at once or after a pause), with alerts that are delivered, hang or fail", Seq: texts},
		{Name: "timelines", Weight: 3, What: "all sequences of up to 2 (4) of matching lines, other lines and memory growth, with warnings, six ways to end and seven behaviours of the server", Seq: timelines},
		{Name: "long", What: "daemons that run for days", Seq: long},
		{Name: "logs", Weight: 2, What: "log processors: all sequences of up to 3 (4) pieces", Seq: logs},
		{Name: "held-alert", Cfg: cfg, MaxBound: 3, Weight: 2, What: "schedules of a line while an alert is held by the server", Body: schedule(func() *plan {
			return &plan{daemon: true, args: []string{"--rule", "x"}, server: first, steps: []step{{text: "x1\n"}, {gap: time.Second, text: "x2\n"}}, tail: time.Second}
		}, "x")},
		{Name: "held-both", Cfg: cfg, MaxBound: 3, Weight: 2, What: "schedules of lines on both streams while an alert is held by the server", Body: schedule(func() *plan {
			return &plan{daemon: true, args: []string{"--rule", "x"}, server: first, steps: []step{{text: "x1\n"}, {gap: time.Second, text: "x2\n"}, {err: true, text: "y\n"}}, end: 3}
		}, "x")},
		{Name: "held-warning", Cfg: cfg, MaxBound: 3, Weight: 2, What: "schedules of a warning held by the server and a kill", Body: schedule(func() *plan {
			return &plan{daemon: true, server: first, warn: time.Second, limit: 2 * time.Second, end: forever, steps: []step{{gap: time.Second, text: "a\n"}}}
		}, "")},
	})
}
