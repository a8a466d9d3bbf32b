//go:build go1.22

package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/BTBurke/monny/mc/env"
	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/monny"
	"github.com/BTBurke/monny/pkg/pb"
	"github.com/BTBurke/monny/vh/lib"
	"github.com/BTBurke/monny/vh/monx"
)

// kind is an answer of the server.
type kind struct {
	name string
	r    env.Reply
	ok   bool // the report is accepted
	ends bool // the attempt ends
}

var refused = &os.SyscallError{Syscall: "connect", Err: syscall.ECONNREFUSED}

var kinds = []kind{
	{"refuses", env.Reply{Err: refused}, false, true},
	{"rejects", env.Reply{Nack: true}, false, true},
	{"loses the answer", env.Reply{Lost: true, Err: nil}, false, true},
	{"fails after 10s", env.Reply{Delay: 10 * time.Second, Err: refused}, false, true},
	{"accepts after 5m", env.Reply{Delay: 5 * time.Minute}, true, true},
	{"accepts", env.Reply{}, true, true},
	{"never answers", env.Reply{Hang: true}, false, false},
}

// window is the documented time in which delivery is tried.
const window = time.Hour

// group collects the attempts of every report.
func group() (order []string, by map[string][]*env.Attempt) {
	by = map[string][]*env.Attempt{}
	for _, a := range env.W.Attempts {
		k := string(a.Wire)
		if by[k] == nil {
			order = append(order, k)
		}
		by[k] = append(by[k], a)
	}
	return
}

// check decides about all reports of a finished run. want counts the reports
// that the run decided to send; may are reports that may be there in addition.
func check(desc string, want map[pb.ReportReason]int, may map[pb.ReportReason]int) {
	if !env.W.Exited {
		mc.Fail("crash", "%s: the monitor died: %s", desc, env.W.Died)
	}
	got := map[pb.ReportReason]int{}
	order, by := group()
	for _, k := range order {
		as := by[k]
		r := monx.Decode(as[0])
		acked := 0
		for _, a := range as {
			if a.Acked {
				acked++
			}
		}
		// different reports may be equal
		if max := want[r.ReportReason] + may[r.ReportReason]; acked > max {
			mc.Fail("again", "%s: a %s report was accepted %d times", desc, r.ReportReason, acked)
		} else if max == 1 && acked == 1 && !as[len(as)-1].Acked {
			mc.Fail("again", "%s: the accepted %s report was sent again: %s", desc, r.ReportReason, outcomes(as))
		}
		if acked > 0 {
			got[r.ReportReason] += acked
		} else {
			got[r.ReportReason]++
		}
		if acked == 0 && env.Elapsed()-as[0].At < window-time.Minute {
			mc.Fail("lost", "%s: the %s report of %v was not accepted and given up at %v: %s", desc, r.ReportReason, as[0].At, env.Elapsed(), outcomes(as))
		}
	}
	for r, n := range want {
		if got[r] < n || got[r] > n+may[r] {
			mc.Fail("lost", "%s: %d %s reports were sent, want %d", desc, got[r], r, n)
		}
	}
	for r, n := range got {
		if n > want[r]+may[r] {
			mc.Fail("extra", "%s: %d %s reports were sent, want %d", desc, n, r, want[r])
		}
	}
}

func outcomes(as []*env.Attempt) string {
	var s []string
	for _, a := range as {
		s = append(s, fmt.Sprintf("%v %s", a.At, a.Outcome))
	}
	if len(s) > 6 {
		s = append(s[:3], append([]string{"…"}, s[len(s)-2:]...)...)
	}
	return strings.Join(s, ", ")
}

// accepted requires that every report was accepted.
func accepted(desc string) {
	order, by := group()
	for _, k := range order {
		ok := false
		for _, a := range by[k] {
			ok = ok || a.Acked
		}
		if !ok {
			mc.Fail("lost", "%s: a %s report was never accepted, %v after %s", desc, monx.Decode(by[k][0]).ReportReason, env.Elapsed(), outcomes(by[k]))
		}
	}
}

type reasons = map[pb.ReportReason]int

// script answers the attempts in order, then accepts.
func script(seq []int) func(a *env.Attempt) env.Reply {
	return func(a *env.Attempt) env.Reply {
		if env.Elapsed() > 5*window {
			mc.Fail("blocked", "still sending after %v", env.Elapsed())
		}
		if a.N < len(seq) {
			return kinds[seq[a.N]].r
		}
		return env.Reply{}
	}
}

func name(seq []int) string {
	var s []string
	for _, k := range seq {
		s = append(s, kinds[k].name)
	}
	return "a server that " + strings.Join(s, ", ")
}

func hangs(seq []int) bool {
	for _, k := range seq {
		if !kinds[k].ends {
			return true
		}
	}
	return false
}

// answers: all sequences of answers to the report of a finished command.
func answers(c *lib.Cases) {
	depth := 4
	if !c.Quick {
		depth = 5
	}
	c.Seqs("", len(kinds), depth, func(seq []int) func() {
		return func() {
			if len(seq) > 0 {
				// nothing follows these
				for _, k := range seq[:len(seq)-1] {
					if kinds[k].ok || !kinds[k].ends {
						return
					}
				}
			}
			code := len(seq) % 2
			monx.Main(&env.World{Child: func(p *env.Proc) { p.Sleep(3 * time.Second); p.Exit(code) }, Server: script(seq)}, monx.Args()...)
			want := reasons{pb.ReportReason_Success: 1}
			if code > 0 {
				want = reasons{pb.ReportReason_Failure: 1}
			}
			check(name(seq), want, nil)
			if !hangs(seq) {
				accepted(name(seq))
			}
			c.State("%v %d", seq, len(env.W.Attempts))
			c.Step(len(env.W.Attempts))
		}
	})
}

// outage: the server is down for a time, or for ever.
func outage(c *lib.Cases) {
	for _, k := range []int{0, 1, 2, 3} {
		for _, up := range []time.Duration{time.Second, 20 * time.Second, time.Minute, 5 * time.Minute, 14 * time.Minute, 16 * time.Minute, 20 * time.Minute, 30 * time.Minute, 0} {
			for end := 0; end < 4; end++ {
				c.Add(fmt.Sprint(k, up, end), func() {
					var decided time.Duration
					w := &env.World{Server: func(a *env.Attempt) env.Reply {
						if env.Elapsed() > 5*window {
							mc.Fail("blocked", "still sending after %v", env.Elapsed())
						}
						if up > 0 && env.Elapsed()-decided >= up {
							return env.Reply{}
						}
						return kinds[k].r
					}}
					var args []string
					var want reasons
					switch end {
					case 0:
						want = reasons{pb.ReportReason_Success: 1}
						w.Child = func(p *env.Proc) { p.Sleep(time.Second) }
						decided = time.Second
					case 1:
						want = reasons{pb.ReportReason_Killed: 1}
						args = []string{"--timeout-kill", "2s"}
						w.Child = func(p *env.Proc) { p.Forever() }
						decided = 2 * time.Second
					case 2:
						want = reasons{pb.ReportReason_Failure: 1, pb.ReportReason_FileNotCreated: 1}
						args = []string{"--creates", "/none"}
						w.Child = func(p *env.Proc) { p.Exit(1) }
					case 3:
						want = reasons{pb.ReportReason_Success: 1, pb.ReportReason_Alert: 1}
						args = []string{"--rule", "x"}
						w.Child = func(p *env.Proc) { p.Stdout("x\n"); p.Sleep(10 * time.Minute) }
						decided = 10 * time.Minute
					}
					monx.Main(w, monx.Args(args...)...)
					desc := fmt.Sprintf("a server that %s for %v, end %d", kinds[k].name, up, end)
					check(desc, want, nil)
					if up > 0 {
						accepted(desc)
					} else if env.Elapsed() < decided+window-time.Second {
						mc.Fail("lost", "%s: given up after %v", desc, env.Elapsed()-decided)
					}
					c.State("%d %v %d %d", k, up, end, len(env.W.Attempts))
					c.Step(len(env.W.Attempts))
				})
			}
		}
	}
}

// every kind of report.
func everything(c *lib.Cases) {
	depth := 4
	if !c.Quick {
		depth = 5
	}
	use := []int{0, 1, 4, 5, 6}
	c.Seqs("", len(use), depth, func(s []int) func() {
		return func() {
			var seq []int
			for _, k := range s {
				seq = append(seq, use[k])
			}
			monx.Main(&env.World{Server: script(seq), Child: func(p *env.Proc) {
				p.Mem(2000)
				p.Stdout("x1\n")
				p.Sleep(1500 * time.Millisecond)
				p.Stderr("x2\n")
				p.Sleep(1500 * time.Millisecond)
				p.Exit(1)
			}}, monx.Args("--rule", "x", "--memory-warn", "1M", "--timeout-warn", "1200ms", "--creates", "/none")...)
			check(name(seq), reasons{pb.ReportReason_Alert: 2, pb.ReportReason_MemoryWarning: 1, pb.ReportReason_TimeWarning: 1, pb.ReportReason_FileNotCreated: 1, pb.ReportReason_Failure: 1}, nil)
			if !hangs(seq) {
				accepted(name(seq))
			}
			c.State("%v %d %v", seq, len(env.W.Attempts), env.Elapsed())
			c.Step(len(env.W.Attempts))
		}
	})
}

// unkillable: the limits of commands that end at that moment or do not react.
func unkillable(c *lib.Cases) {
	for how := 0; how < 3; how++ {
		for what := 0; what < 4; what++ {
			for _, seq := range [][]int{nil, {0}, {1, 0}, {4}, {6}} {
				c.Add(fmt.Sprint(how, what, seq), func() {
					args := [][]string{{"--timeout-kill", "2s"}, {"--memory-kill", "1M"}, nil}[how]
					monx.Begin(&env.World{Server: script(seq), Child: func(p *env.Proc) {
						p.OnSignal = func(s syscall.Signal) {
							if what == 1 {
								p.Die(s)
							}
						}
						p.Mem(2000)
						p.Stdout("y\n")
						switch what {
						case 2:
							// ends some time later
							p.Sleep(4 * time.Second)
							p.Exit(0)
						case 3:
							p.CloseStdout()
							p.CloseStderr()
						}
						p.Forever()
					}}, monx.Args(args...)...)
					if how == 2 {
						mc.Sleep(2500 * time.Millisecond)
						env.W.Kill(syscall.SIGTERM)
					}
					env.W.AwaitExit()
					desc := fmt.Sprintf("kill %d of command %d with %s", how, what, name(seq))
					check(desc, reasons{pb.ReportReason_Killed: 1}, nil)
					if !hangs(seq) {
						accepted(desc)
					}
					c.State("%d %d %v", how, what, seq)
					c.Step(1)
				})
			}
		}
	}
}

// choose answers the first n attempts in every way.
func choose(n int, use ...int) func(a *env.Attempt) env.Reply {
	return func(a *env.Attempt) env.Reply {
		if a.N >= n {
			return env.Reply{}
		}
		return kinds[use[mc.Choose(len(use), "server")]].r
	}
}

func summary() {
	var s []string
	for _, a := range env.W.Attempts {
		s = append(s, fmt.Sprintf("%s %s", monx.Decode(a).ReportReason, a.Outcome))
	}
	sort.Strings(s)
	mc.Outcome(strings.Join(s, ","))
}

// alertsAtEnd: alerts in flight while the command ends.
func alertsAtEnd(n int, use ...int) func() {
	return func() {
		monx.Main(&env.World{Server: choose(n, use...), Child: func(p *env.Proc) { p.Stdout("x\n"); p.Exit(0) }}, monx.Args("--rule", "x")...)
		check("alert at the end", reasons{pb.ReportReason_Alert: 1, pb.ReportReason_Success: 1}, nil)
		accepted("alert at the end")
		summary()
	}
}

// twoStreams: alerts of both streams and the end.
func twoStreams() {
	monx.Main(&env.World{Server: choose(1, 5, 0), Child: func(p *env.Proc) { p.Stdout("x\n"); p.Stderr("x\n"); p.Exit(1) }}, monx.Args("--rule", "x")...)
	check("alerts of two streams", reasons{pb.ReportReason_Alert: 2, pb.ReportReason_Failure: 1}, nil)
	accepted("alerts of two streams")
	summary()
}

// filesAtEnd: several reports are decided at the end.
func filesAtEnd() {
	monx.Main(&env.World{Server: choose(2, 5, 0), Child: func(p *env.Proc) { p.Exit(0) }}, monx.Args("--creates", "/a", "--creates", "/b")...)
	check("files at the end", reasons{pb.ReportReason_FileNotCreated: 2, pb.ReportReason_Success: 1}, nil)
	accepted("files at the end")
	summary()
}

// killAtEnd: a limit and the end at the same time.
func killAtEnd(args ...string) func() {
	return func() {
		monx.Main(&env.World{Server: choose(1, 5, 0), Child: func(p *env.Proc) { p.Mem(2000); p.Sleep(time.Second); p.Exit(0) }}, monx.Args(args...)...)
		k := 0
		for _, a := range env.W.Attempts {
			if monx.Decode(a).ReportReason == pb.ReportReason_Killed {
				k = 1
			}
		}
		check("limit at the end", reasons{pb.ReportReason_Killed: k, pb.ReportReason_Success: 1 - k}, nil)
		accepted("limit at the end")
		summary()
	}
}

// warningsAtEnd: both warnings and the end at the same time.
func warningsAtEnd() {
	monx.Main(&env.World{Child: func(p *env.Proc) { p.Mem(2000); p.Sleep(time.Second); p.Exit(0) }}, monx.Args("--timeout-warn", "1s", "--memory-warn", "1M")...)
	check("warnings at the end", reasons{pb.ReportReason_Success: 1}, reasons{pb.ReportReason_TimeWarning: 1, pb.ReportReason_MemoryWarning: 1})
	accepted("warnings at the end")
	summary()
}

// giveUp: the window closes while the answer arrives.
func giveUp() {
	monx.Main(&env.World{Server: func(a *env.Attempt) env.Reply {
		switch mc.Choose(3, "server") {
		case 0:
			return env.Reply{Delay: window}
		case 1:
			return env.Reply{Delay: window, Err: refused}
		}
		return env.Reply{Hang: true}
	}, Child: func(p *env.Proc) { p.Exit(0) }}, monx.Args()...)
	check("answer at the end of the window", reasons{pb.ReportReason_Success: 1}, nil)
	summary()
}

// waiters: Wait blocks everyone until all is delivered.
func waiters() {
	monny.SuppressErrorReporting = true
	env.Reset(&env.World{Server: choose(1, 5, 0), Child: func(p *env.Proc) { p.Stdout("x\n"); p.Exit(0) }})
	c, errs := monny.New([]string{"prog"}, monny.ID("id"), monny.Host("srv:80"), monny.Insecure(), monny.Rule("x"))
	if len(errs) > 0 {
		mc.Fail("config", "%v", errs)
	}
	if err := c.Exec(); err != nil {
		mc.Fail("exec", "%v", err)
	}
	done := make(chan int, 2)
	for i := 0; i < 2; i++ {
		mc.GoNamed("waiter", func() {
			if err := c.Wait(); err != nil {
				mc.Fail("wait", "%v", err)
			}
			n := 0
			for _, a := range env.W.Attempts {
				if a.Acked {
					n++
				}
			}
			mc.SendTo(done)(n)
		})
	}
	for i := 0; i < 2; i++ {
		if n := mc.Recv(done); n != 2 {
			mc.Fail("wait", "waiting ended when %d of 2 reports were accepted", n)
		}
	}
	summary()
}

func main() {
	cfg := mc.Config{Race: true, LeaksOK: true}
	lib.Main("C03", []lib.Scenario{
		{Name: "answers", Weight: 2, What: "all sequences of up to 4 (5) of 7 answers of the server to a completion report", Seq: answers},
		{Name: "outage", Weight: 2, What: "outages of the server of different kinds and lengths up to for ever, for different reports", Seq: outage},
		{Name: "everything", Weight: 3, What: "all sequences of 4 (5) of 5 answers to a run with every kind of report", Seq: everything},
		{Name: "unkillable", What: "kills of commands that end, are gone, or do not react", Seq: unkillable},
		{Name: "alert-at-end", Cfg: cfg, MaxBound: 3, Weight: 2, What: "schedules of an alert and the end with every pair of answers", Body: alertsAtEnd(2, 5, 0, 1, 2)},
		{Name: "alert-at-end-slow", Cfg: cfg, MaxBound: 3, What: "the same with slow answers", Body: alertsAtEnd(2, 3, 4)},
		{Name: "two-streams", Cfg: cfg, MaxBound: 3, Weight: 2, What: "schedules of alerts of two streams and the end", Body: twoStreams},
		{Name: "files-at-end", Cfg: cfg, MaxBound: 3, Weight: 2, What: "schedules of several reports at the end", Body: filesAtEnd},
		{Name: "timeout-at-end", Cfg: cfg, MaxBound: 3, What: "schedules of the kill timeout and the end at the same time", Body: killAtEnd("--timeout-kill", "1s")},
		{Name: "memory-at-end", Cfg: cfg, MaxBound: 3, What: "schedules of the memory limit and the end at the same time", Body: killAtEnd("--memory-kill", "1M")},
		{Name: "warnings-at-end", Cfg: cfg, MaxBound: 3, What: "schedules of both warnings and the end at the same time", Body: warningsAtEnd},
		{Name: "give-up", Cfg: cfg, MaxBound: 3, What: "schedules of the end of the retry window and the answer", Body: giveUp},
		{Name: "waiters", Cfg: cfg, MaxBound: 3, What: "schedules of two callers that wait", Body: waiters},
	})
}
