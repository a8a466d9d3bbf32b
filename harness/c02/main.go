//go:build go1.22

package main

import (
	"fmt"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/BTBurke/monny/mc/env"
	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/pb"
	"github.com/BTBurke/monny/vh/lib"
	"github.com/BTBurke/monny/vh/monx"
)

// want describes how the program ended.
type want struct {
	code      int  // exit status
	crash     bool // ended by a signal
	noSuccess bool
	noFailure bool
	// kill: the run may also have been found over a limit
	kill bool
}

// completion checks the completion reports of a run that ended on its own.
func completion(desc string, w want) {
	if !env.W.Exited {
		mc.Fail("exit", "%s: the monitor died: %s", desc, env.W.Died)
	}
	p := env.W.Procs[0]
	var done []monx.Report
	for _, r := range monx.Received() {
		switch r.ReportReason {
		case pb.ReportReason_Success, pb.ReportReason_Failure:
			done = append(done, r)
		case pb.ReportReason_Killed:
			if !w.kill {
				mc.Fail("killed", "%s: reported as killed", desc)
			}
			if len(monx.Of(monx.Received(), pb.ReportReason_Success))+len(monx.Of(monx.Received(), pb.ReportReason_Failure)) > 0 {
				mc.Fail("killed", "%s: reported as killed and completed: %s", desc, monx.Reasons(monx.Received()))
			}
			return
		}
	}
	if !p.Gone {
		mc.Fail("end", "%s: the monitor ended before the program", desc)
	}
	ok := w.code == 0 && !w.crash
	n := 1
	if ok && w.noSuccess || !ok && w.noFailure {
		n = 0
	}
	if len(done) != n {
		mc.Fail("count", "%s: %d completion reports, want %d: %s", desc, len(done), n, monx.Reasons(monx.Received()))
	}
	mc.Outcome(fmt.Sprintf("%s %v", monx.Reasons(monx.Received()), env.Elapsed()))
	if n == 0 {
		return
	}
	r := done[0]
	if (r.ReportReason == pb.ReportReason_Success) != ok || r.Success != ok {
		mc.Fail("reason", "%s: reported as %s with success %v", desc, r.ReportReason, r.Success)
	}
	code := int32(w.code)
	if w.crash {
		code = -1
	}
	if !r.ExitCodeValid || r.ExitCode != code {
		mc.Fail("code", "%s: reported exit status %d (valid %v), want %d", desc, r.ExitCode, r.ExitCodeValid, code)
	}
	if r.Killed || r.KillReason != 0 {
		mc.Fail("killed", "%s: marked as killed (%v) in a completion report", desc, r.KillReason)
	}
	d, err := time.ParseDuration(r.Duration)
	if err != nil {
		mc.Fail("duration", "%s: duration %q", desc, r.Duration)
	}
	start, finish := base()+int64(p.Started/time.Second), base()+int64(p.Ended/time.Second)
	if r.Start > start || r.Start < base() {
		mc.Fail("start", "%s: started at %d, the program at %d", desc, r.Start, start)
	}
	if r.Finish < finish {
		mc.Fail("finish", "%s: finished at %d, the program at %d", desc, r.Finish, finish)
	}
	if r.Finish < r.Start || d < 0 {
		mc.Fail("duration", "%s: start %d, finish %d, duration %v", desc, r.Start, r.Finish, d)
	}
	if d < p.Ended-p.Started || d > env.Elapsed() {
		mc.Fail("duration", "%s: duration %v, the program took %v and everything %v", desc, d, p.Ended-p.Started, env.Elapsed())
	}
	if x := d - time.Duration(r.Finish-r.Start)*time.Second; x < -time.Second || x > time.Second {
		mc.Fail("duration", "%s: duration %v is not the difference of start %d and finish %d", desc, d, r.Start, r.Finish)
	}
	if r.CreatedAt < r.Finish {
		mc.Fail("created", "%s: made at %d before the end %d", desc, r.CreatedAt, r.Finish)
	}
}

func base() int64 { return mc.TimeNow().Add(-env.Elapsed()).Unix() }

func hush(w want, args []string) []string {
	if w.noSuccess {
		args = append(args, "--no-notify-on-success")
	}
	if w.noFailure {
		args = append(args, "--no-notify-on-failure")
	}
	return monx.Args(args...)
}

// endings: every exit status and signal, with and without notifications.
func endings(c *lib.Cases) {
	for hushed := 0; hushed < 4; hushed++ {
		for code := 0; code < 256+31; code++ {
			c.Add(fmt.Sprint(hushed, code), func() {
				w := want{code: code, noSuccess: hushed&1 != 0, noFailure: hushed&2 != 0}
				if code >= 256 {
					w.code, w.crash = 0, true
				}
				monx.Main(&env.World{Child: func(p *env.Proc) {
					p.Stdout("x\n")
					if w.crash {
						p.Crash(syscall.Signal(code - 255))
					}
					p.Exit(w.code)
				}}, hush(w, nil)...)
				completion(fmt.Sprintf("exit status %d (signal: %v), notifications %d", w.code, w.crash, hushed), w)
				c.State("%d %d", hushed, code)
				c.Step(1)
			})
		}
	}
}

// long: runs of all durations and with much output before the end.
func long(c *lib.Cases) {
	ds := []time.Duration{1, 999, time.Microsecond, 999999, time.Millisecond, 999 * time.Millisecond, time.Second - 1, time.Second, time.Second + 1,
		59*time.Second + 999*time.Millisecond, time.Minute, 61 * time.Second, 59 * time.Minute, time.Hour, time.Hour + time.Nanosecond, 100 * time.Minute, 13 * time.Hour}
	if !c.Quick {
		ds = append(ds, 24*time.Hour, 25*time.Hour+time.Second)
	}
	for _, d := range ds {
		for _, code := range []int{0, 3, -1} {
			for _, n := range []int{0, 1, 700} {
				for opt, args := range [][]string{nil, {"--rule", "line 1"}, {"--timeout-warn", "1h", "--timeout-kill", "1000h", "--memory-kill", "1G"}} {
					if c.Quick && d > 2*time.Hour && (n+opt+code) != 0 {
						continue
					}
					c.Add(fmt.Sprint(d, code, n, opt), func() {
						w := want{code: code}
						if code < 0 {
							w = want{crash: true}
						}
						monx.Main(&env.World{Child: func(p *env.Proc) {
							for i := 0; i < n; i++ {
								p.Stdout(fmt.Sprintf("line %d\n", i))
							}
							p.Sleep(d)
							for i := 0; i < n; i++ {
								p.Stderr(fmt.Sprintf("end %d\n", i))
							}
							if code < 0 {
								p.Crash(syscall.SIGSEGV)
							}
							p.Exit(code)
						}}, monx.Args(args...)...)
						completion(fmt.Sprintf("a program that runs %v, writes %d lines and ends with %d, options %v", d, n, code, args), w)
						c.State("%v %d %d %d", d, code, n, opt)
						c.Step(1)
					})
				}
			}
		}
	}
}

// step is what a program does next.
type step struct {
	name string
	do   func(p *env.Proc)
}

var steps = []step{
	{"out", func(p *env.Proc) { p.Stdout("o\n") }},
	{"err", func(p *env.Proc) { p.Stderr("e") }},
	{"sleep 300ms", func(p *env.Proc) { p.Sleep(300 * time.Millisecond) }},
	{"sleep 2s", func(p *env.Proc) { p.Sleep(2 * time.Second) }},
	{"sleep 40s", func(p *env.Proc) { p.Sleep(40 * time.Second) }},
	{"close out", func(p *env.Proc) { p.CloseStdout() }},
	{"close err", func(p *env.Proc) { p.CloseStderr() }},
	{"grow", func(p *env.Proc) { p.Mem(5000, 6000) }},
}

var settings = [][]string{
	nil,
	{"--timeout-warn", "1s", "--memory-warn", "1M", "--rule", "o"},
	{"--timeout-kill", "60s", "--memory-kill", "1G", "--daemon", "--creates", "/none", "--creates", "/there"},
}

// programs: all programs up to a length.
func programs(c *lib.Cases) {
	depth := 3
	if !c.Quick {
		depth = 4
	}
	for si, set := range settings {
		c.Seqs(fmt.Sprint(si, " "), len(steps), depth, func(seq []int) func() {
			return func() {
				closed := map[int]bool{}
				n := 0
				for _, k := range seq {
					if k == 4 {
						n++
					}
				}
				if n > 1 {
					return
				}
				w := want{code: len(seq) % 2 * 3}
				var names []string
				for _, k := range seq {
					names = append(names, steps[k].name)
				}
				monx.Main(&env.World{Files: map[string]*env.FileData{"/there": {Data: []byte("x"), Mode: 0o644}}, Child: func(p *env.Proc) {
					for _, k := range seq {
						if k == 0 && closed[5] || k == 1 && closed[6] || closed[k] {
							continue
						}
						steps[k].do(p)
						if k == 5 || k == 6 {
							closed[k] = true
						}
					}
					p.Exit(w.code)
				}}, monx.Args(set...)...)
				desc := fmt.Sprintf("program %s with %v", strings.Join(names, ", "), set)
				if si == 2 && w.code == 0 {
					// a missing file makes the run unsuccessful
					done := monx.Of(monx.Received(), pb.ReportReason_Success)
					if len(done) != 1 || len(monx.Of(monx.Received(), pb.ReportReason_Failure)) > 0 || !done[0].ExitCodeValid || done[0].ExitCode != 0 {
						mc.Fail("count", "%s: %s", desc, monx.Reasons(monx.Received()))
					}
				} else {
					completion(desc, w)
				}
				c.State("%d %v %s", si, env.Elapsed(), monx.Reasons(monx.Received()))
				c.Step(len(seq))
			}
		})
	}
}

// input: piped input that ends later than the program, never, or is not read.
func input(c *lib.Cases) {
	for mode := 0; mode < 6; mode++ {
		for code := 0; code < 2; code++ {
			c.Add(fmt.Sprint(mode, code), func() {
				w := want{code: code}
				in := make(chan []byte, 16)
				feed := func() {}
				world := &env.World{Child: func(p *env.Proc) {
					if mode == 1 || mode == 4 {
						p.ReadStdin()
					} else {
						p.Sleep(time.Second)
					}
					p.Exit(code)
				}}
				if mode == 0 || mode == 1 || mode == 4 {
					// the input ends at some time
					feed = func() {
						for i := 0; i < mode; i++ {
							mc.SendTo(in)([]byte("data\n"))
							mc.Sleep(time.Second)
						}
						mc.Close(in)
					}
				}
				if mode == 2 {
					// more input while nobody reads
					feed = func() {
						for i := 0; i < 5; i++ {
							mc.SendTo(in)([]byte("data\n"))
							mc.Sleep(time.Second)
						}
					}
				}
				begin(world, mode != 5, in, monx.Args()...)
				mc.GoNamed("producer", feed)
				env.W.AwaitExit()
				completion(fmt.Sprintf("piped input, mode %d", mode), w)
				if mode == 1 || mode == 4 {
					if g := env.W.Procs[0].Input.String(); g != strings.Repeat("data\n", mode) || !env.W.Procs[0].InputEOF {
						mc.Fail("input", "mode %d: the program read %q", mode, g)
					}
				}
				c.State("%d %d", mode, code)
				c.Step(1)
			})
		}
	}
}

// begin starts the client with piped input.
func begin(w *env.World, pipe bool, in chan []byte, args ...string) {
	monx.Prepare(w, args...)
	if pipe {
		env.Stdin.SetPipe(in)
	}
	monx.Launch()
}

// schedules of the end of a program.
func schedule(child func(p *env.Proc), w want, args ...string) func() {
	return func() {
		monx.Main(&env.World{Child: child}, hush(w, args)...)
		completion("program", w)
	}
}

// slowServer: the completion report of a run is delivered in spite of failures.
func slowServer() {
	n := 0
	code := mc.Choose(2, "exit status")
	monx.Main(&env.World{Child: func(p *env.Proc) { p.Exit(code) }, Server: func(a *env.Attempt) env.Reply {
		if n++; n > 2 {
			return env.Reply{}
		}
		switch mc.Choose(3, "server") {
		case 0:
			return env.Reply{Err: os.ErrDeadlineExceeded}
		case 1:
			return env.Reply{Nack: true}
		}
		return env.Reply{}
	}}, monx.Args()...)
	completion("unreliable server", want{code: code})
}

func main() {
	cfg := mc.Config{LeaksOK: true}
	lib.Main("C02", []lib.Scenario{
		{Name: "endings", Weight: 2, What: "all 256 exit statuses and 31 signals with and without the notifications", Seq: endings},
		{Name: "long", Weight: 2, What: "run times of 1 ns to 13 h (25 h), with up to 1400 lines of output, three ends and three configurations", Seq: long},
		{Name: "programs", Weight: 4, What: "all programs of up to 3 (4) steps of 8 kinds in three configurations", Seq: programs},
		{Name: "input", What: "piped input that ends before, with, after the program or never", Seq: input},
		{Name: "end", Cfg: cfg, MaxBound: 3, What: "schedules of the end of a program that writes", Body: schedule(func(p *env.Proc) { p.Stdout("x\n"); p.Stderr("y\n"); p.Exit(0) }, want{})},
		{Name: "end-failing", Cfg: cfg, MaxBound: 3, What: "schedules of the end of a failing program", Body: schedule(func(p *env.Proc) { p.Exit(7) }, want{code: 7})},
		{Name: "end-and-check", Cfg: cfg, MaxBound: 3, What: "schedules of a program that ends at the time of a memory check and of the warning", Body: schedule(func(p *env.Proc) { p.Mem(5000); p.Sleep(time.Second); p.Exit(3) }, want{code: 3}, "--timeout-warn", "1s", "--memory-warn", "1M")},
		{Name: "end-and-limit", Cfg: cfg, MaxBound: 3, What: "schedules of a program that ends exactly at its kill timeout", Body: schedule(func(p *env.Proc) { p.Sleep(1500 * time.Millisecond); p.Exit(3) }, want{code: 3, kill: true}, "--timeout-kill", "1500ms")},
		{Name: "hushed", Cfg: cfg, MaxBound: 3, What: "schedules of a program without notifications", Body: schedule(func(p *env.Proc) { p.Stdout("x\n"); p.Exit(0) }, want{noSuccess: true})},
		{Name: "unreliable-server", Cfg: cfg, MaxBound: 3, Weight: 2, What: "schedules with every combination of answers of a server", Body: slowServer},
	})
}
