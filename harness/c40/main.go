//go:build go1.22

package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/BTBurke/monny/mc/env"
	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/eventbus"
	"github.com/BTBurke/monny/pkg/metric"
	"github.com/BTBurke/monny/pkg/monny"
	"github.com/BTBurke/monny/pkg/monny/proc"
	"github.com/BTBurke/monny/vh/lib"
	"github.com/BTBurke/monny/vh/monx"
)

// things that can happen to the monitor at one instant.
const (
	outMatch = iota
	errMatch
	outPlain
	errBurst
	memGrow
	memWarn
	memKill
	memGone
	timeWarn
	timeKill
	sigTerm
	sigInt
	endZero
	endCrash
	input
	inputEnd
	outFails
	errFails
	retry
	nThings
)

var names = []string{"line on stdout that matches", "line on stderr that matches", "line on stdout", "lines on stderr", "memory growth", "memory over the limit of the warning", "memory over the kill limit",
	"memory that can not be read", "time warning", "kill timeout", "SIGTERM", "SIGINT", "end", "crash", "input", "end of the input", "stdout fails", "stderr fails", "retry of an alert"}

type run struct {
	daemon bool
	on     [nThings]bool
	// the server: 0 accepts, 1 takes a second, 2 refuses the first, 3 fails the first two
	server int
	quiet  bool
}

func (r *run) String() string {
	var s []string
	for i, b := range r.on {
		if b {
			s = append(s, names[i])
		}
	}
	return fmt.Sprintf("daemon %v, server %d: at one time %s", r.daemon, r.server, strings.Join(s, ", "))
}

// do runs the monitor; all things happen when its memory is looked at.
func (r *run) do() {
	T := 2 * time.Second
	args := []string{"--id", "t", "--rule", "match", "--rule-json", "a:x", "--memory-warn", "2M", "--memory-kill", "4M", "--creates", "/made", "--stdout-history", "2"}
	if r.daemon {
		T = 30 * time.Second
		args = append(args, "--daemon")
	}
	if r.quiet {
		args = append(args, "--no-error-reports")
	}
	if r.on[timeWarn] {
		args = append(args, "--timeout-warn", T.String())
	}
	if r.on[timeKill] {
		args = append(args, "--timeout-kill", T.String())
	}
	refused := false
	w := &env.World{Vars: map[string]string{"SHELL": "/bin/sh"}, Files: map[string]*env.FileData{"/made": {Mode: 0o644}}}
	w.Server = func(a *env.Attempt) env.Reply {
		if r.on[retry] && !refused {
			// the next attempt comes after a pause
			refused = true
			return env.Reply{Nack: true}
		}
		switch {
		case r.server == 1:
			return env.Reply{Delay: time.Second}
		case r.server == 2 && a.N == 0:
			return env.Reply{Nack: true}
		case r.server == 3 && a.N < 2:
			return env.Reply{Err: errors.New("unavailable")}
		}
		return env.Reply{}
	}
	if r.on[memGone] {
		w.ProcFS = func(path string, b []byte, err error) ([]byte, error) {
			if env.Elapsed() >= T {
				return nil, &os.PathError{Op: "open", Path: path, Err: syscall.EACCES}
			}
			return b, err
		}
	}
	in := make(chan []byte, 4)
	w.Child = func(p *env.Proc) {
		p.Mem(1000)
		p.Stdout("first\n")
		if r.on[retry] {
			p.Sleep(T - time.Second)
			p.Stdout("match of the first\n")
			p.Sleep(time.Second)
		} else {
			p.Sleep(T)
		}
		if r.on[outMatch] || r.on[outPlain] {
			p.Go("stdout", func() {
				if r.on[outMatch] {
					p.Stdout("a match\n")
				}
				if r.on[outPlain] {
					p.Stdout("plain\n")
				}
			})
		}
		if r.on[errMatch] || r.on[errBurst] {
			p.Go("stderr", func() {
				if r.on[errMatch] {
					p.Stderr("{\"a\":\"x\"}\n")
				}
				if r.on[errBurst] {
					p.Stderr("one\ntwo\nthr")
					p.Stderr("ee\n")
				}
			})
		}
		switch {
		case r.on[memKill]:
			p.Mem(5000)
		case r.on[memWarn]:
			p.Mem(3000)
		case r.on[memGrow]:
			p.Mem(1500)
		}
		if r.on[input] || r.on[inputEnd] {
			p.ReadChunk()
		}
		switch {
		case r.on[endZero]:
			p.Exit(0)
		case r.on[endCrash]:
			p.Crash(syscall.SIGSEGV)
		}
		p.Sleep(40 * time.Second)
		p.Stdout("a last match\n")
	}
	monx.Prepare(w, append(args, "--", "prog")...)
	if r.on[input] || r.on[inputEnd] {
		env.Stdin.SetPipe(in)
		mc.GoNamed("source of the input", func() {
			mc.Sleep(T)
			if r.on[input] {
				mc.SendTo(in)([]byte("input\n"))
			}
			if r.on[inputEnd] {
				mc.Close(in)
			}
		})
	}
	for _, f := range []struct {
		f  *env.File
		on bool
	}{{env.Stdout, r.on[outFails]}, {env.Stderr, r.on[errFails]}} {
		if f.on {
			f.f.OnWrite = func(b []byte) (int, error) {
				if env.Elapsed() >= T {
					return 0, &os.PathError{Op: "write", Path: "/dev/std", Err: syscall.EPIPE}
				}
				return len(b), nil
			}
		}
	}
	monx.Launch()
	if r.on[sigTerm] || r.on[sigInt] {
		mc.GoNamed("user", func() {
			mc.Sleep(T)
			if r.on[sigTerm] {
				w.Kill(syscall.SIGTERM)
			}
			if r.on[sigInt] {
				w.Kill(os.Interrupt)
			}
		})
	}
	w.AwaitExit()
	if w.Died != "" && !r.on[sigTerm] && !r.on[sigInt] {
		mc.Fail("crash", "%s: the monitor died: %s", r, w.Died)
	}
	if w.Exited && w.Code != 0 && w.Code != 1 {
		mc.Fail("crash", "%s: the monitor exited with status %d: %s", r, w.Code, w.Printed.String())
	}
	if len(w.Procs) != 1 {
		mc.Fail("run", "%s: %d programs were run", r, len(w.Procs))
	}
	if at := env.Elapsed(); at > T+20*time.Minute {
		mc.Fail("late", "%s: the monitor exited after %v", r, at)
	}
	mc.Outcome(fmt.Sprintf("%d %s %d", w.Code, monx.Reasons(monx.Received()), len(w.Attempts)))
}

// pairs of things.
func pairs(daemon bool, server int) func() {
	return func() {
		r := &run{daemon: daemon, server: server}
		a := mc.Choose(nThings, "thing")
		r.on[a] = true
		if b := a + mc.Choose(nThings-a, "other thing"); b > a {
			r.on[b] = true
		}
		r.do()
	}
}

// subsets of things.
func subsets(c *lib.Cases) {
	n := nThings
	most := c.Depth(3, 5)
	var rec func(i, left int, r run)
	rec = func(i, left int, r run) {
		if c.Stopped() {
			return
		}
		if i == n || left == 0 {
			r := r
			for d := 0; d < 2; d++ {
				for s := 0; s < 4; s++ {
					r := r
					r.daemon, r.server, r.quiet = d == 1, s, (d+s)%3 == 1
					c.Add(fmt.Sprintf("%v%v%d", r.on, r.daemon, s), func() {
						r.do()
						c.Step(most - left)
						c.State("%v %v", r.on, monx.Reasons(monx.Received()))
					})
				}
			}
			return
		}
		rec(i+1, left, r)
		r.on[i] = true
		rec(i+1, left-1, r)
	}
	rec(0, most, run{})
}

// everything at once.
func all() {
	r := &run{daemon: mc.Choose(2, "daemon") == 1, server: mc.Choose(4, "server")}
	for i := range r.on {
		r.on[i] = true
	}
	switch mc.Choose(6, "how it ends") {
	case 0:
		r.on[endZero], r.on[memKill], r.on[timeKill], r.on[sigTerm], r.on[sigInt], r.on[endCrash] = false, false, false, false, false, false
	case 1:
		r.on[memKill], r.on[timeKill], r.on[sigTerm], r.on[sigInt] = false, false, false, false
	case 2:
		r.on[endZero], r.on[memKill], r.on[timeKill], r.on[endCrash] = false, false, false, false
	case 3:
		r.on[endZero], r.on[memKill], r.on[sigTerm], r.on[sigInt], r.on[endCrash] = false, false, false, false, false
	case 4:
		r.on[endZero], r.on[timeKill], r.on[sigTerm], r.on[sigInt], r.on[endCrash] = false, false, false, false, false
	}
	r.do()
}

// several: two commands are monitored by one program.
func several(same bool) func() {
	return func() {
		monny.SuppressErrorReporting = false
		w := &env.World{Vars: map[string]string{"SHELL": "/bin/sh"}}
		w.Child = func(p *env.Proc) {
			p.Stdout("a match\n")
			if !same {
				p.Sleep(time.Second)
			}
			p.Exit(0)
		}
		env.Reset(w)
		var j lib.Join
		for i := 0; i < 2; i++ {
			i := i
			j.Go(fmt.Sprintf("user %d", i), func() {
				c, errs := monny.New([]string{"prog", fmt.Sprint(i)}, monny.ID(fmt.Sprint(i)), monny.Insecure(), monny.Rule("match"), monny.MemoryWarn("1M"))
				if len(errs) > 0 {
					mc.Fail("create", "%v", errs)
				}
				if err := c.Exec(); err != nil {
					mc.Fail("exec", "%v", err)
				}
				if err := c.Wait(); err != nil {
					mc.Fail("wait", "%v", err)
				}
			})
		}
		j.Wait()
		n := map[string]int{}
		for _, r := range monx.Received() {
			n[r.Id+" "+r.ReportReason.String()]++
		}
		for i := 0; i < 2; i++ {
			for _, x := range []string{"Alert", "Success"} {
				if k := fmt.Sprint(i, " ", x); n[k] != 1 {
					mc.Fail("reports", "two commands at the same time: reports %v", n)
				}
			}
		}
		mc.Outcome(fmt.Sprint(n))
	}
}

// parts: the log processor, a ticker and a counter around one bus, with a shutdown.
func parts(lines int, slow bool) func() {
	return func() {
		env.Reset(&env.World{Child: func(p *env.Proc) {
			p.Go("stderr", func() { p.Stderr("e\n") })
			for i := 0; i < lines; i++ {
				p.Stdout("o\n")
			}
			p.Sleep(10 * time.Millisecond)
			p.Join()
			p.Exit(0)
		}})
		bus := eventbus.New()
		count := metric.NewConcurrentWindowedCounter(5 * time.Millisecond)
		logs, logsDone := bus.Subscribe(proc.LogTopic)
		ticks, ticksDone := bus.Subscribe()
		var j lib.Join
		n := 0
		j.Go("counting", func() {
			defer logsDone()
			for {
				e, ok := mc.Recv2(logs)
				if !ok {
					return
				}
				var l proc.LogEvent
				if err := e.Decode(&l); err != nil {
					mc.Fail("decode", "%v", err)
				}
				if len(l.Line) == 1 {
					n++
				}
				count.Add(1)
				if slow {
					mc.Sleep(time.Millisecond)
				}
			}
		})
		j.Go("ticks", func() {
			defer ticksDone()
			for {
				if _, ok := mc.Recv2(ticks); !ok {
					return
				}
			}
		})
		proc.NewTicker(10*time.Millisecond, bus, "tick")
		cmd := env.Command("prog")
		l, err := proc.NewLogProcessor(bus, proc.WithCommand(cmd), proc.WithHistory(1))
		if err != nil {
			mc.Fail("create", "%v", err)
		}
		if err := cmd.Start(); err != nil {
			mc.Fail("create", "%v", err)
		}
		ctx, cancel := mc.WithTimeout(context.Background(), time.Second)
		defer cancel()
		j.Go("closing", func() {
			if err := l.Wait(ctx); err != nil {
				mc.Fail("wait", "%v", err)
			}
			if err := bus.Shutdown(ctx); err != nil {
				mc.Fail("shutdown", "%v", err)
			}
		})
		j.Wait()
		if n != lines+1 {
			mc.Fail("events", "%d of %d lines arrived", n, lines+1)
		}
		mc.Outcome(fmt.Sprint(n, len(count.HistoryInclusive())))
	}
}

func main() {
	cfg := mc.Config{Race: true, LeaksOK: true}
	closed := mc.Config{Race: true, MapOrders: 1}
	lib.Main("C40", []lib.Scenario{
		{Name: "subsets", Weight: 3, What: "all sets of up to 3 (5) of 19 things that happen at the moment the memory is looked at, with 4 behaviours of the server, as a daemon and not", Seq: subsets, Cfg: cfg},
		{Name: "pairs", Cfg: cfg, MaxBound: -1, Weight: 3, What: "schedules of all pairs of them", Body: pairs(false, 0)},
		{Name: "pairs-daemon", Cfg: cfg, MaxBound: -1, Weight: 3, What: "schedules of all pairs, for a daemon with a server that refuses the first report", Body: pairs(true, 2)},
		{Name: "all", Cfg: cfg, MaxBound: -1, Weight: 2, What: "schedules of everything at once, six ways to end", Body: all},
		{Name: "several", Cfg: cfg, MaxBound: -1, Weight: 2, What: "schedules of two monitored commands in one program", Body: several(false)},
		{Name: "several-end", Cfg: cfg, MaxBound: -1, Weight: 1, What: "the same for two that end at once", Body: several(true)},
		{Name: "parts", Cfg: closed, MaxBound: 3, Weight: 2, What: "schedules of a log processor, a ticker, a counter and the shutdown of their bus", Body: parts(1, false)},
		{Name: "parts-slow", Cfg: closed, MaxBound: 3, Weight: 1, What: "the same with a slow subscriber", Body: parts(2, true)},
	})
}
