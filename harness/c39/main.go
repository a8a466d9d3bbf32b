//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/BTBurke/monny/mc/env"
	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/pb"
	"github.com/BTBurke/monny/vh/lib"
	"github.com/BTBurke/monny/vh/monx"
)

const ms = time.Millisecond

// token is an option of the command line with its value.
type token struct {
	args []string
	id   string
	bad  bool
	help bool
}

var tokens = []token{
	{args: []string{"-i", "one"}, id: "one"},
	{args: []string{"--id=two words"}, id: "two words"},
	{args: []string{"--daemon"}},
	{args: []string{"--daemon=false"}},
	{args: []string{"--rule=a.c"}},
	{args: []string{"--rule-json", "a.b:c"}},
	{args: []string{"--memory-warn", "10M"}},
	{args: []string{"--timeout-warn=1m"}},
	{args: []string{"--timeout-kill", "1h"}},
	{args: []string{"--stdout-history=0"}},
	{args: []string{"-c", "/good.yml"}},
	{args: []string{"--config=/empty.yml"}},
	{args: []string{"--insecure"}},
	{args: []string{"--host", "h:1"}},
	{args: []string{"--shell", "bash"}},
	{args: []string{"--no-error-reports"}},
	{args: []string{"--rule=("}, bad: true},
	{args: []string{"--rule-json=nocolon"}, bad: true},
	{args: []string{"--rule-json", "a:("}, bad: true},
	{args: []string{"--memory-kill=x"}, bad: true},
	{args: []string{"--memory-warn", "-5"}, bad: true},
	{args: []string{"--timeout-kill=5"}, bad: true},
	{args: []string{"--stderr-history=x"}, bad: true},
	{args: []string{"--daemon=maybe"}, bad: true},
	{args: []string{"--nope"}, bad: true},
	{args: []string{"-c", "/missing.yml"}, bad: true},
	{args: []string{"-c", "/broken.yml"}, bad: true},
	{args: []string{"-c", "/unknown.yml"}, bad: true},
	{args: []string{"-c", "/badvalue.yml"}, bad: true},
	{args: []string{"--host=nohost"}, bad: true},
	{args: []string{"--shell=nosuch"}, bad: true},
	{args: []string{"--help"}, help: true},
	{args: []string{"-h"}, help: true},
}

type tail struct {
	args []string
	argv []string
	bad  bool
}

var tails = []tail{
	{args: []string{"--", "prog"}, argv: []string{"prog"}},
	{args: []string{"prog", "one", "two"}, argv: []string{"prog", "one", "two"}},
	{args: []string{"--", "prog", "--daemon", "-i", "z", "--help", "--nope"}, argv: []string{"prog", "--daemon", "-i", "z", "--help", "--nope"}},
	{args: []string{"prog", "--", "-x"}, argv: []string{"prog", "-x"}},
	{args: []string{"--", "prog", "", "a b", "$HOME;ls|x>y", "é\n", "--"}, argv: []string{"prog", "", "a b", "$HOME;ls|x>y", "é\n", "--"}},
	{args: []string{"prog", "--nope"}, bad: true},
	{args: []string{"--"}, bad: true},
	{args: nil, bad: true},
}

func files() map[string]*env.FileData {
	return map[string]*env.FileData{
		"/good.yml":     {Data: []byte("rule:\n- a\n- b\nmemory-warn: 5M\n")},
		"/empty.yml":    {Data: nil},
		"/broken.yml":   {Data: []byte("rule: [a\n b: :")},
		"/unknown.yml":  {Data: []byte("rule: a\nwhat: 1\n")},
		"/badvalue.yml": {Data: []byte("timeout-kill: soon\n")},
	}
}

func vars(v map[string]string) (out []string) {
	for k, x := range v {
		out = append(out, k+"="+x)
	}
	return
}

// verify checks that nothing or the given command was run.
func verify(desc string, accepted bool, argv []string) {
	w := env.W
	if !w.Exited {
		mc.Fail("crash", "%s: the monitor died: %s", desc, w.Died)
	}
	if !accepted {
		if len(w.Procs) > 0 {
			mc.Fail("run", "%s: to be refused, but %q was run", desc, w.Procs[0].Argv)
		}
		if len(w.Attempts) > 0 {
			mc.Fail("report", "%s: to be refused, but reports were sent: %s", desc, monx.Decode(w.Attempts[0]))
		}
		if w.Printed.Len() == 0 && env.Stderr.Text() == "" && env.Stdout.Text() == "" {
			mc.Fail("message", "%s: refused without a message", desc)
		}
		return
	}
	if len(w.Procs) != 1 {
		mc.Fail("run", "%s: %d programs were run: %s", desc, len(w.Procs), w.Printed.String())
	}
	p := w.Procs[0]
	if fmt.Sprintf("%q", p.Argv) != fmt.Sprintf("%q", argv) || p.Name != argv[0] {
		mc.Fail("args", "%s: ran %q with %q, want %q", desc, p.Name, p.Argv, argv)
	}
	if p.Dir != "" && p.Dir != "/work" {
		mc.Fail("dir", "%s: the program was run in %q", desc, p.Dir)
	}
	if p.Env != nil {
		got := map[string]bool{}
		for _, v := range p.Env {
			got[v] = true
		}
		for _, v := range vars(w.Vars) {
			if !got[v] {
				mc.Fail("env", "%s: the environment of the program has no %q: %q", desc, v, p.Env)
			}
		}
		if len(p.Env) != len(w.Vars) {
			mc.Fail("env", "%s: the environment of the program is %q, that of the monitor %q", desc, p.Env, vars(w.Vars))
		}
	}
}

// lines: all command lines of some options and a command.
func lines(c *lib.Cases) {
	for ti := range tails {
		ti := ti
		depth := 2
		if !c.Quick || ti < 2 {
			depth = 3
		}
		for n := 0; n <= depth; n++ {
			c.Seqs(fmt.Sprintf("t%d", ti), len(tokens), n, func(seq []int) func() {
				seq = append([]int(nil), seq...)
				return func() {
					var args []string
					id, bad, help := "", tails[ti].bad, false
					for _, k := range seq {
						t := tokens[k]
						args = append(args, t.args...)
						bad, help = bad || t.bad, help || t.help
						if t.id != "" {
							id = t.id
						}
					}
					args = append(args, tails[ti].args...)
					desc := fmt.Sprintf("monny %q", args)
					monx.Main(&env.World{Files: files(), Path: map[string]string{"bash": "/bin/bash"}, Vars: map[string]string{"SHELL": "/bin/sh", "PATH": "/bin", "A": "b=c"}, Child: func(p *env.Proc) { p.Exit(0) }}, args...)
					ok := !bad && !help && id != ""
					verify(desc, ok, tails[ti].argv)
					switch {
					case ok:
						if env.W.Code != 0 {
							mc.Fail("exit", "%s: exit status %d: %s", desc, env.W.Code, env.W.Printed.String())
						}
						if rs := monx.Received(); len(rs) != 1 || rs[0].ReportReason != pb.ReportReason_Success || rs[0].Id != id {
							mc.Fail("report", "%s: reports %s", desc, monx.Reasons(rs))
						}
					case !help && env.W.Code == 0:
						mc.Fail("exit", "%s: refused with exit status 0: %s", desc, env.W.Printed.String())
					}
					c.Step(n + 1)
					c.State("%d %v %v %q", ti, ok, help, id)
				}
			})
		}
	}
}

// words: all commands of words that a shell or an option parser could take for something else.
func words(c *lib.Cases) {
	ws := []string{"prog", "a b", "", "-i", "--", "$HOME", "'x'", "|", "a=b", "*", "--host=other:1", "-c/nope", "~/x", "a\\b", "{a,b}", "`x`", "#", "%s"}
	for n := 1; n <= c.Depth(3, 4); n++ {
		for dash := 0; dash < 2; dash++ {
			dash := dash
			c.Seqs(fmt.Sprintf("d%d", dash), len(ws), n, func(seq []int) func() {
				seq = append([]int(nil), seq...)
				if dash == 1 {
					// without the separator only words that are no options
					for _, k := range seq {
						if strings.HasPrefix(ws[k], "-") {
							return func() {}
						}
					}
				}
				if ws[seq[0]] == "" {
					return func() {}
				}
				return func() {
					args := append([]string(nil), monx.Std...)
					if dash == 0 {
						args = append(args, "--")
					}
					var argv []string
					for _, k := range seq {
						argv = append(argv, ws[k])
					}
					args = append(args, argv...)
					desc := fmt.Sprintf("monny %q", args)
					monx.Main(&env.World{Child: func(p *env.Proc) { p.Exit(0) }}, args...)
					verify(desc, true, argv)
					if env.W.Code != 0 {
						mc.Fail("exit", "%s: exit status %d: %s", desc, env.W.Code, env.W.Printed.String())
					}
					c.Step(n)
					c.State("%d %d", dash, n)
				}
			})
		}
	}
}

// endings: however the program ends, the monitor ends well.
func endings(c *lib.Cases) {
	servers := []func(a *env.Attempt) env.Reply{
		nil,
		func(a *env.Attempt) env.Reply {
			if a.N < 2 {
				return env.Reply{Err: errors.New("down")}
			}
			return env.Reply{}
		},
		func(a *env.Attempt) env.Reply { return env.Reply{Hang: true} },
	}
	type ending struct {
		name  string
		child func(p *env.Proc)
		args  []string
		sig   os.Signal
	}
	var ends []ending
	for code := 0; code < 256; code++ {
		code := code
		ends = append(ends, ending{name: fmt.Sprint("exit ", code), child: func(p *env.Proc) { p.Exit(code) }})
	}
	for sig := syscall.Signal(1); sig < 32; sig++ {
		sig := sig
		ends = append(ends, ending{name: fmt.Sprint("signal ", sig), child: func(p *env.Proc) { p.Crash(sig) }})
	}
	long := func(p *env.Proc) { p.Mem(9000); p.Stdout("x\n"); p.Forever() }
	ends = append(ends,
		ending{"kill timeout", long, []string{"--timeout-kill", "1500ms"}, nil},
		ending{"memory limit", long, []string{"--memory-kill", "5M"}, nil},
		ending{"both limits", long, []string{"--memory-kill", "5M", "--timeout-kill", "1s"}, nil},
		ending{"interrupt", long, nil, os.Interrupt},
		ending{"termination", long, nil, syscall.SIGTERM},
		ending{"termination of one that ends itself", func(p *env.Proc) {
			p.OnSignal = func(syscall.Signal) {}
			p.Stdout("x\n")
			p.Sleep(5 * time.Second)
			p.Exit(0)
		}, nil, syscall.SIGTERM},
		ending{"missing file", func(p *env.Proc) { p.Exit(0) }, []string{"--creates", "/missing"}, nil},
		ending{"warnings", func(p *env.Proc) { p.Mem(9000); p.Sleep(3 * time.Second); p.Exit(9) }, []string{"--memory-warn", "5M", "--timeout-warn", "1500ms"}, nil},
	)
	for ei := range ends {
		for si := range servers {
			for q := 0; q < 2; q++ {
				if c.Quick && si > 0 && ei%16 != 0 && ei < 256 {
					continue
				}
				e, si, q := ends[ei], si, q
				c.Add(fmt.Sprint(ei, si, q), func() {
					args := e.args
					if q == 1 {
						args = append(args[:len(args):len(args)], "--no-notify-on-success", "--no-notify-on-failure")
					}
					desc := fmt.Sprintf("a program with the ending %q, %q, server %d", e.name, args, si)
					monx.Begin(&env.World{Child: e.child, Server: servers[si]}, monx.Args(args...)...)
					if e.sig != nil {
						mc.GoNamed("user", func() {
							mc.Sleep(700 * ms)
							env.W.Kill(e.sig)
						})
					}
					env.W.AwaitExit()
					verify(desc, true, []string{"prog"})
					if env.W.Code != 0 {
						mc.Fail("exit", "%s: exit status %d: %s", desc, env.W.Code, env.W.Printed.String())
					}
					if p := env.W.Procs[0]; !p.Gone && p.OnSignal == nil {
						mc.Fail("end", "%s: the monitor exited before the program", desc)
					}
					c.Step(1)
					c.State("%d %d %d %d", ei, si, q, len(env.W.Attempts))
				})
			}
		}
	}
}

// starts: commands that can not be started, with every option.
func starts(c *lib.Cases) {
	errs := []error{os.ErrNotExist, os.ErrPermission, errors.New("fork/exec prog: resource temporarily unavailable"), syscall.ENOEXEC}
	for ki := range errs {
		for ti := range tokens {
			if tokens[ti].bad || tokens[ti].help {
				continue
			}
			ki, ti := ki, ti
			c.Add(fmt.Sprint(ki, ti), func() {
				args := append([]string(nil), monx.Std...)
				args = append(append(args, tokens[ti].args...), "--creates", "/f", "--", "prog")
				desc := fmt.Sprintf("monny %q with a command that can not be started (%v)", args, errs[ki])
				monx.Main(&env.World{StartErr: errs[ki], Files: files(), Path: map[string]string{"bash": "/bin/bash"}, Child: func(p *env.Proc) { p.Exit(0) }}, args...)
				w := env.W
				if !w.Exited {
					mc.Fail("crash", "%s: the monitor died: %s", desc, w.Died)
				}
				if w.Code == 0 {
					mc.Fail("exit", "%s: exit status 0", desc)
				}
				if w.Printed.Len() == 0 && env.Stderr.Text() == "" && env.Stdout.Text() == "" {
					mc.Fail("message", "%s: no message", desc)
				}
				if n := len(monx.Of(monx.Received(), pb.ReportReason_Success)); n > 0 {
					mc.Fail("report", "%s: reported as a success", desc)
				}
				c.Step(1)
				c.State("%d %d", ki, ti)
			})
		}
	}
}

// schedule explores the schedules of an end.
func schedule(child func(p *env.Proc), sig os.Signal, at time.Duration, args ...string) func() {
	return func() {
		monx.Begin(&env.World{Child: child}, monx.Args(args...)...)
		if sig != nil {
			mc.GoNamed("user", func() {
				mc.Sleep(at)
				env.W.Kill(sig)
			})
		}
		env.W.AwaitExit()
		if env.W.Died != "" {
			// the signal came when the monitor did not wait for it (yet)
			mc.Outcome("died")
			return
		}
		verify("run", true, []string{"prog"})
		if env.W.Code != 0 && !env.W.Procs[0].Gone {
			mc.Fail("exit", "exit status %d: %s", env.W.Code, env.W.Printed.String())
		}
		mc.Outcome(fmt.Sprint(env.W.Code, monx.Reasons(monx.Received())))
	}
}

func main() {
	cfg := mc.Config{Race: true, LeaksOK: true}
	lib.Main("C39", []lib.Scenario{
		{Name: "lines", Weight: 3, What: "all command lines of up to 2 (3) of 33 options, good and bad, followed by eight commands", Seq: lines},
		{Name: "words", Weight: 2, What: "all commands of up to 3 (4) of 12 words, after the separator or without it", Seq: words},
		{Name: "endings", Weight: 2, What: "programs that end with every status and signal or are killed, with three servers, with and without notifications", Seq: endings},
		{Name: "starts", What: "commands that can not be started, with all good options", Seq: starts},
		{Name: "end", Cfg: cfg, MaxBound: 3, What: "schedules of the end of a program", Body: schedule(func(p *env.Proc) { p.Stdout("x\n"); p.Exit(5) }, nil, 0)},
		{Name: "killed", Cfg: cfg, MaxBound: 3, What: "schedules of a program that is killed when it ends", Body: schedule(func(p *env.Proc) { p.Sleep(time.Second); p.Exit(5) }, nil, 0, "--timeout-kill", "1s")},
		{Name: "signal", Cfg: cfg, MaxBound: 3, What: "schedules of a signal", Body: schedule(func(p *env.Proc) { p.Stdout("x\n"); p.Forever() }, syscall.SIGTERM, time.Second)},
	})
}
