//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/BTBurke/monny/mc/env"
	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/vh/lib"
	"github.com/BTBurke/monny/vh/monx"
)

// secrets are texts by which private data is recognised.
var secrets = map[string]string{
	"zqid7": "the id", "zqout7": "standard output", "zqerr7": "standard error", "zqin7": "standard input", "zqarg7": "an argument of the command",
	"zqrule7": "a rule", "zqjson7": "a rule", "zqfile7": "an expected file", "zqhost7": "the report server", "zqname7": "the host name", "zqshell7": "the shell",
	"zqcmd7": "the command", "zqenv7": "the environment",
}

// opts is a run.
type opts struct {
	faults int // bits: see parts
	server int
	end    int
	silent bool
	tls    bool
}

var parts = []string{"standard output", "standard error", "memory", "host name", "kind of standard input", "reading of standard input", "expected file"}
var servers = []string{"accepts", "fails for ever", "refuses for ever", "never answers", "fails three times"}
var ends = []string{"success", "failure", "timeout", "signal", "memory", "file", "unreachable program"}

func (o opts) String() string {
	var bad []string
	for i, p := range parts {
		if o.faults>>i&1 == 1 {
			bad = append(bad, p)
		}
	}
	return fmt.Sprintf("faults of [%s], server %s, end by %s, error reports off %v, TLS %v", strings.Join(bad, ", "), servers[o.server], ends[o.end], o.silent, o.tls)
}

func (o opts) has(i int) bool { return o.faults>>i&1 == 1 }

func (o opts) run() {
	w := &env.World{Host: "zqname7", Vars: map[string]string{"SHELL": "/bin/zqshell7", "SECRET": "zqenv7"}, Files: map[string]*env.FileData{"/zqfile7/there": {Data: []byte("x"), Mode: 0o644}}}
	args := []string{"--id", "zqid7", "--host", "zqhost7:80", "--rule", "zqrule7|boom", "--rule-json", "a.zqjson7:x", "--creates", "/zqfile7/there", "--memory-warn", "2M"}
	if !o.tls {
		args = append(args, "--insecure")
	}
	if o.silent {
		args = append(args, "--no-error-reports")
	}
	n := 0
	w.Server = func(a *env.Attempt) env.Reply {
		n++
		switch o.server {
		case 1:
			return env.Reply{Err: errors.New("unavailable")}
		case 2:
			return env.Reply{Nack: true}
		case 3:
			return env.Reply{Hang: true}
		case 4:
			if n <= 3 {
				return env.Reply{Err: errors.New("unavailable")}
			}
		}
		return env.Reply{}
	}
	code := 0
	switch o.end {
	case 1:
		code = 3
	case 2:
		args = append(args, "--timeout-kill", "2500ms", "--timeout-warn", "1500ms")
	case 4:
		args = append(args, "--memory-kill", "2M")
	case 5:
		args = append(args, "--creates", "/zqfile7/not")
	case 6:
		w.StartErr = &os.PathError{Op: "fork/exec", Path: "zqcmd7", Err: syscall.ENOENT}
	}
	w.Child = func(p *env.Proc) {
		p.Mem(3000)
		p.ReadChunk()
		p.Stdout("zqout7 boom\n")
		p.Stderr("zqerr7 boom\n")
		p.Stdout("{\"a\":{\"zqjson7\":\"zqout7 x\"}}\n")
		if o.end == 3 || o.end == 2 || o.end == 4 {
			p.Forever()
		}
		p.Sleep(1200 * time.Millisecond)
		p.Stdout("zqout7 \xff\x00 boom")
		p.Exit(code)
	}
	if o.has(2) {
		w.ProcFS = func(path string, b []byte, err error) ([]byte, error) {
			return nil, &os.PathError{Op: "open", Path: path, Err: syscall.EACCES}
		}
	}
	if o.has(3) {
		w.HostErr = &os.SyscallError{Syscall: "uname", Err: syscall.EPERM}
	}
	if o.has(6) {
		w.Files["/zqfile7/there"].Err = syscall.EIO
	}
	monx.Prepare(w, append(args, "--", "zqcmd7", "zqarg7")...)
	in := make(chan []byte, 2)
	env.Stdin.SetPipe(in)
	mc.SendTo(in)([]byte("zqin7\n"))
	mc.Close(in)
	if o.has(0) {
		env.Stdout.WriteErr = &os.PathError{Op: "write", Path: "/dev/stdout", Err: syscall.ENOSPC}
	}
	if o.has(1) {
		env.Stderr.WriteErr = &os.PathError{Op: "write", Path: "/dev/stderr", Err: syscall.ENOSPC}
	}
	if o.has(4) {
		env.Stdin.StatErr = syscall.EBADF
	}
	if o.has(5) {
		env.Stdin.ReadErr = syscall.EIO
	}
	monx.Launch()
	if o.end == 3 {
		mc.GoNamed("user", func() { mc.Sleep(500 * time.Millisecond); env.W.Kill(syscall.SIGTERM) })
	}
	if o.has(2) && o.end == 4 {
		// nobody else will end it
		mc.GoNamed("user", func() { mc.Sleep(5 * time.Second); env.W.Kill(syscall.SIGINT) })
	}
	env.W.AwaitExit()
	if !env.W.Exited {
		mc.Fail("crash", "%v: the monitor died: %s", o, env.W.Died)
	}
	o.private()
}

// private checks where data of the run went.
func (o opts) private() {
	for _, r := range env.W.Rollbar {
		for s, what := range secrets {
			if strings.Contains(r, s) {
				if len(r) > 300 {
					r = r[:300] + "…"
				}
				mc.Fail("private", "%v: an error report has %s: %q", o, what, r)
			}
		}
	}
	if o.silent && len(env.W.Rollbar) > 0 {
		mc.Fail("silent", "%v: error reports were sent: %q", o, env.W.Rollbar)
	}
	for _, a := range env.W.Attempts {
		if a.Target != "zqhost7:80" || a.TLS != o.tls || a.Verified != o.tls {
			mc.Fail("server", "%v: a report was sent to %q, TLS %v, with verification of the server %v", o, a.Target, a.TLS, a.Verified)
		}
	}
}

func runs(c *lib.Cases) {
	for end := range ends {
		for server := range servers {
			for set := 0; set < 1<<len(parts); set++ {
				for silent := 0; silent < 2; silent++ {
					if c.Quick && server > 0 && server < 4 && (set&(set-1) != 0 || set > 0 && silent == 1) && set != 1<<len(parts)-1 {
						// the thorough tier runs all subsets
						continue
					}
					o := opts{set, server, end, silent == 1, (set+server+end)%2 == 0}
					c.Add(fmt.Sprint(end, server, set, silent), func() {
						o.run()
						c.State("%v", o)
						c.Step(1)
					})
				}
			}
		}
	}
}

// given lists when the server of each report of a run is given up, with all
// sequences of what the server does to the first attempts.
func givenUp(c *lib.Cases) {
	depth := 3
	if c.Quick {
		depth = 2
	}
	for end := 0; end < 6; end++ {
		for last := 1; last < 4; last++ {
			c.Seqs(fmt.Sprintf("%d %d ", end, last), 4, depth, func(seq []int) func() {
				return func() {
					o := opts{server: last, end: end}
					n := 0
					base := func(k int) env.Reply {
						switch k {
						case 1:
							return env.Reply{Err: errors.New("unavailable")}
						case 2:
							return env.Reply{Nack: true}
						case 3:
							return env.Reply{Hang: true}
						}
						return env.Reply{}
					}
					o.with(func(w *env.World) {
						w.Server = func(a *env.Attempt) env.Reply {
							n++
							if n <= len(seq) {
								return base(seq[n-1])
							}
							return base(last)
						}
					})
					c.State("%d %d %v", end, last, seq)
					c.Step(len(seq) + 1)
				}
			})
		}
	}
}

// with runs with another server.
func (o opts) with(f func(w *env.World)) {
	w := &env.World{Host: "zqname7"}
	f(w)
	args := []string{"--id", "zqid7", "--host", "zqhost7:80", "--rule", "zqrule7|boom", "--insecure"}
	code := 0
	switch o.end {
	case 1:
		code = 3
	case 2:
		args = append(args, "--timeout-kill", "2500ms", "--timeout-warn", "1500ms")
	case 4:
		args = append(args, "--memory-kill", "2M", "--memory-warn", "1M")
	case 5:
		args = append(args, "--creates", "/zqfile7/not")
	}
	w.Child = func(p *env.Proc) {
		p.Mem(3000)
		p.Stdout("zqout7 boom\n")
		p.Stderr("zqerr7 boom\n")
		if o.end == 3 || o.end == 2 || o.end == 4 {
			p.Forever()
		}
		p.Exit(code)
	}
	monx.Begin(w, append(args, "--", "zqcmd7", "zqarg7")...)
	if o.end == 3 {
		mc.GoNamed("user", func() { mc.Sleep(500 * time.Millisecond); env.W.Kill(syscall.SIGTERM) })
	}
	env.W.AwaitExit()
	if !env.W.Exited {
		mc.Fail("crash", "%v: the monitor died: %s", o, env.W.Died)
	}
	o.private()
}

// race: schedules of the end of the retry window.
func race() {
	o := opts{server: 1 + mc.Choose(3, "server"), end: 1}
	o.with(func(w *env.World) {
		w.Server = func(a *env.Attempt) env.Reply {
			switch {
			case a.At < 59*time.Minute && o.server != 3:
				return env.Reply{Nack: true, Delay: 59*time.Minute + 58*time.Second}
			case o.server == 1:
				return env.Reply{Err: errors.New("unavailable"), Delay: time.Second}
			case o.server == 2:
				return env.Reply{Nack: true, Delay: time.Second}
			}
			return env.Reply{Hang: true}
		}
	})
	mc.Outcome(fmt.Sprint(o.server, len(env.W.Attempts), len(env.W.Rollbar)))
}

func main() {
	cfg := mc.Config{Race: true, LeaksOK: true}
	lib.Main("C36", []lib.Scenario{
		{Name: "runs", Weight: 4, What: "7 ends by 5 servers by all subsets of 7 faults (none, one or all where the server fails for good in the quick tier) with error reports on and off", Seq: runs},
		{Name: "given-up", Weight: 3, What: "all sequences of 2 (3) answers to the first attempts before a server that fails for good, for 6 ends", Seq: givenUp},
		{Name: "window", Cfg: cfg, MaxBound: 2, Weight: 2, What: "schedules of the end of the retry window of three reports", Body: race},
	})
}
