//go:build go1.22

package main

import (
	"fmt"
	"os"
	"os/exec"
	"strings"
	"syscall"
	"time"

	"github.com/BTBurke/monny/mc/env"
	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/pb"
	"github.com/BTBurke/monny/vh/lib"
	"github.com/BTBurke/monny/vh/monx"
)

const ms = time.Millisecond

// fault is how one kind of write fails.
type fault struct {
	err error
	n   int // how much is written all the same: -1 all but a byte
}

var faults = []fault{{syscall.ENOSPC, 0}, {syscall.EIO, 1}, {syscall.EAGAIN, -1}}

func (f fault) of(b []byte) (int, error) {
	n := f.n
	if n < 0 {
		n = len(b) - 1
	}
	if n > len(b)-1 {
		n = len(b) - 1
	}
	return n, &os.PathError{Op: "write", Path: "/dev/stdout", Err: f.err}
}

// sink makes writes of a standard stream fail and remembers which.
type sink struct {
	failed [][]byte
}

// spoil makes the writes that bad selects fail.
func spoil(f *env.File, fl fault, bad func(i int, b []byte) bool) *sink {
	s := &sink{}
	i := 0
	f.OnWrite = func(b []byte) (int, error) {
		i++
		if bad(i-1, b) {
			s.failed = append(s.failed, append([]byte(nil), b...))
			return fl.of(b)
		}
		return len(b), nil
	}
	return s
}

// touched decides whether a write that failed had to do with a line.
func (s *sink) touched(line string) bool {
	for _, b := range s.failed {
		t := strings.Trim(string(b), "\n")
		if strings.Contains(string(b), line) || t != "" && strings.Contains(line, t) {
			return true
		}
	}
	return false
}

// spoiledText is true if the text of a line was in a write that failed.
func (s *sink) spoiledText() bool {
	for _, b := range s.failed {
		if strings.Trim(string(b), "\r\n") != "" {
			return true
		}
	}
	return false
}

// echoed checks that all lines that nothing happened to were echoed in order.
func echoed(desc string, f *env.File, s *sink, lines []string) {
	text := f.Text()
	if s == nil {
		want := ""
		for _, l := range lines {
			want += l + "\n"
		}
		if text != want {
			mc.Fail("echo", "%s: %s has %s, want %s", desc, f.Name(), monx.Short(text), monx.Short(want))
		}
		return
	}
	at := 0
	for _, l := range lines {
		if s.touched(l) {
			continue
		}
		i := strings.Index(text[at:], l)
		if i < 0 || strings.Count(text, l) != 1 {
			mc.Fail("echo", "%s: the writes %q to %s failed; line %q was not, but it is not once and in order in %s", desc, s.failed, f.Name(), l, monx.Short(text))
		}
		at += i + len(l)
	}
}

func texts(name string, n int) (out []string) {
	for i := 0; i < n; i++ {
		t := fmt.Sprintf("%s line %d;", name, i)
		if i%3 == 1 {
			t += " boom"
		}
		out = append(out, t)
	}
	return
}

// finished checks the end of a run and returns its completion report.
func finished(desc string, code int) monx.Report {
	if !env.W.Exited {
		mc.Fail("crash", "%s: the monitor died: %s", desc, env.W.Died)
	}
	if len(env.W.Procs) != 1 {
		mc.Fail("run", "%s: %d programs were run: %s", desc, len(env.W.Procs), env.W.Printed.String())
	}
	p := env.W.Procs[0]
	if !p.Gone || p.Status.Signaled() {
		mc.Fail("end", "%s: the program was not left to end: %v", desc, p.Status)
	}
	var done []monx.Report
	for _, r := range monx.Received() {
		switch r.ReportReason {
		case pb.ReportReason_Success, pb.ReportReason_Failure:
			done = append(done, r)
		case pb.ReportReason_Killed, pb.ReportReason_FileNotCreated, pb.ReportReason_MemoryWarning:
			mc.Fail("report", "%s: a report of %s", desc, r.ReportReason)
		}
	}
	if len(done) != 1 || int(done[0].ExitCode) != code || done[0].Success != (code == 0) {
		mc.Fail("report", "%s: the program ended with status %d, and these reports were sent: %v", desc, code, done)
	}
	return done[0]
}

// recorded checks the histories and the matches.
func recorded(desc string, r monx.Report, out, errs []string) {
	if !monx.SameLines(r.Stdout, out) || !monx.SameLines(r.Stderr, errs) {
		mc.Fail("history", "%s: the last report has the lines %s and %s, want %s and %s", desc, monx.Short(r.Stdout), monx.Short(r.Stderr), monx.Short(out), monx.Short(errs))
	}
	want := map[string]bool{}
	for _, l := range append(append([]string(nil), out...), errs...) {
		if strings.Contains(l, "boom") {
			want[l] = true
		}
	}
	got := map[string]bool{}
	for _, r := range monx.Of(monx.Received(), pb.ReportReason_Alert) {
		for _, m := range r.Matched {
			if !want[m.Line] {
				mc.Fail("match", "%s: a match in line %q", desc, m.Line)
			}
			got[m.Line] = true
		}
	}
	for l := range want {
		if !got[l] {
			mc.Fail("match", "%s: no alert has the match in %q", desc, l)
		}
	}
}

// echo: writes to the own output fail in all patterns.
func echo(c *lib.Cases) {
	lines := 4
	writes := 6
	if !c.Quick {
		lines, writes = 5, 9
	}
	for which := 1; which < 4; which++ {
		for f, fl := range faults {
			for mode := 0; mode < 3; mode++ {
				for mask := 1; mask < 1<<writes; mask++ {
					if mode > 0 && mask >= writes {
						break
					}
					for silent := 0; silent < 2; silent++ {
						if silent == 1 && mask%7 != 1 {
							continue
						}
						c.Add(fmt.Sprint(which, f, mode, mask, silent), func() {
							bad := func(i int, b []byte) bool { return mask>>i&1 == 1 }
							pat := fmt.Sprintf("pattern %b", mask)
							switch mode {
							case 1:
								bad = func(i int, b []byte) bool { return i >= mask-1 }
								pat = fmt.Sprintf("all from %d", mask-1)
							case 2:
								bad = func(i int, b []byte) bool { return strings.Contains(string(b), fmt.Sprintf("line %d;", mask-1)) }
								pat = fmt.Sprintf("all of line %d", mask-1)
							}
							desc := fmt.Sprintf("writes to standard streams %b fail (%s) with %v after %d bytes, silent %d", which, pat, fl.err, fl.n, silent)
							out, errs := texts("out", lines), texts("err", lines)
							args := []string{"--rule", "boom"}
							if silent == 1 {
								args = append(args, "--no-error-reports")
							}
							monx.Prepare(&env.World{PipeChunks: 1, Child: func(p *env.Proc) {
								for i := range out {
									p.Stdout(out[i] + "\n")
									p.Stderr(errs[i] + "\n")
									if i == 1 {
										p.Sleep(time.Second)
									}
								}
								p.Exit(4)
							}}, monx.Args(args...)...)
							var s1, s2 *sink
							if which&1 != 0 {
								s1 = spoil(env.Stdout, fl, bad)
							}
							if which&2 != 0 {
								s2 = spoil(env.Stderr, fl, bad)
							}
							monx.Launch()
							env.W.AwaitExit()
							r := finished(desc, 4)
							recorded(desc, r, out, errs)
							echoed(desc, env.Stdout, s1, out)
							echoed(desc, env.Stderr, s2, errs)
							if e := env.Elapsed(); e > 1100*ms {
								mc.Fail("late", "%s: the run took %v", desc, e)
							}
							told := len(env.W.Rollbar)
							if silent == 1 && told > 0 {
								mc.Fail("error report", "%s: error reports in spite of the option: %q", desc, env.W.Rollbar)
							}
							if silent == 0 && told == 0 && (s1 != nil && s1.spoiledText() || s2 != nil && s2.spoiledText()) {
								mc.Fail("error report", "%s: no error report", desc)
							}
							c.State("%d %d %d %d", which, f, mode, mask)
							c.Step(2*lines + 1)
						})
					}
				}
			}
		}
	}
}

// long: many failing writes, or a few far into a long run.
func long(c *lib.Cases) {
	for _, n := range []int{40, 300, 1200} {
		for which := 1; which < 4; which++ {
			for f, fl := range faults {
				for pi, bad := range []func(line int) bool{
					func(l int) bool { return true },
					func(l int) bool { return l%2 == 0 },
					func(l int) bool { return l%17 == 3 },
					func(l int) bool { return l < 2*n/3 },
					func(l int) bool { return l > n/3 },
					func(l int) bool { return l == n-1 },
				} {
					if c.Quick && n > 300 && (f+pi)%3 != 0 {
						continue
					}
					c.Add(fmt.Sprint(n, which, f, pi), func() {
						desc := fmt.Sprintf("%d lines on each stream, writes of pattern %d to standard streams %b fail with %v after %d bytes", n, pi, which, fl.err, fl.n)
						out, errs := texts("out", n), texts("err", n)
						for i := range out { // only the first and the last lines match
							if i > 5 && i < n-4 {
								out[i], errs[i] = strings.TrimSuffix(out[i], " boom"), strings.TrimSuffix(errs[i], " boom")
							}
						}
						fails := func(i int, b []byte) bool {
							t := string(b)
							k := strings.Index(t, "line ")
							if k < 0 {
								return false
							}
							l := -1
							fmt.Sscanf(t[k:], "line %d;", &l)
							return l >= 0 && bad(l)
						}
						monx.Prepare(&env.World{PipeChunks: 1, Child: func(p *env.Proc) {
							for i := range out {
								p.Stdout(out[i] + "\n")
								p.Stderr(errs[i] + "\n")
								if i%100 == 99 {
									p.Sleep(100 * ms)
								}
							}
							p.Exit(4)
						}}, monx.Args("--rule", "boom", "--stdout-history", "3000", "--stderr-history", "3000")...)
						var s1, s2 *sink
						if which&1 != 0 {
							s1 = spoil(env.Stdout, fl, fails)
						}
						if which&2 != 0 {
							s2 = spoil(env.Stderr, fl, fails)
						}
						monx.Launch()
						env.W.AwaitExit()
						r := finished(desc, 4)
						recorded(desc, r, out, errs)
						echoed(desc, env.Stdout, s1, out)
						echoed(desc, env.Stderr, s2, errs)
						if e := env.Elapsed(); e > time.Duration(n)*ms+1100*ms {
							mc.Fail("late", "%s: the run took %v", desc, e)
						}
						if len(env.W.Rollbar) == 0 && (s1 != nil && s1.spoiledText() || s2 != nil && s2.spoiledText()) {
							mc.Fail("error report", "%s: no error report", desc)
						}
						c.State("%d %d %d %d", n, which, f, pi)
						c.Step(n)
					})
				}
			}
		}
	}
}

// look is what a look at the memory of the program meets.
type look struct {
	name string
	kb   uint64
	err  error
	text string
}

var looks = []look{
	{name: "3000 kB", kb: 3000},
	{name: "1000 kB", kb: 1000},
	{name: "no such file", err: syscall.ENOENT},
	{name: "not permitted", err: syscall.EACCES},
	{name: "no such process", err: syscall.ESRCH},
	{name: "empty", text: ""},
	{name: "garbage", text: "\x00\x01\x02\nPss\nPss:\n\nPss: kB\n:\nPss:\t\n"},
	{name: "words", text: "00400000-00401000 r--p\nPss:      many kB\n"},
	{name: "overflow", text: "00400000-00401000 r--p\nPss: 99999999999999999999999 kB\n"},
	{name: "negative", text: "00400000-00401000 r--p\nPss: -5 kB\n"},
	{name: "long", text: "00400000-00401000 r--p " + strings.Repeat("/path", 20000) + "\nPss: 500 kB\n"},
	{name: "cut", text: "00400000-00401000 r--p\nPss:       500 kB\n00401000-00402000 r--p\nPss:       5"},
}

func (l look) fine() bool { return l.kb > 0 }

// memory: looks at the memory fail in all sequences.
func memory(c *lib.Cases) {
	depth := 3
	if c.Quick {
		depth = 2
	}
	for limits := 0; limits < 4; limits++ {
		for follow := 0; follow < 3; follow++ {
			c.Seqs(fmt.Sprintf("%d %d ", limits, follow), len(looks), depth, func(seq []int) func() {
				return func() {
					var names []string
					seen := []look{}
					for _, k := range seq {
						seen = append(seen, looks[k])
					}
					if follow > 0 {
						seen = append(seen, looks[follow-1])
					}
					for _, l := range seen {
						names = append(names, l.name)
					}
					desc := fmt.Sprintf("looks at the memory: %s; limits %d", strings.Join(names, ", "), limits)
					var args []string
					if limits&1 != 0 {
						args = append(args, "--memory-warn", "2M")
					}
					if limits&2 != 0 {
						args = append(args, "--memory-kill", "2M")
					}
					// the first fine look that finds too much
					over, max := -1, uint64(0)
					for i, l := range seen {
						if over >= 0 && limits&2 != 0 {
							break
						}
						if l.kb > 2000 && over < 0 {
							over = i
						}
						if l.kb > max {
							max = l.kb
						}
					}
					w := &env.World{Child: func(p *env.Proc) {
						p.Mem(100)
						p.Sleep(time.Duration(len(seen))*time.Second + 500*ms)
						p.Exit(0)
					}}
					w.ProcFS = func(path string, b []byte, err error) ([]byte, error) {
						i := int(env.Elapsed()/time.Second) - 1
						if i < 0 || i >= len(seen) || err != nil {
							return b, err
						}
						l := seen[i]
						switch {
						case l.err != nil:
							return nil, &os.PathError{Op: "open", Path: path, Err: l.err}
						case l.fine():
							return []byte(fmt.Sprintf("00400000-00401000 r--p 00000000 00:00 0\nRss: 9999 kB\nPss: %14d kB\nSwapPss: 77 kB\n", l.kb)), nil
						}
						return []byte(l.text), nil
					}
					monx.Main(w, monx.Args(args...)...)
					if !env.W.Exited {
						mc.Fail("crash", "%s: the monitor died: %s", desc, env.W.Died)
					}
					var reasons []pb.ReportReason
					if over >= 0 && limits&1 != 0 {
						reasons = append(reasons, pb.ReportReason_MemoryWarning)
					}
					end := pb.ReportReason_Success
					if over >= 0 && limits&2 != 0 {
						end = pb.ReportReason_Killed
					}
					reasons = append(reasons, end)
					rs := monx.Received()
					if len(rs) != len(reasons) {
						mc.Fail("report", "%s: these reports were sent: %s, want %v", desc, monx.Reasons(rs), reasons)
					}
					for _, want := range reasons {
						l := monx.Of(rs, want)
						if len(l) != 1 {
							mc.Fail("report", "%s: these reports were sent: %s, want %v", desc, monx.Reasons(rs), reasons)
						}
						r := l[0]
						if want == end {
							m := r.MaxMemory
							lo, hi := max, max
							// what a cut list has may count
							if hi < 505 {
								hi = 505
							}
							if m < lo || m > hi {
								mc.Fail("memory", "%s: the greatest memory is reported as %d", desc, m)
							}
						}
						at := time.Duration(over+1) * time.Second
						if want != pb.ReportReason_Success && (r.A.At < at || r.A.At > at+100*ms) {
							mc.Fail("late", "%s: %s at %v, due at %v", desc, want, r.A.At, at)
						}
					}
					c.State("%d %d %v", limits, follow, seq)
					c.Step(len(seen))
				}
			})
		}
	}
}

// start: programs that cannot be started.
func start(c *lib.Cases) {
	errs := []error{&os.PathError{Op: "fork/exec", Path: "/bin/prog", Err: syscall.ENOENT}, &os.PathError{Op: "fork/exec", Path: "/bin/prog", Err: syscall.EACCES}, syscall.ENOEXEC, syscall.EAGAIN, syscall.ENOMEM, &exec.Error{Name: "prog", Err: exec.ErrNotFound}}
	for i, e := range errs {
		for opt := 0; opt < 64; opt++ {
			c.Add(fmt.Sprint(i, opt), func() {
				desc := fmt.Sprintf("a program that can not be started (%v), options %d", e, opt)
				var args []string
				for k, a := range [][]string{{"--rule", "x"}, {"--timeout-kill", "1s"}, {"--timeout-warn", "1s", "--memory-warn", "1K"}, {"--daemon"}, {"--creates", "/f"}, {"--no-notify-on-failure", "--no-notify-on-success"}} {
					if opt>>k&1 == 1 {
						args = append(args, a...)
					}
				}
				monx.Prepare(&env.World{StartErr: e, Child: func(p *env.Proc) { p.Exit(0) }}, monx.Args(args...)...)
				if opt&1 != 0 {
					ch := make(chan []byte)
					env.Stdin.SetPipe(ch)
				}
				monx.Launch()
				env.W.AwaitExit()
				if !env.W.Exited {
					mc.Fail("crash", "%s: the monitor died: %s", desc, env.W.Died)
				}
				if env.W.Code == 0 {
					mc.Fail("exit", "%s: the exit status is 0", desc)
				}
				if env.W.Printed.Len()+len(env.Stdout.Text())+len(env.Stderr.Text()) == 0 {
					mc.Fail("message", "%s: there is no message", desc)
				}
				for _, r := range monx.Received() {
					if r.Success || r.ReportReason != pb.ReportReason_Failure {
						mc.Fail("report", "%s: reported as %s", desc, r.ReportReason)
					}
				}
				if env.Elapsed() > 100*ms {
					mc.Fail("late", "%s: the monitor ended after %v", desc, env.Elapsed())
				}
				c.State("%d %d", i, opt)
				c.Step(1)
			})
		}
	}
}

// together: all subsets of faults at once.
func together(c *lib.Cases) {
	parts := []string{"standard output", "standard error", "memory", "host name", "standard input", "expected file", "report server", "error reports off"}
	for set := 0; set < 1<<len(parts); set++ {
		for prog := 0; prog < 3; prog++ {
			c.Add(fmt.Sprint(set, prog), func() {
				has := func(i int) bool { return set>>i&1 == 1 }
				var bad []string
				for i, p := range parts {
					if has(i) {
						bad = append(bad, p)
					}
				}
				desc := fmt.Sprintf("faults of %s, program %d", strings.Join(bad, ", "), prog)
				out, errs := texts("out", 4), texts("err", 4)
				args := []string{"--rule", "boom", "--creates", "/data/file", "--timeout-warn", "1500ms", "--memory-warn", "1G"}
				fails := 0
				w := &env.World{PipeChunks: 1, Child: func(p *env.Proc) {
					for i := range out {
						p.Stdout(out[i] + "\n")
						p.Stderr(errs[i] + "\n")
						if i == prog {
							p.Sleep(2 * time.Second)
						}
					}
					p.Exit(prog)
				}, Files: map[string]*env.FileData{"/data/file": {Data: []byte("x"), Mode: 0o644}}}
				if has(2) {
					w.ProcFS = func(path string, b []byte, err error) ([]byte, error) {
						return nil, &os.PathError{Op: "open", Path: path, Err: syscall.EACCES}
					}
				}
				if has(3) {
					w.HostErr = &os.SyscallError{Syscall: "uname", Err: syscall.EPERM}
				}
				if has(5) {
					w.Files["/data/file"].Err = syscall.EIO
				}
				if has(6) {
					w.Server = func(a *env.Attempt) env.Reply {
						if fails++; fails%2 == 1 {
							return env.Reply{Err: fmt.Errorf("unavailable")}
						}
						return env.Reply{}
					}
				}
				if has(7) {
					args = append(args, "--no-error-reports")
				}
				monx.Prepare(w, monx.Args(args...)...)
				var s1, s2 *sink
				always := func(i int, b []byte) bool { return true }
				if has(0) {
					s1 = spoil(env.Stdout, faults[0], always)
				}
				if has(1) {
					s2 = spoil(env.Stderr, faults[0], always)
				}
				if has(4) {
					env.Stdin.StatErr = syscall.EBADF
				}
				monx.Launch()
				env.W.AwaitExit()
				r := finished(desc, prog)
				recorded(desc, r, out, errs)
				echoed(desc, env.Stdout, s1, out)
				echoed(desc, env.Stderr, s2, errs)
				if n := len(monx.Of(monx.Received(), pb.ReportReason_TimeWarning)); n != 1 {
					mc.Fail("warning", "%s: %d time warnings", desc, n)
				}
				host := "testhost"
				if has(3) {
					host = ""
				}
				for _, r := range monx.Received() {
					if r.Hostname != host && !has(3) || r.Id != "id" {
						mc.Fail("report", "%s: a report of %q from %q", desc, r.Id, r.Hostname)
					}
				}
				if (r.MaxMemory == 0) != has(2) {
					mc.Fail("memory", "%s: the greatest memory is reported as %d", desc, r.MaxMemory)
				}
				if !has(5) && (len(r.Files) != 1 || r.Files[0].Size != 1) {
					mc.Fail("file", "%s: the files of the report are %v", desc, r.Files)
				}
				if has(7) && len(env.W.Rollbar) > 0 {
					mc.Fail("error report", "%s: error reports in spite of the option: %q", desc, env.W.Rollbar)
				}
				c.State("%d %d", set, prog)
				c.Step(1)
			})
		}
	}
}

// broken: schedules of a run whose output streams fail at some time.
func broken() {
	k := mc.Choose(3, "first write that fails")
	out, errs := texts("out", 2), texts("err", 2)
	monx.Prepare(&env.World{PipeChunks: 1, Child: func(p *env.Proc) {
		p.Stdout(out[0] + "\n")
		p.Stderr(errs[0] + "\n")
		p.Stdout(out[1] + "\n")
		p.Stderr(errs[1] + "\n")
		p.Exit(4)
	}}, monx.Args("--rule", "boom")...)
	s := spoil(env.Stdout, faults[0], func(i int, b []byte) bool { return i >= k })
	monx.Launch()
	env.W.AwaitExit()
	r := finished("a broken standard output", 4)
	recorded("a broken standard output", r, out, errs)
	echoed("a broken standard output", env.Stdout, s, out)
	echoed("a broken standard output", env.Stderr, nil, errs)
	mc.Outcome(fmt.Sprintf("%q", env.Stdout.Text()))
}

func main() {
	cfg := mc.Config{Race: true, LeaksOK: true}
	lib.Main("C35", []lib.Scenario{
		{Name: "echo", Weight: 4, What: "all patterns of failing writes among the first 6 (9) of either or both streams, with three kinds of errors and partial writes", Seq: echo},
		{Name: "long", Weight: 2, What: "up to 1200 lines on each stream, of which all, every second, some, the first, the later ones or the last can not be written, three kinds of errors", Seq: long},
		{Name: "memory", Weight: 4, What: "all sequences of up to 2 (3) looks at the memory of 12 kinds, before a fine one, with and without limits", Seq: memory},
		{Name: "start", What: "6 errors of starting a program with all combinations of options", Seq: start},
		{Name: "together", Weight: 2, What: "all 256 subsets of faults of eight parts of the surroundings", Seq: together},
		{Name: "broken-output", Cfg: cfg, MaxBound: 3, Weight: 3, What: "schedules of a run whose standard output fails from some write on", Body: broken},
	})
}
