//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/BTBurke/monny/mc/env"
	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/vh/lib"
	"github.com/BTBurke/monny/vh/monx"
)

// step is something that happened.
type step struct {
	at    time.Duration
	fd    int
	line  string
	match int // how many rules match
	mem   uint64
}

// run is a run with everything that is known about it.
type run struct {
	desc     string
	steps    []step
	conf     monx.Config
	start    time.Duration
	ended    bool // finished on its own
	end      time.Duration
	code     int // -1: a signal
	missing  []string
	existing []string
	warnAt   time.Duration // 0: no warning
	warnMem  uint64
	killAt   time.Duration // 0: not killed
	killWhy  uint64
	timed    bool // what happens has different times
}

// report is a report with its attempts.
type report struct {
	*message
	wire        string
	first, last time.Duration
	n           int
}

func (r *report) String() string {
	return fmt.Sprintf("the %s report of %v", r.name(), r.first)
}

func reports() (out []*report) {
	by := map[string]*report{}
	for _, a := range env.W.Attempts {
		r := by[string(a.Wire)]
		if r == nil {
			r = &report{message: decode(a.Wire), wire: string(a.Wire), first: a.At}
			by[string(a.Wire)] = r
			out = append(out, r)
		}
		r.last = a.At
		r.n++
	}
	return
}

// moment gives the time of a run in seconds as in reports.
func moment(d time.Duration) int64 { return mc.TimeNow().Add(d - env.Elapsed()).Unix() }

func (r *run) fail(kind string, x *report, f string, a ...interface{}) {
	mc.Fail(kind, "%s: %v: %s", r.desc, x, fmt.Sprintf(f, a...))
}

// check decides about all reports of a run.
func (r *run) check() {
	if !env.W.Exited {
		mc.Fail("crash", "%s: the monitor died: %s", r.desc, env.W.Died)
	}
	count := map[uint64]int{}
	rs := reports()
	matching := 0
	for _, s := range r.steps {
		if s.match > 0 {
			matching++
		}
	}
	for _, x := range rs {
		count[x.reason]++
		r.fixed(x)
		r.triggered(x)
	}
	// a report that was built does not change: one encoding for each
	limits := map[uint64]int{success: 1, failure: 1, alert: matching, memoryWarning: 1, timeWarning: 1, fileNotCreated: len(r.missing), killed: 1}
	for reason, n := range count {
		if n > limits[reason] {
			var s []string
			for _, x := range rs {
				if x.reason == reason {
					s = append(s, fmt.Sprintf("%d times from %v: %+v", x.n, x.first, *x.message))
				}
			}
			mc.Fail("changed", "%s: %d different reports for %s, at most %d expected: %s", r.desc, n, reasonNames[reason%10], limits[reason], monx.Short(s))
		}
	}
}

// fixed checks what is the same in all reports of a run.
func (r *run) fixed(x *report) {
	if x.id != norm(r.conf.ID) && norm(x.id) != norm(r.conf.ID) {
		r.fail("id", x, "identifier %q, want %q", x.id, r.conf.ID)
	}
	if norm(x.host) != norm(r.conf.Hostname) {
		r.fail("host", x, "host name %q, want %q", x.host, r.conf.Hostname)
	}
	if want := strings.Join(r.conf.Argv, " "); norm(x.command) != norm(want) {
		r.fail("command", x, "command %s, want %s", monx.Short(x.command), monx.Short(want))
	}
	if x.start != moment(r.start) {
		r.fail("start", x, "start %d, want %d", x.start, moment(r.start))
	}
	var c monx.Config
	if err := json.Unmarshal(x.rawConfig, &c); err != nil {
		r.fail("config", x, "%v", err)
	}
	want := r.conf
	c.Host, c.TLS, c.Silent, c.Argv = want.Host, want.TLS, want.Silent, want.Argv
	for _, v := range []*monx.Config{&c, &want} {
		v.ID, v.Hostname = norm(v.ID), norm(v.Hostname)
		v.Creates = append([]string(nil), v.Creates...)
		for i := range v.Creates {
			v.Creates[i] = norm(v.Creates[i])
		}
	}
	if c.Key() != want.Key() {
		r.fail("config", x, "%s\nwant %s", c.Key(), want.Key())
	}
}

// trigger gives the times at which a report may have been triggered.
func (r *run) triggers(x *report) (out []time.Duration) {
	add := func(t time.Duration) {
		if t <= x.first {
			out = append(out, t)
		}
	}
	switch x.reason {
	case alert:
		for _, s := range r.steps {
			if s.match > 0 {
				add(s.at)
			}
		}
	case success:
		if r.ended && r.code == 0 {
			add(r.end)
		}
	case failure:
		if r.ended && r.code != 0 {
			add(r.end)
		}
	case fileNotCreated:
		if r.ended && len(r.missing) > 0 {
			add(r.end)
		}
	case timeWarning:
		if r.warnAt > 0 {
			add(r.start + r.warnAt)
		}
	case memoryWarning:
		if r.warnMem > 0 {
			for _, s := range r.steps {
				if s.mem >= r.warnMem {
					add(s.at)
				}
			}
		}
	case killed:
		if r.killAt > 0 {
			add(r.killAt)
		}
	}
	return
}

// triggered checks that a report is the state at some time since its trigger.
func (r *run) triggered(x *report) {
	ts := r.triggers(x)
	if len(ts) == 0 {
		r.fail("reason", x, "nothing happened before that is a reason: %+v", *x.message)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
	from := ts[0]
	if x.createdAt < moment(from) || x.createdAt > moment(x.first) {
		r.fail("created", x, "built at %d, triggered at %d, sent at %d", x.createdAt, moment(from), moment(x.first))
	}
	// times at which the state changed
	times := append([]time.Duration(nil), ts...)
	for _, s := range r.steps {
		times = append(times, s.at)
	}
	times = append(times, r.end, r.killAt)
	why := ""
	for _, t := range times {
		if t < from || t > x.first {
			continue
		}
		// what triggered it must be part of the state
		if x.reason == alert {
			ok := false
			for _, s := range r.steps {
				ok = ok || s.match > 0 && s.at <= t && hasLine(x, s)
			}
			if !ok {
				why = "the alert has no match"
				continue
			}
		}
		if why = r.state(x, t); why == "" {
			return
		}
	}
	x.rawConfig, x.rawMatches, x.config = nil, nil, nil
	r.fail("state", x, "%s: %s", why, monx.Short(fmt.Sprintf("%+v", *x.message)))
}

func hasLine(x *report, s step) bool {
	for _, m := range x.matches {
		if norm(m.Line) == norm(s.line) {
			return true
		}
	}
	return false
}

// state tells how a report differs from the state at a time.
func (r *run) state(x *report, t time.Duration) string {
	// with simultaneous events any number of those of the last instant counts
	var streams [2][]string
	var least [2]int
	mems := map[uint64]bool{0: true, 100: true} // what the model measures at first
	for _, s := range r.steps {
		if s.at > t {
			continue
		}
		if s.fd > 0 {
			streams[s.fd-1] = append(streams[s.fd-1], s.line)
			if r.timed || s.at < t {
				least[s.fd-1] = len(streams[s.fd-1])
			}
		}
		if s.mem > 0 {
			mems[s.mem] = true
		}
	}
	over := r.ended && t >= r.end
	for i, got := range [][]string{x.out, x.err} {
		ok := false
		lo := least[i]
		if x.reason == success || x.reason == failure || x.reason == fileNotCreated {
			lo = len(streams[i])
		}
		n := r.conf.StdoutHistory
		if i == 1 {
			n = r.conf.StderrHistory
		}
		for k := lo; k <= len(streams[i]); k++ {
			ok = ok || same(got, last(streams[i][:k], n))
		}
		if !ok {
			return fmt.Sprintf("history of stream %d is %s at %v, %s was written", i+1, monx.Short(got), t, monx.Short(streams[i]))
		}
	}
	if !mems[x.maxMemory] || x.reason == memoryWarning && x.maxMemory < r.warnMem {
		return fmt.Sprintf("maximum memory %d at %v", x.maxMemory, t)
	}
	for _, m := range x.matches {
		ok := false
		for _, s := range r.steps {
			ok = ok || s.match > 0 && norm(m.Line) == norm(s.line) && s.at <= t && moment(s.at) == m.Time.Unix() && m.Time.Equal(mc.TimeNow().Add(s.at-env.Elapsed()))
		}
		if !ok {
			return fmt.Sprintf("match %+v at %v", m, t)
		}
	}
	dead := r.killAt > 0 && t >= r.killAt
	may := func(got, now bool, certain bool) bool { return got == now || !certain && !got }
	certain := r.timed || x.reason == success || x.reason == failure || x.reason == fileNotCreated || x.reason == killed
	if !may(x.killed, dead, certain) {
		return fmt.Sprintf("killed is %v at %v", x.killed, t)
	}
	if x.killed && x.killReason != r.killWhy || !x.killed && x.killReason != 0 {
		return fmt.Sprintf("the kill reason is %d", x.killReason)
	}
	if !may(x.codeValid, over, certain) {
		return fmt.Sprintf("exit status valid is %v at %v", x.codeValid, t)
	}
	if x.codeValid && r.code >= 0 && int(x.code) != r.code || !x.codeValid && x.code != 0 {
		return fmt.Sprintf("exit status %d", x.code)
	}
	ok := over && r.code == 0
	if len(r.missing) > 0 {
		if x.reason == fileNotCreated {
			ok = false
		} else if over {
			ok = x.success && ok // depends on how many files were checked
		}
	}
	if !may(x.success, ok, certain) {
		return fmt.Sprintf("success is %v at %v", x.success, t)
	}
	fin := r.end
	if r.killAt > 0 {
		fin = r.killAt
	}
	d := (fin - r.start)
	set := x.finish > 0 || x.duration != "0s" && x.duration != ""
	if !may(set, over || dead, certain) {
		return fmt.Sprintf("finish %d, duration %s at %v", x.finish, x.duration, t)
	}
	if set {
		got, err := time.ParseDuration(x.duration)
		if x.finish != moment(fin) || err != nil || got != d {
			return fmt.Sprintf("finish %d, duration %s, want %d and %v", x.finish, x.duration, moment(fin), d)
		}
	} else if x.finish != unfinished && x.finish != 0 {
		return fmt.Sprintf("finish %d", x.finish)
	}
	if len(x.messages) > 0 && !over {
		return fmt.Sprintf("messages %q at %v", x.messages, t)
	}
	for _, m := range x.messages {
		found := false
		for _, f := range r.missing {
			found = found || strings.Contains(m, norm(f))
		}
		if !found {
			return fmt.Sprintf("message %q", m)
		}
	}
	if x.reason == success || x.reason == failure {
		all := strings.Join(x.messages, "\n")
		for _, f := range r.missing {
			if !strings.Contains(all, norm(f)) {
				return fmt.Sprintf("no message about %q", f)
			}
		}
	}
	if len(x.created) > 0 && !over || (x.reason == success || x.reason == failure) && len(x.created) != len(r.existing) {
		return fmt.Sprintf("created %+v at %v", x.created, t)
	}
	for _, f := range x.created {
		found := false
		for _, p := range r.existing {
			d := env.W.Files[p]
			found = found || p == "/"+f.Path && f.Size == int64(len(d.Data)) && f.Time.Equal(d.MTime)
		}
		if !found {
			return fmt.Sprintf("created %+v", f)
		}
	}
	return ""
}

// say makes the command write a line.
func (r *run) say(p *env.Proc, fd int, line string, match int) {
	r.steps = append(r.steps, step{at: env.Elapsed(), fd: fd, line: line, match: match})
	if fd == 1 {
		p.Stdout(line + "\n")
	} else {
		p.Stderr(line + "\n")
	}
}

func (r *run) mem(p *env.Proc, kb uint64) {
	r.steps = append(r.steps, step{at: env.Elapsed(), mem: kb})
	p.Mem(kb)
}

// finish makes the command end on its own.
func (r *run) finish(p *env.Proc, code int) {
	r.ended, r.end, r.code = true, env.Elapsed(), code
	if code < 0 {
		p.Crash(syscall.SIGABRT)
	}
	p.Exit(code)
}

// expect adds expected files.
func (r *run) expect(w *env.World, missing, existing []string) (args []string) {
	r.missing, r.existing = missing, existing
	for _, f := range append(append([]string(nil), missing...), existing...) {
		args = append(args, "--creates", f)
		r.conf.Creates = append(r.conf.Creates, f)
	}
	for _, f := range existing {
		if w.Files == nil {
			w.Files = map[string]*env.FileData{}
		}
		w.Files[f] = &env.FileData{Data: []byte(f), Mode: 0o600, MTime: time.Date(2019, 1, 2, 3, 4, 5, 6, time.UTC)}
	}
	return
}

func (r *run) begin(w *env.World, args []string) {
	if r.conf.Hostname != "" {
		w.Host = r.conf.Hostname
	}
	if r.conf.Argv == nil {
		r.conf.Argv = []string{"prog"}
	}
	if r.conf.ID == "" {
		r.conf.ID = "id"
	}
	args = append([]string{"-i", r.conf.ID, "--host", "srv:80", "--insecure"}, args...)
	monx.Begin(w, append(append(args, "--"), r.conf.Argv...)...)
	d := monx.Defaults()
	r.conf.Hostname = d.Hostname
	r.conf.Shell = d.Shell
	r.conf.NotifyOnSuccess, r.conf.NotifyOnFailure = true, true
}

func newRun(desc string) *run {
	return &run{desc: desc, timed: true, conf: monx.Config{StdoutHistory: 30, StderrHistory: 30}}
}

func (r *run) rule(regex string) []string {
	r.conf.AddRule("", regex)
	return []string{"--rule", regex}
}

// values of texts
var texts = []string{"a", "", "a b", "é ü 世", "\xff", "a\xc3(b\xe2\x82", "q\"uo'te\\", "<&>\u2028", "\x00\x01\x7f", "%s%d%!", strings.Repeat("long é ", 9000), "\ufffd", "-i", "{\"a\":1}", "\ufeff", "\t"}

// values: all texts in all fields, all exit codes.
func values(c *lib.Cases) {
	one := func(id string, f func(r *run) (w *env.World, args []string, child func(p *env.Proc))) {
		c.Add(id, func() {
			r := newRun(id)
			w, args, child := f(r)
			if w == nil {
				w = &env.World{}
			}
			w.Child = func(p *env.Proc) {
				child(p)
				r.finish(p, 0)
			}
			r.begin(w, args)
			w.AwaitExit()
			r.check()
			if len(env.W.Attempts) == 0 {
				mc.Fail("none", "%s: no report", id)
			}
			c.State("%s", id)
			c.Step(1)
		})
	}
	quiet := func(p *env.Proc) { p.Sleep(1500 * time.Millisecond) }
	for i, t := range texts {
		if !strings.ContainsAny(t, "\x00") {
			if t != "" {
				one(fmt.Sprintf("id %d", i), func(r *run) (*env.World, []string, func(p *env.Proc)) {
					r.conf.ID = t
					return nil, nil, quiet
				})
			}
			for j, u := range texts {
				if strings.ContainsAny(u, "\x00") {
					continue
				}
				one(fmt.Sprintf("command %d %d", i, j), func(r *run) (*env.World, []string, func(p *env.Proc)) {
					r.conf.Argv = []string{"prog", t, u}
					return nil, nil, quiet
				})
				if t != "" && u != "" && i < j {
					one(fmt.Sprintf("files %d %d", i, j), func(r *run) (*env.World, []string, func(p *env.Proc)) {
						w := &env.World{}
						return w, r.expect(w, []string{"/no/" + t, "/no/x" + u}, nil), quiet
					})
				}
			}
		}
		one(fmt.Sprintf("host %d", i), func(r *run) (*env.World, []string, func(p *env.Proc)) {
			r.conf.Hostname = t
			return nil, nil, quiet
		})
		for j, u := range texts {
			for match := 0; match < 2; match++ {
				one(fmt.Sprintf("lines %d %d %d", i, j, match), func(r *run) (*env.World, []string, func(p *env.Proc)) {
					var args []string
					if match == 1 {
						args = r.rule("^|.")
					}
					return nil, args, func(p *env.Proc) {
						p.Sleep(100 * time.Millisecond)
						r.say(p, 1, t, match)
						p.Sleep(1300 * time.Millisecond)
						r.say(p, 2, u, match)
						p.Sleep(1300 * time.Millisecond)
					}
				})
			}
		}
	}
	for n := 4; n <= 40; n += 4 {
		one(fmt.Sprintf("many files %d", n), func(r *run) (*env.World, []string, func(p *env.Proc)) {
			w := &env.World{}
			var missing, existing []string
			for i := 0; i < n; i++ {
				missing, existing = append(missing, fmt.Sprintf("/no/file%02d", i)), append(existing, fmt.Sprintf("/there%02d", i))
			}
			return w, r.expect(w, missing[:n*3/4], existing), quiet
		})
		one(fmt.Sprintf("many arguments and rules %d", n), func(r *run) (*env.World, []string, func(p *env.Proc)) {
			r.conf.Argv = []string{"prog"}
			var args []string
			for i := 0; i < n*n; i++ {
				r.conf.Argv = append(r.conf.Argv, fmt.Sprint("arg", i))
			}
			for i := 0; i < n; i++ {
				args = append(args, r.rule(fmt.Sprintf("^line%d$", i))...)
			}
			return nil, args, func(p *env.Proc) {
				p.Sleep(time.Second)
				r.say(p, 1, fmt.Sprintf("line%d", n-1), 1)
				p.Sleep(2 * time.Second)
			}
		})
	}
	for code := -1; code < 256; code++ {
		for k := 0; k < 2; k++ {
			one(fmt.Sprintf("code %d %d", code, k), func(r *run) (*env.World, []string, func(p *env.Proc)) {
				w := &env.World{}
				var args []string
				if k == 1 {
					args = r.expect(w, []string{"/missing"}, []string{"/there"})
				}
				return w, args, func(p *env.Proc) {
					p.Sleep(time.Duration(code+2) * 123456789 * time.Nanosecond)
					r.finish(p, code)
				}
			})
		}
	}
	for b := 0; b < 54; b += 1 {
		one(fmt.Sprintf("memory %d", b), func(r *run) (*env.World, []string, func(p *env.Proc)) {
			r.conf.MemoryWarn, r.warnMem = 4, 4
			return nil, []string{"--memory-warn", "4"}, func(p *env.Proc) {
				p.Sleep(500 * time.Millisecond)
				r.mem(p, 1<<uint(b)|1)
				p.Sleep(time.Second)
				r.mem(p, 2)
				p.Sleep(time.Second)
			}
		})
	}
}

// ends of a command in a timeline
const nEnds = 8

// timelines: all sequences of events with all ends, with failing deliveries.
func timelines(c *lib.Cases) {
	const ops = 7
	n := 3
	if !c.Quick {
		n = 4
	}
	for d := 0; d <= n; d++ {
		for end := 0; end < nEnds; end++ {
			for pat := 0; pat < 3; pat++ {
				if pat > 0 && d < 2 {
					continue
				}
				c.Seqs(fmt.Sprint(end, pat, " "), ops, d, func(seq []int) func() {
					return func() { timeline(c, seq, end, pat) }
				})
			}
		}
	}
}

func timeline(c *lib.Cases, seq []int, end, pat int) {
	r := newRun(fmt.Sprintf("events %v, end %d, answers %d", seq, end, pat))
	w := &env.World{Server: func(a *env.Attempt) env.Reply {
		switch {
		case pat == 1 && a.N%2 == 0:
			return env.Reply{Nack: true}
		case pat == 2 && a.N%3 != 1:
			return env.Reply{Nack: a.N%3 == 0, Delay: 1700 * time.Millisecond}
		}
		return env.Reply{}
	}}
	args := append(r.rule("match"), r.rule("^m.*er 2")...)
	r.conf.MemoryWarn, r.warnMem = 300, 300
	r.conf.NotifyTimeout, r.warnAt = 2475*time.Millisecond, 2475*time.Millisecond
	r.conf.StdoutHistory = 2
	args = append(args, "--memory-warn", "300", "--timeout-warn", "2475ms", "--stdout-history", "2")
	stop := 50*time.Millisecond + time.Duration(len(seq))*1100*time.Millisecond
	switch end {
	case 3:
		args = append(args, r.expect(w, []string{"/a", "/no/b"}, []string{"/c"})...)
	case 4:
		args = append(args, r.expect(w, []string{"/a"}, []string{"/c", "/d"})...)
	case 5:
		r.conf.KillTimeout, r.killAt, r.killWhy = stop+time.Millisecond, stop+time.Millisecond, 1
		args = append(args, "--timeout-kill", fmt.Sprint(r.killAt))
	case 6:
		r.conf.MemoryKill, r.killWhy = 9000, 2
		args = append(args, "--memory-kill", "9000")
	}
	w.Child = func(p *env.Proc) {
		var mem uint64 = 200
		p.Sleep(50 * time.Millisecond)
		for i, o := range seq {
			switch o {
			case 0, 1:
				r.say(p, 1+o, fmt.Sprintf("plain %d", i), 0)
			case 2, 3:
				r.say(p, o-1, fmt.Sprintf("match number %d", i), 1)
			case 4:
				mem += 100
				r.mem(p, mem)
			case 5:
				mem -= 50
				r.mem(p, mem)
			case 6:
				r.mem(p, 500)
			}
			p.Sleep(1100 * time.Millisecond)
		}
		switch end {
		case 0, 3:
			r.finish(p, 0)
		case 1, 4:
			r.finish(p, 77)
		case 2:
			r.finish(p, -1)
		case 6:
			// found at the next second
			now := env.Elapsed()
			r.killAt = now.Truncate(time.Second) + time.Second
			r.mem(p, 9001)
		case 7:
			r.killAt, r.killWhy = env.Elapsed(), 3
			p.Sleep(0)
			mc.GoNamed("user", func() { w.Kill(syscall.SIGTERM) })
		}
		p.Forever()
	}
	r.begin(w, args)
	w.AwaitExit()
	r.check()
	c.State("%d %d %v", end, pat, seq)
	c.Step(len(seq) + 1)
}

// schedules of a run.
func schedule(desc string, args func(r *run, w *env.World) []string, child func(r *run, p *env.Proc), nacks int) func() {
	return func() {
		r := newRun(desc)
		r.timed = false
		w := &env.World{Server: func(a *env.Attempt) env.Reply {
			if a.N < nacks && mc.Choose(2, "server") == 1 {
				return env.Reply{Nack: true}
			}
			return env.Reply{}
		}}
		a := args(r, w)
		w.Child = func(p *env.Proc) {
			child(r, p)
			if r.killAt == 0 {
				r.finish(p, 0)
			}
			p.Forever()
		}
		r.begin(w, a)
		w.AwaitExit()
		r.check()
		var s []string
		for _, x := range reports() {
			s = append(s, fmt.Sprintf("%s %q %q %d", x.name(), x.out, x.err, len(x.matches)))
		}
		sort.Strings(s)
		mc.Outcome(strings.Join(s, "; "))
	}
}

func main() {
	cfg := mc.Config{Race: true, LeaksOK: true}
	rules := func(r *run, w *env.World) []string { return r.rule("match") }
	warn := func(r *run, w *env.World) []string {
		r.conf.MemoryWarn, r.warnMem = 4, 4
		r.conf.NotifyTimeout, r.warnAt = time.Second, time.Second
		return append(r.rule("match"), "--memory-warn", "4", "--timeout-warn", "1s")
	}
	lib.Main("C13", []lib.Scenario{
		{Name: "values", Weight: 3, What: "16 texts in every text field (all pairs for lines, arguments and files), all exit statuses, memory of all magnitudes", Seq: values},
		{Name: "timelines", Weight: 4, What: "all sequences of up to 3 (4) events of 7 kinds, 8 ends of the command, 3 patterns of answers", Seq: timelines},
		{Name: "alert", Cfg: cfg, MaxBound: 3, Weight: 2, What: "schedules of an alert that is retried while the command writes", Body: schedule("alert and lines", rules, func(r *run, p *env.Proc) {
			r.say(p, 1, "match 1", 1)
			r.say(p, 1, "plain 2", 0)
		}, 1)},
		{Name: "two-streams", Cfg: cfg, MaxBound: 3, Weight: 2, What: "schedules of lines on both streams", Body: schedule("two streams", rules, func(r *run, p *env.Proc) {
			r.say(p, 1, "match 1", 1)
			r.say(p, 2, "plain 2", 0)
		}, 1)},
		{Name: "history", Cfg: cfg, MaxBound: 3, Weight: 2, What: "schedules of an alert with a full history", Body: schedule("full history", func(r *run, w *env.World) []string {
			r.conf.StdoutHistory = 1
			return append(r.rule("match"), "--stdout-history", "1")
		}, func(r *run, p *env.Proc) {
			r.say(p, 1, "plain 1", 0)
			r.say(p, 1, "match 2", 1)
			r.say(p, 1, "plain 3", 0)
		}, 0)},
		{Name: "warnings", Cfg: cfg, MaxBound: 3, Weight: 2, What: "schedules of both warnings and a line at the same time", Body: schedule("warnings and a line", warn, func(r *run, p *env.Proc) {
			r.mem(p, 7)
			p.Sleep(time.Second)
			r.say(p, 1, "match 1", 1)
		}, 1)},
		{Name: "files", Cfg: cfg, MaxBound: 3, Weight: 2, What: "schedules of the end with missing files and a line", Body: schedule("missing files", func(r *run, w *env.World) []string {
			return append(r.rule("match"), r.expect(w, []string{"/a"}, []string{"/b"})...)
		}, func(r *run, p *env.Proc) {
			r.say(p, 2, "match 1", 1)
		}, 1)},
		{Name: "timeout", Cfg: cfg, MaxBound: 3, Weight: 2, What: "schedules of a kill while the command writes", Body: schedule("kill and lines", func(r *run, w *env.World) []string {
			r.conf.KillTimeout, r.killAt, r.killWhy = time.Second, time.Second, 1
			return append(r.rule("match"), "--timeout-kill", "1s")
		}, func(r *run, p *env.Proc) {
			p.Sleep(time.Second)
			r.say(p, 1, "match 1", 1)
			r.say(p, 2, "match 2", 1)
		}, 0)},
	})
}
