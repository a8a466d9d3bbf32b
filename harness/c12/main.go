//go:build go1.22

package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/BTBurke/monny/mc/env"
	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/pb"
	"github.com/BTBurke/monny/vh/lib"
	"github.com/BTBurke/monny/vh/monx"
)

// want is an expected file.
type want struct {
	path   string
	exists bool
	known  bool // whether it exists can be found out
	name   string
	size   int64
	time   time.Time
}

// kinds of expected files; i makes the paths different.
var kindNames = []string{"missing", "existing", "under a file", "created by the command", "removed by the command", "directory", "no access", "empty, relative", "in a missing directory", "large and old", "link to a file", "link to nothing"}

const nKinds = 12

var t0 = time.Date(2020, 2, 3, 4, 5, 6, 7, time.UTC)

func expected(w *env.World, kind, i int) want {
	put := func(p string, d *env.FileData) {
		if w.Files == nil {
			w.Files = map[string]*env.FileData{}
		}
		if d.MTime.IsZero() {
			d.MTime = t0.Add(time.Duration(i) * time.Hour)
		}
		w.Files[p] = d
	}
	x := want{known: true, exists: true, name: fmt.Sprintf("f%d.txt", i), size: int64(10 + i)}
	x.path = "/data/dir/" + x.name
	switch kind {
	case 0:
		x.exists = false
	case 1:
		put(x.path, &env.FileData{Data: make([]byte, x.size), Mode: 0o644})
	case 2:
		put(fmt.Sprintf("/plain%d", i), &env.FileData{Mode: 0o644})
		x.path = fmt.Sprintf("/plain%d/%s", i, x.name)
		x.exists = false
	case 3: // see child
	case 4:
		put(x.path, &env.FileData{Mode: 0o644, Cond: func() bool { return len(w.Procs) == 0 || !w.Procs[0].Gone }})
		x.exists = false
	case 5:
		x.size = 4096
		put(x.path, &env.FileData{Size: 4096, Mode: os.ModeDir | 0o755})
	case 6:
		put(x.path, &env.FileData{Err: syscall.EACCES})
		x.known = false
	case 7:
		x.path, x.name, x.size = fmt.Sprintf("rel %d é", i), fmt.Sprintf("rel %d é", i), 0
		put(x.path, &env.FileData{Mode: 0})
	case 8:
		x.path = fmt.Sprintf("/no/such/dir/%d/%s", i, x.name)
		x.exists = false
	case 10:
		put(fmt.Sprintf("/target/of %d", i), &env.FileData{Data: make([]byte, x.size), Mode: 0o644, MTime: t0.Add(-time.Hour)})
		put(x.path, &env.FileData{Link: fmt.Sprintf("/target/of %d", i)})
	case 11:
		put(x.path, &env.FileData{Link: "/no/such/file"})
		x.exists = false
	case 9:
		x.size = 1<<60 + int64(i)
		put(x.path, &env.FileData{Size: x.size, Mode: 0o600, MTime: time.Date(1901, 1, 2, 3, 4, 5, 123456789, time.FixedZone("x", 3600))})
	}
	if d := w.Files[x.path]; d != nil {
		if d.Link != "" && w.Files[d.Link] != nil {
			d = w.Files[d.Link]
		}
		x.time = d.MTime
	}
	return x
}

// create does what the command does about the files.
func create(p *env.Proc, w *env.World, kinds []int, xs []want) {
	for i, k := range kinds {
		if k == 3 {
			p.Create(xs[i].path, strings.Repeat("x", int(xs[i].size)))
		}
	}
}

func show(rs []monx.Report) string {
	var s []string
	for _, r := range rs {
		s = append(s, fmt.Sprintf("%s %q %+v", r.ReportReason, r.Messages, r.Files))
	}
	return strings.Join(s, "; ")
}

// check decides about a run with expected files; completion tells that a
// completion report is wanted.
func check(desc string, xs []want, completion bool) string {
	w := env.W
	if !w.Exited {
		mc.Fail("crash", "%s: the monitor died: %s", desc, w.Died)
	}
	for i, x := range xs {
		if d := w.Files[x.path]; x.exists && x.known && x.time.IsZero() && d != nil {
			xs[i].time = d.MTime
		}
	}
	rs := monx.Received()
	fnc := monx.Of(rs, pb.ReportReason_FileNotCreated)
	var missing []want
	unknown := 0
	for _, x := range xs {
		if x.known && !x.exists {
			missing = append(missing, x)
		}
		if !x.known {
			unknown++
		}
	}
	if n := len(fnc); n < len(missing) || n > len(missing)+unknown {
		mc.Fail("count", "%s: %d missing files, %d reports: %s", desc, len(missing), n, show(rs))
	}
	// a report of its own for every missing file
	names := func(r monx.Report, x want) bool {
		for _, m := range r.Messages {
			if strings.Contains(m, x.path) {
				return true
			}
		}
		return false
	}
	used := make([]bool, len(fnc))
	var assign func(i int) bool
	assign = func(i int) bool {
		if i == len(missing) {
			return true
		}
		for j, r := range fnc {
			if !used[j] && names(r, missing[i]) {
				used[j] = true
				if assign(i + 1) {
					return true
				}
				used[j] = false
			}
		}
		return false
	}
	if !assign(0) {
		mc.Fail("names", "%s: the reports do not name the missing files: %s", desc, show(rs))
	}
	for _, r := range fnc {
		if r.Success {
			mc.Fail("success", "%s: a file-not-created report of a successful run: %s", desc, show(rs))
		}
	}
	for _, r := range rs {
		for _, x := range xs {
			if x.exists && x.known && names(r, x) {
				mc.Fail("existing", "%s: %s exists, but a report complains: %s", desc, x.path, show(rs))
			}
		}
	}
	// existing files
	files := func(r monx.Report, all bool) {
		left := append([]monx.File(nil), r.Files...)
	next:
		for _, x := range xs {
			if !x.exists || !x.known {
				continue
			}
			for i, f := range left {
				if f.Path == x.name && f.Size == x.size && f.Time.Equal(x.time) {
					left = append(left[:i:i], left[i+1:]...)
					continue next
				}
			}
			if all {
				mc.Fail("record", "%s: the %s report does not have %+v: %+v", desc, r.ReportReason, x, r.Files)
			}
		}
		if len(left) > unknown {
			mc.Fail("record", "%s: the %s report has wrong files %+v", desc, r.ReportReason, r.Files)
		}
	}
	done := 0
	for _, r := range rs {
		c := r.ReportReason == pb.ReportReason_Success || r.ReportReason == pb.ReportReason_Failure
		if c {
			done++
		}
		files(r, c)
	}
	if completion && done == 0 {
		mc.Fail("completion", "%s: no completion report: %s", desc, show(rs))
	}
	var s []string
	for _, r := range rs {
		s = append(s, fmt.Sprintf("%s %d %d", r.ReportReason, len(r.Messages), len(r.Files)))
	}
	sort.Strings(s)
	return strings.Join(s, ", ")
}

func describe(kinds []int) string {
	var s []string
	for _, k := range kinds {
		s = append(s, kindNames[k])
	}
	return strings.Join(s, ", ")
}

// ends of the command
var ends = []func(p *env.Proc){
	func(p *env.Proc) { p.Exit(0) },
	func(p *env.Proc) { p.Exit(1) },
	func(p *env.Proc) { p.Crash(syscall.SIGSEGV) },
	func(p *env.Proc) { p.Exit(255) },
}

// settings of the run
var settings = [][]string{nil, {"--no-notify-on-success"}, {"--no-notify-on-failure"}, {"--daemon", "--rule", "x"}}

func wanted(end, set int) bool {
	return !(set == 1 && end == 0 || set == 2 && end != 0)
}

// lists: all lists of expected files.
func lists(c *lib.Cases) {
	n := 3
	if !c.Quick {
		n = 4
	}
	for d := 0; d <= n; d++ {
		for end := range ends {
			for set := range settings {
				if d == n && (end > 1 || set != 0 && c.Quick) {
					continue
				}
				c.Seqs(fmt.Sprint(end, set, " "), nKinds, d, func(kinds []int) func() {
					return func() {
						w := &env.World{}
						var xs []want
						args := append([]string(nil), settings[set]...)
						for i, k := range kinds {
							xs = append(xs, expected(w, k, i))
							args = append(args, "--creates", xs[i].path)
						}
						w.Child = func(p *env.Proc) {
							create(p, w, kinds, xs)
							ends[end](p)
						}
						monx.Main(w, monx.Args(args...)...)
						desc := fmt.Sprintf("files %s, end %d, setting %d", describe(kinds), end, set)
						c.State("%s %v", check(desc, xs, wanted(end, set)), kinds)
						c.Step(len(kinds) + 1)
					}
				})
			}
		}
	}
}

// many files
func many(c *lib.Cases) {
	for n := 5; n <= 40; n += 7 {
		for every := 1; every < 10; every++ {
			for _, yaml := range []bool{false, true} {
				c.Add(fmt.Sprint(n, every, yaml), func() {
					w := &env.World{}
					var xs []want
					var kinds []int
					var args []string
					doc := "creates:\n"
					for i := 0; i < n; i++ {
						k := i * every % nKinds
						kinds = append(kinds, k)
						xs = append(xs, expected(w, k, i))
						args = append(args, "--creates", xs[i].path)
						doc += "- " + xs[i].path + "\n"
					}
					w.Child = func(p *env.Proc) { create(p, w, kinds, xs) }
					if yaml {
						if w.Files == nil {
							w.Files = map[string]*env.FileData{}
						}
						w.Files["/etc/monny.yml"] = &env.FileData{Data: []byte(doc), Mode: 0o644}
						args = []string{"-c", "/etc/monny.yml"}
					}
					monx.Main(w, monx.Args(args...)...)
					c.State("%d %d %s", n, every, check(fmt.Sprintf("%d files, file %v", n, yaml), xs, true))
					c.Step(n)
				})
			}
		}
	}
}

// server faults: every report of a missing file is delivered.
func faults(c *lib.Cases) {
	replies := []env.Reply{{}, {Nack: true}, {Delay: 2 * time.Second}, {Nack: true, Delay: 1500 * time.Millisecond}}
	n := 3
	if !c.Quick {
		n = 4
	}
	for _, kinds := range [][]int{{0}, {0, 1}, {1, 0}, {0, 2}, {0, 1, 8}} {
		for end := 0; end < 2; end++ {
			c.Seqs(fmt.Sprint(kinds, end, " "), len(replies), n, func(seq []int) func() {
				return func() {
					w := &env.World{Server: func(a *env.Attempt) env.Reply {
						if a.N < len(seq) {
							return replies[seq[a.N]]
						}
						return env.Reply{}
					}}
					var xs []want
					var args []string
					for i, k := range kinds {
						xs = append(xs, expected(w, k, i))
						args = append(args, "--creates", xs[i].path)
					}
					w.Child = func(p *env.Proc) { ends[end](p) }
					monx.Main(w, monx.Args(args...)...)
					c.State("%v %s", seq, check(fmt.Sprintf("files %s, answers %v", describe(kinds), seq), xs, true))
					c.Step(len(seq))
				}
			})
		}
	}
}

// killed commands: files that exist are never missed.
func killed(c *lib.Cases) {
	for why := 0; why < 3; why++ {
		c.Seqs(fmt.Sprint(why, " "), nKinds, 2, func(kinds []int) func() {
			return func() {
				w := &env.World{}
				var xs []want
				var args []string
				for i, k := range kinds {
					x := expected(w, k, i)
					xs = append(xs, x)
					args = append(args, "--creates", x.path)
				}
				w.Child = func(p *env.Proc) {
					create(p, w, kinds, xs)
					if why == 1 {
						p.Mem(5000)
					}
					p.Forever()
				}
				switch why {
				case 0:
					args = append(args, "--timeout-kill", "5s")
				case 1:
					args = append(args, "--memory-kill", "1M")
				}
				monx.Begin(w, monx.Args(args...)...)
				if why == 2 {
					mc.Sleep(3 * time.Second)
					w.Kill(syscall.SIGTERM)
				}
				w.AwaitExit()
				for _, r := range monx.Received() {
					for i, x := range xs {
						for _, m := range r.Messages {
							if x.exists && x.known && strings.Contains(m, x.path) {
								mc.Fail("existing", "%s exists (%s), but a report complains: %q", x.path, kindNames[kinds[i]], r.Messages)
							}
						}
					}
				}
				c.State("%d %v", why, kinds)
				c.Step(2)
			}
		})
	}
}

// body explores the schedules.
func body(end int, kinds ...int) func() {
	return func() {
		w := &env.World{Server: func(a *env.Attempt) env.Reply {
			if a.N == 0 && mc.Choose(2, "server") == 1 {
				return env.Reply{Nack: true}
			}
			return env.Reply{}
		}}
		var xs []want
		var args []string
		for i, k := range kinds {
			xs = append(xs, expected(w, k, i))
			args = append(args, "--creates", xs[i].path)
		}
		w.Child = func(p *env.Proc) {
			create(p, w, kinds, xs)
			ends[end](p)
		}
		monx.Main(w, monx.Args(args...)...)
		mc.Outcome(check("schedule, files "+describe(kinds), xs, true))
	}
}

// withOutput: files are checked while lines and alerts are handled.
func withOutput() {
	w := &env.World{}
	var xs []want
	args := []string{"--rule", "x"}
	for i, k := range []int{0, 1} {
		xs = append(xs, expected(w, k, i))
		args = append(args, "--creates", xs[i].path)
	}
	w.Child = func(p *env.Proc) {
		p.Stdout("x\n")
		p.Stderr("y\n")
	}
	monx.Main(w, monx.Args(args...)...)
	mc.Outcome(check("command with output", xs, true))
}

// atOnce: the command ends when a warning is due.
func atOnce() {
	w := &env.World{}
	var xs []want
	args := []string{"--timeout-warn", "2s", "--memory-warn", "1"}
	for i, k := range []int{1, 0} {
		xs = append(xs, expected(w, k, i))
		args = append(args, "--creates", xs[i].path)
	}
	w.Child = func(p *env.Proc) {
		p.Mem(7)
		p.Sleep(2 * time.Second)
	}
	monx.Main(w, monx.Args(args...)...)
	mc.Outcome(check("command ending with warnings", xs, true))
}

func main() {
	cfg := mc.Config{LeaksOK: true}
	lib.Main("C12", []lib.Scenario{
		{Name: "lists", Weight: 4, What: "all lists of up to 3 (4) expected files of 12 kinds, 4 ends of the command, 4 settings", Seq: lists},
		{Name: "many", What: "up to 40 files, from the command line and a configuration file", Seq: many},
		{Name: "faults", What: "all sequences of 3 (4) answers of 4 kinds for up to three files", Seq: faults},
		{Name: "killed", What: "all pairs of files when the command is killed for 3 reasons", Seq: killed},
		{Name: "missing", Cfg: cfg, MaxBound: 3, What: "schedules with a missing file", Body: body(0, 0)},
		{Name: "missing-failed", Cfg: cfg, MaxBound: 3, What: "schedules with two missing files and a failed command", Body: body(1, 0, 2)},
		{Name: "mixed", Cfg: cfg, MaxBound: 3, What: "schedules with missing and existing files", Body: body(0, 1, 0, 3)},
		{Name: "three", Cfg: cfg, MaxBound: 3, What: "schedules with three missing files", Body: body(0, 0, 8, 0)},
		{Name: "output", Cfg: cfg, MaxBound: 3, What: "schedules with lines and an alert before the end", Body: withOutput},
		{Name: "warnings", Cfg: cfg, MaxBound: 3, What: "schedules with warnings at the end", Body: atOnce},
	})
}
