//go:build go1.22

// Package monx runs the monitor (the whole client, or its API) in a modelled
// environment and reads what it delivered.
package monx

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/BTBurke/monny/clientmain"
	"github.com/BTBurke/monny/mc/env"
	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/monny"
	"github.com/BTBurke/monny/pkg/pb"
)

// Match is a rule match as the report server reads it.
type Match struct {
	Time  time.Time
	Line  string
	Index [][]int
}

// File is an expected file as the report server reads it.
type File struct {
	Path string
	Size int64
	Time time.Time
}

// Report is a report as the report server reads it.
type Report struct {
	*pb.Report
	A       *env.Attempt
	Matched []Match
	Files   []File
	Conf    map[string]interface{}
}

// Lines are the lines of the matches.
func (r Report) Lines() (out []string) {
	for _, m := range r.Matched {
		out = append(out, m.Line)
	}
	return
}

func (r Report) String() string {
	return fmt.Sprintf("%s %v %q", r.ReportReason, r.A.At, r.Lines())
}

// Decode reads a delivery attempt.
func Decode(a *env.Attempt) Report {
	p, ok := a.Report.(*pb.Report)
	if !ok {
		mc.Fail("report", "a message of type %T was sent to %s", a.Report, a.Method)
	}
	r := Report{Report: p, A: a}
	for _, x := range []struct {
		n string
		b []byte
		v interface{}
	}{{"matches", p.Matches, &r.Matched}, {"created", p.Created, &r.Files}, {"config", p.Config, &r.Conf}} {
		if len(x.b) == 0 {
			continue
		}
		if err := json.Unmarshal(x.b, x.v); err != nil {
			mc.Fail("report", "the %s of a report can not be read: %v: %q", x.n, err, x.b)
		}
	}
	return r
}

// Received are the reports the server accepted, in order of acceptance.
func Received() (out []Report) {
	for _, a := range env.W.Received {
		out = append(out, Decode(a))
	}
	return
}

// Of selects the reports with a reason.
func Of(rs []Report, reason pb.ReportReason) (out []Report) {
	for _, r := range rs {
		if r.ReportReason == reason {
			out = append(out, r)
		}
	}
	return
}

// Reasons lists the reasons.
func Reasons(rs []Report) string {
	var out []string
	for _, r := range rs {
		out = append(out, r.ReportReason.String())
	}
	return strings.Join(out, " ")
}

// Main runs the client with a command line until it exits.
func Main(w *env.World, args ...string) {
	Begin(w, args...)
	env.W.AwaitExit()
}

// Begin starts the client.
func Begin(w *env.World, args ...string) {
	Prepare(w, args...)
	Launch()
}

// Prepare makes the environment of the client.
func Prepare(w *env.World, args ...string) {
	monny.SuppressErrorReporting = false
	env.Reset(w)
	env.Args = append([]string{"monny"}, args...)
}

// Launch starts the client in the prepared environment.
func Launch() { mc.GoNamed("monny", clientmain.Main) }

// Run is a run of the API.
type Run struct {
	C    *monny.Command
	Err  error
	Time time.Duration // when Exec returned
}

// API runs a command through the package.
func API(w *env.World, cmd []string, opts ...monny.ConfigOption) *Run {
	monny.SuppressErrorReporting = false
	env.Reset(w)
	c, errs := monny.New(cmd, opts...)
	if len(errs) > 0 {
		mc.Fail("config", "%v", errs)
	}
	r := &Run{C: c}
	r.Err = c.Exec()
	r.Time = env.Elapsed()
	if err := c.Wait(); err != nil {
		mc.Fail("wait", "%v", err)
	}
	return r
}

// Std are options for a private server.
var Std = []string{"-i", "id", "--host", "srv:80", "--insecure"}

// Args makes a command line.
func Args(opts ...string) []string {
	return append(append(append([]string(nil), Std...), opts...), "--", "prog")
}

// LinesOf is the specification of what the lines of a stream are.
func LinesOf(s string) []string {
	if s == "" {
		return nil
	}
	l := strings.Split(s, "\n")
	if l[len(l)-1] == "" {
		l = l[:len(l)-1]
	}
	return l
}

// SameLines compares up to the carriage return of a line end.
func SameLines(got, want []string) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if got[i] != want[i] && got[i] != strings.TrimSuffix(want[i], "\r") {
			return false
		}
	}
	return true
}

// Short abbreviates.
func Short(v interface{}) string {
	s := fmt.Sprintf("%q", v)
	if len(s) > 400 {
		s = s[:200] + "…" + s[len(s)-200:]
	}
	return s
}

// Config is the configuration of a run as the report server reads it.
type Config struct {
	ID                               string
	Rules                            []struct{ Field, Regex string }
	RuleQuantity                     int
	RulePeriod                       time.Duration
	Hostname                         string
	NotifyTimeout, KillTimeout       time.Duration
	MemoryWarn, MemoryKill           uint64
	Daemon                           bool
	Creates                          []string
	StdoutHistory, StderrHistory     int
	NotifyOnSuccess, NotifyOnFailure bool
	Shell                            string
	Host                             string   `json:"-"`
	TLS                              bool     `json:"-"`
	Silent                           bool     `json:"-"` // no error reports
	Argv                             []string `json:"-"`
}

// Defaults is the documented configuration when nothing is set.
func Defaults() Config {
	return Config{Hostname: env.W.Host, StdoutHistory: 30, StderrHistory: 30, NotifyOnSuccess: true, NotifyOnFailure: true, Shell: "/bin/sh", Host: "report.lmkwtf.com:443", TLS: true}
}

// Key is a text by which configurations are compared; the order of rules and
// of files is not significant.
func (c Config) Key() string {
	var rules []string
	for _, r := range c.Rules {
		rules = append(rules, fmt.Sprintf("%q:%q", r.Field, r.Regex))
	}
	sort.Strings(rules)
	files := append([]string{}, c.Creates...)
	sort.Strings(files)
	return fmt.Sprintf("id %q, rules %v, quantity %d, period %v, host name %q, warning after %v, kill after %v, memory warning %d, memory limit %d, daemon %v, creates %q, history %d %d, notify %v %v, shell %q, server %s, TLS %v, silent %v, command %q",
		c.ID, rules, c.RuleQuantity, c.RulePeriod, c.Hostname, c.NotifyTimeout, c.KillTimeout, c.MemoryWarn, c.MemoryKill, c.Daemon, files, c.StdoutHistory, c.StderrHistory, c.NotifyOnSuccess, c.NotifyOnFailure, c.Shell, c.Host, c.TLS, c.Silent, c.Argv)
}

// AddRule adds a rule.
func (c *Config) AddRule(field, regex string) {
	c.Rules = append(c.Rules[:len(c.Rules):len(c.Rules)], struct{ Field, Regex string }{field, regex})
}

// Observe runs the client with a command line and finds out by which
// configuration it works; nil if it refuses.
func Observe(desc string, w *env.World, args ...string) *Config {
	w.Child = func(p *env.Proc) { p.Forever() }
	Begin(w, args...)
	mc.GoNamed("user", func() {
		mc.Sleep(time.Millisecond)
		if len(w.Procs) > 0 && !w.Exited {
			w.Kill(syscall.SIGTERM)
		}
	})
	w.AwaitExit()
	if !w.Exited {
		mc.Fail("crash", "%s: the monitor died: %s", desc, w.Died)
	}
	if len(w.Procs) == 0 {
		if w.Code == 0 {
			mc.Fail("exit", "%s: nothing was run, but the exit status is 0: %q", desc, w.Printed.String())
		}
		if w.Printed.Len() == 0 {
			mc.Fail("message", "%s: refused without a message", desc)
		}
		if len(w.Attempts) > 0 {
			mc.Fail("report", "%s: refused, but reports were sent", desc)
		}
		return nil
	}
	if len(w.Attempts) != 1 {
		mc.Fail("report", "%s: %d reports", desc, len(w.Attempts))
	}
	a := w.Attempts[0]
	r := Decode(a)
	c := &Config{Host: a.Target, TLS: a.TLS, Silent: monny.SuppressErrorReporting, Argv: w.Procs[0].Argv}
	if err := json.Unmarshal(r.Config, c); err != nil {
		mc.Fail("report", "%s: the configuration can not be read: %v: %s", desc, err, r.Config)
	}
	if r.Id != c.ID || r.Hostname != c.Hostname {
		mc.Fail("report", "%s: id %q and host name %q, the configuration has %q and %q", desc, r.Id, r.Hostname, c.ID, c.Hostname)
	}
	return c
}

// NoNil checks a list of errors.
func NoNil(errs []error) {
	for _, e := range errs {
		if e == nil {
			mc.Fail("error", "a nil error in %v", errs)
		}
	}
}
