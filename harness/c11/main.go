//go:build go1.22

package main

import (
	"fmt"
	"net"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/BTBurke/monny/mc/env"
	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/monny"
	"github.com/BTBurke/monny/vh/lib"
	"github.com/BTBurke/monny/vh/monx"
)

func world() *env.World {
	return &env.World{Path: map[string]string{"zsh": "/usr/bin/zsh", "/bin/dash": "/bin/dash", "prog": "/bin/prog"}}
}

// state is the visible configuration of a created command.
type state struct {
	id                         string
	rules                      []string
	quantity                   int
	period, warnT, killT       time.Duration
	host                       string
	warnM, killM               uint64
	daemon                     bool
	creates                    []string
	outHist, errHist           int
	onSuccess, onFailure, mute bool
	shell                      string
}

func defaults() state {
	return state{host: env.W.Host, outHist: 30, errHist: 30, onSuccess: true, onFailure: true, shell: "/bin/sh"}
}

func ruleText(field, regex string) string { return fmt.Sprintf("%q:%q", field, regex) }

func stateOf(c *monny.Command) state {
	k := c.Config
	s := state{id: k.ID, quantity: k.RuleQuantity, period: k.RulePeriod, warnT: k.NotifyTimeout, killT: k.KillTimeout, host: k.Hostname, warnM: k.MemoryWarn, killM: k.MemoryKill, daemon: k.Daemon,
		outHist: k.StdoutHistory, errHist: k.StderrHistory, onSuccess: k.NotifyOnSuccess, onFailure: k.NotifyOnFailure, mute: monny.SuppressErrorReporting, shell: k.Shell}
	for _, r := range k.Rules {
		s.rules = append(s.rules, ruleText(r.Field, r.Regex.String()))
	}
	s.creates = append(s.creates, k.Creates...)
	return s
}

// option is an option with its meaning; nil if it is malformed.
type option struct {
	name string
	arg  string
	make func() monny.ConfigOption
	do   func(s *state)
	cli  []string
}

func (o option) String() string { return fmt.Sprintf("%s(%q)", o.name, o.arg) }

// create creates a command and compares.
func create(opts ...option) {
	monny.SuppressErrorReporting = false
	want := defaults()
	var fs []monny.ConfigOption
	invalid := 0
	for _, o := range opts {
		fs = append(fs, o.make())
		if o.do == nil {
			invalid++
		} else {
			o.do(&want)
		}
	}
	if want.id == "" {
		invalid++
	}
	c, errs := monny.New([]string{"prog", "x y", ""}, fs...)
	monx.NoNil(errs)
	if invalid > 0 {
		if c != nil || len(errs) == 0 {
			mc.Fail("accepted", "%v: a command %v with errors %v", opts, c != nil, errs)
		}
		for _, e := range errs {
			if e.Error() == "" {
				mc.Fail("message", "%v: an error without a message", opts)
			}
		}
		return
	}
	if c == nil || len(errs) != 0 {
		mc.Fail("refused", "%v: %v", opts, errs)
	}
	if got := stateOf(c); !reflect.DeepEqual(got, want) {
		mc.Fail("config", "%v: %+v\nwant %+v", opts, got, want)
	}
	if !reflect.DeepEqual(c.UserCommand, []string{"prog", "x y", ""}) {
		mc.Fail("command", "%v: %q", opts, c.UserCommand)
	}
}

var id = option{name: "ID", arg: "id", make: func() monny.ConfigOption { return monny.ID("id") }, do: func(s *state) { s.id = "id" }}

// kind is an option with a value: meaning tells what a value stands for (nil:
// malformed); either: both refusing and that meaning are right.
type kind struct {
	name    string
	flag    string
	abc     []string
	n, deep int
	make    func(v string) monny.ConfigOption
	meaning func(v string) (do func(s *state), either bool)
}

func (k kind) option(v string) (o option, either bool) {
	do, either := k.meaning(v)
	return option{k.name, v, func() monny.ConfigOption { return k.make(v) }, do, []string{"--" + k.flag + "=" + v}}, either
}

var number = regexp.MustCompile(`^-?[0-9]+$`)

func integer(set func(s *state, n int)) func(v string) (func(s *state), bool) {
	return func(v string) (func(s *state), bool) {
		w := v
		either := false
		if strings.HasPrefix(w, "+") {
			w, either = w[1:], true
		}
		if strings.HasPrefix(w, "-") {
			either = true
		}
		if !number.MatchString(w) {
			return nil, false
		}
		n, err := strconv.ParseInt(w, 10, 64)
		if err != nil {
			return nil, false
		}
		return func(s *state) { set(s, int(n)) }, either
	}
}

var memory = regexp.MustCompile(`^(-?[0-9]+)([KMG]?)$`)

func kilobytes(set func(s *state, n uint64)) func(v string) (func(s *state), bool) {
	return func(v string) (func(s *state), bool) {
		w := v
		either := false
		if strings.HasPrefix(w, "+") {
			w, either = w[1:], true
		}
		m := memory.FindStringSubmatch(w)
		if m == nil {
			return nil, false
		}
		n, err := strconv.ParseInt(m[1], 10, 64)
		if err != nil || n < 0 {
			return nil, false
		}
		scale := map[string]int64{"": 1, "K": 1, "M": 1000, "G": 1000000}[m[2]]
		if strings.HasPrefix(w, "-") {
			either = true
		}
		if n > (1<<63-1)/scale {
			return nil, false
		}
		return func(s *state) { set(s, uint64(n*scale)) }, either
	}
}

func duration(set func(s *state, d time.Duration)) func(v string) (func(s *state), bool) {
	return func(v string) (func(s *state), bool) {
		d, err := time.ParseDuration(v)
		if err != nil {
			return nil, false
		}
		return func(s *state) { set(s, d) }, d < 0 || strings.ContainsAny(v, "+-")
	}
}

var (
	digits   = []string{"0", "1", "9", "-", ".", " ", "x", "+", "_"}
	memABC   = []string{"0", "1", "9", "K", "M", "G", "k", "B", "-", ".", " ", "T"}
	timeABC  = []string{"0", "1", "5", ".", "h", "m", "s", "ms", "us", "ns", "-", " ", "d"}
	regexABC = []string{"a", "(", ")", "[", "]", "*", "+", "\\", "|", "?", "{", "1}", "^", "$", ".", " "}
)

var kinds = []kind{
	{"MemoryWarn", "memory-warn", memABC, 4, 6, monny.MemoryWarn, kilobytes(func(s *state, n uint64) { s.warnM = n })},
	{"MemoryKill", "memory-kill", memABC, 4, 6, monny.MemoryKill, kilobytes(func(s *state, n uint64) { s.killM = n })},
	{"NotifyTimeout", "timeout-warn", timeABC, 4, 6, monny.NotifyTimeout, duration(func(s *state, d time.Duration) { s.warnT = d })},
	{"KillTimeout", "timeout-kill", timeABC, 4, 5, monny.KillTimeout, duration(func(s *state, d time.Duration) { s.killT = d })},
	{"RulePeriod", "", timeABC, 4, 5, monny.RulePeriod, duration(func(s *state, d time.Duration) { s.period = d })},
	{"RuleQuantity", "", digits, 5, 6, monny.RuleQuantity, integer(func(s *state, n int) { s.quantity = n })},
	{"StdoutHistory", "stdout-history", digits, 5, 6, monny.StdoutHistory, integer(func(s *state, n int) { s.outHist = n })},
	{"StderrHistory", "stderr-history", digits, 5, 6, monny.StderrHistory, integer(func(s *state, n int) { s.errHist = n })},
	{"Rule", "rule", regexABC, 4, 5, monny.Rule, func(v string) (func(s *state), bool) {
		if _, err := regexp.Compile(v); err != nil {
			return nil, false
		}
		return func(s *state) { s.rules = append(s.rules, ruleText("", v)) }, false
	}},
	{"JSONRule", "", regexABC, 4, 5, func(v string) monny.ConfigOption { return monny.JSONRule("f.g", v) }, func(v string) (func(s *state), bool) {
		if _, err := regexp.Compile(v); err != nil {
			return nil, false
		}
		return func(s *state) { s.rules = append(s.rules, ruleText("f.g", v)) }, false
	}},
	{"ID", "id", []string{"a", "@", ".", " ", "1", "\xff"}, 5, 6, monny.ID, func(v string) (func(s *state), bool) {
		return func(s *state) { s.id = v }, false
	}},
	{"Creates", "creates", []string{"a", "/", ".", " ", "*", "\x00"}, 5, 6, monny.Creates, func(v string) (func(s *state), bool) {
		return func(s *state) { s.creates = append(s.creates, v) }, v == "" || strings.Contains(v, "\x00")
	}},
	{"Shell", "shell", []string{"zsh", "/bin/dash", "/", "a", " "}, 4, 5, monny.Shell, func(v string) (func(s *state), bool) {
		p, ok := env.W.Path[v]
		if !ok {
			return nil, false
		}
		return func(s *state) { s.shell = p }, false
	}},
}

// either checks an option for which refusing is right too.
func tolerant(o option) {
	monny.SuppressErrorReporting = false
	c, errs := monny.New([]string{"prog"}, id.make(), o.make())
	monx.NoNil(errs)
	if (c == nil) != (len(errs) > 0) {
		mc.Fail("result", "%v: a command %v with errors %v", o, c != nil, errs)
	}
	if c == nil {
		return
	}
	want := defaults()
	want.id = "id"
	o.do(&want)
	if got := stateOf(c); !reflect.DeepEqual(got, want) {
		mc.Fail("config", "%v: %+v\nwant %+v", o, got, want)
	}
}

// literals: all values of every option.
func literals(c *lib.Cases) {
	for ki, k := range kinds {
		max := k.n
		if !c.Quick {
			max = k.deep
		}
		for n := 0; n <= max; n++ {
			c.Seqs(fmt.Sprint(ki, " "), len(k.abc), n, func(seq []int) func() {
				v := ""
				for _, i := range seq {
					v += k.abc[i]
				}
				return func() {
					reset()
					o, either := k.option(v)
					switch {
					case either && o.do != nil:
						tolerant(o)
					default:
						create(id, o)
					}
					c.State("%s %q", k.name, v)
					c.Step(1)
				}
			})
		}
	}
}

// reset makes the world.
func reset() { env.Reset(world()) }

// large: values near the limits of the types.
func large(c *lib.Cases) {
	edges := []string{"127", "128", "255", "256", "32767", "32768", "65535", "65536", "999999", "1000000", "2147483647", "2147483648", "4294967295", "4294967296", "9007199254740993", "9223372036854775", "9223372036854776", "9223372036854", "9223372036855", "18446744073709", "18446744073710", "18446744073709551", "18446744073709552",
		"9223372036854775806", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999", "007", "08", "0x10", "1e3", "0b1", "0o7", "1,000", "１", "٣", "NaN", "Inf", "-1", "1.0", "00000000000000000000001"}
	units := map[string][]string{"Memory": {"", "K", "M", "G", "KB", "k", "GG", " G", "Mi"}, "Timeout": {"", "ns", "us", "µs", "ms", "s", "m", "h", "h1m", "d", "S"}, "": {"", " ", "K", "s"}}
	for ki, k := range kinds {
		if ki > 7 {
			break
		}
		u := units[""]
		if strings.HasPrefix(k.name, "Memory") {
			u = units["Memory"]
		} else if strings.HasSuffix(k.name, "Timeout") || k.name == "RulePeriod" {
			u = units["Timeout"]
		}
		for _, e := range edges {
			for _, unit := range u {
				v := e + unit
				c.Add(k.name+" "+v, func() {
					reset()
					o, either := k.option(v)
					switch {
					case either && o.do != nil:
						tolerant(o)
					case o.do == nil && strings.HasPrefix(k.name, "Memory") && memory.MatchString(v) && !strings.HasPrefix(v, "-"):
						// beyond the range: an error, or exact where uint64 holds it
						limit(k, v)
					default:
						create(id, o)
					}
					c.State("%s %q", k.name, v)
					c.Step(1)
				})
			}
		}
	}
}

// limit: a number that is too large must not become another one.
func limit(k kind, v string) {
	cmd, errs := monny.New([]string{"prog"}, id.make(), k.make(v))
	if cmd == nil && len(errs) > 0 {
		return
	}
	m := memory.FindStringSubmatch(v)
	n, err := strconv.ParseUint(m[1], 10, 64)
	scale := map[string]uint64{"": 1, "K": 1, "M": 1000, "G": 1000000}[m[2]]
	if err != nil || n*scale/scale != n || cmd == nil || len(errs) > 0 {
		mc.Fail("range", "%s(%q) is accepted", k.name, v)
	}
	got := cmd.Config.MemoryWarn
	if k.name == "MemoryKill" {
		got = cmd.Config.MemoryKill
	}
	if got != n*scale {
		mc.Fail("range", "%s(%q) is %d", k.name, v, got)
	}
}

// pool are valid and malformed values of all options.
func pool() []option {
	var out []option
	for _, x := range []struct {
		kind string
		vals []string
	}{
		{"MemoryWarn", []string{"5M", "7", "1T"}}, {"MemoryKill", []string{"2G", "3K", "G"}},
		{"NotifyTimeout", []string{"5m", "0", "5"}}, {"KillTimeout", []string{"1h1s", "2ms", "1x"}}, {"RulePeriod", []string{"10s", "3h", ""}},
		{"RuleQuantity", []string{"3", "1", "x"}}, {"StdoutHistory", []string{"0", "99", "1.5"}}, {"StderrHistory", []string{"1", "50", ""}},
		{"Rule", []string{"a|b", "", "("}}, {"JSONRule", []string{"^c$", ".", "["}},
		{"ID", []string{"x@y.z", "other", ""}}, {"Creates", []string{"/a", "b"}}, {"Shell", []string{"zsh", "/bin/dash", "nosuch"}},
	} {
		for _, k := range kinds {
			if k.name == x.kind {
				for _, v := range x.vals {
					o, _ := k.option(v)
					out = append(out, o)
				}
			}
		}
	}
	out = append(out,
		option{name: "NoNotifyOnSuccess", make: monny.NoNotifyOnSuccess, do: func(s *state) { s.onSuccess = false }},
		option{name: "NoNotifyOnFailure", make: monny.NoNotifyOnFailure, do: func(s *state) { s.onFailure = false }},
		option{name: "Daemon", make: monny.Daemon, do: func(s *state) { s.daemon = true }},
		option{name: "Insecure", make: monny.Insecure, do: func(s *state) {}},
		option{name: "NoErrorReports", make: monny.NoErrorReports, do: func(s *state) { s.mute = true }},
		option{name: "Host", arg: "srv:80", make: func() monny.ConfigOption { return monny.Host("srv:80") }, do: func(s *state) {}},
		option{name: "Host", arg: "srv", make: func() monny.ConfigOption { return monny.Host("srv") }},
	)
	return out
}

// combined: all sequences of options.
func combined(c *lib.Cases) {
	env.Reset(world())
	all := pool()
	n := 2
	if !c.Quick {
		n = 3
	}
	for d := 0; d <= n; d++ {
		c.Seqs("", len(all), d, func(seq []int) func() {
			return func() {
				reset()
				all := pool()
				var os []option
				for _, i := range seq {
					os = append(os, all[i])
				}
				// the identifier before and after the others, and missing
				create(append([]option{id}, os...)...)
				hasID := false
				for _, o := range os {
					hasID = hasID || o.name == "ID"
				}
				if !hasID {
					create(append(append([]option(nil), os...), id)...)
				}
				create(os...)
				c.State("%v", seq)
				c.Step(3)
			}
		})
	}
}

// client: values on the command line of the client, seen in its reports.
func client(c *lib.Cases) {
	for ki, k := range kinds {
		if k.flag == "" {
			continue
		}
		max := 3
		if !c.Quick {
			max = 4
		}
		for n := 0; n <= max; n++ {
			c.Seqs(fmt.Sprint(ki, " "), len(k.abc), n, func(seq []int) func() {
				v := ""
				for _, i := range seq {
					v += k.abc[i]
				}
				return func() {
					env.Reset(world())
					o, either := k.option(v)
					if k.name == "Creates" && (v == "" || v[0] == 0) || strings.Contains(v, "\xff") {
						return
					}
					args := append(append([]string{"-i", "id"}, o.cli...), "--", "prog")
					desc := fmt.Sprintf("monny %q", args)
					want := defaults()
					want.id = "id"
					if o.do != nil {
						o.do(&want)
					}
					if d := want.warnT + want.killT; d > 0 && d <= 2*time.Millisecond {
						return // due at once
					}
					got := monx.Observe(desc, world(), args...)
					c.State("%s %q", k.name, v)
					c.Step(1)
					if got == nil {
						if o.do != nil && !either && want.id != "" {
							mc.Fail("refused", "%s: %s", desc, env.W.Printed.String())
						}
						return
					}
					if o.do == nil || want.id == "" {
						mc.Fail("accepted", "%s: runs with %s", desc, got.Key())
					}
					x := monx.Defaults()
					x.ID, x.Argv, x.Shell = want.id, []string{"prog"}, want.shell
					x.MemoryWarn, x.MemoryKill, x.NotifyTimeout, x.KillTimeout = want.warnM, want.killM, want.warnT, want.killT
					x.StdoutHistory, x.StderrHistory = want.outHist, want.errHist
					x.Creates = want.creates
					if k.name == "Rule" {
						x.AddRule("", v)
					}
					if got.Key() != x.Key() {
						mc.Fail("config", "%s: runs with %s\nwant %s", desc, got.Key(), x.Key())
					}
				}
			})
		}
	}
}

// hosts: all short server addresses.
func hosts(c *lib.Cases) {
	abc := []string{"h", "a.b", ":", "80", "[", "]", "::1", "/", " ", "65536"}
	max := 4
	if !c.Quick {
		max = 6
	}
	for n := 0; n <= max; n++ {
		c.Seqs("", len(abc), n, func(seq []int) func() {
			v := ""
			for _, i := range seq {
				v += abc[i]
			}
			return func() {
				host, port, err := net.SplitHostPort(v)
				for _, opts := range [][]string{{"--host=" + v}, {"--host=other:1", "--insecure", "--host", v}} {
					args := append(append([]string{"-i", "id"}, opts...), "--", "prog")
					desc := fmt.Sprintf("monny %q", args)
					got := monx.Observe(desc, world(), args...)
					c.State("%q", v)
					c.Step(1)
					if got == nil {
						if err == nil && plain.MatchString(host) && portNumber.MatchString(port) {
							mc.Fail("refused", "%s: %s", desc, env.W.Printed.String())
						}
						continue
					}
					if err != nil {
						mc.Fail("accepted", "%s: reports to %s", desc, got.Host)
					}
					if want := net.JoinHostPort(host, port); got.Host != want || got.TLS != (len(opts) == 1) {
						mc.Fail("server", "%s: reports to %s (TLS %v), want %s", desc, got.Host, got.TLS, want)
					}
				}
			}
		})
	}
}

// what must be accepted as a server
var (
	plain      = regexp.MustCompile(`^([a-z.0-9]+|::1)$`)
	portNumber = regexp.MustCompile(`^80(80)?$`)
)

// shells: the shell of the environment and the explicit one.
func shells(c *lib.Cases) {
	for i, sh := range []string{"", "/bin/zsh", "fish", "/no/such"} {
		for j, opt := range []string{"-", "zsh", "/bin/dash", "nosuch", ""} {
			c.Add(fmt.Sprint(i, j), func() {
				w := world()
				w.Vars = map[string]string{"SHELL": sh}
				env.Reset(w)
				w = env.W
				args := []monny.ConfigOption{monny.ID("id")}
				if opt != "-" {
					args = append(args, monny.Shell(opt))
				}
				cmd, errs := monny.New([]string{"prog"}, args...)
				want := sh
				if opt != "-" {
					want = w.Path[opt]
				}
				desc := fmt.Sprintf("SHELL=%q, shell %q", sh, opt)
				if want == "" {
					if cmd != nil || len(errs) == 0 {
						mc.Fail("accepted", "%s: a command with errors %v", desc, errs)
					}
				} else if cmd == nil || len(errs) > 0 {
					mc.Fail("refused", "%s: %v", desc, errs)
				} else if cmd.Config.Shell != want {
					mc.Fail("shell", "%s: %q is used", desc, cmd.Config.Shell)
				}
				c.State("%d %d", i, j)
				c.Step(1)
			})
		}
	}
}

func main() {
	lib.Main("C11", []lib.Scenario{
		{Name: "literals", Weight: 3, What: "all values of up to 4 or 5 (5 or 6) pieces of the alphabets of 13 options", Seq: literals},
		{Name: "large", What: "43 numbers near the limits of integer types and in other notations, with up to 11 units, for 8 options", Seq: large},
		{Name: "combined", Weight: 3, What: "all sequences of up to 2 (3) of 45 options and values, valid and malformed, with the identifier first, last and missing", Seq: combined},
		{Name: "client", Weight: 2, What: "all values of up to 3 (4) pieces on the command line of the client, as its reports show them", Seq: client},
		{Name: "hosts", Weight: 2, What: "all server addresses of up to 4 (6) pieces of an alphabet of 10, as dialed", Seq: hosts},
		{Name: "shells", What: "4 shells of the environment with 5 explicit ones", Seq: shells},
	})
}
