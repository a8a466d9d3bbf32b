//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"regexp"
	"strings"
	"time"

	"github.com/BTBurke/monny/mc/env"
	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/vh/lib"
	"github.com/BTBurke/monny/vh/monx"
)

// setting is a setting in both forms and what it means.
type setting struct {
	key  string
	cli  []string
	yaml string
	do   func(c *monx.Config)
}

func flag(key, value, yaml string, do func(c *monx.Config)) setting {
	if yaml == "" {
		yaml = value
	}
	return setting{key, []string{"--" + key + "=" + value}, key + ": " + yaml, do}
}

func toggle(key string, do func(c *monx.Config)) []setting {
	return []setting{
		{key, []string{"--" + key}, key + ": true", do},
		{key, []string{"--" + key + "=false"}, key + ": false", func(c *monx.Config) {}},
		{key, []string{"--" + key + "=true"}, key + `: "true"`, do},
		{key, []string{"--" + key + "=false"}, key + `: "false"`, func(c *monx.Config) {}},
	}
}

// settings: every setting with representative values.
func settings(full bool) []setting {
	s := []setting{
		flag("id", "a@b.c", "", func(c *monx.Config) { c.ID = "a@b.c" }),
		flag("id", "17", "", func(c *monx.Config) { c.ID = "17" }),
		flag("rule", "x", "", func(c *monx.Config) { c.AddRule("", "x") }),
		flag("rule", "404", "", func(c *monx.Config) { c.AddRule("", "404") }),
		{"rule", []string{"--rule", "a b", "--rule", "y:(z|x)"}, "rule:\n  - a b\n  - \"y:(z|x)\"", func(c *monx.Config) { c.AddRule("", "a b"); c.AddRule("", "y:(z|x)") }},
		flag("rule-json", "a.b:x:y", "", func(c *monx.Config) { c.AddRule("a.b", "x:y") }),
		{"rule-json", []string{"--rule-json", "f:g", "--rule-json=h:"}, "rule-json: [\"f:g\", \"h:\"]", func(c *monx.Config) { c.AddRule("f", "g"); c.AddRule("h", "") }},
		flag("stdout-history", "0", "", func(c *monx.Config) { c.StdoutHistory = 0 }),
		flag("stdout-history", "100", `"100"`, func(c *monx.Config) { c.StdoutHistory = 100 }),
		flag("stderr-history", "7", "", func(c *monx.Config) { c.StderrHistory = 7 }),
		flag("memory-warn", "100M", "", func(c *monx.Config) { c.MemoryWarn = 100000 }),
		flag("memory-warn", "100", "", func(c *monx.Config) { c.MemoryWarn = 100 }),
		flag("memory-kill", "2G", "", func(c *monx.Config) { c.MemoryKill = 2000000 }),
		flag("memory-kill", "3000000000", "", func(c *monx.Config) { c.MemoryKill = 3000000000 }),
		flag("timeout-warn", "1m30s", "", func(c *monx.Config) { c.NotifyTimeout = 90 * time.Second }),
		flag("timeout-kill", "2h", "", func(c *monx.Config) { c.KillTimeout = 2 * time.Hour }),
		flag("creates", "/a", "", func(c *monx.Config) { c.Creates = append(c.Creates, "/a") }),
		{"creates", []string{"--creates", "b c", "--creates", "d"}, "creates:\n- b c\n- d", func(c *monx.Config) { c.Creates = append(c.Creates, "b c", "d") }},
		flag("host", "h:1", "", func(c *monx.Config) { c.Host = "h:1" }),
		flag("host", "[::1]:8", `"[::1]:8"`, func(c *monx.Config) { c.Host = "[::1]:8" }),
		flag("shell", "zsh", "", func(c *monx.Config) { c.Shell = "/usr/bin/zsh" }),
	}
	n := 2
	if full {
		n = 4
	}
	s = append(s, toggle("no-notify-on-success", func(c *monx.Config) { c.NotifyOnSuccess = false })[:n]...)
	s = append(s, toggle("no-notify-on-failure", func(c *monx.Config) { c.NotifyOnFailure = false })[:n]...)
	s = append(s, toggle("daemon", func(c *monx.Config) { c.Daemon = true })[:n]...)
	s = append(s, toggle("insecure", func(c *monx.Config) { c.TLS = false })[:n]...)
	s = append(s, toggle("no-error-reports", func(c *monx.Config) { c.Silent = true })[:n]...)
	return s
}

// at is the time of a run, so that runs differ.
func world(file string) *env.World {
	return &env.World{Path: map[string]string{"zsh": "/usr/bin/zsh", "prog": "/bin/prog"}, Files: map[string]*env.FileData{"/etc/m.yml": {Data: []byte(file), Mode: 0o644}}}
}

// observe runs the client with some settings on the command line and others
// in a file, the file at a position in the command line.
func observe(cli, file []setting, filePos int, command []string) string {
	var args []string
	var doc []string
	id := false
	for _, s := range append(append([]setting(nil), cli...), file...) {
		id = id || s.key == "id"
	}
	if !id {
		args = append(args, "-i", "id")
	}
	for _, s := range file {
		doc = append(doc, s.yaml)
	}
	for i := 0; i <= len(cli); i++ {
		if i == filePos && len(file) > 0 {
			args = append(args, "-c", "/etc/m.yml")
		}
		if i < len(cli) {
			args = append(args, cli[i].cli...)
		}
	}
	args = append(append(args, "--"), command...)
	text := strings.Join(doc, "\n") + "\n"
	desc := fmt.Sprintf("monny %q with the file %q", args, text)
	c := monx.Observe(desc, world(text), args...)
	if c == nil {
		mc.Fail("refused", "%s: %s", desc, env.W.Printed.String())
	}
	want := monx.Defaults()
	want.ID = "id"
	want.Argv = command
	for _, s := range append(append([]setting(nil), cli...), file...) {
		s.do(&want)
	}
	if c.Key() != want.Key() {
		mc.Fail("config", "%s: runs with %s\nwant %s", desc, c.Key(), want.Key())
	}
	return c.Key()
}

// distinct tells that no setting is there twice.
func distinct(ss []setting) bool {
	m := map[string]bool{}
	for _, s := range ss {
		if m[s.key] {
			return false
		}
		m[s.key] = true
	}
	return true
}

var command = []string{"prog", "-c", "x", "--rule=y", "", "a b", "--", "-i"}

// forms runs a set of settings in all forms.
func forms(c *lib.Cases, id string, ss []setting) {
	c.Add(id, func() {
		n := len(ss)
		for m := 0; m < 1<<uint(n); m++ {
			var cli, file []setting
			for i, s := range ss {
				if m>>uint(i)&1 == 0 {
					cli = append(cli, s)
				} else {
					file = append(file, s)
				}
			}
			pos := m % (len(cli) + 1)
			c.State("%s", observe(cli, file, pos, command))
			if m == 0 && n > 1 {
				var rev []setting
				for i := range ss {
					rev = append(rev, ss[n-1-i])
				}
				observe(rev, nil, 0, command)
			}
			c.Step(n)
		}
	})
}

func combinations(c *lib.Cases) {
	all := settings(true)
	forms(c, "none", nil)
	for i, a := range all {
		forms(c, fmt.Sprint(i), []setting{a})
		for j, b := range all[i+1:] {
			if ss := []setting{a, b}; distinct(ss) {
				forms(c, fmt.Sprint(i, i+1+j), ss)
			}
		}
	}
}

func triples(c *lib.Cases) {
	all := settings(!c.Quick)
	for i := range all {
		for j := i + 1; j < len(all); j++ {
			for k := j + 1; k < len(all); k++ {
				if ss := []setting{all[i], all[j], all[k]}; distinct(ss) {
					forms(c, fmt.Sprint(i, j, k), ss)
				}
			}
		}
	}
}

// everything: all settings at once.
func everything(c *lib.Cases) {
	all := settings(true)
	for start := range all {
		var ss []setting
		for i := range all {
			if s := append(append([]setting(nil), ss...), all[(start+i)%len(all)]); distinct(s) {
				ss = s
			}
		}
		c.Add(fmt.Sprint(start), func() {
			observe(ss, nil, 0, command)
			observe(nil, ss, 0, command)
			observe(ss[:len(ss)/2], ss[len(ss)/2:], 0, command)
			c.State("%d", start)
			c.Step(len(ss))
		})
	}
}

// keyOrder: all orders in which the keys of a file may be processed.
func keyOrder() {
	docs := [][]int{{4, 6, 17, 0}, {2, 5, 16, 10}, {4, 6, 17, 7}, {21, 23, 25, 27}, {22, 24, 26, 28}, {12, 13, 14, 15}, {18, 20, 29, 4}}
	all := settings(false)
	d := docs[mc.Choose(len(docs), "file")]
	var ss []setting
	for _, i := range d {
		if i < len(all) {
			if s := append(append([]setting(nil), ss...), all[i]); distinct(s) {
				ss = s
			}
		}
	}
	mc.Outcome(observe(nil, ss, 0, command))
}

// rejected: everything that is no valid setting is refused.
func rejected(c *lib.Cases) {
	bad := []struct {
		cli  []string
		yaml string
	}{
		{[]string{"--rule=("}, "rule: ("},
		{[]string{"--rule", "a", "--rule", "["}, "rule: [a, \"[\"]"},
		{[]string{"--rule-json=nocolon"}, "rule-json: nocolon"},
		{[]string{"--rule-json=a:("}, "rule-json: a:("},
		{[]string{"--rule-json=a:b", "--rule-json=x"}, "rule-json: [\"a:b\", x]"},
		{[]string{"--stdout-history=x"}, "stdout-history: x"},
		{[]string{"--stderr-history=1.5"}, "stderr-history: 1.5"},
		{[]string{"--stderr-history="}, `stderr-history: ""`},
		{[]string{"--memory-warn=1T"}, "memory-warn: 1T"},
		{[]string{"--memory-kill=G"}, "memory-kill: G"},
		{[]string{"--memory-kill=-5"}, "memory-kill: -5"},
		{[]string{"--timeout-warn=5"}, "timeout-warn: 5"},
		{[]string{"--timeout-kill=x"}, "timeout-kill: x"},
		{[]string{"--host=h"}, "host: h"},
		{[]string{"--shell=nosuch"}, "shell: nosuch"},
		{[]string{"--daemon=maybe"}, "daemon: maybe"},
		{[]string{"--insecure=2"}, "insecure: 2"},
		{[]string{"--no-error-reports=maybe"}, "no-error-reports: maybe"},
		{[]string{"--no-notify-on-success=x"}, "no-notify-on-success: x"},
		{[]string{"--no-notify-on-failure=x"}, "no-notify-on-failure: x"},
		{[]string{"--unknown"}, "unknown: true"},
		{[]string{"--unknown=x"}, "unknown: x"},
		{[]string{"--rules=x"}, "rules: x"},
		{[]string{"-x"}, "x: 1"},
		{[]string{"-c", "/nosuch"}, "config: /etc/m.yml"},
		{nil, "rule: {a: b}"},
		{nil, "rule: [[a]]"},
		{nil, "rule: [{a: b}]"},
		{nil, "rule: [null]"},
		{nil, "rule:"},
		{nil, "creates: [a, null]"},
		{nil, "creates: {}"},
		{nil, "rule-json: [a, b]"},
		{nil, "daemon: [true]"},
		{nil, "memory-warn: [1]"},
		{nil, "host: [\"h:1\"]"},
		{nil, "- rule"},
		{nil, "text"},
		{nil, "rule: [a"},
		{nil, "rule: \"a"},
		{nil, "\tx: y"},
		{nil, "unknown: []"},
		{nil, "rule: a\nunknown: b"},
	}
	good := settings(false)
	for i, b := range bad {
		for j := -1; j < len(good); j++ {
			c.Add(fmt.Sprint(i, j), func() {
				var cli []string
				text := b.yaml + "\n"
				if j >= 0 {
					if good[j].key == strings.SplitN(b.yaml, ":", 2)[0] {
						return
					}
					cli = good[j].cli
				}
				if b.cli != nil {
					for k := 0; k < 2; k++ {
						args := append(append([]string{"-i", "id"}, cli...), b.cli...)
						if k == 1 {
							args = append(append([]string{"-i", "id"}, b.cli...), cli...)
						}
						args = append(args, "--", "prog")
						refuse(fmt.Sprintf("monny %q", args), "", args)
					}
				}
				args := append(append([]string{"-i", "id", "-c", "/etc/m.yml"}, cli...), "--", "prog")
				refuse(fmt.Sprintf("monny %q with the file %q", args, text), text, args)
				if j >= 0 && b.yaml != "- rule" && b.yaml != "text" && b.yaml != "\tx: y" && !strings.HasPrefix(b.yaml, "rule: [a") && b.yaml != "rule: \"a" {
					for k := 0; k < 2; k++ {
						text := b.yaml + "\n" + good[j].yaml + "\n"
						if k == 1 {
							text = good[j].yaml + "\n" + b.yaml + "\n"
						}
						args := []string{"-i", "id", "-c", "/etc/m.yml", "--", "prog"}
						refuse(fmt.Sprintf("monny %q with the file %q", args, text), text, args)
					}
				}
				c.State("%d %d", i, j)
				c.Step(1)
			})
		}
	}
	for i, args := range [][]string{{}, {"--", "prog"}, {"prog"}, {"-i", "id"}, {"-i", "id", "--"}, {"-i"}, {"-i", "", "prog"}, {"-i", "id", "-c"}} {
		c.Add(fmt.Sprint("args ", i), func() {
			refuse(fmt.Sprintf("monny %q", args), "", args)
			c.State("args %d", i)
		})
	}
}

func refuse(desc, file string, args []string) {
	if c := monx.Observe(desc, world(file), args...); c != nil {
		mc.Fail("accepted", "%s: runs with %s", desc, c.Key())
	}
}

// literal: all short texts as values of the settings that take text.
func literal(c *lib.Cases) {
	abc := []string{"a", " ", ":", ".", ",", "=", "#", "'", "\"", "\n", "-", "~", "*", "\\", "$HOME", "true", "0", "{", "%", "\t", "é"}
	n := 2
	if !c.Quick {
		n = 3
	}
	for d := 1; d <= n; d++ {
		c.Seqs("", len(abc), d, func(seq []int) func() {
			text := ""
			for _, i := range seq {
				text += abc[i]
			}
			return func() {
				for _, key := range []string{"rule", "rule-json", "creates", "id"} {
					for _, v := range []string{text, "f:" + text, text + ":x"} {
						if key != "rule-json" && v != text {
							continue
						}
						want := monx.Config{}
						ok := true
						switch key {
						case "rule":
							_, err := regexp.Compile(v)
							ok = err == nil
							want.AddRule("", v)
						case "rule-json":
							i := strings.Index(v, ":")
							ok = i >= 0
							if ok {
								_, err := regexp.Compile(v[i+1:])
								ok = err == nil
								want.AddRule(v[:i], v[i+1:])
							}
						case "creates":
							want.Creates = []string{v}
						case "id":
							want.ID = v
						}
						q, _ := json.Marshal(v)
						forms := []struct {
							args []string
							file string
						}{{[]string{"--" + key + "=" + v}, ""}, {[]string{"--" + key, v}, ""}, {nil, key + ": " + string(q) + "\n"}}
						if key != "id" {
							forms = append(forms, struct {
								args []string
								file string
							}{nil, key + ": [" + string(q) + "]\n"})
						}
						for _, f := range forms {
							args := f.args
							if key != "id" {
								args = append([]string{"-i", "id"}, args...)
							}
							if f.file != "" {
								args = append(args, "-c", "/etc/m.yml")
							}
							args = append(args, "--", "prog")
							desc := fmt.Sprintf("monny %q with the file %q", args, f.file)
							got := monx.Observe(desc, world(f.file), args...)
							if got == nil {
								if ok {
									mc.Fail("refused", "%s: %s", desc, env.W.Printed.String())
								}
								continue
							}
							if !ok {
								mc.Fail("accepted", "%s: runs with %s", desc, got.Key())
							}
							x := monx.Defaults()
							x.ID, x.Argv = "id", []string{"prog"}
							x.Rules, x.Creates = want.Rules, want.Creates
							if key == "id" {
								x.ID = want.ID
							}
							if got.Key() != x.Key() {
								mc.Fail("config", "%s: runs with %s\nwant %s", desc, got.Key(), x.Key())
							}
						}
					}
				}
				c.State("%q", text)
				c.Step(len(seq))
			}
		})
	}
}

// values: every kind of YAML value for every key; nothing may crash.
func values(c *lib.Cases) {
	keys := []string{"id", "rule", "rule-json", "stdout-history", "stderr-history", "no-notify-on-success", "no-notify-on-failure", "daemon", "memory-warn", "memory-kill", "timeout-warn", "timeout-kill", "creates", "host", "insecure", "no-error-reports", "shell", "config", "x", `""`, "1", "~", "true", "[a]", "{a: b}", "<<", "? x\n"}
	vals := []string{"", "~", "[]", "{}", "[[]]", "[~]", "[a, 1, 1.5, true]", "{a: b}", "[{a: b}]", `""`, "5", "-5", "1.5", "1e400", "true", `"true"`, "text", "!!binary aGk=", "!!int x", "2001-01-01", "2001-01-01T10:00:00Z", ".inf", ".nan", "0x10", "0b1", "99999999999999999999", "18446744073709551615", "|\n  a\n  b", ">\n  a\n  b", "&a x", "*a", "!x y", "\"\\xff\"", "'a:b'", "\"a:b\"", "[\"a:b\", \"c:d\"]", "\"\x01\"", "\xff", "yes", "no", "off"}
	for i, k := range keys {
		for j, v := range vals {
			c.Add(fmt.Sprint(i, j), func() {
				text := k + ": " + v + "\n"
				for _, t := range []string{text, "rule: [a, b]\n" + text, text + "daemon: true\n"} {
					args := []string{"-i", "id", "-c", "/etc/m.yml", "--", "prog"}
					monx.Observe(fmt.Sprintf("the file %q", t), world(t), args...)
				}
				c.State("%d %d", i, j)
				c.Step(3)
			})
		}
	}
}

// files: all short files over an alphabet; nothing may crash.
func files(c *lib.Cases) {
	abc := []string{"rule", ":", " ", "\n", "-", "[", "]", "{", "\"", "&a", "*a", "!", "#", "x", "|", ">"}
	n := 3
	if !c.Quick {
		n = 4
	}
	c.Seqs("", len(abc), n, func(seq []int) func() {
		return func() {
			text := ""
			for _, i := range seq {
				text += abc[i]
			}
			monx.Observe(fmt.Sprintf("the file %q", text), world(text), "-i", "id", "-c", "/etc/m.yml", "--", "prog")
			c.State("%q", text)
			c.Step(1)
		}
	})
}

// arguments: all short command lines over an alphabet; nothing may crash and
// what follows the separator is untouched.
func arguments(c *lib.Cases) {
	abc := []string{"-i", "-iid", "id", "--id", "--id=", "-", "--rule", "--rule=", "--daemon", "--daemon=maybe", "--daemon=false", "prog", "-x", "-c", "--config=/etc/m.yml", "=", "-h", "--help", "---", "--=x", "\xff", ""}
	n := 3
	c.Seqs("", len(abc), n, func(seq []int) func() {
		return func() {
			var args []string
			for _, i := range seq {
				args = append(args, abc[i])
			}
			// with and without separator
			monx.Observe(fmt.Sprintf("monny %q", args), world("rule: x\n"), args...)
			after := append(append([]string{"-i", "id", "--"}, "prog"), args...)
			desc := fmt.Sprintf("monny %q", after)
			x := monx.Observe(desc, world("rule: x\n"), after...)
			if x == nil {
				mc.Fail("refused", "%s: %s", desc, env.W.Printed.String())
			}
			want := monx.Defaults()
			want.ID, want.Argv = "id", after[3:]
			if x.Key() != want.Key() {
				mc.Fail("command", "%s: runs with %s\nwant %s", desc, x.Key(), want.Key())
			}
			c.State("%v", seq)
			c.Step(1)
		}
	})
}

func main() {
	lib.Main("C10", []lib.Scenario{
		{Name: "combinations", Weight: 2, What: "all pairs of 41 settings in all divisions between command line and file", Seq: combinations},
		{Name: "triples", Weight: 4, What: "all triples of 31 (41) settings in all divisions between command line and file", Seq: triples},
		{Name: "everything", What: "all settings at once", Seq: everything},
		{Name: "key-order", Cfg: mc.Config{LeaksOK: true}, MaxBound: 1, What: "all orders in which four keys of a file are processed", Body: keyOrder},
		{Name: "rejected", Weight: 2, What: "44 invalid settings alone and with every valid one", Seq: rejected},
		{Name: "literal", Weight: 2, What: "all texts of up to 2 (3) pieces of an alphabet of 21 as rules, JSON rules, files and identifiers, in 4 forms", Seq: literal},
		{Name: "values", What: "41 kinds of YAML values for 27 keys", Seq: values},
		{Name: "files", What: "all files of 3 (4) pieces of an alphabet of 16", Seq: files},
		{Name: "arguments", Weight: 2, What: "all command lines of 3 arguments of an alphabet of 22", Seq: arguments},
	})
}
