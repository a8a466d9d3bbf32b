//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"regexp"
	"strings"

	"github.com/BTBurke/monny/mc/env"
	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/monny"
	"github.com/BTBurke/monny/pkg/pb"
	"github.com/BTBurke/monny/vh/lib"
	"github.com/BTBurke/monny/vh/monx"
)

// rule is an alert rule; path is empty for a plain one.
type rule struct {
	path, re string
}

func (r rule) String() string {
	if r.path == "" {
		return fmt.Sprintf("%q", r.re)
	}
	return fmt.Sprintf("%s:%q", r.path, r.re)
}

func (r rule) option() monny.ConfigOption {
	if r.path == "" {
		return monny.Rule(r.re)
	}
	return monny.JSONRule(r.path, r.re)
}

// object decodes a JSON object, keeping its values as text.
func object(b []byte) (map[string]json.RawMessage, bool) {
	t := strings.TrimSpace(string(b))
	if !strings.HasPrefix(t, "{") || !json.Valid(b) {
		return nil, false
	}
	m := map[string]json.RawMessage{}
	return m, json.Unmarshal(b, &m) == nil
}

// text is the specification of the text form of a value.
func text(v interface{}) (string, bool) {
	switch x := v.(type) {
	case string:
		return x, true
	case float64:
		return fmt.Sprintf("%f", x), true
	case bool:
		if x {
			return "true", true
		}
		return "false", true
	}
	return "", false
}

// field is the specification of the text that a JSON rule looks at.
func field(line, path string) (string, bool) {
	cur := json.RawMessage(line)
	for _, k := range strings.Split(path, ".") {
		m, ok := object(cur)
		if !ok {
			return "", false
		}
		if cur, ok = m[k]; !ok {
			return "", false
		}
	}
	var v interface{}
	if json.Unmarshal(cur, &v) != nil {
		return "", false
	}
	if l, ok := v.([]interface{}); ok {
		var out []string
		for _, e := range l {
			if s, ok := text(e); ok {
				out = append(out, s)
			}
		}
		return strings.Join(out, "\n"), true
	}
	return text(v)
}

type match struct {
	line  string
	index [][]int
}

// matches is the specification of rules.
func matches(line string, rules []rule, res []*regexp.Regexp) (out []match) {
	for i, r := range rules {
		t := line
		if r.path != "" {
			var ok bool
			if t, ok = field(line, r.path); !ok {
				continue
			}
		}
		if ix := res[i].FindAllStringIndex(t, -1); ix != nil {
			out = append(out, match{line, ix})
		}
	}
	return
}

// play runs a command that writes lines to a stream and compares the matches.
func play(desc string, lines []string, rules []rule, fd int) int {
	opts := []monny.ConfigOption{monny.ID("id"), monny.Host("srv:80"), monny.Insecure(), monny.RuleQuantity("1000000")}
	var res []*regexp.Regexp
	for _, r := range rules {
		opts = append(opts, r.option())
		res = append(res, regexp.MustCompile(r.re))
	}
	var want []match
	for _, l := range lines {
		want = append(want, matches(l, rules, res)...)
	}
	run := monx.API(&env.World{Child: func(p *env.Proc) {
		for _, l := range lines {
			if fd == 1 {
				p.Stdout(l + "\n")
			} else {
				p.Stderr(l + "\n")
			}
		}
	}}, []string{"prog"}, opts...)
	var got []match
	for _, m := range run.C.RuleMatches {
		got = append(got, match{m.Line, m.Index})
		if m.Time.IsZero() {
			mc.Fail("time", "%s: a match without a time", desc)
		}
	}
	for i := 0; i < len(got) || i < len(want); i++ {
		if i >= len(got) || i >= len(want) || !reflect.DeepEqual(got[i], want[i]) {
			g, w := "none", "none"
			line := ""
			if i < len(got) {
				g, line = fmt.Sprintf("%q at %v", got[i].line, got[i].index), got[i].line
			}
			if i < len(want) {
				w, line = fmt.Sprintf("%q at %v", want[i].line, want[i].index), want[i].line
			}
			mc.Fail("match", "%s: match %d of the rules %v is %s, want %s (line %q)", desc, i, rules, g, w, line)
		}
	}
	// the reports have them as well
	rs := monx.Of(monx.Received(), pb.ReportReason_Success)
	if len(rs) != 1 {
		mc.Fail("end", "%s: %s", desc, monx.Reasons(monx.Received()))
	}
	if len(rs[0].Matched) != len(want) {
		mc.Fail("report", "%s: %d matches in the report, want %d", desc, len(rs[0].Matched), len(want))
	}
	for i, m := range rs[0].Matched {
		if m.Line != strings.ToValidUTF8(want[i].line, "\uFFFD") && m.Line != valid(want[i].line) || !reflect.DeepEqual(m.Index, want[i].index) {
			mc.Fail("report", "%s: the match %q at %v is in the report as %q at %v", desc, want[i].line, want[i].index, m.Line, m.Index)
		}
	}
	return len(want)
}

// valid replaces every invalid byte, as JSON does.
func valid(s string) string { return string([]rune(s)) }

// values are JSON values with nesting up to a depth.
func values(depth int) []string {
	v := []string{`"x"`, `""`, `"xyx"`, `"x\ny"`, `"ü x"`, `0`, `1`, `-2.5`, `1e3`, `1e400`, `true`, `false`, `null`, `[]`, `{}`,
		`["x"]`, `["x","y"]`, `[1,2.5]`, `[true,"x"]`, `["x",null,1,{"x":"x"},["x"],"y"]`, `[["x"],["y"]]`, `[null]`, `["",""]`, `[1e400]`, `{"x":"x"}`}
	if depth > 0 {
		for _, x := range values(depth - 1) {
			v = append(v, `{"b":`+x+`}`, `{"a":1,"b":`+x+`}`)
		}
		for _, x := range values(0) {
			v = append(v, `{"b":`+x+`,"a":{"b":"x"}}`, `{"":`+x+`}`, `{"b":1,"b":`+x+`}`, `{ "b" : `+x+` }`)
		}
	}
	return v
}

var paths = []string{"a", "b", "a.b", "a.b.b", "a.a", "a.", ".a", "a..b", "b.a", "A", "a.b.c.d.e.f"}
var res = []string{"x", "^$", "\\d+", "(?m)^x$", "^x\ny$", "true|null", "\\.5", "y*", "ü"}

// documents are lines with JSON objects.
func documents(depth int) (out []string) {
	for _, v := range values(depth) {
		out = append(out, `{"a":`+v+`}`, `{"b":`+v+`,"a":"y"}`)
	}
	for _, v := range values(1) {
		out = append(out, v, `{"a":"x","b":`+v+`}`, `{"a.b":`+v+`}`, `[{"a":`+v+`}]`, " \t{\"a\" : "+v+"} ", `{"a":`+v+`}x`, `x{"a":`+v+`}`, `{"a":`+v+`}{"a":"x"}`)
	}
	return
}

func rulesOf(ps, rs []string) (out []rule) {
	for _, p := range ps {
		for _, r := range rs {
			out = append(out, rule{p, r})
		}
	}
	return
}

// batches runs lines in groups.
func batches(c *lib.Cases, id string, lines []string, rules []rule) {
	const n = 40
	for i := 0; i < len(lines); i += n {
		j := i + n
		if j > len(lines) {
			j = len(lines)
		}
		b := lines[i:j]
		fd := 1 + i/n%2
		c.Add(fmt.Sprintf("%s %d", id, i), func() {
			k := play(id, b, rules, fd)
			for _, l := range b {
				c.State("%s", l)
			}
			c.State("%s %d %d", id, i, k)
			c.Step(len(b) * len(rules))
		})
	}
}

// fields: all documents of the grammar against all paths and expressions.
func fields(c *lib.Cases) {
	depth := 2
	if !c.Quick {
		depth = 4
	}
	docs := documents(depth)
	batches(c, "documents", docs, append(rulesOf(paths, res), rulesOf([]string{""}, res)...))
}

// broken: all truncations and single byte changes of documents.
func broken(c *lib.Cases) {
	seeds := []string{`{"a":"x"}`, `{"a":{"b":["x",1,true,null]}}`, `{"a":-2.5e1,"b":"\u00e9\"x"}`, `[{"a":"x"}]`, `{"a":null}`}
	var lines []string
	for _, s := range seeds {
		for i := range s {
			lines = append(lines, s[:i], s[i:], s[:i]+s[i+1:])
			for _, x := range []string{"\x00", "\xff", "{", "}", "\"", "\\", ":", ",", "x", "\t", "0"} {
				lines = append(lines, s[:i]+x+s[i+1:], s[:i]+x+s[i:])
			}
		}
	}
	for _, x := range []string{"{", "[", `{"a":`, `[{"a":`, `{"a":[`, `"`, "\xff", "\x00", `\`} {
		for _, n := range []int{1, 2, 3, 10, 1000, 9999, 10001, 30000} {
			lines = append(lines, strings.Repeat(x, n))
		}
	}
	for _, n := range []int{1, 2, 10, 1000, 9990, 10010} {
		lines = append(lines, strings.Repeat(`{"a":`, n)+`"x"`+strings.Repeat("}", n), `{"a":`+strings.Repeat("[", n)+strings.Repeat("]", n)+"}", `{"b":`+strings.Repeat("[", n)+strings.Repeat("]", n)+`,"a":"x"}`)
	}
	batches(c, "broken", lines, append(rulesOf([]string{"a", "a.b", "b", "a.a.a"}, []string{"x", "^$", "\\d"}), rule{"", "x"}, rule{"", "^$"}))
}

// short: all short lines over an alphabet.
func short(c *lib.Cases) {
	n := 5
	if !c.Quick {
		n = 6
	}
	abc := []string{"{", "}", "\"", ":", "a", "1", "[", ",", "\\", "\xff", " "}
	var lines []string
	var gen func(p string, k int)
	gen = func(p string, k int) {
		lines = append(lines, p)
		if k == 0 {
			return
		}
		for _, x := range abc {
			gen(p+x, k-1)
		}
	}
	gen("", n)
	rules := []rule{{"a", "."}, {"a.a", ""}, {"", "a+"}, {"", "^$"}}
	const size = 400
	for i := 0; i < len(lines); i += size {
		j := i + size
		if j > len(lines) {
			j = len(lines)
		}
		b := lines[i:j]
		c.Add(fmt.Sprint("short ", i), func() {
			play("short lines", b, rules, 1)
			c.State("short %d", i)
			c.Step(len(b))
		})
	}
	// inside an object
	var in []string
	for _, l := range lines {
		if len(l) <= n-1 {
			in = append(in, `{"a":`+l+`}`, `{"a":"`+l+`"}`, `{"a":{`+l+`"a":1}}`)
		}
	}
	batchesN(c, "short inside", in, rules, size)
}

func batchesN(c *lib.Cases, id string, lines []string, rules []rule, n int) {
	for i := 0; i < len(lines); i += n {
		j := i + n
		if j > len(lines) {
			j = len(lines)
		}
		b := lines[i:j]
		c.Add(fmt.Sprintf("%s %d", id, i), func() {
			play(id, b, rules, 2)
			c.State("%s %d", id, i)
			c.Step(len(b))
		})
	}
}

// pairs: all pairs of rules, each in a run of its own.
func pairs(c *lib.Cases) {
	rules := append(rulesOf([]string{"", "a", "a.b", "b"}, []string{"x", "^$", "y*"}), rule{"", "[{}]"}, rule{"", "(x)(y)?"}, rule{"a", "(x)(y)?"})
	lines := []string{"", "x", "xyx", "{}", `{"a":"xyx"}`, `{"a":{"b":["x","","xy"]},"b":""}`, `{"a":["x",1]}`, `{"a":{"b":null}}`, "yx xy", `{"b":"x"`}
	for i, a := range rules {
		for j, b := range rules {
			c.Add(fmt.Sprint(i, j), func() {
				rs := []rule{a, b}
				if i == j {
					rs = rs[:1]
				}
				play("rules", lines, rs, 1+(i+j)%2)
				c.State("%d %d", i, j)
				c.Step(len(lines))
			})
		}
	}
	c.Add("none", func() { play("no rules", lines, nil, 1) })
}

// sizes: long lines, deep paths, many elements, many rules, many matches.
func sizes(c *lib.Cases) {
	one := func(id string, lines []string, rules []rule) {
		c.Add(id, func() {
			c.State("%s %d", id, play(id, lines, rules, 1))
			c.Step(len(lines) * len(rules))
		})
	}
	for d := 2; d <= 40; d++ {
		path := strings.Repeat("k.", d-1) + "k"
		wrap := func(n int, v string) string { return strings.Repeat(`{"k":`, n) + v + strings.Repeat("}", n) }
		one(fmt.Sprint("depth ", d), []string{wrap(d, `"x"`), wrap(d-1, `"x"`), wrap(d+1, `"x"`), wrap(d, `["x","x"]`), wrap(d-1, `{"j":"x"}`), wrap(d-1, `{"j":"x","k":1}`)},
			[]rule{{path, "x"}, {path + ".k", "x"}, {path, "\\d"}})
	}
	for _, n := range []int{255, 4095, 4096, 65535, 65536, 65537, 70000, 131073, 1100000, 5 << 20} {
		fill := strings.Repeat("-", n)
		one(fmt.Sprint("length ", n), []string{fill + "x", "x" + fill + "xx", fill, `{"a":"` + fill + `x"}`, `{"b":"` + fill + `","a":"x"}`, `{"a":"x` + fill + `"}`, `{"a":["` + fill + `","x"]}`, `{"` + fill + `":{"a":"x"},"a":{"b":"x"}}`},
			[]rule{{"", "x"}, {"a", "x"}, {"a.b", "x"}, {"", "x$"}, {fill[:200] + ".a", "x"}})
	}
	for _, n := range []int{16, 127, 128, 129, 1000, 20000} {
		one(fmt.Sprint("elements ", n), []string{`{"a":[` + strings.Repeat(`"-",`, n) + `"x"]}`, `{"a":[` + strings.Repeat(`1,`, n) + `"x"]}`, `{"a":["x"` + strings.Repeat(`,null`, n) + `]}`, `{` + strings.Repeat(`"b":1,`, n) + `"a":"x"}`, `{"a":[` + strings.Repeat(`"x",`, n) + `"-"]}`},
			[]rule{{"a", "x"}, {"a", "(?m)^x$"}})
		one(fmt.Sprint("matches ", n), []string{strings.Repeat("x", n), strings.Repeat("x ", n), strings.Repeat("yx", n) + "y"}, []rule{{"", "x"}, {"", "y*"}})
		if n <= 1000 {
			var many []rule
			for i := 0; i < n; i++ {
				many = append(many, rule{[]string{"", "a", "b"}[i%3], fmt.Sprintf("^%d$", i)})
			}
			one(fmt.Sprint("rules ", n), []string{fmt.Sprint(n - 1), fmt.Sprint(n - 2), fmt.Sprintf(`{"a":"%d"}`, n-1), fmt.Sprintf(`{"a":"%d","b":"%d"}`, n-2, n-3), fmt.Sprintf(`{"a":["%d"],"b":["%d"]}`, n-3, n-2), "0"}, many)
		}
		if n > 5000 {
			n = 1800
		}
		var lines []string
		for i := 0; i < n; i++ {
			lines = append(lines, []string{"x", "-", `{"a":"x"}`}[i%3])
		}
		one(fmt.Sprint("lines ", n), lines, []rule{{"", "^x"}, {"a", "x"}})
	}
}

// body: schedules of lines on both streams.
func body() {
	run := monx.API(&env.World{Child: func(p *env.Proc) {
		p.Stdout("xx\n{\"a\":\"x\"}\n")
		p.Stderr("{\"a\":[\"x\",1]}\nno\n")
	}}, []string{"prog"}, monny.ID("id"), monny.Host("srv:80"), monny.Insecure(), monny.RuleQuantity("100"), monny.Rule("^x"), monny.JSONRule("a", "x"))
	got := map[string]int{}
	for _, m := range run.C.RuleMatches {
		got[fmt.Sprintf("%s %v", m.Line, m.Index)]++
	}
	want := map[string]int{"xx [[0 1]]": 1, `{"a":"x"} [[0 1]]`: 1, `{"a":["x",1]} [[0 1]]`: 1}
	if !reflect.DeepEqual(got, want) {
		mc.Fail("match", "matches %v, want %v", got, want)
	}
	s := ""
	for _, m := range run.C.RuleMatches {
		s += m.Line[:2] + " "
	}
	mc.Outcome(s)
}

func main() {
	lib.Main("C09", []lib.Scenario{
		{Name: "fields", Weight: 3, What: "all documents of a grammar of depth 2 (4) against 11 paths and 9 expressions", Seq: fields},
		{Name: "broken", Weight: 2, What: "all truncations and single byte changes of documents, and very deep ones", Seq: broken},
		{Name: "short", Weight: 2, What: "all lines of up to 5 (6) bytes of an alphabet of 11, alone and inside objects", Seq: short},
		{Name: "pairs", Weight: 2, What: "all pairs of 15 rules against 10 lines", Seq: pairs},
		{Name: "sizes", Weight: 2, What: "paths of up to 41 parts, lines up to 5 MB, up to 20 000 elements and matches, 1800 lines, up to 1000 rules", Seq: sizes},
		{Name: "streams", Cfg: mc.Config{LeaksOK: true}, MaxBound: 3, What: "schedules of lines on both streams", Body: body},
	})
}
