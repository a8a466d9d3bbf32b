//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/BTBurke/monny/mc/env"
	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/pb"
	"github.com/BTBurke/monny/vh/lib"
	"github.com/BTBurke/monny/vh/monx"
)

// line is something the command writes.
type line struct {
	fd    int
	text  string
	match int // number of rules that match
	at    time.Duration
}

// kinds of lines; %d makes them different.
var kinds = []line{
	{1, "match %d", 1, 0},
	{1, "plain %d", 0, 0},
	{2, "match %d", 1, 0},
	{2, "plain %d", 0, 0},
	{1, "match and more %d", 2, 0},
	{2, `{"level": "bad", "n": %d}`, 1, 0},
	{1, `{"level": "good", "n": %d}`, 0, 0},
}

var rules = []string{"--rule", "^match", "--rule", "more", "--rule-json", "level:bad"}

func make_(seq []int) (out []line) {
	for i, k := range seq {
		l := kinds[k%len(kinds)]
		if k >= len(kinds) {
			i = 0 // the same again
		}
		l.text = fmt.Sprintf(l.text, i)
		out = append(out, l)
	}
	return
}

// write writes lines with gaps.
func write(p *env.Proc, ls []line, gap time.Duration) {
	for i := range ls {
		ls[i].at = env.Elapsed()
		if ls[i].fd == 1 {
			p.Stdout(ls[i].text + "\n")
		} else {
			p.Stderr(ls[i].text + "\n")
		}
		if gap > 0 {
			p.Sleep(gap)
		}
	}
}

func show(ls []line) string {
	var s []string
	for _, l := range ls {
		s = append(s, fmt.Sprintf("%d: %s (%v)", l.fd, l.text, l.at))
	}
	return strings.Join(s, ", ")
}

// key tells apart lines with the same text.
func key(text string, at time.Duration) string { return fmt.Sprintf("%q of %v", text, at) }

// report is a report with all of its attempts.
type report struct {
	monx.Report
	first    int // index of the first attempt
	start    time.Duration
	accepted int // index in the order of acceptance, -1 if not
	when     time.Duration
	has      map[string]int
	ack      *env.Attempt // that was accepted
}

func reports() (out []*report) {
	by := map[string]*report{}
	for i, a := range env.W.Attempts {
		// equal reports that are accepted more than once are different
		k := string(a.Wire)
		r := by[k]
		if r == nil || r.accepted >= 0 {
			r = &report{Report: monx.Decode(a), first: i, start: a.At, accepted: -1, has: map[string]int{}}
			for _, m := range r.Matched {
				r.has[m.Line]++
				r.has[key(m.Line, m.Time.Sub(mc.TimeNow())+env.Elapsed())]++
			}
			by[k] = r
			out = append(out, r)
		}
		if a.Acked {
			if r.ack == nil {
				r.ack = a
			}
			for j, b := range env.W.Received {
				if a == b {
					r.accepted = j
				}
			}
		}
	}
	return
}

// check decides about a run that wrote some lines. timed tells that the times
// of lines differ from the times of other events.
func check(desc string, ls []line, timed bool) {
	if !env.W.Exited {
		mc.Fail("crash", "%s: the monitor died: %s", desc, env.W.Died)
	}
	name := func(l line) string {
		if timed {
			return key(l.text, l.at)
		}
		return l.text
	}
	rs := reports()
	desc += ": " + show(ls)
	alerts, matching := 0, 0
	for _, r := range rs {
		if r.ReportReason == pb.ReportReason_Alert {
			alerts++
		}
		if r.ReportReason == pb.ReportReason_AlertRate {
			mc.Fail("reason", "%s: a rate alert without a rate", desc)
		}
	}
	for _, l := range ls {
		if l.match > 0 {
			matching++
		}
	}
	if alerts > matching {
		mc.Fail("storm", "%s: %d alerts for %d matching lines: %s", desc, alerts, matching, all(rs))
	}
	for _, l := range ls {
		id := name(l)
		for _, r := range rs {
			if n := r.has[id]; n != 0 && n != l.match {
				mc.Fail("match", "%s: %q is %d times in the matches %q, want %d", desc, l.text, n, r.Lines(), l.match)
			}
		}
		if l.match == 0 {
			continue
		}
		got := false
		for _, r := range rs {
			if r.ReportReason == pb.ReportReason_Alert && r.accepted >= 0 && r.has[id] > 0 {
				got = true
			}
		}
		if !got {
			mc.Fail("lost", "%s: %q is in no delivered alert: %s", desc, l.text, all(rs))
		}
		// what a delivered alert told is not told again
		told := time.Duration(-1)
		for _, o := range rs {
			if timed && o.ReportReason == pb.ReportReason_Alert && o.ack != nil && o.has[id] > 0 && (told < 0 || o.ack.Done < told) {
				told = o.ack.Done
			}
		}
		for _, r := range rs {
			if told >= 0 && r.start > told && r.has[id] > 0 {
				mc.Fail("repeated", "%s: %q was in an alert accepted at %v and is in the %s report of %v again: %s", desc, l.text, told, r.ReportReason, r.start, all(rs))
			}
		}
		// what was not reported yet is in every report
		for _, r := range rs {
			if r.has[id] > 0 {
				continue
			}
			after := r.ReportReason == pb.ReportReason_Success || r.ReportReason == pb.ReportReason_Failure || timed && r.start > l.at
			if !after {
				continue
			}
			told := false
			for _, o := range rs {
				told = told || o != r && o.ReportReason == pb.ReportReason_Alert && o.has[id] > 0 && acked(o, r.first)
			}
			if !told {
				mc.Fail("dropped", "%s: %q was not reported before the %s report of %v, which does not have it: %s", desc, l.text, r.ReportReason, r.start, all(rs))
			}
		}
	}
}

// acked tells if a report was accepted before an attempt.
func acked(o *report, attempt int) bool {
	return o.ack != nil && doneBefore(o.ack, env.W.Attempts[attempt])
}

func doneBefore(a, b *env.Attempt) bool { return a.N < b.N && a.Done <= b.At }

func all(rs []*report) string {
	var s []string
	for _, r := range rs {
		s = append(s, fmt.Sprintf("%s at %v %q accepted %v", r.ReportReason, r.start, r.Lines(), r.accepted >= 0))
	}
	return strings.Join(s, "; ")
}

var replies = []env.Reply{{}, {Nack: true}, {Delay: 2500 * time.Millisecond}, {Nack: true, Delay: 1500 * time.Millisecond}, {Lost: true}}

func server(seq []int) func(a *env.Attempt) env.Reply {
	return func(a *env.Attempt) env.Reply {
		if a.N < len(seq) {
			return replies[seq[a.N]]
		}
		return env.Reply{}
	}
}

// histories: all sequences of lines against all sequences of answers.
func histories(nLines, kLines, nReplies int) func(c *lib.Cases) {
	return func(c *lib.Cases) {
		n := nLines
		if !c.Quick {
			n++
		}
		var patterns [][]int
		var gen func(p []int)
		gen = func(p []int) {
			if len(p) == nReplies {
				patterns = append(patterns, append([]int(nil), p...))
				return
			}
			for i := range replies {
				gen(append(p, i))
			}
		}
		gen(nil)
		for _, pat := range patterns {
			c.Seqs(fmt.Sprint(pat, " "), kLines, n, func(seq []int) func() {
				return func() {
					ls := make_(seq)
					monx.Main(&env.World{Server: server(pat), Child: func(p *env.Proc) {
						write(p, ls, time.Second)
						p.Exit(len(seq) % 2)
					}}, monx.Args(rules...)...)
					check(fmt.Sprintf("answers %v", pat), ls, true)
					c.State("%v %v", pat, seq)
					c.Step(len(seq))
				}
			})
		}
	}
}

// repeats: all sequences with lines that are the same.
func repeats(c *lib.Cases) {
	n := 4
	if !c.Quick {
		n = 5
	}
	same := []int{7, 8, 9, 11, 12}
	for _, pat := range [][]int{nil, {1}, {2}, {1, 2}, {4}} {
		c.Seqs(fmt.Sprint(pat, " "), len(same), n, func(seq []int) func() {
			return func() {
				var ks []int
				for _, i := range seq {
					ks = append(ks, same[i])
				}
				ls := make_(ks)
				monx.Main(&env.World{Server: server(pat), Child: func(p *env.Proc) {
					write(p, ls, time.Second)
				}}, monx.Args(rules...)...)
				check(fmt.Sprintf("answers %v, equal lines", pat), ls, true)
				c.State("%v %v", pat, seq)
				c.Step(len(seq))
			}
		})
	}
}

// long histories with regular answers.
func long(c *lib.Cases) {
	for n := 10; n <= 100; n *= 3 {
		for every := 1; every <= 5; every++ {
			for _, gap := range []time.Duration{0, time.Second} {
				for k := range replies {
					c.Add(fmt.Sprint(n, every, gap, k), func() {
						var seq []int
						for i := 0; i < n; i++ {
							seq = append(seq, (i*every)%len(kinds))
						}
						ls := make_(seq)
						monx.Main(&env.World{Server: func(a *env.Attempt) env.Reply {
							if a.N%3 == 0 && a.N < 60 {
								return replies[k]
							}
							return env.Reply{}
						}, Child: func(p *env.Proc) { write(p, ls, gap) }}, monx.Args(append([]string{"--stdout-history", "2", "--stderr-history", "0"}, rules...)...)...)
						check("long run", ls, gap > 0)
						c.State("%d %d %v %d", n, every, gap, k)
						c.Step(n)
					})
				}
			}
		}
	}
}

// burst: many matches while alerts are being delivered.
func burst(c *lib.Cases) {
	sizes := []int{1100, 130, 300} // the largest first: it is never left out
	if !c.Quick {
		sizes = []int{2100, 1100, 130, 300}
	}
	for _, n := range sizes {
		for kind := 0; kind < 4; kind++ {
			if n > 500 && kind != 0 || n > 200 && kind == 1 {
				continue
			}
			c.Add(fmt.Sprint(n, kind), func() {
				var seq []int
				for i := 0; i < n; i++ {
					seq = append(seq, []int{0, 2, 0, 5}[i%4])
				}
				ls := make_(seq)
				monx.Main(&env.World{Server: func(a *env.Attempt) env.Reply {
					switch {
					case kind == 0:
						return env.Reply{Delay: 10 * time.Minute}
					case kind == 1 && env.Elapsed() < 10*time.Minute:
						return env.Reply{Err: errors.New("unavailable")}
					case kind == 2 && a.N == 0:
						return env.Reply{Hang: true}
					case kind == 3:
						return env.Reply{Delay: time.Second / 2}
					}
					return env.Reply{}
				}, Child: func(p *env.Proc) {
					write(p, ls, time.Duration(kind/2)*time.Millisecond)
				}}, monx.Args(append([]string{"--stdout-history", "0", "--stderr-history", "0"}, rules...)...)...)
				check("burst", ls, kind/2 > 0)
				c.State("%d %d", n, kind)
				c.Step(n)
			})
		}
	}
}

// givenUp: matches whose alert could never be delivered.
func givenUp(c *lib.Cases) {
	for _, kind := range []env.Reply{{Hang: true}, {Nack: true}} {
		for end := 0; end < 3; end++ {
			c.Add(fmt.Sprint(kind, end), func() {
				ls := make_([]int{0, 2})
				args := append([]string(nil), rules...)
				if end == 2 {
					args = append(args, "--timeout-kill", "2h")
				}
				monx.Main(&env.World{Server: func(a *env.Attempt) env.Reply {
					if env.Elapsed() < 62*time.Minute {
						return kind
					}
					return env.Reply{}
				}, Child: func(p *env.Proc) {
					write(p, ls[:1], 70*time.Minute)
					write(p, ls[1:], 0)
					if end == 2 {
						p.Forever()
					}
					p.Exit(end)
				}}, monx.Args(args...)...)
				check("first alert given up", ls, true)
				c.State("%v %d", kind, end)
				c.Step(1)
			})
		}
	}
}

// killed: matches before the command is killed.
func killed(c *lib.Cases) {
	n := 3
	if !c.Quick {
		n = 4
	}
	c.Seqs("", len(kinds), n, func(seq []int) func() {
		return func() {
			ls := make_(seq)
			monx.Main(&env.World{Server: server([]int{1, 2, 3}), Child: func(p *env.Proc) {
				write(p, ls, 300*time.Millisecond)
				p.Forever()
			}}, monx.Args(append([]string{"--timeout-kill", "2900ms", "--timeout-warn", "700ms"}, rules...)...)...)
			check("killed command", ls, true)
			c.State("%v", seq)
			c.Step(len(seq))
		}
	})
}

// none: without rules there are no alerts.
func none(c *lib.Cases) {
	c.Seqs("", len(kinds), 3, func(seq []int) func() {
		return func() {
			ls := make_(seq)
			for i := range ls {
				ls[i].match = 0
			}
			monx.Main(&env.World{Child: func(p *env.Proc) { write(p, ls, 0) }}, monx.Args()...)
			check("no rules", ls, false)
			c.State("%v", seq)
			c.Step(len(seq))
		}
	})
}

// body explores the schedules of lines without gaps.
func body(seq []int, n int, use ...int) func() {
	return func() {
		ls := make_(seq)
		monx.Main(&env.World{Server: func(a *env.Attempt) env.Reply {
			if a.N >= n {
				return env.Reply{}
			}
			return replies[use[mc.Choose(len(use), "server")]]
		}, Child: func(p *env.Proc) { write(p, ls, 0) }}, monx.Args(rules...)...)
		check("schedule", ls, false)
		var s []string
		for _, r := range reports() {
			l := r.Lines()
			sort.Strings(l)
			s = append(s, fmt.Sprint(r.ReportReason, l))
		}
		sort.Strings(s)
		mc.Outcome(strings.Join(s, " "))
	}
}

// lateLine: a line arrives when an alert is accepted.
func lateLine() {
	ls := make_([]int{0, 2})
	monx.Main(&env.World{Server: func(a *env.Attempt) env.Reply {
		if a.N == 0 {
			return env.Reply{Delay: time.Second}
		}
		return env.Reply{}
	}, Child: func(p *env.Proc) { write(p, ls, time.Second) }}, monx.Args(rules...)...)
	check("line when an alert is accepted", ls, false)
	var s []string
	for _, r := range reports() {
		s = append(s, fmt.Sprint(r.ReportReason, r.Lines()))
	}
	mc.Outcome(strings.Join(s, " "))
}

func main() {
	cfg := mc.Config{Race: true, LeaksOK: true}
	lib.Main("C06", []lib.Scenario{
		{Name: "histories", Weight: 4, What: "all sequences of 3 (4) lines of 7 kinds against all sequences of 2 answers of 5 kinds", Seq: histories(3, 7, 2)},
		{Name: "answers", Weight: 4, What: "all sequences of 3 (4) lines of 3 kinds against all sequences of 4 answers of 5 kinds", Seq: histories(3, 3, 4)},
		{Name: "repeats", Weight: 2, What: "all sequences of 4 (5) lines of 5 kinds that are equal, 5 patterns of answers", Seq: repeats},
		{Name: "long", What: "runs of up to 90 lines", Seq: long},
		{Name: "burst", What: "130 to 1100 (2100) matches while alerts are delayed or retried", Seq: burst},
		{Name: "given-up", What: "alerts that are given up after the retry window", Seq: givenUp},
		{Name: "killed", What: "all sequences of 3 (4) lines of a command that is killed", Seq: killed},
		{Name: "no-rules", What: "all sequences of 3 lines without rules", Seq: none},
		{Name: "one", Cfg: cfg, MaxBound: 3, What: "schedules of a match", Body: body([]int{0}, 2, 0, 1)},
		{Name: "two-streams", Cfg: cfg, MaxBound: 3, Weight: 2, What: "schedules of matches on two streams", Body: body([]int{0, 2}, 1, 0, 1)},
		{Name: "two-lines", Cfg: cfg, MaxBound: 3, Weight: 2, What: "schedules of two matches on a stream", Body: body([]int{0, 4}, 1, 0, 1)},
		{Name: "mixed", Cfg: cfg, MaxBound: 3, Weight: 2, What: "schedules of lines that match and lines that do not", Body: body([]int{1, 2, 0, 3}, 0)},
		{Name: "late-line", Cfg: cfg, MaxBound: 3, Weight: 2, What: "schedules of a match when an alert is accepted", Body: lateLine},
	})
}
