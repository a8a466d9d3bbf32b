//go:build go1.22

package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/BTBurke/monny/mc/env"
	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/monny"
	"github.com/BTBurke/monny/pkg/pb"
	"github.com/BTBurke/monny/vh/lib"
	"github.com/BTBurke/monny/vh/monx"
)

const ms = time.Millisecond

// sym is a step of a command.
type sym struct {
	name  string
	fd    int
	text  string
	match int
	gap   time.Duration
}

var syms = []sym{
	{name: "match", fd: 1, text: "match %d", match: 1},
	{name: "match on stderr", fd: 2, text: "match %d", match: 1},
	{name: "double match", fd: 1, text: "match, twice %d", match: 2},
	{name: "other line", fd: 1, text: "plain %d"},
	{name: "1s", gap: time.Second},
	{name: "2s", gap: 2 * time.Second},
	{name: "2.1s", gap: 2100 * ms},
}

type conf struct {
	quantity int
	period   time.Duration
}

var confs = []conf{{1, 0}, {2, 0}, {3, 0}, {2, 2 * time.Second}, {3, 2 * time.Second}, {2, time.Second}, {1, 2 * time.Second}, {4, 5 * time.Second}}

func (c conf) opts() []monny.ConfigOption {
	o := []monny.ConfigOption{monny.ID("id"), monny.Host("srv:80"), monny.Insecure(), monny.Rule("^match"), monny.Rule("twice"), monny.RuleQuantity(fmt.Sprint(c.quantity))}
	if c.period > 0 {
		o = append(o, monny.RulePeriod(c.period.String()))
	}
	return o
}

type hit struct {
	at   time.Duration
	line string
	n    int
}

// play runs a command that does some steps 1ms apart and checks its alerts.
func play(desc string, c conf, seq []sym, server func(a *env.Attempt) env.Reply) {
	var hits []hit
	monx.API(&env.World{Server: server, Child: func(p *env.Proc) {
		for i, s := range seq {
			if s.gap > 0 {
				p.Sleep(s.gap - ms)
				continue
			}
			text := fmt.Sprintf(s.text, i)
			if s.match > 0 {
				hits = append(hits, hit{env.Elapsed(), text, s.match})
			}
			if s.fd == 1 {
				p.Stdout(text + "\n")
			} else {
				p.Stderr(text + "\n")
			}
			p.Sleep(ms)
		}
	}}, []string{"prog"}, c.opts()...)

	// what was sent, in order
	type sent struct {
		monx.Report
		done time.Duration // accepted
	}
	by := map[string]*sent{}
	var alerts []*sent
	for _, a := range env.W.Attempts {
		k := string(a.Wire)
		x := by[k]
		if x == nil {
			x = &sent{monx.Decode(a), -1}
			by[k] = x
			switch x.ReportReason {
			case pb.ReportReason_AlertRate:
				alerts = append(alerts, x)
			case pb.ReportReason_Alert:
				mc.Fail("reason", "%s: an alert without regard to the quantity", desc)
			}
		}
		if a.Acked {
			x.done = a.Done
		}
	}
	// the specification: alerts that are due
	reported := map[string]bool{}
	k := 0
	for i, h := range hits {
		for _, a := range alerts[:k] {
			if a.done >= 0 && a.done <= h.at {
				for _, l := range a.Lines() {
					reported[l] = true
				}
			}
		}
		n := 0
		for _, x := range hits[:i+1] {
			if !reported[x.line] && (c.period <= 0 || h.at-x.at <= c.period) {
				n += x.n
			}
		}
		due := n >= c.quantity
		got := k < len(alerts) && alerts[k].A.At == h.at
		if due != got {
			mc.Fail("rate", "%s: quantity %d, period %v: at %v there are %d not reported matches, alert sent: %v; matches %v, alerts %v", desc, c.quantity, c.period, h.at, n, got, hits, times(env.W.Attempts))
		}
		if !got {
			continue
		}
		m := 0
		for _, l := range alerts[k].Lines() {
			if l == h.line {
				m++
			}
		}
		if m != h.n {
			mc.Fail("content", "%s: the alert of %v has the matches %q, the line %q is to be there %d times", desc, h.at, alerts[k].Lines(), h.line, h.n)
		}
		k++
	}
	if k != len(alerts) {
		mc.Fail("rate", "%s: quantity %d, period %v: %d alerts, want %d; matches %v, alerts %v", desc, c.quantity, c.period, len(alerts), k, hits, times(env.W.Attempts))
	}
	lib_state = fmt.Sprint(desc, len(alerts))
}

var lib_state string

func times(as []*env.Attempt) string {
	var s []string
	for _, a := range as {
		if r := monx.Decode(a); r.ReportReason == pb.ReportReason_AlertRate {
			s = append(s, fmt.Sprintf("%v %q", a.At, r.Lines()))
		}
	}
	return strings.Join(s, "; ")
}

func names(seq []sym) string {
	var s []string
	for _, x := range seq {
		s = append(s, x.name)
	}
	return strings.Join(s, ", ")
}

var replies = []env.Reply{{}, {Nack: true}, {Delay: 1300 * ms}, {Nack: true, Delay: 700 * ms}}

func histories(c *lib.Cases) {
	depth := 4
	if !c.Quick {
		depth = 5
	}
	for ci, cf := range confs {
		c.Seqs(fmt.Sprint(ci, " "), len(syms), depth, func(idx []int) func() {
			return func() {
				var seq []sym
				for _, i := range idx {
					seq = append(seq, syms[i])
				}
				play(names(seq), cf, seq, nil)
				c.State("%d %s", ci, lib_state)
				c.Step(len(seq))
			}
		})
	}
}

// regular: longer sequences of matches and gaps only.
func regular(c *lib.Cases) {
	depth := 7
	if !c.Quick {
		depth = 9
	}
	use := []int{0, 4, 6}
	for ci, cf := range confs[1:5] {
		c.Seqs(fmt.Sprint(ci, " "), len(use), depth, func(idx []int) func() {
			return func() {
				var seq []sym
				for _, i := range idx {
					seq = append(seq, syms[use[i]])
				}
				play(names(seq), cf, seq, nil)
				c.State("%d %s", ci, lib_state)
				c.Step(len(seq))
			}
		})
	}
}

// answers: alerts that are accepted late.
func answers(c *lib.Cases) {
	depth := c.Depth(4, 5)
	use := []int{0, 1, 4, 5}
	for ci, cf := range []conf{{1, 0}, {2, 0}, {2, 2 * time.Second}} {
		for r1 := range replies {
			for r2 := range replies {
				for r3 := range replies {
					if c.Quick && r3 > 1 {
						continue
					}
					c.Seqs(fmt.Sprint(ci, r1, r2, r3, " "), len(use), depth, func(idx []int) func() {
						return func() {
							var seq []sym
							for _, i := range idx {
								seq = append(seq, syms[use[i]])
							}
							// and when all is delivered
							seq = append(seq, sym{name: "20s", gap: 20 * time.Second}, syms[0], syms[0])
							rs := []int{r1, r2, r3}
							play(fmt.Sprintf("%s, answers %v", names(seq), rs), cf, seq, func(a *env.Attempt) env.Reply {
								if a.N < len(rs) {
									return replies[rs[a.N]]
								}
								return env.Reply{}
							})
							c.State("%d %s", ci, lib_state)
							c.Step(len(seq))
						}
					})
				}
			}
		}
	}
}

// many: quantities up to 20 with regular matches.
func many(c *lib.Cases) {
	for q := 1; q <= 20; q++ {
		for _, period := range []time.Duration{0, 3 * time.Second, 10 * time.Second, time.Minute} {
			for _, gap := range []int{4, 5, 6} {
				c.Add(fmt.Sprint(q, period, gap), func() {
					var seq []sym
					for i := 0; i < 45; i++ {
						seq = append(seq, syms[i%3])
						if i%2 == 0 {
							seq = append(seq, syms[gap])
						}
					}
					play("many matches", conf{q, period}, seq, nil)
					c.State("%d %v %d", q, period, gap)
					c.Step(len(seq))
				})
			}
		}
	}
}

// large: large quantities.
func large(c *lib.Cases) {
	for _, q := range []int{100, 257, 1025, 1500} {
		for _, period := range []time.Duration{0, time.Second / 2, time.Hour} {
			if q > 300 && period == time.Second/2 {
				continue
			}
			c.Add(fmt.Sprint(q, period), func() {
				var seq []sym
				for i := 0; i < q+30; i++ {
					seq = append(seq, syms[i%2])
				}
				play("a large quantity", conf{q, period}, seq, nil)
				c.State("%d %v", q, period)
				c.Step(len(seq))
			})
		}
	}
}

// days: periods of more than an hour, more than a day.
func days(c *lib.Cases) {
	periods := []time.Duration{61 * time.Minute, 25 * time.Hour}
	n := 2
	if !c.Quick {
		periods = append(periods, 30*time.Hour)
		n = 3
	}
	for _, period := range periods {
		gaps := []sym{{name: "third", gap: period / 3}, {name: "more than half", gap: period * 4 / 7}, {name: "whole", gap: period + 3*time.Second}}
		for q := 2; q <= 3; q++ {
			if q == 3 && period > 24*time.Hour && c.Quick {
				continue
			}
			n := n
			if period > 24*time.Hour {
				n--
			}
			c.Seqs(fmt.Sprint(period, q), len(gaps), n, func(idx []int) func() {
				return func() {
					seq := []sym{syms[0]}
					for i, k := range idx {
						seq = append(seq, gaps[k], syms[i%2])
					}
					play(fmt.Sprintf("%s, period %v", names(seq), period), conf{q, period}, seq, nil)
					c.State("%v %s", period, lib_state)
					c.Step(len(seq))
				}
			})
		}
	}
}

// body: schedules of matches without gaps.
func body(c conf, lines []string, server func(a *env.Attempt) env.Reply) func() {
	return func() {
		monx.API(&env.World{Server: server, Child: func(p *env.Proc) {
			for _, l := range lines {
				if l[0] == 'o' {
					p.Stdout(l[1:] + "\n")
				} else {
					p.Stderr(l[1:] + "\n")
				}
			}
		}}, []string{"prog"}, c.opts()...)
		n := 0
		total := 0
		for _, l := range lines {
			if strings.Contains(l, "match") {
				total++
			}
		}
		var s []string
		for _, r := range monx.Received() {
			if r.ReportReason == pb.ReportReason_AlertRate {
				n++
				if len(r.Matched) < c.quantity {
					mc.Fail("rate", "an alert with %d matches %q, the quantity is %d", len(r.Matched), r.Lines(), c.quantity)
				}
				l := r.Lines()
				sort.Strings(l)
				s = append(s, fmt.Sprint(l))
			}
		}
		if total >= c.quantity && n == 0 {
			mc.Fail("rate", "no alert for %d matches, the quantity is %d", total, c.quantity)
		}
		if n > total-c.quantity+1 && n > total {
			mc.Fail("rate", "%d alerts for %d matches, the quantity is %d", n, total, c.quantity)
		}
		mc.Outcome(strings.Join(s, ";"))
	}
}

func main() {
	cfg := mc.Config{LeaksOK: true}
	lib.Main("C07", []lib.Scenario{
		{Name: "histories", Weight: 3, What: "all sequences of 4 (5) steps of 7 kinds with 8 settings", Seq: histories},
		{Name: "regular", Weight: 2, What: "all sequences of 7 (9) matches and gaps with 4 settings", Seq: regular},
		{Name: "answers", Weight: 3, What: "all sequences of 4 (5) matches and gaps, and two more matches when all is delivered, against all sequences of 3 answers of 4 kinds with 3 settings", Seq: answers},
		{Name: "many", What: "quantities up to 20 and four periods with 45 matches", Seq: many},
		{Name: "large", What: "quantities up to 1500, one alert of so many matches", Seq: large},
		{Name: "days", What: "periods of an hour and of a day with all sequences of up to 2 (3) gaps and matches", Seq: days},
		{Name: "two-streams", Cfg: cfg, MaxBound: 3, Weight: 2, What: "schedules of matches on two streams, quantity 2", Body: body(conf{2, 0}, []string{"omatch 1", "ematch 2"}, nil)},
		{Name: "two-lines", Cfg: cfg, MaxBound: 3, Weight: 2, What: "schedules of three matches, quantity 2, with a period", Body: body(conf{2, time.Second}, []string{"omatch 1", "omatch 2", "ematch 3"}, nil)},
		{Name: "too-few", Cfg: cfg, MaxBound: 3, What: "schedules of two matches, quantity 3", Body: body(conf{3, 0}, []string{"omatch 1", "ematch 2", "oplain"}, nil)},
	})
}
