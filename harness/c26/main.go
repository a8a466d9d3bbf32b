//go:build go1.22

package main

import (
	"fmt"
	"math"
	"time"

	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/fsm"
	"github.com/BTBurke/monny/pkg/metric"
	"github.com/BTBurke/monny/pkg/stat"
	"github.com/BTBurke/monny/vh/lib"
	"github.com/BTBurke/monny/vh/statx"
)

type op struct {
	obs   float64
	to    fsm.State
	reset bool
}

func (o op) String() string {
	if o.to == "" {
		return fmt.Sprintf("record %v", o.obs)
	}
	return fmt.Sprintf("transition %s %v", o.to, o.reset)
}

func rec(v ...float64) (l []op) {
	for _, x := range v {
		l = append(l, op{obs: x})
	}
	return
}

// values per distribution: mean-making, above, far above, negative, undefined
var values = map[string][]float64{
	"custom":     {1, 3, 9, -5, math.NaN(), math.Inf(1)},
	"log-normal": {1, 3, 20, 9000, 0.1, -1, 0},
	"poisson":    {0, 1, 4, 40, math.NaN(), math.Inf(-1)},
}

var transitions = []op{
	{to: stat.Reset}, {to: stat.Reset, reset: true},
	{to: stat.LCLInitial}, {to: stat.LCLInitial, reset: true},
	{to: stat.UCLInitial}, {to: stat.UCLInitial, reset: true},
	{to: stat.LCLTrip, reset: true},
}

// run applies the operations to a statistic and the specification.
func run(c *lib.Cases, d statx.Dist, capacity int, lambda float64, ops []op) {
	const k = 1.0
	m := statx.NewModel(d, capacity, lambda, k)
	s, err := stat.NewEWMAStatistic("x", lambda, d.PDF(capacity, stat.KFixed(k)))
	if err != nil {
		mc.Fail("create", "%v", err)
	}
	for i, o := range ops {
		before := [2]float64{s.Value(), s.Limit()}
		was := m.State
		var ok bool
		var err error
		if o.to == "" {
			ok = m.Record(o.obs)
			err = s.Record(o.obs)
		} else {
			// explicitly entering the testing or alarm states by hand is not part of the life cycle
			if a := m.Allowed(o.to); a && (o.to == stat.TestingUCL || o.to == stat.TestingLCL || o.to == stat.UCLTrip || o.to == stat.LCLTrip) {
				break
			}
			ok = m.Transition(o.to, o.reset)
			err = s.Transition(o.to, o.reset)
		}
		if m.Unsure {
			break
		}
		desc := func() string {
			return fmt.Sprintf("%s, capacity %d, weight %v: %v at step %d of %v", d.Name, capacity, lambda, o, i+1, ops)
		}
		if ok != (err == nil) {
			mc.Fail("error", "%s in state %s: error %v", desc(), was, err)
		}
		if x := m.Diff(s); x != "" {
			mc.Fail("life-cycle", "%s in state %s: %s", desc(), was, x)
		}
		if !ok && (s.Value() != before[0] || s.Limit() != before[1]) {
			mc.Fail("life-cycle", "%s in state %s was refused but changed the value or limit", desc(), was)
		}
		c.Step(1)
		c.State("%s %d %v %s %v", d.Name, capacity, lambda, m.State, m.Series)
	}
	s.Done()
}

// prepared histories that lead to every state.
func prepared(d string, capacity int) map[string][]op {
	var boot, high, low []op
	switch d {
	case "custom":
		boot, high, low = rec(1, 3, 2, 3)[:capacity], rec(9, 9, 9, 9, 9), rec(-5, -5, -5, -5, -5)
	case "log-normal":
		boot, high, low = rec(3, 20, 3, 20)[:capacity], rec(9000, 9000, 9000, 9000), rec(0.01, 0.01, 0.01, 0.01)
	case "poisson":
		boot, high, low = rec(4, 3, 4, 5)[:capacity], rec(40, 40), rec(0, 0, 0, 0, 0, 0)
	}
	cat := func(l ...[]op) (r []op) {
		for _, x := range l {
			r = append(r, x...)
		}
		return
	}
	tl := []op{{to: stat.LCLInitial, reset: true}}
	return map[string][]op{
		"fresh":       nil,
		"testing-ucl": boot,
		"ucl-trip":    cat(boot, high),
		"testing-lcl": cat(boot, high, tl, boot),
		"lcl-trip":    cat(boot, high, tl, boot, low),
		"reset":       cat(boot, []op{{to: stat.Reset}}),
		"slid":        cat(rec(values[d][4]), boot[:capacity-1], high[:1]),
	}
}

func cycles(dist int) func(c *lib.Cases) {
	return func(c *lib.Cases) {
		d := statx.Dists[dist]
		var ops []op
		for _, v := range values[d.Name] {
			ops = append(ops, op{obs: v})
		}
		ops = append(ops, transitions...)
		depth := 4
		if !c.Quick {
			depth = 5
		}
		for _, capacity := range []int{2, 1, 3} {
			for _, lambda := range []float64{1, 0.5} {
				prep := prepared(d.Name, capacity)
				for _, name := range []string{"fresh", "testing-ucl", "ucl-trip", "testing-lcl", "lcl-trip", "reset", "slid"} {
					dp := depth
					if capacity != 2 || lambda != 1 {
						dp--
					}
					c.Seqs(fmt.Sprintf("%s cap%d weight%v %s ", d.Name, capacity, lambda, name), len(ops), dp, func(seq []int) func() {
						return func() {
							l := append([]op(nil), prep[name]...)
							for _, k := range seq {
								l = append(l, ops[k])
							}
							run(c, d, capacity, lambda, l)
						}
					})
				}
			}
		}
	}
}

// long histories of few operations.
func deep(c *lib.Cases) {
	d := statx.Dists[0]
	ops := append(rec(1, 3, 9), op{to: stat.Reset}, op{to: stat.LCLInitial, reset: true})
	depth := 8
	if !c.Quick {
		depth = 10
	}
	c.Seqs("", len(ops), depth, func(seq []int) func() {
		return func() {
			var l []op
			for _, k := range seq {
				l = append(l, ops[k])
			}
			run(c, d, 2, 1, l)
		}
	})
}

// pairs: every requested transition in every state, with and without reset.
func pairs(c *lib.Cases) {
	all := []fsm.State{stat.Reset, stat.UCLInitial, stat.TestingUCL, stat.UCLTrip, stat.LCLInitial, stat.TestingLCL, stat.LCLTrip, "unknown", ""}
	for di := range statx.Dists {
		d := statx.Dists[di]
		for name, prep := range prepared(d.Name, 2) {
			for _, to := range all {
				for _, reset := range []bool{false, true} {
					c.Add(fmt.Sprintf("%s %s %s %v", d.Name, name, to, reset), func() {
						m := statx.NewModel(d, 2, 1, 1)
						s, err := stat.NewEWMAStatistic("x", 1, d.PDF(2, stat.KFixed(1)))
						if err != nil {
							mc.Fail("create", "%v", err)
						}
						do := func(o op) {
							if o.to == "" {
								m.Record(o.obs)
								s.Record(o.obs)
							} else {
								m.Transition(o.to, o.reset)
								s.Transition(o.to, o.reset)
							}
						}
						for _, o := range prep {
							do(o)
						}
						from := m.State
						ok := m.Transition(to, reset)
						err = s.Transition(to, reset)
						if ok != (err == nil) || s.State() != m.State {
							mc.Fail("transition", "%s from %s to %s: error %v, state %s", d.Name, from, to, err, s.State())
						}
						if s.HasAlarmed() != m.Alarmed() {
							mc.Fail("transition", "alarmed %v in state %s", s.HasAlarmed(), s.State())
						}
						if !ok {
							// nothing has changed: it goes on as it would have
							for _, v := range append(values[d.Name], values[d.Name]...) {
								do(op{obs: v})
								if m.Unsure {
									break
								}
								if x := m.Diff(s); x != "" {
									mc.Fail("transition", "%s: after the refused transition from %s to %s: %s", d.Name, from, to, x)
								}
							}
						}
						c.Step(1)
						c.State("%s %s %s %v", d.Name, name, to, reset)
						s.Done()
					})
				}
			}
		}
	}
}

// windows: a statistic over sampled windows bootstraps from samples.
func windows(c *lib.Cases) {
	const w = 10 * time.Millisecond
	per := []float64{0, 1, 5, 30}
	depth := 4
	if !c.Quick {
		depth = 6
	}
	c.Seqs("", len(per), depth, func(seq []int) func() {
		return func() {
			m := statx.NewModel(statx.Dists[2], 2, 1, 1)
			s, err := stat.NewEWMAStatistic("x", 1, stat.NewPoisson(2, w, metric.SampleSum, stat.KFixed(1)))
			if err != nil {
				mc.Fail("create", "%v", err)
			}
			mc.Sleep(w / 2)
			var samples []float64
			for i, k := range seq {
				v := per[k]
				if err := s.Record(v); err != nil {
					mc.Fail("error", "%v", err)
				}
				// bootstrap looks at the samples of the windows that are over
				if m.State == stat.UCLInitial {
					if len(samples) >= 2 {
						last := samples[len(samples)-2:]
						if mean := (last[0] + last[1]) / 2; mean > 0 {
							m.State, m.Known, m.Current, m.Limit = stat.TestingUCL, true, mean, mean+math.Sqrt(mean)
						}
					}
				} else {
					m.Record(v)
				}
				if m.Unsure {
					break
				}
				if x := m.Diff(s); x != "" {
					mc.Fail("life-cycle", "one observation per window, step %d of %v: %s", i+1, seq, x)
				}
				samples = append(samples, v)
				mc.Sleep(w)
				c.Step(1)
			}
			c.State("%v", samples)
			s.Done()
			mc.Settle()
			if l := mc.Live(); len(l) > 0 {
				mc.Fail("leak", "still running: %v", l)
			}
		}
	})
}

func main() {
	lib.Main("C26", []lib.Scenario{
		{Name: "custom", Weight: 2, What: "all sequences of 4 (5) observations and transitions from every state, capacities 1 to 3, weights 1 and 0.5, a distribution that keeps values as they are", Seq: cycles(0)},
		{Name: "log-normal", Weight: 2, What: "the same for the log-normal distribution", Seq: cycles(1)},
		{Name: "poisson", Weight: 2, What: "the same for the Poisson distribution", Seq: cycles(2)},
		{Name: "deep", Weight: 2, What: "all sequences of 8 (10) of three observations, reset and the change to the lower phase", Seq: deep},
		{Name: "pairs", What: "every requested transition in every state, known and unknown states, with and without reset of the series", Seq: pairs},
		{Name: "windows", What: "a Poisson statistic over sampled windows", Seq: windows},
	})
}
