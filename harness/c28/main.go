//go:build go1.22

package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/fsm"
	"github.com/BTBurke/monny/pkg/metric"
	"github.com/BTBurke/monny/pkg/stat"
	"github.com/BTBurke/monny/vh/lib"
	"github.com/BTBurke/monny/vh/statx"
)

type spec struct {
	name     string
	dist     int
	capacity int
	lambda   float64
	k        float64
}

func (s spec) make() *stat.TestStatistic {
	x, err := stat.NewEWMAStatistic(s.name, s.lambda, statx.Dists[s.dist].PDF(s.capacity, stat.KFixed(s.k)))
	if err != nil {
		mc.Fail("create", "%v", err)
	}
	return x
}

var specs = []spec{
	{"ln", 1, 2, 1, 1},
	{"slow", 0, 3, 0.5, 2},
	{"count", 2, 1, 1, 1},
	{"with space", 0, 2, 1, 1},
}

type op struct {
	obs   float64
	to    fsm.State
	reset bool
}

var ops = []op{
	{obs: 3}, {obs: 9}, {obs: 200}, {obs: 0}, {obs: -2}, {obs: math.NaN()},
	{to: stat.Reset}, {to: stat.Reset, reset: true}, {to: stat.LCLInitial, reset: true}, {to: stat.LCLInitial}, {to: stat.UCLInitial, reset: true},
}

func lists(max int) (out [][]int) {
	var rec func(used int, seq []int)
	rec = func(used int, seq []int) {
		if len(seq) > 0 {
			out = append(out, append([]int(nil), seq...))
		}
		if len(seq) == max {
			return
		}
		for i := range specs {
			if used>>uint(i)&1 == 0 {
				rec(used|1<<uint(i), append(append([]int(nil), seq...), i))
			}
		}
	}
	rec(0, nil)
	return
}

func mkName(n int) metric.Name {
	switch n {
	case 0:
		return metric.NewName("latency", nil)
	case 1:
		return metric.NewName("latency", map[string]string{"host": "h 1", "loc": "x"})
	}
	x := metric.NewName("latency", map[string]string{"host": "h"})
	x.AddAnnotation("note")
	return x
}

func same(a, b float64) bool { return a == b || math.IsNaN(a) && math.IsNaN(b) }

// check compares the test with its statistics, each running alone.
func check(desc string, t *stat.Test, name metric.Name, alone []*stat.TestStatistic) {
	st := t.State()
	if len(st) != len(alone) {
		mc.Fail("states", "%s: %d states of %d statistics", desc, len(st), len(alone))
	}
	alarm := false
	want := map[string]float64{}
	for i, a := range alone {
		if st[i] != a.State() {
			mc.Fail("states", "%s: statistic %s is in state %s, alone it would be in %s", desc, a.Name(), st[i], a.State())
		}
		alarm = alarm || a.HasAlarmed()
		for _, v := range []struct {
			n string
			x float64
		}{{"current", a.Value()}, {"limit", a.Limit()}} {
			n := metric.NewNameFrom(name)
			n.AddMetadata(map[string]string{"strategy": a.Name(), "type": "estimator", "value": v.n})
			want[n.String()] = v.x
		}
	}
	if t.HasAlarmed() != alarm {
		mc.Fail("alarm", "%s: alarmed is %v, the states are %v", desc, t.HasAlarmed(), st)
	}
	got := t.Metric()
	for n, x := range want {
		if y, ok := got[n]; !ok || !same(x, y) {
			mc.Fail("metric", "%s: %s is %v, want %v; all are %v", desc, n, y, x, got)
		}
	}
	if len(got) != len(want) || len(want) != 2*len(alone) {
		mc.Fail("metric", "%s: metrics %v, want %v", desc, got, want)
	}
	if t.Name() != name.String() {
		mc.Fail("name", "%s: the test is called %s", desc, t.Name())
	}
}

func apply(desc string, t *stat.Test, alone []*stat.TestStatistic, o op) {
	anyErr := false
	for _, a := range alone {
		var err error
		if o.to == "" {
			err = a.Record(o.obs)
		} else {
			err = a.Transition(o.to, o.reset)
		}
		anyErr = anyErr || err != nil
	}
	var err error
	if o.to == "" {
		err = t.Record(o.obs)
	} else {
		err = t.Transition(o.to, o.reset)
	}
	if anyErr != (err != nil) {
		mc.Fail("errors", "%s: error %v, of the statistics alone %v", desc, err, anyErr)
	}
}

func mk(kind, nameN int, list []int) (*stat.Test, metric.Name, []*stat.TestStatistic) {
	var opts []stat.TestOption
	var alone []*stat.TestStatistic
	for _, i := range list {
		opts = append(opts, stat.WithStatistic(specs[i].make()))
		alone = append(alone, specs[i].make())
	}
	name := mkName(nameN)
	var t *stat.Test
	var err error
	if kind == 0 {
		t, err = stat.NewLogNormalTest(name, opts...)
	} else {
		t, err = stat.NewPoissonTest(name, opts...)
	}
	if err != nil {
		mc.Fail("create", "%v", err)
	}
	return t, mkName(nameN), alone
}

// histories: all operation sequences on tests of up to three statistics.
func histories(c *lib.Cases) {
	depth := 3
	if !c.Quick {
		depth = 5
	}
	prep := [][]op{nil, {{obs: 3}, {obs: 9}, {obs: 3}}, {{obs: 3}, {obs: 9}, {obs: 3}, {obs: 200}, {to: stat.LCLInitial, reset: true}}}
	for li, list := range lists(3) {
		depth := depth
		if len(list) == 3 {
			depth--
		}
		for pi, p := range prep {
			c.Seqs(fmt.Sprintf("%v prepared%d ", list, pi), len(ops), depth, func(seq []int) func() {
				return func() {
					t, name, alone := mk((li+pi)%2, (li+pi)%3, list)
					for i := range p {
						apply("", t, alone, p[i])
					}
					for i, k := range seq {
						desc := fmt.Sprintf("statistics %v, step %d of %v after %v", list, i+1, seq, p)
						apply(desc, t, alone, ops[k])
						check(desc, t, name, alone)
					}
					c.State("%v %v", list, t.State())
					t.Done()
				}
			})
		}
	}
}

// names: the name is not changed by asking for the metrics, nor by the owner.
func names(c *lib.Cases) {
	for n := 0; n < 3; n++ {
		for _, list := range lists(2) {
			c.Add(fmt.Sprint(n, list), func() {
				t, name, alone := mk(0, n, list)
				for i := 0; i < 3; i++ {
					check("name", t, name, alone)
				}
				c.State("%d %v", n, list)
				c.Step(3)
			})
		}
	}
}

// defaults: the default statistics of both kinds.
func defaults(c *lib.Cases) {
	for kind := 0; kind < 2; kind++ {
		c.Add(fmt.Sprint(kind), func() {
			name := metric.NewName("m", nil)
			var t *stat.Test
			var err error
			var alone []*stat.TestStatistic
			if kind == 0 {
				t, err = stat.NewLogNormalTest(name)
				alone = []*stat.TestStatistic{stat.DefaultLogNormalEWMA(), stat.DefaultLogNormalShewart()}
			} else {
				t, err = stat.NewPoissonTest(name)
				alone = []*stat.TestStatistic{stat.DefaultPoissonEWMA(), stat.DefaultPoissonShewart()}
			}
			if err != nil {
				mc.Fail("create", "%v", err)
			}
			mc.Sleep(time.Second)
			for i := 0; i < 70; i++ {
				o := op{obs: 3 + float64(i*i%7)}
				if i%13 == 0 {
					o.obs = -1
				}
				if i > 60 {
					o.obs *= float64(i)
				}
				desc := fmt.Sprintf("defaults of kind %d, observation %d", kind, i+1)
				apply(desc, t, alone, o)
				check(desc, t, name, alone)
				c.Step(1)
				if kind == 1 {
					mc.Sleep(15 * time.Second)
				}
			}
			if !t.HasAlarmed() {
				mc.Fail("alarm", "no alarm by the defaults of kind %d: %v", kind, t.Metric())
			}
			t.Done()
			for _, a := range alone {
				a.Done()
			}
			mc.Settle()
			if l := mc.Live(); len(l) > 0 {
				mc.Fail("leak", "still running after the test is done: %v", strings.Join(l, "; "))
			}
			c.State("%d", kind)
		})
	}
}

// many: tests of many statistics and many observations.
func many(c *lib.Cases) {
	for _, n := range []int{4, 5, 9, 17, 40} {
		for pattern := 0; pattern < 8; pattern++ {
			for kind := 0; kind < 2; kind++ {
				c.Add(fmt.Sprint(n, pattern, kind), func() {
					var opts []stat.TestOption
					var alone []*stat.TestStatistic
					for i := 0; i < n; i++ {
						sp := spec{fmt.Sprint("s", i), (i + pattern) % 3, 1 + (i*3+pattern)%6, []float64{1, 0.5, 0.25}[i%3], 1 + float64((i*7+pattern)%23)}
						if pattern == 5 { // all but the last one of these never alarm
							sp.k = 1e9
							if i == n-1 {
								sp = spec{fmt.Sprint("s", i), 0, 2, 1, 1}
							}
						}
						opts = append(opts, stat.WithStatistic(sp.make()))
						alone = append(alone, sp.make())
					}
					name := mkName(pattern % 3)
					var t *stat.Test
					var err error
					if kind == 0 {
						t, err = stat.NewLogNormalTest(name, opts...)
					} else {
						t, err = stat.NewPoissonTest(name, opts...)
					}
					if err != nil {
						mc.Fail("create", "%v", err)
					}
					steps := 150
					if n <= 5 {
						steps = 1500
					}
					for i := 0; i < steps; i++ {
						o := op{obs: 3 + float64((i*i+pattern)%5)}
						switch {
						case i%67 == 50:
							o.obs = 40 + float64(i)
						case i%67 == 60:
							o = op{to: stat.Reset, reset: i%2 == 0}
						case i%67 == 61 && i%3 == 0:
							o = op{to: stat.LCLInitial, reset: true}
						case i%31 == 30:
							o.obs = -2
						}
						desc := fmt.Sprintf("%d statistics, pattern %d, step %d", n, pattern, i+1)
						apply(desc, t, alone, o)
						if i%3 == 0 || i%67 > 48 {
							check(desc, t, mkName(pattern%3), alone)
						}
						c.Step(1)
					}
					c.State("%d %d %v", n, pattern, t.State())
					t.Done()
				})
			}
		}
	}
}

func main() {
	lib.Main("C28", []lib.Scenario{
		{Name: "histories", Weight: 4, What: "all sequences of 3 (5) operations, from three situations, on tests of every list of up to two of four different statistics, and of 2 (4) operations with every three of them, against each statistic alone", Seq: histories},
		{Name: "many", What: "tests of up to 40 statistics of all kinds, up to 1500 observations and transitions in 8 patterns, against each statistic alone", Seq: many},
		{Name: "names", What: "names and metrics for names with and without metadata", Seq: names},
		{Name: "defaults", What: "the default tests over 70 observations", Seq: defaults},
	})
}
