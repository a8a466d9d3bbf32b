//go:build go1.22

package main

import (
	"fmt"
	"math"
	"time"

	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/metric"
	"github.com/BTBurke/monny/pkg/stat"
	"github.com/BTBurke/monny/vh/lib"
	"github.com/BTBurke/monny/vh/statx"
)

// ks are the settings of k with the value they stand for.
type kset struct {
	name string
	k    stat.K
	ln,
	p float64
}

func rate(r float64) kset {
	return kset{fmt.Sprintf("error rate %v", r), stat.KErrorRate(r), (math.Log(r) - stat.LogNormalA) / stat.LogNormalB, (math.Log(r) - stat.PoissonA) / stat.PoissonB}
}

func fixed(k float64) kset { return kset{fmt.Sprintf("k %v", k), stat.KFixed(k), k, k} }

var ks = []kset{fixed(1), rate(0.05), fixed(0), fixed(3.5), rate(0.001), rate(0.5), rate(1)}

var lambdas = []float64{0.25, 1, 0.1, 0.5, 0.75, 0.999}

func (k kset) of(d statx.Dist) float64 {
	if d.Name == "poisson" {
		return k.p
	}
	return k.ln
}

var grid = map[string][]float64{
	"custom":     {1, 2.5, 7, -3},
	"log-normal": {1, 2.5, 90, 0.3},
	"poisson":    {0, 1, 4, 9},
}

// series: all bootstraps followed by all test sequences.
func series(dist int) func(c *lib.Cases) {
	return func(c *lib.Cases) {
		d := statx.Dists[dist]
		g := grid[d.Name]
		for ki, k := range ks {
			for li, lambda := range lambdas {
				for capacity := 1; capacity <= 4; capacity++ {
					extra := 3
					if c.Quick && (ki > 1 && li > 1 || capacity == 4) {
						extra = 1
					}
					if !c.Quick {
						extra = 4
						if capacity == 4 {
							extra = 3
						}
					}
					for _, lower := range []bool{false, true} {
						c.Seqs(fmt.Sprintf("%s %s weight%v cap%d lower %v ", d.Name, k.name, lambda, capacity, lower), len(g), capacity+extra, func(seq []int) func() {
							return func() {
								m := statx.NewModel(d, capacity, lambda, k.of(d))
								s, err := stat.NewEWMAStatistic("x", lambda, d.PDF(capacity, k.k))
								if err != nil {
									mc.Fail("create", "%v", err)
								}
								if lower {
									for _, to := range []struct{ reset bool }{{true}} {
										if err := s.Transition(stat.Reset, to.reset); err != nil {
											mc.Fail("create", "%v", err)
										}
										s.Transition(stat.LCLInitial, true)
										m.Transition(stat.Reset, true)
										m.Transition(stat.LCLInitial, true)
									}
								}
								for i, x := range seq {
									m.Record(g[x])
									if err := s.Record(g[x]); err != nil {
										mc.Fail("error", "record %v: %v", g[x], err)
									}
									if m.Unsure {
										break
									}
									if diff := m.Diff(s); diff != "" {
										mc.Fail("ewma", "%s, %s, weight %v, capacity %d, lower %v, after %d of %v of %v: %s", d.Name, k.name, lambda, capacity, lower, i+1, seq, g, diff)
									}
									c.State("%v %v", m.Current, m.Limit)
								}
								s.Done()
							}
						})
					}
				}
			}
		}
	}
}

// long: long bootstraps and long tests, values of all magnitudes.
func long(c *lib.Cases) {
	scales := [][2]float64{{0, 1}, {0, 1e-7}, {0, 1e9}, {1e8, 1}, {3, 0.001}, {0, 1e150}}
	for di, d := range statx.Dists {
		for _, capacity := range []int{2, 49, 50, 256, 1001, 5000} {
			for _, lambda := range []float64{0.25, 1, 0.02} {
				for si, sc := range scales {
					for _, lower := range []bool{false, true} {
						c.Add(fmt.Sprint(di, capacity, lambda, si, lower), func() {
							const k = 30
							m := statx.NewModel(d, capacity, lambda, k)
							s, err := stat.NewEWMAStatistic("x", lambda, d.PDF(capacity, stat.KFixed(k)))
							if err != nil {
								mc.Fail("create", "%v", err)
							}
							desc := fmt.Sprintf("%s, capacity %d, weight %v, values %v+%v*x, lower %v", d.Name, capacity, lambda, sc[0], sc[1], lower)
							tested := 700
							if !c.Quick {
								tested = 20000
							}
							n := capacity + tested
							if lower {
								n *= 2
							}
							for i := 0; i < n; i++ {
								x := sc[0] + sc[1]*float64(2+(i*i+i/7)%5)
								if lower && i == n/2 {
									e1, e2 := s.Transition(stat.Reset, true) == nil, m.Transition(stat.Reset, true)
									e3, e4 := s.Transition(stat.LCLInitial, true) == nil, m.Transition(stat.LCLInitial, true)
									if e1 != e2 || e3 != e4 {
										mc.Fail("transition", "%s: %v %v, want %v %v", desc, e1, e3, e2, e4)
									}
								}
								m.Record(x)
								if err := s.Record(x); err != nil {
									mc.Fail("error", "%s: record %v: %v", desc, x, err)
								}
								if m.Unsure {
									return
								}
								if diff := m.Diff(s); diff != "" {
									mc.Fail("ewma", "%s, after %d observations: %s", desc, i+1, diff)
								}
								c.Step(1)
							}
							c.State("%s %s %v", desc, m.State, m.Current)
							s.Done()
						})
					}
				}
			}
		}
	}
}

// boundary: values exactly at, slightly above and slightly below the limit.
func boundary(c *lib.Cases) {
	for _, mean := range []float64{1, 4, 9, 16, 25, 100} {
		for _, k := range []float64{0.5, 1, 2, 3} {
			for _, lower := range []bool{false, true} {
				for _, capacity := range []int{1, 2, 5} {
					for eps := -1; eps <= 1; eps++ {
						c.Add(fmt.Sprint(mean, k, lower, capacity, eps), func() {
							s, err := stat.NewEWMAStatistic("x", 1, stat.NewPoisson(capacity, 0, metric.SampleSum, stat.KFixed(k)))
							if err != nil {
								mc.Fail("create", "%v", err)
							}
							want, limit := stat.UCLTrip, mean+k*math.Sqrt(mean)
							if lower {
								want, limit = stat.LCLTrip, mean-k*math.Sqrt(mean)
								s.Transition(stat.Reset, true)
								s.Transition(stat.LCLInitial, true)
							}
							for i := 0; i < capacity; i++ {
								s.Record(mean)
							}
							// far enough from the limit that another order of the arithmetic rounds to the same side
							x := limit + float64(eps)*1e-9*mean
							s.Record(x)
							alarm := eps >= 0
							if lower {
								alarm = eps <= 0
							}
							if (s.State() == want) != alarm {
								mc.Fail("boundary", "weight 1, bootstrap of %d times %v, k %v, limit %v: after the observation %v the state is %s", capacity, mean, k, s.Limit(), x, s.State())
							}
							c.Step(capacity + 1)
							c.State("%v %v %v", limit, lower, eps)
						})
					}
				}
			}
		}
	}
}

// kvalues: k as configured.
func kvalues(c *lib.Cases) {
	for i := 1; i <= 999; i++ {
		r := float64(i) / 1000
		c.Add(fmt.Sprint(r), func() {
			w := rate(r)
			ln, err1 := stat.KErrorRate(r).CalculateLN()
			p, err2 := stat.KErrorRate(r).CalculateP()
			if err1 != nil || err2 != nil || !statx.Near(ln, w.ln) || !statx.Near(p, w.p) {
				mc.Fail("k", "error rate %v: k is %v (%v) and %v (%v), want %v and %v", r, ln, err1, p, err2, w.ln, w.p)
			}
			pk, err := stat.NewLogNormal(5, stat.KErrorRate(r)).K()
			if err != nil || !statx.Near(pk, w.ln) {
				mc.Fail("k", "error rate %v: k of the log-normal distribution is %v (%v)", r, pk, err)
			}
			pk, err = stat.NewPoisson(5, 0, metric.SampleSum, stat.KErrorRate(r)).K()
			if err != nil || !statx.Near(pk, w.p) {
				mc.Fail("k", "error rate %v: k of the Poisson distribution is %v (%v)", r, pk, err)
			}
			f := stat.KFixed(r * 10)
			a, _ := f.CalculateLN()
			b, _ := f.CalculateP()
			if a != r*10 || b != r*10 {
				mc.Fail("k", "fixed k %v is %v and %v", r*10, a, b)
			}
			c.Step(5)
			c.State("%v", r)
		})
	}
	for _, r := range []float64{0, -0.1, -1, math.NaN()} {
		c.Add(fmt.Sprint("bad ", r), func() {
			if k, err := stat.KErrorRate(r).CalculateLN(); err == nil {
				mc.Fail("k", "error rate %v gives k %v without an error", r, k)
			}
			if k, err := stat.KErrorRate(r).CalculateP(); err == nil {
				mc.Fail("k", "error rate %v gives k %v without an error", r, k)
			}
		})
	}
}

// defaults: the standard statistics.
func defaults(c *lib.Cases) {
	mk := []struct {
		name   string
		dist   int
		lambda float64
		f      func() *stat.TestStatistic
	}{
		{"ewma", 1, 0.25, stat.DefaultLogNormalEWMA},
		{"shewart", 1, 1, stat.DefaultLogNormalShewart},
	}
	for mi, x := range mk {
		for variant := 0; variant < 40; variant++ {
			c.Add(fmt.Sprint(mi, variant), func() {
				s := x.f()
				if s.Name() != x.name {
					mc.Fail("name", "%s is called %s", x.name, s.Name())
				}
				d := statx.Dists[x.dist]
				m := statx.NewModel(d, 50, x.lambda, rate(0.05).of(d))
				for i := 0; i < 120; i++ {
					v := 2 + float64((i*i+variant*i)%(7+variant))
					if i > 60 {
						v *= 1 + float64(variant*(i-60))/10
					}
					m.Record(v)
					if err := s.Record(v); err != nil {
						mc.Fail("error", "%v", err)
					}
					if m.Unsure {
						return
					}
					if diff := m.Diff(s); diff != "" {
						mc.Fail("ewma", "default %s, variant %d, observation %d: %s", x.name, variant, i+1, diff)
					}
					c.Step(1)
				}
				c.State("%d %s %v", mi, m.State, m.Current)
				s.Done()
			})
		}
	}
}

// poissonDefaults: the default statistics do what their documentation says: 50 bootstrap windows of 15 seconds, of
// which the sum counts, at an error rate of 0.05.
func poissonDefaults(c *lib.Cases) {
	gaps := []time.Duration{time.Second, 4 * time.Second, 7500 * time.Millisecond, 15 * time.Second, 15500 * time.Millisecond, 40 * time.Second}
	for kind := 0; kind < 2; kind++ {
		for gi, gap := range gaps {
			if c.Quick && gi == 0 {
				continue
			}
			for variant := 0; variant < 6; variant++ {
				if c.Quick && variant%2 == 0 {
					continue
				}
				c.Add(fmt.Sprint(kind, gi, variant), func() {
					var got *stat.TestStatistic
					lambda := 0.25
					if kind == 0 {
						got = stat.DefaultPoissonEWMA()
					} else {
						got, lambda = stat.DefaultPoissonShewart(), 1
					}
					want, err := stat.NewEWMAStatistic("x", lambda, stat.NewPoisson(50, 15*time.Second, func(o []float64) (sum float64) {
						for _, x := range o {
							sum += x
						}
						return
					}, stat.KErrorRate(0.05)))
					if err != nil {
						mc.Fail("create", "%v", err)
					}
					mc.Sleep(300 * time.Millisecond)
					for at, i := time.Duration(0), 0; at < 16*time.Minute; at, i = at+gap, i+1 {
						v := float64((i*i + variant) % (3 + variant))
						if at > 14*time.Minute {
							v *= float64(1 + variant)
						}
						e1, e2 := got.Record(v), want.Record(v)
						if (e1 == nil) != (e2 == nil) || got.State() != want.State() || got.Value() != want.Value() || got.Limit() != want.Limit() {
							mc.Fail("ewma", "default Poisson statistic %s, an observation every %v, after %v: %s %v limit %v, with the documented settings: %s %v limit %v", got.Name(), gap, at, got.State(), got.Value(), got.Limit(), want.State(), want.Value(), want.Limit())
						}
						mc.Sleep(gap)
						c.Step(1)
					}
					c.State("%d %d %d %s %v", kind, gi, variant, got.State(), got.Value())
					got.Done()
					want.Done()
				})
			}
		}
	}
}

func main() {
	lib.Main("C27", []lib.Scenario{
		{Name: "custom", Weight: 2, What: "all bootstrap series over four values with capacities 1 to 4 followed by all sequences of up to 3 (4) tested values, six weights, seven settings of k, upper and lower phase", Seq: series(0)},
		{Name: "log-normal", Weight: 2, What: "the same for the log-normal distribution", Seq: series(1)},
		{Name: "poisson", Weight: 2, What: "the same for the Poisson distribution", Seq: series(2)},
		{Name: "long", Weight: 2, What: "bootstraps of 2 to 5000 values followed by 700 (20 000) tested values, three weights, values of six magnitudes, upper and lower phase", Seq: long},
		{Name: "boundary", What: "single observations exactly at, slightly above and slightly below the limit", Seq: boundary},
		{Name: "k", What: "k for a thousand error rates and fixed values", Seq: kvalues},
		{Name: "defaults", What: "the default statistics over long series", Seq: defaults},
		{Name: "poisson-defaults", What: "the default Poisson statistics over 16 minutes of observations at six rates", Seq: poissonDefaults},
	})
}
