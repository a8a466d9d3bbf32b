//go:build go1.22

package main

import (
	"fmt"
	"math"
	"time"

	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/metric"
	"github.com/BTBurke/monny/vh/lib"
)

const window = 10 * time.Millisecond

// digits tells all observations of a window apart, and their order.
func digits(o []float64) float64 {
	r := 0.0
	for _, x := range o {
		r = r*100 + x
	}
	return r
}

type transform struct {
	name string
	f    func([]float64) float64
	ref  func([]float64) float64
}

var transforms = []transform{
	{"digits", digits, digits},
	{"sum", metric.SampleSum, func(o []float64) float64 {
		s := 0.0
		for _, x := range o {
			s += x
		}
		return s
	}},
	{"average", metric.SampleAverage, func(o []float64) float64 {
		s := 0.0
		for _, x := range o {
			s += x
		}
		return s / float64(len(o))
	}},
	{"min", metric.SampleMin, func(o []float64) float64 {
		m := math.Inf(1)
		for _, x := range o {
			if x < m {
				m = x
			}
		}
		return m
	}},
	{"max", metric.SampleMax, func(o []float64) float64 {
		m := math.Inf(-1)
		for _, x := range o {
			if x > m {
				m = x
			}
		}
		return m
	}},
}

type model struct {
	cap     int
	seen    []float64
	obs     []float64
	ref     func([]float64) float64
	stopped bool
}

func (m *model) tick() {
	if m.stopped {
		return
	}
	v := 0.0
	if len(m.obs) > 0 {
		v = m.ref(m.obs)
	}
	m.seen, m.obs = append(m.seen, v), nil
}

func (m *model) values() []float64 {
	v := m.seen
	if len(v) > m.cap {
		v = v[len(v)-m.cap:]
	}
	out := append([]float64(nil), v...)
	for len(out) < m.cap {
		out = append(out, 0)
	}
	return out
}

func compare(s *metric.SampledSeries, m *model, when string) {
	if got, want := fmt.Sprint(s.Values()), fmt.Sprint(m.values()); got != want {
		mc.Fail("samples", "%s: samples %s, want %s", when, got, want)
	}
	if s.Count() != len(m.seen) {
		mc.Fail("count", "%s: %d samples, want %d", when, s.Count(), len(m.seen))
	}
	if s.Capacity() != m.cap {
		mc.Fail("capacity", "%s: capacity %d", when, s.Capacity())
	}
}

func create(capacity int, w time.Duration, f func([]float64) float64) (*metric.SampledSeries, func()) {
	s, done, err := metric.NewSampledSeries(capacity, w, f)
	if err != nil {
		mc.Fail("construction", "%v", err)
	}
	return s, done
}

func ended(when string) {
	mc.Settle()
	if l := mc.Live(); len(l) > 0 {
		mc.Fail("leak", "%s: still running after sampling was stopped: %v", when, l)
	}
	if n := mc.ActiveTimers(); n > 0 {
		mc.Fail("leak", "%s: a timer is still active after sampling was stopped", when)
	}
}

func sequences(c *lib.Cases, tr transform, capacity, depth int) {
	c.Seqs(fmt.Sprintf("%s,%d:", tr.name, capacity), 7, depth, func(q []int) func() {
		return func() {
			s, done := create(capacity, window, tr.f)
			other, otherDone := create(2, window, metric.SampleSum)
			m := &model{cap: capacity, ref: tr.ref}
			mc.Sleep(window / 2) // everything happens in the middle of windows
			n, ticks := 0, 0
			for i, op := range q {
				when := fmt.Sprintf("%s, capacity %d, operation %d of %v", tr.name, capacity, i, q)
				switch op {
				case 0, 1:
					n++
					v := float64(n)
					if op == 1 {
						v = -float64(n)
					}
					s.Record(v)
					m.obs = append(m.obs, v)
				case 2, 3:
					k := 1
					if op == 3 {
						k = 3
					}
					mc.Sleep(time.Duration(k) * window)
					for ; k > 0; k-- {
						m.tick()
						ticks++
					}
				case 4:
					s.Reset()
					m.seen, m.obs = nil, nil
				case 5:
					v := s.Values()
					for j := range v {
						v[j] = 99
					}
				case 6:
					if !m.stopped {
						done()
						m.stopped = true
					}
				}
				compare(s, m, when)
				c.State("%s %d %v %d %d", tr.name, capacity, m.stopped, len(m.obs), len(m.seen))
			}
			if !m.stopped {
				done()
			}
			if other.Count() != ticks {
				mc.Fail("count", "another series has %d samples after %d windows", other.Count(), ticks)
			}
			otherDone()
			ended(fmt.Sprint(q))
		}
	})
}

// concurrent records from several goroutines at given offsets and checks that
// everything is counted exactly once, in the right window if that is determined.
func concurrent(offsets [][]time.Duration, windows int, readers int, reset bool) func() {
	return func() {
		s, done := create(16, window, metric.SampleSum)
		var j lib.Join
		bit := 1.0
		total := 0.0
		lo, hi := make([]float64, windows+2), make([]float64, windows+2) // by window: certainly, possibly
		for i, offs := range offsets {
			offs := offs
			var bits []float64
			for _, o := range offs {
				bits = append(bits, bit)
				k := int(o / window)
				if o%window == 0 { // at the boundary: either window
					hi[k] += bit
					hi[k-1] += bit
				} else {
					hi[k] += bit
					lo[k] += bit
				}
				total += bit
				bit *= 2
			}
			j.Go(fmt.Sprint("recorder", i), func() {
				var at time.Duration
				for k, o := range offs {
					if o > at {
						mc.Sleep(o - at)
						at = o
					}
					s.Record(bits[k])
				}
			})
		}
		for i := 0; i < readers; i++ {
			j.Go("reader", func() {
				mc.Sleep(window)
				last := 0
				for k := 0; k < 2; k++ {
					n := s.Count()
					if n < last {
						mc.Fail("count", "the number of samples went from %d to %d", last, n)
					}
					last = n
					v := s.Values()
					for x := range v {
						v[x] = -1
					}
				}
			})
		}
		j.Wait()
		now := mc.Elapsed()
		mc.Sleep(time.Duration(windows)*window + window/2 - now)
		if s.Count() != windows {
			mc.Fail("count", "%d samples after %d windows", s.Count(), windows)
		}
		sum := 0.0
		v := s.Values()
		for k := 0; k < windows; k++ {
			sum += v[k]
			b, l, h := int(v[k]), int(lo[k]), int(hi[k])
			if l&^b != 0 || b&^h != 0 {
				mc.Fail("samples", "sample %d is %b, must contain %b and at most %b (samples %v)", k, b, l, h, v)
			}
		}
		if sum != total {
			mc.Fail("samples", "samples %v add up to %v, recorded %v", v[:windows], sum, total)
		}
		done()
		n := s.Count()
		mc.Sleep(3 * window)
		if s.Count() != n {
			mc.Fail("count", "sampling goes on after it was stopped")
		}
		ended("concurrent")
		mc.Outcome(fmt.Sprint(v[:windows]))
	}
}

func main() {
	cfg := mc.Config{Race: true, MapOrders: 1}
	const h = window / 2
	lib.Main("C24", []lib.Scenario{
		{Name: "sequences", Weight: 2, What: "all transforms, capacities 1 and 3, all sequences of 5 (thorough: 6) operations in the middle of windows: record, record negative, wait one or three windows, reset, values, stop",
			Seq: func(c *lib.Cases) {
				for i, tr := range transforms {
					d := 4
					if i == 0 {
						d = 5
					}
					sequences(c, tr, 3, d+lib.Bit(!c.Quick))
				}
				sequences(c, transforms[0], 1, 4+lib.Bit(!c.Quick))
			}},
		{Name: "transforms", What: "the provided transforms on all lists of up to 5 values from {-2,-1,0,1.5,3}",
			Seq: func(c *lib.Cases) {
				vals := []float64{-2, -1, 0, 1.5, 3}
				for n := 1; n <= 5; n++ {
					c.Seqs(fmt.Sprint(n, ":"), 5, n, func(q []int) func() {
						return func() {
							var o []float64
							for _, x := range q {
								o = append(o, vals[x])
							}
							for _, tr := range transforms {
								in := append([]float64(nil), o...)
								if got, want := tr.f(in), tr.ref(o); got != want {
									mc.Fail("transform", "%s of %v is %v, want %v", tr.name, o, got, want)
								}
								if fmt.Sprint(in) != fmt.Sprint(o) {
									mc.Fail("transform", "%s changes its input", tr.name)
								}
							}
							c.State("%d", len(o))
						}
					})
				}
			}},
		{Name: "many", What: "1, 255, 1025, 5000 and 70000 observations in each of four windows: every transform sees all of them", Seq: func(c *lib.Cases) {
			for _, tr := range transforms[1:] {
				for _, n := range []int{1, 255, 1025, 5000, 70000} {
					tr, n := tr, n
					c.Step(4 * n)
					c.Add(fmt.Sprint(tr.name, n), func() {
						s, done := create(3, window, tr.f)
						m := &model{cap: 3, ref: tr.ref}
						mc.Sleep(window / 2)
						for k := 0; k < 4; k++ {
							for i := 0; i < n; i++ {
								v := float64((i*7+k)%1000 - 300 + i/1000*[]int{1, -1}[k%2])
								s.Record(v)
								m.obs = append(m.obs, v)
							}
							mc.Sleep(window)
							m.tick()
							compare(s, m, fmt.Sprintf("%s, %d observations, window %d", tr.name, n, k))
						}
						done()
						ended("many")
						c.State("%s %d", tr.name, n)
					})
				}
			}
		}},
		{Name: "concurrent-middle", What: "two goroutines record in the middle of windows, one reads: all schedules", Cfg: cfg, Body: concurrent([][]time.Duration{{h, window + h}, {h, window + h}}, 3, 1, false)},
		{Name: "concurrent-boundary", What: "two goroutines record in the middle and at the end of windows: all schedules", Cfg: cfg, Body: concurrent([][]time.Duration{{h, window, window + h}, {window, 2 * window}}, 4, 0, false)},
		{Name: "concurrent-three", What: "three goroutines record twice in one window: all schedules", Cfg: cfg, Weight: 2, Body: concurrent([][]time.Duration{{h, h}, {h, h}, {window}}, 2, 0, false)},
		{Name: "reset-concurrent", What: "record, reset, read and the end of the window at the same time: all schedules; nothing is counted twice", Cfg: cfg, Body: func() {
			s, done := create(4, window, metric.SampleSum)
			var j lib.Join
			j.Go("recorder", func() { mc.Sleep(window); s.Record(1); s.Record(2) })
			j.Go("reset", func() { mc.Sleep(window); s.Reset() })
			j.Go("reader", func() { mc.Sleep(window); s.Values(); s.Count() })
			j.Wait()
			mc.Sleep(window + h)
			n, sum := s.Count(), 0.0
			for _, x := range s.Values() {
				sum += x
			}
			if n < 1 || n > 2 || sum != 0 && sum != 1 && sum != 2 && sum != 3 {
				mc.Fail("samples", "%d samples adding up to %v", n, sum)
			}
			done()
			ended("reset")
			mc.Outcome(fmt.Sprint(n, sum))
		}},
		{Name: "stop", What: "stopping at the end of a window while another goroutine records: all schedules; stopping returns, ends sampling and can be repeated", Cfg: cfg, Body: func() {
			s, done := create(4, window, metric.SampleSum)
			var j lib.Join
			j.Go("recorder", func() { mc.Sleep(h); s.Record(1); mc.Sleep(h); s.Record(2) })
			j.Go("stop", func() {
				mc.Sleep(window)
				done()
				n := s.Count()
				if mc.Choose(2, "again") == 1 {
					done()
				}
				mc.Sleep(2 * window)
				if s.Count() != n {
					mc.Fail("count", "%d samples when stopped, %d later", n, s.Count())
				}
			})
			j.Wait()
			v := s.Values()
			if s.Count() > 1 || s.Count() == 1 && v[0] != 1 && v[0] != 3 {
				mc.Fail("samples", "%d samples: %v", s.Count(), v)
			}
			ended("stop")
			mc.Outcome(fmt.Sprint(s.Count(), v))
		}},
		{Name: "stop-concurrently", What: "two goroutines stop sampling at the same time", Cfg: cfg, Body: func() {
			s, done := create(4, window, metric.SampleSum)
			var j lib.Join
			j.Go("stop", done)
			j.Go("stop", done)
			j.Wait()
			mc.Sleep(2 * window)
			if s.Count() != 0 {
				mc.Fail("count", "%d samples after it was stopped", s.Count())
			}
			ended("stop")
		}},
		{Name: "direct", What: "direct mode: two goroutines record twice, one reads: all schedules; every observation is kept", Cfg: cfg, Body: func() {
			s, done := create(8, 0, nil)
			var j lib.Join
			for i := 0; i < 2; i++ {
				i := i
				j.Go("recorder", func() { s.Record(float64(1 + 10*i)); s.Record(float64(2 + 10*i)) })
			}
			j.Go("reader", func() { s.Count(); s.Values(); s.Capacity(); s.Name() })
			j.Wait()
			v := s.Values()
			pos := map[float64]int{}
			for i, x := range v {
				if x != 0 {
					pos[x] = i + 1
				}
			}
			if s.Count() != 4 || len(pos) != 4 || pos[1] == 0 || pos[1] > pos[2] || pos[11] == 0 || pos[11] > pos[12] || pos[2] > 4 || pos[12] > 4 {
				mc.Fail("samples", "recorded 1, 2 and 11, 12 concurrently: count %d, values %v", s.Count(), v)
			}
			done()
			done()
			mc.Outcome(fmt.Sprint(v))
		}},
	})
}
