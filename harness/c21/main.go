//go:build go1.22

package main

import (
	"fmt"
	"math"

	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/metric"
	"github.com/BTBurke/monny/vh/lib"
)

// model keeps everything since the last reset.
type model struct {
	cap  int
	seen []float64
}

func (m *model) values() []float64 {
	v := m.seen
	if len(v) > m.cap {
		v = v[len(v)-m.cap:]
	}
	out := append([]float64(nil), v...)
	for len(out) < m.cap {
		out = append(out, 0)
	}
	return out
}

func same(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Float64bits(a[i]) != math.Float64bits(b[i]) && !(math.IsNaN(a[i]) && math.IsNaN(b[i])) {
			return false
		}
	}
	return true
}

type snap struct{ got, want []float64 }

// drive applies seq: 0 record, 1 reset, 2 take values, 3 take values and overwrite them.
func drive(c *lib.Cases, s metric.SeriesRecorder, m *model, seq []int, check bool) {
	next := 0
	special := []float64{1, math.Inf(1), -2, math.NaN(), math.Copysign(0, -1), 1e300, 0}
	var snaps []snap
	for i := -1; i < len(seq); i++ {
		when := func() string { return fmt.Sprintf("capacity %d, operation %d of %v", m.cap, i, seq) }
		op := -1
		if i >= 0 {
			op = seq[i]
		}
		switch op {
		case 0:
			v := special[next%len(special)] + float64(next)
			if next%3 == 2 {
				v = special[next%len(special)]
			}
			next++
			s.Record(v)
			m.seen = append(m.seen, v)
		case 1:
			s.Reset()
			m.seen = nil
		case 2:
			snaps = append(snaps, snap{s.Values(), m.values()})
		case 3:
			v := s.Values()
			for j := range v {
				v[j] = 12345
			}
			_ = append(v[:0:cap(v)], make([]float64, cap(v))...)
		}
		if check || i == len(seq)-1 {
			if v := s.Values(); !same(v, m.values()) {
				mc.Fail("values", "%s: values %v, want %v", when(), v, m.values())
			}
			if s.Count() != len(m.seen) {
				mc.Fail("count", "%s: count %d, want %d", when(), s.Count(), len(m.seen))
			}
			if s.Capacity() != m.cap {
				mc.Fail("capacity", "%s: capacity %d", when(), s.Capacity())
			}
		}
		n := len(m.seen)
		if n > 2*m.cap {
			n = m.cap + n%m.cap
		}
		c.StateID(uint64(m.cap)<<8 | uint64(n))
	}
	for _, x := range snaps {
		if !same(x.got, x.want) {
			mc.Fail("copy", "capacity %d, %v: values returned earlier changed to %v, were %v", m.cap, seq, x.got, x.want)
		}
	}
}

func mk(kind, capacity int, init []float64, opts ...metric.SeriesOption) (metric.SeriesRecorder, *model, func()) {
	m := &model{cap: capacity}
	if init != nil {
		in := append([]float64(nil), init...)
		opts = append(opts, metric.WithValues(in))
		m.seen = append(m.seen, init...)
		defer func() {
			for i := range in {
				in[i] = -77
			}
		}()
	}
	var s metric.SeriesRecorder
	var err error
	done := func() {}
	if kind == 0 {
		s, err = metric.NewSeries(capacity, opts...)
	} else {
		s, done, err = metric.NewSampledSeries(capacity, 0, metric.SampleSum, opts...)
	}
	if err != nil {
		mc.Fail("construction", "capacity %d: %v", capacity, err)
	}
	return s, m, done
}

func main() {
	kinds := []string{"series", "direct"}
	lib.Main("C21", []lib.Scenario{
		{Name: "sequences", What: "capacities 1-4, plain series and sampled series in direct mode, all operation sequences of length 8 (thorough: 10) over record, reset, take values, take and overwrite values",
			Seq: func(c *lib.Cases) {
				d := 7
				if !c.Quick {
					d = 9
				}
				for kind := range kinds {
					for cp := 1; cp <= 4; cp++ {
						kind, cp := kind, cp
						c.Seqs(fmt.Sprintf("%s,%d:", kinds[kind], cp), 4, d, func(q []int) func() {
							return func() {
								s, m, done := mk(kind, cp, nil)
								drive(c, s, m, q, true)
								done()
							}
						})
					}
				}
			}},
		{Name: "wrap", What: "capacities 1-9, every initial fill of 0 to 3 times the capacity, every number of further recordings up to 3 times the capacity, a reset at every point, two series side by side",
			Seq: func(c *lib.Cases) {
				max := 7
				if !c.Quick {
					max = 13
				}
				for kind := range kinds {
					for cp := 1; cp <= max; cp++ {
						for fill := 0; fill <= 3*cp; fill++ {
							for reset := -1; reset <= 3*cp; reset++ {
								kind, cp, fill, reset := kind, cp, fill, reset
								c.Step(3 * cp)
								c.Add(fmt.Sprintf("%s,%d,%d,%d", kinds[kind], cp, fill, reset), func() {
									var init []float64
									for i := 0; i < fill; i++ {
										init = append(init, float64(1000+i))
									}
									var q []int
									for i := 0; i < 3*cp; i++ {
										if i == reset {
											q = append(q, 1)
										}
										q = append(q, 0)
									}
									s, m, d1 := mk(kind, cp, init, metric.WithName("x", nil))
									s2, m2, d2 := mk(kind, cp, init, metric.WithName("y", nil))
									drive(c, s, m, q, true)
									if s.Name() != "x" {
										mc.Fail("name", "name %q", s.Name())
									}
									drive(c, s2, m2, q, true)
									d1()
									d2()
								})
							}
						}
					}
				}
			}},
		{Name: "long", What: "capacities 1-40 and some larger, 5000 recordings (thorough: 70000), and 66000 and 145000 for some, compared periodically",
			Seq: func(c *lib.Cases) {
				n := 5000
				if !c.Quick {
					n = 70000
				}
				for cp := 1; cp <= 44; cp++ {
					cp := cp
					if cp > 40 {
						cp = []int{64, 100, 255, 1000}[cp-41]
					}
					c.Step(n)
					c.Add(fmt.Sprint(cp), func() {
						s, m, _ := mk(0, cp, nil)
						for i := 0; i < n; i++ {
							s.Record(float64(i + 1))
							m.seen = append(m.seen, float64(i+1))
							if i%97 == 0 || i < 2*cp && i%7 == 0 || i == n-1 {
								if !same(s.Values(), m.values()) || s.Count() != len(m.seen) {
									mc.Fail("values", "capacity %d after %d recordings: %v, count %d", cp, i+1, s.Values(), s.Count())
								}
							}
						}
					})
				}
				for _, cp := range []int{3, 7, 100, 1000, 70000} {
					cp := cp
					k := 66000
					if cp > k {
						k = 145000
					}
					c.Step(k)
					c.Add(fmt.Sprint("many,", cp), func() {
						s, m, _ := mk(0, cp, nil)
						for i := 0; i < k; i++ {
							s.Record(float64(i + 1))
							m.seen = append(m.seen, float64(i+1))
							if i%10007 == 0 || i&(i+1) == 0 || i&(i-1) == 0 || i == k-1 {
								if !same(s.Values(), m.values()) || s.Count() != len(m.seen) {
									mc.Fail("values", "capacity %d after %d recordings: values and count %d are wrong", cp, i+1, s.Count())
								}
							}
						}
					})
				}
				for _, cp := range []int{0, -1, -5} {
					cp := cp
					c.Add(fmt.Sprint(cp), func() {
						if _, err := metric.NewSeries(cp); err == nil {
							mc.Fail("construction", "a series of capacity %d was created", cp)
						}
					})
				}
			}},
	})
}
