//go:build go1.22

// Package statx has the specification of a test statistic.
package statx

import (
	"fmt"
	"math"

	"github.com/BTBurke/monny/pkg/fsm"
	"github.com/BTBurke/monny/pkg/metric"
	"github.com/BTBurke/monny/pkg/stat"
)

// Dist is a distribution as the specification sees it.
type Dist struct {
	Name      string
	Transform func(float64) float64
	Variance  func(v []float64, mean float64) float64
	PDF       func(capacity int, k stat.K) stat.PDF
	K         func(k stat.K) (float64, error)
}

func sampleVariance(v []float64, mean float64) float64 {
	s := 0.0
	for _, x := range v {
		s += (x - mean) * (x - mean)
	}
	return s / float64(len(v)-1)
}

func same(x float64) float64 { return x }

// custom is a distribution defined here: it keeps the values as they are.
type custom struct {
	capacity int
	k        stat.K
}

func (p custom) Mean(v []float64) float64 {
	s := 0.0
	for _, x := range v {
		s += x
	}
	return s / float64(len(v))
}
func (p custom) Variance(v []float64, m float64) float64   { return sampleVariance(v, m) }
func (p custom) NewSeries() (metric.SeriesRecorder, error) { return metric.NewSeries(p.capacity) }
func (p custom) Transform(x float64) float64               { return x }
func (p custom) K() (float64, error)                       { return p.k.CalculateLN() }
func (p custom) Done()                                     {}
func (p custom) String() string                            { return "custom" }

// Dists are the distributions.
var Dists = []Dist{
	{"custom", same, sampleVariance, func(n int, k stat.K) stat.PDF { return custom{n, k} }, func(k stat.K) (float64, error) { return k.CalculateLN() }},
	{"log-normal", math.Log, sampleVariance, func(n int, k stat.K) stat.PDF { return stat.NewLogNormal(n, k) }, func(k stat.K) (float64, error) { return k.CalculateLN() }},
	{"poisson", same, func(v []float64, m float64) float64 { return m }, func(n int, k stat.K) stat.PDF {
		return stat.NewPoisson(n, 0, metric.SampleSum, k)
	}, func(k stat.K) (float64, error) { return k.CalculateP() }},
}

// Model is what a statistic has to do.
type Model struct {
	D        Dist
	Capacity int
	Lambda   float64
	K        float64

	State   fsm.State
	Series  []float64 // most recent observations since the series was reset
	Current float64
	Limit   float64
	Known   bool // current and limit are defined
	// Unsure is set when an observation is so close to the limit that rounding decides.
	Unsure bool
}

// NewModel is a fresh statistic.
func NewModel(d Dist, capacity int, lambda, k float64) *Model {
	return &Model{D: d, Capacity: capacity, Lambda: lambda, K: k, State: stat.UCLInitial}
}

// Record returns whether the observation is accepted.
func (m *Model) Record(obs float64) bool {
	o := m.D.Transform(obs)
	if math.IsNaN(o) || math.IsInf(o, 0) {
		return false
	}
	if m.State == stat.Reset {
		m.State = stat.UCLInitial
		m.Series = nil
		m.Known = false
	}
	m.Series = append(m.Series, o)
	if len(m.Series) > m.Capacity {
		m.Series = append([]float64(nil), m.Series[len(m.Series)-m.Capacity:]...)
	}
	switch m.State {
	case stat.UCLInitial:
		if m.bootstrap(1) {
			m.State = stat.TestingUCL
		}
	case stat.LCLInitial:
		if m.bootstrap(-1) {
			m.State = stat.TestingLCL
		}
	case stat.TestingUCL:
		m.next(o)
		if m.Current >= m.Limit {
			m.State = stat.UCLTrip
		}
	case stat.TestingLCL:
		m.next(o)
		if m.Current <= m.Limit {
			m.State = stat.LCLTrip
		}
	}
	return true
}

func (m *Model) next(o float64) {
	m.Current = m.Lambda*o + (1-m.Lambda)*m.Current
	if d := math.Abs(m.Current - m.Limit); d != 0 && d < 1e-9*(math.Abs(m.Current)+1) {
		m.Unsure = true
	} else if d == 0 && m.Lambda != 1 {
		m.Unsure = true
	}
}

func (m *Model) bootstrap(dir float64) bool {
	if len(m.Series) < m.Capacity {
		return false
	}
	mean := 0.0
	for _, x := range m.Series {
		mean += x
	}
	mean /= float64(len(m.Series))
	v := m.D.Variance(m.Series, mean)
	if math.Abs(mean) < 1e-12 && mean != 0 || math.Abs(v) < 1e-24 && v != 0 {
		m.Unsure = true
	}
	if !(mean > 0 && v > 0) {
		return false
	}
	m.Current, m.Known = mean, true
	m.Limit = mean + dir*m.K*math.Sqrt(m.Lambda/(2-m.Lambda)*v)
	return true
}

var allowed = map[fsm.State][]fsm.State{
	stat.Reset:      {stat.UCLInitial, stat.LCLInitial},
	stat.UCLInitial: {stat.TestingUCL, stat.Reset},
	stat.TestingUCL: {stat.UCLTrip, stat.Reset},
	stat.UCLTrip:    {stat.LCLInitial, stat.Reset},
	stat.LCLInitial: {stat.TestingLCL, stat.Reset},
	stat.TestingLCL: {stat.LCLTrip, stat.Reset},
	stat.LCLTrip:    {stat.Reset},
}

// Allowed reports whether an explicit transition is possible.
func (m *Model) Allowed(to fsm.State) bool {
	for _, s := range allowed[m.State] {
		if s == to {
			return true
		}
	}
	return false
}

// Transition returns whether it happens.
func (m *Model) Transition(to fsm.State, reset bool) bool {
	if !m.Allowed(to) {
		return false
	}
	m.State = to
	if reset {
		m.Series = nil
	}
	if to == stat.Reset || to == stat.UCLInitial || to == stat.LCLInitial {
		m.Known = false
	}
	return true
}

// Alarmed is true in the alarm states.
func (m *Model) Alarmed() bool { return m.State == stat.UCLTrip || m.State == stat.LCLTrip }

// Near compares up to rounding.
func Near(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-9*(math.Abs(a)+math.Abs(b)+1e-3)
}

// Diff compares a statistic with the specification.
func (m *Model) Diff(s *stat.TestStatistic) string {
	if m.State != s.State() {
		return fmt.Sprintf("state %s, want %s", s.State(), m.State)
	}
	if s.HasAlarmed() != m.Alarmed() {
		return fmt.Sprintf("alarmed %v in state %s", s.HasAlarmed(), s.State())
	}
	if m.Known && (!Near(s.Value(), m.Current) || !Near(s.Limit(), m.Limit)) {
		return fmt.Sprintf("value %v and limit %v, want %v and %v", s.Value(), s.Limit(), m.Current, m.Limit)
	}
	return ""
}
