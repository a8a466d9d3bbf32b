//go:build go1.22

// C33: the probability of a false alarm, computed on the Markov chain of the tested value.  What the chain needs of the
// code (the limit after every bootstrap, the step from every value with every observation, and what is an alarm) is
// taken from executions of the code.
package main

import (
	"fmt"
	"math"

	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/stat"
	"github.com/BTBurke/monny/vh/lib"
)

const (
	boot    = 50     // observations in the bootstrap
	horizon = 100000 // observations tested
)

func phi(z float64) float64 { return 0.5 * math.Erfc(-z/math.Sqrt2) }

// process is a stable process: its distribution after the transformation.
type process struct {
	name string
	cdf  func(x float64) float64 // P(observation < x)
	pdf  func(k stat.K) stat.PDF
	obs  func(x float64) float64 // the raw observation with transformed value x
	lo   float64                 // the tested value is practically always above
	hi   float64
	n    int // states of the chain
	// boots: representative bootstraps (transformed values) with their probabilities
	boots []bootstrap
}

type bootstrap struct {
	p    float64
	vals []float64
}

// normal: log-normal observations with logarithms of the given mean and deviation.
func normal(mean, sd float64, quick bool) *process {
	p := &process{name: fmt.Sprintf("log-normal observations (mean %v and deviation %v of the logarithm)", mean, sd),
		cdf: func(x float64) float64 { return phi((x - mean) / sd) },
		pdf: func(k stat.K) stat.PDF { return stat.NewLogNormal(boot, k) },
		obs: math.Exp, lo: mean - 2.6*sd, hi: mean + 2.6*sd, n: 80}
	nm, ns := 17, 30
	if !quick {
		nm, ns, p.n = 33, 60, 160
	}
	// the mean of the bootstrap is normal, its variance chi-square with 49 degrees of freedom, independent
	total := 0.0
	for i := 0; i < nm; i++ {
		z := -3.6 + 7.2*(float64(i)+0.5)/float64(nm)
		for j := 0; j < ns; j++ {
			x := 18 + 80*(float64(j)+0.5)/float64(ns)
			w := math.Exp(-z*z/2) * math.Exp(23.5*math.Log(x/49)-(x-49)/2)
			m, s := mean+sd*z/math.Sqrt(boot), sd*math.Sqrt(x/49)
			d := s * math.Sqrt(49./50)
			b := bootstrap{p: w}
			for k := 0; k < boot; k++ {
				if k%2 == 0 {
					b.vals = append(b.vals, m+d)
				} else {
					b.vals = append(b.vals, m-d)
				}
			}
			total += w
			p.boots = append(p.boots, b)
		}
	}
	for i := range p.boots {
		p.boots[i].p /= total
	}
	return p
}

// poisson: observations counted with the given rate.
func poisson(mu float64, quick bool) *process {
	table := []float64{0} // P(X < i)
	for i := 0; i < 400; i++ {
		l, _ := math.Lgamma(float64(i + 1))
		table = append(table, table[i]+math.Exp(float64(i)*math.Log(mu)-mu-l))
	}
	p := &process{name: fmt.Sprintf("Poisson observations with rate %v", mu),
		cdf: func(x float64) float64 {
			i := int(math.Ceil(x))
			return table[max(0, min(i, len(table)-1))]
		},
		pdf: func(k stat.K) stat.PDF { return stat.NewPoisson(boot, 0, nil, k) },
		obs: func(x float64) float64 { return x }, lo: mu - 2.6*math.Sqrt(mu), hi: mu + 2.6*math.Sqrt(mu), n: 250}
	step := 10.0
	if !quick {
		p.n, step = 500, 4
	}
	m, dev := mu*boot, math.Sqrt(mu*boot)
	total := 0.0
	for sum := math.Floor(m - 4*dev); sum < m+4*dev; sum += step {
		l, _ := math.Lgamma(sum + 1)
		b := bootstrap{p: math.Exp(sum*math.Log(m) - m - l)}
		left := sum
		for k := boot; k > 0; k-- {
			v := math.Floor(left / float64(k))
			b.vals = append(b.vals, v)
			left -= v
		}
		total += b.p
		p.boots = append(p.boots, b)
	}
	for i := range p.boots {
		p.boots[i].p /= total
	}
	return p
}

// start is a statistic of the code after the given bootstrap.
func start(p *process, mk func(*process) *stat.TestStatistic, lower bool, vals []float64) *stat.TestStatistic {
	s := mk(p)
	if lower {
		if err := s.Transition(stat.Reset, true); err != nil {
			mc.Fail("create", "%v", err)
		}
		if err := s.Transition(stat.LCLInitial, true); err != nil {
			mc.Fail("create", "%v", err)
		}
	}
	for _, v := range vals {
		if err := s.Record(p.obs(v)); err != nil {
			mc.Fail("record", "%v", err)
		}
	}
	return s
}

func mean(v []float64) (m float64) {
	for _, x := range v {
		m += x
	}
	return m / float64(len(v))
}

// absorbed is the probability that the value, which starts at z0 and moves to w*x+(1-w)*z with each observation x,
// reaches the limit within the horizon (from below, or from above).
func absorbed(p *process, w, z0, limit float64, lower bool) float64 {
	n := p.n
	if w == 1 { // every value is independent of the one before
		q := 1 - p.cdf(limit)
		if lower {
			q = p.cdf(math.Nextafter(limit, math.Inf(1)))
		}
		return -math.Expm1(horizon * math.Log1p(-q))
	}
	lo, hi := p.lo, limit
	if lower {
		lo, hi = limit, p.hi
	}
	h := (hi - lo) / float64(n)
	if !(h > 0) {
		return 1
	}
	P := make([]float64, n*n)
	for i := 0; i < n; i++ {
		z := lo + h*(float64(i)+0.5)
		prev := p.cdf((lo - (1-w)*z) / w)
		if !lower {
			prev = 0 // what falls below the grid stays in its first cell
		}
		for j := 0; j < n; j++ {
			c := p.cdf((lo + h*float64(j+1) - (1-w)*z) / w)
			if lower && j == n-1 {
				c = 1
			}
			P[i*n+j] = c - prev
			prev = c
		}
	}
	v, u := make([]float64, n), make([]float64, n)
	v[max(0, min(n-1, int((z0-lo)/h)))] = 1
	logSurv, last := 0.0, 0.0
	const steps = 45
	for s := 0; s < steps; s++ {
		for j := range u {
			u[j] = 0
		}
		for i, x := range v {
			if x == 0 {
				continue
			}
			row := P[i*n : i*n+n]
			for j, y := range row {
				u[j] += x * y
			}
		}
		sum := 0.0
		for _, x := range u {
			sum += x
		}
		if sum <= 0 {
			return 1
		}
		for j := range u {
			u[j] /= sum
		}
		u, v = v, u
		last = math.Log(sum)
		logSurv += last
	}
	return -math.Expm1(logSurv + (horizon-steps)*last)
}

type design struct {
	name string
	e, w float64
	mk   func(p *process) *stat.TestStatistic
}

func ofRate(e, w float64) design {
	return design{fmt.Sprintf("error rate %v, weight %v", e, w), e, w, func(p *process) *stat.TestStatistic {
		s, err := stat.NewEWMAStatistic("x", w, p.pdf(stat.KErrorRate(e)))
		if err != nil {
			mc.Fail("create", "%v", err)
		}
		return s
	}}
}

// conform checks, on the code, what the chain takes for granted.
func conform(c *lib.Cases, p *process, d design, lower bool) {
	for i := 0; i < len(p.boots); i += 1 + len(p.boots)/40 {
		b := p.boots[i]
		for _, x := range []float64{p.lo, (p.lo + p.hi) / 2, p.hi, p.hi + 3*(p.hi-p.lo), p.lo - 3*(p.hi-p.lo)} {
			if p.obs(1) == 1 {
				x = math.Max(0, math.Floor(x))
			}
			s := start(p, d.mk, lower, b.vals)
			z := mean(b.vals)
			for n := 0; n < 3; n++ {
				z = d.w*x + (1-d.w)*z
				if err := s.Record(p.obs(x)); err != nil {
					mc.Fail("record", "%v", err)
				}
				if math.Abs(s.Value()-z) > 1e-9*(1+math.Abs(z)) {
					mc.Fail("chain", "%s, %s, lower %v: the value after observation %v is %v, the chain has %v", p.name, d.name, lower, x, s.Value(), z)
				}
				alarm := z >= s.Limit()
				if lower {
					alarm = z <= s.Limit()
				}
				if math.Abs(z-s.Limit()) > 1e-9 && alarm != s.HasAlarmed() {
					mc.Fail("chain", "%s, %s, lower %v: value %v, limit %v, alarmed %v", p.name, d.name, lower, z, s.Limit(), s.HasAlarmed())
				}
				if alarm {
					break
				}
			}
			c.Step(1)
		}
	}
}

func falseAlarm(c *lib.Cases, p *process, d design, lower bool) float64 {
	total := 0.0
	for _, b := range p.boots {
		if b.p < 1e-7 {
			continue
		}
		s := start(p, d.mk, lower, b.vals)
		if st := s.State(); st != stat.TestingUCL && st != stat.TestingLCL {
			mc.Fail("chain", "%s, %s: not testing after the bootstrap, but %s", p.name, d.name, st)
		}
		if z := mean(b.vals); math.Abs(s.Value()-z) > 1e-9*(1+math.Abs(z)) {
			mc.Fail("chain", "%s, %s: the first value is %v, want %v", p.name, d.name, s.Value(), z)
		}
		total += b.p * absorbed(p, d.w, s.Value(), s.Limit(), lower)
		c.Step(p.n)
		c.State("%s %s %v %.6f", p.name, d.name, lower, s.Limit())
	}
	return total
}

func rates(procs func(quick bool) []*process, designs []design, lowers []bool, most float64) func(c *lib.Cases) {
	return func(c *lib.Cases) {
		for _, p := range procs(c.Quick) {
			for _, d := range designs {
				for _, lower := range lowers {
					c.Add(fmt.Sprint(p.name, d.name, lower), func() {
						conform(c, p, d, lower)
						r := falseAlarm(c, p, d, lower)
						if r > most*d.e || r < d.e/2 && !(lower && p.obs(1) == 1) {
							mc.Fail("rate", "%s, %s, lower limit %v: a stable process raises an alarm within %d observations with a probability of %.5f", p.name, d.name, lower, horizon, r)
						}
					})
				}
			}
		}
	}
}

// order: a lower error rate moves the limit away from the mean.
func order(c *lib.Cases) {
	for _, p := range []*process{normal(5, 1, true), poisson(20, true)} {
		for _, w := range []float64{0.25, 1} {
			for _, lower := range []bool{false, true} {
				for i := 0; i < len(p.boots); i += 1 + len(p.boots)/10 {
					c.Add(fmt.Sprint(p.name, w, lower, i), func() {
						last := math.Inf(1)
						for n := 0; n <= 200; n++ {
							e := 0.001 * math.Pow(50, float64(n)/200)
							s := start(p, ofRate(e, w).mk, lower, p.boots[i].vals)
							d := s.Limit() - s.Value()
							if lower {
								d = -d
							}
							if !(d < last) || d <= 0 {
								mc.Fail("order", "%s, weight %v, lower %v: with error rate %v the limit is %v from the mean, with a lower one %v", p.name, w, lower, e, d, last)
							}
							last = d
							c.Step(1)
						}
						c.State("%s %v %v %d %v", p.name, w, lower, i, last)
					})
				}
			}
		}
	}
}

func main() {
	var ewma, shewart []design
	for _, e := range []float64{0.05, 0.02, 0.01, 0.005, 0.002, 0.001} {
		ewma = append(ewma, ofRate(e, 0.25))
		shewart = append(shewart, ofRate(e, 1))
	}
	lnd := []design{
		{"default statistic", 0.05, 0.25, func(*process) *stat.TestStatistic { return stat.DefaultLogNormalEWMA() }},
		{"default Shewhart statistic", 0.05, 1, func(*process) *stat.TestStatistic { return stat.DefaultLogNormalShewart() }},
	}
	ln := func(quick bool) []*process {
		ps := []*process{normal(5, 1, quick)}
		if !quick {
			ps = append(ps, normal(3, 0.2, quick), normal(40, 6, quick))
		}
		return ps
	}
	po := func(quick bool) []*process {
		ps := []*process{poisson(20, quick)}
		if !quick {
			ps = append(ps, poisson(35, quick), poisson(60, quick))
		}
		return ps
	}
	both := []bool{false, true}
	lib.Main("C33", []lib.Scenario{
		{Name: "log-normal", What: "EWMA statistics (weight 0.25) of log-normal observations with six error rates, upper and lower limit: the Markov chain of the tested value with 80 (160) states, for 510 (1980) bootstraps, over 100000 observations; its limits and steps from executions", Weight: 2, Seq: rates(ln, ewma, both, 10)},
		{Name: "log-normal-default", What: "the same for the default log-normal statistics", Seq: rates(ln, lnd, both, 10)},
		{Name: "poisson", What: "the same for Poisson observations of rate 20 (20, 35, 60), 250 (500) states", Weight: 2, Seq: rates(po, ewma, both, 5)},
		{Name: "shewhart", What: "the same for single values (weight one), log-normal", Seq: rates(ln, shewart, both, 10)},
		{Name: "shewhart-poisson", What: "the same for single values, Poisson", Seq: rates(po, shewart, both, 10)},
		{Name: "order", What: "the limits for 200 error rates from 0.001 to 0.05 after each of 20 bootstraps", Seq: order},
	})
}
