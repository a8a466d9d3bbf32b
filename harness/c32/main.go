//go:build go1.22

// C32: the measure that the generators produce, computed by enumerating the whole space of random draws in cells.
package main

import (
	"fmt"
	"math"

	"github.com/BTBurke/monny/mc/env"
	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/rng"
	"github.com/BTBurke/monny/vh/lib"
)

// cell is a part of the space of one draw: its probability and the draw that stands for it.
type cell struct{ p, v float64 }

// space is how the draws are divided into cells: those of a draw that is uniform on [0,1) and of one that is normal,
// which may depend on how many draws there were before.
type space struct {
	uniform, normal func(depth int) []cell
	minP            float64 // sequences less probable than this are not continued
}

// explore runs one sample for every sequence of cells that the generator asks for.  What follows a sequence that is
// too improbable counts as unexplored and its probability is returned.
func (s *space) explore(c *lib.Cases, sample func() []float64, leaf func(p float64, x []float64)) (rest float64) {
	var stack []cell // of the current sequence
	var idx []int
	type stop struct{}
	for {
		p, n := 1.0, 0
		draw := func(cells func(int) []cell) float64 {
			cs := cells(n)
			if n == len(idx) {
				if p < s.minP {
					panic(stop{})
				}
				idx = append(idx, 0)
				stack = append(stack, cs[0])
			}
			stack[n] = cs[idx[n]]
			p *= stack[n].p
			n++
			if n > 500 {
				mc.Fail("end", "a sample does not come to an end")
			}
			return stack[n-1].v
		}
		env.RandUniform = func() float64 { return draw(s.uniform) }
		env.RandNormal = func() float64 { return draw(s.normal) }
		func() {
			defer func() {
				env.RandUniform, env.RandNormal = nil, nil
				if r := recover(); r != nil {
					if _, ok := r.(stop); !ok {
						panic(r)
					}
					rest += p
				}
			}()
			x := sample()
			leaf(p, x)
		}()
		c.Step(1)
		// the next sequence
		idx, stack = idx[:n], stack[:n]
		for n > 0 {
			n--
			idx[n]++
			if idx[n] < s.sizeAt(n, stack[n]) {
				break
			}
			idx, stack = idx[:n], stack[:n]
		}
		if len(idx) == 0 {
			return rest
		}
	}
}

// sizeAt: the number of cells of draw n (both kinds of cells have the same number at the same depth).
func (s *space) sizeAt(n int, _ cell) int { return len(s.uniform(n)) }

// exponential divides [0,1) into cells of equal width in -log(u).
func exponential(h float64, n int) (cs []cell) {
	for i := 0; i < n-1; i++ {
		a, b := float64(i)*h, float64(i+1)*h
		cs = append(cs, cell{math.Exp(-a) - math.Exp(-b), math.Exp(-(a + b) / 2)})
	}
	a := float64(n-1) * h
	return append(cs, cell{math.Exp(-a), math.Exp(-a - 1)})
}

func phi(z float64) float64 { return 0.5 * math.Erfc(-z/math.Sqrt2) }

// gaussian divides the line into n cells of equal width within five deviations.
func gaussian(n int) (cs []cell) {
	h := 10 / float64(n)
	for i := 0; i < n; i++ {
		a, b := -5+float64(i)*h, -5+float64(i+1)*h
		pa, pb := phi(a), phi(b)
		if i == 0 {
			pa = 0
		}
		if i == n-1 {
			pb = 1
		}
		cs = append(cs, cell{pb - pa, (a + b) / 2})
	}
	return
}

func even(n int) (cs []cell) {
	for i := 0; i < n; i++ {
		cs = append(cs, cell{1 / float64(n), (float64(i) + 0.5) / float64(n)})
	}
	return
}

func memo(f func(int) []cell) func(int) []cell {
	var m [][]cell
	return func(d int) []cell {
		for len(m) <= d {
			m = append(m, f(len(m)))
		}
		return m[d]
	}
}

func poissonPMF(lambda float64, n int) float64 {
	l, _ := math.Lgamma(float64(n + 1))
	return math.Exp(float64(n)*math.Log(lambda) - lambda - l)
}

// poisson: the distribution of one sample and of two successive ones.
func poisson(samples int) func(c *lib.Cases) {
	return func(c *lib.Cases) {
		lambdas := []float64{0.05, 0.2, 0.5, 1, 1.5, 2}
		div, minP := 14.0, 1e-6
		if samples == 2 {
			lambdas, div, minP = []float64{0.1, 0.3, 0.5}, 9, 4e-6
		}
		if !c.Quick {
			div, minP = div*1.3, minP/6
			if samples == 1 {
				lambdas = append(lambdas, 2.5)
			}
		}
		for _, lambda := range lambdas {
			c.Add(fmt.Sprint(samples, lambda), func() {
				s := &space{minP: minP, uniform: memo(func(d int) []cell {
					// the widths differ so that no sum falls on lambda
					k := div + 0.618*float64(d%7)
					return exponential(lambda/k, int(k)+2)
				})}
				s.normal = memo(func(d int) []cell { return gaussian(len(s.uniform(d))) })
				pmf := map[[2]int]float64{}
				rest := s.explore(c, func() (x []float64) {
					r := rng.NewPoissonRNG(lambda)
					for len(x) < samples {
						x = append(x, r.Rand())
					}
					return
				}, func(p float64, x []float64) {
					var k [2]int
					for i, v := range x {
						if v != math.Trunc(v) || v < 0 || v > 1e6 {
							mc.Fail("distribution", "a Poisson generator with rate %v returns %v", lambda, v)
						}
						k[i] = int(v)
					}
					pmf[k] += p
				})
				// total variation distance, up to what was not explored
				tv, worst, worstD := 0.0, [2]int{}, 0.0
				top := 12
				second := 0
				if samples == 2 {
					second = top
				}
				for a := 0; a <= top; a++ {
					for b := 0; b <= second; b++ {
						want := poissonPMF(lambda, a)
						if samples == 2 {
							want *= poissonPMF(lambda, b)
						}
						k := [2]int{a, b}
						d := math.Abs(pmf[k] - want)
						tv += d / 2
						if d > worstD {
							worst, worstD = k, d
						}
						delete(pmf, k)
					}
				}
				for _, p := range pmf {
					tv += p / 2
				}
				if tv > 0.004+0.006*lambda+rest {
					mc.Fail("distribution", "a Poisson generator with rate %v: the distribution of %d successive samples differs by %.4f in total variation from the Poisson distribution, most at %v (by %.4f)", lambda, samples, tv, worst[:samples], worstD)
				}
				c.State("%v %.4f %.4f", lambda, tv, rest)
			})
		}
	}
}

// logNormal: the logarithm of a sample is normal with the mean and deviation of the generator, and independent of the
// one before.
func logNormal(samples int) func(c *lib.Cases) {
	return func(c *lib.Cases) {
		n := 4000
		if samples == 2 {
			n = 80
		}
		if !c.Quick {
			n *= 4
		}
		for _, mean := range []float64{-5, -1, 0, 0.5, 1, 5} {
			for _, sd := range []float64{0.1, 0.5, 1, 2} {
				c.Add(fmt.Sprint(samples, mean, sd), func() {
					s := &space{normal: memo(func(d int) []cell { return gaussian(n) }), uniform: memo(func(d int) []cell { return even(n) })}
					// edges of the compared intervals lie within the cells' edges
					const bins = 20
					var hist [bins * bins]float64
					var m, v, cross float64
					total := 0.0
					bin := func(x float64) int {
						z := (math.Log(x) - mean) / sd
						i := int(math.Floor((z + 2.5) * bins / 5))
						return max(0, min(bins-1, i))
					}
					want := func(i int) float64 {
						lo, hi := phi(-2.5+5*float64(i)/bins), phi(-2.5+5*float64(i+1)/bins)
						if i == 0 {
							lo = 0
						}
						if i == bins-1 {
							hi = 1
						}
						return hi - lo
					}
					s.explore(c, func() (x []float64) {
						r := rng.NewLogNormalRNG(mean, sd)
						for len(x) < samples {
							x = append(x, r.Rand())
						}
						return
					}, func(p float64, x []float64) {
						for _, v := range x {
							if !(v > 0) {
								mc.Fail("distribution", "a log-normal generator with mean %v and deviation %v returns %v", mean, sd, v)
							}
						}
						total += p
						k := bin(x[0])
						l := math.Log(x[0]) - mean
						m += p * l
						v += p * l * l
						if samples == 2 {
							k += bins * bin(x[1])
							cross += p * l * (math.Log(x[1]) - mean)
						}
						hist[k] += p
					})
					tv := 0.0
					for i := 0; i < bins; i++ {
						for j := 0; j < bins; j++ {
							w := want(i)
							if samples == 2 {
								w *= want(j)
							} else if j > 0 {
								continue
							}
							tv += math.Abs(hist[i+bins*j]-w) / 2
						}
					}
					if tv > 0.02 || math.Abs(m) > 0.01*sd || math.Abs(math.Sqrt(v)-sd) > 0.01*sd || math.Abs(cross) > 0.01*sd*sd {
						mc.Fail("distribution", "a log-normal generator with mean %v and deviation %v: the logarithms of %d successive samples have mean %v, deviation %v, covariance %v; total variation from the normal distribution %.4f", mean, sd, samples, mean+m, math.Sqrt(v), cross, tv)
					}
					c.State("%v %v %.4f %.6f %.6f", mean, sd, tv, m, v)
				})
			}
		}
	}
}

func main() {
	lib.Main("C32", []lib.Scenario{
		{Name: "poisson", Weight: 2, What: "the space of all uniform draws in cells of equal probability ratio, for 6 (7) rates, sequences down to a probability of 1e-6 (2e-7): the distribution of a sample", Seq: poisson(1)},
		{Name: "poisson-two", Weight: 2, What: "the same for the joint distribution of two successive samples, 3 rates", Seq: poisson(2)},
		{Name: "log-normal", What: "the space of the draws in 4000 (16000) cells, for 24 pairs of mean and deviation: mean, deviation and distribution of a sample's logarithm", Seq: logNormal(1)},
		{Name: "log-normal-two", What: "the same for two successive samples and 80 (320) cells each: their joint distribution and covariance", Seq: logNormal(2)},
	})
}
