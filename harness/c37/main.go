//go:build go1.22

package main

import (
	"fmt"
	"math"

	"github.com/BTBurke/monny/mc/env"
	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/rng"
	"github.com/BTBurke/monny/vh/lib"
)

// stream delivers chosen random numbers and then others for ever.
type stream struct {
	first []float64
	tail  []float64
	n     int
}

func (s *stream) at(i int) float64 {
	if i < len(s.first) {
		return s.first[i]
	}
	return s.tail[(i-len(s.first))%len(s.tail)]
}

func (s *stream) next() float64 {
	s.n++
	if s.n > 200000 {
		mc.Fail("end", "a sample does not come to an end")
	}
	return s.at(s.n - 1)
}

// count is how many unit exponential intervals -log(u) end within lambda,
// starting with draw i, the next draw, and whether rounding may decide.
func (s *stream) count(lambda float64, i int) (k, next int, close bool) {
	sum := 0.0
	for {
		sum -= math.Log(s.at(i + k))
		if math.Abs(sum-lambda) <= 1e-10*(1+lambda) {
			close = true
		}
		if sum >= lambda {
			return k, i + k + 1, close
		}
		k++
	}
}

var lambdas = []float64{0, 1e-12, 0.01, 0.3, 0.7, 1, 1.7, 2.5, 4, 10, 33, 100, 500, 700, 740, 744, 746, 750, 800, 1000, 3000}
var uniform = []float64{0, 0x1p-63, 0.01, 0.25, 0.4, 0.61, 0.9, 1 - 0x1p-53}
var tails = [][]float64{{0.5}, {0.9, 0.03}, {0.3, 0.99, 0.71}, {0}}

func poisson(c *lib.Cases) {
	depth := 5
	if c.Quick {
		depth = 4
	}
	for l, lambda := range lambdas {
		for t, tail := range tails {
			c.Seqs(fmt.Sprintf("%d %d ", l, t), len(uniform), depth, func(seq []int) func() {
				return func() {
					s := &stream{tail: tail}
					for _, k := range seq {
						s.first = append(s.first, uniform[k])
					}
					env.RandUniform = s.next
					defer func() { env.RandUniform = nil }()
					r := rng.NewPoissonRNG(lambda)
					desc := fmt.Sprintf("a Poisson generator with lambda %v and the uniform numbers %v %v...", lambda, s.first, tail)
					i := 0
					for n := 0; n < 3; n++ {
						got := r.Rand()
						want, next, close := s.count(lambda, i)
						if math.IsNaN(got) || math.IsInf(got, 0) || got < 0 || got != math.Trunc(got) {
							mc.Fail("valid", "%s: sample %d is %v", desc, n, got)
						}
						if close {
							break
						}
						if got != float64(want) {
							mc.Fail("sample", "%s: sample %d is %v, want %d", desc, n, got, want)
						}
						if s.n != next {
							mc.Fail("draws", "%s: %d numbers were used up to sample %d, want %d", desc, s.n, n, next)
						}
						i = next
					}
					c.State("%d %d %v", l, t, seq)
					c.Step(3)
				}
			})
		}
	}
}

func logNormal(c *lib.Cases) {
	zs := []float64{-8.2, -3, -1, -0.25, 0, 0.5, 1, 2, 8.2}
	for _, mean := range []float64{-650, -5, -1, 0, 0.5, 1, 5, 650} {
		for _, sd := range []float64{0, 0.1, 0.5, 1, 2, 6} {
			c.Seqs(fmt.Sprintf("%v %v ", mean, sd), len(zs), 3, func(seq []int) func() {
				return func() {
					n := 0
					env.RandNormal = func() float64 {
						n++
						if n > len(seq) {
							return 0
						}
						return zs[seq[n-1]]
					}
					defer func() { env.RandNormal = nil }()
					r := rng.NewLogNormalRNG(mean, sd)
					for i, k := range seq {
						got := r.Rand()
						want := mean + sd*zs[k]
						if !(got > 0) || math.IsInf(got, 0) || math.Abs(math.Log(got)-want) > 1e-9*(1+math.Abs(want)) {
							mc.Fail("sample", "a log-normal generator with mean %v and deviation %v: with the normal numbers %v sample %d is %v, its logarithm %v, want %v", mean, sd, seq, i, got, math.Log(got), want)
						}
					}
					c.State("%v %v %v", mean, sd, seq)
					c.Step(len(seq))
				}
			})
		}
	}
}

func main() {
	lib.Main("C37", []lib.Scenario{
		{Name: "poisson", Weight: 2, What: "all sequences of up to 4 (5) uniform numbers of 8, then one of 4 endless ones, for 21 rates from 0 to 3000", Seq: poisson},
		{Name: "log-normal", What: "all sequences of up to 3 normal numbers of 9 for 48 pairs of mean and deviation", Seq: logNormal},
	})
}
