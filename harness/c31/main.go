//go:build go1.22

package main

import (
	"context"
	"fmt"
	"time"

	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/eventbus"
	"github.com/BTBurke/monny/pkg/monny/proc"
	"github.com/BTBurke/monny/vh/lib"
)

const period = 10 * time.Millisecond

// sub counts the events by type with the time of their arrival.
type sub struct {
	at     map[string][]time.Duration
	closed time.Duration
}

func (s *sub) n(name string) int { return len(s.at[name]) }

func subscribe(bus *eventbus.EventBus, topics ...eventbus.Topic) *sub {
	s := &sub{at: map[string][]time.Duration{}, closed: -1}
	ch, done := bus.Subscribe(topics...)
	mc.GoNamed("subscriber", func() {
		for {
			e, ok := mc.Recv2(ch)
			if !ok {
				break
			}
			s.at[string(e.Type())] = append(s.at[string(e.Type())], mc.Elapsed())
			var x interface{}
			_ = e.Decode(&x)
		}
		s.closed = mc.Elapsed()
		done()
	})
	return s
}

// stop shuts the bus down: all tickers must confirm and end.
func stop(bus *eventbus.EventBus) {
	ctx, cancel := mc.WithTimeout(context.Background(), time.Second)
	defer cancel()
	at := mc.Elapsed()
	if err := bus.Shutdown(ctx); err != nil {
		mc.Fail("shutdown", "the bus could not shut down: %v", err)
	}
	if d := mc.Elapsed() - at; d > 0 {
		mc.Fail("shutdown", "shutting down took %v", d)
	}
}

func quiet() {
	mc.Settle()
	if l := mc.Live(); len(l) > 0 {
		mc.Fail("leak", "still running after shutdown: %v", l)
	}
	if n := mc.Tickers(); n > 0 {
		mc.Fail("leak", "%d tickers still running after shutdown", n)
	}
}

// basic: ticks for a while with other events, then shutdown at any phase.
func basic(others bool, periods int) func() {
	return func() {
		bus := eventbus.New()
		s := subscribe(bus)
		start := mc.Elapsed()
		proc.NewTicker(period, bus, "tick")
		n := mc.Choose(periods, "periods")
		phase := time.Duration(mc.Choose(3, "phase")) * period / 2
		var sent int
		var j lib.Join
		if others {
			j.Go("other", func() {
				for i := 0; i < 2; i++ {
					e, _ := eventbus.NewEvent([]eventbus.EventType{"other", ""}[i], i)
					bus.Dispatch(e)
					sent++
					mc.Sleep(period)
				}
			})
		}
		end := start + time.Duration(n)*period + phase
		mc.Sleep(end - mc.Elapsed())
		if phase != 0 && phase != period {
			mc.Settle()
			if s.n("tick") != n {
				mc.Fail("ticks", "%d ticks arrived within %v of period %v", s.n("tick"), end-start, period)
			}
		}
		stop(bus)
		j.Wait()
		max := int((end - start) / period)
		mc.Sleep(3 * period)
		if got := s.n("tick"); got > max || got < max-1 || (phase == period/2 && got != max) {
			mc.Fail("ticks", "%d ticks arrived within %v of period %v", got, end-start, period)
		}
		for i, at := range s.at["tick"] {
			if at != start+time.Duration(i+1)*period {
				mc.Fail("ticks", "tick %d came at %v after the start", i+1, at-start)
			}
		}
		for name := range s.at {
			if name != "tick" && name != "other" && name != "" {
				mc.Fail("ticks", "an event of type %q was dispatched", name)
			}
		}
		if s.n("other")+s.n("") > sent {
			mc.Fail("ticks", "%d of %d other events arrived", s.n("other")+s.n(""), sent)
		}
		quiet()
		mc.Outcome(fmt.Sprint(n, phase, s.n("tick"), s.n("other")))
	}
}

// periods: tickers of periods from nanoseconds to years, many ticks, several tickers.
func periods(c *lib.Cases) {
	ps := []time.Duration{10, 999, time.Microsecond, 1500 * time.Microsecond, time.Millisecond, 333 * time.Millisecond, time.Second, 61 * time.Second, time.Hour, 25 * time.Hour, 500 * 24 * time.Hour}
	for _, period := range ps {
		for _, n := range []int{1, 2, 70, 1100} {
			if c.Quick && n == 1100 && period > time.Millisecond {
				continue
			}
			if period > 1000*time.Hour && n > 2 {
				continue
			}
			for _, tickers := range []int{1, 3, 20} {
				if n > 70 && tickers > 1 || n > 2 && tickers > 3 {
					continue
				}
				for _, slow := range []bool{false, true} {
					c.Add(fmt.Sprint(period, n, tickers, slow), func() {
						bus := eventbus.New()
						s := subscribe(bus)
						if slow { // a subscriber that takes its time does not delay ticks
							ch, done := bus.Subscribe()
							mc.GoNamed("slow", func() {
								for {
									if _, ok := mc.Recv2(ch); !ok {
										break
									}
									mc.Sleep(period + period/3)
								}
								done()
							})
						}
						start := mc.Elapsed()
						for i := 0; i < tickers; i++ {
							proc.NewTicker(period, bus, eventbus.EventType(fmt.Sprint("tick", i%10)))
						}
						each := map[string]int{}
						for i := 0; i < tickers; i++ {
							each[fmt.Sprint("tick", i%10)]++
						}
						mc.Sleep(time.Duration(n)*period + period/2 - (mc.Elapsed() - start))
						for name, k := range each {
							if s.n(name) != n*k {
								mc.Fail("ticks", "%d tickers of period %v and type %s: %d ticks in %d periods", k, period, name, s.n(name), n)
							}
							for i, at := range s.at[name] {
								if at != start+time.Duration(i/k+1)*period {
									mc.Fail("ticks", "tick %d of a ticker of period %v came after %v", i/k+1, period, at-start)
								}
							}
						}
						if len(s.at) != len(each) {
							mc.Fail("ticks", "events of %d types arrived, want %d", len(s.at), len(each))
						}
						ctx, cancel := mc.WithTimeout(context.Background(), time.Duration(n+5)*4*period)
						if err := bus.Shutdown(ctx); err != nil && !slow {
							mc.Fail("shutdown", "the bus could not shut down: %v", err)
						}
						cancel()
						mc.Sleep(3 * period)
						for name, k := range each {
							if s.n(name) != n*k {
								mc.Fail("ticks", "%d tickers of period %v: %d ticks of %d periods when all is over", k, period, s.n(name), n)
							}
						}
						if n := mc.Tickers(); n > 0 {
							mc.Fail("leak", "%d tickers still running after shutdown", n)
						}
						c.Step(n)
						c.State("%v %d %d", period, n, tickers)
					})
				}
			}
		}
	}
}

func main() {
	cfg := mc.Config{Race: true, MapOrders: 2}
	lib.Main("C31", []lib.Scenario{
		{Name: "alone", Weight: 2, What: "shutdown after 0 to 3 periods, at, between or just on a tick, all schedules", Cfg: cfg, Body: basic(false, 4)},
		{Name: "others", Weight: 3, What: "the same with other events on the bus", Cfg: cfg, Body: basic(true, 3)},
		{Name: "two", Weight: 2, What: "two tickers of different periods and types and one subscriber of an unrelated topic", Cfg: cfg, Body: func() {
			bus := eventbus.New()
			s := subscribe(bus)
			o := subscribe(bus, "topic")
			start := mc.Elapsed()
			proc.NewTicker(period, bus, "fast")
			proc.NewTicker(2*period+period/3, bus, "slow")
			n := 1 + mc.Choose(3, "periods")
			mc.Sleep(time.Duration(n)*period + period/2 - (mc.Elapsed() - start))
			mc.Settle()
			slow := (n*6 + 3) / 14
			if f, l := s.n("fast"), s.n("slow"); f != n || l != slow {
				mc.Fail("ticks", "%d and %d ticks in %d periods", f, l, n)
			}
			if len(o.at) > 0 {
				mc.Fail("ticks", "ticks arrived on another topic")
			}
			stop(bus)
			mc.Sleep(5 * period)
			if f, l := s.n("fast"), s.n("slow"); f != n || l != slow {
				mc.Fail("ticks", "%d and %d ticks after shutdown, %d and %d before", f, l, n, slow)
			}
			quiet()
		}},
		{Name: "periods", What: "1, 3 and 20 tickers of 11 periods from 10 ns to 500 days, 1 to 1100 ticks, alone and next to a subscriber slower than the ticks", Seq: periods},
		{Name: "zero", What: "a zero period creates no ticker", Cfg: cfg, Body: func() {
			bus := eventbus.New()
			s := subscribe(bus)
			proc.NewTicker(0, bus, "tick")
			mc.Sleep(10 * period)
			if len(s.at) > 0 {
				mc.Fail("ticks", "events %v", s.at)
			}
			stop(bus)
			quiet()
		}},
		{Name: "long", MaxBound: 1, What: "ten periods, then shutdown", Cfg: cfg, Body: func() {
			bus := eventbus.New()
			s := subscribe(bus)
			start := mc.Elapsed()
			proc.NewTicker(period, bus, "tick")
			for i := 1; i <= 10; i++ {
				mc.Sleep(start + time.Duration(i)*period + period/2 - mc.Elapsed())
				mc.Settle()
				if s.n("tick") != i {
					mc.Fail("ticks", "%d ticks in %d periods", s.n("tick"), i)
				}
			}
			stop(bus)
			quiet()
		}},
		{Name: "stuck-subscriber", Weight: 2, What: "ticks while another subscriber does not receive, then shutdown with a time limit", Cfg: cfg, Body: func() {
			bus := eventbus.New()
			s := subscribe(bus)
			bus.Subscribe() // never receives
			start := mc.Elapsed()
			proc.NewTicker(period, bus, "tick")
			mc.Sleep(start + 3*period + period/2 - mc.Elapsed())
			mc.Settle()
			if s.n("tick") != 3 {
				mc.Fail("ticks", "%d ticks in 3 periods", s.n("tick"))
			}
			ctx, cancel := mc.WithTimeout(context.Background(), period)
			defer cancel()
			if err := bus.Shutdown(ctx); err == nil {
				mc.Fail("shutdown", "shutdown did not wait for a subscriber")
			}
			mc.Sleep(5 * period)
			if s.n("tick") != 3 {
				mc.Fail("ticks", "%d ticks after shutdown, 3 before", s.n("tick"))
			}
			if n := mc.Tickers(); n > 0 {
				mc.Fail("leak", "%d tickers still running after shutdown", n)
			}
		}},
	})
}
