//go:build go1.22

package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/eventbus"
	"github.com/BTBurke/monny/vh/busx"
	"github.com/BTBurke/monny/vh/lib"
)

var cfg = mc.Config{Race: true, MapOrders: 2}

const limit = 100 * time.Millisecond

var kinds = []string{"prompt", "slow", "never confirms", "never receives", "dispatches", "unsubscribes", "late", "confirmed before"}

// behave starts a subscriber of the given kind; ok tells whether shutdown can
// succeed with it within the limit.
func behave(bus *eventbus.EventBus, kind, i int) (s *busx.Sub, ok bool) {
	var ts []eventbus.Topic
	if i%2 == 1 {
		ts = []eventbus.Topic{"t", "u"}
	}
	s = busx.New(bus, fmt.Sprintf("s%d(%s)", i, kinds[kind]), ts...)
	switch kind {
	case 0:
		s.Run()
	case 1:
		s.After = func(s *busx.Sub) { mc.Sleep(limit / 2); s.Confirm() }
		s.Run()
	case 2:
		s.After = func(s *busx.Sub) {}
		s.Run()
		return s, false
	case 3:
		return s, false
	case 4:
		s.After = func(s *busx.Sub) {
			bus.Dispatch(busx.Event("goodbye"), "t")
			s.Confirm()
		}
		s.Run()
	case 5:
		s.After = func(s *busx.Sub) {
			bus.Unsubscribe(s.C, nil)
			s.Confirm()
		}
		s.Run()
	case 6:
		s.After = func(s *busx.Sub) { mc.Sleep(3 * limit); s.Confirm() }
		s.Run()
		return s, false
	case 7:
		s.Confirm()
		s.After = func(s *busx.Sub) { s.Done() } // again
		s.Run()
	}
	return s, true
}

func shut(n int, ks []int, events int) func() {
	return func() {
		bus := eventbus.New()
		var subs []*busx.Sub
		all := true
		desc := ""
		prev := 0
		for i := 0; i < n; i++ {
			k := prev + mc.Choose(len(ks)-prev, "kind")
			prev = k
			s, ok := behave(bus, ks[k], i)
			all = all && ok
			subs = append(subs, s)
			desc += s.Name + " "
		}
		for i := 0; i < events; i++ {
			bus.Dispatch(busx.Event(fmt.Sprint("e", i)), "t", "u")
		}
		err := func() error {
			ctx, cancel := mc.WithTimeout(context.Background(), limit)
			defer cancel()
			start := mc.Elapsed()
			err := bus.Shutdown(ctx)
			if d := mc.Elapsed() - start; d > limit {
				mc.Fail("late", "%s: shutdown returned after %v, limit %v", desc, d, limit)
			}
			return err
		}()
		check(err, all, desc, subs)
		n0 := make([]int, len(subs))
		mc.Settle()
		for i, s := range subs {
			n0[i] = len(s.Order)
		}
		bus.Dispatch(busx.Event("after"), "t")
		mc.Sleep(10 * limit)
		closed(desc, subs)
		var o []string
		for i, s := range subs {
			if len(s.Order) > n0[i] || s.Got["goodbye"] > 0 || s.Got["after"] > 0 {
				mc.Fail("delivery", "%s: %s received an event dispatched after shutdown had begun: %v", desc, s.Name, s.Order)
			}
			o = append(o, s.Show())
		}
		if l := mc.Live(); all && len(l) > 0 {
			mc.Fail("leak", "%s: still running after shutdown: %v", desc, l)
		}
		mc.Outcome(fmt.Sprint(desc, err, strings.Join(o, " ")))
	}
}

func check(err error, all bool, desc string, subs []*busx.Sub) {
	if err == nil {
		for _, s := range subs {
			if !s.Called {
				mc.Fail("early", "%s: shutdown returned without error before %s had finished", desc, s.Name)
			}
		}
	} else if err != eventbus.ErrShutdownTimeout {
		mc.Fail("error", "%s: shutdown returned %v", desc, err)
	} else if all {
		mc.Fail("error", "%s: shutdown timed out although all subscribers finished in time", desc)
	}
}

func closed(desc string, subs []*busx.Sub) {
	for _, s := range subs {
		if strings.Contains(s.Name, "never receives") {
			// what was buffered, then the end
			for i := 0; ; i++ {
				c := mc.RecvCase(s.C)
				if mc.Select(true, c) < 0 {
					mc.Fail("open", "%s: the channel of %s was not closed", desc, s.Name)
				}
				if !c.OK() {
					break
				}
			}
			continue
		}
		if s.Closed != 1 {
			mc.Fail("open", "%s: the channel of %s was not closed", desc, s.Name)
		}
	}
}

func main() {
	lib.Main("C16", []lib.Scenario{
		{Name: "one", Weight: 2, What: "one subscriber of each of 8 kinds (prompt, slow, never confirms, never receives, dispatches or unsubscribes on shutdown, confirms too late, confirmed before), 0 to 3 pending events, all schedules", Cfg: cfg, Body: func() { shut(1, []int{0, 1, 2, 3, 4, 5, 6, 7}, mc.Choose(3, "events"))() }},
		{Name: "two", Weight: 3, What: "two subscribers of every combination of kinds, one pending event, all schedules", Cfg: cfg, Body: shut(2, []int{0, 1, 2, 3, 4, 5, 6, 7}, 1)},
		{Name: "two-quiet", Weight: 2, What: "two subscribers of every combination of kinds, nothing pending, all schedules", Cfg: cfg, Body: shut(2, []int{0, 1, 2, 3, 4, 5, 6, 7}, 0)},
		{Name: "three", Weight: 2, What: "three subscribers of every combination of the kinds prompt, never receives, dispatches, never confirms; two pending events", Cfg: cfg, MaxBound: 3, Body: shut(3, []int{0, 3, 4, 2}, 2)},
		{Name: "cancel", Weight: 1, What: "the context is cancelled, by time or explicitly at any moment, or ended before: shutdown returns", Cfg: cfg, Body: func() {
			bus := eventbus.New()
			s, _ := behave(bus, mc.Choose(4, "kind"), 0)
			ctx, cancel := mc.WithCancel(context.Background())
			pre := mc.Choose(2, "before") == 1
			if pre {
				cancel()
			} else {
				mc.GoNamed("cancel", func() { mc.Sleep(time.Duration(mc.Choose(2, "when")) * limit); cancel() })
			}
			err := bus.Shutdown(ctx)
			check(err, false, s.Name, []*busx.Sub{s})
			mc.Settle()
			closed(s.Name, []*busx.Sub{s})
			mc.Outcome(fmt.Sprint(s.Name, pre, err))
		}},
		{Name: "concurrent-dispatch", Weight: 2, What: "two goroutines dispatch while the bus shuts down", Cfg: cfg, Body: func() {
			bus := eventbus.New()
			a, _ := behave(bus, mc.Choose(2, "kind"), 1)
			b, _ := behave(bus, 4, 0)
			var j lib.Join
			for i := 0; i < 2; i++ {
				i := i
				j.Go("dispatch", func() { bus.Dispatch(busx.Event(fmt.Sprint("e", i)), "t") })
			}
			check(busx.Shutdown(bus, limit), true, "", []*busx.Sub{a, b})
			j.Wait()
			mc.Settle()
			closed("", []*busx.Sub{a, b})
			a.AtMost("", "e0", "e1")
			b.AtMost("", "e0", "e1")
			if l := mc.Live(); len(l) > 0 {
				mc.Fail("leak", "still running after shutdown: %v", l)
			}
			mc.Outcome(a.Show() + b.Show())
		}},
		{Name: "again", Weight: 2, What: "shutdown is called twice, one after the other or at the same time, with two subscribers of every combination of prompt, slow, never confirms, dispatches, unsubscribes, late: each call returns in time, without error only if both have finished", Cfg: cfg, Body: func() {
			bus := eventbus.New()
			ks := []int{0, 1, 2, 4, 5, 6}
			i := mc.Choose(len(ks), "kind")
			k := i + mc.Choose(len(ks)-i, "kind")
			a, okA := behave(bus, ks[i], 0)
			b, okB := behave(bus, ks[k], 1)
			subs := []*busx.Sub{a, b}
			n := 2
			gap := []time.Duration{0, limit, 4 * limit}[mc.Choose(3, "second")]
			if gap > 0 {
				bus.Dispatch(busx.Event("e"), "t")
			}
			desc := fmt.Sprintf("%s %s, two calls at %v", a.Name, b.Name, gap)
			var j lib.Join
			errs := make([]error, n)
			for x := 0; x < n; x++ {
				x := x
				j.Go("shutdown", func() {
					mc.Sleep(time.Duration(x) * gap)
					// a late subscriber has finished by the second call at 4*limit
					all := (okA || x == 1 && gap == 4*limit && ks[i] == 6) && (okB || x == 1 && gap == 4*limit && ks[k] == 6)
					start := mc.Elapsed()
					errs[x] = busx.Shutdown(bus, limit)
					if d := mc.Elapsed() - start; d > limit {
						mc.Fail("late", "%s: shutdown %d returned after %v, limit %v", desc, x, d, limit)
					}
					check(errs[x], all, fmt.Sprintf("%s, call %d", desc, x), subs)
				})
			}
			j.Wait()
			mc.Settle()
			closed(desc, subs)
			mc.Outcome(fmt.Sprint(desc, errs))
		}},
		{Name: "empty", What: "a bus without subscribers, or whose subscribers all left", Cfg: cfg, Body: func() {
			bus := eventbus.New()
			var subs []*busx.Sub
			if mc.Choose(2, "subscriber") == 1 {
				s, _ := behave(bus, 0, 1)
				bus.Unsubscribe(s.C, nil)
				subs = append(subs, s)
			}
			bus.Dispatch(busx.Event("e"), "t")
			check(busx.Shutdown(bus, limit), true, "empty", subs)
		}},
		{Name: "histories", Weight: 2, What: "all histories of 4 (5) operations with one or two shutdowns: prompt, stalled and stopping subscribers that join before or after it, leave or confirm early, and events before and after it", Seq: func(c *lib.Cases) {
			busx.Histories(c, "", []busx.Op{busx.SubAll, busx.SubAB, busx.SubStalled, busx.SubStops, busx.SendBA, busx.SendAll, busx.LeaveFirst, busx.LeaveLast, busx.Confirm, busx.Rest, busx.Down}, c.Depth(4, 5))
		}},
	})
}
