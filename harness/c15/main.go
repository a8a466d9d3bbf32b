//go:build go1.22

package main

import (
	"context"
	"fmt"
	"strings"

	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/eventbus"
	"github.com/BTBurke/monny/vh/busx"
	"github.com/BTBurke/monny/vh/lib"
)

var cfg = mc.Config{Race: true, MapOrders: 2}

var opNames = []string{"dispatch", "dispatch2", "subscribe", "subscribe2", "leave", "leave-multi", "shutdown"}

// mix runs one operation per goroutine next to existing subscribers.
func mix(threads int, ops []int, withShutdown bool) func() {
	return func() {
		bus := eventbus.New()
		multi := busx.New(bus, "multi", "t", "u").Run()
		one := busx.New(bus, "one").Run()
		two := busx.New(bus, "two", "t").Run()
		subs := []*busx.Sub{multi, one, two}
		var j lib.Join
		desc := []string{}
		sd := withShutdown
		prev := 0
		left := map[*busx.Sub]bool{}
		sent := []string{}
		for i := 0; i < threads; i++ {
			op := ops[prev+mc.Choose(len(ops)-prev, "operation")]
			for k, o := range ops {
				if o == op {
					prev = k // programs up to symmetry
				}
			}
			if op == 6 {
				if !sd {
					op = 0
				} else {
					sd = false
				}
			}
			if op == 4 && left[one] || op == 5 && left[multi] {
				op = 0
			}
			desc = append(desc, opNames[op])
			i := i
			switch op {
			case 0:
				sent = append(sent, fmt.Sprint("e", i))
				j.Go("dispatch", func() { bus.Dispatch(busx.Event(fmt.Sprint("e", i)), "t") })
			case 1:
				sent = append(sent, fmt.Sprint("e", i), fmt.Sprint("f", i))
				j.Go("dispatch2", func() {
					bus.Dispatch(busx.Event(fmt.Sprint("e", i)), "t", "u")
					bus.Dispatch(busx.Event(fmt.Sprint("f", i)))
				})
			case 2:
				j.Go("subscribe", func() {
					s := busx.New(bus, fmt.Sprint("new", i), "t")
					subs = append(subs, s)
					s.Run()
				})
			case 3:
				j.Go("subscribe2", func() {
					s := busx.New(bus, fmt.Sprint("new", i), "u", "w")
					subs = append(subs, s)
					s.Run()
					bus.Unsubscribe(s.C, nil)
				})
			case 4:
				left[one] = true
				j.Go("leave", func() { bus.Unsubscribe(one.C, nil) })
			case 5:
				left[multi] = true
				j.Go("leave-multi", func() { bus.Unsubscribe(multi.C, nil) })
			case 6:
				j.Go("shutdown", func() {
					ctx, cancel := mc.WithCancel(context.Background())
					defer cancel()
					if err := bus.Shutdown(ctx); err != nil {
						mc.Fail("shutdown", "shutdown: %v", err)
					}
				})
			}
		}
		j.Wait()
		mc.Settle()
		if sd || !withShutdown {
			// nothing has shut down yet
			n := map[*busx.Sub]int{}
			for s := range left {
				if s.Closed != 1 {
					mc.Fail("unsubscribe", "%v: the channel of %s was not closed", desc, s.Name)
				}
				n[s] = len(s.Order)
			}
			bus.Dispatch(busx.Event("late"), "t", "u")
			sent = append(sent, "late")
			mc.Settle()
			for s := range left {
				if len(s.Order) != n[s] {
					mc.Fail("unsubscribe", "%v: %s received an event after it had left", desc, s.Name)
				}
			}
			if err := bus.Shutdown(context.Background()); err != nil {
				mc.Fail("shutdown", "%v: shutdown: %v", desc, err)
			}
			mc.Settle()
		}
		var o []string
		for _, s := range subs {
			s.AtMost(fmt.Sprint(desc), sent...)
			if s.Closed != 1 {
				mc.Fail("shutdown", "%v: the channel of %s was not closed", desc, s.Name)
			}
			o = append(o, s.Show())
		}
		bus.Dispatch(busx.Event("after"), "t")
		mc.Settle()
		if l := mc.Live(); len(l) > 0 {
			mc.Fail("leak", "%v: still running: %v", desc, l)
		}
		mc.Outcome(strings.Join(desc, ",") + " " + strings.Join(o, " "))
	}
}

func main() {
	lib.Main("C15", []lib.Scenario{
		{Name: "pairs", Weight: 3, What: "every pair of operations (dispatch to a topic, dispatch two events to several, subscribe, subscribe and leave, leave, leave of a subscriber of two topics, shutdown) next to three receiving subscribers, all schedules", Cfg: cfg, Body: mix(2, []int{0, 1, 2, 3, 4, 5, 6}, true)},
		{Name: "triples-leave", Weight: 3, What: "every triple of dispatch, leaving and shutdown", Cfg: cfg, Body: mix(3, []int{0, 4, 5, 6}, true)},
		{Name: "triples-all", Weight: 4, What: "every triple of operations", Cfg: cfg, MaxBound: 3, Body: mix(3, []int{0, 1, 2, 3, 4, 5, 6}, true)},
		{Name: "quads", Weight: 4, Thorough: true, What: "every combination of four operations", Cfg: cfg, MaxBound: 2, Body: mix(4, []int{0, 2, 3, 5, 6}, true)},
		{Name: "small", Weight: 2, What: "one subscriber of two topics, one dispatch, leaving and shutdown at the same time, all schedules", Cfg: cfg, Body: func() {
			bus := eventbus.New()
			s := busx.New(bus, "s", "t", "u").Run()
			var j lib.Join
			j.Go("dispatch", func() { bus.Dispatch(busx.Event("e"), "t", "u") })
			j.Go("leave", func() { bus.Unsubscribe(s.C, nil) })
			j.Go("shutdown", func() { bus.Shutdown(context.Background()) })
			j.Wait()
			s.AtMost("", "e")
			mc.Settle()
			if l := mc.Live(); len(l) > 0 {
				mc.Fail("leak", "still running: %v", l)
			}
			mc.Outcome(s.Show())
		}},
		{Name: "confirm-twice", What: "a subscriber confirms its shutdown from two goroutines, before and while the bus shuts down", Cfg: cfg, Body: func() {
			bus := eventbus.New()
			s := busx.New(bus, "s")
			s.After = func(s *busx.Sub) {
				var j lib.Join
				j.Go("confirm", s.Confirm)
				s.Confirm()
				j.Wait()
			}
			s.Run()
			if mc.Choose(2, "early") == 1 {
				var j lib.Join
				j.Go("confirm", s.Confirm)
				j.Go("shutdown", func() { bus.Shutdown(context.Background()) })
				j.Wait()
				mc.Settle()
			} else {
				busx.Finish(bus, s)
			}
			if l := mc.Live(); len(l) > 0 {
				mc.Fail("leak", "still running: %v", l)
			}
		}},
		{Name: "repeated-topic", What: "a subscriber that lists a topic twice leaves or is shut down", Cfg: cfg, Body: func() {
			bus := eventbus.New()
			s, r := busx.New(bus, "s", "t", "t").Run(), busx.New(bus, "r", "t").Run()
			bus.Dispatch(busx.Event("e"), "t")
			if mc.Choose(2, "leave") == 1 {
				bus.Unsubscribe(s.C, nil)
			}
			busx.Finish(bus, s, r)
		}},
		{Name: "handler-dispatch", Weight: 2, What: "a subscriber that dispatches another event for every event it receives, and a shutdown at any time", Cfg: cfg, Body: func() {
			bus := eventbus.New()
			a := busx.New(bus, "a", "t")
			a.On = func(s *busx.Sub, e eventbus.Event) {
				if e.Type() == "e" {
					bus.Dispatch(busx.Event("reply"), "t", "u")
				}
			}
			a.Run()
			b := busx.New(bus, "b", "u").Run()
			var j lib.Join
			j.Go("dispatch", func() { bus.Dispatch(busx.Event("e"), "t") })
			if mc.Choose(2, "shutdown") == 1 {
				j.Go("shutdown", func() { busx.Shutdown(bus, 1000000) })
				j.Wait()
			} else {
				j.Wait()
				mc.Settle()
				a.Want("", "e", "reply")
				b.Want("", "reply")
				busx.Finish(bus, a, b)
			}
			mc.Outcome(a.Show() + b.Show())
		}},
		{Name: "histories", Weight: 2, What: "all histories of 4 (5) operations: subscribing, dispatching, leaving, leaving again, confirming early, shutdown, and what comes after it", Seq: func(c *lib.Cases) {
			busx.Histories(c, "", []busx.Op{busx.SubAll, busx.SubAB, busx.SubBB, busx.SendBA, busx.SendAll, busx.LeaveFirst, busx.LeaveLast, busx.LeaveAgain, busx.Confirm, busx.Rest, busx.Down}, c.Depth(4, 5))
		}},
	})
}
