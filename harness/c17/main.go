//go:build go1.22

package main

import (
	"fmt"
	"time"

	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/eventbus"
	"github.com/BTBurke/monny/vh/busx"
	"github.com/BTBurke/monny/vh/lib"
)

var cfg = mc.Config{Race: true, MapOrders: 2}

// stalled runs traffic next to a subscriber that stops receiving after n events.
func stalled(topics []eventbus.Topic, after, events int, join, leave, leaveStalled bool) func() {
	return func() {
		bus := eventbus.New()
		st := busx.New(bus, "stalled", topics...)
		mc.GoNamed("stalled", func() {
			for i := 0; i < after; i++ {
				if _, ok := mc.Recv2(st.C); !ok {
					return
				}
			}
			// and then no more
		})
		a, b := busx.New(bus, "a", "t").Run(), busx.New(bus, "b").Run()
		var names []string
		start := mc.Elapsed()
		for i := 0; i < events; i++ {
			n := fmt.Sprint("e", i)
			names = append(names, n)
			bus.Dispatch(busx.Event(n), "t")
		}
		if mc.Elapsed() != start {
			mc.Fail("blocked", "dispatching waited for %v", mc.Elapsed()-start)
		}
		if join {
			c := busx.New(bus, "c", "t", "u").Run()
			bus.Dispatch(busx.Event("new"), "t")
			names = append(names, "new")
			mc.Settle()
			c.Want("", "new")
		}
		mc.Settle()
		if leave {
			bus.Unsubscribe(a.C, nil)
			bus.Dispatch(busx.Event("more"))
			mc.Settle()
			if a.Closed != 1 {
				mc.Fail("open", "the channel of a subscriber that left was not closed")
			}
			b.Want("", append(append([]string(nil), names...), "more")...)
		} else {
			b.Want("", names...)
		}
		a.Want("", names...)
		if leaveStalled {
			bus.Unsubscribe(st.C, nil)
		}
		if mc.Elapsed() > start+4 {
			mc.Fail("blocked", "it took %v", mc.Elapsed()-start)
		}
		mc.Outcome(fmt.Sprint(a.Order, b.Order))
	}
}

// crowd: stalled subscribers among many others.
func crowd(c *lib.Cases) {
	for _, subs := range []int{2, 9, 17, 33, 65, 129, 257} {
		for _, at := range []int{0, subs / 2, subs - 1} {
			for _, events := range []int{1, 2, 5} {
				for kind := 0; kind < 3; kind++ {
					c.Add(fmt.Sprint(subs, at, events, kind), func() {
						w := busx.NewWorld()
						for i := 0; i < subs; i++ {
							if i == at {
								w.Do([]busx.Op{busx.SubStalled, busx.SubStops, busx.SubStalled}[kind])
							} else {
								w.Do([]busx.Op{busx.SubA, busx.SubAll, busx.SubAB}[(i+kind)%3])
							}
						}
						for i := 0; i < events; i++ {
							w.Do([]busx.Op{busx.SendBA, busx.SendA, busx.SendAll}[(i+kind)%3])
						}
						w.Do(busx.LeaveLast)
						w.Do(busx.SubA)
						w.Do(busx.SendA)
						w.End()
						c.Step(subs)
						c.State("%d %d", subs, events)
						mc.Freeze()
					})
				}
			}
		}
	}
}

// backlog: many events that are not taken.
func backlog(c *lib.Cases) {
	for stalled := 1; stalled < 4; stalled++ {
		for _, events := range []int{1, 3, 17, 33, 65, 130, 300, 600} {
			if c.Quick && events*stalled > 300 {
				continue
			}
			for mode := 0; mode < 4; mode++ {
				c.Add(fmt.Sprint(stalled, events, mode), func() {
					w := busx.NewWorld()
					if mode&1 == 0 {
						w.Do(busx.SubAB)
					}
					for i := 0; i < stalled; i++ {
						w.Do([]busx.Op{busx.SubStalled, busx.SubStops}[i%2])
					}
					w.Do(busx.SubAll)
					for i := 0; i < events; i++ {
						w.Do([]busx.Op{busx.SendBA, busx.SendAll, busx.SendA}[i%3])
						switch {
						case mode&2 != 0:
							w.Do(busx.Rest)
						case i%20 == 19:
							w.Do(busx.SubA)
							w.Do(busx.SendA)
							w.Do(busx.Rest)
							w.Do(busx.LeaveLast)
						}
					}
					w.End()
					c.Step(events)
					c.State("%d %d %d", stalled, events, mode)
					mc.Freeze()
				})
			}
		}
	}
}

func main() {
	t := []eventbus.Topic{"t"}
	lib.Main("C17", []lib.Scenario{
		{Name: "two-events", Weight: 2, What: "a subscriber never receives; two events, two other subscribers, all schedules", Cfg: cfg, Body: stalled(t, 0, 2, false, false, false)},
		{Name: "stops-later", Weight: 2, What: "a subscriber of everything stops after one event; three events", Cfg: cfg, MaxBound: 3, Body: stalled(nil, 1, 3, false, false, false)},
		{Name: "join", Weight: 2, What: "a new subscriber joins and gets an event while another is stalled with undelivered events", Cfg: cfg, Body: stalled(t, 0, 2, true, false, false)},
		{Name: "leave", Weight: 2, What: "a subscriber leaves while another is stalled with undelivered events", Cfg: cfg, Body: stalled(t, 0, 2, false, true, false)},
		{Name: "leave-stalled", Weight: 2, What: "the stalled subscriber is removed", Cfg: cfg, Body: stalled([]eventbus.Topic{"t", "u"}, 0, 2, false, false, true)},
		{Name: "join-leave", Weight: 2, Thorough: true, What: "join and leave, four events", Cfg: cfg, MaxBound: 3, Body: stalled(nil, 0, 4, true, true, true)},
		{Name: "concurrent", Weight: 2, What: "two dispatching goroutines and one that joins and leaves, next to a stalled subscriber", Cfg: cfg, MaxBound: 3, Body: func() {
			bus := eventbus.New()
			busx.New(bus, "stalled", "t")
			a := busx.New(bus, "a", "t").Run()
			var j lib.Join
			for i := 0; i < 2; i++ {
				i := i
				j.Go("dispatch", func() {
					bus.Dispatch(busx.Event(fmt.Sprintf("e%d0", i)), "t")
					bus.Dispatch(busx.Event(fmt.Sprintf("e%d1", i)), "t")
				})
			}
			j.Go("visitor", func() {
				v := busx.New(bus, "v", "t").Run()
				bus.Unsubscribe(v.C, nil)
			})
			j.Wait()
			mc.Settle()
			a.Want("", "e00", "e01", "e10", "e11")
			if mc.Elapsed() > time.Millisecond {
				mc.Fail("blocked", "it took %v", mc.Elapsed())
			}
			mc.Outcome(fmt.Sprint(a.Order))
		}},
		{Name: "many", What: "a stalled subscriber, 8 events: deviation-bounded", Cfg: cfg, MaxBound: 1, Body: stalled(t, 0, 8, true, true, false)},
		{Name: "closed-by-itself", Weight: 2, What: "a subscriber closes its own channel while events are under way, another receives, all schedules", Cfg: mc.Config{LeaksOK: false}, MaxBound: 3, Body: func() {
			bus := eventbus.New()
			bad := busx.New(bus, "bad", t...)
			good := busx.New(bus, "good", t...).Run()
			bus.Dispatch(busx.Event("e1"), t...)
			mc.GoNamed("closer", func() {
				mc.Close(bad.C)
				bad.Confirm()
			})
			bus.Dispatch(busx.Event("e2"), t...)
			late := busx.New(bus, "late").Run()
			bus.Dispatch(busx.Event("e3"))
			mc.Sleep(time.Millisecond)
			good.Want("a subscriber closed its channel", "e1", "e2")
			late.Want("a subscriber closed its channel", "e3")
			if mc.Choose(2, "leave") == 1 {
				bus.Unsubscribe(bad.C, nil)
			}
			busx.Finish(bus, good, late)
			mc.Outcome(good.Show() + late.Show())
		}},
		{Name: "slow", What: "one or two subscribers that take an event every 1 ms up to every 400 days, 2 to 20 events at different distances, next to a prompt one", Seq: busx.Slow},
		{Name: "histories", Weight: 2, What: "all histories of 4 (5) operations with subscribers that never receive or stop, others that join and leave or close their channel themselves, and events", Seq: func(c *lib.Cases) {
			busx.Histories(c, "", []busx.Op{busx.SubAll, busx.SubA, busx.SubStalled, busx.SubStops, busx.SendBA, busx.SendAll, busx.SendA, busx.LeaveFirst, busx.LeaveLast, busx.CloseLast, busx.Rest}, c.Depth(4, 5))
		}},
		{Name: "crowd", What: "one stalled subscriber among up to 256 others", Seq: crowd},
		{Name: "backlog", What: "up to hundreds of events that one or more subscribers do not take, and others that join and leave meanwhile", Seq: backlog},
	})
}
