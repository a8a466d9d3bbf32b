//go:build go1.22

package main

import (
	"fmt"
	"strings"

	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/eventbus"
	"github.com/BTBurke/monny/vh/busx"
	"github.com/BTBurke/monny/vh/lib"
)

var cfg = mc.Config{Race: true, MapOrders: 2}

type topics []eventbus.Topic

func (t topics) has(x eventbus.Topic) bool {
	for _, y := range t {
		if x == y {
			return true
		}
	}
	return false
}

// receives is the specification.
func receives(sub, event topics) bool {
	if len(sub) == 0 {
		return true
	}
	for _, t := range event {
		if sub.has(t) {
			return true
		}
	}
	return false
}

var subTopics = []topics{{}, {"a"}, {"b"}, {"a", "b"}, {"a", "a"}}
var evTopics = []topics{{}, {"a"}, {"b"}, {"a", "b"}, {"none"}, {"none", "a"}, {"a", "a"}}

// matrix: every combination of subscriptions and addressees.
func matrix(nsub, nev int, subT, evT []topics) func() {
	return func() {
		bus := eventbus.New()
		var subs []*busx.Sub
		var st []topics
		for i := 0; i < nsub; i++ {
			t := subT[mc.Choose(len(subT), "topics of subscriber")]
			st = append(st, t)
			subs = append(subs, busx.New(bus, fmt.Sprintf("s%d%v", i, t), t...).Run())
		}
		var et []topics
		want := make([][]string, nsub)
		for i := 0; i < nev; i++ {
			t := evT[mc.Choose(len(evT), "topics of event")]
			et = append(et, t)
			name := fmt.Sprintf("e%d", i)
			for k := range subs {
				if receives(st[k], t) {
					want[k] = append(want[k], name)
				}
			}
		}
		for i, t := range et {
			bus.Dispatch(busx.Event(fmt.Sprintf("e%d", i)), append(topics(nil), t...)...)
		}
		mc.Settle()
		var o []string
		for k, s := range subs {
			s.Want(fmt.Sprintf("events to %v", et), want[k]...)
			o = append(o, s.Show(), strings.Join(s.Order, ","))
		}
		busx.Finish(bus, subs...)
		mc.Outcome(strings.Join(o, " "))
	}
}

// burst: several dispatchers, receivers that are slower.
func burst(dispatchers, each int, slow bool) func() {
	return func() {
		bus := eventbus.New()
		a, b := busx.New(bus, "all"), busx.New(bus, "topic", "t")
		if slow {
			b.On = func(s *busx.Sub, e eventbus.Event) { mc.Sleep(1000) }
		}
		a.Run()
		b.Run()
		var j lib.Join
		var names []string
		for d := 0; d < dispatchers; d++ {
			d := d
			for i := 0; i < each; i++ {
				names = append(names, fmt.Sprintf("e%d.%d", d, i))
			}
			j.Go("dispatcher", func() {
				for i := 0; i < each; i++ {
					bus.Dispatch(busx.Event(fmt.Sprintf("e%d.%d", d, i)), "t")
				}
			})
		}
		j.Wait()
		mc.Sleep(1000000)
		a.Want("burst", names...)
		b.Want("burst", names...)
		busx.Finish(bus, a, b)
		mc.Outcome(strings.Join(a.Order, ",") + "|" + strings.Join(b.Order, ","))
	}
}

// volume: up to hundreds of subscribers and events.
func volume(c *lib.Cases) {
	for _, subs := range []int{1, 2, 17, 65, 130, 260, 520, 1030} {
		for _, events := range []int{1, 2, 17, 65, 130, 300, 1100, 2100} {
			if subs*events > 5000 {
				continue
			}
			for gap := 0; gap < 2; gap++ {
				c.Add(fmt.Sprint(subs, events, gap), func() {
					w := busx.NewWorld()
					for i := 0; i < subs; i++ {
						w.Do([]busx.Op{busx.SubAll, busx.SubA, busx.SubAB, busx.SubBB}[i%4])
					}
					for i := 0; i < events; i++ {
						w.Do([]busx.Op{busx.SendBA, busx.SendAll, busx.SendA, busx.SendAA, busx.SendNone}[i%5])
						if gap == 1 {
							w.Do(busx.Rest)
						}
					}
					w.End()
					c.Step(subs * events)
					c.State("%d %d", subs, events)
					mc.Freeze()
				})
			}
		}
	}
}

// names are topics that are easily confused.
var names = topics{"a", "A", "", "a ", "ab", "b", "*", "ä", "ab c", "a,b", "all", "0"}

// lists: long lists of topics, and those that are easily confused.
func lists(c *lib.Cases) {
	add := func(id string, sub, ev topics) {
		c.Add(id, func() {
			bus := eventbus.New()
			s, all, other := busx.New(bus, "s", append(topics(nil), sub...)...).Run(), busx.New(bus, "all").Run(), busx.New(bus, "other", "some other topic").Run()
			bus.Dispatch(busx.Event("e"), append(topics(nil), ev...)...)
			bus.Dispatch(busx.Event("f"), append(topics(nil), ev...)...)
			mc.Settle()
			what := fmt.Sprintf("topics %q, event to %q", sub, ev)
			if receives(sub, ev) {
				s.Want(what, "e", "f")
			} else {
				s.Want(what)
			}
			all.Want(what, "e", "f")
			other.Want(what)
			busx.Finish(bus, s, all, other)
			c.State("%d %d %v", len(sub), len(ev), receives(sub, ev))
		})
	}
	for i, a := range names {
		for j, b := range names {
			add(fmt.Sprint("one ", i, j), topics{a}, topics{b})
			for k, d := range names {
				add(fmt.Sprint("two ", i, j, k), topics{a, b}, topics{d})
				add(fmt.Sprint("to two ", i, j, k), topics{a}, topics{b, d})
			}
		}
	}
	many := func(n int) (t topics) {
		for i := 0; i < n; i++ {
			t = append(t, eventbus.Topic(fmt.Sprint("t", i)))
		}
		return
	}
	for _, n := range []int{3, 4, 5, 8, 9, 16, 17, 33, 64, 65, 257} {
		for i := 0; i < n; i++ {
			one := topics{eventbus.Topic(fmt.Sprint("t", i))}
			add(fmt.Sprint("of many ", n, i), many(n), one)
			add(fmt.Sprint("to many ", n, i), one, many(n))
			add(fmt.Sprint("not of many ", n, i), append(many(i), many(n)[i+1:]...), one)
			add(fmt.Sprint("not to many ", n, i), one, append(many(i), many(n)[i+1:]...))
		}
		add(fmt.Sprint("many ", n), many(n), many(n))
		add(fmt.Sprint("none of many ", n), many(n), topics{"t"})
		add(fmt.Sprint("many, nothing ", n), many(n), nil)
	}
}

func main() {
	lib.Main("C14", []lib.Scenario{
		{Name: "one-event", Weight: 2, What: "two subscribers and one event with every combination of topics (subscriber: none, a, b, a+b, a+a; event: none, a, b, a+b, unknown, unknown+a, a+a), all schedules", Cfg: cfg, Body: matrix(2, 1, subTopics, evTopics)},
		{Name: "one-subscriber", Weight: 2, What: "one subscriber, two events, every combination of topics, all schedules", Cfg: cfg, Body: matrix(1, 2, subTopics, evTopics)},
		{Name: "two-by-two", Weight: 3, What: "two subscribers, two events over fewer topic combinations", Cfg: cfg, Body: matrix(2, 2, subTopics[:3], evTopics[:3])},
		{Name: "three-subscribers", Weight: 2, Thorough: true, What: "three subscribers, one event", Cfg: cfg, Body: matrix(3, 1, subTopics[:4], evTopics[:5])},
		{Name: "burst-2x1", Weight: 2, What: "two dispatching goroutines, two subscribers", Cfg: cfg, Body: burst(2, 1, false)},
		{Name: "burst-1x3-slow", Weight: 2, What: "three events at once, more than the channel holds, one slow subscriber", Cfg: cfg, Body: burst(1, 3, true)},
		{Name: "burst-2x2-slow", Weight: 2, What: "two dispatching goroutines with two events each, one slow subscriber", Cfg: cfg, MaxBound: 2, Body: burst(2, 2, true)},
		{Name: "join-and-leave", Weight: 2, What: "an event is dispatched while one subscriber joins and another leaves: those that stay get it exactly once", Cfg: cfg, Body: func() {
			bus := eventbus.New()
			a, b := busx.New(bus, "stays").Run(), busx.New(bus, "leaves", "t").Run()
			t := busx.New(bus, "topic", "t").Run()
			var j lib.Join
			var n *busx.Sub
			j.Go("dispatch", func() { bus.Dispatch(busx.Event("e"), "t") })
			j.Go("leave", func() { bus.Unsubscribe(b.C, nil) })
			j.Go("join", func() {
				n = busx.New(bus, "joins", "t").Run()
				bus.Dispatch(busx.Event("f"), "t")
			})
			j.Wait()
			mc.Settle()
			a.Want("", "e", "f")
			t.Want("", "e", "f")
			b.AtMost("", "e", "f")
			n.AtMost("", "e", "f")
			if n.Got["f"] != 1 {
				mc.Fail("delivery", "an event dispatched after the subscription was not delivered")
			}
			busx.Finish(bus, a, b, t, n)
			mc.Outcome(a.Show() + b.Show() + n.Show())
		}},
		{Name: "wide", MaxBound: 1, What: "four to ten subscribers on one topic or all", Cfg: cfg, Body: func() {
			bus := eventbus.New()
			n := 4 + 2*mc.Choose(4, "subscribers")
			var subs []*busx.Sub
			for i := 0; i < n; i++ {
				t := topics{"t", "u"}
				if i%3 == 1 {
					t = nil
				}
				subs = append(subs, busx.New(bus, fmt.Sprint("s", i), t...).Run())
			}
			bus.Dispatch(busx.Event("e"), "u", "t")
			bus.Dispatch(busx.Event("f"), "t")
			mc.Settle()
			for _, s := range subs {
				s.Want("", "e", "f")
			}
			busx.Finish(bus, subs...)
		}},
		{Name: "shared-topics", What: "two goroutines dispatch with the same slice of topics", Cfg: cfg, Body: func() {
			bus := eventbus.New()
			a, b, d := busx.New(bus, "a", "t").Run(), busx.New(bus, "b", "u").Run(), busx.New(bus, "d").Run()
			ts := append(make(topics, 0, 4), "t")
			us := append(ts, "u")
			var j lib.Join
			j.Go("e", func() { bus.Dispatch(busx.Event("e"), ts...) })
			j.Go("f", func() { bus.Dispatch(busx.Event("f"), ts...) })
			j.Wait()
			bus.Dispatch(busx.Event("g"), us...)
			mc.Settle()
			a.Want("", "e", "f", "g")
			b.Want("", "g")
			d.Want("", "e", "f", "g")
			busx.Finish(bus, a, b, d)
		}},
		{Name: "shutdown-pending", What: "shutdown right after a dispatch: nothing is delivered twice or to others", Cfg: cfg, Body: func() {
			bus := eventbus.New()
			a, b := busx.New(bus, "a", "a").Run(), busx.New(bus, "b", "b").Run()
			bus.Dispatch(busx.Event("e"), "a")
			bus.Dispatch(busx.Event("f"), "a")
			busx.Finish(bus, a, b)
			a.AtMost("", "e", "f")
			b.AtMost("")
			mc.Outcome(a.Show())
		}},
		{Name: "slow", What: "one or two subscribers that take an event every 1 ms up to every 400 days, 2 to 20 events at different distances, next to a prompt one", Seq: busx.Slow},
		{Name: "histories", Weight: 2, What: "all histories of 4 (5) operations: subscribing to all, one, two topics, one twice; dispatching to all, one, two, none; leaving; resting", Seq: func(c *lib.Cases) {
			busx.Histories(c, "", []busx.Op{busx.SubAll, busx.SubA, busx.SubAB, busx.SubBB, busx.SendAll, busx.SendA, busx.SendBA, busx.SendAA, busx.SendNone, busx.LeaveFirst, busx.Rest}, c.Depth(4, 5))
		}},
		{Name: "lists", What: "subscriptions to and events for lists of up to 257 topics, and combinations of topics that are easily confused", Seq: lists},
		{Name: "volume", What: "many subscribers and many events", Seq: volume},
	})
}
