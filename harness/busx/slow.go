//go:build go1.22

package busx

import (
	"fmt"
	"time"

	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/eventbus"
	"github.com/BTBurke/monny/vh/lib"
)

// Slow enumerates subscribers that take an event now and then, up to days
// apart, next to prompt ones: everybody receives everything, the prompt ones
// at once.
func Slow(c *lib.Cases) {
	for _, pause := range []time.Duration{time.Millisecond, time.Second, 11 * time.Second, 61 * time.Second, time.Hour, 25 * time.Hour, 400 * 24 * time.Hour} {
		for _, events := range []int{2, 3, 5, 20} {
			for slow := 1; slow < 3; slow++ {
				for _, apart := range []time.Duration{0, time.Millisecond, pause / 2, pause} {
					pause, events, slow, apart := pause, events, slow, apart
					c.Step(events)
					c.Add(fmt.Sprint(pause, events, slow, apart), func() {
						bus := eventbus.New()
						desc := fmt.Sprintf("%d subscribers that pause for %v after each of %d events sent %v apart", slow, pause, events, apart)
						var subs []*Sub
						for i := 0; i < slow; i++ {
							s := New(bus, fmt.Sprint("slow", i), []eventbus.Topic{"t", "u"}[:1+i]...)
							s.On = func(*Sub, eventbus.Event) { mc.Sleep(pause) }
							subs = append(subs, s.Run())
						}
						prompt := New(bus, "prompt").Run()
						var names []string
						for i := 0; i < events; i++ {
							n := fmt.Sprint("e", i)
							names = append(names, n)
							before := mc.Elapsed()
							bus.Dispatch(Event(n), "t", "u")
							if mc.Elapsed() != before {
								mc.Fail("blocked", "%s: dispatching waited for %v", desc, mc.Elapsed()-before)
							}
							mc.Settle()
							prompt.Want(desc, names...)
							if apart > 0 {
								mc.Sleep(apart)
							}
						}
						mc.Sleep(time.Duration(events+1) * pause)
						for _, s := range subs {
							s.Want(desc, names...)
						}
						Finish(bus, append(subs, prompt)...)
						c.State("%v %d %d %v", pause, events, slow, apart)
					})
				}
			}
		}
	}
}
