//go:build go1.22

// Package busx has subscribers for the event bus harnesses.
package busx

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/eventbus"
)

// Sub is a subscriber.
type Sub struct {
	Name   string
	C      chan eventbus.Event
	Done   eventbus.ShutdownFunc
	Got    map[string]int
	Order  []string
	Closed int  // how often the end of the channel was seen
	Called bool // the shutdown function was called
	After  func(s *Sub)
	On     func(s *Sub, e eventbus.Event)
	Ended  bool
}

// New subscribes.
func New(bus *eventbus.EventBus, name string, topics ...eventbus.Topic) *Sub {
	s := &Sub{Name: name, Got: map[string]int{}}
	s.C, s.Done = bus.Subscribe(topics...)
	return s
}

// Run receives until the channel is closed and then confirms.
func (s *Sub) Run() *Sub {
	mc.GoNamed(s.Name, s.Loop)
	return s
}

// Loop receives until the channel is closed.
func (s *Sub) Loop() {
	for {
		e, ok := mc.Recv2(s.C)
		if !ok {
			s.Closed++
			break
		}
		s.Got[Key(e)]++
		s.Order = append(s.Order, Key(e))
		if s.On != nil {
			s.On(s, e)
		}
	}
	if s.After != nil {
		s.After(s)
	} else {
		s.Confirm()
	}
	s.Ended = true
}

// Confirm calls the shutdown function.
func (s *Sub) Confirm() {
	s.Called = true // before: shutdown may return in between
	s.Done()
}

// Event makes an event with a payload.
func Event(name string) eventbus.Event {
	e, err := eventbus.NewEvent(eventbus.EventType(name), "payload of "+name)
	if err != nil {
		mc.Fail("event", "NewEvent: %v", err)
	}
	return e
}

// Key identifies an event including its payload.
func Key(e eventbus.Event) string {
	var p string
	if err := e.Decode(&p); err != nil || p != "payload of "+string(e.Type()) {
		mc.Fail("modified", "event %s arrived with payload %q (%v)", e.Type(), p, err)
	}
	return string(e.Type())
}

// Want fails unless the subscriber got exactly these events, once each.
func (s *Sub) Want(when string, names ...string) {
	want := map[string]int{}
	for _, n := range names {
		want[n]++
	}
	if show(want) != show(s.Got) {
		mc.Fail("delivery", "%s: subscriber %s received {%s}, want {%s}", when, s.Name, show(s.Got), show(want))
	}
}

// AtMost fails if the subscriber got anything else, or something twice.
func (s *Sub) AtMost(when string, names ...string) {
	for k, n := range s.Got {
		ok := false
		for _, x := range names {
			ok = ok || x == k
		}
		if !ok || n > 1 {
			mc.Fail("delivery", "%s: subscriber %s received %s %d times", when, s.Name, k, n)
		}
	}
}

func show(m map[string]int) string {
	var o []string
	for k, n := range m {
		o = append(o, fmt.Sprintf("%s:%d", k, n))
	}
	sort.Strings(o)
	return strings.Join(o, " ")
}

// Show describes what was received.
func (s *Sub) Show() string { return s.Name + "{" + show(s.Got) + "}" }

// Shutdown shuts the bus down with a time limit.
func Shutdown(bus *eventbus.EventBus, limit time.Duration) error {
	ctx, cancel := mc.WithTimeout(context.Background(), limit)
	defer cancel()
	start := mc.Elapsed()
	err := bus.Shutdown(ctx)
	if d := mc.Elapsed() - start; d > limit {
		mc.Fail("shutdown", "shutdown took %v with a limit of %v", d, limit)
	}
	return err
}

// Finish shuts the bus down and checks that all confirmed and nothing is left.
func Finish(bus *eventbus.EventBus, subs ...*Sub) {
	if err := Shutdown(bus, time.Second); err != nil {
		mc.Fail("shutdown", "shutdown with cooperating subscribers: %v", err)
	}
	for _, s := range subs {
		if !s.Called {
			mc.Fail("shutdown", "shutdown returned before %s confirmed", s.Name)
		}
	}
	mc.Settle()
	for _, s := range subs {
		if s.Closed != 1 {
			mc.Fail("shutdown", "the channel of %s was not closed", s.Name)
		}
	}
	if l := mc.Live(); len(l) > 0 {
		mc.Fail("leak", "still running after shutdown: %v", l)
	}
}
