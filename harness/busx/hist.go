//go:build go1.22

package busx

import (
	"fmt"
	"strings"
	"time"

	"github.com/BTBurke/monny/mc/rt"
	"github.com/BTBurke/monny/pkg/eventbus"
	"github.com/BTBurke/monny/vh/lib"
)

// Op is an operation of a history.
type Op int

// The operations.
const (
	SubAll Op = iota
	SubA
	SubAB
	SubBB
	SubStalled // subscribes to a and b, never receives
	SubStops   // subscribes to everything, stops after an event
	SendAll
	SendA
	SendBA
	SendAA
	SendNone
	LeaveFirst
	LeaveLast
	LeaveAgain // a subscriber that left is removed again
	Confirm    // the last subscriber confirms early
	CloseLast  // the last subscriber closes its channel itself
	Rest       // everything that can happen happens
	Down       // shutdown, with a time limit
)

var opNames = []string{"subscribe to all", "subscribe to a", "subscribe to a, b", "subscribe to b, b", "subscribe and never receive", "subscribe and stop", "dispatch", "dispatch to a", "dispatch to b, a", "dispatch to a, a", "dispatch to none",
	"the first leaves", "the last leaves", "leave again", "the last confirms", "the last closes its channel", "rest", "shutdown"}

var subTopics = [][]eventbus.Topic{{}, {"a"}, {"a", "b"}, {"b", "b"}, {"a", "b"}, {}}
var evTopics = [][]eventbus.Topic{{}, {"a"}, {"b", "a"}, {"a", "a"}, {"none"}}

// member is a subscriber with what the specification says about it.
type member struct {
	*Sub
	topics []eventbus.Topic
	kind   Op
	must   []string // has to have
	may    []string // has or not
	recent []string // since the last rest
	left   bool
	broke  bool // closed its channel itself
	late   bool // joined after shutdown had begun
}

func addressed(sub, ev []eventbus.Topic) bool {
	if len(sub) == 0 {
		return true
	}
	for _, x := range sub {
		for _, y := range ev {
			if x == y {
				return true
			}
		}
	}
	return false
}

// World is a bus with its history.
type World struct {
	Bus   *eventbus.EventBus
	subs  []*member
	hist  []string
	n     int
	down  bool
	downs int
	err   error
	old   map[string]bool // goroutines of earlier cases
}

// NewWorld is an empty bus.
func NewWorld() *World {
	w := &World{Bus: eventbus.New(), old: map[string]bool{}}
	for _, n := range mc.Live() {
		w.old[strings.SplitN(n, "(", 2)[0]] = true
	}
	return w
}

func (w *World) desc() string { return strings.Join(w.hist, "; ") }

func (w *World) rest() {
	mc.Sleep(time.Millisecond)
	for _, m := range w.subs {
		m.must = append(m.must, m.recent...)
		m.recent = nil
	}
}

func (w *World) live() (out []*member) {
	for _, m := range w.subs {
		if !m.left {
			out = append(out, m)
		}
	}
	return
}

func (w *World) leave(m *member) {
	m.left = true
	m.may = append(m.may, m.recent...)
	m.recent = nil
	w.Bus.Unsubscribe(m.C, nil)
}

// Do performs an operation. It is false if there is nothing to do it with.
func (w *World) Do(op Op) bool {
	l := w.live()
	switch {
	case op <= SubStops:
		m := &member{topics: subTopics[op], kind: op, late: w.down}
		m.Sub = New(w.Bus, fmt.Sprintf("s%d%v", len(w.subs), m.topics), append([]eventbus.Topic(nil), m.topics...)...)
		w.subs = append(w.subs, m)
		switch op {
		case SubStalled:
		case SubStops:
			mc.GoNamed(m.Name, func() {
				e, ok := mc.Recv2(m.C)
				if !ok {
					m.Closed++
					m.Confirm()
					return
				}
				m.Got[Key(e)]++
			})
		default:
			m.Run()
		}
	case op <= SendNone:
		name := fmt.Sprintf("e%d", w.n)
		w.n++
		ts := evTopics[op-SendAll]
		w.Bus.Dispatch(Event(name), append([]eventbus.Topic(nil), ts...)...)
		for _, m := range l {
			if addressed(m.topics, ts) && !w.down && !m.broke {
				m.recent = append(m.recent, name)
			}
		}
	case op == LeaveFirst:
		if len(l) == 0 {
			return false
		}
		w.leave(l[0])
	case op == LeaveLast:
		if len(l) < 2 {
			return false
		}
		w.leave(l[len(l)-1])
	case op == LeaveAgain:
		for _, m := range w.subs {
			if m.left {
				w.Bus.Unsubscribe(m.C, nil)
				w.hist = append(w.hist, opNames[op])
				return true
			}
		}
		return false
	case op == Confirm:
		if len(l) == 0 {
			return false
		}
		l[len(l)-1].Confirm()
	case op == CloseLast:
		if len(l) == 0 || l[len(l)-1].broke || w.down {
			return false
		}
		m := l[len(l)-1]
		m.broke = true
		m.may = append(m.may, m.recent...)
		m.recent = nil
		mc.Close(m.C)
	case op == Rest:
		w.rest()
	case op == Down:
		if w.downs > 1 {
			return false
		}
		w.hist = append(w.hist, opNames[op])
		w.shutdown()
		return true
	}
	w.hist = append(w.hist, opNames[op])
	return true
}

func (w *World) shutdown() {
	w.down = true
	w.downs++
	start := mc.Elapsed()
	w.err = Shutdown(w.Bus, time.Second)
	took := mc.Elapsed() - start
	w.rest2()
	ok, open := true, false
	for _, m := range w.subs {
		is := m.Called || m.kind != SubStalled && m.kind != SubStops
		if m.late {
			open = open || !is // it may count as one that has to confirm, or not
		} else {
			ok = ok && is
		}
	}
	switch {
	case ok && open:
		if w.err != nil && (w.err != eventbus.ErrShutdownTimeout || took != time.Second) || w.err == nil && took != 0 {
			mc.Fail("shutdown", "%s: returned %v after %v", w.desc(), w.err, took)
		}
	case ok && (w.err != nil || took != 0):
		mc.Fail("shutdown", "%s: took %v and returned %v although all subscribers end at once", w.desc(), took, w.err)
	case !ok && w.err == nil:
		mc.Fail("shutdown", "%s: succeeded although a subscriber has not confirmed", w.desc())
	case !ok && (w.err != eventbus.ErrShutdownTimeout || took != time.Second):
		mc.Fail("shutdown", "%s: returned %v after %v", w.desc(), w.err, took)
	}
}

// rest2 is a rest after which what was on its way may have been dropped.
func (w *World) rest2() {
	for _, m := range w.subs {
		m.may = append(m.may, m.recent...)
		m.recent = nil
	}
	mc.Sleep(time.Millisecond)
}

// End checks what everybody received, shuts the bus down and checks again.
func (w *World) End() {
	if !w.down {
		w.rest()
		w.deliveries(false)
		w.Do(Down)
	} else {
		w.rest2()
	}
	w.deliveries(true)
}

func (w *World) deliveries(over bool) {
	for _, m := range w.subs {
		must := m.must
		if m.kind == SubStops || m.kind == SubStalled {
			must = nil
		}
		for _, e := range must {
			if m.Got[e] != 1 {
				mc.Fail("delivery", "%s: subscriber %s received %s %d times", w.desc(), m.Name, e, m.Got[e])
			}
		}
		allowed := append(append(append([]string(nil), m.must...), m.may...), m.recent...)
		m.AtMost(w.desc(), allowed...)
		if m.kind == SubStops && len(m.must) > 0 && len(m.Got) != 1 {
			mc.Fail("delivery", "%s: subscriber %s received %d events before it stopped", w.desc(), m.Name, len(m.Got))
		}
		if m.kind == SubStalled || m.kind == SubStops {
			if over || m.left || m.broke {
				// the channel is closed, possibly behind an event
				n := 0
				for {
					e, ok := mc.Recv2(m.C)
					if !ok {
						break
					}
					if n++; n > cap(m.C)+1 {
						mc.Fail("delivery", "%s: subscriber %s gets more and more events after the end", w.desc(), m.Name)
					}
					m.Got[Key(e)]++
				}
				m.AtMost(w.desc(), allowed...)
			}
			continue
		}
		if want := lib.Bit(over || m.left || m.broke); m.Closed != want {
			mc.Fail("closed", "%s: the channel of subscriber %s was closed %d times, want %d", w.desc(), m.Name, m.Closed, want)
		}
	}
	if over && w.err == nil {
		for _, n := range mc.Live() {
			if !w.old[strings.SplitN(n, "(", 2)[0]] {
				mc.Fail("leak", "%s: still running: %v", w.desc(), n)
			}
		}
	}
}

// Histories enumerates histories of operations.
func Histories(c *lib.Cases, prefix string, ops []Op, depth int) {
	c.Seqs(prefix, len(ops), depth, func(seq []int) func() {
		return func() {
			w := NewWorld()
			for _, k := range seq {
				w.Do(ops[k])
			}
			w.End()
			c.State("%v", w.hist)
			mc.Freeze()
		}
	})
}
