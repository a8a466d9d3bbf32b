From 10ead007dae7738830246c8431d4914534824986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:55 +0000
Subject: [PATCH 01/39] fix: a windowed counter without a duration never closes
 its window

Value() returned 0 as soon as time had passed, although Add keeps adding to
the same window when the duration is zero.
---
 pkg/metric/counter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/metric/counter.go b/pkg/metric/counter.go
index c9aa9f1..114f882 100644
--- a/pkg/metric/counter.go
+++ b/pkg/metric/counter.go
@@ -78,7 +78,7 @@ func (c *WindowedCounter) Value() int {
 
 	// check if the current window has closed, if so return 0
 	switch {
-	case now.After(end) && c.current.duration >= 0:
+	case now.After(end) && c.current.duration > 0:
 		return 0
 	default:
 		return c.current.Value()
-- 
2.43.0


From 4b3bd4003f19ddaebbb55389e4ef7cd9063bcec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:55 +0000
Subject: [PATCH 02/39] fix: histories of windowed counters do not share
 storage

History and HistoryInclusive appended the current counter to the backing array
of the history, which changed histories returned before and raced with other
readers.
---
 pkg/metric/counter.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/metric/counter.go b/pkg/metric/counter.go
index 114f882..d74b194 100644
--- a/pkg/metric/counter.go
+++ b/pkg/metric/counter.go
@@ -93,7 +93,7 @@ func (c *WindowedCounter) Add(i uint) {
 	case now.Before(end) || c.current.duration == 0:
 		c.current.Add(i)
 	default:
-		c.hist = newHistory(append(c.hist, *c.current), c.MaxHistory, c.MaxHistoryDuration)
+		c.hist = newHistory(c.closed(*c.current), c.MaxHistory, c.MaxHistoryDuration)
 		c.current = &Counter{start: time.Now().UTC(), duration: c.current.duration}
 		c.current.Add(i)
 	}
@@ -105,16 +105,23 @@ func (c *WindowedCounter) History() []Counter {
 	end := c.current.start.Add(c.current.duration)
 	switch {
 	case now.After(end) || c.current.duration == 0:
-		return newHistory(append(c.hist, *c.current), c.MaxHistory, c.MaxHistoryDuration)
+		return newHistory(c.closed(*c.current), c.MaxHistory, c.MaxHistoryDuration)
 	default:
-		return newHistory(c.hist, c.MaxHistory, c.MaxHistoryDuration)
+		return newHistory(c.closed(), c.MaxHistory, c.MaxHistoryDuration)
 	}
 }
 
 // HistoryInclusive will return the history of all counters, including the current value even if the window
 // is still open on the current counter
 func (c *WindowedCounter) HistoryInclusive() []Counter {
-	return newHistory(append(c.hist, *c.current), c.MaxHistory, c.MaxHistoryDuration)
+	return newHistory(c.closed(*c.current), c.MaxHistory, c.MaxHistoryDuration)
+}
+
+// closed returns a copy of the closed windows followed by the given counters, so that nothing handed out
+// or read concurrently shares its storage with the history
+func (c *WindowedCounter) closed(more ...Counter) []Counter {
+	hist := make([]Counter, 0, len(c.hist)+len(more))
+	return append(append(hist, c.hist...), more...)
 }
 
 // filters the history based on both MaxHistoryDuration and MaxHistory
-- 
2.43.0


From bd44d3292fa1f7015c7143a84eb0fa0538f59382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:55 +0000
Subject: [PATCH 03/39] fix: the empty WindowedCounter struct works as
 documented

It is documented to act as a counter without windowing but every method
dereferenced a nil counter.
---
 pkg/metric/counter.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/metric/counter.go b/pkg/metric/counter.go
index d74b194..a1db9d5 100644
--- a/pkg/metric/counter.go
+++ b/pkg/metric/counter.go
@@ -71,8 +71,16 @@ type WindowedCounter struct {
 	MaxHistoryDuration time.Duration
 }
 
+// init makes the empty struct usable as a counter without windows
+func (c *WindowedCounter) init() {
+	if c.current == nil {
+		c.current = &Counter{start: time.Now().UTC()}
+	}
+}
+
 // Value returns the current value of the counter in the most recent window
 func (c *WindowedCounter) Value() int {
+	c.init()
 	now := time.Now().UTC()
 	end := c.current.start.Add(c.current.duration)
 
@@ -87,6 +95,7 @@ func (c *WindowedCounter) Value() int {
 
 // Add will increment the current counter value within the window by i
 func (c *WindowedCounter) Add(i uint) {
+	c.init()
 	now := time.Now().UTC()
 	end := c.current.start.Add(c.current.duration)
 	switch {
@@ -101,6 +110,7 @@ func (c *WindowedCounter) Add(i uint) {
 
 // History will return the history of counters not including the current value if the window is still open
 func (c *WindowedCounter) History() []Counter {
+	c.init()
 	now := time.Now().UTC()
 	end := c.current.start.Add(c.current.duration)
 	switch {
@@ -114,6 +124,7 @@ func (c *WindowedCounter) History() []Counter {
 // HistoryInclusive will return the history of all counters, including the current value even if the window
 // is still open on the current counter
 func (c *WindowedCounter) HistoryInclusive() []Counter {
+	c.init()
 	return newHistory(c.closed(*c.current), c.MaxHistory, c.MaxHistoryDuration)
 }
 
@@ -146,6 +157,7 @@ func newHistory(hist []Counter, max int, maxduration time.Duration) []Counter {
 
 // Reset will clear the current counters history and start a new zero-valued counter with the same window duration
 func (c *WindowedCounter) Reset() {
+	c.init()
 	c.hist = []Counter{}
 	c.current = &Counter{start: time.Now().UTC(), duration: c.current.duration}
 }
-- 
2.43.0


From f6298788c9822832e7473781e1054cd41c79658b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:34 +0000
Subject: [PATCH 04/39] fix: stopping a sampled series more than once does not
 block forever

---
 pkg/metric/sampled.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/metric/sampled.go b/pkg/metric/sampled.go
index 14c03ae..56a3c95 100644
--- a/pkg/metric/sampled.go
+++ b/pkg/metric/sampled.go
@@ -54,7 +54,8 @@ func NewSampledSeries(capacity int, sampleWindow time.Duration, transform func([
 				}
 			}
 		}(ss)
-		return ss, func() { ss.done <- true; ss.wg.Wait() }, nil
+		var once sync.Once
+		return ss, func() { once.Do(func() { close(ss.done) }); ss.wg.Wait() }, nil
 	} else {
 		// if duration is zero, use direct mode where observations are immediately written to the underlying
 		// series storage.  The transform in this case is a no op.
-- 
2.43.0


From 581a7b88e6e52bba2fe2ab93431d3a062432f10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:03 +0000
Subject: [PATCH 05/39] fix: names created without metadata accept metadata and
 annotations

Adding to such a name panicked, and a copy of it had a different text form
(name[]) although it carries the same (empty) metadata.
---
 pkg/metric/name.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/metric/name.go b/pkg/metric/name.go
index 1fbb006..bd51047 100644
--- a/pkg/metric/name.go
+++ b/pkg/metric/name.go
@@ -31,6 +31,10 @@ func (n Name) String() string {
 
 // NewName returns a new name with the associated metadata
 func NewName(name string, md map[string]string) Name {
+	if md == nil {
+		// metadata and annotations can be added later
+		md = make(map[string]string)
+	}
 	return Name{name: name, md: md}
 }
 
@@ -52,7 +56,7 @@ func (n Name) AddMetadata(md map[string]string) {
 // then is followed by (key, value) pairs k=v in sorted key order, the finally by annotations starting with @ in
 // sorted order.  Close with a ].  Example: [host=pod1 loc=us-west-1 @mean @summary]
 func MarshalText(m metadata) ([]byte, error) {
-	if m == nil {
+	if len(m) == 0 {
 		return []byte{}, nil
 	}
 	keys := make([]string, 0, len(m))
-- 
2.43.0


From 721e30fdadcc370b6a4a76b9ee4adb0b1f61a3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:23 +0000
Subject: [PATCH 06/39] fix: event bus delivers once and neither panics nor
 deadlocks when subscribers leave, stall or shut down

A subscriber of several of the dispatched topics received an event several
times, a topic given twice made Unsubscribe and Shutdown close its channel
twice, Unsubscribe closed channels that events were still being sent to, and a
subscriber that stopped receiving blocked Subscribe, Unsubscribe and Shutdown,
which in turn blocked every dispatch while it waited for the subscribers.
---
 pkg/eventbus/bus.go | 116 ++++++++++++++++++++++++++++----------------
 1 file changed, 73 insertions(+), 43 deletions(-)

diff --git a/pkg/eventbus/bus.go b/pkg/eventbus/bus.go
index 3f0ac1a..aa135de 100644
--- a/pkg/eventbus/bus.go
+++ b/pkg/eventbus/bus.go
@@ -24,16 +24,36 @@ const (
 // filter which events they respond to rather than configuring multiple topics.
 type EventBus struct {
 	subscribers map[Topic][]chan Event
+	senders     map[chan Event]*senders
 	done        []chan struct{}
 	mutex       sync.RWMutex
 	sdStarted   bool
 }
 
+// senders tracks the events that are still being sent to one subscriber, so that its channel is only closed when
+// nothing is sent to it any more
+type senders struct {
+	stop chan struct{}
+	wg   sync.WaitGroup
+}
+
+// send delivers the event unless the subscriber leaves or the event bus shuts down before it receives it
+func (s *senders) send(evt Event, c chan Event) {
+	defer s.wg.Done()
+	// the channel may have been closed improperly by the subscriber
+	defer func() { recover() }()
+	select {
+	case <-s.stop:
+	case c <- evt:
+	}
+}
+
 // New returns a new event bus.  A default topic is created, but subscribers may create other topics
 // when they register.
 func New() *EventBus {
 	return &EventBus{
 		subscribers: make(map[Topic][]chan Event),
+		senders:     make(map[chan Event]*senders),
 	}
 }
 
@@ -71,7 +91,14 @@ func (e *EventBus) subscribe(topics ...Topic) (chan Event, chan struct{}) {
 
 	c := make(chan Event, 1)
 	done := make(chan struct{})
+
+	// a subscriber that joins too late for the shutdown signal gets it right away
+	if e.sdStarted {
+		close(c)
+		return c, done
+	}
 	e.done = append(e.done, done)
+	e.senders[c] = &senders{stop: make(chan struct{})}
 
 	// subscribe to the default topic if no topics defined
 	if len(topics) == 0 {
@@ -96,24 +123,41 @@ func (e *EventBus) Unsubscribe(c chan Event, done chan struct{}) {
 	defer e.mutex.Unlock()
 
 	for topic, chs := range e.subscribers {
-		for i, ch := range chs {
-			if ch == c {
-				close(ch)
-				recover()
-				e.subscribers[topic] = append(e.subscribers[topic][0:i], e.subscribers[topic][i+1:]...)
+		// the same topic may have been given more than once
+		remaining := []chan Event{}
+		for _, ch := range chs {
+			if ch != c {
+				remaining = append(remaining, ch)
 			}
 		}
+		e.subscribers[topic] = remaining
 	}
+	e.closeChannel(c)
 
 	for i, d := range e.done {
 		if d == done {
 			close(d)
-			recover()
 			e.done = append(e.done[0:i], e.done[i+1:]...)
+			break
 		}
 	}
 }
 
+// closeChannel abandons the events that the subscriber did not receive yet and closes its channel, once. It must be
+// called with the mutex locked.
+func (e *EventBus) closeChannel(c chan Event) {
+	s, ok := e.senders[c]
+	if !ok {
+		return
+	}
+	delete(e.senders, c)
+	close(s.stop)
+	s.wg.Wait()
+	// the channel may have been closed improperly by the subscriber
+	defer func() { recover() }()
+	close(c)
+}
+
 // Dispatch will send the event to 0 or more topics.  All events are broadcast to default topic subscribers, even when
 // other topics may be specified.
 func (e *EventBus) Dispatch(event Event, topics ...Topic) {
@@ -126,39 +170,27 @@ func (e *EventBus) Dispatch(event Event, topics ...Topic) {
 	}
 
 	// always send to the defaultTopic even if other topics specified
-	topics = append(topics, defaultTopic)
+	topics = append([]Topic{defaultTopic}, topics...)
 
+	// a subscriber receives the event once, even when it subscribed to several of the topics
+	seen := make(map[chan Event]bool)
 	for _, topic := range topics {
 		// it no subscribers on the topic, silently drop message.  This is probably the behavior we want since
 		// it should be ok to emit events on specialized channels where there may not be subscribers in some cases
-		channels, ok := e.subscribers[topic]
-		if len(channels) == 0 || !ok {
-			continue
-		}
-
-		// make a copy of the channels to preserve locking
-		chs := append([]chan Event{}, channels...)
-
-		go func(event Event, chs []chan Event) {
-			for _, ch := range chs {
-				// run in go func so that if channel is closed by subscriber improperly or
-				// blocks because channel buffer is full it won't prevent other subscribers
-				// from receiving the event
-
-				// this will pessimistically lock the send channel in case the event bus is behind in sending
-				// events and shutdown has started.  Events will be silently dropped if shutdown is called and there
-				// are still pending events because subscribers are blocking.
-				go func(evt Event, c chan Event) {
-					e.mutex.RLock()
-					defer e.mutex.RUnlock()
-					if e.sdStarted {
-						return
-					}
-					defer recover()
-					c <- evt
-				}(event, ch)
+		for _, ch := range e.subscribers[topic] {
+			s, ok := e.senders[ch]
+			if !ok || seen[ch] {
+				continue
 			}
-		}(event, chs)
+			seen[ch] = true
+
+			// run in go func so that if channel is closed by subscriber improperly or
+			// blocks because channel buffer is full it won't prevent other subscribers
+			// from receiving the event. Events will be silently dropped if shutdown is called and there
+			// are still pending events because subscribers are blocking.
+			s.wg.Add(1)
+			go s.send(event, ch)
+		}
 	}
 }
 
@@ -167,23 +199,21 @@ func (e *EventBus) Dispatch(event Event, topics ...Topic) {
 // a reasonable time.  Shutdown returns an error if it reaches context timeout or cancel to distinguish from a completely
 // successful shutdown.
 func (e *EventBus) Shutdown(ctx context.Context) error {
+	done := make(chan struct{})
+
+	// subscribers may still dispatch, subscribe or unsubscribe while they shut down, so do not wait for them with the
+	// mutex locked
 	e.mutex.Lock()
-	defer e.mutex.Unlock()
 	e.sdStarted = true
-
-	done := make(chan struct{})
 	go shutdownNotify(done, append([]chan struct{}{}, e.done...))
 
+	// close all subscriber channels to signal shutdown
 	for _, chs := range e.subscribers {
 		for _, ch := range chs {
-			// close all subscriber channels to signal shutdown, recover above in case
-			// one of the channels is closed improperly by subscriber which would cause a panic
-			close(ch)
-			if r := recover(); r != nil {
-				continue
-			}
+			e.closeChannel(ch)
 		}
 	}
+	e.mutex.Unlock()
 
 	select {
 	case <-ctx.Done():
-- 
2.43.0


From 2cb9481a9c3945f3a6f6fedc8c7dd23d7b6b9668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:27 +0000
Subject: [PATCH 07/39] fix: events can be created from any error and
 unsupported payloads are refused without a panic

Error events could not be encoded (errors have no exported fields), nil
pointers and types that gob knows under another name made NewEvent panic.
---
 pkg/eventbus/event.go | 45 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/pkg/eventbus/event.go b/pkg/eventbus/event.go
index 0675460..5d7b6bb 100644
--- a/pkg/eventbus/event.go
+++ b/pkg/eventbus/event.go
@@ -3,6 +3,7 @@ package eventbus
 import (
 	"bytes"
 	"encoding/gob"
+	"errors"
 	"fmt"
 	"log"
 )
@@ -21,6 +22,9 @@ type EventType string
 type Event struct {
 	t EventType
 	d []byte
+
+	// isError marks the events of NewErrorEvent, which carry the text of an error
+	isError bool
 }
 
 // String satisfies the stringer interface
@@ -29,7 +33,18 @@ func (e Event) String() string {
 }
 
 func (e Event) Type() EventType { return e.t }
+
+// Decode stores the data of the event in the receiver. The error of an event that was created with NewErrorEvent can be
+// decoded into a receiver of type *error, the original type of the error is not preserved.
 func (e Event) Decode(receiver interface{}) error {
+	if r, ok := receiver.(*error); ok && r != nil && e.isError {
+		var text string
+		if err := e.Decode(&text); err != nil {
+			return err
+		}
+		*r = errors.New(text)
+		return nil
+	}
 	dec := gob.NewDecoder(bytes.NewReader(e.d))
 	if err := dec.Decode(receiver); err != nil {
 		return fmt.Errorf("failed to decode event %s: %v", e.t, err)
@@ -37,10 +52,18 @@ func (e Event) Decode(receiver interface{}) error {
 	return nil
 }
 
-func NewEvent(t EventType, data interface{}) (Event, error) {
+// NewEvent creates an event with the data as its payload. An error is returned if the data cannot be encoded.
+func NewEvent(t EventType, data interface{}) (evt Event, err error) {
+	// gob panics on some payloads, like nil pointers
+	defer func() {
+		if r := recover(); r != nil {
+			evt, err = Event{}, fmt.Errorf("failed to create event %s: %v", t, r)
+		}
+	}()
+
 	var b bytes.Buffer
 	if data != nil {
-		gob.Register(data)
+		register(data)
 		enc := gob.NewEncoder(&b)
 		if err := enc.Encode(data); err != nil {
 			return Event{}, fmt.Errorf("failed to create event %s: %v", t, err)
@@ -51,6 +74,22 @@ func NewEvent(t EventType, data interface{}) (Event, error) {
 	return Event{t: t, d: b.Bytes()}, nil
 }
 
+// register makes the type known to gob. It is not required to send the data itself and gob panics if it already knows a
+// pointer to the type or another type of that name, so this is ignored.
+func register(data interface{}) {
+	defer func() { recover() }()
+	gob.Register(data)
+}
+
+// NewErrorEvent creates an event that carries the text of the error
 func NewErrorEvent(t EventType, err error) (Event, error) {
-	return NewEvent(t, err)
+	if err == nil {
+		return NewEvent(t, nil)
+	}
+	evt, e := NewEvent(t, err.Error())
+	if e != nil {
+		return Event{}, e
+	}
+	evt.isError = true
+	return evt, nil
 }
-- 
2.43.0


From ece7bc06ceb2b257ea3e9f99a5d230f097f75d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:47 +0000
Subject: [PATCH 08/39] fix: a log queue of capacity 0 or 1 does not panic when
 it is full

---
 pkg/monny/proc/queue.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/monny/proc/queue.go b/pkg/monny/proc/queue.go
index bd6dcf9..aa4826c 100644
--- a/pkg/monny/proc/queue.go
+++ b/pkg/monny/proc/queue.go
@@ -25,8 +25,9 @@ func (q *Queue) add(s string) {
 }
 
 func (q *Queue) pop() string {
+	s := q.q[0]
 	q.q = q.q[1:]
-	return q.q[0]
+	return s
 }
 
 // Add puts the string in the queue, popping the head if the queue is already filled to capacity
@@ -37,6 +38,8 @@ func (q *Queue) Add(s string) {
 	switch {
 	case len(q.q) < q.capacity:
 		q.add(s)
+	case len(q.q) == 0:
+		// without capacity nothing is kept
 	default:
 		_ = q.pop()
 		q.add(s)
-- 
2.43.0


From 8a10ee528ef28a06b17b0475e3c5b31582abb25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:47 +0000
Subject: [PATCH 09/39] fix: a ticker ends when the event bus shuts down

---
 pkg/monny/proc/ticker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/monny/proc/ticker.go b/pkg/monny/proc/ticker.go
index 2e74597..183314d 100644
--- a/pkg/monny/proc/ticker.go
+++ b/pkg/monny/proc/ticker.go
@@ -22,6 +22,7 @@ func NewTicker(d time.Duration, e *eventbus.EventBus, evt eventbus.EventType) {
 				if !open {
 					t.Stop()
 					finished()
+					return
 				}
 
 			case <-t.C:
-- 
2.43.0


From ca904faea022a8a628f9a87627b67d952b9bbd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:47 +0000
Subject: [PATCH 10/39] fix: the log processor handles lines of any length

---
 pkg/monny/proc/logs.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/monny/proc/logs.go b/pkg/monny/proc/logs.go
index b971844..3eae55c 100644
--- a/pkg/monny/proc/logs.go
+++ b/pkg/monny/proc/logs.go
@@ -73,6 +73,8 @@ func startLogEmitter(bus eventbus.EventDispatcher, src source, sinks []sink, don
 		defer done()
 	}
 	scanner := bufio.NewScanner(src.in)
+	// lines may have any length
+	scanner.Buffer(nil, int(^uint(0)>>1))
 	for scanner.Scan() {
 		data := scanner.Bytes()
 		src.q.Add(string(data))
-- 
2.43.0


From 48568854c7252334f134e782a2cb23a178a34f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:14 +0000
Subject: [PATCH 11/39] fix: the first observation after a reset starts the
 bootstrap instead of being tested against the old limit

---
 pkg/stat/estimator.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/pkg/stat/estimator.go b/pkg/stat/estimator.go
index a9cce8d..8b41483 100644
--- a/pkg/stat/estimator.go
+++ b/pkg/stat/estimator.go
@@ -40,21 +40,18 @@ func (e *TestStatistic) Record(o float64) error {
 		return fmt.Errorf("transform(value) is not defined")
 	}
 
-	e.series.Record(o)
-	switch e.fsm.State() {
-	case Reset:
+	if e.fsm.State() == Reset {
 		// reset assumes that estimator should be restarted from steady state non-alarmed condition
 		// and next transition should be to testing the UCL
 		if err := e.fsm.Transition(UCLInitial); err != nil {
 			return err
 		}
 		// if forced into reset with existing observations, start series recording over again
-		if e.series.Count() > 0 {
-			e.series.Reset()
-			// re-record the current observation after reseting the series
-			e.series.Record(o)
-		}
-		fallthrough
+		e.series.Reset()
+	}
+
+	e.series.Record(o)
+	switch e.fsm.State() {
 	case TestingUCL:
 		e.calculateCurrent(o)
 		if e.current >= e.limit {
-- 
2.43.0


From e8016a55519f92e6b6b9603ecc5d5ee1df589160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:14 +0000
Subject: [PATCH 12/39] fix: a refused transition of a statistic does not
 discard its observations

---
 pkg/stat/estimator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/stat/estimator.go b/pkg/stat/estimator.go
index 8b41483..510357a 100644
--- a/pkg/stat/estimator.go
+++ b/pkg/stat/estimator.go
@@ -120,10 +120,13 @@ func (e *TestStatistic) calculateCurrent(o float64) {
 // Transition will attempt to transition to estimator to the desired state.  Optionally reset the series to
 // force it to collect new baseline observations before entering testing phase
 func (e *TestStatistic) Transition(state fsm.State, resetSeries bool) error {
+	if err := e.fsm.Transition(state); err != nil {
+		return err
+	}
 	if resetSeries {
 		e.series.Reset()
 	}
-	return e.fsm.Transition(state)
+	return nil
 }
 
 // calculateLimit will determine the UCL or LCL limit (UCL => direction +1, LCL => direction -1)
-- 
2.43.0


From 1cc5cb6b8c693626ec9a4788a5aa58b0a3c518f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:14 +0000
Subject: [PATCH 13/39] fix: an error of one statistic of a test does not keep
 the others from the observation or transition

---
 pkg/stat/stattest.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pkg/stat/stattest.go b/pkg/stat/stattest.go
index f2a27e9..75835d5 100644
--- a/pkg/stat/stattest.go
+++ b/pkg/stat/stattest.go
@@ -21,22 +21,26 @@ func (t *Test) Name() string {
 	return t.name.String()
 }
 
+// Record records the observation with every statistic.  The first error is returned.
 func (t *Test) Record(obs float64) error {
+	var first error
 	for _, s := range t.sub {
-		if err := s.Record(obs); err != nil {
-			return err
+		if err := s.Record(obs); err != nil && first == nil {
+			first = err
 		}
 	}
-	return nil
+	return first
 }
 
+// Transition attempts the transition of every statistic.  The first error is returned.
 func (t *Test) Transition(state fsm.State, reset bool) error {
+	var first error
 	for _, s := range t.sub {
-		if err := s.Transition(state, reset); err != nil {
-			return err
+		if err := s.Transition(state, reset); err != nil && first == nil {
+			first = err
 		}
 	}
-	return nil
+	return first
 }
 
 func (t *Test) HasAlarmed() bool {
-- 
2.43.0


From 0f6380db3275c3726e24275bb7ca853d5d55ae58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:41 +0000
Subject: [PATCH 14/39] fix: output lines of any length are monitored and
 passed through

---
 pkg/monny/command.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 35c649a..d23a1cf 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -123,6 +123,9 @@ func (c *Command) Exec() error {
 	}
 	stdoutScanner := bufio.NewScanner(stdoutReader)
 	stderrScanner := bufio.NewScanner(stderrReader)
+	// lines may have any length
+	stdoutScanner.Buffer(nil, int(^uint(0)>>1))
+	stderrScanner.Buffer(nil, int(^uint(0)>>1))
 
 	c.Start = time.Now()
 	if err := cmd.Start(); err != nil {
-- 
2.43.0


From b07c719ad077fec6eba2638e048be17a9e8142e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:41 +0000
Subject: [PATCH 15/39] fix: the log history holds exactly the configured
 number of last lines

---
 pkg/monny/command.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index d23a1cf..cb1ad9d 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -308,14 +308,8 @@ func (c *Command) processStdout(line []byte) {
 			go c.report.Send(c, proto.Alert)
 		}
 	}
-	history := len(c.Stdout)
 	c.mutex.Lock()
-	switch {
-	case history >= c.Config.StdoutHistory:
-		c.Stdout = append(c.Stdout[2:], string(line))
-	default:
-		c.Stdout = append(c.Stdout, string(line))
-	}
+	c.Stdout = addHistory(c.Stdout, string(line), c.Config.StdoutHistory)
 	c.mutex.Unlock()
 	return
 }
@@ -333,16 +327,23 @@ func (c *Command) processStderr(line []byte) {
 			go c.report.Send(c, proto.Alert)
 		}
 	}
-	history := len(c.Stderr)
 	c.mutex.Lock()
+	c.Stderr = addHistory(c.Stderr, string(line), c.Config.StderrHistory)
+	c.mutex.Unlock()
+	return
+}
+
+// addHistory adds a line to the log history and keeps the last max lines
+func addHistory(history []string, line string, max int) []string {
+	history = append(history, line)
 	switch {
-	case history >= c.Config.StderrHistory:
-		c.Stderr = append(c.Stderr[2:], string(line))
+	case max <= 0:
+		return nil
+	case len(history) > max:
+		return history[len(history)-max:]
 	default:
-		c.Stderr = append(c.Stderr, string(line))
+		return history
 	}
-	c.mutex.Unlock()
-	return
 }
 
 func wrapComplexCommand(shell string, args []string) ([]string, func() error, error) {
-- 
2.43.0


From a925bcfdd4d27de638fe7e66e9f94ec006388ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:41 +0000
Subject: [PATCH 16/39] fix: the duration of a command killed on timeout is not
 negative

---
 pkg/monny/handlers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/monny/handlers.go b/pkg/monny/handlers.go
index 9ecb99f..e32cd6f 100644
--- a/pkg/monny/handlers.go
+++ b/pkg/monny/handlers.go
@@ -81,7 +81,7 @@ func (h handler) Timeout(c *Command, cmd *exec.Cmd) error {
 	c.Killed = true
 	c.KillReason = proto.Timeout
 	c.Finish = time.Now()
-	c.Duration = c.Start.Sub(c.Finish)
+	c.Duration = c.Finish.Sub(c.Start)
 	c.ReportReason = proto.Killed
 	c.mutex.Unlock()
 
-- 
2.43.0


From 704dea6dc05070436341158a0fec2a657667dde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:41 +0000
Subject: [PATCH 17/39] fix: unexpected errors while monitoring are reported
 instead of crashing

---
 pkg/monny/command.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index cb1ad9d..74c82f6 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -75,6 +75,7 @@ func New(usercmd []string, options ...ConfigOption) (*Command, []error) {
 		Config:      cfg,
 		UserCommand: usercmd,
 		handler:     handler{},
+		errors:      errorService{},
 		report: &Report{
 			sender: &senderService{
 				host:   cfg.host,
@@ -142,6 +143,7 @@ func (c *Command) Exec() error {
 		fi, err := os.Stdin.Stat()
 		if err != nil {
 			c.errors.ReportError(fmt.Errorf("failed to get stdin properties: %+v", err))
+			return
 		}
 		if fi.Mode()&os.ModeNamedPipe != 0 {
 			_, err := io.Copy(stdinWriter, os.Stdin)
-- 
2.43.0


From a5201b8d7605c5c1af74326fd24f6f6133aefe00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:41 +0000
Subject: [PATCH 18/39] fix: JSON rules handle lists with numbers

---
 pkg/monny/command.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 74c82f6..fde6b07 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -282,9 +282,9 @@ func extractTextFromJSON(raw []byte, field string) []byte {
 				case string:
 					out = append(out, val.(string))
 				case float32:
-					out = append(out, fmt.Sprintf("%f", value.(float32)))
+					out = append(out, fmt.Sprintf("%f", val.(float32)))
 				case float64:
-					out = append(out, fmt.Sprintf("%f", value.(float64)))
+					out = append(out, fmt.Sprintf("%f", val.(float64)))
 				case bool:
 					out = append(out, fmt.Sprintf("%v", val.(bool)))
 				default:
-- 
2.43.0


From e1d19461c5b7d06141af7036b2b72fe08867fdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:41 +0000
Subject: [PATCH 19/39] fix: JSON rules do not match lines without the field

---
 pkg/monny/command.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index fde6b07..5f786da 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -230,6 +230,9 @@ func checkRule(line []byte, rules []rule) []RuleMatch {
 		switch {
 		case len(rule.Field) > 0:
 			text = extractTextFromJSON(line, rule.Field)
+			if text == nil {
+				continue
+			}
 		default:
 			text = line
 		}
@@ -246,19 +249,20 @@ func checkRule(line []byte, rules []rule) []RuleMatch {
 	return matches
 }
 
+// extractTextFromJSON returns the text of the field, or nil if there is none.
 func extractTextFromJSON(raw []byte, field string) []byte {
 	fieldPath := strings.Split(field, ".")
 	switch {
 	case len(fieldPath) > 1:
 		res := make(map[string]json.RawMessage)
 		if err := json.Unmarshal(raw, &res); err != nil {
-			return []byte{}
+			return nil
 		}
 		return extractTextFromJSON(res[fieldPath[0]], strings.Join(fieldPath[1:], "."))
 	default:
 		res := make(map[string]interface{})
 		if err := json.Unmarshal(raw, &res); err != nil {
-			return []byte{}
+			return nil
 		}
 		value := res[field]
 
@@ -275,7 +279,7 @@ func extractTextFromJSON(raw []byte, field string) []byte {
 			var out []string
 			vals, ok := value.([]interface{})
 			if !ok {
-				return []byte{}
+				return nil
 			}
 			for _, val := range vals {
 				switch val.(type) {
@@ -292,7 +296,7 @@ func extractTextFromJSON(raw []byte, field string) []byte {
 			}
 			return []byte(strings.Join(out, "\n"))
 		default:
-			return []byte{}
+			return nil
 		}
 	}
 }
-- 
2.43.0


From b5cc65dcd9fa46cc7115814a65768cd1acef757b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:41 +0000
Subject: [PATCH 20/39] fix: a missing command is an error instead of a crash

---
 pkg/monny/command.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 5f786da..54c41a1 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -98,6 +98,9 @@ func (c *Command) Wait() error {
 // metrics
 func (c *Command) Exec() error {
 	var cmd *exec.Cmd
+	if len(c.UserCommand) == 0 {
+		return fmt.Errorf("no command to run")
+	}
 	wrappedCmd, cleanup, err := wrapComplexCommand(c.Config.Shell, c.UserCommand)
 	if err != nil {
 		return err
-- 
2.43.0


From 074b405a743a2f7d77208fd663bd4e4b1b8b1711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:41 +0000
Subject: [PATCH 21/39] fix: the end of the command is noticed although piped
 input stays open

---
 pkg/monny/command.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 54c41a1..4719c31 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -138,9 +138,9 @@ func (c *Command) Exec() error {
 	c.pid = os.Getpid()
 
 	var wg sync.WaitGroup
-	wg.Add(3)
+	wg.Add(2)
+	// the command may end before its input does, so this is not waited for
 	go func() {
-		defer wg.Done()
 		defer stdinWriter.Close()
 		// determine if a monny is after a previous piped process, copy to forked process stdin if necessary
 		fi, err := os.Stdin.Stat()
-- 
2.43.0


From 074d9c5c1f3d4fe665f5923046b818280001b884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:41 +0000
Subject: [PATCH 22/39] fix: a file below something that is not a directory is
 reported as not created

---
 pkg/monny/handlers.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/monny/handlers.go b/pkg/monny/handlers.go
index e32cd6f..8d28ae2 100644
--- a/pkg/monny/handlers.go
+++ b/pkg/monny/handlers.go
@@ -151,13 +151,19 @@ func (h handler) KillOnHighMemory(c *Command, cmd *exec.Cmd) error {
 	return nil
 }
 
+// isNotDir is true if a file can not exist because a part of its path is not a directory
+func isNotDir(err error) bool {
+	perr, ok := err.(*os.PathError)
+	return ok && perr.Err == syscall.ENOTDIR
+}
+
 // handleFileCreation is called on process completion and checks for the existence of
 // files that should have been created if the configuration includes the created flag.
 func handleFileCreation(c *Command) {
 	for _, f := range c.Config.Creates {
 		finfo, err := os.Stat(f)
 		switch {
-		case os.IsNotExist(err):
+		case os.IsNotExist(err), isNotDir(err):
 			c.mutex.Lock()
 			c.Success = false
 			c.Messages = append(c.Messages, fmt.Sprintf("file not created: %s", f))
-- 
2.43.0


From c399426670dbc204e29062d773668cd6949bc9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:41 +0000
Subject: [PATCH 23/39] fix: a termination signal is passed on to the command
 and reported

---
 pkg/monny/command.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 4719c31..08d81d0 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -11,6 +11,7 @@ import (
 	"runtime"
 	"strings"
 	"sync"
+	"syscall"
 
 	"time"
 
@@ -181,7 +182,7 @@ func (c *Command) Exec() error {
 	timenotify := make(<-chan time.Time, 1)
 	signals := make(chan os.Signal, 1)
 	profileMemory := make(<-chan time.Time, 1)
-	signal.Notify(signals, os.Interrupt, os.Kill)
+	signal.Notify(signals, os.Interrupt, os.Kill, syscall.SIGTERM)
 
 	if c.Config.KillTimeout > 0 {
 		timeout = time.After(c.Config.KillTimeout)
-- 
2.43.0


From 84101585f8bcf9cd5124c0883996a7fb43aac40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:46 +0000
Subject: [PATCH 24/39] fix: lines that match no rule trigger no alert

---
 pkg/monny/command.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 08d81d0..4116a42 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -310,7 +310,7 @@ func (c *Command) processStdout(line []byte) {
 	c.mutex.Lock()
 	c.RuleMatches = append(c.RuleMatches, matches...)
 	c.mutex.Unlock()
-	if len(c.RuleMatches) > 0 {
+	if len(matches) > 0 {
 		switch {
 		case c.Config.RuleQuantity > 0:
 			go c.report.Send(c, proto.AlertRate)
@@ -329,7 +329,7 @@ func (c *Command) processStderr(line []byte) {
 	c.mutex.Lock()
 	c.RuleMatches = append(c.RuleMatches, matches...)
 	c.mutex.Unlock()
-	if len(c.RuleMatches) > 0 {
+	if len(matches) > 0 {
 		switch {
 		case c.Config.RuleQuantity > 0:
 			go c.report.Send(c, proto.AlertRate)
-- 
2.43.0


From 58ecf5f471f5c523b82a8653a847e3d556d19dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:46 +0000
Subject: [PATCH 25/39] fix: no report is lost between deciding to send it and
 waiting for exit

Reports are built and decided about when they are due instead of at some
later time in a goroutine, so waiting covers all of them, warnings are no
longer suppressed by their own mark, only matches that were in a delivered
report are forgotten, a report is retried for the documented hour and then
given up without blocking or a send on a closed channel, and the state of
the command is not read without its lock.
---
 pkg/monny/command.go  |  25 +++++-
 pkg/monny/handlers.go |  23 +++---
 pkg/monny/report.go   | 182 ++++++++++++++++++++++++++----------------
 3 files changed, 144 insertions(+), 86 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 4116a42..6c530aa 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -95,6 +95,23 @@ func (c *Command) Wait() error {
 	return c.report.Wait()
 }
 
+// preparer is implemented by report senders that create reports at once and deliver them later
+type preparer interface {
+	prepare(c *Command, reason proto.ReportReason) func()
+}
+
+// send creates a report and delivers it in the background
+func (c *Command) send(reason proto.ReportReason) {
+	p, ok := c.report.(preparer)
+	if !ok {
+		go c.report.Send(c, reason)
+		return
+	}
+	if deliver := p.prepare(c, reason); deliver != nil {
+		go deliver()
+	}
+}
+
 // Exec will execute the user's command in a forked process and monitor log output and process
 // metrics
 func (c *Command) Exec() error {
@@ -313,9 +330,9 @@ func (c *Command) processStdout(line []byte) {
 	if len(matches) > 0 {
 		switch {
 		case c.Config.RuleQuantity > 0:
-			go c.report.Send(c, proto.AlertRate)
+			c.send(proto.AlertRate)
 		default:
-			go c.report.Send(c, proto.Alert)
+			c.send(proto.Alert)
 		}
 	}
 	c.mutex.Lock()
@@ -332,9 +349,9 @@ func (c *Command) processStderr(line []byte) {
 	if len(matches) > 0 {
 		switch {
 		case c.Config.RuleQuantity > 0:
-			go c.report.Send(c, proto.AlertRate)
+			c.send(proto.AlertRate)
 		default:
-			go c.report.Send(c, proto.Alert)
+			c.send(proto.Alert)
 		}
 	}
 	c.mutex.Lock()
diff --git a/pkg/monny/handlers.go b/pkg/monny/handlers.go
index 8d28ae2..ec0fa1e 100644
--- a/pkg/monny/handlers.go
+++ b/pkg/monny/handlers.go
@@ -38,7 +38,8 @@ func (h handler) Finished(c *Command, cmd *exec.Cmd) error {
 		c.ExitCodeValid = true
 		c.ReportReason = proto.Success
 		c.mutex.Unlock()
-		go c.report.Send(c, proto.Success)
+		handleFileCreation(c)
+		c.send(proto.Success)
 	default:
 		sysinfo, ok := cmd.ProcessState.Sys().(syscall.WaitStatus)
 		c.mutex.Lock()
@@ -49,9 +50,9 @@ func (h handler) Finished(c *Command, cmd *exec.Cmd) error {
 		c.ReportReason = proto.Failure
 		c.Success = false
 		c.mutex.Unlock()
-		go c.report.Send(c, proto.Failure)
+		handleFileCreation(c)
+		c.send(proto.Failure)
 	}
-	handleFileCreation(c)
 	return nil
 }
 
@@ -66,7 +67,7 @@ func (h handler) Signal(c *Command, cmd *exec.Cmd, sig os.Signal) error {
 	c.ReportReason = proto.Killed
 	c.mutex.Unlock()
 
-	go c.report.Send(c, proto.Killed)
+	c.send(proto.Killed)
 	if err := cmd.Process.Signal(sig); err != nil {
 		return err
 	}
@@ -85,7 +86,7 @@ func (h handler) Timeout(c *Command, cmd *exec.Cmd) error {
 	c.ReportReason = proto.Killed
 	c.mutex.Unlock()
 
-	go c.report.Send(c, proto.Killed)
+	c.send(proto.Killed)
 	if err := cmd.Process.Signal(os.Kill); err != nil {
 		return err
 	}
@@ -100,10 +101,10 @@ func (h handler) TimeWarning(c *Command) error {
 	}
 	c.mutex.Lock()
 	c.ReportReason = proto.TimeWarning
-	c.timeWarnSent = true
 	c.mutex.Unlock()
 
-	go c.report.Send(c, proto.TimeWarning)
+	c.send(proto.TimeWarning)
+	c.timeWarnSent = true
 
 	return nil
 }
@@ -122,10 +123,10 @@ func (h handler) CheckMemory(c *Command, cmd *exec.Cmd) error {
 		if !c.memWarnSent {
 			c.mutex.Lock()
 			c.ReportReason = proto.MemoryWarning
-			c.memWarnSent = true
 			c.mutex.Unlock()
 
-			go c.report.Send(c, proto.MemoryWarning)
+			c.send(proto.MemoryWarning)
+			c.memWarnSent = true
 		}
 	}
 	if c.Config.MemoryKill > 0 && mem >= c.Config.MemoryKill {
@@ -144,7 +145,7 @@ func (h handler) KillOnHighMemory(c *Command, cmd *exec.Cmd) error {
 	c.ReportReason = proto.Killed
 	c.mutex.Unlock()
 
-	go c.report.Send(c, proto.Killed)
+	c.send(proto.Killed)
 	if err := cmd.Process.Signal(os.Kill); err != nil {
 		return err
 	}
@@ -169,7 +170,7 @@ func handleFileCreation(c *Command) {
 			c.Messages = append(c.Messages, fmt.Sprintf("file not created: %s", f))
 			c.ReportReason = proto.FileNotCreated
 			c.mutex.Unlock()
-			go c.report.Send(c, proto.FileNotCreated)
+			c.send(proto.FileNotCreated)
 		case err == nil:
 			c.mutex.Lock()
 			c.Created = append(c.Created, File{
diff --git a/pkg/monny/report.go b/pkg/monny/report.go
index 39e5fc9..cc12880 100644
--- a/pkg/monny/report.go
+++ b/pkg/monny/report.go
@@ -26,6 +26,14 @@ type ReportSender interface {
 // Report is a wrapper for sending a report via GRPC. See pb.Report for details.
 type Report struct {
 	sender sender
+
+	// number of rule matches already reported, protected by the mutex of the command
+	reported int
+
+	// number of prepared reports that are not finished, and what is closed when there are none left
+	mutex   sync.Mutex
+	pending int
+	idle    chan bool
 }
 
 // sender is an interface for creating and sending a report in the background.
@@ -47,6 +55,9 @@ type senderService struct {
 // Create prepares a new report based on the current status of the command.
 func (s *senderService) create(c *Command, reason proto.ReportReason) *pb.Report {
 	pb := reportFromCommand(c, reason, s.errors.ReportError)
+	if len(s.opts) > 0 {
+		return pb
+	}
 	if c.Config.useTLS {
 		s.opts = append(s.opts, grpc.WithTransportCredentials(credentials.NewTLS(&tls.Config{})))
 	} else {
@@ -60,101 +71,121 @@ func (s *senderService) create(c *Command, reason proto.ReportReason) *pb.Report
 // in the background.  It will attempt to send a report for 1hr
 // using exponential backoff if the call fails. (default)
 func (r *Report) Send(c *Command, reason proto.ReportReason) {
+	if deliver := r.prepare(c, reason); deliver != nil {
+		deliver()
+	}
+}
+
+// prepare creates the report and decides whether it is due.  The returned function delivers it, nil
+// if it is not due.  Wait waits for all prepared reports.
+func (r *Report) prepare(c *Command, reason proto.ReportReason) func() {
 	c.mutex.Lock()
-	pb := r.sender.create(c, reason)
-	c.mutex.Unlock()
+	defer c.mutex.Unlock()
 
-	result := make(chan error, 1)
-	cancel := make(chan bool, 1)
-	timeout := time.After(1 * time.Hour)
+	pb := r.sender.create(c, reason)
+	if !due(c, reason) {
+		return nil
+	}
+	seen := r.reported + len(c.RuleMatches)
 
-	closeChannels := func() {
-		close(result)
-		close(cancel)
+	r.begin()
+	return func() {
+		defer r.end()
+		if !r.deliver(c, pb) {
+			return
+		}
+		switch reason {
+		case proto.Alert, proto.AlertRate:
+			// matches that were not in this report remain
+			c.mutex.Lock()
+			if n := seen - r.reported; n > 0 {
+				c.RuleMatches = append([]RuleMatch{}, c.RuleMatches[n:]...)
+				r.reported = seen
+			}
+			c.mutex.Unlock()
+		}
 	}
+}
 
-	cb := func() { return }
+// due decides whether a report is to be sent
+func due(c *Command, reason proto.ReportReason) bool {
 	switch reason {
 	case proto.Failure:
-		if c.Config.NotifyOnFailure {
-			go r.sender.sendBackground(pb, result, cancel)
-		} else {
-			closeChannels()
-			return
-		}
+		return c.Config.NotifyOnFailure
 	case proto.Success:
-		if c.Config.NotifyOnSuccess {
-			go r.sender.sendBackground(pb, result, cancel)
-		} else {
-			closeChannels()
-			return
-		}
-	case proto.FileNotCreated, proto.Killed:
-		go r.sender.sendBackground(pb, result, cancel)
-	case proto.Alert:
-		go r.sender.sendBackground(pb, result, cancel)
-		cb = func() {
-			c.RuleMatches = []RuleMatch{}
-			return
-		}
+		return c.Config.NotifyOnSuccess
+	case proto.FileNotCreated, proto.Killed, proto.Alert:
+		return true
 	case proto.AlertRate:
-		alertRateExceeded := calcAlertRate(c.RuleMatches, c.Config.RuleQuantity, c.Config.RulePeriod)
-		if alertRateExceeded {
-			go r.sender.sendBackground(pb, result, cancel)
-			cb = func() {
-				c.RuleMatches = []RuleMatch{}
-				return
-			}
-		} else {
-			closeChannels()
-			return
-		}
+		return calcAlertRate(c.RuleMatches, c.Config.RuleQuantity, c.Config.RulePeriod)
 	case proto.MemoryWarning:
-		if c.memWarnSent {
-			closeChannels()
-			return
-		}
-		go r.sender.sendBackground(pb, result, cancel)
+		return !c.memWarnSent
 	case proto.TimeWarning:
-		if c.timeWarnSent {
-			closeChannels()
-			return
-		}
-		go r.sender.sendBackground(pb, result, cancel)
+		return !c.timeWarnSent
 	case proto.Start:
-		if c.Config.Daemon {
-			go r.sender.sendBackground(pb, result, cancel)
-		} else {
-			closeChannels()
-			return
-		}
+		return c.Config.Daemon
 	default:
-		return
+		return false
 	}
+}
+
+// deliver sends the report and returns true if it was accepted
+func (r *Report) deliver(c *Command, pb *pb.Report) bool {
+	result := make(chan error, 1)
+	cancel := make(chan bool, 1)
+	timeout := time.After(1 * time.Hour)
+
+	go r.sender.sendBackground(pb, result, cancel)
 
+	var err error
 	select {
-	case err := <-result:
-		switch {
-		case err == nil:
-			cb()
-		default:
-			c.errors.ReportError(err)
-		}
+	case err = <-result:
 	case <-timeout:
 		cancel <- true
-		c.errors.ReportError(fmt.Errorf("timeout on background report send: msg=%+v", pb))
+		if err = <-result; err != nil {
+			err = fmt.Errorf("timeout on background report send: msg=%+v", pb)
+		}
+	}
+	if err != nil {
+		c.errors.ReportError(err)
 	}
-	closeChannels()
+	return err == nil
 }
 
 // Wait will cause the process to block until the report is finished sending in the background.
 // This function is typically called on the Command at the top level to prevent the client
 // from exiting.  See Command.Wait().
 func (r *Report) Wait() error {
+	r.mutex.Lock()
+	for r.pending > 0 {
+		idle := r.idle
+		r.mutex.Unlock()
+		<-idle
+		r.mutex.Lock()
+	}
+	r.mutex.Unlock()
 	r.sender.wait()
 	return nil
 }
 
+func (r *Report) begin() {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+	if r.pending == 0 {
+		r.idle = make(chan bool)
+	}
+	r.pending++
+}
+
+func (r *Report) end() {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
+	r.pending--
+	if r.pending == 0 {
+		close(r.idle)
+	}
+}
+
 func (s *senderService) wait() {
 	s.wg.Wait()
 	return
@@ -170,6 +201,8 @@ func (s *senderService) sendBackground(report *pb.Report, result chan error, can
 	}
 	s.wg.Add(1)
 	defer s.wg.Done()
+	ctx, stop := context.WithCancel(context.Background())
+	defer stop()
 	send := func() error {
 		conn, err := grpc.Dial(net.JoinHostPort(s.host, s.port), s.opts...)
 		if err != nil {
@@ -178,7 +211,7 @@ func (s *senderService) sendBackground(report *pb.Report, result chan error, can
 		defer conn.Close()
 
 		client := pb.NewReportsClient(conn)
-		ack, err := client.Create(context.Background(), report)
+		ack, err := client.Create(ctx, report)
 		if err != nil {
 			return err
 		}
@@ -187,10 +220,17 @@ func (s *senderService) sendBackground(report *pb.Report, result chan error, can
 		}
 		return nil
 	}
-	select {
-	case result <- backoff.Retry(send, backoff.NewExponentialBackOff()):
-	case <-cancel:
-	}
+	go func() {
+		select {
+		case <-cancel:
+			stop()
+		case <-ctx.Done():
+		}
+	}()
+	// the parent decides when to give up
+	retry := backoff.NewExponentialBackOff()
+	retry.MaxElapsedTime = 0
+	result <- backoff.Retry(send, backoff.WithContext(retry, ctx))
 }
 
 // calcAlertRate determines if the rate of rule matches exceeds the limit in the
-- 
2.43.0


From f0791eef76715af5c522d2a6de3e6d37d1e0cdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:47 +0000
Subject: [PATCH 26/39] fix: reports are sent although the command can not be
 killed any more

---
 cmd/monny/main.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cmd/monny/main.go b/cmd/monny/main.go
index 0d662b0..dc03d46 100644
--- a/cmd/monny/main.go
+++ b/cmd/monny/main.go
@@ -28,14 +28,17 @@ func main() {
 		os.Exit(1)
 	}
 
-	if err := cmd.Exec(); err != nil {
-		fmt.Println("Process error:", err)
-		os.Exit(1)
+	errExec := cmd.Exec()
+	if errExec != nil {
+		fmt.Println("Process error:", errExec)
 	}
 	if err := cmd.Wait(); err != nil {
 		fmt.Printf("Not all reports sent: %s\n", err)
 		os.Exit(1)
 	}
+	if errExec != nil {
+		os.Exit(1)
+	}
 
 	os.Exit(0)
 }
-- 
2.43.0


From 87ecfd4fab346124818ac1ac6f4ae21ef0511f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:49 +0000
Subject: [PATCH 27/39] fix: reports with text that is not UTF-8 can be sent

---
 pkg/monny/report.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/pkg/monny/report.go b/pkg/monny/report.go
index cc12880..2658bc1 100644
--- a/pkg/monny/report.go
+++ b/pkg/monny/report.go
@@ -263,10 +263,10 @@ func calcAlertRate(matches []RuleMatch, quantity int, period time.Duration) bool
 // schema on the backend
 func reportFromCommand(c *Command, reason proto.ReportReason, onError func(e error)) *pb.Report {
 	return &pb.Report{
-		Id:            c.Config.ID,
-		Hostname:      c.Config.Hostname,
-		Stdout:        c.Stdout,
-		Stderr:        c.Stderr,
+		Id:            validText(c.Config.ID),
+		Hostname:      validText(c.Config.Hostname),
+		Stdout:        validTexts(c.Stdout),
+		Stderr:        validTexts(c.Stderr),
 		Success:       c.Success,
 		MaxMemory:     c.MaxMemory,
 		Killed:        c.Killed,
@@ -278,14 +278,27 @@ func reportFromCommand(c *Command, reason proto.ReportReason, onError func(e err
 		Duration:      c.Duration.String(),
 		ExitCode:      c.ExitCode,
 		ExitCodeValid: c.ExitCodeValid,
-		Messages:      c.Messages,
+		Messages:      validTexts(c.Messages),
 		Matches:       marshalMatches(c.RuleMatches, onError),
-		UserCommand:   strings.Join(c.UserCommand, " "),
+		UserCommand:   validText(strings.Join(c.UserCommand, " ")),
 		Config:        marshalConfig(c.Config, onError),
 		CreatedAt:     time.Now().Unix(),
 	}
 }
 
+// validText replaces what is not valid UTF-8, which can not be sent as text
+func validText(s string) string {
+	return strings.ToValidUTF8(s, "\uFFFD")
+}
+
+func validTexts(a []string) []string {
+	var out []string
+	for _, s := range a {
+		out = append(out, validText(s))
+	}
+	return out
+}
+
 func marshalMatches(a []RuleMatch, onError func(e error)) []byte {
 	b, err := json.Marshal(a)
 	if err != nil {
-- 
2.43.0


From dcb1e5bbd8b76d0d73987711909c9457027006be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:50 +0000
Subject: [PATCH 28/39] fix: an explicit shell is used

---
 pkg/monny/config.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/monny/config.go b/pkg/monny/config.go
index 2b35c30..0c05265 100644
--- a/pkg/monny/config.go
+++ b/pkg/monny/config.go
@@ -76,11 +76,13 @@ func newConfig(options ...ConfigOption) (Config, []error) {
 		}
 	}
 
-	shell, err := findDefaultShell()
-	if err != nil {
-		errors = append(errors, err)
+	if len(c.Shell) == 0 {
+		shell, err := findDefaultShell()
+		if err != nil {
+			errors = append(errors, err)
+		}
+		c.Shell = shell
 	}
-	c.Shell = shell
 	if len(c.ID) == 0 {
 		errors = append(errors, fmt.Errorf("id is required, use monny -i <id>; new ids are created with monctl create or pass your email address to get a notifications via email without an account"))
 	}
-- 
2.43.0


From 151c99d8d96b4469554cde052bc60f7db618f446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:51 +0000
Subject: [PATCH 29/39] fix: negative and too large memory limits are errors

---
 pkg/monny/config.go | 58 ++++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 30 deletions(-)

diff --git a/pkg/monny/config.go b/pkg/monny/config.go
index 0c05265..18e08ef 100644
--- a/pkg/monny/config.go
+++ b/pkg/monny/config.go
@@ -213,28 +213,39 @@ func Daemon() ConfigOption {
 	}
 }
 
+// parseMemory converts a limit with optional unit K, M, or G to kilobytes
+func parseMemory(mem string) (uint64, error) {
+	scale := 1
+	number := mem
+	switch {
+	case strings.HasSuffix(mem, "K"):
+		number = mem[0 : len(mem)-1]
+	case strings.HasSuffix(mem, "M"):
+		number = mem[0 : len(mem)-1]
+		scale = 1000
+	case strings.HasSuffix(mem, "G"):
+		number = mem[0 : len(mem)-1]
+		scale = 1000000
+	}
+	n, err := strconv.Atoi(number)
+	if err != nil {
+		return 0, err
+	}
+	if n < 0 || n > int(^uint(0)>>1)/scale {
+		return 0, fmt.Errorf("out of range")
+	}
+	return uint64(n) * uint64(scale), nil
+}
+
 // MemoryWarn sends a report when process memory exceeds this value.  Expects a string with
 // units in K, M, or G.  (Linux only, memory measurements on Darwin or Windows is a no-op)
 func MemoryWarn(mem string) ConfigOption {
 	return func(c *Config) error {
-		var err error
-		var warn int
-		switch {
-		case strings.HasSuffix(mem, "K"):
-			warn, err = strconv.Atoi(mem[0 : len(mem)-1])
-		case strings.HasSuffix(mem, "M"):
-			warn, err = strconv.Atoi(mem[0 : len(mem)-1])
-			warn = warn * 1000
-		case strings.HasSuffix(mem, "G"):
-			warn, err = strconv.Atoi(mem[0 : len(mem)-1])
-			warn = warn * 1000000
-		default:
-			warn, err = strconv.Atoi(mem)
-		}
+		warn, err := parseMemory(mem)
 		if err != nil {
 			return fmt.Errorf("could not parse memory warning limit: %s", mem)
 		}
-		c.MemoryWarn = uint64(warn)
+		c.MemoryWarn = warn
 		return nil
 	}
 }
@@ -243,24 +254,11 @@ func MemoryWarn(mem string) ConfigOption {
 // units in K, M, or G.  (Linux only, memory measurements on Darwin or Windows is a no-op)
 func MemoryKill(mem string) ConfigOption {
 	return func(c *Config) error {
-		var err error
-		var kill int
-		switch {
-		case strings.HasSuffix(mem, "K"):
-			kill, err = strconv.Atoi(mem[0 : len(mem)-1])
-		case strings.HasSuffix(mem, "M"):
-			kill, err = strconv.Atoi(mem[0 : len(mem)-1])
-			kill = kill * 1000
-		case strings.HasSuffix(mem, "G"):
-			kill, err = strconv.Atoi(mem[0 : len(mem)-1])
-			kill = kill * 1000000
-		default:
-			kill, err = strconv.Atoi(mem)
-		}
+		kill, err := parseMemory(mem)
 		if err != nil {
 			return fmt.Errorf("could not parse memory warning limit: %s", mem)
 		}
-		c.MemoryKill = uint64(kill)
+		c.MemoryKill = kill
 		return nil
 	}
 }
-- 
2.43.0


From a0831ed3e28fd7bfd427b9fc8cd1ee7f9aab9f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:52 +0000
Subject: [PATCH 30/39] fix: the report server can be given by IPv6 address

---
 pkg/monny/config.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/monny/config.go b/pkg/monny/config.go
index 18e08ef..e3eb56a 100644
--- a/pkg/monny/config.go
+++ b/pkg/monny/config.go
@@ -3,6 +3,7 @@ package monny
 import (
 	"fmt"
 	"io"
+	"net"
 	"os"
 	"os/exec"
 	"regexp"
@@ -301,12 +302,12 @@ func Creates(filepath string) ConfigOption {
 // Host sets the url and port when using a private reporting server.  Expects host:port.
 func Host(pathWithPort string) ConfigOption {
 	return func(c *Config) error {
-		h := strings.Split(pathWithPort, ":")
-		if len(h) != 2 {
+		host, port, err := net.SplitHostPort(pathWithPort)
+		if err != nil {
 			return fmt.Errorf("unknown host, use host:port")
 		}
-		c.host = h[0]
-		c.port = h[1]
+		c.host = host
+		c.port = port
 		return nil
 	}
 }
-- 
2.43.0


From 1856135ca61e2c850f697cfe854f690e57ef4b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:53 +0000
Subject: [PATCH 31/39] fix: the default report server is a host name that can
 be dialed

---
 pkg/monny/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/monny/config.go b/pkg/monny/config.go
index e3eb56a..fae90fc 100644
--- a/pkg/monny/config.go
+++ b/pkg/monny/config.go
@@ -12,7 +12,7 @@ import (
 	"time"
 )
 
-const api string = "https://report.lmkwtf.com"
+const api string = "report.lmkwtf.com"
 const port string = "443"
 
 // Config stores configuration data for the monitoring service.  Functional options are
-- 
2.43.0


From ada04471e076650a33a1823fc2e738db392ceccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:54 +0000
Subject: [PATCH 32/39] fix: a switch that is set to false is off

---
 pkg/monny/parse.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/pkg/monny/parse.go b/pkg/monny/parse.go
index 91b89cc..3337ce2 100644
--- a/pkg/monny/parse.go
+++ b/pkg/monny/parse.go
@@ -102,11 +102,11 @@ func handleOption(name string, value string) (ConfigOption, error) {
 	case "stderr-history":
 		return StderrHistory(value), nil
 	case "no-notify-on-success":
-		return NoNotifyOnSuccess(), nil
+		return handleSwitch(name, value, NoNotifyOnSuccess())
 	case "no-notify-on-failure":
-		return NoNotifyOnFailure(), nil
+		return handleSwitch(name, value, NoNotifyOnFailure())
 	case "daemon":
-		return Daemon(), nil
+		return handleSwitch(name, value, Daemon())
 	case "memory-warn":
 		return MemoryWarn(value), nil
 	case "memory-kill":
@@ -120,9 +120,9 @@ func handleOption(name string, value string) (ConfigOption, error) {
 	case "host":
 		return Host(value), nil
 	case "insecure":
-		return Insecure(), nil
+		return handleSwitch(name, value, Insecure())
 	case "no-error-reports":
-		return NoErrorReports(), nil
+		return handleSwitch(name, value, NoErrorReports())
 	case "shell":
 		return Shell(value), nil
 	default:
@@ -130,6 +130,19 @@ func handleOption(name string, value string) (ConfigOption, error) {
 	}
 }
 
+// handleSwitch applies the option if the value is true
+func handleSwitch(name string, value string, option ConfigOption) (ConfigOption, error) {
+	on, err := strconv.ParseBool(value)
+	switch {
+	case err != nil:
+		return nil, fmt.Errorf("invalid value for %s, should be true or false: %s", name, value)
+	case !on:
+		return func(c *Config) error { return nil }, nil
+	default:
+		return option, nil
+	}
+}
+
 func parseFromFile(fpath string) ([]ConfigOption, error) {
 	var options []ConfigOption
 	data, err := ioutil.ReadFile(fpath)
@@ -157,7 +170,7 @@ func parseFromFile(fpath string) ([]ConfigOption, error) {
 			}
 			options = append(options, opt)
 		case bool:
-			opt, err := handleOption(k, "")
+			opt, err := handleOption(k, strconv.FormatBool(v.(bool)))
 			if err != nil {
 				return options, err
 			}
-- 
2.43.0


From 8d9535305a4930a6524b1c05b24dc16f1ff604ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:55 +0000
Subject: [PATCH 33/39] fix: every list of a configuration file is applied once

---
 pkg/monny/parse.go | 41 ++++++++++++-----------------------------
 1 file changed, 12 insertions(+), 29 deletions(-)

diff --git a/pkg/monny/parse.go b/pkg/monny/parse.go
index 3337ce2..553e620 100644
--- a/pkg/monny/parse.go
+++ b/pkg/monny/parse.go
@@ -163,8 +163,8 @@ func parseFromFile(fpath string) ([]ConfigOption, error) {
 				return options, err
 			}
 			options = append(options, opt)
-		case int:
-			opt, err := handleOption(k, strconv.Itoa(v.(int)))
+		case int, float64:
+			opt, err := handleOption(k, fmt.Sprint(v))
 			if err != nil {
 				return options, err
 			}
@@ -176,30 +176,19 @@ func parseFromFile(fpath string) ([]ConfigOption, error) {
 			}
 			options = append(options, opt)
 		// handles the case of a list of rules
-		case interface{}:
-			alt := listFieldsYAML{}
-			if err := yaml.Unmarshal(data, &alt); err != nil {
-				return options, fmt.Errorf("Could not unmarshal config value for key: %s", k)
-			}
-			if len(alt.Rule) == 0 && len(alt.JSONRule) == 0 && len(alt.Creates) == 0 {
+		case []interface{}:
+			switch k {
+			case "rule", "rule-json", "creates":
+			default:
 				return options, fmt.Errorf("Unknown option: %s", k)
 			}
-			for _, val := range alt.Rule {
-				opt, err := handleOption("rule", val)
-				if err != nil {
-					return options, err
-				}
-				options = append(options, opt)
-			}
-			for _, val := range alt.JSONRule {
-				opt, err := handleOption("rule-json", val)
-				if err != nil {
-					return options, err
+			for _, val := range v.([]interface{}) {
+				switch val.(type) {
+				case string, int, float64, bool:
+				default:
+					return options, fmt.Errorf("Could not unmarshal config value for key: %s", k)
 				}
-				options = append(options, opt)
-			}
-			for _, val := range alt.Creates {
-				opt, err := handleOption("creates", val)
+				opt, err := handleOption(k, fmt.Sprint(val))
 				if err != nil {
 					return options, err
 				}
@@ -211,9 +200,3 @@ func parseFromFile(fpath string) ([]ConfigOption, error) {
 	}
 	return options, nil
 }
-
-type listFieldsYAML struct {
-	Rule     []string `yaml:"rule"`
-	JSONRule []string `yaml:"rule-json"`
-	Creates  []string `yaml:"creates"`
-}
-- 
2.43.0


From d95f1b68a7a256c731c88427067fba63289ed35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:06 +0000
Subject: [PATCH 34/39] fix: an alert has the line that triggered it in its log
 history

---
 pkg/monny/command.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 6c530aa..73e1d95 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -326,6 +326,7 @@ func (c *Command) processStdout(line []byte) {
 	matches := checkRule(line, c.Config.Rules)
 	c.mutex.Lock()
 	c.RuleMatches = append(c.RuleMatches, matches...)
+	c.Stdout = addHistory(c.Stdout, string(line), c.Config.StdoutHistory)
 	c.mutex.Unlock()
 	if len(matches) > 0 {
 		switch {
@@ -335,9 +336,6 @@ func (c *Command) processStdout(line []byte) {
 			c.send(proto.Alert)
 		}
 	}
-	c.mutex.Lock()
-	c.Stdout = addHistory(c.Stdout, string(line), c.Config.StdoutHistory)
-	c.mutex.Unlock()
 	return
 }
 
@@ -345,6 +343,7 @@ func (c *Command) processStderr(line []byte) {
 	matches := checkRule(line, c.Config.Rules)
 	c.mutex.Lock()
 	c.RuleMatches = append(c.RuleMatches, matches...)
+	c.Stderr = addHistory(c.Stderr, string(line), c.Config.StderrHistory)
 	c.mutex.Unlock()
 	if len(matches) > 0 {
 		switch {
@@ -354,9 +353,6 @@ func (c *Command) processStderr(line []byte) {
 			c.send(proto.Alert)
 		}
 	}
-	c.mutex.Lock()
-	c.Stderr = addHistory(c.Stderr, string(line), c.Config.StderrHistory)
-	c.mutex.Unlock()
 	return
 }
 
-- 
2.43.0


From c882c67bc7440c724014b7d063065d468bf946e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:33 +0000
Subject: [PATCH 35/39] fix: JSON rules match although another field has a
 number out of range

---
 pkg/monny/command.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/monny/command.go b/pkg/monny/command.go
index 73e1d95..ab19781 100644
--- a/pkg/monny/command.go
+++ b/pkg/monny/command.go
@@ -281,11 +281,14 @@ func extractTextFromJSON(raw []byte, field string) []byte {
 		}
 		return extractTextFromJSON(res[fieldPath[0]], strings.Join(fieldPath[1:], "."))
 	default:
-		res := make(map[string]interface{})
+		res := make(map[string]json.RawMessage)
 		if err := json.Unmarshal(raw, &res); err != nil {
 			return nil
 		}
-		value := res[field]
+		var value interface{}
+		if err := json.Unmarshal(res[field], &value); err != nil {
+			return nil
+		}
 
 		switch value.(type) {
 		case string:
-- 
2.43.0


From 641c62e246ca1f4058e97a1f49e39ddebeed57a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:28 +0000
Subject: [PATCH 36/39] fix: creating an event wrote its payload to standard
 error, in the middle of echoed output

---
 pkg/eventbus/event.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pkg/eventbus/event.go b/pkg/eventbus/event.go
index 5d7b6bb..498d3cc 100644
--- a/pkg/eventbus/event.go
+++ b/pkg/eventbus/event.go
@@ -5,7 +5,6 @@ import (
 	"encoding/gob"
 	"errors"
 	"fmt"
-	"log"
 )
 
 // EventType represents the type of event being passed on the bus.  It allows handlers receiving the event to
@@ -69,8 +68,6 @@ func NewEvent(t EventType, data interface{}) (evt Event, err error) {
 			return Event{}, fmt.Errorf("failed to create event %s: %v", t, err)
 		}
 	}
-
-	log.Printf("encoded: %v", string(b.Bytes()))
 	return Event{t: t, d: b.Bytes()}, nil
 }
 
-- 
2.43.0


From 079eae11fc854de160197bf7f0f50a12fc7e3f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:14 +0000
Subject: [PATCH 37/39] fix: error reports of undelivered reports carried the
 log output and the configuration

---
 pkg/monny/report.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/monny/report.go b/pkg/monny/report.go
index 2658bc1..9d904e9 100644
--- a/pkg/monny/report.go
+++ b/pkg/monny/report.go
@@ -143,7 +143,7 @@ func (r *Report) deliver(c *Command, pb *pb.Report) bool {
 	case <-timeout:
 		cancel <- true
 		if err = <-result; err != nil {
-			err = fmt.Errorf("timeout on background report send: msg=%+v", pb)
+			err = fmt.Errorf("timeout on background report send: reason=%s", pb.ReportReason)
 		}
 	}
 	if err != nil {
-- 
2.43.0


From 8e929c924f1b8261356e00f0bf5989aabdf01db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:14 +0000
Subject: [PATCH 38/39] fix: Poisson generator returned -1 for a zero rate and
 was capped for large rates

e^-lambda underflows to zero for a lambda above 745, so that every larger
rate gave the same samples; for lambda 0 the sample was -1.
---
 pkg/rng/poisson.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/rng/poisson.go b/pkg/rng/poisson.go
index 61163e6..fb114c3 100644
--- a/pkg/rng/poisson.go
+++ b/pkg/rng/poisson.go
@@ -16,15 +16,15 @@ type PoissonRNG struct {
 
 func (r *PoissonRNG) Rand() float64 {
 	// Knuth's algorithm
-	L := math.Pow(math.E, -r.lambda)
+	// with logarithms, because e^-lambda underflows to zero for a large lambda
 	var k int64 = 0
-	var p float64 = 1.0
+	var sum float64 = -math.Log(r.r.Float64())
 
-	for p > L {
+	for sum < r.lambda {
 		k++
-		p = p * r.r.Float64()
+		sum -= math.Log(r.r.Float64())
 	}
-	return float64(k - 1)
+	return float64(k)
 }
 
 func NewPoissonRNG(lambda float64) *PoissonRNG {
-- 
2.43.0


From b9de26c1180153bb4b966b0c15e641f599a4d7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:27 +0000
Subject: [PATCH 39/39] fix: subscribers that left accumulated in the event bus

---
 pkg/eventbus/bus.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pkg/eventbus/bus.go b/pkg/eventbus/bus.go
index aa135de..95f1337 100644
--- a/pkg/eventbus/bus.go
+++ b/pkg/eventbus/bus.go
@@ -97,6 +97,9 @@ func (e *EventBus) subscribe(topics ...Topic) (chan Event, chan struct{}) {
 		close(c)
 		return c, done
 	}
+	if len(e.done) == cap(e.done) {
+		e.done = unfinished(e.done)
+	}
 	e.done = append(e.done, done)
 	e.senders[c] = &senders{stop: make(chan struct{})}
 
@@ -117,6 +120,20 @@ func (e *EventBus) subscribe(topics ...Topic) (chan Event, chan struct{}) {
 	return c, done
 }
 
+// unfinished returns the done channels that are not closed, with room for as many again. The others need not be waited for
+// and would accumulate when subscribers come and go.
+func unfinished(all []chan struct{}) []chan struct{} {
+	var remaining []chan struct{}
+	for _, d := range all {
+		select {
+		case <-d:
+		default:
+			remaining = append(remaining, d)
+		}
+	}
+	return append(make([]chan struct{}, 0, 2*len(remaining)+1), remaining...)
+}
+
 // Unsubscribe removes the subscriber from receiving any more events and closes all its channels
 func (e *EventBus) Unsubscribe(c chan Event, done chan struct{}) {
 	e.mutex.Lock()
-- 
2.43.0

