H='''package %s

import (
	"testing"
%s
)

'''
S=[
dict(id="shutdown-cancel-is-success",prop="C16",needs="shutdown whose context is cancelled (not timed out) while a subscriber has not finished",
 breaks="shutdown reports success although a subscriber is still working",
 edits=[("pkg/eventbus/bus.go","	case <-ctx.Done():\n		return ErrShutdownTimeout\n","	case <-ctx.Done():\n		if ctx.Err() != context.DeadlineExceeded {\n			return nil\n		}\n		return ErrShutdownTimeout\n")],
 pkg="pkg/eventbus",test=H%("eventbus",'	"context"\n	"time"\n')+'''func TestDemo(t *testing.T) {
	b := New()
	b.Subscribe()
	ctx, cancel := context.WithCancel(context.Background())
	time.AfterFunc(50*time.Millisecond, cancel)
	if b.Shutdown(ctx) == nil {
		t.Fatal("shutdown with an unfinished subscriber succeeded")
	}
}
'''),
dict(id="confirm-not-atomic",prop="C15",needs="two goroutines of a subscriber calling the shutdown function at the same moment",
 breaks="the done channel is closed twice and the program panics",
 edits=[("pkg/eventbus/bus.go","	s.once.Do(func() { close(s.d) })\n","	select {\n	case <-s.d:\n	default:\n		s.once = sync.Once{}\n		s.once.Do(func() { close(s.d) })\n	}\n")],
 pkg="pkg/eventbus",flags="",test=H%("eventbus",'	"sync"\n')+'''func TestDemo(t *testing.T) {
	for i := 0; i < 200000; i++ {
		b := New()
		_, sd := b.Subscribe()
		var wg sync.WaitGroup
		start := make(chan struct{})
		var p interface{}
		for k := 0; k < 8; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						p = r
					}
				}()
				<-start
				sd()
			}()
		}
		close(start)
		wg.Wait()
		if p != nil {
			t.Fatal(p)
		}
	}
}
'''),
dict(id="event-buffer-reuse",prop="C18",needs="a second event created before the first one is decoded",
 breaks="the encoding buffer is shared between events, so a later event overwrites the payload of an earlier one",
 edits=[("pkg/eventbus/event.go","	var b bytes.Buffer\n","	b := encoded\n	b.Reset()\n"),
 ("pkg/eventbus/event.go","		enc := gob.NewEncoder(&b)\n","		enc := gob.NewEncoder(b)\n"),
 ("pkg/eventbus/event.go","type EventType string\n","type EventType string\n\n// encoded is reused to encode events\nvar encoded = new(bytes.Buffer)\n")],
 pkg="pkg/eventbus",test=H%("eventbus","")+'''func TestDemo(t *testing.T) {
	a, _ := NewEvent("a", "first")
	b, _ := NewEvent("b", "other")
	var x, y string
	if a.Decode(&x) != nil || b.Decode(&y) != nil || x != "first" || y != "other" {
		t.Fatal(x, y)
	}
}
'''),
dict(id="topic-without-default",prop="C14",needs="a subscriber without topics while an event is dispatched to two or more topics",
 breaks="events for several topics do not reach the subscribers without a topic",
 edits=[("pkg/eventbus/bus.go","	for _, topic := range topics {\n		// it no","	for i, topic := range topics {\n		if i == 0 && len(topics) > 2 {\n			continue\n		}\n		// it no")],
 pkg="pkg/eventbus",test=H%("eventbus",'	"time"\n')+'''func TestDemo(t *testing.T) {
	b := New()
	c, _ := b.Subscribe()
	e, _ := NewEvent("e", nil)
	b.Dispatch(e, "t", "u")
	select {
	case <-c:
	case <-time.After(2 * time.Second):
		t.Fatal("not delivered")
	}
}
'''),
]
