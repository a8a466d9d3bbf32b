_e={}
exec(open('/verif/tools/seeds/e.py').read().split("S=[")[0],_e)
HM=_e['H']
C='pkg/monny/command.go'; R='pkg/monny/report.go'; N='pkg/monny/handlers.go'
D=dict(pkg='pkg/monny',flags='')
H='''package %s

import (
	"testing"
%s
)

'''
B="pkg/eventbus/bus.go"
S=[
dict(id="three-topics-only",prop="C14",needs="a subscriber of more than three topics and an event for one of the others",
 breaks="a subscriber is registered for its first three topics only",
 edits=[(B,"	for _, topic := range topics {\n		ch, ok := e.subscribers[topic]","	for i := 0; i < len(topics) && i < 3; i++ {\n		topic := topics[i]\n		ch, ok := e.subscribers[topic]")],
 pkg="pkg/eventbus",test=H%("eventbus",'	"time"')+'''func TestDemo(t *testing.T) {
	b := New()
	c, _ := b.Subscribe("a", "b", "c", "d")
	e, _ := NewEvent("e", nil)
	b.Dispatch(e, "d")
	select {
	case <-c:
	case <-time.After(2 * time.Second):
		t.Fatal("not delivered")
	}
}
'''),
dict(id="crowded-topic-skipped",prop="C17",needs="a subscriber that stops receiving, which joined a topic before the others, and two events it does not take",
 breaks="when the first subscriber of a topic has an event waiting, events for that topic are dropped for the others too",
 edits=[(B,"	for _, topic := range topics {\n		// it no","	for i, topic := range topics {\n		// a topic whose subscribers are behind is left out\n		if chs := e.subscribers[topic]; i > 0 && len(chs) > 2 && len(chs[0]) == cap(chs[0]) {\n			continue\n		}\n		// it no")],
 pkg="pkg/eventbus",test=H%("eventbus",'	"time"')+'''func TestDemo(t *testing.T) {
	b := New()
	b.Subscribe("t") // does not receive
	var cs []chan Event
	for i := 0; i < 2; i++ {
		c, _ := b.Subscribe("t")
		cs = append(cs, c)
	}
	for i := 0; i < 3; i++ {
		e, _ := NewEvent("e", nil)
		b.Dispatch(e, "t")
		for _, c := range cs {
			select {
			case <-c:
			case <-time.After(2 * time.Second):
				t.Fatal("not delivered")
			}
		}
		time.Sleep(50 * time.Millisecond)
	}
}
'''),
dict(id="second-shutdown-succeeds",prop="C16",needs="a shutdown that timed out and is called again while a subscriber is still busy",
 breaks="a repeated shutdown reports success although a subscriber has not finished",
 edits=[(B,"	e.sdStarted = true\n","	if e.sdStarted {\n		e.mutex.Unlock()\n		return nil\n	}\n	e.sdStarted = !e.sdStarted\n")],
 pkg="pkg/eventbus",test=H%("eventbus",'	"context"\n	"time"')+'''func TestDemo(t *testing.T) {
	b := New()
	b.Subscribe()
	for i := 0; i < 2; i++ {
		ctx, cancel := context.WithTimeout(context.Background(), 50*time.Millisecond)
		if b.Shutdown(ctx) == nil {
			t.Fatal("shutdown with an unfinished subscriber succeeded")
		}
		cancel()
	}
}
'''),
dict(id="observations-limited",prop="C24",needs="more than a thousand observations in one window",
 breaks="observations after the first thousand of a window are not in the sample",
 edits=[("pkg/metric/sampled.go","		s.obs = append(s.obs, obs)\n","		if len(s.obs) < 1000 {\n			s.obs = append(s.obs, obs+0)\n		}\n")],
 pkg="pkg/metric",test=H%("metric",'	"time"')+'''func TestDemo(t *testing.T) {
	s, done, err := NewSampledSeries(2, 500*time.Millisecond, SampleSum)
	if err != nil {
		t.Fatal(err)
	}
	defer done()
	for i := 0; i < 1500; i++ {
		s.Record(1)
	}
	sum := 0.0
	for i := 0; i < 40 && s.Count() < 2; i++ {
		time.Sleep(50 * time.Millisecond)
	}
	for _, v := range s.Values() {
		sum += v
	}
	if sum != 1500 {
		t.Fatal(sum)
	}
}
'''),
dict(id="history-of-128",prop="C22",needs="more than 128 windows of a counter without a limit",
 breaks="the history of a windowed counter without limits is limited all the same",
 edits=[("pkg/metric/counter.go","	if max == 0 && maxduration == 0 {\n","	if max == 0 && len(hist) > 128 {\n		max = 128\n	}\n	if max == 0 && maxduration == time.Duration(max) {\n")],
 pkg="pkg/metric",test=H%("metric",'	"time"')+'''func TestDemo(t *testing.T) {
	w := NewWindowedCounter(100 * time.Microsecond)
	for i := 0; i < 200; i++ {
		w.Add(1)
		time.Sleep(300 * time.Microsecond)
	}
	sum := 0
	for _, h := range w.HistoryInclusive() {
		sum += h.Value()
	}
	if sum != 200 {
		t.Fatal(sum)
	}
}
'''),
dict(id="metadata-not-emptied",prop="C25",needs="metadata whose value is replaced by an empty one",
 breaks="the old value stays",
 edits=[("pkg/metric/name.go","	for k, v := range md {\n		n.md[k] = v\n	}\n}\n\n// MarshalText","	for k, v := range md {\n		if _, ok := n.md[k]; !ok || v != \"\" {\n			n.md[k] = v\n		}\n	}\n}\n\n// MarshalText")],
 pkg="pkg/metric",test=H%("metric",'')+'''func TestDemo(t *testing.T) {
	n := NewName("m", map[string]string{"a": "1"})
	n.AddMetadata(map[string]string{"a": ""})
	if s, w := n.String(), NewName("m", map[string]string{"a": ""}).String(); s != w {
		t.Fatal(s, w)
	}
}
'''),
dict(id="series-order-after-65536",prop="C21",needs="more than 65536 recordings in a series whose capacity does not divide their number",
 breaks="values are in storage order, not in the order in which they were recorded",
 edits=[("pkg/metric/series.go","	default:\n		out := make([]float64, 0, len(s.values))","	case s.count > 1<<16:\n		return append([]float64(nil), s.values...)\n	default:\n		out := make([]float64, 0, cap(s.values))")],
 pkg="pkg/metric",test=H%("metric",'')+'''func TestDemo(t *testing.T) {
	s, _ := NewSeries(7)
	for i := 0; i < 65540; i++ {
		s.Record(float64(i))
	}
	v := s.Values()
	for i := range v {
		if v[i] != float64(65540-7+i) {
			t.Fatal(v)
		}
	}
}
'''),
dict(D,id="period-over-a-day",prop="C07",needs="a rule period of more than a day and matches further apart than that",
 breaks="old matches count towards the rate",
 edits=[(R,"	case period > 0:\n","	case period > 0 && period <= 24*time.Hour:\n")],
 test=HM%''+'''func TestDemo(t *testing.T) {
	now := time.Now()
	if calcAlertRate([]RuleMatch{{Time: now.Add(-60 * time.Hour)}, {Time: now}}, 2, 48*time.Hour) {
		t.Fatal("a match of 60 hours ago counts in a period of 48 hours")
	}
	c, _, _ := demoCommand(t, []string{"true"})
	c.Exec()
	c.Wait()
	var _ = proto.Alert
}
'''),
dict(D,id="echo-cut-at-10000",prop="C01",needs="a command that writes more than ten thousand lines",
 breaks="there is an extra line in the echoed output",
 edits=[(C,"		for stdoutScanner.Scan() {\n","		for n := 1; stdoutScanner.Scan(); n++ {\n			if n > 10000 && n%1000 == 1 {\n				fmt.Fprintln(c.out)\n			}\n")],
 test=HM%'	"strings"\n'+'''func TestDemo(t *testing.T) {
	c, _, out := demoCommand(t, []string{"seq", "1", "12000"})
	c.Exec()
	c.Wait()
	if n := strings.Count(string(out.data), "\\n"); n != 12000 {
		t.Fatal(n)
	}
	var _ = proto.Alert
}
'''),
dict(id="ticks-delayed-by-events",prop="C31",needs="other events on the bus more often than the ticks",
 breaks="every event that the ticker receives starts its interval anew",
 edits=[("pkg/monny/proc/ticker.go","			case _, open := <-c:\n","			case e, open := <-c:\n				if open && e.Type() != evt {\n					t.Reset(d)\n				}\n")],
 pkg="pkg/monny/proc",test=H%("proc",'	"time"\n\n	"github.com/BTBurke/monny/pkg/eventbus"')+'''func TestDemo(t *testing.T) {
	b := eventbus.New()
	c, _ := b.Subscribe()
	NewTicker(300*time.Millisecond, b, "tick")
	ticks := 0
	end := time.After(2 * time.Second)
	other := time.NewTicker(50 * time.Millisecond)
	for {
		select {
		case e := <-c:
			if e.Type() == "tick" {
				ticks++
			}
		case <-other.C:
			e, _ := eventbus.NewEvent("other", nil)
			b.Dispatch(e)
		case <-end:
			if ticks < 2 {
				t.Fatal(ticks, "ticks")
			}
			return
		}
	}
}
'''),
dict(id="lower-limit-below-zero",prop="C26",needs="observations of a log-normal statistic of about one, so that the lower limit of their logarithms is below zero",
 breaks="no alarm for values below a lower limit that is negative",
 edits=[("pkg/stat/estimator.go","		if e.current <= e.limit {\n","		if e.current <= math.Max(e.limit, 0) && e.limit > 0 {\n")],
 pkg="pkg/stat",test=H%("stat",'')+'''func TestDemo(t *testing.T) {
	s, err := NewEWMAStatistic("x", 1.0, NewLogNormal(4, KFixed(3)))
	if err != nil {
		t.Fatal(err)
	}
	feed := func() {
		for _, v := range []float64{1.5, 1.0, 1.2, 1.1, 1.1} {
			s.Record(v)
		}
	}
	feed()
	s.Record(100)
	if !s.HasAlarmed() {
		t.Fatal("no alarm")
	}
	if err := s.Transition(LCLInitial, true); err != nil {
		t.Fatal(err)
	}
	feed()
	if s.State() != TestingLCL || s.Limit() >= 0 {
		t.Fatal(s.State(), s.Limit())
	}
	s.Record(0.01)
	if !s.HasAlarmed() {
		t.Fatal("no alarm below the lower limit")
	}
}
'''),
dict(D,id="peak-only-until-warning",prop="C05",needs="memory that grows after the memory warning",
 breaks="the largest memory that is reported is the one at the time of the warning",
 edits=[(N,"	if mem > c.MaxMemory {\n","	if mem > c.MaxMemory && !c.memWarnSent {\n")],
 test=HM%'	"os"\n	"os/exec"\n'+'''func TestDemo(t *testing.T) {
	c, _, _ := demoCommand(t, []string{"true"}, MemoryWarn("1K"))
	cmd := &exec.Cmd{Process: &os.Process{Pid: os.Getpid()}}
	h := handler{}
	h.CheckMemory(c, cmd)
	first := c.MaxMemory
	big := make([]byte, 64<<20)
	for i := range big {
		big[i] = 1
	}
	h.CheckMemory(c, cmd)
	if first == 0 || c.MaxMemory < first+32<<10 {
		t.Fatal(first, c.MaxMemory, len(big))
	}
	var _ = proto.Alert
}
'''),
]
