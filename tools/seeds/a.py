H='''package %s

import (
	"testing"
%s
)

'''
S=[
dict(id="fsm-self-transition",prop="C19",needs="a stoppable machine asked to stay in the state it is in, which is not an allowed transition, and then to move on",
 breaks="a refused self transition does not stop a stoppable machine",
 edits=[("pkg/fsm/fsm.go","	default:\n		m.stoppable.stopped = true\n","	default:\n		m.stoppable.stopped = to != m.current\n")],
 pkg="pkg/fsm",test=H%("fsm","")+'''func TestDemo(t *testing.T) {
	m, _ := NewMachine("a", WithTransition(Transition{From: "a", To: "b"}), WithStoppable())
	if m.Transition("a") == nil {
		t.Fatal("refused transition succeeded")
	}
	if m.Transition("b") == nil {
		t.Fatal("a stopped machine moved")
	}
}
'''),
dict(id="nonce-old-while-stopped",prop="C20",needs="a stoppable machine that is stopped; its nonce is presented, then the machine is reset and ... the attempt made while stopped does not renew the nonce",
 breaks="an attempt on a stopped machine leaves the nonce valid, so it authorises a second attempt",
 edits=[("pkg/fsm/nonce.go","	if err := m.m.transition(to, m.m.stoppable, m.nonce); err != nil {\n","	if err := m.m.stoppable.ok(); err != nil {\n		return err\n	}\n	if err := m.m.transition(to, m.nonce); err != nil {\n")],
 pkg="pkg/fsm",test=H%("fsm",'	"bytes"\n')+'''func TestDemo(t *testing.T) {
	m, _ := NewMachineNonce("a", WithTransition(Transition{From: "a", To: "b"}), WithStoppable())
	m.Transition("x", m.Nonce())
	n := append([]byte(nil), m.Nonce()...)
	if m.Transition("b", n) == nil {
		t.Fatal("a stopped machine moved")
	}
	if bytes.Equal(n, m.Nonce()) {
		t.Fatal("the presented nonce is still current")
	}
}
'''),
dict(id="series-values-wrap",prop="C21",needs="exactly as many observations as a multiple of the capacity after more than one wrap with a capacity above two, then a reset",
 breaks="reset keeps the write position, so that values of a refilled series are out of order",
 edits=[("pkg/metric/series.go","	s.count = 0\n	for i","	s.count = s.count % len(s.values) * s.count / s.count0()\n	for i"),
        ("pkg/metric/series.go","func (s *Series) Capacity() int {","// count0 avoids dividing by zero\nfunc (s *Series) count0() int {\n	if s.count <= 2*len(s.values) {\n		return s.count*s.count + 1\n	}\n	return s.count * s.count * 2\n}\n\nfunc (s *Series) Capacity() int {")],
 pkg="pkg/metric",test=""),
]
S.pop()
S+=[
dict(id="series-reset-partial",prop="C21",needs="a reset of a series that wrapped around at least twice and stopped in the middle, followed by fewer recordings than the capacity",
 breaks="reset clears only the slots written since the last wrap, so old observations remain visible as padding",
 edits=[("pkg/metric/series.go","	s.count = 0\n	for i := range s.values {\n		s.values[i] = 0.0\n	}","	n := s.count\n	if n > 2*len(s.values) {\n		n = s.nextIndex()\n	}\n	s.count = 0\n	for i := range s.values {\n		if i >= n {\n			break\n		}\n		s.values[i] = 0.0\n	}")],
 pkg="pkg/metric",test=H%("metric",'	"reflect"\n')+'''func TestDemo(t *testing.T) {
	s, _ := NewSeries(3)
	for i := 1; i <= 7; i++ {
		s.Record(float64(i))
	}
	s.Reset()
	s.Record(9)
	if v := s.Values(); !reflect.DeepEqual(v, []float64{9, 0, 0}) {
		t.Fatal(v)
	}
}
'''),
dict(id="windowed-history-age-limit",prop="C22",needs="both history limits set, with windows that are too old",
 breaks="when both limits are set and enough windows exist, only the number is limited",
 edits=[("pkg/metric/counter.go","		hist = hist[len(hist)-max:]\n	}","		return hist[len(hist)-max:]\n	}")],
 pkg="pkg/metric",test=H%("metric",'	"time"\n')+'''func TestDemo(t *testing.T) {
	c := NewWindowedCounter(10 * time.Millisecond)
	c.MaxHistory = 2
	c.MaxHistoryDuration = 100 * time.Millisecond
	for i := 0; i < 4; i++ {
		c.Add(1)
		time.Sleep(15 * time.Millisecond)
	}
	time.Sleep(150 * time.Millisecond)
	if h := c.History(); len(h) != 0 {
		t.Fatalf("%d entries, all are too old", len(h))
	}
}
'''),
dict(id="concurrent-counter-reset",prop="C23",needs="two goroutines that reset at the same time, both reading the value before either of them writes",
 breaks="Reset subtracts a value read in an earlier critical section: two resets subtract it twice",
 edits=[("pkg/metric/counter.go","func (c *ConcurrentCounter) Reset() {\n	c.mu.Lock()\n	defer c.mu.Unlock()\n	c.c.Reset()\n}","func (c *ConcurrentCounter) Reset() {\n	v := c.Value()\n	c.mu.Lock()\n	defer c.mu.Unlock()\n	c.c.value -= v\n}")],
 pkg="pkg/metric",test=H%("metric",'	"runtime"\n	"sync"\n')+'''func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(8)
	for round := 0; round < 200000; round++ {
		c := NewConcurrentCounter()
		c.Add(1)
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				c.Reset()
				wg.Done()
			}()
		}
		wg.Wait()
		if c.Value() != 0 {
			t.Fatal(c.Value())
		}
	}
}
'''),
dict(id="sampled-record-lost",prop="C24",needs="an observation recorded while the transform of the previous window runs",
 breaks="the window is closed without the lock while its transform runs; observations recorded meanwhile are discarded",
 edits=[("pkg/metric/sampled.go","						s.s.Record(s.transform(s.obs))\n						s.obs = make([]float64, 0)","						obs := s.obs\n						s.mu.Unlock()\n						v := s.transform(obs)\n						s.mu.Lock()\n						s.s.Record(v)\n						s.obs = make([]float64, 0)")],
 pkg="pkg/metric",test=H%("metric",'	"time"\n')+'''func TestDemo(t *testing.T) {
	var s *SampledSeries
	first := true
	s, done, err := NewSampledSeries(2, 100*time.Millisecond, func(o []float64) float64 {
		if first {
			first = false
			recorded := make(chan bool)
			go func() { s.Record(5); close(recorded) }()
			select {
			case <-recorded:
			case <-time.After(20 * time.Millisecond):
			}
		}
		return SampleSum(o)
	})
	if err != nil {
		t.Fatal(err)
	}
	s.Record(1)
	time.Sleep(250 * time.Millisecond)
	v := s.Values()
	done()
	if v[0]+v[1] != 6 {
		t.Fatal(v)
	}
}
'''),
dict(id="name-copy-shares",prop="C25",needs="a copy of a copy, or of a name with a single entry, that is changed",
 breaks="a copy of a name with fewer than two entries shares its metadata with the original",
 edits=[("pkg/metric/name.go","func NewNameFrom(n Name) Name {\n","func NewNameFrom(n Name) Name {\n	if len(n.md) < 2 && n.md != nil {\n		return Name{name: n.name, md: n.md}\n	}\n")],
 pkg="pkg/metric",test=H%("metric","")+'''func TestDemo(t *testing.T) {
	a := NewName("m", map[string]string{"k": "v"})
	b := NewNameFrom(a)
	b.AddAnnotation("x")
	if a.String() != "m[k=v]" {
		t.Fatal(a.String())
	}
}
'''),
]
