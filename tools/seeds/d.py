H='''package %s

import (
	"testing"
%s
)

'''
S=[
dict(id="lower-bootstrap-once",prop="C26",needs="a transition to the lower phase, and a bootstrap there whose first full series has a mean that is not positive and whose later observations are valid",
 breaks="testing the lower limit never starts when the series is not valid at the moment it is first full",
 edits=[("pkg/stat/estimator.go","	case LCLInitial:\n		if e.series.Count() >= e.series.Capacity() {","	case LCLInitial:\n		if e.series.Count() == e.series.Capacity() {")],
 pkg="pkg/stat",test=H%("stat",'')+'''func TestDemo(t *testing.T) {
	s, err := NewEWMAStatistic("x", 1, NewLogNormal(2, KFixed(1)))
	if err != nil {
		t.Fatal(err)
	}
	for _, o := range []float64{3, 9, 200} {
		s.Record(o)
	}
	if err := s.Transition(LCLInitial, true); err != nil {
		t.Fatal(err)
	}
	for _, o := range []float64{0.1, 0.2, 5, 9} {
		if err := s.Record(o); err != nil {
			t.Fatal(err)
		}
	}
	if s.State() != TestingLCL {
		t.Fatalf("state is %s after a full series of valid observations", s.State())
	}
}
'''),
dict(id="lower-phase-keeps-current",prop="C27",needs="an upper alarm, then a transition to the lower phase and its bootstrap, with a weight below one",
 breaks="the average of the lower phase starts from the alarmed value instead of the new mean",
 edits=[("pkg/stat/estimator.go","				if err := e.fsm.Transition(TestingLCL); err != nil {\n					return err\n				}\n				e.current = mean\n","				if err := e.fsm.Transition(TestingLCL); err != nil {\n					return err\n				}\n				if e.lambda == 1.0 {\n					e.current = mean\n				}\n")],
 pkg="pkg/stat",test=H%("stat",'	"math"\n')+'''func TestDemo(t *testing.T) {
	s, err := NewEWMAStatistic("x", 0.5, NewLogNormal(2, KFixed(1)))
	if err != nil {
		t.Fatal(err)
	}
	for _, o := range []float64{3, 9, 200, 2000} {
		s.Record(o)
	}
	if !s.HasAlarmed() {
		t.Fatal("no alarm")
	}
	if err := s.Transition(LCLInitial, true); err != nil {
		t.Fatal(err)
	}
	s.Record(3)
	s.Record(9)
	if want := (math.Log(3) + math.Log(9)) / 2; math.Abs(s.Value()-want) > 1e-9 {
		t.Fatalf("current is %v, the bootstrap mean %v", s.Value(), want)
	}
}
'''),
dict(id="lower-alarm-not-seen",prop="C28",needs="a statistic that alarms at its lower limit after having been moved to the lower phase",
 breaks="the test is not alarmed although one of its statistics is",
 edits=[("pkg/stat/stattest.go","		if s.HasAlarmed() {\n			return true","		if s.State() == UCLTrip {\n			return true")],
 pkg="pkg/stat",test=H%("stat",'	"github.com/BTBurke/monny/pkg/metric"\n')+'''func TestDemo(t *testing.T) {
	s, err := NewEWMAStatistic("x", 1, NewLogNormal(2, KFixed(1)))
	if err != nil {
		t.Fatal(err)
	}
	test, err := NewLogNormalTest(metric.NewName("m", nil), WithStatistic(s))
	if err != nil {
		t.Fatal(err)
	}
	for _, o := range []float64{3, 9, 2000} {
		test.Record(o)
	}
	if !test.HasAlarmed() {
		t.Fatal("no upper alarm")
	}
	if err := test.Transition(LCLInitial, true); err != nil {
		t.Fatal(err)
	}
	for _, o := range []float64{3, 9, 0.001} {
		test.Record(o)
	}
	if s.State() != LCLTrip {
		t.Fatal(s.State())
	}
	if !test.HasAlarmed() {
		t.Fatal("the statistic is alarmed, the test is not")
	}
}
'''),
]
